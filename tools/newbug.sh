#!/bin/bash
# newbug.sh ID PROPERTY "needs" "what it breaks" < demo.cpp
# Takes the current diff of /repo as the planted bug, and undoes it.
set -e
S=/verif/seeded/$1; mkdir -p $S
git -C /repo diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no diff"; exit 1; }
git -C /repo checkout -q -- .
cat > $S/demo.cpp
cp /verif/lib/oemsh.hpp /verif/lib/corpus.hpp $S/
cat > $S/demo.sh <<'X'
#!/bin/bash
# Run in /repo after its build. Everything is written in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
g++-14 -std=c++23 -O0 -w -D_GLIBCXX_USE_TBB_PAR_BACKEND=0 -I src -I "$here" "$here/demo.cpp" -o "$w/demo" \
	-L "$PWD/_build/src" -lopenemsh -lpugixml -Wl,-rpath,"$PWD/_build/src" || exit 2
cd "$w" && timeout 120 ./demo
X
python3 - "$S/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
bash /verif/tools/trybug.sh $1
