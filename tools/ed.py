import sys
# ed.py FILE : reads stdin "OLD\n=====\nNEW"
f=sys.argv[1] if sys.argv[1].startswith('/') else '/repo/'+sys.argv[1]; s=open(f).read()
old,new=sys.stdin.read().split("\n=====\n")
old=old.strip("\n"); new=new.strip("\n")
assert s.count(old)==1,(s.count(old),old)
open(f,'w').write(s.replace(old,new))
