"""Builds /repo's library sources plus a harness, from the current working tree.

Objects are cached in /verif/build by a hash of (compiler, flags, every header
and the source), so that a change anywhere in /repo/src leads to a rebuild.
"""
import concurrent.futures, glob, hashlib, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
def subst(s):
    return s.replace("$REPO", REPO).replace("$VERIF", VERIF)


BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/g++-14"
COMMON = ["-std=c++23", "-D_GLIBCXX_USE_TBB_PAR_BACKEND=0", "-D_GLIBCXX_ASSERTIONS", "-w",
          "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "lib")]
PROFILES = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"],
    "fast": ["-O2", "-g1"],
}
LIBDIRS = ["utils", "domain", "infra", "app"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash():
    h = hashlib.sha256()
    pats = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".hpp", ".h", ".ipp", ".tpp", ".hxx", ".inl")):
                pats.append(os.path.join(root, f))
    for p in pats:
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


def verif_headers_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp")) + glob.glob(os.path.join(VERIF, "lib", "**", "*.h*"), recursive=True) + glob.glob(os.path.join(VERIF, "lib", "stubs", "Q*"))):
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])


def compile_one(src, flags, extra_hash):
    key = sha(CXX, " ".join(flags), extra_hash, src, read(src))
    out = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp.o" % os.getpid()
        run([CXX] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out


def lib_sources():
    out = []
    for d in LIBDIRS:
        out += glob.glob(os.path.join(REPO, "src", d, "**", "*.cpp"), recursive=True)
    return sorted(out)


def detached(src):
    """A copy, out of reach of the headers next to the original: stubs replace those."""
    out = os.path.join(BUILD, "copy", sha(src, read(src)), os.path.basename(src))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    shutil.copyfile(src, tmp)
    os.rename(tmp, out)
    return out


QT = "/usr/lib/qt6/libexec"
QTINC = "/usr/include/x86_64-linux-gnu/qt6"
QTFLAGS = ["-fPIC", "-DQT_CORE_LIB", "-DQT_GUI_LIB", "-DQT_WIDGETS_LIB", '-DOEMSH_BUGREPORT="b"', '-DOEMSH_FUNDING="f"',
           '-DOEMSH_HOMEPAGE="h"', '-DOEMSH_OEMS_MESHING="m"', '-DOEMSH_VERSION="1.2.3-mc"'] + \
          [x for d in ["", "/QtCore", "/QtGui", "/QtWidgets"] for x in ("-isystem", QTINC + d)]


def qt_parts():
    """Sources of the graphical interface, what Qt's tools generate for it, and the include flags."""
    root = os.path.join(REPO, "src", "ui", "qt")
    every = sorted(p for ext in ("hpp", "cpp", "ui", "qrc") for p in glob.glob(os.path.join(root, "**", "*." + ext), recursive=True))
    gen = os.path.join(BUILD, "qt", sha(*[p.encode() + b"\0" + read(p) for p in every if not p.endswith(".cpp")]))
    outs, cmds = [], []
    for p in every:
        rel = os.path.relpath(p, root).replace("/", "_")
        if p.endswith(".hpp") and b"Q_OBJECT" in read(p):
            o = os.path.join(gen, "moc_" + rel[:-4] + ".cpp")
            cmds.append([QT + "/moc", "-I" + os.path.join(REPO, "src"), "-I" + root, p, "-o", o])
            outs.append(o)
        elif p.endswith(".ui"):
            cmds.append([QT + "/uic", p, "-o", os.path.join(gen, "ui_" + os.path.basename(p)[:-3] + ".h")])
        elif p.endswith(".qrc"):
            o = os.path.join(gen, "qrc_" + rel[:-4] + ".cpp")
            cmds.append([QT + "/rcc", "--name", os.path.basename(p)[:-4], p, "-o", o])
            outs.append(o)
    if not os.path.exists(os.path.join(gen, "done")):
        os.makedirs(gen, exist_ok=True)
        with open(os.path.join(gen, "changelog.hpp"), "w") as f: # Generated by the project's build otherwise.
            f.write('#pragma once\n#include <string_view>\ninline std::string_view constexpr changelog = "";\n')
        for c in cmds:
            run(c)
        open(os.path.join(gen, "done"), "w").close()
    return [p for p in every if p.endswith(".cpp")] + outs, QTFLAGS + ["-I" + gen]


def build(harness, profile="asan", extra_flags=(), extra_sources=(), libs=("-lpugixml",), qt=False):
    """Returns the path of the harness executable."""
    flags = COMMON + PROFILES[profile]
    extra_flags, extra_sources, libs = list(extra_flags), list(extra_sources), list(libs)
    if qt:
        qs, qf = qt_parts()
        extra_sources += qs
        extra_flags += qf
        flags = flags + ["-fPIC"]
        libs += ["-lQt6Widgets", "-lQt6Gui", "-lQt6Core"]
    hh = headers_hash()
    vh = verif_headers_hash()
    jobs = [(s, flags, hh) for s in lib_sources()]
    jobs += [(detached(s[1:]) if s.startswith("@") else s, flags + list(extra_flags), hh + vh) for s in extra_sources]
    jobs.insert(0, (os.path.join(VERIF, "harness", harness + ".cpp"), flags + list(extra_flags), hh + vh))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    key = sha(*objs, " ".join(libs), profile)
    exe = os.path.join(BUILD, "bin", harness + "-" + key)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        run([CXX] + PROFILES[profile] + objs + list(libs) + ["-o", tmp])
        os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    try:
        print(build(sys.argv[1], *(sys.argv[2:3])))
    except BuildError as e:
        print(e)
        sys.exit(2)
