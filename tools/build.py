"""Build /repo's current sources plus a /verif harness, out of tree.

Objects are cached under /verif/build (git-ignored) keyed by the hash of the
source text, of every header and data file, and of the compiler flags, so a
run always reflects /repo's working tree.
"""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

GDOME_CFLAGS = ["-I/usr/include/libgdome", "-I/usr/include/glib-2.0",
                "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include",
                "-I/usr/include/libxml2"]
GDOME_LIBS = ["-lgdome", "-lglib-2.0", "-lxml2"]

FLAVORS = {
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer",
             "-D_GLIBCXX_ASSERTIONS"],
    "fast": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
}
EXCLUDE = {"dom_xerces.cpp", "dom_stub.cpp"}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def header_hash():
    fs = []
    for d in ["ringing"] + ["apps/" + a for a in sorted(os.listdir(REPO + "/apps"))]:
        full = os.path.join(REPO, d)
        if not os.path.isdir(full):
            continue
        for f in sorted(os.listdir(full)):
            if f.endswith((".h", ".dat", ".awk", ".hpp", ".inc")):
                fs.append(os.path.join(full, f))
    fs += sorted(glob.glob(REPO + "/apps/gsiril/init/*"))
    fs += [VERIF + "/conf/ringing/common-am.h"]
    return sha(*[x for f in fs if os.path.isfile(f) for x in (f, read(f))])


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


class Builder:
    def __init__(self, flavor):
        self.flavor = flavor
        self.flags = FLAVORS[flavor]
        self.dir = os.path.join(BUILD, flavor)
        os.makedirs(self.dir, exist_ok=True)
        self.hh = header_hash()
        self.jobs = []          # (src, obj, extra flags)
        self.lock = open(os.path.join(self.dir, ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        fcntl.flock(self.lock, fcntl.LOCK_UN)

    def obj(self, src, extra=()):
        extra = list(extra)
        ver = ""
        if src.startswith(VERIF):
            for h in sorted(glob.glob(VERIF + "/src/*.h")):
                ver += sha(read(h))
        key = sha(src, read(src), self.hh, ver, " ".join(self.flags + extra))
        o = os.path.join(self.dir, os.path.basename(src)[:-4] + "-" + key + ".o")
        self.jobs.append((src, o, extra))
        return o

    def compile_all(self):
        todo = {}
        for src, o, extra in self.jobs:
            if not os.path.exists(o):
                todo[o] = (src, extra)
        self.jobs = []

        def one(item):
            o, (src, extra) = item
            tmp = o + ".tmp%d" % os.getpid()
            run(["g++", "-w"] + self.flags + extra +
                ["-I" + VERIF + "/conf", "-I" + REPO, "-I" + VERIF + "/src"] +
                GDOME_CFLAGS + ["-c", src, "-o", tmp])
            os.rename(tmp, o)
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            list(ex.map(one, todo.items()))

    def prune(self):
        # keep the cache small: drop the oldest files above 1500 entries
        fs = [os.path.join(self.dir, f) for f in os.listdir(self.dir) if not f.startswith(".")]
        if len(fs) > 1200:
            fs.sort(key=lambda f: os.stat(f).st_mtime)
            for f in fs[:len(fs) - 800]:
                try:
                    os.unlink(f)
                except OSError:
                    pass

    def lib_objs(self):
        return [self.obj(f) for f in sorted(glob.glob(REPO + "/ringing/*.cpp"))
                if os.path.basename(f) not in EXCLUDE]

    def link(self, name, objs, libs):
        key = sha(*sorted(objs), " ".join(libs))
        exe = os.path.join(self.dir, name + "-" + key)
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            link_flags = [f for f in self.flags if f.startswith("-fsanitize")]
            run(["g++"] + link_flags + ["-o", tmp] + objs + libs)
            os.rename(tmp, exe)
        os.utime(exe)
        return exe

    def harness(self, name, sources, extra=(), ldextra=(), utils=False, repo=()):
        if utils:  # a harness which calls apps/utils directly
            u = os.path.join(REPO, "apps", "utils")
            extra = list(extra) + ["-I" + u]
        objs = [self.obj(os.path.join(VERIF, "src", s), extra) for s in sources]
        # programs linked in, with their own flags (to rename main, say)
        objs += [self.obj(os.path.join(REPO, f), ["-I" + u] + list(fl)) for f, fl in repo]
        if utils:
            objs += [self.obj(f, ["-I" + u]) for f in sorted(glob.glob(u + "/*.cpp"))]
            ldextra = list(ldextra) + ["-lreadline", "-ltermcap"]
        lib = self.lib_objs()
        self.compile_all()
        self.prune()
        return self.link(name, objs + lib, list(ldextra) + GDOME_LIBS)

    def app(self, app):
        """Build the command-line program apps/<app>."""
        d = os.path.join(REPO, "apps", app)
        utils = os.path.join(REPO, "apps", "utils")
        extra = ["-I" + utils, "-I" + d]
        if app == "gsiril":
            initdir = os.path.join(self.dir, "init-" + self.hh)
            os.makedirs(initdir, exist_ok=True)
            out = os.path.join(initdir, "init.dat")
            if not os.path.exists(out):
                p = subprocess.run(["awk", "-f", d + "/escape.awk", d + "/init/gsiril.init"],
                                   stdout=subprocess.PIPE, check=True)
                with open(out + ".tmp", "wb") as f:
                    f.write(p.stdout)
                os.rename(out + ".tmp", out)
            extra.append("-I" + initdir)
        objs = [self.obj(f, extra) for f in sorted(glob.glob(d + "/*.cpp"))]
        uobjs = [self.obj(f, ["-I" + utils]) for f in sorted(glob.glob(utils + "/*.cpp"))]
        lib = self.lib_objs()
        self.compile_all()
        self.prune()
        return self.link(app, objs + uobjs + lib,
                         GDOME_LIBS + ["-lreadline", "-ltermcap"])


if __name__ == "__main__":
    with Builder(sys.argv[1]) as b:
        for a in sys.argv[2:]:
            print(b.app(a))
