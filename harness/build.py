"""Out-of-tree build of /repo's Cython extensions, and an import hook that serves them.

The extensions are always compiled from /repo's current .pyx/.pxd files (never the .so files lying in
the working tree, which may be stale); results are cached by a hash of the sources.
"""
import hashlib, importlib.abc, importlib.machinery, importlib.util, os, subprocess, sys, sysconfig, tempfile, shutil, fcntl

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
MODS = ("graph", "stack", "treaps")


def _sources(udir):
    out = []
    for fn in sorted(os.listdir(udir)):
        if fn.endswith((".pyx", ".pxd")) and not fn.startswith("tree_decomp"):
            out.append(os.path.join(udir, fn))
    return out


def build(flavour="plain", mods=MODS):
    """Returns the directory holding one extension file per module."""
    import numpy
    udir = os.path.join(REPO, "switss", "utils")
    cflags = ["-O1", "-g0", "-fPIC", "-shared", "-w", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION"]
    extra = []
    shim = os.path.join(VERIF, "harness", "allocshim.h")
    if flavour == "asan":
        extra = ["-include", shim, "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                 "-fno-omit-frame-pointer", "-fno-sanitize=alignment"]
    h = hashlib.sha256()
    for p in _sources(udir):
        h.update(os.path.basename(p).encode()); h.update(open(p, "rb").read())
    h.update(repr((flavour, cflags, extra, sys.version, mods)).encode())
    if os.path.exists(shim):
        h.update(open(shim, "rb").read())
    out = os.path.join(CACHE, flavour + "-" + h.hexdigest()[:20])
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "OK")):
            return out
        # drop older results of this flavour
        for d in os.listdir(CACHE):
            if d.startswith(flavour + "-"):
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="swb-")
        try:
            pk = os.path.join(tmp, "switss"); pu = os.path.join(pk, "utils")
            os.makedirs(pu)
            open(os.path.join(pk, "__init__.py"), "w").close()
            open(os.path.join(pu, "__init__.py"), "w").close()
            for p in _sources(udir):
                shutil.copy(p, pu)
            inc = ["-I", sysconfig.get_paths()["include"], "-I", numpy.get_include()]
            os.makedirs(os.path.join(tmp, "out"))
            procs = []
            for m in mods:
                cmd = ("%s -m cython -3 switss/utils/%s.pyx -o %s.c && gcc %s %s %s.c -o out/%s.so" % (
                    sys.executable, m, m, " ".join(cflags + extra), " ".join(inc), m, m))
                procs.append((m, subprocess.Popen(["bash", "-c", cmd], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            for m, pr in procs:
                o, _ = pr.communicate()
                if pr.returncode != 0:
                    raise RuntimeError("building %s failed:\n%s" % (m, o.decode()[-3000:]))
            open(os.path.join(tmp, "out", "OK"), "w").close()
            shutil.copytree(os.path.join(tmp, "out"), out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, d):
        self.d = d

    def find_spec(self, name, path=None, target=None):
        if name.startswith("switss.utils."):
            p = os.path.join(self.d, name.rsplit(".", 1)[1] + ".so")
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(
                    name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
        return None


def install(d):
    sys.meta_path.insert(0, _Finder(d))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
