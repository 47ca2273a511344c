"""Builds pmesh's Cython/C extensions from /repo's current tree into /verif/.build.

Nothing is written below /repo.  Each extension is cached under a hash of the
sources it is made of, so an unchanged extension is built once.  If the direct
build of an extension fails (for instance because the build recipe of the
repository changed), the repository's own setup.py is run on a scratch copy.
"""
import glob, hashlib, os, shutil, subprocess, sys, sysconfig, tempfile, time, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("PMV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CACHE = os.environ.get("PMV_CACHE", os.path.join(ROOT, ".build"))

RECIPES = {
    "_domain":     (["_domain.pyx"], []),
    "_window":     (["_window.pyx"], ["_window_imp.c"]),
    "_invariant":  (["_invariant.pyx"], []),
    "_whitenoise": (["_whitenoise.pyx"], ["_whitenoise_imp.c", "gsl/ranlxd.c", "gsl/missing.c", "gsl/rng.c"]),
}
# every file whose text can influence the extension
DEPS = {
    "_domain":     ["_domain.pyx", "*.pxd", "*.pxi"],
    "_window":     ["_window*.pyx", "_window*.c", "_window*.h", "*.pxd", "*.pxi"],
    "_invariant":  ["_invariant*.pyx", "_invariant_imp.c", "_invariant*.h", "*.pxd", "*.pxi"],
    "_whitenoise": ["_whitenoise.pyx", "_whitenoise*.h", "_whitenoise_imp.c", "gsl/*.c", "gsl/*.h", "*.pxd", "*.pxi"],
}

def _hash(name):
    h = hashlib.sha256()
    h.update(sys.version.encode())
    files = set()
    for pat in DEPS[name]:
        files.update(glob.glob(os.path.join(REPO, "pmesh", pat)))
    # generated C of another build is not a source
    files.discard(os.path.join(REPO, "pmesh", name + ".c"))
    for f in sorted(files) + [os.path.join(REPO, "setup.py")]:
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]

class BuildError(Exception):
    pass

def _direct(name, outdir):
    import numpy
    src = os.path.join(outdir, "src")
    shutil.copytree(os.path.join(REPO, "pmesh"), os.path.join(src, "pmesh"),
                    ignore=shutil.ignore_patterns("*.so", "tests", "__pycache__", name + ".c"))
    pyx, extra = RECIPES[name]
    cyt = [sys.executable, "-m", "cython", "--3str", os.path.join("pmesh", pyx[0]), "-o", os.path.join("pmesh", name + ".gen.c")]
    # cythonize() of the installed Cython defaults to language_level 3str
    r = subprocess.run(cyt, cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout)
    so = os.path.join(outdir, name + ".so")
    inc = ["-I.", "-Ipmesh", "-Ipmesh/gsl", "-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]
    objs = []
    for c in [name + ".gen.c"] + extra:
        o = os.path.join(src, os.path.basename(c) + ".o")
        opt = "-O1" if c.endswith(".gen.c") else "-O2"
        cmd = ["gcc", opt, "-fwrapv", "-DNDEBUG", "-fPIC", "-w"] + inc + ["-c", os.path.join("pmesh", c), "-o", o]
        r = subprocess.run(cmd, cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout)
        objs.append(o)
    r = subprocess.run(["gcc", "-shared", "-o", so + ".tmp"] + objs + ["-lm"], cwd=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout)
    os.rename(so + ".tmp", so)
    shutil.rmtree(src)
    return so

def _viasetup(name, outdir):
    src = tempfile.mkdtemp(prefix="pmv-setup-")
    try:
        dst = os.path.join(src, "repo")
        shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(".git", "*.so", "build", "__pycache__", name + ".c"))
        r = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace", "-j", "4"], cwd=dst,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout)
        so = glob.glob(os.path.join(dst, "pmesh", name + ".*.so"))
        if not so:
            raise BuildError("setup.py built no " + name)
        out = os.path.join(outdir, name + ".so")
        shutil.copy(so[0], out + ".tmp")
        os.rename(out + ".tmp", out)
        return out
    finally:
        shutil.rmtree(src, ignore_errors=True)

def build_one(name):
    h = _hash(name)
    outdir = os.path.join(CACHE, name + "-" + h)
    so = os.path.join(outdir, name + ".so")
    if os.path.exists(so):
        return so
    os.makedirs(outdir, exist_ok=True)
    with open(os.path.join(outdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        shutil.rmtree(os.path.join(outdir, "src"), ignore_errors=True)
        try:
            return _direct(name, outdir)
        except BuildError as e:
            first = str(e)
        try:
            return _viasetup(name, outdir)
        except BuildError as e:
            raise BuildError("building %s failed:\n%s\n%s" % (name, first[-3000:], str(e)[-3000:]))

def build(names=("_domain", "_window", "_invariant", "_whitenoise")):
    os.makedirs(CACHE, exist_ok=True)
    with ThreadPoolExecutor(max(1, len(names))) as ex:
        return dict(zip(names, ex.map(build_one, names)))

if __name__ == "__main__":
    t = time.time()
    print(build(), "%.1fs" % (time.time() - t))
