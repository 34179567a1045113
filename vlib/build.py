"""Content-addressed builds of /repo's current working tree.

Nothing here looks at mtimes: an object is reused only if the compile command and the contents
of every file the compiler read are unchanged.  Output goes to /verif/.build (git-ignored)."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
VENV = "/opt/gfft/venv"
PY = VENV + "/bin/python"

NRLIB_FLAGS = ["-std=gnu++17", "-w", "-DHAS_BOOST_FILESYSTEM", "-DUSE_BOOST", "-DFLENS_FIRST_INDEX=0",
               f"-I{REPO}/src", f"-I{REPO}/src/nrlib", "-I/usr/include/x86_64-linux-gnu/openblas-pthread"]
EXT_FLAGS = ["-std=gnu++17", "-w", "-fPIC", "-DNDEBUG", "-fvisibility=hidden", "-DVECLIB",
             '-DFLENS_FIRST_INDEX="0"', '-DACCELERATE_NEW_LAPACK="1"', '-DACCELERATE_LAPACK_ILP64="1"',
             "-DGAUSSIANFFT_STATIC_DEFINE", "-isystem", "/usr/include/python3.12",
             "-isystem", VENV + "/include/fftw",
             "-isystem", VENV + "/lib/python3.12/site-packages/pybind11/include", f"-I{REPO}/src"]
MKL = ["-L" + VENV + "/lib", "-Wl,-rpath," + VENV + "/lib", "-Wl,--start-group", "-lmkl_intel_ilp64",
       "-lmkl_gnu_thread", "-lmkl_core", "-Wl,--end-group", "-lgomp", "-lpthread", "-lm", "-ldl"]
LIBS = ["-lboost_filesystem", "-lfftw3", "-lfftw3f", "-llapacke", "-lopenblas", "-lpthread", "-lm"]

VARIANTS = {
    # uninitialised automatic variables hold a pattern, so that code depending on one is seen to
    "rel": ["-O2", "-ftrivial-auto-var-init=pattern"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-ftrivial-auto-var-init=pattern"],
    "ubsan": ["-O1", "-g1", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"],
}


class BuildError(Exception):
    pass


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha1(f.read()).hexdigest()
    except OSError:
        return None


_shacache = {}


def csha(path):
    if path not in _shacache:
        _shacache[path] = sha(path)
    return _shacache[path]


def _compile(src, flags, objdir):
    cmd = ["gcc" if src.endswith(".c") else "g++", *flags, "-c", src]
    key = hashlib.sha1("\0".join(cmd).encode()).hexdigest()[:20]
    obj = os.path.join(objdir, key + ".o")
    meta = obj + ".json"
    try:
        with open(meta) as f:
            m = json.load(f)
        if os.path.exists(obj) and all(csha(p) == h for p, h in m.items()):
            return obj
    except (OSError, ValueError):
        pass
    dep = obj + ".d"
    r = subprocess.run([*cmd, "-MD", "-MF", dep, "-o", obj], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"compiling {src} failed:\n{r.stderr[-4000:]}")
    with open(dep) as f:
        deps = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    os.remove(dep)
    # system headers do not change under us
    deps = [d for d in deps if not d.startswith(("/usr/", "/opt/gfft/"))]
    with open(meta + ".tmp", "w") as f:
        json.dump({d: csha(d) for d in deps}, f)
    os.replace(meta + ".tmp", meta)
    return obj


def compile_all(jobs):
    """jobs: list of (src, flags); returns the object list, in order."""
    objdir = os.path.join(OUT, "obj")
    os.makedirs(objdir, exist_ok=True)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        return list(ex.map(lambda j: _compile(j[0], j[1], objdir), jobs))


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def nrlib_sources():
    s = glob.glob(f"{REPO}/src/nrlib/**/*.cpp", recursive=True) + glob.glob(f"{REPO}/src/flens/*.cc")
    return sorted(p for p in s if not any(k in p for k in ("/unittests/", "/backup/", "/experimentation/"))
                  and not p.endswith("pchheader.cpp"))


def _archive(objs, name):
    key = hashlib.sha1("\0".join(o + str(sha(o)) for o in objs).encode()).hexdigest()[:20]
    lib = os.path.join(OUT, f"lib{name}-{key}.a")
    if not os.path.exists(lib):
        for old in glob.glob(os.path.join(OUT, f"lib{name}-*.a")):
            os.remove(old)
        tmp = lib + ".tmp"
        if os.path.exists(tmp):
            os.remove(tmp)
        subprocess.run(["ar", "crs", tmp, *objs], check=True)
        os.replace(tmp, lib)
    return lib


def nrlib_archive(variant, extra=()):
    flags = VARIANTS[variant] + list(extra) + NRLIB_FLAGS
    objs = compile_all([(s, flags) for s in nrlib_sources()])
    return _archive(objs, "nrlib_" + variant)


def build_cpp(name, src, variant="rel", extra=(), whole=True):
    """Links harness `src` against all of nrlib, compiled from /repo's tree."""
    with Lock():
        flags = VARIANTS[variant] + list(extra) + NRLIB_FLAGS + [f"-I{VERIF}/vlib", f"-I{VERIF}/ref"]
        srcs = nrlib_sources()
        libflags = VARIANTS[variant] + list(extra) + NRLIB_FLAGS
        objs = compile_all([(src, flags)] + [(s, libflags) for s in srcs])
        lib = _archive(objs[1:], "nrlib_" + variant)
        exe = os.path.join(OUT, f"{name}-{variant}")
        r = subprocess.run(["g++", *VARIANTS[variant], *extra, objs[0], lib, *LIBS, "-ldl", "-rdynamic",
                            "-o", exe + ".tmp"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"linking {name} failed:\n{r.stderr[-4000:]}")
        os.replace(exe + ".tmp", exe)
        return exe


def build_ext(name="ext", extra=(), extra_src=(), opt=("-O2", "-ftrivial-auto-var-init=pattern"), link=(), fft=None):
    """The Python extension and an overlay copy of the gaussianfft package; returns PYTHONPATH dir."""
    with Lock():
        flags = [*opt, *extra, *EXT_FLAGS]
        top = [f"{REPO}/src/gaussfftinterface.cpp"] + sorted(
            p for p in glob.glob(f"{REPO}/src/*.cpp") if not p.endswith("gaussfftinterface.cpp"))
        skip = ("/flens/", "/statistics/", "/segy/", "/well/", "/eclipsegrid/", "/tinyxml/", "/wavelet/",
                "/trend/", "/volume/", "/stormgrid/", "/pointset/", "/surface/", "/geometry/")
        lib = [s for s in nrlib_sources() if not any(k in s for k in skip)]
        objs = compile_all([(s, flags) for s in top] + [(s, flags) for s in lib]
                           + [(s, [*opt, *EXT_FLAGS]) for s in extra_src])
        nt, nl = len(top), len(lib)
        a = _archive(objs[nt:nt + nl], "ext_" + name)
        pkg = os.path.join(OUT, "pkg_" + name)
        shutil.rmtree(pkg, ignore_errors=True)
        os.makedirs(pkg)
        so = os.path.join(pkg, "_gaussianfft.cpython-312-x86_64-linux-gnu.so")
        r = subprocess.run(["g++", "-shared", *opt, *link, "-o", so, *objs[:nt], *objs[nt + nl:], a, *(fft or MKL)],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"linking the extension failed:\n{r.stderr[-4000:]}")
        shutil.copytree(f"{REPO}/gaussianfft", pkg + "/gaussianfft",
                        ignore=shutil.ignore_patterns("__pycache__"))
        v = pkg + "/gaussianfft/_version.py"
        if not os.path.exists(v):
            with open(v, "w") as f:
                f.write("__version__ = version = '0.0.0'\n")
        return pkg


def build_shared(name, src, flags=("-O2",)):
    with Lock():
        objs = compile_all([(src, [*flags, "-fPIC", "-w"])])
        so = os.path.join(OUT, f"lib{name}.so")
        r = subprocess.run(["g++", "-shared", "-o", so + ".tmp", *objs, "-lm", "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        os.replace(so + ".tmp", so)
        return so
