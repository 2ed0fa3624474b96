"""Load philtorch from /repo's working tree.

The Python files are always imported from /repo.  The native extension is the one
/opt/vp/build.sh left in /repo when it is certainly built from the current sources;
otherwise the current sources are compiled into /verif/.build/<content hash>.
"""
import glob
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("PHILTORCH_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CSRC = os.path.join(REPO, "philtorch", "csrc")
PY = "/opt/venv/bin/python"


def sources():
    return sorted(glob.glob(os.path.join(CSRC, "*.cpp")))


def src_hash(*extra):
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(CSRC, "*"))) + list(extra):
        if os.path.isfile(f):
            h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def torch_flags():
    import torch
    from torch.utils import cpp_extension as ce

    inc = [f"-isystem{p}" for p in ce.include_paths()] + [f"-isystem{sysconfig.get_paths()['include']}"]
    lib = os.path.join(os.path.dirname(torch.__file__), "lib")
    abi = int(torch._C._GLIBCXX_USE_CXX11_ABI)
    return inc, lib, [f"-D_GLIBCXX_USE_CXX11_ABI={abi}", "-DTORCH_API_INCLUDE_EXTENSION_H", "-DTORCH_EXTENSION_NAME=_C"]


def _prebuilt():
    so = glob.glob(os.path.join(REPO, "philtorch", "_C*.so"))
    seen = os.path.join(REPO, "build", "seen")
    if len(so) != 1 or not os.path.isdir(seen):
        return None
    for f in [os.path.join(REPO, "setup.py")] + sorted(glob.glob(os.path.join(CSRC, "*"))):
        g = os.path.join(seen, os.path.basename(f))
        if not os.path.isfile(g) or open(f, "rb").read() != open(g, "rb").read():
            return None
    return so[0]


def build(kind, extra_src=(), cflags=(), ldflags=(), out_name="_C.so", shared=True, cxx="g++", repo_src=True):
    """Compile the repository's csrc/*.cpp (plus extra files) in parallel; cached by content."""
    key = hashlib.sha256((src_hash(*extra_src) + repr((kind, cflags, ldflags, cxx, shared, repo_src))).encode()).hexdigest()[:20]
    base = os.path.join(VERIF, ".build")
    out = os.path.join(base, f"{kind}-{key}", out_name)
    if os.path.exists(out):
        return out
    os.makedirs(base, exist_ok=True)
    for old in glob.glob(os.path.join(base, f"{kind}-*")):
        shutil.rmtree(old, ignore_errors=True)
    inc, lib, defs = torch_flags()
    tmp = tempfile.mkdtemp(prefix=f"{kind}-", dir=base)
    try:
        procs, objs = [], []
        for s in (sources() if repo_src else []) + list(extra_src):
            o = os.path.join(tmp, os.path.basename(s) + ".o")
            objs.append(o)
            cmd = [cxx, "-std=c++20", "-fPIC", "-fopenmp", "-fno-strict-overflow", "-w", *defs, *inc, *cflags, "-c", s, "-o", o]
            procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for cmd, p in procs:
            txt = p.communicate()[0]
            if p.returncode:
                raise RuntimeError("compile failed: " + " ".join(cmd) + "\n" + txt[-4000:])
        dst = os.path.join(tmp, out_name)
        cmd = [cxx, *(["-shared"] if shared else []), "-fopenmp", *objs, f"-L{lib}", f"-Wl,-rpath,{lib}", *ldflags,
               "-lc10", "-ltorch", "-ltorch_cpu", *(["-ltorch_python"] if shared else []), "-o", dst]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("link failed: " + " ".join(cmd) + "\n" + r.stdout[-4000:])
        for o in objs:
            os.unlink(o)
        final = os.path.join(base, f"{kind}-{key}")
        try:
            os.rename(tmp, final)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        return out
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise


def extension():
    return _prebuilt() or build("ext", cflags=("-O2",))


class _Finder:
    def __init__(self, path):
        self.path = path  # None: the extension does not exist

    def find_spec(self, name, path=None, target=None):
        if name != "philtorch._C":
            return None
        if self.path is None:
            raise ModuleNotFoundError("philtorch._C is withheld by the monitor", name=name)
        loader = importlib.machinery.ExtensionFileLoader(name, self.path)
        return importlib.util.spec_from_file_location(name, self.path, loader=loader)


def philtorch(ext=True, helion=True):
    """Import philtorch from /repo and return it."""
    sys.dont_write_bytecode = True
    import warnings

    warnings.filterwarnings("ignore")
    path = extension() if ext else None
    sys.meta_path.insert(0, _Finder(path))
    if not helion:
        sys.modules["philtorch._helion"] = None
    if sys.path[:1] != [REPO]:
        sys.path.insert(0, REPO)
    import philtorch as p

    assert os.path.realpath(p.__file__) == os.path.realpath(os.path.join(REPO, "philtorch", "__init__.py")), p.__file__
    assert p.EXTENSION_LOADED == ext, (p.EXTENSION_LOADED, ext)
    import philtorch.lti, philtorch.lpv, philtorch.mat, philtorch.poly, philtorch.lti.interp  # noqa

    return p
