"""Binding to the code under test.

The Python sources are imported straight from the repository's working tree.
The two Cython extensions are (re)built from the working tree's current C and
Cython sources unless an existing build is known, by content hash of every
source, to come from exactly these sources.
"""
import fcntl
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = pathlib.Path(__file__).resolve().parent.parent
EXTS = {"pystatsm.utilities.cython_wrappers": "cython_wrappers",
        "pystatsm.utilities.ordered_indices": "ordered_indices"}


def _sources():
    root = pathlib.Path(REPO)
    out = [root / "setup.py"]
    u = root / "pystatsm" / "utilities"
    for pat in ("*.pyx", "*.pxd", "src/*.c", "src/*.h"):
        out += list(u.glob(pat))
    return sorted(set(out))


def _hash():
    h = hashlib.sha256()
    for p in _sources():
        h.update(str(p.relative_to(REPO)).encode() + b"\0")
        h.update(p.read_bytes() + b"\0")
    return h.hexdigest()[:24]


def _cache_root():
    for c in (HERE / ".cache" / "ext", pathlib.Path(tempfile.gettempdir()) / "verif_ext_cache"):
        try:
            c.mkdir(parents=True, exist_ok=True)
            t = c / f".w{os.getpid()}"
            t.write_text("x")
            t.unlink()
            return c
        except OSError:
            continue
    return pathlib.Path(tempfile.mkdtemp(prefix="verif_ext_"))


def _find(d):
    got = {}
    for full, short in EXTS.items():
        hits = sorted(pathlib.Path(d).rglob(short + ".*.so"))
        if not hits:
            return None
        got[full] = str(hits[0])
    return got


def build_ext():
    """Return {module name: path of .so} built from the current sources."""
    root = _cache_root()
    dest = root / _hash()
    got = _find(dest) if dest.exists() else None
    if got:
        return got
    lock = open(root / "lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        got = _find(dest) if dest.exists() else None
        if got:
            return got
        work = pathlib.Path(tempfile.mkdtemp(prefix="verif_extbuild_"))
        try:
            shutil.copy(pathlib.Path(REPO) / "setup.py", work / "setup.py")
            u = work / "pystatsm" / "utilities"
            (u / "src").mkdir(parents=True)
            (work / "pystatsm" / "__init__.py").write_text("")
            (u / "__init__.py").write_text("")
            for p in _sources()[0:]:
                rel = p.relative_to(REPO)
                if str(rel) != "setup.py":
                    shutil.copy(p, work / rel)
            r = subprocess.run([sys.executable, "-W", "ignore", "setup.py", "build_ext", "--inplace", "--force"],
                               cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, CFLAGS="-O1 -w", PYTHONDONTWRITEBYTECODE="1"))
            found = _find(u)
            if r.returncode or not found:
                sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
                raise RuntimeError("extension build failed")
            tmp = root / (dest.name + f".tmp{os.getpid()}")
            tmp.mkdir()
            for p in found.values():
                shutil.copy(p, tmp)
            os.replace(tmp, dest)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return _find(dest)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self):
        self.paths = None

    def find_spec(self, name, path=None, target=None):
        if name in EXTS:
            if self.paths is None:
                self.paths = build_ext()
            p = self.paths[name]
            return importlib.util.spec_from_file_location(
                name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
        return None


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pystatsm
    src = os.path.realpath(pystatsm.__file__ or list(pystatsm.__path__)[0])
    assert src.startswith(os.path.realpath(REPO) + os.sep), src
