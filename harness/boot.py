"""Environment set-up: builds the Cython kernels from /repo's current tree (out of tree) and makes
`import mass` use /repo's Python sources with those kernels.

Nothing is written in /repo or /opt/vp: extensions go to /verif/.build (git-ignored), keyed by content.
"""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
KERNELS = ["mass.core.cython_channel", "mass.core.analysis_algorithms",
           "mass.mathstat.robust", "mass.mathstat.entropy"]


class HarnessError(Exception):
    """Something outside the code under test went wrong (never a VIOLATION)."""


def _key(src, flags):
    h = hashlib.sha256()
    h.update(repr(flags).encode())
    h.update(sys.version.encode())
    with open(src, "rb") as f:
        h.update(f.read())
    d = os.path.dirname(src)
    for fn in sorted(os.listdir(d)):
        if fn.endswith((".pxd", ".pxi")):
            with open(os.path.join(d, fn), "rb") as f:
                h.update(f.read())
    return h.hexdigest()[:20]


def build_kernels(kernels=KERNELS, extra=(), tag=""):
    """Compile the named .pyx modules of REPO; returns {module: path of .so}."""
    import numpy as np
    os.makedirs(BUILD, exist_ok=True)
    inc = ["-I" + np.get_include(), "-I" + sysconfig.get_paths()["include"]]
    flags = ["-O1", "-fPIC", "-shared", "-fwrapv", "-w", *extra]
    result, procs = {}, []
    for name in kernels:
        src = os.path.join(REPO, name.replace(".", "/") + ".pyx")
        if not os.path.exists(src):
            raise HarnessError(f"{src} does not exist")
        key = _key(src, flags)
        so = os.path.join(BUILD, f"{name}.{tag}{key}.so")
        result[name] = so
        if os.path.exists(so):
            continue
        tmp = tempfile.mkdtemp(prefix="b_", dir=BUILD)
        c = os.path.join(tmp, name.split(".")[-1] + ".c")
        tso = os.path.join(tmp, "out.so")
        py = sys.executable
        cmd = (f"'{py}' -m cython -3 --module-name {name} -I '{REPO}' '{src}' -o '{c}' && "
               f"gcc {' '.join(flags)} {' '.join(inc)} '{c}' -o '{tso}' -lm && mv '{tso}' '{so}'; "
               f"rc=$?; rm -rf '{tmp}'; exit $rc")
        procs.append((name, subprocess.Popen(["bash", "-c", cmd], stdout=subprocess.PIPE,
                                             stderr=subprocess.STDOUT, text=True)))
    bad = []
    for name, p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            bad.append(f"{name}: {o[-3000:]}")
    if bad:
        raise HarnessError("kernel build failed\n" + "\n".join(bad))
    return result


class _KernelFinder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, fullname, path=None, target=None):
        so = self.table.get(fullname)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, so)
        return importlib.util.spec_from_file_location(fullname, so, loader=loader)


_scratch = None


def scratch_root():
    """A per-run scratch directory on a RAM disk if possible."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        try:
            _scratch = tempfile.mkdtemp(prefix="massvp_", dir=base)
        except OSError:
            _scratch = tempfile.mkdtemp(prefix="massvp_")
    return _scratch


def boot(kernels=None):
    """Prepare the interpreter; call once per process before importing mass."""
    os.environ["MPLBACKEND"] = "agg"
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch_root(), "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    sys.dont_write_bytecode = True
    table = kernels if kernels is not None else build_kernels()
    sys.meta_path.insert(0, _KernelFinder(table))
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") not in (REPO,)]
    sys.path.insert(0, REPO)
    tools = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if tools not in sys.path:
        sys.path.append(tools)   # hypothesis; at the end so the repository's own packages win
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.getLogger("mass").setLevel(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")
    import mass
    import mass.off  # noqa: F401
    import mass.materials  # noqa: F401
    if not os.path.abspath(mass.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError(f"mass imported from {mass.__file__}, not from {REPO}")
    logging.getLogger("mass").setLevel(logging.CRITICAL)
    return table
