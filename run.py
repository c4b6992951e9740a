#!/opt/venv/bin/python
"""Entry point of every check: run.py <property id> [--tier quick|thorough] [--replay FILE]."""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
_ENV = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "HOME": "/root",
        "PYTHONDONTWRITEBYTECODE": "1", "SETUPTOOLS_SCM_PRETEND_VERSION": "0.8.6", "HDF5_USE_FILE_LOCKING": "FALSE"}


def main():
    if any(os.environ.get(k) != v for k, v in _ENV.items()) or sys.executable != "/opt/venv/bin/python":
        os.environ.update(_ENV)
        os.environ.pop("PYTHONPATH", None)
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", "-W", "ignore", os.path.abspath(__file__), *sys.argv[1:]])
    import shutil
    import traceback
    from harness import boot
    rc = 2
    try:
        if sys.argv[1] == "--build":
            boot.build_kernels()
            rc = 0
        else:
            prop = sys.argv[1]
            boot.boot()
            import importlib
            from harness import core
            mod = importlib.import_module(f"checks.{prop}")
            rc = core.main(prop, mod.RULE, mod.ASSUMPTIONS, sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        if boot._scratch:
            shutil.rmtree(boot._scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()
