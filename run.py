"""Entry point of all checks: run.py --property C01 [--tier quick|thorough] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def bootstrap():
    """Re-execute with a clean, deterministic environment."""
    import tempfile

    if os.environ.get("LATTPY_VERIF_BOOT") == "1":
        return
    scratch = tempfile.mkdtemp(prefix="lattpy-verif-")
    env = dict(os.environ)
    env.update(
        LATTPY_VERIF_BOOT="1",
        LATTPY_VERIF_SCRATCH=scratch,
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hypothesis"),
    )
    env.pop("PYTHONPATH", None)
    import shutil
    import subprocess

    python = "/opt/venv/bin/python"
    if not os.path.exists(python):
        python = sys.executable
    proc = None
    try:
        proc = subprocess.Popen([python, *sys.argv], env=env)
        code = proc.wait()
    finally:
        if proc is not None and proc.poll() is None:
            proc.kill()
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    bootstrap()
    sys.path.insert(0, HERE)
    from vlib.core import main

    sys.exit(main(sys.argv[1:]))
