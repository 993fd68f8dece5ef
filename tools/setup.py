"""Checks that everything the framework needs is installed (nothing is built)."""
import subprocess
import sys

code = "import hypothesis, numpy, scipy, matplotlib; print('ok')"
python = "/opt/venv/bin/python"
sys.exit(subprocess.call([python, "-c", code]))
