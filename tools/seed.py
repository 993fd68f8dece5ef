"""Builds and confirms a planted bug (development tool, not used by any check).

usage: seed.py SPEC.py [id ...]

SPEC.py defines BUGS: a list of dicts with id, property, needs, what_it_breaks,
edits (list of (file, old, new)) and demo (source of demo.py). For every bug the patch
is applied to a scratch copy of /repo, the tests, the demo and the check of the property
are run there, and the result is written to /verif/seeded/<id>/ if the bug is valid.
"""

import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
"""


def run(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)


def record(name, by):
    path = pathlib.Path("/verif/tools/caught.json")
    data = json.loads(path.read_text()) if path.exists() else {}
    data[name] = by
    path.write_text(json.dumps(data, indent=1, sort_keys=True) + "\n")


def main(spec, ids):
    for bug in runpy.run_path(spec)["BUGS"]:
        if ids and bug["id"] not in ids:
            continue
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="seed_", dir="/tmp"))
        try:
            copy = tmp / "repo"
            shutil.copytree("/repo", copy, symlinks=True)
            for file, old, new in bug["edits"]:
                path = copy / file
                text = path.read_text()
                assert text.count(old) == 1, (bug["id"], file, text.count(old), old)
                path.write_text(text.replace(old, new))
            diff = run(["git", "diff"], copy).stdout
            d = tmp / "bug"
            d.mkdir()
            (d / "demo.py").write_text(bug["demo"].lstrip("\n"))
            (d / "demo.sh").write_text(DEMO_SH)
            (d / "patch.diff").write_text(diff)
            keys = "property", "needs", "what_it_breaks"
            meta = {k: bug[k] for k in keys}
            (d / "meta.json").write_text(json.dumps(meta, indent=2) + "\n")
            tests = run(
                [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                 "--hypothesis-profile=ci", "lattpy"],
                copy, PYTHONPATH=str(copy), HYPOTHESIS_STORAGE_DIRECTORY=str(tmp),
            )
            good = run(["bash", str(d / "demo.sh")], "/repo")
            bad = run(["bash", str(d / "demo.sh")], copy)
            check = run(
                [PY, "/verif/run.py", "--property", bug["property"]], "/verif",
                LATTPY_VERIF_REPO=str(copy), VERIF_SEED="1", VERIF_TIER="quick",
            )
            ok = tests.returncode == 0 and good.returncode == 0 and bad.returncode
            print(
                bug["id"], "VALID" if ok else "INVALID", f"tests={tests.returncode}",
                f"demo={good.returncode}/{bad.returncode}",
                "CAUGHT" if check.returncode == 1 else f"MISSED({check.returncode})",
                flush=True,
            )
            if not ok:
                print(tests.stdout[-800:], good.stdout[-500:], good.stderr[-500:])
            else:
                print("   ", (bad.stderr.strip().splitlines() or [""])[-1][:150])
                dest = pathlib.Path("/verif/seeded") / bug["id"]
                if dest.exists():
                    shutil.rmtree(dest)
                shutil.copytree(d, dest)
                record(bug["id"], bug["property"] if check.returncode == 1 else "-")
            if check.returncode not in (0, 1):
                print(check.stdout[-800:], check.stderr[-800:])
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
