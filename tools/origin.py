"""Lists the planted bugs that change lines added after the base commit."""
import glob
import re
import subprocess

base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"],
                      capture_output=True, text=True).stdout.split()[0]
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    file, line, out = None, 0, []
    for x in open(p):
        if x.startswith("--- a/"):
            file = x[6:].strip()
        elif x.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", x).group(1))
        elif x.startswith("+++") or x.startswith("diff") or x.startswith("index"):
            pass
        elif x.startswith("-"):
            b = subprocess.run(
                ["git", "-C", "/repo", "blame", "-l", "-s", "-L", f"{line},{line}", file],
                capture_output=True, text=True).stdout.lstrip("^")
            out.append("orig" if base.startswith(b[:39]) else "MINE")
            line += 1
        elif not x.startswith("+"):
            line += 1
    print(p.split("/")[-2], out)
