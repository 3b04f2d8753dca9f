"""Checks that the tools are there and that the specification parses."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.run(["bash", os.path.join(here, "sany.sh"), "Run"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
out = r.stdout.decode(errors="replace")
if "rror" in out and "no error" not in out.lower():
    print(out[-2000:])
    sys.exit(1)
for t in ("java", "gcc", "make", "rsync", "git"):
    if subprocess.run(["which", t], stdout=subprocess.DEVNULL).returncode:
        sys.exit("missing tool: " + t)
print("ready")
