"""Runs a check against a changed copy of the package: mut.py PID FILE OLD NEW [count]"""
import os, shutil, subprocess, sys, tempfile
pid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut-")
shutil.copytree("/repo/pterasoftware", d + "/pterasoftware", ignore=shutil.ignore_patterns("ui_resources", "__pycache__"))
p = d + "/pterasoftware/" + f.replace("pterasoftware/", "")
s = open(p).read()
n = s.count(old)
if n == 0:
    print("NOT FOUND"); sys.exit(3)
if len(sys.argv) > 5:
    k = int(sys.argv[5])
    parts = s.split(old)
    s = old.join(parts[:k]) + new + old.join(parts[k:])
else:
    s = s.replace(old, new)
open(p, "w").write(s)
env = dict(os.environ, VERIF_REPO=d)
for one in pid.split(","):
    r = subprocess.run(["python3-vt", "engine/check.py", one], env=env, capture_output=True, text=True)
    print("exit", r.returncode, "occurrences", n)
    print("\n".join(x[:300] for x in (r.stdout + r.stderr).splitlines()[:8]))
shutil.rmtree(d)
