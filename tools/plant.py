"""Plants bugs: plant.py SPEC_FILE [ids...]

Each seed in the spec file is built in a scratch copy of /repo, checked (applies, the stable tests
pass, the demonstration passes without it and fails with it), written to /verif/seeded/<id>/ and
then the checks of its property are run against it. Nothing is written in /repo."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = "/verif"
PRELUDE = open(os.path.join(VERIF, "tools", "demo_prelude.py")).read()
DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
export NUMBA_CACHE_DIR="$work/numba" MPLCONFIGDIR="$work/mpl"
cd "$work" || exit 2
/opt/venv/bin/python "$here/demo.py" > "$work/out" 2>&1
rc=$?
tail -5 "$work/out"
exit $rc
'''


def edit(path, old, new, k=None):
    s = open(path).read()
    n = s.count(old)
    assert n, f"{path}: not found: {old!r}"
    if k is None:
        assert n == 1, f"{path}: {n} occurrences of {old!r}"
        s = s.replace(old, new)
    else:
        assert k <= n
        p = s.split(old)
        s = old.join(p[:k]) + new + old.join(p[k:])
    open(path, "w").write(s)


def tests(d):
    sh = open("/opt/vp/test.sh").read().replace("/repo", d)
    f = d + "/../test.sh"
    open(f, "w").write(sh)
    out = d + "/../res.json"
    subprocess.run(["bash", f, out], capture_output=True)
    want = json.load(open("/opt/vp/BASELINE.json"))
    want = set(want["passed"] if "passed" in want else want["stable"] if "stable" in want else sum([v for v in want.values() if isinstance(v, list)], []))
    got = set(json.load(open(out))["passed"])
    return sorted(want - got)


def one(seed, flags):
    sid = seed["id"]
    base = tempfile.mkdtemp(prefix="seed-")
    d = base + "/repo"
    log = []
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        dest = os.path.join(VERIF, "seeded", sid)
        os.makedirs(dest, exist_ok=True)
        open(dest + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(dest + "/demo.sh", 0o755)
        open(dest + "/demo.py", "w").write(PRELUDE + "\n\n" + seed["demo"].strip("\n") + '\nprint("ok")\n')
        json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]}, open(dest + "/meta.json", "w"), indent=1)
        r = subprocess.run(["bash", dest + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=600)
        log.append(f"demo clean {r.returncode} {r.stdout.strip().splitlines()[-1:] }")
        ok = r.returncode == 0
        for e in seed["edits"]:
            edit(d + "/pterasoftware/" + e[0], *e[1:])
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
        open(dest + "/patch.diff", "w").write(diff)
        r = subprocess.run(["bash", dest + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=600)
        log.append(f"demo bug {r.returncode} {r.stdout.strip().splitlines()[-1:]}")
        ok = ok and r.returncode != 0
        if "notest" not in flags:
            bad = tests(d)
            log.append(f"tests missing {bad}")
            ok = ok and not bad
        if "nocheck" not in flags:
            for pid in [seed["property"]] + seed.get("also", []):
                r = subprocess.run(["python3-vt", "engine/check.py", pid], cwd=VERIF, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
                log.append(f"check {pid} exit {r.returncode}: " + " / ".join(x[:160] for x in (r.stdout + r.stderr).splitlines()[:2]))
        log.append("KEEP" if ok else "REJECT")
        if not ok:
            shutil.move(dest, base + "/rejected") if "force" not in flags else None
    except Exception as e:
        log.append("ERROR " + repr(e)[:300])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(sid, *log, sep="\n   ", flush=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    flags = [a for a in sys.argv[2:] if a in ("notest", "nocheck", "force")]
    ids = [a for a in sys.argv[2:] if a not in flags]
    seeds = [s for s in ns["SEEDS"] if not ids or s["id"] in ids]
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda s: one(s, flags), seeds))
