"""Replays inputs on the real package: python replay_main.py IN.json OUT.json
or, for a saved counterexample: python replay_main.py CASE.json"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")

import logging  # noqa: E402

logging.disable(logging.CRITICAL)


def main():
    with open(sys.argv[1]) as f:
        req = json.load(f)
    from engine import concrete, parts

    if "candidates" not in req:
        req["candidates"] = [req["inputs"]]
        single = True
    else:
        single = False
    part = parts.get(req["property"], req["part"])
    out = []
    import warnings

    warnings.simplefilter("ignore")
    for c in req["candidates"]:
        out.append(concrete.run(part, c, part.rtol))
    if single:
        r = out[0]
        print(json.dumps({"status": r["status"], "failed": r["failed"]}, indent=1))
        sys.exit(1 if r["failed"] else 0)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)


main()
