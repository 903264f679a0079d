#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]
   run.py --setup        prebuild what every check shares
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: it did not.
Exit 2: the environment could not run the check."""
import argparse
import json
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import common, engine_a  # noqa: E402
from lib.checks import CHECKS  # noqa: E402


def engine_of(chk):
    if chk["engine"] == "A":
        return engine_a
    from lib import engine_b
    return engine_b


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    common.ensure_dirs()
    if a.setup:
        for cfg in ("gcc", "clang"):
            ok, _, diag, _ = common.compile_obj(cfg, os.path.join(common.VERIF, "pbt", "main.cpp"), [])
            if not ok:
                print(diag)
                return 2
        return 0
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    prop, chk = a.prop, CHECKS[a.prop]
    eng = engine_of(chk)
    t0 = time.time()
    log = []
    try:
        if a.replay:
            bad = eng.replay(prop, chk, json.load(open(a.replay)))
            if bad:
                print(bad["msg"])
                print(bad.get("log", ""))
                print("VIOLATION property=%s replay=%s" % (prop, a.replay))
                return 1
            print("replay passes")
            return 0
        cov, bad = eng.check(prop, chk, tier, seed, log)
    except common.Infra as e:
        print("environment problem:", e)
        return 2
    finally:
        common.prune_cache()
    if log:
        cov["notes"] = log
    wall = time.time() - t0
    viol = None
    if bad:
        path = common.save_replay(prop, bad)
        viol = [dict(replay=path, message=bad["msg"][:2000])]
    common.write_evidence(prop, tier, seed, "exploration", cov, wall, viol, chk.get("assumptions"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], wall))
    for n in log:
        print("note:", n)
    if bad:
        print(bad["msg"])
        print(bad.get("log", ""))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
