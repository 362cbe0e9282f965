"""Runs the concrete cases of one property on the real code, in several processes, deterministically
from a seed. Usage: drive.py PROP SEED TIER COUNT TIMECAP OUT [WORKERS] / drive.py --replay FILE"""
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter("ignore")
from harness.common import Fail, jsonable  # noqa: E402
from harness import props_eval, props_plan  # noqa: E402

import logging

logging.disable(logging.WARNING)


def fns(p):
    m = props_plan if hasattr(props_plan, "check_" + p) else props_eval
    return getattr(m, "gen_" + p), getattr(m, "check_" + p)


CASE_LIMIT = 90  # seconds; the slowest generated case takes about one


def _alarm(*_):
    raise Fail(f"no answer within {CASE_LIMIT} s")


def run_case(check, case):
    """None | message; second: nontrivial flag."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        r = check(case)
        return None, r
    except Fail as e:
        return str(e), True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:]]
        return f"unexpected {type(e).__name__}: {e} at {' <- '.join(reversed(where))}", True
    finally:
        signal.alarm(0)


def worker(args):
    prop, seed, tier, w, count, cap = args
    gen, check = fns(prop)
    rng = random.Random(f"{prop}-{seed}-{w}")
    t0 = time.time()
    seen = set()
    n = nt = skipped = 0
    sample = []
    bad = []
    for k in range(count):
        if time.time() - t0 > cap:
            break
        case = jsonable(gen(rng, tier))
        msg, r = run_case(check, case)
        n += 1
        if r is None:
            skipped += 1
        if msg is not None:
            bad.append(dict(case=case, message=msg))
            if len(bad) >= 3:
                break
        elif r and r != "refused":
            h = hash(json.dumps(case, sort_keys=True))
            if h not in seen:
                seen.add(h)
                nt += 1
            if len(sample) < 1 and k > 3:
                sample.append(case)
    return n, nt, skipped, sample, bad


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        if d.get("kind") != "input":
            print("this replay names a failed proof obligation; there is no input to run")
            sys.exit(2)
        msg, _ = run_case(fns(d["property"])[1], d["case"])
        print("FAILS: " + msg if msg else "passes")
        sys.exit(1 if msg else 0)
    prop, seed, tier, count, cap, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), float(sys.argv[5]), sys.argv[6]
    W = int(sys.argv[7]) if len(sys.argv) > 7 else 8
    from harness.common import oe
    if prop in ("C14", "C19", "C20"):
        pass  # torch is imported by the workers: its threads do not survive a fork
    else:
        oe()
    ctx = mp.get_context("fork")
    with ctx.Pool(W) as pool:
        res = pool.map(worker, [(prop, seed, tier, w, count // W, cap) for w in range(W)])
    json.dump(dict(evaluations=sum(r[0] for r in res), nontrivial=sum(r[1] for r in res), skipped=sum(r[2] for r in res),
                   samples=[s for r in res for s in r[3]][:3], failures=[b for r in res for b in r[4]]), open(out, "w"))


if __name__ == "__main__":
    main()
