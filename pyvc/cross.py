"""Second back end: the queries z3 answered "unsat" while discharging a property's obligations are written out
as SMT-LIB and put to cvc5 as well (a sample per function, with a time limit each).  What cvc5 cannot decide in
time is counted as such; it decides nothing by itself."""
import concurrent.futures as cf
import glob
import os
import shutil
import subprocess
import tempfile

from . import engine, run

PER_FUNCTION = 12
SECONDS = 15


def ask(path):
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={SECONDS * 1000}", "--strings-exp", path], capture_output=True, text=True, timeout=SECONDS + 10)
        out = r.stdout.strip().splitlines()
        return out[0] if out and out[0] in ("sat", "unsat", "unknown") else "unknown"
    except Exception:
        return "unknown"


def collect(reg, c, d):
    """verify once more, writing the unsat queries out"""
    engine.DUMP_UNSAT = d
    run.verify_one(reg, c)


def thin(d):
    files = sorted(glob.glob(os.path.join(d, "*.smt2")), key=os.path.getsize, reverse=True)
    step = max(1, len(files) // PER_FUNCTION)
    return files[::step][:PER_FUNCTION]


def run_all(reg, cs, limit=240):
    import multiprocessing as mp
    import time

    top = tempfile.mkdtemp(prefix="pyvc_cross_")
    try:
        ctx = mp.get_context("fork")
        jobs = []
        out = {}
        for c in cs:
            d = os.path.join(top, c.qual.replace(":", "_").replace("#", "_"))
            os.makedirs(d)
            jobs.append((c, d, ctx.Process(target=collect, args=(reg, c, d), daemon=True)))
        todo = list(jobs)
        live = []
        while todo or live:
            while todo and len(live) < 6:
                j = todo.pop(0)
                j[2].start()
                live.append((j, time.time()))
            nxt = []
            for j, t in live:
                if j[2].is_alive() and time.time() - t < limit:
                    nxt.append((j, t))
                else:
                    if j[2].is_alive():
                        j[2].kill()
                    j[2].join()
            live = nxt
            time.sleep(0.05)
        with cf.ThreadPoolExecutor(7) as ex:
            for c, d, _ in jobs:
                fs = thin(d)
                res = list(ex.map(ask, fs))
                out[c.qual] = dict(asked=len(fs), confirmed=res.count("unsat"), undecided=res.count("unknown"), disagree=res.count("sat"))
        return dict(solver="cvc5 1.1.2", seconds_each=SECONDS, per_function=out, confirmed=sum(o["confirmed"] for o in out.values()), asked=sum(o["asked"] for o in out.values()), disagree=sum(o["disagree"] for o in out.values()))
    finally:
        shutil.rmtree(top, ignore_errors=True)
