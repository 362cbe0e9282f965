"""Loads every contract module and verifies contracts, each in a forked process."""
import importlib
import multiprocessing as mp
import os
import pkgutil
import time
import traceback

from . import contracts as _pkg
from . import engine, spec, theory
from .ty import Unsupported


def load_registry():
    reg = spec.Registry()
    for m in sorted(x.name for x in pkgutil.iter_modules(_pkg.__path__)):
        mod = importlib.import_module("pyvc.contracts." + m)
        for c in getattr(mod, "ALL", []):
            reg.add(c)
        for k, f in getattr(mod, "OVERRIDES", {}).items():
            reg.overrides[k] = f
    return reg


def mutable(c):
    return c.qual.startswith("opt_einsum") and not getattr(c, "weight", 1) == 5 and any(isinstance(p, spec.P) and p.kind is not None for v in c.params for p in v.values())


def contracts_of(reg, prop=None):
    out = []
    for c in reg.by_qual.values():
        if c.trusted or c.closure or getattr(c, "lemma_only", False):
            continue
        # C15 (arguments are never modified) is the frame condition of every function with mutable arguments
        if prop is None or prop in getattr(c, "props", ()) or prop == "C15" and mutable(c):
            out.append(c)
    return out


def verify_one(reg, c, rlimit=None, deadline=0):
    engine.DEADLINE = deadline
    if rlimit:
        engine.RLIMIT = rlimit
    S = engine.Session()
    th = theory.Theory()
    I = engine.Interp(S, reg, th)
    t0 = time.time()
    d = dict(function=c.qual, props=list(getattr(c, "props", ())))
    try:
        f = reg.find_function(c.qual)
        c.verify(I, f)
        d["status"] = "failed" if S.failed else "proved"
        if not S.obl:
            d["status"] = "empty"
    except engine.OutOfTime:
        d["status"] = "failed" if S.failed else "timeout"
        d["reason"] = "out of time"
    except Unsupported as e:
        d["status"] = "unsupported"
        d["reason"] = f"{e} (line {getattr(I.curnode, 'lineno', 0)})"
    except spec.Vacuous as e:
        d["status"] = "vacuous"
        d["reason"] = str(e)
    except RecursionError as e:
        d["status"] = "unsupported"
        d["reason"] = "recursion depth"
    except Exception as e:
        d["status"] = "unsupported"
        d["reason"] = "engine error " + "".join(traceback.format_exception_only(type(e), e)).strip() + " " + str(traceback.extract_tb(e.__traceback__)[-1])
    d["obligations"] = [dict(name=o.name, status=o.status, time=round(o.time, 4), detail=o.detail, line=o.line) for o in S.obl.values()]
    d["solver_s"] = round(S.solver_time, 3)
    d["queries"] = S.queries
    d["paths"] = S.paths
    d["inlined"] = sorted(S.inlined)
    d["used"] = sorted(S.used_contracts)
    d["notes"] = sorted(map(str, S.notes))
    d["wall_s"] = round(time.time() - t0, 3)
    return d


def _child(reg, c, rlimit, q, deadline):
    try:
        q.send(verify_one(reg, c, rlimit, deadline))
    except BaseException as e:  # pragma: no cover
        q.send(dict(function=c.qual, status="unsupported", reason="engine crash " + repr(e), obligations=[], solver_s=0, queries=0, paths=0, inlined=[], used=[], notes=[], wall_s=0))
    finally:
        q.close()


def verify_many(reg, cs, workers=4, timeout=240, rlimit=None):
    """each contract in its own forked process; returns results in order"""
    ctx = mp.get_context("fork")
    res = {}
    todo = sorted(cs, key=lambda c: -getattr(c, "weight", 1))
    run = []
    while todo or run:
        while todo and len(run) < workers:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(reg, c, rlimit, b, time.time() + timeout - 20), daemon=True)
            p.start()
            b.close()
            run.append((c, p, a, time.time()))
        nxt = []
        for c, p, a, t0 in run:
            if a.poll(0):
                try:
                    res[c.qual] = a.recv()
                except EOFError:
                    res[c.qual] = dict(function=c.qual, status="unsupported", reason="engine process died", obligations=[], solver_s=0, queries=0, paths=0, inlined=[], used=[], notes=[], wall_s=0)
                p.join()
            elif time.time() - t0 > timeout:
                p.kill()
                p.join()
                res[c.qual] = dict(function=c.qual, status="timeout", reason=f"no answer in {timeout} s", obligations=[], solver_s=0, queries=0, paths=0, inlined=[], used=[], notes=[], wall_s=timeout)
            else:
                nxt.append((c, p, a, t0))
        run = nxt
        time.sleep(0.02)
    return [res[c.qual] for c in cs]


if __name__ == "__main__":
    import json
    import sys

    if "PYTHONHASHSEED" not in os.environ:
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "pyvc.run"] + sys.argv[1:])
    reg = load_registry()
    only = [a for a in sys.argv[1:] if not a.startswith("-")]
    cs = [c for c in contracts_of(reg) if not only or any(o in c.qual for o in only)]
    if "-1" in sys.argv:
        rs = [verify_one(reg, c) for c in cs]
    else:
        rs = verify_many(reg, cs, workers=8, timeout=900)
    for d in rs:
        n = len(d["obligations"])
        print(f"{d['status']:12s} {d['function']:60s} obl {n:3d} paths {d['paths']:4d} q {d['queries']:4d} solver {d['solver_s']:6.1f} wall {d['wall_s']:6.1f} {d.get('reason','')}")
        for o in d["obligations"]:
            if o["status"] != "discharged":
                print("     FAIL", o["name"], o["detail"][:700])
        if "-n" in sys.argv:
            for x in d["notes"]:
                print("     note", x)
            print("     inlined", d["inlined"], "used", d["used"])
        if "-o" in sys.argv:
            for o in d["obligations"]:
                print("     ", o["status"], o["name"], o["time"])
    if "--baseline" in sys.argv:
        b = {d["function"]: sorted(o["name"] for o in d["obligations"]) for d in rs if d["status"] == "proved"}
        json.dump(b, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "baseline.json"), "w"), indent=0, sort_keys=True)
        print("baseline:", len(b), "functions")
