#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property on /repo's current working tree.

1. Every contract of the property is verified: the functions are parsed from /repo's current source,
   obligations are generated function by function and discharged by the SMT solver.
2. In parallel the property's concrete oracle runs the real code on generated cases (bounded): it supplies
   the failing input when an obligation fails, and stands in for functions outside the verifier's reach.
Exit 0: held. Exit 1 and a VIOLATION line: broken. See DESIGN.md."""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
if not os.path.exists(PY):
    PY = "python3"

# concrete cases: (quick, thorough, seconds per worker quick, thorough)
COUNTS = dict(C12=(16000, 400000), C16=(16000, 300000), C18=(4000, 60000), C14=(16000, 300000), C17=(20000, 400000), C06=(20000, 400000))
DEFAULT = (24000, 800000)
CAPS = (40, 500)


def findings(prop):
    out = []
    try:
        for ln in open(os.path.join(HERE, "known_findings.txt")):
            ln = ln.strip()
            if ln.startswith(f"finding: property={prop} "):
                out.append(ln.split(" ", 2)[2])
    except FileNotFoundError:
        pass
    return out


def harness(prop, seed, tier, count, cap, workers):
    fd, out = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false")
    p = subprocess.Popen([PY, os.path.join(HERE, "harness", "drive.py"), prop, str(seed), tier, str(count), str(cap), out, str(workers)],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=HERE)
    return p, out


def collect(p, out, limit):
    try:
        log = p.communicate(timeout=limit)[0].decode(errors="replace")
    except subprocess.TimeoutExpired:
        p.kill()
        log = "harness timed out"
    try:
        d = json.load(open(out))
    except Exception:
        d = None
    os.unlink(out)
    return d, log


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ti = 1 if tier == "thorough" else 0
    count, cap = COUNTS.get(prop, DEFAULT)[ti], CAPS[ti]
    hp = harness(prop, seed, tier, count, cap, 5)

    from pyvc import engine, run
    reg = run.load_registry()
    cs = run.contracts_of(reg, prop)
    base = json.load(open(os.path.join(HERE, "baseline.json")))
    res = run.verify_many(reg, cs, workers=4, timeout=400 if ti == 0 else 900)
    # an obligation that fails gets a second attempt with a larger solver budget
    again = [c for c, d in zip(cs, res) if d["status"] == "failed" and c.qual in base]
    if again:
        new = {d["function"]: d for d in run.verify_many(reg, again, workers=6, timeout=200 if ti == 0 else 900, rlimit=engine.RLIMIT * 4)}
        res = [new[d["function"]] if d["function"] in new and new[d["function"]]["status"] != "timeout" else d for d in res]
    cross = None
    if ti == 1 and cs:
        from pyvc import cross as _cross
        cross = _cross.run_all(reg, cs)
    d, log = collect(*hp, limit=cap + 240)

    failures = list(d["failures"]) if d else []
    broken = [r for r in res if r["status"] in ("failed", "vacuous", "empty") and r["function"] in base]
    lost = [r for r in res if r["function"] in base and r["status"] in ("unsupported", "timeout")]
    extra = None
    if (broken or lost) and not failures:
        # look harder for a failing input before reporting, and where a proof could not be redone
        hp = harness(prop, seed + 1000, tier, count * 3, 60, 8)
        extra, log2 = collect(*hp, limit=200)
        log += log2
        if extra:
            failures = list(extra["failures"])
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    known = findings(prop)
    lines = []
    nviol = 0
    fresh = []
    for f in failures:
        k = [x for x in known if json.dumps(f["case"], sort_keys=True) in x]
        if k:
            lines.append(f"KNOWN-FINDING: property={prop} {f['message'][:200]}")
        else:
            fresh.append(f)
    if fresh:
        f = min(fresh, key=lambda f: len(json.dumps(f["case"])))
        rp = os.path.join(HERE, "evidence", "replay", f"{prop}.json")
        json.dump(dict(property=prop, kind="input", case=f["case"], message=f["message"],
                       failed_obligations=[o["name"] for r in broken for o in r["obligations"] if o["status"] != "discharged"],
                       how=f"{PY} harness/drive.py --replay {rp}"), open(rp, "w"), indent=1)
        print("failing input:", f["message"][:500])
        for r in broken:
            for o in r["obligations"]:
                if o["status"] != "discharged":
                    print("failed obligation:", o["name"])
        lines.append(f"VIOLATION property={prop} replay={rp}")
        nviol = len(fresh)
    elif broken:
        rp = os.path.join(HERE, "evidence", "replay", f"{prop}.json")
        obs = [dict(function=r["function"], obligation=o["name"], verifier_output=o["detail"]) for r in broken for o in r["obligations"] if o["status"] != "discharged"]
        obs += [dict(function=r["function"], obligation=r["status"], verifier_output=r.get("reason", "")) for r in broken if r["status"] != "failed"]
        json.dump(dict(property=prop, kind="obligation", failed=obs), open(rp, "w"), indent=1)
        for o in obs[:10]:
            print("failed obligation:", o["obligation"], "--", o["verifier_output"][:300])
        lines.append(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        nviol = len(obs)
    elif d is None:
        # the harness itself could not run: the package does not import, or the machinery is broken
        print(log[-3000:])
        rp = os.path.join(HERE, "evidence", "replay", f"{prop}.json")
        json.dump(dict(property=prop, kind="harness", log=log[-5000:]), open(rp, "w"), indent=1)
        lines.append(f"VIOLATION property={prop} replay={rp}")
        nviol = 1

    proved = [r for r in res if r["status"] == "proved"]
    nob = sum(len(r["obligations"]) for r in res)
    ndis = sum(1 for r in res for o in r["obligations"] if o["status"] == "discharged")
    standin = [f"{r['function']}: {r['status']} {r.get('reason', '')}" for r in res if r["status"] not in ("proved",)]
    trusted = sorted({u for r in res for u in r["used"] if reg.by_qual.get(u) is not None and reg.by_qual[u].trusted})
    import z3
    man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    level = man.get(prop, {}).get("level", "other")
    cov = dict(obligations=nob, discharged=ndis,
               checker_cmd=f"cd /verif && python3-vt -m pyvc.run (contracts of {prop}); back end z3 {z3.get_version_string()}",
               trusted_base=["pyvc VC generator (symbolic execution of the parsed source of /repo)", "pyvc library semantics of Python builtins and containers (validated against CPython by pyvc/selftest)", f"z3 {z3.get_version_string()}"] + [f"assumed contract {u}" for u in trusted],
               functions_under_contract=[dict(function=r["function"], status=r["status"], obligations=len(r["obligations"]), solver_s=r["solver_s"], queries=r["queries"], paths=r["paths"], inlined=r["inlined"], callee_contracts=r["used"], reason=r.get("reason")) for r in res],
               solver_s=round(sum(r["solver_s"] for r in res), 2),
               bounded_stand_in=standin,
               evaluations=(d or {}).get("evaluations", 0) + ((extra or {}).get("evaluations", 0)),
               distinct_nontrivial=(d or {}).get("nontrivial", 0) + ((extra or {}).get("nontrivial", 0)),
               rule="bounded: cases generated from the seed by harness/props_*.py gen_" + prop + ", checked by an independent oracle against the real code; non-trivial as judged by the oracle (not refused or skipped), distinct by content",
               samples=(d or {}).get("samples", []),
               explanation=man.get(prop, {}).get("level_note", ""))
    if cross is not None:
        cov["second_solver"] = cross
    notes = sorted({n for r in res for n in r["notes"]})
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=["Python integers are mathematical integers; sizes and costs are exact"] + notes + [f"assumed contract: {u}" for u in trusted],
              wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {len(proved)}/{len(res)} functions proved, {ndis}/{nob} obligations, solver {cov['solver_s']} s; concrete cases {cov['evaluations']} ({cov['distinct_nontrivial']} non-trivial); {ev['wall_s']} s")
    for s in standin:
        print("bounded stand-in:", s)
    for ln in lines:
        print(ln)
    sys.exit(1 if nviol else 0)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
