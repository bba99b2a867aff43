#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: discharge the contracts of one property against the current tree.

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was printed.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
GLASS_PY = "/opt/venv/bin/python"
REPO = os.environ.get("GLASS_REPO", "/repo")


def load_findings(prop):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: ") and f"property={prop} " in line:
                out.append(line[len("finding: "):])
    return out


def _worker(args, hard=None):
    prop, idx, budget, timeout = args
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    from pv import core, harness
    box = {}

    def run():
        importlib.import_module(f"contracts.{prop.lower()}")
        h = harness.REGISTRY[idx]
        box["r"] = harness.run_harness(h, h.budget or budget, timeout)

    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(hard)
    r = box.get("r") or harness.partial_result("time budget exhausted" if t.is_alive() else "engine crashed")
    s = core.STATS
    return dict(obligations=r.obligations, undecided=r.undecided, covers=r.covers, functions=sorted(r.functions),
                externals=sorted(r.externals), notes=sorted(r.notes), harnesses=r.harnesses,
                solver_time=s.solver_time, queries=s.queries, backends=dict(s.backends), paths=s.paths)


def _child(conn, args, hard):
    try:
        conn.send(_worker(args, hard))
        conn.close()
    finally:
        os._exit(0)


def run_pool(jobs, hard, until):
    """One process per harness, eight at a time; a process that ends without an answer or runs too long leaves its harness undecided."""
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    todo, live, out = list(jobs), {}, {}
    empty = lambda idx, why: dict(obligations=[], undecided=[{"harness": f"#{idx}", "reason": why}], covers={}, functions=[],
                                  externals=[], notes=[], harnesses={}, solver_time=0, queries=0, backends={}, paths=0)
    while todo or live:
        while todo and len(live) < 8:
            job = todo.pop(0)
            left = min(hard, until - time.time())
            if left < 5:
                out[job[1]] = empty(job[1], "no time left")
                continue
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(b, job, left))
            p.start()
            b.close()
            live[a] = (p, job[1], time.time() + left + 20)
        for conn in wait(list(live), timeout=1):
            p, idx, _ = live.pop(conn)
            try:
                out[idx] = conn.recv()
            except EOFError:
                out[idx] = empty(idx, "engine crashed")
            p.kill()
            p.join()
        for conn, (p, idx, end) in list(live.items()):
            if time.time() > end:
                p.kill()
                p.join()
                del live[conn]
                out[idx] = empty(idx, "time budget exhausted")
    return [out[j[1]] for j in jobs]


def run_oracle(prop, seed, budget, minrounds, tmp, wall):
    out = os.path.join(tmp, f"oracle-{time.time_ns()}.json")
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS="2", JAX_PLATFORMS="cpu", JAX_ENABLE_X64="1", PYTHONDONTWRITEBYTECODE="1", TMPDIR=tmp)
    try:
        p = subprocess.run([GLASS_PY, os.path.join(ROOT, "oracles", "common.py"), prop, "--seed", str(seed), "--budget", str(budget),
                            "--minrounds", str(minrounds), "--out", out], cwd=tmp, env=env, capture_output=True, text=True,
                           timeout=wall)
    except subprocess.TimeoutExpired:
        return dict(ok=None, message="the concrete search did not finish in time", count=0)
    if os.path.exists(out):
        return json.load(open(out))
    return dict(ok=None, message=(p.stderr or p.stdout)[-3000:], count=0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness")
    ap.add_argument("--no-oracle", action="store_true")
    ap.add_argument("--no-prove", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    thorough = tier == "thorough"
    budget = 600 if thorough else 200
    timeout = 30000 if thorough else 8000
    from pv import harness
    mod = importlib.import_module(f"contracts.{prop.lower()}")
    hs = [(i, h) for i, h in enumerate(harness.REGISTRY) if (thorough or not h.thorough) and (not a.harness or a.harness in h.name)]
    if a.harness and os.environ.get("PV_VERBOSE"):
        results = [_worker((prop, i, budget, timeout)) for i, h in hs]
    elif a.no_prove:
        results = []
    else:
        results = run_pool([(prop, i, budget, timeout) for i, h in hs], budget * (3 if thorough else 1.4), t0 + (1e5 if thorough else 440))
    obl, und, funcs, exts, notes, hinfo, covers = [], [], set(), set(), set(), {}, {}
    st = dict(solver_time=0.0, queries=0, paths=0)
    back = {}
    for r in results:
        obl += r["obligations"]
        und += r["undecided"]
        funcs |= set(r["functions"])
        exts |= set(r["externals"])
        notes |= set(r["notes"])
        hinfo.update(r["harnesses"])
        covers.update(r["covers"])
        for k in st:
            st[k] += r[k]
        for k, v in r["backends"].items():
            back[k] = back.get(k, 0) + v
    proved = [o for o in obl if o["status"] == "proved"]
    refuted = [o for o in obl if o["status"] == "refuted"]
    unknown = [o for o in obl if o["status"] not in ("proved", "refuted")]
    for o in unknown:
        und.append({"obligation": o["name"], "reason": f"{o['status']} ({o['backend']})", "goal": o["goal"][:300]})
    bounded_only = list(getattr(mod, "BOUNDED", []))
    complete = not refuted and not und
    prove_s = time.time() - t0

    violation = None
    oracle = dict(ok=True, count=0)
    with tempfile.TemporaryDirectory(prefix="glass-verif-") as tmp:
        if not a.no_oracle and os.path.exists(os.path.join(ROOT, "oracles", prop.lower() + ".py")):
            base = 240 if thorough else (20 if complete else 60)
            oracle = run_oracle(prop, seed, base, 2, tmp, base * 2 + 240)
            if oracle["ok"] and refuted:
                # replay the refutation: a deeper search for a failing input
                more = run_oracle(prop, seed + 7919, 240 if thorough else 120, 4, tmp, 420)
                more["count"] = more.get("count", 0) + oracle.get("count", 0)
                oracle = more
    findings = load_findings(prop)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rep = os.path.join(ROOT, "evidence", f"replay-{prop}.json")
    if os.path.exists(rep):
        os.unlink(rep)
    ended = ""
    if oracle["ok"] is False:
        violation = {"property": prop, "failing_input": {k: oracle[k] for k in ("test", "round", "seed", "message")},
                     "replay_cmd": f"{GLASS_PY} {ROOT}/oracles/common.py {prop} --replay {rep}",
                     "failed_obligations": [{k: o[k] for k in ("name", "status", "detail", "goal", "model")} for o in refuted + unknown]}
    elif refuted:
        violation = {"property": prop, "failing_input": None,
                     "failed_obligations": [{k: o[k] for k in ("name", "status", "detail", "goal", "model", "backend")}
                                            for o in refuted]}
        ended = " no-failing-input-found"
    known = None
    if violation is not None:
        h = hashlib.sha1(json.dumps(violation, sort_keys=True, default=str).encode()).hexdigest()
        text = json.dumps(violation)
        for f in findings:
            marker = f.split(" match=")[1].split(" ::")[0] if " match=" in f else None
            if marker and marker in text:
                known = f
        violation["id"] = h
    repo_files = {}
    for d, _, fs in os.walk(os.path.join(REPO, "glass")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                repo_files[os.path.relpath(p, REPO)] = hashlib.sha1(open(p, "rb").read()).hexdigest()[:12]
    byname = {}
    for o in obl:
        b = byname.setdefault(o["name"], {"generated": 0, "discharged": 0, "backends": {}})
        b["generated"] += 1
        if o["status"] == "proved":
            b["discharged"] += 1
            b["backends"][o["backend"]] = b["backends"].get(o["backend"], 0) + 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "proof"),
        "coverage": {
            "obligations": len(obl), "discharged": len(proved),
            "checker_cmd": f"python3-vt /verif/check.py {prop} --tier {tier}",
            "trusted_base": ["pv (contract verifier: symbolic execution of the real source, /verif/pv)",
                             "z3 " + ".".join(map(str, __import__('z3').get_version()[:3])), "cvc5 1.1.2"] +
                            [f"assumed contract of {e}" for e in sorted(exts)],
            "functions_under_contract": sorted(funcs), "obligation_groups": byname, "harnesses": hinfo,
            "reachability_checks": covers, "undecided": und, "refuted": [o["name"] for o in refuted],
            "backends": back, "solver_queries": st["queries"], "solver_seconds": round(st["solver_time"], 2),
            "paths": st["paths"], "prove_seconds": round(prove_s, 2),
            "bounded_functions": bounded_only,
            "bounded_conformance": {"evaluations": oracle.get("count", 0), "per_test": oracle.get("per_test", {}),
                                    "note": "seeded concrete runs of the real code against the same clauses; labelled bounded, "
                                            "not counted as proved"},
            "evaluations": oracle.get("count", 0),
            "source_files": repo_files,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + sorted(notes) + COMMON,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation and not known else 0,
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {len(proved)}/{len(obl)} obligations discharged, {len(refuted)} refuted, {len(und)} undecided; "
          f"{oracle.get('count', 0)} bounded conformance runs; {ev['wall_s']} s")
    for u in und[:10]:
        print("  undecided:", json.dumps(u)[:400])
    if oracle["ok"] is None:
        print("  bounded conformance did not complete:", oracle.get("message", "")[:500])
    for f in findings:
        print("KNOWN-FINDING: " + f)
    if violation is not None:
        json.dump(violation, open(rep, "w"), indent=1, default=str)
        for o in (refuted + unknown)[:6]:
            print("  failed obligation:", o["name"], o["status"], o["detail"])
        if violation["failing_input"]:
            print("  failing input:", violation["failing_input"]["test"], violation["failing_input"]["message"][:600])
        if known is None:
            print(f"VIOLATION property={prop} replay={rep}{ended}")
            return 1
    if oracle["ok"] is None and not complete:
        print("  undecided: the contracts are not all discharged and the bounded check did not finish")
        return 2
    return 0


COMMON = [
    "floating-point numbers are treated as exact reals and machine integers as mathematical integers",
    "array functions, random generators, HEALPix and transformcl behave as their contracts in pv/xp.py and pv/stubs.py state",
    "the loader changes only loops, comprehensions, star calls and tuple-unpacking assignments of the source (pv/loader.py); "
    "annotations, docstrings and typing-only imports are not executed",
    "the array library model is numpy unless a harness names another backend",
]

if __name__ == "__main__":
    sys.exit(main())
