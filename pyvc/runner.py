"""Runs the harnesses of one property; decides, replays, writes evidence."""
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.json")


def load(prop):
    from . import api
    importlib.import_module("props." + prop)
    return api.REGISTRY.get(prop, [])


def scratch():
    os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")


# ------------------------------------------------------------ symbolic job
def job_symbolic(prop, name, seconds, q):
    out = dict(name=name, status="crash", obs={}, covers={}, paths=0,
               errors=[], functions=[], assumed=[], queries=0, solver_s=0)
    t = time.time()
    try:
        sys.setrecursionlimit(6000)
        from . import api, core
        spec = next(s for s in load(prop) if s.name == name)
        ex, status = api.run_symbolic(spec, time.time() + seconds)
        out.update(
            status=status, paths=ex.paths, covers=ex.covers,
            obs={n: dict(checked=o.checked, discharged=o.discharged,
                         trivial=o.trivial, unknown=o.unknown,
                         fails=o.fails[:4])
                 for n, o in ex.obs.items()},
            errors=ex.errors, functions=sorted(ex.functions),
            assumed=sorted(ex.assumed), queries=core.STATS.queries,
            solver_s=core.STATS.solver_s)
    except BaseException as e:
        out["status"] = "crash: " + "".join(
            traceback.format_exception(e))[-1500:]
    out["wall"] = time.time() - t
    q.put(out)


# ------------------------------------------------------------ concrete job
def job_replay(prop, name, fails, seed, q):
    """Replays counterexamples on the untransformed code."""
    from . import api
    spec = next(s for s in load(prop) if s.name == name)
    out = []
    for f in fails:
        hit = None
        for k in range(4):
            buf = io.StringIO()
            so, se = sys.stdout, sys.stderr
            sys.stdout = sys.stderr = buf
            try:
                ctx, status = api.run_concrete(
                    spec, random.Random(seed + k), f["inputs"] or {},
                    f["choices"])
            finally:
                sys.stdout, sys.stderr = so, se
            if ctx.fails:
                hit = dict(fail=ctx.fails[0], trace=ctx.trace[-40:])
                break
        out.append(dict(model=f, hit=hit, status=status))
    q.put(out)


def job_random(prop, names, seed, seconds, max_runs, q):
    from . import api
    specs = [s for s in load(prop) if s.name in names]
    res = {s.name: dict(runs=0, ended=0, undecided="", checked=0, fail=None,
                        distinct=0) for s in specs}
    end = time.time() + seconds
    k = 0
    seen = {s.name: set() for s in specs}
    live = list(specs)
    so, se = sys.stdout, sys.stderr
    try:
        while live and time.time() < end and k < max_runs:
            for s in list(live):
                if time.time() > end:
                    break
                sys.stdout = sys.stderr = io.StringIO()
                rng = random.Random(f"{seed}/{s.name}/{k}")
                try:
                    ctx, status = api.run_concrete(s, rng)
                finally:
                    sys.stdout, sys.stderr = so, se
                r = res[s.name]
                r["runs"] += 1
                r["checked"] += ctx.checked
                if ctx.checked:
                    seen[s.name].add(tuple(ctx.trace))
                if status == "end":
                    r["ended"] += 1
                if status.startswith("undecided"):
                    r["undecided"] = status
                    live.remove(s)
                if ctx.fails:
                    r["fail"] = dict(seed=f"{seed}/{s.name}/{k}",
                                     fail=ctx.fails[0], trace=ctx.trace[-40:])
                    live.remove(s)
            k += 1
    except BaseException as e:
        res["__crash__"] = "".join(traceback.format_exception(e))[-1500:]
    for n in seen:
        res[n]["distinct"] = len(seen[n])
    q.put(res)


def spawn(target, args, limit):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=target, args=args + (q,), daemon=True)
    p.start()
    return [p, q, time.time() + limit]


def reap(job, default):
    p, q, end = job
    import queue
    while True:
        try:
            r = q.get(timeout=0.05)
            p.join(2)
            if p.is_alive():
                p.kill()
            return r
        except queue.Empty:
            if not p.is_alive():
                try:
                    return q.get(timeout=0.2)
                except queue.Empty:
                    return default
            if time.time() > end:
                p.kill()
                return default


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"]
                    if k["property"] == prop]
    except (OSError, ValueError, KeyError):
        return []


def main(prop, tier):
    t0 = time.time()
    scratch()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    deep = tier == "thorough"
    sym_s = 400 if deep else 75
    rnd_s = 60 if deep else 6
    specs = load(prop)
    only = os.environ.get("PYVC_ONLY")
    if only:
        specs = [s for s in specs if s.name in only.split(",")]
    repo = os.environ.get("PYVC_REPO", "/repo")
    # -- random concrete runs first in the background, then proofs
    rj = []
    names = [s.name for s in specs if s.random]
    if names:
        for part in range(2):
            ns = names[part::2]
            if ns:
                rj.append((ns, spawn(job_random, (
                    prop, ns, seed, rnd_s, 20000 if deep else 1500),
                    rnd_s + 60)))
    pend, run, sym = list(specs), [], {}
    while pend or run:
        while pend and len(run) < 6:
            s = pend.pop(0)
            run.append((s, spawn(job_symbolic, (prop, s.name, sym_s),
                                 sym_s + 40)))
        for it in list(run):
            s, j = it
            if not j[1].empty() or not j[0].is_alive() or time.time() > j[2]:
                sym[s.name] = reap(j, dict(
                    name=s.name, status="crash: no answer", obs={}, covers={},
                    paths=0, errors=[], functions=[], assumed=[], queries=0,
                    solver_s=0, wall=0))
                run.remove(it)
        time.sleep(0.02)
    rnd = {}
    for ns, j in rj:
        rnd.update(reap(j, {n: dict(runs=0, ended=0, undecided="crash",
                                    checked=0, fail=None, distinct=0)
                            for n in ns}))
    # -- verdicts
    violations, undecided = [], []
    for s in specs:
        r = sym[s.name]
        fails = [f for o in r["obs"].values() for f in o["fails"]]
        cand = fails[:6] + r["errors"][:3]
        if cand and s.replay:
            j = spawn(job_replay, (prop, s.name, cand, seed), 120)
            rep = reap(j, [])
            for x in rep:
                if x["hit"]:
                    violations.append(dict(
                        harness=s.name, obligation=x["hit"]["fail"][
                            "obligation"], kind="replayed",
                        model=x["model"], replay=x["hit"]))
                    break
        if not any(v["harness"] == s.name for v in violations):
            # without symbolic facts a replay is the same run: if it does not
            # fail there, the verifier's environment differs from the real one
            exact = [f for f in fails if not f["approximations"]
                     and (f["symbolic"] or not s.replay)]
            if exact and not s.bound.startswith("coarse"):
                violations.append(dict(
                    harness=s.name, obligation=exact[0]["obligation"],
                    kind="unconfirmed", model=exact[0]))
            elif fails or r["errors"]:
                undecided.append((s.name, "counterexample not confirmed: "
                                  + (fails + r["errors"])[0]["obligation"]))
        n_unknown = sum(o["unknown"] for o in r["obs"].values())
        if r["status"] != "ok":
            undecided.append((s.name, r["status"]))
        elif n_unknown:
            undecided.append((s.name, f"{n_unknown} obligations unknown"))
        elif not r["obs"] or not r["covers"]:
            undecided.append((s.name, "vacuous"))
    for n, r in rnd.items():
        if n == "__crash__":
            undecided.append(("concrete", r))
            continue
        if r["fail"] and not any(v["harness"] == n and v["kind"] == "replayed"
                                 for v in violations):
            violations = [v for v in violations if v["harness"] != n]
            violations.append(dict(
                harness=n, obligation=r["fail"]["fail"]["obligation"],
                kind="replayed", model=None, replay=r["fail"]))
        if r["undecided"]:
            undecided.append((n, "concrete: " + r["undecided"]))
    # -- known findings
    known, fresh = [], []
    for v in violations:
        k = next((k for k in known_findings(prop)
                  if k["obligation"] == v["obligation"]), None)
        (known if k else fresh).append((v, k))
    # -- evidence
    obligations = discharged = trivial = paths = queries = 0
    solver = 0.0
    functions, assumed = set(), set()
    per = []
    for s in specs:
        r = sym[s.name]
        c = sum(o["checked"] for o in r["obs"].values())
        d = sum(o["discharged"] for o in r["obs"].values())
        tr = sum(o["trivial"] for o in r["obs"].values())
        und = [w for n, w in undecided if n == s.name]
        ok = r["status"] == "ok" and not und
        per.append(dict(
            harness=s.name, contract=s.doc,
            scope="all inputs" if not s.bound else "bounded: " + s.bound,
            obligations={n: [o["checked"], o["discharged"]]
                         for n, o in r["obs"].items()},
            instances=c, discharged=d, by_evaluation=tr, by_z3=d - tr,
            paths=r["paths"], status=r["status"], undecided=und,
            covers=sorted(r["covers"]), queries=r["queries"],
            solver_s=round(r["solver_s"], 2), wall_s=round(
                r.get("wall", 0), 2),
            concrete_runs=rnd.get(s.name, {}).get("runs", 0)))
        paths += r["paths"]
        queries += r["queries"]
        solver += r["solver_s"]
        functions |= set(r["functions"])
        assumed |= set(r["assumed"])
        if not s.bound and ok:
            obligations += c
            discharged += d
            trivial += tr
        elif not s.bound:
            obligations += max(c, 1)
            discharged += min(d, max(c, 1) - 1)
    level = LEVELS.get(prop, "proof")
    bounded = [p for p in per if p["scope"] != "all inputs"]
    samples = [dict(harness=n, runs=r["runs"], distinct=r["distinct"])
               for n, r in rnd.items() if isinstance(r, dict)][:6]
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f"bash /verif/run.sh {prop} {tier}",
        trusted_base=TRUSTED + sorted("assumed contract: " + a
                                      for a in assumed),
        discharged_by_evaluation=trivial,
        discharged_by_z3=discharged - trivial,
        functions_under_contract=sorted(functions),
        paths=paths, solver_queries=queries, solver_s=round(solver, 2),
        bounded_obligations=sum(p["instances"] for p in bounded),
        harnesses=per,
        evaluations=sum(r.get("runs", 0) for r in rnd.values()
                        if isinstance(r, dict)),
        distinct_nontrivial=sum(r.get("distinct", 0) for r in rnd.values()
                                if isinstance(r, dict)),
        rule="a concrete run draws inputs and choices at random and executes "
             "the untransformed code; it is non-trivial if it evaluated at "
             "least one obligation, distinct by its sequence of choices",
        samples=samples,
        undecided=[f"{n}: {w}"[:500] for n, w in undecided])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2),
              violations=len(fresh))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    # -- report
    for n, w in undecided:
        print(f"undecided: {n}: {w}"[:1500])
    print(f"{prop}: {discharged}/{obligations} obligations discharged over "
          f"all inputs, {cov['bounded_obligations']} bounded, {paths} paths, "
          f"{cov['evaluations']} concrete runs, {ev['wall_s']} s")
    for v, k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if not fresh:
        return 0
    fresh.sort(key=lambda x: x[0]["kind"] != "replayed")
    v = fresh[0][0]
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    with open(path, "w") as f:
        json.dump([x[0] for x in fresh], f, indent=1, default=str)
    for x, _ in fresh[:5]:
        print(f"failed obligation: {x['obligation']} ({x['kind']})")
        info = (x.get("replay") or {}).get("fail", {}).get("info") \
            or (x["model"] or {}).get("info", "")
        if info:
            print("   " + str(info)[-600:])
    tail = "" if v["kind"] == "replayed" else " no-failing-input-found"
    print(f"VIOLATION property={prop} replay={path}{tail}")
    return 1


LEVELS = {p: "exploration" for p in ("C11", "C24")}
TRUSTED = [
    "CPython 3.12 executes the transformed functions; the transformation "
    "(pyvc/transform.py) drops nothing, it routes calls, subscripts, "
    "membership tests, f-strings, loops and comprehensions through pyvc/rt.py",
    "z3 5.3.2",
    "symbolic proxies pyvc/sym.py and ghost dependencies pyvc/ghost.py",
]
ASSUMPTIONS = [
    "persidict, parameterizable, deepdiff, joblib, logging, io, time, random, "
    "uuid, atexit and multiprocessing behave as their contracts in "
    "pyvc/ghost.py say",
    "no SHA-256 collisions; hashing depends on content only",
    "integers and reals are mathematical (Python ints are; floats are not)",
    "user values are data without Pythagoras-specific methods",
]
