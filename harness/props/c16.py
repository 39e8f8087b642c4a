"""C16: every iteration of the heuristic is a valid, consistent answer."""
import numpy as np
import gen as G, oracle, wit

CASES = {"quick": 2000, "thorough": 30000}
RULE = ("feasible instances (reachability forms and reward forms, with and without end components and labels), 1-7 iterations, all pairs of initializers and updaters, both modes, cbc and glpk; "
        "every yielded result is judged, sequences are compared with solve() and with a second run; non-trivial: distinct (structure, mode, initializer, updater, sequence of values) with a value below the number of groups")
REQUIRED = {"results": 5000, "sequences": 1500, "iterations>=4": 300, "value_decreased": 80, "value_changed_certificate": 150, "dropped_stay_dropped": 400, "labels": 400, "min": 500, "max": 500,
            "with_ecs": 200, "rewards": 200, "glpk": 300, "failing_sequences": 400}
ASSUMPTIONS = ["solver accuracy as in C12"]


def gen(rng, i, tier):
    rewards = rng.random() < 0.2
    if rewards:
        spec = G.rewform(rng, nmin=rng.choice([1, 3]), nmax=8)
    else:
        kw = rng.choice([dict(), dict(ecfree=False, kind="mdp"), dict(ecfree=True, kind="mdp"), dict(kind="dtmc")])
        spec = G.rf(rng, nmin=rng.choice([1, 3, 6]), nmax=rng.choice([8, 8, 16]), labels=False, **kw)
    groups = wit.add_groups(rng, spec) if rng.random() < 0.4 else None
    return {"spec": spec, "rewards": rewards, "ptype": rng.choice(G.PTYPES), "groups": groups, "over": rng.choice([1.02, 1.3, 5.0]), "runs": [
        {"mode": rng.choice(["min", "max"]), "it": rng.choice([1, 2, 2, 3, 3, 4, 5, 7]), "init": rng.choice(wit.INITS), "upd": rng.choice(wit.UPDS), "solver": rng.choice(["cbc", "cbc", "glpk"]),
         "x": rng.choice([rng.random(), 0.999, 0.05]), "again": rng.choice(["solve", "solve", "iter", "no"])} for _ in range(2)]}


def group_vars(j, labels, mode):
    """The groups whose indicators are minimized, as sets of certificate entries."""
    L = j.length(mode)
    if labels is None:
        return [{i} for i in range(L)]
    out = []
    for l in labels:
        ss = set(j.spec["sl"].get(l, ()))
        out.append({i for i in range(L) if (i if mode == "min" else int(j.m.rs[i])) in ss})
    return out


def run(c, mon):
    spec = c["spec"]
    j = wit.Judge(spec, c["rewards"])
    if not j.k < 200:
        mon.ev("skipped_ill_conditioned"); return
    rf = (G.build_rewform if c["rewards"] else G.build_rf)(spec, c["ptype"])
    for r in c["runs"]:
        wit.guard(mon, r, lambda r: sequence(c, mon, j, rf, r))
    # no iteration can succeed: one result says so
    r = c["runs"][0]; best = j.best(r["mode"])
    lam = best * c["over"] + 0.01
    if not c["rewards"] and best < 0.95:
        lam = min(lam, 1.0)
    if j.k < 50 and (c["rewards"] or lam <= 1):
        res = list(wit.make(dict(r, exact=False)).solveiter(rf, lam, r["mode"], labels=c["groups"]))
        mon.check(len(res) == 1 and res[0].status != "success" and res[0].subsystem is None and res[0].value is None and res[0].farkas_cert is None, "after-failure",
                  "%s %s lam=%r best=%r labels=%s: results %s", r, r["mode"], lam, best, c["groups"], [(x.status, x.value) for x in res])
        mon.ev("failing_sequences")


post = wit.post


def sequence(c, mon, j, rf, r):
    spec = c["spec"]
    mode = r["mode"]; best = j.best(mode)
    cfg = dict(r, exact=False)
    lam = float(min(best * r["x"], best - j.margin(r["solver"], mode, False) * 0.1))
    if lam <= 0:
        mon.ev("skipped_zero"); return
    desc = "%s %s lam=%r best=%r labels=%s %s" % ({k: r[k] for k in ("it", "init", "upd", "solver")}, mode, lam, best, c["groups"], {l: spec["sl"].get(l) for l in c["groups"] or []})
    results = list(wit.make(cfg).solveiter(rf, lam, mode, labels=c["groups"]))
    mon.check(len(results) == r["it"], "count", "%s: %d results (%s)", desc, len(results), [x.status for x in results])
    gs = group_vars(j, c["groups"], mode)
    dropped = set()
    eps = j.tol(r["solver"])
    for k, res in enumerate(results):
        mon.check(res.status == "success", "status", "%s: result %d has status %s", desc, k, res.status)
        j.witness(mon, res, lam, mode, r["solver"], desc + " iteration %d" % k)
        v = np.asarray(res.farkas_cert, dtype=float)
        pos = [max((v[i] for i in g), default=0.0) for g in gs]
        s = j.scale(v, mode)
        # an indicator may be positive because of rounding only
        lo = sum(1 for x in pos if x > eps * s); hi = sum(1 for x in pos if x > 0)
        mon.check(lo <= res.value, "value", "%s iteration %d: value %r, but %d groups have a positive entry: %s", desc, k, res.value, lo, pos)
        mon.check(res.value == int(res.value), "value", "%s iteration %d: value %r", desc, k, res.value)
        if res.value > hi:
            mon.ev("indicator_without_entry")
            mon.check(c["groups"] is not None, "value", "%s iteration %d: value %r, but %d groups have a positive entry: %s", desc, k, res.value, hi, pos)
        mon.check(res.value <= hi, "value", "%s iteration %d: value %r, but %d groups have a positive entry: %s", desc, k, res.value, hi, pos)
        if r["upd"] == "InverseResultFixedZerosUpdater":
            for g in dropped:
                mon.check(pos[g] <= eps * s, "came-back", "%s iteration %d: group %d was dropped, now has entry %r", desc, k, g, pos[g])
                mon.ev("dropped_stay_dropped")
            # a group without positive entry has indicator zero
            dropped |= {g for g in range(len(gs)) if pos[g] == 0}
        mon.ev("results")
        if k:
            if res.value < results[k - 1].value:
                mon.ev("value_decreased")
            if not np.allclose(v, results[k - 1].farkas_cert):
                mon.ev("value_changed_certificate")
    if r["again"] == "solve":
        last = wit.make(cfg).solve(rf, lam, mode, labels=c["groups"])
        mon.check(last.status == "success" and last.value == results[-1].value and np.array_equal(last.farkas_cert, results[-1].farkas_cert), "solve",
                  "%s: solve gives %s %r %s, the last iteration was %r %s", desc, last.status, last.value, last.farkas_cert, results[-1].value, results[-1].farkas_cert)
    elif r["again"] == "iter":
        # the first results do not depend on how many iterations follow
        short = list(wit.make(dict(cfg, it=1)).solveiter(rf, lam, mode, labels=c["groups"]))
        mon.check(len(short) == 1 and short[0].value == results[0].value and np.array_equal(short[0].farkas_cert, results[0].farkas_cert), "prefix", "%s: one iteration alone gives another result", desc)
    mon.ev("sequences"); mon.ev(mode); mon.ev(r["solver"])
    if r["it"] >= 4:
        mon.ev("iterations>=4")
    if c["groups"]:
        mon.ev("labels")
    if j.ecs:
        mon.ev("with_ecs")
    if c["rewards"]:
        mon.ev("rewards")
    if any(x.value < len(gs) for x in results):
        mon.nontrivial(G.fingerprint(spec), mode, r["init"], r["upd"], bool(c["groups"]), [x.value for x in results])
