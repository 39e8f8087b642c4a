"""C15: a method succeeds exactly if the threshold is reachable."""
import gen as G, oracle, wit

CASES = {"quick": 2500, "thorough": 40000}
RULE = ("reachability forms with and without end components, some entered with a probability of 1e-2 down to 5e-5 only; thresholds 0, tiny, fractions of the optimum, the optimum itself, just below, just above and far above it, and 1; exact method and heuristic "
        "with random parameters, with and without labels, solve and solveiter, cbc and glpk; non-trivial: distinct (structure, mode, method, labels, kind of threshold, verdict)")
REQUIRED = {"success": 2000, "infeasible": 800, "near_success": 300, "near_infeasible": 150, "exact:infeasible": 200, "heuristic:infeasible": 300, "labels:infeasible": 150, "min:infeasible": 300,
            "max:infeasible": 100, "zero": 100, "prob_zero_min": 40, "with_ecs": 200, "at_optimum": 100, "rare": 100}
ASSUMPTIONS = ["thresholds keep a distance from the optimal probability that the documented accuracy of the solver (1e-6 for cbc, 1e-3 for glpk) cannot bridge",
               "exact minimization of maximal probabilities with end components is refused without Gurobi (documented) and not asked for"]
HOW = ["frac", "frac", "near", "at", "above", "above", "far", "one", "zero", "tiny"]


def gen(rng, i, tier):
    kw = rng.choice([dict(), dict(ecfree=False, kind="mdp"), dict(ecfree=True, kind="mdp"), dict(kind="dtmc")])
    big = rng.random() < 0.1
    spec = G.rf(rng, nmin=8 if big else rng.choice([1, 3, 4]), nmax=20 if big else 8, labels=False, **kw)
    groups = wit.add_groups(rng, spec) if rng.random() < 0.35 else None
    if rng.random() < 0.1:
        # everything but the first step is rarely entered, so that all values are small
        spec = G.rare(rng, G.rf(rng, nmax=5, labels=False, **kw))
        return {"spec": spec, "ptype": rng.choice(G.PTYPES), "groups": None, "rare": True, "runs": [
            {"mode": rng.choice(["min", "max"]), "cfg": wit.config(rng), "how": rng.choice(["frac", "frac", "near", "above"]), "x": rng.uniform(0.5, 1), "iter": False} for _ in range(4)]}
    return {"spec": spec, "ptype": rng.choice(G.PTYPES), "groups": groups, "runs": [
        {"mode": rng.choice(["min", "max"]), "cfg": wit.config(rng), "how": rng.choice(HOW), "x": rng.random(), "iter": rng.random() < 0.4} for _ in range(4)]}


def pick(how, best, margin, x, top):
    if how == "frac":
        return best * x
    if how == "near":
        return best - 1.01 * margin
    if how == "at":
        return best
    if how == "above":
        return best + 1.01 * margin + (0.02 * x if x > 0.5 else 0)
    if how == "far":
        return best + margin + (top - best - margin) * x
    return {"one": top, "zero": 0.0, "tiny": min(best / 2, 1e-6 + 1e-2 * x)}[how]


def judge_run(mon, j, rf, r, groups, mode, top):
    """One call of one method with one threshold; returns the verdict, or None if it is too close to call."""
    cfg = r["cfg"]
    best = j.best(mode); margin = j.margin(cfg["solver"], mode, cfg["exact"])
    lam = float(pick(r["how"], best, margin, r["x"], top))
    if not 0 <= lam <= top or j.rewards and 0 < lam < margin:
        return None
    if best - margin < lam < best + margin and not (cfg["solver"] == "cbc" and lam <= best - 1e-7 or r["how"] == "zero"):
        if r["how"] == "at":
            mon.ev("at_optimum")
        mon.ev("too_close"); want = None
    else:
        want = lam <= best
    desc = "%s %s lam=%r best=%r margin=%g labels=%s" % (cfg, mode, lam, best, margin, groups)
    m = wit.make(cfg)
    results = list(m.solveiter(rf, lam, mode, labels=groups)) if r["iter"] else [m.solve(rf, lam, mode, labels=groups)]
    mon.check(len(results) > 0, "no-result", "%s: no result", desc)
    for res in results:
        mon.check(res.status in ("success", "infeasible"), "status", "%s: status %r", desc, res.status)
        if want is not None:
            mon.check((res.status == "success") == want, "verdict", "%s: status %s", desc, res.status)
        if res.status == "success":
            mon.check(res.subsystem is not None and res.farkas_cert is not None and res.value is not None, "incomplete", "%s: success without subsystem, value or certificate", desc)
        else:
            mon.check(res.subsystem is None and res.farkas_cert is None, "not-empty", "%s: %s with subsystem %s, certificate %s", desc, res.status, res.subsystem is not None, res.farkas_cert)
            mon.check(res.value is None, "not-empty", "%s: %s with value %r", desc, res.status, res.value)
            mon.check(len(results) == 1 or want is None, "several", "%s: %d results of an infeasible instance", desc, len(results))
    return want


def count(mon, j, r, groups, mode, want):
    v = "success" if want else "infeasible"
    mon.ev(v); mon.ev(("exact:" if r["cfg"]["exact"] else "heuristic:") + v); mon.ev(mode + ":" + v)
    if groups:
        mon.ev("labels:" + v)
    if r["how"] == "near":
        mon.ev("near_success")
    if r["how"] == "above":
        mon.ev("near_infeasible")
    if r["how"] == "zero":
        mon.ev("zero")
    mon.nontrivial(G.fingerprint(j.spec), mode, r["cfg"]["exact"], bool(groups), r["how"], want)


def run(c, mon):
    spec = c["spec"]
    j = wit.Judge(spec)
    if not j.k < 200:
        mon.ev("skipped_ill_conditioned"); return
    rf = G.build_rf(spec, c["ptype"])
    for r in c["runs"]:
        wit.guard(mon, r["cfg"], lambda cfg: one(c, mon, j, rf, dict(r, cfg=cfg)))


post = wit.post


def one(c, mon, j, rf, r):
    mode = r["mode"]
    if r["cfg"]["exact"] and mode == "max" and j.ecs:
        mode = "min"
    want = judge_run(mon, j, rf, r, c["groups"], mode, 1.0)
    if want is None:
        return
    count(mon, j, r, c["groups"], mode, want)
    if c.get("rare"):
        mon.ev("rare")
    if j.ecs:
        mon.ev("with_ecs")
    if j.best(mode) == 0:
        mon.ev("prob_zero_min")
