"""C19: witnesses for expected rewards: success exactly if reachable, a real witness, exact ones smallest."""
import itertools
import gen as G, oracle, wit, c12, c14, c15

CASES = {"quick": 3000, "thorough": 30000}
RULE = ("reward forms (DTMC, MDP; zero, unit, integral and fractional rewards, or of very different sizes), thresholds 0, tiny, fractions of the optimal expected reward, next to it on both sides, far above, in the gaps between the values of "
        "all subsystems; exact method and heuristic with random parameters, with and without label groups; sizes against all subsystems (up to 7, thorough 9 states), all label sets, or (9-16 states) an "
        "independent MILP solved by HiGHS; non-trivial: distinct (structure, rewards, mode, method, verdict, size)")
REQUIRED = {"success": 1500, "infeasible": 400, "near_success": 100, "near_infeasible": 100, "size:min": 400, "size:max": 400, "label_size": 250, "against_highs": 60, "proper": 400, "zero_reward": 40,
            "glpk": 500, "cbc": 1000, "heuristic:success": 500, "value_above_one": 300}
ASSUMPTIONS = ["thresholds keep a distance from the critical values that the documented accuracy of the solver (1e-6 for cbc, 1e-3 for glpk's MIP solver) cannot bridge"]
post = wit.post


def gen(rng, i, tier):
    kind = rng.choice(["verdict", "verdict", "size", "size", "labels", "witness"])
    big = rng.random() < 0.12
    spec = G.rewform(rng, nmin=9 if big else rng.choice([1, 3, 4, 5]), nmax=16 if big else 7 if tier == "quick" else rng.choice([7, 7, 9]), labels=False)
    if not big and rng.random() < 0.12:
        # rewards of very different sizes
        spec["rew"] = [r * rng.choice([1, 1, 2000]) for r in spec["rew"]]
    groups = wit.add_groups(rng, spec) if kind == "labels" or kind != "size" and rng.random() < 0.35 else None
    return {"kind": kind, "spec": spec, "big": big, "ptype": rng.choice(G.PTYPES), "groups": groups, "runs": [
        {"mode": rng.choice(["min", "max"]), "cfg": wit.config(rng, exact=True if kind in ("size", "labels") else None), "how": rng.choice(c15.HOW), "x": rng.random(), "iter": rng.random() < 0.4,
         "lam": rng.choice(["frac", "near", "sub", "tiny", "above"])} for _ in range(3)]}


def run(c, mon):
    j = wit.Judge(c["spec"], rewards=True)
    if not j.k < 200:
        mon.ev("skipped_ill_conditioned"); return
    rrf = G.build_rewform(c["spec"], c["ptype"])
    tables = {}
    for r in c["runs"]:
        wit.guard(mon, dict(r["cfg"]), lambda cfg: one(c, mon, j, rrf, dict(r, cfg=cfg), tables))


def one(c, mon, j, rrf, r, tables):
    spec, groups, mode, cfg = c["spec"], c["groups"], r["mode"], r["cfg"]
    solver = cfg["solver"]; best = j.best(mode); margin = j.margin(solver, mode, True)
    if best == 0:
        mon.ev("zero_reward")
    if c["kind"] == "verdict":
        want = c15.judge_run(mon, j, rrf, r, groups, mode, 2 * best + 5)
        if want is not None:
            c15.count(mon, j, r, groups, mode, want)
            mon.ev(solver)
        return
    if c["kind"] == "witness":
        lam = float(c12.threshold(j, mode, r["lam"], r["x"]))
        if 0 < lam < margin:
            return
        desc = "%s %s lam=%r labels=%s best=%r" % (cfg, mode, lam, groups, best)
        for res in wit.make(cfg).solveiter(rrf, lam, mode, labels=groups):
            if res.status != "success":
                continue
            j.witness(mon, res, lam, mode, solver, desc, cfg["exact"])
            mon.ev("success"); mon.ev(solver); mon.ev(("exact" if cfg["exact"] else "heuristic") + ":success")
            if lam > 1:
                mon.ev("value_above_one")
        return
    if c["kind"] == "labels":
        t = {u: j.value(c14.allowed(j, groups, u), mode) for k in range(len(groups) + 1) for u in itertools.combinations(groups, k)}
    elif not c["big"]:
        if mode not in tables:
            tables[mode] = j.table(mode)
        t = tables[mode]
    else:
        t = None
    if t is None:
        lam = best * (0.05 + 0.9 * r["x"])
        if lam - margin <= 0 or lam + margin > best:
            return
        want = wit.milp_min(j, lam - margin, mode)
        if want is None or want != wit.milp_min(j, lam + margin, mode):
            mon.ev("skipped_close_to_critical"); return
        mon.ev("against_highs")
    else:
        lams = wit.gaps(t.values(), 0.0, best, margin)
        if not lams:
            mon.ev("skipped_no_gap"); return
        lam = lams[int(r["x"] * len(lams))]
        want = min(len(u) for u, v in t.items() if v >= lam)
    from switss.problem import MILPExact
    res = MILPExact(solver).solve(rrf, lam, mode, labels=groups)
    desc = "%s %s lam=%r best=%r margin=%g labels=%s" % (solver, mode, lam, best, margin, {l: spec["sl"].get(l) for l in groups} if groups else None)
    mon.check(res.status == "success", "no-success", "%s: status %s", desc, res.status)
    keep = j.witness(mon, res, lam, mode, solver, desc, True)
    size = len(keep) if groups is None else sum(1 for l in groups if keep & set(spec["sl"].get(l, ())))
    mon.check(size == want, "not-minimal", "%s: states %s, size %d; the smallest is %d", desc, sorted(keep), size, want)
    mon.check(abs(res.value - want) < 1e-6, "wrong-value", "%s: value %r, smallest %d", desc, res.value, want)
    mon.ev("success"); mon.ev(solver)
    mon.ev("label_size" if groups else "size:" + mode)
    if lam > 1:
        mon.ev("value_above_one")
    if 0 < want < (len(groups) if groups else j.n):
        mon.ev("proper"); mon.nontrivial(G.fingerprint(spec), spec["rew"], mode, want, bool(groups))
