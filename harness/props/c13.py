"""C13: the exact method returns a subsystem with the fewest states."""
import gen as G, oracle, wit

CASES = {"quick": 2500, "thorough": 14000}
RULE = ("EC-free reachability forms (mode min: also with end components), DTMC and MDP; up to 7 (thorough: 10) interior states against the values of all subsystems, thresholds in the gaps between these "
        "values and right next to them, on some forms one after another in descending order; tiny forms whose states are visited little more than once; some states are visited more than a thousand times on average (thresholds then at least a tenth off); 9 to 18 states against an independent MILP formulation solved by HiGHS; the same form with states, rows and actions renumbered; cbc and glpk; "
        "non-trivial: distinct (structure, mode, smallest size, threshold rank) where the smallest size is neither 0 nor all states")
REQUIRED = {"exact:min": 300, "exact:max": 250, "renumbered": 150, "against_highs": 60, "beats_all": 100, "proper": 300, "min_with_ecs": 80, "glpk": 150, "several_optima_sizes": 60, "smaller_threshold_later": 100, "frequent": 50, "tight": 100}
ASSUMPTIONS = ["thresholds keep a distance from the values of all subsystems that the documented accuracy of the solver (1e-6 for cbc, 1e-3 for glpk) cannot bridge",
               "exact minimization of maximal probabilities with end components is refused without Gurobi (documented) and not asked for"]


def gen(rng, i, tier):
    kw = rng.choice([dict(ecfree=True, kind="mdp"), dict(ecfree=True), dict(kind="dtmc", ecfree=True), dict(ecfree=False, kind="mdp")])
    big = rng.random() < 0.12
    top = 18 if big else 7 if tier == "quick" or rng.random() < 0.7 else 10
    if rng.random() < 0.12:
        # one form, several thresholds, the largest ones first
        spec = G.options(rng)
        mode = "max" if rng.random() < 0.7 else "min"; solver = rng.choice(["cbc", "cbc", "glpk"])
        return {"spec": spec, "perm": G.permute_rf(rng, spec), "ptype": rng.choice(G.PTYPES), "big": False, "runs": [
            {"mode": mode, "solver": solver, "x": x, "perm": False, "later": i > 0} for i, x in enumerate([0.999] + sorted((rng.random() for _ in range(3)), reverse=True))]}
    if rng.random() < 0.15:
        # states that are visited a little more often than once, all of which is needed
        spec = G.tight(rng)
        return {"spec": spec, "perm": G.permute_rf(rng, spec), "ptype": rng.choice(G.PTYPES), "big": False, "tight": True, "runs": [
            {"mode": rng.choice(["max", "max", "min"]), "solver": "cbc", "x": rng.choice([0.9999, 0.9, rng.random()]), "perm": False} for _ in range(2)]}
    if rng.random() < 0.1:
        # a state that is visited more than a thousand times
        spec = G.rf(rng, nmin=rng.choice([2, 4]), nmax=7, labels=False, ecfree=True, kind="mdp" if rng.random() < 0.8 else "dtmc")
        spec = G.slow(rng, spec)
        return {"spec": spec, "perm": G.permute_rf(rng, spec), "ptype": rng.choice(G.PTYPES), "big": False, "slow": True, "runs": [
            {"mode": rng.choice(["min", "max", "max", "max"]), "solver": "cbc", "x": rng.random(), "perm": rng.random() < 0.2} for _ in range(3)]}
    spec = G.rf(rng, nmin=9 if big else rng.choice([1, 3, 4, 5]), nmax=top, labels=rng.random() < 0.2, **kw)
    return {"spec": spec, "perm": G.permute_rf(rng, spec), "ptype": rng.choice(G.PTYPES), "big": big, "runs": [
        {"mode": rng.choice(["min", "max"]), "solver": rng.choice(["cbc", "cbc", "glpk"]), "x": rng.random(), "perm": rng.random() < 0.35} for _ in range(3)]}


def run(c, mon):
    spec = c["spec"]
    js = {False: wit.Judge(spec), True: wit.Judge(c["perm"])}
    j = js[False]
    if not j.k < (6000 if c.get("slow") else 200):
        mon.ev("skipped_ill_conditioned"); return
    rfs = {}
    tables = {}
    for r in c["runs"]:
        wit.guard(mon, r, lambda r: one(c, mon, r, j, js, rfs, tables))


post = wit.post


def one(c, mon, r, j, js, rfs, tables):
    spec = c["spec"]
    mode, solver = r["mode"], r["solver"]
    if mode == "max" and j.ecs:
        mode = "min"
    best = j.best(mode)
    margin = 0.1 * best if c.get("slow") else j.margin(solver, mode, True)
    if c["big"]:
        lam = best * (0.05 + 0.9 * r["x"])
        if lam - margin <= 0 or lam + margin > best:
            return
        want = wit.milp_min(j, lam - margin, mode)
        if want is None or want != wit.milp_min(j, lam + margin, mode):
            mon.ev("skipped_close_to_critical"); return
        mon.ev("against_highs")
    else:
        if mode not in tables:
            tables[mode] = j.table(mode)
        t = tables[mode]
        lams = wit.gaps(t.values(), 0.0, best, margin)
        if not lams:
            mon.ev("skipped_no_gap"); return
        lam = lams[int(r["x"] * len(lams))]
        good = [k for k, v in t.items() if v >= lam]
        want = min(map(len, good))
        if len({len(k) for k in good}) > 1:
            mon.ev("several_optima_sizes")
        if want == j.n:
            mon.ev("beats_all")
    if r["perm"] not in rfs:
        rfs[r["perm"]] = G.build_rf(c["perm"] if r["perm"] else spec, c["ptype"])
    from switss.problem import MILPExact
    res = MILPExact(solver).solve(rfs[r["perm"]], lam, mode)
    desc = "%s %s lam=%r best=%r margin=%g renumbered=%s" % (solver, mode, lam, best, margin, r["perm"])
    mon.check(res.status == "success", "no-success", "%s: status %s", desc, res.status)
    keep = js[r["perm"]].witness(mon, res, lam, mode, solver, desc, True)
    mon.check(len(keep) == want, "not-minimal", "%s: %d states %s, smallest subsystem has %d", desc, len(keep), sorted(keep), want)
    mon.check(abs(res.value - want) < 1e-6, "wrong-value", "%s: value %r, smallest subsystem has %d states", desc, res.value, want)
    mon.ev("exact:" + mode); mon.ev(solver)
    if c.get("slow") and j.bound(mode) and j.bound(mode) > 1000:
        mon.ev("frequent")
    if c.get("tight"):
        mon.ev("tight")
    if r.get("later"):
        mon.ev("smaller_threshold_later")
    if r["perm"]:
        mon.ev("renumbered")
    if mode == "min" and j.ecs:
        mon.ev("min_with_ecs")
    if 0 < want < j.n:
        mon.ev("proper")
        mon.nontrivial(G.fingerprint(spec), mode, want)
