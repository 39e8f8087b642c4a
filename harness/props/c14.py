"""C14: exact minimization over given labels uses the fewest of them."""
import itertools
import gen as G, oracle, wit

CASES = {"quick": 4000, "thorough": 30000}
RULE = ("reachability forms (DTMC, MDP; mode min also with end components) with 1-5 label groups: random, partition, nested, overlapping, empty, full, held by goal/fail, unknown labels, no label at all; thresholds in the gaps "
        "between the values of the 2^labels largest subsystems avoiding a set of labels; oracle: minimum over all label sets; cbc and glpk; "
        "non-trivial: distinct (structure, mode, groups, minimum) where the minimum is neither 0 nor all labels")
REQUIRED = {"exact:min": 500, "exact:max": 300, "between": 400, "zero": 60, "all": 100, "unknown_label": 80, "label_on_goal_or_fail": 100, "glpk": 200, "min_with_ecs": 60, "greedy_differs": 5, "no_labels": 20}
ASSUMPTIONS = ["thresholds keep a distance from the critical values that the documented accuracy of the solver (1e-6 for cbc, 1e-3 for glpk) cannot bridge",
               "exact minimization of maximal probabilities with end components is refused without Gurobi (documented) and not asked for"]


def gen(rng, i, tier):
    kw = rng.choice([dict(ecfree=True, kind="mdp"), dict(ecfree=True), dict(kind="dtmc", ecfree=True), dict(ecfree=False, kind="mdp")])
    spec = G.rf(rng, nmin=rng.choice([1, 3, 5, 7]), nmax=rng.choice([7, 10, 14]), labels=False, **kw)
    groups = wit.add_groups(rng, spec, kmax=5)
    if groups and rng.random() < 0.25:
        l = rng.choice(groups)
        spec["sl"][l] = sorted(set(spec["sl"].get(l, [])) | {spec["N"] - rng.choice([1, 2])})
    return {"spec": spec, "ptype": rng.choice(G.PTYPES), "groups": groups, "runs": [
        {"mode": rng.choice(["min", "max"]), "solver": rng.choice(["cbc", "cbc", "glpk"]), "x": rng.random()} for _ in range(3)]}


def allowed(j, groups, used):
    bad = set().union(*[set(j.spec["sl"].get(l, ())) for l in groups if l not in used]) if groups else set()
    return [s for s in range(j.n) if s not in bad]


def run(c, mon):
    spec, groups = c["spec"], c["groups"]
    j = wit.Judge(spec)
    if not j.k < 200:
        mon.ev("skipped_ill_conditioned"); return
    rf = G.build_rf(spec, c["ptype"])
    for r in c["runs"]:
        wit.guard(mon, r, lambda r: one(c, mon, r, j, rf))


post = wit.post


def one(c, mon, r, j, rf):
    from switss.problem import MILPExact
    spec, groups = c["spec"], c["groups"]
    mode, solver = r["mode"], r["solver"]
    if mode == "max" and j.ecs:
        mode = "min"
    margin = j.margin(solver, mode, True)
    best = j.best(mode)
    t = {u: j.value(allowed(j, groups, u), mode) for k in range(len(groups) + 1) for u in itertools.combinations(groups, k)}
    lams = wit.gaps(t.values(), 0.0, best, margin)
    if not lams:
        mon.ev("skipped_no_gap"); return
    lam = lams[int(r["x"] * len(lams))]
    good = [u for u, v in t.items() if v >= lam]
    want = min(map(len, good))
    if groups and min(len(u) for u in good if all(t[tuple(x for x in u if x != l)] < lam for l in u)) != max(len(u) for u in good if all(t[tuple(x for x in u if x != l)] < lam for l in u)):
        mon.ev("greedy_differs")
    desc = "%s %s lam=%r best=%r labels=%s %s margin=%g" % (solver, mode, lam, best, groups, {l: spec["sl"].get(l) for l in groups}, margin)
    res = MILPExact(solver).solve(rf, lam, mode, labels=groups)
    mon.check(res.status == "success", "no-success", "%s: status %s", desc, res.status)
    keep = j.witness(mon, res, lam, mode, solver, desc, True)
    used = [l for l in groups if keep & set(spec["sl"].get(l, ()))]
    mon.check(len(used) <= want, "not-minimal", "%s: states %s use labels %s, %d suffice", desc, sorted(keep), used, want)
    mon.check(len(used) >= want, "oracle", "%s: states %s use labels %s, at least %d are needed", desc, sorted(keep), used, want)
    mon.check(abs(res.value - want) < 1e-6, "wrong-value", "%s: value %r, smallest number of labels %d", desc, res.value, want)
    mon.ev("exact:" + mode); mon.ev(solver)
    if not groups:
        mon.ev("no_labels")
    mon.ev("zero" if want == 0 else "all" if want == len(groups) else "between")
    if any(l not in spec["sl"] for l in groups):
        mon.ev("unknown_label")
    if any(s >= j.n for l in groups for s in spec["sl"].get(l, ())):
        mon.ev("label_on_goal_or_fail")
    if mode == "min" and j.ecs:
        mon.ev("min_with_ecs")
    if 0 < want < len(groups):
        mon.nontrivial(G.fingerprint(spec), mode, [spec["sl"].get(l) for l in groups], want)
