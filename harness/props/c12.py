"""C12: every reported witness really is one (reachability forms)."""
import numpy as np
import gen as G, oracle, wit

CASES = {"quick": 2500, "thorough": 40000}
RULE = ("reachability forms (DTMC/MDP, with and without end components, any row order); thresholds at fractions of the optimal value, just below it, at values of random subsystems, "
        "and above it; exact method and heuristic with 1-6 iterations, all initializers and updaters, with and without label groups (overlapping, nested, full, unknown), cbc and glpk; "
        "non-trivial: distinct (structure, mode, method, labels, kept states) with a proper non-empty subsystem")
REQUIRED = {"success": 3000, "exact:min": 300, "exact:max": 200, "heuristic:min": 600, "heuristic:max": 600, "labels": 600, "proper_subsystem": 1200, "with_ecs": 200, "no_success": 300,
            "glpk": 600, "cbc": 1200, "subsystem_much_smaller": 150}
ASSUMPTIONS = ["solver accuracy: conditions up to 2e-6 (cbc) or 1e-5 (glpk; 2e-3 for the exact method, as glpk's MIP presolver tolerates rows that are off by 1e-3) relative to the size of the vector; the value of the subsystem up to the same times the expected number of steps",
               "exact minimization of maximal probabilities with end components is refused without Gurobi (documented) and not asked for"]


def gen(rng, i, tier):
    kw = rng.choice([dict(), dict(ecfree=False, kind="mdp"), dict(ecfree=True, kind="mdp"), dict(kind="dtmc")])
    big = rng.random() < 0.1
    spec = G.rf(rng, nmin=8 if big else rng.choice([1, 3, 4]), nmax=20 if big else 8, labels=False, **kw)
    groups = wit.add_groups(rng, spec) if rng.random() < 0.35 else None
    return {"spec": spec, "ptype": rng.choice(G.PTYPES), "groups": groups, "runs": [
        {"mode": rng.choice(["min", "max"]), "cfg": wit.config(rng), "lam": rng.choice(["frac", "frac", "near", "sub", "above", "tiny", "one"]), "x": rng.random()} for _ in range(3)]}


def threshold(j, mode, how, x, rngstates=None):
    best = j.best(mode)
    if how == "frac":
        return best * x
    if how == "near":
        return best - min(best, 1e-4 + 1e-3 * x)
    if how == "sub":
        keep = [s for s in range(j.n) if (s * 7919 + int(x * 1e6)) % 3 or s == j.init]
        return max(0.0, j.value(keep, mode) - 1e-3)
    if how == "tiny":
        return min(best, 1e-3 + 0.05 * x)
    if how == "above":
        return best + (1 - best) * (0.01 + 0.99 * x) if not j.rewards else best * (1.01 + x) + 0.01
    return 1.0


def run(c, mon):
    spec = c["spec"]
    j = wit.Judge(spec)
    if not j.k < 500:
        mon.ev("skipped_ill_conditioned"); return
    if j.ecs:
        mon.ev("with_ecs")
    rf = G.build_rf(spec, c["ptype"])
    for r in c["runs"]:
        wit.guard(mon, r["cfg"], lambda cfg: one(c, mon, dict(r, cfg=cfg), j, rf))


post = wit.post


def one(c, mon, r, j, rf):
    spec = c["spec"]
    mode, cfg = r["mode"], r["cfg"]
    if cfg["exact"] and mode == "max" and j.ecs:
        mode = "min"
    lam = float(threshold(j, mode, r["lam"], r["x"]))
    desc = "%s %s lam=%r labels=%s best=%r" % (cfg, mode, lam, c["groups"], j.best(mode))
    try:
        results = list(wit.make(cfg).solveiter(rf, lam, mode, labels=c["groups"]))
    except Exception as e:
        # whether a method may fail is the business of C15 and C16
        mon.ev("raised:" + type(e).__name__)
        return
    for res in results:
        if res.status != "success":
            mon.ev("no_success"); continue
        keep = j.witness(mon, res, lam, mode, cfg["solver"], desc, cfg["exact"])
        mon.ev("success"); mon.ev("%s:%s" % ("exact" if cfg["exact"] else "heuristic", mode)); mon.ev(cfg["solver"])
        if c["groups"]:
            mon.ev("labels")
        if 0 < len(keep) < j.n:
            mon.ev("proper_subsystem")
            if len(keep) <= j.n - 3:
                mon.ev("subsystem_much_smaller")
            mon.nontrivial(G.fingerprint(spec), mode, cfg["exact"], bool(c["groups"]), sorted(keep))
