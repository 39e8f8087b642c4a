"""C11: certificate generation."""
import numpy as np
from scipy.optimize import linprog
import gen as G, oracle, views
import c10

CASES = {"quick": 3000, "thorough": 40000}
RULE = ("reachability forms (with and without end components, values 0 and 1 included), all eight mode/sense combinations, thresholds at the true value plus/minus margins "
        "1e-3..0.9, 0, 1 and the value itself, solvers cbc and glpk; non-trivial: distinct (structure, mode, sense, holds)")
REQUIRED = {"found": 2500, "none": 1500, "found:min<=": 200, "found:min>=": 200, "found:max<=": 200, "found:max>=": 200, "none:min<=": 150, "none:min>=": 150,
            "none:max<=": 150, "none:max>=": 60, "certificates_avoiding_ecs": 40, "forms_with_ecs": 300, "boundary": 300}
ASSUMPTIONS = ["completeness is asked for bounds that hold with margin at least 1e-3, refusal when the bound is violated by at least 1e-3 and by more than 2e-5 times the expected "
               "number of steps; for minimal probabilities and upper bounds with end components whenever a certificate that vanishes on end components exists",
               "completeness of frequency certificates is not asked with glpk (PuLP reads six significant digits from it)"]


def gen(rng, i, tier):
    kw = rng.choice([dict(), dict(ecfree=False, kind="mdp"), dict(ecfree=True, kind="mdp"), dict(kind="dtmc")])
    spec = G.rf(rng, nmin=rng.choice([1, 3]), nmax=rng.choice([4, 7, 7, 12, 25]), labels=False, **kw)
    return {"spec": spec, "ptype": rng.choice(G.PTYPES), "seed": rng.randrange(1 << 30), "n": 5}


def run(c, mon):
    import random
    from switss.certification import generate_farkas_certificate, check_farkas_certificate
    spec = c["spec"]; r = random.Random(c["seed"])
    k = oracle.conditioning(spec)
    if not k < 500:
        mon.ev("skipped_ill_conditioned"); return
    q = c10.Cond(spec)
    rf = G.build_rf(spec, c["ptype"])
    before = views.of_model(rf.system); A0 = rf.A.toarray().copy(); b0 = np.array(rf.to_target).copy()
    existing = None
    if q.ecs:
        mon.ev("forms_with_ecs")
        # smallest upper bound on the minimal probability that has a certificate vanishing on end components
        free = np.array([q.m.rs[j] not in q.ecs for j in range(q.C)])
        res = linprog(q.b[free], A_ub=-q.A[free].T, b_ub=-q.delta, bounds=(0, None), method="highs")
        existing = float(res.fun) if res.status == 0 else None
    for _ in range(c["n"]):
        mode = r.choice(["min", "max"]); sense = r.choice(["<=", "<", ">=", ">"])
        up = sense[0] == ">"
        val = float((q.lo if mode == "min" else q.hi)[q.init])
        mg = r.choice([1e-3, 1e-2, 0.1, 0.3, r.random(), 0.0])
        lam = r.choice([val - mg, val + mg, val - mg, val + mg, 0.0, 1.0])
        lam = min(1.0, max(0.0, lam))
        solver = r.choice(["cbc", "cbc", "cbc", "glpk"])
        kw = {} if solver == "cbc" and r.random() < 0.5 else {"solver": solver}
        v = generate_farkas_certificate(rf, mode, sense, lam, **kw)
        margin = (val - lam) if up else (lam - val)
        desc = "Pr^%s(init) = %r, bound %s %r, solver %s" % (mode, val, sense, lam, solver)
        if v is not None:
            v = np.asarray(v, dtype=float)
            mon.check(v.shape == (q.length(mode, sense),), "shape", "%s: %s", desc, v.shape)
            x = q.violation(mode, sense, lam, v)
            mon.check(x[0] <= 1.1e-5, "not-a-certificate", "%s: returned %s, which violates condition %s by %g", desc, v, x[1], x[0])
            ok = check_farkas_certificate(rf, mode, sense, lam, v, tol=1.1e-5)
            mon.check(ok, "checker-rejects", "%s: the checker rejects the generated vector %s", desc, v)
            mon.check(margin >= -1.1e-5 * (1 + q.n + q.C + k), "false-bound", "%s: certificate %s", desc, v)
            if mode == "min" and not up and q.ecs and existing is not None:
                mon.ev("certificates_avoiding_ecs")
            mon.ev("found"); mon.ev("found:" + mode + sense[0] + "=")
            mon.nontrivial(G.fingerprint(spec), mode, sense, True)
        else:
            if solver == "glpk" and q.length(mode, sense) == q.C:
                # PuLP reads six significant digits from glpk: frequencies may miss the tolerance for that reason alone
                mon.ev("glpk_frequencies_none")
            elif mode == "min" and not up and q.ecs:
                if existing is not None:
                    mon.ev("certificates_avoiding_ecs")
                    mon.check(not lam - existing >= 1e-3, "missed-ec", "%s: no certificate although one exists (it proves %r)", desc, existing)
            else:
                mon.check(not margin >= 1e-3, "missed", "%s: no certificate although the bound holds", desc)
            mon.ev("none"); mon.ev("none:" + mode + sense[0] + "=")
            mon.nontrivial(G.fingerprint(spec), mode, sense, False)
        if abs(margin) < 1e-9:
            mon.ev("boundary")
    x = views.diff(views.of_model(rf.system), before)
    mon.check(x is None and (rf.A.toarray() == A0).all() and (np.array(rf.to_target) == b0).all(), "form-changed", "%s", x)
