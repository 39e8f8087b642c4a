"""C08: probability vectors, state-action back-ups and frequency vectors of reachability forms."""
import numpy as np
import gen as G, oracle

CASES = {"quick": 4000, "thorough": 60000}
RULE = ("random reachability forms (DTMC/MDP, with and without end components, permuted rows and states, 1-7 interior states, 1 in 12 up to 30), alternating solvers "
        "cbc/glpk, queries in random order, some repeated; non-trivial: distinct structures with a minimal value strictly between 0 and the maximal value or ECs")
REQUIRED = {"min_vectors": 1000, "max_vectors": 1000, "backups": 500, "frequencies": 1000, "per_state": 500, "forms_with_ecs": 250, "solver:cbc": 1500, "solver:glpk": 1500}
ASSUMPTIONS = ["solver accuracy: values are compared up to 2e-6 (cbc) or 1e-5 (glpk, whose output PuLP reads with six significant digits) times the expected number of "
               "steps, rows up to the same relative error; forms needing more than 2000 steps are skipped"]


def gen(rng, i, tier):
    big = i % 12 == 11
    kw = rng.choice([dict(), dict(ecfree=False, kind="mdp"), dict(ecfree=True, kind="mdp"), dict(kind="dtmc")])
    spec = G.rf(rng, nmax=30, nmin=8, **dict(kw, labels=False)) if big else G.rf(rng, nmax=7, nmin=rng.choice([1, 3, 4]), labels=False, **kw)
    qs = ["pr_min", "pr_max", "max_z_state", "max_z_state_action", "max_y_state_action", "max_y_state"]
    rng.shuffle(qs)
    qs = [[q, rng.choice(["cbc", "glpk"])] for q in qs] + [[rng.choice(qs), rng.choice(["cbc", "glpk"])] for _ in range(rng.randint(0, 2))]
    return {"spec": spec, "qs": qs, "ptype": rng.choice(G.PTYPES)}


def run(c, mon):
    spec = c["spec"]; N = spec["N"]; n = N - 2; C = len(spec["rows"]) - 2
    k = oracle.conditioning(spec)
    if not k < 2000:
        mon.ev("skipped_ill_conditioned"); return
    rf = G.build_rf(spec, c["ptype"])
    m = oracle.M(spec)
    lo, hi = oracle.prob(m, [n], "min")[:n], oracle.prob(m, [n], "max")[:n]
    init = spec["sl"]["init"][0]
    ecs = oracle.ec_states(spec)
    if ecs:
        mon.ev("forms_with_ecs")
    if ecs or ((lo > 1e-6) & (lo < hi - 1e-6)).any():
        mon.nontrivial(G.fingerprint(spec))
    P = m.P[:C, :n]; b = m.P[:C, n]
    A = np.zeros((C, n)); A[np.arange(C), m.rs[:C]] = 1; A -= P
    delta = np.zeros(n); delta[init] = 1
    EPS = {"cbc": 2e-6, "glpk": 1e-5}

    def freq(y, what, eps):
        y = np.asarray(y, dtype=float)
        mon.check(y.shape == (C,), what + "-shape", "%s, expected %s", y.shape, (C,))
        mon.check(np.isfinite(y).all() and (y >= -eps).all(), what + "-negative", "%s", y)
        mon.check((y @ A <= delta + eps * (1 + np.abs(y) @ np.abs(A))).all(), what + "-polytope", "flow excess %s", y @ A - delta)
        mon.check(abs(b @ y - hi[init]) <= eps * k * (1 + np.abs(y).sum()), what + "-value", "frequency value %r, maximal probability %r", b @ y, hi[init])
        mon.ev("frequencies")

    ys = {}
    for q, solver in c["qs"]:
        v = np.asarray(getattr(rf, q)(solver=solver), dtype=float)
        mon.ev("solver:" + solver)
        eps = EPS[solver]; tol = eps * k
        if q in ("pr_min", "max_z_state", "pr_max"):
            w = hi if q == "pr_max" else lo
            mon.check(v.shape == (n,), q + "-shape", "%s", v.shape)
            mon.check(np.isfinite(v).all() and (np.abs(v - w) <= tol).all(), q, "%s with %s: %s, expected %s", q, solver, v, w)
            mon.ev("max_vectors" if q == "pr_max" else "min_vectors")
        elif q == "max_z_state_action":
            w = P @ lo + b
            mon.check(v.shape == (C,), q + "-shape", "%s", v.shape)
            mon.check((np.abs(v - w) <= tol).all(), q, "back-up with %s: %s, expected %s", solver, v, w)
            mon.ev("backups")
        elif q == "max_y_state_action":
            freq(v, q, eps)
            ys[solver] = v
        else:
            mon.check(v.shape == (n,), q + "-shape", "%s", v.shape)
            # the solver is deterministic: the per-state form is the sum of the vector it returns for the pairs
            y = np.asarray(rf.max_y_state_action(solver=solver), dtype=float)
            freq(y, "max_y_state_action", eps)
            s = np.zeros(n)
            for i in range(C):
                s[m.rs[i]] += y[i]
            mon.check((np.abs(v - s) <= eps * (1 + np.abs(s))).all(), q, "per-state frequencies %s, sum over the actions %s", v, s)
            mon.ev("per_state")
            # frequencies that are spread over several actions: optimal vectors may be, whichever the solver returns
            z = np.array([((31 * i + 7) % 11 + 1) / 11.0 for i in range(C)])
            rf.max_y_state_action = lambda *a, **kw: z.copy()
            try:
                v = np.asarray(rf.max_y_state(solver=solver), dtype=float)
            finally:
                del rf.max_y_state_action
            zs = np.array([z[[i for i in range(C) if m.rs[i] == t]].sum() for t in range(n)])
            # (an implementation that does not ask the other method gives the same as before)
            mon.check((np.abs(v - zs) <= 1e-9).all() or (np.abs(v - s) <= eps * (1 + np.abs(s))).all(), q + "-spread", "per-state frequencies %s of %s, sum over the actions %s", v, z, zs)
            mon.ev("spread")
