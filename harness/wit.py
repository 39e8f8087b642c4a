"""Shared by the checks of minimization methods: configurations, label groups, judgement of a returned witness."""
import numpy as np
import core, oracle

INITS = ["AllOnesInitializer", "InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer"]
UPDS = ["InverseResultUpdater", "InverseResultFixedZerosUpdater"]


def add_groups(rng, spec, kmax=4, unknown=True):
    """Adds state labels g0.. to an RF specification; returns the list of labels to minimize (some may hold no state at all)."""
    n = spec["N"] - 2
    sl = dict(spec["sl"]); names = []
    style = rng.choice(["random", "partition", "nested", "overlap"])
    k = rng.randint(1, kmax)
    for j in range(k):
        if style == "random":
            g = [s for s in range(n) if rng.random() < rng.choice([0.2, 0.5, 0.8])]
        elif style == "partition":
            g = [s for s in range(n) if s % k == j]
        elif style == "nested":
            g = list(range(n - (n * j) // k))
        else:
            g = [s for s in range(n) if j <= s % (k + 1) <= j + 1]
        if rng.random() < 0.06:
            g = []
        if rng.random() < 0.06:
            g = list(range(n))
        if rng.random() < 0.06:
            g = g + [n + rng.randrange(2)]
        if g:
            sl["g%d" % j] = g
            names.append("g%d" % j)
        elif unknown:
            names.append("g%d" % j)
    if not names:
        sl["g0"] = [0]; names = ["g0"]
    spec["sl"] = sl
    rng.shuffle(names)
    if unknown and rng.random() < 0.03:
        names = []                           # a list of no labels is not the same as no list
    return names


def config(rng, exact=None, solvers=("cbc", "cbc", "glpk")):
    if exact is None:
        exact = rng.random() < 0.45
    c = {"exact": exact, "solver": rng.choice(solvers)}
    if not exact:
        c.update(it=rng.choice([1, 1, 2, 3, 4, 6]), init=rng.choice(INITS), upd=rng.choice(UPDS))
    return c


def make(c):
    from switss import problem as p
    if c["exact"]:
        return p.MILPExact(c["solver"])
    return p.QSHeur(iterations=c["it"], initializertype=getattr(p, c["init"]), updatertype=getattr(p, c["upd"]), solver=c["solver"])


class Judge:
    """Values of subsystems and conditions of certificates for one (reward) reachability form specification."""

    def __init__(self, spec, rewards=False):
        self.spec = spec; self.rewards = rewards
        m = self.m = oracle.M(spec); n = self.n = spec["N"] - 2; C = self.C = len(spec["rows"]) - 2
        A = np.zeros((C, n)); A[np.arange(C), m.rs[:C]] = 1
        self.A = A - m.P[:C, :n]
        self.b = np.array(spec["rew"][:C], dtype=float) if rewards else m.P[:C, n]
        self.init = spec["sl"]["init"][0]
        self.delta = np.zeros(n); self.delta[self.init] = 1
        self.ecs = oracle.ec_states(spec)
        self.k = oracle.conditioning(spec)

    def value(self, keep, mode):
        keep = set(keep)
        f = oracle.sub_rew if self.rewards else oracle.sub_prob
        return f(self.spec, keep, mode, self.init)

    def best(self, mode):
        return self.value(range(self.n), mode)

    def bound(self, mode):
        """An upper bound of every entry of a certificate (None without one)."""
        if mode == "min":
            return float(oracle.rew(self.m, self.spec["rew"], [self.n, self.n + 1], "max").max()) + 1 if self.rewards else 1.0
        return None if self.ecs else float(oracle.rew(self.m, np.ones(self.m.C), [self.n, self.n + 1], "max")[self.init]) + 1

    def table(self, mode):
        """{set of kept states: value} for all sets with the initial state."""
        return {frozenset(k): v for k, v in oracle.subset_values(self.spec, self.init, lambda keep: self.value(keep, mode)).items()}

    def margin(self, solver, mode, exact):
        """How close to a critical value a threshold may lie before solver accuracy can change the outcome."""
        return self.tol(solver, exact) * (1 + self.k) * (2 + float(np.max(self.b, initial=0)) + (self.bound(mode) or 0))

    def length(self, mode):
        return self.n if mode == "min" else self.C

    def states(self, vec, mode):
        """Indices of the states with a positive entry."""
        if mode == "min":
            return {s for s in range(self.n) if vec[s] > 0}
        return {int(self.m.rs[i]) for i in range(self.C) if vec[i] > 0}

    def scale(self, vec, mode):
        return 1 + float(np.abs(vec).sum()) + float(np.max(self.b, initial=0))

    def tol(self, solver, exact=False):
        # glpk's own MIP presolver accepts rows that are off by up to 1e-3 (its report then says "Low quality")
        return 2e-6 if solver == "cbc" else 2e-3 if exact else 1e-5

    def farkas(self, vec, mode, lam):
        """Largest violation of the documented conditions of a certificate for the lower bound lam."""
        n = self.n
        if mode == "min":
            parts = [("row", float(np.max(self.A @ vec - self.b))), ("threshold", lam - vec[self.init])]
            parts.append(("ec", max([abs(vec[s]) for s in self.ecs], default=0.0)))
        else:
            parts = [("row", float(np.max(vec @ self.A - self.delta))), ("threshold", lam - float(self.b @ vec))]
        parts.append(("negative", -float(vec.min())))
        return max(parts, key=lambda p: p[1])[::-1]

    def witness(self, mon, res, lam, mode, solver, desc, exact=False):
        """Judges a successful ProblemResult. Returns the set of kept states."""
        sub = res.subsystem
        mon.check(sub is not None and res.farkas_cert is not None, "incomplete", "%s: success without subsystem or certificate", desc)
        v = np.asarray(res.farkas_cert, dtype=float)
        mon.check(v.shape == (self.length(mode),), "shape", "%s: certificate of shape %s", desc, v.shape)
        mon.check(np.isfinite(v).all(), "nan", "%s: certificate %s", desc, v)
        eps = self.tol(solver, exact)
        amount, what = self.farkas(v, mode, lam)
        mon.check(amount <= eps * self.scale(v, mode), "not-a-certificate", "%s: %s violates %s by %g", desc, v, what, amount)
        mon.check(sub.certform == mode and np.array_equal(np.asarray(sub.certificate, dtype=float), v), "subsystem-vector", "%s: subsystem built from %s (%s), certificate %s", desc, sub.certificate, sub.certform, v)
        mask = np.asarray(sub.subsystem_mask)
        mon.check(mask.shape == (self.n,), "mask-shape", "%s: mask %s", desc, mask)
        keep = self.states(v, mode)
        mon.check({s for s in range(self.n) if mask[s]} == keep, "mask", "%s: mask %s, states with a positive entry %s of %s", desc, mask, sorted(keep), v)
        val = self.value(keep, mode)
        mon.check(val >= lam - eps * self.scale(v, mode) * (1 + self.k), "not-a-witness", "%s: subsystem %s has value %r; %s", desc, sorted(keep), val, v)
        return keep


def gaps(values, lo, hi, margin):
    """Thresholds in (lo, hi] that keep `margin` away from all values: the middles of the gaps, and points near their ends."""
    vs = sorted({0.0, lo, hi} | {v for v in values if lo < v < hi})
    out = []
    for a, b in zip(vs, vs[1:]):
        if b - a > 2.5 * margin:
            out += [(a + b) / 2, a + 1.1 * margin, b - 1.1 * margin]
    return out


def milp_min(j, lam, mode):
    """Smallest number of states, computed with an independent formulation and solver (HiGHS). None if it gives up."""
    from scipy.optimize import milp, LinearConstraint, Bounds
    n, C = j.n, j.C
    if mode == "min":
        L = n; rows = np.hstack([j.A, np.zeros((C, n))]); rhs = j.b.copy()
        val = np.zeros(L); val[j.init] = 1
        owner = np.arange(n)
    else:
        L = C; rows = np.hstack([j.A.T, np.zeros((n, n))]); rhs = j.delta.copy()
        val = j.b.copy(); owner = np.array([int(x) for x in j.m.rs[:C]])
    ub = j.bound(mode)
    if ub is None:
        return None
    link = np.zeros((L, L + n)); link[np.arange(L), np.arange(L)] = 1; link[np.arange(L), L + owner] = -ub
    thr = np.concatenate([val, np.zeros(n)])[None]
    hi = np.concatenate([np.full(L, ub), np.ones(n)])
    if mode == "min":
        for s in j.ecs:
            hi[s] = 0
    r = milp(np.concatenate([np.zeros(L), np.ones(n)]), integrality=np.concatenate([np.zeros(L), np.ones(n)]), bounds=Bounds(0, hi),
             constraints=[LinearConstraint(rows, -np.inf, rhs), LinearConstraint(link, -np.inf, 0), LinearConstraint(thr, lam, np.inf)],
             options={"time_limit": 20})
    return int(round(r.fun)) if r.status == 0 else None


import contextlib


@contextlib.contextmanager
def plain_cbc():
    """cbc without cuts, preprocessing and presolve."""
    import pulp
    cls = pulp.apis.coin_api.COIN_CMD
    orig = cls.actualSolve

    def solve(self, lp, *a, **k):
        old = self.options
        self.options = list(old or []) + ["cuts off", "preprocess off", "presolve off"]
        try:
            return orig(self, lp, *a, **k)
        finally:
            self.options = old
    cls.actualSolve = solve
    try:
        yield
    finally:
        cls.actualSolve = orig


def guard(mon, cfg, body):
    """Runs body(cfg). What fails with glpk but not with cbc may be an error of glpk itself (it does report feasible problems as infeasible
    when numbers get unpleasant), and what fails with cbc but not with cbc without cuts, preprocessing and presolve one of cbc (its cuts are known to
    cut off optimal solutions at times); such cases are counted, and `post` below complains if there are more than the solvers can be blamed for."""
    try:
        body(cfg)
    except core.Violation as v:
        if v.kind == "exception":
            raise
        if cfg["solver"] == "glpk":
            body(dict(cfg, solver="cbc"))
            mon.ev("glpk_errs"); mon.ev("glpk_errs:" + v.kind)
        else:
            with plain_cbc():
                body(cfg)
            mon.ev("cbc_errs"); mon.ev("cbc_errs:" + v.kind)
    mon.ev(("glpk" if cfg["solver"] == "glpk" else "cbc") + "_runs")


def post(agg, tier, seed):
    e = agg["events"]
    for s, share in (("glpk", 0.004), ("cbc", 0.0008)):
        if e[s + "_errs"] > 3 + share * e[s + "_runs"]:
            agg["viol"].append({"i": -1, "kind": s + "-rate", "msg": "%d of %d runs with %s gave wrong results: %s" % (
                e[s + "_errs"], e[s + "_runs"], s, {k: v for k, v in e.items() if k.startswith(s + "_errs:")}), "case": None})
