"""C27: initializers and updaters return the documented weights."""
import math
import numpy as np
import gen as G, oracle, wit

CASES = {"quick": 6000, "thorough": 60000}
RULE = ("direct: all initializers and updaters on reachability forms and reward forms (with and without end components) with random groupings (singletons, overlapping, partial, empty groups, groups of probability zero, "
        "arbitrary group indices), given weights, last results with zeros, tiny and huge values; recorded: the same classes, wrapped, inside runs of the heuristic, where the weights, the last results they were computed from "
        "and the optimality of the returned vector for these weights are checked; non-trivial: distinct (structure, grouping, class, weights)")
REQUIRED = {"weights": 15000, "initializers": 2000, "updaters": 1500, "recorded_runs": 300, "recorded_updates": 400, "zero_groups": 1000, "empty_groups": 300, "given_weights": 500, "fixed": 500, "optimal_for_weights": 600, "optimal_max": 250, "optimal_rewards": 80, "optimal_later": 300, "optimal_sharp": 300,
            "reach_min": 200, "reach_max": 200, "freq_dtmc": 200, "freq_mdp": 200, "combined": 400, "solver_exact": 300, "unlikely": 20, "rewards": 200}
ASSUMPTIONS = ["the constant for groups of probability, frequency or last value zero only has to be large (1e7 to 1e10), whether or not it is scaled by given weights",
               "solver accuracy: inverse weights are compared up to 2e-6 (cbc) or 1e-5 (glpk) times the conditioning of the form"]
BIG = (1e7, 1e10)


def grouping(rng, L):
    style = rng.choice(["single", "random", "partition", "partial"])
    off = rng.choice([0, 0, L, 100])
    if style == "single":
        gs = [[i] for i in range(L)]
    elif style == "partition":
        k = rng.randint(1, 4); gs = [[i for i in range(L) if i % k == j] for j in range(k)]
    else:
        gs = [[i for i in range(L) if rng.random() < rng.choice([0.15, 0.4, 0.8])] for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.25:
        gs.append([])
    return [[off + k, g] for k, g in enumerate(gs)]


def unlikely(rng, spec):
    """Some states nearly always fail."""
    fail = spec["N"] - 1
    for s in rng.sample(range(spec["N"] - 2), min(spec["N"] - 2, rng.randint(1, 2))):
        eps = rng.choice([1e-5, 2e-6, 7e-7, 4e-7, 2e-7, 1e-4])
        for row in spec["rows"]:
            if row[0] == s:
                d = {t: p * eps for t, p in row[2] if t != fail}
                d[fail] = 1 - sum(d.values())
                row[2] = [[t, p] for t, p in d.items()]


def gen(rng, i, tier):
    rewards = rng.random() < 0.2
    if rewards:
        spec = G.rewform(rng, nmin=rng.choice([1, 3]), nmax=8)
    else:
        kw = rng.choice([dict(), dict(ecfree=False, kind="mdp"), dict(ecfree=True, kind="mdp"), dict(kind="dtmc")])
        spec = G.rf(rng, nmin=rng.choice([1, 3, 5]), nmax=rng.choice([6, 8, 12]), labels=False, **kw)
        if rng.random() < 0.4:
            unlikely(rng, spec)
    mode = rng.choice(["min", "max"])
    c = {"spec": spec, "rewards": rewards, "ptype": rng.choice(G.PTYPES), "mode": mode, "solver": rng.choice(["cbc", "cbc", "glpk"])}
    if rng.random() < 0.25:
        c["kind"] = "recorded"
        c["groups"] = wit.add_groups(rng, spec) if rng.random() < 0.5 else None
        c.update(it=rng.choice([1, 2, 3, 4]), init=rng.choice(wit.INITS), upd=rng.choice(wit.UPDS), x=rng.choice([rng.random(), 0.99, 0.1]))
        return c
    c["kind"] = "direct"
    L = spec["N"] - 2 if mode == "min" else len(spec["rows"]) - 2
    c["gs"] = gs = grouping(rng, L)
    c["init"] = rng.choice(wit.INITS)
    c["w"] = [rng.choice([0.0, 1.0, 2.0, 0.25, rng.random() * 10]) for _ in gs] if rng.random() < 0.4 else None
    c["last"] = [rng.choice([0.0, 0.0, 1.0, rng.random(), rng.random(), 1e-7, 1e-12, 1e-200, 3.5, 1e6]) for _ in gs]
    return c


def unique(mon, ws, groups, what):
    mon.check(len(ws) == len(groups) and {g for g, _ in ws} == set(groups), "groups", "%s: weights %s for the groups %s", what, ws, sorted(groups))
    d = {g: float(w) for g, w in ws}
    for g, w in d.items():
        mon.ev("weights")
        mon.check(math.isfinite(w) and w >= 0, "weight", "%s: group %s has weight %r", what, g, w)
    return d


class Forms:
    """Independent values for one form."""

    def __init__(self, c, rf):
        spec = c["spec"]; self.c, self.rf = c, rf
        self.n = spec["N"] - 2; self.C = len(spec["rows"]) - 2
        self.m = oracle.M(spec)
        self.goal = spec["N"] - 2
        self.tolk = (2e-6 if c["solver"] == "cbc" else 1e-5) * (2 + oracle.conditioning(spec))

    def reach(self):
        """Per certificate entry: minimal probability (or expected reward) of the goal."""
        n, C = self.n, self.C
        if self.c["rewards"]:
            x = oracle.rew(self.m, self.c["spec"]["rew"], [n, n + 1], "min")
            r = np.array(self.c["spec"]["rew"][:C], dtype=float)
            back = self.m.P[:C, :n] @ x[:n] + r
        else:
            x = oracle.prob(self.m, [self.goal], "min")
            back = self.m.P[:C] @ np.asarray(x)
        return np.asarray(x)[:n] if self.c["mode"] == "min" else np.asarray(back)

    def freq(self, init):
        """Expected frequencies: by definition for Markov chains, else as the form itself reports them (a check of its own)."""
        n, C = self.n, self.C
        spec = self.c["spec"]
        # where nothing is earned any more the flow need not be complete, so the vector is not unique
        if spec["kind"] == "dtmc" and np.min(self.reach(), initial=1) > 1e-3:
            Pn = np.zeros((n, n)); row = {}
            for i in range(C):
                s = int(self.m.rs[i]); Pn[s] = self.m.P[i, :n]; row[i] = s
            d = np.zeros(n); d[spec["sl"]["init"][0]] = 1
            y = np.linalg.solve(np.eye(n) - Pn.T, d)
            return (y if self.c["mode"] == "min" else np.array([y[row[i]] for i in range(C)])), "exact"
        f = self.rf.max_y_state if self.c["mode"] == "min" else self.rf.max_y_state_action
        return np.asarray(f(solver=self.c["solver"]), dtype=float)[:n if self.c["mode"] == "min" else C], "api"


def check_init(c, mon, rf, name, gs, got, weights, desc):
    f = Forms(c, rf)
    one = {g: 1.0 for g in gs} if weights is None else weights
    mon.ev("initializers")
    if name == "AllOnesInitializer":
        for g in gs:
            mon.check(got[g] == one[g], "formula", "%s: group %s has weight %r, expected %r", desc, g, got[g], one[g])
        return
    if name == "InverseReachabilityInitializer":
        v = f.reach(); avg = True; tol = f.tolk
        mon.ev("reach_" + c["mode"])
    elif name == "InverseFrequencyInitializer":
        v, how = f.freq(name); avg = False; tol = f.tolk
        mon.ev("freq_" + c["spec"]["kind"])
    else:
        a, how = f.freq(name); v = a * f.reach(); avg = False; tol = f.tolk * (1 + float(np.max(np.abs(a), initial=0)))
        mon.ev("combined")
    if name == "InverseReachabilityInitializer" and not c["rewards"]:
        api = np.asarray((rf.max_z_state if c["mode"] == "min" else rf.max_z_state_action)(solver=c["solver"]), dtype=float)
        if api.shape == v.shape and float(np.max(np.abs(api - v), initial=0)) <= 1e-11:
            # the solver is as good as exact on this form
            tol = 1e-8 if c["solver"] == "cbc" else 1e-7
            mon.ev("solver_exact")
            if any(10 * tol < y < 1e-6 for y in v):
                mon.ev("unlikely")
    for g, vs in gs.items():
        x = float(sum(v[i] for i in vs))
        t = tol * max(1, len(vs)) * (1 + float(np.max(np.abs(v), initial=0)))
        if avg and vs:
            x /= len(vs); t = tol * (1 + float(np.max(np.abs(v), initial=0)))
        w = got[g]
        if not vs:
            mon.ev("empty_groups")
        if x <= t:
            # zero as far as one can tell
            mon.ev("zero_groups")
            mon.check(w >= min(BIG[0], 0.5 / t), "zero-group", "%s: group %s of value %g has weight %r", desc, g, x, w)
            if not vs:
                mon.check(BIG[0] <= w <= BIG[1], "zero-group", "%s: empty group %s has weight %r", desc, g, w)
        else:
            mon.check(w > 0 and abs(1 / w - x) <= t, "formula", "%s: group %s = %s has weight %r, expected 1/%r (%s)", desc, g, sorted(vs), w, x, list(v))


def check_update(c, mon, name, gs, got, cons, last, weights, desc):
    one = {g: 1.0 for g in gs} if weights is None else weights
    mon.ev("updaters")
    zero = {g for g in gs if last[g] == 0}
    if name == "InverseResultUpdater":
        top = max([min(1 / last[g], 1e9) for g in gs if last[g] > 0], default=0)
        for g in gs:
            x = last[g]
            if x > 0:
                if 1 / x <= 1e9:
                    mon.check(abs(got[g] - one[g] / x) <= 1e-9 * abs(one[g] / x), "formula", "%s: group %s of last value %r (weight %r) gets %r", desc, g, x, one[g], got[g])
                else:
                    mon.check(one[g] * BIG[0] <= got[g] <= one[g] * BIG[1] or abs(got[g] - one[g] / x) <= 1e-9 * abs(one[g] / x), "formula", "%s: group %s of last value %r (weight %r) gets %r", desc, g, x, one[g], got[g])
            else:
                mon.ev("zero_groups")
                z = [got[g]] + ([got[g] / one[g]] if one[g] > 0 else [])
                mon.check(any(max(BIG[0], top) <= y <= BIG[1] for y in z) or (one[g] == 0 and got[g] == 0), "zero-group", "%s: group %s was zero and gets %r (weight %r)", desc, g, got[g], one[g])
        mon.check(not cons, "constraints", "%s: constraints %s", desc, cons)
        return
    mon.ev("fixed")
    for g in gs:
        if last[g] > 0:
            w = one[g] / last[g]
            mon.check(abs(got[g] - w) <= 1e-9 * w, "formula", "%s: group %s of last value %r (weight %r) gets %r", desc, g, last[g], one[g], got[g])
        else:
            mon.ev("zero_groups")
    fixed = []
    for terms, rel, rhs in cons:
        t = {}
        for g, k in terms:
            t[g] = t.get(g, 0) + k
        t = {g: k for g, k in t.items() if k != 0}
        mon.check(len(t) == 1 and rhs == 0 and (rel == "=" or (rel == "<=" and list(t.values())[0] > 0)), "constraints", "%s: constraint %s", desc, (terms, rel, rhs))
        fixed += list(t)
    mon.check(set(fixed) == zero, "constraints", "%s: groups %s are fixed, zero were %s", desc, sorted(fixed), sorted(zero))


def run(c, mon):
    from switss import problem
    from switss.utils import InvertibleDict
    spec = c["spec"]
    if not oracle.conditioning(spec) < 200:
        mon.ev("skipped_ill_conditioned"); return
    rf = (G.build_rewform if c["rewards"] else G.build_rf)(spec, c["ptype"])
    if c["rewards"]:
        mon.ev("rewards")
    if c["kind"] == "recorded":
        wit.guard(mon, c, lambda k: recorded(k, mon, rf)); return
    gs = {k: set(g) for k, g in c["gs"]}
    w = None if c["w"] is None else {g: x for g, x in zip(gs, c["w"])}
    mk = lambda: InvertibleDict({k: set(g) for k, g in gs.items()})
    desc = "%s %s groups=%s weights=%s" % (spec["kind"], c["mode"], gs, w)

    def initial(k):
        kw = dict(reachability_form=rf, mode=k["mode"], indicator_to_group=mk())
        ww = None
        if k["init"] == "AllOnesInitializer":
            if w is not None:
                kw["weights"] = dict(w); ww = w
        else:
            kw["solver"] = k["solver"]
        got = getattr(problem, k["init"])(**kw).initialize()
        check_init(k, mon, rf, k["init"], gs, unique(mon, got, gs, k["init"] + " " + desc), ww, k["init"] + " " + desc)
    wit.guard(mon, c, initial)
    last = {g: x for g, x in zip(gs, c["last"])}
    full = np.zeros(max(gs) + 3) + 0.77
    for g, x in last.items():
        full[g] = x
    if w is not None:
        mon.ev("given_weights")
    for name in wit.UPDS:
        kw = dict(reachability_form=rf, mode=c["mode"], indicator_to_group=mk())
        if w is not None:
            kw["weights"] = dict(w)
        u = getattr(problem, name)(**kw)
        d = "%s %s last=%s" % (name, desc, last)
        got = unique(mon, u.update(full), gs, d)
        check_update(c, mon, name, gs, got, list(u.constraints(full)), last, w, d)
        # a second update starts afresh
        other = {g: 1.0 for g in gs}
        arg2 = np.ones(len(full))
        check_update(c, mon, name, gs, unique(mon, u.update(arg2), gs, d), list(u.constraints(arg2)), other, w, d + " then all ones")
    mon.nontrivial(G.fingerprint(spec), c["mode"], c["gs"], c["init"], c["w"])


post = wit.post


def recorded(c, mon, rf):
    """The classes inside a run of the heuristic."""
    from switss import problem
    spec, mode = c["spec"], c["mode"]
    j = wit.Judge(spec, c["rewards"])
    best = j.best(mode)
    lam = float(min(best * c["x"], best - j.margin(c["solver"], mode, False) * 0.1))
    if lam <= 0:
        mon.ev("skipped_zero"); return
    log = []
    Init, Upd = getattr(problem, c["init"]), getattr(problem, c["upd"])

    class I(Init):
        def __init__(self, *a, **k):
            log.append(("make", "init", a, k)); super().__init__(*a, **k)

        def initialize(self):
            r = super().initialize(); r = list(r)
            log.append(("initialize", r)); return r

    class U(Upd):
        def __init__(self, *a, **k):
            log.append(("make", "upd", a, k)); super().__init__(*a, **k)

        def update(self, last):
            l = np.array(last, dtype=float)
            r = list(super().update(last)); log.append(("update", l, r)); return r

        def constraints(self, last):
            l = np.array(last, dtype=float)
            r = list(super().constraints(last)); log.append(("constraints", l, r)); return r
    h = problem.QSHeur(iterations=c["it"], initializertype=I, updatertype=U, solver=c["solver"])
    desc = "%s %s %s %s lam=%r labels=%s %s" % (c["init"], c["upd"], mode, c["solver"], lam, c["groups"], {l: spec["sl"].get(l) for l in c["groups"] or []})
    res = []; marks = []
    for r in h.solveiter(rf, lam, mode, labels=c["groups"]):
        res.append(r); marks.append(len(log))
    L = j.length(mode)
    made = [(x[1], x[2], x[3]) for x in log if x[0] == "make"]
    mon.check(sorted(x[0] for x in made) == ["init", "upd"], "recorded", "%s: created %s", desc, [x[0] for x in made])
    d = made[0][2].get("indicator_to_group")
    if d is None:
        d = next((a for a in made[0][1] if hasattr(a, "inv")), None)
    gs = {g: set(d[g]) for g in d.keys()}
    if c["groups"] is None:
        want = [frozenset([i]) for i in range(L)]
        if mode == "max" and sorted(map(frozenset, gs.values()), key=sorted) != sorted(want, key=sorted):
            # all actions of a state together
            want = [frozenset(i for i in range(L) if int(j.m.rs[i]) == s) for s in range(j.n)]
    else:
        want = []
        for l in c["groups"]:
            ss = set(spec["sl"].get(l, ()))
            want.append(frozenset(i for i in range(L) if (i if mode == "min" else int(j.m.rs[i])) in ss))
    mon.check(sorted((sorted(x) for x in gs.values() if x)) == sorted((sorted(x) for x in want if x)), "recorded-groups", "%s: groups %s, expected %s", desc, gs, want)
    mon.check(all(r.status == "success" for r in res) and len(res) == c["it"], "recorded-status", "%s: %s", desc, [r.status for r in res])
    first = [x for x in log if x[0] == "initialize"]
    mon.check(len(first) >= 1, "recorded", "%s: the initializer was not asked", desc)
    cc = c
    obj = unique(mon, first[0][1], gs, desc)
    check_init(dict(cc, solver="cbc"), mon, rf, c["init"], gs, obj, None, desc)   # initializers of a run use their default solver
    objs = [obj]; fixed = [set()]
    eps = j.tol(c["solver"])
    for k, r in enumerate(res):
        seg = log[marks[k]:marks[k + 1]] if k + 1 < len(res) else log[marks[k]:]
        ups = [x for x in seg if x[0] == "update"]; cons = [x for x in seg if x[0] == "constraints"]
        if k + 1 == len(res) and not ups:
            break
        mon.check(len(ups) == 1, "recorded", "%s: %d updates after result %d", desc, len(ups), k)
        last, o = ups[0][1], ups[0][2]
        v = np.asarray(r.farkas_cert, dtype=float)
        s = j.scale(v, mode)
        lastd = {g: float(last[g]) for g in gs}
        for g in gs:
            # indicators bound the entries of their group (scaled by an upper bound of them), and vanish without cost
            top = max((v[i] for i in gs[g]), default=0.0)
            mon.check(lastd[g] >= -eps and (lastd[g] > 0 or top <= eps * s), "last-result", "%s: after result %d the updater sees %r for group %s with entries up to %r", desc, k, lastd[g], g, top)
            if mode == "min" and not c["rewards"] and objs[k][g] > 1e-6 and max(objs[k].values()) < 1e4:
                mon.check(abs(lastd[g] - top) <= 10 * eps * s * (1 + j.k) * max(objs[k].values()) / objs[k][g], "last-result", "%s: after result %d the updater sees %r for group %s with entries up to %r (weights %s)", desc, k, lastd[g], g, top, objs[k])
        lastd = {g: max(x, 0.0) for g, x in lastd.items()}
        nxt = unique(mon, o, gs, desc)
        cl = [t for x in cons for t in x[2]]
        check_update(cc, mon, c["upd"], gs, nxt, cl, lastd, None, "%s after result %d" % (desc, k))
        objs.append(nxt); mon.ev("recorded_updates")
        fixed.append(fixed[-1] | ({g for g in gs if lastd[g] == 0} if cl else set()))
    # is each result optimal for its weights?
    keys = list(gs)
    ub = scales(j, mode)
    if j.k < 50 and ub is not None and all(u < 1e4 and not 0 < u < 1e-3 for u in ub):
        for k, r in enumerate(res):
            o = objs[k]
            # groups of (nearly) prohibitive weight: not used by the result if one can do without
            huge = {g for g in keys if o[g] > 1e4}
            light = [g for g in keys if g not in huge]
            if not light:
                continue
            opt = lp(j, mode, lam, light, gs, o, ub, huge | fixed[k])
            if opt is None:
                continue
            v = np.asarray(r.farkas_cert, dtype=float)
            share = {g: max((v[i] / ub[i] if ub[i] > 1e-9 else 0.0 for i in gs[g]), default=0.0) for g in keys}
            val = sum(o[g] * share[g] for g in light)
            t = 10 * eps * (1 + j.k) * (1 + sum(o[g] for g in light))
            mon.check(val <= opt + t, "not-optimal", "%s: result %d has objective %r for weights %s, the optimum is %r (%s, scales %s)", desc, k, val, o, opt, list(v), list(ub))
            mon.ev("optimal_for_weights")
            if mode == "max":
                mon.ev("optimal_max")
            if c["rewards"]:
                mon.ev("optimal_rewards")
            if k:
                mon.ev("optimal_later")
            if huge:
                mon.ev("optimal_huge")
            if opt > 2 * t and val > 0:
                mon.ev("optimal_sharp")
    mon.ev("recorded_runs")
    mon.nontrivial(G.fingerprint(spec), mode, c["groups"], c["init"], c["upd"], len(res))


def system(j, mode):
    """The constraints of certificates, without the threshold, and the row of the threshold."""
    if mode == "min":
        d = np.zeros(j.n); d[j.init] = 1
        return j.A, j.b, d
    return j.A.T, j.delta, j.b


def scales(j, mode):
    """What an indicator of 1 stands for, per entry of the certificate."""
    from scipy.optimize import linprog
    if mode == "min" and not j.rewards:
        return np.ones(j.n)
    if mode == "max" and j.ecs:
        return np.ones(j.C)
    A, b, _ = system(j, mode)
    if j.C == j.n:
        return np.maximum(np.linalg.solve(A, b), 0)
    r = linprog(-np.ones(A.shape[1]), A_ub=A, b_ub=b, bounds=[(0, None)] * A.shape[1], method="highs")
    return np.full(A.shape[1], -float(r.fun)) if r.status == 0 and r.fun < 0 else None


def lp(j, mode, lam, keys, gs, o, ub, zero):
    from scipy.optimize import linprog
    k = len(keys)
    M, rhs, val = system(j, mode)
    L = M.shape[1]
    A = [np.hstack([M, np.zeros((M.shape[0], k))])]; b = [rhs]
    for q, g in enumerate(keys):
        for i in gs[g]:
            row = np.zeros(L + k); row[i] = 1; row[L + q] = -ub[i]
            A.append(row[None]); b.append([0.0])
    A.append(np.concatenate([-val, np.zeros(k)])[None]); b.append([-lam])
    out = {i for g in zero for i in gs[g]} | (set(j.ecs) if mode == "min" else set())
    free = mode == "max" and j.ecs
    bd = [(0, 0 if i in out else None if free else ub[i]) for i in range(L)] + [(0, None if free else 1)] * k
    r = linprog(np.concatenate([np.zeros(L), [o[g] for g in keys]]), A_ub=np.vstack(A), b_ub=np.concatenate([np.asarray(x, dtype=float) for x in b]), bounds=bd, method="highs")
    return float(r.fun) if r.status == 0 else None
