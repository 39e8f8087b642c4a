"""C20: the LP/MILP wrapper under edit histories, against an independent model solved with HiGHS."""
import time
import numpy as np
from scipy.optimize import milp as hmilp, LinearConstraint, Bounds
from core import Violation

CASES = {"quick": 2500, "thorough": 40000}
RULE = ("edit histories on one LP/MILP object: from_coefficients (several containers, bounds, domains, senses, None objective) or by hand; adding variables (one or many, with and "
        "without bounds), constraints (repeated variables, zero coefficients, empty), removing constraints, resetting the objective, refused calls, 1-4 solves in between with "
        "cbc/glpk; some binary problems with many solutions close to the optimum, compared with all points exactly; non-trivial: distinct histories of operation kinds and outcomes")
REQUIRED = {"solves": 2000, "optimal": 800, "infeasible": 300, "unbounded": 200, "removals": 800, "objective_resets": 800, "refused": 1000, "with_integers": 800,
            "after_removal": 250, "repeated_variable": 200, "coefficients": 500, "exactly_compared": 30}
ASSUMPTIONS = ["solver accuracy: rows, bounds and the optimum are compared up to 1e-5 (cbc) or 2e-5 (glpk, six significant digits) relative to the size of the terms",
               "glpk may answer 'undefined' for unbounded problems with integer variables (PuLP cannot tell), and refuses integer variables with fractional bounds",
               "problems whose rows have no non-zero coefficient are not judged: glpk refuses them, the bundled cbc 2.10.3 crashes (malloc error) or ignores them",
               "the bundled cbc 2.10.3 (and, rarely, glpk) errs on some problems with free variables; a disagreement is attributed to the solver only if the plain solver, run on the reference problem without the wrapper, gives the same status and value (events cbc_errs_itself, glpk_errs_itself)"]


def num(rng):
    return rng.choice([0, 1, -1, 2, -2, 3, 0.5, -0.5, 1.5, 5, -4, rng.randint(-6, 6), rng.uniform(-3, 3)])


def expr(rng, nv, rep=True):
    k = rng.choice([0, 1, 1, 2, 2, 3, nv]) if rng.random() < 0.97 else 0
    vs = [rng.randrange(nv) for _ in range(k)] if rep and rng.random() < 0.2 else rng.sample(range(nv), min(k, nv))
    return [[v, num(rng)] for v in vs]


DOMS = ["real", "real", "integer", "binary"]


def bound(rng):
    return rng.choice([[0, None], [0, 1], [None, None], [-2, 3], [0, 10], [1, 1], [None, 4], [0.5, 2.5], [0, 0], [0, 5], [0, 5]])


def close(rng):
    """Binary problems with integer coefficients which have many solutions close to the optimum."""
    n = rng.randint(9, 14); obj = rng.choice(["min", "max"]); big = rng.choice([1, 1, 10, 50])
    w = [big * rng.randint(1000, 2000) + rng.randint(0, big - 1) for _ in range(n)]
    v = [max(1, a + rng.randint(-30, 30)) for a in w]
    ops = [["vars", ["binary"] * n], ["con", [[j, a] for j, a in enumerate(w)], "<=" if obj == "max" else ">=", int(sum(w) * rng.uniform(0.3, 0.7))],
           ["obj", [[j, a] for j, a in enumerate(v)]]]
    if rng.random() < 0.5:
        ops.append(["con", [[j, rng.randint(500, 1500)] for j in range(n)], "<=" if obj == "max" else ">=", rng.randint(200, 600) * n])
    solver = lambda: ["solve", rng.choice(["cbc", "cbc", "glpk"]), None]
    if rng.random() < 0.5:
        ops += [solver(), rng.choice([["rm", 1], ["rm", 0], ["obj", [[j, a] for j, a in enumerate(w)]]])]
    return {"lp": False, "obj": obj, "start": None, "ops": ops + [solver()]}


def gen(rng, i, tier):
    if rng.random() < 0.03:
        return close(rng)
    lp = rng.random() < 0.3
    obj = rng.choice(["min", "max"])
    ops = []
    nv = 0; nc = 0
    if rng.random() < 0.4:
        nv = rng.randint(1, 5); nc = rng.randint(0 if not lp else 1, 5) or 1
        A = [[num(rng) if rng.random() < 0.7 else 0 for _ in range(nv)] for _ in range(nc)]
        b = [rng.choice([1, 2, 5, 10, 0, rng.uniform(0, 9), -1]) for _ in range(nc)]
        c = None if rng.random() < 0.1 else [num(rng) for _ in range(nv)]
        dom = ["real"] * nv if lp else [rng.choice(DOMS) for _ in range(nv)]
        bounds = None if lp or rng.random() < 0.4 else [bound(rng) for _ in range(nv)]
        start = {"A": A, "b": b, "c": c, "dom": dom, "sense": rng.choice(["<=", "<=", ">="]), "bounds": bounds,
                 "cont": rng.choice(["list", "ndarray", "dok", "csr", "npmatrix", "coo"])}
    else:
        start = None
    for _ in range(rng.randint(2, 14)):
        r = rng.random()
        if nv == 0 or r < 0.15:
            k = rng.choice([1, 1, 2, 3])
            if lp or rng.random() < 0.4:
                ops.append(["vars", ["real"] * k if lp else [rng.choice(["real", "real", "binary", "binary", "real", "integer"]) for _ in range(k)]])
            else:
                ops.append(["varsb", [[rng.choice(DOMS)] + bound(rng) for _ in range(k)]])
            nv += k
        elif r < 0.5:
            ops.append(["con", expr(rng, nv), rng.choice(["<=", "<=", ">=", "="]), rng.choice([0, 1, 2, 4, 7.5, -1, rng.randint(-3, 12)])])
            nc += 1
        elif r < 0.62 and nc:
            ops.append(["rm", rng.randrange(1 << 20)])
        elif r < 0.78:
            ops.append(["obj", expr(rng, nv)])
        elif r < 0.88:
            ops.append(["bad", rng.randrange(12)])
        else:
            ops.append(["solve", rng.choice(["cbc", "cbc", "glpk"]), rng.choice([None, None, 120])])
    ops.append(["solve", rng.choice(["cbc", "glpk"]), None])
    # keep most problems bounded
    if rng.random() < 0.5 and nv:
        ops[-1:-1] = [["con", [[v, 1]], "<=", rng.randint(3, 9)] for v in range(nv)] + [["con", [[v, 1]], ">=", -rng.randint(0, 4)] for v in range(nv)]
    return {"lp": lp, "obj": obj, "start": start, "ops": ops}


class Ref:
    def __init__(self, obj):
        self.sense = obj; self.dom = []; self.lb = []; self.ub = []; self.rows = {}; self.c = {}; self.emptyrow = False

    def var(self, dom, lb=None, ub=None):
        lb = -np.inf if lb is None else lb; ub = np.inf if ub is None else ub
        if dom == "binary":
            lb, ub = max(lb, 0), min(ub, 1)
        self.dom.append(dom); self.lb.append(lb); self.ub.append(ub)

    def dense(self, e):
        v = np.zeros(len(self.dom))
        for i, a in e:
            v[i] += a
        return v

    def exact(self):
        return 8 < len(self.dom) < 16 and all(d == "binary" for d in self.dom) and all(float(a).is_integer() for e, _, b in list(self.rows.values()) + [(self.c, 0, 0)] for _, a in list(e) + [(0, b)])

    def allpoints(self):
        """The optimum of a small binary problem with integer coefficients."""
        n = len(self.dom)
        X = (np.arange(1 << n)[:, None] >> np.arange(n)) & 1
        ok = ((X >= np.array(self.lb)) & (X <= np.array(self.ub))).all(axis=1)
        for e, sense, rhs in self.rows.values():
            l = X @ self.dense(e).astype(np.int64)
            ok &= (l <= rhs) if sense == "<=" else (l >= rhs) if sense == ">=" else (l == rhs)
        if not ok.any():
            return "infeasible", None
        v = (X @ self.dense(self.c).astype(np.int64))[ok]
        return "optimal", float(v.min() if self.sense == "min" else v.max())

    def solve(self):
        if self.exact():
            return self.allpoints()
        n = len(self.dom)
        c = self.dense(self.c)
        s = 1 if self.sense == "min" else -1
        cons = []
        for e, sense, rhs in self.rows.values():
            a = self.dense(e)
            lo, hi = {"<=": (-np.inf, rhs), ">=": (rhs, np.inf), "=": (rhs, rhs)}[sense]
            if not a.any():
                if not lo <= 0 <= hi:
                    return "infeasible", None
                continue
            cons.append((a, lo, hi))
        integ = [0 if d == "real" else 1 for d in self.dom]
        lb, ub = np.array(self.lb, dtype=float), np.array(self.ub, dtype=float)
        for i in range(n):
            if integ[i]:
                lb[i], ub[i] = np.ceil(lb[i] - 1e-9), np.floor(ub[i] + 1e-9)
        if (lb > ub).any():
            return "infeasible", None
        if n == 0:
            return "optimal", 0.0

        def go(obj, integrality):
            kw = {"constraints": LinearConstraint(np.array([a for a, _, _ in cons]), [l for _, l, _ in cons], [h for _, _, h in cons])} if cons else {}
            return hmilp(obj, integrality=integrality, bounds=Bounds(lb, ub), options={"time_limit": 3, "mip_rel_gap": 0}, **kw)
        r = go(s * c, integ)
        if r.status == 0:
            return "optimal", float(s * r.fun)
        f = go(np.zeros(n), integ)
        if f.status == 2:
            return "infeasible", None
        if f.status != 0:
            return "unknown", None
        # feasible: unbounded iff the relaxation is (rational data)
        r = go(s * c, [0] * n)
        if r.status == 3 or (r.status == 4):
            return "unbounded", None
        return "unknown", None


def bad_call(m, k, nv):
    """Calls that have to be refused."""
    nan = float("nan")
    return [lambda: m.add_constraint([(nv, 1)], "<=", 1), lambda: m.add_constraint([(-1, 1)], "<=", 1), lambda: m.add_constraint([(0, "x")], "<=", 1),
            lambda: m.add_constraint([(0, None)], "<=", 1), lambda: m.add_constraint([(0, nan)], "<=", 1), lambda: m.add_constraint([(0, 1)], "<=", nan),
            lambda: m.add_constraint([(0, 1)], "<=", "abc"), lambda: m.add_constraint([(0, 1)], "<", 1), lambda: m.set_objective_function([(nv + 3, 1)]),
            lambda: m.set_objective_function([(0, "y")]), lambda: m.add_variables_w_bounds([("complex", 0, 1)]), lambda: m.solve(solver="nosuchsolver")][k]


def run(c, mon):
    from switss.solver import LP, MILP
    from scipy import sparse
    ref = Ref(c["obj"])
    vmap, cmap = [], []           # position in history -> index handed out by the wrapper
    hist = []
    st = c["start"]
    if st:
        A = np.array(st["A"], dtype=float)
        cont = st["cont"]
        A = {"list": lambda: A.tolist(), "ndarray": lambda: A, "dok": lambda: sparse.dok_matrix(A), "csr": lambda: sparse.csr_matrix(A),
             "npmatrix": lambda: np.matrix(A), "coo": lambda: sparse.coo_matrix(A)}[cont]()
        kw = {"sense": st["sense"], "objective": c["obj"]}
        if len(c["ops"]) % 2:
            # what is documented as the default need not be given
            kw = {k: x for k, x in kw.items() if x not in ("<=", "min")}
            mon.ev("defaults")
        if c["lp"]:
            m = LP.from_coefficients(A, np.array(st["b"]), None if st["c"] is None else np.array(st["c"]), **kw)
        else:
            if st["bounds"] is not None:
                kw["bounds"] = [tuple(x) for x in st["bounds"]]
            m = MILP.from_coefficients(A, st["b"], st["c"], st["dom"], **kw)
        for j, d in enumerate(st["dom"]):
            ref.var(d, *(st["bounds"][j] if st["bounds"] and not c["lp"] else (None, None)))
            vmap.append(j)
        for k, row in enumerate(st["A"]):
            ref.rows[k] = ([[j, a] for j, a in enumerate(row)], st["sense"], st["b"][k]); cmap.append(k)
        if st["c"] is not None:
            ref.c = [[j, a] for j, a in enumerate(st["c"])]
        mon.ev("coefficients")
    else:
        m = (LP if c["lp"] else MILP)(**({} if c["obj"] == "min" and len(c["ops"]) % 2 else {"objective": c["obj"]}))
    removed = False; resets = 0
    for op in c["ops"]:
        if op[0] == "vars":
            lp_api = c["lp"] and not st   # LP.from_coefficients gives a general problem object
            r = m.add_variables(len(op[1])) if lp_api and type(m) is LP else m.add_variables(op[1])
            ids = [r] if len(op[1]) == 1 else list(r)
            mon.check(len(ids) == len(op[1]) and not set(ids) & set(vmap), "variable-indices", "add_variables(%s) returned %r", op[1], r)
            for d in op[1]:
                ref.var(d)
            vmap += ids
        elif op[0] == "varsb":
            r = m.add_variables_w_bounds([tuple(x) for x in op[1]])
            ids = [r] if len(op[1]) == 1 else list(r)
            mon.check(len(ids) == len(op[1]) and not set(ids) & set(vmap), "variable-indices", "add_variables_w_bounds(%s) returned %r", op[1], r)
            for d, lb, ub in op[1]:
                ref.var(d, lb, ub)
            vmap += ids
        elif op[0] == "con":
            if len({v for v, _ in op[1]}) < len(op[1]):
                mon.ev("repeated_variable")
            r = m.add_constraint([(vmap[v], a) for v, a in op[1]], op[2], op[3])
            mon.check(r not in [x for x in cmap if x is not None], "constraint-index", "add_constraint returned %r, already in use", r)
            ref.rows[len(cmap)] = (op[1], op[2], op[3]); cmap.append(r)
        elif op[0] == "rm":
            live = sorted(ref.rows)
            if not live:
                continue
            k = live[op[1] % len(live)]
            m.remove_constraint(cmap[k]); del ref.rows[k]
            removed = True
            mon.ev("removals")
        elif op[0] == "obj":
            m.set_objective_function([(vmap[v], a) for v, a in op[1]])
            ref.c = op[1]; resets += 1
            if resets > 1 or st:
                mon.ev("objective_resets")
        elif op[0] == "bad":
            try:
                bad_call(m, op[1], max(vmap, default=-1) + 1)()
            except Exception:
                mon.ev("refused")
            else:
                raise Violation("not-refused", "illegal call number %d was accepted" % op[1])
        else:
            if not vmap:
                continue
            out = solve(m, ref, vmap, op, mon)
            hist.append(out)
            if removed and out == "optimal":
                mon.ev("after_removal")
        hist.append(op[0])
    mon.nontrivial(hist)


def raw(ref, solver):
    """What the plain solver makes of the reference problem (built directly, without the wrapper)."""
    import pulp
    P = pulp.LpProblem("raw", pulp.LpMinimize if ref.sense == "min" else pulp.LpMaximize)
    f = lambda v: None if not np.isfinite(v) else float(v)
    x = [pulp.LpVariable("v%d" % j, f(ref.lb[j]), f(ref.ub[j]), pulp.LpContinuous if d == "real" else pulp.LpInteger) for j, d in enumerate(ref.dom)]
    P.setObjective(pulp.LpAffineExpression(list(zip(x, map(float, ref.dense(ref.c))))))
    for e, sense, rhs in ref.rows.values():
        P += pulp.LpConstraint(pulp.LpAffineExpression([(x[j], float(a)) for j, a in enumerate(ref.dense(e)) if a]), {"<=": -1, "=": 0, ">=": 1}[sense], rhs=float(rhs))
    P.setSolver(pulp.PULP_CBC_CMD(gapRel=1e-9, msg=False, timeLimit=5) if solver == "cbc" else pulp.GLPK_CMD(msg=False, options=["--tmlim", "5"]))
    try:
        P.solve()
    except pulp.PulpSolverError:
        return "error", None
    return {1: "optimal", 0: "notsolved", -1: "infeasible", -2: "unbounded", -3: "undefined"}[P.status], P.objective.value()


def solve(m, ref, vmap, op, mon):
    import pulp
    _, solver, timeout = op
    # without any non-zero coefficient in the rows, glpk refuses the file and cbc 2.10.3 crashes or ignores false rows
    empty = all(not ref.dense(e).any() for e, _, _ in ref.rows.values())
    ref.emptyrow |= any(not ref.dense(e).any() for e, _, _ in ref.rows.values())
    integer = [j for j, d in enumerate(ref.dom) if d != "real"]
    free = any(not (np.isfinite(ref.lb[j]) and np.isfinite(ref.ub[j])) for j in integer)
    if free:
        timeout = 5
    t0 = time.time()
    try:
        r = m.solve(solver=solver, timeout=timeout) if timeout else m.solve(solver=solver)
    except pulp.PulpSolverError:
        # pulp leaves its dummy variable behind when it writes empty rows for glpk
        if empty or ref.emptyrow or (solver == "glpk" and ref.solve()[0] == "infeasible"):
            mon.ev("solver_refused"); return "refused"
        raise
    if timeout and time.time() - t0 > 0.9 * timeout:
        mon.ev("timeouts"); return "timeout"
    if empty:
        mon.ev("without_entries"); return "without-entries"
    st, opt = ref.solve()
    mon.ev("solves"); mon.ev(st)
    if integer:
        mon.ev("with_integers")
    desc = "%s: %s(%s) over %s bounds %s rows %s" % (solver, ref.sense, ref.c, ref.dom, list(zip(ref.lb, ref.ub)), list(ref.rows.values()))
    if st == "unknown":
        return st
    if solver == "glpk" and any(x != round(x) for j in integer for x in (ref.lb[j], ref.ub[j]) if np.isfinite(x)):
        mon.ev("fractional_integer_bound"); return st
    try:
        return judge(m, ref, vmap, solver, r, st, opt, desc, mon)
    except Violation:
        rs, rv = raw(ref, solver)
        if rs == r.status and (rv is None or r.value is None or abs(float(rv) - float(r.value)) <= 1e-6 * (1 + abs(rv)) or rs != "optimal"):
            mon.ev(solver + "_errs_itself")
            return "solver"
        raise


def judge(m, ref, vmap, solver, r, st, opt, desc, mon):
    if st != "optimal":
        ok = {st} | ({"undefined"} if solver == "glpk" and any(d != "real" for d in ref.dom) else set())
        mon.check(r.status in ok, "status", "status %r, but the problem is %s; %s", r.status, st, desc)
        return st
    mon.check(r.status == "optimal", "status", "status %r, but the problem has the optimum %r; %s", r.status, opt, desc)
    eps = 2e-5 if solver == "glpk" else 1e-5
    x = r.result_vector
    mon.check(len(x) >= len(ref.dom) and all(v is not None and np.isfinite(float(v)) for v in x), "point", "reported point %s; %s", x, desc)
    x = np.array([float(x[j]) for j in vmap])
    for j, v in enumerate(x):
        mon.check(ref.lb[j] - eps * (1 + abs(v)) <= v <= ref.ub[j] + eps * (1 + abs(v)), "bound", "variable %d = %r; %s", j, v, desc)
        if ref.dom[j] != "real":
            mon.check(abs(v - round(v)) <= 1e-5, "domain", "variable %d = %r; %s", j, v, desc)
    for e, sense, rhs in ref.rows.values():
        a = ref.dense(e); lhs = a @ x; t = eps * (1 + abs(rhs) + np.abs(a) @ np.abs(x))
        ok = (lhs <= rhs + t) if sense == "<=" else (lhs >= rhs - t) if sense == ">=" else abs(lhs - rhs) <= t
        mon.check(ok, "row", "row %s %s %r has value %r at the reported point %s; %s", e, sense, rhs, lhs, list(x), desc)
    c = ref.dense(ref.c); t = eps * (1 + np.abs(c) @ np.abs(x))
    mon.check(r.value is not None and abs(float(r.value) - c @ x) <= t, "value", "reported value %r, objective at the point %r; %s", r.value, c @ x, desc)
    if ref.exact():
        mon.ev("exactly_compared")
        z = np.round(x)
        for e, sense, rhs in ref.rows.values():
            lhs = ref.dense(e) @ z
            mon.check(lhs <= rhs if sense == "<=" else lhs >= rhs if sense == ">=" else lhs == rhs, "row", "row %s %s %r has value %r at the rounded point %s; %s", e, sense, rhs, lhs, list(z), desc)
        mon.check(c @ z == opt, "optimum", "value %r at the rounded point, optimum %r; %s", c @ z, opt, desc)
    mon.check(abs(c @ x - opt) <= 2 * t + 1e-5 * abs(opt), "optimum", "value %r at the reported point, optimum %r; %s", c @ x, opt, desc)
    return "optimal"
