"""C31: the Gurobi back end, observed with a stand-in for gurobipy (HiGHS underneath)."""
import itertools, os, shutil, sys, tempfile, time
import numpy as np
import core, c14, c20, gen as G, oracle, wit
from c20 import Ref
from core import Violation

sys.path.insert(0, os.path.join(core.VERIF, "harness", "standin"))   # before switss is imported

CASES = {"quick": 2500, "thorough": 40000}
RULE = ("edit histories on one Gurobi problem object as in C20 (from_coefficients or by hand, bounds, domains, removals, changed coefficients, indicator constraints, objective resets, refused calls, 1-4 solves) against an "
        "independent executable model; witnesses (exact, heuristic; with and without labels and end components, reward forms) against brute force over all subsystems / label sets; "
        "non-trivial: distinct histories of operation kinds and outcomes, distinct (structure, mode, groups, minimum)")
REQUIRED = {"solves": 1000, "optimal": 500, "infeasible": 100, "unbounded": 100, "removals": 300, "objective_resets": 300, "refused": 300, "with_integers": 300, "indicators": 150, "changed_to_zero": 100, "changed_again": 150, "indicator_binds": 20,
            "changed": 60, "coefficients": 200, "empty_rows": 80, "exact:min": 150, "exact:max": 150, "exact_max_with_ecs": 80, "heuristic": 200, "labels": 100, "rewards": 40, "infeasible_witness": 100, "command:optimal": 40, "command:infeasible": 15}
ASSUMPTIONS = ["gurobipy is a stand-in that follows its documented interface and refuses what is not documented; problems are solved by HiGHS, so nothing is claimed about Gurobi itself",
               "PuLP 2.9 raises a TypeError if Gurobi's command line tool writes no solution (infeasible problems); this is not held against the project",
               "the stand-in always decides between infeasible and unbounded (Gurobi may answer INF_OR_UNBD)"]


def gen(rng, i, tier):
    if rng.random() < 0.55:
        c = c20.gen(rng, i, tier)
        c["lp"] = False
        ops = []
        nv = len(c["start"]["dom"]) if c["start"] else 0
        doms = list(c["start"]["dom"]) if c["start"] else []
        for op in c["ops"]:
            if op[0] == "bad" and op[1] == 11:
                op = ["bad", 3]
            ops.append(op)
            if op[0] == "vars":
                doms += op[1]
            elif op[0] == "varsb":
                doms += [x[0] for x in op[1]]
            bins = [k for k, d in enumerate(doms) if d == "binary"]
            if bins and rng.random() < 0.25:
                ops.append(["ind", rng.choice(bins), rng.randrange(len(doms))])
            if doms and rng.random() < 0.12:
                ops.append(["coef", rng.randrange(1 << 20), rng.randrange(len(doms)), rng.choice([c20.num(rng), c20.num(rng), 0])])
        return {"kind": "history", "h": dict(c, ops=ops)}
    if rng.random() < 0.2:
        nv, nc = rng.randint(1, 5), rng.randint(1, 5)
        lp = rng.random() < 0.5
        return {"kind": "command", "sense": rng.choice(["<=", ">="]), "obj": rng.choice(["min", "max"]), "A": [[c20.num(rng) if rng.random() < 0.7 else 0 for _ in range(nv)] for _ in range(nc)],
                "b": [rng.choice([1, 2, 5, 10, 0, -1]) for _ in range(nc)], "c": [c20.num(rng) for _ in range(nv)], "lp": lp, "dom": ["real"] * nv if lp else [rng.choice(["real", "real", "binary"]) for _ in range(nv)],
                "box": rng.random() < 0.7, "timeout": rng.choice([None, None, 7, 600])}
    rewards = rng.random() < 0.15
    if rewards:
        spec = G.rewform(rng, nmin=rng.choice([1, 3]), nmax=6)
    else:
        kw = rng.choice([dict(ecfree=False, kind="mdp"), dict(ecfree=False, kind="mdp"), dict(ecfree=True, kind="mdp"), dict(kind="dtmc")])
        spec = G.rf(rng, nmin=rng.choice([1, 3, 4]), nmax=7, labels=False, **kw)
    groups = wit.add_groups(rng, spec) if rng.random() < 0.35 else None
    return {"kind": "witness", "spec": spec, "rewards": rewards, "ptype": rng.choice(G.PTYPES), "groups": groups, "runs": [
        {"mode": rng.choice(["min", "max", "max"]), "exact": rng.random() < 0.65, "x": rng.random(), "it": rng.randint(1, 3), "init": rng.choice(wit.INITS), "upd": rng.choice(wit.UPDS),
         "timeout": rng.choice([None, None, 100])} for _ in range(2)], "over": rng.choice([1.02, 1.3, 4.0])}


class Ref2(Ref):
    """The reference problem, with implications `binary variable = 0 ==> variable = 0`."""

    def __init__(self, obj):
        super().__init__(obj); self.ind = {}

    def solve(self):
        if not self.ind:
            return super().solve()
        bins = sorted({b for b, _ in self.ind.values()})
        lb, ub = list(self.lb), list(self.ub)
        out = []
        try:
            t0 = time.process_time()
            for vals in itertools.product((0, 1), repeat=len(bins)):
                if time.process_time() - t0 > 5:
                    return "unknown", None
                self.lb, self.ub = list(lb), list(ub)
                for b, v in zip(bins, vals):
                    self.lb[b], self.ub[b] = max(lb[b], v), min(ub[b], v)
                for b, x in self.ind.values():
                    if vals[bins.index(b)] == 0:
                        self.lb[x], self.ub[x] = max(self.lb[x], 0), min(self.ub[x], 0)
                if any(l > u for l, u in zip(self.lb, self.ub)):
                    out.append(("infeasible", None)); continue
                out.append(super().solve())
        finally:
            self.lb, self.ub = lb, ub
        sts = {s for s, _ in out}
        for s in ("unknown", "unbounded"):
            if s in sts:
                return s, None
        vs = [v for s, v in out if s == "optimal"]
        return ("optimal", (min if self.sense == "min" else max)(vs)) if vs else ("infeasible", None)


def run(c, mon):
    import gurobipy
    gurobipy.FAILED = 0
    try:
        {"history": history, "witness": witness, "command": command}[c["kind"]](c, mon)
    except Violation as v:
        if v.kind == "exception" or not gurobipy.FAILED:
            raise
        mon.ev("standin_gave_up")


def post(agg, tier, seed):
    e = agg["events"]
    if e["standin_gave_up"] > 3 + 0.005 * agg["done"]:
        agg["viol"].append({"i": -1, "kind": "stand-in", "msg": "%d cases failed after the solver underneath the stand-in gave up" % e["standin_gave_up"], "case": None})


def history(c, mon):
    from switss.solver import GurobiMILP
    c = c["h"]
    ref = Ref2(c["obj"])
    vmap, cmap = [], []
    hist = []
    st = c["start"]
    if st:
        from scipy import sparse
        A = np.array(st["A"], dtype=float)
        cont = st["cont"]
        A = {"list": lambda: A.tolist(), "ndarray": lambda: A, "dok": lambda: sparse.dok_matrix(A), "csr": lambda: sparse.csr_matrix(A),
             "npmatrix": lambda: np.matrix(A), "coo": lambda: sparse.coo_matrix(A)}[cont]()
        kw = {"sense": st["sense"], "objective": c["obj"]}
        if st["bounds"] is not None:
            kw["bounds"] = [tuple(x) for x in st["bounds"]]
        if len(c["ops"]) % 2:
            # what is documented as the default need not be given
            kw = {k: x for k, x in kw.items() if isinstance(x, list) or x not in ("<=", "min")}
        m = GurobiMILP.from_coefficients(A, st["b"], st["c"], st["dom"], **kw)
        for j, d in enumerate(st["dom"]):
            ref.var(d, *(st["bounds"][j] if st["bounds"] else (None, None)))
            vmap.append(j)
        for k, row in enumerate(st["A"]):
            ref.rows[k] = ([[j, a] for j, a in enumerate(row)], st["sense"], st["b"][k]); cmap.append(k)
            if not any(row):
                mon.ev("empty_rows")
        if st["c"] is not None:
            ref.c = [[j, a] for j, a in enumerate(st["c"])]
        mon.ev("coefficients")
    else:
        m = GurobiMILP(objective=c["obj"])
    resets = 0
    for op in c["ops"]:
        if op[0] in ("vars", "varsb"):
            r = m.add_variables(op[1]) if op[0] == "vars" else m.add_variables_w_bounds([tuple(x) for x in op[1]])
            ids = [r] if len(op[1]) == 1 else list(r)
            mon.check(len(ids) == len(op[1]) and not set(ids) & set(vmap), "variable-indices", "%s(%s) returned %r", op[0], op[1], r)
            for x in op[1]:
                ref.var(*(x if op[0] == "varsb" else (x,)))
            vmap += ids
        elif op[0] == "con":
            r = m.add_constraint([(vmap[v], a) for v, a in op[1]], op[2], op[3])
            mon.check(r not in cmap, "constraint-index", "add_constraint returned %r, already in use", r)
            ref.rows[len(cmap)] = (op[1], op[2], op[3]); cmap.append(r)
            if not op[1]:
                mon.ev("empty_rows")
        elif op[0] == "ind":
            if len({b for b, _ in ref.ind.values()} | {op[1]}) > 4:
                continue
            r = m.add_indicator_constraint(vmap[op[1]], vmap[op[2]])
            mon.check(r not in cmap, "constraint-index", "add_indicator_constraint returned %r, already in use", r)
            ref.ind[len(cmap)] = (op[1], op[2]); cmap.append(r)
            mon.ev("indicators")
        elif op[0] == "coef":
            # sets the coefficient of a variable in a constraint, whether or not it occurs there already
            live = sorted(ref.rows)
            if not live:
                continue
            k = live[op[1] % len(live)]
            e, sense, rhs = ref.rows[k]
            if any(v == op[2] for v, _ in e):
                mon.ev("changed_again" if op[3] else "changed_to_zero")
            m.add_to_constraint(cmap[k], op[3], vmap[op[2]])
            ref.rows[k] = ([[v, a] for v, a in e if v != op[2]] + [[op[2], op[3]]], sense, rhs)
            mon.ev("changed")
        elif op[0] == "rm":
            live = sorted(list(ref.rows) + list(ref.ind))
            if not live:
                continue
            k = live[op[1] % len(live)]
            m.remove_constraint(cmap[k])
            (ref.rows if k in ref.rows else ref.ind).pop(k)
            mon.ev("removals")
        elif op[0] == "obj":
            m.set_objective_function([(vmap[v], a) for v, a in op[1]])
            ref.c = op[1]; resets += 1
            if resets > 1 or st:
                mon.ev("objective_resets")
        elif op[0] == "bad":
            try:
                c20.bad_call(m, op[1], max(vmap, default=-1) + 1)()
            except Exception:
                mon.ev("refused")
            else:
                raise Violation("not-refused", "illegal call number %d was accepted" % op[1])
        elif vmap:
            hist.append(solve(m, ref, vmap, op, mon))
        hist.append(op[0])
    mon.nontrivial("history", hist)


def solve(m, ref, vmap, op, mon):
    r = m.solve("gurobi", timeout=op[2]) if op[2] else m.solve("gurobi")
    if op[2]:
        import gurobipy
        mon.check(gurobipy.LAST.get("timelimit") == op[2], "time-limit", "timeout %r, but the model was solved with %s", op[2], gurobipy.LAST)
        mon.ev("time_limits")
    st, opt = ref.solve()
    mon.ev("solves"); mon.ev(st)
    if any(d != "real" for d in ref.dom):
        mon.ev("with_integers")
    desc = "%s(%s) over %s bounds %s rows %s implications %s" % (ref.sense, ref.c, ref.dom, list(zip(ref.lb, ref.ub)), list(ref.rows.values()), list(ref.ind.values()))
    if st == "unknown":
        return st
    if ref.ind:
        keep, ref.ind = ref.ind, {}
        if ref.solve() != (st, opt):
            mon.ev("indicator_binds")
        ref.ind = keep
    c20.judge(m, ref, vmap, "gurobi", r, st, opt, desc, mon)
    if st == "optimal":
        for b, x in ref.ind.values():
            vb, vx = (float(r.result_vector[vmap[k]]) for k in (b, x))
            mon.check(vb > 0.5 or abs(vx) <= 1e-6, "indicator", "variable %d is %r, variable %d is %r; %s", b, vb, x, vx, desc)
    return st


def command(c, mon):
    """The default classes with Gurobi's command line tool as solver."""
    from switss.solver import MILP, LP
    d = tempfile.mkdtemp(prefix="swc31-")
    saved = {k: os.environ.get(k) for k in ("PATH", "TMPDIR", "GUROBI_CL_LOG")}
    cwd = os.getcwd()
    try:
        shutil.copy(os.path.join(core.VERIF, "harness", "standin", "gurobi_cl"), d)
        os.environ.update(PATH=d + ":" + os.environ["PATH"], TMPDIR=d, GUROBI_CL_LOG=os.path.join(d, "log"))
        tempfile.tempdir = None
        os.chdir(d)
        ref = Ref2(c["obj"])
        for dom in c["dom"]:
            ref.var(dom)
        A = np.array(c["A"], dtype=float); b = c["b"]
        m = LP.from_coefficients(A, np.array(b), np.array(c["c"]), sense=c["sense"], objective=c["obj"]) if c["lp"] else MILP.from_coefficients(A, b, c["c"], c["dom"], sense=c["sense"], objective=c["obj"])
        for k, row in enumerate(c["A"]):
            ref.rows[k] = ([[j, a] for j, a in enumerate(row)], c["sense"], b[k])
        ref.c = [[j, a] for j, a in enumerate(c["c"])]
        if c["box"]:
            for j in range(len(c["dom"])):
                for sense, rhs in (("<=", 7), (">=", -3)):
                    m.add_constraint([(j, 1)], sense, rhs)
                    ref.rows[len(ref.rows)] = ([[j, 1]], sense, rhs)
        if any(not ref.dense(e).any() for e, _, _ in ref.rows.values()):
            mon.ev("without_entries"); return
        st, opt = ref.solve()
        if st == "unknown":
            return
        try:
            r = m.solve("gurobi", timeout=c["timeout"])
        except TypeError:
            if "failed=1" in open(os.path.join(d, "log")).read():
                mon.ev("standin_gave_up"); return
            if st == "optimal":
                raise
            r = None                         # PuLP 2.9 itself fails if the tool writes no solution
        desc = "gurobi_cl: %s(%s) over %s rows %s" % (ref.sense, ref.c, ref.dom, list(ref.rows.values()))
        params = dict(l.strip().split("=", 1) for l in open(os.path.join(d, "log")))
        mon.check(params.get("TimeLimit") == (None if c["timeout"] is None else str(c["timeout"])), "time-limit", "%s: timeout %r, parameters %s", desc, c["timeout"], params)
        mon.check(all(p.lower() in __import__("gurobipy").PARAMS for p in params), "parameters", "%s: parameters %s", desc, params)
        if st == "optimal":
            c20.judge(m, ref, list(range(len(c["dom"]))), "glpk", r, st, opt, desc, mon)
        else:
            # the tool writes no solution then, and the status stays open
            mon.check(r is None or r.status in (st, "notsolved", "undefined"), "status", "%s: status %r, the problem is %s", desc, r and r.status, st)
        mon.ev("command"); mon.ev("command:" + st)
    finally:
        os.chdir(cwd)
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        tempfile.tempdir = None
        shutil.rmtree(d, ignore_errors=True)


def witness(c, mon):
    from switss.problem import MILPExact, QSHeur
    import switss.problem as p
    spec, groups = c["spec"], c["groups"]
    j = wit.Judge(spec, c["rewards"])
    if not j.k < 100:
        mon.ev("skipped_ill_conditioned"); return
    rf = (G.build_rewform if c["rewards"] else G.build_rf)(spec, c["ptype"])
    for r in c["runs"]:
        mode = r["mode"]
        best = j.best(mode)
        margin = j.margin("cbc", mode, True)
        if groups is None:
            t = j.table(mode)
            size = len
        else:
            t = {u: j.value(c14.allowed(j, groups, u), mode) for k in range(len(groups) + 1) for u in itertools.combinations(groups, k)}
        lams = wit.gaps(t.values(), 0.0, best, margin)
        desc = "%s %s best=%r labels=%s %s margin=%g" % ({k: r[k] for k in ("exact", "it", "init", "upd")}, mode, best, groups, {l: spec["sl"].get(l) for l in groups or []}, margin)
        inst = MILPExact("gurobi") if r["exact"] else QSHeur(iterations=r["it"], initializertype=getattr(p, r["init"]), updatertype=getattr(p, r["upd"]), solver="gurobi")
        # nothing can reach a threshold above the best value
        over = best * c["over"] + 0.01
        if c["rewards"] or over <= 1:
            res = inst.solve(rf, over, mode, labels=groups)
            mon.check(res.status != "success" and res.subsystem is None, "success", "%s lam=%r: status %s", desc, over, res.status)
            mon.ev("infeasible_witness")
        if not lams:
            mon.ev("skipped_no_gap"); continue
        lam = lams[int(r["x"] * len(lams))]
        desc += " lam=%r" % lam
        if not r["exact"]:
            k = 0
            for res in inst.solveiter(rf, lam, mode, labels=groups):
                mon.check(res.status == "success", "no-success", "%s: status %s", desc, res.status)
                j.witness(mon, res, lam, mode, "cbc", desc)
                k += 1
            mon.check(k == r["it"], "count", "%s: %d results", desc, k)
            mon.ev("heuristic")
            continue
        want = min(len(k) for k, v in t.items() if v >= lam)
        res = inst.solve(rf, lam, mode, labels=groups, timeout=r["timeout"]) if r["timeout"] else inst.solve(rf, lam, mode, labels=groups)
        mon.check(res.status == "success", "no-success", "%s: status %s", desc, res.status)
        keep = j.witness(mon, res, lam, mode, "cbc", desc, True)
        got = len(keep) if groups is None else len([l for l in groups if keep & set(spec["sl"].get(l, ()))])
        mon.check(got == want, "not-minimal", "%s: states %s use %d, smallest number %d", desc, sorted(keep), got, want)
        mon.check(abs(res.value - want) < 1e-6, "wrong-value", "%s: value %r, smallest number %d", desc, res.value, want)
        mon.ev("exact:" + mode)
        if mode == "max" and j.ecs:
            mon.ev("exact_max_with_ecs")
        if groups:
            mon.ev("labels")
        if c["rewards"]:
            mon.ev("rewards")
        if want:
            mon.nontrivial("witness", G.fingerprint(spec), mode, [spec["sl"].get(l) for l in groups or []], want)
