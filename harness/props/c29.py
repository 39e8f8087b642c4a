"""C29: a failing or interrupted solver never becomes an answer."""
import os, shutil, tempfile, time
import numpy as np
import core, gen as G, oracle, wit
from core import Violation
from props import c10

LEVEL = "fault_enumeration"
CASES = {"quick": 450, "thorough": 4000}
CASE_CPU = 240; CASE_WALL = 300
RULE = ("operations (exact and heuristic minimization with and without labels on reachability and reward forms, certificate generation, probabilities, rewards, frequencies, plain LPs and MILPs) on small instances with cbc and glpk; "
        "per operation every solver call it makes is failed in turn (thorough: with every fault, quick: with a sample): crash, kill, crash after writing, no file, empty, unrelated text, cut after a part of the bytes or lines, stopped without "
        "solution, stopped with a feasible solution that is as bad as possible; also all calls from some call on; a solver that takes 20 seconds unless it is given the time limit of the operation (1 second); then the operation is repeated with the solver working, on the same objects; "
        "non-trivial: distinct (structure, operation, call, fault, outcome)")
REQUIRED = {"operations": 120, "faults_hit": 1500, "raised": 500, "said_no": 80, "recovered": 120, "fault:worse": 100, "fault:lines": 150, "fault:bytes": 150, "fault:header": 150, "fault:exit": 60, "fault:nofile": 60,
            "op:exact": 20, "op:heur": 20, "op:cert": 8, "op:values": 20, "op:lp": 12, "cbc": 100, "glpk": 30, "calls>=2": 40, "limits": 25, "limits:exact": 4, "limits:heur": 4, "limits:lp": 4}
ASSUMPTIONS = ["a solver that claims optimality (or infeasibility) of a complete but wrong solution cannot be told from a working one and is not injected",
               "a fault may surface as any exception, as a status other than success, or as no certificate"]
FAULTS = ["exit", "kill", "late", "nofile", "empty", "garbage", "bytes:10", "bytes:40", "bytes:60", "bytes:80", "bytes:95", "lines:10", "lines:30", "lines:50", "lines:70", "lines:90", "lines:99",
          "header:time", "header:iter", "header:cont", "header:bare", "header:odd", "worse", "worse", "worse"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def gen(rng, i, tier):
    kind = rng.choice(["exact", "exact", "heur", "heur", "cert", "values", "lp"])
    c = {"kind": kind, "ptype": rng.choice(["dok", "csr", "list"]), "mode": rng.choice(["min", "max"]), "solver": rng.choice(["cbc", "cbc", "glpk"]), "x": rng.random(), "seed": rng.randrange(1 << 30),
         "n": len(set(FAULTS)) if tier == "thorough" else 5, "patience": rng.random() < (0.5 if tier == "thorough" else 0.25), "once": rng.random() < 0.5}
    if kind == "lp":
        n, m = rng.randint(1, 4), rng.randint(1, 4)
        c.update(A=[[rng.choice([0, 1, 2, -1, 0.5]) for _ in range(n)] for _ in range(m)], b=[rng.choice([1, 2, 3, 4.5]) for _ in range(m)], o=[rng.choice([1, 2, -1, 0.5]) for _ in range(n)],
                 dom=[rng.choice(["real", "integer", "binary"]) for _ in range(n)] if rng.random() < 0.6 else None, sense=rng.choice(["min", "max"]))
        return c
    c["rewards"] = kind != "cert" and rng.random() < 0.3
    kw = rng.choice([dict(), dict(ecfree=True, kind="mdp"), dict(kind="dtmc")])
    c["spec"] = G.rewform(rng, nmin=2, nmax=4) if c["rewards"] else G.rf(rng, nmin=2, nmax=5, labels=False, **kw)
    if kind in ("exact", "heur"):
        c["groups"] = wit.add_groups(rng, c["spec"], 3) if rng.random() < 0.3 else None
        c.update(it=rng.choice([1, 2, 3]), init=rng.choice(wit.INITS), upd=rng.choice(wit.UPDS))
    elif kind == "cert":
        c["sense"] = rng.choice(["<=", "<", ">=", ">"])
    else:
        c["what"] = rng.choice(["lo", "hi", "max_z_state", "max_z_state_action", "max_y_state", "max_y_state_action"])
    return c


class Faulty:
    """Redirects the solvers PuLP finds to the stand-in, in a scratch directory."""

    def __enter__(self):
        import pulp
        from pulp.apis import coin_api
        self.d = tempfile.mkdtemp(prefix="c29-")
        self.cbc = coin_api.PULP_CBC_CMD.pulp_cbc_path
        self.cls = coin_api.PULP_CBC_CMD
        self.env = {k: os.environ.get(k) for k in ("PATH", "TMPDIR", "FAULT_DIR", "FAULT_CBC", "FAULT_GLPK")}
        os.mkdir(os.path.join(self.d, "bin")); os.mkdir(os.path.join(self.d, "tmp"))
        for n in ("cbc", "glpsol"):
            os.symlink(os.path.join(HERE, "faultsolver"), os.path.join(self.d, "bin", n))
        os.environ["FAULT_DIR"] = self.d; os.environ["FAULT_CBC"] = str(self.cbc); os.environ["FAULT_GLPK"] = shutil.which("glpsol") or "glpsol"
        os.environ["PATH"] = os.path.join(self.d, "bin") + os.pathsep + os.environ["PATH"]
        os.environ["TMPDIR"] = os.path.join(self.d, "tmp")
        self.cls.pulp_cbc_path = os.path.join(self.d, "bin", "cbc")
        self.plan([])
        return self

    def plan(self, lines):
        open(os.path.join(self.d, "plan"), "w").write("".join(l + "\n" for l in lines))
        open(os.path.join(self.d, "count"), "w").write("0\n")

    def count(self):
        return int(open(os.path.join(self.d, "count")).read())

    def __exit__(self, *a):
        self.cls.pulp_cbc_path = self.cbc
        for k, v in self.env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(self.d)


def run(c, mon):
    import random
    r = random.Random(c["seed"])
    op = prepare(c, mon)
    if op is None:
        mon.ev("skipped"); return
    call, judge = op
    with Faulty() as f:
        f.plan([])
        first = call()
        why = judge(first, False)
        if why and c["solver"] == "glpk":
            mon.ev("glpk_errs"); return   # inaccuracies of glpk are for other checks
        mon.check(why is None, "without-fault", "%s gives %s: %s", what(c), show(first), why)
        calls = f.count()
        if not calls:
            mon.ev("no_solver_calls"); return
        mon.ev("operations"); mon.ev("op:" + c["kind"]); mon.ev(c["solver"])
        if calls >= 2:
            mon.ev("calls>=2")
        for k in range(calls):
            faults = sorted(set(FAULTS)) if c["n"] >= len(set(FAULTS)) else r.sample(FAULTS, c["n"])
            for fault in faults:
                # this call only, or this call and everything after it
                for plan in ([["ok"] * k + [fault]] if r.random() < 0.8 else [["ok"] * k + [fault] * 40]):
                    f.plan(plan)
                    got = None
                    try:
                        got = call()
                    except (MemoryError, RecursionError):
                        raise
                    except Exception as e:
                        mon.ev("raised"); out = "raised"
                    if f.count() <= k:
                        mon.ev("not_reached"); continue
                    mon.ev("faults_hit"); mon.ev("fault:" + fault.split(":")[0])
                    if got is not None:
                        why = judge(got, True)
                        mon.check(why is None, "answered", "%s: solver call %d of %d fails (%s), the operation answers %s: %s", what(c), k + 1, calls, plan[k:][:2], show(got), why)
                        out = kindof(got); mon.ev(out)
                    mon.nontrivial(c.get("spec") and G.fingerprint(c["spec"]), what(c), k, fault, out)
        if c["patience"] and (c["kind"] == "lp" or c["kind"] in ("exact", "heur") and kindof(first) == "answered"):
            # the last call would take 20 seconds
            f.plan(["ok"] * (calls - 1) + ["limit"])
            start = time.time()
            try:
                got = call(1)
            except (MemoryError, RecursionError):
                raise
            except Exception as e:
                mon.ev("raised"); got = None
            used = time.time() - start
            if f.count() < calls:
                mon.ev("not_reached")
            else:
                mon.ev("limits"); mon.ev("limits:" + c["kind"]); mon.ev("limits:" + c["solver"])
                mon.check(used < 15, "limit-ignored", "%s with a time limit of 1 second: solver call %d of %d was allowed to take 20 seconds (%.1f in total)", what(c), calls, calls, used)
                why = got and judge(got, True)
                mon.check(not why, "answered", "%s: solver call %d of %d reaches its time limit, the operation answers %s: %s", what(c), calls, calls, got and show(got), why)
        f.plan([])
        again = call()
        why = judge(again, False)
        mon.check(why is None, "not-recovered", "%s after failures gives %s: %s (before: %s)", what(c), show(again), why, show(first))
        mon.ev("recovered")


def what(c):
    return "%s %s" % (c["kind"], {k: c[k] for k in ("mode", "solver", "sense", "what", "rewards", "groups", "it", "init", "upd", "dom") if k in c})


class Ans:
    def __init__(self, kind, text, value):
        self.kind, self.text, self.value = kind, text, value


def show(a):
    return a.text


def kindof(a):
    return a.kind


def prepare(c, mon):
    """(function running the operation once, function saying what is wrong with its answer)."""
    if c["kind"] == "lp":
        return lp(c)
    spec = c["spec"]; mode = c["mode"]; n = spec["N"] - 2
    if not oracle.conditioning(spec) < 100:
        return None
    rf = (G.build_rewform if c["rewards"] else G.build_rf)(spec, c["ptype"])
    j = wit.Judge(spec, c["rewards"])
    if c["kind"] == "values":
        return values(c, rf, j)
    if c["kind"] == "cert":
        return cert(c, rf)
    exact = c["kind"] == "exact"
    if exact and mode == "max" and j.ecs:
        return None
    best = j.best(mode)
    t = j.table(mode)
    margin = j.margin(c["solver"], mode, exact)
    # thresholds in the middle of gaps between the values of subsystems; some that are infeasible
    ths = [x for x in wit.gaps(t.values(), 0.0, best, margin)]
    lam = ths[int(c["x"] * len(ths))] if ths else None
    feasible = True
    if c["x"] < 0.1 and (c["rewards"] or best + 2 * margin < 1):
        lam = best + 2 * margin if c["rewards"] else (best + 1) / 2; feasible = False
    if lam is None or lam <= 0:
        return None
    from switss import problem
    cfg = dict(c, exact=exact)
    good = [k for k, v in t.items() if v >= lam]
    groups = None
    if c["groups"] is not None:
        groups = [set(spec["sl"].get(l, ())) & set(range(n)) for l in c["groups"]]
    size = (lambda k: len(k)) if groups is None else (lambda k: sum(1 for g in groups if g & set(k)))
    want = min(map(size, good)) if good else None
    dummy = core.Mon()

    def call(timeout=None):
        kw = {} if timeout is None else {"timeout": timeout}
        m = wit.make(cfg)
        res = [m.solve(rf, lam, mode, labels=c["groups"], **kw)] if kw and c["once"] else list(m.solveiter(rf, lam, mode, labels=c["groups"], **kw))
        kind = "answered" if res and all(x.status == "success" for x in res) else "said_no"
        return Ans(kind, str([(x.status, x.value, None if x.farkas_cert is None else list(x.farkas_cert)) for x in res]), res)

    def judge(a, faulty):
        if not a.value:
            return None if faulty else "no result"
        for res in a.value:
            if res.status == "success":
                if not feasible:
                    return "success, but no subsystem reaches %r (best %r)" % (lam, best)
                try:
                    keep = j.witness(dummy, res, lam, mode, c["solver"], "result", exact)
                except Violation as v:
                    return str(v)
                if exact and abs(res.value - want) > 1e-6:
                    return "value %r, the minimum is %r" % (res.value, want)
                if exact and groups is None and len(keep) != want:
                    return "%d states, the minimum is %d" % (len(keep), want)
            elif res.status == "infeasible":
                if feasible:
                    return "infeasible, but the whole system reaches %r (threshold %r)" % (best, lam)
            elif not faulty:
                return "status %s" % res.status
        return None
    return call, judge


def values(c, rf, j):
    spec, w, n, C = c["spec"], c["what"], j.n, j.C
    m = j.m
    rewards = c["rewards"]
    if rewards:
        f = lambda mode: np.asarray(oracle.rew(m, spec["rew"], [n, n + 1], mode))[:n]
    else:
        f = lambda mode: np.asarray(oracle.prob(m, [n], mode))[:n]
    tol = j.tol(c["solver"]) * (1 + j.k) * (2 + float(np.max(j.b, initial=0)))
    if w in ("lo", "hi"):
        mode = {"lo": "min", "hi": "max"}[w]
        name = ("rew_" if rewards else "pr_") + mode
        want = f(mode)
    else:
        name = w
        if w == "max_z_state":
            want = f("min")
        elif w == "max_z_state_action":
            want = j.b + m.P[:C, :n] @ f("min")
        else:
            want = None

    def call():
        v = getattr(rf, name)(solver=c["solver"])
        return Ans("said_no" if v is None else "answered", "%s" % (v,), v)

    def judge(a, faulty):
        if a.value is None:
            return None if faulty else "nothing"
        try:
            v = np.asarray(a.value, dtype=float)
        except (TypeError, ValueError):
            return "not a vector"
        if not np.isfinite(v).all():
            # cannot be mistaken for values
            return None if faulty else "not finite"
        if want is not None:
            k = min(len(v), len(want))
            return None if np.allclose(v[:k], want[:k], rtol=0, atol=tol) else "expected %s" % want
        # frequencies: the flow into the goal must be the maximal probability (reward)
        best = j.best("max")
        if w == "max_y_state_action":
            flow = float(j.b @ v[:C])
            if abs(flow - best) > tol * (1 + np.abs(v).sum()):
                return "flow into the goal (or reward) %r, expected %r" % (flow, best)
            if float(np.max(v[:C] @ j.A - j.delta)) > tol * (1 + np.abs(v).sum()) or v.min() < -tol:
                return "not a flow"
            return None
        if v.min() < -tol:
            return "negative"
        if best > 1e-3 and v[j.init] < best * 1e-3:
            return "the initial state is never visited"
        if c["spec"]["kind"] == "dtmc":
            # per state: b y = best
            row = {int(m.rs[i]): i for i in range(C)}
            flow = sum(float(j.b[row[s]]) * v[s] for s in range(n))
            if abs(flow - best) > tol * (1 + np.abs(v).sum()):
                return "flow into the goal (or reward) %r, expected %r" % (flow, best)
        return None
    return call, judge


def cert(c, rf):
    from switss.certification import generate_farkas_certificate
    cond = c10.Cond(c["spec"])
    mode, sense = c["mode"], c["sense"]
    p = float((cond.lo if mode == "min" else cond.hi)[cond.init])
    up = sense[0] == ">"
    # well inside or well outside
    inside = c["x"] < 0.7
    lam = (p * (0.2 + c["x"]) if inside else p + (1 - p) * 0.5) if up else (p + (1 - p) * (0.2 + c["x"]) if inside else p * 0.5)
    if not 0 <= lam <= 1 or abs(lam - p) < 0.05:
        return None
    if mode == "min" and not up and cond.ecs:
        return None     # vectors that vanish on end components need not exist (see C11)
    if c["solver"] == "glpk" and cond.length(mode, sense) == cond.C:
        return None     # six digits of frequencies may miss the tolerance (see C11)

    def call():
        v = generate_farkas_certificate(rf, mode, sense, lam, solver=c["solver"])
        return Ans("said_no" if v is None else "answered", "%s" % (v,), v)

    def judge(a, faulty):
        if a.value is None:
            return None if faulty or not inside else "no certificate, but the probability is %r (threshold %r)" % (p, lam)
        v = np.asarray(a.value, dtype=float)
        if not inside:
            return "a certificate, but the probability is %r (threshold %r)" % (p, lam)
        bad = cond.violation(mode, sense, lam, v)
        return None if bad[0] <= 1.1e-5 else "violates %s by %g" % (bad[1], bad[0])
    return call, judge


def lp(c):
    from scipy.optimize import milp, LinearConstraint, Bounds
    from switss.solver import MILP, LP
    n = len(c["o"])
    # 0 <= x <= 6
    A = np.array(c["A"], dtype=float); b = np.array(c["b"], dtype=float)
    full = np.vstack([A, np.eye(n)]); fb = np.concatenate([b, np.full(n, 6.0)])
    dom = c["dom"]
    sg = 1 if c["sense"] == "min" else -1
    hi = np.array([1.0 if dom and d == "binary" else 6.0 for d in dom or ["real"] * n])
    ref = milp(sg * np.array(c["o"]), integrality=[0 if not dom or d == "real" else 1 for d in dom or ["real"] * n], bounds=Bounds(0, hi), constraints=[LinearConstraint(full, -np.inf, fb)])
    if ref.status not in (0, 2):
        return None
    bounds = [(0, None)] * n
    if dom:
        model = MILP.from_coefficients(full, fb, np.array(c["o"], dtype=float), dom, "<=", c["sense"])
    else:
        model = LP.from_coefficients(full, fb, np.array(c["o"], dtype=float), "<=", c["sense"])
    for i in range(n):
        model.add_constraint([(i, 1)], ">=", 0)

    def call(timeout=None):
        r = model.solve(c["solver"]) if timeout is None else model.solve(c["solver"], timeout=timeout)
        return Ans("answered" if r.status == "optimal" else "said_no", "%s" % r, r)

    def judge(a, faulty):
        r = a.value
        if r.status == "optimal":
            if ref.status != 0:
                return "optimal, but infeasible"
            v = np.asarray(r.result_vector, dtype=float)
            if abs(r.value - sg * ref.fun) > 1e-4 or abs(float(np.dot(v, c["o"])) - sg * ref.fun) > 1e-4:
                return "value %r, the optimum is %r" % (r.value, sg * ref.fun)
            if (full @ v > fb + 1e-4).any() or v.min() < -1e-4:
                return "not feasible"
            return None
        if r.status == "infeasible":
            return None if ref.status == 2 else "infeasible, the optimum is %r" % (sg * ref.fun)
        if r.status == "unbounded":
            return "unbounded, the optimum is %r" % (sg * (ref.fun or 0))
        return None if faulty else "status %s" % r.status
    return call, judge
