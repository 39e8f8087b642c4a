"""C28: operations on shared systems and forms do not interfere; every operation is compared with its run on fresh objects."""
import copy, os, pickle, shutil, struct, tempfile
import numpy as np
import gen as G, oracle, views, wit

CASES = {"quick": 700, "thorough": 15000}
RULE = ("worlds of 1-2 systems (the second one often of the same shape as the first, with other labels and probabilities; each built twice, built from the very same argument objects), 2-5 forms over them (direct, a second form over the same system, reduced to different targets, reward forms) and shared method objects; "
        "histories of 6-25 operations (graph queries, end components, drawing, saving, label edits, values and frequencies, constraints, certificate generation and checking, exact and heuristic minimization with "
        "different thresholds, modes and labels, heuristic runs left half-way and continued later, subsystems, reductions), each compared with the same operation on a freshly built world with the same edits in a process that has performed nothing else; "
        "fingerprints of all objects compared after every operation; non-trivial: distinct (structures, operation sequence)")
REQUIRED = {"operations": 5000, "compared": 5000, "fingerprints": 5000, "edits": 250, "exact": 200, "heuristic": 300, "continued": 80, "certificates": 300, "checks": 150, "values": 500, "constraints": 400, "graph": 400,
            "drawn": 150, "saved": 60, "subsystems": 250, "reductions": 100, "labelled": 150, "after_edit": 1000, "twins": 80, "scribbled": 500}
ASSUMPTIONS = ["components are compared up to their numbering (treap priorities are random)", "numbers are compared up to 1e-7; if they differ, only where several fresh runs agree with each other"]
LABELS = ["g0", "g1", "new"]


def gen(rng, i, tier):
    sys_, forms = [], []
    for nth in range(rng.choice([1, 2, 2])):
        r = rng.random()
        if nth and rng.random() < 0.6:
            # a twin: the same shape, but other labels and (mostly) other probabilities
            t = copy.deepcopy(sys_[0]); s = t["spec"]
            for l in LABELS + ["alt"]:
                if l in s["sl"]:
                    s["sl"][l] = [x for x in range(s["N"] - (0 if t["t"] == "model" else 2)) if rng.random() < 0.5] or [0]
            if rng.random() < 0.7:
                for row in s["rows"]:
                    ps = [p for _, p in row[2]]; rng.shuffle(ps)
                    row[2] = [[d, p] for (d, _), p in zip(row[2], ps)]
            if s.get("rew") is not None:
                x = s["rew"][:-2]; rng.shuffle(x); s["rew"] = x + s["rew"][-2:]
            t["twin"] = True
            sys_.append(t)
        elif r < 0.55:
            s = G.rf(rng, nmin=2, nmax=rng.choice([4, 6, 8]), **rng.choice([{}, {}, {"kind": "dtmc"}, {"kind": "mdp", "ecfree": False}]))
            s = dict(s, sl=dict(s["sl"])); wit.add_groups(rng, s, 2)
            sys_.append({"t": "rf", "spec": s})
        elif r < 0.75:
            s = G.rewform(rng, nmin=2, nmax=6)
            s = dict(s, sl=dict(s["sl"])); wit.add_groups(rng, s, 2)
            sys_.append({"t": "rew", "spec": s})
        else:
            s = G.reachable_model(rng, nmin=3, nmax=8)
            s = dict(s, sl=dict(s["sl"]))
            s["sl"]["alt"] = sorted({rng.randrange(s["N"]) for _ in range(2)})
            s["sl"]["g0"] = [x for x in range(s["N"]) if rng.random() < 0.5] or [0]
            sys_.append({"t": "model", "spec": s})
    for k, s in enumerate(sys_):
        if s["t"] == "rf":
            forms += [["direct", k, 0]] + ([["direct", k, 0]] if rng.random() < 0.5 else []) + ([["direct", k, 1]] if rng.random() < 0.5 else [])
            if rng.random() < 0.4:
                forms.append(["reduce", k, 0, "rf_target", "t2", "f2"])
        elif s["t"] == "rew":
            forms += [["reward", k, 0]] + ([["direct", k, 0]] if rng.random() < 0.5 else []) + ([["reward", k, 1]] if rng.random() < 0.4 else [])
        else:
            forms += [["reduce", k, 0, "target", "rf_target", "rf_fail"], ["reduce", k, rng.randrange(2), rng.choice(["target", "alt"]), rng.choice(["rf_target", "t3"]), rng.choice(["rf_fail", "f3"])]]
    ops = []
    gens = 0
    for _ in range(rng.randint(6, 25)):
        f = rng.randrange(len(forms)); k = rng.randrange(len(sys_))
        mode = rng.choice(["min", "max"]); x = rng.choice([rng.random(), 0.5, 0.3, 0.9])
        lab = rng.choice([None, None, LABELS[:rng.randint(1, 3)]])
        solver = rng.choice(["cbc", "cbc", "glpk"])
        o = rng.choice(["graph", "graph", "draw", "save", "edit", "values", "values", "constraints", "constraints", "cert", "cert", "checkcert", "exact", "heur", "heur", "start", "next", "next", "sub", "sub", "reduce", "ec"])
        if o == "graph":
            ops.append([o, "s" if rng.random() < 0.5 else "f", k if rng.random() < 0.5 else f, rng.choice(["mask", "bmask", "succ", "pred", "mec", "scc", "labels", "repr"]), rng.randrange(50), rng.randrange(50)])
        elif o in ("draw", "save"):
            ops.append([o, rng.choice("sf"), k, f])
        elif o == "edit":
            ops.append([o, rng.choice("sf"), k, f, rng.choice(["add", "add", "add", "remove"]), rng.choice(LABELS), rng.randrange(50)])
        elif o == "values":
            ops.append([o, f, rng.choice(["max_z_state", "max_z_state_action", "max_y_state", "max_y_state_action", "lo", "hi"]), solver])
        elif o == "constraints":
            ops.append([o, f, mode, x])
        elif o in ("cert", "checkcert"):
            ops.append([o, f, mode, rng.choice(["<=", "<", ">=", ">"]), x, rng.randrange(1 << 20), rng.choice(["own", "random"])])
        elif o == "exact":
            ops.append([o, f, mode, x, lab, rng.random() < 0.6])
        elif o == "heur":
            ops.append([o, f, mode, x, lab, rng.choice(wit.INITS), rng.choice(wit.UPDS), rng.randint(1, 3), solver, rng.random() < 0.6])
        elif o == "start":
            ops.append([o, f, mode, x, lab, rng.choice(wit.INITS), rng.choice(wit.UPDS), rng.randint(2, 4), gens]); gens += 1
        elif o == "next":
            if gens:
                ops.append([o, rng.randrange(gens)])
        elif o == "sub":
            ops.append([o, f, mode, rng.choice([0.3, 0.6, 0.9, 1.0]), rng.randrange(1 << 20), rng.choice(["mask", "subsys", "draw", "rf"])])
        elif o == "reduce":
            ops.append([o, rng.choice("sf"), k, f, rng.randrange(1 << 20)])
        else:
            ops.append([o, f])
    for _ in range(rng.randint(0, 4)):
        # the same question again later
        o = rng.choice(ops)
        if o[0] in ("values", "constraints", "cert", "graph", "ec", "sub", "heur"):
            ops.append(list(o))
    if any(s.get("twin") for s in sys_):
        # the same question about both twins
        for o in list(ops):
            if o[0] in ("values", "constraints", "cert", "exact", "heur", "ec", "sub") and rng.random() < 0.5:
                a = forms[o[1]]
                m = [i for i, f in enumerate(forms) if f[1] != a[1] and f[0] == a[0]]
                if m:
                    ops.append([o[0], rng.choice(m)] + o[2:])
    return {"sys": sys_, "forms": forms, "ops": ops, "ptype": rng.choice(G.PTYPES)}


class World:
    def __init__(self, c):
        from switss import problem
        from switss.model import DTMC, MDP, ReachabilityForm, RewardReachabilityForm
        self.c = c
        self.args, self.sys, self.forms, self.key = [], [], [], []
        for s in c["sys"]:
            spec = s["spec"]
            a = {"P": G.matrix(spec, c["ptype"]), "index_by_state_action": {(x, y): i for i, (x, y, _) in enumerate(spec["rows"])}, "label_to_states": {l: set(v) for l, v in spec["sl"].items()},
                 "reward_vector": None if spec.get("rew") is None else np.array(spec["rew"], dtype=float)}
            cls = DTMC if spec["kind"] == "dtmc" else MDP
            if cls is MDP:
                a["label_to_actions"] = {l: {tuple(x) for x in v} for l, v in spec.get("al", {}).items()}
            self.args.append(a)
            self.sys.append([cls(**a), cls(**a)])
        for f in c["forms"]:
            m = self.sys[f[1]][f[2]]
            if f[0] == "direct":
                self.forms.append(ReachabilityForm(m, "init", "rf_target", "rf_fail")); self.key.append(("s", f[1], f[2]))
            elif f[0] == "reward":
                self.forms.append(RewardReachabilityForm(ReachabilityForm(m, "init", "rf_target", "rf_fail"), self.args[f[1]]["reward_vector"][:-2])); self.key.append(("s", f[1], f[2]))
            else:
                try:
                    self.forms.append(ReachabilityForm.reduce(m, "init", f[3], new_target_label=f[4], new_fail_label=f[5])[0])
                except (AssertionError, StopIteration):
                    self.forms.append(None)   # nothing to reduce to
                self.key.append(("f", len(self.forms) - 1, 0))
        self.methods = {}
        self.gens = {}

    def system(self, which, k, f):
        if which == "s":
            return self.sys[k][0], ("s", k, 0)
        return (None if self.forms[f] is None else self.forms[f].system), self.key[f]

    def fingerprint(self):
        out = []
        for a, (m, t) in zip(self.args, self.sys):
            P = a["P"]
            P = P.toarray() if hasattr(P, "toarray") else np.asarray(P)
            out.append((P.tolist(), sorted(a["index_by_state_action"].items()), sorted((l, sorted(v)) for l, v in a["label_to_states"].items()), sorted((l, sorted(v)) for l, v in a.get("label_to_actions", {}).items()),
                        None if a["reward_vector"] is None else a["reward_vector"].tolist()))
            out += [pic(m), pic(t)]
        for f in self.forms:
            if f is None:
                continue
            tt = getattr(f, "to_target", None)
            out.append((f.initial_label, f.target_label, f.fail_label, int(f.initial), sorted(f.index_by_state_action.items()), f.A.toarray().tolist(), f.P.toarray().tolist(), None if tt is None else np.asarray(tt).tolist(), pic(f.system)))
        return out


def pic(m):
    return (views.of_model(m), views.both_ways(m), m.P.toarray().tolist())


def arr(x):
    return np.asarray(x, dtype=float)


def parts(x):
    x = [int(i) for i in x]
    return [x.index(i) for i in x]


def result(r):
    sub = r.subsystem
    return ("result", r.status, r.value, None if r.farkas_cert is None else arr(r.farkas_cert), None if sub is None else arr(sub.subsystem_mask))


def do(op, w, shared):
    """Performs an operation in a world and returns what a caller sees."""
    import random
    from switss import problem
    from switss.certification import generate_farkas_certificate, check_farkas_certificate
    from switss.model import ReachabilityForm, RewardReachabilityForm
    from switss.problem import Subsystem
    o = op[0]
    if o == "graph":
        m = w.sys[op[2] % len(w.sys)][op[4] % 2] if op[1] == "s" else (w.forms[op[2] % len(w.forms)] and w.forms[op[2] % len(w.forms)].system)
        if m is None:
            return "none"
        what, a, b = op[3:]
        a %= m.N; b %= m.N
        if what in ("mask", "bmask"):
            mode = ["forward", "backward"][op[4] % 2]
            return arr(m.reachable_mask({a}, mode) if what == "mask" else m.reachable_mask({a}, mode, blocklist={b}))
        if what == "succ":
            return sorted(tuple(map(float, x)) for x in m.successors(a))
        if what == "pred":
            return sorted(tuple(map(float, x)) for x in m.predecessors(a))
        if what == "mec":
            # the numbering of components is arbitrary
            x, p, k = m.maximal_end_components(); return parts(x), [bool(p[i]) for i in x], int(k)
        if what == "scc":
            x, k = m.strongly_connected_components(); return parts(x), int(k)
        if what == "labels":
            return sorted(m.labels_by_state[a]), sorted((l, sorted(m.states_by_label[l])) for l in m.states_by_label.keys()), sorted(m.actions_by_state[a])
        return repr(m).split("labels")[0]
    if o in ("draw", "save"):
        m, _ = w.system(op[1], op[2], op[3])
        if m is None:
            return "none"
        if o == "draw":
            return sorted("".join(sorted(x)) for x in m.digraph().body)
        d = tempfile.mkdtemp()
        try:
            files = m.save(os.path.join(d, "x"))
            tra = sorted(open(files[0]).read().split("\n"))
            return tra, len(open(files[1]).read())
        finally:
            shutil.rmtree(d)
    if o == "edit":
        m, _ = w.system(op[1], op[2], op[3])
        if m is None:
            return "none"
        s = op[6] % (m.N - 2) if m.N > 2 else 0
        if op[4] == "add":
            m.add_label(s, op[5])
        elif s in m.states_by_label[op[5]]:
            m.states_by_label.remove(op[5], s)
        return "edited"
    if o == "next":
        return "handled elsewhere"
    # what remains is about a form
    if o == "reduce":
        m, _ = w.system(op[1], op[2], op[3])
        if m is None:
            return "none"
        r = random.Random(op[4])
        tl = r.choice([l for l in ("target", "alt", "rf_target", "g0", "g1", "new")])
        try:
            rf, cols, rows = ReachabilityForm.reduce(m, "init", tl, new_target_label="tt", new_fail_label="ff")
        except (AssertionError, StopIteration):
            return "refused"
        return pic(rf.system), sorted(cols.items()), sorted(rows.items())
    f = w.forms[op[1]]
    if f is None:
        return "none"
    rewards = isinstance(f, RewardReachabilityForm)
    n, C = f.system.N - 2, f.system.C - 2
    if o == "ec":
        return [bool(f.in_proper_ec(s)) for s in range(n)], bool(f.is_ec_free)
    if o == "values":
        name = op[2]
        if name in ("lo", "hi"):
            name = {"lo": "min", "hi": "max"}[name]; name = ("rew_" if rewards else "pr_") + name
        return arr(getattr(f, name)(solver=op[3]))
    if o == "constraints":
        M, r = f.fark_constraints(op[3], op[2])
        if shared:
            # (the caller changes what it was given)
            D = M.toarray()
            if isinstance(getattr(M, "data", None), np.ndarray):
                M.data *= 2
            return D, arr(r)
        return arr(M.toarray()), arr(r)
    if o in ("cert", "checkcert"):
        if rewards:
            return "none"
        _, _, mode, sense, x, seed, own = op
        if o == "checkcert" and own == "random":
            L = n if (mode == "min") == (sense in (">", ">=")) else C
            r = random.Random(seed)
            return bool(check_farkas_certificate(f, mode, sense, x, np.array([r.choice([0.0, 1.0, r.random()]) for _ in range(L)])))
        v = generate_farkas_certificate(f, mode, sense, x)
        if o == "cert" or v is None:
            return None if v is None else arr(v)
        return bool(check_farkas_certificate(f, mode, sense, x, v, tol=1e-4))
    if o in ("exact", "heur", "start"):
        _, _, mode, x, labels = op[:5]
        top = 1.0 if not rewards else 2.0
        lam = x * top
        if o == "exact":
            if mode == "max" and not f.is_ec_free:
                return "none"
            mk = lambda: problem.MILPExact("cbc")
            key = "exact"; share = op[5]
        else:
            mk = lambda: problem.QSHeur(iterations=op[7], initializertype=getattr(problem, op[5]), updatertype=getattr(problem, op[6]), solver=op[8] if o == "heur" else "cbc")
            key = tuple(op[5:9]) if o == "heur" else None; share = o == "heur" and op[9]
        if shared and share:
            meth = w.methods.setdefault(key, None) or mk()
            w.methods[key] = meth
        else:
            meth = mk()
        it = meth.solveiter(f, lam, mode, labels=labels)
        if o == "start":
            return it
        return [result(r) for r in it]
    if o == "sub":
        _, _, mode, p, seed, what = op
        r = random.Random(seed)
        inv = {i: sa for sa, i in f.system.index_by_state_action.items()}
        kept = {s for s in range(n) if r.random() < p} | {int(f.initial)}
        v = np.array([(1.0 + r.random()) if (k if mode == "min" else inv[k][0]) in kept else 0.0 for k in range(n if mode == "min" else C)])
        sub = Subsystem(f, v, mode, ignore_consistency_checks=True)
        if what == "mask":
            return arr(sub.subsystem_mask)
        if what == "draw":
            return sorted("".join(sorted(x)) for x in sub.digraph().body)
        try:
            x = sub.subsys
        except AssertionError:
            return "refused"
        if what == "rf":
            if rewards:
                return pic(x.system)
            return pic(x.system), arr(x.fark_constraints(0.5, mode)[0].toarray()), arr(x.to_target)
        return pic(x.system)
    raise RuntimeError(o)


def same(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-7, atol=1e-7, equal_nan=True))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is float and type(b) is float:
        return abs(a - b) <= 1e-9
    return a == b


# ------------------------------------------------------------------ a pristine process
# Fresh objects are made in a process that has never performed an operation, so that state kept by the code itself
# (caches, counters, class attributes) cannot make the comparison agree with the history.
class Pristine:
    def __init__(self):
        a, b = os.pipe(); c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(b); os.close(c)
            try:
                self.serve(a, d)
            finally:
                os._exit(0)
        os.close(a); os.close(d)
        self.w, self.r = b, c

    @staticmethod
    def read(fd, n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                return None
            out += x
        return out

    @staticmethod
    def write(fd, data):
        data = struct.pack("q", len(data)) + data
        while data:
            data = data[os.write(fd, data):]

    def serve(self, a, d):
        while True:
            h = self.read(a, 8)
            if h is None:
                return
            q = self.read(a, struct.unpack("q", h)[0])
            pid = os.fork()
            if pid == 0:
                try:
                    self.write(d, pickle.dumps(answer(*pickle.loads(q))))
                except BaseException as e:
                    self.write(d, pickle.dumps(("pristine", "%s: %s" % (type(e).__name__, e))))
                os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                self.write(d, pickle.dumps(("pristine", "died with status %d" % st)))

    def ask(self, *q):
        self.write(self.w, pickle.dumps(q))
        h = self.read(self.r, 8)
        return pickle.loads(self.read(self.r, struct.unpack("q", h)[0]))


def answer(c, edits, op, k):
    v = World(c)
    for e in edits:
        do(e, v, False)
    if k is None:
        return attempt(op, v, False)
    x = [result(y) for y in do(op, v, False)]
    return x[k] if k < len(x) else "end"


def attempt(op, v, shared):
    try:
        return do(op, v, shared)
    except Exception as e:
        return ("raised", type(e).__name__, str(e)[:200])


PRISTINE = {}


def scribble(got, mon):
    """What was computed for a caller belongs to the caller, who may change it."""
    for x in got if isinstance(got, tuple) else [got]:
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x *= 3; x += 0.125
            mon.ev("scribbled")


KIND = {"graph": "graph", "draw": "drawn", "save": "saved", "values": "values", "constraints": "constraints", "cert": "certificates", "checkcert": "checks", "exact": "exact", "heur": "heuristic", "sub": "subsystems",
        "reduce": "reductions", "ec": "graph"}


def run(c, mon):
    # forms for which solver accuracy would decide
    for s in c["sys"]:
        if s["t"] != "model" and not oracle.conditioning(s["spec"]) < 500:
            mon.ev("skipped_ill_conditioned"); return
    if os.getpid() not in PRISTINE:
        PRISTINE[os.getpid()] = Pristine()
    pristine = PRISTINE[os.getpid()]
    w = World(c)
    if any(s.get("twin") for s in c["sys"]):
        mon.ev("twins")
    edits = []           # edits so far, in order

    def fresh(upto=None):
        v = World(c)
        for e in edits[:upto]:
            do(e, v, False)
        return v

    def agree(op, got, again, what, past):
        want = again()
        mon.ev("compared")
        if same(got, want):
            return
        others = [again() for _ in range(3)]
        if not all(same(x, want) for x in others) or any(same(x, got) for x in others):
            mon.ev("not_deterministic"); return
        mon.check(False, "interference", "%s %s after %s gives\n%s\non fresh objects\n%s", what, op, past, got, want)

    started = {}
    past = []
    before = w.fingerprint()
    for op in c["ops"]:
        mon.ev("operations")
        if op[0] == "edit":
            got = do(op, w, True)
            edits.append(op); mon.ev("edits")
        elif op[0] == "start":
            it = attempt(op, w, True)
            if hasattr(it, "__next__"):
                started[op[8]] = [it, op, 0, None, len(edits)]
        elif op[0] == "next":
            g = started.get(op[1])
            if g is None:
                continue
            # a run that was begun before labels were edited may see either
            try:
                r = result(next(g[0]))
            except StopIteration:
                r = "end"
            if g[3] is None:
                g[3] = len(edits)       # where the first result was asked for
            k = g[2]; g[2] += 1

            def again(g=g, k=k):
                return pristine.ask(c, edits[:g[3]], g[1], k)
            agree(g[1], r, again, "result %d of" % k, past)
            if past and past[-1] is not g[1]:
                mon.ev("continued")
        else:
            got = attempt(op, w, True)
            mon.ev(KIND[op[0]])
            if op[0] in ("exact", "heur") and op[4]:
                mon.ev("labelled")
            agree(op, got, lambda: pristine.ask(c, edits, op, None), "operation", past)
            if op[0] in ("values", "cert", "constraints"):
                scribble(got, mon)
            if edits:
                mon.ev("after_edit")
        past.append(op)
        # all objects are what they were, up to edits
        now = w.fingerprint()
        mon.ev("fingerprints")
        want = fresh().fingerprint() if op[0] == "edit" else before
        bad = [i for i, (x, y) in enumerate(zip(now, want)) if x != y]
        mon.check(not bad and len(now) == len(want), "changed", "after %s an object changed: %s, expected %s", past, [now[i] for i in bad][:1], [want[i] for i in bad][:1])
        before = now
    mon.nontrivial([G.fingerprint(s["spec"]) for s in c["sys"]], c["forms"], [o[:3] for o in c["ops"]])
