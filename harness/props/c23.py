"""C23: import of stormpy models (stand-ins offering stormpy's interface)."""
import gen as G, oracle, views

CASES = {"quick": 6000, "thorough": 60000}
RULE = ("stand-ins for stormpy's sparse models (1-40 states, 1-4 choices per state, states and choices with 0-3 labels, label names shared between states and choices, also 'state', 'choice' and 'init'; transitions in any order); "
        "plain import of DTMCs and MDPs, choice models of MDPs; the import against the stand-in state by state; reachability probabilities of the imports compared through the library; non-trivial: distinct structures")
REQUIRED = {"dtmc": 400, "mdp": 500, "choice_model": 500, "choice_labels": 500, "several_labels": 300, "probabilities": 150, "shared_names": 100, "refused": 50}
ASSUMPTIONS = ["stormpy is not installed: stand-ins offer the part of its interface that describes sparse models (states, actions, transitions, labelings, choice indices)"]


class Lab:
    def __init__(self, items, n):
        self.by = items; self.n = n

    def get_labels(self):
        return set().union(*self.by.values()) if self.by else set()

    def get_labels_of_state(self, s):
        assert 0 <= s < self.n
        return set(self.by.get(s, ()))

    get_labels_of_choice = get_labels_of_state

    def get_states(self, l):
        return [s for s in range(self.n) if l in self.by.get(s, ())]

    get_choices = get_states

    def has_state_label(self, l, s):
        return l in self.by.get(s, ())

    def contains_label(self, l):
        return l in self.get_labels()


class T:
    def __init__(self, d, p):
        self.column = d; self._p = p

    def value(self):
        return self._p


class A:
    def __init__(self, i, ts, labels):
        self.id = i; self.transitions = ts; self.labels = set(labels)


class S:
    def __init__(self, i, acts, labels):
        self.id = i; self.actions = acts; self.labels = set(labels)


class Model:
    """spec: rows sorted by state, actions numbered from 0 in every state."""

    def __init__(self, spec):
        N = spec["N"]
        self.nr_states = N; self.nr_choices = len(spec["rows"]); self.nr_transitions = sum(len(r[2]) for r in spec["rows"])
        sl = {s: {l for l, ss in spec["sl"].items() if s in ss} for s in range(N)}
        cl = {i: {l for l, ss in spec["al"].items() if [r[0], r[1]] in ss} for i, r in enumerate(spec["rows"])}
        self.labeling = Lab(sl, N); self.choice_labeling = Lab(cl, self.nr_choices)
        self._first = {}
        for i, r in enumerate(spec["rows"]):
            self._first.setdefault(r[0], i)
        self.states = [S(s, [A(r[1], [T(d, p) for d, p in r[2]], cl[i]) for i, r in enumerate(spec["rows"]) if r[0] == s], sl[s]) for s in range(N)]
        self.initial_states = [s for s in range(N) if "init" in sl[s]]
        self.model_type = "ModelType." + spec["kind"].upper()
        self._na = {s.id: len(s.actions) for s in self.states}

    def has_choice_labeling(self):
        return True

    def get_choice_index(self, s, a):
        assert 0 <= a < self._na[s]
        return self._first[s] + a

    def get_nr_available_actions(self, s):
        return self._na[s]


def gen(rng, i, tier):
    probs = rng.random() < 0.4
    spec = G.reachable_model(rng, nmax=8) if probs else G.model(rng, nmin=1, nmax=rng.choice([3, 8, 8, 40]), tiny=0.1)
    rows = {}
    for s, a, ds in spec["rows"]:
        rows.setdefault(s, []).append(ds)
    for s in range(spec["N"]):
        rows.setdefault(s, [[[s, 1.0]]])
    out = []
    for s in range(spec["N"]):
        for a, ds in enumerate(rows[s]):
            ds = [x for x in ds if x[1] > 0]
            rng.shuffle(ds)
            out.append([s, a, ds])
    names = ["alpha", "b", "init", "state", "choice", "target", "x y"]
    if probs:
        names = [l for l in names if l not in ("init", "target")]
    al = {}
    for s, a, _ in out:
        for l in rng.sample(names, rng.choice([0, 0, 1, 1, 2, 3])):
            al.setdefault(l, []).append([s, a])
    if rng.random() < 0.2:
        al = {}
    sl = dict(spec["sl"])
    if rng.random() < 0.2:
        sl[rng.choice(["state", "choice", "alpha"])] = [rng.randrange(spec["N"])]
    spec = dict(spec, rows=out, al=al if spec["kind"] == "mdp" else {}, sl=sl, rew=None)
    return {"spec": spec, "choice": rng.random() < 0.5, "probs": probs}


def probs(m, mode):
    from switss.model import ReachabilityForm as RF
    rf, smap, _ = RF.reduce(m, "init", "target")
    v = rf.pr_min() if mode == "min" else rf.pr_max()
    return v[rf.initial]


def run(c, mon):
    from switss.model import DTMC, MDP
    spec = c["spec"]; N = spec["N"]; rows = spec["rows"]; C = len(rows)
    sm = Model(spec)
    cls = DTMC if spec["kind"] == "dtmc" else MDP
    mon.nontrivial(G.fingerprint(spec), c["choice"])
    m = cls.from_stormpy(sm)
    x = views.diff(views.of_model(m), views.of_spec(spec)) or views.both_ways(m)
    mon.check(x is None and type(m) is cls, "import", "%s", x)
    mon.ev(spec["kind"])
    mon.ev("choice_labels", sum(map(len, spec["al"].values())))
    if any(sum([s, a] in ss for ss in spec["al"].values()) > 1 for s, a, _ in rows):
        mon.ev("several_labels")
    if set(spec["al"]) & set(spec["sl"]):
        mon.ev("shared_names")
    if not c["choice"]:
        return
    if spec["kind"] == "dtmc":
        try:
            y = DTMC.from_stormpy(sm, choice_model=True)
        except Exception:
            mon.ev("refused"); return
        mon.check(False, "accepted", "choice model of a DTMC: %s", y)
    cm = MDP.from_stormpy(sm, choice_model=True)
    got = views.of_model(cm)
    mon.check((got["N"], got["C"]) == (N + C, 2 * C), "choice-size", "N=%s C=%s for %d states, %d choices", got["N"], got["C"], N, C)
    x = views.both_ways(cm)
    mon.check(x is None, "choice-views", "%s", x)
    seen = {}
    for s, a, ds in rows:
        t = got["tr"].get((s, a))
        mon.check(t is not None and len(t) == 1 and list(t.values()) == [1.0], "choice-step", "choice %d of state %d leads to %s", a, s, t)
        q = list(t)[0]
        mon.check(q >= N and q not in seen, "choice-step", "choice %d of state %d leads to %d, also used by %s", a, s, q, seen.get(q))
        seen[q] = (s, a)
        mine = [sa for sa in got["tr"] if sa[0] == q]
        mon.check(len(mine) == 1, "choice-actions", "choice state %d has actions %s", q, mine)
        mon.check(got["tr"][mine[0]] == dict(map(tuple, ds)), "choice-distribution", "state %d of choice %s moves on with %s, expected %s", q, (s, a), got["tr"][mine[0]], ds)
        labels = {l for l, ss in got["sl"].items() if q in ss}
        want = {l for l, ss in spec["al"].items() if [s, a] in ss} | {"choice"}
        mon.check(labels == want, "choice-labels", "state %d of choice %s has labels %s, expected %s", q, (s, a), labels, want)
    for s in range(N):
        labels = {l for l, ss in got["sl"].items() if s in ss}
        want = {l for l, ss in spec["sl"].items() if s in ss} | {"state"}
        mon.check(labels == want, "state-labels", "state %d has labels %s, expected %s", s, labels, want)
    mon.ev("choice_model")
    if c["probs"] and len(sm.initial_states) == 1 and "init" not in spec["al"] and "target" not in spec["al"] and spec["sl"].get("target"):
        if not oracle.reach(oracle.succs(spec), set(sm.initial_states)) & set(spec["sl"]["target"]):
            return
        if set(sm.initial_states) & set(spec["sl"]["target"]):
            return
        for mode in ("min", "max"):
            p, q = probs(m, mode), probs(cm, mode)
            w = oracle.prob(oracle.M(spec), spec["sl"]["target"], mode)[sm.initial_states[0]]
            mon.check(abs(p - w) < 1e-4 and abs(q - w) < 1e-4, "probabilities", "Pr%s from the initial state: import %r, choice model %r, expected %r", mode, p, q, w)
        mon.ev("probabilities")
