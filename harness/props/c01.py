"""C01: model admission and views."""
import copy, math
import numpy as np
from scipy import sparse
import gen as G
from core import Violation, Inconclusive

CASES = {"quick": 1600, "thorough": 40000}
RULE = ("random DTMC/MDP specifications (8 matrix containers, shuffled rows, gaps in action numbers, explicit zeros, rewards, label "
        "histories), half of them made invalid in exactly one way; non-trivial: distinct (validity kind, container, structure)")
REQUIRED = {"admitted": 300, "refused": 300, "edges_compared": 2000, "label_reads": 2000, "explicit_zeros": 30}
BAD = ["sum", "sum-small", "neg", "gt1", "nan", "zero-row", "neg-reward", "nan-reward", "dtmc-shape", "dtmc-action", "dup-sap", "missing-sap", "neg-tiny-pair"]


def gen(rng, i, tier):
    big = rng.random() < (0.1 if tier == "quick" else 0.2)
    spec = G.model(rng, nmax=40 if big else 8, rewards=rng.random() < 0.4, tiny=0.15)
    c = {"spec": spec, "ptype": rng.choice(G.PTYPES + ["csr0", "coo0", "csc0"]), "bad": None,
         "rewc": rng.choice(["array", "list"]), "labc": rng.choice(["dict", "defaultdict", "inv"]),
         "adds": [[rng.randrange(spec["N"]), rng.choice(["init", "target", "new", "blue", "x y"]), rng.random() < 0.5] for _ in range(rng.randint(0, 6))]}
    if i % 2:
        c["bad"] = rng.choice(BAD)
        c["row"] = rng.randrange(len(spec["rows"]))
        c["rscale"] = rng.choice([1, 1, 100, 1e-3, 1e-6, 1e-9, 1e-14, 1e-300])
        c["delta"] = rng.choice([1e-6, 1e-4, 0.05, 0.3, -1e-6, -1e-4, -0.05])
    return c


def breakit(c):
    """Returns (matrix rows as dicts, isa list, spec) of the invalid variant or None if not applicable."""
    spec = copy.deepcopy(c["spec"]); b = c["bad"]; r = spec["rows"][c["row"]]; ds = r[2]
    shape = None
    if b == "sum":
        k = max(range(len(ds)), key=lambda j: ds[j][1])
        ds[k][1] = max(0.0, ds[k][1] + (c["delta"] if c["delta"] < 0 else -c["delta"]))
    elif b == "sum-small":
        k = min(range(len(ds)), key=lambda j: ds[j][1])
        if ds[k][1] + abs(c["delta"]) > 1:
            return None
        ds[k][1] += abs(c["delta"])
    elif b in ("neg", "neg-tiny-pair"):
        # an entry below zero, the row still summing to one
        if spec["N"] < 2:
            return None
        free = [d for d in range(spec["N"]) if d not in [x for x, _ in ds]]
        e = 0.25 if b == "neg" else 1e-3
        k = [j for j in range(len(ds)) if ds[j][1] + e <= 1]
        if not free or not k:
            return None
        ds[k[0]][1] += e; ds.append([free[0], -e])
    elif b == "gt1":
        free = [d for d in range(spec["N"]) if d not in [x for x, _ in ds]]
        if not free:
            return None
        r[2] = [[ds[0][0], 1.5], [free[0], -0.5]]
    elif b == "nan":
        ds[0][1] = float("nan")
    elif b == "zero-row":
        r[2] = []
    elif b == "neg-reward":
        spec["rew"] = spec["rew"] or [0.0] * len(spec["rows"])
        spec["rew"][c["row"]] = -abs(c["delta"]) * c.get("rscale", 1)
    elif b == "nan-reward":
        spec["rew"] = spec["rew"] or [0.0] * len(spec["rows"])
        spec["rew"][c["row"]] = float("nan")
    elif b == "dtmc-shape":
        if spec["kind"] != "dtmc":
            return None
        shape = (len(spec["rows"]), spec["N"] + 1) if c["row"] % 2 else (len(spec["rows"]) + 1, spec["N"])
        if shape[0] > len(spec["rows"]):
            spec["rows"].append([0, 0, [[0, 1.0]]])
    elif b == "dtmc-action":
        if spec["kind"] != "dtmc":
            return None
        r[1] = 1
    elif b == "dup-sap":
        if spec["kind"] != "mdp" or len(spec["rows"]) < 2:
            return None
    elif b == "missing-sap":
        pass
    return spec, shape


def mat(spec, ptype, shape=None):
    C, N = shape or (len(spec["rows"]), spec["N"])
    if ptype.endswith("0"):
        # explicitly stored zeros
        rows, cols, vals = [], [], []
        for i, (s, a, ds) in enumerate(spec["rows"]):
            have = set()
            for d, p in ds:
                rows.append(i); cols.append(d); vals.append(p); have.add(d)
            for d in range(N):
                if d not in have and (d + i) % 2 == 0:
                    rows.append(i); cols.append(d); vals.append(0.0)
        m = sparse.coo_matrix((vals, (rows, cols)), shape=(C, N))
        return {"csr0": m.tocsr, "coo0": m.tocoo, "csc0": m.tocsc}[ptype]()
    s2 = dict(spec); s2["N"] = N
    return G.matrix(s2, ptype)


def construct(c, spec, shape=None):
    from switss.model import DTMC, MDP
    from switss.utils import InvertibleDict
    from collections import defaultdict
    P = mat(spec, c["ptype"], shape)
    isa = {}
    for i, (s, a, _) in enumerate(spec["rows"]):
        isa[(s, a)] = i
    if c["bad"] == "missing-sap":
        isa.pop((spec["rows"][c["row"]][0], spec["rows"][c["row"]][1]))
    if c["bad"] == "dup-sap":
        k = sorted(isa)
        isa[k[0]] = isa[k[1]]
    sl = {l: set(ss) for l, ss in spec["sl"].items()}
    if c["labc"] == "defaultdict":
        d = defaultdict(set); d.update(sl); sl = d
    elif c["labc"] == "inv":
        sl = InvertibleDict(sl, is_default=True)
    rv = spec["rew"]
    if rv is not None:
        rv = {"array": np.array(rv, dtype=float), "list": list(rv)}[c["rewc"]]
    if spec["kind"] == "dtmc":
        if c["bad"] not in ("dtmc-action", "missing-sap") and all(s == i for i, (s, a, _) in enumerate(spec["rows"])):
            return DTMC(P, label_to_states=sl, reward_vector=rv)
        return DTMC(P, label_to_states=sl, index_by_state_action=isa, reward_vector=rv)
    al = {l: {tuple(x) for x in ss} for l, ss in spec["al"].items()}
    if c["labc"] == "inv":
        al = InvertibleDict(al, is_default=True)
    return MDP(P, isa, label_to_actions=al, label_to_states=sl, reward_vector=rv)


def run(c, mon):
    spec = c["spec"]
    if c["bad"]:
        r = breakit(c)
        if r is None:
            mon.ev("mutation_not_applicable"); return
        bspec, shape = r
        try:
            m = construct(c, bspec, shape)
        except Exception as e:
            mon.ev("refused"); mon.ev("refused:" + c["bad"])
            mon.nontrivial("bad", c["bad"], c["ptype"], G.fingerprint(spec))
            return
        raise Violation("admitted-invalid:" + c["bad"], "a model invalid in the way '%s' (row %d, delta %s) was admitted" % (c["bad"], c["row"], c["delta"]))
    m = construct(c, spec)
    mon.ev("admitted"); mon.nontrivial("ok", c["ptype"], G.fingerprint(spec))
    if c["ptype"].endswith("0"):
        mon.ev("explicit_zeros")
    compare(m, spec, mon)
    # label histories
    sl = {l: set(ss) for l, ss in spec["sl"].items()}
    for s, l, readfirst in c["adds"]:
        if readfirst:
            m.labels_by_state[s]
        m.add_label(s, l)
        sl.setdefault(l, set()).add(s)
        mon.check(set(m.states_by_label[l]) == sl[l], "labels-after-add", "label %r: %s, expected %s", l, m.states_by_label[l], sl[l])
        mon.check(set(m.labels_by_state[s]) == {k for k, v in sl.items() if s in v}, "labels-after-add-inverse", "state %d: %s", s, m.labels_by_state[s])
    labels(m, sl, {l: {tuple(x) for x in ss} for l, ss in spec["al"].items()} if spec["kind"] == "mdp" else {}, spec, mon)


def compare(m, spec, mon, tolerate=0.0):
    C, N = len(spec["rows"]), spec["N"]
    mon.check((m.C, m.N) == (C, N) and m.P.shape == (C, N), "shape", "C,N=%s,%s P%s expected %s,%s", m.C, m.N, m.P.shape, C, N)
    want = np.zeros((C, N))
    succ = {s: [] for s in range(N)}; pred = {s: [] for s in range(N)}; acts = {s: set() for s in range(N)}
    for i, (s, a, ds) in enumerate(spec["rows"]):
        acts[s].add(a)
        for d, p in ds:
            want[i, d] = p
            if p > 0:
                succ[s].append((d, a, p)); pred[d].append((s, a, p))
    mon.check(np.array_equal(np.asarray(m.P.toarray()), want), "P", "P differs:\n%s\nexpected\n%s", m.P.toarray(), want)
    mon.check(dict(m.index_by_state_action) == {(s, a): i for i, (s, a, _) in enumerate(spec["rows"])}, "index", "index_by_state_action is %s", m.index_by_state_action)
    for s in range(N):
        for name, got, exp in (("successors", m.successors(s), succ[s]), ("predecessors", m.predecessors(s), pred[s])):
            got = sorted(tuple(t) for t in got)
            mon.ev("edges_compared", len(got))
            mon.check([t[:2] for t in got] == [t[:2] for t in sorted(exp)], name, "%s(%d) = %s, expected %s", name, s, got, sorted(exp))
            mon.check(got == sorted(exp), name + "-probability", "%s(%d) = %s, expected %s", name, s, got, sorted(exp))
        mon.check(set(m.actions_by_state[s]) == acts[s], "actions_by_state", "state %d: %s, expected %s", s, m.actions_by_state[s], acts[s])
    if spec.get("rew") is not None:
        mon.check([float(m.reward_vector[i]) for i in range(C)] == [float(x) for x in spec["rew"]], "rewards", "%s", m.reward_vector)
    labels(m, {l: set(ss) for l, ss in spec["sl"].items()}, {l: {tuple(x) for x in ss} for l, ss in spec["al"].items()} if spec["kind"] == "mdp" else {}, spec, mon)


def labels(m, sl, al, spec, mon):
    for l, ss in sl.items():
        mon.ev("label_reads")
        mon.check(set(m.states_by_label[l]) == ss, "states_by_label", "label %r: %s, expected %s", l, m.states_by_label[l], ss)
    mon.check({l for l in m.states_by_label.keys() if m.states_by_label[l]} == {l for l in sl if sl[l]}, "label-set", "%s", list(m.states_by_label.keys()))
    for s in range(spec["N"]):
        mon.ev("label_reads")
        mon.check(set(m.labels_by_state[s]) == {l for l, ss in sl.items() if s in ss}, "labels_by_state", "state %d: %s", s, m.labels_by_state[s])
    mon.check(set(m.states_by_label["no such label"]) == set() and "no such label" not in m.states_by_label.keys(), "missing-label", "lookup of an unknown label")
    for l, ss in al.items():
        mon.ev("label_reads")
        mon.check({tuple(x) for x in m.actions_by_label[l]} == ss, "actions_by_label", "label %r: %s", l, m.actions_by_label[l])
    for s, a, _ in spec["rows"]:
        mon.check(set(m.labels_by_action[(s, a)]) == {l for l, ss in al.items() if (s, a) in ss}, "labels_by_action", "%s: %s", (s, a), m.labels_by_action[(s, a)])
    repr(m)
