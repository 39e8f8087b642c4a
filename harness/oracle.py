"""Reference models, written independently of /repo: plain Python/numpy on model specifications.

A specification (dict, JSON-serialisable):
  kind: "mdp" | "dtmc";  N: number of states
  rows: list of [state, action, [[dest, prob], ...]]  -- position in the list is the row index
  sl:   {label: [states]};  al: {label: [[state, action], ...]};  rew: None or list (one per row)
"""
import itertools
import numpy as np


# ---------------------------------------------------------------- graph level
def succs(spec):
    out = [set() for _ in range(spec["N"])]
    for s, a, ds in spec["rows"]:
        for d, p in ds:
            if p > 0:
                out[s].add(d)
    return out


def preds(spec):
    out = [set() for _ in range(spec["N"])]
    for s, a, ds in spec["rows"]:
        for d, p in ds:
            if p > 0:
                out[d].add(s)
    return out


def reach(nb, start, block=()):
    seen = set(start); todo = list(seen)
    while todo:
        s = todo.pop()
        if s in block:
            continue
        for t in nb[s]:
            if t not in seen:
                seen.add(t); todo.append(t)
    return seen


def sccs(nodes, nb):
    """Iterative Tarjan; nodes: set, nb: dict node -> iterable of successor nodes (inside nodes)."""
    index = {}; low = {}; on = set(); st = []; out = []; cnt = 0
    for root in sorted(nodes):
        if root in index:
            continue
        work = [(root, iter(nb[root]))]
        index[root] = low[root] = cnt; cnt += 1; st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt; cnt += 1; st.append(w); on.add(w)
                    work.append((w, iter(nb[w]))); adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                c = set()
                while True:
                    w = st.pop(); on.discard(w); c.add(w)
                    if w == v:
                        break
                out.append(c)
    return out


def mecs(spec):
    """List of (state set) of the maximal end components (each has an action that stays inside)."""
    acts = {}
    for i, (s, a, ds) in enumerate(spec["rows"]):
        acts.setdefault(s, []).append(frozenset(d for d, p in ds if p > 0))
    todo = [set(range(spec["N"]))]; out = []
    while todo:
        S = todo.pop()
        # drop states without an action inside S
        ch = True
        while ch:
            bad = {s for s in S if not any(x <= S for x in acts.get(s, []))}
            S = S - bad
            ch = bool(bad)
        if not S:
            continue
        nb = {s: set().union(*[x for x in acts[s] if x <= S]) for s in S}
        cs = sccs(S, nb)
        if len(cs) == 1:
            out.append(S)
        else:
            todo += cs
    return out


# ---------------------------------------------------------------- numeric level
class M:
    """Dense view of a specification restricted to rows/states of interest."""

    def __init__(self, spec):
        self.N = spec["N"]; self.C = len(spec["rows"])
        self.P = np.zeros((self.C, self.N)); self.rs = np.zeros(self.C, dtype=int)
        for i, (s, a, ds) in enumerate(spec["rows"]):
            self.rs[i] = s
            for d, p in ds:
                self.P[i, d] += p
        self.by = [[] for _ in range(self.N)]
        for i in range(self.C):
            self.by[self.rs[i]].append(i)


def prob(m, goal, mode, eps=1e-11):
    """Pr^{min/max}_s(reach goal) for every state of m (states outside may have no rows: value 0 unless goal)."""
    N = m.N; goal = set(goal)
    pos = m.P > 0
    sup = [set(np.nonzero(pos[i])[0]) for i in range(m.C)]
    x = np.zeros(N)
    for g in goal:
        x[g] = 1.0
    if mode == "max":
        # attractor policy
        pol = {}; done = set(goal)
        ch = True
        while ch:
            ch = False
            for s in range(N):
                if s in done:
                    continue
                for i in m.by[s]:
                    if sup[i] & done:
                        pol[s] = i; done.add(s); ch = True
                        break
        act = sorted(pol)
    else:
        S0 = set(range(N)) - goal
        ch = True
        while ch:
            bad = {s for s in S0 if m.by[s] and not any(sup[i] <= S0 for i in m.by[s])}
            S0 -= bad; ch = bool(bad)
        act = [s for s in range(N) if s not in goal and s not in S0]
        pol = {s: m.by[s][0] for s in act}
    if not act:
        return x
    for _ in range(1000):
        # evaluate
        if mode == "max":
            nb = [set() for _ in range(N)]
            for s in act:
                for d in sup[pol[s]]:
                    nb[d].add(s)
            live = reach(nb, goal)
            ev = [s for s in act if s in live]
        else:
            ev = act
        x = np.zeros(N)
        for g in goal:
            x[g] = 1.0
        if ev:
            ix = {s: k for k, s in enumerate(ev)}
            A = np.eye(len(ev)); b = np.zeros(len(ev))
            for s in ev:
                r = m.P[pol[s]]
                for d in sup[pol[s]]:
                    if d in goal:
                        b[ix[s]] += r[d]
                    elif d in ix:
                        A[ix[s], ix[d]] -= r[d]
            v = np.linalg.solve(A, b)
            for s in ev:
                x[s] = v[ix[s]]
        q = m.P @ x
        changed = False
        for s in act:
            best = pol[s]
            for i in m.by[s]:
                if (q[i] > q[best] + eps) if mode == "max" else (q[i] < q[best] - eps):
                    best = i
            if best != pol[s] and (abs(q[best] - q[pol[s]]) > eps):
                pol[s] = best; changed = True
        if not changed:
            break
    return np.clip(x, 0.0, 1.0)


def rew(m, r, goal, mode, eps=1e-10):
    """Expected accumulated reward before goal, all policies assumed proper."""
    N = m.N; goal = set(goal)
    act = [s for s in range(N) if s not in goal and m.by[s]]
    pol = {s: m.by[s][0] for s in act}
    x = np.zeros(N)
    for _ in range(1000):
        ix = {s: k for k, s in enumerate(act)}
        A = np.eye(len(act)); b = np.zeros(len(act))
        for s in act:
            b[ix[s]] = r[pol[s]]
            for d in np.nonzero(m.P[pol[s]])[0]:
                if d in ix:
                    A[ix[s], ix[d]] -= m.P[pol[s], d]
        v = np.linalg.solve(A, b)
        x = np.zeros(N)
        for s in act:
            x[s] = v[ix[s]]
        q = m.P @ x + np.asarray(r)[:m.C]
        ch = False
        for s in act:
            best = pol[s]
            for i in m.by[s]:
                if (q[i] > q[best] + eps) if mode == "max" else (q[i] < q[best] - eps):
                    best = i
            if best != pol[s]:
                pol[s] = best; ch = True
        if not ch:
            break
    if np.min(r, initial=0) >= 0:
        x[(x < 0) & (x > -1e-9)] = 0.0                              # rounding
    return x


def steps(m, goal_and_fail):
    """Maximal expected number of steps before leaving the interior (None if some policy stays forever)."""
    return rew(m, np.ones(m.C), goal_and_fail, "max")


# ---------------------------------------------------------------- reachability forms
def reduce(spec, init_label="init", target_label="target"):
    """Independent version of the reduction: returns (kept states, rf view) where the rf view is a spec on
    the kept states in increasing order plus goal (index n) and fail (index n+1), rows in spec order."""
    t = set(spec["sl"].get(target_label, ())); init = spec["sl"][init_label][0]
    fw = reach(succs(spec), {init}, t)
    bw = reach(preds(spec), t)
    keep = sorted(fw & bw)
    ix = {s: k for k, s in enumerate(keep)}
    n = len(keep)
    rows = []; src = []
    for i, (s, a, ds) in enumerate(spec["rows"]):
        if s not in ix:
            continue
        if s in t:
            rows.append([ix[s], a, [[n, 1.0]]])
        else:
            out = [[ix[d], p] for d, p in ds if d in ix and p > 0]
            lost = [p for d, p in ds if d not in ix and p > 0]
            if lost:
                out.append([n + 1, 1.0 - sum(p for _, p in out) if out else 1.0])
            rows.append([ix[s], a, out])
        src.append(i)
    rows.append([n, 0, [[n, 1.0]]]); rows.append([n + 1, 0, [[n + 1, 1.0]]])
    sl = {l: sorted(ix[s] for s in ss if s in ix) for l, ss in spec["sl"].items()}
    sl = {l: ss for l, ss in sl.items() if ss}
    sl["rf_target"] = [n]; sl["rf_fail"] = [n + 1]
    al = {}
    for l, sas in spec.get("al", {}).items():
        x = [[ix[s], a] for s, a in sas if s in ix]
        if x:
            al[l] = x
    rw = None
    if spec.get("rew") is not None:
        rw = [spec["rew"][i] for i in src] + [0.0, 0.0]
    return keep, {"kind": spec["kind"], "N": n + 2, "rows": rows, "sl": sl, "al": al, "rew": rw}


def restrict(spec, keep):
    """Sub-RF of an RF spec: states outside keep (and not goal/fail) are redirected to fail. Same state numbering."""
    N = spec["N"]; fail = N - 1; keep = set(keep) | {N - 2, N - 1}
    rows = []
    for s, a, ds in spec["rows"]:
        if s not in keep:
            continue
        inside = [[d, p] for d, p in ds if d in keep and d != fail]
        lost = sum(p for d, p in ds if d not in keep or d == fail)
        if lost > 0:
            inside.append([fail, lost])
        rows.append([s, a, inside])
    return {"kind": spec["kind"], "N": N, "rows": rows, "sl": {}, "al": {}, "rew": None}


def sub_prob(spec, keep, mode, init):
    if init not in keep:
        return 0.0
    return float(prob(M(restrict(spec, keep)), [spec["N"] - 2], mode)[init])


def sub_rew(spec, keep, mode, init):
    """Expected reward collected inside keep (leaving keep ends the collection)."""
    if init not in keep:
        return 0.0
    N = spec["N"]
    keep = set(keep)
    rs = [(i, r) for i, r in enumerate(spec["rows"]) if r[0] in keep]
    m = M(restrict(spec, keep))
    rr = [0.0 if s >= N - 2 else spec["rew"][j] for j, s in
          [(i, r[0]) for i, r in enumerate(spec["rows"]) if r[0] in keep or r[0] >= N - 2]]
    return float(rew(m, rr, [N - 2, N - 1], mode)[init])


def subset_values(spec, init, fn):
    """{frozenset: value} for all subsets of interior states that contain init."""
    n = spec["N"] - 2
    others = [s for s in range(n) if s != init]
    out = {}
    for k in range(len(others) + 1):
        for c in itertools.combinations(others, k):
            S = frozenset(c) | {init}
            out[S] = fn(S)
    return out


def ec_states(spec):
    """Interior states of an RF specification that lie in a proper end component."""
    n = spec["N"] - 2
    return set().union(*[S for S in mecs(spec) if not (S & {n, n + 1})]) if n else set()


def conditioning(spec):
    """Expected numbers of steps that bound how far a small violation of the LP rows can move a solution: worst policy
    outside of end components, and an optimal goal-reaching policy for the maximal probability."""
    try:
        return _conditioning(spec)
    except np.linalg.LinAlgError:
        return float("inf")


def _conditioning(spec):
    m = M(spec); N = spec["N"]; g = N - 2
    stop = ec_states(spec) | {N - 2, N - 1}
    a = rew(m, np.ones(m.C), stop, "max")
    x = prob(m, [g], "max")
    q = m.P @ x
    done = {g}; pol = {}
    ch = True
    while ch:
        ch = False
        for s in range(N - 2):
            if s in done:
                continue
            for i in m.by[s]:
                if q[i] >= x[s] - 1e-9 and any(m.P[i, d] > 0 for d in done):
                    pol[s] = i; done.add(s); ch = True
                    break
    sub = dict(spec, rows=[spec["rows"][pol[s]] for s in sorted(pol)] + spec["rows"][-2:])
    b = rew(M(sub), np.ones(len(sub["rows"])), [N - 2, N - 1], "max")
    return float(max(np.max(np.abs(a)), np.max(np.abs(b)), 1.0))
