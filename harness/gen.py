"""Seeded generators of model specifications (see oracle.py) and constructors of the real objects."""
import copy, random
import oracle


def dist(rng, k, style=None):
    """k positive floats summing to 1 up to rounding."""
    if k == 1:
        return [1.0]
    style = style or rng.choice(["dyadic", "dec", "third", "float", "sev", "skew"])
    if style == "tiny":
        small = rng.choice([1e-4, 3e-6, 1e-7, 2e-9, 1e-12])
        rest = dist(rng, k - 1, "dec")
        return [small] + [x * (1 - small) for x in rest]
    if style == "skew":
        small = rng.choice([0.01, 0.001, 0.05])
        rest = dist(rng, k - 1, "dec")
        return [small] + [x * (1 - small) for x in rest]
    if style == "float":
        w = [rng.uniform(0.05, 1) for _ in range(k)]
        t = sum(w)
        w = [x / t for x in w]
        return w
    den = {"dyadic": rng.choice([4, 8, 16]), "dec": 10, "third": rng.choice([3, 6, 9]), "sev": 7}[style]
    den = max(den, k)
    cuts = sorted(rng.sample(range(1, den), k - 1))
    parts = [b - a for a, b in zip([0] + cuts, cuts + [den])]
    return [p / den for p in parts]


def model(rng, nmax=8, nmin=2, kind=None, fam=None, labels=True, rewards=False, amax=3, targets=True, style=None, tiny=0.0):
    """tiny: share of the models that have some probabilities far below those one usually meets."""
    n = rng.randint(nmin, nmax)
    kind = kind or rng.choice(["mdp", "mdp", "dtmc"])
    fam = fam or rng.choice(["rand", "rand", "local", "ec", "layer", "chain"])
    rows = []
    groups = [rng.randrange(max(1, n // 3 + 1)) for _ in range(n)]
    det = style is None and rng.random() < 0.12      # deterministic: every row has one successor
    wide = style is None and rng.random() < 0.06     # some states with many actions, some rows with many successors
    tiny = rng.random() < tiny
    for s in range(n):
        na = 1 if kind == "dtmc" else rng.choice([1, 1, 2, 2, 3][: 2 + amax])
        if wide and kind == "mdp" and rng.random() < 0.4:
            na = rng.randint(4, 12)
        ids = list(range(na)) if rng.random() < 0.7 else sorted(rng.sample(range(30), na)) if wide else sorted(rng.sample(range(9), na))
        if kind == "dtmc":
            ids = [0]
        if rng.random() < 0.2:
            rng.shuffle(ids)
        for a in ids:
            k = 1 if det else rng.choice([1, 2, 5, 8, 12]) if wide else rng.choice([1, 1, 2, 2, 3, 4])
            if fam == "rand":
                pool = list(range(n))
            elif fam == "local":
                pool = [d for d in range(n) if abs(d - s) <= 2]
            elif fam == "ec":
                inside = rng.random() < 0.6
                pool = [d for d in range(n) if groups[d] == groups[s]] if inside else list(range(n))
            elif fam == "layer":
                pool = [d for d in range(s + 1, min(n, s + 5))] or [s]
                if rng.random() < 0.15:
                    pool = list(range(n))
            else:
                pool = sorted({min(n - 1, s + 1), max(0, s - 1), 0, s}) if rng.random() < 0.5 else [min(n - 1, s + 1), rng.randrange(n)]
                pool = sorted(set(pool))
            k = min(k, len(pool))
            ds = rng.sample(pool, k)
            ps = dist(rng, k, "tiny" if tiny and rng.random() < 0.5 else style)
            rows.append([s, a, [[d, p] for d, p in zip(ds, ps)]])
    if style is None and rng.random() < 0.06:
        # rows that sum to one within the accepted rounding only
        for r in rows:
            r[2][-1][1] -= rng.choice([0.0, 1e-10, 3e-10, 1e-12])
    order = rng.choice(["plain", "plain", "shuffle", "blocks", "rev"])
    if order == "shuffle":
        rng.shuffle(rows)
    elif order == "rev":
        rows.reverse()
    elif order == "blocks":
        st = list(range(n)); rng.shuffle(st)
        rows.sort(key=lambda r: st.index(r[0]))
    init = rng.choice([0, 0, rng.randrange(n)])
    sl = {"init": [init]}
    if targets:
        nt = rng.choice([1, 1, 2, 3])
        sl["target"] = sorted(rng.sample(range(n), min(nt, n)))
    al = {}
    if labels:
        for l in rng.sample(["blue", "red", "g1", "p q", "x=y", "lab-3", "0", "deadlock"], rng.randint(0, 4)):
            ss = sorted(rng.sample(range(n), rng.randint(1, n)))
            sl[l] = ss
        if kind == "mdp":
            for l in rng.sample(["go", "wait", "tick", "send"], rng.randint(0, 3)):
                k = rng.randint(1, len(rows))
                al[l] = sorted([r[0], r[1]] for r in rng.sample(rows, k))
    spec = {"kind": kind, "N": n, "rows": rows, "sl": sl, "al": al, "rew": None}
    if rewards:
        spec["rew"] = [rng.choice([0, 0, 1, 2, 0.5, rng.uniform(0, 3)]) for _ in rows]
    return spec


def reachable_model(rng, **kw):
    """A model whose target is reachable from its initial state."""
    for _ in range(200):
        s = model(rng, **kw)
        keep, rf = oracle.reduce(s)
        if s["sl"]["init"][0] in keep:
            return s
    raise RuntimeError("no reachable model found")


def permute_rf(rng, rf):
    """Renumbers interior states and rows of an RF spec at random (goal/fail stay last)."""
    n = rf["N"] - 2
    perm = list(range(n)); rng.shuffle(perm)
    pm = perm + [n, n + 1]
    rows = [[pm[s], a, [[pm[d], p] for d, p in ds]] for s, a, ds in rf["rows"]]
    inner = rows[:-2]
    idx = list(range(len(inner)))
    if rf["kind"] == "dtmc":
        idx.sort(key=lambda i: inner[i][0])
        if rng.random() < 0.3:
            rng.shuffle(idx)
    else:
        mode = rng.choice(["grouped", "shuffled"])
        rng.shuffle(idx)
        if mode == "grouped":
            idx.sort(key=lambda i: inner[i][0])
    out = dict(rf)
    out["rows"] = [inner[i] for i in idx] + rows[-2:]
    out["sl"] = {l: sorted(pm[s] for s in ss) for l, ss in rf["sl"].items()}
    out["al"] = {l: sorted([pm[s], a] for s, a in ss) for l, ss in rf["al"].items()}
    if rf.get("rew") is not None:
        out["rew"] = [rf["rew"][i] for i in idx] + rf["rew"][-2:]
    return out


def rf(rng, nmin=1, nmax=7, ecfree=None, permute=True, tries=400, **kw):
    """An RF specification with between nmin and nmax interior states."""
    kw.setdefault("nmax", nmax + 2)
    kw.setdefault("nmin", max(2, nmin))
    for _ in range(tries):
        s = model(rng, **kw)
        keep, r = oracle.reduce(s)
        if s["sl"]["init"][0] not in keep:
            continue
        if not (nmin <= r["N"] - 2 <= nmax):
            continue
        if ecfree is not None:
            free = len(oracle.mecs(r)) == 2
            if free != ecfree:
                continue
        return permute_rf(rng, r) if permute and rng.random() < 0.8 else r
    raise RuntimeError("no RF found")


def options(rng, nmax=7, permute=True):
    """An RF specification (EC-free MDP) whose initial state chooses between chains of different length, value and frequency: which ones a
    smallest subsystem needs depends on the threshold, and frequencies of those it does not need may be much larger."""
    while True:
        k = rng.randint(2, 4)
        lens = [rng.randint(0, 3) for _ in range(k)]
        n = 1 + sum(lens)
        if 2 <= n <= nmax:
            break
    goal, fail = n, n + 1
    ordered = rng.random() < 0.6         # longer is better
    if ordered:
        lens.sort()
    rows = []; nxt = 1
    for o, l in enumerate(lens):
        chain = list(range(nxt, nxt + l)); nxt += l
        path = chain + [goal]
        good = [0.15, 0.35, 0.6, 0.95][l] if ordered else rng.choice([1.0, 0.9, 0.5, 0.3]) if l else rng.choice([0.1, 0.2, 0.4])
        rows.append([0, o, [[path[0], good]] + ([[fail, 1 - good]] if good < 1 else [])])
        for s, t in zip(chain, path[1:]):
            loop = rng.choice([0.0, 0.0, 0.5, 0.9, 0.95] if not ordered else [[0.95], [0.9, 0.95], [0.0, 0.5], [0.0]][l]); back = rng.choice([s, s, chain[0]])
            out = rng.choice([1.0, 0.9, 0.95, 0.6, 0.4])
            ds = {}
            for d, p in ((back, loop), (t, (1 - loop) * out), (fail, (1 - loop) * (1 - out))):
                if p > 0:
                    ds[d] = ds.get(d, 0.0) + p
            rows.append([s, 0, [[d, p] for d, p in ds.items()]])
            if rng.random() < 0.15:
                rows.append([s, 1, [[goal, 0.1], [fail, 0.9]]])
    rows += [[goal, 0, [[goal, 1.0]]], [fail, 0, [[fail, 1.0]]]]
    r = {"kind": "mdp", "N": n + 2, "rows": rows, "sl": {"init": [0], "rf_target": [goal], "rf_fail": [fail]}, "al": {}, "rew": None}
    return permute_rf(rng, r) if permute else r


# ------------------------------------------------------------------ the real objects
def matrix(spec, ptype):
    import numpy as np
    from scipy import sparse
    C, N = len(spec["rows"]), spec["N"]
    P = sparse.dok_matrix((C, N))
    order = [(i, d, p) for i, (s, a, ds) in enumerate(spec["rows"]) for d, p in ds]
    if ptype == "dok-rev":
        order.reverse()
    for i, d, p in order:
        P[i, d] = p
    # entries that other number types represent exactly are passed as such
    vals = [p for _, _, p in order]
    if all(p == int(p) for p in vals) and ptype in ("list", "ndarray", "npmatrix", "csr", "csc", "lil", "dok-rev"):
        P = P.astype(int)
    elif all(float(np.float32(p)) == p for p in vals) and ptype in ("csc", "npmatrix"):
        P = P.astype(np.float32)
    if ptype == "list":
        return P.toarray().tolist()
    if ptype == "ndarray":
        return P.toarray()
    if ptype == "npmatrix":
        return np.matrix(P.toarray())
    if ptype in ("csr", "csc", "coo", "lil"):
        return getattr(P, "to" + ptype)()
    return P


PTYPES = ["dok", "dok", "dok-rev", "list", "ndarray", "npmatrix", "csr", "csc", "coo", "lil"]


def rewards(rv):
    """A reward vector, of integers where that is exact."""
    import numpy as np
    return np.array(rv, dtype=int if all(x == int(x) for x in rv) else float)


def build(spec, ptype="dok", reward_vector="spec", **kw):
    """Constructs the real DTMC/MDP for a specification."""
    import numpy as np
    from switss.model import DTMC, MDP
    P = matrix(spec, ptype)
    isa = {(s, a): i for i, (s, a, _) in enumerate(spec["rows"])}
    sl = {l: set(ss) for l, ss in spec["sl"].items()}
    rv = spec.get("rew")
    rv = None if rv is None else rewards(rv)
    if spec["kind"] == "dtmc":
        if all(s == i for i, (s, a, _) in enumerate(spec["rows"])) and kw.pop("implicit", True):
            return DTMC(P, label_to_states=sl, reward_vector=rv)
        return DTMC(P, label_to_states=sl, index_by_state_action=isa, reward_vector=rv)
    al = {l: set((s, a) for s, a in ss) for l, ss in spec.get("al", {}).items()}
    return MDP(P, isa, label_to_actions=al, label_to_states=sl, reward_vector=rv)


def build_rf(spec, ptype="dok", ignore=False):
    from switss.model import ReachabilityForm
    return ReachabilityForm(build(spec, ptype), "init", "rf_target", "rf_fail", ignore_consistency_checks=ignore)


def fingerprint(spec):
    """Structure of a spec up to probabilities, for counting distinct situations."""
    return (spec["kind"], spec["N"], tuple((r[0], r[1], tuple(d for d, _ in r[2])) for r in spec["rows"]))


def rewform(rng, nmin=1, nmax=7, permute=True, **kw):
    """An RF specification whose goal is reached almost surely under every policy, with rewards."""
    for _ in range(400):
        r = rf(rng, nmin=nmin, nmax=nmax, ecfree=True, permute=permute, **kw)
        N = r["N"]
        rows = []
        for s, a, ds in r["rows"]:
            if s >= N - 2:
                rows.append([s, a, ds]); continue
            t = {}
            for d, p in ds:
                d = N - 2 if d == N - 1 else d
                t[d] = t.get(d, 0.0) + p
            rows.append([s, a, [[d, p] for d, p in t.items()]])
        r = dict(r, rows=rows)
        z = rng.random()
        if z > 0.75:
            r["rew"] = [float(rng.choice([0, 1, 2, 5])) for _ in rows[:-2]] + [0.0, 0.0]
        elif z < 0.15:
            r["rew"] = [1.0] * (len(rows) - 2) + [0.0, 0.0]
        else:
            r["rew"] = [float(rng.choice([0, 0, 1, 2, 0.5, round(rng.uniform(0, 3), 2)])) for _ in rows[:-2]] + [0.0, 0.0]
        return r
    raise RuntimeError


def slow(rng, spec):
    """Gives an interior state of an RF specification a self-loop that is taken about a thousand times on average."""
    s = rng.randrange(spec["N"] - 2); loop = 1 - 1 / rng.choice([512, 1024, 2048])
    rows = []
    for row in spec["rows"]:
        if row[0] == s:
            d = {t: p * (1 - loop) for t, p in row[2]}
            d[s] = d.get(s, 0) + loop
            row = [row[0], row[1], [[t, p] for t, p in d.items()]]
        rows.append(row)
    return dict(spec, rows=rows)


def tight(rng, permute=True):
    """A tiny EC-free MDP: one to three states with self-loops that are visited only a little more often than once."""
    n = rng.choice([1, 1, 2, 2, 3]); goal, fail = n, n + 1
    rows = []
    for s in range(n):
        for a in range(rng.choice([1, 2, 2])):
            loop = rng.choice([0.0, 0.1, 0.3, 0.4, 0.6, round(rng.uniform(0.05, 0.7), 2)])
            good = rng.choice([1.0, 0.9, 0.5, round(rng.uniform(0.2, 1), 2)]) if s == n - 1 or a == 1 else rng.choice([1.0, 1.0, 0.95])
            nxt = goal if s == n - 1 or a == 1 else s + 1
            ds = {}
            for d, p in ((s, loop), (nxt, (1 - loop) * good), (fail, (1 - loop) * (1 - good))):
                if p > 0:
                    ds[d] = ds.get(d, 0.0) + p
            rows.append([s, a, [[d, p] for d, p in ds.items()]])
    rows += [[goal, 0, [[goal, 1.0]]], [fail, 0, [[fail, 1.0]]]]
    r = {"kind": "mdp", "N": n + 2, "rows": rows, "sl": {"init": [0], "rf_target": [goal], "rf_fail": [fail]}, "al": {}, "rew": None}
    return permute_rf(rng, r) if permute else r


def rare(rng, spec, p=None):
    """Puts a step that succeeds with a small probability only (and fails otherwise) before an RF specification."""
    p = p or rng.choice([1e-2, 1e-3, 1e-4, 5e-5])
    n = spec["N"] - 2; goal, fail = spec["N"] - 1, spec["N"]
    init = spec["sl"]["init"][0]
    m = lambda s: s if s < n else s + 1
    rows = [[m(s), a, [[m(d), q] for d, q in ds]] for s, a, ds in spec["rows"]]
    rows.insert(-2, [n, 0, [[init, p], [fail, 1 - p]]])
    sl = {l: [m(s) for s in v] for l, v in spec["sl"].items()}
    sl["init"] = [n]
    out = dict(spec, N=spec["N"] + 1, rows=rows, sl=sl)
    if spec.get("rew") is not None:
        out["rew"] = list(spec["rew"][:-2]) + [0.0] + list(spec["rew"][-2:])
    return out


def build_rewform(spec, ptype="dok"):
    import numpy as np
    from switss.model import RewardReachabilityForm
    return RewardReachabilityForm(build_rf(spec, ptype), rewards(spec["rew"][:-2]))
