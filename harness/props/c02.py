"""C02: reachability masks."""
import numpy as np
import gen as G, oracle

CASES = {"quick": 2500, "thorough": 60000}
RULE = ("random models (random/local/EC-rich/layered/chain graphs, states without actions, up to 200 states, some with up to 66000) x 8 queries each with random start sets, "
        "directions and blocklists; non-trivial: distinct (graph, query) whose mask is neither empty-extension nor full")
REQUIRED = {"queries": 8000, "blocked_matters": 400, "partial_masks": 3000, "large": 2}


def large(n, seed):
    """A chain in permuted numbering with jumps backwards and forwards."""
    import random
    rng = random.Random(seed)
    perm = list(range(n)); rng.shuffle(perm)
    rows = []
    cut = {rng.randrange(n) for _ in range(3)}
    for k in range(n):
        ds = {k if k in cut or k == n - 1 else k + 1}
        if rng.random() < 0.3 and k not in cut:
            ds.add(rng.randrange(max(0, k - 50), k + 1))
        rows.append([perm[k], 0, [[perm[d], 1.0 / len(ds)] for d in sorted(ds)]])
    rng.shuffle(rows)
    return {"kind": "dtmc", "N": n, "rows": rows, "sl": {"init": [0]}, "al": {}, "rew": None}


def gen(rng, i, tier):
    if i % 800 == 799:
        n = rng.choice([33000, 40000, 66000])
        q = [[sorted(rng.randrange(n) for _ in range(rng.choice([1, 1, 3]))), mode, sorted(rng.randrange(n) for _ in range(3)), "set"] for mode in ("forward", "backward") * 2]
        return {"large": [n, rng.randrange(10 ** 6)], "q": q, "ptype": "dok"}
    r = rng.random()
    nmax = 9 if r < 0.7 else (40 if r < 0.95 else 200)
    spec = G.model(rng, nmax=nmax, targets=False, labels=False, tiny=0.15)
    if spec["kind"] == "mdp" and rng.random() < 0.3:
        gone = rng.sample(range(spec["N"]), rng.randint(0, max(0, spec["N"] // 3)))
        rows = [x for x in spec["rows"] if x[0] not in gone]
        if rows:
            spec["rows"] = rows
    q = []
    for _ in range(8):
        n = spec["N"]
        st = sorted(rng.sample(range(n), rng.choice([1, 1, 1, min(2, n), min(3, n), n])))
        k = rng.choice([0, 0, 1, 2, 3])
        bl = sorted(rng.sample(range(n), min(k, n)))
        if rng.random() < 0.15:
            bl = sorted(set(bl) | set(st[:1]))
        q.append([st, rng.choice(["forward", "backward"]), bl, rng.choice(["set", "list", "npset"])])
    return {"spec": spec, "q": q, "ptype": rng.choice(G.PTYPES)}


def run(c, mon):
    spec = large(*c["large"]) if "large" in c else c["spec"]
    if "large" in c:
        mon.ev("large")
    m = G.build(spec, c["ptype"])
    su, pr = oracle.succs(spec), oracle.preds(spec)
    for st, mode, bl, cont in c["q"]:
        nb = su if mode == "forward" else pr
        want = oracle.reach(nb, st, set(bl))
        start = {"set": set(st), "list": list(st), "npset": set(np.array(st))}[cont]
        got = m.reachable_mask(start, mode, set(bl)) if bl else m.reachable_mask(start, mode)
        mon.ev("queries")
        mon.check(len(got) == spec["N"], "mask-length", "%s", len(got))
        g = {s for s in range(spec["N"]) if got[s]}
        mon.check(g == want, "mask-%s%s" % (mode, "-blocked" if bl else ""), "from %s %s blocked %s: marked but not reachable %s, reachable but not marked %s", st, mode, bl, sorted(g - want)[:50], sorted(want - g)[:50])
        mon.check(all(x in (0, 1) for x in got), "mask-values", "%s", got)
        if bl and want != oracle.reach(nb, st, set()):
            mon.ev("blocked_matters")
        if len(st) < len(want) < spec["N"]:
            mon.ev("partial_masks"); mon.nontrivial(G.fingerprint(spec), tuple(st), mode, tuple(bl))
