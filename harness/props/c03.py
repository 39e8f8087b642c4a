"""C03: maximal end components, proper flags, SCCs."""
import numpy as np
import gen as G, oracle

CASES = {"quick": 4000, "thorough": 80000}
RULE = ("random MDPs/DTMCs (EC-rich groups, self-loops, only some actions leaving, permuted numbering, gaps in action numbers, up to 60 states, some with up to 66000) and "
        "reachability forms; non-trivial: distinct graphs with a non-singleton or non-trivial MEC structure")
REQUIRED = {"mec_results": 3000, "graphs_with_big_mec": 800, "improper_singletons": 800, "refinement_needed": 100, "scc_results": 3000, "rf_results": 300,
            "proper_singletons": 100, "large": 2}


def ecmodel(rng, n, kind):
    """Clusters with internal cycles, some actions leaving: needs repeated refinement."""
    rows = []
    perm = list(range(n)); rng.shuffle(perm)
    size = rng.choice([1, 2, 3, 4, 5])
    # many actions, or large action numbers
    pool, many = (range(rng.choice([40, 66, 129, 300])), rng.choice([3, 12, 40])) if rng.random() < 0.12 else (range(7), 3)
    for k in range(n):
        lo = (k // size) * size; hi = min(n, lo + size)
        na = 1 if kind == "dtmc" else rng.choice([1, 1, 2, many])
        acts = [0] if kind == "dtmc" else sorted(rng.sample(pool, na))
        if len(pool) > 32 and na > 1 and rng.random() < 0.5:
            # numbers that agree modulo a power of two
            acts = sorted({acts[0] % 8 + rng.choice([8, 16, 32, 64, 256]) * j for j in range(na)})
        for a in acts:
            r = rng.random()
            nxt = lo + (k - lo + 1) % (hi - lo)
            if r < 0.35:
                ds = {nxt}
            elif r < 0.5:
                ds = {nxt, rng.randrange(lo, hi)}
            elif r < 0.65:
                ds = {nxt, rng.randrange(n)}
            elif r < 0.75:
                ds = {k}
            elif r < 0.85:
                ds = {k, rng.randrange(n)}
            else:
                ds = {rng.randrange(n) for _ in range(rng.randint(1, 3))}
            ds = sorted(ds)
            rows.append([perm[k], a, [[perm[d], 1.0 / len(ds)] for d in ds]])
    if rng.random() < 0.7:
        rng.shuffle(rows)
    return {"kind": kind, "N": n, "rows": rows, "sl": {"init": [0]}, "al": {}, "rew": None}


def large(n, seed):
    """A few long cycles (some of which may be left by one action only) and transient states, in permuted numbering."""
    import random
    rng = random.Random(seed)
    perm = list(range(n)); rng.shuffle(perm)
    cuts = sorted({0, n} | {rng.randrange(n) for _ in range(4)})
    rows = []
    for lo, hi in zip(cuts, cuts[1:]):
        leave = rng.random() < 0.5
        for k in range(lo, hi):
            ds = {lo + (k - lo + 1) % (hi - lo)}
            if rng.random() < 0.2:
                ds.add(rng.randrange(lo, hi))
            rows.append([perm[k], 0, [[perm[d], 1.0 / len(ds)] for d in sorted(ds)]])
        k = rng.randrange(lo, hi)
        if leave and lo > 0:
            rows.append([perm[k], 1, [[perm[rng.randrange(lo)], 1.0]]])
    rng.shuffle(rows)
    return {"kind": "mdp", "N": n, "rows": rows, "sl": {"init": [0]}, "al": {}, "rew": None}


def gen(rng, i, tier):
    if i % 1300 == 1299:
        return {"rf": False, "large": [rng.choice([33000, 40000, 66000]), rng.randrange(10 ** 6)], "ptype": "dok"}
    r = rng.random()
    if i % 8 == 7:
        return {"rf": True, "spec": G.rf(rng, nmax=8, **rng.choice([dict(ecfree=False, kind="mdp"), dict(ecfree=None)]), style="dyadic"), "ptype": rng.choice(G.PTYPES)}
    n = rng.randint(1, 8) if r < 0.7 else rng.randint(5, 60)
    kind = rng.choice(["mdp", "mdp", "mdp", "dtmc"])
    if rng.random() < 0.7:
        spec = ecmodel(rng, n, kind)
    else:
        spec = G.model(rng, nmax=max(2, n), kind=kind, labels=False, targets=False)
    if kind == "mdp" and rng.random() < 0.15:
        # states without any action
        gone = rng.sample(range(spec["N"]), rng.randint(0, max(1, spec["N"] // 4)))
        spec["rows"] = [x for x in spec["rows"] if x[0] not in gone] or spec["rows"]
    if rng.random() < 0.15 and all(abs(sum(p for _, p in r[2]) - 1) < 1e-13 for r in spec["rows"]):
        # rows that sum to one within the accepted rounding only
        for r in spec["rows"]:
            r[2][rng.randrange(len(r[2]))][1] -= rng.choice([0.0, 1e-10, 3e-10, 1e-12])
    return {"rf": False, "spec": spec, "ptype": rng.choice(G.PTYPES)}


def run(c, mon):
    spec = large(*c["large"]) if "large" in c else c["spec"]; N = spec["N"]
    if "large" in c:
        mon.ev("large")
    m = G.build(spec, c["ptype"])
    want = {s: M for M in map(frozenset, oracle.mecs(spec)) for s in M}
    if not c["rf"]:
        for rep in range(2):
            comp, proper, cnt = m.maximal_end_components()
            check(comp, proper, cnt, want, N, mon)
        big = [M for M in set(want.values()) if len(M) > 1]
        if big:
            mon.ev("graphs_with_big_mec")
        mon.ev("improper_singletons", N - len(want))
        mon.ev("proper_singletons", len([M for M in set(want.values()) if len(M) == 1]))
        nb = {s: x for s, x in enumerate(oracle.succs(spec))}
        sc = oracle.sccs(set(range(N)), nb)
        if any(len(x) > 1 and not any(x == set(M) for M in big) for x in sc):
            mon.ev("refinement_needed")
        if want:
            mon.nontrivial(G.fingerprint(spec))
        got, k = m.strongly_connected_components()
        got = list(got)
        mon.ev("scc_results")
        mon.check(k == len(sc), "scc-count", "%d SCCs reported, there are %d", k, len(sc))
        mon.check(part(got) == {frozenset(x) for x in sc}, "scc-partition", "%s, expected %s", got[:200], [sorted(x)[:50] for x in sc][:50])
    else:
        rf = G.build_rf(spec, c["ptype"])
        n = N - 2
        mon.ev("rf_results"); mon.nontrivial("rf", G.fingerprint(spec))
        inner = {M for M in want.values() if min(M) < n}
        mon.check(int(rf.nr_of_proper_mecs) == len(inner), "rf-proper-count", "%s, expected %s", rf.nr_of_proper_mecs, len(inner))
        mon.check(bool(rf.is_ec_free) == (not inner), "rf-ecfree", "%s", rf.is_ec_free)
        stm = list(rf.state_to_mec)
        mon.check(len(stm) == n, "rf-state_to_mec", "length %d", len(stm))
        mon.check(part(stm) == {frozenset(x) for x in ({want.get(s, frozenset([s])) for s in range(n)})}, "rf-state_to_mec", "%s", stm)
        mon.check(int(rf.nr_of_mecs) == len({want.get(s, frozenset([s])) for s in range(n)}), "rf-mec-count", "%s", rf.nr_of_mecs)
        for s in range(n):
            mon.check(bool(rf.in_proper_ec(s)) == (s in want), "rf-in_proper_ec", "state %d: %s", s, rf.in_proper_ec(s))


def part(comp):
    d = {}
    for s, k in enumerate(comp):
        d.setdefault(int(k), set()).add(s)
    return {frozenset(x) for x in d.values()}


def check(comp, proper, cnt, want, N, mon):
    mon.ev("mec_results")
    comp = [int(x) for x in comp]
    mon.check(len(comp) == N, "mec-length", "%d", len(comp))
    mon.check(set(comp) == set(range(cnt)) and len(proper) == cnt, "mec-indices", "indices %s, count %s, %d flags", sorted(set(comp)), cnt, len(proper))
    exp = {want.get(s, frozenset([s])) for s in range(N)}
    mon.check(part(comp) == exp, "mec-partition", "%s, expected %s", comp[:200], [sorted(x)[:50] for x in exp][:50])
    for s in range(N):
        mon.check(bool(proper[comp[s]]) == (s in want), "mec-proper", "state %d (in a proper MEC: %s): proper=%s", s, s in want, proper[comp[s]])
