"""C04: memory safety of the compiled graph module, under AddressSanitizer + UBSan with poisoned heap and block counting."""
import collections, ctypes, gc, glob, os, resource, sys
import numpy as np
from scipy import sparse
import gen as G, oracle, build, core
from core import Violation

FLAVOUR = "asan"
MEM = 0
CASE_CPU = 240.0
CASE_WALL = 600.0
CASES = {"quick": 900, "thorough": 15000}
RULE = ("random models/graphs; histories of 6-25 native calls (masks, MECs, SCCs, edge iterators read fully or partly, str, construction with indices outside "
        "the model, out-of-range queries, garbage collection in between, reachability forms, treap self-tests, deep chains and cycles) under ASan+UBSan with "
        "poisoned memory; live native blocks compared around every call; non-trivial: distinct (graph, multiset of calls)")
REQUIRED = {"calls": 8000, "refused_index": 1500, "balance_checks": 8000, "destroyed_balance": 700, "deep": 3, "result_checks": 4000, "failed_constructions": 60}
ASSUMPTIONS = ["the sanitizers see the extension modules and everything that goes through malloc, not CPython's own small-object allocator",
               "block counting covers malloc/calloc/realloc/free used by the extension sources"]
_libs = []


def setup(tier):
    import switss.utils.graph, switss.utils.stack, switss.utils.treaps
    for m in (switss.utils.graph, switss.utils.stack, switss.utils.treaps):
        _libs.append(ctypes.CDLL(m.__file__))
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))


def live():
    gc.collect(0)
    return sum(ctypes.c_long.in_dll(l, "sw_live").value for l in _libs)


CALLS = ["mask", "mask", "mask", "mask-bad", "mec", "mec", "scc", "succ", "succ-part", "succ-bad", "pred", "pred-bad", "str", "gc", "ctor-bad", "repeat", "treap", "hold"]


def gen(rng, i, tier):
    if i % 180 == 5:
        if rng.random() < 0.2:
            return {"deep": "ladder", "n": rng.choice([500, 1000])}
        return {"deep": rng.choice(["chain", "cycle", "ladder"]), "n": rng.choice([20000, 40000]) if tier == "quick" else rng.choice([20000, 60000, 100000])}
    r = rng.random()
    if r < 0.1:
        return {"rf": True, "spec": G.rf(rng, nmax=7, kind="mdp"), "hist": [rng.choice(CALLS[:-1]) for _ in range(6)], "seed": rng.randrange(1 << 30)}
    n = rng.choice([1, 1, 2, 3]) if r < 0.25 else rng.randint(2, 40)
    spec = G.model(rng, nmin=n, nmax=n, targets=False, labels=False)
    if spec["kind"] == "mdp" and n > 2 and rng.random() < 0.25:
        gone = rng.sample(range(n), rng.randint(1, n // 2))
        rows = [x for x in spec["rows"] if x[0] not in gone]
        if rows:
            spec["rows"] = rows
    return {"rf": False, "spec": spec, "hist": [rng.choice(CALLS) for _ in range(rng.randint(6, 25))], "seed": rng.randrange(1 << 30),
            "direct": rng.random() < 0.3}


def refused(fn, mon, what):
    try:
        r = fn()
    except Exception:
        mon.ev("refused_index")
        return
    raise Violation("index-accepted:" + what.split()[0], "%s: accepted, returned %s" % (what, str(r)[:200]))


def deep(c, mon):
    from switss.model import MDP
    n = c["n"]
    P = sparse.dok_matrix((n, n))
    if c["deep"] == "chain":
        for s in range(n):
            P[s, min(s + 1, n - 1)] = 1.0
    elif c["deep"] == "cycle":
        for s in range(n):
            P[s, (s + 1) % n] = 1.0
    else:
        for s in range(n):
            P[s, min(s + 1, n - 1)] = 0.5 if s + 1 < n else 1.0
            if s + 1 < n:
                P[s, max(0, s - 1)] += 0.5
    base = live()
    m = MDP(P, {(s, 0): s for s in range(n)}, label_to_actions={}, label_to_states={})
    k0 = live()
    for mode, st in (("forward", 0), ("backward", n - 1)):
        mask = m.reachable_mask({st}, mode)
        mon.check(all(mask[s] for s in range(n)), "deep-mask", "%d states not reached", int(n - sum(map(bool, mask))))
    _, cnt = m.strongly_connected_components()
    mon.check(cnt == {"chain": n, "cycle": 1, "ladder": 2}[c["deep"]], "deep-scc", "%s components of a %s of %d states", cnt, c["deep"], n)
    if c["deep"] == "cycle" or c["deep"] == "ladder" and n <= 2000:
        # (the decomposition peels one state of the ladder per round: quadratic, so only short ladders)
        comp, prop, cnt = m.maximal_end_components()
        mon.check(int(sum(prop)) == 1, "deep-mec", "%s proper MECs", sum(prop))
    mon.check(live() == k0, "leak-deep", "native blocks %d -> %d", k0, live())
    del m
    gc.collect()
    mon.check(live() == base, "leak-destroy", "native blocks %d before construction, %d after destruction", base, live())
    mon.ev("deep"); mon.nontrivial("deep", c["deep"], n)


def run(c, mon):
    if "deep" in c:
        return deep(c, mon)
    import random
    rng = random.Random(c["seed"])
    spec = c["spec"]; N = spec["N"]
    gc.collect()
    base = live()
    mon.nontrivial(G.fingerprint(spec), tuple(sorted(collections.Counter(c["hist"]).items())))
    history(c, spec, N, rng, mon)
    gc.collect()
    mon.ev("destroyed_balance")
    mon.check(live() == base, "leak-destroy", "native blocks: %d before construction, %d after destruction (history %s)", base, live(), c["hist"])


def history(c, spec, N, rng, mon):
    from switss.utils import Graph
    from bidict import bidict
    if c.get("direct"):
        isa = bidict({(s, a): i for i, (s, a, _) in enumerate(spec["rows"])})
        g = Graph(G.matrix(spec, "dok"), isa)
        o = type("O", (), dict(reachable_mask=lambda self, f, d, b=set(): g.reachable(f, d, b),
                               maximal_end_components=lambda self: g.maximal_end_components(),
                               strongly_connected_components=lambda self: g.strongly_connected_components(),
                               successors=lambda self, s: g.successors(s), predecessors=lambda self, s: g.predecessors(s), g=g))()
    elif c["rf"]:
        f = G.build_rf(spec)
        o = f.system
    else:
        o = G.build(spec)
    su, pr = oracle.succs(spec), oracle.preds(spec)
    want_mec = {s: frozenset(M) for M in oracle.mecs(spec) for s in M}
    held = []
    for op in c["hist"]:
        k0 = live()
        mon.ev("calls")
        call(op, o, spec, N, rng, mon, su, pr, want_mec, held)
        k1 = live()
        if op != "ctor-bad":
            mon.ev("balance_checks")
            mon.check(k1 == k0, "leak:" + op, "native blocks %d before, %d after %s on a model with %d states", k0, k1, op, N)
        else:
            gc.collect()
            mon.ev("balance_checks")
            mon.check(live() == k0, "leak:" + op, "native blocks %d before, %d after a failed construction", k0, live())
    for it, s, exp in held:
        # iterators opened long ago still deliver the right edges
        mon.check(sorted(t[0] for t in it) == sorted(exp), "held-iterator", "iterator over the edges of %d", s)


def call(op, o, spec, N, rng, mon, su, pr, want_mec, held):
    bad = rng.choice([-1, N, N + 1, -N, N + 7, 2 * N + 100, 10 ** 6, -10 ** 6, 2 ** 31 - 1, 2 ** 40])
    s = rng.randrange(N)
    outdeg = [x[0] for r in spec["rows"] if r[0] == s for x in r[2]]
    if op == "mask":
        st = [rng.randrange(N) for _ in range(rng.randint(1, 3))]
        bl = {rng.randrange(N) for _ in range(rng.randint(0, 3))}
        d = rng.choice(["forward", "backward"])
        got = o.reachable_mask(st, d, bl)
        want = oracle.reach(su if d == "forward" else pr, st, bl)
        mon.ev("result_checks")
        mon.check({x for x in range(N) if got[x]} == want, "mask-result", "%s from %s blocked %s: %s, expected %s", d, st, bl, list(got), sorted(want))
    elif op == "mask-bad":
        if bad == -N and N == 1:
            bad = -1
        d = rng.choice(["forward", "backward"])
        w = rng.choice(["start", "start2", "block"])
        if w == "start":
            refused(lambda: o.reachable_mask({bad}, d), mon, "mask start %d of %d" % (bad, N))
        elif w == "start2":
            refused(lambda: o.reachable_mask([s, bad], d), mon, "mask start %d of %d" % (bad, N))
        else:
            refused(lambda: o.reachable_mask({s}, d, {bad}), mon, "mask block %d of %d" % (bad, N))
    elif op == "mec":
        for _ in range(rng.choice([1, 1, 3])):
            comp, proper, cnt = o.maximal_end_components()
        mon.ev("result_checks")
        mon.check(all(bool(proper[comp[x]]) == (x in want_mec) for x in range(N)), "mec-result", "%s %s", list(comp), list(proper))
        mon.check(len(set(int(k) for k in comp)) == cnt == len({want_mec.get(x, frozenset([x])) for x in range(N)}), "mec-result", "%s MECs", cnt)
    elif op == "scc":
        comp, cnt = o.strongly_connected_components()
        want = oracle.sccs(set(range(N)), dict(enumerate(su)))
        mon.ev("result_checks")
        mon.check(cnt == len(want) and all(0 <= k < cnt for k in comp), "scc-result", "%s of %s", cnt, len(want))
    elif op == "succ":
        mon.ev("result_checks")
        mon.check(sorted(t[0] for t in o.successors(s)) == sorted(outdeg), "succ-result", "%d", s)
    elif op == "succ-part":
        for it in (o.successors(s), o.predecessors(s)):
            next(iter(it), None)
    elif op in ("succ-bad", "pred-bad"):
        if bad == -N and N == 1:
            bad = -1
        f = o.successors if op == "succ-bad" else o.predecessors
        refused(lambda: list(f(bad)), mon, "%s %d of %d" % (op, bad, N))
    elif op == "pred":
        mon.ev("result_checks")
        mon.check(set(t[0] for t in o.predecessors(s)) == pr[s], "pred-result", "%d", s)
    elif op == "str":
        g = getattr(o, "g", None) or getattr(o, "graph", None)
        if g is not None:
            str(g)
    elif op == "gc":
        gc.collect()
    elif op == "hold":
        held.append((o.successors(s), s, outdeg))
    elif op == "treap":
        from switss.utils import treaps
        if hasattr(treaps, "treap_test_specificseed"):
            treaps.treap_test_specificseed(rng.randrange(1 << 31))
    elif op == "repeat":
        for _ in range(20):
            o.maximal_end_components(); o.reachable_mask({s}, "forward"); o.strongly_connected_components()
            try:
                o.reachable_mask({s}, "forward", {N})
            except Exception:
                pass
    elif op == "ctor-bad":
        from switss.model import MDP
        rows = list(spec["rows"])
        k = rng.randrange(len(rows))
        if bad == -N and N == 1:
            bad = -1
        isa = {((bad if i == k else r[0]), (r[1] if i != k else 1000 + r[1])): i for i, r in enumerate(rows)}
        mon.ev("failed_constructions")

        def build_and_use():
            m = MDP(G.matrix(spec, "dok"), isa, label_to_actions={}, label_to_states={})
            return [list(m.successors(x)) for x in range(N)]
        refused(build_and_use, mon, "ctor state %d of %d" % (bad, N))


def post(agg, tier, seed):
    reports = sorted(glob.glob(os.path.join(core.VERIF, "replays", "san-report.*")))
    txt = ""
    for r in reports[:1]:
        lines = [l for l in open(r, errors="replace").read().splitlines() if l.strip()]
        txt = "\n".join(lines[:25])
    agg["events"]["sanitizer_reports"] += len(reports)
    for v in agg["viol"]:
        if v["kind"] == "crash" and txt:
            v["msg"] += "\nfirst sanitizer report:\n" + txt
