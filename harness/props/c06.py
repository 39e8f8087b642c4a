"""C06: reduction to reachability form."""
import contextlib, io
import numpy as np
import gen as G, oracle, views
from core import Violation

CASES = {"quick": 4000, "thorough": 40000}
RULE = ("random DTMC/MDP models with several targets, dead ends, targets behind targets, initial target, unreachable parts, rewards and action labels, gaps in action "
        "numbers, up to 40 states; 1 in 8 with a failing precondition; non-trivial: distinct structures where states are removed or mass is lost")
REQUIRED = {"reductions": 1200, "removed_states": 600, "lossy_rows": 300, "lossless_rows": 2000, "prob_vectors": 1500, "refused": 120, "debug": 100}
ASSUMPTIONS = ["values of the reduced and the original system are compared up to 1e-8"]
BAD = ["no-init", "two-inits", "no-target", "target-label-taken", "fail-label-taken", "unreachable-target", "not-a-model"]


def gen(rng, i, tier):
    if i % 8 == 3:
        spec = G.reachable_model(rng, nmax=8)
        return {"bad": rng.choice(BAD), "spec": spec, "ptype": "dok"}
    n = rng.choice([4, 8, 8, 12, 40])
    spec = G.reachable_model(rng, nmax=n, rewards=rng.random() < 0.5, tiny=0.1)
    if rng.random() < 0.3:
        k = rng.randint(1, 4)
        spec["sl"]["target"] = sorted(set(spec["sl"]["target"]) | {rng.randrange(spec["N"]) for _ in range(k)})
    if rng.random() < 0.05:
        spec["sl"]["target"] = sorted(set(spec["sl"]["target"]) | set(spec["sl"]["init"]))
    return {"bad": None, "spec": spec, "ptype": rng.choice(G.PTYPES), "names": rng.choice([None, None, ["goal*", "dead end"]]), "il": rng.choice(["init", "init", "start"]), "tl": rng.choice(["target", "tgt"]), "debug": rng.random() < 0.1}


def run(c, mon):
    from switss.model import ReachabilityForm
    spec = c["spec"]
    if c["bad"]:
        return refusal(c, mon)
    spec = dict(spec); sl = dict(spec["sl"]); spec["sl"] = sl
    if c["il"] != "init":
        sl[c["il"]] = sl.pop("init")
    if c["tl"] != "target":
        sl[c["tl"]] = sl.pop("target")
    m = G.build(spec, c["ptype"])
    before = views.of_model(m)
    x = views.diff(before, views.of_spec(spec))
    mon.check(x is None, "model", "the built model differs from its specification: %s", x)
    goal, fail = c["names"] or ["rf_target", "rf_fail"]
    if c.get("debug"):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            rf, smap, samap = ReachabilityForm.reduce(m, c["il"], c["tl"], goal, fail, debug=True)
        mon.ev("debug")
    elif c["names"]:
        rf, smap, samap = ReachabilityForm.reduce(m, c["il"], c["tl"], goal, fail)
    else:
        rf, smap, samap = ReachabilityForm.reduce(m, c["il"], c["tl"])
    mon.ev("reductions")
    x = views.diff(views.of_model(m), before)
    mon.check(x is None, "input-changed", "reduce changed its input: %s", x)
    check(spec, c["il"], c["tl"], rf, smap, samap, goal, fail, mon)


def check(spec, il, tl, rf, smap, samap, goal, fail, mon):
    """rf, smap, samap: result of reducing the model described by spec."""
    smap = {int(k): int(v) for k, v in smap.items()}
    samap = {tuple(map(int, k)): tuple(map(int, v)) for k, v in samap.items()}
    keep, ref = oracle.reduce(spec, il, tl)
    n = len(keep)
    if n < spec["N"]:
        mon.ev("removed_states")
        mon.nontrivial(G.fingerprint(spec))
    mon.check(set(smap) == set(keep), "kept-states", "kept %s, expected %s", sorted(smap), keep)
    mon.check(sorted(smap.values()) == list(range(n)), "state-map", "%s", smap)
    sas = {(r[0], r[1]) for r in spec["rows"] if r[0] in smap}
    mon.check(set(samap) == sas, "sap-map-domain", "%s, expected %s", sorted(samap), sorted(sas))
    mon.check(len(set(samap.values())) == len(samap) and all(v[0] == smap[k[0]] for k, v in samap.items()), "sap-map", "%s", samap)
    sysm = rf.system
    got = views.of_model(sysm)
    ix = {s: k for k, s in enumerate(keep)}                       # original -> oracle numbering
    to = {ix[s]: smap[s] for s in keep}; to[n] = n; to[n + 1] = n + 1  # oracle -> real numbering
    am = {}
    for (s, a), (s2, a2) in samap.items():
        am[(ix[s], a)] = (s2, a2)
    ga = [sa for sa in got["tr"] if sa[0] == n]; fa = [sa for sa in got["tr"] if sa[0] == n + 1]
    mon.check(len(ga) == 1 and len(fa) == 1, "goal-fail-actions", "%s %s", ga, fa)
    am[(n, 0)] = ga[0]; am[(n + 1, 0)] = fa[0]
    want = {"N": n + 2, "C": len(ref["rows"]), "tr": {}, "sl": {}, "al": {}, "rew": None}
    for s, a, ds in ref["rows"]:
        want["tr"][am[(s, a)]] = {to[d]: p for d, p in ds}
    for l, ss in ref["sl"].items():
        l2 = {"rf_target": goal, "rf_fail": fail}.get(l, l)
        want["sl"][l2] = {to[s] for s in ss}
    for l, ss in ref["al"].items():
        want["al"][l] = {am[tuple(x)] for x in ss}
    if ref["rew"] is not None:
        want["rew"] = {am[(r[0], r[1])]: float(w) for r, w in zip(ref["rows"], ref["rew"])}
    # the fail edge is compared up to rounding, everything else exactly
    mon.check(set(got["tr"]) == set(want["tr"]), "rows", "%s, expected %s", sorted(got["tr"]), sorted(want["tr"]))
    for sa, t in want["tr"].items():
        g = got["tr"][sa]
        if n + 1 in t and sa[0] != n + 1:
            mon.ev("lossy_rows")
        else:
            mon.ev("lossless_rows")
        mon.check((n + 1 in g) == (n + 1 in t), "fail-edge", "state-action %s: probability to fail %r, expected %r", sa, g.get(n + 1, 0.0), t.get(n + 1, 0.0))
        mon.check(set(g) == set(t), "transitions", "successors of %s: %s, expected %s", sa, g, t)
        for d in t:
            tol = 1e-9 if d == n + 1 else 0.0
            mon.check(abs(g[d] - t[d]) <= tol, "probability", "P(%s,%d) = %r, expected %r", sa, d, g[d], t[d])
    for part in (("N", "C"), ("sl",), ("al",), ("rew",)):
        x = views.diff(got, want, part)
        mon.check(x is None, "carry-" + part[0], "%s", x)
    x = views.both_ways(sysm)
    mon.check(x is None, "labels", "%s", x)
    mon.check(rf.initial == smap[spec["sl"][il][0]] and (rf.target_label, rf.fail_label, rf.initial_label) == (goal, fail, il), "rf-attributes", "initial %s", rf.initial)
    mon.check((rf.target_state_idx, rf.fail_state_idx) == (n, n + 1), "rf-attributes", "%s", (rf.target_state_idx,))
    inv = {i: sa for sa, i in sysm.index_by_state_action.items()}
    mon.check(inv[sysm.C - 2][0] == n and inv[sysm.C - 1][0] == n + 1, "rf-rows", "%s %s", inv[sysm.C - 2], inv[sysm.C - 1])
    if spec["N"] <= 14:
        C = sysm.C
        # the order of the states decides what is lost to rounding, so that only well-conditioned models are compared
        if min(p for r in spec["rows"] for _, p in r[2]) < 1e-6:
            mon.ev("ill_conditioned")
            return
        back = {"kind": spec["kind"], "N": n + 2, "rows": [[inv[i][0], inv[i][1], sorted(got["tr"][tuple(map(int, inv[i]))].items())] for i in range(C)]}
        if not oracle.conditioning(back) < 1e5:
            mon.ev("ill_conditioned")
            return
        for mode in ("min", "max"):
            a = oracle.prob(oracle.M(spec), spec["sl"][tl], mode)
            b = oracle.prob(oracle.M(back), [n], mode)
            mon.ev("prob_vectors")
            for s in keep:
                mon.check(abs(a[s] - b[smap[s]]) < 1e-8, "value-" + mode, "state %d: %r originally, %r reduced", s, a[s], b[smap[s]])


def refusal(c, mon):
    from switss.model import ReachabilityForm
    spec = c["spec"]; b = c["bad"]; sl = {l: list(v) for l, v in spec["sl"].items()}
    spec = dict(spec); spec["sl"] = sl
    if b == "no-init":
        sl.pop("init")
    elif b == "two-inits":
        if spec["N"] < 2:
            return
        sl["init"] = sorted({sl["init"][0], (sl["init"][0] + 1) % spec["N"]})
    elif b == "no-target":
        sl.pop("target")
    elif b == "target-label-taken":
        sl["rf_target"] = [0]
    elif b == "fail-label-taken":
        sl["rf_fail"] = [0]
    elif b == "unreachable-target":
        keepers = [t for t in range(spec["N"]) if sl["init"][0] not in oracle.reduce(dict(spec, sl=dict(sl, target=[t])))[0]]
        if not keepers:
            mon.ev("refusal_not_applicable"); return
        sl["target"] = keepers[:1]
    m = G.build(spec, c["ptype"])
    before = views.of_model(m)
    try:
        r = ReachabilityForm.reduce(m if b != "not-a-model" else m.P, "init", "target")
    except Exception:
        mon.ev("refused"); mon.ev("refused:" + b)
        x = views.diff(views.of_model(m), before)
        mon.check(x is None, "input-changed", "a refused reduction changed its input: %s", x)
        return
    raise Violation("reduced-anyway:" + b, "reduce accepted a model that fails the precondition %r and returned %s" % (b, r[0]))
