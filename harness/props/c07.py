"""C07: admission of reachability forms."""
import copy
import numpy as np
import gen as G, oracle, views
from core import Violation

CASES = {"quick": 5000, "thorough": 100000}
RULE = ("reachability forms of random models with permuted states/rows, 0-3 structural mutations each (labels moved, doubled, dropped; goal/fail swapped, given actions, "
        "made non-absorbing; rows or states reordered; unreachable or dead interior parts added; harmless changes); an independent predicate decides whether the "
        "result is a form; non-trivial: distinct (mutations, structure, verdict)")
REQUIRED = {"accepted": 1200, "refused": 1200, "matrices_compared": 1200}
MUT = ["move-goal-label", "move-fail-label", "extra-init", "extra-goal", "extra-fail", "drop-init", "drop-goal", "drop-fail", "same-labels", "swap-goal-fail", "goal-leaks", "fail-leaks",
       "goal-second-action", "fail-second-action", "rows-swap", "goal-row-early", "unreachable-state", "dead-state", "dead-loop", "dead-to-fail", "unreachable-pair", "ok-fail-unreachable", "ok-selfloop", "ok-ec",
       "ok-relabel", "goal-to-fail", "fail-to-goal", "fail-row-early", "init-dead-branch", "ok-nolabels"]


def gen(rng, i, tier):
    spec = G.rf(rng, nmax=rng.choice([2, 4, 7, 7, 15, 40]), labels=rng.random() < 0.5, tiny=0.15)
    k = rng.choice([0, 1, 1, 1, 1, 2, 3])
    muts = [rng.choice(MUT) for _ in range(k)]
    names = ["init", "rf_target", "rf_fail"]
    for m in muts:
        try:
            spec, names = mutate(spec, names, m, rng)
        except (IndexError, ValueError, KeyError, StopIteration):
            pass
    return {"spec": spec, "muts": muts, "names": names, "ptype": rng.choice(G.PTYPES), "via": rng.choice(["ctor", "ctor", "static"])}


def addstate(spec, at=None):
    """Inserts a fresh state (numbered N-2, before goal and fail)."""
    n = spec["N"] - 2
    mv = lambda s: s + 1 if s >= n else s
    spec["rows"] = [[mv(s), a, [[mv(d), p] for d, p in ds]] for s, a, ds in spec["rows"]]
    spec["sl"] = {l: [mv(s) for s in ss] for l, ss in spec["sl"].items()}
    spec["al"] = {l: [[mv(s), a] for s, a in ss] for l, ss in spec["al"].items()}
    spec["N"] += 1
    return n


def mutate(spec, names, m, rng):
    spec = copy.deepcopy(spec); names = list(names)
    N = spec["N"]; n = N - 2; g, f = n, n + 1
    il, tl, fl = names
    sl, rows = spec["sl"], spec["rows"]
    mdp = spec["kind"] == "mdp"
    grow = next(r for r in rows if r[0] == g); frow = next(r for r in rows if r[0] == f)
    inner = [r for r in rows if r[0] < n]
    if m == "move-goal-label":
        sl[tl] = [rng.randrange(n)]
    elif m == "move-fail-label":
        sl[fl] = [rng.randrange(n)]
    elif m == "extra-init":
        sl[il] = sorted(set(sl[il]) | {rng.randrange(N)})
    elif m == "extra-goal":
        sl[tl] = sorted(set(sl[tl]) | {rng.randrange(N)})
    elif m == "extra-fail":
        sl[fl] = sorted(set(sl[fl]) | {rng.randrange(N)})
    elif m == "drop-init":
        sl.pop(il)
    elif m == "drop-goal":
        sl.pop(tl)
    elif m == "drop-fail":
        sl.pop(fl)
    elif m == "same-labels":
        i, j = rng.sample(range(3), 2)
        names[i] = names[j]
    elif m == "swap-goal-fail":
        sl[tl], sl[fl] = sl[fl], sl[tl]
    elif m == "goal-leaks":
        grow[2] = [[g, 0.5], [rng.randrange(n), 0.5]]
    elif m == "fail-leaks":
        frow[2] = [[f, 0.5], [rng.randrange(n), 0.5]]
    elif m == "goal-to-fail":
        grow[2] = [[f, 1.0]]
    elif m == "fail-to-goal":
        frow[2] = [[g, 1.0]]
    elif m == "goal-second-action" and mdp:
        rows.insert(rng.randrange(len(rows) - 1), [g, 1 + max(r[1] for r in rows if r[0] == g), [[rng.choice([g, g, f, 0]), 1.0]]])
    elif m == "fail-second-action" and mdp:
        rows.insert(rng.randrange(len(rows) - 1), [f, 1 + max(r[1] for r in rows if r[0] == f), [[rng.choice([f, f, g, 0]), 1.0]]])
    elif m == "rows-swap":
        i, j = rows.index(grow), rows.index(frow)
        rows[i], rows[j] = rows[j], rows[i]
    elif m == "goal-row-early":
        rows.remove(grow); rows.insert(rng.randrange(len(rows)), grow)
    elif m == "fail-row-early":
        rows.remove(frow); rows.insert(rng.randrange(len(rows)), frow)
        if rng.random() < 0.7:
            x = rng.choice(inner)
            rows.remove(x); rows.append(x); rows.remove(grow); rows.insert(len(rows) - 1, grow)
    elif m in ("unreachable-state", "dead-state", "dead-loop", "dead-to-fail", "unreachable-pair"):
        x = addstate(spec)
        rows = spec["rows"]; n += 1; g, f = n, n + 1
        inner = [r for r in rows if r[0] < n]
        if m == "unreachable-state":
            new = [[x, 0, [[rng.choice([g, 0]), 1.0]]]]
        elif m == "unreachable-pair":
            y = addstate(spec); rows = spec["rows"]; n += 1; g, f = n, n + 1
            new = [[x, 0, [[y, 0.5], [g, 0.5]]], [y, 0, [[x, 1.0]]]]
        else:
            r = rng.choice(inner)
            d = rng.choice(r[2]); old = d[1]
            d[1] = old / 2
            r[2].append([x, old / 2])
            new = {"dead-state": [[x, 0, [[x, 1.0]]]], "dead-to-fail": [[x, 0, [[f, 1.0]]]], "dead-loop": [[x, 0, [[x, 0.5], [f, 0.5]]]]}[m]
        for k, r in enumerate(new):
            rows.insert(len(rows) - 2, r)
    elif m == "ok-fail-unreachable":
        for r in inner:
            lost = [d for d in r[2] if d[0] == f]
            if lost:
                rest = [d for d in r[2] if d[0] != f and d[0] != g]
                r[2] = rest + [[g, 1.0 - sum(p for _, p in rest)]]
    elif m == "ok-selfloop":
        r = rng.choice(inner); d = rng.choice(r[2])
        if d[0] != r[0] and r[0] not in [x for x, _ in r[2]]:
            old = d[1]; d[1] = old / 2; r[2].append([r[0], old - old / 2])
    elif m == "ok-ec" and mdp:
        s = rng.randrange(n); a = 1 + max(r[1] for r in rows if r[0] == s)
        rows.insert(rng.randrange(len(rows) - 1), [s, a, [[rng.choice([s, rng.randrange(n)]), 1.0]]])
    elif m == "ok-relabel":
        for k, l in zip(range(3), ["start", "goal", "sink"]):
            if names[k] in sl:
                sl[l] = sl.pop(names[k])
            names[k] = l
    elif m == "ok-nolabels":
        for l in list(sl):
            if l not in names:
                sl.pop(l)
    elif m == "init-dead-branch" and mdp:
        s = sl[il][0]; a = 1 + max(r[1] for r in rows if r[0] == s)
        rows.insert(0, [s, a, [[f, 1.0]]])
    return spec, names


def is_form(spec, names):
    il, tl, fl = names; sl = spec["sl"]; N = spec["N"]; C = len(spec["rows"])
    if len({il, tl, fl}) != 3:
        return "labels not distinct"
    for l in names:
        if len(set(sl.get(l, ()))) != 1:
            return "%d states labelled %s" % (len(set(sl.get(l, ()))), l)
    i, g, f = sl[il][0], sl[tl][0], sl[fl][0]
    if (g, f) != (N - 2, N - 1):
        return "goal/fail at states %d/%d" % (g, f)
    for s, want, nm in ((g, C - 2, "goal"), (f, C - 1, "fail")):
        rs = [k for k, r in enumerate(spec["rows"]) if r[0] == s]
        if len(rs) != 1:
            return "%s has %d actions" % (nm, len(rs))
        if {d for d, p in spec["rows"][rs[0]][2] if p > 0} != {s}:
            return "%s not absorbing" % nm
        if rs[0] != want:
            return "row of %s at %d" % (nm, rs[0])
    if set(range(N)) - {f} - oracle.reach(oracle.succs(spec), [i]):
        return "unreachable states"
    if set(range(N)) - {f} - oracle.reach(oracle.preds(spec), [g]):
        return "states that cannot reach goal"
    return None


def run(c, mon):
    from switss.model import ReachabilityForm
    spec, names = c["spec"], c["names"]
    m = G.build(spec, c["ptype"])
    why = is_form(spec, names)
    key = (tuple(sorted(c["muts"])), why and why.split()[0], G.fingerprint(spec))
    before = views.of_model(m)
    try:
        if c["via"] == "static":
            ReachabilityForm.assert_consistency(m, *names)
        rf = ReachabilityForm(m, *names)
    except Exception as e:
        rf = None; err = e
    x = views.diff(views.of_model(m), before)
    mon.check(x is None, "system-changed", "%s", x)
    if rf is None:
        mon.check(why is not None, "refused-valid", "a valid form was refused (mutations %s): %s: %s", c["muts"], type(err).__name__, str(err)[:200])
        mon.ev("refused"); mon.ev("refused: " + " ".join(w for w in why.split() if not w.strip("/").replace("/", "").isdigit())[:40]); mon.nontrivial(*key)
        return
    mon.check(why is None, "accepted-invalid", "accepted although: %s (mutations %s, spec %s)", why, c["muts"], spec)
    mon.ev("accepted"); mon.nontrivial(*key)
    N = spec["N"]; C = len(spec["rows"]); n = N - 2
    D = oracle.M(spec)
    P = D.P[:C - 2, :n]
    I = np.zeros((C - 2, n))
    for i in range(C - 2):
        I[i, spec["rows"][i][0]] = 1
    mon.ev("matrices_compared")
    mon.check(np.array_equal(np.asarray(rf.P.todense()), P), "P", "%s", rf.P)
    mon.check(rf.A.shape == (C - 2, n) and np.abs(np.asarray(rf.A.todense()) - (I - P)).max(initial=0) < 1e-15, "A", "%s, expected %s", rf.A.todense(), I - P)
    mon.check(np.array_equal(np.asarray(rf.to_target).ravel(), D.P[:C - 2, n]), "to_target", "%s", rf.to_target)
    mon.check({k: v for k, v in rf.index_by_state_action.items()} == {(s, a): i for i, (s, a, _) in enumerate(spec["rows"][:C - 2])}, "index", "%s", rf.index_by_state_action)
    mon.check(rf.initial == spec["sl"][names[0]][0], "initial", "%s", rf.initial)
    mon.check((rf.target_state_idx, rf.fail_state_idx, rf.target_sap_idx, rf.fail_sap_idx) == (N - 2, N - 1, C - 2, C - 1), "special-indices", "%s", (rf.target_state_idx, rf.fail_state_idx))
    mon.check((rf.initial_label, rf.target_label, rf.fail_label) == tuple(names), "labels", "%s", rf.target_label)
    mon.check(rf.system is m, "system", "another system object")
