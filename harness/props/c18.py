"""C18: expected rewards and reward reachability forms."""
import numpy as np
import gen as G, oracle, views, c06
from core import Violation

CASES = {"quick": 4000, "thorough": 60000}
RULE = ("reward forms (DTMC/MDP, 1-8, sometimes up to 25 interior states, zero, integral and fractional rewards) built directly (some with a state that is visited about a thousand times), by reducing a model and from a system of the required shape, both solvers; "
        "admission: such systems with one condition broken (rewards missing, two or no initial states, same label twice, goal not last, extra goal action, unreachable part, end component, dead end, lossy) and random "
        "systems, against an independent verdict; non-trivial: distinct structures with a minimal value below the maximal one")
REQUIRED = {"direct": 600, "reduced": 300, "fromsystem": 150, "refused_reduce": 250, "refused_fromsystem": 300, "rew_vectors": 3000, "frequencies": 1000, "backups": 800, "systems": 2000, "min<max": 400,
            "solver:cbc": 1500, "solver:glpk": 1500, "zero_rewards": 50, "large_rewards": 30}
ASSUMPTIONS = ["solver accuracy: values are compared up to 2e-6 (cbc) or 1e-5 (glpk) relative to the rewards, times the expected number of steps; forms needing more than 1000 steps (those with a slow self-loop: 20000) are skipped"]
BREAK = ["none", "none", "none", "no-rewards", "two-init", "no-init", "same-label", "goal-not-last", "goal-row-not-last", "goal-action", "goal-leaves", "unreachable", "ec", "dead-end", "lossy", "fail-label", "two-goals"]


def drop_fail(spec):
    """A system with one goal (last state and row) and no fail state."""
    sl = {l: [s for s in ss if s < spec["N"] - 1] for l, ss in spec["sl"].items()}
    sl["target"] = sl.pop("rf_target"); sl.pop("rf_fail", None)
    return dict(spec, N=spec["N"] - 1, rows=[list(r) for r in spec["rows"][:-1]], sl={l: ss for l, ss in sl.items() if ss}, rew=list(spec["rew"][:-1]))


def damage(rng, s, how):
    """Breaks one condition of a system; keeps it a model."""
    n = s["N"] - 1; goal = n
    s = dict(s, rows=[[r[0], r[1], [list(x) for x in r[2]]] for r in s["rows"]], sl={l: list(v) for l, v in s["sl"].items()}, rew=list(s["rew"]))
    free = [r for r in s["rows"] if r[0] < n]
    init = s["sl"]["init"][0]

    def swap(a, b):
        m = {a: b, b: a}
        f = lambda x: m.get(x, x)
        s["rows"] = [[f(r[0]), r[1], [[f(d), p] for d, p in r[2]]] for r in s["rows"]]
        s["sl"] = {l: sorted(f(x) for x in v) for l, v in s["sl"].items()}
        s["al"] = {l: [[f(x), a] for x, a in v] for l, v in s.get("al", {}).items()}

    def add_row(state, dests, rew=0.0):
        acts = [r[1] for r in s["rows"] if r[0] == state]
        a = max(acts, default=-1) + 1
        at = len(s["rows"]) - 1
        s["rows"].insert(at, [state, a, dests]); s["rew"].insert(at, rew)

    if how == "no-rewards":
        s["rew"] = None
    elif how == "two-init":
        s["sl"]["init"] = sorted({init, (init + 1) % n}) if n > 1 else [init, goal]
    elif how == "no-init":
        del s["sl"]["init"]
    elif how == "same-label":
        s["same"] = True
    elif how == "goal-not-last":
        swap(goal, rng.randrange(n))
    elif how == "goal-row-not-last":
        i = rng.randrange(len(s["rows"]) - 1)
        s["rows"][i], s["rows"][-1] = s["rows"][-1], s["rows"][i]
        s["rew"][i], s["rew"][-1] = s["rew"][-1], s["rew"][i]
    elif how == "goal-action":
        if s["kind"] == "dtmc":
            return None
        add_row(goal, [[rng.randrange(s["N"]), 1.0]])
    elif how == "goal-leaves":
        s["rows"][-1] = [goal, s["rows"][-1][1], [[goal, 0.5], [rng.randrange(n), 0.5]]]
    elif how in ("unreachable", "dead-end"):
        # a new state before the goal
        x = s["N"]; s["N"] += 1
        act = [0, 1][rng.random() < 0.3] if s["kind"] == "mdp" else 0
        if how == "unreachable":
            s["rows"].insert(n, [x, act, [[goal, 1.0]]]) if s["kind"] == "dtmc" else s["rows"].insert(len(s["rows"]) - 1, [x, act, [[goal, 1.0]]])
        else:
            k = rng.randrange(len(free))
            r = free[k]
            d, p = r[2][-1]
            r[2][-1] = [d, p / 2]; r[2].append([x, p / 2])
            s["rows"].insert(n, [x, act, [[x, 1.0]]]) if s["kind"] == "dtmc" else s["rows"].insert(len(s["rows"]) - 1, [x, act, [[x, 1.0]]])
        s["rew"].insert(len(s["rew"]) - 1, 1.0)
        swap(x, goal)
        if s["kind"] == "dtmc":
            s["rows"].sort(key=lambda r: r[0])
    elif how == "ec":
        if s["kind"] == "dtmc":
            return None
        x = rng.randrange(n)
        ds = [[x, 1.0]]
        if n > 1 and rng.random() < 0.5:
            y = rng.choice([y for y in range(n) if y != x])
            ds = [[x, 0.5], [y, 0.5]]
            add_row(y, [[x, 1.0]])
        add_row(x, ds)
    elif how == "fail-label":
        s["sl"]["rf_fail"] = [rng.randrange(n)]
    elif how == "two-goals":
        s["sl"]["target"] = sorted({rng.randrange(n), goal})
    elif how == "lossy":
        return None
    return s


def system_ok(s):
    """May fromsystem accept this system?"""
    if s["rew"] is None or s.get("same") or "rf_fail" in s["sl"]:
        return False
    i, t = s["sl"].get("init", []), s["sl"].get("target", [])
    if len(i) != 1 or len(t) != 1:
        return False
    t = t[0]; N = s["N"]
    tr = [(k, r) for k, r in enumerate(s["rows"]) if r[0] == t]
    if t != N - 1 or len(tr) != 1 or tr[0][0] != len(s["rows"]) - 1 or {d for d, p in tr[0][1][2] if p > 0} != {t}:
        return False
    if len(oracle.reach(oracle.succs(s), set(i))) != N or len(oracle.reach(oracle.preds(s), {t})) != N:
        return False
    return oracle.mecs(s) == [{t}]


def reduce_ok(s):
    """Does reducing give a reward form?"""
    tl = "init" if s.get("same") else "target"
    i, t = s["sl"].get("init", []), s["sl"].get(tl, [])
    if s["rew"] is None or len(i) != 1 or not t or "rf_fail" in s["sl"] or "rrf_target" in s["sl"]:
        return False
    keep, r = oracle.reduce(s, "init", tl)
    if i[0] not in keep:
        return False
    n = len(keep)
    return not any(d == n + 1 and row[0] != n + 1 for row in r["rows"] for d, p in row[2]) and len(oracle.mecs(r)) == 2


def gen(rng, i, tier):
    route = rng.choice(["direct", "direct", "reduce", "reduce", "fromsystem", "fromsystem", "random"])
    big = rng.random() < 0.08
    c = {"route": route, "ptype": rng.choice(G.PTYPES), "how": None, "solvers": [rng.choice(["cbc", "glpk"]) for _ in range(6)], "th": [0.0, 1.0, rng.random() * 10, rng.random()]}
    if route == "direct":
        c["spec"] = G.rewform(rng, nmin=8 if big else rng.choice([1, 3]), nmax=25 if big else 8)
        if rng.random() < 0.15:
            c["spec"] = G.slow(rng, c["spec"]); c["slow"] = True
        return c
    if route == "random":
        c["spec"] = G.model(rng, nmax=6, rewards=rng.random() < 0.9)
        c["via"] = rng.choice(["reduce", "fromsystem"])
        c["how"] = "random"
        return c
    s = drop_fail(G.rewform(rng, nmin=rng.choice([1, 3]), nmax=8))
    how = rng.choice(BREAK)
    d = damage(rng, s, how)
    if route == "reduce":
        if how == "lossy" or d is None:
            # a model that may lose mass
            d = G.reachable_model(rng, nmax=7, rewards=True); how = "lossy"
        elif rng.random() < 0.5 and d["rew"] is not None:
            # the goal of the original model may be anywhere and have rewards, several actions
            d = dict(d, rew=[r if k < len(d["rew"]) - 1 else float(rng.choice([0, 2, 0.5])) for k, r in enumerate(d["rew"])])
            if rng.random() < 0.4 and d["N"] > 2:
                d["sl"] = dict(d["sl"], target=sorted(set(d["sl"].get("target", [])) | {rng.randrange(d["N"])}))
    elif d is None:
        d, how = s, "none"
    c.update(spec=d, how=how)
    return c


def values(mon, rrf, spec, c, what):
    """rrf must behave as the reward form described by spec (an RF specification with rewards; rows in the order of rrf)."""
    N = spec["N"]; n = N - 2; C = len(spec["rows"]) - 2
    k = oracle.conditioning(spec)
    if not k < (20000 if c.get("slow") else 1000):
        mon.ev("skipped_ill_conditioned"); return
    m = oracle.M(spec)
    r = np.array(spec["rew"], dtype=float)
    lo = oracle.rew(m, r, [n, n + 1], "min")[:n]; hi = oracle.rew(m, r, [n, n + 1], "max")[:n]
    init = spec["sl"]["init"][0]
    P = m.P[:C, :n]; b = r[:C]
    A = np.zeros((C, n)); A[np.arange(C), m.rs[:C]] = 1; A -= P
    delta = np.zeros(n); delta[init] = 1
    mon.check(np.abs(np.asarray(rrf.reward_vector, dtype=float) - b).max(initial=0) == 0 and len(rrf.reward_vector) == C, "rewards", "%s: rewards %s, expected %s", what, rrf.reward_vector, b)
    mon.check(rrf.initial == init and rrf.is_ec_free and not any(rrf.in_proper_ec(s) for s in range(n)), "attributes", "%s: initial %s", what, rrf.initial)
    mon.check(dict(rrf.index_by_state_action) == {(row[0], row[1]): i for i, row in enumerate(spec["rows"][:C])}, "attributes", "%s: index %s", what, rrf.index_by_state_action)
    for name, X, Y in (("A", rrf.A, A), ("P", rrf.P, P)):
        X = X.toarray()
        mon.check(X.shape == Y.shape and (np.abs(X - Y) <= 1e-13).all(), "attributes", "%s: %s is\n%s", what, name, X)
    if (lo < hi - 1e-6).any():
        mon.ev("min<max"); mon.nontrivial(G.fingerprint(spec))
    if not b.any():
        mon.ev("zero_rewards")
    if hi.max() > 1000 * b.max(initial=0) > 0:
        mon.ev("large_rewards")
    big = 1 + float(b.max(initial=0)); sv = iter(c["solvers"])
    for q in ("rew_min", "rew_max", "max_z_state", "max_z_state_action", "max_y_state_action", "max_y_state"):
        solver = next(sv); mon.ev("solver:" + solver)
        eps = {"cbc": 2e-6, "glpk": 1e-5}[solver]; tol = eps * k * big
        if c.get("slow") and k > 300:
            # a solver may give up now and then (see post)
            mon.ev("slow_queries")
            try:
                v = np.asarray(getattr(rrf, q)(solver=solver), dtype=float)
            except AssertionError:
                mon.ev("slow_refused"); continue
        else:
            v = np.asarray(getattr(rrf, q)(solver=solver), dtype=float)
        d = "%s: %s with %s" % (what, q, solver)
        if q in ("rew_min", "rew_max", "max_z_state"):
            w = hi if q == "rew_max" else lo
            mon.check(v.shape == (n,) and np.isfinite(v).all() and (np.abs(v - w) <= tol).all(), q, "%s: %s, expected %s", d, v, w)
            mon.ev("rew_vectors")
        elif q == "max_z_state_action":
            w = P @ lo + b
            mon.check(v.shape == (C,) and (np.abs(v - w) <= tol).all(), q, "%s: %s, expected %s", d, v, w)
            mon.ev("backups")
        else:
            y = v if q == "max_y_state_action" else np.asarray(rrf.max_y_state_action(solver=solver), dtype=float)
            mon.check(y.shape == (C,) and np.isfinite(y).all() and (y >= -eps).all(), "frequencies", "%s: %s", d, y)
            mon.check((y @ A <= delta + eps * (1 + np.abs(y) @ np.abs(A))).all(), "frequencies", "%s: flow excess %s", d, y @ A - delta)
            mon.check(abs(b @ y - hi[init]) <= eps * k * big * (1 + np.abs(y).sum()), "frequencies", "%s: frequency value %r, maximal reward %r", d, b @ y, hi[init])
            mon.ev("frequencies")
            if q == "max_y_state":
                s = np.zeros(n); np.add.at(s, m.rs[:C], y)
                mon.check(v.shape == (n,) and (np.abs(v - s) <= eps * (1 + np.abs(s))).all(), q, "%s: per-state frequencies %s, sum over the actions %s", d, v, s)
                # frequencies that are spread over several actions: optimal vectors may be, whichever the solver returns
                z = np.array([((31 * i + 7) % 11 + 1) / 11.0 for i in range(C)])
                rrf.max_y_state_action = lambda *a, **kw: z.copy()
                try:
                    v = np.asarray(rrf.max_y_state(solver=solver), dtype=float)
                finally:
                    del rrf.max_y_state_action
                zs = np.zeros(n); np.add.at(zs, m.rs[:C], z)
                # (an implementation that does not ask the other method gives the same as before)
                mon.check((np.abs(v - zs) <= 1e-9).all() or (np.abs(v - s) <= eps * (1 + np.abs(s))).all(), q + "-spread", "%s: per-state frequencies %s of %s, sum over the actions %s", d, v, z, zs)
                mon.ev("spread")
    for th in c["th"]:
        for mode in ("min", "max"):
            Mx, rhs = rrf.fark_constraints(th, mode)
            Mx = Mx.toarray() if hasattr(Mx, "toarray") else np.asarray(Mx)
            W, w = (np.vstack([A, -delta]), np.append(b, -th)) if mode == "min" else (np.vstack([A.T, -b]), np.append(delta, -th))
            mon.check(Mx.shape == W.shape and (np.abs(Mx - W) <= 1e-13).all() and (np.abs(np.asarray(rhs, dtype=float) - w) <= 1e-13).all(), "constraints",
                      "%s: constraints for %s %r:\n%s %s, expected\n%s %s", what, mode, th, Mx, rhs, W, w)
            mon.ev("systems")


def post(agg, tier, seed):
    e = agg["events"]
    if e["slow_refused"] > 4 + 0.01 * e["slow_queries"]:
        agg["viol"].append({"i": -1, "kind": "slow-refused", "msg": "%d of %d queries on forms with large expected numbers of steps failed" % (e["slow_refused"], e["slow_queries"]), "case": None})


def back(rrf, like):
    """Specification of the system of a reward form in its own numbering."""
    got = views.of_model(rrf.system)
    inv = {i: tuple(map(int, sa)) for sa, i in rrf.system.index_by_state_action.items()}
    rows = [[inv[i][0], inv[i][1], sorted([d, p] for d, p in got["tr"][inv[i]].items())] for i in range(got["C"])]
    return {"kind": like["kind"], "N": got["N"], "rows": rows, "sl": {l: sorted(s) for l, s in got["sl"].items()}, "al": {}, "rew": None}


def run(c, mon):
    from switss.model import RewardReachabilityForm as R
    spec = c["spec"]; route = c["route"]
    if route == "direct":
        rrf = G.build_rewform(spec, c["ptype"])
        values(mon, rrf, spec, c, "direct")
        mon.ev("direct"); return
    via = c.get("via", route)
    m = G.build(spec, c["ptype"])
    before = views.of_model(m)
    tl = "init" if spec.get("same") else "target"
    ok = (system_ok if via == "fromsystem" else reduce_ok)(spec)
    try:
        if via == "fromsystem":
            rrf = R.fromsystem(m, "init", tl)
        else:
            rrf, smap, samap = R.reduce(m, "init", tl)
    except Exception as e:
        mon.check(not ok, "refused", "%s refused a system it should accept (%s): %s: %s", via, c["how"], type(e).__name__, str(e)[:300])
        mon.ev("refused_" + via)
        x = views.diff(views.of_model(m), before)
        mon.check(x is None, "input-changed", "%s changed its input: %s", via, x)
        return
    mon.check(ok, "accepted", "%s accepted a system that it should refuse (%s): %s", via, c["how"], rrf.system)
    x = views.diff(views.of_model(m), before)
    mon.check(x is None, "input-changed", "%s changed its input: %s", via, x)
    if via == "reduce":
        rf = rrf
        # same reduction as for probabilities, with rewards
        class View:
            pass
        w = View(); w.system = rrf.system; w.initial = rrf.initial; w.target_label = rrf.target_label; w.fail_label = rrf.fail_label; w.initial_label = rrf.initial_label
        w.target_state_idx = rrf.system.N - 2; w.fail_state_idx = rrf.system.N - 1
        c06.check(spec, "init", tl, w, smap, samap, "rrf_target", "rf_fail", mon)
        b = back(rrf, spec)
        r = {}
        for i, row in enumerate(spec["rows"]):
            if (row[0], row[1]) in samap:
                s2, a2 = samap[(row[0], row[1])]
                r[(int(s2), int(a2))] = spec["rew"][i]
        b["rew"] = [r.get((row[0], row[1]), 0.0) for row in b["rows"]]
        values(mon, rrf, b, c, "reduced")
        mon.ev("reduced")
    else:
        # the given system with an additional, unreachable fail state
        n = spec["N"] - 1
        got = views.of_model(rrf.system); want = views.of_spec(spec)
        want["N"] += 1; want["C"] += 1; want["tr"][(n + 1, 0)] = {n + 1: 1.0}; want["sl"]["rf_fail"] = {n + 1}
        x = views.diff(got, want, ("N", "C", "tr", "sl", "al"))
        mon.check(x is None, "fromsystem", "the form's system differs from the given one: %s", x)
        b = back(rrf, spec)
        r = {(row[0], row[1]): w for row, w in zip(spec["rows"], spec["rew"]) if row[0] < n}
        b["rew"] = [r.get((row[0], row[1]), 0.0) for row in b["rows"]]
        values(mon, rrf, b, c, "fromsystem")
        mon.ev("fromsystem")
