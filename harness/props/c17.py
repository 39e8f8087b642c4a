"""C17: the subsystem model is the restriction of the system to the kept states."""
import numpy as np
import gen as G, oracle, views

CASES = {"quick": 12000, "thorough": 120000}
RULE = ("reachability forms and reward forms (DTMC/MDP, any row order, action gaps, state and action labels, exact and inexact row sums) with vectors over states or state-action pairs: random supports, "
        "all, none, single, without initial state, tiny, negative, huge and boolean entries, and vectors returned by the heuristic; states are recognised by a unique label; "
        "non-trivial: distinct (structure, kept states) with a proper non-empty subset")
REQUIRED = {"subsystems": 3000, "masks": 4000, "proper": 2000, "min": 1500, "max": 1500, "well_formed": 800, "lossy_rows": 1000, "lossless_rows": 2000, "action_labels": 500, "partial_actions": 300,
            "from_method": 100, "rewards": 300, "refused_shape": 200, "disconnected": 500}
ASSUMPTIONS = ["the mass sent to fail is compared up to 1e-12; all other probabilities exactly"]
STYLES = ["random", "random", "random", "all", "none", "one", "closed", "closed", "noinit", "tiny", "negative", "bool", "method"]


def gen(rng, i, tier):
    rewards = rng.random() < 0.15
    if rewards:
        spec = G.rewform(rng, nmin=rng.choice([1, 3]), nmax=rng.choice([4, 8, 14]), tiny=0.1)
    else:
        spec = G.rf(rng, nmin=rng.choice([1, 3, 5]), nmax=rng.choice([5, 8, 8, 20, 20, 40]), tiny=0.1)
    spec = dict(spec, sl=dict(spec["sl"], **{"u%d" % s: [s] for s in range(spec["N"])}))
    mode = rng.choice(["min", "max"])
    n, C = spec["N"] - 2, len(spec["rows"]) - 2
    L = n if mode == "min" else C
    style = rng.choice(STYLES)
    init = spec["sl"]["init"][0]
    owner = list(range(n)) if mode == "min" else [r[0] for r in spec["rows"][:-2]]
    p = rng.choice([0.3, 0.6, 0.85])
    keep = {s for s in range(n) if rng.random() < p}
    if style in ("random", "tiny", "negative", "bool") and rng.random() < 0.85:
        keep.add(init)
    if style == "all":
        keep = set(range(n))
    elif style == "none":
        keep = set()
    elif style == "one":
        keep = {rng.randrange(n)}
    elif style == "closed":
        # states on a set of paths from the initial state to the goal
        nb = oracle.succs(spec); keep = set()
        for _ in range(rng.randint(1, 3)):
            path = [init]
            for _ in range(60):
                t = rng.choice(sorted(nb[path[-1]] - {n + 1}) or [init])
                if t == n:
                    keep |= set(path); break
                path.append(t)
    elif style == "noinit":
        keep.discard(init)
    v = [rng.choice([1.0, 0.5, rng.random() + 1e-3, 7.25]) if owner[k] in keep else 0.0 for k in range(L)]
    if mode == "max" and style != "all":
        # some actions only
        for s in keep:
            ks = [k for k in range(L) if owner[k] == s]
            if len(ks) > 1 and rng.random() < 0.5:
                v[rng.choice(ks)] = 0.0
    if style == "tiny":
        v = [x and rng.choice([5e-324, 1e-300, 1e-16, x]) for x in v]
    if style == "negative":
        v = [x or rng.choice([0.0, -0.0, -1e-9, -1.0]) for x in v]
    return {"spec": spec, "rewards": rewards, "ptype": rng.choice(G.PTYPES), "mode": mode, "style": style, "v": v, "ignore": rng.random() < 0.6, "x": rng.random(), "it": rng.choice([1, 2])}


def run(c, mon):
    from switss.problem import Subsystem, QSHeur
    spec, mode = c["spec"], c["mode"]
    n, C = spec["N"] - 2, len(spec["rows"]) - 2
    rf = (G.build_rewform if c["rewards"] else G.build_rf)(spec, c["ptype"])
    before = views.of_model(rf.system)
    owner = list(range(n)) if mode == "min" else [r[0] for r in spec["rows"][:-2]]
    v = np.array(c["v"], dtype=bool if c["style"] == "bool" else float)
    if c["style"] == "method":
        init = spec["sl"]["init"][0]
        best = (oracle.sub_rew if c["rewards"] else oracle.sub_prob)(spec, range(n), mode, init)
        if not best * c["x"] > 1e-3 or not oracle.conditioning(spec) < 200:
            return
        res = QSHeur(iterations=c["it"]).solve(rf, best * c["x"], mode)
        if res.status != "success":
            mon.ev("method_failed"); return
        sub = res.subsystem; v = np.asarray(res.farkas_cert)
        mon.ev("from_method")
        if int(c["x"] * 1000) % 2:
            mon.ev("default_subsystem")
        else:
            sub = Subsystem(rf, v, mode, ignore_consistency_checks=c["ignore"])
        ignore = c["ignore"] and sub is not res.subsystem
    else:
        sub = Subsystem(rf, v, mode, ignore_consistency_checks=c["ignore"]); ignore = c["ignore"]
    keep = sorted({owner[k] for k in range(len(v)) if v[k] > 0})
    desc = "%s vector %s of %s" % (mode, list(v), [r[:2] for r in spec["rows"]])
    # a vector of another length is refused
    other = v[:-1] if c["x"] < 0.5 else np.append(v, 1.0)
    if c["x"] < 0.1 or c["x"] > 0.9:
        try:
            Subsystem(rf, other, mode)
            mon.check(False, "shape", "a vector of length %d is accepted", len(other))
        except AssertionError:
            mon.ev("refused_shape")
    mon.check(sub.certform == mode and sub.supersys is rf and np.array_equal(sub.certificate, v), "attributes", "%s: %s %s", desc, sub.certform, sub.certificate)
    mask = np.asarray(sub.subsystem_mask)
    mon.check(mask.shape == (n,) and [s for s in range(n) if mask[s]] == keep, "mask", "%s: mask %s, expected %s", desc, mask, keep)
    mon.ev("masks")
    # what the restriction should be
    r = oracle.restrict(spec, keep)
    init = spec["sl"]["init"][0]
    if len(keep) and init in keep:
        fw = oracle.reach(oracle.succs(r), {init}); bw = oracle.reach(oracle.preds(r), {n})
        good = set(keep) <= fw and set(keep) <= bw
    else:
        good = False
    try:
        subsys = sub.subsys
    except Exception as e:
        if init not in keep:
            # without initial state there is no reachability form
            mon.ev("refused_without_init"); return
        if not isinstance(e, AssertionError):
            raise
        # only what is not a reachability form may be refused
        mon.check(not good, "refused", "%s: kept states %s are all reachable and reach the goal, but: %s", desc, keep, str(e)[:200])
        mon.ev("refused_not_well_formed")
        mon.check(not ignore, "refused", "%s: consistency checks were to be ignored, but: %s", desc, str(e)[:200])
        return
    if not good:
        mon.ev("disconnected")
    else:
        mon.ev("well_formed")
    m = subsys.system
    mon.check(type(m) is type(rf.system), "type", "%s is a %s", desc, type(m).__name__)
    got = views.of_model(m)
    k = len(keep)
    mon.check(got["N"] == k + 2, "states", "%s: %d states, expected %d", desc, got["N"], k + 2)
    to = {}
    for s in range(n):
        ss = got["sl"].get("u%d" % s, set())
        mon.check(len(ss) == (1 if s in keep else 0), "states", "%s: state %d occurs %d times", desc, s, len(ss))
        if ss:
            to[s] = next(iter(ss))
    mon.check(sorted(to.values()) == list(range(k)), "numbering", "%s: kept states are numbered %s", desc, to)
    to[n], to[n + 1] = k, k + 1
    want = {"tr": {}, "sl": {}, "al": {}, "rew": None, "N": k + 2}
    fail_mass = {}
    for s, a, ds in r["rows"]:
        t = {}
        for d, p in ds:
            if d == n + 1 and s < n:
                fail_mass[(to[s], a)] = p
            elif p > 0:
                t[to[d]] = p
        want["tr"][(to[s], a if s < n else 0)] = t
        if s < n:
            mon.ev("lossy_rows" if (to[s], a) in fail_mass else "lossless_rows")
    for sa, t in want["tr"].items():
        g = got["tr"].get(sa)
        mon.check(g is not None, "actions", "%s: pair %s is missing", desc, sa)
        if sa in fail_mass and fail_mass[sa] > 1e-12:
            mon.check(k + 1 in g and abs(g[k + 1] - fail_mass[sa]) <= 1e-12, "fail-mass", "%s: %s leads to fail with %r, expected %r", desc, sa, g.get(k + 1), fail_mass[sa])
        elif sa[0] < k:
            mon.check(g.get(k + 1, 0.0) <= 1e-12, "fail-mass", "%s: %s leads to fail with %r, expected 0", desc, sa, g.get(k + 1))
        if sa[0] < k:
            g = dict(g); g.pop(k + 1, None)
        mon.check(g == t, "probabilities", "%s: %s has successors %s, expected %s", desc, sa, g, t)
        mon.check(abs(sum(got["tr"][sa].values()) - 1) < 1e-9, "row-sum", "%s: row of %s sums to %r", desc, sa, sum(got["tr"][sa].values()))
    mon.check(set(got["tr"]) == set(want["tr"]), "actions", "%s: pairs %s, expected %s", desc, sorted(got["tr"]), sorted(want["tr"]))
    rows = {i: sa for sa, i in m.index_by_state_action.items()}
    mon.check(sorted(rows) == list(range(m.C)) and tuple(rows[m.C - 2]) == (k, 0) and tuple(rows[m.C - 1]) == (k + 1, 0), "rows", "%s: rows %s", desc, rows)
    for l, ss in spec["sl"].items():
        w = {to[s] for s in ss if s in keep}
        if l in ("rf_target", "rf_fail"):
            w = {k} if l == "rf_target" else {k + 1}
        g = {s for s in got["sl"].get(l, set()) if s < k or l in ("rf_target", "rf_fail")}
        mon.check(g == w, "state-labels", "%s: label %s on %s, expected %s", desc, l, sorted(g), sorted(w))
    extra = set(got["sl"]) - set(spec["sl"])
    mon.check(not extra, "state-labels", "%s: unexpected labels %s", desc, extra)
    if spec["kind"] != "dtmc":
        wal = {l: {(to[s], a) for s, a in ss if s in keep} for l, ss in spec.get("al", {}).items()}
        gal = {l: {sa for sa in ss if sa[0] < k} for l, ss in got["al"].items()}
        wal = {l: s for l, s in wal.items() if s}; gal = {l: s for l, s in gal.items() if s}
        mon.check(wal == gal, "action-labels", "%s: action labels %s, expected %s", desc, gal, wal)
        if wal:
            mon.ev("action_labels")
    x = views.both_ways(m)
    mon.check(x is None, "label-views", "%s: %s", desc, x)
    mon.check(subsys.initial_label == "init" and subsys.target_label == "rf_target" and subsys.fail_label == "rf_fail", "labels", "%s: %s", desc, subsys)
    mon.check(sub.subsys is subsys or views.diff(views.of_model(sub.subsys.system), got) is None, "second-call", "%s: second access gives another system", desc)
    x = views.diff(views.of_model(rf.system), before)
    mon.check(x is None, "input-changed", "%s: the supersystem changed: %s", desc, x)
    if good:
        # it can be wrapped again
        from switss.model import ReachabilityForm
        ReachabilityForm(m, "init", "rf_target", "rf_fail")
    mon.ev("subsystems"); mon.ev(mode)
    if c["rewards"]:
        mon.ev("rewards")
    if mode == "max" and any(v[q] <= 0 and owner[q] in keep for q in range(len(v))):
        mon.ev("partial_actions")
    if 0 < k < n:
        mon.ev("proper"); mon.nontrivial(G.fingerprint(spec), keep)
