"""C09: Farkas constraint systems, under histories of calls."""
import numpy as np
import gen as G, oracle

CASES = {"quick": 3000, "thorough": 40000}
RULE = ("histories of 3-14 constraint requests (both forms, via fark_constraints or the specific methods, thresholds 0/1/equal/other/tiny) mixed with other queries, on two "
        "reachability forms at once and on reward forms; every returned system is compared entry for entry at once and again after the whole history; non-trivial: distinct "
        "(structure, mode sequence)")
REQUIRED = {"systems": 10000, "rechecked": 10000, "reward_systems": 800, "min": 3000, "max": 3000, "other_queries": 1000}


def gen(rng, i, tier):
    reward = i % 3 == 2
    forms = []
    for _ in range(rng.choice([1, 2])):
        if reward:
            forms.append(G.rewform(rng, nmax=rng.choice([7, 7, 20]), tiny=0.1))
        else:
            forms.append(G.rf(rng, nmax=rng.choice([3, 7, 7, 12, 30]), labels=False, tiny=0.1))
    ths = [0, 1, 0.5, rng.random(), rng.random(), 1e-9, 1 - 1e-9, 0.1] + ([2.5, rng.uniform(0, 20)] if reward else [])
    ops = []
    for _ in range(rng.randint(3, 14)):
        f = rng.randrange(len(forms))
        r = rng.random()
        if r < 0.8:
            ops.append(["c", f, rng.choice(["min", "max"]), rng.choice(ths), rng.random() < 0.5])
        else:
            ops.append(["q", f, rng.choice(["max_z_state", "max_y_state_action", "rew_max" if reward else "pr_max"] + ([] if reward else ["cert", "milp"]))])
    return {"reward": reward, "forms": forms, "ops": ops, "ptype": rng.choice(G.PTYPES)}


def run(c, mon):
    forms = []
    for spec in c["forms"]:
        rf = G.build_rewform(spec, c["ptype"]) if c["reward"] else G.build_rf(spec, c["ptype"])
        m = oracle.M(spec); n = spec["N"] - 2; C = len(spec["rows"]) - 2
        A = np.zeros((C, n)); A[np.arange(C), m.rs[:C]] = 1; A = A - m.P[:C, :n]
        b = np.array(spec["rew"][:C], dtype=float) if c["reward"] else m.P[:C, n]
        delta = np.zeros(n); delta[spec["sl"]["init"][0]] = 1
        forms.append((rf, A, b, delta))
    got = []

    def check(M, r, rf, A, b, delta, mode, th, when):
        M = M.toarray() if hasattr(M, "toarray") else np.asarray(M)
        r = np.asarray(r, dtype=float)
        if mode == "min":
            W = np.vstack([A, -delta]); w = np.append(b, -th)
        else:
            W = np.vstack([A.T, -b]); w = np.append(delta, -th)
        mon.check(M.shape == W.shape and r.shape == w.shape, "shape", "%s: %s/%s, expected %s/%s", when, M.shape, r.shape, W.shape, w.shape)
        mon.check((np.abs(M - W) <= 1e-13).all(), "matrix-" + mode, "%s: matrix\n%s, expected\n%s", when, M, W)
        mon.check((np.abs(r - w) <= 1e-13).all(), "rhs-" + mode, "%s (threshold %r): right-hand side %s, expected %s", when, th, r, w)

    for op in c["ops"]:
        rf = forms[op[1]][0]
        if op[0] == "c":
            _, f, mode, th, direct = op
            if direct:
                M, r = (rf.fark_z_constraints if mode == "min" else rf.fark_y_constraints)(th)
            else:
                M, r = rf.fark_constraints(th, mode)
            check(M, r, *forms[f], mode, th, "when returned")
            got.append((M, r, f, mode, th))
            mon.ev("systems"); mon.ev(mode)
            if c["reward"]:
                mon.ev("reward_systems")
        else:
            mon.ev("other_queries")
            if op[2] == "cert":
                from switss.certification import generate_farkas_certificate
                generate_farkas_certificate(rf, "max", ">=", 0.0)
            elif op[2] == "milp":
                from switss.problem import QSHeur
                list(QSHeur(iterations=1).solveiter(rf, 0.001, "min"))
            else:
                getattr(rf, op[2])()
    for M, r, f, mode, th in got:
        check(M, r, *forms[f], mode, th, "after later calls")
        mon.ev("rechecked")
    mon.nontrivial([G.fingerprint(s) for s in c["forms"]], [tuple(o[1:3]) for o in c["ops"]])
