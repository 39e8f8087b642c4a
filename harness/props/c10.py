"""C10: the certificate checker."""
import numpy as np
import gen as G, oracle
from core import Violation

CASES = {"quick": 5000, "thorough": 80000}
RULE = ("reachability forms (with and without end components); per form about 20 check calls: legal vectors of all four kinds (scaled values, mixtures, occupation measures of random "
        "policies, slack added), the same with one entry or the threshold moved by 1e-7..1, negative, NaN, nonzero in end components, certificates of the other "
        "kind, random vectors, wrong lengths, thresholds outside [0,1], several tolerances; forms whose vectors and conditions are free of rounding, with tolerance zero, against rational arithmetic; non-trivial: distinct (structure, mode, sense, verdict)")
REQUIRED = {"accepted_legal": 7000, "rejected_illegal": 18000, "accepted:min>=": 1500, "accepted:min<=": 800, "accepted:max>=": 1500, "accepted:max<=": 1500,
            "rejected_negative_y": 600, "rejected_nan": 1500, "rejected_ec": 300, "refused": 3000, "grey": 100, "rejected_one_row_only": 1000, "exact_legal": 1000, "exact_illegal": 1000}
ASSUMPTIONS = ["a vector is legal if every documented condition holds up to 1e-12; the verdict on vectors that violate a condition by at most the tolerance is left open",
               "for strict senses equality up to the tolerance is left open"]


def gen(rng, i, tier):
    kw = rng.choice([dict(), dict(ecfree=False, kind="mdp"), dict(ecfree=True, kind="mdp"), dict(kind="dtmc")])
    spec = G.rf(rng, nmin=rng.choice([1, 2, 4]), nmax=rng.choice([4, 8, 8, 15, 30]), labels=False, **kw)
    if rng.random() < 0.15:
        spec = dyadic(rng)
        return {"spec": spec, "ptype": rng.choice(G.PTYPES), "seed": rng.randrange(1 << 30), "n": 12, "exact": True}
    return {"spec": spec, "ptype": rng.choice(G.PTYPES), "seed": rng.randrange(1 << 30), "n": 20}


def dyadic(rng):
    """A form without cycles, with probabilities 1/2, 1/4, ...: all its vectors are exact."""
    while True:
        s = G.rf(rng, nmax=5, labels=False, ecfree=True, permute=False, **rng.choice([dict(kind="mdp"), dict(kind="dtmc"), dict()]))
        n = s["N"] - 2
        rows = []
        for t, a, ds in s["rows"]:
            ds = [d for d, p in ds if t >= n or d >= n or d > t] or [n]
            rng.shuffle(ds)
            p = [0.5 ** (i + 1) for i in range(len(ds))]; p[-1] *= 2
            rows.append([t, a, [[d, x] for d, x in zip(ds, p)]])
        r = dict(s, rows=rows)
        if oracle.reach(oracle.succs(r), {r["sl"]["init"][0]}) >= set(range(n)) and oracle.reach(oracle.preds(r), {n}) >= set(range(n)):
            return G.permute_rf(rng, r) if rng.random() < 0.5 else r


def exactly(c, mon, rf, check):
    """Tolerance zero, where neither the vectors nor the conditions involve any rounding."""
    import random
    from fractions import Fraction as F
    spec = c["spec"]; r = random.Random(c["seed"])
    q = Cond(spec)
    order = sorted(range(q.n), key=lambda s: len(oracle.reach(oracle.succs(spec), {s})))
    for _ in range(c["n"]):
        mode = r.choice(["min", "max"]); sense = r.choice(["<=", "<", ">=", ">"]); up = sense[0] == ">"
        D = q.length(mode, sense)
        if D == q.n and (mode == "min") == up:
            z = np.zeros(q.n)
            for s in order:
                z[s] = (min if mode == "min" else max)(q.b[i] + q.m.P[i, :q.n] @ z for i in q.m.by[s])
            lam = z[q.init]
        else:
            pick = {s: r.choice(list(q.m.by[s])) for s in range(q.n)}
            z = np.zeros(q.C); w = np.zeros(q.n); w[q.init] = 1
            for s in reversed(order):
                z[pick[s]] = w[s]
                w += w[s] * q.m.P[pick[s], :q.n]
            lam = q.b @ z
        how = r.choice(["tight", "tight", "tight", "entry", "threshold", "loose"])
        e = r.choice([2.0 ** -k for k in (1, 4, 8, 12, 16, 24)])
        if how == "entry":
            z[r.randrange(D)] += r.choice([e, -e])
        elif how == "threshold":
            lam += r.choice([e, -e])
        elif how == "loose":
            lam += -e if up else e
        lam = float(min(1.0, max(0.0, lam)))
        A = [[F(x) for x in row] for row in q.A]; b = [F(float(x)) for x in q.b]; v = [F(float(x)) for x in z]
        L = F(lam); sg = 1 if up else -1
        if D == q.n and (mode == "min") == up:
            rows = [sum(a * x for a, x in zip(row, v)) - y for row, y in zip(A, b)]; thr = L - v[q.init]
            ok = all(sg * x <= 0 for x in rows)
        else:
            rows = [sum(A[i][s] * v[i] for i in range(q.C)) - F(float(q.delta[s])) for s in range(q.n)]; thr = L - sum(x * y for x, y in zip(v, b))
            ok = all(sg * x <= 0 for x in rows) and min(v) >= 0
        if len(sense) == 1 and thr == 0:
            want = False
        else:
            want = ok and sg * thr <= 0
        got = check(rf, mode, sense, lam, z, tol=0)
        mon.check(bool(got) == want, "exact", "Pr^%s %s %r with tolerance 0: %s is %s, the checker says %s", mode, sense, lam, list(z), "legal" if want else "not legal", got)
        mon.ev("exact_legal" if want else "exact_illegal")
        mon.nontrivial(G.fingerprint(spec), mode, sense, how, want)


class Cond:
    """The documented conditions, on plain arrays."""

    def __init__(self, spec):
        self.spec = spec
        m = self.m = oracle.M(spec); n = self.n = spec["N"] - 2; C = self.C = len(spec["rows"]) - 2
        A = np.zeros((C, n)); A[np.arange(C), m.rs[:C]] = 1
        self.A = A - m.P[:C, :n]; self.b = m.P[:C, n]
        self.init = spec["sl"]["init"][0]
        self.delta = np.zeros(n); self.delta[self.init] = 1
        self.lo, self.hi = (oracle.prob(m, [n], mode)[:n] for mode in ("min", "max"))
        self.ecs = oracle.ec_states(spec)

    def length(self, mode, sense):
        return self.n if (mode == "min") == (sense[0] == ">") else self.C

    def violation(self, mode, sense, lam, v):
        """(amount by which the worst condition fails, which one, number of failing conditions); >0 amounts only count beyond rounding."""
        if not np.isfinite(v).all():
            return (np.inf, "nan", 1)
        parts = []
        up = sense[0] == ">"
        if len(v) != self.length(mode, sense):
            raise ValueError
        if mode == "min" and up:
            rows = self.A @ v - self.b; thr = lam - v[self.init]
            parts.append(("ec", max([abs(v[s]) for s in self.ecs], default=0.0)))
        elif mode == "max" and not up:
            rows = self.b - self.A @ v; thr = v[self.init] - lam
        elif mode == "max":
            rows = v @ self.A - self.delta; thr = lam - self.b @ v
            parts.append(("negative", -v.min()))
        else:
            rows = self.delta - v @ self.A; thr = self.b @ v - lam
            parts.append(("negative", -v.min()))
            parts.append(("ec", max([abs(v[i]) for i in range(self.C) if self.m.rs[i] in self.ecs], default=0.0)))
        parts += [("row", x) for x in rows] + [("threshold", thr)]
        w = max(parts, key=lambda p: p[1])
        return (float(w[1]), w[0], sum(1 for p in parts if p[1] > 1e-12), thr)

    def occupation(self, choice):
        """Expected visits of each pair under a randomised memoryless policy (None if it may stay forever)."""
        n, C = self.n, self.C
        P = np.zeros((n, n))
        for i in range(C):
            P[self.m.rs[i]] += choice[i] * self.m.P[i, :n]
        M = np.eye(n) - P.T
        if np.linalg.matrix_rank(M) < n or np.linalg.cond(M) > 1e6:
            return None
        x = np.linalg.solve(M, self.delta)
        if x.min() < -1e-9:
            return None
        return np.maximum(x, 0)[self.m.rs[:C]] * choice

    def legal(self, r, mode, sense):
        """A vector satisfying all conditions but the threshold, and the threshold value it attains; or None."""
        up = sense[0] == ">"
        if mode == "min" and up:
            z = self.lo * r.choice([1.0, 1.0, r.random()])
            if r.random() < 0.3:
                # solutions are closed under shifting down and under maxima
                z = np.maximum(z - r.random() * z.max(), 0.0)
            for s in self.ecs:
                z[s] = 0.0
            return z, z[self.init]
        if mode == "max" and not up:
            t = r.choice([0.0, 0.0, r.random()])
            z = (1 - t) * self.hi + t
            return z, z[self.init]
        choice = np.zeros(self.C)
        for s in range(self.n):
            acts = self.m.by[s]
            w = np.zeros(len(acts))
            k = r.random()
            if k < 0.5:
                q = self.m.P[acts] @ np.append(self.hi if up else self.lo, [1.0, 0.0])
                w[int(np.argmax(q) if up else np.argmin(q))] = 1
            elif k < 0.8:
                w[r.randrange(len(acts))] = 1
            else:
                w = np.array([r.random() + 0.01 for _ in acts]); w /= w.sum()
            choice[acts] = w
        y = self.occupation(choice)
        if y is None:
            return None
        if up:
            y = y * r.choice([1.0, 1.0, r.random()])
        elif self.ecs and any(y[i] > 0 for i in range(self.C) if self.m.rs[i] in self.ecs):
            # no vector for min upper bounds may use end components
            return None
        else:
            y = y * r.choice([1.0, 1.0, 1.0 + r.random()])
        return y, float(self.b @ y)


def run(c, mon):
    import random
    from switss.certification import check_farkas_certificate
    spec = c["spec"]; r = random.Random(c["seed"])
    if not oracle.conditioning(spec) < 2000:
        mon.ev("skipped_ill_conditioned"); return
    k = oracle.conditioning(spec)
    q = Cond(spec)
    rf = G.build_rf(spec, c["ptype"])
    if c.get("exact"):
        exactly(c, mon, rf, check_farkas_certificate); return
    for _ in range(c["n"]):
        mode = r.choice(["min", "max"]); sense = r.choice(["<=", "<", ">=", ">"])
        D = q.length(mode, sense)
        tol = r.choice([None, None, None, 1e-6, 1e-5, 0.0])
        t = 1e-8 if tol is None else tol
        L = q.legal(r, mode, sense)
        if L is None:
            v = np.array([r.random() for _ in range(D)]); val = r.random()
        else:
            v, val = L
        v = np.array(v, dtype=float)
        up = sense[0] == ">"
        kind = r.choice(["legal", "legal", "legal", "legal", "entry", "entry", "threshold", "threshold", "negative", "nan", "ec", "other", "random", "length", "range"])
        lam = min(1.0, max(0.0, val))
        if kind in ("legal", "entry", "negative", "nan", "ec", "length"):
            gap = r.choice([0.0, 0.0, 1e-9, 1e-3, 0.1, r.random()])
            lam = min(1.0, max(0.0, lam - gap if up else lam + gap))
        d = 10.0 ** -r.uniform(0, 7.5)
        if kind == "entry":
            j = r.randrange(D); v[j] += r.choice([d, -d])
        elif kind == "threshold":
            lam = min(1.0, max(0.0, lam + r.choice([d, -d])))
        elif kind == "negative":
            j = r.randrange(D); v[j] = -abs(v[j]) - d
        elif kind == "nan":
            v[r.randrange(D)] = np.nan
        elif kind == "ec":
            js = [i for i in range(D) if (i if D == q.n and (mode == "min") == up else q.m.rs[i]) in q.ecs]
            if not js:
                continue
            v[r.choice(js)] = r.choice([d, -d, 1e-5])
        elif kind == "other":
            o = q.legal(r, "max" if mode == "min" else "min", {"<=": ">=", "<": ">", ">=": "<=", ">": "<"}[sense])
            if o is None:
                continue
            v = np.array(o[0], dtype=float)
            if len(v) != D:
                continue
            lam = min(1.0, max(0.0, o[1]))
        elif kind == "random":
            v = np.array([r.choice([0.0, 0.0, r.random(), 1.0, -r.random()]) for _ in range(D)]); lam = r.choice([0.0, 0.3, 1.0, r.random()])
        elif kind == "length":
            v = np.append(v, 0.0) if r.random() < 0.6 or D == 1 else v[:-1]
        elif kind == "range":
            lam = r.choice([-0.1, 1.1, 2.0, -1e-6, 1 + 1e-6])
        if kind not in ("length", "range", "nan") and r.random() < 0.1:
            v = np.array([x for x in v])
        given = v.copy()
        kw = {} if tol is None else {"tol": tol}
        if kind in ("length", "range"):
            try:
                ok = check_farkas_certificate(rf, mode, sense, lam, v, **kw)
            except Exception:
                ok = False
            mon.check(not ok, "accepted-" + kind, "accepted a vector of length %d (expected %d) for threshold %r", len(v), D, lam)
            mon.ev("refused")
            continue
        ok = check_farkas_certificate(rf, mode, sense, lam, v, **kw)
        mon.check(ok in (True, False), "verdict", "returned %r", ok)
        mon.check(np.array_equal(given, v, equal_nan=True), "vector-changed", "the checked vector was modified")
        ok = bool(ok)
        x = q.violation(mode, sense, lam, v)
        desc = "Pr^%s %s %r, tol %g, vector %s (worst condition: %s violated by %g)" % (mode, sense, lam, t, list(v), x[1], x[0])
        mon.nontrivial(G.fingerprint(spec), mode, sense, ok, x[1] if not ok else "")
        strictgap = sense in "<>" and -x[3] <= 2 * t + 1e-12 if len(x) > 3 else False
        if x[0] <= 1e-12 and t > 1e-11 and not strictgap and not (q.ecs and mode == "min" and x[1] == "ec" and x[0] > 0):
            exact = all(v[j] == 0 for j in range(D) if mode == "min" and (j if up else q.m.rs[j]) in q.ecs)
            if exact:
                mon.check(ok, "rejected-legal", "rejected: %s", desc)
                mon.ev("accepted_legal"); mon.ev("accepted:" + mode + sense)
                continue
        if x[0] > t * (1 + 1e-6) + 1e-11:
            mon.check(not ok, "accepted-illegal-" + x[1], "accepted: %s", desc)
            mon.ev("rejected_illegal")
            if x[1] == "negative":
                mon.ev("rejected_negative_y")
            elif x[1] == "nan":
                mon.ev("rejected_nan")
            elif x[1] == "ec":
                mon.ev("rejected_ec")
            if x[2] == 1 and x[1] == "row":
                mon.ev("rejected_one_row_only")
        else:
            mon.ev("grey")
        if ok:
            slack = (t + 1e-11) * (1 + q.n + q.C + k)
            true = q.lo[q.init] if mode == "min" else q.hi[q.init]
            mon.check((lam <= true + slack) if up else (lam >= true - slack), "unsound", "accepted for a bound that does not hold (true value %r): %s", true, desc)
