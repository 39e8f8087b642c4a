"""Canonical pictures of real models and of specifications, for exact comparison independent of row order."""
import numpy as np


def of_spec(spec):
    tr = {}
    for s, a, ds in spec["rows"]:
        t = tr.setdefault((s, a), {})
        for d, p in ds:
            if p != 0:
                t[d] = t.get(d, 0.0) + p
    return {"N": spec["N"], "C": len(spec["rows"]), "tr": tr,
            "sl": {l: set(ss) for l, ss in spec["sl"].items() if ss},
            "al": {l: {tuple(x) for x in ss} for l, ss in spec.get("al", {}).items() if ss},
            "rew": None if spec.get("rew") is None else {(r[0], r[1]): float(w) for r, w in zip(spec["rows"], spec["rew"])}}


def of_model(m):
    inv = {i: sa for sa, i in m.index_by_state_action.items()}
    tr = {tuple(int(x) for x in sa): {} for sa in m.index_by_state_action}
    for (i, d), p in m.P.items():
        if p != 0:
            tr[tuple(int(x) for x in inv[i])][int(d)] = float(p)
    return {"N": m.N, "C": m.C, "tr": tr,
            "sl": {l: {int(s) for s in m.states_by_label[l]} for l in list(m.states_by_label.keys()) if m.states_by_label[l]},
            "al": {l: {tuple(int(x) for x in sa) for sa in m.actions_by_label[l]} for l in list(m.actions_by_label.keys()) if m.actions_by_label[l]},
            "rew": None if m.reward_vector is None else {sa: float(m.reward_vector[i]) for sa, i in m.index_by_state_action.items()}}


def diff(got, want, parts=("N", "C", "tr", "sl", "al", "rew"), tol=0.0):
    """None or a short description of the first difference; probabilities may differ by tol."""
    for k in parts:
        g, w = got[k], want[k]
        if k in ("N", "C"):
            if g != w:
                return "%s is %s, expected %s" % (k, g, w)
        elif k == "rew":
            if (g is None) != (w is None):
                return "rewards %s, expected %s" % (g, w)
            if g is not None and g != w:
                return "rewards %s, expected %s" % (g, w)
        elif k == "tr":
            if set(g) != set(w):
                return "state-action pairs: unexpected %s, missing %s" % (sorted(set(g) - set(w)), sorted(set(w) - set(g)))
            for sa in w:
                if set(g[sa]) != set(w[sa]):
                    return "successors of %s: %s, expected %s" % (sa, g[sa], w[sa])
                for d in w[sa]:
                    if not abs(g[sa][d] - w[sa][d]) <= tol:
                        return "P(%s,%d) = %r, expected %r" % (sa, d, g[sa][d], w[sa][d])
        else:
            if g != w:
                return "%s: %s, expected %s" % ({"sl": "state labels", "al": "action labels"}[k], g, w)
    return None


def both_ways(m):
    """The label views of a model in both directions must agree; returns a description of a disagreement or None."""
    a = {(l, s) for l in list(m.states_by_label.keys()) for s in m.states_by_label[l]}
    b = {(l, s) for s in range(m.N) for l in m.labels_by_state[s]}
    if a != b:
        return "states_by_label and labels_by_state disagree: %s" % sorted(a ^ b)[:4]
    return None
