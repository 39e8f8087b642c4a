"""C05: .tra/.lab files."""
import copy, os, shutil, tempfile
import gen as G, oracle, views
from core import Violation

CASES = {"quick": 4000, "thorough": 40000}
RULE = ("random DTMC/MDP models (arbitrary doubles as probabilities, shuffled rows, gaps in action numbers, states without labels/actions, odd label names) saved "
        "and loaded twice; reachability forms with permuted rows saved, loaded and wrapped again; hand-written PRISM files (arbitrary label ids, blank lines, "
        "action-label column, number formats); non-trivial: distinct (kind of case, structure)")
REQUIRED = {"roundtrips": 500, "rf_roundtrips": 250, "handwritten": 250, "files_loaded": 1500, "probabilities_compared": 6000}
ASSUMPTIONS = ["label names contain no double quotes or line breaks", "action labels and rewards have no place in the .tra/.lab files the library writes"]


def gen(rng, i, tier):
    k = ["model", "model", "rf", "hand"][i % 4]
    if k == "rf":
        spec = G.rf(rng, nmax=rng.choice([4, 7, 7, 12, 30]), tiny=0.15)
    else:
        spec = G.model(rng, nmax=rng.choice([3, 8, 8, 30]), tiny=0.15)
        if spec["kind"] == "mdp" and rng.random() < 0.15:
            gone = rng.sample(range(spec["N"]), 1)
            rows = [x for x in spec["rows"] if x[0] not in gone]
            if rows:
                spec["rows"] = rows
                keep = {(r[0], r[1]) for r in rows}
                spec["al"] = {l: [x for x in ss if tuple(x) in keep] for l, ss in spec["al"].items()}
    return {"k": k, "spec": spec, "ptype": rng.choice(G.PTYPES), "seed": rng.randrange(1 << 30), "how": rng.choice(["direct", "reduced"])}


PARTS = ("N", "C", "tr", "sl")


def load(cls, tra, lab, mon):
    mon.ev("files_loaded")
    return cls.from_file(lab, tra)


def run(c, mon):
    d = tempfile.mkdtemp(prefix="swc05-")
    try:
        go(c, mon, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(c, mon, d):
    import random
    from switss.model import DTMC, MDP, ReachabilityForm
    rng = random.Random(c["seed"])
    spec = c["spec"]
    cls = DTMC if spec["kind"] == "dtmc" else MDP
    mon.nontrivial(c["k"], G.fingerprint(spec))
    if c["k"] == "model":
        m = G.build(spec, c["ptype"])
        want = views.of_spec(spec)
        if rng.random() < 0.3:
            l = rng.choice(["extra", "blue"]); s = rng.randrange(spec["N"])
            m.add_label(s, l)
            want["sl"].setdefault(l, set()).add(s)
        for r in range(2):
            tra, lab = m.save(os.path.join(d, "f%d" % r))
            mon.check(os.path.isfile(tra) and os.path.isfile(lab) and tra.endswith(".tra") and lab.endswith(".lab"), "files", "%s %s", tra, lab)
            x = views.diff(views.of_model(m), want, PARTS)
            mon.check(x is None, "save-changes-model", "saving changed the model: %s", x)
            m = load(cls, tra, lab, mon)
            x = views.diff(views.of_model(m), want, PARTS) or views.both_ways(m)
            mon.check(x is None, "roundtrip", "after %d round trips: %s", r + 1, x)
            mon.ev("probabilities_compared", sum(len(t) for t in want["tr"].values()))
        mon.ev("roundtrips")
    elif c["k"] == "rf":
        if c["how"] == "direct":
            rf = G.build_rf(spec, c["ptype"])
        else:
            sp = copy.deepcopy(spec)
            # use the form itself as input of a reduction, with other labels
            sp["sl"]["goal"] = sp["sl"].pop("rf_target"); sp["sl"]["dead"] = sp["sl"].pop("rf_fail")
            rf, _, _ = ReachabilityForm.reduce(G.build(sp, c["ptype"]), "init", "goal")
        want = views.of_model(rf.system)
        for r in range(2):
            tra, lab = rf.system.save(os.path.join(d, "f%d" % r))
            m = load(cls, tra, lab, mon)
            x = views.diff(views.of_model(m), want, PARTS) or views.both_ways(m)
            mon.check(x is None, "rf-roundtrip", "after %d round trips: %s", r + 1, x)
            try:
                rf2 = ReachabilityForm(m, "init", "rf_target", "rf_fail")
            except Exception as e:
                raise Violation("rf-reload-refused", "the saved system of a reachability form is not one after loading: %r" % e)
            mon.check((rf2.initial, rf2.target_state_idx, rf2.fail_state_idx) == (rf.initial, rf.target_state_idx, rf.fail_state_idx), "rf-states", "%s", (rf2.initial,))
            A, A2 = rf.A.toarray(), rf2.A.toarray(); b, b2 = rf.to_target, rf2.to_target
            for sa, i in rf.index_by_state_action.items():
                j = rf2.index_by_state_action[sa]
                mon.check((A[i] == A2[j]).all() and b[i, 0] == b2[j, 0], "rf-matrices", "row of %s", sa)
            mon.ev("probabilities_compared", sum(len(t) for t in want["tr"].values()))
            rf = rf2
        mon.ev("rf_roundtrips")
    else:
        want = views.of_spec(spec)
        tra, lab = os.path.join(d, "x.tra"), os.path.join(d, "y.lab")
        mix = rng.random() < 0.25
        want["al"] = write(spec, tra, lab, rng, mix)
        if mix:
            mon.ev("shuffled_lines")
        m = load(cls, tra, lab, mon)
        x = views.diff(views.of_model(m), want, PARTS + (("al",) if spec["kind"] == "mdp" else ())) or views.both_ways(m)
        mon.check(x is None, "handwritten", "%s\n--- tra\n%s\n--- lab\n%s", x, open(tra).read()[:1500], open(lab).read()[:600])
        mon.ev("handwritten"); mon.ev("probabilities_compared", sum(len(t) for t in want["tr"].values()))


def num(p, rng):
    for f in rng.sample(["%r", "%.17g", "%.17e", "%s"], 4):
        t = f % p
        if float(t) == p:
            return t
    return repr(p)


def write(spec, tra, lab, rng, mix=False):
    al = {}
    name = {}
    for l, ss in spec["al"].items():
        for s, a in ss:
            name[(s, a)] = l
    for sa, l in name.items():
        al.setdefault(l, set()).add(sa)
    out = []
    n = sum(len(r[2]) for r in spec["rows"])
    sep = rng.choice([" ", " ", "  ", "\t"])
    if spec["kind"] == "mdp":
        out.append(sep.join(map(str, [spec["N"], len(spec["rows"]), n])))
    else:
        out.append(sep.join(map(str, [spec["N"], n])))
    for s, a, ds in spec["rows"]:
        ds = list(ds); rng.shuffle(ds)
        for dd, p in ds:
            row = [s, a, dd, num(p, rng)] if spec["kind"] == "mdp" else [s, dd, num(p, rng)]
            if spec["kind"] == "mdp" and (s, a) in name:
                row.append(name[(s, a)])
            out.append(sep.join(map(str, row)))
    if mix:
        # the order of the lines carries no meaning
        head, *out = out; rng.shuffle(out); out.insert(0, head)
    open(tra, "w").write("\n".join(out) + rng.choice(["\n", ""]))
    labels = [l for l in spec["sl"]]
    ids = rng.sample(range(0, 40), len(labels)) if rng.random() < 0.7 else list(range(len(labels)))
    idof = dict(zip(labels, ids))
    order = list(labels); rng.shuffle(order)
    lines = [" ".join('%d="%s"' % (idof[l], l) for l in order)]
    states = list(range(spec["N"]))
    if rng.random() < 0.4:
        rng.shuffle(states)
    for s in states:
        ls = [l for l in labels if s in spec["sl"][l]]
        rng.shuffle(ls)
        if ls:
            lines.append("%d: %s" % (s, " ".join(str(idof[l]) for l in ls)))
        elif rng.random() < 0.3:
            lines.append(rng.choice(["", "%d:" % s, "%d: " % s]))
        if rng.random() < 0.05:
            lines.append("")
    open(lab, "w").write("\n".join(lines) + rng.choice(["\n", "", "\n\n"]))
    return al
