"""C26: rendered graphs show exactly the system, and the subsystem within it."""
import hashlib, re
import numpy as np
import gen as G, oracle, views

CASES = {"quick": 9000, "thorough": 80000}
RULE = ("models (any row order, gaps in action indices, labels), reachability forms obtained by reducing a model, and subsystems of both (min and max vectors, any support, also without the initial state), drawn with the "
        "default styles, styles set on the model or given to the call (labels and a digest of all arguments as attributes; also styles that return one shared dictionary or no label), and styles set for target and fail; the source of the graph is parsed "
        "and states, actions and transitions recognised by what the edges say; non-trivial: distinct (structure, kind, style, vector support)")
REQUIRED = {"models": 1500, "forms": 700, "subsystems": 1500, "dtmc_max": 250, "dtmc_min": 250, "mdp_max": 250, "mdp_min": 250, "permuted_dtmc_max": 40, "grey": 800, "certificates": 2500, "nodes": 15000, "edges": 15000,
            "action_nodes": 8000, "default_style": 500, "shared_style": 60, "nolabel_style": 60, "without_init": 200, "no_weights": 200, "target_style": 200}
TOK = re.compile(r'"((?:\\.|[^"\\])*)"|([A-Za-z0-9_.\-\x80-\U0010ffff]+?)(?=->|[\s=\[\];{}]|$)|(->|[=\[\];{}])', re.S)


def parse(src):
    """Nodes and edges of a graph in the dot language, with their attributes."""
    toks = []; i = 0
    while i < len(src):
        if src[i].isspace():
            i += 1; continue
        m = TOK.match(src, i)
        assert m, "cannot read %r" % src[i:i + 60]
        if m.group(1) is not None:
            toks.append(("id", m.group(1).replace('\\"', '"')))
        elif m.group(2) is not None:
            toks.append(("id", m.group(2)))
        else:
            toks.append((m.group(3), None))
        i = m.end()
    k = [j for j, t in enumerate(toks) if t[0] == "{"][0] + 1
    assert ("id", "digraph") in toks[:k], src[:40]
    nodes, edges, graph = [], [], {}
    while toks[k][0] != "}":
        ids = []
        assert toks[k][0] == "id", toks[k - 2:k + 3]
        ids.append(toks[k][1]); k += 1
        while toks[k][0] == "->":
            ids.append(toks[k + 1][1]); k += 2
        at = {}
        while toks[k][0] == "[":
            k += 1
            while toks[k][0] != "]":
                assert toks[k + 1][0] == "=", toks[k:k + 3]
                at[toks[k][1]] = toks[k + 2][1]; k += 3
            k += 1
        if toks[k][0] == ";":
            k += 1
        if len(ids) > 1:
            edges += [(a, b, at) for a, b in zip(ids, ids[1:])]
        elif ids[0] in ("graph", "node", "edge"):
            graph.setdefault(ids[0], {}).update(at)
        else:
            nodes.append((ids[0], at))
    return nodes, edges, graph


def dig(*args):
    return hashlib.md5(repr(args).encode()).hexdigest()[:10]


def ls(labels):
    return "|".join(sorted(labels))


def styles(tag, shared=False, nolabel=False):
    """Style functions whose results show all of their arguments."""
    def st(s, labels):
        d = {"tooltip": dig(tag, "s", int(s), ls(labels)), "shape": "box"}
        return d if nolabel else dict(d, label="S%d %s" % (s, tag))

    def tr_mdp(s, a, d, p):
        return {"label": "T%d,%d,%d,%r,%s" % (s, a, d, float(p), tag), "color": "blue"}

    def tr_dtmc(s, d, p):
        return {"label": "T%d,%d,%r,%s" % (s, d, float(p), tag), "color": "blue"}
    const = {"node": {"shape": "point", "color": "pink"}, "edge": {"dir": "none", "style": "dotted"}}

    def ac(s, a, labels):
        if shared:
            return const
        n = {"tooltip": dig(tag, "a", int(s), int(a), ls(labels))}
        return {"node": n if nolabel else dict(n, label="A%d,%d" % (s, a)), "edge": {"color": "red", "tooltip": dig(tag, "e", int(s), int(a), ls(labels))}}
    return st, tr_mdp, tr_dtmc, ac


def default_state(s, labels):
    from switss.utils import color_from_hash
    return {"label": ("State", s, labels), "style": "filled", "color": color_from_hash(tuple(sorted(labels)))}


def match(got, want):
    """Do the attributes contain what was asked for (tuples: text that must show number and labels)?"""
    for k, w in want.items():
        g = got.get(k)
        if isinstance(w, tuple):
            if g is None:
                return "%s missing" % k
            if w[0] == "prob":
                try:
                    ok = abs(float(g) - w[1]) <= 1e-9
                except ValueError:
                    ok = False
                if not ok:
                    return "%s is %r, expected %r" % (k, g, w[1])
                continue
            nums = [int(x) for x in re.findall(r"\d+", g.split("\n")[0])]
            if nums[:1] != [w[1]]:
                return "%s is %r, expected the number %d" % (k, g, w[1])
            rest = "\n".join(g.split("\n")[1:])
            if sorted(rest.replace(",", "").replace("|", "")) != sorted("".join(w[2]).replace(",", "").replace("|", "")):
                return "%s is %r, expected labels %s" % (k, g, sorted(w[2]))
        elif g != w:
            return "%s is %r, expected %r" % (k, g, w)
    return None


def gen(rng, i, tier):
    kind = rng.choice(["model", "model", "form", "subsys", "subsys", "subform"])
    c = {"kind": kind, "ptype": rng.choice(G.PTYPES), "style": rng.choice(["default", "config", "config", "ctor", "args", "args", "some", "shared", "nolabel"]), "some": [rng.random() < 0.5 for _ in range(3)],
         "small": rng.random() < 0.2, "tf": rng.random() < 0.5, "weights": rng.random() < 0.8, "mode": rng.choice(["min", "max"]), "seed": rng.randrange(1 << 30), "p": rng.choice([0.0, 0.3, 0.6, 0.9, 1.0])}
    if kind == "model":
        c["spec"] = G.model(rng, nmax=rng.choice([3, 6, 10, 10, 25]), tiny=0.1) if rng.random() < 0.6 else G.reachable_model(rng, nmin=1, nmax=rng.choice([4, 8, 8, 16]))
    elif kind in ("form", "subform"):
        c["spec"] = G.reachable_model(rng, nmin=rng.choice([2, 4]), nmax=rng.choice([5, 9, 9, 18]), tiny=0.1)
    else:
        s = G.rf(rng, nmin=rng.choice([1, 3]), nmax=rng.choice([4, 8, 8, 16]))
        c["spec"] = s
    return c


def run(c, mon):
    from switss.model import ReachabilityForm
    from switss.problem import Subsystem
    from switss.utils import VisualizationConfig, DTMCVisualizationConfig
    import random
    spec, kind, style = c["spec"], c["kind"], c["style"]
    dtmc = spec["kind"] == "dtmc"
    r = random.Random(c["seed"])
    st, trm, trd, ac = styles("x", shared=style == "shared", nolabel=style == "nolabel")
    tr = trd if dtmc else trm
    cfg = None
    if style in ("config", "ctor", "shared", "nolabel", "some"):
        if style == "some":
            keep = c["some"]
        else:
            keep = [True] * 3
        kw = {k: f for k, f, x in zip(["state_map", "trans_map", "action_map"], [st, tr, ac], keep) if x}
        custom = set(kw)
        cfg = DTMCVisualizationConfig(**{k: f for k, f in kw.items() if k != "action_map"}) if dtmc else VisualizationConfig(**kw)
    elif style == "args":
        custom = {"state_map", "trans_map", "action_map"}
    else:
        custom = set(); mon.ev("default_style")
    if style in ("shared", "nolabel"):
        mon.ev(style + "_style")

    model = G.build(spec, c["ptype"])
    if cfg is not None and style != "ctor":
        model.visualization = cfg
    elif style == "ctor":
        # given to the constructor
        kw = dict(P=model.P, label_to_states={l: set(model.states_by_label[l]) for l in list(model.states_by_label.keys())}, reward_vector=model.reward_vector, index_by_state_action=model.index_by_state_action, vis_config=cfg)
        if not dtmc:
            kw["label_to_actions"] = {l: set(model.actions_by_label[l]) for l in list(model.actions_by_label.keys())}
        model = type(model)(**kw)
        mon.ev("ctor_style")
    call = {}
    if style == "args":
        call = {"state_map": st, "trans_map": tr}
        if not dtmc:
            call["action_map"] = ac

    src = (lambda s: s); sac = (lambda s, a: (s, a))
    tf = None
    if kind == "model":
        system = model
    elif kind in ("form", "subform"):
        if len(spec["sl"].get("init", [])) != 1 or not spec["sl"].get("target"):
            return
        want = oracle.reduce(spec, "init", "target")
        try:
            rf, cols, rows = ReachabilityForm.reduce(model, "init", "target")
        except AssertionError:
            mon.ev("not_reduced"); return
        system = rf.system
        ci = {int(v): int(k) for k, v in cols.items()}; ri = {tuple(map(int, v)): tuple(map(int, k)) for k, v in rows.items()}
        if style not in ("args",):
            src = lambda s: ci[s]; sac = lambda s, a: ri[(s, a)]
        tf = {}
        n = system.N - 2
        for name, k, col in (("target", n, "green"), ("fail", n + 1, "red")):
            if c["tf"]:
                s2, t2m, t2d, a2 = styles(name)
                t2 = t2d if dtmc else t2m
                x = DTMCVisualizationConfig(state_map=s2, trans_map=t2) if dtmc else VisualizationConfig(state_map=s2, trans_map=t2, action_map=a2)
                getattr(rf, "set_%s_visualization_style" % name)(x)
                tf[k] = (s2, t2, a2)
                mon.ev("target_style")
            else:
                tf[k] = col
    else:
        rf = G.build_rf(spec, c["ptype"], ignore=True)
        if cfg is not None:
            rf.system.visualization = cfg
        system = rf.system
    sub = None
    if kind in ("subsys", "subform"):
        if style == "args":
            custom = set()   # a subsystem takes the styles of its system
            if tf is not None:
                src = lambda s: ci[s]; sac = lambda s, a: ri[(s, a)]
        mode = c["mode"]
        n = system.N - 2
        index = {tuple(map(int, sa)): i for sa, i in system.index_by_state_action.items()}
        inv = {i: sa for sa, i in index.items()}
        L = n if mode == "min" else system.C - 2
        owner = [k if mode == "min" else inv[k][0] for k in range(L)]
        kept = {s for s in range(n) if r.random() < c["p"]}
        v = np.array([(k + 1) + r.random() if owner[k] in kept and (mode == "min" or r.random() < 0.8) else 0.0 for k in range(L)])
        if r.random() < 0.3:
            v = v / (10.0 * L)
        sub = Subsystem(rf, v, mode, ignore_consistency_checks=r.random() < 0.5)
        kept = {owner[k] for k in range(L) if v[k] > 0}
        kw = {"show_weights": c["weights"], "small": c["small"]} if c["small"] or not c["weights"] else {}
        graph = sub.digraph(**kw)
        mon.ev("subsystems"); mon.ev("%s_%s" % (spec["kind"], mode))
        if dtmc and mode == "max" and any(inv[k][0] != k for k in range(L)):
            mon.ev("permuted_dtmc_max")
        if not c["weights"]:
            mon.ev("no_weights")
        if not set(system.states_by_label["init"]) <= kept:
            mon.ev("without_init")
    else:
        if not dtmc and c["small"]:
            call["small"] = True
        graph = system.digraph(**call)
        mon.ev("forms" if kind == "form" else "models")

    pic = views.of_model(system)
    sl = {s: {l for l, x in pic["sl"].items() if s in x} for s in range(system.N)}
    al = {sa: {l for l, x in pic["al"].items() if sa in x} for sa in pic["tr"]}
    nodes, edges, _ = parse(graph.source)
    names = [x for x, _ in nodes]
    mon.check(len(set(names)) == len(names), "twice", "nodes drawn twice: %s", sorted(x for x in set(names) if names.count(x) > 1))
    at = dict(nodes)
    for a, b, _ in edges:
        mon.check(a in at and b in at, "undrawn", "an edge %s -> %s without its nodes", a, b)
    trans = [(s, a, d, p) for (s, a), ds in pic["tr"].items() for d, p in ds.items()]
    states = {s for s, _, d, _ in trans} | {d for _, _, d, _ in trans}
    desc = "%s of %s, style %s" % (kind, [(k, v) for k, v in sorted(pic["tr"].items())][:12], style)

    def want_trans(s, a, d, p):
        if tf is not None and d in tf and not (style == "args" and sub is None):
            if isinstance(tf[d], tuple):
                f = tf[d][1]
                return f(s, d, p) if dtmc else f(s, a, d, p)
            return {"label": ("prob", p)}
        if "trans_map" not in custom:
            return {"label": ("prob", p)}
        so, ao = sac(s, a)
        return tr(so, src(d), p) if dtmc else tr(so, ao, src(d), p)

    def want_state(s):
        if tf is not None and s in tf and not (style == "args" and sub is None):
            if isinstance(tf[s], tuple):
                return tf[s][0](s, sl[s])
            return {"color": tf[s]}
        if "state_map" not in custom:
            return default_state(src(s), sl[s])
        return st(src(s), sl[s])

    def want_action(s, a):
        if tf is not None and s in tf and not (style == "args" and sub is None):
            return tf[s][2](s, a, al[(s, a)]) if isinstance(tf[s], tuple) else {"node": {}, "edge": {}}
        so, ao = sac(s, a)
        if "action_map" not in custom:
            return {"node": {"label": ("", ao, al[(s, a)]), "shape": "rectangle"}, "edge": {"dir": "none"}}
        return ac(so, ao, al[(s, a)])

    # the shape of the graph: node names may be anything, but must give an isomorphism
    name = {}
    if dtmc:
        mon.check(len(edges) == len(trans), "edges", "%s: %d edges, expected %d", desc, len(edges), len(trans))
        mon.check(len(nodes) == len(states), "nodes", "%s: %d nodes, expected %d", desc, len(nodes), len(states))
    else:
        mon.check(len(nodes) == len(states) + len(pic["tr"]), "nodes", "%s: %d nodes, expected %d states and %d actions", desc, len(nodes), len(states), len(pic["tr"]))
        mon.check(len(edges) == len(trans) + len(pic["tr"]), "edges", "%s: %d edges, expected %d transitions and %d actions", desc, len(edges), len(trans), len(pic["tr"]))
    # names used by this library: states by their index, actions by state and action; anything else is resolved by labels
    snames = {str(s): s for s in states}; anames = {"%d-%d" % sa: sa for sa in pic["tr"]}
    mon.check(set(at) == set(snames) | (set() if dtmc else set(anames)), "names", "%s: nodes %s", desc, sorted(at))
    emap = {}
    for a, b, x in edges:
        mon.check((a, b) not in emap, "twice", "%s: edge %s -> %s drawn twice", desc, a, b)
        emap[(a, b)] = x
    mon.ev("edges", len(edges))
    for s, a, d, p in trans:
        k = (str(s) if dtmc else "%d-%d" % (s, a), str(d))
        mon.check(k in emap, "edges", "%s: no edge for %s", desc, (s, a, d, p))
        bad = match(emap.pop(k), want_trans(s, a, d, p))
        mon.check(bad is None, "edge", "%s: transition %s: %s", desc, (s, a, d, p), bad)
    if not dtmc:
        for (s, a) in pic["tr"]:
            k = (str(s), "%d-%d" % (s, a))
            mon.check(k in emap, "edges", "%s: action %s is not linked to its state", desc, (s, a))
            bad = match(emap.pop(k), want_action(s, a)["edge"])
            mon.check(bad is None, "edge", "%s: action %s: %s", desc, (s, a), bad)
    mon.check(not emap, "edges", "%s: unexpected edges %s", desc, emap)

    def shown(label):
        return [(int(i), float(x)) for i, x in re.findall(r"c\[(-?\d+)\]=([-+0-9.einfa]+)", label or "")]

    def strip(x):
        if "label" not in x:
            return x
        l = re.sub(r"\n?c\[-?\d+\]=[-+0-9.einfa]+", "", x["label"])
        return dict(x, label=l)
    n = system.N - 2
    for s in states:
        x = at[str(s)]; cs = shown(x.get("label"))
        mon.ev("nodes")
        if sub is not None and s < n and s not in kept:
            mon.check(x.get("color") == "azure3" and not cs, "grey", "%s: state %d is not in the %s subsystem of %s but drawn as %s", desc, s, mode, list(v), x)
            mon.ev("grey"); continue
        w = want_state(s)
        if sub is not None:
            mon.check(x.get("color") != "azure3" or w.get("color") == "azure3", "grey", "%s: state %d is in the %s subsystem of %s but greyed", desc, s, mode, list(v))
        if sub is not None and s < n and c["weights"] and (mode == "min" or dtmc):
            own = v[s] if mode == "min" else v[index[(s, 0)]]
            mon.check(len(cs) == 1 and abs(cs[0][1] - own) <= 1e-5 and cs[0][0] in ((s,) if mode == "min" else (s, index[(s, 0)])), "certificate",
                      "%s: state %d of the %s certificate %s shows %s, its own value is %r", desc, s, mode, list(v), cs, own)
            mon.ev("certificates")
        else:
            mon.check(not cs, "certificate", "%s: state %d shows %s", desc, s, cs)
        bad = match(strip(x), w)
        mon.check(bad is None, "node", "%s: state %d: %s", desc, s, bad)
    if not dtmc:
        for (s, a) in pic["tr"]:
            x = at["%d-%d" % (s, a)]; cs = shown(x.get("label"))
            mon.ev("action_nodes")
            if sub is not None and s < n and s in kept and mode == "max" and c["weights"]:
                i = index[(s, a)]
                mon.check(len(cs) == 1 and abs(cs[0][1] - v[i]) <= 1e-5 and cs[0][0] == i, "certificate", "%s: action %s (entry %d) of the certificate %s shows %s", desc, (s, a), i, list(v), cs)
                mon.ev("certificates")
                w = {k: y for k, y in want_action(s, a)["node"].items() if k != "shape"}
            else:
                mon.check(not cs, "certificate", "%s: action %s shows %s", desc, (s, a), cs)
                w = want_action(s, a)["node"]
            bad = match(strip(x), w)
            mon.check(bad is None, "node", "%s: action %s: %s", desc, (s, a), bad)
    mon.nontrivial(G.fingerprint(spec), kind, style, None if sub is None else (mode, sorted(kept)))
