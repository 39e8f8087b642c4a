"""C22: import of PRISM models (a stand-in for the prism tool records what it is given)."""
import collections, os, re, shutil, tempfile
import core, c05, gen as G, views

CASES = {"quick": 1200, "thorough": 20000}
RULE = ("PRISM-like texts (with and without trailing newline, ending in a comment, CRLF, non-ASCII bytes, empty), 0-4 constants (int, negative, float), 0-4 extra labels, each given as dictionary, list, tuple, set or frozenset of pairs; "
        "prepared exports of random DTMCs and MDPs; prism succeeding, failing before and after exporting, killed, exporting nothing or only some files, absent; the imported model against the exported one; "
        "non-trivial: distinct (how given, number of labels/constants, ending, outcome)")
REQUIRED = {"imported": 300, "prism_to_tra": 100, "failures": 250, "labels_passed": 400, "constants_passed": 400, "dict": 150, "pairs": 300, "no_newline": 150, "comment_end": 80, "absent": 30, "mode:fail-after": 30, "mode:silent": 30}
ASSUMPTIONS = ["the prism tool itself is not part of this project; a stand-in that parses its command line is on the PATH instead"]
MODES = ["ok"] * 6 + ["fail", "fail-after", "signal", "signal-after", "silent", "no-tra", "no-lab", "absent"]
ENDS = ["\n", "\n", "\n\n", "", "", " // end of module", " // label \"x\" = true;\n", "\r\n", "\t", "\n// last line"]


def gen(rng, i, tier):
    names = rng.sample(["K", "N", "MAX", "TotalRuns", "p_1", "x"], rng.randint(0, 4))
    labels = rng.sample(["init2", "goal", "a_b", "L", "deadlocked", "h"], rng.randint(0, 4))
    body = rng.choice(["dtmc", "mdp"]) + "\n" + "".join("module m%d\n s%d : [0..%d] init 0;\n [] s%d=0 -> (s%d'=1);\nendmodule\n" % (k, k, k + 1, k, k) for k in range(rng.randint(0, 3)))
    if rng.random() < 0.3:
        body += 'label "old" = s0=1;\n'
    if rng.random() < 0.2:
        body += "// \u00e4\u00f6 \u2203\n"
    return {"mode": rng.choice(MODES), "text": (body if rng.random() < 0.95 else "").rstrip("\n") + rng.choice(ENDS), "latin": rng.random() < 0.1,
            "consts": [[n, rng.choice([0, 1, 2, 17, -3, 0.5, 0.125, 100000, 12345678, 0.123456789, 1 / 3, 1e-7, 2 ** 40, rng.random(), -rng.random() * 1e4])] for n in names],
            "labels": [[l, rng.choice(["s0=1", "(s0=1)&(s1>=2)", "s0=1|!(s1=0)", '"old"&s0=0', "true", "s0=K"])] for l in labels],
            "given": [rng.choice(["dict", "list", "tuple", "set", "frozenset"]) for _ in range(2)], "omit": rng.random() < 0.5,
            "spec": G.model(rng, nmax=6), "seed": rng.randrange(1 << 30), "what": rng.choice(["import", "import", "tra"]), "name": rng.choice(["m.nm", "a b.pm", "model", "m.v1.prism"])}


def give(pairs, how):
    pairs = [(a, b) for a, b in pairs]
    return {"dict": dict, "list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[how](pairs)


def labels_of(text):
    """Label definitions of a PRISM text (comments removed), with multiplicity."""
    text = re.sub(r"//[^\n]*", "", text)
    return collections.Counter((n, e.strip()) for n, e in re.findall(r'label\s+"([A-Za-z_0-9]+)"\s*=\s*([^;]*);', text))


def listing(d):
    return sorted(os.path.join(p, f) for p, ds, fs in os.walk(d) for f in ds + fs)


def run(c, mon):
    d = tempfile.mkdtemp(prefix="swc22-")
    saved = {k: os.environ.get(k) for k in ("PATH", "FAKE_PRISM", "TMPDIR")}
    cwd = os.getcwd()
    try:
        for x in ("bin", "log", "tmp", "user", "cwd"):
            os.mkdir(os.path.join(d, x))
        if c["mode"] != "absent":
            shutil.copy(os.path.join(core.VERIF, "harness", "fakeprism"), os.path.join(d, "bin", "prism"))
            os.environ["PATH"] = os.path.join(d, "bin") + ":/usr/bin:/bin"
        else:
            os.environ["PATH"] = os.path.join(d, "bin")
        os.environ["FAKE_PRISM"] = os.path.join(d, "log"); os.environ["TMPDIR"] = os.path.join(d, "tmp"); tempfile.tempdir = None
        os.chdir(os.path.join(d, "cwd"))
        go(c, mon, d)
    finally:
        os.chdir(cwd)
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        tempfile.tempdir = None
        shutil.rmtree(d, ignore_errors=True)


def go(c, mon, d):
    import random
    from switss.model import DTMC, MDP
    from switss.prism import prism_to_tra
    log = os.path.join(d, "log")
    with open(os.path.join(log, "mode"), "w") as f:
        f.write(c["mode"] + "\n")
    spec = c["spec"]
    want = views.of_spec(spec)
    want["al"] = c05.write(spec, os.path.join(log, "export.tra"), os.path.join(log, "export.lab"), random.Random(c["seed"]))
    with open(os.path.join(log, "export.sta"), "w") as f:
        f.write("(s)\n" + "".join("%d:(%d)\n" % (s, s) for s in range(spec["N"])))
    raw = c["text"].encode("utf-8") + (b"" if not c["latin"] else b"// \xff\xe9\n")
    path = os.path.join(d, "user", c["name"])
    with open(path, "wb") as f:
        f.write(raw)
    stat = os.stat(path)
    args = {}
    if c["consts"] or not c["omit"]:
        args["prism_constants"] = give(c["consts"], c["given"][0])
    if c["labels"] or not c["omit"]:
        args["extra_labels"] = give(c["labels"], c["given"][1])
    desc = "mode %s, %s on %r" % (c["mode"], args, raw[-60:])
    cls = DTMC if spec["kind"] == "dtmc" else MDP
    dest = os.path.join(d, "out", "model"); os.mkdir(os.path.join(d, "out"))
    res, err = None, None
    try:
        res = cls.from_prism_model(path, **args) if c["what"] == "import" else prism_to_tra(path, dest, **args)
    except Exception as e:
        err = e
    good = c["mode"] == "ok" or c["what"] == "tra" and c["mode"] in ("silent", "no-tra", "no-lab")
    if c["mode"] != "absent":
        mon.check(os.path.exists(os.path.join(log, "model")), "not-called", "%s: prism was not given a readable model; %s: %s", desc, type(err).__name__, err)
        got = open(os.path.join(log, "model"), "rb").read()
        mon.check(got.startswith(raw), "model-text", "%s: prism read %r", desc, got)
        a, b = got.decode("utf-8", "replace"), raw.decode("utf-8", "replace")
        have = labels_of(a) - labels_of(b)
        mon.check(labels_of(a) == labels_of(b) + collections.Counter((n, e) for n, e in c["labels"]), "labels", "%s: label definitions added: %s, expected %s; text %r", desc, dict(have), c["labels"], a[len(b):])
        rest = re.sub(r'label\s+"[^"]*"\s*=\s*[^;]*;', "", a[len(b):])
        mon.check(not rest.strip(), "extra-text", "%s: prism read additional text %r", desc, rest)
        cf = os.path.join(log, "consts")
        pairs = [x.split("=", 1) for l in (open(cf).read().splitlines() if os.path.exists(cf) else []) for x in l.split(",") if x.strip()]
        mon.check(all(len(x) == 2 for x in pairs) and sorted((n.strip(), float(v)) for n, v in pairs) == sorted((n, float(v)) for n, v in c["consts"]), "constants", "%s: constants %s, expected %s", desc, pairs, c["consts"])
        mon.check(not os.path.exists(os.path.join(log, "more")), "arguments", "%s: additional files %s", desc, os.path.exists(os.path.join(log, "more")) and open(os.path.join(log, "more")).read())
        mon.ev("labels_passed", len(c["labels"])); mon.ev("constants_passed", len(c["consts"]))
    else:
        mon.ev("absent")
    if c["what"] == "import":
        mon.check((err is None) == good, "failure" if err is None else "refused", "%s: %s", desc, "returned %s" % res if err is None else "raised %s: %s" % (type(err).__name__, err))
        if good:
            mon.check(type(res) is cls, "class", "%s: %s", desc, type(res))
            x = views.diff(views.of_model(res), want, ("N", "C", "tr", "sl") + (("al",) if spec["kind"] == "mdp" else ())) or views.both_ways(res)
            mon.check(x is None, "model", "%s: the returned model differs from the exported one: %s", desc, x)
            mon.ev("imported")
        mon.check(not listing(os.path.join(d, "out")), "left-behind", "%s", listing(os.path.join(d, "out")))
    else:
        mon.check(good and err is None and res is True or not good and (err is not None or res is False), "verdict", "%s: returned %r, raised %r", desc, res, err)
        if c["mode"] == "ok":
            for e in ("tra", "lab", "sta"):
                mon.check(os.path.exists(dest + "." + e) and open(dest + "." + e).read() == open(os.path.join(log, "export." + e)).read(), "exported-files", "%s: .%s", desc, e)
            mon.check(len(listing(os.path.join(d, "out"))) == 3, "left-behind", "%s", listing(os.path.join(d, "out")))
        mon.ev("prism_to_tra")
    if not good:
        mon.ev("failures")
    mon.ev("mode:" + c["mode"])
    mon.check(open(path, "rb").read() == raw and os.stat(path).st_mtime_ns == stat.st_mtime_ns and os.stat(path).st_mode == stat.st_mode, "model-file-changed", "%s: now %r", desc, open(path, "rb").read())
    left = listing(os.path.join(d, "tmp")) + [x for x in listing(os.path.join(d, "user")) if x != path] + listing(os.path.join(d, "cwd"))
    mon.check(not left, "left-behind", "%s: %s", desc, left)
    for x, how in zip((c["consts"], c["labels"]), c["given"]):
        if x:
            mon.ev("dict" if how == "dict" else "pairs")
    if not c["text"].endswith("\n"):
        mon.ev("no_newline")
        if "//" in c["text"].splitlines()[-1:][0] if c["text"] else False:
            mon.ev("comment_end")
    mon.nontrivial(c["mode"], c["what"], len(c["labels"]), len(c["consts"]), c["given"], c["text"][-6:])
