"""C24: the command line tool, whole pipelines on files."""
import contextlib, io, json, os, re, runpy, shutil, subprocess, sys, tempfile
import numpy as np
import build, core, c05, c06, c10, c18, gen as G, oracle, views, wit

CASES = {"quick": 900, "thorough": 12000}
RULE = ("random models written as .tra/.lab (renamed labels, default and given output paths), then: info, rf (files against the independent reduction, mapping file), minimize (both methods, both modes, solve and solve-iter, "
        "labels, timeouts, thresholds on both sides of the optimum), certify (produced files and files with altered thresholds/vectors), subsystem (labels, collisions, files with up to 24 iterations), render with and without coloring; wrong inputs of 17 kinds; "
        "in-process with captured output, some as real processes; non-trivial: distinct (structure, commands, verdicts)")
REQUIRED = {"rf": 300, "rf_refused": 15, "minimize": 500, "stored": 500, "infeasible": 60, "certify": 300, "verdict:VALID": 400, "verdict:INVALID": 300, "subsystem": 400, "partial_subsystem": 150, "errors": 250, "render": 40, "info": 200,
            "processes": 20, "labels": 80, "solve_iter": 120, "mode:min": 150, "mode:max": 150, "several_certificates": 80, "many_iterations": 40, "same_as_library": 300}
ASSUMPTIONS = ["parameter values on the command line contain no '=' or ','", "solver accuracy as in C15", "exact minimization of maximal probabilities with end components is refused without Gurobi (documented) and not asked for"]
CASE_WALL = 400.0
ERRORS = ["no-command", "bad-command", "bad-type", "no-model", "no-tra", "no-lab", "unknown-target", "unknown-init", "no-method", "no-solve", "no-threshold", "no-mode", "bad-mode", "bad-method", "not-rf", "no-certificate",
          "missing-certificate", "collision", "dtmc-of-mdp", "broken-tra"]


def gen(rng, i, tier):
    spec = G.reachable_model(rng, nmax=rng.choice([4, 7, 7, 12]))
    if rng.random() < 0.5:
        # the system of a reachability form is richer: losses everywhere, hardly any state with probability one
        spec = G.rf(rng, nmin=4, nmax=9)
        spec = dict(spec, sl={{"rf_target": "target", "rf_fail": "trap"}.get(l, l): ss for l, ss in spec["sl"].items()})
    spec = dict(spec, al={}, rew=None)
    c = {"spec": spec, "seed": rng.randrange(1 << 30), "process": i % 25 == 3, "names": rng.choice([None, None, ["start", "goal x", "rf*", "lost"]]), "out": rng.random() < 0.4, "render": rng.random() < 0.12,
         "error": rng.choice(ERRORS) if rng.random() < 0.4 else None, "broken": rng.random() < 0.08}
    c["runs"] = [{"cfg": wit.config(rng, solvers=("cbc", "cbc", "cbc", "glpk")), "mode": rng.choice(["min", "max"]), "x": rng.random(), "how": rng.choice(["frac", "frac", "above", "above", "near"]),
                  "iter": rng.random() < 0.5, "labels": rng.random() < 0.3, "timeout": rng.random() < 0.2, "c": rng.random() < 0.4, "sl": rng.choice([None, None, "kept"]), "o": rng.random() < 0.3,
                  "tol": rng.choice([None, None, 1e-3, 1e-7])} for _ in range(2)]
    for r in c["runs"]:
        # what the tool's help lists
        if "init" in r["cfg"]:
            r["cfg"]["init"] = rng.choice(["AllOnesInitializer", "InverseFrequencyInitializer", "InverseReachabilityInitializer"]); r["cfg"]["upd"] = "InverseResultUpdater"
    return c


DRIVER = "import sys; sys.path.insert(0, %r); import build; build.install(build.build()); import runpy; sys.argv = sys.argv[1:]; runpy.run_path(sys.argv[0], run_name='__main__')"


class Tool:
    def __init__(self, process, mon):
        self.process, self.mon = process, mon
        self.path = os.path.join(build.REPO, "bin", "switss")

    def __call__(self, *args):
        """Runs the tool; returns (exit code, output)."""
        args = [str(a) for a in args]
        if self.process:
            r = subprocess.run([sys.executable, "-W", "ignore", "-c", DRIVER % os.path.join(core.VERIF, "harness"), self.path] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            self.mon.ev("processes")
            return r.returncode, r.stdout
        out = io.StringIO(); argv = sys.argv
        sys.argv = [self.path] + args
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                runpy.run_path(self.path, run_name="__main__")
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Exception as e:
            code = 1
            out.write("%s: %s" % (type(e).__name__, e))
        finally:
            sys.argv = argv
        return code, out.getvalue()


def run(c, mon):
    d = tempfile.mkdtemp(prefix="swc24-"); cwd = os.getcwd()
    try:
        os.chdir(d)
        go(c, mon, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def snapshot(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))}


def go(c, mon, d):
    import random
    from switss.model import DTMC, MDP, ReachabilityForm as RF
    rng = random.Random(c["seed"])
    spec = c["spec"]; kind = spec["kind"]; cls = DTMC if kind == "dtmc" else MDP
    il, tl, goal, fail = "init", "target", "rf_target", "rf_fail"
    sl = dict(spec["sl"])
    if c["names"]:
        i2, t2, goal, fail = c["names"]
        sl[i2] = sl.pop("init"); sl[t2] = sl.pop("target"); il, tl = i2, t2
    spec = dict(spec, sl=sl)
    if c["broken"]:
        how = rng.choice(["two-init", "unreachable", "taken"])
        if how == "two-init":
            sl[il] = sorted({sl[il][0], (sl[il][0] + 1) % spec["N"]})
        elif how == "unreachable":
            keep, _ = oracle.reduce(spec, il, tl)
            out = [s for s in range(spec["N"]) if s not in oracle.reach(oracle.succs(spec), {sl[il][0]})]
            if out:
                sl[tl] = out
            else:
                del sl[tl]
        else:
            sl[goal] = [0]
    names = ["-trf", goal, "-frf", fail, "-i", il] if c["names"] else []
    base = os.path.join(d, "m")
    c05.write(spec, base + ".tra", base + ".lab", rng)
    first = snapshot(d)
    tool = Tool(c["process"], mon)
    seen = []

    def ok(*args, note=""):
        code, out = tool(*args)
        mon.check(code == 0, "exit", "switss %s: exit %s%s\n%s", " ".join(map(str, args)), code, note, out[-1500:])
        return out

    def fails(*args, note=""):
        code, out = tool(*args)
        mon.check(code != 0, "no-error", "switss %s: exit 0 (%s)\n%s", " ".join(map(str, args)), note, out[-1500:])
        mon.ev("errors")
        return out

    if rng.random() < 0.4:
        ok("info", kind, base); mon.ev("info")
    # --- reduction
    rfbase = os.path.join(d, "given") if c["out"] else base + "-rf"
    cmd = ["rf", kind, base] + (["-t", tl] if c["names"] else []) + names + (["-o", rfbase] if c["out"] else [])
    initial = sl.get(il, []); keep = []
    if len(initial) == 1 and sl.get(tl) and goal not in sl and fail not in sl:
        keep, _ = oracle.reduce(spec, il, tl)
    if not (keep and initial[0] in keep):
        fails(*cmd, note="the model cannot be reduced")
        mon.check(not os.path.exists(rfbase + ".tra"), "no-error", "a model that cannot be reduced gave %s", sorted(os.listdir(d)))
        mon.ev("rf_refused"); return
    ok(*cmd)
    for e in (".tra", ".lab", ".mapping.json"):
        mon.check(os.path.exists(rfbase + e), "missing-file", "%s: no %s; %s", cmd, rfbase + e, sorted(os.listdir(d)))
    rf = RF(cls.from_file(rfbase + ".lab", rfbase + ".tra"), il, goal, fail)
    mp = json.load(open(rfbase + ".mapping.json"))
    mon.check(len({len(mp[k]) for k in ("states", "actions", "rfstates", "rfactions")}) == 1, "mapping", "%s", mp)
    samap = {(s, a): (x, b) for s, a, x, b in zip(mp["states"], mp["actions"], mp["rfstates"], mp["rfactions"])}
    mon.check(len(samap) == len(mp["states"]), "mapping", "repeated state-action pairs in %s", mp)
    c06.check(spec, il, tl, rf, {k[0]: v[0] for k, v in samap.items()}, samap, goal, fail, mon)
    mon.ev("rf")
    rs = c18.back(rf, spec)
    rs["sl"] = dict(rs["sl"]); rs["sl"]["init"] = rs["sl"][il]
    j = wit.Judge(rs); cond = c10.Cond(rs)
    if c["render"]:
        render(mon, ok, rng, kind, base, sl)
    if c["error"]:
        errors(c["error"], c, fails, kind, base, rfbase, names, d, spec, mon, sl)
    if not j.k < 200:
        mon.ev("skipped_ill_conditioned"); return
    for n, r in enumerate(c["runs"]):
        # files are only read from here on
        pipeline(mon, tool, dict(r), n, rng, ok, fails, kind, rfbase, names, d, rf, rs, j, cond, il, goal, fail, cls, seen)
    now = snapshot(d)
    mon.check(all(now.get(f) == x for f, x in first.items()), "input-changed", "files changed: %s", [f for f, x in first.items() if now.get(f) != x])
    mon.nontrivial(G.fingerprint(spec), seen)


def verdicts(out):
    return re.findall(r"\b(VALID|INVALID)\b", out)


def expected(cond, mode, lam, v, tol):
    amount = cond.violation(mode, ">=", lam, v)[0]
    return "VALID" if amount <= 0.5 * tol else "INVALID" if amount > 2 * tol else None


def pipeline(mon, tool, r, n, rng, ok, fails, kind, rfbase, names, d, rf, rs, j, cond, il, goal, fail, cls, seen):
    cfg = r["cfg"]; mode = r["mode"]
    if cfg["exact"] and mode == "max" and j.ecs:
        mode = "min"
    best = j.best(mode); margin = j.margin(cfg["solver"], mode, cfg["exact"])
    lam = {"frac": best * (0.02 + 0.9 * r["x"]), "near": best - 1.5 * margin, "above": best + 1.5 * margin + 0.1 * r["x"]}[r["how"]]
    if not 1e-4 < lam <= 1 or best - margin < lam < best + margin:
        mon.ev("too_close"); return
    feasible = lam <= best
    labels = None
    if r["labels"]:
        labels = [l for l in rs["sl"] if l not in (il, goal, fail, "init") and "," not in l and "=" not in l]
        if rng.random() < 0.2:
            labels.append("unknown")
    cert = os.path.join(d, "c%d.json" % n) if r["c"] else rfbase + ".certificates.json"
    if os.path.exists(cert):
        os.unlink(cert)
    meth = ["-m", "MILPExact" if cfg["exact"] else "QSHeur", "mode=" + mode] + (["solver=" + cfg["solver"]] if cfg["solver"] != "cbc" or rng.random() < 0.5 else [])
    if not cfg["exact"]:
        meth += ["iterations=%d" % cfg["it"], "initializertype=" + cfg["init"], "updatertype=" + cfg["upd"]]
    sol = ["-si" if r["iter"] else "-s", "threshold=%r" % lam] + (["labels=" + ",".join(labels)] if labels else []) + (["timeout=600"] if r["timeout"] else [])
    tol = r["tol"] or 1e-5
    targ = ["-tol", repr(tol)] if r["tol"] else []
    cmd = ["minimize", kind, rfbase] + names + meth + sol + (["-c", cert] if r["c"] else []) + targ
    mon.ev("minimize"); mon.ev("mode:" + mode)
    if not feasible:
        code, out = tool(*cmd)
        inst = json.load(open(cert))["instances"] if os.path.exists(cert) else []
        mon.check(not inst, "certificate-of-infeasible", "%s: best %r, stored %s", cmd, best, inst)
        mon.check("VALID" not in verdicts(out), "certificate-of-infeasible", "%s: %s", cmd, out)
        mon.ev("infeasible"); seen.append((mode, "infeasible")); return
    out = ok(*cmd, note=" lam=%r best=%r" % (lam, best))
    mon.check(os.path.exists(cert), "no-certificate-file", "%s: %s", cmd, sorted(os.listdir(d)))
    info = json.load(open(cert))
    inst = info["instances"]
    # glpk may be wrong about feasibility (see C15)
    if not inst and cfg["solver"] == "glpk":
        mon.ev("glpk_errs"); return
    ref = list(wit.make(cfg).solveiter(rf, lam, mode, labels=labels or None)) if r["iter"] else [wit.make(cfg).solve(rf, lam, mode, labels=labels or None)]
    want = len(ref)
    mon.check(len(inst) == want, "instances", "%s: best %r, %d certificates stored, %d expected; %s", cmd, best, len(inst), want, out[-600:])
    mon.check(info["method"]["mode"] == mode and info["method"]["type"] == ("MILPExact" if cfg["exact"] else "QSHeur") and info["method"]["solver"] == cfg["solver"], "method-info", "%s: %s", cmd, info["method"])
    if not cfg["exact"]:
        mon.check((info["method"]["iterations"], info["method"]["initializertype"], info["method"]["updatertype"]) == (cfg["it"], cfg["init"], cfg["upd"]), "method-info", "%s: %s", cmd, info["method"])
    mon.check(len({x["iteration"] for x in inst}) == len(inst), "instances", "%s: iterations %s", cmd, [x["iteration"] for x in inst])
    mon.check([x["iteration"] for x in inst] == list(range(len(inst))), "instances", "%s: iterations %s", cmd, [x["iteration"] for x in inst])
    if all(x.status == "success" for x in ref) and cfg["solver"] == "cbc":
        # the library, asked the same question on the same files
        for x, y in zip(inst, ref):
            mon.check(np.allclose(x["certificate"], y.farkas_cert, rtol=0, atol=1e-9), "other-result", "%s: iteration %d gives %s, the library %s", cmd, x["iteration"], x["certificate"], list(y.farkas_cert))
            mon.ev("same_as_library")
    eps = j.tol(cfg["solver"], cfg["exact"])
    masks = []
    for x in inst:
        v = np.array(x["certificate"], dtype=float)
        mon.check(x["threshold"] == lam and v.shape == (j.length(mode),), "instance", "%s: %s", cmd, x)
        amount, what = j.farkas(v, mode, lam)
        mon.check(amount <= eps * j.scale(v, mode), "not-a-certificate", "%s: %s violates %s by %g", cmd, v, what, amount)
        masks.append(j.states(v, mode))
        mon.ev("stored")
    got = verdicts(out)
    mon.check(len(got) == len(inst), "verdicts", "%s: %s", cmd, out)
    for g, x in zip(got, inst):
        w = expected(cond, mode, lam, np.array(x["certificate"]), tol)
        mon.check(w in (None, g), "verdict", "%s: %s for %s, expected %s (tolerance %g)", cmd, g, x, w, tol)
    if r["iter"]:
        mon.ev("solve_iter")
    if len(inst) > 1:
        mon.ev("several_certificates")
    if labels:
        mon.ev("labels")
    # --- certify: the produced file, and one with altered instances
    files = [cert]
    alt = json.loads(json.dumps(info)); base = alt["instances"]; alt["instances"] = []
    for k in range(rng.randint(1, 5)):
        x = json.loads(json.dumps(rng.choice(base)))
        x["iteration"] = k
        how = rng.choice(["same", "threshold", "threshold-down", "entry", "scale", "zero", "negative"])
        v = np.array(x["certificate"])
        if how == "threshold":
            x["threshold"] = min(1.0, lam + rng.choice([1e-3, 0.1, 0.5]))
        elif how == "threshold-down":
            x["threshold"] = lam * rng.random()
        elif how == "entry":
            v[rng.randrange(len(v))] += rng.choice([0.1, -0.1, 1e-3, 0.5])
        elif how == "scale":
            v = v * rng.choice([0.5, 0.999, 1.1, 2])
        elif how == "zero":
            v[rng.randrange(len(v))] = 0
        elif how == "negative":
            v[rng.randrange(len(v))] -= 0.2
        x["certificate"] = [float(y) for y in v]
        alt["instances"].append(x)
    f = os.path.join(d, "alt%d.json" % n)
    json.dump(alt, open(f, "w"))
    for f in (cert, f):
        cmd = ["certify", kind, rfbase] + names + ["-c", f] + targ
        out = ok(*cmd)
        x = json.load(open(f))
        got = verdicts(out)
        mon.check(len(got) == len(x["instances"]), "verdicts", "%s: %s", cmd, out)
        for g, y in zip(got, x["instances"]):
            w = expected(cond, mode, y["threshold"], np.array(y["certificate"]), tol)
            mon.check(w in (None, g), "verdict", "%s: %s for %s, expected %s (tolerance %g)", cmd, g, y, w, tol)
            if w:
                mon.ev("verdict:" + w)
        mon.ev("certify"); seen.append(got)
    # --- subsystems
    sub = r["sl"] or "subsystem"
    if rng.random() < 0.15:
        # a file with many iterations, which differ in the states they keep
        base = inst[0]; inst = []; masks = []
        for k in range(rng.randint(9, 24)):
            v = np.abs(np.array(base["certificate"], dtype=float)) + 0.1
            for q in range(len(v)):
                if rng.random() < 0.5 and (q if mode == "min" else int(j.m.rs[q])) != j.init:
                    v[q] = 0
            inst.append(dict(base, iteration=k, certificate=[float(y) for y in v])); masks.append(j.states(v, mode))
        cert = os.path.join(d, "many%d.json" % n)
        json.dump(dict(info, instances=inst), open(cert, "w"))
        mon.ev("many_iterations")
    outb = os.path.join(d, "sub%d" % n) if r["o"] else rfbase + "-subsys"
    before = set(os.listdir(d))
    out = ok(*(["subsystem", kind, rfbase] + names + ["-c", cert] + (["-sl", sub] if r["sl"] else []) + (["-o", outb] if r["o"] else [])))
    want = views.of_model(rf.system)
    for x, mask in zip(inst, masks):
        b = "%s-%s" % (outb, x["iteration"])
        mon.check(os.path.exists(b + ".tra") and os.path.exists(b + ".lab"), "missing-file", "subsystem: no %s; %s", b, sorted(os.listdir(d)))
        s = cls.from_file(b + ".lab", b + ".tra")
        w = dict(want, sl=dict(want["sl"]))
        if mask:
            w["sl"][sub] = set(mask)
        y = views.diff(views.of_model(s), w, ("N", "C", "tr", "sl")) or views.both_ways(s)
        mon.check(y is None, "subsystem", "%s for %s: %s", b, x, y)
        type(rf)(s, il, goal, fail)
        mon.ev("subsystem")
        if 0 < len(mask) < j.n:
            mon.ev("partial_subsystem")
        for e in (".tra", ".lab"):
            os.unlink(b + e)
    new = {f for f in set(os.listdir(d)) - before}
    mon.check(not new, "extra-files", "subsystem wrote also %s", new)


def render(mon, ok, rng, kind, base, sl):
    o = os.path.join(os.path.dirname(base), "pic") if rng.random() < 0.5 else base + "-render"
    col = ["-col", ",".join(rng.sample(sorted(sl), rng.randint(1, len(sl))) + ["nothing"])] if rng.random() < 0.6 else []
    before = set(os.listdir(os.path.dirname(base)))
    ok(*(["render", kind, base] + col + (["-o", o] if o.endswith("pic") else [])))
    p = o + ".svg"
    mon.check(os.path.exists(p) and "</svg>" in open(p, encoding="utf-8").read(), "no-picture", "%s: %s", p, sorted(os.listdir(os.path.dirname(base))))
    new = set(os.listdir(os.path.dirname(base))) - before
    mon.check(new == {os.path.basename(p)}, "extra-files", "%s", new)
    os.unlink(p)
    mon.ev("render")


def errors(how, c, fails, kind, base, rfbase, names, d, spec, mon, sl):
    cert = os.path.join(d, "err.json")
    mini = ["minimize", kind, rfbase] + names + ["-c", cert]
    if how == "no-command":
        fails(note=how)
    elif how == "bad-command":
        fails("reduce", kind, base, note=how)
    elif how == "bad-type":
        fails("info", "ctmc", base, note=how)
    elif how == "no-model":
        for cmd in ("info", "rf", "render", "certify", "subsystem"):
            fails(cmd, kind, os.path.join(d, "absent"), note=how)
    elif how in ("no-tra", "no-lab"):
        b = os.path.join(d, "half")
        e = ".lab" if how == "no-tra" else ".tra"
        shutil.copy(base + e, b + e)
        fails("info", kind, b, note=how); os.unlink(b + e)
    elif how == "unknown-target":
        fails("rf", kind, base, *names, "-t", "nowhere", "-o", os.path.join(d, "err"), note=how)
    elif how == "unknown-init":
        fails("rf", kind, base, "-i", "nowhere", "-o", os.path.join(d, "err"), note=how)
    elif how == "no-method":
        fails(*mini, "-s", "threshold=0.1", note=how)
    elif how == "no-solve":
        fails(*mini, "-m", "QSHeur", "mode=min", note=how)
    elif how == "no-threshold":
        fails(*mini, "-m", "QSHeur", "mode=min", "-s", "timeout=20", note=how)
    elif how == "no-mode":
        fails(*mini, "-m", "QSHeur", "iterations=2", "-s", "threshold=0.1", note=how)
    elif how == "bad-mode":
        fails(*mini, "-m", "QSHeur", "mode=avg", "-s", "threshold=0.1", note=how)
    elif how == "bad-method":
        fails(*mini, "-m", "Magic", "mode=min", "-s", "threshold=0.1", note=how)
    elif how == "not-rf":
        fails("minimize", kind, base, "-c", cert, "-m", "QSHeur", "mode=min", "-s", "threshold=0.1", note=how)
    elif how == "no-certificate":
        fails("certify", kind, rfbase, *names, note=how)
        fails("subsystem", kind, rfbase, *names, note=how)
    elif how == "missing-certificate":
        fails("certify", kind, rfbase, *names, "-c", os.path.join(d, "nope.json"), note=how)
        fails("subsystem", kind, rfbase, *names, "-c", os.path.join(d, "nope.json"), note=how)
    elif how == "collision":
        json.dump({"method": {"mode": "min"}, "instances": []}, open(os.path.join(d, "coll.json"), "w"))
        fails("subsystem", kind, rfbase, *names, "-c", os.path.join(d, "coll.json"), "-sl", names[1] if names else "rf_target", note=how)
    elif how == "dtmc-of-mdp":
        if kind == "mdp" and len(spec["rows"]) > spec["N"]:
            fails("info", "dtmc", base, note=how)
    elif how == "broken-tra":
        b = os.path.join(d, "brk")
        lines = open(base + ".tra").read().splitlines()
        del lines[-1]
        open(b + ".tra", "w").write("\n".join(lines) + "\n"); shutil.copy(base + ".lab", b + ".lab")
        fails("info", kind, b, note=how)
        os.unlink(b + ".tra"); os.unlink(b + ".lab")
    mon.check(not os.path.exists(cert), "certificate-of-error", "%s: %s", how, os.path.exists(cert) and open(cert).read()[:400])
    mon.check(not any(f.startswith("err") for f in os.listdir(d)), "files-of-error", "%s: %s", how, sorted(os.listdir(d)))
