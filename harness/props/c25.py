"""C25: benchmark runs and their plots."""
import contextlib, io, json, math, os, shutil, tempfile, time
import numpy as np
import gen as G, wit

CASES = {"quick": 2500, "thorough": 40000}
RULE = ("scripted methods (per threshold a sequence of successful results, then possibly infeasible, notsolved or undefined), real methods behind a recorder; ranges on and off the grid, ranges with rounding errors, thresholds up to one; "
        "stop_on_timeout on and off, labels, timeout, debug output, JSON directory as string or Path; lists, tuples and generators of methods and modes, one mode for several methods and one method for several modes; "
        "rendering of such records, in all plot modes, with and without normalization, replacement of timeouts, choice of solutions; non-trivial: distinct (kind, outcome, options)")
REQUIRED = {"records": 2000, "thresholds": 5000, "stopped_infeasible": 300, "stopped_timeout": 200, "continued_after_timeout": 100, "json": 500, "again": 100, "combinations": 200, "real": 100, "plots": 400, "points": 800, "ragged": 80, "empty": 60,
            "infeasible_after_results": 60, "several_results": 500, "debug": 150}
ASSUMPTIONS = ["thresholds are compared up to 1e-9; whether the threshold 1 belongs to a range ending at 1 is left open (the code as given excludes it)"]


def gen(rng, i, tier):
    kind = rng.choice(["script"] * 4 + ["multi", "multi", "real", "render", "render"])
    k = rng.random()
    if k < 0.5:
        a, st = rng.choice([0.1, 0.05, 0.001, 0.2, 0.3]), rng.choice([0.1, 0.05, 0.2, 0.15, 0.3]); to = round(min(1, a + st * rng.randint(0, 6)), 6)
    elif k < 0.6:
        a, st, to = rng.choice([(0.069, 0.019, 1), (0.085, 0.061, 1), (0.1, 0.3, 1), (0.25, 0.25, 1), (0.5, 0.1, 0.7), (0.1, 0.1, 0.3)])
    else:
        a, st = rng.uniform(1e-3, 0.6), rng.uniform(0.02, 0.3); to = min(1, a + rng.uniform(0, 6) * st)
    def script():
        n = 70
        out = []
        stop = rng.choice([None, "infeasible", "notsolved", "undefined", "infeasible"]); at = rng.randint(0, 6); r = rng.choice([1, 1, 2, 3, 5])
        for j in range(n):
            m = r if rng.random() < 0.8 else rng.randint(1, 4)
            seq = [["success", rng.choice([rng.randint(0, 60), rng.randint(0, 60), float(rng.randint(0, 9)), rng.randint(1, 9) - 1e-9])] for _ in range(m)]
            if stop and j >= at and (j == at or rng.random() < 0.3):
                seq = seq[: rng.randint(0, m)] + [[stop, None]]
            elif rng.random() < 0.04:
                seq = seq[: rng.randint(0, m)] + [[rng.choice(["notsolved", "undefined"]), None]]
            out.append(seq)
        return out
    c = {"kind": kind, "from": a, "to": to, "step": st, "stop": rng.choice([None, True, False]), "json": rng.choice([None, "str", "path"]), "debug": rng.random() < 0.15,
         "labels": rng.choice([None, ["g0", "g1"]]), "timeout": rng.choice([None, 5, 100]), "mode": rng.choice(["min", "max"]), "pos": rng.random() < 0.2, "sleep": rng.random() < 0.02}
    if kind == "multi":
        c["scripts"] = [script() for _ in range(rng.choice([1, 2, 3]))]
        c["give"] = [rng.choice(["list", "tuple", "gen", "single"]), rng.choice(["list", "tuple", "gen", "single"])]
        c["modes"] = rng.sample(["min", "max"], rng.choice([1, 2]))
        if c["give"] == ["single", "single"]:
            c["give"][0] = "list"
    elif kind == "real":
        c["spec"] = G.rf(rng, nmin=2, nmax=6, labels=False, kind=rng.choice(["dtmc", "mdp"]), ecfree=True)
        c["cfg"] = wit.config(rng, solvers=("cbc",))
        c["labels"] = None; c["timeout"] = None
        c["step"] = max(st, 0.1)
    else:
        c["scripts"] = [script()]
    if kind == "render":
        c["plots"] = [{"mode": rng.choice(["states-thr", "laststates-thr", "laststates-thr", "wall_time-thr", "proc_time-thr", None]), "normalize": rng.choice([None, True, False]), "timeout_val": rng.choice([None, None, 7, 1000]),
                       "cap": rng.choice([None, True, False]), "ax": rng.random() < 0.7, "sol": rng.random() < 0.25, "plot_no": rng.choice([1, 2, 3]), "label": rng.choice([None, "x"]), "e": rng.random() < 0.2, "title": rng.choice([None, "T"]),
                       "big": rng.random() < 0.4} for _ in range(2)]
    return c


def listed():
    """Findings listed for this property (the repository's rules keep benchmarks/ unchanged, so they cannot be repaired)."""
    import core
    f = os.path.join(core.VERIF, "known_findings.json")
    return {x["probe"] for x in json.load(open(f)) if x.get("property") == "C25" and x.get("status") == "known"}


LISTED = listed()


def probe_system():
    from switss.model import DTMC, ReachabilityForm
    return ReachabilityForm(DTMC([[0, 1.0, 0], [0, 1.0, 0], [0, 0, 1.0]], label_to_states={"init": {0}, "rf_target": {1}, "rf_fail": {2}}), "init")


def probe_run(me, mo, *a, **k):
    from switss import benchmarks
    with contextlib.redirect_stdout(io.StringIO()):
        return benchmarks.run(probe_system(), me, mo, *a, **k)


def probe_method(seqs=None):
    from switss import problem as p
    return method(p, seqs or [[["success", 1]]], "m", [], False)


def p_overshoot():
    t = [el["threshold"] for el in probe_run(probe_method(), "max", 0.1, 0.3, 0.1)["run"]]
    assert len(t) == 3, t


def p_above_one():
    probe_run(probe_method(), "max", 0.069, 1, 0.019)


def p_single_mode():
    assert len(probe_run([probe_method(), probe_method()], "max", 0.1, 0.2, 0.1)) == 2
    assert len(probe_run(probe_method(), ["min", "max"], 0.1, 0.2, 0.1)) == 2
    assert len(probe_run((m for m in [probe_method()]), ["min", "max"], 0.1, 0.2, 0.1, debug=True)) == 2


def p_ragged():
    import matplotlib
    matplotlib.use("Agg")
    from switss import benchmarks
    for run in ([], [{"threshold": 0.1, "value": [5, 4], "wall_times": [1, 2], "proc_times": [1, 2]}, {"threshold": 0.2, "value": [-1], "wall_times": [1], "proc_times": [1]}]):
        benchmarks.render({"method": {"type": "x"}, "mode": "max", "run": run}, mode="states-thr")


PROBES = {"overshoot": p_overshoot, "above-one": p_above_one, "single-mode": p_single_mode, "ragged": p_ragged}


def arange(c):
    """The thresholds the listed findings are about."""
    return [float(t) for t in np.arange(c["from"], min(1, c["to"] + c["step"]), c["step"])]


def grid(c):
    """Thresholds that must be visited, and whether the last one is optional."""
    a, to, st = c["from"], min(1, c["to"]), c["step"]
    out = []; k = 0
    while a + k * st <= to + 1e-9:
        out.append(a + k * st); k += 1
    return out, bool(out) and abs(out[-1] - 1) < 1e-9


def method(p, script, name, log, sleep):
    class Scripted(p.ProblemFormulation):
        def __init__(self):
            self.calls = 0

        @property
        def details(self):
            return {"type": "Scripted", "name": name}

        def _solveiter(self, rf, threshold, mode, labels, timeout=None):
            me = {"thr": float(threshold), "mode": mode, "labels": labels, "timeout": timeout, "rf": rf, "t": [], "p": [], "back": [], "pback": [], "res": []}
            log.append(me)
            k = self.calls; self.calls += 1
            t0, p0 = time.perf_counter(), time.process_time()
            for status, value in script[min(k, len(script) - 1)]:
                if sleep:
                    time.sleep(0.1)
                me["res"].append((status, value))
                me["t"].append(time.perf_counter() - t0); me["p"].append(time.process_time() - p0)
                yield p.ProblemResult(status, None, value, None)
                me["back"].append(time.perf_counter() - t0); me["pback"].append(time.process_time() - p0)
    return Scripted()


def recorder(p, inner, log):
    class Recorder(p.ProblemFormulation):
        @property
        def details(self):
            return inner.details

        def _solveiter(self, rf, threshold, mode, labels, timeout=None):
            me = {"thr": float(threshold), "mode": mode, "labels": labels, "timeout": timeout, "rf": rf, "t": [], "p": [], "back": [], "pback": [], "res": []}
            log.append(me)
            t0, p0 = time.perf_counter(), time.process_time()
            for r in inner.solveiter(rf, threshold, mode, labels=labels, timeout=timeout):
                me["res"].append((r.status, r.value))
                me["t"].append(time.perf_counter() - t0); me["p"].append(time.process_time() - p0)
                yield r
                me["back"].append(time.perf_counter() - t0); me["pback"].append(time.process_time() - p0)
    return Recorder()


def judge(mon, data, log, c, details, mode, desc):
    """One record against what the method was asked and yielded. log: its calls, in order."""
    thr, optional = grid(c)
    stop = c["stop"] is not False
    want = []; ended = None
    for e in log:
        vals = []
        for status, v in e["res"]:
            if status == "infeasible":
                ended = "infeasible"; break
            if status == "success":
                vals.append(v)
            else:
                vals.append(-1)
                if stop:
                    ended = "timeout"; break
        if ended != "infeasible":
            want.append((e, vals))
        if ended:
            break
    visited = [e["thr"] for e in log]
    if "overshoot" in LISTED and len(visited) == len(thr) + 1 and visited == arange(c) and visited[-1] <= 1:
        mon.ev("known:overshoot")
        thr, optional = visited, False
    full = len(thr) if not ended else None
    if full is None:
        mon.check(len(visited) <= len(thr), "thresholds", "%s: visited %s, range %s", desc, visited, thr)
    else:
        mon.check(len(visited) == full or optional and len(visited) == full - 1, "thresholds", "%s: visited %s, expected %s", desc, visited, thr)
    mon.check(all(abs(x - y) <= 1e-9 for x, y in zip(visited, thr)), "thresholds", "%s: visited %s, expected %s", desc, visited, thr)
    mon.check(all(x <= 1 for x in visited), "thresholds", "%s: visited %s", desc, visited)
    mon.check(all(e["mode"] == mode and e["labels"] == c["labels"] and e["timeout"] == c["timeout"] for e in log), "parameters", "%s: called with %s", desc, [(e["mode"], e["labels"], e["timeout"]) for e in log])
    if ended:
        # nothing is asked after the end
        mon.check(log[-1]["res"] and (log[-1]["res"][-1][0] != "success"), "continued", "%s: calls %s after the end", desc, [e["res"] for e in log][-3:])
    mon.check(data["method"] == details and data["mode"] == mode and set(data) == {"method", "mode", "run"}, "record", "%s: %s %s", desc, data["method"], data["mode"])
    run = data["run"]
    mon.check(len(run) == len(want), "record-length", "%s: %d entries for %s, expected %d (%s)", desc, len(run), visited, len(want), ended)
    for el, (e, vals) in zip(run, want):
        mon.check(el["threshold"] == e["thr"], "record-threshold", "%s: %r, asked with %r", desc, el["threshold"], e["thr"])
        mon.check(list(el["value"]) == vals, "record-values", "%s at %r: %s, the method returned %s", desc, e["thr"], el["value"], e["res"])
        for key, lo, hi in (("wall_times", e["t"], e["back"]), ("proc_times", e["p"], e["pback"])):
            ts = list(el[key])
            mon.check(len(ts) == len(vals), "record-times", "%s at %r: %d %s, %d values", desc, e["thr"], len(ts), key, len(vals))
            mon.check(all(math.isfinite(t) and t >= 0 for t in ts) and ts == sorted(ts), "record-times", "%s at %r: %s %s", desc, e["thr"], key, ts)
            mon.check(all(t >= x - 1e-6 for t, x in zip(ts, lo)), "record-times", "%s at %r: %s %s, results were available after %s", desc, e["thr"], key, ts, lo)
            # the clock is read before the method continues; the margin is for its start-up and a garbage collection
            mon.check(all(t <= x + (30 if key == "wall_times" else 2.0) for t, x in zip(ts, hi)), "record-times", "%s at %r: %s %s, the method went on after %s", desc, e["thr"], key, ts, hi)
        if len(vals) > 1:
            mon.ev("several_results")
    mon.ev("records"); mon.ev("thresholds", len(visited))
    if ended == "infeasible":
        mon.ev("stopped_infeasible")
        if len(log[-1]["res"]) > 1:
            mon.ev("infeasible_after_results")
    if ended == "timeout":
        mon.ev("stopped_timeout")
    if not ended and any(-1 in v for _, v in want):
        mon.ev("continued_after_timeout")
    if not run:
        mon.ev("empty")
    return ended


def plain(x):
    return json.loads(json.dumps(x))


def run(c, mon):
    from switss import problem as p, benchmarks
    spec = c.get("spec")
    if spec is None:
        import random
        spec = {"kind": "dtmc", "N": 3, "rows": [[0, 0, [[1, 0.5], [2, 0.5]]], [1, 0, [[1, 1.0]]], [2, 0, [[2, 1.0]]]], "sl": {"init": [0], "rf_target": [1], "rf_fail": [2]}, "al": {}, "rew": None}
    rf = G.build_rf(spec)
    d = tempfile.mkdtemp(prefix="swc25-")
    try:
        go(c, mon, d, p, benchmarks, rf)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(c, mon, d, p, benchmarks, rf):
    import pathlib
    kw = {}
    if c["stop"] is not None:
        kw["stop_on_timeout"] = c["stop"]
    if c["json"]:
        kw["json_dir"] = d if c["json"] == "str" else pathlib.Path(d)
    if c["labels"] is not None:
        kw["labels"] = c["labels"]
    if c["timeout"] is not None:
        kw["timeout"] = c["timeout"]
    if c["debug"]:
        kw["debug"] = True; mon.ev("debug")
    if not c["pos"]:
        kw.update(from_thr=c["from"], to_thr=c["to"], step=c["step"])
    pos = (c["from"], c["to"], c["step"]) if c["pos"] else ()

    def bench(me, mo, known=()):
        known = [(n, k) for n, k in known if k]
        if "above-one" in LISTED and any(t > 1 for t in arange(c)):
            known.append(("above-one", AssertionError))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return benchmarks.run(rf, me, mo, *pos, **kw)
        except Exception as e:
            for n, k in known:
                if isinstance(e, k):
                    mon.ev("known:" + n)
                    return None
            raise

    desc = "%s from %r to %r step %r %s" % (c["kind"], c["from"], c["to"], c["step"], {k: v for k, v in kw.items() if k != "json_dir"})
    if c["kind"] == "multi":
        logs = [[] for _ in c["scripts"]]
        ms = [method(p, s, "m%d" % k, log, False) for k, (s, log) in enumerate(zip(c["scripts"], logs))]
        modes = list(c["modes"])
        if c["give"][0] == "single":
            ms, logs = ms[:1], logs[:1]
        if c["give"][1] == "single":
            modes = modes[:1]
        f = {"list": list, "tuple": tuple, "gen": lambda x: (y for y in x), "single": lambda x: x[0]}
        args = f[c["give"][0]](ms), f[c["give"][1]](modes)
        hit = None
        if "single-mode" in LISTED and ("single" in c["give"] or "gen" in c["give"] and c["debug"]):
            hit = AssertionError if "single" in c["give"] else TypeError
            if c["give"] == ["single", "single"]:
                hit = None
            if "gen" in c["give"] and c["debug"]:
                hit = (AssertionError, TypeError)
        data = bench(*args, known=[("single-mode", hit)])
        if data is None:
            return
        desc += " given as %s, %s methods, modes %s" % (c["give"], len(ms), modes)
        mon.check(isinstance(data, list) and len(data) == len(ms) * len(modes), "combinations", "%s: %d records", desc, len(data))
        # split the calls of each method by mode; the script continues from mode to mode
        it = iter(data)
        for m, log in zip(ms, logs):
            rest = log
            for mo in modes:
                x = next(it)
                part = []
                while rest and rest[0]["mode"] == mo:
                    part.append(rest[0]); rest = rest[1:]
                judge(mon, x, part, c, m.details, mo, desc)
            mon.check(not rest, "order", "%s: calls in the order %s", desc, [e["mode"] for e in log])
        mon.ev("combinations", len(data))
        if c["json"]:
            files = [json.load(open(os.path.join(d, f))) for f in sorted(os.listdir(d))]
            key = lambda x: (x["method"]["name"], x["mode"])
            mon.check(sorted(files, key=key) == sorted(map(plain, data), key=key), "json", "%s: files %s", desc, sorted(os.listdir(d)))
            mon.ev("json")
        mon.nontrivial("multi", c["give"], len(ms), len(modes), [len(x["run"]) for x in data])
        return
    log = []
    if c["kind"] == "real":
        m = recorder(p, wit.make(c["cfg"]), log)
        mon.ev("real")
    else:
        m = method(p, c["scripts"][0], "only", log, c["sleep"])
    data = bench(m, c["mode"])
    if data is None:
        # up to the threshold above one everything must have gone right
        mon.check(log and [e["thr"] for e in log] == [t for t in arange(c) if t <= 1], "thresholds", "%s: visited %s before the failure at a threshold above one", desc, [e["thr"] for e in log])
        return
    ended = judge(mon, data, log, c, m.details, c["mode"], desc)
    mon.check(all(e["rf"] is rf for e in log), "parameters", "%s: called with another form", desc)
    if c["json"]:
        fs = sorted(os.listdir(d))
        mon.check(len(fs) == 1 and fs[0].endswith(".json"), "json", "%s: files %s", desc, fs)
        mon.check(json.load(open(os.path.join(d, fs[0]))) == plain(data), "json", "%s: %s, returned %s", desc, open(os.path.join(d, fs[0])).read()[:500], data)
        mon.ev("json")
        if c["to"] <= 1 and c["kind"] != "real":
            # a later run with the same method writes its own record, whatever the directory holds by then
            with open(os.path.join(d, fs[0]), "a") as f:
                f.write(" " * 3000 + "[]")
            log2 = []
            data2 = bench(method(p, c["scripts"][0][1:] or c["scripts"][0], "only", log2, False), c["mode"])
            if data2 is not None:
                judge(mon, data2, log2, c, m.details, c["mode"], desc + " again")
                mon.check(os.listdir(d) == fs and json.load(open(os.path.join(d, fs[0]))) == plain(data2), "json", "%s, again: files %s", desc, os.listdir(d))
                mon.ev("again")
    else:
        mon.check(not os.listdir(d), "json", "%s: files %s without a directory given", desc, os.listdir(d))
    mon.nontrivial(c["kind"], ended, len(data["run"]), c["stop"], c["mode"])
    for q in c.get("plots", ()):
        plot(mon, benchmarks, data, q, desc)


def plot(mon, benchmarks, data, q, desc):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    data = plain(data)
    if q["big"]:
        for el in data["run"]:
            el["wall_times"] = [t * 700 + (i % 3) for i, t in enumerate(el["wall_times"])]; el["proc_times"] = [0.3 + 1.1 * i for i, t in enumerate(el["proc_times"])]
    run = data["run"]; was = plain(data)
    count = max([len(el["value"]) for el in run], default=0)
    if len({len(el["value"]) for el in run}) > 1:
        mon.ev("ragged")
    mode = q["mode"] or "laststates-thr"
    kw = {"plot_no": q["plot_no"]}
    if q["mode"]:
        kw["mode"] = q["mode"]
    for k, n in (("normalize", "normalize"), ("timeout_val", "timeout_val"), ("cap", "cap_times_below_onesec"), ("label", "custom_label"), ("title", "title")):
        if q[k] is not None:
            kw[n] = q[k]
    if q["e"]:
        kw["e_mode"] = True
    sol = None
    if q["sol"] and count and mode != "laststates-thr":
        sol = list(range(count))[:: 2 if count > 2 else 1]
        kw["sol_range"] = sol
    plt.close("all")
    ax0 = plt.figure().add_subplot() if q["ax"] else None
    if ax0 is not None:
        kw["ax"] = ax0
    if "ragged" in LISTED and (not run or len({len(el["value"]) for el in run}) > 1):
        try:
            benchmarks.render(data, **kw)
        except (IndexError, ValueError):
            pass
        mon.check(data == was, "record-changed", "%s: rendering changed the record", desc)
        mon.ev("known:ragged")
        plt.close("all")
        return
    ax = benchmarks.render(data, **kw)
    mon.check(ax0 is None or ax is ax0, "axis", "%s: another axis was returned", desc)
    mon.check(data == was, "record-changed", "%s: rendering changed the record", desc)
    norm = q["normalize"] is not False; cap = q["cap"] is not False
    want = []
    if mode == "laststates-thr":
        if run:
            want.append([(el["threshold"], el["value"][-1]) for el in run])
    elif mode == "states-thr":
        for i in sol if sol is not None else range(count):
            want.append([(el["threshold"], el["value"][i]) for el in run if i < len(el["value"])])
    else:
        key = mode.split("-")[0] + "s"
        for i in sol if sol is not None else [-1]:
            want.append([(el["threshold"], el[key][i]) for el in run if i < len(el[key])])
    if mode.startswith(("states", "last")):
        want = [[(t, (q["timeout_val"] if v == -1 and q["timeout_val"] is not None else v) / (1000 if norm else 1)) for t, v in w] for w in want]
    elif cap:
        want = [[(t, 1 if 0 <= v <= 1 else v) for t, v in w] for w in want]
    got = [list(zip(map(float, l.get_xdata()), map(float, l.get_ydata()))) for l in ax.get_lines()]
    want = [w for w in want if w]; got = [g for g in got if g]
    same = len(want) == len(got) and all(len(g) == len(w) and all(abs(a - x) < 1e-12 and abs(b - y) <= 1e-12 * (1 + abs(y)) for (a, b), (x, y) in zip(g, w)) for g, w in zip(got, want))
    mon.check(same, "plot", "%s, %s: plotted %s, expected %s", desc, {k: v for k, v in kw.items() if k != "ax"}, got, want)
    plt.close("all")
    mon.ev("plots"); mon.ev("points", sum(map(len, want)))
    mon.nontrivial("plot", mode, norm, cap, q["timeout_val"], count, sol)
