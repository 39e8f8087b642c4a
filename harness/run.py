"""python run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--n CASES] [--replay FILE]

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: inconclusive / error of the check."""
import argparse, hashlib, importlib, json, os, sys, time, warnings

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")
import core, build

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def load_module(prop):
    sys.path.insert(0, os.path.join(HERE, "props"))
    return importlib.import_module(prop.lower())


def findings(prop):
    p = os.path.join(core.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("property") == prop and f.get("status") == "known"]


def sanitized_env():
    import subprocess
    libs = [subprocess.check_output(["gcc", "-print-file-name=" + l]).decode().strip() for l in ("libasan.so", "libubsan.so")]
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        if f.startswith("san-report."):
            os.unlink(os.path.join(d, f))
    os.environ["SW_ASAN"] = "1"
    os.environ["LD_PRELOAD"] = ":".join(libs)
    os.environ["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:halt_on_error=1:max_malloc_fill_size=1000000000:malloc_fill_byte=190:"
                                  "max_free_fill_size=1000000000:free_fill_byte=205:detect_stack_use_after_return=0:handle_abort=0:log_path="
                                  + os.path.join(d, "san-report"))
    os.environ["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1:log_path=" + os.path.join(d, "san-report")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int)
    ap.add_argument("--procs", type=int, default=int(os.environ.get("VERIF_PROCS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--json")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop.upper()
    out = os.fdopen(os.dup(1), "w")

    def say(s):
        out.write(s + "\n"); out.flush()

    mod = None
    try:
        mod = load_module(prop)
        flavour = getattr(mod, "FLAVOUR", "plain")
        sodir = build.build(flavour)
        if flavour == "asan" and os.environ.get("SW_ASAN") != "1":
            sanitized_env()
            os.execv(sys.executable, [sys.executable] + sys.argv)
        build.install(sodir)
        sout = os.dup(1)
        core_null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(core_null, 1)
        import switss.model, switss.problem, switss.certification, switss.solver
        if hasattr(mod, "setup"):
            mod.setup(a.tier)
    except Exception:
        import traceback
        traceback.print_exc()
        say("INCONCLUSIVE property=%s: the code under test could not be built or imported" % prop)
        return 2

    if a.replay:
        rep = json.load(open(a.replay))
        mon = core.Mon()
        r = None

        def go():
            try:
                core.run_one(mod, rep["case"], mon)
                return None
            except core.Violation as v:
                return "%s: %s" % (v.kind, v.msg)
        r = core.isolated(go, timeout=600)
        if r == ("ok", None):
            say("replay: held"); return 0
        say("replay: %s" % (r,))
        say("VIOLATION property=%s replay=%s" % (prop, a.replay))
        return 1

    # listed findings: run exactly the listed input and say whether it still fails
    for f in findings(prop):
        probe = getattr(mod, "PROBES", {}).get(f["probe"])
        if probe is None:
            say("INCONCLUSIVE property=%s: finding %s has no probe" % (prop, f["probe"])); return 2
        r = core.isolated(probe, timeout=120)
        if r != ("ok", None):
            say("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))

    n = a.n or mod.CASES[a.tier]
    cap = {"quick": 420.0, "thorough": 3600.0 * 3}[a.tier]
    agg = core.sweep(mod, prop, a.tier, a.seed, n, a.procs, cap)

    if hasattr(mod, "post"):
        mod.post(agg, a.tier, a.seed)

    kinds = {}
    for v in agg["viol"]:
        kinds.setdefault(v["kind"], []).append(v)
    paths = []
    os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
    for k, vs in kinds.items():
        v = min(vs, key=lambda v: len(json.dumps(v["case"], default=str)))
        h = hashlib.sha1(json.dumps(v["case"], default=str, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(core.VERIF, "replays", "%s-%s-%s.json" % (prop, k.replace("/", "_").replace(" ", "_")[:60], h))
        json.dump({"property": prop, "kind": k, "msg": v["msg"], "seed": a.seed, "tier": a.tier, "index": v["i"], "count": len(vs), "case": v["case"]},
                  open(p, "w"), default=str, indent=1)
        paths.append((k, len(vs), v["msg"], p))

    ev = agg["events"]
    missing = {k: m for k, m in getattr(mod, "REQUIRED", {}).items() if ev.get(k, 0) < m * min(1.0, n / mod.CASES["quick"])}
    evidence = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": mod.LEVEL if hasattr(mod, "LEVEL") else "exploration",
        "coverage": {
            "evaluations": agg["done"], "distinct_nontrivial": len(agg["distinct"]), "rule": mod.RULE,
            "samples": [json.loads(json.dumps(s, default=str)) for s in agg["samples"][:2]],
            "events": dict(sorted(ev.items())), "inconclusive_cases": len(agg["inc"]),
            "violation_kinds": {k: c for k, c, _, _ in paths},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(agg["viol"]),
    }
    s = json.dumps(evidence["coverage"]["samples"])
    if len(s) > 20000:
        evidence["coverage"]["samples"] = [s[:8000]]
    if not a.no_evidence:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        json.dump(evidence, open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    say("%s tier=%s seed=%d cases=%d distinct=%d events=%s wall=%.1fs" % (
        prop, a.tier, a.seed, agg["done"], len(agg["distinct"]), dict(ev), time.time() - t0))
    if paths:
        for k, c, msg, p in paths:
            say("  %s (%d cases): %s" % (k, c, msg.strip()[:700]))
        for k, c, msg, p in paths:
            say("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if agg["err"]:
        say("INCONCLUSIVE property=%s: harness error: %s" % (prop, agg["err"][0]["msg"]))
        return 2
    if agg["stopped"] and agg["done"] < 0.2 * n:
        say("INCONCLUSIVE property=%s: only %d of %d cases before the time cap" % (prop, agg["done"], n))
        return 2
    if len(agg["inc"]) > 0.05 * n + 3:
        say("INCONCLUSIVE property=%s: %d inconclusive cases, e.g. %s" % (prop, len(agg["inc"]), agg["inc"][0]["msg"]))
        return 2
    if missing and not agg["stopped"]:
        say("INCONCLUSIVE property=%s: monitors saw too little: %s" % (prop, {k: (ev.get(k, 0), m) for k, m in missing.items()}))
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
