"""Writes MANIFEST.json from properties.jsonl, the modules in props/ and the notes below."""
import importlib, json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python -W ignore"
NA = {
    "C30": "TreeAlgo cannot run here: graph_tool, dd (cudd) and more_itertools are not installed, and tree_decomp is not among the extensions the build makes; no execution of it can be observed.",
}
TECH = {
    "C01": "online reference-model monitor over generated constructions and label histories (admission oracle + view comparison)",
    "C02": "reference-model monitor (independent search) on reachability queries",
    "C03": "reference-model monitor (independent MEC/SCC computation) on generated graphs",
    "C04": "AddressSanitizer + UBSan build of the compiled code, allocation-counting shim, hostile call histories",
    "C05": "round-trip trace oracle over saved/loaded files, exact comparison",
    "C06": "reference-model monitor (independent reduction, policy iteration) on reductions",
    "C07": "admission oracle over systems mutated in one condition",
    "C08": "numeric oracle (policy iteration) on every computed vector, all free LP solvers",
    "C09": "history monitor: exact comparison of every returned constraint system, earlier results re-checked after later calls",
    "C10": "soundness/completeness oracle on check calls with legal, corrupted and hostile vectors",
    "C11": "numeric oracle on certificate generation around the true threshold",
    "C12": "monitor validating every reported witness (certificate rows, support, subsystem probability)",
    "C13": "brute-force minimum over all subsystems as oracle for exact results",
    "C14": "brute-force minimum over all subsystems as oracle for label counts",
    "C15": "numeric oracle on feasibility verdicts",
    "C16": "online monitor of the sequence of heuristic iterations",
    "C17": "reference-model monitor (independent restriction) on generated subsystem models",
    "C18": "numeric oracle (policy iteration) and admission oracle for reward forms",
    "C19": "numeric and brute-force oracles on reward witnesses",
    "C20": "history + executable model: edit histories replayed in an independent problem, optimum from HiGHS",
    "C21": "history + executable model (relation) for the dictionary pair",
    "C22": "fake external tool recording its invocation, trace oracle",
    "C23": "reference-model monitor on imported models through a recording stand-in",
    "C24": "end-to-end runs of the command line, every stored file checked by independent oracles",
    "C25": "event-log monitor of benchmark runs against a scripted method",
    "C26": "parser of the produced graph, compared with the system and the certificate",
    "C27": "formula oracle on initializer/updater outputs",
    "C28": "differential histories: every operation compared with its run on a fresh object, state fingerprint before/after",
    "C31": "history + executable model and brute-force oracles on the Gurobi back end, through a strict stand-in for gurobipy (HiGHS underneath)",
    "C29": "fault injection at the solver boundary (crash, truncation, timeout, false status) with result monitors",
}
NOTE = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        f = os.path.join(HERE, "props", i.lower() + ".py")
        if i in NA and not os.path.exists(f):
            na.append({"property": i, "reason": NA[i]})
        elif not os.path.exists(f):
            na.append({"property": i, "reason": "check not built yet"})
        else:
            src = open(f).read()
            level = "fault_enumeration" if 'LEVEL = "fault_enumeration"' in src else "exploration"
            checks.append({
                "property": i,
                "quick_cmd": "%s harness/run.py %s --tier quick" % (PY, i),
                "thorough_cmd": "%s harness/run.py %s --tier thorough" % (PY, i),
                "evidence_file": "evidence/%s.json" % i,
                "technique": "runtime monitoring: " + TECH[i],
                "level": level,
                "level_note": NOTE.get(i, "Held on the executions produced (seeded generator, counts in the evidence file), as judged by an oracle "
                                          "independent of the code under test; nothing is claimed about inputs not run."),
            })
    m = {"version": 1, "setup_cmd": "%s harness/setup.py" % PY, "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: all monitors observe the public interfaces from outside. Compiled extensions are rebuilt out of tree "
                  "from /repo's current sources (cached by content hash under /verif/build)."}
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
