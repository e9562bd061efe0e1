"""Writes MANIFEST.json from mc/specs.py and the notes below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "mc"))
from specs import CHECKS

SL = "stateless model checking of the real code: exhaustive enumeration of "
TECH = {
    "C01": SL + "instances, parameters and random outputs", "C02": SL + "instances, parameters and random outputs",
    "C03": SL + "instances and parameters, bound compared with the enumerated optimum", "C07": SL + "instances and parameters, round-by-round progress monitor",
    "C04": SL + "starting covers and expiry points", "C05": SL + "expiry points under a virtual clock",
    "C06": SL + "run histories, memory fills and clocks", "C08": SL + "greedy inputs against the definition",
    "C09": "explicit-state reference model of textbook greedy (all tie-breaks) explored exhaustively; every implementation result must be a reachable state",
    "C10": SL + "selections against an exhaustive reference", "C11": SL + "fixing sequences against a reference model",
    "C12": SL + "multiplier vectors and repeated steps", "C13": SL + "multiplier vectors against the definition", "C14": SL + "starting multipliers and parameters",
    "C15": SL + "call histories, reused object against fresh object", "C16": "explicit-state model checking: operation sequences and all counter states, model against implementation",
    "C17": "explicit-state model checking: operation sequences, model against implementation", "C18": "explicit-state model checking: operation sequences, model against implementation",
    "C19": SL + "instances and file layouts (round trip)", "C20": SL + "file faults: truncations, mutations, short files",
    "C21": SL + "solutions and write-fault points", "C22": SL + "strings against reference definitions", "C23": SL + "argument sequences against a reference model",
    "C24": SL + "program runs: inputs, options and I/O fault points", "C25": "explicit-state model of the Python solver explored over all call histories, replayed on the implementation",
    "C26": "explicit-state model of the Python solver, an invalid call at every position of every history, replayed on the implementation",
    "C27": SL + "instances, formats and starting covers", "C28": SL + "generator outputs and generator-copy interleavings",
    "C29": SL + "numeric values and type pairs", "C30": SL + "type configurations and instances",
}
NOTE = ("Exhaustive within the bounds stated in the evidence file; the property is checked on every execution of the code in /repo/src itself "
        "(no abstraction of it), against oracles computed independently by the harness. Nothing is claimed beyond those bounds. ")
EXTRA = {
    "C09": "The oracle is the set of all states the textbook procedure can reach.",
    "C24": "Runs the program built from src/main.cpp; I/O faults are injected at libc calls by a preloaded library.",
    "C25": "Trusts the C++ solver (C01-C05) as reference for the answers of solve.",
    "C05": "Trusts that time is read only through the process clock, which the harness replaces.",
}
checks = []
for p in sorted(CHECKS):
    checks.append({"property": p, "quick_cmd": f"python3 mc/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 mc/check.py {p}",
                   "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": CHECKS[p]["level"], "level_note": NOTE + EXTRA.get(p, "")})
claimed = {c["property"] for c in checks}
na = [{"property": json.loads(l)["id"], "reason": "not claimed yet"} for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip() and json.loads(l)["id"] not in claimed]
m = {"version": 1, "setup_cmd": "python3 mc/check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses use the public headers, the module and the program as they are. All commits to /repo are fixes."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
