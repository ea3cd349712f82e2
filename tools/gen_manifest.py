#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ENUM = ("exploration", "bounded-exhaustive stateless exploration of the real code (every case of a bounded input space is executed) against an independent reference")
MODEL = ("model_checking", "explicit-state model checking of operation histories: every sequence up to a depth is run on the real code in step with a reference model, compared after every step")
FAULT = ("fault_enumeration", "exhaustive fault-point exploration: every single fault position of every bounded scenario is injected into the real code")
T = {
 "C01": ENUM, "C02": ENUM, "C03": ENUM, "C04": FAULT, "C05": ENUM, "C06": ENUM, "C07": MODEL, "C08": MODEL, "C09": ENUM, "C10": ENUM,
 "C11": MODEL, "C12": MODEL, "C13": MODEL, "C14": ENUM, "C15": ENUM, "C16": ENUM, "C17": ENUM, "C18": ENUM, "C19": ENUM, "C20": ENUM,
 "C21": MODEL, "C22": ENUM, "C23": ENUM, "C24": ENUM, "C25": ENUM, "C26": ENUM, "C27": ENUM, "C28": MODEL, "C29": MODEL, "C30": ENUM,
 "C31": MODEL, "C32": ENUM, "C33": ENUM, "C34": ENUM, "C35": ENUM, "C36": FAULT, "C37": FAULT, "C38": ENUM, "C39": MODEL,
}
NOTE = {
 "exploration": "Holds for every case of the stated bounded space, executed on the real code with address and undefined-behaviour sanitizers and a per-execution leak check. Trusted: the reference in mc/ref.h and the check's own oracle, compilers, sanitizers. Nothing is claimed outside the bounds listed in the evidence file.",
 "model_checking": "Holds for every operation history up to the stated depth over the stated operations; the model runs in lock step with the implementation, so every model trace is validated against the real code (sanitizers and leak check on). Trusted: the reference model in the check. Nothing is claimed beyond the depth.",
 "fault_enumeration": "Every single fault point of every scenario in the bounded set is injected into the real code (sanitizers and leak check on). Trusted: the fault injector and the scenario oracle. Multiple faults in one run are covered only where a part says so.",
}
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
have = [p for p in props if os.path.exists("%s/checks/%s.cpp" % (H, p)) and p not in open(H + "/tools/unclaimed.txt").read().split()]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: checks compile /repo/src/pe_lib as it is", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": T[p][1], "level": T[p][0], "level_note": NOTE[T[p][0]]} for p in have],
     "not_applicable": [{"property": p, "reason": "model checking applies, but its check is not built yet"} for p in props if p not in have],
     "notes": "All checks run /verif/run.py, which compiles /repo/src/pe_lib and the check source in /verif/checks with the explorer in /verif/mc."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print("claimed", len(have), "open", len(m["not_applicable"]))
