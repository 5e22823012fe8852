"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
 "N01": "pure function of its input arrays: no schedule, clock, I/O, fault or history; deterministic simulation has nothing to inject (the same kernels are exercised against their definition by C05, C06 and C20 where a stream history exists)",
 "N02": "pure function of its input data: nothing for a simulator to schedule or fail",
 "N03": "pure function of shape and arguments: nothing for a simulator to schedule or fail",
 "N04": "pure function of shape and arguments: nothing for a simulator to schedule or fail",
 "N05": "pure function of its input data: nothing for a simulator to schedule or fail",
}
NOTE = ("seeded search over %s on the real code under a deterministic simulator: strong evidence on what was explored, not a proof. "
        "Trusts the simulator, the executable reference in the check, numpy, and that preemption at lines/bytecodes of the traced files plus every lock, clock and thread operation is fine enough.")
WHAT = {}
checks, na = [], []
sys.path.insert(0, here)
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "dst", "checks", i.lower() + ".py")):
        over = ", ".join(x.replace("_", " ") for x in p["quantifier"]["over"])
        checks.append(dict(property=i, quick_cmd="bash run.sh %s --tier quick" % i, thorough_cmd="bash run.sh %s --tier thorough" % i,
            technique="deterministic simulation with fault injection (seeded schedule, fault and history search against a reference model)",
            level="exploration", level_note=NOTE % over))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
doc = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="DST_UNUSED", enable="no hook was added to /repo: threading, time, queue, numpy.random, open/os and the cv2 module are replaced from outside before cddm is imported", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="run.sh puts HOME and all caches in a scratch directory. Replay files: evidence/replays/*.json; 'bash run.sh ID --replay FILE' re-executes one in a fresh process.")
json.dump(doc, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
