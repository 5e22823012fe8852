"""addfixed.py PROP HASH TEXT: append an entry to known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
e = "fixed: property=%s %s %s" % tuple(sys.argv[1:4])
if e not in d["fixed"]:
    d["fixed"].append(e)
json.dump(d, open(p, "w"), indent=1)
