"""writes /verif/MANIFEST.json from tools/worlds.py and tools/notes.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from worlds import PROPS
NA = {
 "C22": "to_csd, to_csdfixed and to_decimal are pure functions of their arguments: no schedule, clock, I/O, history or fault can reach them, so there is nothing for a simulator to decide",
 "C23": "fractions are value types and their operations pure functions of two operands: no schedule, history or fault enters",
 "C24": "the halving and container helpers are pure functions or plain containers driven by one caller: no schedule, clock, I/O or fault enters",
}
checks = [{
  "property": p,
  "level": "exploration",
  "technique": "deterministic simulation with fault injection: seeded search over " + c.get("search", "cut streams, schedules and faults") + "; " + c.get("oracle", "checked against an independent reference"),
  "quick_cmd": "python3 check.py %s --tier quick" % p,
  "thorough_cmd": "python3 check.py %s --tier thorough" % p,
  "level_note": c.get("note", c["rule"]),
} for p, c in sorted(PROPS.items())]
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
