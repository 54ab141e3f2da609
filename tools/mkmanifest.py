#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the table below."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NA = {}
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
TECH = "contract-based deductive verification of the real code (pyvc: contracts on the functions of /repo, obligations discharged by z3/cvc5 function by function), cross-checked on concrete inputs"
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    if p['id'] in NA: na.append(dict(property=p['id'], reason=NA[p['id']])); continue
    checks.append(dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                       technique=TECH, level='proof', level_note=NOTES.get(p['id'], NOTES['*'])))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
