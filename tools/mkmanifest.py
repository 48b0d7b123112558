#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of properties the
harness implements."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
have = [l.split()[0] for l in subprocess.check_output(
    [here + '/harness/target/release/lazcheck', 'list'], text=True).splitlines()]
NOTE = json.load(open(here + '/tools/notes.json'))
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p['id'],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": NOTE[p['id']]['technique'],
        "level": "exploration",
        "level_note": NOTE[p['id']]['note'],
    } for p in props if p['id'] in have],
    "not_applicable": [{"property": p['id'], "reason": "check not built yet"}
                       for p in props if p['id'] not in have],
    "notes": "Exit codes: 0 held, 1 violation, 2 no answer (build failure, watchdog). "
             "A replay file is run with harness/target/release/lazcheck replay FILE.",
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
