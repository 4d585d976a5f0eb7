"""Writes /verif/MANIFEST.json from the list of built checks and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
from mc.manifest_data import CHECKS, NOT_APPLICABLE
checks = []
for p in props:
    if p['id'] in CHECKS:
        level, technique, note = CHECKS[p['id']]
        checks.append({'property': p['id'], 'quick_cmd': f"./check {p['id']} --tier quick",
                       'thorough_cmd': f"./check {p['id']} --tier thorough",
                       'evidence_file': f"evidence/{p['id']}.json",
                       'technique': technique, 'level': level, 'level_note': note})
na = []
for p in props:
    if p['id'] not in CHECKS:
        na.append({'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'No check built yet; planned, see DESIGN.md.')})
manifest = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -c "import ratarmount, ratarmountcore"',
            'checks': checks, 'not_applicable': na,
            'notes': 'Every check explores bounded spaces exhaustively on the real code in /repo; see DESIGN.md. '
                     'No hooks in /repo are needed: all instrumentation is injected from /verif at run time.'}
json.dump(manifest, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
