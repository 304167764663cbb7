"""Source of /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root / 'tools'))
import properties

TECH = json.loads((root / 'tools' / 'techniques.json').read_text())
NOT_YET = 'specification and conformance check not built yet'
checks, na = [], []
for p in properties.P:
    i = p['id']
    if i in TECH:
        t = TECH[i]
        checks.append({
            'property': i,
            'quick_cmd': f'./check {i} quick',
            'thorough_cmd': f'./check {i} thorough',
            'technique': t['technique'],
            'level': t.get('level', 'model_checking'),
            'level_note': t['note'],
        })
    else:
        na.append({'property': i, 'reason': NOT_YET})
(root / 'MANIFEST.json').write_text(json.dumps({
    'version': 1,
    'setup_cmd': './setup',
    'checks': checks,
    'not_applicable': na,
    'notes': 'TLA+ specifications in spec/, drivers in harness/. No hooks in /repo: every observation goes through the public API.',
}, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not applicable')
