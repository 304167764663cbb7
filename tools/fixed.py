"""usage: fixed.py PROP 'what failed'  -- record HEAD of the repository as a fix."""
import json, os, subprocess, sys, pathlib
p = pathlib.Path(__file__).resolve().parent.parent / 'known_findings.json'
d = json.loads(p.read_text())
h = subprocess.check_output(['git', '-C', os.environ.get('GOATS_REPO', '/repo'), 'rev-parse', '--short', 'HEAD'], text=True).strip()
d['fixed'].append(f'fixed: property={sys.argv[1]} {h} {sys.argv[2]}')
p.write_text(json.dumps(d, indent=1) + '\n')
