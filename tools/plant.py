"""Plant a bug: confirm it in a scratch copy of /repo and keep it in seeded/.

usage (from a script):  from plant import plant; plant(id=..., prop=..., edits=[(file, old, new)],
demo='python source', needs=..., breaks=...)
"""
import json, os, pathlib, shutil, subprocess, sys
VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg'}
HEAD = '''#!/bin/bash
cd "${REPO_DIR:-$PWD}" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''

def plant(id, prop, edits, demo, needs, breaks, check=True, extra=None):
    scratch = pathlib.Path('/tmp/plant') / id
    shutil.rmtree(scratch, ignore_errors=True)
    scratch.parent.mkdir(exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', str(scratch)], check=True)
    try:
        for f, old, new in edits:
            p = scratch / f
            s = p.read_text()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        blame_original(scratch)
        d = subprocess.run(['git', 'diff'], cwd=scratch, capture_output=True, text=True).stdout
        assert d
        out = VERIF / 'seeded' / id
        out.mkdir(parents=True, exist_ok=True)
        (out / 'patch.diff').write_text(d)
        (out / 'demo.py').write_text(demo)
        for n, t in (extra or {}).items():
            (out / n).write_text(t)
        (out / 'demo.sh').write_text(HEAD)
        os.chmod(out / 'demo.sh', 0o755)
        (out / 'meta.json').write_text(json.dumps(
            {'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
        return verify(id, scratch, check)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


BASE = '52ba5bc'


def blame_original(scratch):
    """Every changed line must be one of the original repository."""
    import re
    diff = subprocess.run(['git', 'diff', '-U0'], cwd=scratch, capture_output=True, text=True).stdout
    name = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            name = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            start, count = int(m[1]), int(m[2] or 1)
            if count:
                out = subprocess.run(['git', 'blame', '-s', '-L', f'{start},+{count}', 'HEAD', '--', name],
                                     cwd=scratch, capture_output=True, text=True).stdout
                bad = [l for l in out.splitlines() if not l.lstrip('^').startswith(BASE[:7])]
                if bad:
                    print('  NOT ORIGINAL', bad)
            else:
                print('  PURE INSERTION', name, start)


def verify(id, scratch, check=True):
    out = VERIF / 'seeded' / id
    prop = json.loads((out / 'meta.json').read_text())['property']
    a = subprocess.run(['bash', str(out / 'demo.sh')], cwd='/repo', env=ENV, capture_output=True, text=True)
    b = subprocess.run(['bash', str(out / 'demo.sh')], cwd=scratch, env=ENV, capture_output=True, text=True)
    jx = scratch / 'junit.xml'
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                    '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
                    f'--junitxml={jx}', 'tests'], cwd=scratch,
                   env={**ENV, 'PYTHONPATH': str(scratch / 'src')}, capture_output=True)
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', str(scratch / 'r.json'), f'junit:{jx}'],
                   capture_output=True)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    got = json.load(open(scratch / 'r.json'))['passed']
    miss = [x for x in base if x not in got]
    msg = [f'{id}: demo clean={a.returncode} patched={b.returncode}', f'tests missing={miss[:3]}']
    if a.returncode != 0:
        msg.append('CLEAN DEMO: ' + (a.stdout + a.stderr)[-800:])
    caught = None
    if check:
        jx.unlink()
        c = subprocess.run(['./check', prop, 'quick'], cwd=VERIF, env={**ENV, 'GOATS_REPO': str(scratch), 'VERIF_SEED': '1'},
                           capture_output=True, text=True)
        caught = c.returncode == 1 and f'VIOLATION property={prop}' in c.stdout
        msg.append(f'check rc={c.returncode} caught={caught} :: ' + (c.stdout.splitlines()[0][:200] if c.stdout else c.stderr[-300:]))
    ok = a.returncode == 0 and b.returncode != 0 and not miss
    print(('OK  ' if ok else 'BAD ') + ' | '.join(msg), flush=True)
    return ok, caught


def redo(ids, check=True):
    for id in ids:
        scratch = pathlib.Path('/tmp/plant') / id
        shutil.rmtree(scratch, ignore_errors=True)
        scratch.parent.mkdir(exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', str(scratch)], check=True)
        try:
            r = subprocess.run(['git', 'apply', str(VERIF / 'seeded' / id / 'patch.diff')], cwd=scratch)
            if r.returncode:
                print('BAD does not apply', id); continue
            verify(id, scratch, check)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    import concurrent.futures as cf
    ids = sys.argv[1:] or sorted(p.name for p in (VERIF / 'seeded').iterdir())
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: redo([i]), ids))
