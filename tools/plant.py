"""Build and try planted bugs.  plant.py [--checks] [ID ...]
For each bug of tools/bugs.py: a scratch copy of /repo with the change, the stable tests and the
demonstration there and on the unchanged copy, then /verif/seeded/<id>/.  --checks also runs the
quick check of its property against the scratch copy."""
import json, os, shutil, subprocess, sys, tempfile, re
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS
REPO, OUT = '/repo', '/verif/seeded'
PRE = '''import io, os, sys
sys.path.insert(0, os.getcwd())
from opendis.stream import DataInputStream, DataOutputStream


def out():
    return DataOutputStream(io.BytesIO())


def inp(data):
    return DataInputStream(io.BytesIO(bytes(data)))


def enc(obj):
    o = out()
    obj.serialize(o)
    return o.stream.getvalue()


def dec(obj, data):
    i = inp(data)
    obj.parse(i)
    return obj


'''
SH = '''#!/bin/bash
# cwd: the repository.  Exit 0 when the behaviour is right.
export PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests(d):
    env = dict(os.environ, PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', PYTHONPATH=d,
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    p = sh('timeout 200 setsid /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=100 -rA 2>&1', cwd=d, env=env)
    passed = set()
    for l in p.stdout.splitlines():
        m = re.match(r'PASSED (\S+)', l)
        if m:
            passed.add(m.group(1).split('::')[-1])
    return [s for s in STABLE if s.split('::')[-1] not in passed]


def blame_ok(bug, copy):
    """Only lines of the original repository are removed or changed."""
    base = sh('git rev-list --max-parents=0 HEAD; git log --format=%H -1 4bb5abf', cwd=REPO).stdout.split()
    bl = sh(f'git blame -s --abbrev=39 -l {bug["file"]}', cwd=REPO).stdout.splitlines()
    mine = set(sh('git log --format=%H 4bb5abf..HEAD', cwd=REPO).stdout.split())
    diff = sh(f'git diff -U0 -- {bug["file"]}', cwd=copy).stdout
    bad, orig = [], 0
    for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@', diff, re.M):
        s, n = int(m.group(1)), int(m.group(2) or 1)
        for i in range(s, s + n):
            h = bl[i - 1].split()[0].lstrip('^')
            if any(x.startswith(h) for x in mine):
                bad.append(i)
            else:
                orig += 1
    return bad, orig


def do(bug, checks):
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        clean, bad = tmp + '/clean', tmp + '/bad'
        sh(f'git clone -q {REPO} {clean}; git clone -q {REPO} {bad}')
        path = f'{bad}/{bug["file"]}'
        text = open(path).read()
        for old, new in bug['edits']:
            if text.count(old) < 1:
                return f'EDIT NOT FOUND: {old[:60]!r}'
            text = text.replace(old, new, 1) if bug.get('first', True) else text.replace(old, new)
        open(path, 'w').write(text)
        patch = sh('git diff', cwd=bad).stdout
        d = f'{OUT}/{bug["id"]}'
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.py', 'w').write(PRE + bug['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({k: bug[k] for k in ('property', 'needs', 'what_it_breaks')},
                  open(d + '/meta.json', 'w'), indent=1)
        res = []
        mine, orig = blame_ok(bug, bad)
        if mine: res.append(f'changes my own lines {mine}')
        if not orig: res.append('changes no original line')
        a = sh(f'bash {d}/demo.sh', cwd=clean)
        if a.returncode: res.append('demo fails on clean: ' + a.stderr[-300:])
        b = sh(f'bash {d}/demo.sh', cwd=bad)
        if not b.returncode: res.append('demo passes with bug')
        else: bmsg = (b.stderr.strip().splitlines() or ['?'])[-1][:100]
        t = tests(bad)
        if t: res.append(f'tests broken: {t}')
        if checks:
            p = sh(f'SX_REPO={bad} timeout 880 python3-vt -B -m sx.run {bug["property"]} quick --no-evidence', cwd='/verif')
            v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append(f'{bug["property"]} rc={p.returncode} {len(v)} violations')
        return '; '.join(res) or 'ok ' + bmsg
    finally:
        shutil.rmtree(tmp)


args = [a for a in sys.argv[1:] if a != '--checks']
for bug in BUGS:
    if args and not any(bug['id'].startswith(a) for a in args):
        continue
    print(bug['id'], bug['property'], do(bug, '--checks' in sys.argv), flush=True)
