"""Systematic small mutants of the numeric modules against their quick checks.
mutate_num.py OUT [--jobs N] [--sample K/N] [--file F] [--fn NAME].  (Not a check.)"""
import ast, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = '/repo'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DR, RC = 'opendis/DeadReckoning.py', 'opendis/RangeCoordinates.py'
ORDER = {DR: ['C16', 'C17', 'C18', 'C19'], RC: ['C20', 'C22', 'C21', 'C27', 'C23', 'C24']}
FIRST = {'lla2utm': 'C24', 'ecef2utm': 'C24', 'utmLetterDesignator': 'C24', 'ecef2lla': 'C27', 'ecef2llarpy': 'C23',
         'llarpy2ecef': 'C23', 'rotate_3x3': 'C23', 'ned2pae': 'C22', 'ecef2pae': 'C22', 'ecef2ned': 'C21',
         'ned2ecef': 'C21', 'ecefvec2nedvec': 'C21'}
SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}
FN = {'sin': 'cos', 'cos': 'sin', 'tan': 'sin', 'arcsin': 'arccos', 'asin': 'acos', 'acos': 'asin', 'atan2': 'hypot',
      'arctan2': 'hypot', 'sqrt': 'abs', 'deg2rad': 'rad2deg', 'rad2deg': 'deg2rad', 'radians': 'degrees'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}


def mutants(path):
    src = open(f'{REPO}/{path}').read()
    tree = ast.parse(src)
    starts = [0]
    for l in src.encode().split(b'\n'):
        starts.append(starts[-1] + len(l) + 1)
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    fns = []
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            fns.append((n.lineno, n.end_lineno, n.name))
    where = lambda l: next((nm for a, b, nm in fns if a <= l <= b), '-')
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.arguments):
            for m in n.defaults:
                docs.add(m)
    for n in ast.walk(tree):
        new = []
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            new.append('(%s) %s (%s)' % (text(n.left), SWAP[type(n.op)], text(n.right)))
            new = ['(' + new[0] + ')']
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            new.append('(' + text(n.operand) + ')')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            new.append('(%s) %s (%s)' % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and n not in docs:
            if type(n.value) is int and abs(n.value) < 10:
                new.append(str((n.value + 1) % 3 if n.value < 3 else n.value + 1))
            else:
                new.append(repr(n.value * 1.01) if n.value else '1.0')
        elif isinstance(n, ast.Call):
            f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if f in FN:
                t = text(n)
                new.append(t.replace(f, FN[f], 1))
        for t in new:
            a, b = span(n)
            if t != text(n):
                yield path, n.lineno, where(n.lineno), (raw[:a] + t.encode() + raw[b:]).decode(), text(n), t


def run(mu, copy):
    path, line, fn, new, old, t = mu
    try:
        compile(new, path, 'exec')
    except SyntaxError:
        return 'syntax'
    f = f'{copy}/{path}'
    open(f, 'w').write(new)
    order = list(ORDER[path])
    if fn in FIRST:
        order.remove(FIRST[fn])
        order.insert(0, FIRST[fn])
    rc2 = []
    try:
        for c in order:
            p = subprocess.run(['timeout', '600', 'python3-vt', '-B', '-m', 'sx.run', c, 'quick', '--no-evidence', '--jobs', '4'],
                               cwd=HERE, env=dict(os.environ, SX_REPO=copy), capture_output=True, text=True)
            if p.returncode == 1:
                return 'killed ' + c
            if p.returncode:
                rc2.append('%s:%d' % (c, p.returncode))
        return 'SURVIVED ' + ' '.join(rc2)
    finally:
        open(f, 'w').write(open(f'{REPO}/{path}').read())


def arg(name, d):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else d


def main():
    out = open(sys.argv[1], 'a')
    jobs = int(arg('--jobs', 2))
    k, n = map(int, arg('--sample', '0/1').split('/'))
    files = [arg('--file', None)] if '--file' in sys.argv else [DR, RC]
    todo = [m for p in files for m in mutants(p) if arg('--fn', m[2]) == m[2]][k::n]
    print(len(todo), 'mutants', file=out, flush=True)
    free = []
    for j in range(jobs):
        d = tempfile.mkdtemp(prefix='mut')
        subprocess.run(['git', 'clone', '-q', REPO, d], check=True)
        free.append(d)
    copies = list(free)

    def one(m):
        d = free.pop()
        try:
            r = run(m, d)
        except Exception as e:
            r = 'error %r' % e
        free.append(d)
        print(r, '|', m[0], m[1], m[2], '|', m[4].replace('\n', ' ')[:70], '->', m[5].replace('\n', ' ')[:70], file=out, flush=True)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    for d in copies:
        shutil.rmtree(d)


main()
