"""Systematic one-line mutants of the codec, each tried against the quick checks of its class.
mutate.py OUT [--jobs N] [--sample K/N]: prints every mutant that no check reports.  (Not a check.)"""
import ast, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
FILES = ['opendis/dis7.py', 'opendis/record/common.py', 'opendis/record/radio/__init__.py',
         'opendis/record/warfare/__init__.py', 'opendis/record/__init__.py', 'opendis/record/base.py',
         'opendis/stream.py', 'opendis/record/bitfield.py', 'opendis/PduFactory.py']
REPO = '/repo'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIGN = {'unsigned_byte': 'byte', 'byte': 'unsigned_byte', 'unsigned_short': 'short', 'short': 'unsigned_short',
        'unsigned_int': 'int', 'int': 'unsigned_int', 'uint8': 'int8', 'uint16': 'int16', 'uint32': 'int32',
        'int8': 'uint8', 'int16': 'uint16', 'int32': 'uint32', 'uint64': 'int64', 'long': 'uint64',
        'float': 'int', 'double': 'long', 'float32': 'int32', 'float64': 'int64'}


def mutants(path):
    lines = open(f'{REPO}/{path}').read().split('\n')
    tree = ast.parse('\n'.join(lines))
    owner = {}
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            for f in n.body:
                if isinstance(f, ast.FunctionDef):
                    for i in range(f.lineno, f.end_lineno + 1):
                        owner[i] = (n.name, f.name)
        elif isinstance(n, ast.FunctionDef):
            for i in range(n.lineno, n.end_lineno + 1):
                owner[i] = (None, n.name)
    for i, l in enumerate(lines, 1):
        cls, fn = owner.get(i, (None, None))
        m = re.search(r'\.(read|write)_(\w+)\(', l)
        if m and m.group(2) in SIGN and 'stream' in l.lower():
            yield path, i, l, l.replace(m.group(0), f'.{m.group(1)}_{SIGN[m.group(2)]}('), cls
            # drop high bits on writing
        if m and m.group(1) == 'write' and 'len(' not in l and re.search(r'numberOf|Length|count', l, re.I):
            yield path, i, l, re.sub(r'\((.*)\)\s*$', r'((\1) % 128)', l, 1), cls
        m = re.match(r'(\s+self\.\w+(?:: \w+)? = )(\w+)$', l)
        if m and fn == '__init__':
            yield path, i, l, m.group(1) + '0', cls
        m = re.match(r'(\s+)return len\((.*)\)(.*)$', l)
        if m:
            yield path, i, l, f'{m.group(1)}return len({m.group(2)}){m.group(3)} & 0x7f', cls
        if re.search(r'for \w+ in range\(0, ', l) and fn == 'parse':
            yield path, i, l, l.replace('range(0, ', 'range(1, '), cls
            yield path, i, l, re.sub(r'range\(0, (.*)\):', r'range(0, min(\1, 100)):', l), cls
        # exchange with the next line of the same kind
        if i < len(lines) and owner.get(i + 1) == (cls, fn) and fn in ('serialize', 'parse'):
            a, b = l, lines[i]
            if re.search(r'\.(read|write|serialize|parse)', a) and re.search(r'\.(read|write|serialize|parse)', b) \
                    and re.match(r'\s*', a).group() == re.match(r'\s*', b).group() and 'super' not in a + b \
                    and a.rstrip().endswith(')') and b.rstrip().endswith(')'):
                yield path, i, a + '\n' + b, b + '\n' + a, cls
        # wrong default when falsy
        m = re.match(r'(\s+self\.\w+ = )(\w+)$', l)
        if m and fn == '__init__':
            yield path, i, l, m.group(1) + f'{m.group(2)} or 1', cls


CHECKS = ['C04', 'C01', 'C02', 'C13', 'C07', 'C03', 'C05', 'C06', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C15']


def run(mu, copy):
    path, i, old, new, cls = mu
    f = f'{copy}/{path}'
    src = open(f'{REPO}/{path}').read()
    lines = src.split('\n')
    k = old.count('\n') + 1
    assert '\n'.join(lines[i - 1:i - 1 + k]) == old
    lines[i - 1:i - 1 + k] = new.split('\n')
    text = '\n'.join(lines)
    try:
        compile(text, path, 'exec')
    except SyntaxError:
        return 'syntax'
    open(f, 'w').write(text)
    env = dict(os.environ, SX_REPO=copy)
    got = []
    try:
        rounds = [(c, ['--only', cls]) for c in CHECKS[:5]] if cls and path != 'opendis/stream.py' else []
        rounds += [(c, []) for c in CHECKS]
        for c, extra in rounds:
            p = subprocess.run(['python3-vt', '-B', '-m', 'sx.run', c, 'quick', '--no-evidence', '--jobs', '1' if extra else '3'] + extra,
                               cwd=HERE, env=env, capture_output=True, text=True)
            if p.returncode == 1:
                return 'killed ' + c
            if p.returncode == 2 and 'no task' not in (p.stdout + p.stderr).lower():
                got.append(c)
        return 'SURVIVED' + (' rc2 ' + ','.join(sorted(set(got))) if got else '')
    finally:
        open(f, 'w').write(src)


def main():
    out = open(sys.argv[1], 'a')
    jobs = int(sys.argv[sys.argv.index('--jobs') + 1]) if '--jobs' in sys.argv else 4
    k, n = map(int, sys.argv[sys.argv.index('--sample') + 1].split('/')) if '--sample' in sys.argv else (0, 1)
    files = [sys.argv[sys.argv.index('--file') + 1]] if '--file' in sys.argv else FILES
    todo = [m for p in files for m in mutants(p)][k::n]
    print(len(todo), 'mutants', file=out, flush=True)
    copies = []
    for j in range(jobs):
        d = tempfile.mkdtemp(prefix='mut')
        subprocess.run(['git', 'clone', '-q', REPO, d], check=True)
        copies.append(d)
    free = list(copies)

    def one(m):
        d = free.pop()
        try:
            r = run(m, d)
        except Exception as e:
            r = 'error %r' % e
        free.append(d)
        print(r, '|', m[0], m[1], m[4], '|', m[2].strip().replace('\n', ' ;; ')[:90], '->', m[3].strip().replace('\n', ' ;; ')[:90], file=out, flush=True)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    for d in copies:
        shutil.rmtree(d)


main()
