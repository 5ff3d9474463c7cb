"""Concrete execution of harnesses on the real package.

  replay.py FILE            replay one recorded counterexample (exit 1: fails)
  replay.py --batch IN OUT  run many jobs (used by the runner)
Needs only the project's own interpreter; no solver."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, REPO)

from sx.ctx import ConcCtx, SkipPath  # noqa: E402


def run_job(job):
    mod = importlib.import_module('checks.' + job['module'])
    ctx = ConcCtx(job['inputs'], REPO)
    out = {'skip': False}
    fd = os.dup(1)
    try:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.close(dn)
        try:
            getattr(mod, job['fn'])(ctx, **job['params'])
        except SkipPath:
            out['skip'] = True
        except Exception as e:
            ctx.failures.append('unexpected ' + type(e).__name__)
            out['trace'] = traceback.format_exc()[-1500:]
    finally:
        sys.stdout.flush()
        os.dup2(fd, 1)
        os.close(fd)
        for p, d in getattr(ctx, 'cleanup', []):
            os.unlink(p)
            os.rmdir(d)
    out['failures'] = ctx.failures
    out['obs'] = ctx.obs
    return out


def preload():
    """import the package once; every job then runs in its own copy of this process"""
    root = os.path.join(REPO, 'opendis')
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.py'):
                n = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, '.')
                try:
                    importlib.import_module(n[:-9] if n.endswith('.__init__') else n)
                except Exception:
                    pass


def isolated(job):
    """the job's result, with nothing of earlier jobs left in the process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                json.dump(run_job(job), f)
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(1)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0:
        raise RuntimeError('replay of %s died with status %d' % (job.get('fn'), st))
    return json.loads(data)


def main():
    if sys.argv[1] == '--batch':
        with open(sys.argv[2]) as f:
            jobs = json.load(f)
        for m in sorted({j['module'] for j in jobs}):
            importlib.import_module('checks.' + m)
        preload()
        res = [isolated(j) for j in jobs]
        with open(sys.argv[3], 'w') as f:
            json.dump(res, f)
        return 0
    with open(sys.argv[1]) as f:
        job = json.load(f)
    r = run_job(job)
    print('property %s subject %s' % (job['property'], job['subject']))
    print('expected failure:', job['label'])
    print('failures on the real code:', r['failures'] or 'none')
    if r.get('trace'):
        print(r['trace'])
    return 1 if job['label'] in r['failures'] else 0


if __name__ == '__main__':
    sys.exit(main())
