"""Runner: explore every task of one property, replay, report, write evidence.

  python3-vt -m sx.run C04 quick|thorough [--only SUBJECT] [--jobs N]
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
PY = next((p for p in (os.environ.get('SX_PY'), '/opt/venv/bin/python') if p and os.path.exists(p)), 'python3')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Rec:
    def __init__(self):
        self.labels = {}
        self.viol = {}
        self.undecided = {}
        self.soft = set()
        self.vague = {}

    def count(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def seen_violation(self, label):
        """nothing better is to be had: inputs that follow the path are known, or were sought often enough"""
        return label in self.viol and ('#alts' not in self.viol[label] or self.vague[label] >= 16)

    def violation(self, label, inputs):
        if inputs is None:
            inputs = {'#alts': []}
        if '#alts' in inputs:
            self.vague[label] = self.vague.get(label, 0) + 1
            if label in self.viol:
                return      # no better than what is there
        self.viol[label] = inputs


def run_task(task):
    from sx import core, load, symctx, shims
    t0 = time.time()
    rec = Rec()
    res = {'subject': task['subject'], 'fn': task['fn'], 'params': task['params'], 'viol': {}, 'wit': [],
           'error': None, 'funcs': [], 'labels': {}, 'observed': 0}
    kw = dict(timeout_ms=task.get('timeout_ms', 60000), max_paths=task.get('max_paths', 20000))
    if task.get('mode') == 'real':
        from sx import reals
        kw['timeout_ms'] = task.get('timeout_ms', 20000)
        eng = reals.RealEngine(**kw)
    else:
        eng = core.Engine(**kw)
    deadline = task.get('deadline')
    funcs = set()
    try:
        mod = importlib.import_module('checks.' + task['module'])
        fn = getattr(mod, task['fn'])
        loader, state = load.shared()
        eng_box = {}

        def body():
            ctx = symctx.SymCtx(eng, loader, rec)
            eng_box['ctx'] = ctx
            shims.VFILES.clear()
            core.TOKENS.clear()
            state.restore()

            def go():
                fn(ctx, **task['params'])
            try:
                if eng.stats.paths < 4:
                    _, s = load.trace_functions(loader, go)
                    funcs.update(s)
                else:
                    go()
            except core.SxPathEnd as e:
                if eng.mode == 'real' and isinstance(e, reals.SxCut) and len(res['wit']) < task.get('witnesses', 10):
                    # the part beyond the cut is not decided; one run along it on the real code all the same
                    inp = reals.path_inputs(ctx, True)
                    if inp is not None:
                        res['wit'].append((inp, []))
                raise
            except Exception as e:
                label = 'unexpected ' + type(e).__name__
                rec.count(label)
                if not rec.seen_violation(label):
                    inp = ctx.inputs_of(eng.model())
                    if inp is None:
                        raise core.SxInconclusive('no concrete input for ' + traceback.format_exc()[-1200:])
                    rec.violation(label, inp)
                    res.setdefault('traces', {})[label] = traceback.format_exc()[-2500:]
                return None
            if eng.stats.paths < task.get('witnesses', 10) or task.get('all_witnesses'):
                if eng.mode == 'real':
                    inp = reals.path_inputs(ctx, True)
                else:
                    m = eng.model()
                    inp = ctx.inputs_of(m)
                if inp is not None:
                    if eng.mode == 'real':
                        obs = ctx.eval_obs(None, inp)
                    else:
                        obs = ctx.eval_obs(m) if ctx.obs else []
                    res['wit'].append((inp, obs))
            return None

        for _ in eng.explore(body):
            if deadline and time.time() > deadline:
                raise core.SxInconclusive('deadline reached')
            if eng.mode == 'real' and len(rec.viol) >= reals.ENOUGH:
                break
        hard = [v for k, v in rec.undecided.items() if k not in rec.soft]
        if hard:
            raise core.SxInconclusive('; '.join(hard))
        if eng.stats.paths == 0 and not rec.viol:
            raise core.SxUnsupported('no feasible path: assumptions are vacuous')
    except core.SxUnsupported as e:
        res['error'] = 'unsupported: %s\n%s' % (e, traceback.format_exc()[-1500:])
    except core.SxInconclusive as e:
        res['error'] = 'inconclusive: %s' % e
    except core.SymListEnd:
        res['error'] = 'inconclusive: a list of symbolic length is walked\n' + traceback.format_exc()[-1500:]
    except Exception:
        res['error'] = 'internal: ' + traceback.format_exc()[-2500:]
    res['viol'] = rec.viol
    res['labels'] = rec.labels
    res['undecided'] = sorted(rec.undecided)
    res['stats'] = eng.stats.as_dict()
    res['funcs'] = sorted(funcs)
    res['wall'] = time.time() - t0
    return res


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for l in f:
                m = re.match(r'finding: property=(\S+) subject="([^"]*)" label="([^"]*)" (.*)', l.strip())
                if m:
                    out.append(m.groups())
    return out


def replay_batch(jobs, nproc):
    """run jobs concretely on the real package, in parallel"""
    if not jobs:
        return []
    n = max(1, min(nproc, (len(jobs) + 19) // 20))
    parts = [list(range(i, len(jobs), n)) for i in range(n)]
    procs = []
    with tempfile.TemporaryDirectory(prefix='sxr') as d:
        for i, idx in enumerate(parts):
            a, b = os.path.join(d, 'in%d' % i), os.path.join(d, 'out%d' % i)
            with open(a, 'w') as f:
                json.dump([jobs[j] for j in idx], f)
            procs.append((subprocess.Popen([PY, '-B', os.path.join(VERIF, 'sx', 'replay.py'), '--batch', a, b],
                                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), b, idx))
        out = [None] * len(jobs)
        for p, b, idx in procs:
            try:
                _, err = p.communicate(timeout=300)
            except subprocess.TimeoutExpired:
                p.kill()
                raise RuntimeError('replay timed out')
            if p.returncode != 0:
                raise RuntimeError('replay failed: ' + err.decode()[-2000:])
            with open(b) as f:
                for j, r in zip(idx, json.load(f)):
                    out[j] = r
    return out


def obs_equal(a, b, tol):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(obs_equal(x, y, tol) for x, y in zip(a, b))
    if tol and isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.prop
    module = prop.lower()
    mod = importlib.import_module('checks.' + module)
    limit = float(os.environ.get('SX_LIMIT', 780))
    tasks = []
    for t in mod.tasks(a.tier):
        t = dict(t)
        t.setdefault('params', {})
        t['module'] = module
        t['deadline'] = t0 + limit
        t.setdefault('witnesses', 10 if a.tier == 'quick' else 40)
        if a.only and a.only != t['subject']:
            continue
        tasks.append(t)
    if not tasks:
        print('no task for %s' % a.only)
        return 2
    tasks.sort(key=lambda t: -t.get('weight', 1))
    results = []
    from sx import load
    load.shared()
    ctxm = mp.get_context('fork')
    with ctxm.Pool(min(a.jobs, len(tasks)), maxtasksperchild=8) as pool:
        for r in pool.imap_unordered(run_task, tasks):
            results.append(r)
            if a.v:
                print('%-40s %-10s paths=%d q=%d %.1fs %s %s' % (
                    r['subject'], r['fn'], r['stats']['paths'], r['stats']['queries'], r['wall'],
                    list(r['viol']), (r['error'] or '')[:300]))
    order = {(t['subject'], t['fn'], json.dumps(t['params'], sort_keys=True)): i for i, t in enumerate(tasks)}
    results.sort(key=lambda r: order[(r['subject'], r['fn'], json.dumps(r['params'], sort_keys=True))])

    # replay
    jobs, kinds = [], []
    for r in results:
        base = {'property': prop, 'module': module, 'fn': r['fn'], 'params': r['params'], 'subject': r['subject']}
        for label, inputs in r['viol'].items():
            alts = inputs.get('#alts', [inputs])
            for i, x in enumerate(alts):
                jobs.append(dict(base, inputs=x, label=label))
                kinds.append(('v' if i == len(alts) - 1 else 'a', r, label, None))
        for inputs, obs in r['wit']:
            jobs.append(dict(base, inputs=inputs, label=None))
            kinds.append(('w', r, None, obs))
    errors = [(r['subject'], r['error']) for r in results if r['error']]
    try:
        reps = replay_batch(jobs, a.jobs)
    except RuntimeError as e:
        errors.append(('replay', str(e)))
        reps = [None] * len(jobs)
        kinds = []
        jobs = []
    violations, samples = [], []
    validated = skipped = 0
    reproduced = set()
    for (k, r, label, obs), job, rep in zip(kinds, jobs, reps):
        tol = getattr(mod, 'TOL', 0)
        if k in 'av':
            at = (id(r), label)
            if rep['failures']:
                reproduced.add(at)
                if label not in rep['failures']:
                    job = dict(job, label=rep['failures'][0])
                violations.append((job, rep))
            elif k == 'v' and at not in reproduced:
                errors.append((r['subject'], 'counterexample for %r does not reproduce on the real code%s: %s\n%s' % (
                    label, ' (skipped)' if rep['skip'] else '', json.dumps(job['params']) + json.dumps(job['inputs'])[:600],
                    r.get('traces', {}).get(label, ''))))
        else:
            known_labels = set(r['viol'])
            fails = [f for f in rep['failures'] if f not in known_labels]
            if rep['skip']:
                skipped += 1
                if not getattr(mod, 'ALLOW_SKIP', False):
                    errors.append((r['subject'], 'witness outside the harness assumptions'))
            elif fails:
                violations.append((dict(job, label=fails[0]), rep))
            elif obs and not obs_equal(obs, rep['obs'], tol) and not rep['failures']:
                errors.append((r['subject'], 'witness observations differ:\n sym %s\n real %s' % (
                    json.dumps(obs)[:800], json.dumps(rep['obs'])[:800])))
            else:
                validated += 1
                if len(samples) < 3 and obs:
                    samples.append({'subject': r['subject'], 'inputs': dict(list(job['inputs'].items())[:12]),
                                    'observed': obs[:2]})
    known = {(p, s, l): what for p, s, l, what in known_findings()}
    new, seen = [], set()
    for job, rep in violations:
        key = (prop, job['subject'], job['label'])
        if key in seen:
            continue
        seen.add(key)
        if key in known:
            print('KNOWN-FINDING: property=%s %s [%s: %s]' % (prop, known[key], job['subject'], job['label']))
        else:
            new.append((job, rep))
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for i, (job, rep) in enumerate(new):
        p = os.path.join(rdir, '%s-%d.json' % (prop, i))
        with open(p, 'w') as f:
            json.dump(job, f, indent=1, sort_keys=True)
        print('  %s: %s' % (job['subject'], job['label']))
        if rep.get('trace'):
            print('    ' + rep['trace'].strip().replace('\n', '\n    '))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    for s, e in errors[:6]:
        print('ERROR %s: %s' % (s, e if a.v else e[-1200:]), file=sys.stderr)
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r['funcs']))
    labels = sum(len(r['labels']) for r in results)
    if not samples:
        samples = [{'subject': j['subject'], 'inputs': dict(list(j['inputs'].items())[:12])} for j in jobs[:3]]
    cov = {
        'states': tot.get('paths', 0),
        'transitions': tot.get('branches', 0) + tot.get('checks', 0),
        'traces_validated_against_impl': validated,
        'samples': samples,
        'exhaustive': False,
        'explanation': 'states = complete symbolic paths through the re-compiled implementation; transitions = '
                       'branch decisions and assertions decided along them',
        'subjects': len(set(r['subject'] for r in results)),
        'branch_decisions': tot.get('branches', 0),
        'assertions': tot.get('checks', 0),
        'assertions_closed_by_rewriting': tot.get('checks_trivial', 0),
        'distinct_assertions': labels,
        'solver_queries': tot.get('queries', 0),
        'solver_unsat': tot.get('unsat', 0),
        'solver_sat': tot.get('sat', 0),
        'solver_s': round(tot.get('solver_s', 0), 3),
        'infeasible_or_cut_paths': tot.get('cut_paths', 0),
        'functions_encoded': funcs,
        'functions_encoded_count': len(funcs),
        'undecided': sorted(set('%s: %s' % (r['subject'], u) for r in results for u in r.get('undecided', ()))),
        'bounds': mod.bounds(a.tier) if hasattr(mod, 'bounds') else {},
        'solver': 'z3 ' + __import__('z3').get_version_string(),
    }
    ev = {'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', 1)), 'level': 'model_checking',
          'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': len(new),
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', []))}
    if not a.no_evidence:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d tasks, %d paths, %d assertions, %d queries (%.1fs solver), %d witnesses replayed, '
          '%d violations, %d errors, %.1fs' % (
              prop, a.tier, len(results), tot.get('paths', 0), tot.get('checks', 0), tot.get('queries', 0),
              tot.get('solver_s', 0), validated, len(new), len(errors), time.time() - t0))
    if new:
        return 1
    return 2 if errors else 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:  # no answer, which is not a violation
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
