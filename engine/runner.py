"""Runs the tasks of one property in separate processes and turns their outcomes into the verdict and the evidence."""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')


class Hang(Exception):
    pass


def _alarm(*a):
    raise Hang('no result within the time limit')


def outcome(name, **kw):
    d = dict(name=name, status='proved', reason='', obligations=0, discharged=0, quick=0, queries=0, solver_time=0.0,
             functions=[], notes=[], failures=[], cases=0, distinct=0, samples=[], bounded='', wall=0.0, loops=0,
             backends={})
    d.update(kw)
    return d


def _child(task, conn, casefile):
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    os.environ['VERIF_CASEFILE'] = casefile
    mod, fn, kw = task
    t0 = time.time()
    try:
        r = getattr(importlib.import_module(mod), fn)(**kw)
    except BaseException as x:
        r = outcome(label(task), status='unsupported', reason='%s: %s' % (type(x).__name__, str(x)[:300]),
                    notes=[traceback.format_exc()[-1500:]])
    r['wall'] = time.time() - t0
    conn.send_bytes(pickle.dumps(r))
    conn.close()


def label(task):
    return '%s(%s)' % (task[1], ', '.join(str(v) for v in task[2].values())[:120])


def run_tasks(tasks, limit, workers=None):
    workers = workers or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    todo = list(enumerate(tasks))
    running = {}
    out = [None] * len(tasks)
    end = time.time() + limit
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix='verif-run-')
    try:
        while todo or running:
            while todo and len(running) < workers:
                i, task = todo.pop(0)
                a, b = ctx.Pipe(False)
                cf = os.path.join(tmp, 'case%d' % i)
                p = ctx.Process(target=_child, args=(task, b, cf), daemon=True)
                p.start()
                b.close()
                running[i] = (p, a, cf, task, time.time())
            got = mp.connection.wait([r[1] for r in running.values()], timeout=1.0)
            for i, (p, a, cf, task, t0) in list(running.items()):
                if a in got:
                    try:
                        out[i] = pickle.loads(a.recv_bytes())
                    except (EOFError, OSError, pickle.UnpicklingError):
                        p.join(5)
                        out[i] = died(task, cf, p.exitcode)
                    a.close()
                    p.join(5)
                    if p.is_alive():
                        p.kill()
                    del running[i]
                elif time.time() > end:
                    p.kill()
                    p.join(5)
                    out[i] = outcome(label(task), status='unsupported', reason='time limit of the check')
                    del running[i]
            if time.time() > end:
                for i, task in todo:
                    out[i] = outcome(label(task), status='unsupported', reason='time limit of the check')
                todo = []
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def died(task, cf, code):
    """the process ended without a result: if it was executing a case on the real code, that case crashes it"""
    o = outcome(label(task), status='unsupported', reason='process ended with code %s' % code)
    try:
        with open(cf) as f:
            case = json.load(f)
    except Exception:
        return o
    if code is not None and code < 0 and -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
                                                   signal.SIGILL):
        o['status'] = 'failed'
        o['failures'] = [dict(name='crash', text='the interpreter is killed by signal %d' % -code, confirmed=True,
                              replay=case)]
    return o


_CASE = {}


def note_case(case):
    """remember the case about to be executed on the real code, should it kill the process"""
    p = os.environ.get('VERIF_CASEFILE')
    if p:
        with open(p, 'w') as f:
            json.dump(case, f)


def clear_case():
    p = os.environ.get('VERIF_CASEFILE')
    if p and os.path.exists(p):
        os.unlink(p)


class limited:
    """time limit for one case on the real code"""
    def __init__(self, seconds=10):
        self.s = seconds

    def __enter__(self):
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(self.s)
        except ValueError:
            pass

    def __exit__(self, *a):
        signal.alarm(0)


# ---------------------------------------------------------------- verdict
def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and not ln.startswith('#') and not ln.startswith('fixed:'):
                out.append(ln)
    return out


TRUSTED = [
    'CPython semantics of the constructs the rewriting keeps; the rewriting itself (engine/instrument.py)',
    'models of numpy, struct, io.BytesIO, dict, list, bytes (engine/arrays.py, shims.py, values.py), cross-checked '
    'against the real libraries on the cases counted under evaluations',
    'Z3 (linear integer arithmetic with uninterpreted functions; bit-vectors for masks)',
    'products of unknowns are uninterpreted apart from sign, monotonicity and congruence lemmas',
    'machine floats are opaque values: only identity, and the same operation on the same operands, is used',
    'the specification (specs/) is the reading of the eventio format the property is judged by',
]


def level_of(prop):
    try:
        with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
            return {c['property']: c['level'] for c in json.load(f)['checks']}[prop]
    except Exception:
        return 'proof'


def report(prop, tier, seed, tasks, outs, wall, extra_trusted=(), cmd=''):
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    viol = []
    kn = [k for k in known_findings() if k.startswith('property=%s ' % prop)]
    shown = set()
    for o in outs:
        seen = 0
        for f in o['failures']:
            hit = [k for k in kn if k.split(' key=', 1)[-1].split(' ')[0] == f.get('key')] if f.get('key') else []
            if hit:
                for k in hit:
                    if k not in shown:
                        shown.add(k)
                        print('KNOWN-FINDING: ' + k)
                continue
            if f.get('confirmed'):
                viol.append((o, f, True))
            elif f.get('report', True):
                viol.append((o, f, False))
            seen += 1
            if seen > 3:
                break
    # confirmed ones first; unconfirmed ones only if nothing was confirmed
    conf = [v for v in viol if v[2]]
    viol = conf[:5] if conf else viol[:3]
    for n, (o, f, ok) in enumerate(viol):
        p = os.path.join(REPLAYS, '%s-%d.json' % (prop, n))
        with open(p, 'w') as fh:
            json.dump(dict(property=prop, task=o['name'], obligation=f['name'], detail=f.get('text', ''),
                           goals=f.get('goals', []), replay=f.get('replay'), verifier_output=f.get('output', ''),
                           how='/opt/venv/bin/python /verif/replay.py ' + p), fh, indent=1, default=str)
        print('  %s: %s %s' % (o['name'], f['name'], str(f.get('text', ''))[:300]))
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if ok else ' no-failing-input-found'))
    ob = sum(o['obligations'] for o in outs)
    dis = sum(o['discharged'] for o in outs)
    fns = {}
    for o in outs:
        if o['status'] == 'proved' and o['obligations']:
            for f in o['functions']:
                fns[f] = fns.get(f, 0) + 1
    unsup = [dict(task=o['name'], reason=o['reason'], bounded=o['bounded']) for o in outs if o['status'] == 'unsupported']
    samples = []
    for o in outs:
        samples += o['samples'][:2]
    be = {}
    for o in outs:
        for k, v in o['backends'].items():
            be[k] = be.get(k, 0) + v
    be['z3-lia+uf'] = sum(o['queries'] for o in outs)
    be['interval/syntactic'] = sum(o['quick'] for o in outs)
    cov = dict(
        obligations=ob, discharged=dis, checker_cmd=cmd,
        trusted_base=TRUSTED + list(extra_trusted),
        functions_under_contract=sorted(fns), loops_by_induction=sum(o['loops'] for o in outs),
        backends=be, solver_seconds=round(sum(o['solver_time'] for o in outs), 2),
        proved_tasks=sum(o['status'] == 'proved' and o['obligations'] > 0 for o in outs),
        not_proved=unsup,
        bounded_tasks=[o['name'] + ': ' + o['bounded'] for o in outs if o['bounded'] and o['status'] != 'unsupported'],
        evaluations=sum(o['cases'] for o in outs), distinct_nontrivial=sum(o['distinct'] for o in outs),
        rule='cross-check of the real, compiled code against the specification: random well-formed inputs generated '
             'by the specification; non-trivial: the specification yields a value or a demanded error; not counted '
             'as proof',
        samples=samples[:6],
        tasks=[dict(name=o['name'], status=o['status'], obligations=o['obligations'], discharged=o['discharged'],
                    queries=o['queries'], solver_s=round(o['solver_time'], 2), wall_s=round(o['wall'], 2),
                    cases=o['cases'], reason=o['reason'], notes=o['notes'][:6]) for o in outs],
        explanation='',
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level_of(prop), coverage=cov,
              assumptions=sorted({n for o in outs for n in o['notes'] if len(n) < 200}),
              wall_s=round(wall, 2), violations=len(viol))
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    tmp = p + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.replace(tmp, p)
    print('%s: %d tasks, %d proved, %d undecided (bounded), %d obligations, %d discharged, %d cases on the real code, '
          '%.1f s' % (prop, len(outs), cov['proved_tasks'], len(unsup), ob, dis, cov['evaluations'], wall))
    for u in unsup:
        print('  not proved: %s: %s [%s]' % (u['task'], u['reason'][:160], u['bounded']))
    return 1 if viol else 0


def main(prop):
    from . import props
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import native_env
    try:
        native_env.setup()
    except Exception as x:
        print('cannot build the compiled modules: %s' % x)
        sys.exit(2)
    tasks = props.tasks(prop, tier, seed)
    outs = run_tasks(tasks, 780 if tier == 'quick' else 3400)
    if not any(o['obligations'] or o['cases'] for o in outs):
        print('%s: nothing was checked' % prop)
        sys.exit(2)
    rc = report(prop, tier, seed, tasks, outs, time.time() - t0, props.TRUSTED.get(prop, ()),
                'VERIF_SEED=%d VERIF_TIER=%s /opt/venv/bin/python /verif/check.py %s' % (seed, tier, prop))
    sys.stdout.flush()
    sys.exit(rc)
