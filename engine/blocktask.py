"""Tasks about block parsers: proof with the engine, replay and cross-check on the real code."""
import random
import time
import hashlib
from . import runner
from .runner import outcome, limited

_G = {}


def native():
    from specs import native as n
    if 'B' not in _G:
        from . import native_env
        native_env.setup()
        _G['B'] = n.load()['BLOCKS']
    return n, _G['B']


def case(path, h, payload):
    return dict(kind='block', path=path, header=dict(type=int(h.type), version=int(h.version), id=int(h.id),
                tel=None if h.tel is None else int(h.tel)), payload=payload.hex())


def try_case(path, h, payload, seconds=10):
    n, B = native()
    s = B[path]
    runner.note_case(case(path, h, payload))
    try:
        with limited(seconds):
            return n.check_one(s, h, payload)
    except runner.Hang:
        return 'no result within %d s' % seconds
    except MemoryError:
        return 'out of memory'
    finally:
        runner.clear_case()


def hdr_of(path, c):
    n, B = native()
    cls = n.get_class(path)
    h = c['hdr']
    et = cls.eventio_type
    tel = None
    if B[path]['ids'] == 'tracking':
        tel = h['tel']
        et = 2100 + tel % 100 + 1000 * (tel // 100)
    return n.Hdr(type=et, version=h['version'], id=h['id'], tel=tel, content_size=None)


def confirm(path, version, versions, failures):
    """replay the verifier's counterexamples on the real code"""
    n, B = native()
    out = []
    for f in failures:
        f = dict(f, confirmed=False, text='')
        for c in f.get('cands', []):
            for fill in (0, 1, 0xff, None):
                rng = random.Random(7)
                data = bytearray(rng.randrange(256) if fill is None else fill for _ in range(c['len']))
                for k, v in c['data'].items():
                    data[int(k)] = v
                h = hdr_of(path, c)
                if version is not None:
                    h.version = version
                h.content_size = len(data)
                d = try_case(path, h, bytes(data))
                if d:
                    f.update(confirmed=True, text=d, replay=case(path, h, bytes(data)))
                    break
            if f['confirmed']:
                break
        out.append(f)
        if f['confirmed']:
            break
    return out


def search(path, version, seconds, count, seed, maxcounts=(4, 2, 9, 1)):
    """random well-formed inputs on the real code; (failing replay, text) or None, with counts"""
    n, B = native()
    s = B[path]
    rng = random.Random('%s/%s/%s' % (seed, path, version))
    end = time.time() + seconds
    cases = 0
    seen = set()
    samples = []
    while cases < count and time.time() < end:
        g = None
        try:
            if version is None:
                h = n.gen_hdr(rng, s)
                lo = [v for v in range(0, 9) if v not in s['versions']]
                h.version = rng.choice(lo + [rng.randrange(4096)])
                if h.version in s['versions']:
                    continue
                p = bytes(rng.randrange(256) for _ in range(rng.choice([0, 4, 40, 200])))
                h.content_size = len(p)
                g = h, p
            else:
                s2 = dict(s, versions=(version,))
                g = n.generate(s2, rng, rng.choice(maxcounts))
        except Exception:
            g = None
        cases += 1
        if g is None:
            continue
        h, p = g
        seen.add(hashlib.sha1(repr((h.version, h.id)).encode() + p).digest())
        if len(samples) < 2:
            samples.append(dict(block=path, version=h.version, id=h.id, payload=p[:64].hex(), size=len(p)))
        d = try_case(path, h, p)
        if d:
            return (dict(name='cross-check on the real code', confirmed=True, text=d, replay=case(path, h, p)),
                    cases, len(seen), samples)
    return None, cases, len(seen), samples


SOFT = ('raises TypeError', 'raises AttributeError', 'raises NameError', 'raises UnboundLocalError')


def prove(path, version, versions, deadline, seed, tier='quick', shard=None):
    from . import block
    t0 = time.time()
    r = block.run(path, version, versions, deadline=deadline, shard=shard)
    name = '%s v%s%s' % (path.split(':')[1], 'other' if version is None else version,
                         '' if shard is None else ' part %d/%d' % (shard[0] + 1, shard[1]))
    o = outcome(name, status=r.status, reason=r.reason, obligations=r.obligations, discharged=r.discharged,
                quick=r.quick, queries=r.queries, solver_time=r.solver_time, functions=r.functions, notes=list(r.notes),
                loops=r.loops, backends=r.backends)
    if getattr(r, 'where', ''):
        o['reason'] += ' (%s)' % r.where
    if r.failures:
        o['failures'] = confirm(path, version, versions, r.failures)
        if not any(f['confirmed'] for f in o['failures']):
            f, c, d, s = search(path, version, 15 if tier == 'quick' else 60, 6000, seed)
            o['cases'] += c
            o['distinct'] += d
            if f:
                f['name'] = r.failures[0]['name'] + ' (input found by search)'
                o['failures'] = [f] + o['failures']
            elif all(f['approx'] or any(k in f['name'] for k in SOFT) for f in o['failures']) or \
                    r.status == 'unsupported':
                o['status'] = 'unsupported'
                o['reason'] = (o['reason'] + ' unconfirmed: ' + r.failures[0]['name'])[:300]
                o['bounded'] = '%d random well-formed inputs' % c
                o['failures'] = []
        if o['failures']:
            o['status'] = 'failed'
    elif r.status != 'proved':
        f, c, d, s = search(path, version, 12 if tier == 'quick' else 60, 4000 if tier == 'quick' else 20000, seed)
        o['cases'] += c
        o['distinct'] += d
        o['samples'] += s
        o['bounded'] = '%d random well-formed inputs' % c
        if f:
            o['failures'] = [f]
            o['status'] = 'failed'
    return o


def cross(path, count, seconds, seed):
    """the real code agrees with the specification on random inputs"""
    n, B = native()
    s = B[path]
    o = outcome('%s cross-check' % path.split(':')[1], status='tested')
    per = max(1, count // (len(s['versions']) + 1))
    for v in list(s['versions']) + [None]:
        f, c, d, sm = search(path, v, seconds, per, seed)
        o['cases'] += c
        o['distinct'] += d
        o['samples'] += sm[:1]
        if f:
            o['failures'].append(f)
            o['status'] = 'failed'
    return o


def again(path, version, versions, deadline, seed, tier='quick', shard=None):
    """C20: the value, from any position, and nothing but the position changed afterwards"""
    from . import block, filetask, misctask
    import json
    r = block.run(path, version, versions, mode='again', deadline=deadline, shard=shard)
    o = outcome('%s v%s read again%s' % (path.split(':')[1], version, '' if shard is None else ' part %d/%d' % (shard[0] + 1, shard[1])),
                status=r.status, reason=r.reason, obligations=r.obligations, discharged=r.discharged, quick=r.quick,
                queries=r.queries, solver_time=r.solver_time, functions=r.functions, notes=list(r.notes), loops=r.loops,
                backends=r.backends)
    if r.status == 'proved':
        return o
    rng = random.Random('%s/%s/%s' % (seed, path, version))
    end = time.time() + (10 if tier == 'quick' else 60)
    seen = set()
    while time.time() < end and o['cases'] < 20000:
        c = misctask.gen_c20(rng, path, version)
        if c is None:
            o['cases'] += 1
            continue
        o['cases'] += 1
        seen.add(json.dumps(c, sort_keys=True))
        d = filetask.run_case('C20', c)
        if d:
            c, d = filetask.shrink('C20', c, d)
            nm = r.failures[0]['name'] if r.failures else 'history'
            o['failures'] = [dict(name=nm, confirmed=True, text=d, replay=dict(kind='file', prop='C20', case=c))]
            break
    o['distinct'] = len(seen)
    if o['failures']:
        o['status'] = 'failed'
        return o
    o['bounded'] = '%d random histories' % o['cases']
    o['reason'] = (o['reason'] + (' unconfirmed: ' + r.failures[0]['name'] if r.failures else ''))[:300]
    hard = [f for f in r.failures if not f['approx'] and not any(k in f['name'] for k in SOFT) and ': private ' not in f['name']]
    if hard:
        # is the block decoded right at all (C10-C15)?
        r2 = block.run(path, version, versions, deadline=deadline, shard=shard)
        if r2.status == 'proved':
            o['failures'] = [dict(f, confirmed=False, text='') for f in hard]
            o['status'] = 'failed'
            return o
    o['status'] = 'unsupported'
    return o
