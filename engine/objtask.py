"""Tasks for the contracts of objects, files and pipes."""
from . import fn, kernel, objunits, runner

OPS = {0: (lambda c: ['seek', c['n'], 0]), 1: (lambda c: ['seek', c['n'], 1]), 2: (lambda c: ['seek', c['n'], 2])}


def cases(prop, unit, kw, c):
    """the verifier's counterexample as a history on the real code"""
    from specs.files import Node
    if prop == 'C04' and 'S' in c and c['S'] <= 5000 and c.get('p', 0) <= 10 ** 6:
        pay = bytes((7 * i + 3) % 251 for i in range(c['S']))
        tree = [Node(99, pay, None, 0, 1, False, False).json()]
        op = [['read', c.get('n', -1)]] if 'read' in unit else [['seek', c.get('n', 0), kw.get('w', 0)]]
        for tail in ([['read', 4]], [['read', -1]], []):
            yield dict(kind='file', prop='C04', case=dict(tree=tree, path=[0], trail=3, ops=[['seek', c['p'], 0]] + op + tail))
    if prop == 'C08':
        from . import blocktask
        n, B = blocktask.native()
        s = B[kw['path']]
        et = n.get_class(kw['path']).eventio_type
        if s['ids'] == 'tracking':
            et = 2100
        for size in (0, 300):
            yield dict(kind='file', prop='C08', case=dict(path=kw['path'], type=et, version=c['version'], id=c['id'], tel=0,
                                                          payload=bytes(size).hex()))
    if prop == 'C06' and 5000 < c.get('P.len', 10 ** 9) <= 2 ** 29:
        op = ['read', c.get('n', -1)] if 'read' in unit else ['seek', c.get('n', 0), kw.get('wh', 0)]
        yield dict(kind='file', prop='C06', case=dict(pipe=c['P.len'], ops=[['read', c['p']], op, ['read', 4]]))
    if prop == 'C06' and c.get('P.len', 10 ** 9) <= 5000:
        n = max(c['P.len'], 32)
        tree = [Node(99, bytes((7 * i + 3) % 251 for i in range(n - 16)), None, 0, 1, False, False).json()]
        op = ['read', c.get('n', -1)] if 'read' in unit else ['seek', c.get('n', 0), kw.get('wh', 0)]
        for wrap in (True, False):
            yield dict(kind='file', prop='C06', case=dict(tree=tree, wrap=wrap, ops=[['read', c['p']], op, ['read', 4]]))


def prove(prop, unit, kw, tier, seed):
    from . import filetask, simtask, misctask, simunits, iactunits, miscunits  # noqa
    mod = next(m for m in (objunits, kernel, simunits, iactunits, miscunits) if hasattr(m, unit))
    kw = dict(kw)
    cls = kw.pop('cls', None)
    u = getattr(mod, unit)(**kw)
    if cls is not None:
        real = u.setup
        u.name += ' of ' + cls.split(':')[1]
        u.setup = lambda e: dict(real(e), objcls=cls)
    if mod is kernel:
        from . import ktask
        src = next(p for p in ('C02', 'C03', 'C01', 'C24') if (unit, kw) in kernel.UNITS[p])
        return fn.outcome_of(u, 150 if tier == 'quick' else 900, ktask.confirm_for(unit),
                             lambda: ktask.search(src, 15, 100000, seed))
    hist = [p for p in (prop, 'C05', 'C04') if p in filetask.CHECK][:1]

    def search():
        f, n, k, s = filetask.search(hist[0], 20 if tier == 'quick' else 120, 100000, seed)
        return f, n, k
    return fn.outcome_of(u, 150 if tier == 'quick' else 900, lambda c: cases(prop, unit, kw, c), search)


def versions(tier, seed):
    """C08: every unsupported version is refused, every supported one accepted"""
    from . import blocktask, misctask
    n, B = blocktask.native()
    out = []
    for p, s in B.items():
        if misctask.unrestricted(s):
            continue
        out.append(('engine.blocktask', 'prove', dict(path=p, version=None, versions=tuple(s['versions']), deadline=100, seed=seed,
                                                      tier=tier)))
        out.append(('engine.objtask', 'prove', dict(prop='C08', unit='u_accept', kw=dict(path=p, versions=tuple(s['versions'])),
                                                    tier=tier, seed=seed)))
    return out


def own(*names):
    """reader classes that replace one of the methods"""
    from . import native_env
    native_env.setup()
    import eventio.simtel  # noqa
    import eventio.iact  # noqa
    import eventio.histograms  # noqa
    from eventio.base import KNOWN_OBJECTS, EventIOObject
    out = {}
    for c in KNOWN_OBJECTS.values():
        if any(getattr(c, n) is not getattr(EventIOObject, n) for n in names):
            out['%s:%s' % (c.__module__, c.__name__)] = c
    return sorted(out)


def units(prop):
    from . import simunits, iactunits, miscunits
    out = []
    for m in (objunits, simunits, iactunits, miscunits):
        out += m.UNITS.get(prop, [])
    if prop == 'C04':
        out += [('u_class', dict(path=p)) for p in own('__init__')]
        for p in own('read', 'seek', 'tell'):
            out += [(u, dict(kw, cls=p)) for u, kw in objunits.UNITS['C04']]
    if prop == 'C05':
        for p in own('__next__', '__iter__', 'read', 'seek'):
            out += [(u, dict(kw, cls=p)) for u, kw in objunits.UNITS['C05'] if u.startswith('u_sub')]
    return out


def tasks(prop, tier, seed):
    return [('engine.objtask', 'prove', dict(prop=prop, unit=u, kw=kw, tier=tier, seed=seed)) for u, kw in units(prop)]
