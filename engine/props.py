"""Tasks per property."""
from specs import native

TRUSTED = {}
SHARDS = {('CameraMonitoring', 0): 4, ('CameraMonitoring', 1): 8, ('StereoReconstruction', 0): 4,
          ('StereoReconstruction', 1): 4, ('StereoReconstruction', 2): 4, ('StereoReconstruction', 3): 4}


def blocks(prop=None):
    return {p: s for p, s in native.load()['BLOCKS'].items() if prop is None or s['prop'] == prop}


def block_tasks(prop, tier, seed):
    out = []
    dl = 150 if tier == 'quick' else 900
    for p, s in blocks(prop).items():
        for v in list(s['versions']) + [None]:
            n = SHARDS.get((s['name'], v), 1)
            for k in range(n):
                out.append(('engine.blocktask', 'prove', dict(path=p, version=v, versions=tuple(s['versions']), deadline=dl,
                            seed=seed, tier=tier, shard=None if n == 1 else (k, n))))
        out.append(('engine.blocktask', 'cross', dict(path=p, count=400 if tier == 'quick' else 6000,
                                                     seconds=3 if tier == 'quick' else 60, seed=seed)))
    # the expensive ones first
    heavy = ('Histograms', 'CameraMonitoring', 'TriggerInformation', 'StereoReconstruction', 'PixelTiming', 'ADCSums',
             'ADCSamples', 'PhotoElectrons')
    out.sort(key=lambda t: not (t[1] == 'prove' and t[2]['version'] is not None and t[2]['path'].endswith(heavy)))
    return out


def kernel_tasks(prop):
    def f(tier, seed):
        from . import ktask
        return ktask.tasks(prop, tier, seed)
    return f


tasks_C01 = kernel_tasks('C01')
tasks_C02 = kernel_tasks('C02')
tasks_C03 = kernel_tasks('C03')
tasks_C24 = kernel_tasks('C24')


def histories(prop, tier, seed, parts=8, seconds=14, count=100000):
    """bounded: random histories on the real code"""
    if tier == 'thorough':
        seconds *= 20
    return [('engine.misctask', 'task', dict(prop=prop, count=count, seconds=seconds, seed=seed, part=k)) for k in range(parts)]


def hist(*props, **kw):
    def f(tier, seed):
        out = []
        for p in props:
            out += histories(p, tier, seed, **kw)
        return out
    return f




def obj(prop, *hists, **kw):
    def f(tier, seed):
        from . import objtask
        out = objtask.tasks(prop, tier, seed)
        for p in hists:
            out += histories(p, tier, seed, **kw)
        return out
    return f


for _p in ('C04', 'C05', 'C06', 'C16', 'C17', 'C18', 'C19', 'C21', 'C22', 'C23'):
    globals()['tasks_' + _p] = obj(_p, _p)


def tasks_C08(tier, seed):
    from . import objtask
    return objtask.versions(tier, seed) + histories('C08', tier, seed, 8, 10)


tasks_C07 = obj('C07', 'C07', 'C07B')


def tasks_C20(tier, seed):
    out = []
    for t in block_tasks(None, tier, seed):
        if t[1] == 'prove' and t[2]['version'] is not None:
            out.append((t[0], 'again', dict(t[2], deadline=60 if tier == 'quick' else 900)))
    return out + histories('C20', tier, seed, 8, 14)


def tasks_C09(tier, seed):
    n = 65536 // 16
    from . import objtask
    return (objtask.tasks('C09', tier, seed) + [('engine.misctask', 'types_task', dict(lo=k * n, hi=(k + 1) * n)) for k in range(16)]
            + histories('C09', tier, seed, 8, 8))


def tasks(prop, tier, seed):
    f = globals().get('tasks_' + prop)
    if f is not None:
        return f(tier, seed)
    return block_tasks(prop, tier, seed)
