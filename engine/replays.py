"""Runs replay descriptions on the real code: returns what is wrong, or None."""


def block(r):
    from . import blocktask
    n, B = blocktask.native()
    p = bytes.fromhex(r['payload'])
    h = n.Hdr(content_size=len(p), **r['header'])
    return blocktask.try_case(r['path'], h, p)


def kernel(r):
    from . import ktask
    return ktask.replay(r)


def file(r):
    from . import filetask, simtask, misctask  # noqa
    return filetask.replay(r)


def run(r):
    return globals()[r['kind'].replace('-', '_')](r)
