"""C02: every declared datum ends up where the declaration puts it, nothing else is produced."""
import itertools as it

from harness import engine as G
from harness import families as Fm
from harness.props import c01 as C01


def jobs(tier, backend):
    for d in C01.DIMS:
        yield 'scale', d
    for j in it.chain(Fm.singles(modes=('strict',)), Fm.nested(modes=('strict',))):
        yield 'falsy', j
    yield from Fm.singles(modes=('strict',))
    yield from Fm.nested(modes=('strict',))
    yield from Fm.pairs(modes=('strict',)) if tier != 'quick' else Fm.split(Fm.pairs(modes=('strict',)), backend)


def run(job, rep, tier, backend):
    if job[0] == 'scale':
        for c, o in C01.scale_cases(rep, tier, job[1], 'strict'):
            c.check_serialize(o)
        return
    falsy = job[0] == 'falsy'
    if falsy:
        job = job[1]
    prog, vals, fields = Fm.build(job)
    c = G.Case(prog, rep)
    if not c.define():
        return
    if falsy:
        # a model may define its truth value: data which are false are data nevertheless
        import pydantic as pd
        for cls in c.ns.values():
            if isinstance(cls, type) and issubclass(cls, pd.BaseModel) and cls.__module__ != 'pydantic_xml.model':
                cls.__bool__ = lambda self: False
        for o in Fm.objects(job, c.ref, cap=6):
            rep.states += 1
            for opts in {}, {'exclude_none': True}:
                c.check_serialize(o, **opts)
            c.check_parse(c.ref.serialize(o))
        return
    more = [] if len(job[1]) == 2 else Fm.rich_objects(job, c.ref, None if tier != 'quick' else 16)
    for o in Fm.objects(job, c.ref, cap=24) + more:
        rep.states += 1
        r = c.check_serialize(o)
        if r:
            rep.sample(f'{prog.label}: {r[0]!r}')
