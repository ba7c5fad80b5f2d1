"""C03: every document is bound to the model exactly as declared, or rejected."""
from harness import engine as G
from harness import families as Fm


def jobs(tier, backend):
    full = tier != 'quick'
    for j in Fm.singles(params={'plain': {}, 'ns_attrs': Fm.PARAMS['ns_attrs'], 'ns+dns': Fm.PARAMS['ns+dns']}):
        yield j, 2 if full else 1
    for j in Fm.nested() if full else Fm.split(Fm.nested(modes=('strict', 'unordered')), backend):
        yield j, 1
    for i, j in enumerate(Fm.pairs(rotate=not full)):
        if full or i % 4 == 2 * (backend == 'std'):
            yield j, 1


def run(job, rep, tier, backend):
    job, depth = job
    prog, vals, fields = Fm.build(job)
    c = G.Case(prog, rep)
    if not c.define():
        return
    seeds = [c.ref.serialize(o, quirks=False) for o in Fm.objects(job, c.ref, cap=4, product=False)]
    docs, edges = G.explore_docs(seeds, depth)
    rep.states += len(docs)
    for d in docs:
        c.check_parse(d)
    rep.sample(f'{prog.label}: {len(docs)} documents, e.g. {docs[-1]!r}')
