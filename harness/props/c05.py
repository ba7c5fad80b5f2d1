"""C05: a model which forbids extras accepts a document iff everything in it is bound, and reports exactly the rest."""
from collections import Counter

from harness import engine as G
from harness import families as Fm
from harness import ref as R
from harness import spec as S
from harness.ref import neutral


def jobs(tier, backend):
    full = tier != 'quick'
    for j in Fm.singles(params={'plain': dict(extra='forbid')}):
        yield j, 2 if full else 1
    for extra in ('ignore', 'allow'):
        for j in Fm.singles(modes=Fm.MODES if full else ('strict',), params={'plain': dict(extra=extra)}):
            yield j, 1
    for j in Fm.singles(modes=('strict',), params={
        'ns_attrs': dict(Fm.PARAMS['ns_attrs'], extra='forbid'), 'dns': dict(Fm.PARAMS['ns+dns'], extra='forbid'),
    }):
        yield j, 1
    for k, ex in enumerate(((None, 'forbid'), ('forbid', None), ('forbid', 'forbid'))):
        js = Fm.nested(modes=Fm.MODES if full else ('strict',), extra=ex[0], top_extra=ex[1])
        for i, j in enumerate(js):
            if full or i % 6 == 2 * k + (backend == 'std'):
                yield j, 1
    ps = Fm.pairs(rotate=not full, extra='forbid')
    for i, j in enumerate(ps):
        if full or i % 8 == 4 * (backend == 'std'):
            yield j, 1


def run(job, rep, tier, backend):
    job, depth = job
    prog, vals, fields = Fm.build(job)
    c = G.Case(prog, rep)
    if not c.define():
        return
    seeds = [c.ref.serialize(o, quirks=False) for o in Fm.objects(job, c.ref, cap=3, product=False)]
    docs, edges = G.explore_docs(seeds, depth)
    rep.states += len(docs)
    rep.transitions += edges - len(docs)
    for d in docs:
        judge(c, d, rep)
    rep.sample(f'{prog.label}: {len(docs)} documents, e.g. {docs[-1]!r}')


def judge(c, d, rep):
    text = R.to_xml(d)
    allowed = c.ref.parses(d)
    c.check_parse(d, text=text)
    if allowed is None or not any(o[0] == 'err' and o[2] is not None for o in allowed):
        return
    got, val = c.real_parse(text)
    if got != 'err' or not hasattr(val, 'errors'):
        return          # reported by check_parse
    errs = val.errors()
    mine = Counter((e['loc'], str(e['input'])) for e in errs)
    kinds = {e['type'] for e in errs}
    for o in allowed:
        if o[0] == 'err' and o[2] is None:
            return
        if o[0] == 'err' and kinds == {'extra_forbidden'} and mine == Counter(o[2]):
            rep.count('exact leftovers')
            return
    rep.violation('the reported extra data is not exactly what the document has besides the bound data',
                  program=c.prog.label, source=S.prog_src(c.prog), doc=text, got=[(e['type'], e['loc'], str(e['input'])) for e in errs],
                  expected=[o[2] for o in allowed if o[0] == 'err'])
