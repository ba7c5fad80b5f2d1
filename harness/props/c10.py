"""C10: skip_empty, exclude_none, exclude_unset, nillable, exclude, NoXml and empty_as_string do what they say."""
import itertools as it

from harness import engine as G
from harness import families as Fm
from harness import kinds as K
from harness import ref as R
from harness.props import c22
from harness.ref import NT, Node, Obj
from harness.spec import A, E, F, M, Mod, Opt, P, Prog, Seq, Tup, UNSET, W

OPTS = [dict(zip(('skip_empty', 'exclude_none', 'exclude_unset'), x)) for x in it.product((False, True), repeat=3)]
PARAMS = {'plain': {}, 'skip': dict(skip_empty=True), 'noskip': dict(skip_empty=False)}


def jobs(tier, backend):
    full = tier != 'quick'
    for j in Fm.singles(modes=('strict',), params=PARAMS):
        yield 'ser', j
    for sk in (None, True, False):
        js = Fm.nested(modes=('strict',), skip_empty=sk)
        yield from (('ser', j) for j in js)
    for i, j in enumerate(Fm.pairs(modes=('strict',))):
        if full or i % 4 == 2 * (backend == 'std'):
            yield 'ser', j
    for item in c22.ITEMS:
        for cont in c22.CONTAINERS:
            for i, place in enumerate(c22.PLACES):
                if item != 'raw' or place != 'ns':
                    yield 'cont', (cont, item, place, ('strict', 'ordered', 'unordered')[i % 3])
    for n in NIL:
        for mode in Fm.MODES:
            yield 'nil', n, mode
    for j in Fm.singles(modes=('strict',), params={'plain': {}}):
        yield 'eas', j
    for j in Fm.nested(modes=('strict',), hows=('sub', 'list', 'wrap', 'union', 'root', 'tuple')):
        if full or hash_of(j) % 2 == (backend == 'std'):
            yield 'eas', j


def hash_of(j):
    return sum(map(ord, repr(j)))


INT, STR = P('int'), P('str')


def nil_programs():
    sub = Mod('S', (F('t', Opt(STR), default=None), F('p', Opt(INT), A(), default=None)))
    nl = E('e', nillable=True)
    # name -> (models, field, values)
    return {
        'int': ([], F('f', Opt(INT), nl), [1, None]),
        'int_default': ([], F('f', Opt(INT), nl, default=None), [1, None]),
        'int_default7': ([], F('f', Opt(INT), nl, default=7), [1, 7, None]),
        'str': ([], F('f', Opt(STR), nl, default=None), ['x', '', None]),
        'list': ([], F('f', Seq('list', Opt(INT)), nl, factory='list'), [[1, 2], [1, None], [None], []]),
        'tuple': ([], F('f', Tup((Opt(INT), Opt(STR))), nl), [(1, 'x'), (None, 'x'), (1, None), (None, None)]),
        'tuple_default': ([], F('f', Opt(Tup((Opt(INT), Opt(STR)))), nl, default=None),
                          [(1, 'x'), (None, 'x'), (1, None), None]),
        'model': ([sub], F('f', Opt(M('S')), nl), [Obj('S', dict(t='x', p=1)), Obj('S', dict(t=None, p=None)), None]),
        'model_default': ([sub], F('f', Opt(M('S')), nl, default=None),
                          [Obj('S', dict(t='x', p=1)), Obj('S', dict(t=None, p=None)), None]),
        'mlist': ([sub], F('f', Seq('list', Opt(M('S'))), nl, factory='list'),
                  [[Obj('S', dict(t='x', p=1))], [Obj('S', dict(t='x', p=1)), None], [None], []]),
        'wrap': ([], F('f', Opt(INT), W('w', nl), default=None), [1, None]),
        'wrap_model': ([sub], F('f', Opt(M('S')), W('w', nl), default=None), [Obj('S', dict(t='x', p=1)), None]),
        'computed': ([], F('f', Opt(INT), nl, computed='None'), []),
        'root_int': ([Mod('S', (F('root', Opt(INT), nl, default=None),), root=True)], F('f', M('S')),
                     [Obj('S', {'root': 1}), Obj('S', {'root': None})]),
        'root_nil': ([Mod('S', (F('root', Opt(INT), default=None),), root=True)], F('f', Opt(M('S')), nl, default=None),
                     [Obj('S', {'root': 1}), Obj('S', {'root': None}), None]),
        'not': ([], F('f', Opt(INT), E('e'), default=None), [1, None]),
        'not_false': ([], F('f', Opt(INT), E('e', nillable=False), default=None), [1, None]),
        'not_model': ([sub], F('f', Opt(M('S')), E('e'), default=None), [Obj('S', dict(t='x', p=1)), None]),
    }


NIL = tuple(nil_programs())


def unset_variants(job, ref):
    """every object of the job + the ones where defaulted fields are left out (so that they are `unset`)"""
    objs = Fm.objects(job, ref, cap=16)
    prog = ref.prog
    out = list(objs)
    top = ref.eff['Top']
    opt = [f.name for f in top.fields if f.computed is None and ref.has_default(f)]
    for n in range(1, len(opt) + 1):
        for drop in it.combinations(opt, n):
            for o in objs[:2]:
                vals = {k: v for k, v in o.vals.items() if k not in drop}
                out.append(ref.make('Top', **{k: v for k, v in vals.items()}))
    # the same anywhere below: sub-models, items of collections and tuples
    for o in objs[:3]:
        out.extend(list(below(o, ref))[:24])
    return out


def below(v, ref, top=True):
    """the value with one defaulted field of one sub-model left out"""
    if isinstance(v, Obj):
        if not top:
            for f in ref.eff[v.cls].fields:
                if f.computed is None and ref.has_default(f) and f.name in v.set:
                    yield ref.make(v.cls, **{a: b for a, b in v.vals.items() if a != f.name and a in v.set})
        for k, x in v.vals.items():
            for y in below(x, ref, False):
                yield Obj(v.cls, {**v.vals, k: y}, v.set)
    elif isinstance(v, NT):
        for i, x in enumerate(v):
            for y in below(x, ref, False):
                yield NT(v._name, [*v[:i], y, *v[i + 1:]])
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            for y in below(x, ref, False):
                yield type(v)([*v[:i], y, *v[i + 1:]])


def run(job, rep, tier, backend):
    if job[0] == 'nil':
        return run_nil(rep, *job[1:])
    if job[0] == 'cont':
        return containers(rep, *job[1])
    what, job = job
    prog, vals, fields = Fm.build(job)
    c = G.Case(prog, rep)
    if not c.define():
        return
    if what == 'ser':
        pair = job[0] == 'flat' and len(job[1]) == 2
        objs = unset_variants(job, c.ref) + Fm.rich_objects(job, c.ref, None if tier != 'quick' else 16) if not pair else \
            Fm.objects(job, c.ref, cap=8)
        for o in objs:
            rep.states += 1
            real = c.build(o)
            if real is None:
                return
            for opts in OPTS:
                if opts['exclude_unset'] and has_computed(c.ref, o):
                    continue        # computed fields are never `set`: their status under this option is not documented
                r = c.check_serialize(o, real, **opts)
        rep.sample(f'{prog.label}: {r and r[0]!r}')
    else:
        seeds = [c.ref.serialize(o, quirks=False) for o in Fm.objects(job, c.ref, cap=3, product=False)]
        docs, edges = G.explore_docs(seeds, 1)
        for d in docs:
            rep.states += 1
            c.check_parse(d, eas=True)


def containers(rep, cont, item, place, mode):
    """every kind of container, empty and not, in every place"""
    prog, mk, vals, odd, hashable, tag = c22.program(lambda t: Seq(cont, t), item, place, mode, None)
    if cont in ('set', 'frozenset') and not hashable:
        return
    c = G.Case(prog, rep)
    if not c.define():
        return
    vals = vals[:2] + ([None] if item == 'opt' and cont in ('list', 'tuple', 'deque') else []) + ([''] if item == 'str' else [])
    for s in c22.sequences(vals, 2):
        rep.states += 1
        obj = mk(R.SEQS[cont](s))
        real = c.build(obj)
        if real is None:
            return
        for opts in OPTS:
            c.check_serialize(obj, real, **opts)
    rep.sample(prog.label)


def has_computed(ref, v):
    if isinstance(v, Obj):
        return any(f.computed is not None for f in ref.eff[v.cls].fields) or any(has_computed(ref, x) for x in v.vals.values())
    if isinstance(v, (list, tuple)):
        return any(has_computed(ref, x) for x in v)
    return False


def run_nil(rep, name, mode):
    mods, f, vals = nil_programs()[name]
    top = Mod('Top', (f, F('z', Opt(STR), E(), default=None)), tag='top', mode=mode)
    prog = Prog(tuple(mods + [top]), f'nillable {name} {mode}')
    c = G.Case(prog, rep)
    if not c.define():
        return
    seeds = []
    for v in vals or [None]:
        o = G.complete(Obj('Top', {'f': v, 'z': 'x'} if f.computed is None else {'z': 'x'}), c.ref)
        real = c.build(o)
        rep.states += 1
        for opts in OPTS:
            if f.computed is not None and opts['exclude_unset']:
                continue
            r = c.check_serialize(o, real, **opts)
        rep.sample(f'{prog.label}: {r and r[0]!r}')
        seeds.append(c.ref.serialize(o))
    docs, edges = G.explore_docs(seeds, 1)
    more = []
    for d in docs:      # every spelling of xsi:nil
        for i, n in enumerate(walk(d)):
            if R.NIL in n.attrs:
                for v in ('true', 'false', '1', '0', 'True', ''):
                    e = d.clone()
                    list(walk(e))[i].attrs[R.NIL] = v
                    more.append(e)
    for d in docs + more:
        rep.states += 1
        for eas in (False, True):
            c.check_parse(d, eas=eas)


def walk(n):
    yield n
    for k in n.kids:
        yield from walk(k)
