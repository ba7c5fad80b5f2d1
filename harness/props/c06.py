"""C06: unions of models: the first variant which accepts the data wins, rejected variants leave no trace."""
import itertools as it

from harness import engine as G
from harness import families as Fm
from harness import ref as R
from harness import spec as S
from harness.ref import Node, Obj
from harness.spec import A, E, F, M, Map, Mod, Opt, P, Prog, Raw, Seq, TEXT, Tup, Uni, W

INT, STR = P('int'), P('str')


def variant(shape, n):
    """-> helper models, variant model, values"""
    h = []
    if shape == 'attr_int':
        m, v = Mod(n, (F('v', INT, A()),)), [dict(v=1)]
    elif shape == 'attr_str':
        m, v = Mod(n, (F('v', STR, A()),)), [dict(v='s')]
    elif shape == 'attr_lit':
        m, v = Mod(n, (F('v', P("Literal['u']"), A()),)), [dict(v='u')]
    elif shape == 'attr_opt':
        m, v = Mod(n, (F('v', Opt(INT), A(), default=None), F('x', Opt(STR), E(), default=None))), [dict(v=2, x='t')]
    elif shape == 'elem_int':
        m, v = Mod(n, (F('x', INT, E()), F('y', Opt(INT), E(), default=None))), [dict(x=1, y=2), dict(x=1, y=None)]
    elif shape == 'elem_str':
        m, v = Mod(n, (F('x', STR, E()), F('y', Opt(STR), E(), default=None))), [dict(x='a', y='b')]
    elif shape == 'text_int':
        m, v = Mod(n, (F('t', INT),)), [dict(t=5)]
    elif shape == 'text_attr':
        m, v = Mod(n, (F('v', Opt(STR), A(), default=None), F('t', STR))), [dict(v='k', t='txt')]
    elif shape == 'list_int':
        m, v = Mod(n, (F('x', Seq('list', INT), E()),)), [dict(x=[1, 2])]
    elif shape == 'list_str':
        m, v = Mod(n, (F('x', Seq('list', STR), E()),)), [dict(x=['a', '3'])]
    elif shape == 'forbid':
        m, v = Mod(n, (F('v', Opt(INT), A(), default=None), F('x', Opt(INT), E(), default=None)), extra='forbid'), \
            [dict(v=1, x=2), dict(v=1, x=None)]
    elif shape == 'nested':
        h = [Mod(n + 'I', (F('y', INT, E()),))]
        m, v = Mod(n, (F('x', M(n + 'I'), E()), F('v', Opt(STR), A(), default=None))), \
            [dict(x=Obj(n + 'I', {'y': 3}), v='q')]
    elif shape == 'wrapped':
        m, v = Mod(n, (F('v', INT, W('x', E('y'))), F('z', Opt(INT), W('x', A('k')), default=None))), [dict(v=1, z=2)]
    elif shape == 'dict':
        m, v = Mod(n, (F('d', Map(STR, INT)),)), [dict(d={'v': 4})]
    elif shape == 'root_int':
        m, v = Mod(n, (F('root', INT),), root=True), [dict(root=7)]
    elif shape == 'root_list':
        m, v = Mod(n, (F('root', Seq('list', INT), E('x')),), root=True), [dict(root=[7, 8])]
    elif shape == 'union':
        h = [Mod(n + 'P', (F('v', INT, A()),)), Mod(n + 'Q', (F('v', STR, A()),))]
        m, v = Mod(n, (F('x', Uni((M(n + 'P'), M(n + 'Q'))), E()),)), [dict(x=Obj(n + 'Q', {'v': 'z'}))]
    elif shape == 'after':
        m, v = Mod(n, (F('v', INT, A()),), config=()), [dict(v=3)]
    elif shape == 'unordered':
        m, v = Mod(n, (F('y', INT, E()), F('x', INT, E())), mode='unordered'), [dict(y=1, x=2)]
    elif shape == 'raw':
        m, v = Mod(n, (F('x', Raw(), E()), F('v', Opt(INT), A(), default=None))), [dict(x=Node('x', '1', {'k': '2'}), v=1)]
    else:
        raise AssertionError(shape)
    return h, m, v


SHAPES = ('attr_int', 'attr_str', 'attr_lit', 'attr_opt', 'elem_int', 'elem_str', 'text_int', 'text_attr', 'list_int',
          'list_str', 'forbid', 'nested', 'wrapped', 'dict', 'root_int', 'root_list', 'union', 'unordered', 'raw')
CORE = ('attr_int', 'elem_int', 'elem_str', 'text_attr', 'list_int', 'forbid', 'dict')
AFTERS = ('none', 'elem', 'same', 'list', 'forbid')
HOWS = ('req', 'opt', 'list', 'wrap', 'tuple')


def jobs(tier, backend):
    full = tier != 'quick'
    k = 0
    for a, b in it.product(SHAPES, SHAPES):
        for how in HOWS:
            for after in AFTERS:
                for mode in Fm.MODES:
                    k += 1
                    if full or k % 17 == (k // 17) % 17:
                        yield (a, b), how, after, mode, ('same', 'own', 'mixed')[(k // 3) % 3]
    for tr in it.product(CORE, repeat=3):
        for i, how in enumerate(HOWS):
            k += 1
            if full or k % 5 == (backend == 'std'):
                yield tr, how, AFTERS[k % 5], Fm.MODES[k % 3], ('same', 'own')[k % 2]
    for a, b in it.product(CORE, CORE):
        yield (a, b), 'subclass', 'elem', 'strict', 'same'
    for i, a in enumerate(s for s in SHAPES if not s.startswith('root')):
        for j, order in enumerate(('01', '10', '012', '210', '102', '02', '20')):
            for k, req in enumerate((True, False)):
                for g, how in enumerate(('req', 'opt', 'list', 'wrap', 'tuple')):
                    if full or (i + j + k + g) % 3 == 0:
                        yield (a, order, req, how), 'related', 'elem', Fm.MODES[(i + j + g) % 3], ('same', 'own')[(i + g) % 2]
    for i, (a, b) in enumerate(it.product(SHAPES, SHAPES)):
        yield (a, b), 'samename', 'elem', Fm.MODES[i % 3], ('same', 'own')[i // 3 % 2]


def program(job):
    shapes, how, after, mode, tags = job
    mods, names, vals = [], [], []
    for i, s in enumerate(shapes):
        n = f'V{i}'
        h, m, v = variant(s, n)
        if tags == 'own' or (tags == 'mixed' and i == 0):
            m = Mod(**{**m.__dict__, 'tag': f'v{i}'})
        if m.mode is None and not m.root:
            m = Mod(**{**m.__dict__, 'mode': mode})
        mods += h + [m]
        names.append(n)
        vals.append([Obj(n, x) for x in v])
    u = Uni(tuple(M(n) for n in names))
    ent = E('u') if tags == 'same' else TEXT
    flat = [o for v in vals for o in v]
    if how == 'req':
        f, fv = F('u', u, ent), flat
    elif how == 'opt':
        f, fv = F('u', Opt(u), ent, default=None), flat + [None]
    elif how in ('list', 'samename'):
        f, fv = F('u', Seq('list', u), ent), [flat, list(reversed(flat)), flat[:1]]
    elif how == 'wrap':
        f, fv = F('u', u, W('w', ent)), flat
    elif how == 'tuple':
        f, fv = F('u', Tup((u, u)), ent), [(flat[0], flat[-1]), (flat[-1], flat[0])]
    elif how == 'subclass':
        mods += [Mod(f'D{i}', (F('more', Opt(INT), E(), default=None),), base=n) for i, n in enumerate(names)]
        f, fv = F('u', u, ent), flat + [Obj(f'D{i}', {**v[0].vals, 'more': 4}) for i, v in enumerate(vals)]
    fields = [f]
    av = [[None]]
    extra = 'forbid' if after == 'forbid' else None
    if after in ('elem', 'forbid'):
        fields.append(F('after', Opt(STR), E(), default=None))
        av = [['x'], [None]]
    elif after == 'same':
        fields.append(F('after', Opt(STR), E('u'), default=None))
    elif after == 'list':
        fields.append(F('after', Seq('list', STR), E('u'), factory='list'))
    prog = Prog(tuple(mods + [Mod('Top', tuple(fields), tag='top', mode=mode, extra=extra)]),
                f'{how} of {"|".join(shapes)} then {after} {mode} tags={tags}')
    objs = []
    for i, x in enumerate(fv):
        vals = {'u': x}
        if after in ('elem', 'forbid'):
            vals['after'] = av[i % 2][0]
        objs.append(Obj('Top', vals))
    return prog, objs


def related(job):
    """variants which are derived from one another"""
    (shape, order, req, how), _, _, mode, tags = job
    h, m, v = variant(shape, 'V0')
    m = Mod(**{**m.__dict__, 'mode': mode, **({'tag': 'v0'} if tags == 'own' else {})})
    more = lambda n: F(n, INT if req else Opt(INT), E(), **({} if req else {'default': None}))
    ms = [m]
    for i in (1, 2):
        ms.append(Mod(f'V{i}', (more(f'm{i}'),), base=f'V{i - 1}', mode=mode, **({'tag': f'v{i}'} if tags == 'own' else {})))
    vals = [[Obj('V0', dict(x)), Obj('V1', dict(x, m1=1)), Obj('V2', dict(x, m1=2, m2=3))] for x in v]
    u = Uni(tuple(M(f'V{i}') for i in order))
    ent = E('u') if tags == 'same' else TEXT
    flat = [x[int(i)] for x in vals for i in order]
    if how in ('req', 'opt'):
        f, fv = (F('u', u, ent), flat) if how == 'req' else (F('u', Opt(u), ent, default=None), flat + [None])
    elif how == 'list':
        f, fv = F('u', Seq('list', u), ent), [flat, flat[::-1], flat[:1]]
    elif how == 'wrap':
        f, fv = F('u', u, W('w', ent)), flat
    else:
        f, fv = F('u', Tup((u, u)), ent), [(flat[0], flat[-1]), (flat[-1], flat[0])]
    prog = Prog(tuple(h + ms + [Mod('Top', (f, F('after', Opt(STR), E(), default=None)), tag='top', mode=mode)]),
                f'{how} of related {shape} {order} required={req} {mode} tags={tags}')
    return prog, [Obj('Top', dict(u=x, after='x' if i % 2 else None)) for i, x in enumerate(fv)]


def run(job, rep, tier, backend):
    prog, objs = related(job) if job[1] == 'related' else program(job)
    if job[1] == 'samename':
        return samename(prog, objs, rep)
    c = G.Case(prog, rep)
    if not c.define():
        return
    seeds = []
    for o in objs:
        o = G.complete(o, c.ref)
        for opts in ({}, {'skip_empty': True}, {'exclude_none': True}):
            c.check_serialize(o, **opts)
        seeds.append(c.ref.serialize(o, quirks=False))
    docs, edges = G.explore_docs(seeds, 1)
    rep.states += len(docs)
    rep.transitions += edges - len(docs)
    for d in docs:
        c.check_parse(d)
    rep.sample(f'{prog.label}: {len(docs)} documents, e.g. {docs[-1]!r}')


def samename(prog, objs, rep):
    """variants are told apart by class, not by the name of the class"""
    c = G.Case(prog, rep, source=S.prog_src(prog, prelude=False) + "\n\nV1.__name__ = V1.__qualname__ = 'V0'\n")
    if not c.define():
        return
    for o in objs:
        o = G.complete(o, c.ref)
        rep.states += 1
        c.check_serialize(o)
        c.check_serialize(o, skip_empty=True)
    rep.sample(prog.label)
