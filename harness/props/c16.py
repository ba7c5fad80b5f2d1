"""C16: model parameters and fields are inherited unless overridden; a derived model never changes its base."""
import itertools as it
from dataclasses import replace

from harness import engine as G
from harness import ref as R
from harness import spec as S
from harness.ref import Node, Obj
from harness.spec import A, E, F, M, Map, Mod, Opt, P, Prog, Seq, TEXT, Tup, W

INT, STR = P('int'), P('str')
NSMAP = (('p', 'urn:p'), ('q', 'urn:q'))
DOMAIN = {
    'tag': (None, 't1', 't2'),
    'ns': (None, 'p', 'q'),
    'nsmap': (None, (('p', 'urn:p2'), ('r', 'urn:r')), (('', 'urn:d'),)),
    'ns_attrs': (None, True, False),
    'skip_empty': (None, True, False),
    'mode': (None, 'unordered', 'ordered', 'strict'),
    'extra': (None, 'forbid', 'ignore'),
}
# fields a derived model may redeclare (always the same field name)
OVER = {
    'attr': F('f', INT, A()), 'attr_named': F('f', INT, A('fa')), 'elem': F('f', INT, E()), 'elem_named': F('f', INT, E('fe')),
    'text': F('f', INT), 'alias': F('f', INT, E(), alias='fal'), 'opt': F('f', Opt(INT), E(), default=None),
    'default': F('f', INT, E(), default=5), 'list': F('f', Seq('list', INT), E('fl'), factory='list'), 'wrapped': F('f', INT, W('w', E())),
    'nillable': F('f', Opt(INT), E(nillable=True), default=None), 'excluded': F('f', INT, E(), default=3, exclude=True),
    'ns': F('f', INT, E(ns='p', nsmap=(('p', 'urn:p'),))), 'noxml': F('f', INT, default=1, noxml=True), 'dict': F('f', Map(STR, INT), E('fd')),
    'model': F('f', M('S')), 'models': F('f', Seq('list', M('S')), E('fs')),
}


def jobs(tier, backend):
    for p, dom in DOMAIN.items():
        for vals in it.product(dom, repeat=3):
            for rootm in (False, True) if p != 'extra' else (False,):
                yield 'param', ((p, vals),), rootm
    for p, q in it.combinations(DOMAIN, 2):
        for v in it.product(DOMAIN[p], repeat=2):
            for w in it.product(DOMAIN[q], repeat=2):
                yield 'param', ((p, v), (q, w)), False
    for a, b in it.product(OVER, repeat=2):
        yield 'over', (a, b)
    if tier != 'quick':
        for a, b, c in it.product(OVER, repeat=3):
            yield 'over', (a, b, c)
        for p, q, r in it.combinations(DOMAIN, 3):
            for v in it.product(DOMAIN[p], repeat=2):
                for w in it.product(DOMAIN[q], repeat=2):
                    for x in it.product(DOMAIN[r], repeat=2):
                        yield 'param', ((p, v), (q, w), (r, x)), False
    for how in ('mixin_first', 'mixin_last', 'mixin_root'):
        for p, dom in DOMAIN.items():
            for vals in it.product(dom, repeat=2):
                yield 'mixin', how, p, vals


def values(f):
    t = f.type.item if isinstance(f.type, Opt) else f.type
    if isinstance(t, Seq):
        return [[1, 2]] if t.item == INT else [[Obj('S', {'p': 1}), Obj('S', {'p': 2})]]
    if isinstance(t, Map):
        return [{'k': 1}]
    if isinstance(t, M):
        return [Obj('S', {'p': 1})]
    return [7] + ([None] if isinstance(f.type, Opt) else [])


def params_program(params, rootm):
    n = max(len(v) for _, v in params)
    names = ['Aaa', 'Bbb', 'Ccc'][:n]
    mods = []
    for i, name in enumerate(names):
        kw = {p: v[i] for p, v in params}
        if i == 0:      # prefixes must be declared somewhere
            kw['nsmap'] = tuple({**dict(NSMAP), **dict(kw.get('nsmap') or ())}.items())
        if rootm:
            fields = (F('root', Opt(INT), E('v'), default=None),) if i == 0 else ()
        else:
            fields = (
                (F('a', Opt(INT), A(), default=None), F('x', Opt(STR), E(), default=None), F('y', Seq('list', INT), E(), factory='list')),
                (F('b', Opt(INT), E(), default=None),),
                (F('c', Map(STR, INT), E(), factory='dict'), F('w', Opt(INT), W('w', E('v')), default=None)),
            )[i]
        mods.append(Mod(name, fields, base=names[i - 1] if i else None, root=rootm, **kw))
    hold = Mod('Top', tuple(F(f'f{n}', Opt(M(n)), default=None) for n in names) + (
        F('many', Seq('list', M(names[-1])), E('many'), factory='list'),), tag='top')
    return Prog(tuple(mods + [hold]), f'{params} root={rootm}'), names


def explore(c, name, objs, rep, opts=({}, {'skip_empty': True}, {'exclude_none': True})):
    seeds = []
    for o in objs:
        rep.states += 1
        for op in opts:
            c.check_serialize(o, **op)
        seeds.append(c.ref.serialize(o))
    docs, _ = G.explore_docs(seeds, 1)
    more = {}
    for d in docs:          # every name in every namespace
        for i, n in enumerate(walk(d)):
            if d in seeds:
                for u in ('', 'urn:p', 'urn:q', 'urn:p2', 'urn:d'):
                    e = d.clone()
                    x = list(walk(e))[i]
                    x.tag = ('{%s}' % u if u else '') + x.tag.rsplit('}', 1)[-1]
                    more[e.key()] = e
                    for a in n.attrs:
                        e = d.clone()
                        x = list(walk(e))[i]
                        x.attrs[('{%s}' % u if u else '') + a.rsplit('}', 1)[-1]] = x.attrs.pop(a)
                        more[e.key()] = e
    for d in docs + list(more.values()):
        rep.states += 1
        c.check_parse(d, cls=name)


def walk(n):
    yield n
    for k in n.kids:
        yield from walk(k)


def run(job, rep, tier, backend):
    if job[0] == 'param':
        prog, names = params_program(job[1], job[2])
        c = G.Case(prog, rep)
        if not c.define():
            return
        objs = {}
        for i, n in enumerate(names):
            if job[2]:
                objs[n] = [Obj(n, {'root': 1}), Obj(n, {'root': None})]
                continue
            full = {'a': 1, 'x': 's', 'y': [1, 2]}
            if i >= 1:
                full['b'] = 3
            if i >= 2:
                full.update(c={'k': 1}, w=2)
            none = c.ref.make(n, a=None, x=None, y=[])
            objs[n] = [Obj(n, full), none]
        for n in names:
            explore(c, n, objs[n][:1] if len(names) < 3 else objs[n], rep)
        top = [G.complete(Obj('Top', {f'f{n}': objs[n][k] for n in names} | {'many': objs[names[-1]]}), c.ref) for k in (0, 1)]
        for o in top:
            for op in ({}, {'skip_empty': True}):
                c.check_serialize(o, **op)
            c.check_parse(c.ref.serialize(o))
        rep.sample(f'{prog.label}: {c.ref.serialize(top[0])!r}')
        return
    if job[0] == 'over':
        kinds = job[1]
        names = ['Aaa', 'Bbb', 'Ccc'][:len(kinds)]
        sub = Mod('S', (F('p', INT, A()),))
        mods = []
        for i, k in enumerate(kinds):
            extra = (F('k', Opt(INT), A(), default=None),) if i == 0 else (F(f'e{i}', Opt(INT), E(), default=None),)
            mods.append(Mod(names[i], (OVER[k],) + extra, base=names[i - 1] if i else None, tag=f't{i}'))
        prog = Prog(tuple([sub] + mods), f'redeclared {kinds}')
        c = G.Case(prog, rep)
        if not c.define():
            return
        for i, n in enumerate(names):
            objs = [G.complete(Obj(n, {'f': v, 'k': 1} | ({f'e{i}': 4} if i else {})), c.ref) for v in values(OVER[kinds[i]])]
            explore(c, n, objs, rep, ({}, {'exclude_none': True}))
        return
    # fields coming from a plain pydantic mixin do not disturb the parameters
    _, how, p, vals = job
    mods = [Mod('Aaa', (F('x', Opt(STR), E(), default=None), F('a', Opt(INT), A(), default=None)),
                **{'nsmap': NSMAP, p: tuple({**dict(NSMAP), **dict(vals[0] or ())}.items()) if p == 'nsmap' else vals[0]})]
    mix = (F('m', Opt(INT), E('mm'), default=None),)
    b = Mod('Bbb', mix, base='Aaa', **{p: vals[1]})
    if how == 'mixin_root':
        mods = [replace(mods[0], fields=mix + mods[0].fields)]
        b = Mod('Bbb', (), base='Aaa', **{p: vals[1]})
    if how == 'mixin_last':      # pydantic collects fields in reversed mro order: those of the mixin come first
        prog_b = replace(b, fields=())
    prog = Prog(tuple(mods + [b]), f'{how} {p}={vals}')
    src = S.prog_src(prog, prelude=False)
    plain = 'class Mix(pydantic.BaseModel):\n' + S.field_src(mix[0]) + '\n\n'
    if how == 'mixin_first':
        src = plain + src.replace('class Bbb(Aaa', 'class Bbb(Mix, Aaa').replace(S.field_src(mix[0]), '    pass\n')
    elif how == 'mixin_last':
        src = plain + src.replace('class Bbb(Aaa', 'class Bbb(Aaa, Mix').replace(S.field_src(mix[0]), '    pass\n')
    else:
        src = plain + src.replace('class Aaa(BaseXmlModel', 'class Aaa(Mix, BaseXmlModel').replace(S.field_src(mix[0]), '')
    c = G.Case(prog, rep, source=src)
    if how == 'mixin_last':
        # the mixin stands before the base in field order
        eff = c.ref.eff['Bbb']
        fields = tuple(sorted(eff.fields, key=lambda f: f.name != 'm'))
        c.ref.eff['Bbb'] = replace(eff, fields=fields)
        cm = c.ref.mods['Bbb']
        cm.m = c.ref.eff['Bbb']
        cm.fields.sort(key=lambda cf: cf.f.name != 'm')
    if not c.define():
        return
    explore(c, 'Bbb', [G.complete(Obj('Bbb', {'x': 's', 'a': 1, 'm': 2}), c.ref)], rep)
    base = {'x': 's', 'a': 1} | ({'m': 2} if how == 'mixin_root' else {})
    explore(c, 'Aaa', [G.complete(Obj('Aaa', base), c.ref)], rep)
