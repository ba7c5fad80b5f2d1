"""C09: which name an entity has in the document; a document with another root element is not parsed at all."""
import itertools as it
import re
from dataclasses import replace

from harness import engine as G
from harness import ref as R
from harness import spec as S
from harness.ref import Node, Obj
from harness.spec import A, E, F, M, Map, Mod, Opt, P, Prog, Raw, Seq, TEXT, Tag, Tup, Uni, W

INT, STR = P('int'), P('str')
FORMS = ('elem', 'attr', 'list', 'tuple', 'dict', 'raw', 'model', 'model_opt', 'mlist', 'union', 'tagged', 'root', 'wrap_elem',
         'wrap_attr', 'wrap_model', 'wrap_list', 'computed_elem', 'computed_attr', 'computed_model', 'computed_dict', 'computed_list', 'nillable', 'annotated',
         'wrap_elem_in', 'wrap_attr_in', 'wrap_list_in')
CONFIGS = {'': (), 'populate': (('populate_by_name', True),), 'by_alias': (('serialize_by_alias', True),),
           'by_name': (('validate_by_name', True), ('validate_by_alias', False)), 'both': (('validate_by_name', True),)}
NAMES = ('en', 'al', 'sa', 'va', 'tg', 'f', 'S', 'F')


def jobs(tier, backend):
    for form in FORMS:
        for en, al, sa, va, tg in it.product((0, 1), repeat=5):
            if tg and form not in ('model', 'model_opt', 'mlist', 'union', 'tagged', 'root', 'wrap_model', 'computed_model'):
                continue
            if form.startswith('computed') and (sa or va):
                continue
            for cfg in CONFIGS:
                if cfg and not (al or va or sa):
                    continue
                yield 'name', form, en, al, sa, va, tg, cfg
        if not form.startswith('computed'):
            for en, tg in it.product((0, 1), repeat=2):
                yield 'generator', form, en, tg
    for tags in it.product((None, 'tt', 'uu'), repeat=3):
        for rootm in (False, True):
            for ns in (None, 'p'):
                yield 'root', tags, rootm, ns


def program(form, en, al, sa, va, tg, cfg=''):
    name = 'en' if en else None
    kw = dict(alias='al' if al else None, salias='sa' if sa else None, valias='va' if va else None)
    sub = Mod('S', (F('p', INT, A(), alias='pal' if cfg else None),), tag='tg' if tg else None, config=CONFIGS[cfg])
    sv = Obj('S', {'p': 1})
    mods = []
    e = E(name)
    form = form.removesuffix('_in')
    if form == 'elem':
        f, v = F('f', INT, e, **kw), 1
    elif form == 'annotated':
        f, v = F('f', INT, e, annotated=True, **kw), 1
    elif form == 'nillable':
        f, v = F('f', Opt(INT), E(name, nillable=True), **kw), 1
    elif form == 'attr':
        f, v = F('f', INT, A(name), **kw), 1
    elif form == 'list':
        f, v = F('f', Seq('list', INT), e, **kw), [1, 2]
    elif form == 'tuple':
        f, v = F('f', Tup((INT, STR)), e, **kw), (1, 'x')
    elif form == 'dict':
        f, v = F('f', Map(STR, INT), e, **kw), {'k': 1}
    elif form == 'raw':
        f, v = F('f', Raw(), e, **kw), Node(name or (sa and 'sa') or (al and 'al') or 'f', 't')
    elif form == 'model':
        mods, f, v = [sub], F('f', M('S'), e if en else TEXT, **kw), sv
    elif form == 'model_opt':
        mods, f, v = [sub], F('f', Opt(M('S')), e if en else TEXT, **kw), sv
    elif form == 'mlist':
        mods, f, v = [sub], F('f', Seq('list', M('S')), e if en else TEXT, **kw), [sv, sv]
    elif form == 'union':
        mods = [Mod('U', (F('z', INT, A()),)), sub]
        f, v = F('f', Uni((M('U'), M('S'))), e if en else TEXT, **kw), sv
    elif form == 'tagged':
        mods = [Mod('U', (F('k', P("Literal['u']"), A()),)), Mod('S', (F('k', P("Literal['s']"), A()),), tag=sub.tag)]
        f, v = F('f', Tag('k', (M('U'), M('S'))), e if en else TEXT, **kw), Obj('S', {'k': 's'})
    elif form == 'root':
        mods = [Mod('S', (F('root', INT),), root=True, tag=sub.tag)]
        f, v = F('f', M('S'), e if en else TEXT, **kw), Obj('S', {'root': 3})
    elif form == 'wrap_elem':
        f, v = F('f', INT, W('w', e), **kw), 1
    elif form == 'wrap_attr':
        f, v = F('f', INT, W('w', A(name)), **kw), 1
    elif form == 'wrap_list':
        f, v = F('f', Seq('list', INT), W('w', e), **kw), [1, 2]
    elif form == 'wrap_model':
        mods, f, v = [sub], F('f', M('S'), W('w', e if en else None), **kw), sv
    elif form == 'computed_elem':
        f, v = F('f', INT, e, computed='5', alias=kw['alias']), None
    elif form == 'computed_attr':
        f, v = F('f', INT, A(name), computed='5', alias=kw['alias']), None
    elif form == 'computed_dict':
        f, v = F('f', Map(STR, INT), e, computed="{'k': 1}", alias=kw['alias']), None
    elif form == 'computed_list':
        f, v = F('f', Seq('list', INT), e, computed='[1, 2]', alias=kw['alias']), None
    elif form == 'computed_model':
        mods = [sub]
        f, v = F('f', Opt(M('S')), e, computed='None', alias=kw['alias']), None
    label = f'{form} entity={en} alias={al} salias={sa} valias={va} tag={tg} config={cfg or "-"}'
    cfg = CONFIGS[cfg]
    top = Mod('Top', (f, F('x', Opt(STR), E(), default=None)), tag='top', config=cfg)
    return Prog(tuple(mods + [top]), label), Obj('Top', {'f': v, 'x': 'x'} if f.computed is None else {'x': 'x'})


def run(job, rep, tier, backend):
    if job[0] == 'root':
        return run_root(job[1:], rep)
    if job[0] == 'generator':
        _, form, en, tg = job
        if form.endswith('_in'):
            return
        plain, o = program(form, en, 0, 0, 0, tg)
        top = replace(plain.top, fields=tuple(replace(f, alias=f.name.upper()) for f in plain.top.fields))
        prog = Prog(plain.models[:-1] + (top,), plain.label + ' alias generator')
        if form == 'raw':
            o.vals['f'].tag = 'en' if en else 'F'
        src = S.prog_src(plain, prelude=False).replace(
            "class Top(BaseXmlModel, tag='top'):\n",
            "class Top(BaseXmlModel, tag='top'):\n    model_config = ConfigDict(alias_generator=str.upper"
            + (', arbitrary_types_allowed=True)\n' if form == 'raw' else ')\n'))
        if form == 'raw':
            src = src.replace("    model_config = ConfigDict(arbitrary_types_allowed=True)\n", '')
        c = G.Case(prog, rep, source=src)
    else:
        prog, o = program(*job[1:])
        src = None
        if job[1].endswith('_in'):      # the aliases are given to the wrapped entity
            src = re.sub(r"wrapped\('w', (\w+)\((.*?)\)(?:, (.*))?\)\n",
                         lambda m: f"wrapped('w', {m[1]}({', '.join(x for x in (m[2], m[3]) if x)}))\n",
                         S.prog_src(prog, prelude=False))
        c = G.Case(prog, rep, source=src)
    if not c.define():
        return
    o = G.complete(o, c.ref)
    for opts in ({}, {'skip_empty': True}):
        r = c.check_serialize(o, **opts)
    rep.states += 1
    if r:
        rep.sample(f'{prog.label}: {r[0]!r}')
    seed = c.ref.serialize(o)
    docs = {seed.key(): seed}
    n = len(list(walk(seed)))
    for i in range(1, n):
        for nm in NAMES:
            d = seed.clone()
            list(walk(d))[i].tag = nm
            docs[d.key()] = d
    for i in range(n):
        for a in list(list(walk(seed))[i].attrs):
            for nm in NAMES:
                d = seed.clone()
                y = list(walk(d))[i]
                y.attrs = {(nm if k == a else k): v for k, v in y.attrs.items()}
                docs[d.key()] = d
    for nm in NAMES:         # something else of every other name stands beside
        d = seed.clone()
        d.kids.insert(0, Node(nm, '9', {'p': '8'}))
        docs[d.key()] = d
    for d in docs.values():
        rep.states += 1
        c.check_parse(d)


def walk(n):
    yield n
    for k in n.kids:
        yield from walk(k)


def run_root(job, rep):
    """the root element name of three generations of models, read and written"""
    from pydantic_xml import ParsingError
    tags, rootm, ns = job
    fields = (F('root', INT),) if rootm else (F('x', INT, A()),)
    nsmap = (('p', 'urn:p'), ('q', 'urn:q')) if ns else None
    mods = [Mod('Aaa', fields, tag=tags[0], root=rootm, ns=ns, nsmap=nsmap)]
    mods.append(Mod('Bbb', (), tag=tags[1], base='Aaa', ns='q' if ns else None))
    mods.append(Mod('Top', (), tag=tags[2], base='Bbb'))
    prog = Prog(tuple(mods), f'root tags={tags} root model={rootm} ns={ns}')
    c = G.Case(prog, rep)
    if not c.define():
        return
    for name in ('Aaa', 'Bbb', 'Top'):
        o = Obj(name, {'root': 1} if rootm else {'x': 1})
        c.check_serialize(o)
        seed = c.ref.serialize(o)
        for u in ('', 'urn:p', 'urn:q'):
            for t in ('tt', 'uu', 'Aaa', 'Bbb', 'Top', 'top', 'BaseXmlModel'):
                d = seed.clone()
                d.tag = '{%s}%s' % (u, t) if u else t
                rep.states += 1
                rep.transitions += 1
                got, val = c.real_parse(R.to_xml(d), cls=c.ns[name])
                rep.traces += 1
                want_ok = d.tag == seed.tag
                if (got == 'ok') != want_ok or (not want_ok and not isinstance(val, ParsingError)):
                    rep.violation('a document is parsed by a model of another root element' if got == 'ok' else
                                  'a root element is not recognised or rejected in the documented way',
                                  program=prog.label, source=c.src, doc=R.to_xml(d), got=f'{type(val).__name__}: {val}',
                                  expected=f'{name} reads {seed.tag} only, raises ParsingError otherwise')
