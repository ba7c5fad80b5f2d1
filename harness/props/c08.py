"""C08: every element and attribute gets exactly the namespace the nearest declaration assigns, reading and writing."""
import itertools as it
import re
import xml.etree.ElementTree as etree

from harness import engine as G
from harness import families as Fm
from harness import ref as R
from harness import spec as S
from harness.ref import Node, Obj
from harness.spec import A, E, F, M, Map, Mod, Opt, P, Prog, Raw, Seq, TEXT, Tag, Tup, Uni, W

RESERVED = dict(etree._namespace_map)
INT, STR = P('int'), P('str')
TOP_MAPS = (None, (('a', 'urn:a'),), (('', 'urn:d'),), (('a', 'urn:a'), ('', 'urn:d')), (('a', 'urn:d'), ('', 'urn:d')))
NSS = (None, 'a', 'b', '')
MAPS = (None, (('b', 'urn:b'),), (('a', 'urn:x'),), (('', 'urn:e'),))
UNIVERSE = ('', 'urn:a', 'urn:b', 'urn:d', 'urn:e', 'urn:x')

FORMS = ('elem', 'attr', 'list', 'dict', 'attrs', 'raw', 'wrap_elem', 'wrap_attr', 'model', 'model_elem', 'mlist', 'wrap_model',
         'root', 'union', 'tagged', 'two_level', 'computed', 'computed_attr', 'inherit')
MODEL_FORMS = ('model', 'model_elem', 'mlist', 'wrap_model', 'root', 'union', 'tagged', 'two_level')


def legal(ns, *maps):
    merged = {}
    for m in maps:
        merged.update(dict(m or ()))
    return ns is None or not merged or ns in merged


def jobs(tier, backend):
    full = tier != 'quick'
    k = 0
    for form in FORMS:
        for tm in TOP_MAPS:
            for tns in (None, 'a', ''):
                if not legal(tns, tm):
                    continue
                for na in (None, True):
                    for ens, emap in it.product(NSS, MAPS):
                        for sns, smap in (it.product((None, 'b', 'a'), MAPS) if form in MODEL_FORMS else ((None, None),)):
                            if not legal(sns, smap) or (sns and not smap):
                                continue
                            k += 1
                            if full or form not in MODEL_FORMS or k % 3 == (k // 3) % 3:
                                yield form, tm, tns, na, ens, emap, sns, smap


    # prefixes which look like generated ones
    for form in FORMS:
        for p, na, dflt in it.product(('ns0', 'ns1', 'ns17'), (None, True), (False, True)):
            m = ((p, 'urn:a'),) + ((('', 'urn:d'),) if dflt else ())
            yield form, m, p, na, None, None, None, None
            yield form, m, p, na, None, ((p[:-1] + '3', 'urn:b'),), None, None
            yield form, m, '' if dflt else None, na, p, None, None, None
            if form in MODEL_FORMS:
                yield form, m, p, na, None, None, 'ns2', (('ns2', 'urn:b'),)
                yield form, m, p, na, None, None, p, ((p, 'urn:x'),)


def program(form, tm, tns, na, ens, emap, sns, smap):
    """None if the declaration is not legal"""
    eff = [tm, emap]
    if form in ('attr', 'wrap_attr', 'computed_attr'):
        if ens == '' or (ens is None and na and tns == ''):
            return None         # attributes can not belong to the default namespace
    if form in ('attr', 'computed_attr'):
        if emap is not None:
            return None         # attributes have no map of their own
        eff = [tm]
    if form == 'attrs' and (ens is not None or emap is not None):
        return None
    mods = []
    inner = Mod('S', (F('p', INT, A()), F('q', Opt(STR), E(), default=None), F('w', Opt(INT), W('v', A('k')), default=None)),
                tag='st' if form != 'model' else None, ns=sns, nsmap=smap)
    sv = [Obj('S', dict(p=1, q='x', w=2)), Obj('S', dict(p=1, q=None, w=None))]
    e = E('e', ens, emap)
    if form in MODEL_FORMS:
        eff = [tm, smap, emap]
        mods = [inner]
    ns_eff = ens if ens is not None else (sns if form in MODEL_FORMS and sns is not None else tns)
    if form == 'wrap_model':
        ns_eff = sns if sns is not None else (ens if ens is not None else tns)
    if form == 'wrap_model' and not legal(ens if ens is not None else tns, tm, emap):
        return None
    if not legal(ns_eff, *eff) or not legal(ens, *eff):
        return None
    vals = [1]
    if form == 'elem':
        f = F('f', INT, e)
    elif form == 'attr':
        f = F('f', INT, A('e', ens))
    elif form == 'list':
        f, vals = F('f', Seq('list', INT), e), [[1, 2]]
    elif form == 'dict':
        f, vals = F('f', Map(STR, INT), e), [{'k': 1}]
    elif form == 'attrs':
        f, vals = F('f', Map(STR, INT)), [{'k': 1, 'm-n.o': 2}]
    elif form == 'raw':
        tag = R.qname('e', ens if ens is not None else tns, {**dict(tm or ()), **dict(emap or ())})
        f, vals = F('f', Raw(), e), [Node(tag, None, {'r': '1'}, [Node('{urn:z}y', 't')])]
    elif form == 'wrap_elem':
        # the wrapped element inherits the namespace of the wrapper and knows its map
        f = F('f', INT, W('w', E('e'), ens, emap))
    elif form == 'wrap_attr':
        f = F('f', INT, W('w', A('e'), ens, emap))
    elif form == 'computed':
        f = F('f', INT, E('e', ens, emap), computed='5')
    elif form == 'computed_attr':
        f = F('f', INT, A('e', ens), computed='5')
    elif form == 'model':
        if ens is not None or emap is not None:
            return None
        f, vals = F('f', M('S')), sv
    elif form == 'model_elem':
        f, vals = F('f', M('S'), e), sv
    elif form == 'mlist':
        f, vals = F('f', Seq('list', M('S')), e), [sv]
    elif form == 'wrap_model':
        f, vals = F('f', M('S'), W('w', None, ens, emap)), sv
    elif form == 'root':
        mods.append(Mod('R', (F('root', M('S')),), root=True, ns=sns, nsmap=smap))
        f, vals = F('f', M('R'), e), [Obj('R', {'root': sv[0]})]
    elif form == 'union':
        mods.append(Mod('S2', (F('z', STR, A()),), nsmap=tm))
        f, vals = F('f', Uni((M('S'), M('S2'))), e), sv + [Obj('S2', {'z': 'q'})]
        if not legal(ens if ens is not None else tns, tm, emap):
            return None
    elif form == 'tagged':
        mods = [Mod('S', (F('k', P("Literal['1']"), A()), F('q', Opt(STR), E(), default=None)), ns=sns, nsmap=smap),
                Mod('S2', (F('k', P("Literal['2']"), A()),), nsmap=tm)]
        f, vals = F('f', Tag('k', (M('S'), M('S2'))), e), [Obj('S', dict(k='1', q='x')), Obj('S2', dict(k='2'))]
        if not legal(ens if ens is not None else tns, tm, emap):
            return None
    elif form == 'two_level':
        mods.append(Mod('Mid', (F('s', M('S')), F('t', Opt(INT), E(), default=None)), ns=ens, nsmap=emap))
        if not legal(ens, emap) or (ens and not emap):
            return None
        if not legal(sns if sns is not None else ens, smap, emap) or not legal(ens if ens is not None else tns, tm, emap):
            return None
        f, vals = F('f', M('Mid')), [Obj('Mid', {'s': o, 't': 3}) for o in sv]
    elif form == 'inherit':
        base = Mod('Base', (F('g', INT, E()), F('h', INT, A())), ns=tns, nsmap=tm, ns_attrs=na)
        if na and '' in (ens, tns) or not legal(ens, tm, emap):
            return None
        if not legal(tns, tm):
            return None
        prog = Prog((base, Mod('Top', (F('f', INT, E('e')),), base='Base', tag='top', ns=ens, nsmap=emap)), '')
        return prog, [Obj('Top', dict(g=1, h=2, f=3))]
    # namespaced attributes can't belong to the default namespace
    if na and tns == '' and form in ('computed_attr', 'attr'):
        return None
    fields = [f, F('x', Opt(STR), E(), default=None)]
    if form != 'attrs' and not (na and tns == ''):
        fields.insert(0, F('y', Opt(STR), A(), default=None))
    prog = Prog(tuple(mods + [Mod('Top', tuple(fields), tag='top', ns=tns, nsmap=tm, ns_attrs=na)]), '')
    objs = []
    for v in vals:
        d = {'f': v} if f.computed is None else {}
        d['x'] = 'xx'
        if len(fields) == 3:
            d['y'] = 'yy'
        objs.append(Obj('Top', d))
    return prog, objs


def run(job, rep, tier, backend):
    p = program(*job)
    if p is None:
        rep.count('not a legal declaration')
        return
    prog, objs = p
    form, tm, tns, na, ens, emap, sns, smap = job
    prog = Prog(prog.models, f'{form} top={tns}:{dict(tm or ())} ns_attrs={na} field={ens}:{dict(emap or ())} '
                             f'sub={sns}:{dict(smap or ())}')
    c = G.Case(prog, rep)
    # prefixes registered by earlier programs must not hide that this one does not register its own
    etree._namespace_map.clear()
    etree._namespace_map.update(RESERVED)
    if not c.define():
        return
    prefixes = declared(prog)
    docs = {}
    for o in objs:
        rep.states += 1
        o = G.complete(o, c.ref)
        r = c.check_serialize(o)
        if r and form != 'raw':
            check_prefixes(c, r[0], r[1], prefixes, rep, backend)
            rep.sample(f'{prog.label}: {r[0]!r}')
        seed = c.ref.serialize(o)
        for d in renames(seed):
            docs[d.key()] = d
    for d in docs.values():
        rep.states += 1
        c.check_parse(d)


def renames(seed):
    """the document with every single element/attribute moved to every other namespace"""
    yield seed
    n = len(list(walk(seed)))
    for i in range(n):
        x = list(walk(seed))[i]
        loc = x.tag.rsplit('}', 1)[-1]
        for u in UNIVERSE:
            t = '{%s}%s' % (u, loc) if u else loc
            if t != x.tag:
                d = seed.clone()
                list(walk(d))[i].tag = t
                yield d
        for k in list(x.attrs):
            loc = k.rsplit('}', 1)[-1]
            for u in UNIVERSE:
                t = '{%s}%s' % (u, loc) if u else loc
                if t != k:
                    d = seed.clone()
                    y = list(walk(d))[i]
                    y.attrs = {(t if a == k else a): v for a, v in y.attrs.items()}
                    yield d


def walk(n):
    yield n
    for k in n.kids:
        yield from walk(k)


def declared(prog):
    """uri -> prefixes it is declared with anywhere; prefix -> uris"""
    by_uri, by_prefix = {}, {}
    maps = [m.nsmap for m in prog.models]
    for m in prog.models:
        for f in m.fields:
            e = f.ent
            while e is not None:
                maps.append(e.nsmap)
                e = e.inner
    for mp in maps:
        for p, u in mp or ():
            by_uri.setdefault(u, set()).add(p)
            by_prefix.setdefault(p, set()).add(u)
    return by_uri, by_prefix


def check_prefixes(c, data, tree, prefixes, rep, backend):
    """namespaces are written with the declared prefixes (unless another declaration claims the same prefix)"""
    by_uri, by_prefix = prefixes
    used = set()
    for n in walk(tree):
        for name in [n.tag, *n.attrs]:
            if name[0] == '{':
                used.add((name[1:].split('}')[0]))
    text = data.decode() if isinstance(data, bytes) else data
    bound = {}
    for p, u in re.findall(r'xmlns(?::([\w.-]+))?="([^"]*)"', text):
        if u:
            bound.setdefault(u, set()).add(p)
    for u in used:
        want = by_uri.get(u)
        if not want or u not in bound:
            continue
        if backend == 'std':
            # prefixes are global there: the default namespace and redefined prefixes are not usable
            want = {p for p in want if p and len(by_prefix[p]) == 1 and not re.fullmatch(r'ns\d+', p)}
            if not want:
                continue
            if not (bound[u] & want):
                rep.violation('a namespace is not written with its declared prefix', program=c.prog.label, got=text,
                              source=S.prog_src(c.prog), expected=f'{u} -> one of {sorted(want)}')
        elif not bound[u] <= want | {''}:
            if any(p not in want for p in bound[u]) and all(len(by_prefix[p]) == 1 for p in want):
                rep.violation('a namespace is not written with its declared prefix', program=c.prog.label, got=text,
                              source=S.prog_src(c.prog), expected=f'{u} -> one of {sorted(want)}')
