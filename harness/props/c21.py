"""C21: raw elements are handed over complete and unchanged, in both directions, and belong to nobody else."""
import copy
import itertools as it

from harness import engine as G
from harness import ref as R
from harness import spec as S
from harness.ref import Node, Obj, neutral
from harness.spec import A, E, F, M, Mod, Opt, P, Prog, Raw, Seq, Tup, W

INT, STR, RAW = P('int'), P('str'), Raw()
U, V = 'urn:u', 'urn:v'
NSM = (('p', 'urn:p'), ('', 'urn:d'))

# place -> (models, fields of the top model, parameters of the top model, name of the raw element, trees per value, wrap)
one = lambda ts: dict(f=ts[0])


def places():
    sub = Mod('Sub', (F('k', INT, A(), default=0), F('f', RAW, E('x')), F('t', Opt(INT), E('t'), default=None)), tag='sub')
    ext = Mod('Sub', (F('f', Opt(RAW), E('x'), default=None),), tag='sub', extra='forbid')
    root = Mod('Rt', (F('root', RAW, E('x')),), root=True, tag='rt')
    rootl = Mod('Rt', (F('root', Seq('list', RAW), E('x')),), root=True, tag='rt')
    o = lambda c, **k: Obj(c, k)
    return {
        'elem': ([], [F('f', RAW, E('x'))], {}, 'x', 1, one),
        'named': ([], [F('x', RAW)], {}, 'x', 1, lambda ts: dict(x=ts[0])),
        'named_elem': ([], [F('x', RAW, E())], {}, 'x', 1, lambda ts: dict(x=ts[0])),
        'alias': ([], [F('f', RAW, E(), alias='x')], {}, 'x', 1, one),
        'opt': ([], [F('f', Opt(RAW), E('x'), default=None)], {}, 'x', 1, one),
        'between': ([], [F('a', INT, E('a')), F('f', RAW, E('x')), F('b', Opt(INT), E('b'), default=None)], {}, 'x', 1,
                    lambda ts: dict(a=1, f=ts[0], b=2)),
        'same_names': ([], [F('n', Opt(INT), E('n'), default=None), F('f', RAW, E('x')), F('m', Opt(INT), A('m'), default=None)], {}, 'x', 1,
                       lambda ts: dict(n=3, f=ts[0], m=5)),
        'two': ([], [F('f', RAW, E('x')), F('g', Opt(RAW), E('x'), default=None)], {}, 'x', 2, lambda ts: dict(f=ts[0], g=ts[1])),
        'list': ([], [F('f', Seq('list', RAW), E('x'))], {}, 'x', 2, lambda ts: dict(f=list(ts))),
        'tuple': ([], [F('f', Tup((RAW, INT)), E('x'))], {}, 'x', 1, lambda ts: dict(f=(ts[0], 4))),
        'tuple2': ([], [F('f', Tup((RAW, RAW)), E('x'))], {}, 'x', 2, lambda ts: dict(f=tuple(ts))),
        'wrapped': ([], [F('f', RAW, W('w/v', E('x')))], {}, 'x', 1, one),
        'wrapped_list': ([], [F('f', Seq('list', RAW), W('w', E('x')))], {}, 'x', 2, lambda ts: dict(f=list(ts))),
        'ns': ([], [F('f', RAW, E('x', ns='p'))], dict(nsmap=NSM), '{urn:p}x', 1, one),
        'ns_model': ([], [F('f', RAW, E('x'))], dict(nsmap=NSM, ns='p'), '{urn:p}x', 1, one),
        'ns_default': ([], [F('f', RAW, E('x', ns=''))], dict(nsmap=NSM), '{urn:d}x', 1, one),
        'ns_entity': ([], [F('f', RAW, E('x', ns='e', nsmap=(('e', 'urn:e'),)))], {}, '{urn:e}x', 1, one),
        'sub': ([sub], [F('s', M('Sub'))], {}, 'x', 1, lambda ts: dict(s=o('Sub', k=1, f=ts[0], t=2))),
        'sub_list': ([sub], [F('s', Seq('list', M('Sub')), E('sub'))], {}, 'x', 2, lambda ts: dict(s=[o('Sub', k=1, f=t, t=2) for t in ts])),
        'sub_forbid': ([ext], [F('s', M('Sub')), F('z', Opt(INT), E('z'), default=None)], dict(extra='forbid'), 'x', 1,
                       lambda ts: dict(s=o('Sub', f=ts[0]), z=1)),
        'root': ([root], [F('s', M('Rt'))], {}, 'x', 1, lambda ts: dict(s=o('Rt', root=ts[0]))),
        'root_list': ([rootl], [F('s', M('Rt'))], {}, 'x', 2, lambda ts: dict(s=o('Rt', root=list(ts)))),
        'forbid': ([], [F('f', RAW, E('x'))], dict(extra='forbid'), 'x', 1, one),
        'skip': ([], [F('f', RAW, E('x')), F('a', Opt(INT), E('a'), default=None)], dict(skip_empty=True), 'x', 1, lambda ts: dict(f=ts[0], a=None)),
    }


PLACES = tuple(places())
MODES = ('strict', 'ordered', 'unordered')


def leaves(tag):
    """what may stand inside: own names, foreign names, mixed content"""
    for t, text, tail, at in it.product(('n', '{%s}n' % U, tag, 'a'), (None, 'k'), (None, 'tl', ' '), ({}, {'m': '1'})):
        yield Node(t, text, at, [], tail)
    for t in ('{%s}n' % U, 'n', '{%s}n' % V, '{urn:d}n'):
        yield Node(t, None, {'{%s}m' % V: '1'})
        yield Node(t, None, {'{%s}m' % U: '1', 'm': '3'})


def trees(tag, size):
    roots = [(t, a) for t in (None, 't', ' ', ' <&> ') for a in ({}, {'m': '1'}, {'{%s}m' % U: '2', 'm': ''}, {'{%s}m' % V: '2'}, {R.NIL: 'true'})]
    kids = list(leaves(tag))
    for t, a in roots:
        yield Node(tag, t, a)
        for k in kids:
            yield Node(tag, t, a, [k])
    for k1, k2 in it.product(kids[::1 if size > 1 else 5], kids):
        yield Node(tag, None, {}, [k1, k2])
    for k1, k2 in it.product(kids[::1 if size > 1 else 11], kids[::1 if size > 1 else 7]):
        yield Node(tag, 't', {'m': '1'}, [Node('n', 'deep', {'n': '1'}, [k1], 'tl'), k2])
        yield Node(tag, None, {}, [Node(tag, None, {}, [Node(tag, None, {}, [k1, k2])])], None)
    yield Node(tag, 'w', {}, [Node(f'c{i}', str(i), {f'a{i}': 'v'}, [], f'-{i}-') for i in range(6)])


def jobs(tier, backend):
    for p in PLACES:
        for mode in MODES:
            yield p, mode


def native_key(el):
    return R.node_of_native(el).key()


def rnd(tag):
    return Node(tag, 'other', {'o': '1'}, [Node('n', 'q')], None)


def run(job, rep, tier, backend):
    place, mode = job
    models, fields, params, tag, n, mk = places()[place]
    models = [Mod(**{**m.__dict__, 'mode': mode}) for m in models]
    prog = Prog(tuple(models) + (Mod('T', tuple(fields), tag='top', mode=mode, **params),), label=f'{place} {mode}')
    c = G.Case(prog, rep)
    if not c.define():
        return
    etree = G.native()
    count = 0
    for i, t in enumerate(trees(tag, 1 if tier == 'quick' else 2)):
        for tail in (None, 'after'):
            if tail and i % 4:
                continue
            t1 = t.clone()
            t1.tail = tail
            ts = [t1] + [rnd(tag)] * (n - 1)
            if n > 1 and i % 2:
                ts.reverse()
            obj = Obj('T', mk(ts))
            rep.states += 1
            count += 1
            real = c.build(obj)
            if real is None:
                return
            before = neutral(real)
            res = c.check_serialize(obj, real)
            if res is None:
                continue
            if neutral(real) != before:
                rep.violation('serialization changes a raw element', program=prog.label, source=c.src, got=repr(neutral(real)),
                              expected=repr(before))
            doc = c.ref.serialize(obj, quirks=False)
            c.check_parse(doc)
            if i % 8 == 0:
                c.check_serialize(obj, real, skip_empty=True)
                ownership(c, obj, real, doc, before, rep, etree)
            if i % 100 == 0:
                docs, edges = G.explore_docs([doc], 1)
                rep.transitions += edges - len(docs)
                rep.states += len(docs)
                for d in docs:
                    c.check_parse(d)
    rep.sample(f'{prog.label}: {count} raw elements, e.g. {t1!r}')


def raws(v, etree, out):
    if hasattr(type(v), 'model_fields'):
        for k in type(v).model_fields:
            raws(getattr(v, k), etree, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            raws(x, etree, out)
    elif hasattr(v, 'attrib'):
        out.append(v)
    return out


def spoil(el):
    for e in list(el.iter()):
        if isinstance(e.tag, str):
            e.text = 'spoiled'
            e.tail = 'spoiled'
            e.attrib.clear()
            e.set('spoiled', '1')
    for k in list(el):
        el.remove(k)


def ownership(c, obj, real, doc, before, rep, etree):
    """mutating one side is not visible on any other side"""
    def bad(what, got, want):
        rep.violation(what, program=c.prog.label, source=c.src, doc=R.to_xml(doc), got=repr(got), expected=repr(want))

    rep.transitions += 4
    want = doc.key()
    # the produced tree belongs to the caller
    tree = real.to_xml_tree()
    if native_key(tree) != want:
        bad('to_xml_tree does not contain the raw element as it is', native_key(tree), want)
    spoil(tree)
    if neutral(real) != before:
        bad('changing the produced tree changes the raw element of the object', neutral(real), before)
    # a parsed tree stays untouched, and does not share elements with the object
    src = G.to_native(doc)
    try:
        o1 = c.top.from_xml_tree(src)
        o2 = c.top.from_xml_tree(src)
    except Exception as e:
        got = c.ref.parses(doc)
        if got is not None and not any(x[0] == 'err' for x in got):
            bad(f'from_xml_tree rejects the document: {type(e).__name__}: {e}', 'error', want)
        return
    if native_key(src) != want:
        bad('parsing changes the source tree', native_key(src), want)
    n1 = neutral(o1)
    if n1 != neutral(o2):
        bad('parsing a tree twice gives different raw elements', neutral(o2), n1)
    if any(not isinstance(x, etree.Element if isinstance(etree.Element, type) else etree._Element) for x in raws(o1, etree, [])):
        bad('a raw value is not an element of the backend', raws(o1, etree, []), '')
    for x in raws(o2, etree, []):
        spoil(x)
    if native_key(src) != want:
        bad('changing a parsed raw element changes the source tree', native_key(src), want)
    if neutral(o1) != n1:
        bad('raw elements of two parsed objects are shared', neutral(o1), n1)
    spoil(src)
    if neutral(o1) != n1:
        bad('changing the source tree changes a parsed raw element', neutral(o1), n1)
    # the object can be copied
    o3 = copy.deepcopy(o1)
    for x in raws(o3, etree, []):
        spoil(x)
    if neutral(o1) != n1:
        bad('raw elements are shared with a deep copy', neutral(o1), n1)
