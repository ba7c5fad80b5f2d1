"""C23: wrapped entities stand for nested elements: paths are shared by consecutive fields and are only a notation."""
import dataclasses as dc
import itertools as it

from harness import engine as G
from harness import families as Fm
from harness.ref import Node, Obj
from harness.spec import A, E, F, M, Map, Mod, Opt, P, Prog, Seq, TEXT, Tup, UNSET, W

INT, STR = P('int'), P('str')
MODES = ('strict', 'ordered', 'unordered')
PATHS = (None, 'w', 'v', 'w/v', 'w/u', 'w/v/u', 'w/w')
INNER = ('e', 'a', 'l', 'm', 'd', 't', 'tu', 'nil')


def inner(kind, i):
    """-> (models, type, entity, value)"""
    if kind == 'e':
        return [], INT, E(f'x{i}'), i + 1
    if kind == 'nil':
        return [], INT, E(f'x{i}', nillable=True), i + 1
    if kind == 'a':
        return [], STR, A(f'y{i}'), 'at'
    if kind == 't':
        return [], STR, TEXT, 'txt'
    if kind == 'l':
        return [], Seq('list', INT), E(f'x{i}'), [i, i + 5]
    if kind == 'tu':
        return [], Tup((INT, STR)), E(f'x{i}'), (i, 's')
    if kind == 'd':
        return [], Map(STR, INT), E(f'x{i}'), {'k': i}
    if kind == 'm':
        return [Mod(f'S{i}', (F('k', INT, A()), F('w', Opt(INT), E('w'), default=None)))], M(f'S{i}'), E(f'x{i}'), Obj(f'S{i}', dict(k=i, w=3))
    raise AssertionError(kind)


def jobs(tier, backend):
    n = 0
    for mode in MODES:
        for paths in it.product(PATHS, repeat=3):
            if all(p is None for p in paths):
                continue
            for k in range(len(INNER) if tier != 'quick' else 2):
                n += 1
                ks = tuple(INNER[(n * (1 + 2 * j) + j * j + k + n // 8) % len(INNER)] for j in range(3))
                if tier != 'quick' or n % 2 == (backend == 'std'):
                    yield 'share', mode, paths, ks
    for name in Fm.kind_names():
        yield 'notation', name
    for paths in it.product(('w', 'w/v', 'v'), repeat=2):
        for ns in it.product((None, 'p', 'q', ''), repeat=2):
            yield 'ns', paths, ns


def opt(t):
    return t if isinstance(t, Opt) else Opt(t)


def run(job, rep, tier, backend):
    globals()['run_' + job[0]](job, rep, tier, backend)


def explore(c, docs, rep, seen):
    for d in docs:
        k = d.key()
        if k not in seen:
            seen.add(k)
            rep.states += 1
            c.check_parse(d)


def regroup(doc):
    """the same content with its wrappers merged, split and moved"""
    kids = doc.kids
    for i, k in enumerate(kids):
        for j in range(i + 1, len(kids)):
            if kids[j].tag == k.tag:
                d = doc.clone()
                other = d.kids.pop(j)
                d.kids[i].kids += other.kids
                d.kids[i].attrs.update(other.attrs)
                d.kids[i].text = d.kids[i].text or other.text
                yield d
        for cut in range(1, len(k.kids)):
            d = doc.clone()
            d.kids.insert(i + 1, Node(k.tag, None, {}, d.kids[i].kids[cut:]))
            d.kids[i].kids = d.kids[i].kids[:cut]
            yield d
        if len(k.kids) > 1:
            d = doc.clone()
            d.kids[i].kids.reverse()
            yield d
    for p in it.permutations(range(len(kids))):
        d = doc.clone()
        d.kids = [d.kids[x] for x in p]
        yield d


def run_share(job, rep, tier, backend):
    _, mode, paths, ks = job
    mods, fields, vals = [], [], {}
    texts = 0
    for i, (p, k) in enumerate(zip(paths, ks)):
        if k == 't':
            texts += 1
            if texts > 1:
                k = 'e'
        ms, t, e, v = inner(k, i)
        mods += [dc.replace(m, mode=mode) for m in ms]
        fields.append(F(f'f{i}', opt(t), e if p is None else W(p, None if e is TEXT else e), default=None))
        vals[f'f{i}'] = v
    prog = Prog(tuple(mods) + (Mod('T', tuple(fields), tag='top', mode=mode),), label=f'{mode} {paths} {ks}')
    c = G.Case(prog, rep)
    if not c.define():
        return
    seen = set()
    for present in it.product((True, False), repeat=3):
        obj = Obj('T', {f'f{i}': vals[f'f{i}'] if present[i] else None for i in range(3)})
        rep.states += 1
        real = c.build(obj)
        if real is None:
            return
        c.check_serialize(obj, real)
        c.check_serialize(obj, real, skip_empty=True)
        doc = c.ref.serialize(obj, quirks=False)
        explore(c, [doc], rep, seen)
        if all(present):
            rg = list(regroup(doc))
            explore(c, rg, rep, seen)
            if tier == 'quick':
                explore(c, (d for i, d in enumerate(G.edits(doc)) if i % 2 == (backend == 'std')), rep, seen)
            else:
                explore(c, G.edits(doc), rep, seen)
                for d in rg:
                    explore(c, G.edits(d), rep, seen)
    rep.sample(f'{prog.label}: {len(seen)} documents, e.g. {doc!r}')


def forms(ent):
    e = None if ent is TEXT else ent
    yield 'path', W('p/q/r', e)
    yield 'nested', W('p', W('q', W('r', e)))
    yield 'left', W('p/q', W('r', e))
    yield 'right', W('p', W('q/r', e))
    yield 'one', W('r', e)


def run_notation(job, rep, tier, backend):
    base, vals, fields = Fm.build(('flat', (job[1],), Fm.freeze({})))
    if not fields or fields[0].noxml:
        return
    ms, f, vals = base.models[:-1], fields[0], vals[0]
    # nested models
    cases = {}
    for how, ent in forms(f.ent):
        prog = Prog(tuple(ms) + (Mod('T', (dc.replace(f, ent=ent), F('z', Opt(INT), E('z'), default=None)), tag='top'),),
                    label=f'{how} {job[1]}')
        c = G.Case(prog, rep)
        if not c.define():
            return
        cases[how] = c
    deep = Prog(tuple(ms) + (
        Mod('N3', (f,), tag='r'), Mod('N2', (F('n', M('N3')),), tag='q'), Mod('N1', (F('n', M('N2')),), tag='p'),
        Mod('T', (F('n', M('N1')), F('z', Opt(INT), E('z'), default=None)), tag='top')), label=f'models {job[1]}')
    d = G.Case(deep, rep)
    if not d.define():
        return
    docs = {}
    for v in vals:
        for how, c in cases.items():
            obj = G.complete(Obj('T', {f.name: v, 'z': 5}), c.ref)
            rep.states += 1
            res = c.check_serialize(obj)
            if res is None:
                continue
            if how != 'one':
                docs.setdefault(repr(v), []).append((how, res[0]))
            if not f.exclude:
                c.check_parse(c.ref.serialize(obj, quirks=False))
            for e in list(G.edits(c.ref.serialize(obj, quirks=False)))[(backend == 'std')::2]:
                rep.states += 1
                c.check_parse(e)
        if v is not None:
            obj = G.complete(Obj('T', {'n': Obj('N1', {'n': Obj('N2', {'n': Obj('N3', {f.name: v})})}), 'z': 5}), d.ref)
            res = d.check_serialize(obj)
            # an excluded field leaves the model which stands for the wrapper behind
            if res is not None and not f.exclude and (f.exclude_if is UNSET or v != f.exclude_if):
                docs.setdefault(repr(v), []).append(('models', res[0]))
    for v, outs in docs.items():
        trees = {G.parse_output(o).key() for _, o in outs}
        if len(trees) > 1:
            rep.violation('the notations of a wrapped field produce different documents', program=job[1], source=cases['path'].src, value=v,
                          got=[(h, o.decode()) for h, o in outs])


def run_ns(job, rep, tier, backend):
    """namespaces of wrappers and wrapped entities, alone and shared"""
    _, paths, ns = job
    nsmap = (('p', 'urn:p'), ('q', 'urn:q'))
    for dflt, inner_ns, over in it.product((False, True), (None, 'p', ''), (None, (('p', 'urn:o'),))):
        m = nsmap + ((('', 'urn:d'),) if dflt else ())
        if not dflt and ('' in ns or inner_ns == ''):
            continue
        fields = (F('f0', Opt(INT), W(paths[0], E('x', ns=inner_ns), ns=ns[0], nsmap=over), default=None),
                  F('f1', Opt(Seq('list', INT)), W(paths[1], E('x', ns=inner_ns, nsmap=over), ns=ns[1]), default=None),
                  F('f2', Opt(STR), W(paths[0], A('k', ns=inner_ns or None), ns=ns[0]), default=None))
        prog = Prog((Mod('T', fields, tag='top', nsmap=m),), label=f'{paths} {ns} {dflt} {inner_ns} {over}')
        c = G.Case(prog, rep)
        if not c.define():
            return
        for vals in it.product((1, None), ([2, 3], None), ('k', None)):
            obj = Obj('T', dict(zip(('f0', 'f1', 'f2'), vals)))
            rep.states += 1
            c.check_serialize(obj)
            doc = c.ref.serialize(obj, quirks=False)
            c.check_parse(doc)
            if None not in vals:
                for d in it.chain(regroup(doc), G.edits(doc)):
                    rep.states += 1
                    c.check_parse(d)
    rep.sample(f'{prog.label}: e.g. {doc!r}')
