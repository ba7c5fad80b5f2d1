"""C22: a collection has one element per item, in order; a fixed tuple has one element per position."""
import itertools as it
import warnings

from harness import engine as G
from harness import ref as R
from harness.ref import NT, Node, Obj
from harness.spec import A, E, F, M, Map, Mod, Opt, P, Prog, Raw, Seq, TD, Tag, Tup, Uni, W

INT, STR, BOOL = P('int'), P('str'), P('bool')
MODES = ('strict', 'ordered', 'unordered')
CONTAINERS = ('list', 'tuple', 'set', 'frozenset', 'deque')


def model(*fs, name='Im', **kw):
    return Mod(name, fs, tag='it', **kw)


# item -> (models, type, values, further content of an item element: (text, attributes, kids), hashable)
def items():
    m1 = model(F('k', INT, A()), F('t', Opt(STR), default=None))
    m2 = model(F('e', INT, E('e')), F('g', Seq('list', INT), E('g'), factory='list'))
    r1 = Mod('Ir', (F('root', INT),), root=True, tag='it')
    r2 = Mod('Ir', (F('root', Seq('list', INT), E('g')),), root=True, tag='it')
    u1 = model(F('k', INT, A()), name='Ia')
    u2 = model(F('e', INT, E('e')), name='Ib')
    d1 = model(F('k', P("Literal['1']"), A()), F('t', Opt(STR), default=None), name='Ia')
    d2 = model(F('k', P("Literal['2']"), A()), F('t', Opt(STR), default=None), name='Ib')
    td = TD('Itd', (('k', INT), ('m', Opt(STR))))
    nt = Tup((INT, STR), ('Int_', ('a', 'b')))
    bad = [('x', {'k': '1'}, ())]
    return {
        'int': ([], INT, [1, 22, 0], [('!', {}, ()), ('5', {'zz': '1'}, ())], True),
        'str': ([], STR, ['a', ' b ', '<&'], [('', {}, ()), ('', {'zz': '1'}, ())], True),
        'bool': ([], BOOL, [True, False], [('1', {}, ()), ('x', {}, ())], True),
        'opt': ([], Opt(INT), [1, 2], [('', {}, ()), ('!', {}, ())], True),
        'float': ([], P('float'), [1.5, 2.0], [('x', {}, ())], True),
        'enum': ([], P("Literal['u', 'v']"), ['u', 'v'], [('w', {}, ())], True),
        'prim_union': ([], Uni((INT, STR)), [1, 'x'], [('', {}, ())], True),
        'model': ([m1], M('Im'), [Obj('Im', dict(k=1, t='a')), Obj('Im', dict(k=2, t=None))], [('x', {}, ()), ('', {'k': '!'}, ())], False),
        'model2': ([m2], M('Im'), [Obj('Im', dict(e=1, g=[])), Obj('Im', dict(e=2, g=[3, 4]))],
                   [('', {}, ('e', 'e')), ('', {}, ('g', 'e')), ('', {}, ())], False),
        'root': ([r1], M('Ir'), [Obj('Ir', dict(root=1)), Obj('Ir', dict(root=2))], [('!', {}, ())], False),
        'root_list': ([r2], M('Ir'), [Obj('Ir', dict(root=[1])), Obj('Ir', dict(root=[2, 3]))], [('', {}, ('g', 'e', 'g'))], False),
        'dict': ([], Map(STR, INT), [{'k': 1}, {'k': 2, 'm': 3}], [('', {'k': '!'}, ()), ('x', {}, ())], False),
        'td': ([], td, [{'k': 1, 'm': None}, {'k': 2, 'm': 'x'}], [('', {'m': 'x'}, ()), ('', {'k': '1', 'zz': '1'}, ())], False),
        'union': ([u1, u2], Uni((M('Ia'), M('Ib'))), [Obj('Ia', dict(k=1)), Obj('Ib', dict(e=2))],
                  [('', {'k': '1'}, ('e',)), ('', {'k': '!'}, ('e',))], False),
        'tagged': ([d1, d2], Tag('k', (M('Ia'), M('Ib'))), [Obj('Ia', dict(k='1', t='a')), Obj('Ib', dict(k='2', t=None))],
                   [('', {'k': '3'}, ())], False),
        'tup': ([], Tup((INT, STR)), [(1, 'a'), (2, 'b')], [('3', {}, ())], True),
        'tup_model': ([m1], Tup((M('Im'), INT)), [(Obj('Im', dict(k=1, t='a')), 5)], [('3', {}, ())], False),
        'nt': ([], nt, [NT('Int_', (1, 'a')), NT('Int_', (2, 'b'))], [('3', {}, ())], False),
        'raw': ([], Raw(), [Node('it', 't'), Node('it', None, {'m': '1'}, [Node('it', 'n')])], [('', {}, ('it',))], False),
    }


ITEMS = tuple(items())
PLACES = ('elem', 'wrapped', 'path', 'sub', 'root', 'ns', 'nested')
NSM = (('p', 'urn:p'),)


def program(kind, item, place, mode, default):
    ms, t, vals, odd, hashable = items()[item]
    ms = [Mod(**{**m.__dict__, 'mode': mode}) for m in ms]
    ty = kind(t)
    kw = dict(factory=default) if default else {}
    ent = E('it')
    params = {}
    if place == 'ns':
        ent = E('it', ns='p')
        params = dict(nsmap=NSM)
    elif place in ('wrapped', 'path'):
        ent = W('w' if place == 'wrapped' else 'w/v', ent)
    flds = [F('h', Opt(INT), E('h'), default=None), F('f', ty, ent, **kw), F('z', Opt(INT), E('z'), default=None)]
    mk = lambda v: Obj('T', dict(h=1, f=v, z=2))
    if place == 'sub':
        ms.append(Mod('Sub', (F('f', ty, ent, **kw), F('z', Opt(INT), E('z'), default=None)), tag='sub', mode=mode))
        flds = [F('s', M('Sub')), F('z', Opt(INT), E('z'), default=None)]
        mk = lambda v: Obj('T', dict(s=Obj('Sub', dict(f=v, z=3)), z=2))
    elif place == 'root':
        ms.append(Mod('Rt', (F('root', ty, ent, **kw),), root=True, tag='rt', mode=mode))
        flds = [F('s', M('Rt')), F('z', Opt(INT), E('z'), default=None)]
        mk = lambda v: Obj('T', dict(s=Obj('Rt', dict(root=v)), z=2))
    elif place == 'nested':
        ms.append(Mod('Sub', (F('f', ty, ent, **kw),), tag='sub', mode=mode))
        flds = [F('s', Seq('list', M('Sub')), E('sub')), F('z', Opt(INT), E('z'), default=None)]
        mk = lambda v: Obj('T', dict(s=[Obj('Sub', dict(f=v)), Obj('Sub', dict(f=v))], z=2))
    prog = Prog(tuple(ms) + (Mod('T', tuple(flds), tag='top', mode=mode, **params),), label=f'{place} {mode} {item}')
    return prog, mk, vals, odd, hashable, ('{urn:p}it' if place == 'ns' else 'it')


def jobs(tier, backend):
    for k, item in enumerate(ITEMS):
        for j, cont in enumerate(CONTAINERS):
            for mode in MODES:
                if tier != 'quick' or (j == 0 and mode == MODES[(k + (backend == 'std')) % 3]) or (item in ('int', 'str') and mode == 'strict'):
                    if item != 'opt':
                        yield 'large', cont, item, 'elem' if k % 2 else 'wrapped', mode
    n = 0
    for item in ITEMS:
        for mode in MODES:
            for place in PLACES:
                if item == 'raw' and place == 'ns':
                    continue
                for cont in CONTAINERS:
                    n += 1
                    if tier != 'quick' or cont == 'list' or n % 3 == 0:
                        yield 'seq', cont, item, place, mode, 'list' if n % 2 and cont == 'list' else None
                if not item.startswith(('tup', 'nt')):
                    yield 'fixed', 1, item, place, mode, None
                    yield 'fixed', 2, item, place, mode, None
                    yield 'fixed', 3, item, place, mode, None


SIZES = (5, 9, 10, 11, 16, 17, 31, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025, 2049)


def large(job, rep, tier, backend):
    """every size at which a limit could be hidden"""
    _, cont, item, place, mode = job
    prog, mk, vals, odd, hashable, tag = program(lambda t: Seq(cont, t), item, place, mode, None)
    if cont in ('set', 'frozenset') and not hashable:
        return
    prog = Prog(prog.models, label=f'large {cont} {prog.label}')
    c = G.Case(prog, rep)
    if not c.define():
        return
    for n in SIZES:
        if n > 300 and item in ('union', 'tagged', 'model2', 'td', 'nt', 'raw') or (n > 600 and item not in ('int', 'str', 'model', 'dict')):
            continue        # variants are tried on copies: quadratic
        if cont in ('set', 'frozenset'):
            if item != 'int':
                return          # small whole numbers come out of every set in order
            v = R.SEQS[cont](range(n))
        else:
            v = R.SEQS[cont]([vals[k * k % len(vals)] for k in range(n)])
        obj = mk(v)
        rep.states += 1
        real = c.build(obj)
        if real is None:
            return
        if c.check_serialize(obj, real) is not None:
            c.check_parse(c.ref.serialize(obj, quirks=False), with_set=False)


def sequences(values, upto):
    for n in range(upto + 1):
        yield from it.product(values, repeat=n)


def run(job, rep, tier, backend):
    if job[0] == 'large':
        return large(job, rep, tier, backend)
    what, cont, item, place, mode, default = job
    if what == 'seq':
        prog, mk, vals, odd, hashable, tag = program(lambda t: Seq(cont, t), item, place, mode, default)
        if cont in ('set', 'frozenset') and not hashable:
            return
        conv = R.SEQS[cont]
        values = [conv(s) for s in sequences(vals, 3)]
    else:
        prog, mk, vals, odd, hashable, tag = program(lambda t: Tup((t,) * cont), item, place, mode, default)
        values = list(it.product(vals, repeat=cont))
    prog = Prog(prog.models, label=f'{what} {cont} {prog.label}')
    c = G.Case(prog, rep)
    if not c.define():
        return
    count = 0
    for v in values:
        rep.states += 1
        count += 1
        obj = mk(v)
        real = c.build(obj)
        if real is None:
            return
        res = c.check_serialize(obj, real)
        if res is not None:
            c.check_parse(c.ref.serialize(obj, quirks=False), with_set=False)
        c.check_serialize(obj, real, skip_empty=True)
    if what == 'fixed':
        refused(c, rep, mk, vals, cont, place)
    # documents: every sequence of item elements, damaged item elements and foreign elements
    probe = c.ref.serialize(mk(conv([vals[0]]) if what == 'seq' else (vals[0],) * cont), quirks=False)
    letters = []
    for v in vals[:2]:
        d = c.ref.serialize(mk(conv([v]) if what == 'seq' else (v,) * cont), quirks=False)
        h = holder(d, tag)
        first = [k for k in h.kids if k.tag == tag]
        letters.append(first if what == 'seq' else first[:1])
    letters += [[Node(tag, t, a, [Node(k, '8') for k in ks])] for t, a, ks in odd]
    letters += [[Node('q', '1')], [Node('z', '7')]]
    depth = 3 if tier == 'quick' or len(letters) > 6 else 4
    for s in sequences(letters, depth):
        d = probe.clone()
        h = holder(d, tag)
        i = next(i for i, k in enumerate(h.kids) if k.tag == tag)
        h.kids = [k for k in h.kids if k.tag != tag]
        h.kids[i:i] = [k.clone() for l in s for k in l]
        rep.states += 1
        count += 1
        c.check_parse(d, with_set=False)
    rep.sample(f'{prog.label}: {count} values and documents, e.g. {d!r}')


def refused(c, rep, mk, vals, cont, place):
    """a tuple of another length (assigned without validation) is not written"""
    for n in (0, 1, 2, 3, 4):
        if n == cont or (n == 0 and place != 'elem'):
            continue
        obj = c.build(mk((vals[0],) * cont))
        if obj is None:
            return
        wrong = tuple(G.to_real(v, c.ns, c.ref) for v in (vals * 4)[:n])
        for opts in ({}, {'skip_empty': True}, {'exclude_none': True}):
            if n == 0 and opts.get('skip_empty'):
                continue        # an empty collection is left out
            at = obj.f if place in ('elem', 'wrapped', 'path', 'ns') else obj.s
            if place == 'nested':
                at[0].__dict__['f'] = wrong
            elif place in ('sub', 'root'):
                at.__dict__['f' if place == 'sub' else 'root'] = wrong
            else:
                obj.__dict__['f'] = wrong
            rep.states += 1
            rep.transitions += 1
            try:
                with G.budget(20), warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    out = obj.to_xml(**opts)
            except G.Hang:
                raise
            except Exception:
                rep.traces += 1
                continue
            rep.violation('a tuple of a wrong length is written', program=c.prog.label, source=c.src, got=out,
                          expected=f'{n} items are refused by a tuple of {cont}', value=repr(wrong))


def holder(n, tag):
    """the (first) element which has the items"""
    if any(k.tag == tag for k in n.kids):
        return n
    for k in n.kids:
        h = holder(k, tag)
        if h is not None:
            return h
    return None
