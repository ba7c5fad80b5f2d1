"""C01: serialize -> parse gives the same object back, as text and as tree, and serializing again the same bytes."""
import itertools as it

from harness import engine as G
from harness import families as Fm
from harness import ref as R
from harness import spec as S
from harness.ref import Obj, neutral
from harness.spec import TD, A, E, F, M, Map, Mod, Opt, P, Prog, Seq, Tag, Tup, Uni, W

OPTS = ({}, {'exclude_none': True}, {'skip_empty': True}, {'exclude_unset': True})

ALPHABET = ['a', ' ', '\n', '\t', '<', '&', '>', '"', "'", ']]>', 'é', '\U0001F600', '{', '%s', '&amp;', '\u00a0', '0']


def strings(depth):
    for n in range(1, depth + 1):
        for p in it.product(ALPHABET, repeat=n):
            yield ''.join(p)


def jobs(tier, backend):
    for k, d in enumerate(DIMS):
        for i, m in enumerate(Fm.MODES):
            if tier != 'quick' or i == (k + (backend == 'std')) % 3:
                yield ('scale', d, m)
    for pl in ('attr', 'elem', 'sub', 'map'):
        yield ('length', pl)
    for j in Fm.singles():
        yield ('prog', j)
    for j in Fm.nested():
        yield ('prog', j)
    ps = Fm.pairs(rotate=(tier == 'quick'))
    for j in ps if tier != 'quick' else Fm.split(ps, backend):
        yield ('prog', j)
    places = ('attr', 'text', 'elem', 'list', 'dict', 'wrap', 'sub')
    for pl in places:
        for shard in range(4):
            yield ('str', pl, 3 if tier != 'quick' else 2, shard)


def roundtrip(c, o, rep, opts):
    ideal = c.ref.parses(c.ref.serialize(o, quirks=False, **opts), quirks=False)
    want = neutral(o, False)
    if ideal is None or any(x[0] != 'ok' or neutral(x[1], False) != want for x in ideal):
        rep.count('not expressible')
        return
    real = c.build(o)
    if real is None:
        return
    rep.transitions += 1
    info = dict(program=c.prog.label, source=S.prog_src(c.prog), value=repr(real), kwargs=opts)
    try:
        with G.budget(20):
            data = real.to_xml(**opts)
            back = c.top.from_xml(data)
            again = back.to_xml(**opts)
            tree_back = c.top.from_xml_tree(real.to_xml_tree(**opts))
    except G.Hang:
        rep.violation('round trip does not terminate', **info)
        return
    except Exception as e:
        hits = set()
        quirky = c.ref.parses(c.ref.serialize(o, hits=hits, **opts), hits=hits)
        if hits and quirky and all(x[0] == 'err' for x in quirky):
            for h in hits:
                rep.known_finding(h, f'{c.prog.label}: {real!r}')
            return
        rep.violation(f'round trip fails: {type(e).__name__}: {e}', **info)
        return
    rep.traces += 1
    rep.count('round trips')
    if neutral(back, False) != want or neutral(tree_back, False) != want:
        hits = set()
        quirky = c.ref.parses(c.ref.serialize(o, hits=hits, **opts), hits=hits)
        if hits and quirky and any(x[0] == 'ok' and neutral(x[1], False) == neutral(back, False) for x in quirky):
            for h in hits:
                rep.known_finding(h, f'{c.prog.label}: {real!r}')
            return
        rep.violation('the object read back differs from the one written', doc=data, got=repr(back),
                      tree=repr(tree_back), expected=repr(real), **info)
        return
    # `==` is the user's notion of equality; raw elements are compared by identity by the xml libraries
    if 'raw' not in c.prog.label and not (back == real and tree_back == real):
        rep.violation('the object read back is not equal to the one written', got=repr(back), **info)
    if again != data and not opts.get('exclude_unset'):
        rep.violation('serializing the object read back yields a different document', doc=data, got=again, **info)


def run(job, rep, tier, backend):
    if job[0] == 'scale':
        return run_scale(rep, tier, *job[1:])
    if job[0] == 'length':
        return run_lengths(rep, tier, job[1])
    if job[0] == 'str':
        return run_strings(rep, backend, *job[1:])
    job = job[1]
    prog, vals, fields = Fm.build(job)
    c = G.Case(prog, rep)
    if not c.define():
        return
    flat = job[0] == 'flat' and len(job[1]) == 1 or job[0] == 'nest'
    more = Fm.rich_objects(job, c.ref, None if tier != 'quick' else 12) if flat else []
    for o in Fm.objects(job, c.ref, cap=24) + more:
        rep.states += 1
        for opts in (OPTS if flat else OPTS[:2]):
            roundtrip(c, o, rep, opts)
        rep.sample(f'{prog.label}: {o!r}')


def run_strings(rep, backend, place, depth, shard):
    STR = P('str')
    mods = []
    fld = {
        'attr': F('x', STR, A()), 'text': F('x', STR), 'elem': F('x', STR, E()),
        'list': F('x', Seq('list', STR), E('i')), 'dict': F('x', S.Map(STR, STR), E('d')),
        'wrap': F('x', STR, W('w/v', A('k'))), 'sub': F('x', S.M('In')),
    }[place]
    if place == 'sub':
        mods = [Mod('In', (F('a', STR, A()), F('t', STR)))]
    prog = Prog(tuple(mods + [Mod('Top', (fld,), tag='top')]), f'strings {place}')
    c = G.Case(prog, rep)
    if not c.define():
        return
    for i, s in enumerate(strings(depth)):
        if i % 4 != shard:
            continue
        v = {'list': [s, s], 'dict': {'k': s, 'l': s}, 'sub': Obj('In', {'a': s, 't': s})}.get(place, s)
        rep.states += 1
        roundtrip(c, Obj('Top', {'x': v}), rep, {})


SCALE = (1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40)
BIG = (50, 63, 64, 65, 100, 127, 128, 129)
LENGTHS = (1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 100001)
INT, STR = P('int'), P('str')


def scaled(dim, n, mode):
    """a program of size n along one dimension, and its values"""
    top = dict(tag='top', mode=mode)
    opt = lambda name, ent: F(name, Opt(INT), ent, default=None)

    def prog(*mods):
        return Prog(tuple(mods), f'scale {dim} {n} {mode}')
    T = lambda **v: Obj('Top', v)
    if dim == 'fields':
        ents = (lambda i: E(), lambda i: A(), lambda i: W(f'w{i % 5}/v', E(f'e{i}')), lambda i: W(f'w{i % 3}', A(f'a{i}')))
        f = tuple(opt(f'f{i}', ents[(i * 7 + i // 4) % 4](i)) for i in range(n))
        return prog(Mod('Top', f, **top)), [T(**{f'f{i}': i for i in range(n)}), T(**{f'f{i}': i if i % 2 else None for i in range(n)}),
                                            T(**{f'f{i}': i if i == n - 1 else None for i in range(n)})]
    if dim == 'variants':
        ms = [Mod(f'V{i}', (F('x', INT, A(f'a{i}')), F('y', STR, E())), tag='v') for i in range(n)]
        u = Uni(tuple(M(m.name) for m in ms)) if n > 1 else M('V0')
        return (prog(*ms, Mod('Top', (F('u', u, E('v')), F('l', Seq('list', u), E('w'))), **top)),
                [T(u=Obj(f'V{i}', {'x': i, 'y': f's{i}'}), l=[Obj(f'V{j}', {'x': j, 'y': f'j{j}'}) for j in (i, 0, n - 1)]) for i in range(n)])
    if dim == 'tagged':
        ms = [Mod(f'V{i}', (F('kind', P(f'Literal["k{i}"]'), A()), F('y', INT, E())), tag='v') for i in range(n)]
        u = Tag('kind', tuple(M(m.name) for m in ms)) if n > 1 else M('V0')
        return (prog(*ms, Mod('Top', (F('u', u), F('l', Seq('list', u))), **{**top, 'mode': 'unordered' if mode == 'unordered' else mode})),
                [T(u=Obj(f'V{i}', {'kind': f'k{i}', 'y': i}), l=[]) for i in range(n)])
    if dim == 'recursion':
        m = Mod('Node', (F('v', INT, A()), F('t', STR, E()), F('next', Opt(M('Node')), E(), default=None)), tag='node', mode=mode)
        o = None
        for i in range(n):
            o = Obj('Node', {'v': i, 't': f's{i}', 'next': o})
        return prog(m, Mod('Top', (F('n', M('Node')), F('z', INT, E())), **top)), [T(n=o, z=5)]
    if dim == 'chain':
        ms = [Mod('C0', (F('v', INT, A()),), tag='c0', mode=mode)]
        o = Obj('C0', {'v': 0})
        for i in range(1, n):
            ms.append(Mod(f'C{i}', (F('v', INT, A()), F('s', M(f'C{i - 1}'))), tag=f'c{i}', mode=mode))
            o = Obj(f'C{i}', {'v': i, 's': o})
        return prog(*ms, Mod('Top', (F('c', M(ms[-1].name)), F('l', Seq('list', M(ms[-1].name)), E('l'))), **top)), [T(c=o, l=[o, o])]
    if dim == 'path':
        p = '/'.join(f'p{i}' for i in range(n))
        q = '/'.join(['p'] * n)
        return prog(Mod('Top', (F('a', INT, W(p, E())), F('b', INT, W(p, A())), F('c', INT, W(p, E())), F('d', Seq('list', INT), W(q, E('p'))),
                                F('e', INT, W('/'.join([p, 'last'])))), **top)), [T(a=1, b=2, c=3, d=[4, 5], e=6)]
    if dim == 'nested wrappers':
        e = E('e')
        g = A('g')
        for i in range(n):
            e, g = W(f'p{i}', e), W(f'p{i}', g)
        return prog(Mod('Top', (F('a', INT, e), F('b', INT, g)), **top)), [T(a=1, b=2)]
    if dim == 'tuple':
        t = Tup((INT, STR) * (n // 2) + (INT,) * (n % 2))
        v = tuple(i if i % 2 == 0 else f's{i}' for i in range(n))
        return prog(Mod('Top', (F('t', t, E()), F('z', INT, E())), **top)), [T(t=v, z=3)]
    if dim == 'named tuple':
        t = Tup((INT, STR) * (n // 2) + (INT,) * (n % 2), ('Nt', tuple(f'n{i}' for i in range(n))))
        v = tuple(i if i % 2 == 0 else f's{i}' for i in range(n))
        return prog(Mod('Top', (F('t', t, E()), F('z', INT, E())), **top)), [T(t=v, z=3)]
    if dim == 'typed dict':
        t = TD('Td', tuple((f'k{i}', INT) for i in range(n)))
        return prog(Mod('Top', (F('t', t, E()), F('z', INT, E())), **top)), [T(t={f'k{i}': i for i in range(n)}, z=3)]
    if dim == 'mapping':
        v = {f'k{i}': i for i in range(n)}
        return (prog(Mod('Top', (F('t', Map(STR, INT), E()), F('l', Seq('list', Map(STR, INT)), E('l')), F('z', INT, E())), **top)),
                [T(t=v, l=[v, {'only': 1}, v], z=3)])
    if dim == 'namespaces':
        ns = tuple((f'p{i}', f'urn:{i}') for i in range(n))
        f = tuple(opt(f'f{i}', (E if i % 3 else A)('f' if i % 2 else None, f'p{i}')) for i in range(n))
        return (prog(Mod('Top', f, nsmap=ns, ns='p0', **top)), [T(**{f'f{i}': i for i in range(n)}), T(**{f'f{i}': i if i == n - 1 else None for i in range(n)})])
    if dim == 'sub-models':
        m = Mod('In', (F('v', INT, A()), F('t', Opt(STR), E(), default=None)), tag='in')
        f = tuple(F(f'f{i}', M('In'), E(f'e{i // 2}')) for i in range(n))
        return prog(m, Mod('Top', f, **top)), [T(**{f'f{i}': Obj('In', {'v': i, 't': f's{i}' if i % 3 else None}) for i in range(n)})]
    if dim == 'lists':
        f = tuple(F(f'f{i}', Seq('list', INT), E(f'e{i}')) for i in range(n))
        return prog(Mod('Top', f, **top)), [T(**{f'f{i}': list(range(i % 4)) for i in range(n)}), T(**{f'f{i}': list(range((i + 1) % 3)) for i in range(n)})]
    if dim == 'nesting of lists':
        ms = [Mod('L0', (F('v', INT, A()),), tag='l0', mode=mode)]
        o = Obj('L0', {'v': 0})
        for i in range(1, n):
            ms.append(Mod(f'L{i}', (F('v', INT, A()), F('s', Seq('list', M(f'L{i - 1}')), E('i'))), tag=f'l{i}', mode=mode))
            o = Obj(f'L{i}', {'v': i, 's': [o] if i > 2 else [o, o]})
        return prog(*ms, Mod('Top', (F('c', M(ms[-1].name), E('top')),), **top)), [T(c=o)]
    raise AssertionError(dim)


DIMS = ('fields', 'variants', 'tagged', 'recursion', 'chain', 'path', 'nested wrappers', 'tuple', 'named tuple', 'typed dict', 'mapping', 'namespaces',
        'sub-models', 'lists', 'nesting of lists')


def scale_cases(rep, tier, dim, mode):
    sizes = tuple(n for n in SCALE if n < 11 or dim != 'nested wrappers')
    sizes += BIG if tier != 'quick' and dim != 'nested wrappers' else BIG[:2] if dim in FLAT else ()
    for n in sizes:
        prog, values = scaled(dim, n, mode)
        if dim == 'recursion':
            from harness.props.c17 import ModCase
            c = ModCase(prog, rep, source=S.prog_src(prog, prelude=False).replace('[Node]', "['Node']"))
        else:
            c = G.Case(prog, rep)
        if not c.define():
            return
        rep.sample(prog.label)
        for o in values:
            rep.states += 1
            yield c, o


def run_scale(rep, tier, dim, mode):
    """every size (number of fields, variants, levels, steps, ...) at which a limit could be hidden"""
    for c, o in scale_cases(rep, tier, dim, mode):
        for opts in OPTS[:2]:
            roundtrip(c, o, rep, opts)


FLAT = ('fields', 'mapping', 'typed dict', 'namespaces', 'lists', 'sub-models', 'tuple')


def run_lengths(rep, tier, place):
    """texts, attribute values and names of every length at which a buffer or a limit could end"""
    prog = Prog((Mod('In', (F('a', STR, A()), F('t', STR)), tag='in'),
                 Mod('Top', (F('x', STR, A() if place == 'attr' else E()), F('s', Opt(M('In')), default=None),
                             F('d', Map(STR, STR), E('d'))), tag='top')), f'lengths {place}')
    c = G.Case(prog, rep)
    if not c.define():
        return
    for n in LENGTHS:
        for unit in ('a', '<', 'é', '\U0001F600', ' a', '\n'):
            s = (unit * n)[:n]
            if place == 'sub':
                o = Obj('Top', {'x': 'x', 's': Obj('In', {'a': s, 't': s}), 'd': {'k': 'v'}})
            elif place == 'map':
                o = Obj('Top', {'x': 'x', 's': None, 'd': {'k': s, 'n' * min(n, 5000): 'v'}})
            else:
                o = Obj('Top', {'x': s, 's': None, 'd': {}})
            rep.states += 1
            roundtrip(c, o, rep, {})
