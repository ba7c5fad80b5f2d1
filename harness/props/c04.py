"""C04: strict / ordered / unordered search modes, for every short sequence of sub-elements."""
import itertools as it

from harness import engine as G
from harness import spec as S
from harness.families import MODES
from harness.ref import Node
from harness.spec import A, E, F, M, Map, Mod, Opt, P, Prog, Raw, Seq, Tag, Tup, Uni, W

INT = P('int')

SLOTS = ('req', 'opt', 'list', 'model', 'mlist', 'tuple', 'dict', 'raw', 'wrap', 'union', 'tagged', 'nil')


def slot(kind, i, tag, mode):
    """one field reading elements called `tag`"""
    sub = Mod(f'S{i}', (F('x', Opt(INT), default=None), F('k', Opt(INT), A(), default=None)), mode=mode)
    n = f'f{i}'
    if kind == 'req':
        return [], F(n, INT, E(tag))
    if kind == 'opt':
        return [], F(n, Opt(INT), E(tag), default=None)
    if kind == 'nil':
        return [], F(n, Opt(INT), E(tag, nillable=True), default=None)
    if kind == 'list':
        return [], F(n, Seq('list', INT), E(tag), factory='list')
    if kind == 'tuple':
        return [], F(n, Opt(Tup((INT, INT))), E(tag), default=None)
    if kind == 'dict':
        return [], F(n, Opt(Map(P('str'), INT)), E(tag), default=None)
    if kind == 'raw':
        return [], F(n, Opt(Raw()), E(tag), default=None)
    if kind == 'wrap':
        return [], F(n, Opt(INT), W(tag), default=None)
    if kind == 'model':
        return [sub], F(n, Opt(M(f'S{i}')), E(tag), default=None)
    if kind == 'mlist':
        return [sub], F(n, Seq('list', M(f'S{i}')), E(tag), factory='list')
    if kind == 'union':
        o = Mod(f'U{i}', (F('y', INT, A()),), tag=tag)
        return [sub, o], F(n, Opt(Uni((M(f'U{i}'), M(f'S{i}')))), E(tag), default=None)
    if kind == 'tagged':
        x = Mod(f'X{i}', (F('d', P("Literal['1']"), A('k')), F('x', Opt(INT), default=None)))
        y = Mod(f'Y{i}', (F('d', P("Literal['2']"), A('k')), F('x', Opt(INT), default=None)))
        return [x, y], F(n, Opt(Tag('d', (M(f'X{i}'), M(f'Y{i}')))), E(tag), default=None)
    raise AssertionError(kind)


def jobs(tier, backend):
    deep = tier != 'quick'
    two = list(it.product(SLOTS, SLOTS))
    for mode in MODES:
        for ks in two:
            for tags in ('aa', 'ab'):
                yield 'flat', ks, tags, mode, 5 if deep else 4
        core = ('req', 'opt', 'list', 'model', 'wrap', 'tagged')
        for i, ks in enumerate(it.product(core, repeat=3)):
            for j, tags in enumerate(('abc', 'aba', 'aab', 'abb')):
                if deep or (i + j) % 2 == (backend == 'std'):
                    yield 'flat', ks, tags, mode, 4 if deep else 3
    for m1, m2 in it.product(MODES, MODES):
        for how in ('model', 'list', 'wrap', 'union', 'root'):
            yield 'nested', how, m1, m2, 3
    for m in MODES:
        for paths in (('w', 'w'), ('w/v', 'w/v'), ('w/v', 'w'), ('w', 'v'), ('w/v', 'v/w')):
            yield 'paths', paths, m, 3


def sequences(alphabet, depth):
    for n in range(depth + 1):
        yield from it.product(alphabet, repeat=n)


def leaf(tag, i):
    return Node(tag, str(i + 1), {'k': str(i % 2 + 1)})


def run(job, rep, tier, backend):
    if job[0] == 'flat':
        _, ks, tags, mode, depth = job
        mods, fields = [], []
        for i, (k, t) in enumerate(zip(ks, tags)):
            ms, f = slot(k, i, t, mode)
            mods += ms
            fields.append(f)
        prog = Prog(tuple(mods + [Mod('Top', tuple(fields), tag='top', mode=mode)]),
                    f'{mode} {"+".join(ks)} tags {tags}')
        alphabet = sorted(set(tags)) + ['z']
        docs = (Node('top', kids=[leaf(t, i) for i, t in enumerate(s)]) for s in sequences(alphabet, depth))
    elif job[0] == 'nested':
        _, how, m1, m2, depth = job
        inner = Mod('In', (F('a', Opt(INT), E(), default=None), F('b', Seq('list', INT), E('b'), factory='list')),
                    mode=m2)
        after = F('c', Opt(INT), E(), default=None)
        mods = [inner]
        if how == 'model':
            f = F('s', Opt(M('In')), E('s'), default=None)
        elif how == 'list':
            f = F('s', Seq('list', M('In')), E('s'), factory='list')
        elif how == 'wrap':
            f = F('s', Opt(M('In')), W('s', E('s')), default=None)
        elif how == 'union':
            mods.append(Mod('Alt', (F('z', INT, E()),), mode=m2))
            f = F('s', Opt(Uni((M('Alt'), M('In')))), E('s'), default=None)
        else:
            mods.append(Mod('Rt', (F('root', Seq('list', INT), E('b')),), root=True, mode=m2))
            f = F('s', Opt(M('Rt')), E('s'), default=None)
        prog = Prog(tuple(mods + [Mod('Top', (f, after), tag='top', mode=m1)]), f'{how} {m1} in {m2}')
        inners = [[leaf(t, i) for i, t in enumerate(s)] for s in sequences('abz', depth)]

        def gen():
            for s in sequences('scz', 2):
                for kids in inners:
                    out = []
                    for i, t in enumerate(s):
                        if t == 's':
                            if how == 'wrap':
                                out.append(Node('s', kids=[Node('s', kids=[k.clone() for k in kids])]))
                            else:
                                out.append(Node('s', kids=[k.clone() for k in kids]))
                        else:
                            out.append(leaf(t, i))
                    yield Node('top', kids=out)
                    if 's' not in s:
                        break
        docs = gen()
    else:
        _, paths, mode, depth = job
        fields = (F('f0', Opt(INT), W(paths[0], E('x')), default=None),
                  F('g', Opt(INT), E('c'), default=None),
                  F('f1', Opt(INT), W(paths[1], E('y')), default=None))
        for order in (fields, (fields[0], fields[2], fields[1])):
            prog = Prog((Mod('Top', order, tag='top', mode=mode),), f'{mode} paths {paths} {[f.name for f in order]}')
            leafs = [(), ('x',), ('y',), ('x', 'y'), ('y', 'x'), ('z', 'y')]

            def tops():
                for s in leafs:
                    for d in ('w', 'v'):
                        yield Node(d, kids=[leaf(t, i) for i, t in enumerate(s)])
                        for e in ('w', 'v'):
                            if s:
                                yield Node(d, kids=[Node(e, kids=[leaf(t, i) for i, t in enumerate(s)])])
                yield leaf('c', 0)
                yield leaf('z', 0)

            nodes = list(tops())
            explore(prog, (Node('top', kids=[n.clone() for n in s]) for s in sequences(nodes, 2)), rep)
        return
    explore(prog, docs, rep)


def explore(prog, docs, rep):
    c = G.Case(prog, rep)
    if not c.define():
        return
    n = 0
    for d in docs:
        n += 1
        rep.states += 1
        c.check_parse(d)
    rep.sample(f'{prog.label}: {n} documents, e.g. {d!r}')
