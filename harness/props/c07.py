"""C07: discriminated unions: the discriminating attribute alone selects the variant, in every search mode."""
import itertools as it

from harness import engine as G
from harness import families as Fm
from harness import spec as S
from harness.ref import Node, Obj
from harness.spec import A, E, F, M, Mod, Opt, P, Prog, Seq, Tag, TEXT, Tup, W

INT, STR = P('int'), P('str')
DISCS = ('plain', 'named', 'ns')
TAGS = ('field', 'same', 'own', 'entity', 'ns')
HOWS = ('req', 'opt', 'list', 'wrap', 'wraplist', 'tuple', 'root')
AFTERS = ('none', 'elem', 'same', 'forbid', 'before')


def jobs(tier, backend):
    full = tier != 'quick'
    k = 0
    for disc in DISCS:
        for tags in TAGS:
            for how in HOWS:
                for after in AFTERS:
                    for mode in Fm.MODES:
                        k += 1
                        if full or k % 4 == (k // 4) % 4 or (disc == 'plain' and after in ('none', 'elem')):
                            yield 'doc', disc, tags, how, after, mode
    for mode in Fm.MODES:
        for tags in TAGS:
            for how in ('opt', 'list', 'wraplist'):
                for after in ('elem', 'same', 'forbid'):
                    yield 'seq', 'plain', tags, how, after, mode


def program(disc, tags, how, after, mode):
    ent = {'plain': A(), 'named': A('kind'), 'alias': A(), 'ns': A('kind', ns='q')}[disc]
    alias = 'al' if disc == 'alias' else None
    nsmap = (('q', 'urn:q'),) if disc == 'ns' or tags == 'ns' else None
    mods = []
    shapes = [
        (P("Literal['a']"), F('x', INT, E())),
        (P("Literal['b', 'c']"), F('x', STR, E())),
        (P("Literal['d', '']"), F('y', Opt(INT), A(), default=None)),
    ]
    for i, (lit, body) in enumerate(shapes):
        tag = {'field': None, 'same': 'tt', 'own': f't{i}', 'entity': f't{i}', 'ns': 'tt'}[tags]
        ns = 'q' if tags == 'ns' and i != 1 else None
        mods.append(Mod(f'T{i}', (F('k', lit, ent, alias=alias), body), tag=tag, ns=ns, nsmap=nsmap, mode=mode))
    u = Tag('k', tuple(M(m.name) for m in mods))
    objs = [Obj('T0', dict(k='a', x=1)), Obj('T1', dict(k='b', x='s')), Obj('T1', dict(k='c', x='2')),
            Obj('T2', dict(k='d', y=None)), Obj('T2', dict(k='', y=3))]
    e = E('u') if tags == 'entity' else TEXT
    if how == 'req':
        f, vals = F('u', u, e), objs
    elif how == 'opt':
        f, vals = F('u', Opt(u), e, default=None), objs + [None]
    elif how == 'list':
        f, vals = F('u', Seq('list', u), e, factory='list'), [objs, objs[::-1], objs[:2], []]
    elif how == 'wrap':
        f, vals = F('u', u, W('w', e)), objs
    elif how == 'wraplist':
        f, vals = F('u', Seq('list', u), W('w/v', e), factory='list'), [objs, objs[2:0:-1], []]
    elif how == 'tuple':
        ent2 = e if e is not TEXT else E('u')
        f, vals = F('u', Tup((u, u)), ent2), [(objs[0], objs[1]), (objs[3], objs[0])]
    elif how == 'root':
        mods.append(Mod('R', (F('root', Seq('list', u), e),), root=True, mode=mode))
        f, vals = F('u', M('R'), E('r')), [Obj('R', {'root': objs}), Obj('R', {'root': objs[1:2]})]
    fields = [f]
    tail = {'field': 'u', 'same': 'tt', 'own': 't0', 'entity': 'u', 'ns': 'tt'}[tags]
    if after in ('elem', 'forbid'):
        fields.append(F('after', Opt(STR), E(), default=None))
    elif after == 'same':
        fields.append(F('after', Seq('list', Opt(STR)), E(tail), factory='list'))
    elif after == 'before':
        fields.insert(0, F('after', Opt(STR), E(), default=None))
    top = Mod('Top', tuple(fields), tag='top', mode=mode, extra='forbid' if after == 'forbid' else None)
    prog = Prog(tuple(mods + [top]), f'disc={disc} tags={tags} {how} then {after} {mode}')
    out = []
    for i, v in enumerate(vals):
        d = {'u': v}
        if after in ('elem', 'forbid', 'before'):
            d['after'] = ('x', None)[i % 2]
        out.append(Obj('Top', d))
    return prog, out


def run(job, rep, tier, backend):
    what = job[0]
    prog, objs = program(*job[1:])
    c = G.Case(prog, rep)
    if not c.define():
        return
    seeds = []
    for o in objs:
        o = G.complete(o, c.ref)
        for opts in ({}, {'skip_empty': True}, {'exclude_none': True}):
            c.check_serialize(o, **opts)
        seeds.append(c.ref.serialize(o, quirks=False))
    if what == 'doc':
        attrs = {k for s in seeds for n in walk(s) for k in n.attrs if n.attrs[k] in 'abcd' and len(n.attrs[k]) == 1}
        more = []
        for s in seeds:         # every discriminator replaced by every other value
            for i, n in enumerate(walk(s)):
                for a in attrs & set(n.attrs):
                    for val in ('a', 'b', 'c', 'd', 'e', 'A', ' a', ''):
                        d = s.clone()
                        list(walk(d))[i].attrs[a] = val
                        more.append(d)
        docs, edges = G.explore_docs(seeds, 1)
        docs += more
        rep.transitions += edges + len(more) - len(docs)
    else:
        docs = sequences(c, job, 4 if tier != 'quick' else 3)
    rep.states += len(docs)
    for d in docs:
        c.check_parse(d)
    rep.sample(f'{prog.label}: {len(docs)} documents, e.g. {docs[-1]!r}')


def walk(n):
    yield n
    for k in n.kids:
        yield from walk(k)


def sequences(c, job, depth):
    _, disc, tags, how, after, mode = job
    letters = []
    for i, (vals, ok) in enumerate(((('a',), Node('x', '1')), (('b', 'c'), Node('x', 's')), (('d',), None))):
        tag = {'field': 'u', 'same': 'tt', 'own': f't{i}', 'entity': 'u', 'ns': '{urn:q}tt' if i != 1 else 'tt'}[tags]
        for v in vals[:1]:
            letters.append(Node(tag, attrs={'k': v}, kids=[ok] if ok else []))
        if i < 2:
            letters.append(Node(tag, attrs={'k': vals[-1]}))            # required content is missing
    letters += [Node(letters[0].tag, attrs={'k': 'zz'}), Node(letters[0].tag, 'plain'), Node('after', 'x'), Node('z')]
    docs = []
    for n in range(depth + 1):
        for s in it.product(letters, repeat=n):
            kids = [k.clone() for k in s]
            if how == 'wraplist':
                kids = [Node('w', kids=[Node('v', kids=[k for k in kids if k.tag != 'after'])])] + \
                    [k for k in kids if k.tag == 'after']
            docs.append(Node('top', kids=kids))
    return docs
