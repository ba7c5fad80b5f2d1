"""
Families of programs: the bounded program spaces the properties are decided over.

A *job* is a plain tuple (family, arguments...) so that it can be enumerated cheaply and sharded; ``build(job)`` turns it
into a program and its field values.
"""

from __future__ import annotations

import itertools as it
from collections import Counter, OrderedDict, defaultdict
from dataclasses import replace

from . import kinds as K
from . import ref as R
from .ref import NT, Obj
from .spec import Color, E, F, M, Map, Mod, Opt, P, Prog, Seq, TD, Tag, Tup, Uni, W

MODES = ('strict', 'ordered', 'unordered')

# model parameters under which every single kind is explored
PARAMS = {
    'plain': {},
    'ns': dict(ns='p', nsmap=(('p', 'urn:p'), ('o', 'urn:o'))),
    'dns': dict(nsmap=(('', 'urn:d'),)),
    'ns+dns': dict(ns='p', nsmap=(('p', 'urn:p'), ('', 'urn:d'))),
    'ns_attrs': dict(ns='p', nsmap=(('p', 'urn:p'),), ns_attrs=True),
    'skip': dict(skip_empty=True),
    'noskip': dict(skip_empty=False),
    'forbid': dict(extra='forbid'),
}

# ways a group of fields may be nested
NESTINGS = ('sub', 'sub_elem', 'sub_opt', 'list', 'wrap', 'deep', 'union', 'root', 'root_list', 'inherit', 'tuple')


def kind_names(exclude=()):
    return [k for k in K.KINDS if k not in exclude]


def nest(how, names, mode=None, top_extra=None, **params):
    """program whose root model has the fields of `names` behind one (or two) levels of nesting + a trailing element"""
    models, fields, vals = [], [], []
    for i, n in enumerate(names):
        helpers, f, v = K.KINDS[n](i)
        models.extend(helpers)
        fields.append(f)
        vals.append(K.enum_fix(f, v))
    inner = Mod('In', tuple(fields), mode=mode, **params)
    plain = [f for f in fields if f.computed is None]
    pv = [v for f, v in zip(fields, vals) if f.computed is None]

    def objs():
        n = max([len(v) for v in pv] or [1])
        return [Obj('In', {f.name: v[k % len(v)] for f, v in zip(plain, pv) if v}) for k in range(n)]

    inners = objs()
    tail = F('z', Opt(P('int')), E(), default=None)
    top_kw = dict(tag='top', mode=mode, extra=top_extra)
    extra = []
    if how == 'sub':
        f, v = F('s', M('In')), inners
    elif how == 'sub_elem':
        f, v = F('s', M('In'), E('inn')), inners
    elif how == 'sub_opt':
        f, v = F('s', Opt(M('In')), E('inn'), default=None), inners + [None]
    elif how == 'list':
        f, v = F('s', Seq('list', M('In')), E('inn'), factory='list'), [inners, inners[:1] * 2, []]
    elif how == 'tuple':
        from .spec import Tup
        f, v = F('s', Tup((M('In'), P('int'), Opt(M('In')))), E('inn')), [(inners[0], 4, inners[-1])]
    elif how == 'wrap':
        f, v = F('s', M('In'), W('w', E('inn'))), inners
    elif how == 'deep':
        extra = [Mod('Mid', (F('m', M('In')), F('n', Opt(P('str')), E(), default=None)), mode=mode)]
        f, v = F('s', M('Mid')), [Obj('Mid', {'m': o, 'n': None}) for o in inners]
    elif how == 'union':
        extra = [Mod('Alt', (F('alt', P('int'), E()),))]
        f, v = F('s', Uni((M('Alt'), M('In'))), E('inn')), inners
    elif how == 'root':
        extra = [Mod('Rt', (F('root', M('In')),), root=True)]
        f, v = F('s', M('Rt'), E('rt')), [Obj('Rt', {'root': o}) for o in inners]
    elif how == 'root_list':
        extra = [Mod('Rt', (F('root', Seq('list', M('In')), E('inn')),), root=True)]
        f, v = F('s', M('Rt'), E('rt')), [Obj('Rt', {'root': inners})]
    elif how == 'inherit':
        base = replace(inner, name='Base')
        top = Mod('Top', (tail,), base='Base', tag='top', mode=mode, extra=top_extra)
        label = f'{how}({"+".join(names)}) {mode} {params}'
        return Prog(tuple(models + [base, top]), label), [*pv, [5, None]], plain + [tail]
    else:
        raise AssertionError(how)
    top = Mod('Top', (f, tail), **top_kw)
    label = f'{how}({"+".join(names)}) {mode} {params or ""}'
    return Prog(tuple(models + [inner] + extra + [top]), label), [v, [5, None]], [f, tail]


def build(job):
    """-> (program, per-field values, fields)"""
    fam = job[0]
    if fam == 'flat':
        _, names, params = job
        prog, vals = K.compose(names, **dict(params))
        fields = [(f, v) for f, v in zip(prog.top.fields, vals) if f.computed is None]
        return prog, [v for _, v in fields], [f for f, _ in fields]
    if fam == 'nest':
        _, how, names, params = job
        prog, vals, fields = nest(how, names, **dict(params))
        return prog, vals, fields
    raise AssertionError(job)


def spread(xs, n):
    """n elements of xs, evenly spread, both ends included"""
    if n is None or len(xs) <= n:
        return list(xs)
    return [xs[i * (len(xs) - 1) // (n - 1)] for i in range(n)]


def rich(t, ref, n=None):
    """every small value of a type (None where a type has none that can be enumerated)"""
    if isinstance(t, P):
        if t.name.startswith('Literal['):
            v = eval(t.name[len('Literal'):])
            return list(v)
        return {'int': [1, 0, -7], 'str': ['x', '', ' y '], 'bool': [True, False],
                'Color': [Color.BLUE, Color.RED]}.get(t.name, [])
    if isinstance(t, Opt):
        return rich(t.item, ref, n) + [None]
    if isinstance(t, Seq):
        items = spread(rich(t.item, ref), 3)
        seqs = [p for k in range(4) for p in it.product(items, repeat=k)]
        if t.kind in ('set', 'frozenset'):
            cls = {'set': set, 'frozenset': frozenset}[t.kind]
            return [cls(c) for k in range(3) for c in it.combinations(items, k)]
        return spread([R.SEQS[t.kind](x) for x in seqs], n)
    if isinstance(t, Tup):
        cls = (lambda x: NT(t.named[0], x)) if t.named else tuple
        return spread([cls(x) for x in it.product(*[spread(rich(i, ref), 3) for i in t.items])], n)
    if isinstance(t, Map):
        vals = rich(t.val, ref)
        cls = {'DefaultDict': lambda d: defaultdict(int, d), 'OrderedDict': OrderedDict, 'Counter': Counter}.get(t.cls, dict)
        return [cls(d) for d in [{}] + [{'k': v} for v in vals] + [{'k': v, 'l': w} for v in vals for w in vals][:6]]
    if isinstance(t, TD):
        return [dict(zip([f for f, _ in t.fields], x)) for x in it.product(*[rich(i, ref) for _, i in t.fields])]
    if isinstance(t, M):
        fs = [f for f in ref.eff[t.name].fields if f.computed is None and rich(f.type, ref)]
        vs = [rich(f.type, ref, 12) for f in fs]
        out = [Obj(t.name, {f.name: v[0] for f, v in zip(fs, vs)})]
        for f, v in zip(fs, vs):
            out.extend(Obj(t.name, {**out[0].vals, f.name: x}) for x in v[1:])
        out.append(Obj(t.name, {f.name: v[-1] for f, v in zip(fs, vs)}))
        missing = [f for f in ref.eff[t.name].fields if f.computed is None and f not in fs and not ref.has_default(f)]
        return [] if missing else spread(out, n)
    if isinstance(t, (Uni, Tag)):
        return [v for i in t.items for v in rich(i, ref, n)]
    return []


def rich_objects(job, ref, n=None):
    """instances of the root model with one field at a time taking every small value of its type"""
    from .engine import complete
    prog, vals, fields = build(job)
    base = {f.name: v[0] for f, v in zip(fields, vals) if v}
    seen, out = set(), []
    for f, v in zip(fields, vals):
        for x in spread(rich(f.type, ref, n), n):
            if repr(x) not in seen and not any(repr(x) == repr(y) for y in v):
                seen.add(repr(x))
                out.append(complete(Obj('Top', {**base, f.name: x}), ref))
    return out


def objects(job, ref, cap=None, product=True):
    """completed instances of the root model, the simplest ones first"""
    from .engine import complete
    prog, vals, fields = build(job)
    pairs = [(f, v) for f, v in zip(fields, vals) if v]
    if product:
        combos = it.product(*[v for _, v in pairs])
    else:
        n = max([len(v) for _, v in pairs] or [1])
        combos = ([v[k % len(v)] for _, v in pairs] for k in range(n))
    out = []
    for combo in combos:
        out.append(complete(Obj('Top', {f.name: x for (f, _), x in zip(pairs, combo)}), ref))
        if cap and len(out) >= cap:
            break
    return out


def freeze(params) -> tuple:
    return tuple(sorted(params.items()))


def singles(modes=MODES, params=PARAMS, names=None):
    for n in names or kind_names():
        for mode in modes:
            for pn, p in params.items():
                yield ('flat', (n,), freeze({**p, 'mode': mode}))


def pairs(modes=MODES, names=None, rotate=False, **params):
    names = names or kind_names()
    for i, p in enumerate(it.product(names, names)):
        if not K.compatible(p):
            continue
        for k, mode in enumerate(modes):
            if rotate and (i + i // len(names)) % len(modes) != k:
                continue
            yield ('flat', p, freeze({**params, 'mode': mode}))


def nested(modes=MODES, names=None, hows=NESTINGS, **params):
    for n in names or kind_names():
        for how in hows:
            for mode in modes:
                yield ('nest', how, (n,), freeze({**params, 'mode': mode}))


def split(jobs, backend):
    """half of the jobs for every backend (the other half runs on the other one)"""
    for i, j in enumerate(jobs):
        if i % 2 == (backend == 'std'):
            yield j
