"""
Catalogue of field kinds: every supported combination of field type and document location, each with a few values.

``KINDS[name](i)`` -> (helper models, Field, values).  ``i`` makes names unique so that kinds can be combined freely;
wrapped kinds deliberately share the wrapper name ``w`` so that combinations exercise shared prefixes.
"""

from __future__ import annotations

from collections import Counter, OrderedDict, defaultdict, deque
from typing import Callable, Dict

from .ref import NT, Node, Obj
from .spec import (A, E, F, M, Map, Mod, Opt, P, Prog, Raw, Seq, Src, TD, Tag, TEXT, Tup, Uni, W)

INT, STR, BOOL = P('int'), P('str'), P('bool')
KINDS: Dict[str, Callable] = {}


def kind(fn):
    KINDS[fn.__name__.rstrip('_')] = fn
    return fn


def obj(cls, **kw):
    return Obj(cls, kw)


def sub(i, tag='s', **kw):
    """a small sub-model with an attribute and an element"""
    return Mod(f'S{i}', (F('p', INT, A()), F('q', Opt(STR), E(), default=None)), **kw)


def sub_vals(i):
    return [obj(f'S{i}', p=1, q='x'), obj(f'S{i}', p=2, q=None)]


# ------------------------------------------------------------------------------------------------ attributes and text

@kind
def attr_int(i):
    return [], F(f'a{i}', INT, A()), [1, -7]


@kind
def attr_opt(i):
    return [], F(f'a{i}', Opt(STR), A(), default=None), ['x', None]


@kind
def attr_default(i):
    return [], F(f'a{i}', INT, A(), default=5), [5, 6]


@kind
def attr_named(i):
    return [], F(f'a{i}', STR, A(f'nm-{i}')), ['x', '']


@kind
def attr_alias(i):
    return [], F(f'a{i}', INT, A(), alias=f'al{i}'), [1]


@kind
def attr_literal(i):
    return [], F(f'a{i}', P("Literal['u', 'v']"), A()), ['u', 'v']


@kind
def attr_bool(i):
    return [], F(f'a{i}', BOOL, A()), [True, False]


@kind
def text_int(i):
    return [], F(f't{i}', INT), [3]


@kind
def text_opt(i):
    return [], F(f't{i}', Opt(STR), default=None), ['x', None]


@kind
def text_str(i):
    return [], F(f't{i}', STR), ['x <&> y', ' z ', ' ', '\ufeffx\u2028']


# --------------------------------------------------------------------------------------------------------- primitives

@kind
def elem_int(i):
    return [], F(f'e{i}', INT, E()), [1, 0]


@kind
def elem_bool(i):
    return [], F(f'e{i}', BOOL, E()), [True, False]


@kind
def elem_opt(i):
    return [], F(f'e{i}', Opt(INT), E(), default=None), [1, None]


@kind
def elem_opt_req(i):
    return [], F(f'e{i}', Opt(INT), E()), [1]


@kind
def elem_default(i):
    return [], F(f'e{i}', STR, E(), default='d'), ['d', 'x', ' ']


@kind
def elem_nillable(i):
    return [], F(f'e{i}', Opt(INT), E(nillable=True), default=None), [1, None]


@kind
def elem_named(i):
    return [], F(f'e{i}', INT, E(f'nm-{i}')), [1]


@kind
def elem_alias(i):
    return [], F(f'e{i}', INT, E(), alias=f'al{i}'), [1]


@kind
def elem_alias_default(i):
    return [], F(f'e{i}', Opt(INT), E(), alias=f'al{i}', default=None), [1, None]


@kind
def elem_annotated(i):
    return [], F(f'e{i}', INT, E(f'an{i}'), annotated=True), [1]


@kind
def elem_ns(i):
    return [], F(f'e{i}', INT, E(ns='p', nsmap=(('p', 'urn:p'), ('', 'urn:d')))), [1]


@kind
def elem_default_ns(i):
    return [], F(f'e{i}', INT, E(nsmap=(('', 'urn:d'),))), [1]


@kind
def elem_empty_ns(i):
    return [], F(f'e{i}', INT, E(ns='', nsmap=(('', 'urn:d2'),))), [1]


@kind
def elem_union(i):
    return [], F(f'e{i}', Uni((INT, STR)), E()), [1, 'x']


@kind
def elem_enum(i):
    return [], F(f'e{i}', P('Color'), E(), default=Src('Color.RED')), ['RED', 'BLUE']


# --------------------------------------------------------------------------------------------------------- sub-models

@kind
def model(i):
    return [sub(i)], F(f's{i}', M(f'S{i}')), sub_vals(i)


@kind
def model_opt(i):
    return [sub(i)], F(f's{i}', Opt(M(f'S{i}')), default=None), sub_vals(i)[:1] + [None]


@kind
def model_tagged(i):
    return [sub(i, tag_='x')] if False else [Mod(f'S{i}', sub(i).fields, tag=f'mt{i}')], F(f's{i}', M(f'S{i}')), \
        sub_vals(i)


@kind
def model_elem(i):
    return [Mod(f'S{i}', sub(i).fields, tag=f'mt{i}')], F(f's{i}', M(f'S{i}'), E(f'et{i}')), sub_vals(i)[:1]


@kind
def model_nillable(i):
    return [sub(i)], F(f's{i}', Opt(M(f'S{i}')), E(nillable=True), default=None), sub_vals(i)[:1] + [None]


@kind
def model_text(i):
    m = Mod(f'S{i}', (F('p', INT, A(), default=1), F('t', Opt(STR), default=None)))
    return [m], F(f's{i}', M(f'S{i}')), [obj(f'S{i}', p=2, t='x'), obj(f'S{i}', p=1, t=None)]


@kind
def model_ns(i):
    m = Mod(f'S{i}', sub(i).fields, ns='p', nsmap=(('p', 'urn:p'),))
    return [m], F(f's{i}', M(f'S{i}')), sub_vals(i)[:1]


@kind
def model_forbid(i):
    m = Mod(f'S{i}', sub(i).fields, extra='forbid')
    return [m], F(f's{i}', M(f'S{i}')), sub_vals(i)[:1]


@kind
def model_unordered(i):
    m = Mod(f'S{i}', (F('p', INT, E()), F('q', Opt(STR), E(), default=None)), mode='unordered')
    return [m], F(f's{i}', M(f'S{i}')), sub_vals(i)


@kind
def model_ordered(i):
    m = Mod(f'S{i}', (F('p', INT, E()), F('q', Opt(STR), E(), default=None)), mode='ordered')
    return [m], F(f's{i}', M(f'S{i}')), sub_vals(i)


@kind
def model_skip(i):
    m = Mod(f'S{i}', (F('p', Opt(INT), A(), default=None), F('q', Opt(STR), E(), default=None)), skip_empty=True)
    return [m], F(f's{i}', M(f'S{i}')), [obj(f'S{i}', p=1, q='x'), obj(f'S{i}', p=None, q=None)]


@kind
def model_noskip(i):
    m = Mod(f'S{i}', (F('p', Opt(INT), A(), default=None), F('q', Opt(STR), E(), default=None)), skip_empty=False)
    return [m], F(f's{i}', M(f'S{i}')), [obj(f'S{i}', p=1, q='x'), obj(f'S{i}', p=None, q=None)]


@kind
def model_deep(i):
    inner = Mod(f'D{i}', (F('x', INT, A()), F('y', Opt(INT), E(), default=None)))
    m = Mod(f'S{i}', (F('d', M(f'D{i}')), F('e', Opt(M(f'D{i}')), E('d2'), default=None)))
    return [inner, m], F(f's{i}', M(f'S{i}')), [
        obj(f'S{i}', d=obj(f'D{i}', x=1, y=2), e=obj(f'D{i}', x=3, y=None)),
        obj(f'S{i}', d=obj(f'D{i}', x=1, y=None), e=None),
    ]


@kind
def model_same_names(i):
    """the sub-model uses the same field names as its parent"""
    m = Mod(f'S{i}', (F(f's{i}', INT, E()), F('q', Opt(STR), E(), default=None)))
    return [m], F(f's{i}', M(f'S{i}')), [obj(f'S{i}', **{f's{i}': 1}, q='x')]


@kind
def root_int(i):
    return [Mod(f'R{i}', (F('root', INT),), root=True)], F(f'r{i}', M(f'R{i}')), [obj(f'R{i}', root=4)]


@kind
def root_elem_opt(i):
    m = Mod(f'R{i}', (F('root', Opt(INT), E('re'), default=None),), root=True)
    return [m], F(f'r{i}', M(f'R{i}')), [obj(f'R{i}', root=4), obj(f'R{i}', root=None)]


@kind
def root_noskip(i):
    m = Mod(f'R{i}', (F('root', Seq('list', Opt(STR)), E('re'), factory='list'),), root=True, skip_empty=False)
    return [m], F(f'r{i}', M(f'R{i}')), [obj(f'R{i}', root=['x', 'y']), obj(f'R{i}', root=[])]


@kind
def root_list(i):
    return [Mod(f'R{i}', (F('root', Seq('list', INT), E(f'ri{i}')),), root=True)], F(f'r{i}', M(f'R{i}')), \
        [obj(f'R{i}', root=[1, 2]), obj(f'R{i}', root=[3])]


@kind
def root_model(i):
    return [sub(i), Mod(f'R{i}', (F('root', M(f'S{i}'), E(f'ri{i}')),), root=True)], F(f'r{i}', M(f'R{i}')), \
        [obj(f'R{i}', root=sub_vals(i)[0])]


@kind
def root_dict(i):
    return [Mod(f'R{i}', (F('root', Map(STR, INT)),), root=True)], F(f'r{i}', M(f'R{i}')), \
        [obj(f'R{i}', root={'k': 1, 'l': 2}), obj(f'R{i}', root={})]


@kind
def root_attr(i):
    return [Mod(f'R{i}', (F('root', INT, A(f'ra{i}')),), root=True)], F(f'r{i}', M(f'R{i}')), [obj(f'R{i}', root=4)]


# --------------------------------------------------------------------------------------------------------- collections

@kind
def list_int(i):
    return [], F(f'l{i}', Seq('list', INT), E(f'li{i}')), [[1, 2], [3]]


@kind
def list_default(i):
    return [], F(f'l{i}', Seq('list', STR), E(f'li{i}'), factory='list'), [['x', 'y'], []]


@kind
def list_opt(i):
    return [], F(f'l{i}', Opt(Seq('list', INT)), E(f'li{i}'), default=None), [[1], None]


@kind
def list_opt_items(i):
    return [], F(f'l{i}', Seq('list', Opt(INT)), E(f'li{i}'), factory='list'), [[1, 2], []]


@kind
def list_model(i):
    return [sub(i)], F(f'l{i}', Seq('list', M(f'S{i}')), E(f'li{i}')), [sub_vals(i), sub_vals(i)[:1]]


@kind
def list_model_default(i):
    return [sub(i)], F(f'l{i}', Seq('list', M(f'S{i}')), factory='list'), [sub_vals(i), []]


@kind
def set_int(i):
    return [], F(f'l{i}', Seq('set', INT), E(f'li{i}')), [{1, 2}]


@kind
def frozenset_int(i):
    return [], F(f'l{i}', Seq('frozenset', INT), E(f'li{i}')), [frozenset({1})]


@kind
def tuple_var(i):
    return [], F(f'l{i}', Seq('tuple', INT), E(f'li{i}')), [(1, 2, 3), (1,)]


@kind
def deque_int(i):
    return [], F(f'l{i}', Seq('deque', INT), E(f'li{i}')), [deque([1, 2]), deque([3])]


@kind
def deque_model(i):
    return [sub(i)], F(f'l{i}', Opt(Seq('deque', M(f'S{i}'))), E(f'li{i}'), default=None), [deque(sub_vals(i)), None]


@kind
def tuple_fixed(i):
    return [], F(f'l{i}', Tup((INT, STR)), E(f'li{i}')), [(1, 'x')]


@kind
def tuple_opt(i):
    return [], F(f'l{i}', Opt(Tup((INT, Opt(STR)))), E(f'li{i}'), default=None), [(1, 'x'), (1, None), None]


@kind
def tuple_model(i):
    return [sub(i)], F(f'l{i}', Tup((M(f'S{i}'), INT)), E(f'li{i}')), [(sub_vals(i)[0], 5)]


@kind
def named_tuple(i):
    return [], F(f'l{i}', Tup((INT, STR), (f'NT{i}', ('x', 'y'))), E(f'li{i}')), [NT(f'NT{i}', (1, 'x'))]


@kind
def named_tuple_opt(i):
    return [], F(f'l{i}', Tup((Opt(INT), Opt(STR)), (f'NT{i}', ('x', 'y'))), E(f'li{i}', nillable=True)), \
        [NT(f'NT{i}', (1, 'x')), NT(f'NT{i}', (None, 'x')), NT(f'NT{i}', (1, None))]


@kind
def list_tuple(i):
    return [], F(f'l{i}', Seq('list', Tup((INT, STR))), E(f'li{i}')), [[(1, 'x'), (2, 'y')]]


@kind
def list_dict(i):
    return [], F(f'l{i}', Seq('list', Map(STR, INT)), E(f'li{i}')), [[{'k': 1}, {'m': 2, 'n': 3}]]


@kind
def list_named_tuple(i):
    return [], F(f'l{i}', Seq('list', Tup((INT, STR), (f'NT{i}', ('x', 'y')))), E(f'li{i}')), \
        [[NT(f'NT{i}', (1, 'x')), NT(f'NT{i}', (2, 'y'))]]


@kind
def list_root(i):
    return [Mod(f'R{i}', (F('root', INT),), root=True)], F(f'l{i}', Seq('list', M(f'R{i}')), E(f'li{i}')), \
        [[obj(f'R{i}', root=4), obj(f'R{i}', root=5)]]


# ------------------------------------------------------------------------------------------------------------ mappings

@kind
def dict_elem(i):
    return [], F(f'd{i}', Map(STR, INT), E(f'di{i}')), [{'k': 1, 'm': 2}, {}]


@kind
def dict_opt(i):
    return [], F(f'd{i}', Opt(Map(STR, STR)), E(f'di{i}'), default=None), [{'k': 'x'}]


@kind
def dict_attrs(i):
    return [], F(f'd{i}', Map(STR, INT)), [{'k': 1, 'm': 2}, {}]


@kind
def dict_bool(i):
    return [], F(f'd{i}', Map(STR, BOOL), E(f'di{i}')), [{'k': True, 'm': False}]


@kind
def default_dict(i):
    return [], F(f'd{i}', Map(STR, INT, 'DefaultDict'), E(f'di{i}')), [defaultdict(int, k=1, m=2)]


@kind
def ordered_dict_attrs(i):
    return [], F(f'd{i}', Map(STR, INT, 'OrderedDict')), [OrderedDict(m=2, k=1)]


@kind
def counter(i):
    return [], F(f'd{i}', Map(STR, INT, 'Counter'), E(f'di{i}')), [Counter('aab')]


@kind
def typed_dict_attrs(i):
    return [], F(f'd{i}', TD(f'TD{i}', (('k', INT), ('m', STR)))), [{'k': 1, 'm': 'x'}]


@kind
def typed_dict(i):
    return [], F(f'd{i}', TD(f'TD{i}', (('k', INT), ('m', STR))), E(f'di{i}')), [{'k': 1, 'm': 'x'}]


# -------------------------------------------------------------------------------------------------------------- unions

def variants(i):
    return [
        Mod(f'UA{i}', (F('v', INT, A()),), tag=f'ua{i}'),
        Mod(f'UB{i}', (F('v', STR, A()), F('w', Opt(INT), E(), default=None)), tag=f'ub{i}'),
    ]


@kind
def union_models(i):
    return variants(i), F(f'u{i}', Uni((M(f'UA{i}'), M(f'UB{i}')))), \
        [obj(f'UA{i}', v=1), obj(f'UB{i}', v='x', w=2)]


@kind
def union_same_tag(i):
    ms = variants(i)
    return ms, F(f'u{i}', Uni((M(f'UA{i}'), M(f'UB{i}'))), E(f'un{i}')), \
        [obj(f'UA{i}', v=1), obj(f'UB{i}', v='x', w=2)]


@kind
def union_opt(i):
    return variants(i), F(f'u{i}', Opt(Uni((M(f'UA{i}'), M(f'UB{i}')))), default=None), \
        [obj(f'UB{i}', v='x', w=None), None]


@kind
def union_list(i):
    return variants(i), F(f'u{i}', Seq('list', Uni((M(f'UA{i}'), M(f'UB{i}')))), E(f'un{i}')), \
        [[obj(f'UA{i}', v=1), obj(f'UB{i}', v='x', w=2)], [obj(f'UB{i}', v='y', w=None), obj(f'UA{i}', v=3)]]


@kind
def union_shared_elems(i):
    """variants which read the same element in different ways: a failed variant must leave no trace"""
    ms = [
        Mod(f'UA{i}', (F('x', INT, E()), F('y', INT, E()))),
        Mod(f'UB{i}', (F('x', STR, E()), F('y', Opt(STR), E(), default=None), F('z', Opt(STR), A(), default=None))),
    ]
    return ms, F(f'u{i}', Uni((M(f'UA{i}'), M(f'UB{i}'))), E(f'un{i}')), \
        [obj(f'UA{i}', x=1, y=2), obj(f'UB{i}', x='a', y='b', z='c')]


def tagged(i, tags=False):
    return [
        Mod(f'TA{i}', (F('k', P("Literal['a']"), A()), F('x', INT, E())), tag=f'ta{i}' if tags else f'tt{i}'),
        Mod(f'TB{i}', (F('k', P("Literal['b', 'c']"), A()), F('y', STR, E())), tag=f'tb{i}' if tags else f'tt{i}'),
    ]


@kind
def tagged_union(i):
    return tagged(i), F(f'u{i}', Tag('k', (M(f'TA{i}'), M(f'TB{i}')))), \
        [obj(f'TA{i}', k='a', x=1), obj(f'TB{i}', k='b', y='z'), obj(f'TB{i}', k='c', y='z')]


@kind
def tagged_union_opt(i):
    return [
        Mod(f'TA{i}', (F('k', P("Literal['a']"), A()), F('x', INT, E(), default=5)), tag=f'tt{i}'),
        Mod(f'TB{i}', (F('k', P("Literal['b']"), A()), F('y', Opt(STR), E(), default=None)), tag=f'tt{i}'),
    ], F(f'u{i}', Tag('k', (M(f'TA{i}'), M(f'TB{i}')))), \
        [obj(f'TA{i}', k='a', x=1), obj(f'TB{i}', k='b', y='z'), obj(f'TB{i}', k='b', y=None)]


@kind
def tagged_union_tags(i):
    return tagged(i, True), F(f'u{i}', Opt(Tag('k', (M(f'TA{i}'), M(f'TB{i}')))), default=None), \
        [obj(f'TA{i}', k='a', x=1), obj(f'TB{i}', k='b', y='z'), None]


@kind
def tagged_list(i):
    return tagged(i), F(f'u{i}', Seq('list', Tag('k', (M(f'TA{i}'), M(f'TB{i}'))))), \
        [[obj(f'TA{i}', k='a', x=1), obj(f'TB{i}', k='c', y='z'), obj(f'TA{i}', k='a', x=2)]]


# ------------------------------------------------------------------------------------------------------------- wrapped

@kind
def wrap_attr(i):
    return [], F(f'w{i}', INT, W('w', A(f'wa{i}'))), [1]


@kind
def wrap_text(i):
    return [], F(f'w{i}', INT, W(f'wt{i}')), [1]


@kind
def wrap_elem(i):
    return [], F(f'w{i}', INT, W('w', E(f'we{i}'))), [1]


@kind
def wrap_elem_opt(i):
    return [], F(f'w{i}', Opt(STR), W('w', E(f'we{i}')), default=None), ['x', None]


@kind
def wrap_path(i):
    return [], F(f'w{i}', INT, W('w/v', E(f'we{i}'))), [1]


@kind
def wrap_nested(i):
    return [], F(f'w{i}', INT, W('w', W('v', A(f'wa{i}')))), [1]


@kind
def wrap_list(i):
    return [], F(f'w{i}', Seq('list', INT), W('w', E(f'we{i}')), factory='list'), [[1, 2], []]


@kind
def wrap_model(i):
    return [sub(i)], F(f'w{i}', M(f'S{i}'), W('w', E(f'we{i}'))), sub_vals(i)


@kind
def wrap_model_opt(i):
    m = Mod(f'S{i}', (F('p', Opt(INT), A(), default=None),))
    return [m], F(f'w{i}', Opt(M(f'S{i}')), W('w', E(f'we{i}')), default=None), \
        [obj(f'S{i}', p=1), obj(f'S{i}', p=None), None]


@kind
def wrap_union(i):
    return variants(i), F(f'w{i}', Uni((M(f'UA{i}'), M(f'UB{i}'))), W('w')), \
        [obj(f'UA{i}', v=1), obj(f'UB{i}', v='x', w=2)]


@kind
def wrap_dict(i):
    return [], F(f'w{i}', Map(STR, INT), W(f'wd{i}')), [{'k': 1}, {'l': 2, 'm': 3}]


@kind
def wrap_raw(i):
    return [], F(f'w{i}', Opt(Raw()), W(f'wx{i}', E(f'xr{i}')), default=None), [raw(f'xr{i}', text='t'), raw(f'xr{i}', m='2'), raw(f'xr{i}'), None]


@kind
def wrap_tuple(i):
    return [], F(f'w{i}', Tup((INT, Opt(STR))), W(f'wt{i}', E(f'we{i}', nillable=True))), [(1, 'x'), (2, None)]


@kind
def wrap_tagged(i):
    return tagged(i), F(f'w{i}', Opt(Tag('k', (M(f'TA{i}'), M(f'TB{i}')))), W(f'wu{i}'), default=None), \
        [obj(f'TA{i}', k='a', x=1), obj(f'TB{i}', k='c', y='z'), None]


@kind
def wrap_typed_dict(i):
    return [], F(f'w{i}', TD(f'TD{i}', (('k', INT), ('m', STR))), W(f'wt{i}', E(f'di{i}'))), [{'k': 1, 'm': 'x'}]


@kind
def wrap_same(i):
    return [], F(f'w{i}', Opt(INT), W('w/w', E(f'we{i}')), default=None), [1, None]


@kind
def wrap_ns(i):
    return [], F(f'w{i}', INT, W('w', E(f'we{i}', nsmap=(('', 'urn:in'),)), ns='p', nsmap=(('p', 'urn:p'),))), [1]


@kind
def wrap_ns_inherit(i):
    return [], F(f'w{i}', INT, W('wn', E(f'we{i}'), ns='p', nsmap=(('p', 'urn:p'), ('', 'urn:d')))), [1]


# --------------------------------------------------------------------------------------------------------------- other

def raw(tag, *kids, text=None, **attrs):
    return Node(tag, text, attrs, kids)


@kind
def raw_elem(i):
    return [], F(f'x{i}', Raw(), E(f'xr{i}')), [
        raw(f'xr{i}', raw('y', text='1'), raw('z', k='v'), b='c'), raw(f'xr{i}', text='t'),
    ]


@kind
def raw_opt(i):
    return [], F(f'x{i}', Opt(Raw()), E(f'xr{i}'), default=None), [raw(f'xr{i}', text='t'), raw(f'xr{i}'), None]


@kind
def raw_list(i):
    return [], F(f'x{i}', Seq('list', Raw()), E(f'xr{i}')), [[raw(f'xr{i}', text='1'), raw(f'xr{i}', raw('n'), m='2')]]


@kind
def excluded(i):
    return [], F(f'e{i}', INT, E(), default=3, exclude=True), [3]


@kind
def excluded_attr(i):
    return [], F(f'a{i}', Opt(INT), A(), default=None, exclude=True), [3]


@kind
def excluded_if(i):
    return [], F(f'e{i}', INT, E(), default=3, exclude_if=3), [3, 4]


@kind
def excluded_if_attr(i):
    return [], F(f'a{i}', Opt(STR), A(f'xa{i}'), default=None, exclude_if=None), [None, 'v']


@kind
def excluded_if_list(i):
    return [], F(f'e{i}', Seq('list', INT), W(f'xw{i}', E(f'xe{i}')), factory='list', exclude_if=[]), [[], [1, 2]]


@kind
def noxml(i):
    return [], F(f'e{i}', Opt(INT), default=None, noxml=True), [3, None]


@kind
def computed_elem(i):
    return [], F(f'c{i}', INT, E(), computed='41'), []


@kind
def computed_attr(i):
    return [], F(f'c{i}', STR, A(f'ca{i}'), computed='"cv"'), []


@kind
def computed_opt(i):
    return [], F(f'c{i}', Opt(INT), E(f'ce{i}'), computed='None'), []


# -------------------------------------------------------------------------------------------------------------- build

# kinds which take every attribute of the model: anything bound to an attribute must come before them
GREEDY = {'dict_attrs', 'ordered_dict_attrs', 'typed_dict_attrs'}
TEXTS = {'text_int', 'text_opt', 'text_str'}


def compatible(names) -> bool:
    """excludes declarations whose fields compete for the same piece of data (the document is ambiguous by design)"""
    if sum(n in TEXTS for n in names) > 1 or sum(n in GREEDY for n in names) > 1:
        return False
    for i, n in enumerate(names):
        if n in GREEDY:
            after = names[i + 1:]
            if any('attr' in a and not a.startswith('wrap') for a in after):
                return False
    return True


def enum_fix(f: F, vals):
    """enum members cannot be written down literally in the catalogue"""
    if f.type == P('Color'):
        from .spec import Color
        return [getattr(Color, v) for v in vals]
    return vals


def compose(names, **params):
    """program with one root model having a field of every given kind + list of values for every field"""
    models, fields, vals = [], [], []
    for i, n in enumerate(names):
        helpers, f, v = KINDS[n](i)
        models.extend(helpers)
        fields.append(f)
        vals.append(enum_fix(f, v))
    params.setdefault('tag', 'top')
    top = Mod('Top', tuple(fields), **params)
    label = '+'.join(names) + ''.join(f' {k}={v}' for k, v in params.items() if k != 'tag')
    return Prog(tuple(models + [top]), label), vals
