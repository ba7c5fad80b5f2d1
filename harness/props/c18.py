"""C18: a declaration without xml meaning is rejected when the model is defined, every other one is accepted."""
import itertools as it

import pydantic as pd

from harness import engine as G
from harness import spec as S

PREFIX = '''
import dataclasses
import re
class Sub(BaseXmlModel, tag='sub'):
    v: int = attr()
class Sub2(BaseXmlModel, tag='sub'):
    w: int = attr()
class Rt(RootXmlModel):
    root: int
class Plain(pydantic.BaseModel):
    v: int = 1
class NTp(NamedTuple):
    a: int
    b: str
class NTl(NamedTuple):
    a: int
    b: List[int]
@dataclasses.dataclass
class DCp:
    a: int
class TDp(TypedDict):
    a: int
class TDm(TypedDict):
    a: Sub
class TDd(TypedDict):
    a: Dict[str, int]
class L1(BaseXmlModel, tag='l'):
    k: Literal['a'] = attr()
class L2(BaseXmlModel, tag='l'):
    k: Literal['b'] = attr()
'''

# ---------------------------------------------------------------------------------------- types x entities
# family of a type: what it is made of
ATOMS = {
    'int': 'prim', 'str': 'prim', 'bool': 'prim', 'Color': 'prim', 'Literal["a"]': 'prim', 'dt.date': 'prim', 'decimal.Decimal': 'prim',
    'Annotated[int, Field(gt=1)]': 'prim', 'Union[int, str]': 'uprim', 'Union[Annotated[int, pydantic.Tag("a")], str]': 'uprim',
    'Union[Sub, Annotated[L1, pydantic.Tag("a")]]': 'model', 'bytes': 'prim', 'pydantic.HttpUrl': 'prim', 'uuid.UUID': 'prim',
    'Sub': 'model', 'Rt': 'model', 'Union[Sub, L1]': 'model', 'Annotated[Union[L1, L2], Field(discriminator="k")]': 'model',
    'ElementT': 'raw', 'NTp': 'named', 'TDp': 'map',
    'NTl': 'bad', 'TDm': 'bad', 'TDd': 'bad', 'Any': 'bad', 'complex': 'bad', 're.Pattern': 'bad', 'pydantic.ImportString': 'bad', 'pydantic.IPvAnyAddress': 'bad',
    'Hashable': 'bad', 'pydantic.SkipValidation[int]': 'bad', 'Iterable[int]': 'bad', 'DCp': 'bad',
    'Annotated[int, pydantic.PlainValidator(int), pydantic.PlainSerializer(str)]': 'bad', 'Annotated[int, pydantic.PlainValidator(int)]': 'prim',
    'pydantic.AwareDatetime': 'prim', 'ipaddress.IPv4Interface': 'prim', 'pydantic.StrictInt': 'prim', 'object': 'bad', 'Callable[[], int]': 'bad', 'Plain': 'bad',
    'Union[int, Sub]': 'bad', 'Union[Sub, List[int]]': 'bad', 'Union[List[int], Dict[str, int]]': 'bad', 'Union[int, List[int]]': 'bad',
    'Union[Sub, Plain]': 'bad', 'Union[ElementT, int]': 'bad', 'Type[int]': 'bad',
    'Annotated[Union[L1, L2], pydantic.Discriminator(lambda v: "a")]': 'bad',
}
SEQS = {'list': 'List[{}]', 'set': 'Set[{}]', 'frozenset': 'FrozenSet[{}]', 'vtuple': 'Tuple[{}, ...]', 'pep': 'list[{}]', 'deque': 'Deque[{}]'}


def types():
    """(source, family, item family)"""
    base = dict(ATOMS)
    for t, fam in base.items():
        yield t, fam, None
        yield f'Optional[{t}]', fam, None
        for k, tpl in SEQS.items():
            if fam == 'bad':
                yield tpl.format(t), 'bad', None
            else:
                yield tpl.format(t), 'seq', fam
        yield f'Tuple[{t}, int]', 'bad' if fam == 'bad' else ('?' if fam == 'named' else 'tup'), fam
        yield f'Tuple[int, {t}]', 'bad' if fam == 'bad' else ('?' if fam == 'named' else 'tup'), fam
        yield f'Optional[List[{t}]]', 'bad' if fam == 'bad' else 'seq', fam
        yield f'Dict[str, {t}]', 'map' if fam == 'prim' else 'bad', None
        yield f'Mapping[str, {t}]', 'map' if fam == 'prim' else 'bad', None
        yield f'OrderedDict[str, {t}]', 'map' if fam == 'prim' else 'bad', None
        if fam != 'prim':
            yield f'Dict[{t}, int]', 'bad', None
    for t in ('int', 'Sub', 'ElementT', 'TDp', 'Dict[str, int]'):
        for a, b in it.product(('List[{}]', 'Set[{}]', 'Tuple[{}, ...]', 'Tuple[{}, int]', 'Tuple[int, {}]', 'Dict[str, {}]'),
                               ('List[{}]', 'Set[{}]', 'FrozenSet[{}]')):
            yield a.format(b.format(t)), 'bad', None            # no element stands for the inner collection
    for t in ('int', 'Sub'):
        for a in ('List[{}]', 'Tuple[{}, ...]'):
            yield a.format(f'Tuple[{t}, int]'), 'seq', 'tup'
        for a in ('Tuple[{}, int]', 'Tuple[int, {}]'):
            yield a.format(f'Tuple[{t}, int]'), 'bad', None
            yield a.format(f'Tuple[{t}, ...]'), 'bad', None
        yield f'Dict[str, Tuple[{t}, int]]', 'bad', None
        yield f'Dict[str, Dict[str, {t}]]', 'bad', None
        yield f'List[List[List[{t}]]]', 'bad', None
        yield f'Union[List[{t}], Sub]', 'bad', None
    yield 'List[Dict[str, int]]', 'seq', 'map'
    yield 'List[Dict[str, Sub]]', 'bad', None
    yield 'Tuple[Dict[str, int], int]', 'tup', 'map'
    yield 'List[Any]', 'bad', None
    yield 'Counter[str]', 'map', None
    yield 'DefaultDict[str, int]', 'map', None
    yield 'List[OrderedDict[str, int]]', 'seq', 'map'
    yield 'Deque[Counter[str]]', 'seq', 'map'
    yield 'OrderedDict[str, Deque[int]]', 'bad', None
    yield 'Deque[Deque[int]]', 'bad', None


ENTS = {
    'none': '', 'attr': 'attr("n")', 'attr0': 'attr()', 'elem': 'element("n")', 'elem0': 'element()', 'wrap': 'wrapped("w")',
    'wattr': 'wrapped("w", attr("n"))', 'welem': 'wrapped("w", element("n"))', 'ww': 'wrapped("w", wrapped("v"))', 'wpath': 'wrapped("w/v")',
    'wwattr': 'wrapped("w", wrapped("v", attr("n")))', 'wwelem': 'wrapped("w/u", wrapped("v", element("n")))',
}
NAMED = ('attr', 'elem', 'wattr', 'welem', 'wwattr', 'wwelem')


def legal(fam, item, ent, root):
    """True, False or None (not specified)"""
    if fam == '?':
        return None
    if fam == 'bad':
        return False
    ent = {'wrap': 'none', 'ww': 'none', 'wpath': 'none', 'wattr': 'attr', 'wwattr': 'attr', 'welem': 'elem', 'wwelem': 'elem'}.get(ent, ent)
    if ent in ('attr', 'attr0'):
        if fam not in ('prim', 'uprim'):
            return False
        return ent == 'attr' or not root
    if fam in ('prim', 'uprim', 'map'):
        return ent != 'elem0' or not root
    if fam == 'model':
        return True
    if fam == 'raw':
        return not (root and ent in ('none', 'elem0'))
    if fam == 'seq' and item == 'model':
        return True
    if fam == 'seq' and item == 'uprim':
        return None if ent == 'none' else not (root and ent == 'elem0')
    if ent == 'none':
        return False                    # collections of anything without a name of its own need an element
    return not (root and ent == 'elem0')


def decl(name, src, ent, notation):
    e = ENTS[ent]
    if notation == 'plain':
        return f'    {name}: {src}' + (f' = {e}' if e else '') + '\n'
    if notation == 'annotated':
        return f'    {name}: Annotated[{src}, {e}]\n' if e else f'    {name}: {src}\n'
    if notation == 'default':
        a = e[:-1] + (', ' if not e.endswith('()') else '') + 'default=None)' if e else 'None'
        return f'    {name}: {src} = {a}\n'
    raise AssertionError(notation)


def type_jobs(quick):
    for i, (src, fam, item) in enumerate(types()):
        yield 'type', src, fam, item


# ------------------------------------------------------------------------------------------------ namespaces
NS_FORMS = {
    'attr': 'f: int = attr(ns="p"{m})', 'elem': 'f: int = element(ns="p"{m})', 'list': 'f: List[int] = element(ns="p"{m})',
    'tuple': 'f: Tuple[int, int] = element(ns="p"{m})', 'named': 'f: NTp = element(ns="p"{m})', 'dict': 'f: Dict[str, int] = element(ns="p"{m})',
    'td': 'f: TDp = element(ns="p"{m})', 'raw': 'model_config = ConfigDict(arbitrary_types_allowed=True)\n    f: ElementT = element(ns="p"{m})', 'model': 'f: Sub = element("sub", ns="p"{m})',
    'model_opt': 'f: Optional[Sub] = element("sub", ns="p", default=None{m})', 'models': 'f: List[Sub] = element("sub", ns="p"{m})',
    'union': 'f: Union[Sub, L1] = element("sub", ns="p"{m})', 'tagged': 'f: Union[L1, L2] = element("l", ns="p", discriminator="k"{m})',
    'wrapped': 'f: int = wrapped("w", ns="p"{m})', 'wrapped_in': 'f: int = wrapped("w", element("e", ns="p"{m}))',
    'wrapped_attr': 'f: int = wrapped("w", attr("e", ns="p"{m}))', 'wrapped_list': 'f: List[int] = wrapped("w", element("e", ns="p"{m}))',
    'wrapped_sub': 'f: Sub = wrapped("w", element("e", ns="p"{m}))', 'prims': 'f: Union[int, str] = element(ns="p"{m})',
    'computed': '@computed_element(ns="p"{m})\n    def f(self) -> int:\n        return 1',
    'computed_attr': '@computed_attr(ns="p"{m})\n    def f(self) -> int:\n        return 1',
}
DECLARED = ('nowhere', 'other', 'entity', 'model', 'base', 'sub')


def ns_src(form, where, model_ns):
    m = {'entity': ', nsmap={"p": "urn:p"}', 'other': ', nsmap={"q": "urn:q"}'}.get(where, '')
    if form.startswith('computed'):
        m = m
    params = {'model': ', nsmap={"p": "urn:p"}', 'other': ', nsmap={"r": "urn:r"}'}.get(where, '')
    base = 'BaseXmlModel'
    src = PREFIX
    if where == 'base':
        src += 'class Base(BaseXmlModel, nsmap={"p": "urn:p"}):\n    pass\n'
        base = 'Base'
    if where == 'sub':
        # the namespace map of a sub-model does not reach outwards
        src = src.replace("class Sub(BaseXmlModel, tag='sub')", "class Sub(BaseXmlModel, tag='sub', nsmap={'p': 'urn:p'})")
    if model_ns:
        return src + f'class Top({base}, tag="top", ns="p"{params}):\n    x: int = element()\n'
    return src + f'class Top({base}, tag="top"{params}):\n    ' + NS_FORMS[form].format(m=m) + '\n'


# an attribute is never in the default namespace, an element may be
EMPTY_NS = {
    'attr': ('f: int = attr({a}ns="")', False), 'attr_opt': ('f: Optional[int] = attr({a}ns="", default=None)', False),
    'attr_name': ('f: int = attr({n}ns="")', False), 'attr_ann': ('f: Annotated[int, attr({a}ns="")]', False),
    'attr_json': ('f: pydantic.Json[int] = attr({a}ns="")', False), 'attr_union': ('f: Union[int, str] = attr({a}ns="")', False),
    'wrapped_attr': ('f: int = wrapped("w", attr({n}ns=""))', False),
    'elem': ('f: int = element({a}ns="")', True), 'wrapped_elem': ('f: int = wrapped("w", element({n}ns=""))', True),
    'wrapped': ('f: int = wrapped("w", ns="")', True), 'list': ('f: List[int] = element({a}ns="")', True),
    'model': ('f: Sub = element("sub", ns="")', True),
    'computed_attr': ('@computed_attr({a}ns="")\n    def f(self) -> int:\n        return 1', False),
    'computed': ('@computed_element({a}ns="")\n    def f(self) -> int:\n        return 1', True),
}


def empty_ns_src(form, base):
    src, b, params = PREFIX, 'BaseXmlModel', ''
    if base == 'base':
        src += 'class Base(BaseXmlModel, ns="p", nsmap={"p": "urn:p"}):\n    pass\n'
        b = 'Base'
    elif base == 'own':
        params = ', ns="p", nsmap={"p": "urn:p", "": "urn:d"}'
    elif base == 'default':
        params = ', ns="", nsmap={"": "urn:d"}'
    body, ok = EMPTY_NS[form]
    return src + f'class Top({b}, tag="top"{params}):\n    ' + body.format(a='', n='"n", ') + '\n', ok


# -------------------------------------------------------------------------------------------- discriminators
DISC = {
    'attr': ('k: Literal["{t}"] = attr()', True), 'attr_named': ('k: Literal["{t}"] = attr("kind")', True),
    'attr_multi': ('k: Literal["{t}", "{t}{t}"] = attr()', True), 'attr_alias': ('k: Literal["{t}"] = attr(alias="kal")', None),
    'elem': ('k: Literal["{t}"] = element()', False), 'text': ('k: Literal["{t}"]', False), 'wrapped_elem': ('k: Literal["{t}"] = wrapped("w", element())', False),
    'wrapped_attr': ('k: Literal["{t}"] = wrapped("w", attr())', False),
    'int': ('k: Literal[{n}] = attr()', False), 'enum': ('k: Literal[Color.{e}] = attr()', None),
    'missing': ('z: int = attr()', False), 'str': ('k: str = attr()', False), 'names': ('k: Literal["{t}"] = attr("kind{n}")', False),
    'mixed': None, 'root_model': None,
}
HOWDISC = {
    'field': 'f: Union[V1, V2] = Field(discriminator="k")', 'element': 'f: Union[V1, V2] = element("v", discriminator="k")',
    'annotated': 'f: Annotated[Union[V1, V2], Field(discriminator="k")]', 'list': 'f: List[Annotated[Union[V1, V2], Field(discriminator="k")]]',
    'opt': 'f: Optional[Union[V1, V2]] = Field(None, discriminator="k")', 'wrapped': 'f: Union[V1, V2] = wrapped("w", discriminator="k")',
    'tuple': 'f: Tuple[Annotated[Union[V1, V2], Field(discriminator="k")], int] = element("v")',
    'attr': 'f: Union[V1, V2] = attr("v", discriminator="k")', 'root': None,
    # a discriminator function can not be applied to an element; labels alone make no discriminated union
    'function': 'f: Annotated[Union[Annotated[V1, pydantic.Tag("a")], Annotated[V2, pydantic.Tag("b")]], '
                'pydantic.Discriminator(lambda v: "a")]',
    'labels': 'f: Union[Annotated[V1, pydantic.Tag("a")], V2]',
    'labels_list': 'f: List[Union[Annotated[V1, pydantic.Tag("a")], Annotated[V2, pydantic.Tag("b")]]] = element("v")',
}


def disc_src(form, how):
    src = ''
    for n, (t, e) in enumerate((('a', 'RED'), ('b', 'BLUE')), 1):
        if form == 'mixed':
            body = 'k: Literal["a"] = attr()' if n == 1 else 'k: Literal["b"] = element()'
        elif form == 'root_model':
            body = DISC['attr'][0].format(t=t, n=n, e=e)
        else:
            body = DISC[form][0].format(t=t, n=n, e=e)
        if form == 'root_model' and n == 2:
            src += f'class X(BaseXmlModel, tag="x"):\n    {body}\nclass V2(RootXmlModel[X], tag="v"):\n    pass\n'
            continue
        src += f'class V{n}(BaseXmlModel, tag="v"):\n    {body}\n'
    ok = DISC[form][1] if DISC[form] else False
    if how == 'root':
        src += 'class Top(RootXmlModel, tag="top"):\n    root: Union[V1, V2] = Field(discriminator="k")\n'
    else:
        src += f'class Top(BaseXmlModel, tag="top"):\n    {HOWDISC[how]}\n'
        if how in ('attr', 'function'):
            ok = False
        elif how.startswith('labels'):
            ok = True
    return src, ok


def jobs(tier, backend):
    quick = tier == 'quick'
    yield from type_jobs(quick)
    for form in NS_FORMS:
        for where in DECLARED:
            yield 'ns', form, where, False
    for where in DECLARED:
        yield 'ns', 'attr', where, True
    for form in EMPTY_NS:
        for base in ('none', 'own', 'base', 'default'):
            yield 'empty_ns', form, base
    for form in DISC:
        for how in HOWDISC:
            yield 'disc', form, how
    for kind in PARTS:
        for ent in PARTS[kind][2]:
            for use in USES:
                yield 'parts', kind, ent, use


# ------------------------------------------------------------------------- the wrong part at every position
PARTS = {
    # composite -> good parts, bad parts, entities it is legal with
    'typed_dict': (['int', 'str', 'Optional[int]', 'NotRequired[bool]'], ['List[int]', 'Sub', 'Dict[str, int]', 'Any', 'NotRequired[Set[int]]',
                                                                        'Optional[List[int]]', 'Tuple[int, int]'], ('none', 'elem', 'welem')),
    'named': (['int', 'Sub', 'Dict[str, int]', 'Optional[int]'], ['List[int]', 'Any', 'Tuple[int, ...]', 'Plain', 'Union[int, Sub]'], ('elem', 'welem')),
    'named_default': (['int = 1', 'str = ""', 'Optional[int] = None'], ['List[int] = []', 'Any = 1', 'Set[int] = {1}'], ('elem',)),
    'tuple': (['int', 'Sub', 'Dict[str, int]', 'Union[int, str]'], ['List[int]', 'Any', 'Tuple[int, ...]', 'Plain', 'FrozenSet[int]'], ('elem', 'welem')),
    'union': (['Sub', 'L1', 'Rt', 'Sub2'], ['Plain', 'List[int]', 'Dict[str, int]', 'int', 'Any', 'Tuple[int, int]'], ('none', 'elem', 'wrap')),
    'prims': (['int', 'str', 'bool', 'float'], ['List[int]', 'Sub', 'Dict[str, int]'], ('none', 'elem', 'attr', 'welem')),
    'tagged': (['k: Literal["{t}"] = attr()'], ['k: Literal["{t}"] = element()', 'k: Literal["{t}"] = attr("other")', 'k: Literal["{t}"]',
                                                 'k: Literal[{n}] = attr()', 'k: Literal["{t}"] = wrapped("w", attr())'], ('none', 'elem', 'wrap')),
}
USES = ('plain', 'opt', 'list', 'sub', 'default', 'derived', 'root')


def part_src(kind, parts, ent, use):
    pre = PREFIX
    if kind == 'typed_dict':
        pre += 'class X(TypedDict):\n' + ''.join(f'    p{i}: {p}\n' for i, p in enumerate(parts))
        t = 'X'
    elif kind.startswith('named'):
        pre += 'class X(NamedTuple):\n' + ''.join(f'    p{i}: {p}\n' for i, p in enumerate(parts))
        t = 'X'
    elif kind == 'tuple':
        t = f'Tuple[{", ".join(parts)}]'
    elif kind in ('union', 'prims'):
        t = f'Union[{", ".join(parts)}]'
    else:
        for i, p in enumerate(parts):
            pre += f'class V{i}(BaseXmlModel, tag="v"):\n    {p.format(t=chr(97 + i), n=i)}\n'
        t = 'Annotated[Union[' + ', '.join(f'V{i}' for i in range(len(parts))) + '], Field(discriminator="k")]'
    if use == 'list':
        t = f'List[{t}]'
    if use == 'opt':
        t = f'Optional[{t}]'
    d = decl('root' if use == 'root' else 'f', t, ent, 'default' if use == 'default' else 'plain')
    if use == 'sub':
        return pre + f'class Inner(BaseXmlModel, tag="i"):\n{d}class Top(BaseXmlModel, tag="top"):\n    s: Inner\n'
    if use == 'derived':
        return pre + f'class B(BaseXmlModel, tag="top"):\n    a: int = attr(default=1)\nclass Top(B):\n    b: int = attr(default=1)\n{d}'
    return pre + f'class Top({"RootXmlModel" if use == "root" else "BaseXmlModel"}, tag="top"):\n{d}'


def parts_of(kind, tier):
    good, bad, _ = PARTS[kind]
    for n in (2, 3, 4, 6) if tier == 'quick' else (2, 3, 4, 5, 6, 7, 8, 12):
        base = [good[i % len(good)] for i in range(n)]
        yield base, True
        for pos in range(n):
            for b in bad:
                if kind == 'named_default' or kind != 'union' or b != 'Any':
                    parts = base[:pos] + [b] + base[pos + 1:]
                    yield parts, False


BASE = {}


def define(src):
    """the common prefix is executed once; what is defined on top of it lives in a namespace of its own"""
    if not src.startswith(PREFIX):
        return S.compile_prog(None, src)
    if not BASE:
        BASE.update(S.compile_prog(None, PREFIX))
    ns = dict(BASE)
    exec(compile(src[len(PREFIX):], '<program>', 'exec', dont_inherit=True), ns)
    return ns


def attempt(rep, src, ok, label):
    rep.states += 1
    rep.transitions += 1
    if ok is None:
        rep.unjudged += 1
        return
    try:
        with G.budget(20):
            define(src)
        got = None
    except G.Hang:
        rep.violation('a model definition does not terminate', program=label, source=S.PRELUDE + src)
        return
    except Exception as e:
        got = e
    rep.traces += 1
    rep.count('accepted' if got is None else 'rejected')
    if ok and got is not None:
        rep.violation(f'a legal model definition is rejected: {type(got).__name__}: {got}', program=label, source=S.PRELUDE + src)
    if isinstance(got, (LookupError, AttributeError, NameError, RecursionError, ArithmeticError)):
        rep.violation(f'a definition fails with an internal error: {type(got).__name__}: {got}', program=label, source=S.PRELUDE + src)
    if not ok and got is None:
        rep.violation('a declaration which has no xml meaning is accepted', program=label, source=S.PRELUDE + src)


def run(job, rep, tier, backend):
    kind = job[0]
    if kind == 'type':
        _, src, fam, item = job
        rep.programs += 1
        cfg = '    model_config = ConfigDict(arbitrary_types_allowed=True)\n'
        for ent in ENTS:
            for root in (False, True):
                ok = legal(fam, item, ent, root)
                base, name = ('RootXmlModel', 'root') if root else ('BaseXmlModel', 'f')
                for notation in ('plain', 'annotated', 'default'):
                    if notation == 'annotated' and ent == 'none':
                        continue
                    if tier == 'quick' and notation != 'plain' and (notation == 'default') != (backend == 'std'):
                        continue
                    if notation != 'plain' and src.startswith('Annotated') and 'Discriminator' in src:
                        continue
                    attempt(rep, f'{PREFIX}class Top({base}, tag="top"):\n{cfg}{decl(name, src, ent, notation)}', ok,
                            f'{src} / {ent} / {notation}{" / root" if root else ""}')
        if fam != '?':
            # the same as one of several fields, as item of a sub-model used elsewhere, as computed field and in a derived class
            for ent in ('none', 'attr', 'elem'):
                ok = legal(fam, item, ent, False)
                d = decl('f', src, ent, 'plain')
                attempt(rep, f'{PREFIX}class Top(BaseXmlModel, tag="top"):\n{cfg}    a: int = attr(default=1)\n{d}'
                             '    z: Optional[int] = element(default=None)\n', ok, f'{src} / {ent} / among others')
                attempt(rep, f'{PREFIX}class B(BaseXmlModel, tag="top"):\n    a: int = attr(default=1)\nclass Top(B):\n{cfg}{d}', ok,
                        f'{src} / {ent} / derived')
                attempt(rep, f'{PREFIX}class Inner(BaseXmlModel, tag="i"):\n{cfg}{d}class Top(BaseXmlModel, tag="top"):\n    s: Inner\n', ok,
                        f'{src} / {ent} / inner')
    elif kind == 'ns':
        _, form, where, model_ns = job
        rep.programs += 1
        ok = where in ('entity', 'model', 'base') if not model_ns else where in ('model', 'base')
        if where in ('nowhere', 'sub') or (model_ns and where == 'entity'):
            ok = None           # a prefix is ignored while there is no namespace map at all; not specified
        attempt(rep, ns_src(form, where, model_ns), ok, f'ns {form} / {where}{" / model" if model_ns else ""}')
    elif kind == 'empty_ns':
        rep.programs += 1
        src, ok = empty_ns_src(job[1], job[2])
        if ok and job[2] in ('none', 'base'):
            ok = None           # no default namespace declared; not specified
        attempt(rep, src, ok, f'empty ns {job[1]} / {job[2]}')
        if not ok:
            return
        c = src.replace('class Top(', 'class Top0(', 1) + '\nclass Top(BaseXmlModel, tag="top"):\n    s: Top0\n'
        attempt(rep, c, ok, f'empty ns {job[1]} / {job[2]} / inner')
    elif kind == 'parts':
        _, what, ent, use = job
        rep.programs += 1
        for parts, ok in parts_of(what, tier):
            if use == 'list' and (what == 'typed_dict' and ent == 'none' or what == 'prims' and ent == 'attr'):
                ok = False
            if use == 'list' and (ent == 'none' and what == 'prims' or what.startswith('named')):
                ok = None if ok else ok
            attempt(rep, part_src(what, parts, ent, use), ok, f'{what} of {parts} / {ent} / {use}')
    elif kind == 'disc':
        rep.programs += 1
        src, ok = disc_src(job[1], job[2])
        attempt(rep, src, ok, f'discriminator {job[1]} / {job[2]}')
