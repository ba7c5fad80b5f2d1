"""
Abstract syntax of *model programs* (the declarations a user of the library writes) and the generator that turns a
program into ordinary python source using nothing but the documented public API of ``pydantic_xml``.

A program is data: it is enumerated exhaustively by the families in ``kinds.py``/``props``, compiled to real classes
(the implementation under test) and, independently, interpreted by the reference model in ``ref.py``.
"""

from __future__ import annotations

import datetime as dt
import decimal
import enum
import ipaddress
import pathlib
import uuid
import zlib
from dataclasses import dataclass, field, replace
from typing import Any, Optional as Op, Tuple as Tp

UNSET = type('UNSET', (), {'__repr__': lambda self: 'UNSET'})()


# ------------------------------------------------------------------------------------------------------------- types

@dataclass(frozen=True)
class T:
    pass


@dataclass(frozen=True)
class P(T):
    """primitive type; `name` is the python expression of the type in the generated source"""
    name: str


@dataclass(frozen=True)
class Opt(T):
    item: T


@dataclass(frozen=True)
class Seq(T):
    kind: str        # list | set | frozenset | tuple | deque
    item: T


@dataclass(frozen=True)
class Tup(T):
    items: Tp[T, ...]
    named: Op[Tp[str, Tp[str, ...]]] = None      # (class name, item names)


@dataclass(frozen=True)
class Map(T):
    key: T
    val: T
    cls: str = 'Dict'      # Dict | DefaultDict | OrderedDict | Counter | Mapping


@dataclass(frozen=True)
class TD(T):
    name: str
    fields: Tp[Tp[str, T], ...]
    total: bool = True


@dataclass(frozen=True)
class M(T):
    name: str


@dataclass(frozen=True)
class Uni(T):
    items: Tp[T, ...]


@dataclass(frozen=True)
class Tag(T):
    disc: str
    items: Tp[M, ...]


@dataclass(frozen=True)
class Raw(T):
    pass


# ---------------------------------------------------------------------------------------------------------- entities

NsMapT = Op[Tp[Tp[str, str], ...]]


@dataclass(frozen=True)
class Ent:
    kind: Op[str]                 # 'attr' | 'element' | 'wrapped' | None (text / unnamed sub-model)
    name: Op[str] = None          # attribute name, element tag or wrapper path
    ns: Op[str] = None
    nsmap: NsMapT = None
    nillable: Op[bool] = None
    inner: Op['Ent'] = None       # wrapped entity


TEXT = Ent(None)


def A(name=None, ns=None):
    return Ent('attr', name, ns)


def E(name=None, ns=None, nsmap=None, nillable=None):
    return Ent('element', name, ns, nsmap, nillable)


def W(path, inner=None, ns=None, nsmap=None):
    return Ent('wrapped', path, ns, nsmap, None, inner)


@dataclass(frozen=True)
class F:
    name: str
    type: T
    ent: Ent = TEXT
    default: Any = UNSET          # python value (rendered with repr) or Src
    factory: Op[str] = None       # source of a default factory
    alias: Op[str] = None
    valias: Op[str] = None        # validation_alias
    salias: Op[str] = None        # serialization_alias
    exclude: bool = False
    exclude_if: Any = UNSET       # the field is excluded if its value equals this one
    noxml: bool = False
    computed: Op[str] = None      # source of the property body expression
    annotated: bool = False       # declare through Annotated[type, entity]
    strict_kwargs: str = ''       # extra keyword arguments for the field function, source text


@dataclass(frozen=True)
class Mod:
    name: str
    fields: Tp[F, ...] = ()
    tag: Op[str] = None
    ns: Op[str] = None
    nsmap: NsMapT = None
    ns_attrs: Op[bool] = None
    skip_empty: Op[bool] = None
    mode: Op[str] = None
    root: bool = False
    base: Op[str] = None
    extra: Op[str] = None         # pydantic `extra`
    config: Tp[Tp[str, Any], ...] = ()
    body: str = ''                # additional class body source


@dataclass(frozen=True)
class Prog:
    models: Tp[Mod, ...]          # in definition order, the last one is the root model
    label: str = ''

    @property
    def top(self) -> Mod:
        return self.models[-1]

    def get(self, name: str) -> Mod:
        for m in self.models:
            if m.name == name:
                return m
        raise KeyError(name)


# ------------------------------------------------------------------------------------------ primitive type namespace

class Color(enum.Enum):
    RED = 'red'
    BLUE = 'blue'


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2


PRELUDE = '''\
import datetime as dt
import decimal
import enum
import ipaddress
import pathlib
import uuid
from typing import *

import pydantic
from pydantic import Field, ConfigDict
from pydantic_xml import *
from pydantic_xml.element import SearchMode
from pydantic_xml.element.native import ElementT


class Color(enum.Enum):
    RED = 'red'
    BLUE = 'blue'


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2
'''


class Src(str):
    """a default value given as source text"""


# -------------------------------------------------------------------------------------------------------- rendering

def type_src(t: T) -> str:
    if isinstance(t, P):
        return t.name
    if isinstance(t, Opt):
        return f'Optional[{type_src(t.item)}]'
    if isinstance(t, Seq):
        i = type_src(t.item)
        return {'list': f'List[{i}]', 'set': f'Set[{i}]', 'frozenset': f'FrozenSet[{i}]', 'deque': f'Deque[{i}]',
                'tuple': f'Tuple[{i}, ...]'}[t.kind]
    if isinstance(t, Tup):
        if t.named:
            return t.named[0]
        return f'Tuple[{", ".join(type_src(i) for i in t.items)}]'
    if isinstance(t, Map):
        if t.cls == 'Counter':
            return f'Counter[{type_src(t.key)}]'
        return f'{t.cls}[{type_src(t.key)}, {type_src(t.val)}]'
    if isinstance(t, TD):
        return t.name
    if isinstance(t, M):
        return t.name
    if isinstance(t, Uni):
        return f'Union[{", ".join(type_src(i) for i in t.items)}]'
    if isinstance(t, Tag):
        return f'Annotated[Union[{", ".join(type_src(i) for i in t.items)}], Field(discriminator={t.disc!r})]'
    if isinstance(t, Raw):
        return 'ElementT'
    raise AssertionError(t)


def nsmap_src(nsmap: NsMapT) -> str:
    return repr(dict(nsmap))


def ent_args(e: Ent) -> list:
    args = []
    if e.name is not None:
        args.append(repr(e.name))
    if e.kind == 'wrapped' and e.inner is not None and e.inner.kind is not None:
        args.append(ent_src(e.inner, []))
    if e.ns is not None:
        args.append(f'ns={e.ns!r}')
    if e.nsmap is not None:
        args.append(f'nsmap={nsmap_src(e.nsmap)}')
    if e.nillable is not None:
        args.append(f'nillable={e.nillable!r}')
    return args


def ent_src(e: Ent, extra: list) -> str:
    fn = {'attr': 'attr', 'element': 'element', 'wrapped': 'wrapped'}[e.kind]
    return f'{fn}({", ".join(ent_args(e) + extra)})'


def field_src(f: F) -> str:
    t = type_src(f.type)
    if f.computed is not None:
        if f.ent.kind is None:
            deco = '@pydantic.computed_field'
        else:
            fn = {'attr': 'computed_attr', 'element': 'computed_element'}[f.ent.kind]
            kw = []
            if f.ent.name is not None:
                kw.append(('name=' if f.ent.kind == 'attr' else 'tag=') + repr(f.ent.name))
            if f.ent.ns is not None:
                kw.append(f'ns={f.ent.ns!r}')
            if f.ent.nsmap is not None:
                kw.append(f'nsmap={nsmap_src(f.ent.nsmap)}')
            if f.ent.nillable is not None:
                kw.append(f'nillable={f.ent.nillable!r}')
            if f.alias is not None:
                kw.append(f'alias={f.alias!r}')
            deco = f'@{fn}({", ".join(kw)})' if kw else f'@{fn}'
        return f'    {deco}\n    def {f.name}(self) -> {t}:\n        return {f.computed}\n'

    kw = []
    if f.default is not UNSET:
        kw.append(f'default={f.default if isinstance(f.default, Src) else repr(f.default)}')
    if f.factory is not None:
        kw.append(f'default_factory={f.factory}')
    if f.alias is not None:
        kw.append(f'alias={f.alias!r}')
    if f.valias is not None:
        kw.append(f'validation_alias={f.valias!r}')
    if f.salias is not None:
        kw.append(f'serialization_alias={f.salias!r}')
    if f.exclude:
        kw.append('exclude=True')
    if f.exclude_if is not UNSET:
        kw.append(f'exclude_if=lambda v: v == {f.exclude_if!r}')
    if f.strict_kwargs:
        kw.append(f.strict_kwargs)
    if f.noxml:
        t = f'Annotated[{t}, NoXml]'
    if f.ent.kind is None:
        if not kw:
            return f'    {f.name}: {t}\n'
        if len(kw) == 1 and f.default is not UNSET:
            return f'    {f.name}: {t} = {kw[0][len("default="):]}\n'
        return f'    {f.name}: {t} = Field({", ".join(kw)})\n'
    if f.annotated:
        dflt = [k for k in kw if k.startswith('default=')]
        rest = [k for k in kw if not k.startswith('default=')]
        src = f'    {f.name}: Annotated[{t}, {ent_src(f.ent, rest)}]'
        if dflt:
            src += f' = {dflt[0][len("default="):]}'
        return src + '\n'
    return f'    {f.name}: {t} = {ent_src(f.ent, kw)}\n'


def mod_kwargs(m: Mod) -> list:
    kw = []
    if m.tag is not None:
        kw.append(f'tag={m.tag!r}')
    if m.ns is not None:
        kw.append(f'ns={m.ns!r}')
    if m.nsmap is not None:
        kw.append(f'nsmap={nsmap_src(m.nsmap)}')
    if m.ns_attrs is not None:
        kw.append(f'ns_attrs={m.ns_attrs!r}')
    if m.skip_empty is not None:
        kw.append(f'skip_empty={m.skip_empty!r}')
    if m.mode is not None:
        # the two documented spellings
        enum = zlib.crc32(f'{m.name} {m.fields!r}'.encode()) & 8
        kw.append(f'search_mode=SearchMode.{m.mode.upper()}' if enum else f'search_mode={m.mode!r}')
    return kw


def mod_src(m: Mod) -> str:
    base = m.base or ('RootXmlModel' if m.root else 'BaseXmlModel')
    head = ', '.join([base] + mod_kwargs(m))
    body = ''
    cfg = dict(m.config)
    if m.extra is not None:
        cfg['extra'] = m.extra
    if any(uses_raw(f.type) for f in m.fields):
        cfg['arbitrary_types_allowed'] = True
    if cfg:
        body += f'    model_config = ConfigDict({", ".join(f"{k}={v!r}" for k, v in cfg.items())})\n'
    for f in m.fields:
        body += field_src(f)
    if m.body:
        body += m.body
    return f'class {m.name}({head}):\n{body or "    pass" + chr(10)}'


def uses_raw(t: T) -> bool:
    if isinstance(t, Raw):
        return True
    if isinstance(t, (Opt, Seq)):
        return uses_raw(t.item)
    if isinstance(t, (Tup, Uni)):
        return any(uses_raw(i) for i in t.items)
    return False


def helper_types(t: T, out: dict) -> None:
    """collects named tuple and typed dict declarations"""
    if isinstance(t, Tup):
        for i in t.items:
            helper_types(i, out)
        if t.named:
            name, names = t.named
            out[name] = f'class {name}(NamedTuple):\n' + ''.join(
                f'    {n}: {type_src(i)}\n' for n, i in zip(names, t.items))
    elif isinstance(t, TD):
        out[t.name] = (
            f'class {t.name}(TypedDict{"" if t.total else ", total=False"}):\n'
            + ''.join(f'    {n}: {type_src(i)}\n' for n, i in t.fields)
        )
    elif isinstance(t, (Opt, Seq)):
        helper_types(t.item, out)
    elif isinstance(t, Uni):
        for i in t.items:
            helper_types(i, out)


def prog_src(prog: Prog, prelude: bool = True) -> str:
    out = []
    seen: dict = {}
    for m in prog.models:
        decl: dict = {}
        for f in m.fields:
            helper_types(f.type, decl)
        for name, src in decl.items():
            if name not in seen:
                seen[name] = src
                out.append(src)
        out.append(mod_src(m))
    src = '\n\n'.join(out)
    return (PRELUDE + '\n\n' + src) if prelude else src


_PRELUDE_NS: dict = {}


def compile_prog(prog: Prog, source: Op[str] = None) -> dict:
    """executes the program against the real library; returns its namespace"""
    if not _PRELUDE_NS:
        # __name__ must name a real module: pydantic looks the module up to resolve forward references
        _PRELUDE_NS['__name__'] = '__main__'
        exec(compile(PRELUDE, '<prelude>', 'exec', dont_inherit=True), _PRELUDE_NS)
        _PRELUDE_NS['Color'] = Color
        _PRELUDE_NS['Level'] = Level
    ns = dict(_PRELUDE_NS)
    if source is None:
        source = prog_src(prog, prelude=False)
    exec(compile(source, '<program>', 'exec', dont_inherit=True), ns)
    return ns


# -------------------------------------------------------------------------------------------------------- inheritance

def effective(prog: Prog) -> dict:
    """
    Resolves inherited model parameters: name -> Mod with every inherited parameter/field made explicit.
    tag, ns, ns_attrs, skip_empty and search_mode are inherited unless overridden, nsmap is merged, fields are
    inherited in declaration order and replaced in place when redeclared.
    """
    out: dict = {}
    for m in prog.models:
        if m.base is None:
            out[m.name] = m
            continue
        b: Mod = out[m.base]
        fields = [f for f in b.fields if f.computed is None]
        comp = [f for f in b.fields if f.computed is not None]
        for f in m.fields:
            target = fields if f.computed is None else comp
            idx = next((i for i, g in enumerate(target) if g.name == f.name), None)
            if idx is None:
                target.append(f)
            else:
                target[idx] = f
        nsmap = None
        if b.nsmap is not None or m.nsmap is not None:
            nsmap = tuple({**dict(b.nsmap or ()), **dict(m.nsmap or ())}.items())
        out[m.name] = replace(
            m,
            fields=tuple(fields + comp),
            tag=m.tag if m.tag is not None else b.tag,
            ns=m.ns if m.ns is not None else b.ns,
            nsmap=nsmap,
            ns_attrs=m.ns_attrs if m.ns_attrs is not None else b.ns_attrs,
            skip_empty=m.skip_empty if m.skip_empty is not None else b.skip_empty,
            mode=m.mode if m.mode is not None else b.mode,
            extra=m.extra if m.extra is not None else b.extra,
            config=tuple({**dict(b.config), **dict(m.config)}.items()),
            root=b.root,
        )
    return out
