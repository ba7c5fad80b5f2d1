"""
Reference model of the library: what a program *means*, written from the documentation and deliberately boring.

It never imports ``pydantic_xml``.  Plain pydantic (``TypeAdapter``) is used to convert/validate primitive data, since
"data is validated by pydantic" is itself part of the documented contract.

Parsing is a (mostly deterministic) transition system over the consumption state of the document.  The only
nondeterminism is the relative order of equally named elements in the unordered search mode once elements have been
taken out of document order; ``all_parses`` enumerates every allowed outcome.

``quirks`` are known findings (see known_findings.jsonl): deviations of the implementation from the ideal semantics
which are recorded rather than repaired.  The model is run with them switched on and reports which of them were
actually exercised (``hits``).
"""

from __future__ import annotations

import collections
import copy
import functools
from dataclasses import dataclass
from types import SimpleNamespace
from typing import Any, Callable, Dict, List, Optional

import pydantic as pd
import pydantic_core as pdc

from . import spec
from .spec import (M, F, Ent, Map, Mod, Opt, P, Prog, Raw, Seq, TD, Tag, Tup, Uni, UNSET, TEXT)

XSI = 'http://www.w3.org/2001/XMLSchema-instance'
NIL = '{%s}nil' % XSI

SEQS = {'list': list, 'set': set, 'frozenset': frozenset, 'tuple': tuple, 'deque': collections.deque}

QUIRKS = ('collection-stops-at-empty-item', 'skip-empty-keeps-empty-wrapper', 'nil-replaced-by-default')


class Err(Exception):
    """the document must be rejected; `extras` lists the (location, value) of the unbound data if that is the reason"""

    def __init__(self, reason, extras=None):
        super().__init__(reason)
        self.extras = extras

    @classmethod
    def merge(cls, errs):
        """errs: list of (location prefix, error)"""
        if len(errs) == 1 and errs[0][1].extras is None:
            return errs[0][1]
        extras = []
        for prefix, e in errs:
            if e.extras is None:
                extras = None
                break
            extras.extend((prefix + loc, v) for loc, v in e.extras)
        return cls('; '.join(str(e) for _, e in errs), extras)


class _Missing:
    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()


# -------------------------------------------------------------------------------------------------------------- tree

class Node:
    __slots__ = ('tag', 'text', 'attrs', 'kids', 'tail')

    def __init__(self, tag, text=None, attrs=None, kids=None, tail=None):
        self.tag = tag
        self.text = text
        self.attrs = dict(attrs or {})
        self.kids = list(kids or [])
        self.tail = tail

    def clone(self) -> 'Node':
        return Node(self.tag, self.text, self.attrs, [k.clone() for k in self.kids], self.tail)

    def key(self):
        return (self.tag, self.text or '', tuple(sorted(self.attrs.items())), tuple(k.key() for k in self.kids),
                self.tail or '')

    def empty(self) -> bool:
        return not self.text and not self.attrs and not self.kids

    def __repr__(self):
        return to_xml(self)


def esc(s: str, attr: bool = False) -> str:
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if attr:
        s = s.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')
    return s.replace('\r', '&#13;')


def to_xml(node: Node, prefix: str = 'q') -> str:
    """renders a tree with explicit prefixes only (all declared on the root element)"""
    uris: Dict[str, str] = {}

    def name(tag: str) -> str:
        if tag[0] != '{':
            return tag
        uri, local = tag[1:].split('}')
        if uri not in uris:
            uris[uri] = 'xsi' if uri == XSI else f'{prefix}{len(uris)}'
        return f'{uris[uri]}:{local}'

    def walk(n: Node, root: bool) -> list:
        nm = name(n.tag)
        attrs = ''.join(f' {name(k)}="{esc(v, True)}"' for k, v in n.attrs.items())
        inner = [esc(n.text or '')]
        for k in n.kids:
            inner.extend(walk(k, False))
        body = ''.join(inner)
        decl = ''.join(f' xmlns:{p}="{esc(u, True)}"' for u, p in uris.items()) if root else ''
        out = f'<{nm}{decl}{attrs}>{body}</{nm}>' if body else f'<{nm}{decl}{attrs}/>'
        return [out, '' if root else esc(n.tail or '')]

    return ''.join(walk(node, True))


# ----------------------------------------------------------------------------------------------------------- objects

class Obj:
    """a model instance of the reference world"""
    __slots__ = ('cls', 'vals', 'set')

    def __init__(self, cls: str, vals: Dict[str, Any], fields_set=None):
        self.cls = cls
        self.vals = vals
        self.set = frozenset(vals if fields_set is None else fields_set)

    def __repr__(self):
        return f'{self.cls}({", ".join(f"{k}={v!r}" for k, v in self.vals.items())})'


def neutral(v: Any, with_set: bool = True) -> Any:
    """canonical hashable form of a value of either world"""
    if isinstance(v, Obj):
        return ('M', v.cls, tuple((k, neutral(x, with_set)) for k, x in sorted(v.vals.items())),
                tuple(sorted(v.set)) if with_set else ())
    if isinstance(v, pd.BaseModel):
        cls = type(v)
        return ('M', cls.__name__, tuple((k, neutral(getattr(v, k), with_set)) for k in sorted(cls.model_fields)),
                tuple(sorted(v.model_fields_set)) if with_set else ())
    if isinstance(v, list):
        return ('list', tuple(neutral(x, with_set) for x in v))
    if isinstance(v, NT):
        return ('nt', v._name, tuple(neutral(x, with_set) for x in v))
    if isinstance(v, tuple):
        if hasattr(v, '_fields'):
            return ('nt', type(v).__name__, tuple(neutral(x, with_set) for x in v))
        return ('tuple', tuple(neutral(x, with_set) for x in v))
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, tuple(sorted((neutral(x, with_set) for x in v), key=repr)))
    if isinstance(v, collections.deque):
        return ('deque', tuple(neutral(x, with_set) for x in v))
    if isinstance(v, dict):
        return (type(v).__name__, tuple(sorted(((neutral(k), neutral(x)) for k, x in v.items()), key=repr)))
    if isinstance(v, Node):
        return ('raw', v.key())
    if hasattr(v, 'iter') and hasattr(v, 'attrib'):
        return ('raw', node_of_native(v).key())
    if isinstance(v, float) and v != v:
        return ('float', 'nan')
    return (type(v).__name__, repr(v))


def node_of_native(el) -> Node:
    """neutral copy of an ElementTree/lxml element; comments and processing instructions are not data"""
    node = Node(el.tag, el.text, {str(k): str(v) for k, v in el.attrib.items()}, tail=el.tail)
    for k in el:
        if isinstance(k.tag, str):
            node.kids.append(node_of_native(k))
        elif k.tail:
            if node.kids:
                node.kids[-1].tail = (node.kids[-1].tail or '') + k.tail
            else:
                node.text = (node.text or '') + k.tail
    return node


# ---------------------------------------------------------------------------------------------------------- bindings

@dataclass(frozen=True)
class B:
    pass


@dataclass(frozen=True)
class AttrB(B):
    name: str


@dataclass(frozen=True)
class TextB(B):
    nillable: bool


@dataclass(frozen=True)
class ElemB(B):
    tag: str
    nillable: bool


@dataclass(frozen=True)
class ModelB(B):
    tag: str
    cls: str
    nillable: bool


@dataclass(frozen=True)
class WrapB(B):
    path: tuple
    inner: B


@dataclass(frozen=True)
class SeqB(B):
    item: B


@dataclass(frozen=True)
class TupB(B):
    items: tuple


@dataclass(frozen=True)
class MapB(B):
    tag: Optional[str]      # None: the attributes of the model element itself
    key_ns: Optional[str]
    strip: bool


@dataclass(frozen=True)
class UniB(B):
    items: tuple


@dataclass(frozen=True)
class TagB(B):
    items: tuple            # (discriminator value, ModelB)
    attr: str
    disc: str


@dataclass(frozen=True)
class RawB(B):
    tag: str


def qname(local: str, ns: Optional[str], nsmap: Dict[str, str]) -> str:
    uri = nsmap.get('' if ns is None else ns)
    return '{%s}%s' % (uri, local) if uri else local


def qattr(local: str, ns: Optional[str], nsmap: Dict[str, str]) -> str:
    uri = nsmap.get(ns) if ns is not None else None
    return '{%s}%s' % (uri, local) if uri else local


@dataclass
class CField:
    f: F
    b: B
    key: str          # the name pydantic knows the field by on input


class CMod:
    def __init__(self, m: Mod):
        self.m = m
        self.name = m.name
        nsmap = dict(m.nsmap or ())
        self.tag = qname(m.tag or m.name, m.ns, nsmap)
        self.mode = m.mode or 'strict'
        self.fields: List[CField] = []


@functools.lru_cache(maxsize=None)
def adapter(src: str, ns_key: int = 0) -> pd.TypeAdapter:
    ns: dict = {}
    exec('import datetime as dt, decimal, enum, ipaddress, pathlib, uuid\nfrom typing import *\nimport pydantic\n'
         'from pydantic import *\n', ns)
    ns['Color'] = spec.Color
    ns['Level'] = spec.Level
    return pd.TypeAdapter(eval(src, ns))


def input_key(m: Mod, f) -> str:
    """the name pydantic knows the data of a field by"""
    if not dict(m.config).get('validate_by_alias', True):
        return f.name
    return f.valias if f.valias is not None else (f.alias if f.alias is not None else f.name)


class Ref:
    def __init__(self, prog: Prog):
        self.prog = prog
        self.eff = spec.effective(prog)
        self.mods: Dict[str, CMod] = {n: CMod(m) for n, m in self.eff.items()}
        for c in self.mods.values():
            self._bind_mod(c)
        self._td: Dict[str, pd.TypeAdapter] = {}

    @property
    def top(self) -> CMod:
        return self.mods[self.prog.top.name]

    # ------------------------------------------------------------------------------------------------------- binding

    def _bind_mod(self, c: CMod) -> None:
        m = c.m
        ordered = [f for f in m.fields if f.computed is None] + [f for f in m.fields if f.computed is not None]
        for f in ordered:
            if f.noxml:
                continue
            alias = f.salias if f.salias is not None else f.alias
            key = input_key(m, f)
            name = None if m.root else (alias or f.name)
            b = self._bind(f.type, f.ent, m, m.ns, dict(m.nsmap or ()), name)
            c.fields.append(CField(f, b, 'root' if m.root else key))

    def _bind(self, t, e: Ent, m: Mod, ns, nsmap: Dict[str, str], name: Optional[str]) -> B:
        if e.kind == 'wrapped':
            wns = e.ns if e.ns is not None else ns
            wmap = {**nsmap, **dict(e.nsmap or ())}
            path = tuple(qname(part, wns, wmap) for part in e.name.split('/'))
            return WrapB(path, self._bind(t, e.inner or TEXT, m, wns, wmap, name))

        if isinstance(t, Opt):
            return self._bind(t.item, e, m, ns, nsmap, name)

        ens = e.ns if e.ns is not None else ns
        emap = {**nsmap, **dict(e.nsmap or ())}

        if isinstance(t, P) or (isinstance(t, Uni) and not any(isinstance(i, M) for i in t.items)):
            if e.kind == 'attr':
                ans = e.ns if e.ns is not None else (ns if m.ns_attrs else None)
                return AttrB(qattr(e.name or name, ans, emap))
            if e.kind == 'element':
                return ElemB(qname(e.name or name, ens, emap), bool(e.nillable))
            return TextB(bool(e.nillable))
        if isinstance(t, M):
            return self._bind_model(t, e, ns, nsmap, name)
        if isinstance(t, Seq):
            return SeqB(self._bind(t.item, e, m, ns, nsmap, name))
        if isinstance(t, Tup):
            return TupB(tuple(self._bind(i, e, m, ns, nsmap, name) for i in t.items))
        if isinstance(t, (Map, TD)):
            key_ns = emap.get(ens) if m.ns_attrs and ens else None
            tag = qname(e.name or name, ens, emap) if e.kind == 'element' else None
            return MapB(tag, key_ns, bool(m.ns_attrs))
        if isinstance(t, Uni):
            return UniB(tuple(self._bind_model(i, e, ns, nsmap, name) for i in t.items))
        if isinstance(t, Tag):
            items = []
            attr = None
            for i in t.items:
                sub = self.eff[i.name]
                df = next(f for f in sub.fields if f.name == t.disc)
                b = self._bind(df.type, df.ent, sub, sub.ns, dict(sub.nsmap or ()), df.alias or df.name)
                attr = b.name
                for val in literal_values(df.type):
                    items.append((val, self._bind_model(i, e, ns, nsmap, name)))
            return TagB(tuple(items), attr, t.disc)
        if isinstance(t, Raw):
            return RawB(qname(e.name or name, ens, emap))
        raise AssertionError(t)

    def _bind_model(self, t: M, e: Ent, ns, nsmap, name) -> ModelB:
        sub = self.eff[t.name]
        sns = e.ns if e.ns is not None else (sub.ns if sub.ns is not None else ns)
        smap = {**nsmap, **dict(sub.nsmap or ()), **dict(e.nsmap or ())}
        return ModelB(qname(e.name or sub.tag or name or sub.name, sns, smap), t.name, bool(e.nillable))

    # ------------------------------------------------------------------------------------------------- serialization

    def serialize(self, obj: Obj, skip_empty=False, exclude_none=False, exclude_unset=False,
                  quirks: bool = True, hits: Optional[set] = None) -> Node:
        s = _Ser(self, exclude_none, exclude_unset, quirks, hits if hits is not None else set())
        node = Node(self.mods[obj.cls].tag)
        s.model(obj, node, skip_empty)
        return node

    def field_value(self, obj: Obj, f: F) -> Any:
        if f.computed is not None:
            return eval(f.computed, {'self': _attr_view(obj), 'Color': spec.Color, 'Level': spec.Level})
        return obj.vals[f.name]

    # ------------------------------------------------------------------------------------------------------- parsing

    def parses(self, root: Node, cls: Optional[str] = None, empty_as_string=False, quirks=True,
               hits: Optional[set] = None, limit: int = 200):
        """every allowed outcome: list of ('ok', Obj) / ('err', reason)"""
        script: List[int] = []
        outcomes = []
        while True:
            ch = Chooser(script)
            p = _Parser(self, ch, empty_as_string, quirks, hits if hits is not None else set())
            try:
                outcomes.append(('ok', p.root(root, cls or self.prog.top.name)))
            except Err as e:
                outcomes.append(('err', str(e), e.extras))
            script = ch.next()
            if script is None:
                return outcomes
            if len(outcomes) > limit:
                return None         # too much permitted nondeterminism: the case is not judged

    # ---------------------------------------------------------------------------------------------------- validation

    def validate(self, t, raw: Any, forbid: Optional[str] = None) -> Any:
        """python data -> typed value; raises Err"""
        if isinstance(t, Opt):
            return None if raw is None else self.validate(t.item, raw, forbid)
        if isinstance(t, (P, Map)) or (isinstance(t, Uni) and not any(isinstance(i, M) for i in t.items)):
            try:
                return adapter(spec.type_src(t)).validate_python(raw, strict=False)
            except pd.ValidationError as e:
                raise Err(f'{spec.type_src(t)}: {e.errors()[0]["type"]}')
        if isinstance(t, TD):
            if not isinstance(raw, dict):
                raise Err('typed dict')
            out = {}
            for n, ft in t.fields:
                if n in raw:
                    out[n] = self.validate(ft, raw[n])
                elif t.total:
                    raise Err('missing key')
            # pydantic applies the configuration of the model to the typed dict
            if forbid == 'forbid' and any(k not in out for k in raw):
                raise Err('extra key')
            if forbid == 'allow':
                out.update({k: v for k, v in raw.items() if k not in out})
            return out
        if isinstance(t, (M, Uni, Tag)):
            if not isinstance(raw, Obj):
                raise Err('model expected')
            return raw
        if isinstance(t, Raw):
            if not isinstance(raw, Node):
                raise Err('raw expected')
            return raw
        if raw is None:
            raise Err('collection expected')
        if isinstance(t, Seq):
            items = [self.validate(t.item, i, forbid) for i in raw]
            return SEQS[t.kind](items)
        if isinstance(t, Tup):
            if len(raw) != len(t.items):
                raise Err('tuple length')
            items = tuple(self.validate(i, x, forbid) for i, x in zip(t.items, raw))
            return NT(t.named[0], items) if t.named else items
        raise AssertionError(t)

    def default(self, f: F) -> Any:
        if f.factory is not None:
            return {**SEQS, 'dict': dict, 'int': int, 'str': str}[f.factory]()
        if isinstance(f.default, spec.Src):
            return eval(str(f.default), {'Color': spec.Color, 'Level': spec.Level})
        return copy.deepcopy(f.default)

    def has_default(self, f: F) -> bool:
        return f.default is not UNSET or f.factory is not None

    def make(self, cls: str, **vals) -> Obj:
        """an instance as built by the constructor of the model"""
        full = {}
        for f in self.eff[cls].fields:
            if f.computed is not None:
                continue
            if f.name in vals:
                full[f.name] = vals[f.name]
            elif self.has_default(f):
                full[f.name] = self.default(f)
            else:
                raise Err(f'{cls}.{f.name} required')
        return Obj(cls, full, vals.keys())


class NT(tuple):
    """named tuple of the reference world"""

    def __new__(cls, name, items):
        self = super().__new__(cls, items)
        self._name = name
        return self


def _attr_view(o):
    if isinstance(o, Obj):
        return SimpleNamespace(**{k: _attr_view(v) for k, v in o.vals.items()})
    return o


def literal_values(t):
    if isinstance(t, P) and t.name.startswith('Literal['):
        return list(eval(t.name[len('Literal'):]))
    raise AssertionError(t)


def encode(value: Any) -> str:
    enc = pdc.to_jsonable_python(value)
    if enc is None:
        return ''
    if isinstance(enc, bool):
        return 'true' if enc else 'false'
    return str(enc)


class Chooser:
    def __init__(self, script: List[int]):
        self.script = list(script)
        self.pos = 0
        self.sizes: List[int] = []

    def choose(self, n: int) -> int:
        if n <= 1:
            return 0
        if self.pos < len(self.script):
            c = self.script[self.pos]
        else:
            c = 0
            self.script.append(0)
        self.sizes.append(n)
        self.pos += 1
        return c

    def next(self) -> Optional[List[int]]:
        s = self.script[:self.pos]
        for i in range(len(s) - 1, -1, -1):
            if s[i] + 1 < self.sizes[i]:
                return s[:i] + [s[i] + 1]
        return None


# -------------------------------------------------------------------------------------------------------- serializer

class _Ser:
    def __init__(self, ref: Ref, exclude_none, exclude_unset, quirks, hits):
        self.ref = ref
        self.exclude_none = exclude_none
        self.exclude_unset = exclude_unset
        self.quirks = quirks
        self.hits = hits

    def model(self, obj: Obj, node: Node, skip: bool, cls: Optional[str] = None) -> None:
        c = self.ref.mods[cls or obj.cls]
        if c.m.skip_empty is not None:
            skip = c.m.skip_empty
        for cf in c.fields:
            if cf.f.exclude:
                continue
            if cf.f.exclude_if is not UNSET and self.ref.field_value(obj, cf.f) == cf.f.exclude_if:
                continue
            if self.exclude_unset and cf.f.name not in obj.set:
                continue
            self.emit(cf.b, self.ref.field_value(obj, cf.f), node, skip)

    def emit(self, b: B, v: Any, node: Node, skip: bool) -> None:
        drop_none = skip or self.exclude_none
        if isinstance(b, AttrB):
            if v is None and drop_none:
                return
            node.attrs[b.name] = encode(v)
        elif isinstance(b, TextB):
            if v is None and drop_none:
                return
            if v is None and b.nillable:
                node.attrs[NIL] = 'true'
            node.text = encode(v)
        elif isinstance(b, ElemB):
            if v is None and drop_none:
                return
            sub = Node(b.tag, encode(v))
            if v is None and b.nillable:
                sub.attrs[NIL] = 'true'
            if skip and sub.empty():
                return
            node.kids.append(sub)
        elif isinstance(b, ModelB):
            if v is None:
                if b.nillable and not self.exclude_none:
                    node.kids.append(Node(b.tag, attrs={NIL: 'true'}))
                return
            sub = Node(b.tag)
            # a field of type X serializes X's fields, even if the value is an instance of a subclass of X
            self.model(v, sub, skip, cls=b.cls)
            if skip and sub.empty():
                return
            node.kids.append(sub)
        elif isinstance(b, WrapB):
            if v is None:
                return
            if skip and isinstance(v, (str, list, tuple, set, frozenset, dict)) and len(v) == 0:
                return
            if skip and isinstance(v, Node) and v.empty() and not v.tail:
                return
            probe = Node('probe')
            self.emit(b.inner, v, probe, skip)
            if skip and probe.empty():
                self.hits.add('skip-empty-keeps-empty-wrapper')
                if not self.quirks:
                    return
            for tag in b.path:
                if node.kids and node.kids[-1].tag == tag:
                    node = node.kids[-1]        # consecutive fields share their wrappers
                else:
                    node.kids.append(Node(tag))
                    node = node.kids[-1]
            self.emit(b.inner, v, node, skip)
        elif isinstance(b, SeqB):
            for item in (v if v is not None else ()):
                if skip and item is None:
                    continue
                self.emit(b.item, item, node, skip)
        elif isinstance(b, TupB):
            for ib, item in zip(b.items, v if v is not None else ()):
                self.emit(ib, item, node, skip)
        elif isinstance(b, MapB):
            if b.tag is not None:
                if v is None and drop_none:
                    return
                if skip and len(v) == 0:
                    return
                node.kids.append(Node(b.tag))
                node = node.kids[-1]
            for k, x in (v or {}).items():
                node.attrs['{%s}%s' % (b.key_ns, encode(k)) if b.key_ns else encode(k)] = encode(x)
        elif isinstance(b, UniB):
            if v is None:
                return
            ib = next((i for i in b.items if i.cls == v.cls), None)
            if ib is None:
                ib = next(i for i in b.items if self.is_sub(v.cls, i.cls))
            self.emit(ib, v, node, skip)
        elif isinstance(b, TagB):
            if v is None:
                return
            self.emit(dict(b.items)[v.vals[b.disc]], v, node, skip)
        elif isinstance(b, RawB):
            if v is None:
                return
            if skip and v.empty() and not v.tail:
                return
            node.kids.append(v.clone())
        else:
            raise AssertionError(b)

    def is_sub(self, name: str, base: str) -> bool:
        while name is not None:
            if name == base:
                return True
            name = self.ref.prog.get(name).base
            if name not in self.ref.mods:
                return False
        return False


# ------------------------------------------------------------------------------------------------------------ parser

class PN:
    """document element + what has been consumed of it so far"""
    __slots__ = ('tag', 'text', 'tail', 'attrs', 'kids', 'cursor', 'last', 'free', 'moved', 'map_taken')

    def __init__(self, n: Optional[Node]):
        if n is None:
            return
        self.tag = n.tag
        self.text = n.text
        self.tail = n.tail
        self.attrs = dict(n.attrs)
        self.kids = [PN(k) for k in n.kids]
        self.cursor = 0
        self.last: Optional[int] = None
        self.free = list(range(len(self.kids)))
        self.moved = False
        self.map_taken = False

    def clone(self) -> 'PN':
        c = PN(None)
        c.tag, c.text, c.tail = self.tag, self.text, self.tail
        c.attrs = dict(self.attrs)
        c.kids = [k.clone() for k in self.kids]
        c.cursor, c.last = self.cursor, self.last
        c.free = list(self.free)
        c.moved = self.moved
        c.map_taken = self.map_taken
        return c

    def assign(self, o: 'PN') -> None:
        for s in self.__slots__:
            setattr(self, s, getattr(o, s))

    def leftovers(self, path=()):
        out = []
        if self.text and self.text.strip():
            out.append((path, None, self.text.strip()))
        if self.tail and self.tail.strip():
            out.append((path, None, self.tail.strip()))
        out.extend((path, k, v) for k, v in self.attrs.items())
        for k in self.kids:
            out.extend(k.leftovers(path + (k.tag,)))
        return out


class _Parser:
    def __init__(self, ref: Ref, ch: Chooser, empty_as_string, quirks, hits):
        self.ref = ref
        self.ch = ch
        self.eas = empty_as_string
        self.quirks = quirks
        self.hits = hits

    def root(self, node: Node, cls: str) -> Obj:
        c = self.ref.mods[cls]
        if node.tag != c.tag:
            raise Err('root')
        n = node.clone()
        n.tail = None
        return self.model(PN(n), c)

    def model(self, pn: PN, c: CMod) -> Obj:
        raw: Dict[str, Any] = {}
        failed = []
        for cf in c.fields:
            if cf.f.computed is not None:
                continue
            try:
                v = self.take(cf.b, pn, c.mode)
            except Err as e:
                failed.append((() if c.m.root else (cf.key,), e))
                if e.extras is None:
                    break
                continue
            if v is None and isinstance(cf.b, (ElemB, ModelB, TextB)) and self.was_nil:
                # an explicit nil
                if self.ref.has_default(cf.f) and self.ref.default(cf.f) is None and not self.sets_matter:
                    v = MISSING
                else:
                    self.hits.add('nil-replaced-by-default')
                    v = MISSING if self.quirks else None
                    if v is None:
                        raw[cf.f.name] = None
                        continue
            if v is not MISSING and v is not None:
                raw[cf.f.name] = v
        if failed:
            raise Err.merge(failed)
        if c.m.extra == 'forbid':
            left = pn.leftovers()
            if left:
                raise Err(f'extra: {left}', [(p + ((f'@{a}',) if a else ()), v) for p, a, v in left])
        vals: Dict[str, Any] = {}
        for f in c.m.fields:
            if f.computed is not None:
                continue
            if f.name in raw:
                vals[f.name] = self.ref.validate(f.type, raw[f.name], c.m.extra)
            elif self.ref.has_default(f):
                vals[f.name] = self.ref.default(f)
            else:
                raise Err(f'{c.name}.{f.name} missing')
        return Obj(c.name, vals, raw.keys())

    sets_matter = False
    was_nil = False

    # ------------------------------------------------------------------------------------------------------- search

    def find(self, pn: PN, tag: str, mode: str, take: bool = True, only: Optional[PN] = None) -> Optional[PN]:
        if mode == 'strict':
            i = pn.cursor
            if i < len(pn.kids) and pn.kids[i].tag == tag:
                if take:
                    pn.cursor, pn.last = i + 1, i
                return pn.kids[i]
            return None
        if mode == 'ordered':
            for i in range(pn.cursor, len(pn.kids)):
                if pn.kids[i].tag == tag:
                    if take:
                        pn.cursor, pn.last = i + 1, i
                    return pn.kids[i]
            return None
        cand = [i for i in pn.free if pn.kids[i].tag == tag]
        if not cand:
            return None
        # equally named elements are taken in document order unless others have been taken out of turn before
        if only is not None:
            i = next(i for i in cand if pn.kids[i] is only)
        else:
            i = cand[self.ch.choose(len(cand))] if pn.moved else cand[0]
        if i != pn.free[0]:
            pn.moved = True
        if take:
            pn.free.remove(i)
            pn.last = i
        return pn.kids[i]

    # ------------------------------------------------------------------------------------------------------- values

    def take(self, b: B, pn: PN, mode: str, only: Optional[PN] = None) -> Any:
        """MISSING: not in the document, None: there but without data, otherwise raw data"""
        self.was_nil = False
        if isinstance(b, AttrB):
            return pn.attrs.pop(b.name, MISSING)
        if isinstance(b, TextB):
            return self.text(pn, b.nillable)
        if isinstance(b, ElemB):
            sub = self.find(pn, b.tag, mode)
            return MISSING if sub is None else self.text(sub, b.nillable)
        if isinstance(b, ModelB):
            sub = self.find(pn, b.tag, mode, only=only)
            if sub is None:
                return MISSING
            if sub.attrs.pop(NIL, None) in ('true', '1'):
                self.was_nil = True
                return None
            v = self.model(sub, self.ref.mods[b.cls])
            self.was_nil = False
            return v
        if isinstance(b, WrapB):
            for tag in b.path:
                if pn.last is not None and pn.kids[pn.last].tag == tag:
                    pn = pn.kids[pn.last]
                else:
                    sub = self.find(pn, tag, mode)
                    if sub is None:
                        return MISSING
                    pn = sub
            return self.take(b.inner, pn, mode)
        if isinstance(b, SeqB):
            items = []
            failed = []
            while True:
                try:
                    v = self.take(b.item, pn, mode)
                except Err as e:
                    failed.append(((len(items),), e))
                    if e.extras is None:
                        break
                    items.append(None)
                    continue
                if v is MISSING:
                    break
                if v is None:
                    self.hits.add('collection-stops-at-empty-item')
                    if self.quirks:
                        break
                items.append(v)
            self.was_nil = False
            if failed:
                raise Err.merge(failed)
            return items or MISSING
        if isinstance(b, TupB):
            items = []
            failed = []
            for idx, i in enumerate(b.items):
                try:
                    items.append(self.take(i, pn, mode))
                except Err as e:
                    failed.append(((idx,), e))
                    if e.extras is None:
                        break
            if failed:
                raise Err.merge(failed)
            self.was_nil = False
            if all(v is MISSING for v in items):
                return MISSING
            items = [None if v is MISSING else v for v in items]
            return None if all(v is None for v in items) else items
        if isinstance(b, MapB):
            if b.tag is not None:
                sub = self.find(pn, b.tag, mode)
                if sub is None:
                    return MISSING
                pn = sub
            if pn.map_taken:
                return MISSING
            pn.map_taken = True
            attrs, pn.attrs = pn.attrs, {}
            return {(k.rsplit('}', 1)[-1] if b.strip else k): v for k, v in attrs.items()}
        if isinstance(b, UniB):
            failure = None
            for ib in b.items:
                trial = pn.clone()
                try:
                    v = self.take(ib, trial, mode)
                except Err as e:
                    failure = failure or e
                    continue
                if v is MISSING or v is None:
                    continue
                pn.assign(trial)
                return v
            if failure is not None:
                raise Err(str(failure))
            self.was_nil = False
            return MISSING
        if isinstance(b, TagB):
            for val, ib in b.items:
                sub = self.find(pn, ib.tag, mode, take=False)
                if sub is not None and sub.attrs.get(b.attr) == val:
                    return self.take(ib, pn, mode, only=sub)
            return MISSING
        if isinstance(b, RawB):
            sub = self.find(pn, b.tag, mode)
            if sub is None:
                return MISSING
            n = node_of_pn(sub)
            sub.text, sub.tail, sub.attrs, sub.kids = None, None, {}, []
            return n
        raise AssertionError(b)

    def text(self, pn: PN, nillable: bool) -> Any:
        if nillable and pn.attrs.pop(NIL, None) in ('true', '1'):
            self.was_nil = True
            return None
        t, pn.text = pn.text, None
        return t or ('' if self.eas else None)


def node_of_pn(pn: PN) -> Node:
    return Node(pn.tag, pn.text, pn.attrs, [node_of_pn(k) for k in pn.kids], pn.tail)

