"""
Executes programs on the real library and compares every observation with the reference model.
"""

from __future__ import annotations

import collections
import hashlib
import itertools as it
import os
import signal
import sys
import traceback
import xml.etree.ElementTree as ET
from typing import Any, Dict, Iterable, List, Optional

import pydantic as pd

from . import ref as R
from . import spec
from .ref import NT, Node, Obj, Ref, neutral
from .spec import Prog


class Hang(BaseException):
    pass


def _on_timer(*_):
    raise Hang()


class budget:
    """bounds the cpu time of one real call sequence: a call which does not come back is a violation, not a hang"""

    def __init__(self, seconds: float):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _on_timer)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


# ------------------------------------------------------------------------------------------------------- conversions

def native():
    from pydantic_xml.element.native import etree
    return etree


def to_native(n: Node):
    etree = native()
    el = etree.Element(n.tag, n.attrs)
    el.text = n.text
    el.tail = n.tail
    for k in n.kids:
        el.append(to_native(k))
    return el


def to_real(v: Any, ns: dict, ref: Ref) -> Any:
    if isinstance(v, Obj):
        c = ref.eff[v.cls]
        kw = {}
        for f in c.fields:
            if f.computed is None and f.name in v.set and f.name in v.vals:
                key = R.input_key(c, f)
                kw[key] = to_real(v.vals[f.name], ns, ref)
        if c.root:
            return ns[v.cls](kw['root']) if 'root' in kw else ns[v.cls]()
        return ns[v.cls](**kw)
    if isinstance(v, NT):
        return ns[v._name](*[to_real(x, ns, ref) for x in v])
    if isinstance(v, Node):
        return to_native(v)
    if isinstance(v, list):
        return [to_real(x, ns, ref) for x in v]
    if isinstance(v, tuple):
        return tuple(to_real(x, ns, ref) for x in v)
    if isinstance(v, collections.deque):
        return collections.deque(to_real(x, ns, ref) for x in v)
    if type(v) is dict:
        return {k: to_real(x, ns, ref) for k, x in v.items()}
    return v


def complete(v: Any, ref: Ref) -> Any:
    """fills in defaults the way a constructor does"""
    if isinstance(v, Obj):
        return ref.make(v.cls, **{k: complete(x, ref) for k, x in v.vals.items()})
    if isinstance(v, NT):
        return NT(v._name, [complete(x, ref) for x in v])
    if isinstance(v, list):
        return [complete(x, ref) for x in v]
    if isinstance(v, tuple):
        return tuple(complete(x, ref) for x in v)
    if isinstance(v, collections.deque):
        return collections.deque(complete(x, ref) for x in v)
    if type(v) is dict:
        return {k: complete(x, ref) for k, x in v.items()}
    return v


def parse_output(data) -> Node:
    """reads the produced document back with the standard library parser"""
    return R.node_of_native(ET.fromstring(data))


# ---------------------------------------------------------------------------------------------------------- documents

ALIEN = 'zz'
ALIEN_NS = 'urn:alien'


def edits(doc: Node, bad: str = '!', deep: bool = True) -> Iterable[Node]:
    """all documents one edit away from `doc` (root element name included)"""

    def paths(n, p=()):
        yield p
        for i, k in enumerate(n.kids):
            yield from paths(k, p + (i,))

    def at(root, p):
        for i in p:
            root = root.kids[i]
        return root

    def local(tag):
        return tag.rsplit('}', 1)[-1]

    for p in list(paths(doc)):
        n = at(doc, p)

        def mk(fn):
            d = doc.clone()
            fn(at(d, p))
            return d

        for i in range(len(n.kids)):
            yield mk(lambda x: x.kids.pop(i))                                             # delete
            yield mk(lambda x: x.kids.insert(i, x.kids[i].clone()))                       # duplicate
            if i:
                yield mk(lambda x: x.kids.insert(0, x.kids.pop(i)))                       # move first
            if i + 1 < len(n.kids):
                yield mk(lambda x: x.kids.append(x.kids.pop(i)))                          # move last
            yield mk(lambda x: setattr(x.kids[i], 'tag', ALIEN))                          # unknown name
            yield mk(lambda x: setattr(x.kids[i], 'tag', '{%s}%s' % (ALIEN_NS, local(x.kids[i].tag))))
            if n.kids[i].tag[0] == '{':
                yield mk(lambda x: setattr(x.kids[i], 'tag', local(x.kids[i].tag)))
            if n.kids[i].kids:
                yield mk(lambda x: x.kids.__setitem__(slice(i, i + 1), x.kids[i].kids))   # a level less
            yield mk(lambda x: x.kids.__setitem__(i, Node(x.kids[i].tag, None, {}, [x.kids[i]])))   # a level more
            if i:
                yield mk(lambda x: x.kids[i - 1].kids.append(x.kids.pop(i)))              # into the previous element
                if n.kids[i].tag != n.kids[i - 1].tag:
                    yield mk(lambda x: setattr(x.kids[i], 'tag', x.kids[i - 1].tag))      # named like the previous one
        for i in range(len(n.kids) + 1):
            yield mk(lambda x: x.kids.insert(i, Node(ALIEN)))                             # unknown element
            if i == len(n.kids):
                yield mk(lambda x: x.kids.insert(i, Node(ALIEN, '7', {'zk': 'v'})))
        for t in ('', bad, '7', ' '):
            if (n.text or '') != t:
                yield mk(lambda x: setattr(x, 'text', t))
        for a in list(n.attrs):
            yield mk(lambda x: x.attrs.pop(a))
            yield mk(lambda x: x.attrs.__setitem__(a, bad))
            yield mk(lambda x: x.attrs.__setitem__(a, ''))
            yield mk(lambda x: (x.attrs.__setitem__('{%s}%s' % (ALIEN_NS, local(a)), x.attrs.pop(a))))
            if a[0] == '{':
                yield mk(lambda x: (x.attrs.__setitem__(local(a), x.attrs.pop(a))))
        yield mk(lambda x: x.attrs.__setitem__('zk', 'v'))                                # unknown attribute
        if R.NIL not in n.attrs:
            yield mk(lambda x: x.attrs.__setitem__(R.NIL, 'true'))
            yield mk(lambda x: x.attrs.__setitem__(R.NIL, 'false'))
        if p:
            yield mk(lambda x: setattr(x, 'tail', 'tail'))
    d = doc.clone()
    d.tag = '{%s}%s' % (ALIEN_NS, local(doc.tag))
    yield d


def explore_docs(seeds: List[Node], depth: int, limit: Optional[int] = None):
    """breadth-first search of the edit graph; returns (documents, edges)"""
    seen: Dict[Any, Node] = {}
    edges = 0
    frontier = []
    for s in seeds:
        if s.key() not in seen:
            seen[s.key()] = s
            frontier.append(s)
    for _ in range(depth):
        nxt = []
        for d in frontier:
            for e in edits(d):
                edges += 1
                k = e.key()
                if k not in seen:
                    seen[k] = e
                    nxt.append(e)
        frontier = nxt
    return list(seen.values()), edges


# ------------------------------------------------------------------------------------------------------------ verdicts

class Report:
    """what one worker has covered and found"""

    MAX_VIOLATIONS = int(os.environ.get('VERIF_SHOW', '5'))

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.programs = 0
        self.counts: Dict[str, int] = {}
        self.violations: List[dict] = []
        self.samples: List[Any] = []
        self.known: Dict[str, dict] = {}
        self.digests: Dict[str, str] = {}
        self.unjudged = 0

    def count(self, key: str, n: int = 1):
        self.counts[key] = self.counts.get(key, 0) + n

    def violation(self, what: str, **info):
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append({'what': what, **{k: (v if isinstance(v, (str, int, type(None), list, dict)) else repr(v))
                                                     for k, v in info.items()}})
        self.count('violations')

    def known_finding(self, fid: str, example: str):
        k = self.known.setdefault(fid, {'hits': 0, 'example': example})
        k['hits'] += 1

    def sample(self, s, every: int = 1, cap: int = 6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def dump(self) -> dict:
        return dict(states=self.states, transitions=self.transitions, traces=self.traces, programs=self.programs,
                    counts=self.counts, violations=self.violations, samples=self.samples, known=self.known,
                    digests=self.digests, unjudged=self.unjudged)


class Case:
    """a program bound to its real classes and its reference model"""

    def __init__(self, prog: Prog, rep: Report, cpu: float = 20.0, source: Optional[str] = None):
        """`source`: another way to write the program down (a full module body); it must mean the same"""
        self.source = source
        self.prog = prog
        self.rep = rep
        self.ref = Ref(prog)
        self.ns: Optional[dict] = None
        self.cpu = cpu

    @property
    def src(self) -> str:
        return spec.prog_src(self.prog) if self.source is None else spec.PRELUDE + '\n\n' + self.source

    def define(self) -> bool:
        try:
            with budget(self.cpu):
                self.ns = spec.compile_prog(self.prog, self.source)
        except Hang:
            self.rep.violation('a legal model definition does not terminate', program=self.prog.label,
                               source=self.src)
            return False
        except Exception as e:
            self.rep.violation(f'a legal model definition is rejected: {type(e).__name__}: {e}',
                               program=self.prog.label, source=self.src)
            return False
        self.rep.programs += 1
        return True

    @property
    def top(self):
        return self.ns[self.prog.top.name]

    # ------------------------------------------------------------------------------------------------------- actions

    def real_parse(self, text, cls=None, **kw):
        cls = cls or self.top
        from pydantic_xml import ParsingError
        try:
            with budget(self.cpu):
                if not isinstance(text, (str, bytes)):
                    return ('ok', cls.from_xml_tree(text, **kw))
                return ('ok', cls.from_xml(text, **kw))
        except Hang:
            return ('hang', None)
        except (pd.ValidationError, ParsingError) as e:
            return ('err', e)
        except Exception as e:
            return ('exc', e)

    def real_tree(self, obj, **kw):
        try:
            with budget(self.cpu):
                return ('ok', obj.to_xml(**kw))
        except Hang:
            return ('hang', None)
        except Exception as e:
            return ('exc', e)

    # ------------------------------------------------------------------------------------------------------ judgments

    def check_parse(self, doc: Node, eas: bool = False, text=None, with_set: bool = True, cls: Optional[str] = None,
                    tree=None, **options):
        """parses one document on both sides; returns the real object if accepted"""
        rep = self.rep
        text = R.to_xml(doc) if text is None else text
        rep.transitions += 1
        kw = {'empty_as_string': True} if eas else {}
        kw.update(options)
        got, val = self.real_parse(text if tree is None else tree, cls and self.ns[cls], **kw)
        hits: set = set()
        allowed = self.ref.parses(doc, cls, empty_as_string=eas, hits=hits)
        if allowed is None:
            rep.unjudged += 1
            return None
        if got in ('exc', 'hang'):
            rep.violation('parsing neither returns an object nor raises a validation/parsing error'
                          if got == 'exc' else 'parsing does not terminate',
                          program=self.prog.label, source=self.src, doc=text, kwargs=kw,
                          got=f'{type(val).__name__}: {val}', expected=render(allowed))
            return None
        rep.traces += 1
        mine = ('ok', neutral(val, with_set)) if got == 'ok' else ('err',)
        ok = any(mine == (('ok', neutral(o[1], with_set)) if o[0] == 'ok' else ('err',)) for o in allowed)
        rep.count('accepted' if got == 'ok' else 'rejected')
        if len(allowed) > 1:
            rep.count('nondeterministic')
        if not ok and hits:
            ideal = self.ref.parses(doc, cls, empty_as_string=eas, quirks=False)
            ok = ideal is not None and any(
                mine == (('ok', neutral(o[1], with_set)) if o[0] == 'ok' else ('err',)) for o in ideal)
        elif ok and hits:
            ideal = self.ref.parses(doc, cls, empty_as_string=eas, quirks=False)
            if ideal is not None and not any(
                    mine == (('ok', neutral(o[1], with_set)) if o[0] == 'ok' else ('err',)) for o in ideal):
                for h in hits:
                    rep.known_finding(h, f'{self.prog.label}: {text}')
        if not ok:
            rep.violation('a document is not bound to the model as declared',
                          program=self.prog.label, source=self.src, doc=text, kwargs=kw,
                          got=repr(val) if got == 'ok' else f'{type(val).__name__}: {val}',
                          expected=render(allowed), kind='parse', neutral=repr(self.neutral_allowed(allowed)))
            return None
        return val if got == 'ok' else None

    def neutral_allowed(self, allowed):
        return [('ok', neutral(o[1])) if o[0] == 'ok' else ('err',) for o in allowed]

    def build(self, v: Obj):
        try:
            return to_real(v, self.ns, self.ref)
        except Exception as e:
            self.rep.violation(f'a legal value is rejected by the constructor: {type(e).__name__}: {e}',
                               program=self.prog.label, source=self.src, value=repr(v))
            return None

    def check_serialize(self, v: Obj, real=None, **opts):
        """serializes one value on both sides; returns (bytes, neutral tree)"""
        rep = self.rep
        real = self.build(v) if real is None else real
        if real is None:
            return None
        rep.transitions += 1
        got, data = self.real_tree(real, **opts)
        hits: set = set()
        want = self.ref.serialize(v, hits=hits, **opts)
        if got != 'ok':
            rep.violation('serialization fails' if got == 'exc' else 'serialization does not terminate',
                          program=self.prog.label, source=self.src, value=repr(real), kwargs=opts,
                          got=f'{type(data).__name__}: {data}', expected=R.to_xml(want))
            return None
        rep.traces += 1
        try:
            tree = parse_output(data)
        except ET.ParseError as e:
            rep.violation(f'the produced document is not well-formed: {e}', program=self.prog.label,
                          source=self.src, value=repr(real), kwargs=opts, got=repr(data),
                          expected=R.to_xml(want))
            return None
        ok = tree.key() == want.key()
        if hits:
            ideal = self.ref.serialize(v, quirks=False, **opts)
            if tree.key() == ideal.key():
                ok = True
            elif ok:
                for h in hits:
                    rep.known_finding(h, f'{self.prog.label}: {real!r} -> {data!r}')
        if not ok:
            rep.violation('the produced document differs from the declared one', program=self.prog.label,
                          source=self.src, value=repr(real), kwargs=opts, got=R.to_xml(tree),
                          expected=R.to_xml(want))
            return None
        return data, tree


def render(allowed) -> str:
    if allowed is None:
        return '?'
    return ' | '.join(repr(o[1]) if o[0] == 'ok' else f'rejected ({o[1]})' for o in allowed[:6])


def digest(*items) -> str:
    return hashlib.sha1(repr(items).encode()).hexdigest()[:16]
