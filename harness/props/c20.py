"""
C20: the element reader/writer which custom xml functions are given behaves like the plain list of data it stands for.

Explicit-state search: a state is a pair (model element, real element); from every state every operation is applied to copies of
both, results and the complete remaining content are compared, and new states are explored until no new one appears (reading)
or up to a depth (writing).
"""
import copy
import itertools as it

from harness import engine as G
from harness import ref as R
from harness.ref import Node

FIRST = ('pop_element(a)', 'pop_element(b)', 'pop_element(a, remove)', 'find_element(a)', 'find_sub_element(a/b)', 'undone(pop_element(a))',
         'applied(pop_element(a))', 'discarded(pop_elements)', 'peek(b)')
AGAIN = ('set_text(1)', 'set_attribute(x, 1)', 'append(a)', 'append(b)', 'find_element_or_create(a)', 'find_element_or_create(b)',
         'find_element_or_create(a).append(a)')
MODES = ('strict', 'ordered', 'unordered')


class El:
    """the model: data still available plus the search position"""

    def __init__(self, tag, text=None, tail=None, attrs=None, kids=()):
        self.tag, self.text, self.tail = tag, text, tail
        self.attrs = dict(attrs) if attrs else {}
        self.kids = list(kids)
        self.free = list(range(len(self.kids)))      # not yet taken, in document order (unordered)
        self.pos = 0                                 # strict/ordered position
        self.last = None
        self.moved = False
        self.writing = False

    def key(self):
        return (self.tag, self.text, self.tail, tuple(sorted(self.attrs.items())), tuple(k.key() for k in self.kids), tuple(self.free),
                self.pos, self.last, self.moved, self.writing)

    def candidates(self, tag, mode):
        """kids the search may return next"""
        if mode == 'strict':
            return [i for i in range(self.pos, min(self.pos + 1, len(self.kids))) if self.kids[i].tag == tag]
        if mode == 'ordered':
            return [i for i in range(self.pos, len(self.kids)) if self.kids[i].tag == tag][:1]
        c = [i for i in self.free if self.kids[i].tag == tag]
        return c if self.moved else c[:1]

    def take(self, i, mode):
        if mode == 'unordered':
            if i != self.free[0]:
                self.moved = True
            self.free.remove(i)
            self.pos += 1
        else:
            self.pos = i + 1
        self.last = i

    def peeked(self, i, mode):
        """looking for an element ahead may bring it forward in the unordered mode"""
        if mode == 'unordered' and i != self.free[0]:
            self.moved = True

    def unbound(self, path=()):
        out = []
        for v in (self.text, self.tail):
            if v and v.strip():
                out.append((path, None, v.strip()))
        out += [(path, k, v) for k, v in self.attrs.items()]
        for k in self.kids:
            out += k.unbound(path + (k.tag,))
        return out

    def tree(self):
        return (self.tag, self.text or None, self.tail or None, tuple(sorted(self.attrs.items())), tuple(k.tree() for k in self.kids))

    def ident(self):
        """every element carries a unique attribute or text; the whole subtree tells elements apart"""
        return self.tree()


def real_tree(n):
    return (n.tag, n.text or None, n.tail or None, tuple(sorted(n.attrib.items())), tuple(real_tree(k) for k in n))


def inside(o, depth=0):
    """the whole state of a real element, whatever it consists of (states are only merged if the implementation can't tell them apart)"""
    if o is None or isinstance(o, (str, bytes, int, float)) or depth > 20:
        return o
    if isinstance(o, (list, tuple)):
        return tuple(inside(x, depth + 1) for x in o)
    if isinstance(o, dict):
        return tuple((k, inside(v, depth + 1)) for k, v in o.items())
    slots = [c.__dict__.get('__slots__', ()) for c in type(o).__mro__]
    names = [n for s in slots for n in ([s] if isinstance(s, str) else s)]
    attrs = [(n, inside(getattr(o, n), depth + 1)) for n in dict.fromkeys(names) if n not in ('__dict__', '__weakref__') and hasattr(o, n)]
    return (type(o).__name__, *attrs, *((n, inside(v, depth + 1)) for n, v in getattr(o, '__dict__', {}).items()))


def sort_tree(t):
    return t[:4] + (tuple(sorted((sort_tree(k) for k in t[4]), key=repr)),)


def build_native(etree, el):
    e = etree.Element(el.tag, dict(el.attrs))
    e.text, e.tail = el.text, el.tail
    for k in el.kids:
        e.append(build_native(etree, k))
    return e


class Mismatch(Exception):
    def __init__(self, got, want):
        self.got, self.want = got, want


def same(got, want):
    if got != want:
        raise Mismatch(got, want)


def found(real, model, cands, mode, step=True):
    """compares the element found with the candidates; returns the index"""
    if real is None:
        if cands:
            raise Mismatch(None, [model.kids[i].ident() for i in cands])
        return None
    tree = sort_tree(real_tree(real.to_native()))
    for i in cands:
        if sort_tree(model.kids[i].ident()) == tree:
            return i
    raise Mismatch(tree, [model.kids[i].ident() for i in cands])


# --------------------------------------------------------------------------------------------------------- operations

def read_ops(mode, SM):
    sm = SM(mode)
    ops = {}

    def op(name):
        return lambda f: ops.__setitem__(name, f)

    @op('pop_text')
    def _(m, r):
        same(r.pop_text(), m.text)
        m.text = None

    @op('pop_tail')
    def _(m, r):
        same(r.pop_tail(), m.tail)
        m.tail = None

    for a in ('x', 'y'):
        @op(f'pop_attrib({a})')
        def _(m, r, a=a):
            same(r.pop_attrib(a), m.attrs.pop(a, None))

        @op(f'get_attrib({a})')
        def _(m, r, a=a):
            same(r.get_attrib(a), m.attrs.get(a))

    @op('pop_attributes')
    def _(m, r):
        same(dict(r.pop_attributes() or {}), m.attrs)
        m.attrs = {}

    @op('pop_elements')
    def _(m, r):
        got = [sort_tree(real_tree(e.to_native())) for e in r.pop_elements()]
        want = [sort_tree(k.tree()) for k in m.kids]
        same(sorted(got, key=repr) if m.moved else got, sorted(want, key=repr) if m.moved else want)
        m.kids, m.free, m.pos, m.last, m.moved = [], [], 0, None, False

    def pop(tag, remove):
        def f(m, r):
            c = m.candidates(tag, mode)
            e = r.pop_element(tag, sm, remove=remove)
            i = found(e, m, c, mode)
            if i is not None:
                m.take(i, mode)
                if remove:
                    k = m.kids[i]
                    k.text = k.tail = None
                    k.attrs, k.kids, k.free, k.pos, k.last, k.moved = {}, [], [], 0, None, False
            return i
        return f

    def find(tag):
        def f(m, r):
            e = r.find_element(tag, sm)
            if m.last is not None and m.kids[m.last].tag == tag:
                same(e is not None and sort_tree(real_tree(e.to_native())), sort_tree(m.kids[m.last].tree()))
                return m.last
            i = found(e, m, m.candidates(tag, mode), mode)
            if i is not None:
                m.take(i, mode)
            return i
        return f

    def peek(tag):
        def f(m, r):
            c = m.candidates(tag, mode)
            i = found(r.find_element(tag, sm, look_behind=False, step_forward=False), m, c, mode)
            if i is not None:
                m.peeked(i, mode)
        return f

    def consume(tag, sub):
        """take an element and consume something of it"""
        def f(m, r):
            c = m.candidates(tag, mode)
            e = r.pop_element(tag, sm)
            i = found(e, m, c, mode)
            if i is not None:
                m.take(i, mode)
                ops[sub](m.kids[i], e)
        return f

    def path(p):
        def f(m, r):
            got = r.find_sub_element(list(p), sm)
            n = 0
            for tag in p:
                if m.last is not None and m.kids[m.last].tag == tag:
                    i = m.last
                    same(len(got) > n and sort_tree(real_tree(got[n].to_native())), sort_tree(m.kids[i].tree()))
                else:
                    i = found(got[n] if len(got) > n else None, m, m.candidates(tag, mode), mode)
                    if i is None:
                        break
                    m.take(i, mode)
                m = m.kids[i]
                n += 1
            same(len(got), n)
        return f

    for t in ('a', 'b', 'c'):
        ops[f'pop_element({t})'] = pop(t, False)
    ops['pop_element(a, remove)'] = pop('a', True)
    for t in ('a', 'b'):
        ops[f'find_element({t})'] = find(t)
        ops[f'peek({t})'] = peek(t)
    for t, s in (('a', 'pop_text'), ('a', 'pop_attrib(x)'), ('b', 'pop_attributes'), ('b', 'pop_elements'), ('a', 'pop_element(b)')):
        ops[f'consume({t}, {s})'] = consume(t, s)
    for p in (('a',), ('a', 'b'), ('b', 'a'), ('c', 'a')):
        ops[f'find_sub_element({"/".join(p)})'] = path(p)
    # snapshots: what is done to a discarded one has no effect, an applied one takes effect
    for name in ('pop_text', 'pop_tail', 'pop_attributes', 'pop_element(a)', 'consume(a, pop_text)', 'pop_elements', 'find_element(b)', 'pop_attrib(x)',
                 'find_sub_element(a/b)'):
        def discard(m, r, name=name):
            ops[name](copy.deepcopy(m), r.create_snapshot())

        def apply(m, r, name=name):
            s = r.create_snapshot()
            ops[name](m, s)
            r.apply_snapshot(s)

        def rollback(m, r, name=name):
            s = r.create_snapshot()
            ops[name](copy.deepcopy(m), r)
            r.apply_snapshot(s)
        ops[f'discarded({name})'] = discard
        ops[f'applied({name})'] = apply
        ops[f'undone({name})'] = rollback
    return ops


def write_ops(mode, SM):
    sm = SM(mode)
    ops = {}
    for v in ('1', '2'):
        def st(m, r, v=v):
            r.set_text(v)
            m.text = v
        ops[f'set_text({v})'] = st
        for a in ('x', 'y'):
            def sa(m, r, a=a, v=v):
                r.set_attribute(a, v)
                m.attrs[a] = v
            ops[f'set_attribute({a}, {v})'] = sa

    def sas(m, r):
        d = {'x': '7', 'z': '8'}
        r.set_attributes(d)
        d['w'] = '9'
        m.attrs = {'x': '7', 'z': '8'}
    ops['set_attributes'] = sas

    def append(tag, text):
        def f(m, r):
            e = r.make_element(tag, nsmap=None)
            same((e.tag, e.is_empty()), (tag, True))
            e.set_text(text)
            r.append_element(e)
            m.kids.append(El(tag, text))
            m.last = len(m.kids) - 1
            m.pos = len(m.kids)
        return f

    def create(tag, then=None):
        def f(m, r):
            e = r.find_element_or_create(tag, sm, nsmap=None)
            if m.last is not None and m.kids[m.last].tag == tag:
                k = m.kids[m.last]
            else:
                k = El(tag)
                m.kids.append(k)
                m.last = len(m.kids) - 1
                m.pos = len(m.kids)
            same(sort_tree(real_tree(e.to_native())), sort_tree(k.tree()))
            if then:
                ops[then](k, e)
        return f
    ops['append(a)'] = append('a', 'p')
    ops['append(b)'] = append('b', None)
    for t in ('a', 'b'):
        ops[f'find_element_or_create({t})'] = create(t)
        for then in ('set_text(1)', 'set_attribute(x, 2)', 'append(a)', 'find_element_or_create(b)'):
            ops[f'find_element_or_create({t}).{then}'] = create(t, then)
    return ops


# -------------------------------------------------------------------------------------------------------------- search

def leafs():
    """children: every one is different"""
    n = it.count()

    def el(tag, rich):
        i = next(n)
        return El(tag, f't{i}', f'u{i}' if rich else None, {'x': f'x{i}'} if rich else {'y': f'y{i}'},
                  [El('b', f'n{i}'), El('a', f'm{i}')] if rich else [])
    return el


def start(seq):
    el = leafs()
    return El('r', 'text', 'tail', {'x': '1', 'y': '2'}, [el(t, i % 2 == 0) for i, t in enumerate(seq)])


def jobs(tier, backend):
    n = 3 if tier == 'quick' else 4
    for mode in MODES:
        for k in range(n + 1):
            for seq in it.product('ab' if k > 2 else 'abc', repeat=k):
                yield 'read', mode, ''.join(seq)
        yield 'write', mode, 4 if tier == 'quick' else 5
        for seq in ('', 'a', 'ab', 'ba') if tier == 'quick' else ('', 'a', 'ab', 'ba', 'aab', 'aba'):
            yield 'rewrite', mode, seq


def ordered(t, m):
    """document order is kept wherever nothing has been brought forward"""
    if m.moved:
        return
    same([sort_tree(k) for k in t[4]], [sort_tree(k.tree()) for k in m.kids])
    for k, mk in zip(t[4], m.kids):
        ordered(k, mk)


def observe(m, r):
    """everything which can be seen without consuming"""
    nat = sort_tree(real_tree(r.to_native()))
    same(nat, sort_tree(m.tree()))
    ordered(real_tree(r.to_native()), m)
    got = sorted(((tuple(e.tag for e in p), a, v) for p, a, v in r.get_unbound()), key=repr)
    same(got, sorted(m.unbound(), key=repr))
    same(r.is_empty(), not (m.text or m.tail or m.attrs or m.kids))
    same(r.tag, m.tag)


def run(job, rep, tier, backend):
    from pydantic_xml.element import SearchMode
    from pydantic_xml.element.native import XmlElement, etree
    kind, mode, arg = job
    allowed = lambda m, name: True
    if kind == 'rewrite':
        # an element is emptied (after it has been read in any way) and written anew
        m0 = start(arg)
        r0 = XmlElement.from_native(build_native(etree, m0))
        native = None
        rd = {k: v for k, v in read_ops(mode, SearchMode).items() if '(c' not in k}
        wr = {k: v for k, v in write_ops(mode, SearchMode).items() if k in AGAIN}
        ops, depth = {**rd, **wr}, 5 if tier == 'quick' else 6

        def allowed(m, name):
            if name in ('pop_text', 'pop_attributes', 'pop_elements'):
                return True
            return (not m.kids or m.writing) if name in wr else not m.writing and (name in FIRST or not m.last and tier != 'quick')
    elif kind == 'read':
        m0 = start(arg)
        native = build_native(etree, m0)
        before = etree.tostring(native)
        r0 = XmlElement.from_native(native)
        ops, depth = read_ops(mode, SearchMode), (3 if tier == 'quick' or len(arg) > 2 else 4)
    else:
        m0, r0 = El('r'), XmlElement('r')
        native = None
        ops, depth = write_ops(mode, SearchMode), arg
    rep.programs += 1
    label = f'{kind} {mode} {arg}'
    try:
        observe(m0, r0)
    except Mismatch as e:
        rep.violation('the initial content of an element is wrong', program=label, got=repr(e.got), expected=repr(e.want))
        return
    seen = {(m0.key(), inside(r0))}
    frontier = [(m0, r0, ())]
    rep.states += 1
    for _ in range(depth):
        nxt = []
        for m, r, hist in frontier:
            for name, op in ops.items():
                if not allowed(m, name):
                    continue
                m2, r2 = copy.deepcopy((m, r))
                rep.transitions += 1
                rep.traces += 1
                try:
                    with G.budget(20):
                        op(m2, r2)
                        m2.writing = kind == 'rewrite' and name in wr or m2.writing and name != 'pop_elements'
                        observe(m2, r2)
                except Mismatch as e:
                    rep.violation(f'{name} does not behave as specified', program=label, history=list(hist + (name,)),
                                  doc=str(arg), got=repr(e.got), expected=repr(e.want))
                    return
                except G.Hang:
                    raise
                except Exception as e:
                    rep.violation(f'{name} fails: {type(e).__name__}: {e}', program=label, history=list(hist + (name,)), doc=str(arg))
                    return
                k = (m2.key(), inside(r2))
                if k not in seen:
                    seen.add(k)
                    rep.states += 1
                    nxt.append((m2, r2, hist + (name,)))
        frontier = nxt
        if not frontier:
            rep.count('fixpoint reached')
            break
    if native is not None and etree.tostring(native) != before:
        rep.violation('reading changes the native element', program=label, doc=before.decode(), got=etree.tostring(native).decode())
    rep.sample(f'{label}: {len(seen)} states')
