"""C24: a computed field is written exactly like an ordinary last field having its value and is never read."""
import dataclasses as dc
import itertools as it

from harness import engine as G
from harness import families as Fm
from harness import ref as R
from harness import spec as S
from harness.ref import Obj
from harness.spec import A, E, F, M, Mod, Opt, P, Prog, Seq, UNSET

INT, STR = P('int'), P('str')
PLACES = ('top', 'sub', 'list', 'union')
FORMS = ('def', 'property', 'cached', 'inherited', 'overriding', 'return_type', 'base_late', 'reused')
PARAMS = {'plain': {}, 'skip': dict(skip_empty=True), 'forbid': dict(extra='forbid'),
          'ns': dict(nsmap=(('', 'urn:d'), ('n', 'urn:n')), ns='n', ns_attrs=True)}
OPTS = [dict(zip(('skip_empty', 'exclude_none'), x)) for x in it.product((False, True), repeat=2)]


def jobs(tier, backend):
    n = 0
    for name in Fm.kind_names():
        for place in PLACES:
            for form in FORMS:
                for pn in PARAMS:
                    n += 1
                    if tier != 'quick' or (form == 'def' and place in ('top', 'sub')) or n % 2 == (backend == 'std'):
                        yield 'kind', name, place, form, pn
    for pn in PARAMS:
        for kind in ('elem', 'attr', 'list', 'model', 'dict', 'tuple', 'root'):
            for place in ('top', 'sub'):
                yield 'ns', kind, place, pn
    for mode in Fm.MODES:
        for k in range(16 if tier == 'quick' else 64):
            yield 'many', mode, k
    yield 'live',


def ordinary(f):
    """the field without everything which is about reading"""
    return dc.replace(f, default=UNSET, factory=None, valias=None, salias=None, annotated=False, strict_kwargs='', exclude=False, exclude_if=UNSET, computed=None)


def decorated(f, form, expr):
    """source of the computed counterpart of a field"""
    src = S.field_src(dc.replace(f, computed=expr))
    deco, rest = src.split('\n', 1)
    if form == 'property':
        return deco + '\n    @property\n' + rest
    if form == 'cached':
        return deco + '\n    @functools.cached_property\n' + rest
    if form == 'return_type':
        t = S.type_src(f.type)
        arg = f'return_type={t}'
        deco = deco[:-1] + f', {arg})' if deco.endswith(')') else deco + f'({arg})'
        return deco + '\n' + rest.replace(f' -> {t}:', ':')
    return src


def before():
    return (F('az', Opt(INT), A('az'), default=None), F('bz', Opt(STR), E('bz'), default=None))


def after_body():
    return ''


def top_of(place):
    z = F('z', Opt(INT), E('z'), default=None)
    if place == 'sub':
        return (F('h', M('H')), z), lambda o: Obj('T', dict(h=o, z=1))
    if place == 'list':
        return (F('h', Seq('list', M('H')), E('h')), z), lambda o: Obj('T', dict(h=[o, o], z=1))
    from harness.spec import Uni
    return (F('h', Uni((M('Other'), M('H')))), z), lambda o: Obj('T', dict(h=o, z=1))


OTHER = Mod('Other', (F('never', INT, E('never')), F('never2', INT, E('never2'))), tag='oth')


def build(ms, fs, place, params, raw):
    """programs with the fields `fs` in the holder: ordinary"""
    name = 'T' if place == 'top' else 'H'
    if raw:
        params = dict(params, config=(('arbitrary_types_allowed', True),))
    h = Mod(name, fs, tag='top' if place == 'top' else 'h', **params)
    if place == 'top':
        return Prog(tuple(ms) + (h,)), (lambda o: o), h
    flds, mk = top_of(place)
    extra = (OTHER,) if place == 'union' else ()
    return Prog(tuple(ms) + extra + (h, Mod('T', flds, tag='top', **params))), mk, h


def render(prog, h, body, form, fs):
    """source of `prog` with `body` added to the holder"""
    decl = {}
    for m in prog.models:
        for f in m.fields:
            S.helper_types(f.type, decl)
    late = {}
    for f in fs:
        S.helper_types(f.type, late)
    src = ['import functools', *decl.values()]
    late = [s for n, s in late.items() if n not in decl]
    for m in prog.models:
        if m.name != h.name:
            src.append(S.mod_src(m))
            continue
        src += late
        if form in ('inherited', 'base_late'):
            src.append(S.mod_src(dc.replace(m, name='Base', fields=() if form == 'base_late' else m.fields[:1])).replace('    pass\n', '') + body)
            rest = dc.replace(m, base='Base', fields=m.fields if form == 'base_late' else m.fields[1:])
            src.append(S.mod_src(rest))
        elif form == 'overriding':
            first = "".join(f'    @computed_attr(name="old{i}")\n    def {l.split("def ")[1].split("(")[0]}(self) -> int:\n        return 99\n'
                            for i, l in enumerate(l for l in body.split('\n') if 'def ' in l))
            src.append(S.mod_src(dc.replace(m, name='Base', fields=())).replace('    pass\n', '') + first)
            src.append(S.mod_src(dc.replace(m, base='Base')) + body)
        elif form == 'reused':
            # the very same decorators have been applied before
            out, n = [], 0
            for ln in body.split('\n'):
                if ln.startswith('    @'):
                    src.append(f'deco{n} = {ln[5:]}')
                    ln, n = f'    @deco{n}', n + 1
                out.append(ln)
            body = '\n'.join(out)
            src.append(S.mod_src(dc.replace(m, name='Pre', fields=())).replace('    pass\n', '') + body)
            src.append(S.mod_src(m) + body)
        else:
            src.append(S.mod_src(m) + body)
    return '\n'.join(src)


def run(job, rep, tier, backend):
    if job[0] == 'kind':
        _, name, place, form, pn = job
        base, vals, fields = Fm.build(('flat', (name,), Fm.freeze({})))
        if not fields or fields[0].noxml or fields[0].ent.kind == 'wrapped':
            return
        check(base.models[:-1], [fields[0]], [vals[0]], place, form, PARAMS[pn], f'{name} {place} {form} {pn}', rep, tier)
    elif job[0] == 'ns':
        _, kind, place, pn = job
        sub = Mod('Cs', (F('q', INT, A()), F('u', INT, E())), tag='cs')
        rt = Mod('Cr', (F('root', INT),), root=True, tag='cr')
        ms, t, vals = {
            'elem': ([], Opt(INT), [1, None]), 'attr': ([], Opt(INT), [1, None]), 'list': ([], Seq('list', INT), [[1, 2], []]),
            'model': ([sub], M('Cs'), [Obj('Cs', dict(q=1, u=2))]), 'dict': ([], S.Map(STR, INT), [{'k': 1}, {}]),
            'tuple': ([], S.Tup((INT, STR)), [(1, 'x')]), 'root': ([rt], M('Cr'), [Obj('Cr', {'root': 1})]),
        }[kind]
        own = dict(PARAMS[pn].get('nsmap') or ())
        for name, ns, nsmap, nil in it.product((None, 'nm'), (None, '', 'n', 'm'), (None, (('n', 'urn:n2'),), (('', 'urn:d2'), ('m', 'urn:m'))),
                                               (None, True, False)):
            if kind == 'attr' and (ns == '' or nsmap is not None or nil is not None) or (nil and kind != 'elem'):
                continue
            if ns is not None and ns not in {**own, **dict(nsmap or ())}:
                continue
            f = F('c', t, A(name, ns) if kind == 'attr' else E(name, ns, nsmap, nil))
            check(ms, [f], [vals], place, 'def', PARAMS[pn], f'ns {kind} {place} {pn} {name} {ns!r} {nsmap} {nil}', rep, tier)
    elif job[0] == 'many':
        _, mode, k = job
        names = Fm.kind_names()
        ms, fs, vs = [], [], []
        picked = [names[(k * 3 + j * 29 + k // 5) % len(names)] for j in range(3)]
        base, vals, fields = Fm.build(('flat', tuple(picked), Fm.freeze({'mode': mode})))
        for f, v in zip(fields, vals):
            if not f.noxml and f.ent.kind != 'wrapped' and not is_text(f):
                fs.append(f)
                vs.append(v)
        if fs:
            check(base.models[:-1], fs, vs, 'top', 'def', {'mode': mode}, f'{picked} {mode}', rep, tier)
    else:
        live(rep)


def is_text(f):
    return f.ent.kind is None


def check(ms, fs, vals, place, form, params, label, rep, tier):
    fs = [ordinary(f) for f in fs]
    raw = any(S.uses_raw(f.type) for f in fs)
    full, mk, h = build(ms, before() + tuple(fs), place, params, raw)
    full = Prog(full.models, label=label)
    without, _, h2 = build(ms, before(), place, params, raw)
    without = Prog(without.models, label=label)
    body = ''.join(decorated(f, form, f'VALUES[{f.name!r}]') for f in fs)
    src = render(without, h2, body, form, fs)
    ref = R.Ref(full)
    c = G.Case(without, rep, source=src)
    if not c.define():
        return
    c.ns['VALUES'] = {}
    docs = []
    n = max(len(v) for v in vals)
    for k in range(n):
        for az, bz in ((1, 'b'), (None, None)):
            cur = {f.name: v[k % len(v)] for f, v in zip(fs, vals)}
            cur = {a: G.complete(v, ref) for a, v in cur.items()}
            c.ns['VALUES'].clear()
            c.ns['VALUES'].update({a: G.to_real(v, c.ns, ref) for a, v in cur.items()})
            obj = G.complete(mk(Obj(h.name, {'az': az, 'bz': bz, **cur})), ref)
            real = c.build(G.complete(mk(Obj(h.name, {'az': az, 'bz': bz})), c.ref))
            if real is None:
                return
            for opts in OPTS:
                rep.states += 1
                rep.transitions += 1
                rep.traces += 1
                got, data = c.real_tree(real, **opts)
                want = ref.serialize(obj, **opts)
                if got != 'ok' or G.parse_output(data).key() != want.key():
                    ideal = ref.serialize(obj, quirks=False, **opts)
                    if got == 'ok' and G.parse_output(data).key() == ideal.key():
                        continue
                    rep.violation('a computed field is not written like an ordinary field', program=label, source=src, value=repr(real),
                                  kwargs=opts, got=data if got == 'ok' else f'{type(data).__name__}: {data}', expected=R.to_xml(want))
                    return
            docs.append(ref.serialize(obj, quirks=False))
    # reading: as if the field did not exist
    seen = set()
    for d in it.chain(docs, G.edits(docs[0]) if tier != 'quick' else list(G.edits(docs[0]))[len(label) % 3::3]):
        if d.key() not in seen:
            seen.add(d.key())
            rep.states += 1
            c.check_parse(d)
    rep.sample(f'{label}: {R.to_xml(docs[0])}')


LIVE = '''
import functools

class H(BaseXmlModel, tag='h'):
    v: int = attr()

    @computed_element(tag='dbl')
    def dbl(self) -> int:
        return self.v * 2

    @computed_attr(name='neg')
    @property
    def neg(self) -> int:
        return -self.v

    @computed_element(tag='once')
    @functools.cached_property
    def once(self) -> int:
        return self.v + 100

    @pydantic.computed_field
    def txt(self) -> str:
        return 't' * self.v

class D(H, tag='h'):
    w: int = attr(default=7)

    @computed_element(tag='dbl')
    def dbl(self) -> int:
        return self.w

class T(BaseXmlModel, tag='top'):
    one: H
    many: List[H] = element(tag='m')

    @computed_element(tag='sum')
    def total(self) -> int:
        return sum(m.v for m in self.many) + self.one.v

    @computed_element(tag='copy')
    def same(self) -> H:
        return self.one

    @computed_element(tag='all')
    def every(self) -> List[H]:
        return self.many

    @computed_attr
    def maybe(self) -> Optional[int]:
        return self.one.v if self.one.v > 1 else None
'''


def live(rep):
    """histories of changes: the document always shows the values at the time of writing"""
    ns = S.compile_prog(None, LIVE)
    H, T = ns['H'], ns['T']

    def tree_h(tag, h):
        v = h['v']
        return R.Node(tag, 't' * v, {'v': str(v), 'neg': str(-v)}, [R.Node('dbl', str(2 * v)), R.Node('once', str(h['once']))])

    def tree(st):
        one, many = st
        v = one['v'] + sum(m['v'] for m in many)
        at = {'maybe': str(one['v']) if one['v'] > 1 else ''}
        return R.Node('top', None, at, [tree_h('h', one)] + [tree_h('m', m) for m in many] + [R.Node('sum', str(v)), tree_h('copy', one)]
                      + [tree_h('all', m) for m in many])

    ops = ('one=2', 'one=3', 'many[0]=4', 'append', 'pop', 'replace', 'read')
    for hist in it.chain.from_iterable(it.product(ops, repeat=n) for n in range(5)):
        rep.states += 1
        rep.traces += 1
        t = T(one=H(v=1), many=[H(v=2)])
        one, many = {'v': 1}, [{'v': 2}]
        for op in hist + ('read',):
            rep.transitions += 1
            if op == 'one=2':
                t.one.v = one['v'] = 2
            elif op == 'one=3':
                t.one.v = one['v'] = 3
            elif op == 'many[0]=4' and many:
                t.many[0].v = many[0]['v'] = 4
            elif op == 'append':
                t.many.append(H(v=5))
                many.append({'v': 5})
            elif op == 'pop' and many:
                t.many.pop()
                many.pop()
            elif op == 'replace':
                t.one = H(v=6)
                one = {'v': 6}
            elif op == 'read':
                for h in [one] + many:
                    h.setdefault('once', h['v'] + 100)
                got = G.parse_output(t.to_xml())
                want = tree((one, many))
                if got.key() != want.key():
                    rep.violation('computed fields do not show the present values', program='live', source=LIVE, history=list(hist),
                                  got=R.to_xml(got), expected=R.to_xml(want))
                    return
    rep.sample(f'live: {rep.states} histories')
