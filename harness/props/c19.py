"""C19: custom xml serializers/validators replace the default handling of exactly the fields they are declared for."""
import itertools as it
import sys
import types
from dataclasses import replace

import pydantic as pd

from harness import engine as G
from harness import ref as R
from harness import spec as S
from harness.ref import Node, Obj, neutral
from harness.spec import A, E, F, M, Mod, Opt, P, Prog, Seq, Tag, Tup, Uni, W

INT, STR = P('int'), P('str')
SMOD = Mod('Sv', (F('v', INT, A()),), tag='sv')

# kind: (default declaration, encoder, decoder, type in the custom place, value -> custom value, custom value -> value, values)
KINDS = {
    'attr': (F('f', INT, A()), 'str(value)', 'raw', INT, lambda v: v, lambda v: v, (1, 22)),
    'elem': (F('f', INT, E()), 'str(value)', 'raw', INT, lambda v: v, lambda v: v, (1, 22)),
    'text': (F('f', INT), 'str(value)', 'raw', INT, lambda v: v, lambda v: v, (1, 22)),
    'wrapped': (F('f', INT, W('w', E('e'))), 'str(value)', 'raw', INT, lambda v: v, lambda v: v, (1,)),
    'default': (F('f', INT, E(), default=7), 'str(value)', 'raw', INT, lambda v: v, lambda v: v, (1, 7, 0)),
    'optional': (F('f', Opt(INT), E(), default=None), '"nil" if value is None else str(value)', 'int(raw) if raw.isdigit() else None', STR,
                 lambda v: 'nil' if v is None else str(v), lambda s: int(s) if s is not None and s.isdigit() else None, (1, 0, None)),
    'alias': (F('f', INT, E(), alias='fal'), 'str(value)', 'raw', INT, lambda v: v, lambda v: v, (1,)),
    'excluded': (F('f', INT, E(), default=7, exclude=True), 'str(value)', 'raw', INT, lambda v: v, lambda v: v, (1, 7)),
    'list': (F('f', Seq('list', INT), E()), '" ".join(map(str, value))', '[int(x) for x in raw.split() if x.isdigit()]', STR,
             lambda v: ' '.join(map(str, v)), lambda s: [int(x) for x in s.split() if x.isdigit()], ([1, 2, 3], [5])),
    'model': (F('f', M('Sv')), 'str(value.v)', '{"v": raw}', INT, lambda o: o.vals['v'], lambda n: Obj('Sv', {'v': n}), (Obj('Sv', {'v': 4}),)),
}
PLACES = ('attr', 'elem')
WHICH = ('ser', 'val', 'both')
WAYS = ('decorator', 'multi', 'annotated', 'inherited', 'inherited2', 'derived_hook', 'override_same', 'override_new', 'override_mid', 'override_annotated',
        'annotated_inherited', 'reannotated', 'multi3',
        'mixin', 'mixin_model', 'generic', 'future', 'rebuilt', 'rebuilt_annotated', 'create', 'sibling', 'static', 'split')
POSITIONS = ('top', 'sub', 'sub_elem', 'list', 'wrap', 'union', 'tagged', 'root', 'tuple', 'deep')
MODES = ('strict', 'ordered', 'unordered')


def write(kind, place, name):
    enc = KINDS[kind][1]
    if place == 'attr':
        return [f'element.set_attribute({name}, {enc})']
    return [f'sub = element.make_element({name}, nsmap=None)', f'sub.set_text({enc})', 'element.append_element(sub)']


def read(kind, place, name, cls):
    dec = KINDS[kind][2]
    if place == 'attr':
        return [f'raw = element.pop_attrib({name})', f'return None if raw is None else {dec}']
    return [f'sub = element.pop_element({name}, search_mode={cls}.__xml_search_mode__)',
            'raw = None if sub is None else sub.pop_text()', f'return None if raw is None else {dec}']


def hooks(kind, which, place, sfx='', prefix='c_', fields=('f',), ind='    ', static=False):
    args = ', '.join(map(repr, fields))
    out = []
    if which in ('ser', 'both'):
        out += [f'@xml_field_serializer({args})', f'def ser{sfx}(self, element, value, field_name):']
        out += ['    ' + ln for ln in write(kind, place, f'{prefix!r} + field_name')]
    if which in ('val', 'both'):
        out += [f'@xml_field_validator({args})']
        out += ['@classmethod'] if not static else []
        out += [f'def val{sfx}(cls, element, field_name):']
        out += ['    ' + ln for ln in read(kind, place, f'{prefix!r} + field_name', 'cls')]
    return ''.join(f'{ind}{ln}\n' for ln in out)


def functions(kind, which, place):
    out = ['def fser(model, element, value, field_name):'] + ['    ' + ln for ln in write(kind, place, '"c_" + field_name')]
    out += ['def fval(model, element, field_name):'] + ['    ' + ln for ln in read(kind, place, '"c_" + field_name', 'model')]
    return '\n'.join(out) + '\n'


def source(way, kind, which, place, mode):
    """(source of the classes, {class: which hooks it has})"""
    f = KINDS[kind][0]
    kw = f", tag='inn', search_mode={mode!r}"
    pre = S.field_src(F('a', INT, A()))
    post = S.field_src(F('z', Opt(INT), E(), default=None))
    fs = S.field_src(f)
    hk = hooks(kind, which, place)
    if way == 'decorator':
        return f'class In(BaseXmlModel{kw}):\n{pre}{fs}{post}{hk}', {}
    if way == 'static':
        return f'class In(BaseXmlModel{kw}):\n{hooks(kind, which, place, static=True)}{pre}{fs}{post}', {}
    if way == 'split':
        # one hook per method, the serializer in the base class, the validator in the derived one
        a = hooks(kind, 'ser', place) if which != 'val' else ''
        b = hooks(kind, 'val', place) if which != 'ser' else '    pass\n'
        return (f'class Base(BaseXmlModel{kw}):\n{pre}{fs}{post}{a}class In(Base):\n{b}',
                {'Base': {'val': None, 'ser': 'ser', 'both': 'ser'}[which]})
    if way in MULTI:
        names = MULTI[way]
        return (f'class In(BaseXmlModel{kw}):\n{pre}{fs}{post}{"".join(S.field_src(second(kind, n)) for n in names)}'
                + hooks(kind, which, place, fields=('f', *names))), {}
    if way in ('annotated_inherited', 'reannotated'):
        t = S.type_src(f.type)
        meta = (['XmlFieldSerializer(fser)'] if which != 'val' else []) + (['XmlFieldValidator(fval)'] if which != 'ser' else [])
        return (functions(kind, which, place)
                + f'class Base(BaseXmlModel{kw}):\n{pre}{fs.replace(f"f: {t}", f"f: Annotated[{t}, {chr(44).join(meta)}]", 1)}{post}'
                + 'class In(Base):\n' + (fs if way == 'reannotated' else '    pass\n')), {
                    'Base': which, **({'In': None} if way == 'reannotated' else {})}
    if way == 'annotated':
        t = S.type_src(f.type)
        meta = (['XmlFieldSerializer(fser)'] if which != 'val' else []) + (['XmlFieldValidator(fval)'] if which != 'ser' else [])
        return (functions(kind, which, place)
                + f'class In(BaseXmlModel{kw}):\n{pre}{fs.replace(f"f: {t}", f"f: Annotated[{t}, {chr(44).join(meta)}]", 1)}{post}'), {}
    if way == 'inherited':
        return f'class Base(BaseXmlModel{kw}):\n{pre}{fs}{post}{hk}class In(Base):\n    pass\n', {'Base': which}
    if way == 'inherited2':
        return (f'class Base(BaseXmlModel{kw}):\n{pre}{fs}{post}{hk}class Mid(Base):\n    pass\nclass In(Mid):\n    def other(self):\n'
                '        return 1\n', {'Base': which, 'Mid': which})
    if way == 'derived_hook':
        return f'class Base(BaseXmlModel{kw}):\n{pre}{fs}{post}class In(Base):\n{hk}', {'Base': None}
    if way in ('override_same', 'override_new', 'override_mid'):
        old = hooks(kind, which, place, sfx='' if way == 'override_same' else '_a', prefix='old_')
        new = hooks(kind, which, place, sfx='' if way == 'override_same' else '_0')
        mid = 'class Mid(Base):\n    pass\n' if way == 'override_mid' else ''
        return (f'class Base(BaseXmlModel{kw}):\n{pre}{fs}{post}{old}{mid}class In({"Mid" if mid else "Base"}):\n{new}',
                {'Base': (which, 'old_'), **({'Mid': (which, 'old_')} if mid else {})})
    if way == 'override_annotated':
        t = S.type_src(f.type)
        meta = (['XmlFieldSerializer(gser)'] if which != 'val' else []) + (['XmlFieldValidator(gval)'] if which != 'ser' else [])
        fn = functions(kind, which, place).replace('fser', 'gser').replace('fval', 'gval').replace('"c_"', '"old_"')
        return (fn + f'class Base(BaseXmlModel{kw}):\n{pre}{fs.replace(f"f: {t}", f"f: Annotated[{t}, {chr(44).join(meta)}]", 1)}{post}'
                + f'class In(Base):\n{hk}'), {'Base': (which, 'old_')}
    if way == 'mixin':
        return f'class Mix:\n{hk}class In(Mix, BaseXmlModel{kw}):\n{pre}{fs}{post}', {}
    if way == 'mixin_model':
        return (f'class Mix(BaseXmlModel):\n{hk}class Base(BaseXmlModel{kw}):\n{pre}{fs}{post}class In(Base, Mix{kw}):\n    pass\n',
                {'Base': None})
    if way == 'generic':
        t = S.type_src(f.type)
        return (f'TV = TypeVar("TV")\nclass Gen(BaseXmlModel, Generic[TV]{kw}):\n{pre}{fs.replace(f"f: {t}", "f: TV", 1)}{post}{hk}'
                'class In(Gen[' + t + ']):\n    pass\n'), {}
    if way == 'future':
        return f'class In(BaseXmlModel{kw}):\n' + ''.join(quoted(ln) for ln in (pre, fs, post)) + hk, {}
    if way in ('rebuilt', 'rebuilt_annotated'):
        t = S.type_src(f.type)
        ann, fn, h = f'"Later"', '', hk
        if way == 'rebuilt_annotated':
            meta = (['XmlFieldSerializer(fser)'] if which != 'val' else []) + (['XmlFieldValidator(fval)'] if which != 'ser' else [])
            ann, fn, h = f'Annotated["Later", {", ".join(meta)}]', functions(kind, which, place), ''
        return (fn + f'class In(BaseXmlModel{kw}):\n{pre}{fs.replace(f"f: {t}", f"f: {ann}", 1)}{post}{h}'
                f'Later = {t}\nIn.model_rebuild(_types_namespace={{"Later": {t}}})\n'), {}
    if way == 'create':
        t = S.type_src(f.type)
        dflt = fs.split(' = ', 1)[1].strip() if ' = ' in fs else '...'
        return (f'class Base(BaseXmlModel{kw}):\n{pre}    pass\n{hk}'
                f'In = create_model("In", __base__=Base, __module__=__name__, f=({t}, {dflt}), '
                'z=(Optional[int], element(default=None)))\n'), {}
    if way == 'sibling':
        return (f'class Base(BaseXmlModel{kw}):\n{pre}{fs}{post}class Sib(Base):\n{hooks(kind, which, place, prefix="sib_")}'
                f'class In(Base):\n{hk}class Sib2(Base):\n    pass\n'), {'Base': None, 'Sib': (which, 'sib_'), 'Sib2': None}
    raise AssertionError(way)


MULTI = {'multi': ('o',), 'multi3': ('o', 'p', 'q')}


def second(kind, name):
    """another field of the same type"""
    return F(name, KINDS[kind][0].type, E(2 * name), default=None if kind == 'optional' else S.UNSET)


def quoted(line):
    head, rest = line.split(': ', 1)
    if ' = ' in rest:
        t, d = rest.split(' = ', 1)
        return f'{head}: "{t}" = {d}'
    return f'{head}: "{rest.strip()}"\n'


def leaf(kind, which, place, mode, way, name='In', prefix='c_', side='ser'):
    """reference declaration as seen by serialization (`ser`) or parsing (`val`)"""
    f = KINDS[kind][0]
    if side != 'none' and which in (side, 'both'):
        ent = A(f'{prefix}f') if place == 'attr' else E(f'{prefix}f')
        f = F('f', KINDS[kind][3], ent, default=f.default, exclude=f.exclude)
    fields = (F('a', INT, A()), f, F('z', Opt(INT), E(), default=None))
    for n in MULTI.get(way, ()):
        o = second(kind, n)
        if side != 'none' and which in (side, 'both'):
            o = replace(o, type=KINDS[kind][3], ent=A(f'{prefix}{n}') if place == 'attr' else E(f'{prefix}{n}'))
        fields += (o,)
    return Mod(name, fields, tag='inn', mode=mode)


def nest(pos, inners, name='In'):
    """(models around, name of the top class, values, source)"""
    tail = F('t', Opt(INT), E(), default=None)
    alt = Mod('Alt', (F('alt', INT, E()),), tag='inn')
    if pos == 'top':
        return [], None, inners
    if pos == 'sub':
        return [Mod('Top', (F('s', M('In')), tail), tag='top')], 'Top', [Obj('Top', {'s': o, 't': 3}) for o in inners]
    if pos == 'sub_elem':
        return [Mod('Top', (F('s', Opt(M('In')), E('other'), default=None), tail), tag='top')], 'Top', [
            Obj('Top', {'s': o, 't': None}) for o in inners + [None]]
    if pos == 'list':
        return [Mod('Top', (F('s', Seq('list', M('In'))), tail), tag='top')], 'Top', [Obj('Top', {'s': inners, 't': 3})]
    if pos == 'wrap':
        return [Mod('Top', (F('s', M('In'), W('w', E('x'))), tail), tag='top')], 'Top', [Obj('Top', {'s': o, 't': 3}) for o in inners]
    if pos == 'union':
        return [alt, Mod('Top', (F('s', Uni((M('Alt'), M('In')))), tail), tag='top')], 'Top', [Obj('Top', {'s': o, 't': 3}) for o in inners]
    if pos == 'root':
        return [Mod('Rt', (F('root', M('In')),), root=True, tag='rt'), Mod('Top', (F('s', M('Rt')), tail), tag='top')], 'Top', [
            Obj('Top', {'s': Obj('Rt', {'root': o}), 't': 3}) for o in inners]
    if pos == 'tuple':
        return [Mod('Top', (F('s', Tup((M('In'), INT)), E('x')), tail), tag='top')], 'Top', [Obj('Top', {'s': (o, 1), 't': 3}) for o in inners]
    if pos == 'deep':
        return [Mod('Mid1', (F('m', M('In')),), tag='mid'), Mod('Top', (F('s', M('Mid1')), tail), tag='top')], 'Top', [
            Obj('Top', {'s': Obj('Mid1', {'m': o}), 't': 3}) for o in inners]
    raise AssertionError(pos)


def jobs(tier, backend):
    quick = tier == 'quick'
    n = 0
    for way in WAYS:
        for kind in KINDS:
            for which in WHICH:
                for place in PLACES:
                    for pos in POSITIONS:
                        if pos == 'tagged':
                            continue
                        n += 1
                        if quick and pos != 'top' and (n + n // 9) % 5 != 2 * (backend == 'std'):
                            continue
                        yield 'model', way, kind, which, place, pos, MODES[(n // 7) % 3]
    for way in ('decorator', 'inherited', 'derived_hook', 'override_same', 'override_new', 'annotated', 'generic', 'mixin'):
        for which in WHICH:
            for pos in ('top', 'sub'):
                yield 'root', way, which, pos
    for which in WHICH:
        for pos in ('top', 'sub'):
            for default in (None, 0, 5):
                yield 'value', which, pos, default


class Mapped:
    """converts between values of the program and of its reference declarations"""

    def __init__(self, kind, which, names):
        self.kind, self.names = kind, names

    def to_ref(self, v):
        if isinstance(v, Obj):
            vals = {k: self.to_ref(x) for k, x in v.vals.items()}
            if v.cls in self.names:
                vals.update({k: KINDS[self.kind][4](v.vals[k]) for k in ('f', 'o', 'p', 'q') if k in v.vals})
            return Obj(v.cls, vals, v.set)
        if isinstance(v, (list, tuple)):
            return type(v)(self.to_ref(x) for x in v)
        return v

    def from_ref(self, v):
        if isinstance(v, Obj):
            vals = {k: self.from_ref(x) for k, x in v.vals.items()}
            if v.cls in self.names:
                vals.update({k: KINDS[self.kind][5](v.vals[k]) for k in ('f', 'o', 'p', 'q') if k in v.vals})
                if self.kind == 'optional':
                    # a validator that returns nothing provides nothing
                    return Obj(v.cls, vals, {k for k in v.set if k not in ('f', 'o', 'p', 'q') or vals[k] is not None})
            return Obj(v.cls, vals, v.set)
        if isinstance(v, (list, tuple)):
            return type(v)(self.from_ref(x) for x in v)
        return v


def explore(rep, ns, src, label, kind, which, place, mode, way, pos, name='In', prefix='c_'):
    k = KINDS[kind]
    base = [SMOD] if kind == 'model' else []
    progs = {}
    for side in ('ser', 'val', 'none'):
        lf = leaf(kind, which, place, mode, way, 'In', prefix, side)
        inners = [Obj('In', {'a': 5, 'f': v, 'z': z, **{n: v for n in MULTI.get(way, ())}}) for v, z in zip(k[6], (None, 6, 7))]
        if k[0].default is not S.UNSET:
            inners.append(Obj('In', {'a': 5, 'f': k[0].default, 'z': 1, **{n: 3 for n in MULTI.get(way, ())}}, {'a', 'z', *MULTI.get(way, ())}))
        around, top, vals = nest(pos, inners)
        progs[side] = (Prog(tuple(base + [lf] + around), label), vals)
    cser, cval, cnone = (G.Case(progs[s][0], rep, source=src) for s in ('ser', 'val', 'none'))
    ns = dict(ns)
    ns['In'] = ns[name]
    cser.ns = cval.ns = cnone.ns = ns
    mp = Mapped(kind, which, ('In',))
    custom_ser, custom_val = which in ('ser', 'both'), which in ('val', 'both')
    docs = []
    for o in progs['none'][1]:
        real = cnone.build(o)
        if real is None:
            return
        for opts in ({}, {'exclude_unset': True}, {'skip_empty': True}, {'exclude_none': True}, {'exclude_none': True, 'skip_empty': True}):
            rep.states += 1
            cser.check_serialize(mp.to_ref(o) if custom_ser else o, real=real, **opts)
        docs.append(cval.ref.serialize(mp.to_ref(o) if custom_val else o, quirks=False))
        docs.append(cser.ref.serialize(mp.to_ref(o) if custom_ser else o, quirks=False))
    # parsing
    docs, _ = G.explore_docs(docs, 1)
    if pos != 'top':
        docs = docs[::2] if len(docs) > 120 else docs
    for d in docs:
        rep.states += 1
        rep.transitions += 1
        text = R.to_xml(d)
        got, val = cval.real_parse(text)
        hits = set()
        allowed = cval.ref.parses(d, hits=hits)
        ideal = cval.ref.parses(d, quirks=False) if hits else []
        if allowed is None or ideal is None:
            rep.unjudged += 1
            continue
        if got in ('exc', 'hang'):
            rep.violation('parsing neither returns an object nor raises a validation/parsing error', program=label, source=cval.src, doc=text,
                          got=f'{type(val).__name__}: {val}')
            continue
        rep.traces += 1
        mine = ('ok', neutral(val).__repr__().replace(f"'{name}'", "'In'")) if got == 'ok' else ('err',)
        want = [('ok', repr(neutral(mp.from_ref(x[1]) if custom_val else x[1]))) if x[0] == 'ok' else ('err',) for x in allowed + ideal]
        rep.count('accepted' if got == 'ok' else 'rejected')
        if mine not in want:
            rep.violation('a document is not bound to the model as declared', program=label, source=cval.src, doc=text,
                          got=repr(val) if got == 'ok' else f'{type(val).__name__}: {val}', expected=str(want[:2]))
            return


COUNTER = it.count()


def in_module(src):
    """the program lives in a module of its own (forward references are looked up there)"""
    S.compile_prog(None, '')
    name = f'verif_c19_{next(COUNTER)}'
    mod = types.ModuleType(name)
    sys.modules[name] = mod
    try:
        mod.__dict__.update({k: v for k, v in S._PRELUDE_NS.items() if k != '__name__'})
        exec(compile(src, '<program>', 'exec', dont_inherit=True), mod.__dict__)
    finally:
        sys.modules.pop(name)
    return mod.__dict__


def run(job, rep, tier, backend):
    if job[0] == 'root':
        return run_root(job, rep)
    if job[0] == 'value':
        return run_value(job, rep)
    _, way, kind, which, place, pos, mode = job
    label = '/'.join(job[1:])
    src, others = source(way, kind, which, place, mode)
    if kind == 'model':
        src = S.mod_src(SMOD) + src
    around, top, _ = nest(pos, [])
    src += ''.join(S.mod_src(m) for m in around)
    src = 'from pydantic_xml import XmlFieldSerializer, XmlFieldValidator\n' + src
    try:
        with G.budget(20):
            ns = in_module(src)
    except Exception as e:
        rep.violation(f'a legal model definition is rejected: {type(e).__name__}: {e}', program=label, source=S.PRELUDE + src)
        return
    rep.programs += 1
    explore(rep, ns, src, label, kind, others.pop('In', which), place, mode, way, pos)
    if pos == 'top':
        for name, h in others.items():
            prefix = 'c_'
            if isinstance(h, tuple):
                h, prefix = h
            explore(rep, ns, src, f'{label} [{name}]', kind, h, place, mode, way, 'top', name, prefix)
    rep.sample(label)


# ------------------------------------------------------------------------------------------------------ root models

def run_root(job, rep):
    _, way, which, pos = job
    label = '/'.join(job)

    def hk(prefix='c_', sfx=''):
        out = ''
        if which != 'val':
            out += f"    @xml_field_serializer('root')\n    def ser{sfx}(self, element, value, field_name):\n        element.set_text({prefix!r} + ' '.join(map(str, value)))\n"
        if which != 'ser':
            out += (f"    @xml_field_validator('root')\n    @classmethod\n    def val{sfx}(cls, element, field_name):\n"
                    f"        return [int(x) for x in (element.pop_text() or '').replace({prefix!r}, '').split() if x.isdigit()]\n")
        return out
    decl = '    root: List[int] = element("i")\n'
    fns = ("def fser(model, element, value, field_name):\n    element.set_text('c_' + ' '.join(map(str, value)))\n"
           "def fval(model, element, field_name):\n    return [int(x) for x in (element.pop_text() or '').replace('c_', '').split() if x.isdigit()]\n")
    meta = (['XmlFieldSerializer(fser)'] if which != 'val' else []) + (['XmlFieldValidator(fval)'] if which != 'ser' else [])
    src = {
        'decorator': f'class In(RootXmlModel, tag="inn"):\n{decl}{hk()}',
        'inherited': f'class Base(RootXmlModel, tag="inn"):\n{decl}{hk()}class In(Base):\n    pass\n',
        'derived_hook': f'class Base(RootXmlModel, tag="inn"):\n{decl}class In(Base):\n{hk()}',
        'override_same': f'class Base(RootXmlModel, tag="inn"):\n{decl}{hk("old_")}class In(Base):\n{hk()}',
        'override_new': f'class Base(RootXmlModel, tag="inn"):\n{decl}{hk("old_", "_a")}class In(Base):\n{hk("c_", "_0")}',
        'annotated': f'{fns}class In(RootXmlModel, tag="inn"):\n    root: Annotated[List[int], {", ".join(meta)}] = element("i")\n',
        'generic': f'TV = TypeVar("TV")\nclass Gen(RootXmlModel[TV], Generic[TV], tag="inn"):\n    root: TV = element("i")\n{hk()}class In(Gen[List[int]]):\n    pass\n',
        'mixin': f'class Mix:\n{hk()}class In(Mix, RootXmlModel, tag="inn"):\n{decl}',
    }[way]
    src = 'from pydantic_xml import XmlFieldSerializer, XmlFieldValidator\n' + src
    src += 'class Top(BaseXmlModel, tag="top"):\n    s: In\n    z: Optional[int] = element(default=None)\n'
    try:
        with G.budget(20):
            ns = S.compile_prog(None, src)
    except Exception as e:
        rep.violation(f'a legal model definition is rejected: {type(e).__name__}: {e}', program=label, source=S.PRELUDE + src)
        return
    rep.programs += 1
    for items in ([1], [1, 2, 3], [40, 5]):
        custom = f'<inn>c_{" ".join(map(str, items))}</inn>'
        default = '<inn>' + ''.join(f'<i>{i}</i>' for i in items) + '</inn>'
        obj = ns['In'](items)
        out, inp = (custom if which != 'val' else default), (custom if which != 'ser' else default)
        cls = ns['In']
        if pos == 'sub':
            obj = ns['Top'](s=obj, z=4)
            out, inp = (f'<top>{x}<z>4</z></top>' for x in (out, inp))
            cls = ns['Top']
        rep.states += 2
        rep.transitions += 2
        for what, fn, want in (('serialization', lambda: obj.to_xml(), out.encode()), ('parsing', lambda: cls.from_xml(inp), obj)):
            try:
                with G.budget(20):
                    got = fn()
            except Exception as e:
                got = f'{type(e).__name__}: {e}'
            rep.traces += 1
            if got != want:
                rep.violation(f'{what} of a root model with custom xml functions differs from what they do', program=label, source=S.PRELUDE + src,
                              doc=inp, got=repr(got), expected=repr(want))


def run_value(job, rep):
    """root models of values which may be empty, zero or absent"""
    _, which, pos, default = job
    label = '/'.join(map(str, job))
    hk = ''
    if which != 'val':
        hk += "    @xml_field_serializer('root')\n    def ser(self, element, value, field_name):\n        element.set_text(f'c{value}')\n"
    if which != 'ser':
        hk += ("    @xml_field_validator('root')\n    @classmethod\n    def val(cls, element, field_name):\n        raw = element.pop_text()\n"
               "        return None if raw is None else int(raw[1:])\n")
    src = (f'class In(RootXmlModel, tag="inn"):\n    root: Optional[int]{"" if default == 5 else f" = {default}"}{" = 5" if default == 5 else ""}\n{hk}'
           'class Top(BaseXmlModel, tag="top"):\n    s: In\n    z: Optional[int] = element(default=None)\n')
    try:
        with G.budget(20):
            ns = S.compile_prog(None, src)
    except Exception as e:
        rep.violation(f'a legal model definition is rejected: {type(e).__name__}: {e}', program=label, source=S.PRELUDE + src)
        return
    rep.programs += 1
    In, Top = ns['In'], ns['Top']

    def text(v, custom):
        inner = f'c{v}' if custom else '' if v is None else str(v)
        return f'<inn>{inner}</inn>' if inner else '<inn/>'

    for v in (0, 1, 5, -3, None):
        obj, out = In(v), text(v, which != 'val')
        checks = [('ser', opts, obj, out) for opts in ({}, {'exclude_none': True}, {'skip_empty': True, 'exclude_none': True})
                  if which != 'val' or v is not None]
        inp = text(v, which != 'ser' and v is not None)
        checks.append(('val', {}, In(v) if v is not None else In(), inp))
        for side, opts, obj, doc in checks:
            if pos == 'sub':
                obj, doc = Top(s=obj, z=4), f'<top>{doc}<z>4</z></top>'
            rep.states += 1
            rep.transitions += 1
            rep.traces += 1
            try:
                with G.budget(20):
                    got = R.node_of_native(obj.to_xml_tree(**opts)).key() if side == 'ser' else type(obj).from_xml(doc)
            except Exception as e:
                got = f'{type(e).__name__}: {e}'
            want = R.node_of_native(G.ET.fromstring(doc)).key() if side == 'ser' else obj
            if got != want:
                rep.violation('custom xml functions of a root model are not followed', program=label, source=S.PRELUDE + src, doc=doc,
                              kwargs=opts, got=repr(got), expected=repr(want))
