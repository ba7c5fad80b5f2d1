"""C17: however a model is written down (forward references, generics, create_model, ...), it means the same."""
import itertools as it
import sys
import textwrap
import types
from dataclasses import replace

from harness import engine as G
from harness import families as Fm
from harness import kinds as K
from harness import ref as R
from harness import spec as S
from harness.ref import Node, Obj
from harness.spec import A, E, F, M, Map, Mod, Opt, P, Prog, Seq, Tag, Tup, Uni, W, UNSET

WAYS = ('future', 'reversed', 'reversed_all', 'local', 'local_reversed', 'late_local', 'generic', 'generic_alias', 'generic_leaf', 'create', 'create_config', 'create_override', 'create_strings',
        'annotated', 'split', 'typealias', 'newtype', 'mixin', 'subclass', 'rebuild')
COUNTER = it.count()


class ModCase(G.Case):
    """the program lives in a module of its own (forward references are looked up there)"""

    def define(self):
        S.compile_prog(Prog((Mod('X'),), ''))
        self.modname = f'verif_c17_{next(COUNTER)}'
        mod = types.ModuleType(self.modname)
        sys.modules[self.modname] = mod
        ns = mod.__dict__
        ns.update({k: v for k, v in S._PRELUDE_NS.items() if k != '__name__'})
        try:
            with G.budget(self.cpu):
                exec(compile(self.source, '<program>', 'exec', dont_inherit=True), ns)
        except G.Hang:
            self.rep.violation('a legal model definition does not terminate', program=self.prog.label, source=self.src)
            return False
        except AssertionError as e:
            if self.prog.label.startswith('recursive tagged') and 'unexpected model serializer type' in str(e):
                self.rep.known_finding('recursive-discriminated-union', self.prog.label)
            else:
                self.rep.violation(f'a legal model definition is rejected: {e}', program=self.prog.label, source=self.src)
            return False
        except Exception as e:
            self.rep.violation(f'a legal model definition is rejected: {type(e).__name__}: {e}', program=self.prog.label,
                               source=self.src)
            return False
        self.ns = ns
        self.rep.programs += 1
        return True

    def close(self):
        sys.modules.pop(self.modname, None)


def pieces(prog):
    """helper types and model sources, in definition order"""
    seen, helpers, mods = set(), [], []
    for m in prog.models:
        decl = {}
        for f in m.fields:
            S.helper_types(f.type, decl)
        for name, src in decl.items():
            if name not in seen:
                seen.add(name)
                helpers.append((name, src, [k for k in (x.name for x in prog.models) if k in src]))
        mods.append((m, S.mod_src(m)))
    return helpers, mods


def field_parts(f):
    """(type source, value source) of a plain field"""
    src = S.field_src(replace(f, annotated=False)).strip()
    ann = src[len(f.name) + 1:].strip()
    t = S.type_src(f.type)
    if f.noxml:
        t = f'Annotated[{t}, NoXml]'
    assert ann.startswith(t), (ann, t)
    rest = ann[len(t):].strip()
    return t, rest[1:].strip() if rest.startswith('=') else None


def head(m, base=None):
    base = base or m.base or ('RootXmlModel' if m.root else 'BaseXmlModel')
    return ', '.join([base] + S.mod_kwargs(m))


def config(m):
    cfg = dict(m.config)
    if m.extra is not None:
        cfg['extra'] = m.extra
    if any(S.uses_raw(f.type) for f in m.fields):
        cfg['arbitrary_types_allowed'] = True
    return cfg


def config_src(m):
    cfg = config(m)
    return f'    model_config = ConfigDict({", ".join(f"{k}={v!r}" for k, v in cfg.items())})\n' if cfg else ''


def variant(prog, way):
    """another source of the same program (None: the way does not apply)"""
    helpers, mods = pieces(prog)
    top = prog.top.name
    plain = '\n\n'.join([h for _, h, uses in helpers if not uses]) + '\n\n'
    late = '\n\n'.join([h for _, h, uses in helpers if uses]) + '\n\n'
    if way == 'future':
        return 'from __future__ import annotations\n' + S.prog_src(prog, prelude=False)
    if way in ('reversed', 'reversed_all', 'local_reversed', 'late_local'):
        if any(uses for *_, uses in helpers):
            return None
        order, rest = [], list(reversed(mods))
        while rest:     # bases first, otherwise the other way round
            for x in rest:
                if x[0].base is None or x[0].base in [o[0].name for o in order]:
                    order.append(x)
                    rest.remove(x)
                    break
        if [o[0].name for o in order] == [m.name for m, _ in mods] and len(order) > 1:
            return None
        src = plain + '\n\n'.join(s for _, s in order)
        names = [m.name for m, _ in reversed(order)]
        if way == 'reversed_all':
            names = names + list(reversed(names))
        rebuilds = ''.join(f'{n}.model_rebuild()\n' for n in names)
        if way in ('reversed', 'reversed_all'):
            return 'from __future__ import annotations\n' + src + '\n\n' + rebuilds
        if way == 'local_reversed':
            body = src + '\n\n' + rebuilds + 'return locals()\n'
            return ('from __future__ import annotations\n\n\ndef make():\n' + textwrap.indent(body, '    ')
                    + '\n\nglobals().update(make())\n')
        # the root model is module level, what it refers to is defined later, inside of a function which completes it
        if order[0][0].name != top or len(order) == 1 or order[0][0].base:
            return None
        others = '\n\n'.join(s for _, s in order[1:])
        body = others + '\n\n' + rebuilds + 'return {k: v for k, v in locals().items()}\n'
        return ('from __future__ import annotations\n\n' + plain + order[0][1] + '\n\n\ndef make():\n' + textwrap.indent(body, '    ')
                + '\n\nglobals().update(make())\n')
    if way == 'local':
        body = S.prog_src(prog, prelude=False) + '\n\nreturn locals()\n'
        return ('from __future__ import annotations\n\n\ndef make():\n' + textwrap.indent(body, '    ')
                + '\n\nglobals().update(make())\n')
    if way in ('generic', 'generic_alias', 'generic_leaf', 'split', 'typealias', 'newtype', 'mixin', 'subclass', 'create', 'create_config', 'create_override', 'create_strings', 'rebuild'):
        out = []
        done = set()
        used = False
        for m, src in mods:
            decl = {}
            for f in m.fields:
                S.helper_types(f.type, decl)
            for n, s in decl.items():
                if n not in done:
                    done.add(n)
                    out.append(s)
            fields = [f for f in m.fields if f.computed is None]
            comp = ''.join(S.field_src(f) for f in m.fields if f.computed is not None)
            if way in ('generic', 'generic_alias'):
                if not fields or m.body:
                    out.append(src)
                    continue
                if way == 'generic_alias' and (m.name != top or comp):
                    out.append(src)
                    continue
                used = True
                tv = [f'TV{i}' for i in range(len(fields))]
                out.append('\n'.join(f'{v} = TypeVar({v!r})' for v in tv))
                body = config_src(m)
                for v, f in zip(tv, fields):
                    t, val = field_parts(f)
                    if f.noxml:
                        v = f'Annotated[{v}, NoXml]'
                    body += f'    {f.name}: {v}' + (f' = {val}' if val else '') + '\n'
                base = m.base or (f'RootXmlModel[{tv[0]}]' if m.root else 'BaseXmlModel')
                g = f'class {m.name}G({base}, Generic[{", ".join(tv)}]'
                kw = S.mod_kwargs(m)
                if way == 'generic_alias' and m.tag is None:
                    kw.append(f'tag={m.name!r}')
                out.append(g + ''.join(f', {k}' for k in kw) + f'):\n{body}{comp}')
                types_ = ', '.join(S.type_src(f.type) for f in fields)
                if way == 'generic_alias':
                    out.append(f'{m.name} = {m.name}G[{types_}]\n{m.name}.__name__ = {m.name!r}')
                else:
                    out.append(f'class {m.name}({m.name}G[{types_}]):\n    pass\n')
            elif way == 'generic_leaf':
                # every primitive inside of a field type is a parameter
                if m.body or not any(leaves(f.type) for f in fields):
                    out.append(src)
                    continue
                used = True
                tv, args, body = [], [], config_src(m)
                for f in fields:
                    t, val = field_parts(f)
                    mine = []
                    g = abstract(f.type, lambda p: (mine.append(p), f'TV{len(tv) + len(mine) - 1}')[1])
                    tv += [f'TV{len(tv) + i}' for i in range(len(mine))]
                    args += mine
                    g = f'Annotated[{g}, NoXml]' if f.noxml else g
                    body += f'    {f.name}: {g}' + (f' = {val}' if val else '') + '\n'
                    rootg = g
                base = m.base or (f'RootXmlModel[{rootg}]' if m.root else 'BaseXmlModel')
                out.append('\n'.join(f'{v} = TypeVar({v!r})' for v in tv))
                out.append(f'class {m.name}G({base}, Generic[{", ".join(tv)}]' + ''.join(f', {k}' for k in S.mod_kwargs(m))
                           + f'):\n{body}{comp}')
                out.append(f'class {m.name}({m.name}G[{", ".join(p.name for p in args)}]):\n    pass\n')
            elif way in ('create', 'create_config', 'create_override', 'create_strings'):
                if comp or m.body:
                    return None
                cfg = config(m)
                if way == 'create_config' and (m.root or not cfg):
                    cfg2 = None if m.root else {**cfg, 'title': 'some title'}
                else:
                    cfg2 = cfg
                if way == 'create_override':        # the configuration given takes precedence over the one of the base class
                    cfg2 = {**cfg, 'title': 'mine'}
                    other = {'title': 'other'}
                    if not m.root:
                        cfg2['extra'] = cfg.get('extra', 'ignore')
                        other['extra'] = 'forbid' if cfg2['extra'] == 'ignore' else 'ignore'
                    if 'arbitrary_types_allowed' in cfg:
                        other['arbitrary_types_allowed'] = False
                    base = m.base or ('RootXmlModel' if m.root else 'BaseXmlModel')
                    out.append(f'class {m.name}B({base}):\n    model_config = ConfigDict(**{other!r})\n')
                args = [repr(m.name), '__module__=__name__']
                for k, v in (('tag', m.tag), ('ns', m.ns), ('ns_attrs', m.ns_attrs), ('skip_empty', m.skip_empty),
                             ('search_mode', m.mode)):
                    if v is not None:
                        args.append(f'__{k}__={v!r}')
                if m.nsmap is not None:
                    args.append(f'__nsmap__={dict(m.nsmap)!r}')
                if m.base or m.root:
                    args.append(f'__base__={m.base or "RootXmlModel"}')
                if way == 'create_override':
                    args = [a for a in args if not a.startswith('__base__')] + [
                        f'__base__={m.name}B', f'__config__=ConfigDict(**{cfg2!r})']
                elif way == 'create_config' and cfg2:
                    args.append(f'__config__=ConfigDict({", ".join(f"{k}={v!r}" for k, v in cfg2.items())})')
                elif cfg:
                    # the configuration comes with a base class
                    out.append(f'class {m.name}B({m.base or ("RootXmlModel" if m.root else "BaseXmlModel")}):\n{config_src(m)}')
                    args = [a for a in args if not a.startswith('__base__')] + [f'__base__={m.name}B']
                for f in fields:
                    t, val = field_parts(f)
                    if way == 'create_strings':     # forward references, looked up in the module the model belongs to
                        t = repr(t)
                    args.append(f'{f.name}=({t}, {val or "..."})')
                out.append(f'{m.name} = create_model({", ".join(args)})')
                used = True
            elif way == 'split':
                # the entity comes with the annotation, everything else with the value
                body = config_src(m)
                for f in fields:
                    kws = [k for k in ('default', 'factory', 'alias', 'valias', 'salias', 'exclude') if
                           getattr(f, k) not in (UNSET, None, False)]
                    if f.ent.kind is None or f.noxml or f.strict_kwargs or not kws:
                        body += S.field_src(replace(f, annotated=f.ent.kind is not None and not f.noxml))
                        continue
                    used = True
                    bare = replace(f, default=UNSET, factory=None, alias=None, valias=None, salias=None, exclude=False)
                    t, val = field_parts(bare)
                    t2, val2 = field_parts(replace(f, ent=S.TEXT))
                    if not val2.startswith('Field('):
                        val2 = f'Field(default={val2})'
                    body += f'    {f.name}: Annotated[{t}, {val}] = {val2}\n'
                used = used or any(f.ent.kind for f in fields)
                out.append(f'class {m.name}({head(m)}):\n{body}{comp}{m.body}' or 'pass')
            elif way in ('typealias', 'newtype'):
                body = config_src(m)
                for f in fields:
                    t, val = field_parts(f)
                    if f.noxml or (way == 'newtype' and not isinstance(f.type, P)) or (way == 'newtype' and '[' in f.type.name):
                        body += S.field_src(f)
                        continue
                    used = True
                    n = f'{m.name}_{f.name}'
                    out.append(f'{n} = TypeAliasType({n!r}, {t})' if way == 'typealias' else f'{n} = NewType({n!r}, {t})')
                    body += f'    {f.name}: {n}' + (f' = {val}' if val else '') + '\n'
                out.append(f'class {m.name}({head(m)}):\n{body}{comp}{m.body}' + ('' if body + comp + m.body else '    pass\n'))
            elif way == 'mixin':
                # the fields come from an abstract base, the parameters from the model
                if m.base or m.root or not m.fields:
                    out.append(src)
                    continue
                used = True
                b = replace(m, name=m.name + 'Mix', tag=None, ns=None, nsmap=None, ns_attrs=None, skip_empty=None, mode=None)
                # prefixes must be known where they are used
                if m.nsmap:
                    b = replace(b, nsmap=m.nsmap)
                out.append(S.mod_src(b))
                out.append(f'class {m.name}({head(m, m.name + "Mix")}):\n    pass\n')
            elif way == 'subclass':
                # parameters and fields are inherited as a whole
                used = True
                out.append(S.mod_src(replace(m, name=m.name + 'Base')))
                out.append(f'class {m.name}({m.name}Base):\n    pass\n')
            elif way == 'rebuild':
                used = True
                out.append(src)
                out.append(f'{m.name}.model_rebuild()\n{m.name}.model_rebuild(force=True)')
        return '\n\n'.join(out) if used else None
    if way == 'annotated':
        p = replace(prog, models=tuple(replace(m, fields=tuple(
            replace(f, annotated=f.ent.kind is not None and f.computed is None and not f.noxml) for f in m.fields)) for m in prog.models))
        return S.prog_src(p, prelude=False)
    raise AssertionError(way)


def leaves(t):
    if isinstance(t, P):
        return True
    if isinstance(t, (Opt, Seq)):
        return leaves(t.item)
    if isinstance(t, (Tup, Uni)) and not getattr(t, 'named', None):
        return any(map(leaves, t.items))
    return isinstance(t, Map)


def abstract(t, var):
    if isinstance(t, P):
        return var(t)
    if isinstance(t, Opt):
        return f'Optional[{abstract(t.item, var)}]'
    if isinstance(t, Seq):
        return S.type_src(replace(t, item=P(abstract(t.item, var))))
    if isinstance(t, Tup) and not t.named:
        return S.type_src(replace(t, items=tuple(P(abstract(i, var)) for i in t.items)))
    if isinstance(t, Uni):
        return S.type_src(replace(t, items=tuple(P(abstract(i, var)) for i in t.items)))
    if isinstance(t, Map):
        return S.type_src(replace(t, key=P(abstract(t.key, var)), val=P(t.val.name if t.cls in ('Counter', 'DefaultDict') else abstract(t.val, var))))
    return S.type_src(t)


def params(n):
    return [Fm.freeze({**p, 'mode': Fm.MODES[(n + i) % 3]}) for i, p in enumerate(Fm.PARAMS.values())]


def jobs(tier, backend):
    quick = tier == 'quick'
    names = Fm.kind_names()
    for i, n in enumerate(names):
        for way in WAYS:
            for k, p in enumerate(params(i)):
                if quick and k not in (0, 1 + (i + WAYS.index(way)) % 7):
                    continue
                yield 'prog', ('flat', (n,), p), way
        for k, how in enumerate(Fm.NESTINGS):
            for w, way in enumerate(WAYS):
                if quick and (i + k + w) % 4 != 2 * (backend == 'std'):
                    continue
                yield 'prog', ('nest', how, (n,), Fm.freeze({'mode': Fm.MODES[(i + k + w) % 3]})), way
    if not quick:
        for i, p in enumerate(it.product(names, names)):
            if K.compatible(p):
                for w, way in enumerate(WAYS):
                    if (i + w) % 4 == 0:
                        yield 'prog', ('flat', p, Fm.freeze({'mode': Fm.MODES[i % 3]})), way
    n = 0
    for kind, (_, _, par) in MERGED.items():
        for form in MERGE_FORMS:
            for places in it.product(PLACES[form], repeat=len(par)):
                n += 1
                if quick and n % 2 != (backend == 'std'):
                    continue
                yield 'merge', kind, form, places
    for form in SHARED:
        for mode in Fm.MODES:
            yield 'shared', form, mode
    for shape in RECURSIVE:
        for mode in Fm.MODES:
            for form in ('module', 'local', 'late', 'self', 'subclass', 'rebuilt', 'inner'):
                for pn in (('plain', 'ns', 'dns', 'skip', 'forbid') if not quick or form in ('module', 'local') else ('plain', 'ns')):
                    yield 'rec', shape, mode, form, pn


# ------------------------------------------------------------------------------------------------- recursive models

INT = P('int')
RECURSIVE = {
    'opt': (Mod('Top', (F('v', INT, A()), F('n', Opt(M('Top')), E('n'), default=None))),),
    'list': (Mod('Top', (F('v', Opt(INT), E(), default=None), F('n', Seq('list', M('Top')), E('n'), factory='list'))),),
    'unnamed': (Mod('Top', (F('v', INT, A()), F('n', Opt(M('Top')), default=None)), tag='t'),),
    'wrapped': (Mod('Top', (F('v', INT, A()), F('n', Seq('list', M('Top')), W('w', E('n')), factory='list'))),),
    'tuple': (Mod('Top', (F('v', INT, A()), F('n', Opt(Tup((INT, M('Top')))), E('n'), default=None))),),
    'mutual': (Mod('Aa', (F('x', INT, A()), F('b', Opt(M('Top')), E('b'), default=None))),
               Mod('Top', (F('v', INT, A()), F('a', Seq('list', M('Aa')), E('a'), factory='list')))),
    # derived from a complete model, complete itself only later
    'derived': (Mod('Bs', (F('v', INT, A()),)),
                Mod('Top', (F('n', Opt(M('Top')), E('n'), default=None),), base='Bs')),
    'derived_mutual': (Mod('Bs', (F('x', INT, A()),)),
                       Mod('Aa', (F('b', Opt(M('Top')), E('b'), default=None),), base='Bs'),
                       Mod('Top', (F('a', Seq('list', M('Aa')), E('a'), factory='list'), F('v', INT, A())))),
    'union': (Mod('Lf', (F('x', INT, A()),)),
              Mod('Top', (F('v', Opt(INT), E(), default=None), F('n', Seq('list', Uni((M('Lf'), M('Top')))), E('n'), factory='list')))),
    'tagged': (Mod('Lf', (F('k', P("Literal['l']"), A()), F('x', INT, A()))),
               Mod('Top', (F('k', P("Literal['t']"), A()), F('n', Seq('list', Tag('k', (M('Lf'), M('Top')))), E('n'), factory='list')))),
    'root': (Mod('Rt', (F('root', Seq('list', M('Top')), E('n')),), root=True),
             Mod('Top', (F('v', INT, A()), F('r', Opt(M('Rt')), E('r'), default=None)))),
    'two': (Mod('Top', (F('l', Opt(M('Top')), E('l'), default=None), F('r', Opt(M('Top')), E('r'), default=None), F('v', INT, E()))),),
}


def rec_values(shape):
    t = lambda **k: Obj('Top', k)  # noqa: E731
    if shape in ('opt', 'unnamed', 'derived'):
        return [t(v=1), t(v=1, n=t(v=2)), t(v=1, n=t(v=2, n=t(v=3)))]
    if shape in ('list', 'wrapped'):
        return [t(v=1, n=[]), t(v=1, n=[t(v=2, n=[]), t(v=3, n=[t(v=4, n=[])])])]
    if shape == 'tuple':
        return [t(v=1, n=None), t(v=1, n=(5, t(v=2, n=(6, t(v=3, n=None)))))]
    if shape in ('mutual', 'derived_mutual'):
        a = lambda **k: Obj('Aa', k)  # noqa: E731
        return [t(v=1, a=[a(x=2, b=None), a(x=3, b=t(v=4, a=[a(x=5, b=None)]))])]
    if shape == 'union':
        return [t(v=1, n=[Obj('Lf', {'x': 1}), t(v=2, n=[Obj('Lf', {'x': 3})])])]
    if shape == 'tagged':
        lf = Obj('Lf', {'k': 'l', 'x': 1})
        return [t(k='t', n=[lf, t(k='t', n=[lf])])]
    if shape == 'root':
        return [t(v=1, r=Obj('Rt', {'root': [t(v=2, r=None), t(v=3, r=Obj('Rt', {'root': [t(v=4, r=None)]}))]}))]
    return [t(v=1, l=t(v=2, l=None, r=t(v=3, l=None, r=None)), r=t(v=4, l=None, r=None))]


def quote_models(src, names):
    for n in names:
        for pat in (f'[{n}]', f'[{n},', f', {n}]', f', {n},'):
            src = src.replace(pat, pat.replace(n, f"'{n}'"))
    return src


def rec_source(prog, form):
    src = S.prog_src(prog, prelude=False)
    names = [m.name for m in prog.models]
    rebuild = ''.join(f'{n}.model_rebuild()\n' for n in names)
    if form == 'module':
        return 'from __future__ import annotations\n' + src + '\n\n' + rebuild
    if form == 'local':
        return ('from __future__ import annotations\n\n\ndef make():\n' + textwrap.indent(src + '\n\n' + rebuild + 'return locals()\n', '    ')
                + '\n\nglobals().update(make())\n')
    if form == 'late':
        return quote_models(src, names) + '\n\n' + ''.join(f'{n}.model_rebuild()\n' for n in reversed(names))
    if form == 'self':      # a model which only refers to itself is complete on its own
        return quote_models(src, names) if len(names) == 1 else None
    if form == 'rebuilt':
        return quote_models(src, names) + '\n\n' + rebuild + ''.join(f'{n}.model_rebuild(force=True)\n' for n in names)
    if form == 'subclass':
        return None
    if form == 'inner':
        return ('from __future__ import annotations\n\n\ndef outer():\n    def make():\n'
                + textwrap.indent(src + '\n\n' + rebuild + 'return locals()\n', '        ')
                + '\n    return make()\n\n\nglobals().update(outer())\n')
    raise AssertionError(form)


# --------------------------------------------------------------------------- entities put together, entities used repeatedly

MAPPED = {'name': ('en', 'old'), 'ns': ('p', 'q'), 'nsmap': ({'p': 'urn:p2'}, {'p': 'urn:old', 'z': 'urn:z'}), 'nillable': (True, False)}
MERGED = {     # kind: (type, entity, parameters)
    'elem': (INT, 'element', ('name', 'ns', 'nsmap')),
    'nil': (Opt(INT), 'element', ('name', 'ns', 'nsmap', 'nillable')),
    'attr': (INT, 'attr', ('name', 'ns')),
    'list': (Seq('list', INT), 'element', ('name', 'ns', 'nsmap')),
    'model': (M('Sub'), 'element', ('name', 'ns', 'nsmap')),
    'dict': (Map(P('str'), INT), 'element', ('name', 'ns', 'nsmap')),
}
MERGE_FORMS = ('assign', 'stacked', 'alias', 'alias_stacked')
# where a parameter is given: nowhere, with the first entity, with the second one, with both (the second one prevails)
PLACES = {'assign': '-12', 'stacked': '-12b', 'alias': '-12', 'alias_stacked': '-12b'}


def merge_case(job):
    _, kind, form, places = job
    t, ent, par = MERGED[kind]
    one, two, eff = {}, {}, {}
    for p, pl in zip(par, places):
        good, old = MAPPED[p]
        if p == 'nillable' and pl == 'b':
            good, old = old, good
        if p == 'ns' and 'b' in places[2:3]:      # a prefix of the first map
            good = 'z'
        if pl == '1':
            one[p] = good
        if pl in '2b':
            two[p] = good
        if pl == 'b':
            one[p] = old
        if pl != '-':
            eff[p] = {**old, **good} if p == 'nsmap' and pl == 'b' else good

    def call(kw):
        kw = {('tag' if k == 'name' and ent == 'element' else k): v for k, v in kw.items()}
        return f'{ent}({", ".join(f"{k}={v!r}" for k, v in kw.items())})'
    sub = Mod('Sub', (F('v', INT, A()),))
    e = A(eff.get('name'), eff.get('ns')) if ent == 'attr' else E(
        eff.get('name'), eff.get('ns'), tuple(eff['nsmap'].items()) if 'nsmap' in eff else None, eff.get('nillable'))
    top = Mod('Top', (F('f', t, e), F('x', Opt(INT), E(), default=None)), tag='top', nsmap=(('p', 'urn:p'), ('q', 'urn:q')))
    prog = Prog((sub, top), f'merge {kind} {form} {"/".join(map("=".join, zip(par, places)))}')
    ts = S.type_src(t)
    decl = {'assign': f'f: Annotated[{ts}, {call(one)}] = {call(two)}', 'stacked': f'f: Annotated[{ts}, {call(one)}, {call(two)}]',
            'alias': f'f: Later = {call(two)}', 'alias_stacked': f'f: Annotated[Later, {call(two)}]'}[form]
    src = S.mod_src(sub) + f'\n\nLater = Annotated[{ts}, {call(one)}]\n\n\n'
    src += f'class Top({head(top)}):\n    {decl}\n' + S.field_src(top.fields[1])
    v = {'elem': 1, 'nil': 1, 'attr': 1, 'list': [1, 2], 'model': Obj('Sub', {'v': 1}), 'dict': {'k': 1}}[kind]
    objs = [Obj('Top', {'f': v, 'x': 2})] + ([Obj('Top', {'f': None, 'x': 2})] if kind == 'nil' else [])
    return prog, src, objs


SHARED = {     # declarations using one entity object repeatedly, what they stand for
    'fields': ("    a: int = ent\n    b: int = ent\n", (F('a', INT, E('x')), F('b', INT, E('x')))),
    'wrapped': ("    a: int = wrapped('v', ent)\n    b: int = wrapped('w', ent)\n", (F('a', INT, W('v', E('x'))), F('b', INT, W('w', E('x'))))),
    'wrapped_default': ("    a: Optional[int] = wrapped('v', ent, default=None)\n    b: int = wrapped('w', ent)\n",
                        (F('a', Opt(INT), W('v', E('x')), default=None), F('b', INT, W('w', E('x'))))),
    'wrapped_alias': ("    a: int = wrapped('v', att, alias='q')\n    b: int = wrapped('w', att)\n",
                      (F('a', INT, W('v', A()), alias='q'), F('b', INT, W('w', A())))),
    'both': ("    a: int = wrapped('v', ent)\n    b: int = ent\n", (F('a', INT, W('v', E('x'))), F('b', INT, E('x')))),
    'both2': ("    b: int = ent\n    a: int = wrapped('v', ent)\n", (F('b', INT, E('x')), F('a', INT, W('v', E('x'))))),
    'nested': ("    a: int = wrapped('v', wrp)\n    b: int = wrapped('y', wrp)\n    c: int = wrp\n",
               (F('a', INT, W('v', W('w', E('x')))), F('b', INT, W('y', W('w', E('x')))), F('c', INT, W('w', E('x'))))),
    'annotated': ("    a: Annotated[int, wrapped('v', ent)]\n    b: Annotated[int, ent]\n    c: Annotated[int, wrapped('w', ent)]\n",
                  (F('a', INT, W('v', E('x'))), F('b', INT, E('x')), F('c', INT, W('w', E('x'))))),
    'types': ("    a: int = ent\n    b: List[int] = ent\n", (F('a', INT, E('x')), F('b', Seq('list', INT), E('x')))),
    'named': ("    a: int = att\n    b: int = bare\n    c: int = wrapped('w', att)\n    d: int = wrapped('w', bare)\n",
              (F('a', INT, A()), F('b', INT, E()), F('c', INT, W('w', A())), F('d', INT, W('w', E())))),
}


def shared_case(job):
    _, form, mode = job
    body, fields = SHARED[form]
    others = (F('b', INT, E('o')), F('a', INT, A()))
    two = replace(Mod('Two', fields), tag='two', mode=mode)
    top = Mod('Top', fields + (F('t', Opt(M('Two')), E('two'), default=None),), tag='top', mode=mode)
    prog = Prog((two, top), f'shared entity {form} {mode}')
    src = ("ent = element('x')\natt = attr()\nbare = element()\nwrp = wrapped('w', ent)\n\n\n"
           f"class Two({head(two)}):\n{body}\n\nclass Top({head(top)}):\n{body}    t: Optional[Two] = element('two', default=None)\n")
    vals = {f.name: [3, 4] if isinstance(f.type, Seq) else i + 1 for i, f in enumerate(fields)}
    objs = [Obj('Top', {**vals, 't': None}), Obj('Top', {**vals, 't': Obj('Two', {k: v for k, v in vals.items()})})]
    return prog, src, objs


def run(job, rep, tier, backend):
    if job[0] == 'prog':
        _, fam, way = job
        prog, vals, fields = Fm.build(fam)
        try:
            src = variant(prog, way)
        except KeyError:
            src = None
        if src is None:
            rep.count('not applicable')
            return
        prog = replace(prog, label=f'{way}: {prog.label}')
        objs_fam = fam
        c = ModCase(prog, rep, source=src)
        objs = Fm.objects(objs_fam, c.ref, cap=4 if tier == 'quick' else 12)
    elif job[0] in ('merge', 'shared'):
        prog, src, objs = merge_case(job) if job[0] == 'merge' else shared_case(job)
        c = ModCase(prog, rep, source=src)
        objs = [G.complete(o, c.ref) for o in objs]
    else:
        _, shape, mode, form, pn = job
        mods = tuple(replace(m, mode=mode, **{k: v for k, v in Fm.PARAMS[pn].items() if k != 'extra' or not m.root})
                     for m in RECURSIVE[shape])
        prog = Prog(mods, f'recursive {shape} {mode} {form} {pn}')
        src = rec_source(prog, form)
        if src is None:
            rep.count('not applicable')
            return
        c = ModCase(prog, rep, source=src)
        objs = [G.complete(o, c.ref) for o in rec_values(shape)]
    try:
        if not c.define():
            return
        seeds = []
        for o in objs:
            rep.states += 1
            c.check_serialize(o)
            c.check_serialize(o, skip_empty=True, exclude_none=True)
            seeds.append(c.ref.serialize(o))
        docs, _ = G.explore_docs(seeds[:1] if job[0] == 'prog' and tier == 'quick' else seeds, 1)
        for d in docs + seeds:
            rep.states += 1
            c.check_parse(d)
        rep.sample(f'{prog.label}')
    finally:
        c.close()
