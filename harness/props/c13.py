"""C13: an xml model is the pydantic model it declares: validation, hooks, context and encoding are pydantic's."""
import itertools as it
import xml.etree.ElementTree as ET

import pydantic as pd
import pydantic_core as pdc

from harness import engine as G
from harness import spec as S

# A form: how one field `x` of item type T is declared (xml / plain) and how raw data is laid out in the document.
# raw data: str (scalar), list of str, dict of str -> str; '@sub' marks sub-models, built first and handed over as objects.
FORMS = {
    'attr': ('x: {T} = attr({kw})', 'x: {T} = Field({kw})', 'scalar', lambda r: f'<T x="{r}"/>'),
    'elem': ('x: {T} = element({kw})', 'x: {T} = Field({kw})', 'scalar', lambda r: f'<T><x>{r}</x></T>'),
    'text': ('x: {T} = Field({kw})', 'x: {T} = Field({kw})', 'scalar', lambda r: f'<T>{r}</T>'),
    'ann': ('x: Annotated[{T}, element("y"), Field({kw})]', 'x: Annotated[{T}, Field({kw})]', 'scalar',
            lambda r: f'<T><y>{r}</y></T>'),
    'wrap_in': ('x: {T} = wrapped("w", element({kw}))', 'x: {T} = Field({kw})', 'scalar', lambda r: f'<T><w><x>{r}</x></w></T>'),
    'wrap_out': ('x: {T} = wrapped("w/v", attr("n"), {kw})', 'x: {T} = Field({kw})', 'scalar',
                 lambda r: f'<T><w><v n="{r}"/></w></T>'),
    'wrap_bare': ('x: {T} = wrapped("w", {kw})', 'x: {T} = Field({kw})', 'scalar', lambda r: f'<T><w>{r}</w></T>'),
    'opt': ('x: Optional[{T}] = element({kw})', 'x: Optional[{T}] = Field({kw})', 'scalar', lambda r: f'<T><x>{r}</x></T>'),
    'list': ('x: List[{T}] = element({kw})', 'x: List[{T}] = Field({kw})', 'list',
             lambda r: '<T>' + ''.join(f'<x>{i}</x>' for i in r) + '</T>'),
    'wlist': ('x: List[{T}] = wrapped("w", element({kw}))', 'x: List[{T}] = Field({kw})', 'list',
              lambda r: '<T><w>' + ''.join(f'<x>{i}</x>' for i in r) + '</w></T>'),
    'set': ('x: Set[{T}] = element({kw})', 'x: Set[{T}] = Field({kw})', 'list',
            lambda r: '<T>' + ''.join(f'<x>{i}</x>' for i in r) + '</T>'),
    'vtuple': ('x: Tuple[{T}, ...] = element({kw})', 'x: Tuple[{T}, ...] = Field({kw})', 'list',
               lambda r: '<T>' + ''.join(f'<x>{i}</x>' for i in r) + '</T>'),
    'tuple': ('x: Tuple[{T}, {T}] = element({kw})', 'x: Tuple[{T}, {T}] = Field({kw})', 'list',
              lambda r: '<T>' + ''.join(f'<x>{i}</x>' for i in r) + '</T>'),
    'dict': ('x: Dict[str, {T}] = element({kw})', 'x: Dict[str, {T}] = Field({kw})', 'dict',
             lambda r: '<T><x' + ''.join(f' {k}="{i}"' for k, i in r.items()) + '/></T>'),
    'sub': ('x: Sub = element({kw})', 'x: Sub = Field({kw})', 'sub', lambda r: f'<T><x v="{r}"/></T>'),
    'subs': ('x: List[Sub] = element({kw})', 'x: List[Sub] = Field({kw})', 'subs',
             lambda r: '<T>' + ''.join(f'<x v="{i}"/>' for i in r) + '</T>'),
    'rsub': ('x: RSub = element({kw})', 'x: RSub = Field({kw})', 'rsub', lambda r: f'<T><x>{r}</x></T>'),
    'gsub': ('x: GSub[{T}] = element({kw})', 'x: GSub[{T}] = Field({kw})', 'gsub', lambda r: f'<T><x v="{r}"/></T>'),
    'root': ('root: {T} = Field({kw})', 'root: {T} = Field({kw})', 'scalar', lambda r: f'<T>{r}</T>'),
    'rootattr': ('root: {T} = attr("n", {kw})', 'root: {T} = Field({kw})', 'scalar', lambda r: f'<T n="{r}"/>'),
    'rootlist': ('root: List[{T}] = element("x", {kw})', 'root: List[{T}] = Field({kw})', 'list',
                 lambda r: '<T>' + ''.join(f'<x>{i}</x>' for i in r) + '</T>'),
}
SUBFORMS = ('sub', 'subs', 'rsub', 'gsub')
ROOTFORMS = ('root', 'rootattr', 'rootlist')

# item types: expression, texts
TYPES = {
    'int': ('int', ['1', '12', 'z', ' 7 ', '']),
    'str': ('str', ['a', ' a ', 'abcdefgh', '']),
    'gt': ('Annotated[int, Field(gt=5)]', ['1', '6', 'z', '']),
    'len': ('Annotated[str, Field(min_length=2, max_length=4, pattern="^a")]', ['a', 'abc', 'abcde', 'bcd', '']),
    'strict': ('Annotated[str, Field(strict=True)]', ['a', '']),
    'enum': ('Color', ['red', 'z', '']),
    'float': ('float', ['1.5', 'nan', '']),
    'bool': ('bool', ['true', '0', 'z', '']),
    'date': ('dt.date', ['2024-02-29', 'z', '']),
    'before': ('Annotated[int, pydantic.BeforeValidator(log("B", lambda v: v + "0" if isinstance(v, str) else v))]', ['1', 'z', '']),
    'after': ('Annotated[int, pydantic.AfterValidator(log("A", lambda v: -v))]', ['1', 'z', '']),
    'wrapv': ('Annotated[int, pydantic.WrapValidator(wrapv)]', ['1', 'z', '']),
    'plain': ('Annotated[int, pydantic.PlainValidator(log("P", lambda v: len(v) if isinstance(v, str) else v))]', ['abc', '']),
    'two': ('Annotated[int, pydantic.BeforeValidator(log("B", lambda v: v)), pydantic.AfterValidator(log("A", boom))]',
            ['1', '13', 'z', '']),
    'ser': ('Annotated[int, pydantic.PlainSerializer(lambda v: "#%s" % v)]', ['1', '']),
    'serwrap': ('Annotated[int, pydantic.WrapSerializer(lambda v, h: "~%s" % h(v))]', ['1', '']),
    'serjson': ('Annotated[int, pydantic.PlainSerializer(lambda v: "j%s" % v, when_used="json")]', ['1', '']),
    'sernone': ('Annotated[int, pydantic.PlainSerializer(lambda v: None)]', ['1', '']),
    'serbool': ('Annotated[int, pydantic.PlainSerializer(lambda v: v > 5, return_type=bool)]', ['1', '9', '']),
    'serunless': ('Annotated[Optional[int], pydantic.PlainSerializer(lambda v: "u%s" % v, when_used="unless-none")]', ['1', '']),
}

FIELD_HOOKS = {
    'none': '',
    'before': '''
    @pydantic.field_validator(FN, mode="before")
    @classmethod
    def hb(cls, v, info):
        LOG.append(("hb", show(v), show(info.context), show(info.data), info.field_name, info.mode))
        return v
''',
    'after': '''
    @pydantic.field_validator(FN)
    @classmethod
    def ha(cls, v, info):
        LOG.append(("ha", show(v), show(info.context), show(info.data), info.field_name, info.mode))
        if isinstance(v, int) and v == 12: raise ValueError("twelve")
        return v
''',
    'wrap': '''
    @pydantic.field_validator(FN, mode="wrap")
    @classmethod
    def hw(cls, v, h, info):
        LOG.append(("hw<", show(v), show(info.context)))
        r = h(v)
        LOG.append(("hw>", show(r)))
        return r
''',
    'plain': '''
    @pydantic.field_validator(FN, mode="plain")
    @classmethod
    def hp(cls, v, info):
        LOG.append(("hp", show(v), show(info.context)))
        return v
''',
    'star': '''
    @pydantic.field_validator("*", mode="before")
    @classmethod
    def hs(cls, v, info):
        LOG.append(("h*", info.field_name, show(v)))
        return v
''',
    'replace': '''
    @pydantic.field_validator(FN, mode="after")
    @classmethod
    def hr(cls, v):
        return type(v)() if isinstance(v, (list, set, tuple, dict)) and not isinstance(v, tuple) else v
''',
    'ser': '''
    @pydantic.field_serializer(FN)
    def fs(self, v):
        return enc("s", v)
''',
    'serwrap': '''
    @pydantic.field_serializer(FN, mode="wrap")
    def fs(self, v, h):
        return enc("w", h(v))
''',
    'serinfo': '''
    @pydantic.field_serializer(FN, when_used="json")
    def fs(self, v, info):
        return enc(info.mode, v)
''',
    'serun': '''
    @pydantic.field_serializer(FN, when_used="json-unless-none")
    def fs(self, v):
        return enc("n", v)
''',
}

MODEL_HOOKS = {
    'none': '',
    'mbefore': '''
    @pydantic.model_validator(mode="before")
    @classmethod
    def mb(cls, v, info):
        LOG.append(("mb", show(v), show(info.context)))
        return v
''',
    'mreject': '''
    @pydantic.model_validator(mode="before")
    @classmethod
    def mr(cls, v):
        LOG.append(("mr", show(v)))
        if isinstance(v, dict) and v.get(FN) == "12": raise ValueError("no twelve")
        return v
''',
    'mafter': '''
    @pydantic.model_validator(mode="after")
    def ma(self, info):
        LOG.append(("ma", show(self), show(info.context), sorted(self.model_fields_set)))
        if getattr(self, FN) == 1: raise ValueError("one")
        return self
''',
    'mwrap': '''
    @pydantic.model_validator(mode="wrap")
    @classmethod
    def mw(cls, v, h, info):
        LOG.append(("mw<", show(v), show(info.context)))
        r = h(v)
        LOG.append(("mw>", show(r)))
        return r
''',
    'post': '''
    _p: int = pydantic.PrivateAttr(default=3)
    def model_post_init(self, ctx):
        LOG.append(("post", show(self), show(ctx)))
        self._p += 1
''',
    'init': '''
    def __init__(self, *a, **kw):
        LOG.append(("init",))
        super().__init__(*a, **kw)
''',
    'two': '''
    @pydantic.model_validator(mode="before")
    @classmethod
    def m1(cls, v):
        LOG.append(("m1", show(v)))
        return v
    @pydantic.model_validator(mode="before")
    @classmethod
    def m2(cls, v):
        LOG.append(("m2", show(v)))
        return v
    @pydantic.model_validator(mode="after")
    def m3(self):
        LOG.append(("m3", show(self)))
        return self
''',
    'mser': '''
    @pydantic.model_serializer(mode="wrap")
    def ms(self, h):
        d = h(self)
        return {k: enc("M", v) for k, v in d.items()} if isinstance(d, dict) else enc("M", d)
''',
}

KWARGS = {
    'none': ('', False), 'default': ('default=DEFAULT', True), 'factory': ('default_factory=lambda: DEFAULT', True),
    'factory_data': ('default_factory=lambda data: DEFAULT', True),
    'validate_default': ('default=DEFAULT, validate_default=True', True),
    'alias': ('alias="al"', False), 'valias': ('validation_alias="va"', False),
    'frozen': ('frozen=True', False), 'init_var': ('description="d", title="t", repr=False', False),
    'choice': ('validation_alias=pydantic.AliasChoices("x", "c1")', False),
}
CONFIGS = {
    'none': {}, 'strip': {'str_strip_whitespace': True}, 'lower': {'str_to_upper': True}, 'strict': {'strict': True},
    'vdefault': {'validate_default': True}, 'frozen': {'frozen': True}, 'enum': {'use_enum_values': True},
    'reval': {'revalidate_instances': 'always'}, 'num': {'coerce_numbers_to_str': True},
    'byname': {'populate_by_name': True}, 'noinf': {'allow_inf_nan': False}, 'maxlen': {'str_max_length': 3},
    'hide': {'hide_input_in_errors': True}, 'extraallow': {'extra': 'allow'},
}

HEAD = '''
LOG = []
def show(v):
    if isinstance(v, pydantic.BaseModel):
        return (type(v).__name__, {k: show(x) for k, x in v.__dict__.items()}, sorted(v.model_fields_set))
    if isinstance(v, dict):
        return {k: show(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((show(x) for x in v), key=repr)
    return repr(v)
def log(tag, fn):
    def f(v, info):
        LOG.append((tag, show(v), show(info.context)))
        return fn(v)
    return f
def boom(v):
    if v == 13: raise ValueError("13")
    return v
def wrapv(v, h, info):
    LOG.append(("W<", show(v), show(info.context)))
    r = h(v)
    LOG.append(("W>", show(r)))
    return r
def enc(tag, v):
    if isinstance(v, (list, tuple, set, frozenset)):
        return [enc(tag, i) for i in v]
    if isinstance(v, dict):
        return {k: enc(tag, i) for k, i in v.items()}
    if isinstance(v, pydantic.BaseModel):
        return v
    return "%s%s" % (tag, v)
GT = TypeVar('GT')
'''


def source(form, typ, fh, mh, kw, cfg, xml, subhook):
    decl = FORMS[form][0 if xml else 1]
    T = TYPES[typ][0]
    base, root = ('BaseXmlModel', 'RootXmlModel') if xml else ('pydantic.BaseModel', 'pydantic.RootModel')
    fn = '"root"' if form in ROOTFORMS else '"x"'
    kind = FORMS[form][2]
    default = {'scalar': 'DV', 'list': '[DV, DV]', 'dict': '{"k": DV}', 'sub': 'None', 'subs': '[]', 'rsub': 'None',
               'gsub': 'None'}[kind]
    if form == 'set':
        default = '{DV}'
    default = default.replace('DV', '"dv"')
    config = f'    model_config = ConfigDict({", ".join(f"{k}={v!r}" for k, v in CONFIGS[cfg].items())})\n' if CONFIGS[cfg] else ''
    src = HEAD.replace('DEFAULT', default)
    if form in SUBFORMS:
        ent = 'attr()' if xml else 'Field()'
        hook = (FIELD_HOOKS.get(subhook) or MODEL_HOOKS.get(subhook) or '')
        src += f'class Sub({base}):\n    v: {T} = {ent}\n{hook.replace("FN", repr("v"))}\n'
        src += f'class RSub({root}):\n    root: {T}\n{hook.replace("FN", repr("root"))}\n'
        src += f'class GSub({base}, Generic[GT]):\n    v: GT = {ent}\n{hook.replace("FN", repr("v"))}\n'
    src += f'class T({root if form in ROOTFORMS else base}):\n{config}    '
    src += decl.format(T=T, kw=KWARGS[kw][0].replace('DEFAULT', default)) + '\n'
    if form not in ROOTFORMS:
        src += f'    k: int = {"attr" if xml else "Field"}(default=0)\n'
    src += FIELD_HOOKS[fh].replace('FN', fn) + MODEL_HOOKS[mh].replace('FN', fn)
    return src


def combos(tier):
    base = ('none', 'none', 'none', 'none', 'none')     # fh mh kw cfg subhook
    axes = (list(FIELD_HOOKS), list(MODEL_HOOKS), list(KWARGS), list(CONFIGS),
            ['none', 'before', 'after', 'wrap', 'plain', 'mbefore', 'mafter', 'mwrap', 'post', 'ser', 'serwrap', 'mser'])
    seen = {base}
    yield base
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for idx in it.combinations(range(5), n):
            for vals in it.product(*[axes[i] for i in idx]):
                c = list(base)
                for i, v in zip(idx, vals):
                    c[i] = v
                if tuple(c) not in seen:
                    seen.add(tuple(c))
                    yield tuple(c)


def jobs(tier, backend):
    for i, job in enumerate(all_jobs(tier)):
        # every combination of two axes runs on one backend in the quick tier, on both in the thorough one
        if tier != 'quick' or sum(v != 'none' for v in job[2:]) <= 1 or i % 2 == (backend == 'std'):
            yield job


def all_jobs(tier):
    for form in FORMS:
        for c in combos(tier):
            fh, mh, kw, cfg, sh = c
            if sh != 'none' and form not in SUBFORMS:
                continue
            if sh in ('mreject',):
                continue
            if form in ROOTFORMS and (cfg == 'extraallow' or kw in ('alias', 'valias', 'choice', 'factory_data')):
                continue
            if form in SUBFORMS and ((mh == 'mser' and True) or fh in ('ser', 'serwrap', 'serinfo', 'serun')):
                continue        # encoding a sub-model as something else than an object is not a document any more
            if form in SUBFORMS and KWARGS[kw][1]:
                continue
            if form == 'rsub' and sh == 'mser':
                continue
            axes = sum(v != 'none' for v in c)
            types = list(TYPES) if axes <= 1 or tier != 'quick' else ['int', 'two']
            if tier != 'quick' and axes >= 2:
                types = ['int', 'two', 'before', 'ser'] if axes == 2 else ['two']
            for typ in types:
                hidden = ('plain' in (typ, fh, sh), typ.startswith('ser') or 'ser' in fh or sh in ('ser', 'serwrap'))
                if all(hidden):
                    continue        # a plain validator together with a serializer hides the type of the field: not supported
                yield form, typ, fh, mh, kw, cfg, sh


def layouts(form, texts):
    kind = FORMS[form][2]
    if kind in ('scalar', 'sub', 'rsub', 'gsub'):
        return [t for t in texts if t or kind in ('sub', 'gsub')] + [None]
    if kind in ('list', 'subs'):
        short = [t for t in texts if t or kind == 'subs'][:3]
        out = [[t] for t in short] + [[a, b] for a in short for b in short] + [[short[0]] * 3, None]
        return out
    out = [{'k': t} for t in texts] + [{'k': a, 'l': texts[0]} for a in texts] + [{}, None]
    return out


def errors(e, prefix=()):
    out = []
    for x in e.errors(include_url=False, include_context=False):
        msg = x['msg']
        if msg.startswith('[line '):
            msg = msg.split(']: ', 1)[1]
        out.append((x['type'], tuple(prefix) + tuple(x['loc']), msg))
    return sorted(out, key=repr)


def plain_parse(ns, form, raw, kw, ctx):
    """what pydantic makes of the raw data"""
    kind = FORMS[form][2]
    key = {'alias': 'al', 'valias': 'va'}.get(kw, 'x')
    T = ns['T']
    data = raw
    if raw is not None and kind in ('sub', 'subs', 'rsub', 'gsub'):
        cls = ns['RSub'] if kind == 'rsub' else ns['Sub']
        if kind == 'gsub':
            cls = T.model_fields['x'].annotation
        mk = (lambda r: cls.model_validate(r, context=ctx)) if kind == 'rsub' else \
            (lambda r: cls.model_validate({'v': r}, context=ctx))
        if kind == 'subs':
            data, errs = [], []
            for i, r in enumerate(raw):
                try:
                    data.append(mk(r))
                except pd.ValidationError as e:
                    errs += errors(e, (key, i))
            if errs:
                return 'err', sorted(errs, key=repr)
        else:
            try:
                data = mk(raw)
            except pd.ValidationError as e:
                return 'err', errors(e, (key,))
    try:
        if form in ROOTFORMS:
            return 'ok', T.model_validate(pdc.PydanticUndefined if raw is None else data, strict=False, context=ctx)
        return 'ok', T.model_validate({} if raw is None else {key: data}, strict=False, context=ctx)
    except pd.ValidationError as e:
        return 'err', errors(e)
    except Exception as e:
        return 'exc', type(e).__name__


def expected_doc(form, enc, value):
    """lays the pydantic encoding out"""
    def t(v):
        return '' if v is None else str(v).lower() if isinstance(v, bool) else str(v)

    root = ET.Element('T')
    kind = FORMS[form][2]
    if form in ROOTFORMS:
        x = enc
    else:
        x = enc['x']
        root.set('k', t(enc['k']))
    if form == 'attr':
        root.set('x', t(x))
    elif form in ('text', 'root'):
        root.text = t(x)
    elif form == 'rootattr':
        root.set('n', t(x))
    elif form in ('elem', 'opt'):
        ET.SubElement(root, 'x').text = t(x)
    elif form == 'ann':
        ET.SubElement(root, 'y').text = t(x)
    elif form.startswith('wrap') and value is None:
        pass
    elif form == 'wrap_in':
        ET.SubElement(ET.SubElement(root, 'w'), 'x').text = t(x)
    elif form == 'wrap_bare':
        ET.SubElement(root, 'w').text = t(x)
    elif form == 'wrap_out':
        ET.SubElement(ET.SubElement(root, 'w'), 'v').set('n', t(x))
    elif kind == 'list':
        w = ET.SubElement(root, 'w') if form == 'wlist' else root
        for i in x:
            ET.SubElement(w, 'x').text = t(i)
    elif kind == 'dict':
        el = ET.SubElement(root, 'x')
        for k, i in x.items():
            el.set(k, t(i))
    elif kind in ('sub', 'gsub'):
        ET.SubElement(root, 'x').set('v', t(x['v']))
    elif kind == 'rsub':
        ET.SubElement(root, 'x').text = t(x)
    elif kind == 'subs':
        for i in x:
            ET.SubElement(root, 'x').set('v', t(i['v']))
    return root


def norm(el):
    return (el.tag, el.text or '', tuple(sorted(el.attrib.items())), tuple(norm(k) for k in el))


def run(job, rep, tier, backend):
    form, typ, fh, mh, kw, cfg, sh = job
    label = ' '.join(job)
    try:
        plain = S.compile_prog(None, source(form, typ, fh, mh, kw, cfg, False, sh))
    except Exception as e:
        rep.count('rejected by pydantic')
        return
    src = source(form, typ, fh, mh, kw, cfg, True, sh)
    try:
        real = S.compile_prog(None, src)
    except Exception as e:
        rep.violation(f'a legal model definition is rejected: {type(e).__name__}: {e}', program=label, source=src)
        return
    rep.programs += 1
    _, texts = TYPES[typ]
    layout = FORMS[form][3]
    for raw in layouts(form, texts):
        doc = '<T/>' if raw is None else layout(raw)
        if kw == 'alias':       # the alias names the entity, too, unless it has a name
            doc = doc.replace('<x', '<al').replace('</x', '</al').replace(' x=', ' al=') \
                if form in ('attr', 'elem', 'opt', 'list', 'wlist', 'set', 'vtuple', 'tuple', 'dict', 'sub', 'subs', 'rsub',
                            'gsub', 'wrap_in') else doc
        if raw == {} and form == 'dict':
            pass
        for ctx in (None, {'c': 1}):
            rep.states += 1
            rep.transitions += 1
            r = raw
            if r is not None and isinstance(r, list) and not r:
                r = None
            if form == 'tuple' and isinstance(r, list):
                r = (r + [None, None])[:2]
            if FORMS[form][2] == 'scalar' and r == '' and form not in ('attr', 'wrap_out', 'rootattr'):
                r = None
            if FORMS[form][2] == 'rsub' and r == '':
                r = None
            plain['LOG'].clear()
            real['LOG'].clear()
            want, wv = plain_parse(plain, form, r, kw, ctx)
            try:
                with G.budget(20):
                    got, gv = 'ok', real['T'].from_xml(doc, context=ctx)
            except G.Hang:
                got, gv = 'hang', None
            except pd.ValidationError as e:
                got, gv = 'err', errors(e)
            except Exception as e:
                got, gv = 'exc', type(e).__name__
            rep.traces += 1
            rep.count('accepted' if got == 'ok' else 'rejected')
            info = dict(program=label, source=src, doc=doc, kwargs={'context': ctx})
            if got != want or (got != 'ok' and gv != wv):
                rep.violation('validation differs from the one of the pydantic model', got=f'{got} {gv}', expected=f'{want} {wv}',
                              **info)
                continue
            if real['LOG'] != plain['LOG']:
                rep.violation('hooks are called differently', got=str(real['LOG']), expected=str(plain['LOG']), **info)
                continue
            if got != 'ok':
                continue
            g = (plain['show'](gv), gv.__pydantic_private__, gv.model_extra)
            w = (plain['show'](wv), wv.__pydantic_private__, wv.model_extra)
            if repr(g) != repr(w):
                rep.violation('the object differs from the one pydantic validates', got=str(g), expected=str(w), **info)
                continue
            try:
                enc = pdc.to_jsonable_python(wv, by_alias=False)
            except Exception:
                continue
            rep.transitions += 1
            dumps = (gv.model_dump_json(by_alias=False), repr(gv.model_dump(by_alias=True)))
            wdumps = (wv.model_dump_json(by_alias=False), repr(wv.model_dump(by_alias=True)))
            if dumps != wdumps and form != 'set':
                rep.violation('the object is dumped differently from the pydantic one', got=str(dumps), expected=str(wdumps), **info)
            if ctx is None:
                try:
                    with G.budget(20):
                        out = ET.fromstring(gv.to_xml())
                except G.Hang:
                    rep.violation('serialization does not terminate', **info)
                    continue
                except Exception as e:
                    rep.violation(f'serialization fails: {type(e).__name__}: {e}', **info)
                    continue
                rep.traces += 1
                value = gv.root if form in ROOTFORMS else gv.x
                exp = expected_doc(form, enc, value)
                if kw == 'alias' and form not in ('ann',) + ROOTFORMS:
                    for el in exp.iter():
                        if el.tag == 'x':
                            el.tag = 'al'
                        if 'x' in el.attrib:
                            el.set('al', el.attrib.pop('x'))
                if norm(out) != norm(exp) and form != 'set':
                    rep.violation('the document does not carry the pydantic encoding', got=ET.tostring(out).decode(),
                                  expected=ET.tostring(exp).decode(), **info)
    rep.sample(label)
