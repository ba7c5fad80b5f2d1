"""C25: the mypy plugin sees xml models the way pydantic's own plugin sees the corresponding pydantic models."""
import itertools as it
import os
import re
import subprocess
import sys
import tempfile

CONFIGS = {
    'plain': {},
    'typed': dict(init_typed=True),
    'forbid': dict(init_forbid_extra=True),
    'dynamic': dict(warn_required_dynamic_aliases=True),
    'untyped': dict(warn_untyped_fields=True),
    'all': dict(init_typed=True, init_forbid_extra=True, warn_required_dynamic_aliases=True, warn_untyped_fields=True),
}

ARGS = ('', 'default=1', 'default=...', 'default=None', 'default_factory=int', 'default_factory=None', "alias='al'", 'alias=VAR',
        "validation_alias='al'", "serialization_alias='al'", 'validation_alias=VAR', "alias='aa', validation_alias='al'",
        'frozen=True', 'frozen=False', 'strict=True', 'strict=False',
        "default=1, alias='al'", 'default=1, frozen=True', "alias='al', frozen=True", 'default=1, strict=True',
        "default_factory=int, validation_alias='al'", "default=1, alias=VAR", "description='d'", "default=1, description='d', gt=0")

FORMS = {
    'attr': '{px}attr({a})', 'attr_named': "{px}attr('nm'{ca})", 'attr_ns': "{px}attr(name='nm', ns='n'{ca})",
    'elem': '{px}element({a})', 'elem_named': "{px}element('tg'{ca})", 'elem_all': "{px}element(tag='tg', ns='n', nsmap={{'n': 'u'}}, nillable=True{ca})",
    'wrap': "{px}wrapped('p'{ca})", 'wrap_path': "{px}wrapped(path='p', ns='n'{ca})",
    'wrap_outer': "{px}wrapped('p', {px}element(){ca})", 'wrap_inner': "{px}wrapped('p', {px}element({a}))",
    'wrap_attr': "{px}wrapped('p', {px}attr('nm'{ca}), ns='n')", 'wrap_kw': "{px}wrapped('p', entity={px}element({a}))",
    'wrap_wrap': "{px}wrapped('p', {px}wrapped('q', {px}element({a})))", 'wrap_mid': "{px}wrapped('p', {px}wrapped('q', {px}attr(){ca}))",
    'field': 'pydantic.Field({a})', 'annotated': None,
}
STYLES = {'name': '', 'module': 'pydantic_xml.', 'fields': 'pydantic_xml.fields.', 'alias': 'px.'}
MODELS = {'': '', 'byname': 'populate_by_name=True', 'frozen': 'frozen=True', 'extra': "extra='forbid'", 'allow': "extra='allow'",
          'strict': 'strict=True'}
TYPES = ('int', 'Optional[int]')

HEAD = '''
from typing import Any, Annotated, Generic, List, Optional, TypeVar
import pydantic
{imports}
VAR = str()
ANY: Any = 1
T = TypeVar('T')
'''
XML = 'import pydantic_xml\nimport pydantic_xml as px\nfrom pydantic_xml import BaseXmlModel as Base, RootXmlModel as Root, attr, element, wrapped'
PLAIN = 'from pydantic import BaseModel as Base\nfrom pydantic import RootModel as Root\n'


def declare(form, style, args, xml):
    """right hand side of the field"""
    if not xml:
        return f'pydantic.Field({args})'
    return FORMS[form].format(px=STYLES[style], a=args, ca=', ' + args if args else '')


def uses(name, gen=False):
    """statements judged by the type checker"""
    return [f'{name}()', f'{name}(f=1)', f'{name}(al=1)', f'{name}(aa=1)', f"{name}(f='x')", f"{name}(al='x')", f'{name}(f=1, zz=2)', f'{name}(1)',
            f'{name}(f=None)', f'{name}(f=ANY).f = 2', f"{name}(f=ANY).f = 'x'", f'reveal_type({name}(f=ANY, al=ANY).f)', f'{name}(f=ANY).zz']


def cases(tier, part):
    """(label, class source with line structure independent of xml, uses)"""
    full = tier != 'quick'
    n = 0
    for form, args in it.product(FORMS, ARGS):
        if form == 'annotated':
            for cfg in MODELS:
                yield (form, 'name', args, cfg, 'int', 'own')
            continue
        for style, cfg, ty, how in it.product(STYLES, MODELS, TYPES, ('own', 'inherited', 'generic', 'second', 'class_kw')):
            varied = (style != 'name') + (cfg != '') + (ty != 'int') + (how != 'own')
            n += 1
            if varied <= 1 or full and varied == 2 and n % 3 == 0:
                yield (form, style, args, cfg, ty, how)
    yield ('root', '', '', '', 'int', 'root')


def source(cs, xml):
    lines = HEAD.format(imports=XML if xml else PLAIN).split('\n')
    marks = {}
    for i, (form, style, args, cfg, ty, how) in enumerate(cs):
        name = f'M{i}'
        label = f'{form} {style} ({args}) {cfg} {ty} {how}'
        conf = f'    model_config = pydantic.ConfigDict({MODELS[cfg]})' if cfg else '    pass'
        if how == 'root':
            lines += [f'class {name}(Root[int]):', '    pass']
        else:
            if form == 'annotated':
                ent = declare('elem', style, args, xml)
                field = f'    f: Annotated[{ty}, {ent}]'
            else:
                field = f'    f: {ty} = {declare(form, style, args, xml)}'
            kw = ", tag='t', ns='n', nsmap={'n': 'u'}, ns_attrs=True, skip_empty=True, search_mode='strict'" if xml else ''
            if how == 'own':
                lines += [f'class {name}(Base{kw if i % 3 == 0 else ""}):', conf, field]
            elif how == 'second':
                lines += [f'class {name}(Base):', conf, "    d: int = 3", field]
            elif how == 'inherited':
                lines += [f'class B{i}(Base):', conf, field, f'class {name}(B{i}{kw}):', '    g: int = 1']
            elif how == 'generic':
                lines += [f'class G{i}(Base, Generic[T]):', conf, field, '    t: Optional[T] = None', f'class {name}(G{i}[int]):', '    pass']
            elif how == 'class_kw':
                lines += [f'class {name}(Base, frozen=True{kw}):', conf, field]
        for u in ([f'{name}(1)', f'{name}()', f"{name}('x')", f'reveal_type({name}(1).root)'] if how == 'root' else uses(name)):
            lines.append(u)
            marks[len(lines)] = (label, u)
    return '\n'.join(lines) + '\n', marks


API = '''
from typing import List, Optional, Any, Dict
import pathlib
import pydantic
from pydantic_xml import *
import pydantic_xml

class S(BaseXmlModel, tag='s', ns='p', nsmap={'p': 'u'}, ns_attrs=True, skip_empty=True, search_mode='ordered'):
    v: int = attr()
    w: Optional[str] = element(default=None)

class T(BaseXmlModel, tag='t'):
    s: S
    l: List[S] = element(tag='l', default_factory=list)
    d: Dict[str, int] = wrapped('a/b', element('c'), default_factory=dict)

    @computed_attr  # type: ignore[prop-decorator]
    @property
    def ca(self) -> int:
        return 1

    @computed_attr(name='cb', ns='p')  # type: ignore[prop-decorator]
    @property
    def cb(self) -> int:
        return self.ca

    @computed_element(tag='ce', nsmap={'p': 'u'}, nillable=True)  # type: ignore[prop-decorator]
    @property
    def ce(self) -> Optional[int]:
        return None

    @computed_element  # type: ignore[prop-decorator]
    @property
    def cf(self) -> str:
        return 'x'

class R(RootXmlModel[List[int]]):
    root: List[int] = element('i')

T(s=S(v=1))                                         #? none
T(s=S(v=1, w='x'), l=[S(v=2)], d={'k': 1})          #? none
S(w='x')                                            #? Missing
S(v=1).v + 1                                        #? none
S(v=1).v + 'x'                                      #? Unsupported
reveal_type(S.from_xml(''))                         #? S
reveal_type(S.from_xml(b'', {'c': 1}))              #? S
reveal_type(S.from_xml_tree(ANY))                   #? S
reveal_type(T.from_xml('').s.v)                     #? int
reveal_type(T.from_xml('').l)                       #? list
reveal_type(T(s=S(v=1)).ca)                         #? int
reveal_type(T(s=S(v=1)).cb)                         #? int
reveal_type(T(s=S(v=1)).ce)                         #? int | None
reveal_type(T(s=S(v=1)).cf)                         #? str
reveal_type(R.from_xml('').root)                    #? list[int]
S(v=1).to_xml(skip_empty=True, exclude_none=True, exclude_unset=True)   #? none
S(v=1).to_xml_tree(skip_empty=True)                 #? none
S(v=1).to_xml(encoding='unicode')                   #? none
S(v=1).to_xml(skip_empty='x')                       #? Argument
S.from_xml()                                        #? Missing
'''


def jobs(tier, backend):
    parts = 2 if tier == 'quick' else 8
    for i, cfg in enumerate(CONFIGS):
        for part in range(parts):
            if (i + part) % 2 == (backend == 'std'):
                yield 'matrix', cfg, part, parts
    yield 'api', 'plain', 0, 1


def check_files(files, plugin, conf):
    """runs mypy; -> {file: {line: [messages]}}"""
    repo = os.environ.get('VERIF_REPO', '/repo')
    with tempfile.TemporaryDirectory(prefix='c25') as d:
        for n, s in files.items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(s)
        with open(os.path.join(d, 'mypy.ini'), 'w') as f:
            f.write(f'[mypy]\nplugins = {plugin}\nfollow_imports = silent\nignore_missing_imports = True\n'
                    f'mypy_path = {repo}\ncheck_untyped_defs = True\n[pydantic-mypy]\n'
                    + ''.join(f'{k} = {v}\n' for k, v in conf.items()))
        env = dict(os.environ, PYTHONPATH=repo, MYPYPATH=repo)
        p = subprocess.run([sys.executable, '-m', 'mypy', '--config-file', 'mypy.ini', '--no-error-summary', '--show-error-codes', '--no-color-output',
                            '--cache-dir', os.path.join(d, 'cache'), *files], cwd=d, env=env, capture_output=True, text=True, timeout=800)
    out = {n: {} for n in files}
    rest = []
    for line in p.stdout.splitlines():
        m = re.match(r'([\w.]+):(\d+): (\w+): (.*)', line)
        if m and m[1] in out:
            out[m[1]].setdefault(int(m[2]), []).append(f'{m[3]}: {m[4]}')
        else:
            rest.append(line)
    if p.returncode not in (0, 1) or rest:
        raise RuntimeError(f'mypy fails: {p.stderr[-2000:]} {rest[:5]}')
    return out


def norm(msgs, mod):
    return sorted(re.sub(r'\bplain\b|\bxml_\b', 'mod', m) for m in msgs)


def run(job, rep, tier, backend):
    what, cfg, part, parts = job
    if what == 'api':
        src = API.replace('import pydantic_xml\n', 'import pydantic_xml\nANY: Any = 1\n', 1)
        try:
            out = check_files({'api.py': src}, 'pydantic_xml.mypy', {})['api.py']
        except RuntimeError as e:
            rep.violation('the plugin makes mypy fail', program='api', source=src, got=str(e))
            return
        for i, line in enumerate(src.split('\n'), 1):
            got = ' '.join(out.get(i, []))
            want = line.rsplit('#? ', 1)[1] if '#? ' in line else 'none'
            rep.states += 1
            rep.transitions += 1
            rep.traces += 1
            ok = not got if want == 'none' else re.search(r'(?<!\w)' + re.escape(want) + r'(?!\w)', got) is not None
            if not ok:
                rep.violation('the public interface is typed differently', program='api', source=src, history=[line], got=got, expected=want)
        rep.programs += 1
        return
    cs = list(cases(tier, part))[part::parts]
    if tier == 'quick':     # every model in every other configuration
        cs = cs[list(CONFIGS).index(cfg) % 2::2]
    xml, marks = source(cs, True)
    plain, _ = source(cs, False)
    # the same plugin judges pydantic models as pydantic's own one does
    try:
        got = check_files({'xml_.py': xml, 'plain.py': plain}, 'pydantic_xml.mypy', CONFIGS[cfg])
    except RuntimeError as e:
        rep.violation('the plugin makes mypy fail', program=cfg, got=str(e))
        return
    want = check_files({'plain.py': plain}, 'pydantic.mypy', CONFIGS[cfg])['plain.py']
    rep.programs += len(cs)
    texts = (xml.split('\n'), plain.split('\n'))
    for line, (label, use) in marks.items():
        rep.states += 1
        rep.transitions += 2
        rep.traces += 1
        w = norm(want.get(line, []), 'plain')
        for mod in ('xml_', 'plain'):
            g = norm(got[mod + '.py'].get(line, []), mod)
            if g != w:
                rep.violation('an xml model is type checked differently than the same pydantic model' if mod == 'xml_' else
                              'the plugin changes how pydantic models are type checked', program=f'{cfg}: {label}', history=[use],
                              source='\n'.join(texts[mod == 'plain'][line - 20:line]), got=g, expected=w)
        rep.count('with errors' if w else 'without errors')
    rep.sample(f'{cfg}: {len(cs)} models, {len(marks)} statements, {sum(map(len, want.values()))} messages')
