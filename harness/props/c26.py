"""C26: every primitive type is written and read as pydantic writes and reads it, wherever it stands in the document."""
import itertools as it
import json

import pydantic as pd

from harness import engine as G
from harness import ref as R
from harness import spec as S
from harness.ref import Node

PRE = '''\
import re
from pydantic import *
from pydantic.functional_validators import *
from pydantic.functional_serializers import *
from typing_extensions import TypeAliasType


class StrE(str, enum.Enum):
    A = 'a'
    B = 'b c'


class Fl(enum.Flag):
    X = 1
    Y = 2


UserId = NewType('UserId', int)
Alias = TypeAliasType('Alias', int)


def up(x):
    return x.upper() if isinstance(x, str) else x


Before = Annotated[str, BeforeValidator(up)]
After = Annotated[int, AfterValidator(lambda x: x + 1)]
Wrap = Annotated[int, WrapValidator(lambda v, h: h(v.strip('#') if isinstance(v, str) else v))]
PlainSer = Annotated[int, PlainSerializer(lambda x: f'<{x}>', return_type=str)]
WrapSer = Annotated[float, WrapSerializer(lambda x, h: f'{h(x)}%', return_type=str)]
JsonSer = Annotated[int, PlainSerializer(lambda x: x * 2, return_type=int, when_used='json')]


class Arb:
    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return type(other) is Arb and other.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f'Arb({self.v!r})'

    @classmethod
    def make(cls, v):
        if isinstance(v, str):
            if not v.startswith('arb '):
                raise ValueError('not an arb')
            return cls(v[4:])
        return v

    @classmethod
    def __get_pydantic_core_schema__(cls, source, handler):
        from pydantic_core import core_schema as cs
        return cs.no_info_before_validator_function(cls.make, cs.is_instance_schema(cls), serialization=cs.to_string_ser_schema())

    def __str__(self):
        return f'arb {self.v}'

'''

# type -> (values as source, texts specific to the type)
TYPES = {
    'int': ('0, 1, -7, 10**30', '0 -0 +1 1.0 1.5 1e3 0x10 1_000 ٣ 00'),
    'float': '0.0, -0.0, 1.5, 1e300, 1e-300, 123456789.123456789, 0.1, 100.0, float("inf"), float("-inf"), float("nan")',
    'str': '"x", " x ", "a b", "True", "1", "é<>&", "None"',
    'bool': 'True, False',
    'bytes': 'b"x", b"a b", "é".encode()',
    'decimal.Decimal': 'decimal.Decimal("1.50"), decimal.Decimal("-0"), decimal.Decimal("1E+2"), decimal.Decimal(10)',
    'dt.date': 'dt.date(2020, 2, 29), dt.date(1, 1, 1), dt.date(9999, 12, 31)',
    'dt.time': 'dt.time(1, 2, 3), dt.time(0, 0), dt.time(23, 59, 59, 999999), dt.time(1, 2, tzinfo=dt.timezone.utc)',
    'dt.datetime': 'dt.datetime(2020, 1, 2, 3, 4, 5), dt.datetime(2020, 1, 2, tzinfo=dt.timezone.utc), '
                   'dt.datetime(2020, 1, 2, 3, 4, 5, 678, tzinfo=dt.timezone(dt.timedelta(hours=-3, minutes=-30)))',
    'dt.timedelta': 'dt.timedelta(0), dt.timedelta(days=1, seconds=2, microseconds=3), dt.timedelta(days=-1, seconds=1)',
    'uuid.UUID': 'uuid.UUID(int=0), uuid.UUID("12345678-1234-5678-1234-567812345678")',
    'Color': 'Color.RED, Color.BLUE',
    'Level': 'Level.LOW, Level.HIGH',
    'StrE': 'StrE.A, StrE.B',
    "Literal['u', 'v w']": "'u', 'v w'",
    "Literal[1, 'x', True]": "1, 'x', True",
    'ipaddress.IPv4Address': 'ipaddress.IPv4Address("127.0.0.1"), ipaddress.IPv4Address(0)',
    'ipaddress.IPv6Address': 'ipaddress.IPv6Address("::1")',
    'ipaddress.IPv4Network': 'ipaddress.IPv4Network("10.0.0.0/8")',
    'pathlib.Path': 'pathlib.Path("a/b"), pathlib.Path("/"), pathlib.Path(".")',
    'HttpUrl': 'HttpUrl("http://a.b/c?d=e&f#g")',
    'AnyUrl': 'AnyUrl("ftp://x:1/")',
    'Json': '1, "s", True, 1.5, [], {}, ["a", None], {"k": {"l": [1, "é<"]}}',
    'Json[List[str]]': '[], ["a", "b c"]',
    'Json[Dict[str, dt.date]]': '{"d": dt.date(2020, 1, 2)}',
    'Json[dt.date]': 'dt.date(2020, 1, 2)',
    'SecretStr': 'SecretStr("s")',
    'UserId': '0, 5',
    'Alias': '0, 5',
    'conint(gt=0, le=10)': '1, 10',
    'constr(min_length=2, pattern="^x")': '"xy", "x z"',
    'PositiveInt': '1',
    'Before': '"X"',
    'After': '1, 2',
    'Wrap': '0, 7',
    'PlainSer': '0, 7',
    'WrapSer': '0.0, 2.5',
    'JsonSer': '0, 21',
    'Union[int, str]': '1, 0, "x", "1"',
    'Union[int, float, bool]': '1, 1.5, True, False',
    'Union[dt.date, Literal["never"]]': 'dt.date(2020, 1, 1), "never"',
    'Union[Color, int]': 'Color.RED, 0',
    'Union[bool, Json[List[str]]]': 'True, ["a", "b"]',
    'StrictInt': '1, 0',
    'StrictStr': '"x"',
    'Base64Str': '"x"',
    'ByteSize': 'ByteSize(1024)',
    'Arb': 'Arb("x"), Arb("")',
    'ipaddress.IPv4Interface': 'ipaddress.IPv4Interface("10.0.0.1/8")',
    'AwareDatetime': 'dt.datetime(2020, 1, 2, tzinfo=dt.timezone.utc)',
    'NaiveDatetime': 'dt.datetime(2020, 1, 2, 3)',
    'PastDate': 'dt.date(2020, 1, 2)',
    'StrictBool': 'True, False',
    'StrictFloat': '1.5',
    'StrictBytes': 'b"x"',
    'FiniteFloat': '1.5, -0.0',
    'UUID4': 'uuid.UUID("16fd2706-8baf-433b-82eb-8c7fada847da")',
    'Base64Bytes': 'b"x"',
    'Base64UrlStr': '"x?"',
    'Fl': 'Fl.X, Fl.Y',
    'condecimal(max_digits=4, decimal_places=2)': 'decimal.Decimal("1.50")',
    'PostgresDsn': 'PostgresDsn("postgres://u:p@h:1/d")',
    'Union[Arb, int]': 'Arb("q"), 3',
    'Union[StrictInt, Literal["auto"]]': '"auto"',
    'Optional[Color]': 'Color.RED',
    'Annotated[Optional[int], Field(gt=0)]': '1',
    'TypeAliasType("Late", "int")': '3',
}
TEXTS = ['1', '0', ' 1 ', 'true', 'True', 'false', 'yes', 'off', 'x', 'xy', 'u', 'v w', 'red', 'RED', '2', 'a', 'b c', 'nan', '-inf',
         'Infinity', '1.5', '-1e3', '2020-02-29', '2020-02-30', '2020-01-02T03:04:05Z', '2020-01-02 03:04', '12:30', '12:30:00+01:00',
         'P1DT2S', '1 day', '3600', '12345678123456781234567812345678', '{12345678-1234-5678-1234-567812345678}', '127.0.0.1', '::1',
         '10.0.0.0/8', 'http://a.b', 'a/b', 'eA==', '"j"', '[1]', '{"k": null}', 'null', '#7#', 'never', 'None', '1KiB', 'é', '\u00a01',
         '1\n', '0b1', '1_0', '١', '99999999999999999999', '']
LOCS = ('attr', 'text', 'elem', 'opt', 'nillable', 'list', 'tuple', 'set', 'dict', 'attrs', 'typed_dict', 'wrap_attr', 'wrap_elem', 'wrap_text', 'root',
        'root_attr', 'sub', 'computed_attr', 'computed_elem', 'computed_text', 'nt', 'root_list')
CONFIGS = {
    '': '', 'strip': 'str_strip_whitespace=True', 'lower': 'str_to_lower=True', 'enum': 'use_enum_values=True',
    'td': "ser_json_timedelta='float'", 'b64': "ser_json_bytes='base64', val_json_bytes='base64'", 'nan': 'allow_inf_nan=False',
    'num': 'coerce_numbers_to_str=True', 'strict': 'strict=True', 'minlen': 'str_min_length=2', 'default': 'validate_default=True',
}


def jobs(tier, backend):
    for t in TYPES:
        for loc in LOCS:
            if t != 'Arb' or loc not in ('dict', 'attrs', 'typed_dict', 'nt'):
                yield t, loc, ''
    for cfg in CONFIGS:
        if cfg:
            for t in TYPES:
                for loc in (('attr', 'elem') if t == 'Arb' else ('attr', 'text', 'elem', 'list', 'dict', 'root', 'wrap_elem') if tier != 'quick' else ('attr', 'elem', 'list')):
                    yield t, loc, cfg


def source(t, loc, cfg):
    config = f'    model_config = ConfigDict({CONFIGS[cfg]})\n' if cfg else ''
    top = "class Top(BaseXmlModel, tag='top'):\n" + config
    rt = "class Top(RootXmlModel, tag='top'):\n" + config
    return {
        'attr': f"{top}    f: {t} = attr()\n",
        'text': f"{top}    f: {t}\n",
        'elem': f"{top}    f: {t} = element()\n",
        'opt': f"{top}    f: Optional[{t}] = element(default=None)\n",
        'nillable': f"{top}    f: Optional[{t}] = element(nillable=True, default=None)\n",
        'list': f"{top}    f: List[{t}] = element()\n",
        'tuple': f"{top}    f: Tuple[{t}, {t}] = element()\n",
        'set': f"{top}    f: Set[{t}] = element()\n",
        'dict': f"{top}    f: Dict[str, {t}] = element()\n",
        'attrs': f"{top}    f: Dict[str, {t}]\n",
        'typed_dict': f"class TDt(TypedDict):\n    k: {t}\n\n\n{top}    f: TDt = element()\n",
        'nt': f"class NTt(NamedTuple):\n    x: {t}\n    y: {t}\n\n\n{top}    f: NTt = element()\n",
        'wrap_attr': f"{top}    f: {t} = wrapped('w', attr())\n",
        'wrap_elem': f"{top}    f: {t} = wrapped('w', element())\n",
        'wrap_text': f"{top}    f: {t} = wrapped('w')\n",
        'root': f"{rt}    root: {t}\n",
        'root_attr': f"{rt}    root: {t} = attr('f')\n",
        'root_list': f"{rt}    root: List[{t}] = element('f')\n",
        'sub': f"class Sub(BaseXmlModel):\n{config}    f: {t}\n\n\n{top}    s: Sub\n",
        'computed_attr': f"{top}    v: Annotated[{t}, NoXml]\n\n    @computed_attr\n    def f(self) -> {t}:\n        return self.v\n",
        'computed_elem': f"{top}    v: Annotated[{t}, NoXml]\n\n    @computed_element\n    def f(self) -> {t}:\n        return self.v\n",
        'computed_text': f"{top}    v: Annotated[{t}, NoXml]\n\n    @computed_field\n    def f(self) -> {t}:\n        return self.v\n",
    }[loc]


def doc(loc, texts):
    """the document with the given text(s) at the location"""
    a, b = texts
    top = Node('top')
    if loc in ('attr', 'root_attr', 'computed_attr'):
        top.attrs['f'] = a
    elif loc in ('text', 'root', 'computed_text'):
        top.text = a
    elif loc in ('elem', 'opt', 'nillable', 'computed_elem'):
        top.kids.append(Node('f', a))
    elif loc in ('list', 'tuple', 'set', 'nt', 'root_list'):
        top.kids.extend([Node('f', a), Node('f', b)])
    elif loc in ('dict', 'typed_dict'):
        top.kids.append(Node('f', None, {'k': a}))
    elif loc == 'attrs':
        top.attrs['k'] = a
    elif loc == 'wrap_attr':
        top.kids.append(Node('w', None, {'f': a}))
    elif loc == 'wrap_elem':
        top.kids.append(Node('w', None, None, [Node('f', a)]))
    elif loc == 'wrap_text':
        top.kids.append(Node('w', a))
    elif loc == 'sub':
        top.kids.append(Node('s', a))
    return top


def value(ns, loc, a, b):
    """constructor argument"""
    if loc in ('list', 'root_list'):
        return [a, b]
    if loc == 'tuple':
        return (a, b)
    if loc == 'nt':
        return (a, b)
    if loc in ('dict', 'attrs', 'typed_dict'):
        return {'k': a}
    if loc == 'sub':
        return ns['Sub'].model_construct(f=a)
    return a


def encode(x, t=''):
    if 'Json[' in t + '[' and x is not None:
        return json.dumps(x, ensure_ascii=False)        # what a Json field reads is a json document
    return '' if x is None else ('true' if x else 'false') if isinstance(x, bool) else str(x)


_ns = {}


def run(job, rep, tier, backend):
    t, loc, cfg = job
    if not _ns:
        S.compile_prog(S.Prog((S.Mod('Top'),)))
        _ns.update(S._PRELUDE_NS)
        exec(compile(PRE, '<types>', 'exec', dont_inherit=True), _ns)
    src = source(t, loc, cfg)
    info = dict(program=f'{t} as {loc} {cfg}', source=S.PRELUDE + '\n' + PRE + '\n\n' + src)
    if loc in ('dict', 'attrs', 'typed_dict') and (t.startswith('Union') or t == 'ByteSize'):
        return      # values of mappings must be of a primitive type, which is enforced
    ns = dict(_ns)
    # what pydantic alone makes of the type
    class Cfg(pd.BaseModel):
        model_config = eval(f'ConfigDict({CONFIGS[cfg]})', dict(ns))
    cns = {**ns, 'Cfg': Cfg}
    exec(f'class Plain(Cfg):\n    f: {t}\n', cns)
    plain = cns['Plain']
    if loc == 'nt':     # pydantic infers how to write the items of a named tuple
        exec(f'class NTt(NamedTuple):\n    x: {t}\n    y: {t}\n\n\nclass PlainNT(Cfg):\n    f: NTt\n', cns)
    try:
        with G.budget(20):
            exec(compile(src, '<program>', 'exec', dont_inherit=True), ns)
    except G.Hang:
        return rep.violation('a definition does not terminate', **info)
    except Exception as e:
        return rep.violation(f'a legal definition is rejected: {type(e).__name__}: {e}', **info)
    rep.programs += 1
    top = ns['Top']
    spec = TYPES[t]
    vals, more = (spec, '') if isinstance(spec, str) else spec
    values = list(eval(f'[{vals}]', ns))
    texts = TEXTS + more.split()

    # ------------------------------------------------------------------------------------------------- serialization
    for v in values:
        if cfg == 'enum' and hasattr(v, 'value'):
            v = v.value
        try:
            if loc == 'nt':
                data = cns['PlainNT'].model_construct(f=cns['NTt'](v, v)).model_dump(mode='json', warnings=False)['f'][0]
            else:
                data = plain.model_construct(f=v).model_dump(mode='json', warnings=False)['f']
            want, plainly = encode(data, t), encode(data)
        except Exception:
            continue
        rep.states += 1
        rep.transitions += 1
        arg = value(ns, loc, v, v)
        if loc == 'set':
            try:
                arg = {v}
            except TypeError:
                continue
        elif loc == 'nt':
            arg = ns['NTt'](v, v)
        name = 's' if loc == 'sub' else 'v' if loc.startswith('computed') else 'root' if loc.startswith('root') else 'f'
        obj = top.model_construct(**{name: arg}) if not loc.startswith('root') else top.model_construct(arg)
        try:
            with G.budget(20):
                tree = G.parse_output(obj.to_xml())
        except Exception as e:
            rep.violation(f'a value cannot be serialized: {type(e).__name__}: {e}', value=repr(v), expected=want, **info)
            continue
        rep.traces += 1
        node = doc(loc, (want, want))
        if loc == 'set':
            node.kids.pop()
        if tree.key() != node.key() and 'Json[' in t + '[' and (t.startswith('Union') or loc in ('dict', 'attrs', 'typed_dict')) and \
                tree.key() == doc(loc, (plainly, plainly)).key():
            rep.known_finding('json-in-mapping-or-union', f'{t} as {loc}: {v!r} -> {R.to_xml(tree)}')
            continue
        if tree.key() != node.key():
            rep.violation('a primitive value is not written as pydantic writes it', value=repr(v), got=R.to_xml(tree),
                          expected=R.to_xml(node), **info)
        rep.sample(f'{t} {loc}: {v!r} -> {want!r}')
        texts = texts + [want]

    # ----------------------------------------------------------------------------------------------- deserialization
    if loc.startswith('computed'):
        return
    good = next((x for x in texts if x and outcome(lambda: plain.model_validate({'f': x}))[0] == 'ok'), '1')
    for text in dict.fromkeys(texts):
        for eas in (False, True):
            rep.states += 1
            rep.transitions += 1
            d = R.to_xml(doc(loc, (text, good)))
            got = outcome(lambda: top.from_xml(d, empty_as_string=eas))
            want = expected(plain, loc, text, good, eas)
            rep.traces += 1
            rep.count('accepted' if want[0] == 'ok' else 'rejected')
            if got[0] == 'ok':
                o = got[1]
                x = o.s.f if loc == 'sub' else o.root if loc.startswith('root') else o.f
                got = ('ok', tuple(x) if loc == 'nt' else x)
            if got[0] != want[0] or (got[0] == 'ok' and R.neutral(got[1]) != R.neutral(want[1])):
                rep.violation('a primitive value is not read as pydantic reads it', doc=d, kwargs={'empty_as_string': eas},
                              got=repr(got), expected=repr(want), **info)


def expected(plain, loc, text, good, eas):
    one = lambda x: outcome(lambda: plain.model_validate({'f': x}, strict=False).f)    # noqa: E731
    in_attr = loc in ('attr', 'root_attr', 'wrap_attr', 'dict', 'attrs', 'typed_dict')
    data = text if text or in_attr or eas else None
    if loc in ('dict', 'attrs', 'typed_dict'):
        r = one(data)
        return ('ok', {'k': r[1]}) if r[0] == 'ok' else r
    if loc in ('opt', 'nillable'):
        return ('ok', None) if data is None else one(data)
    if loc in ('list', 'set', 'root_list'):
        if data is None:
            return ('err', None)        # a collection ends at an element without data: nothing was read
        a, b = one(data), one(good)
        if a[0] != 'ok' or b[0] != 'ok':
            return ('err', None)
        try:
            return ('ok', [a[1], b[1]] if loc != 'set' else {a[1], b[1]})
        except TypeError:
            return ('err', None)
    if loc in ('tuple', 'nt'):
        a, b = one(data), one(good)
        return ('ok', (a[1], b[1])) if a[0] == b[0] == 'ok' else ('err', None)
    if data is None:
        return ('err', None)
    return one(data)


def outcome(fn):
    try:
        with G.budget(20):
            return 'ok', fn()
    except pd.ValidationError as e:
        return 'err', str(e)
    except G.Hang:
        return 'hang', None
    except Exception as e:
        return 'exc', f'{type(e).__name__}: {e}'
