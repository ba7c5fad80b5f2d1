"""C12: every reported error is located at the field and the source line of the datum it is about."""
import itertools as it

import pydantic as pd

from harness import engine as G
from harness import ref as R
from harness import spec as S
from harness.ref import Node, esc
from harness.spec import A, E, F, M, Map, Mod, Opt, P, Prog, Raw, Seq, TD, TEXT, Tag, Tup, Uni, W

INT, STR = P('int'), P('str')
HOWS = ('sub', 'alias', 'list', 'wrap', 'root', 'root_list', 'tuple', 'opt', 'tagged', 'union', 'named_tuple', 'wrap_list', 'inherit')
SLOTS = ('attr', 'attr_alias', 'elem', 'elem_alias', 'valias', 'list', 'tuple', 'dict', 'dict_val', 'wrap_attr', 'wrap_elem', 'wrap_text', 'wrap_list',
         'root', 'nillable', 'optional', 'constrained', 'validated', 'nt', 'typed_dict', 'dicts', 'dict_tuple', 'tds', 'same', 'raw', 'raw_list')


def message(err_type, src='int', raw='bad!'):
    try:
        R.adapter(src).validate_python(raw)
    except pd.ValidationError as e:
        return e.errors()[0]['msg']
    raise AssertionError(src)


INT_MSG = message('int_parsing')
REQUIRED = 'Field required'
EXTRA = 'Extra inputs are not permitted'


class Er:
    """an expected error: location, node whose line is reported (None: the element of the model), type, message, input"""

    def __init__(self, loc, node, typ, msg, inp=None, sub=False, must=True):
        self.loc, self.node, self.type, self.msg, self.inp, self.sub = tuple(loc), node, typ, msg, inp, sub
        self.must = must

    def under(self, prefix, node, must):
        return Er(tuple(prefix) + self.loc, self.node if self.node is not None else node, self.type, self.msg, self.inp,
                  True, self.must and must)


def settle(errs):
    """an object with broken parts is not validated itself: errors of the parts come first, others need not be reported"""
    parts = any(e.sub for e in errs)
    return [e.sub or not parts for e in errs]


def bad(loc, node, raw='bad!'):
    return Er(loc, node, 'int_parsing', INT_MSG, raw)


def missing(loc, node=None):
    return Er(loc, node, 'missing', REQUIRED)


def slot(kind, i, byname=False):
    """-> helper models, field, {fault name or None: () -> (attrs, kids, errors)}"""
    n = f'f{i}'
    if kind == 'attr':
        return [], F(n, INT, A()), {
            None: lambda: ({n: '1'}, [], []),
            'bad': lambda: ({n: 'bad!'}, [], [bad((n,), None)]),
            'missing': lambda: ({}, [], [missing((n,))]),
        }
    if kind == 'attr_alias':
        k = n if byname else f'al{i}'
        return [], F(n, INT, A(), alias=f'al{i}'), {
            None: lambda: ({f'al{i}': '1'}, [], []),
            'bad': lambda: ({f'al{i}': 'bad!'}, [], [bad((k,), None)]),
            'missing': lambda: ({}, [], [missing((k,))]),
        }

    def elem(k, tag, field, helpers=()):
        def mk(text):
            def go():
                e = Node(tag, text)
                return {}, [e], [bad((k,), e)] if text == 'bad!' else []
            return go
        return list(helpers), field, {None: mk('1'), 'bad': mk('bad!'), 'missing': lambda: ({}, [], [missing((k,))])}

    if kind == 'elem':
        return elem(n, n, F(n, INT, E()))
    if kind == 'elem_alias':
        return elem(n if byname else f'al{i}', f'en{i}', F(n, INT, E(f'en{i}'), alias=f'al{i}'))
    if kind == 'valias':
        return elem(n if byname else f'va{i}', n, F(n, INT, E(), valias=f'va{i}'))
    if kind == 'nillable':
        h, f, fs = elem(n, n, F(n, Opt(INT), E(nillable=True)))
        return h, f, fs
    if kind == 'optional':
        h, f, fs = elem(n, n, F(n, Opt(INT), E(), default=None))
        del fs['missing']
        return h, f, fs
    if kind == 'constrained':
        h, f, fs = elem(n, n, F(n, INT, E(), strict_kwargs='gt=0'))

        def low():
            e = Node(n, '0')
            return {}, [e], [Er((n,), e, 'greater_than', 'Input should be greater than 0', '0')]
        return h, f, {**fs, 'low': low}
    if kind == 'validated':
        h, f, fs = elem(n, n, F(n, INT, E(), ), ())

        def rejected():
            e = Node(n, '99')
            return {}, [e], [Er((n,), e, 'value_error', 'Value error, not 99', '99')]
        return h, f, {**fs, 'rejected': rejected, 'body': (
            f"    @pydantic.field_validator('{n}')\n    @classmethod\n    def _v{i}(cls, v):\n"
            f"        if v == 99:\n            raise ValueError('not 99')\n        return v\n")}
    if kind == 'same':      # the name of a field of the enclosing model, too
        return elem('deep', 'deep', F('deep', INT, E()))
    if kind == 'list':
        def mk(texts):
            def go():
                es = [Node(f'li{i}', t) for t in texts]
                return {}, es, [bad((n, j), e) for j, e in enumerate(es) if e.text == 'bad!']
            return go
        return [], F(n, Seq('list', INT), E(f'li{i}')), {
            None: mk(['1', '2']), 'bad': mk(['1', 'bad!', '3']), 'bad2': mk(['bad!', '1', 'bad!']),
            'missing': lambda: ({}, [], [missing((n,))])}
    if kind in ('tuple', 'nt'):
        t = Tup((INT, STR, INT), (f'NT{i}', ('x', 'y', 'z')) if kind == 'nt' else None)

        def mk(texts):
            def go():
                es = [Node(f'tu{i}', t) for t in texts]
                key = {0: 'x', 1: 'y', 2: 'z'}
                return {}, es, [bad((n, j), e) for j, e in enumerate(es) if e.text == 'bad!']
            return go
        fs = {None: mk(['1', 'a', '2']), 'missing': lambda: ({}, [], [missing((n,))])}
        if kind == 'tuple':
            fs.update({'bad0': mk(['bad!', 'a', '2']), 'bad2': mk(['bad!', 'a', 'bad!'])})
        return [], F(n, t, E(f'tu{i}')), fs
    if kind == 'dict':
        def mk(val):
            def go():
                e = Node(f'di{i}', None, {'k': '1', 'm': val})
                return {}, [e], [bad((n, 'm'), e)] if val == 'bad!' else []
            return go
        return [], F(n, Map(STR, INT), E(f'di{i}')), {
            None: mk('2'), 'bad': mk('bad!'), 'missing': lambda: ({}, [], [missing((n,))])}
    if kind == 'dict_val':
        def mk(key):
            def go():
                e = Node(f'di{i}', None, {key: '1'})
                return {}, [e], [Er((n, key, '[key]'), e, 'literal_error', "Input should be 'kk'", key)] if key != 'kk' else []
            return go
        return [], F(n, Map(P("Literal['kk']"), INT), E(f'di{i}')), {None: mk('kk'), 'badkey': mk('kx')}
    if kind == 'typed_dict':
        def mk(at, *errs):
            def go():
                e = Node(f'td{i}', None, at)
                return {}, [e], [(bad if w == 'bad' else missing)((n, k), e) for k, w in errs]
            return go
        return [], F(n, TD(f'TD{i}', (('k', INT), ('m', STR))), E(f'td{i}')), {
            None: mk({'k': '1', 'm': 'x'}), 'bad': mk({'k': 'bad!', 'm': 'x'}, ('k', 'bad')),
            'nokey': mk({'k': 'bad!'}, ('k', 'bad'), ('m', 'missing'))}
    if kind in ('dicts', 'dict_tuple', 'tds'):
        td = kind == 'tds'
        t = TD(f'TD{i}', (('k', INT), ('m', STR))) if td else Map(STR, INT)

        def mk(*vals):
            def go():
                es = [Node(f'di{i}', None, {'k': v, 'm': '1'}) for v in vals]
                return {}, es, [bad((n, j, 'k'), e) for j, e in enumerate(es) if e.attrs['k'] == 'bad!']
            return go
        return [], F(n, Tup((t, t, t)) if kind == 'dict_tuple' else Seq('list', t), E(f'di{i}')), {
            None: mk('1', '2', '3'), 'bad1': mk('1', 'bad!', '3'), 'bad2': mk('bad!', '2', 'bad!'), 'missing': lambda: ({}, [], [missing((n,))])}
    if kind.startswith('wrap'):
        what = kind[5:]
        w = f'w{i}'

        def tree(inner=None, attrs=None, text=None, upto=2):
            v = Node('v', text, attrs, inner)
            return [Node(w, None, None, [v] if upto == 2 else [])], v
        if what == 'attr':
            f = F(n, INT, W(w + '/v', A('k')))

            def good():
                return {}, tree(attrs={'k': '1'})[0], []

            def wrong():
                k, v = tree(attrs={'k': 'bad!'})
                return {}, k, [bad((n,), v)]

            def no():
                k, v = tree()
                return {}, k, [missing((n,), v)]
            return [], f, {None: good, 'bad': wrong, 'noattr': no, 'missing': lambda: ({}, [], [missing((n,))])}
        if what == 'text':
            f = F(n, INT, W(w + '/v'))

            def wrong():
                k, v = tree(text='bad!')
                return {}, k, [bad((n,), v)]
            return [], f, {None: lambda: ({}, tree(text='1')[0], []), 'bad': wrong,
                           'missing': lambda: ({}, [], [missing((n,))])}
        if what == 'elem':
            f = F(n, INT, W(w + '/v', E('x')))

            def wrong():
                x = Node('x', 'bad!')
                return {}, tree([x])[0], [bad((n,), x)]

            def no():
                k, v = tree()
                return {}, k, [missing((n,), v)]
            return [], f, {None: lambda: ({}, tree([Node('x', '1')])[0], []), 'bad': wrong, 'noelem': no,
                           'missing': lambda: ({}, [], [missing((n,))])}
        f = F(n, Seq('list', INT), W(w + '/v', E('x')))

        def wrong():
            xs = [Node('x', '1'), Node('x', 'bad!')]
            return {}, tree(xs)[0], [bad((n, 1), xs[1])]
        return [], f, {None: lambda: ({}, tree([Node('x', '1'), Node('x', '2')])[0], []), 'bad': wrong}
    if kind in ('raw', 'raw_list'):
        lst = kind == 'raw_list'

        def mk(*vals):
            def go():
                es = [Node(f'ra{i}', 't', {'k': v}, [Node('y', '1')]) for v in vals]
                return {}, es, [Er((n, j) if lst else (n,), e, 'value_error', 'Value error, not 99')
                                for j, e in enumerate(es) if e.attrs['k'] == '99']
            return go
        body = (f"    @pydantic.field_validator('{n}')\n    @classmethod\n    def _v{i}(cls, v):\n"
                f"        if v.get('k') == '99':\n            raise ValueError('not 99')\n        return v\n")
        if lst:
            return [], F(n, Seq('list', Raw()), E(f'ra{i}')), {None: mk('1', '2'), 'missing': lambda: ({}, [], [missing((n,))])}
        return [], F(n, Raw(), E(f'ra{i}')), {
            None: mk('1'), 'rejected': mk('99'), 'missing': lambda: ({}, [], [missing((n,))]), 'body': body}
    if kind == 'root':
        def mk(text):
            def go():
                e = Node(n, text)
                return {}, [e], [Er((n,), e, 'int_parsing', INT_MSG, 'bad!', sub=True)] if text == 'bad!' else []
            return go
        return [Mod(f'R{i}', (F('root', INT),), root=True)], F(n, M(f'R{i}')), {None: mk('1'), 'bad': mk('bad!')}
    raise AssertionError(kind)


BEFORE = ("    @pydantic.model_validator(mode='before')\n    @classmethod\n    def _before(cls, d):\n"
          "        if isinstance(d, dict) and d.get('f0') == '76':\n            return {**d, 'unknown': 'v'}\n        return d\n")
AFTER = ("    @pydantic.model_validator(mode='after')\n    def _after(self):\n        if self.f0 == 77:\n"
         "            raise ValueError('not 77')\n        return self\n")


def leaf_model(slots, byname, forbid, after=True):
    """the innermost model; -> models, {(slot, fault): ...}"""
    mods, fields, faults, body = [], [], [], ''
    for i, k in enumerate(slots):
        h, f, fs = slot(k, i, byname)
        body += fs.pop('body', '')
        mods += h
        fields.append(f)
        faults.append(fs)
    cfg = (('loc_by_alias', False),) if byname else ()
    mod = Mod('Leaf', tuple(fields), extra='forbid' if forbid else None, config=cfg, body=body + AFTER + (BEFORE if forbid else ''))
    return mods + [mod], faults


def leaf_node(faults, chosen):
    """element content of the leaf model with the chosen fault of every slot -> (node, errors)"""
    node = Node('Leaf')
    errs = []
    for i, fs in enumerate(faults):
        attrs, kids, es = fs[chosen.get(i)]()
        node.attrs.update(attrs)
        node.kids.extend(kids)
        errs.extend(es)
    return node, errs


def nest(how, cls, lvl, builder, clsmods, byname):
    """model one level up; builder() -> (node, errors); returns (models, name, builder, extra path)"""
    name = f'L{lvl}'
    key = 'deep'
    before = F('pre', INT, E())
    after = F('post', Opt(INT), E(), default=None)
    mods, cfg = [], (('loc_by_alias', False),) if byname else ()
    other = None
    if how == 'sub':
        f = F(key, M(cls), E('sub'))
    elif how == 'alias':
        f = F(key, M(cls), E(), alias='DEEP')
        key = key if byname else 'DEEP'
    elif how == 'opt':
        f = F(key, Opt(M(cls)), E('sub'), default=None)
    elif how in ('list', 'wrap_list'):
        f = F(key, Seq('list', M(cls)), E('sub') if how == 'list' else W('wr/ap', E('sub')))
    elif how == 'wrap':
        f = F(key, M(cls), W('wr/ap', E('sub')))
    elif how == 'tuple':
        f = F(key, Tup((INT, M(cls))), E('sub'))
    elif how == 'named_tuple':
        f = F(key, Tup((INT, M(cls)), (f'NTL{lvl}', ('a', 'b'))), E('sub'))
    elif how == 'root':
        mods = [Mod(f'Rt{lvl}', (F('root', M(cls), E('inner')),), root=True)]
        f = F(key, M(f'Rt{lvl}'), E('sub'))
    elif how == 'root_list':
        mods = [Mod(f'Rt{lvl}', (F('root', Seq('list', M(cls)), E('inner')),), root=True)]
        f = F(key, M(f'Rt{lvl}'), E('sub'))
    elif how == 'tagged':
        mods = [Mod(f'Ta{lvl}', (F('disc', P("Literal['a']"), A()), F('in_', M(cls), E('in'))), config=cfg),
                Mod(f'Tb{lvl}', (F('disc', P("Literal['b']"), A()), F('in_', INT, E('in'))), config=cfg)]
        f = F(key, Tag('disc', (M(f'Tb{lvl}'), M(f'Ta{lvl}'))), E('sub'))
    elif how == 'union':
        mods = [Mod(f'Ua{lvl}', (F('zz', INT, A()),), config=cfg)]
        f = F(key, Uni((M(f'Ua{lvl}'), M(cls))), E('sub'))
    elif how == 'inherit':
        mods = [Mod(f'In{lvl}', (before, F(key, M(cls), E('sub'))), config=cfg)]
        f = None
    else:
        raise AssertionError(how)
    if f is None:
        mods.append(Mod(name, (after,), base=f'In{lvl}', config=cfg))
    else:
        mods.append(Mod(name, (before, f, after), config=cfg))

    def build(good):
        pre, post = Node('pre', '1'), Node('post', '2')
        mk = lambda tag: retag(*builder(good), tag)      # noqa: E731
        ok = lambda tag: retag(*builder(True), tag)[0]   # noqa: E731
        if how in ('sub', 'opt', 'alias', 'inherit'):
            n, errs = mk(key if how == 'alias' else 'sub')
            n.tag = 'DEEP' if how == 'alias' else 'sub'
            kids, path = [n], (key,)
        elif how == 'list':
            n, errs = mk('sub')
            kids, path = [ok('sub'), n, ok('sub')], (key, 1)
        elif how in ('wrap', 'wrap_list'):
            n, errs = mk('sub')
            ap = Node('ap', None, None, [n] if how == 'wrap' else [ok('sub'), n])
            kids, path = [Node('wr', None, None, [ap])], (key,) if how == 'wrap' else (key, 1)
        elif how in ('tuple', 'named_tuple'):
            n, errs = mk('sub')
            kids, path = [Node('sub', '5'), n], (key, 1)
        elif how == 'root':
            n, errs = mk('inner')
            kids, path = [Node('sub', None, None, [n])], (key,)
        elif how == 'root_list':
            n, errs = mk('inner')
            kids, path = [Node('sub', None, None, [ok('inner'), ok('inner'), n])], (key, 2)
        elif how == 'tagged':
            n, errs = mk('in')
            kids, path = [Node('sub', None, {'disc': 'a'}, [n])], (key, 'in_')
        elif how == 'union':
            n, errs = mk('sub')
            kids, path = [n], (key, cls)
        errs = [e.under(path, n, m) for e, m in zip(errs, settle(errs))]
        if how == 'union' and errs:
            errs.append(Er((key, f'Ua{lvl}', 'zz'), n, 'missing', REQUIRED, sub=True))
        return Node(name, None, None, [pre] + kids + [post]), errs

    return mods, name, build


def retag(node, errs, tag):
    node.tag = tag
    return node, errs


def render(root, sep='\n'):
    """one element per line; -> text, {id(node): line}"""
    out, lines = ['<?xml version="1.0"?>', '<!-- a', 'comment -->'], {}

    def attrs(n):
        return ''.join(f' {k}="{esc(v, True)}"' for k, v in n.attrs.items())

    def walk(n):
        lines[id(n)] = len(out) + 1
        if n.kids:
            out.append(f'<{n.tag}{attrs(n)}>')
            for k in n.kids:
                walk(k)
            out.append(f'</{n.tag}>')
        elif n.text:
            out.append(f'<{n.tag}{attrs(n)}>{esc(n.text)}</{n.tag}>')
        else:
            out.append(f'<{n.tag}{attrs(n)}/>')
    walk(root)
    return '\n'.join(out), lines


GROUPS = [SLOTS[k::3] for k in range(3)]


def jobs(tier, backend):
    full = tier != 'quick'
    chains = [()] + [(h,) for h in HOWS] + list(it.product(HOWS, HOWS))
    for ci, ch in enumerate(chains):
        for gi in range(len(GROUPS)):
            for byname in (False, True):
                if len(ch) == 2 and not full and (byname != ((ci + gi) % 2 == 0)):
                    continue
                yield 'faults', ch, gi, byname
        yield 'extra', ch
        yield 'hide', ch
    for what in MANY:
        for mode in ('strict', 'ordered', 'unordered'):
            yield 'many', what, mode
    if full:
        for ch in it.product(HOWS, HOWS, HOWS):
            yield 'faults', ch, sum(map(len, ch)) % 3, False


def case(rep, ch, slots, byname=False, forbid=False, hide=None):
    mods, faults = leaf_model(slots, byname, forbid)
    state = {'chosen': {}, 'mut': None}

    def builder(good):
        node, errs = leaf_node(faults, {} if good else state['chosen'])
        if not good and state['mut']:
            errs = errs + state['mut'](node)
        return node, errs
    name, bld = 'Leaf', builder
    for lvl, how in enumerate(ch):
        m, name, bld = nest(how, name, lvl, bld, mods, byname)
        mods = mods + m
    from dataclasses import replace
    top = replace(mods[-1], name='Top', tag='top')
    if hide is not None:
        top = replace(top, config=top.config + (('hide_input_in_errors', hide),))
    mods = mods[:-1] + [top]
    prog = Prog(tuple(mods), f'chain={"/".join(ch)} {",".join(slots)} loc_by_name={byname} forbid={forbid}')
    c = G.Case(prog, rep)
    return c, faults, state, bld


def shown(error):
    value = error['input']
    if error['type'] == 'missing':
        return None
    return value if value is None or isinstance(value, (str, int, float, bool)) else repr(type(value))


def check(c, state, bld, rep, backend, chosen, mut=None):
    state['chosen'], state['mut'] = chosen, mut
    root, errs = bld(False)
    for e in errs:
        if e.node is None:
            e.node = root
    root.tag = 'top'
    text, lines = render(root)
    rep.states += 1
    rep.transitions += 1
    got, val = c.real_parse(text)
    info = dict(program=c.prog.label, source=c.src, doc=text)
    want = [(e.loc, e.type, f'[line {lines[id(e.node)] if backend == "lxml" else -1}]: {e.msg}', e.inp) for e in errs]
    if not errs:
        if got != 'ok':
            rep.violation('a correct document is rejected', got=repr(val), **info)
        return None
    if got != 'err' or not hasattr(val, 'errors'):
        rep.violation('the document is not rejected with a validation error', got=repr(val), expected=want, kind='parse', **info)
        return None
    rep.traces += 1
    mine = [(e['loc'], e['type'], e['msg'], shown(e)) for e in val.errors()]
    wrong = [m for m in mine if not any(m[:3] == w[:3] and (w[3] is None or m[3] == w[3]) for w in want)]
    must = [w for w, e, m in zip(want, errs, settle(errs)) if m and e.must]
    lost = [w for w in must if not any(m[:3] == w[:3] for m in mine)]
    if wrong or lost or len(mine) != len({m[:3] for m in mine}):
        rep.violation('errors are not reported at the location and source line of the datum', got=mine, expected=want, kind='parse', **info)
    rep.count('errors compared', len(mine))
    return val


MANY = ('list', 'tuple', 'sets', 'deque', 'wrapped', 'dict', 'models', 'models_of', 'wrapped_models', 'lists', 'model_tuple', 'unions', 'tagged',
        'roots', 'dicts', 'attrs', 'elems', 'subs', 'wraps', 'deep', 'deep_list', 'deep_alias')
COUNTS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33, 65, 129)


def many(what, n, mode):
    """a model with n places for a datum; -> models, function (set of broken places) -> (document, errors)"""
    places = range(n)
    item = Mod('It', (F('a', INT, A()), F('e', Opt(INT), E(), default=None)), tag='it', mode=mode)

    def it_node(i, faulty, path, errs, tag='it'):
        # two broken data in every third item
        bad_e = faulty and i % 3 == 2
        e = Node('e', 'bad!' if bad_e else '2')
        node = Node(tag, None, {'a': 'bad!' if faulty else '1'}, [e])
        if faulty:
            errs.append(bad(path + ('a',), node).under((), node, True))
        if bad_e:
            errs.append(bad(path + ('e',), e).under((), e, True))
        return node
    if what in ('list', 'tuple', 'sets', 'deque', 'wrapped', 'lists'):
        cont = {'sets': 'set', 'deque': 'deque', 'tuple': 'tuple'}.get(what, 'list')
        ty = Tup((INT,) * n) if what == 'lists' else Seq(cont, INT)
        ent = E('it') if what != 'wrapped' else W('w/v', E('it'))
        ms = [Mod('Top', (F('h', Opt(INT), E('h'), default=None), F('f', ty, ent)), tag='top', mode=mode)]

        def doc(broken):
            kids = [Node('it', 'bad!' if i in broken else str(i)) for i in places]
            errs = [bad(('f', i), kids[i]) for i in places if i in broken]
            if what == 'wrapped':
                kids = [Node('w', None, None, [Node('v', None, None, kids)])]
            return Node('top', None, None, [Node('h', '1')] + kids), errs
    elif what == 'dict':
        ms = [Mod('Top', (F('f', Map(STR, INT), E('d')),), tag='top', mode=mode)]

        def doc(broken):
            d = Node('d', None, {f'k{i}': 'bad!' if i in broken else '1' for i in places})
            return Node('top', None, None, [d]), [bad(('f', f'k{i}'), d) for i in places if i in broken]
    elif what == 'dicts':
        ms = [Mod('Top', (F('f', Seq('list', Map(STR, INT)), E('d')),), tag='top', mode=mode)]

        def doc(broken):
            kids = [Node('d', None, {'k': 'bad!' if i in broken else '1', 'l': '2'}) for i in places]
            return Node('top', None, None, kids), [bad(('f', i, 'k'), kids[i]) for i in places if i in broken]
    elif what in ('models', 'models_of', 'wrapped_models', 'model_tuple', 'roots', 'unions', 'tagged'):
        ms, t, pre = [item], M('It'), ()
        if what == 'models_of':
            ms.append(Mod('Mid', (F('s', M('It')),), tag='mid', mode=mode))
            t, pre = M('Mid'), ('s',)
        if what == 'roots':
            ms.append(Mod('Rt', (F('root', M('It')),), root=True, tag='mid', mode=mode))
            t, pre = M('Rt'), ()
        if what == 'unions':
            ms.append(Mod('Iu', (F('q', INT, A()),), tag='it', mode=mode))
            t = Uni((M('It'), M('Iu')))
        if what == 'tagged':
            ms = [Mod(f'I{k}', (F('k', P(f"Literal['{k}']"), A()), F('a', INT, A()), F('e', Opt(INT), E(), default=None)), tag='it', mode=mode)
                  for k in 'xy']
            t = Tag('k', (M('Ix'), M('Iy')))
        ty = Tup((t,) * n) if what == 'model_tuple' else Seq('list', t)
        ent = {'wrapped_models': W('w/v', E('it'))}.get(what, TEXT)
        ms.append(Mod('Top', (F('h', Opt(INT), E('h'), default=None), F('f', ty, ent)), tag='top', mode=mode))

        def doc(broken):
            errs, kids = [], []
            for i in places:
                path = ('f', i) + pre
                if what == 'unions':
                    path += ('It',)
                k = it_node(i, i in broken, path, errs) if what != 'tagged' else None
                if what == 'tagged':
                    d = 'xy'[i % 2]
                    k = it_node(i, i in broken, path, errs)
                    k.attrs = {'k': d, **k.attrs}
                if what == 'unions' and i in broken:
                    errs.append(Er(('f', i, 'Iu', 'q'), k, 'missing', REQUIRED, sub=True))
                kids.append(Node('mid', None, None, [k]) if what in ('models_of', 'roots') else k)
            if what == 'wrapped_models':
                kids = [Node('w', None, None, [Node('v', None, None, kids)])]
            return Node('top', None, None, [Node('h', '1')] + kids), errs
    elif what in ('attrs', 'elems', 'wraps'):
        ent = {'attrs': lambda i: A(), 'elems': lambda i: E(), 'wraps': lambda i: W(f'w/v{i % 4}', E(f'f{i}'))}[what]
        ms = [Mod('Top', tuple(F(f'f{i}', INT, ent(i)) for i in sorted(places, key=lambda i: i % 4)), tag='top', mode=mode)]

        def doc(broken):
            txt = lambda i: 'bad!' if i in broken else '1'
            if what == 'attrs':
                top = Node('top', None, {f'f{i}': txt(i) for i in places})
                return top, [bad((f'f{i}',), top) for i in places if i in broken]
            kids = {i: Node(f'f{i}', txt(i)) for i in sorted(places, key=lambda i: i % 4)}
            errs = [bad((f'f{i}',), kids[i]) for i in places if i in broken]
            kids = list(kids.values())
            if what == 'wraps':
                groups = [[k for k in kids if int(k.tag[1:]) % 4 == g] for g in range(4)]
                kids = [Node('w', None, None, [Node(f'v{g}', None, None, ks) for g, ks in enumerate(groups) if ks])]
            return Node('top', None, None, kids), errs
    elif what == 'subs':
        ms = [item, Mod('Top', tuple(F(f'f{i}', M('It'), E(f's{i}')) for i in places), tag='top', mode=mode)]

        def doc(broken):
            errs = []
            kids = [it_node(i, i in broken, (f'f{i}',), errs, f's{i}') for i in places]
            return Node('top', None, None, kids), errs
    else:
        # a chain of n sub-models with broken data at any of them
        ms = [item]
        for i in reversed(places):
            t = M('It') if i == n - 1 else M(f'L{i + 1}')
            kw = dict(alias=f'al{i}') if what == 'deep_alias' else {}
            ms.append(Mod(f'L{i}' if i else 'Top', (F('s', Seq('list', t) if what == 'deep_list' else t, E('s'), **kw),),
                          tag='top' if not i else 's', mode=mode))

        def doc(broken):
            errs, path = [], ()
            for i in places:
                path += (f'al{i}' if what == 'deep_alias' else 's',) + ((1,) if what == 'deep_list' else ())
            node = it_node(2, bool(broken), path, errs, 's')
            extra = it_node(2, False, (), [], 's')
            for i in reversed(places):
                kids = [extra.clone(), node] if what == 'deep_list' else [node]
                node, extra = Node('s' if i else 'top', None, None, kids), Node('s', None, None, [extra])
            return node, errs
    return ms, doc


def run(job, rep, tier, backend):
    if job[0] == 'many':
        _, what, mode = job
        for n in COUNTS:
            if n > 33 and (what in ('unions', 'attrs', 'elems', 'wraps', 'subs', 'model_tuple', 'lists') or what.startswith('deep')):
                continue        # generated declarations of that size take long
            ms, doc = many(what, n, mode)
            c = G.Case(Prog(tuple(ms), f'{n} {what} {mode}'), rep)
            if not c.define():
                return
            everything = set(range(n))
            for broken in (set(), everything, {n - 1}, {0}, everything - {0}, everything - {n - 1}, set(range(0, n, 2)), {n // 2}):
                check(c, {}, lambda good: doc(broken), rep, backend, None)
        rep.sample(f'{what} {mode}: {COUNTS} data, broken in turn')
        return
    if job[0] == 'faults':
        _, ch, gi, byname = job
        c, faults, state, bld = case(rep, ch, GROUPS[gi], byname)
        if not c.define():
            return
        allf = [(i, k) for i, fs in enumerate(faults) for k in fs if k is not None]
        check(c, state, bld, rep, backend, {})
        for i, k in allf:
            check(c, state, bld, rep, backend, {i: k})
        for (i, k), (j, l) in it.combinations(allf, 2):
            if i != j and (len(ch) < 2 or tier != 'quick' or (i + j) % 3 == gi):
                check(c, state, bld, rep, backend, {i: k, j: l})
        check(c, state, bld, rep, backend, {i: [k for k in fs if k][0] for i, fs in enumerate(faults)})
        rep.sample(f'{c.prog.label}: {len(allf)} single faults')
        return
    if job[0] == 'extra':
        ch = job[1]
        c, faults, state, bld = case(rep, ch, ('attr', 'elem', 'list'), forbid=True)
        if not c.define():
            return

        def ex(loc, node, value):
            return Er(loc, node, 'extra_forbidden', EXTRA, value, sub=True)

        def attr(node):
            node.attrs['zk'] = 'v'
            return [ex(('@zk',), node, 'v')]

        def sub(node):
            z = Node('zz', 'text', {'k': 'v'})
            node.kids.append(z)
            return [ex(('zz',), z, 'text'), ex(('zz', '@k'), z, 'v')]

        def subsub(node):
            y = Node('yy', 'deep')
            node.kids.append(Node('zz', None, None, [Node('xx'), y]))
            return [ex(('zz', 'yy'), y, 'deep')]

        def deep(node):
            y = Node('yy', None, {'k': 'v'}, [Node('ww', 'w')])
            x = Node('xx', None, None, [Node('vv'), y])
            node.kids.append(Node('zz', None, None, [x]))
            return [ex(('zz', 'xx', 'yy', '@k'), y, 'v'), ex(('zz', 'xx', 'yy', 'ww'), y.kids[0], 'w')]

        def unknown(node):
            node.attrs['f0'] = '76'
            return [Er(('unknown',), node, 'extra_forbidden', EXTRA, 'v', sub=True)]

        def inattr(node):
            node.kids[0].attrs['q'] = '1'
            return [ex((node.kids[0].tag, '@q'), node.kids[0], '1')]

        def two(node):
            return inattr(node) + attr(node)

        def after(node):
            node.attrs['f0'] = '77'
            return [Er((), node, 'value_error', 'Value error, not 77', sub=True)]
        for m in (attr, sub, subsub, deep, inattr, two, after, unknown):
            check(c, state, bld, rep, backend, {}, m)
        return
    # the input is concealed at every level if the model asks for it
    ch = job[1]
    for hide in (True, False):
        slots = ('attr', 'elem', 'list', 'dict', 'constrained', 'root', 'wrap_elem', 'typed_dict')
        c, faults, state, bld = case(rep, ch, slots, forbid=True, hide=hide)
        if not c.define():
            return

        def extra(node):
            node.attrs['zk'] = 'bad!'
            return [Er(('@zk',), node, 'extra_forbidden', EXTRA, 'bad!', sub=True)]
        runs = [({i: k}, None) for i, fs in enumerate(faults) for k in fs if k is not None and k.startswith('bad')]
        for chosen, mut in runs + [({}, extra)]:
            err = check(c, state, bld, rep, backend, chosen, mut)
            if err is None:
                continue
            shown = 'bad!' in str(err) or 'bad!' in repr(err)
            if shown == hide:
                rep.violation('the input is shown in an error although it is to be hidden' if hide else
                              'the input is hidden in an error although nobody asked for it',
                              program=c.prog.label, source=c.src, got=str(err))
