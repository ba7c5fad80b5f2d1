"""C11: both XML backends bind every document to the same object, reject the same documents and write the same documents."""
import hashlib

from harness import engine as G
from harness import families as Fm
from harness import ref as R
from harness import spec as S
from harness.ref import Node, neutral
from harness.spec import A, E, F, M, Mod, Opt, P, Prog, Raw, Seq, W


def jobs(tier, backend):
    full = tier != 'quick'
    names = ('plain', 'ns', 'dns', 'ns+dns', 'ns_attrs', 'forbid', 'skip')
    ps = {k: Fm.PARAMS[k] for k in (names if full else ('plain', 'ns_attrs', 'ns+dns', 'forbid'))}
    yield from Fm.singles(params=ps, modes=Fm.MODES if full else ('strict', 'unordered'))
    yield from Fm.nested(modes=Fm.MODES if full else ('strict',))
    for i, j in enumerate(Fm.pairs(rotate=not full)):
        if full or i % 8 == 0:
            yield j
    for k in range(len(TEXTS)):
        yield 'text', k
    for k in range(len(TREES)):
        yield 'tree', k


# documents written down in unusual ways: (text or bytes)
TEXTS = [
    '<top><!-- c --><a>1</a><!-- d --></top>', '<top><a>1<!-- c -->2</a></top>', '<top><a><!-- c -->12</a></top>',
    '<top><?pi x?><a>1</a></top>', '<top><a><?pi x?>1</a>t</top>', '<?pi x?><!-- c --><top><a>1</a></top><!-- e -->',
    '<top><a><![CDATA[1]]></a></top>', '<top><a>1<![CDATA[2]]></a></top>', '<top>\n  <a>1</a>\n  <b>x</b>\n</top>',
    '<top><a>&#49;</a><b>&lt;&amp;&gt;</b></top>', '<!DOCTYPE top><top><a>1</a></top>',
    '<!DOCTYPE top [<!ENTITY e "7">]><top><a>&e;</a></top>', '<!DOCTYPE top [<!ENTITY e "7">]><top k="&e;"><a>1</a></top>',
    '<top xmlns:x="urn:x"><a>1</a><x:a>2</x:a></top>', '<x:top xmlns:x="urn:x"><a>1</a></x:top>',
    '<top xmlns=""><a>1</a></top>', '<top xmlns="urn:d"><a xmlns="">1</a></top>', '<top k="a&#10;b&#9;c"><a>1</a></top>',
    '<top k=" x&#10;"><a>1</a></top>', '<top k="&#9;x &#32;"><a>&#32;1&#10;</a><b>&#10;&#9;</b></top>', '<top k="&#32;"><a>1</a></top>',
    '<top k=""><a>1</a><b>\n</b></top>', '<top k="&#160;x&#8232;"><a>1</a><b>&#160;x&#8232;</b></top>', '<top k="0"><a> 1\n</a><b>\tx\n</b></top>',
    '<top k="\u00e9&#x10000;\U0001f600"><a>\u0661</a><b>\U0001f600&#x10000;</b></top>',
    '<top k="a\nb\tc"><a>1</a></top>', '<top><a>1</a><b>a\r\nb</b></top>', '<top><a>1</a><b>a&#13;b</b></top>',
    '<?xml version="1.0"?><top><a>1</a></top>', b'<?xml version="1.0" encoding="utf-8"?><top><a>1</a><b>\xc3\xa9</b></top>',
    b'<?xml version="1.0" encoding="iso-8859-1"?><top><a>1</a><b>\xe9</b></top>',
    '<?xml version="1.0" encoding="utf-16"?><top><a>1</a><b>\u00e9</b></top>'.encode('utf-16'),
    b'\xef\xbb\xbf<top><a>1</a></top>', '<top><a>1</a>', '<top><a>1</b></top>', '', ' ', '<top/><top/>', '<top a="1" a="2"/>',
    '<top><p:a>1</p:a></top>', '<top><a>1</a>&undefined;</top>', '<top>\x00</top>', '<top><a>1</a></top>trailing',
    '<top><a>1</a><b/></top>', '<top><a>1</a><b></b></top>', '<top><a>1</a><b> </b></top>', '<top><a>1</a><b>\u2028\u00a0</b></top>',
    '<top><r k="1">t<s>u</s>v</r><a>1</a></top>', '<top><a>1</a><r xmlns="urn:r" xmlns:q="urn:q" q:k="1"><q:s/></r></top>',
    '<top xml:lang="en"><a>1</a></top>', '<top xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"><a xsi:nil="true"/></top>',
]
CR = '<top><a>1</a><b>a&#13;b</b></top>'     # the writer of the standard library does not escape carriage returns
TREES = ['<top><a>1</a><b>x</b></top>', '<top><b>x</b></top>', '<top k="1"><a>1</a>tail</top>', '<zz/>', '<top><r><s/>t</r></top>',
         '<top><a>1</a><!-- c --></top>', '<top><?pi x?><a>1</a></top>']


def text_prog(mode, extra):
    return Prog((Mod('Top', (F('k', Opt(P('str')), A(), default=None), F('a', Opt(P('int')), E(), default=None),
                             F('b', Opt(P('str')), E(), default=None), F('r', Opt(Raw()), E(), default=None)),
                     tag='top', mode=mode, extra=extra),), f'text {mode} {extra}')


def outcome(got, val):
    """observation of one call, without what the backends legitimately differ in: line numbers and parser error classes"""
    if got == 'ok':
        return 'ok', neutral(val)
    if got == 'err' and hasattr(val, 'errors'):
        return 'err', tuple(sorted((tuple(map(str, e['loc'])), e['type'], e['msg'].split(']: ', 1)[-1], shown(e['input']))
                                   for e in val.errors()))
    if got == 'err':
        return 'err', type(val).__name__, str(val)
    return 'rejected' if isinstance(val, SyntaxError) or type(val).__name__ in ('XMLSyntaxError', 'ParseError') \
        else f'{got} {type(val).__name__}'


def shown(x):
    """error inputs which are dictionaries may be iterated in any order; elements are compared as trees"""
    if isinstance(x, dict):
        return repr(sorted((str(k), shown(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return repr([shown(v) for v in x])
    return repr(neutral(x))


def observations(job, rep, tier):
    """yields (description, observation)"""
    if job[0] in ('text', 'tree'):
        for mode in Fm.MODES:
            for extra in (None, 'forbid'):
                c = G.Case(text_prog(mode, extra), rep)
                if not c.define():
                    return
                if job[0] == 'text':
                    doc = TEXTS[job[1]]
                    got, val = c.real_parse(doc)
                    yield f'{c.prog.label}: from_xml({doc!r})', outcome(got, val)
                    if got == 'ok' and doc != CR:
                        for opts in ({}, {'skip_empty': True}):
                            yield f'{c.prog.label}: to_xml of {doc!r}', outcome_ser(*c.real_tree(val, **opts))
                else:
                    doc = TREES[job[1]]
                    root = G.native().fromstring(doc)
                    try:
                        got, val = 'ok', c.top.from_xml_tree(root)
                    except Exception as e:
                        got, val = 'err', e
                    yield f'{c.prog.label}: from_xml_tree({doc!r})', outcome(got, val)
                    if got == 'ok':
                        yield f'{c.prog.label}: to_xml_tree of {doc!r}', R.node_of_native(val.to_xml_tree()).key()
        return
    prog, vals, fields = Fm.build(job)
    c = G.Case(prog, rep)
    if not c.define():
        return
    objs = Fm.objects(job, c.ref, cap=8) + ([] if job[0] == 'flat' and len(job[1]) == 2 else Fm.rich_objects(job, c.ref, 8))
    for o in objs:
        real = c.build(o)
        for opts in ({}, {'skip_empty': True}, {'exclude_none': True}, {'exclude_unset': True}):
            yield f'{prog.label}: {o!r} {opts}', outcome_ser(*c.real_tree(real, **opts))
    seeds = [c.ref.serialize(o, quirks=False) for o in objs[:4]]
    docs, edges = G.explore_docs(seeds, 1)
    for d in docs:
        text = R.to_xml(d)
        yield f'{prog.label}: {text}', outcome(*c.real_parse(text))


def outcome_ser(got, data):
    return G.parse_output(data).key() if got == 'ok' else f'{got} {type(data).__name__}'


def run(job, rep, tier, backend):
    hs = []
    for desc, obs in observations(job, rep, tier):
        rep.states += 1
        rep.transitions += 1
        rep.traces += 1
        hs.append(hashlib.sha1(repr(obs).encode('utf-8', 'backslashreplace')).hexdigest()[:10])
        rep.count('accepted' if obs[0] == 'ok' else 'rejected' if obs[0] == 'err' else 'other')
    rep.digests[repr(job)] = ''.join(hs)
    if hs:
        rep.sample(f'{desc[:200]} -> {str(obs)[:200]}')


def explain(job, idx, tier):
    for i, (desc, obs) in enumerate(observations(job, G.Report(), tier)):
        if i == idx:
            return desc, repr(obs)
    return '(no such observation)', ''


if __name__ == '__main__':
    import sys
    job, idx, tier = eval(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    desc, obs = explain(job, idx, tier)
    print(desc)
    print(obs)
