"""C27: only the information in a document counts, not how the document is written down."""
import itertools as it
import xml.etree.ElementTree as ET

from harness import engine as G
from harness import families as Fm
from harness import ref as R
from harness.ref import Node, neutral

# ------------------------------------------------------------------------------------------------------------ writers

PREFIXES = ('prefixes', 'default', 'local', 'clash', 'redundant')
TEXTS = ('plain', 'cdata', 'charref', 'hex', 'mixed', 'entity')
MISC = ('none', 'comments', 'pis', 'inner_comments', 'multi')
LAYOUT = ('none', 'indent', 'tabs', 'crlf', 'attr_order', 'quotes', 'spaces', 'long_empty', 'prolog', 'doctype')
INDENT = {'indent': ('\n', '  '), 'tabs': ('\n', '\t'), 'crlf': ('\r\n\r\n', ' \t')}
ENCODINGS = ('str', 'utf-8', 'utf-8-decl', 'utf-8-bom', 'utf-16', 'iso-8859-1', 'us-ascii', 'str-standalone')


def esc(s, style, attr=False):
    if style == 'charref' and s:
        return ''.join(f'&#{ord(c)};' for c in s)
    if style == 'hex' and s:
        return ''.join(f'&#x{ord(c):X};' if i % 2 else R.esc(c, attr) for i, c in enumerate(s))
    if style == 'entity' and s and not attr:
        return '&whole;' if s == 'x' else R.esc(s)
    if attr or not s or style in ('plain', 'entity'):
        return R.esc(s, attr)
    if '\r' in s:
        return R.esc(s)
    if style == 'cdata':
        return '<![CDATA[' + s.replace(']]>', ']]]]><![CDATA[>') + ']]>'
    if style == 'mixed':
        k = len(s) // 2
        return R.esc(s[:k]) + '<![CDATA[' + s[k:].replace(']]>', ']]]]><![CDATA[>') + ']]><![CDATA[]]>'
    return R.esc(s)


def note(misc, inner=False):
    if misc == 'comments' and not inner or misc == 'inner_comments' and inner:
        return '<!-- a <b k="1">comment</b> -->'
    if misc == 'pis' and not inner:
        return '<?pi some="data"?>'
    if misc == 'multi':
        return '<!--1--><?p 2?><!---->'
    return ''


def write(node, prefix='prefixes', text='plain', misc='none', layout='none'):
    """another way to write the same document down"""
    counter = it.count()
    uris = []

    def collect(n):
        for t in [n.tag, *n.attrs]:
            if t[0] == '{':
                u = t[1:].split('}')[0]
                if u not in uris:
                    uris.append(u)
        for k in n.kids:
            collect(k)
    collect(node)
    root_scope = {f'k{i}': u for i, u in enumerate(uris)} if prefix in ('prefixes', 'redundant') else {}

    def walk(n, scope, depth, top):
        scope = dict(scope)
        decl = {}
        if top:
            decl.update(root_scope)
            scope.update(root_scope)

        def declare(p, u):
            decl[p] = u
            scope[p] = u

        def name(t, attr):
            if t[0] != '{':
                if not attr and scope.get(''):
                    declare('', '')
                return t
            u, local = t[1:].split('}')
            if not attr and prefix == 'default':
                if scope.get('') != u:
                    declare('', u)
                return local
            if prefix in ('local', 'clash'):
                # `local`: every element declares its own prefixes, `clash`: the same prefix for everything
                for p, v in decl.items():
                    if v == u and p:
                        return f'{p}:{local}'
                p = f'n{next(counter)}' if prefix == 'local' else ('c' if 'c' not in decl else f'c{len(decl)}')
                declare(p, u)
                return f'{p}:{local}'
            for p, v in scope.items():
                if v == u and p:
                    return f'{p}:{local}'
            p = f'a{next(counter)}'
            declare(p, u)
            return f'{p}:{local}'

        if prefix == 'default' and n.tag[0] != '{' and scope.get(''):
            declare('', '')
        tag = name(n.tag, False)
        attrs = [(name(k, True), v) for k, v in n.attrs.items()]
        if prefix == 'redundant':
            for p, u in root_scope.items():
                decl.setdefault(p, u)
            decl['unused'] = 'urn:unused'
        q = "'" if layout == 'quotes' else '"'

        def av(v):
            s = esc(v, text, True)
            return s.replace("'", '&#39;')

        parts = [f'xmlns{":" + p if p else ""}={q}{R.esc(u, True)}{q}' for p, u in decl.items()]
        parts += [f'{k}{" = " if layout == "spaces" else "="}{q}{av(v)}{q}' for k, v in attrs]
        if layout == 'attr_order':
            parts.reverse()
        sep = '\n  ' if layout == 'spaces' else ' '
        head = tag + ''.join(sep + p for p in parts) + (' ' if layout == 'spaces' else '')
        pad = ''
        if layout in INDENT and n.kids:
            pad = INDENT[layout][0] + INDENT[layout][1] * (depth + 1)
        body = note(misc) + half(n.text or '', text, misc) + note(misc) + pad
        for i, k in enumerate(n.kids):
            body += walk(k, scope, depth + 1, False) + note(misc) + half(k.tail or '', text, misc)
            if pad:
                body += pad if i + 1 < len(n.kids) else pad[:-len(INDENT[layout][1])]
        if misc != 'none' and not n.kids and not n.text:
            pass
        if not body and layout != 'long_empty':
            return f'<{head}/>'
        return f'<{head}>{body}</{tag}{" " if layout == "spaces" else ""}>'

    return walk(node, {}, 0, True)


def half(s, text, misc):
    """comments in the middle of text"""
    if misc in ('inner_comments', 'multi') and len(s) > 1:
        k = len(s) // 2
        return esc(s[:k], text) + note(misc, True) + esc(s[k:], text)
    return esc(s, text)


def document(node, encoding='str', **style):
    body = write(node, **style)
    layout, text = style.get('layout'), style.get('text')
    if text == 'entity':
        body = '<!DOCTYPE any [<!ENTITY whole "x"><!ENTITY unused "&#60;y/>">]>' + body
    elif layout == 'doctype':
        body = '<!DOCTYPE any>\n' + body
    if layout == 'prolog':
        body = '<!-- before --><?before it?>\n' + body + '\n<!-- after --><?after it?>\n'
    if encoding == 'str':
        return body
    if encoding == 'str-standalone':
        return '<?xml version="1.0" standalone="yes"?>\n' + body
    if encoding == 'utf-8':
        return body.encode()
    if encoding == 'utf-8-bom':
        return b'\xef\xbb\xbf' + body.encode()
    codec = 'utf-8' if encoding == 'utf-8-decl' else encoding
    return f'<?xml version="1.0" encoding="{codec}"?>\n{body}'.encode(codec, 'xmlcharrefreplace')


AXES = dict(prefix=PREFIXES, text=TEXTS, misc=MISC, layout=LAYOUT, encoding=ENCODINGS)
SINGLES = [{a: v} for a, vs in AXES.items() for v in vs]
PAIRS = [{a: x, b: y} for a, b in it.combinations(AXES, 2) for x in AXES[a][1:] for y in AXES[b][1:]]
PARAMS = ('plain', 'ns+dns', 'ns_attrs', 'forbid')


def jobs(tier, backend):
    full = tier != 'quick'
    for j in Fm.singles(modes=('strict',), params={p: Fm.PARAMS[p] for p in PARAMS}):
        yield 'read', j, 2 if full else 1
    for n, j in enumerate(Fm.nested(modes=('strict',))):
        if full or n % 2 == (backend == 'std'):
            yield 'read', j, 1
    for n, j in enumerate(Fm.pairs(modes=('ordered',))):
        if full or n % 24 == 12 * (backend == 'std'):
            yield 'read', j, 1
    for j in Fm.singles(modes=('strict',), params={p: Fm.PARAMS[p] for p in PARAMS}):
        yield 'write', j, 1


def parsers(text, backend):
    if backend == 'std':
        keep = ET.XMLParser(target=ET.TreeBuilder(insert_comments=True, insert_pis=True))
        root = ET.fromstring(text, keep)
        yield root, {}
        yield None, dict(parser=ET.XMLParser(target=ET.TreeBuilder(insert_comments=True, insert_pis=True)))
    else:
        from lxml import etree
        kinds = dict(remove_comments=True), dict(remove_pis=True), dict(remove_comments=True, remove_pis=True), dict(strip_cdata=False)
        for kw in kinds:
            yield None, dict(parser=etree.XMLParser(**kw))
        yield etree.fromstring(text), {}


def run(job, rep, tier, backend):
    what, job, deep = job
    prog, vals, fields = Fm.build(job)
    c = G.Case(prog, rep)
    if not c.define():
        return
    objs = Fm.objects(job, c.ref, cap=3, product=False)
    if job[0] == 'flat':
        objs += Fm.rich_objects(job, c.ref, 6 if tier == 'quick' else None)
    if what == 'write':
        return written(c, objs, rep, backend)
    docs = [c.ref.serialize(o, quirks=False) for o in objs]
    if deep > 1 or job[0] == 'flat':
        e = list(G.edits(docs[0]))
        docs += e if deep > 1 else e[::7]
    styles = SINGLES + (PAIRS if deep > 1 else PAIRS[len(prog.label) % 9::9])
    n = 0
    for d in docs:
        base = d.key()
        for st in styles if d is docs[0] else SINGLES:
            text = document(d, **st)
            doc = R.node_of_native(ET.fromstring(text))
            if st.get('layout') not in INDENT and doc.key() != base:
                raise AssertionError(f'the document is not written faithfully: {st} {text!r} {R.to_xml(d)}')
            n += 1
            rep.states += 1
            c.check_parse(doc, text=text)
            if st.get('misc', 'none') != 'none' or st.get('layout') == 'prolog':
                # the parser of the application decides what the tree contains
                for tree, kw in parsers(text, backend) if deep > 1 else it.islice(parsers(text, backend), rep.states % 5, None, 5):
                    rep.states += 1
                    c.check_parse(doc, text=text, tree=tree, **kw)
    rep.sample(f'{prog.label}: {n} documents, e.g. {text!r}')


def written(c, objs, rep, backend):
    """the options of the xml library change the notation of the result only"""
    options = [dict(), dict(encoding='unicode') if backend == 'std' else dict(encoding='unicode'), dict(encoding='utf-8'), dict(encoding='us-ascii'),
               dict(encoding='utf-16'), dict(encoding='iso-8859-1'), dict(xml_declaration=True), dict(encoding='utf-8', xml_declaration=True)]
    if backend == 'std':
        options += [dict(short_empty_elements=False), dict(method='xml')]
    else:
        options += [dict(standalone=True), dict(standalone=False), dict(doctype='<!DOCTYPE any>'), dict(method='xml'), dict(with_tail=False),
                    dict(method='c14n')]
    for o in objs:
        real = c.build(o)
        if real is None:
            return
        res = c.check_serialize(o, real)
        if res is None:
            continue
        for kw in options:
            rep.states += 1
            rep.transitions += 1
            rep.traces += 1
            for extra in ({}, dict(skip_empty=False)):
                got, data = c.real_tree(real, **kw, **extra)
                if got == 'ok':
                    try:
                        ok = G.parse_output(data).key() == res[1].key()
                    except ET.ParseError as e:
                        got, ok = str(e), False
                else:
                    ok = False
                if not ok:
                    rep.violation('an option of the xml library changes more than the notation of the document', program=c.prog.label,
                                  source=c.src, value=repr(real), kwargs=kw, got=repr(data), expected=R.to_xml(res[1]))
                    return
