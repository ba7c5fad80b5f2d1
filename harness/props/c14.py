"""C14: every operation depends on its arguments only: no history changes the outcome of another operation."""
import itertools as it
import re
from dataclasses import replace

import pydantic as pd

from harness import engine as G
from harness import families as Fm
from harness import ref as R
from harness import spec as S
from harness.ref import Node, Obj, neutral
from harness.spec import A, E, F, M, Map, Mod, Opt, P, Prog, Raw, Seq, Tag, Tup, Uni, W

FAULT = {'at': 0, 'n': 0}


class Injected(BaseException):
    pass


def tick():
    FAULT['n'] += 1
    if FAULT['n'] == FAULT['at']:
        raise Injected()


HOOK = '''    @pydantic.model_validator(mode="before")
    @classmethod
    def _hk(cls, v):
        tick()
        return v
'''

EXACT = '''    @xml_field_serializer('zz')
    def _zs(self, element, value, field_name):
        if value is not None:
            element.set_attribute('zz', str(value))
    @xml_field_validator('zz')
    @classmethod
    def _zv(cls, element, field_name):
        return element.pop_attrib('zz')
'''

OPS = ('parse1', 'parse2', 'reject', 'tree1', 'tree2', 'write1', 'write2', 'writeskip', 'mutate_out', 'mutate_obj', 'fault1', 'fault2',
       'derive', 'embed', 'rebuild', 'eas', 'copy', 'broken')


NS = dict(ns='p', nsmap=(('p', 'urn:p'), ('', 'urn:d'), ('o', 'urn:o')))


def jobs(tier, backend):
    """(program family, length of the histories which start in a fresh world, length of their continuations)"""
    yield 'shared', 2 if tier == 'quick' else 3
    names = Fm.kind_names()
    for i, n in enumerate(names):
        mine = i % 2 == (backend == 'std')
        for k, mode in enumerate(Fm.MODES):
            if tier != 'quick':
                yield ('flat', (n,), Fm.freeze({'mode': mode})), 2, 2
                yield ('flat', (n,), Fm.freeze({'mode': mode, **NS})), 1, 2
            elif k == i % 3:
                yield ('flat', (n,), Fm.freeze({'mode': mode})), 2 if mine and i % 5 < 3 else 1, 1
                if not mine:
                    yield ('flat', (n,), Fm.freeze({'mode': mode, **NS})), 1, 1
    for i, n in enumerate(names):
        for k, how in enumerate(Fm.NESTINGS):
            if tier != 'quick' or i % len(Fm.NESTINGS) == k:
                yield ('nest', how, (n,), Fm.freeze({'mode': Fm.MODES[(i + k + 1) % 3]})), 1, 1 if tier == 'quick' else 2
    for p in PAIRS:
        for k, m in enumerate(Fm.MODES):
            if tier == 'quick' and k != (backend == 'std'):
                continue
            yield ('flat', p, Fm.freeze({'mode': m, **NS} if k else {'mode': m})), 1 if tier == 'quick' else 2, 2


PAIRS = (('attr_default', 'list_model_default'), ('elem_alias_default', 'dict_elem'), ('model_deep', 'list_default'),
         ('union_models', 'elem_default'), ('tagged_list', 'elem_opt'), ('wrap_list', 'model_nillable'), ('raw_elem', 'set_int'))
PAIRS = tuple(p for p in PAIRS if all(n in Fm.kind_names() for n in p))


def deep_mutate(v, seen):
    """overwrites everything mutable that is reachable"""
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, pd.BaseModel):
        for x in list(v.__dict__.values()):
            deep_mutate(x, seen)
        for k in list(v.__dict__):
            v.__dict__[k] = 'mutated'
        v.__pydantic_fields_set__.clear()
    elif isinstance(v, list):
        for x in v:
            deep_mutate(x, seen)
        v.append('mutated')
    elif isinstance(v, tuple):
        for x in v:
            deep_mutate(x, seen)
    elif isinstance(v, dict):
        for x in v.values():
            deep_mutate(x, seen)
        v['mutated'] = 'mutated'
    elif isinstance(v, set):
        v.add('mutated')
    elif hasattr(v, 'attrib') and hasattr(v, 'append'):
        for x in list(v):
            deep_mutate(x, seen)
        v.text = 'mutated'
        v.set('mutated', 'mutated')


class World:
    """one fresh set of classes, values and trees"""

    def __init__(self, case, objs, docs, bad):
        self.case = case
        case.define()
        case.ns['tick'] = tick
        self.ns = case.ns
        self.cls = case.top
        self.objs = [G.to_real(o, case.ns, case.ref) for o in objs]
        self.docs = docs
        self.bad = bad
        self.trees = [G.to_native(d) for d in docs]
        self.ctx = {'k': [1]}
        self.n = 0

    def outcome(self, fn):
        from pydantic_xml import ParsingError
        try:
            with G.budget(20):
                v = fn()
        except G.Hang:
            return ('hang',)
        except Injected:
            return ('injected',)
        except pd.ValidationError as e:
            return ('invalid', tuple(sorted((x['type'], x['loc'], x['msg']) for x in e.errors(include_url=False))))
        except ParsingError as e:
            return ('parsing', str(e))
        except Exception as e:
            return ('exc', type(e).__name__, str(e)[:200])
        if isinstance(v, bytes):
            return ('xml', G.parse_output(v).key())
        if isinstance(v, pd.BaseModel):
            return ('obj', neutral(v))
        if hasattr(v, 'attrib'):
            return ('xml', R.node_of_native(v).key())
        return ('val', repr(v))

    def step(self, op):
        # the documents have different line structures
        cls, t = self.cls, lambda i: re.sub(r'(<[\w:.-]+)', '\\1' + '\n' * (3 * i + 1), R.to_xml(self.docs[i]))
        if op == 'parse1':
            return self.outcome(lambda: cls.from_xml(t(0), context=self.ctx))
        if op == 'parse2':
            return self.outcome(lambda: cls.from_xml(t(1)))
        if op == 'reject':
            return tuple(self.outcome(lambda: cls.from_xml(R.to_xml(b))) for b in self.bad)
        if op == 'tree1':
            return self.outcome(lambda: cls.from_xml_tree(self.trees[0]))
        if op == 'tree2':
            return self.outcome(lambda: cls.from_xml_tree(self.trees[1], context=self.ctx))
        if op == 'eas':
            return self.outcome(lambda: cls.from_xml(t(1), empty_as_string=True))
        if op == 'write1':
            return self.outcome(lambda: self.objs[0].to_xml())
        if op == 'write2':
            return self.outcome(lambda: self.objs[1].to_xml_tree(exclude_none=True))
        if op == 'writeskip':
            return self.outcome(lambda: self.objs[0].to_xml(skip_empty=True, exclude_unset=True))
        if op == 'mutate_out':
            def run():
                el = self.objs[0].to_xml_tree()
                res = R.node_of_native(el)
                deep_mutate(el, set())
                return res
            return self.outcome(run)
        if op == 'mutate_obj':
            def run():
                o = cls.from_xml_tree(self.trees[0])
                p = cls.from_xml(t(1))
                res = (neutral(o), neutral(p))
                deep_mutate(o, set())
                deep_mutate(p, set())
                return res
            return self.outcome(run)
        if op in ('fault1', 'fault2'):
            def run():
                FAULT.update(at=int(op[-1]), n=0)
                try:
                    return cls.from_xml_tree(self.trees[0])
                finally:
                    FAULT.update(at=0)
            return self.outcome(run)
        if op == 'derive':
            def run():
                self.n += 1
                from pydantic_xml import xml_field_serializer, xml_field_validator
                hooks = {}
                if 'zz' in cls.model_fields:
                    f = next(iter(cls.model_fields))
                    hooks = {'hs': xml_field_serializer(f)(lambda self, el, value, name: el.set_attribute('derived', 'yes')),
                             'hv': xml_field_validator(f)(lambda cls, el, name: 'derived')}
                Sub = type(cls)('Sub', (cls,), {'__module__': '__main__', **hooks}, tag='derived', ns='dv', ns_attrs=True, skip_empty=True,
                                nsmap={'dv': 'urn:derived', 'o': 'urn:other', 'p': 'urn:q', '': 'urn:dd'}, search_mode='unordered')
                return Sub.model_construct(set(self.objs[0].model_fields_set), **self.objs[0].__dict__).to_xml()
            return self.outcome(run)
        if op == 'embed':
            def run():
                from pydantic_xml import BaseXmlModel, element
                Emb = type(BaseXmlModel)('Emb', (BaseXmlModel,), {
                    '__module__': '__main__', '__annotations__': {'x': cls}, 'x': element('emb', ns='e', nsmap={'e': 'urn:e'})},
                    nsmap={'': 'urn:default', 'p': 'urn:else'})
                return Emb.model_construct(x=self.objs[0]).to_xml()
            return self.outcome(run)
        if op == 'rebuild':
            return self.outcome(lambda: cls.model_rebuild(force=True))
        if op == 'copy':
            def run():
                c = self.objs[1].model_copy(deep=True)
                res = c.to_xml()
                deep_mutate(c, set())
                return res
            return self.outcome(run)
        if op == 'broken':
            def run():
                cls.model_construct().to_xml()
                return None
            r = self.outcome(run)
            return ('broken',) if r[0] == 'exc' else r
        raise AssertionError(op)

    def intact(self):
        """everything handed in is as it was"""
        return (tuple(neutral(o) for o in self.objs), tuple(R.node_of_native(t).key() for t in self.trees), repr(self.ctx),
                repr(getattr(self.cls, '__xml_nsmap__', None)))


SHARED = ('cm_full', 'cm_plain', 'cm_config', 'pd_plain', 'class', 'wrapped', 'entity', 'entity_opt', 'entity_attr', 'computed', 'annotated',
          'root')


def shared_objects():
    from pydantic_xml import attr, element, wrapped
    nsmap = {'p': 'urn:p', '': 'urn:d'}
    return {'nsmap': nsmap, 'kw': {}, 'config': {'extra': 'forbid', 'title': 'T'},
            'elem': element(ns='p', nsmap=nsmap, default=None), 'attr': attr(ns='p', default=None),
            'inner': element(tag='i', ns='p'), 'entity': wrapped('w/v', element(ns='p', nsmap=nsmap), ns='p', nsmap=nsmap)}


def shared_define(op, sh):
    """one definition which is handed some of the shared objects: its class and the values to be written"""
    import typing as t

    import pydantic_xml as px
    Meta = type(px.BaseXmlModel)
    if op == 'cm_full':
        return px.create_model('Full', __tag__='full', __ns__='p', __nsmap__=sh['nsmap'], __ns_attrs__=True, __skip_empty__=True,
                               __search_mode__=px.model.SearchMode.UNORDERED, __cls_kwargs__=sh['kw'],
                               f=(int, px.attr()), g=(t.Optional[int], px.element(default=None))), {'f': 1}
    if op == 'cm_plain':
        return px.create_model('Plain', __cls_kwargs__=sh['kw'], f=(int, px.attr()), g=(t.Optional[int], px.element(default=None))), {'f': 1}
    if op == 'cm_config':
        return px.create_model('Conf', __config__=sh['config'], __nsmap__=sh['nsmap'], f=(int, px.element())), {'f': 1}
    if op == 'pd_plain':
        return pd.create_model('Pd', __base__=px.BaseXmlModel, __cls_kwargs__=sh['kw'], f=(int, px.element()),
                               g=(t.Optional[int], px.element(default=None))), {'f': 1}
    body = {'__module__': '__main__'}
    if op == 'class':
        return Meta('Cls', (px.BaseXmlModel,), {**body, '__annotations__': {'f': int}, 'f': px.element(ns='p'),
                                                'model_config': sh['config']}, nsmap=sh['nsmap'], tag='cls'), {'f': 1}
    if op == 'wrapped':
        return Meta('Wr', (px.BaseXmlModel,), {**body, '__annotations__': {'f': int, 'g': t.List[int]},
                                               'f': px.wrapped('a', sh['inner'], nsmap=sh['nsmap'], ns='p'),
                                               'g': px.wrapped('b', sh['inner'])}, nsmap=sh['nsmap']), {'f': 1, 'g': [1, 2]}
    if op in ('entity', 'entity_opt'):
        ann = int if op == 'entity' else t.Optional[t.List[int]]
        return Meta('Ent', (px.BaseXmlModel,), {**body, '__annotations__': {'f': ann, op: t.Optional[int]},
                                                'f': sh['entity'], op: sh['elem']}), {'f': 1 if ann is int else [1, 2], op: 5}
    if op == 'entity_attr':
        return Meta('At', (px.BaseXmlModel,), {**body, '__annotations__': {'first': t.Optional[int], 'second': t.Optional[str]},
                                               'first': sh['attr'], 'second': sh['attr']}, nsmap=sh['nsmap']), {'first': 1, 'second': 's'}
    if op == 'computed':
        def c(self) -> int:
            return 7
        return Meta('Comp', (px.BaseXmlModel,), {
            **body, '__annotations__': {'f': int}, 'f': px.element(),
            'c': px.computed_element(ns='p', nsmap=sh['nsmap'])(property(c))}), {'f': 1}
    if op == 'annotated':
        return Meta('Ann', (px.BaseXmlModel,), {**body, '__annotations__': {'f': t.Annotated[int, sh['inner']], 'h': t.Annotated[int, sh['elem']]}},
                    nsmap=sh['nsmap']), {'f': 1, 'h': 3}
    if op == 'root':
        return type(px.RootXmlModel)('Rt', (px.RootXmlModel,), {**body, '__annotations__': {'root': t.List[int]}, 'root': sh['inner']},
                    nsmap=sh['nsmap'], tag='r'), {'root': [1, 2]}
    raise AssertionError(op)


def run_shared(job, rep, tier):
    """classes which are defined one after another from the same objects (maps, options, entities)"""
    def outcome(cls, values):
        if isinstance(cls, str):
            return cls
        try:
            obj = cls(**values) if 'root' not in values else cls(values['root'])
            out = [R.node_of_native(obj.to_xml_tree(skip_empty=True)).key()]
            text = obj.to_xml()
            out.append(R.node_of_native(obj.to_xml_tree()).key())
            out.append(cls.from_xml(text) == obj)
            out.append(repr(sorted(cls.model_config.items())))
            return out
        except Exception as e:
            return [type(e).__name__, str(e)[:300]]

    def define(op, sh):
        try:
            return shared_define(op, sh)
        except Exception as e:
            return f'{type(e).__name__}: {e}', {}

    def state(sh):
        return repr(sh)

    alone = {}
    for op in SHARED:
        alone[op] = outcome(*define(op, shared_objects()))
        rep.states += 1
        if isinstance(alone[op], str) or len(alone[op]) == 2 or not alone[op][2]:
            rep.violation('a model made of shared objects cannot be defined or does not survive a round trip', history=[op],
                          got=str(alone[op])[:600])
            return
    depth = job[1]
    for hist in it.product(SHARED, repeat=depth):
        sh = shared_objects()
        before = state(sh)
        made = []
        for i, op in enumerate(hist):
            made.append((op, define(op, sh)))
            rep.transitions += 1
            if state(sh) != before:
                rep.violation('a definition changes the objects it is given', history=list(hist[:i + 1]), got=state(sh)[:900], expected=before[:900])
                return
        rep.states += 1
        rep.traces += 1
        for op, d in made:
            got = outcome(*d)
            if got != alone[op]:
                rep.violation('a definition depends on earlier ones made from the same objects', history=list(hist), operation=op,
                              got=str(got)[:600], expected=str(alone[op])[:600])
                return
        if state(sh) != before:
            rep.violation('using the classes changes the objects of their definition', history=list(hist), got=state(sh)[:900],
                          expected=before[:900])
            return


def run(job, rep, tier, backend):
    if job[0] == 'shared':
        return run_shared(job, rep, tier)
    fam, fresh, more = job
    prog, vals, fields = Fm.build(fam)
    prog = replace(prog, models=tuple(replace(m, body=m.body + HOOK) for m in prog.models))
    S.compile_prog(Prog((Mod('X'),), ''))
    S._PRELUDE_NS['tick'] = tick
    if not prog.top.root and all(f.ent not in (None, S.TEXT) for f in prog.top.fields):
        prog = replace(prog, models=(*prog.models[:-1], replace(
            prog.top, fields=(*prog.top.fields, F('zz', Opt(P('int')), A('zz'), default=None)), body=prog.top.body + EXACT)))
    case = G.Case(prog, rep)
    objs = [G.complete(o, case.ref) for o in Fm.objects(fam, case.ref, cap=8)]
    objs = [objs[0], objs[-1]]
    d0, d1 = (case.ref.serialize(o) for o in objs)
    # second document: one with as much missing as possible, so that defaults are used
    best = d1
    for doc in sorted((e for e in G.edits(d0)), key=lambda n: len(R.to_xml(n))):
        if doc.tag == d0.tag and any(o[0] == 'ok' for o in case.ref.parses(doc) or []):
            best = doc
            break
    empty = Node(d0.tag)
    if any(o[0] == 'ok' for o in case.ref.parses(empty) or []):
        best = empty
    bad = [doc for doc in G.edits(d0) if doc.tag == d0.tag and all(o[0] != 'ok' for o in case.ref.parses(doc) or [('ok',)])]
    bad = [*bad[:4], *bad[4::max(1, len(bad) // 4)], Node('unknown')]
    rep.sample(f'{prog.label}: {d0!r} / {best!r} / {bad!r}')

    def world():
        return World(G.Case(prog, rep), objs, [d0, best], bad)

    alone = {}
    w = world()
    base = w.intact()
    for op in OPS:
        w = world()
        alone[op] = w.step(op)
        rep.states += 1
        rep.transitions += 1
        if w.intact() != base:
            rep.violation('an operation changes its inputs', program=prog.label, source=case.src, history=[op],
                          got=str(w.intact()), expected=str(base))
            return
        if alone[op][0] in ('hang',):
            rep.violation('an operation does not terminate', program=prog.label, source=case.src, history=[op])
            return
    # all histories of length `fresh`, each in a fresh world, each continued by all histories of length `more` in turn
    for head in it.product(OPS, repeat=fresh):
        w = world()
        hist = []
        for tail in [head, *it.product(OPS, repeat=more)]:
            for op in tail:
                hist.append(op)
                got = w.step(op)
                rep.transitions += 1
                if got != alone[op]:
                    rep.violation('the outcome of an operation depends on the history', program=prog.label, source=case.src,
                                  history=hist[-8:], got=str(got)[:600], expected=str(alone[op])[:600])
                    return
            rep.states += 1
            rep.traces += 1
        if w.intact() != base:
            rep.violation('a history of operations changes their inputs', program=prog.label, source=case.src, history=hist[-8:],
                          got=str(w.intact()), expected=str(base))
            return
