"""C15: concurrent operations on the same model classes behave as if executed one after another."""
import itertools as it
import os
import sys
import threading
from dataclasses import replace

import pydantic as pd

from harness import engine as G
from harness import families as Fm
from harness import ref as R
from harness import spec as S
from harness.ref import Node, neutral
from harness.spec import Mod, Prog

INF = 1 << 60
WAIT = 2.0      # a thread which does not come back within this time waits for the other one: the schedule is released


class Sched:
    """runs two threads, one at a time, switching after given numbers of events"""

    def __init__(self, plan, grain, prefix):
        self.plan = list(plan)
        self.grain = grain
        self.prefix = prefix
        self.cur = 0
        self.left = self.plan.pop(0) if self.plan else INF
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.count = [0, 0]
        self.free = False
        self.preempted = 0
        self.out = [None, None]

    def event(self, tid):
        if self.free:
            return
        self.count[tid] += 1
        if self.left > 0:
            self.left -= 1
            return
        other = 1 - tid
        self.left = self.plan.pop(0) if self.plan else INF
        if self.done[other]:
            return
        self.preempted += 1
        self.cur = other
        self.go[other].release()
        if not self.go[tid].acquire(timeout=WAIT):
            self.free = True

    def tracer(self, tid):
        event, grain, prefix = self.event, self.grain, self.prefix

        def local(frame, what, arg):
            if what == grain:
                event(tid)
            return local

        def glob(frame, what, arg):
            if frame.f_code.co_filename.startswith(prefix):
                event(tid)
                return local if grain != 'call' else None
            return None

        return glob

    def body(self, tid, fn):
        self.go[tid].acquire()
        sys.settrace(self.tracer(tid))
        try:
            self.out[tid] = fn()
        except BaseException as e:
            self.out[tid] = ('exc', type(e).__name__, str(e)[:300])
        finally:
            sys.settrace(None)
            self.done[tid] = True
            self.left = INF
            self.go[1 - tid].release()

    def run(self, fns):
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        self.go[0].release()
        for t in ts:
            t.join(30)
            if t.is_alive():
                self.free = True
                for g in self.go:
                    g.release()
                return False
        return True


def outcome(fn):
    from pydantic_xml import ParsingError
    try:
        v = fn()
    except pd.ValidationError as e:
        return ('invalid', tuple(sorted((x['type'], x['loc'], x['msg']) for x in e.errors(include_url=False))))
    except ParsingError as e:
        return ('parsing', str(e))
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:200])
    if isinstance(v, bytes):
        return ('xml', G.parse_output(v).key())
    if isinstance(v, pd.BaseModel):
        return ('obj', neutral(v))
    return ('val', repr(v))


OPS = ('parse1', 'parse2', 'reject', 'write1', 'write2', 'writeskip')
OPTIONS = (('unset', 'write1'), ('none', 'write1'), ('skip', 'write1'), ('empty', 'parse1'), ('unset', 'none'))
CLASS_OPS = ('derive', 'fresh')


def ops(case, objs, docs, bad, every):
    cls = case.top
    real = [G.to_real(o, case.ns, case.ref) for o in objs]
    text = [R.to_xml(d) for d in docs]

    def derive():
        sub = type(cls)('Sub', (cls,), {'__module__': '__main__'}, tag='derived', nsmap={'dv': 'urn:dv'}, ns='dv', skip_empty=True)
        return sub.model_construct(set(real[0].model_fields_set), **real[0].__dict__).to_xml()

    def fresh():
        ns = S.compile_prog(case.prog)
        return ns[case.prog.top.name].from_xml(text[0])

    def bare(node):
        return Node(node.tag, None, node.attrs, [bare(k) for k in node.kids])

    empty = R.to_xml(bare(docs[0]))
    sensitive = {}

    def sens(option):
        # an object which the option makes a difference for, if there is one
        if option not in sensitive:
            for o in every:
                r = G.to_real(o, case.ns, case.ref)
                if option == 'exclude_unset':
                    r = type(r).model_construct(set(list(type(r).model_fields)[:1]), **r.__dict__)
                if outcome(r.to_xml) != outcome(lambda: r.to_xml(**{option: True})):
                    break
            sensitive[option] = r
        return sensitive[option]

    return {
        'parse1': lambda: outcome(lambda: cls.from_xml(text[0], context={'c': 1})),
        'parse2': lambda: outcome(lambda: cls.from_xml(text[1], empty_as_string=True)),
        'reject': lambda: outcome(lambda: cls.from_xml(R.to_xml(bad))),
        'write1': lambda: outcome(lambda: real[0].to_xml()),
        'write2': lambda: outcome(lambda: real[1].to_xml(exclude_none=True)),
        'writeskip': lambda: outcome(lambda: real[0].to_xml(skip_empty=True)),
        'unset': lambda: outcome(lambda: sens('exclude_unset').to_xml(exclude_unset=True)),
        'none': lambda: outcome(lambda: sens('exclude_none').to_xml(exclude_none=True)),
        'skip': lambda: outcome(lambda: sens('skip_empty').to_xml(skip_empty=True)),
        'empty': lambda: outcome(lambda: cls.from_xml(empty, empty_as_string=True)),
        'derive': lambda: outcome(derive),
        'fresh': lambda: outcome(fresh),
    }


PROGRAMS = [
    ('flat', ('attr_default', 'list_model_default')), ('flat', ('elem_opt', 'model_deep')), ('flat', ('elem_ns', 'model_ns')),
    ('flat', ('union_list', 'elem_default')), ('flat', ('tagged_list', 'elem_opt')), ('flat', ('wrap_list', 'wrap_attr')),
    ('flat', ('tuple_model', 'set_int')), ('flat', ('dict_elem', 'named_tuple')), ('flat', ('raw_elem', 'elem_nillable')),
    ('flat', ('root_list', 'computed_elem')), ('flat', ('union_models', 'model_forbid')), ('flat', ('list_tuple', 'text_opt')),
    ('nest', 'list', ('wrap_path',)), ('nest', 'union', ('elem_default',)), ('nest', 'root_list', ('attr_opt',)),
    ('nest', 'deep', ('list_int',)),
]


SMALL = [('flat', (n,)) for n in ('elem_opt', 'attr_default', 'list_int', 'model', 'union_models', 'wrap_elem', 'tagged_union',
                                  'dict_elem', 'tuple_fixed', 'raw_elem', 'list_model', 'root_int')]
PAIRS2 = (('parse1', 'parse2'), ('reject', 'parse1'), ('write1', 'write2'), ('write1', 'parse1'), ('parse1', 'writeskip'))


def jobs(tier, backend):
    """(program, operation, operation, preemption bound, granularity, part of the schedules)"""
    quick = tier == 'quick'
    for i, p in enumerate(PROGRAMS):
        for k, (a, b) in enumerate(it.product(OPS, repeat=2)):
            if quick and (i + k) % 8 != 3 * (backend == 'std'):
                continue
            yield p, a, b, 1, 'line', (0, 1)
    for i, p in enumerate(PROGRAMS):
        for a in CLASS_OPS:
            for k, b in enumerate(OPS + CLASS_OPS):
                if quick and (i + k) % 12 != (backend == 'std'):
                    continue
                yield p, a, b, 1, 'call', (0, 1)
                if b not in CLASS_OPS:
                    yield p, b, a, 1, 'line', (0, 1)
    for i, p in enumerate(PROGRAMS):
        for k, (a, b) in enumerate((x, y) for o, d in OPTIONS for x, y in ((o, d), (d, o))):
            if quick and (i + k) % 6 != 3 * (backend == 'std') and k:
                continue
            if k == 0 and quick and i % 2 != (backend == 'std'):
                continue
            yield p, a, b, 1, 'line', (0, 1)
    for i, p in enumerate(SMALL if quick else SMALL + PROGRAMS):
        for k, (a, b) in enumerate(PAIRS2):
            if quick and (i + k) % 5 != 2 * (backend == 'std'):
                continue
            parts = 4 if quick else 16
            for part in range(parts):
                yield p, a, b, 2, 'call' if quick else 'return', (part, parts)


def run(job, rep, tier, backend):
    fam, a, b, bound, grain, (part, parts) = job
    import pydantic_xml
    prefix = os.path.dirname(os.path.abspath(pydantic_xml.__file__)) + os.sep
    mode = {'mode': 'unordered' if sum(map(ord, a + b)) % 2 else 'ordered'}
    famj = fam + (Fm.freeze(mode),)
    prog, vals, fields = Fm.build(famj)
    case = G.Case(prog, rep)
    if not case.define():
        return
    objs = Fm.objects(famj, case.ref, cap=8)
    every, objs = objs, [objs[0], objs[-1]]
    docs = [case.ref.serialize(o) for o in objs]
    bad = next((d for d in G.edits(docs[0]) if d.tag == docs[0].tag
                and all(o[0] != 'ok' for o in case.ref.parses(d) or [('ok',)])), Node('unknown'))
    todo = ops(case, objs, docs, bad, every)
    alone = {op: todo[op]() for op in (a, b)}
    for op in (a, b):
        if todo[op]() != alone[op]:
            rep.violation('an operation is not repeatable', program=prog.label, source=case.src, history=[op])
            return

    def one(plan, record=True):
        s = Sched(plan, grain, prefix)
        ok = s.run((todo[a], todo[b]))
        if record:
            rep.states += 1
            rep.traces += 1
            rep.transitions += 1 + s.preempted
            if s.free:
                rep.count('released')
        if not ok:
            rep.violation('concurrent operations do not terminate', program=prog.label, source=case.src,
                          history=[f'{a} || {b}', f'switch after {plan} events'])
            return None
        for i, op in enumerate((a, b)):
            if s.out[i] != alone[op]:
                rep.violation('a concurrent operation disturbs another one', program=prog.label, source=case.src,
                              history=[f'{a} || {b}', f'switch after {plan} events'], got=f'{op}: {s.out[i]}',
                              expected=str(alone[op]))
                return None
        return s.count

    n = one([INF], False)
    if n is None:
        return
    rep.sample(f'{prog.label}: {a} || {b}: {n} {grain} events, bound {bound}')
    if bound == 1:
        for k in range(part, n[0] + 1, parts):
            if one([k]) is None:
                return
        return
    for k in range(part, n[0] + 1, parts):
        for m in range(0, n[1] + 1):
            if one([k, m]) is None:
                return
