"""Per property: backends, bounds (as reported in the evidence) and how traces are validated."""

from .kinds import KINDS as _KINDS

LXML, STD = 'lxml', 'std'
BOTH = [LXML, STD]

DIRECT = ('every explored document/value is run through the real library in the working tree and the observation is '
          'compared with the outcome of the reference model')
DIFF = ('both sides of every comparison are executions of the real library (or of pydantic) in the working tree; there is '
        'no abstract model')

KINDS = f'{len(_KINDS)} field kinds'
NEST = '11 nestings'


def plan(quick, thorough, validated=DIRECT, **kw):
    return dict(backends=kw.pop('backends', BOTH), bounds={'quick': quick, 'thorough': thorough}, validated=validated, **kw)


PLANS = {
    'C01': plan(
        f'{KINDS} x 8 parameter sets x 3 modes; {KINDS} x {NEST} x 3 modes; every compatible ordered pair of kinds (mode rotated, '
        'pairs divided between the backends); all strings up to length 2 over 17 critical characters in 7 places; programs and values of 20 to 22 sizes from 1 to 64 along 15 '
        'dimensions (fields, variants, recursion, path steps, arities, namespaces, ...), texts of 24 lengths up to 100001',
        f'{KINDS} x 8 parameter sets x 3 modes; {KINDS} x {NEST} x 3 modes; every compatible ordered pair of kinds x 3 modes on both '
        'backends; all strings up to length 3 over the critical characters in 7 places; sizes up to 129 along 15 dimensions x 3 modes'),
    'C02': plan(
        f'{KINDS} x 8 parameter sets, {KINDS} x {NEST}, every kind with falsy models, every compatible ordered pair of kinds (divided between the backends); up to 24 '
        'catalogue values and 16 structurally enumerated values per program; programs of 20 sizes along 15 dimensions',
        'as quick, pairs on both backends, all structurally enumerated values'),
    'C03': plan(
        f'{KINDS} x 3 parameter sets x 3 modes, {KINDS} x {NEST} x 2 modes (divided between the backends), every 4th pair of kinds per '
        'backend; all documents within 1 edit of up to 4 legal documents',
        f'{KINDS} x 3 parameter sets x 3 modes with all documents within 2 edits; all nestings, modes and pairs within 1 edit'),
    'C04': plan(
        'ordered pairs of 12 slot kinds x 2 name assignments x 3 modes x all child sequences up to length 4; triples of 6 kinds x 4 name '
        'assignments (divided between the backends) up to length 3; 9 mode combinations x 5 ways of nesting; wrapped path overlaps',
        'pairs up to length 5, triples up to length 4 on both backends'),
    'C05': plan(
        f'{KINDS} x 3 modes forbidding extras, x ignore/allow, x namespace parameters; 1/2 of the nestings x forbid levels and every 8th '
        'pair per backend; all documents within 1 edit',
        'all of these on both backends, single kinds within 2 edits'),
    'C06': plan(
        '19x19 variant shapes x field forms x followers x modes (1/17 latin-square slice covering all pairs of axes), triples of 7 shapes '
        '(1/5 per backend); variants derived from one another; all documents within 1 edit',
        'the full products'),
    'C07': plan(
        'discriminator forms x tag forms x field forms x followers x modes (1/4 latin-square slice plus the full plain slice); all '
        'documents within 1 edit, all discriminator substitutions, all sequences of up to 3 variant elements',
        'the full product'),
    'C08': plan(
        '19 entity forms x root maps/namespaces/ns_attrs x entity namespaces/maps x sub-model namespaces/maps (1/3 of the sub-model '
        'combinations); every name moved to any of 6 namespaces', 'the full product'),
    'C09': plan(
        '25 entity forms x 32 name sources x 5 alias configurations x alias generators; every name replaced by any candidate; 27 tag '
        'inheritance chains x 21 root names x namespaces', 'as quick'),
    'C10': plan(
        f'{KINDS} x parameter sets x 8 option combinations, {KINDS} x {NEST} x 3 model settings, every 4th pair per backend; 18 nillable '
        'forms x 3 modes within 1 edit; empty_as_string on all kinds and 6 nestings; containers of 19 item kinds; unset fields anywhere below', 'as quick, all pairs and nestings on both backends'),
    'C11': plan(
        f'{KINDS} x 4 parameter sets x 2 modes, {KINDS} x {NEST}, every 8th pair, within 1 edit; unusual texts and trees',
        f'{KINDS} x 7 parameter sets x 3 modes, {KINDS} x {NEST} x 3 modes, all pairs', validated=DIFF, merge='backends'),
    'C12': plan(
        'all chains of up to 2 of 13 nestings x 3 groups out of 26 fault slots (every subset of up to 2 faults, and all) x location by '
        'alias/name; extras; hidden input; up to 129 faulty data in one list, in many lists and along chains of up to 33 models', 'chains of up to 3'),
    'C13': plan(
        'field forms x (type, field hook, model hook, field argument, configuration, sub-model hook): every single axis value with all '
        'types on both backends, every pair of axes on one; valid, invalid, blank and absent data; with and without context',
        'pairs of axes with 4 types on both backends, triples of axes', validated=DIFF),
    'C14': plan(
        f'{KINDS} and nestings: histories of up to 2 of 18 operations (several rejected documents, custom hooks, derived classes) from a fresh world, continuations of 1; faults injected at every '
        'user hook; all sequences of 2 out of 12 definitions made from the same maps, options and entities', 'histories of up to 2 with continuations of 2 in all modes and nestings', validated=DIFF),
    'C15': plan(
        'two threads, one preemption at every executed library line for a slice of operation pairs x programs (every program and every '
        'operation pair appears; pairs of different options on values they make a difference for), two preemptions at calls for 4 small programs', 'all programs x operation pairs; two preemptions at '
        'calls and returns', validated=DIFF),
    'C16': plan(
        'all assignments of 7 parameters over 3 generations, all pairs over 2; all pairs of 20 field forms overriding each other; mixins; '
        'documents within 1 edit', 'triples of parameters, triples of overriding forms'),
    'C17': plan(
        f'20 notations x {KINDS} x 2 parameter sets, x {NEST} (1/2 per backend); recursive shapes x 7 notations x 3 modes x parameters, '
        'depth up to 4; merged and shared entities', f'20 notations x {KINDS} x 8 parameter sets x {NEST}; pairs of kinds; merged and shared entities'),
    'C18': plan(
        'type expressions (depth 2 slice, over 40 atoms of which 15 have no xml meaning) x 8 entities x ordinary/root model x notations; prefixes x maps; the empty namespace x 14 forms; discriminators x variants; a wrong part at every '
        'position of typed dicts, tuples, unions, ... of 1 to 4 parts',
        'all type expressions of depth 2'),
    'C19': plan(
        '23 notations x 10 kinds x which x places x 9 positions x modes; root models; documents within 1 edit', 'as quick on both backends '
        'with all positions'),
    'C20': plan(
        'all sequences of 3 of 47 read operations on all elements with up to 3 children, of 4 of 17 write operations, rewriting of read elements, 3 search modes',
        'sequences of 4 on up to 2 children, of 3 on up to 4 children, of 5 write operations'),
    'C21': plan(
        '24 places x 3 modes x all raw trees up to depth 3 over own/foreign/namespaced names (slice), ownership histories, documents '
        'within 1 edit', 'the full product'),
    'C22': plan(
        '19 item kinds x 4 containers / fixed tuples of 1-3 x 7 places x 3 modes (slice); all item sequences up to 3; 28 sizes up to 2049 items; documents: all '
        'sequences of 3 item/damaged/foreign elements', 'the full product, sequences of 4'),
    'C23': plan(
        '3 wrapped fields x 7 paths each x 8 inner kinds (slice) x modes, every presence combination, regrouped/split/merged wrappers, 1 '
        'edit; ' f'{KINDS} in 5 notations; namespaced paths', 'the full product'),
    'C24': plan(
        f'{KINDS} x 4 places x 8 forms x 4 parameter sets (1/2 slice) x options; many fields; ns x nsmap x nillable; histories of mutations',
        'the full product', validated=DIFF),
    'C25': plan(
        '16 field forms x 24 argument sets x import styles x model configurations x inheritance x 13 uses x 6 plugin configurations; '
        'public api typing', 'as quick with all import styles', validated=DIFF),
    'C26': plan('67 primitive types x 22 places x edge values/texts; 10 configurations x 3 places',
                '67 primitive types x 22 places x edge values/texts; 10 configurations x 7 places', validated=DIFF),
    'C27': plan(
        f'{KINDS} x parameters, every spelling change singly and in pairs (slice), pairs of kinds (slice); parsers and trees of the '
        'application; all writing options',
        'all pairs of kinds', validated=DIFF),
}
