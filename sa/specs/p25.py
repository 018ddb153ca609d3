from fractions import Fraction
from .compiling import *
from ..dom import DictO
from .p19 import draws_in, nest, random_layers, layer_args

RULE = ('Verification sequences for arbitrary primitives or layer counts, lengths, thresholds (including none), step limits '
        'and probabilities, with one generated entry, one generated layer and one compilation as the unknowns: the entries '
        'of the result must be the comprehension "one fresh generated entry (layer) per requested gate (layer), from the '
        'caller\'s primitives, probabilities and dimension" followed by all entries of one compilation of the inverse of '
        'their product with the caller\'s configuration, threshold and limit, whose history is the history returned; without '
        'a compilation the path must imply a zero threshold or limit and return an empty history.')
ASSUMES = ['P17 and P19 for generated entries and layers', 'P07-P10 for what a sequence does',
           'P14-P16 for what a compilation returns', 'P26 for the arguments that are refused']


def random_entries(s, E, m):
    '''The entries m fresh generated gates make, with the draw and its variable.'''
    ent = ('cls', s.cls('UnitarySequenceEntry'))
    i = fresh_idx()
    for ctx, v in nest(s.I, E):
        ds = draws_in(s.vt(v), 'entry')
        if len(ds) == 1 and len(ctx) == 1:
            d = tm.subst(ds[0], {ctx[0][0]: i})
            return [For(i, m, [It(s.I.generic(mk('elem', d, i) if False else d, ent))])], d, i
    return None, None, None


def compiled_entries(s, d):
    k = fresh_idx()
    return [For(k, mk('len', d, kind='int'), [It(s.I.generic(mk('elem', d, k), ('cls', s.cls('UnitarySequenceEntry'))))])]


def history_of(s, d):
    j = fresh_idx()
    t = mk('costs', d)
    return [For(j, mk('len', t, kind='int'), [It(mk('elem', t, j, kind='real'))])]


def opts(s):
    return dict(ap=sym('in:append', 'real'), N=s.inp('N', 'int'), probs=s.inp('probs', 'list', ('float',)))


def setup25(s):
    tm.MODPHASE[0] = True
    ct.full_unitary(s)
    ct.sequences(s)
    ct.generated(s)
    ct.compiled(s)


def threshold_ok(s, got, th):
    '''A threshold of none is the exact threshold.'''
    return got if th is not None or got is not None and tm.const_of(got) != 1 else None


def check(c, s, what, fn, layered, threshold, full):
    I = s.I
    setup25(s)
    D, m = s.inp('D', 'int'), s.inp('count', 'int')
    prims = s.listof('prims', 'UnitaryPrimitive')
    cs = s.inp('counts', 'dict', s.ty('UnitaryPrimitive'), ('int',))
    th = {'given': sym('in:threshold', 'real'), 'none': None, 'zero': 0}[threshold]
    q = opts(s)
    site = s.site('Verification', fn)
    xeb = fn == 'generate_xeb_sequence'

    def thunk():
        s.pre(cmp_le(0, q['ap']))
        s.pre(cmp_le(q['ap'], 1))
        s.pre(cmp_le(1, mk('len', prims, kind='int')))
        if xeb:
            return s.call('Verification', fn, D, cs, m)
        kw = {}
        if full:
            kw = dict(stoq_append_probability=q['ap'], max_step_count=q['N'])
            if not layered:
                kw['unitary_primitive_probabilities'] = q['probs']
        return s.call('Verification', fn, D, cs if layered else prims, m, th, **kw)

    def ret(o, r):
        seq = s.get(r, 'compiled_sequence')
        E = I.pieces(s.m(seq, 'get_sequence_entries'))
        C = I.pieces(s.get(r, 'cost_by_step'))
        comp = [e for e in o.st.events if e.kind == 'draw' and e.d['dist'] == 'compiled']
        c.eq(f'{what}: acts on the dimension asked for', site, o, s.m(seq, 'get_dimension'), D)
        rest = []
        if len(comp) > 1:
            return c.true(f'{what}: one compilation', site, o, False, f'{len(comp)} compilations')
        if comp:
            rest = compiled_entries(s, comp[0].d['term'])
        want, d, i = (random_layers(s, E, D, cs, m) if layered else random_entries(s, E, m))
        key = entries_key(s, I.new_list(E))
        unit = 'layer' if layered else 'gate'
        nm = f'{what}: one fresh generated {unit} per requested {unit}, then the compiled inverse if any, and nothing else'
        if want is None:
            if opaque_in(key):
                return c.ob(nm, site, 'unknown', c.short(key))
            return c.true(nm, site, o, s.holds(cmp_le(m, 0)) is True and s.holds(cmp_eq(
                I.seqlen(E), I.seqlen(rest))) is True, f'the sequence is {c.short(key)}')
        c.eq(nm, site, o, key, entries_key(s, I.new_list(want + rest)))
        c.true(f'{what}: every {unit} is generated anew', site, o, tm.subst(d, {i: 0}) is not d, f'{show(d, 6)} is repeated')
        if layered:
            layer_args(c, s, what, site, o, o.st.events, D, cs)
        else:
            for e in o.st.events:
                if e.kind == 'draw' and e.d.get('dist') == 'entry':
                    raw = e.d['raw']
                    c.eq(f'{what}: gates are generated on the dimension, from the primitives and probabilities given', site, o,
                         (raw[0], s.vt(raw[1]), s.vt(raw[2])),
                         (D, s.vt(I.mat(prims)), s.vt(I.mat(q['probs'])) if full else None))
        if not comp:
            zero = lor(cmp_eq(q['N'], 0) if full and not xeb else False,
                       True if xeb else (False if th is None else cmp_le(th, 0)))
            neg = lor(zero, cmp_le(q['N'], 0)) if full and not xeb else zero
            nm = f'{what}: the inverse is left out only with a threshold or a step limit of zero'
            if neg is True:
                c.ob(nm, site, 'ok')
            else:
                c.entails(nm, site, o, neg)
            c.eq(f'{what}: without a compilation the history is empty', site, o, I.seqlen(C), 0)
            return
        name, cfg, a, changed = comp[0].d['raw']
        if changed:
            c.ob(f'{what}: the compiler is used as it was configured', site, 'unknown', f'attributes {changed} are changed')
        c.true(f'{what}: compiled {"in layers" if layered else "gate by gate"}', site, o,
               name == ('compile_layered' if layered else 'compile'), f'calls {name}')
        c.eq(f'{what}: the history is that of the compilation', site, o, s.vt(I.new_list(C)), s.vt(I.new_list(history_of(
            s, comp[0].d['term']))))
        c.eq(f'{what}: compiled on the same dimension', site, o, cfg.get('dimension'), D)
        c.eq(f'{what}: compiled with the append probability given', site, o, cfg.get('append_probability'),
             q['ap'] if full else Fraction(1, 2))
        if layered:
            v = a.get('unitary_primitive_counts')
            c.eq(f'{what}: compiled with the layer counts given', site, o, None if v is None else s.vt(v), s.vt(I.mat(cs)))
        else:
            c.eq(f'{what}: compiled with the primitives given', site, o, s.vt(cfg.get('unitary_primitives')),
                 s.vt(I.mat(prims)))
            c.eq(f'{what}: compiled with the primitive probabilities given', site, o,
                 s.vt(cfg.get('unitary_primitive_probabilities')), s.vt(I.mat(q['probs'])) if full else None)
        c.eq(f'{what}: compiled to the threshold given', site, o, threshold_ok(s, a.get('threshold'), th), th)
        c.eq(f'{what}: compiled with the step limit given', site, o, a.get('max_step_count'), q['N'] if full else 10000)
        c.eq(f'{what}: annealing as in any compilation', site, o, cfg.get('annealing_rate'), default(s, 'annealing_rate'))
        phase_eq(c, f'{what}: the target is the inverse of the product of the random part', site, o,
                 mat_of(s, a.get('target_unitary')), dagger(piece_product(s, want, D)))
    c.run(what, site, thunk, ret)


def default(s, name):
    f = s.func('Compiler', '__init__')
    return s.I.bind(f, [None, 0, s.I.new_list([])], {}).get(name)


def sequences(c, s):
    jobs = []
    for fn, layered, nm in (('generate_rav_sequence', False, 'rav'), ('generate_layered_rav_sequence', True, 'layered')):
        for th in ('given', 'none', 'zero'):
            for full in (True, False):
                what = nm + {'given': '', 'none': ', no threshold', 'zero': ', threshold zero'}[th] + (
                    '' if full else ', defaults')
                jobs.append(lambda a=(c, s, what, fn, layered, th, full): check(*a))
    jobs.append(lambda: check(c, s, 'xeb', 'generate_xeb_sequence', True, 'zero', False))
    c.par(jobs)


def valid(c, s):
    '''Requests within the documented ranges are accepted.'''
    setup25(s)
    D = s.inp('D', 'int')
    th, N, ap = sym('in:threshold', 'real'), s.inp('N', 'int'), sym('in:append', 'real')
    prims = [s.inp(f'prim{i}', 'cls', 'UnitaryPrimitive') for i in range(2)]
    jobs = []
    ns = [s.inp(f'count{i}', 'int') for i in range(2)]
    for fn in ('generate_rav_sequence', 'generate_layered_rav_sequence', 'generate_xeb_sequence'):
        site = s.site('Verification', fn)
        for m in (1,):
            for full in (False, True):
                if fn == 'generate_xeb_sequence' and full:
                    continue

                def thunk(fn=fn, m=m, full=full):
                    s.pre(cmp_le(2, D))
                    for x in (th, ap):
                        s.pre(cmp_le(0, x))
                        s.pre(cmp_le(x, 1))
                    s.pre(cmp_le(1, N))
                    for x, k in zip(prims, ns):
                        s.pre(cmp_le(s.m(s.m(s.I.mat(x), 'get_unitary'), 'get_dimension'), D))
                        s.pre(cmp_le(1, k))
                    what = s.I.new_list([It(x) for x in prims]) if fn == 'generate_rav_sequence' else \
                        s.I.ref(DictO([It((s.I.mat(x), k)) for x, k in zip(prims, ns)]))
                    if fn == 'generate_xeb_sequence':
                        return s.call('Verification', fn, D, what, m)
                    kw = dict(max_step_count=N, stoq_append_probability=ap) if full else {}
                    return s.call('Verification', fn, D, what, m, th, **kw)
                what = f'{fn}: accepts {m} {"gates" if "layer" not in fn and "xeb" not in fn else "layers"}'
                jobs.append(lambda w=what, f=full, x=site, t=thunk: c.accepts(
                    f'{w}{", all options" if f else ""}', x, t, drawn=False))
    c.par(jobs)


PARTS = [sequences, valid]
