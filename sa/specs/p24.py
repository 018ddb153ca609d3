from fractions import Fraction
from itertools import combinations
from .compiling import *
from .p25 import compiled_entries, history_of, default, threshold_ok

RULE = ('Compilation of an evolution for arbitrary terms, times, step bounds and thresholds, with one compilation as the '
        'unknown: its target must be exp(iHt), its building blocks one free evolution exp(i H_S tau) per term (per non-empty '
        'subset of terms when allowed) with tau between minus and plus the maximum step, placed on all qubits in order, its '
        'threshold the one given, and its result the result.  For the verification sequence one arbitrary step of the random '
        'part is analysed: it is taken only while the durations so far are below the time, appends one evolution of one of '
        'the blocks on all qubits and adds its absolute duration, which is at most the maximum step; the compilation aims at '
        'the inverse of the product of all of them and its entries follow.')
ASSUMES = ['P22 for the parts of a term', 'P05 for parameterized operations', 'P07-P10 for what a sequence does',
           'P14-P16 for what a compilation returns',
           'subsets of terms: for Hamiltonians of one to three terms (the code treats all terms alike)']


class Case:
    def __init__(self, s, n, sim):
        self.s, self.n, self.sim = s, n, sim
        self.t, self.mx, self.th = sym('in:t', 'real'), sym('in:max', 'real'), sym('in:threshold', 'real')
        if n is None:
            self.ts = s.listof('terms', 'HamiltonianTerm')
        self.what = ('any terms' if n is None else f'{n} term{"s" * (n > 1)}') + (', simultaneous' if sim else '')

    def terms(self):
        s = self.s
        return self.ts if self.n is None else s.I.new_list([It(s.inp(f'h{i}', 'cls', 'HamiltonianTerm'))
                                                            for i in range(self.n)])

    def mat(self, j):
        '''Matrix of term j.'''
        s = self.s
        e = s.I.generic(mk('elem', self.ts, j), ('cls', s.cls('HamiltonianTerm'))) if self.n is None else \
            s.inp(f'h{j}', 'cls', 'HamiltonianTerm')
        return s.I.canon(s.vt(s.m(s.I.mat(e), 'get_matrix')))

    def blocks(self):
        '''The matrices of the building blocks (concrete number of terms).'''
        r = range(1, self.n + 1) if self.sim else (1,)
        for q in r:
            for ix in combinations(range(self.n), q):
                m = self.mat(ix[0])
                for i in ix[1:]:
                    m = tm.madd(m, self.mat(i))
                yield self.s.I.canon(m)

    def total(self):
        if self.n is None:
            s = self.s
            j = fresh_idx()
            return s.I.canon(s.vt(s.I.lib.call_ext(s.I, 'numpy.sum', [s.I.new_list([For(j, mk('len', self.ts, kind='int'), [
                It(s.m(s.I.mat(s.I.generic(mk('elem', self.ts, j), ('cls', s.cls('HamiltonianTerm')))), 'get_matrix'))])])],
                {'axis': 0})))
        m = self.mat(0)
        for i in range(1, self.n):
            m = tm.madd(m, self.mat(i))
        return self.s.I.canon(m)


def expi(s, m, x):
    I = s.I
    return I.canon(I.vt(I.lib.call_ext(I, 'scipy.linalg.expm', [I.new_mat(tm.mscale(tm.mul(x, 1j), m))], {})))


def qubits(s, o):
    k = fresh_idx()
    return s.I.new_list([For(k, tm.to_int(tm.log2(s.vt(s.m(o.st.cnt['spec'], 'get_dimension')))), [It(k)])])


def block_view(s, p, x):
    '''(matrix at the value x, interval, placements) of a building block.'''
    I = s.I
    u = s.m(p, 'get_unitary')
    if not is_a(s, u, 'ParameterizedUnitary'):
        return ('fixed', s.vt(u))
    pars = I.pieces(s.m(u, 'get_parameters'))
    f = s.get(u, 'parameterized_matrix')
    m = I.vt(I.call(f, [x], {}))
    ivs = I.map_pieces(pars, lambda q: (s.get(q, 'min_value'), s.get(q, 'max_value')))
    return ('free', s.vt(m), s.vt(I.new_list(ivs)), s.vt(s.m(p, 'get_allowed_apply_to')))


def config(c, s, cs, o, comp, site, target):
    '''One compilation with the right configuration.'''
    I = s.I
    what = cs.what
    name, cfg, a, changed = comp.d['raw']
    if changed:
        c.ob(f'{what}: the compiler is used as it was configured', site, 'unknown', f'attributes {changed} are changed')
    c.true(f'{what}: compiled gate by gate', site, o, name == 'compile', f'calls {name}')
    c.eq(f'{what}: compiled on the dimension of the Hamiltonian', site, o, cfg.get('dimension'),
         s.m(o.st.cnt['spec'], 'get_dimension'))
    c.eq(f'{what}: compiled to the threshold given', site, o, a.get('threshold'), cs.th)
    c.eq(f'{what}: all blocks are equally likely', site, o, s.vt(cfg.get('unitary_primitive_probabilities')), None)
    phase_eq(c, f'{what}: {target[0]}', site, o, mat_of(s, a.get('target_unitary')), target[1])
    x = sym('in:tau', 'real')
    I.add_fact(cmp_le(tm.neg(cs.mx), x), 'pre')
    I.add_fact(cmp_le(x, cs.mx), 'pre')
    got = I.map_pieces(I.pieces(cfg['unitary_primitives']), lambda p: block_view(s, p, x))
    al = s.vt(I.new_list([It(qubits(s, o))]))
    iv = s.vt(I.new_list([It((tm.neg(cs.mx), cs.mx))]))
    nm = f'{what}: the building blocks are the evolutions of ' + ('every non-empty subset of terms' if cs.sim else
                                                                  'every single term')
    t = s.vt(I.new_list(got))
    if cs.n is None:
        j = fresh_idx()
        w = s.vt(I.new_list([For(j, mk('len', cs.ts, kind='int'), [It(('free', expi(s, cs.mat(j), x), iv, al))])]))
        ok = t is w or c.same(t, w)
        c.ob(nm, site, 'ok' if ok else 'unknown', f'is {c.short(t)}\n  the reference enumeration is {c.short(w)}')
        return
    want = [('free', expi(s, m, x), iv, al) for m in cs.blocks()]
    if not all(isinstance(p, It) for p in got):
        return c.ob(nm, site, 'unknown', c.short(t))
    left = [s.vt(v) for v in want]
    extra = []
    for p in got:
        v = s.vt(p.v)
        hit = next((y for y in left if y is v or c.same(v, y)), None)
        if hit is None:
            extra.append(v)
        else:
            left.remove(hit)
    if any(opaque_in(v) for v in extra):
        return c.ob(nm, site, 'unknown', c.short(t))
    c.true(nm, site, o, not left and not extra, f'missing {[c.short(v) for v in left]}, not allowed '
           f'{[c.short(v) for v in extra]}')


def compilations(o):
    return [e for e in o.st.events if e.kind == 'draw' and e.d['dist'] == 'compiled']


def prepare(s):
    tm.MODPHASE[0] = True
    ct.full_unitary(s)
    ct.sequences(s)
    ct.generated(s)
    ct.compiled(s)


def stoq(c, s, n, sim):
    prepare(s)
    I = s.I
    cs = Case(s, n, sim)
    site = s.site('Hamiltonian', 'compile_stoq_sequence')
    cs.what = 'stoq, ' + cs.what

    def thunk():
        h = s.new('Hamiltonian', cs.terms())
        I.st.cnt['spec'] = h
        a = [sim] if sim or n == 2 else []
        return s.m(h, 'compile_stoq_sequence', cs.t, cs.mx, cs.th, *a)

    def ret(o, r):
        comp = compilations(o)
        if len(comp) != 1:
            return c.true(f'{cs.what}: one compilation', site, o, False, f'{len(comp)} compilations')
        d = comp[0].d['term']
        c.eq(f'{cs.what}: returns what the compilation returns', site, o,
             (entries_key(s, s.m(s.get(r, 'compiled_sequence'), 'get_sequence_entries')),
              s.vt(I.new_list(I.pieces(s.get(r, 'cost_by_step'))))),
             (entries_key(s, I.new_list(compiled_entries(s, d))), s.vt(I.new_list(history_of(s, d)))))
        config(c, s, cs, o, comp[0], site, ('the target is exp(iHt)', expi(s, cs.total(), cs.t)))
    c.run(cs.what, site, thunk, ret)


def rav(c, s, n, sim):
    prepare(s)
    I = s.I
    cs = Case(s, n, sim)
    site = s.site('Hamiltonian', 'compile_rav_sequence')
    cs.what = 'rav, ' + cs.what
    what = cs.what

    def thunk():
        h = s.new('Hamiltonian', cs.terms())
        I.st.cnt['spec'] = h
        I.st.cnt['mark'] = len(I.st.events)
        a = [sim] if sim or n == 2 else []
        return s.m(h, 'compile_rav_sequence', cs.t, cs.mx, cs.th, *a)

    done = []

    def ret(o, r):
        comp = compilations(o)
        if len(comp) != 1:
            return c.true(f'{what}: one compilation', site, o, False, f'{len(comp)} compilations')
        d = comp[0].d['term']
        E = I.pieces(s.m(s.get(r, 'compiled_sequence'), 'get_sequence_entries'))
        rest = compiled_entries(s, d)
        tail = entries_key(s, I.new_list(rest))
        nm = f'{what}: the compiled part follows the random part'
        key = entries_key(s, I.new_list(E))
        cut = next((i for i in range(len(E)) if entries_key(s, I.new_list(E[i:])) is tail), None)
        if cut is None:
            if opaque_in(key):
                return c.ob(nm, site, 'unknown', c.short(key))
            return c.true(nm, site, o, False, f'the entries are {c.short(key)}')
        c.ob(nm, site, 'ok')
        R = E[:cut]
        c.eq(f'{what}: the history is that of the compilation', site, o,
             s.vt(I.new_list(I.pieces(s.get(r, 'cost_by_step')))), s.vt(I.new_list(history_of(s, d))))
        config(c, s, cs, o, comp[0], site, ('the target is the inverse of the product of the random part',
                                            dagger(piece_product(s, R, s.vt(s.m(o.st.cnt['spec'], 'get_dimension'))))))
        recs = [e for e in o.st.events[o.st.cnt['mark']:] if e.kind == 'while']
        if len(recs) != 1:
            return c.ob(f'{what}: the loop of the random part', site, 'unknown', f'{len(recs)} loops of unknown length')
        rec, way = recs[0].d['rec'], recs[0].d['way']
        random_part(c, s, cs, site, o, rec, way, R, done)
    c.run(what, site, thunk, ret)


def seq_pieces(s, st, v):
    I = s.I
    if not isinstance(v, Ref) or v.a not in st.heap:
        return None
    o = st.heap[v.a]
    if o.kind == 'inst' and is_a(s, v, 'UnitarySequence'):
        return I.pieces(s.get(v, 'sequence_entries'))
    if o.kind == 'list':
        return I.pieces(v)
    return None


def random_part(c, s, cs, site, o, rec, way, R, done):
    I, what = s.I, cs.what
    rkey = entries_key(s, I.new_list(R))
    save = I.st
    place = None
    I.st = way.st
    try:
        for pl, v in slots(way.st):
            ps = seq_pieces(s, way.st, v)
            if ps is None:
                continue
            try:
                if entries_key(s, I.new_list(ps)) is rkey:
                    place = pl
                    break
            except (Unsupported, TargetRaise, AttributeError, KeyError):
                continue
    finally:
        I.st = save
    if place is None:
        return c.ob(f'{what}: the random part is kept in a variable', site, 'unknown', c.short(rkey))
    if rec in done:
        return
    done.append(rec)
    # the durations so far: a number that starts at v0 and changes by the absolute duration of every step
    I.st = rec.pre
    try:
        c.eq(f'{what}: the random part starts empty', site, o, I.seqlen(seq_pieces(s, rec.pre, read(rec.pre, place))), 0)
    finally:
        I.st = save
    nums = [pl for pl, v in slots(rec.head) if tm.is_number(v) and isinstance(v, T) and v.op == 'lv' and
            tm.is_number(read(rec.pre, pl))]
    if not nums:
        return c.ob(f'{what}: the durations so far are kept in a variable', site, 'unknown', 'no such variable')
    nexts = [x for x in rec.paths if x.kind == 'next']
    steps = []
    for x in nexts:
        I.st = x.st
        x.st.assume = 0

        def go(y, x=x):
            I.st = rec.head.clone()
            E = seq_pieces(s, I.st, read(I.st, place))
            I.st = y.st
            step(c, s, cs, site, y, rec, E, seq_pieces(s, y.st, read(y.st, place)), nums, steps)
        try:
            c.guard(f'{what}: a random step', site, x, go)
        finally:
            I.st = save
    # which variable measures the durations
    good = None
    for pl in nums:
        for sign in (1, -1):
            if steps and all(ok.get((pl, sign)) for ok in steps):
                good = (pl, sign)
    nm = f'{what}: the absolute durations are added up'
    if good is None:
        exact = steps and all(not ok.get('opaque') for ok in steps) and len(nums) == 1
        if exact:
            c.true(nm, site, nexts[0], False, f'no variable changes by the absolute duration of every step: {steps}')
        else:
            c.ob(nm, site, 'unknown', f'{steps}')
        return
    c.ob(nm, site, 'ok')
    pl, sign = good
    h = read(rec.head, pl)
    v0 = read(rec.pre, pl)
    so_far = tm.sub(h, v0) if sign > 0 else tm.sub(v0, h)
    for x in rec.paths:
        I.st = x.st
        x.st.assume = 0
        try:
            if x.kind == 'next':
                c.entails(f'{what}: a step is taken only while the time is not reached', site, x, cmp_lt(so_far, cs.t))
            elif x.kind in ('exit', 'break', 'return'):
                c.entails(f'{what}: the random part ends only when the time is reached', site, x, cmp_le(cs.t, so_far))
        finally:
            I.st = save


def step(c, s, cs, site, o, rec, E, E2, nums, steps):
    I, what = s.I, cs.what
    n = I.seqlen(E)
    nm = f'{what}: a random step appends one operation at the end'
    if E2 is None:
        return c.ob(nm, site, 'unknown', 'the random part cannot be followed')
    c.eq(nm, site, o, I.seqlen(E2), tm.add(n, 1))
    if s.holds(cmp_eq(I.seqlen(E2), tm.add(n, 1))) is not True:
        return
    e = I.at(E2, -1)
    c.eq(nm, site, o, entries_key(s, I.new_list(E2)), entries_key(s, I.new_list(list(E) + [It(e)])))
    c.eq(f'{what}: a random step acts on all qubits in order', site, o, s.m(e, 'get_apply_to'), qubits(s, o))
    U = s.get(e, 'unitary')
    m = mat_of(s, U)
    ps = s.I.o(s.get(U, 'parameter_dict')).ps
    nm = f'{what}: a random step is one of the building blocks'
    if len(ps) != 1 or not isinstance(ps[0], It) or not isinstance(ps[0].v[1], tuple):
        return c.ob(nm, site, 'unknown', 'no duration is recorded')
    t = I.canon(ps[0].v[1][0])
    if cs.n is None:
        ds = sorted({x for x in subterms(m) if x.op == 'draw' and x.args[0] == 'index'}, key=lambda x: x.id)
        ms = [cs.mat(d) for d in ds]
    else:
        ms = list(cs.blocks())
    ms = [nodet(strip_phase(I.canon(expi(s, b, t)))) for b in ms]
    g = nodet(strip_phase(I.canon(m)))
    if any(g is w or c.same(g, w) for w in ms):
        c.ob(nm, site, 'ok')
    elif opaque_in(g):
        c.ob(nm, site, 'unknown', c.short(g))
    else:
        c.true(nm, site, o, False, f'is {c.short(g)}, the blocks are {[c.short(w) for w in ms]}')
    c.entails(f'{what}: no random step is longer than the maximum', site, o, cmp_le(tm.absval(t), cs.mx))
    dur = I.canon(tm.absval(t))
    ok = {'opaque': opaque_in(dur)}
    for pl in nums:
        a, b = read(rec.head, pl), read(o.st, pl)
        if not tm.is_number(b):
            continue
        for sign in (1, -1):
            d = tm.sub(b, a) if sign > 0 else tm.sub(a, b)
            ok[(pl, sign)] = s.holds(cmp_eq(d, dur)) is True or c.same(I.canon(d), dur)
            ok['opaque'] = ok['opaque'] or opaque_in(d)
    steps.append(ok)


def cases(c, s):
    L = [(None, False), (1, False), (2, False), (1, True), (2, True), (3, True)]
    c.par([lambda a=a: stoq(c, s, *a) for a in L] + [lambda a=a: rav(c, s, *a) for a in L])


PARTS = [cases]
