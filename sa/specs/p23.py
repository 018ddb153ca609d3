from .common import *
from ..terms import subst
from .. import contracts as ct
from .p22 import terms_of

RULE = ('The four evolution sequences of a Hamiltonian over an arbitrary term list, for an arbitrary time and number of '
        'steps: the entries must be the comprehension of the required evolutions as terms - the number of entries, the '
        'matrix of each (exp(i H t/N), exp(i H_j t/N), exp(i lambda t/N h_d)) and the qubits 0..n-1 of each; the shuffled '
        'order must be one fresh permutation per step, the QDRIFT index one fresh draw per step with probabilities '
        'strength over total strength.')
ASSUMES = ['P22 for the parts of a term', 'expm denotes the matrix exponential']

N_, T_ = 'num_steps', 'time'


def setup(s):
    tm.MODPHASE[0] = True
    ts = s.listof('terms', 'HamiltonianTerm')
    t, N = sym('in:t', 'real'), s.inp('N', 'int')
    return ts, t, N


def view(s, q):
    '''Matrix and qubits of each entry.'''
    return s.I.map_pieces(s.I.pieces(s.m(q, 'get_sequence_entries')),
                          lambda e: (s.m(s.get(e, 'unitary'), 'get_matrix'), s.m(e, 'get_apply_to')))



def sequences(c, s):
    I = s.I
    ts, t, N = setup(s)
    n = mk('len', ts, kind='int')
    kn = fresh_idx()
    el = lambda j: I.mat(I.generic(mk('elem', ts, j), ('cls', s.cls('HamiltonianTerm'))))
    mat = lambda j: I.canon(s.vt(s.m(el(j), 'get_matrix')))
    norm = lambda j: s.vt(s.m(el(j), 'get_normalized_matrix'))
    coef = lambda j: s.vt(s.m(el(j), 'get_coefficient'))

    def make(m, *a):
        def thunk():
            s.pre(cmp_le(1, N))
            h = s.new('Hamiltonian', ts)
            I.st.cnt['spec'] = h
            return s.m(h, m, t, N, *a)
        return thunk

    def qubits(o):
        h = o.st.cnt['spec']
        k = fresh_idx()
        return I.new_list([For(k, tm.to_int(tm.log2(s.vt(s.m(h, 'get_dimension')))), [It(k)])])

    def expi(m, x):        # exp(i m x)
        return I.new_mat(I.vt(I.lib.call_ext(I, 'scipy.linalg.expm', [I.new_mat(tm.mscale(tm.mul(x, 1j), m))], {})))

    def system(o, r, name, site):
        c.eq(f'{name}: acts on the dimension of the Hamiltonian', site, o, s.m(r, 'get_dimension'),
             s.m(o.st.cnt['spec'], 'get_dimension'))

    def lists(name, site, o, got, want):
        c.eq(name, site, o, s.vt(I.new_list(got)), s.vt(I.new_list(want)))

    # ------------------------------------------------------------ ideal
    site = s.site('Hamiltonian', 'get_ideal_sequence')

    def ideal(o, r):
        system(o, r, 'ideal', site)
        k, j = fresh_idx(), fresh_idx()
        h = I.canon(s.vt(I.lib.call_ext(I, 'numpy.sum', [I.new_list([For(j, n, [It(s.m(el(j), 'get_matrix'))])])],
                                        {'axis': 0})))
        lists('ideal: N evolutions of the whole Hamiltonian over time/N, on all qubits in order', site, o, view(s, r),
              [For(k, N, [It((expi(h, tm.div(t, N)), qubits(o)))])])
    c.run('ideal', site, make('get_ideal_sequence'), ideal)

    # ------------------------------------------------------------ Trotter
    site2 = s.site('Hamiltonian', 'get_trotter_sequence')

    def step(o):
        j = fresh_idx()
        return For(j, n, [It((expi(mat(j), tm.div(t, N)), qubits(o)))])

    def trotter(o, r):
        system(o, r, 'Trotter', site2)
        lists('Trotter: every step holds every term in order, over time/N, on all qubits in order', site2, o, view(s, r),
              [For(fresh_idx(), N, [step(o)])])
    c.run('Trotter', site2, make('get_trotter_sequence'), trotter)
    c.run('Trotter without shuffling', site2, make('get_trotter_sequence', False), lambda o, r: lists(
        'Trotter without shuffling: every step holds every term in order', site2, o, view(s, r),
        [For(fresh_idx(), N, [step(o)])]))

    def shuffled(o, r):
        system(o, r, 'shuffled Trotter', site2)
        got = view(s, r)
        perms = []

        def strip(ps, ctx):
            out = []
            for p in ps:
                if isinstance(p, Perm):
                    perms.append((p.d, ctx))
                    out += strip(p.ps, ctx)
                elif isinstance(p, For):
                    out.append(For(p.k, p.n, strip(p.ps, ctx + (p.k,))))
                else:
                    out.append(p)
            return out
        plain = strip(got, ())
        lists('shuffled Trotter: every step holds every term exactly once, over time/N, on all qubits in order', site2, o,
              plain, [For(fresh_idx(), N, [step(o)])])
        ok = len(perms) == 1 and perms[0][0].op == 'draw' and perms[0][0].args[0] == 'perm'
        c.true('shuffled Trotter: the order of each step is a random permutation', site2, o, ok or opaque_in(s.vt(
            I.new_list(got))), f'the orders drawn are {[show(d, 4) for d, _ in perms]}')
        if ok:
            d, ctx = perms[0]
            c.true('shuffled Trotter: each step is shuffled anew and as a whole', site2, o,
                   len(ctx) == 1 and ctx[0] in tm.symbols(d) | set(subterms(d)) or (len(ctx) == 1 and tm.subst(d, {
                       ctx[0]: 0}) is not d), f'the order {show(d, 5)} is drawn once for the loops {ctx}')
    c.run('shuffled Trotter', site2, make('get_trotter_sequence', True), shuffled)

    # ------------------------------------------------------------ QDRIFT
    site3 = s.site('Hamiltonian', 'get_qdrift_sequence')

    def qdrift(o, r):
        system(o, r, 'QDRIFT', site3)
        got = view(s, r)
        whole = s.vt(I.new_list(got))
        c.eq('QDRIFT: as many entries as repetitions', site3, o, I.seqlen(got), N)
        k = fresh_idx()
        I.add_fact(cmp_le(0, k), 'pre')
        I.add_fact(cmp_lt(k, N), 'pre')
        e = I.at(got, k)
        t0 = s.vt(e)
        ds = sorted({x for x in subterms(t0) if x.op == 'draw'}, key=lambda x: x.id)
        if opaque_in(whole):
            return c.ob('QDRIFT: each term is drawn with probability strength over total strength', site3, 'unknown',
                        c.short(whole))
        ok = len(ds) == 1 and ds[0].args[0] == 'index'
        c.true('QDRIFT: each repetition draws one term', site3, o, ok, f'draws {[show(d, 5) for d in ds]}')
        if not ok:
            return
        d = ds[0]
        c.true('QDRIFT: the draws are independent', site3, o, tm.subst(d, {k: 0}) is not d,
               f'{show(d, 6)} is the same for every repetition')
        j = fresh_idx()
        lam = I.lib.sumk(j, n, coef(j))
        want = s.vt(I.new_list([For(j, n, [It(tm.div(coef(j), lam))])]))
        cnt, pl = d.args[2]
        c.eq('QDRIFT: the terms of the Hamiltonian are drawn from', site3, o, cnt, n)
        c.eq('QDRIFT: each term is drawn with probability strength over total strength', site3, o, pl, want)
        w = (expi(I.canon(norm(d)), tm.div(tm.mul(lam, t), N)), qubits(o))
        c.eq('QDRIFT: evolves the drawn normalized term over total strength * time / repetitions, on all qubits', site3, o,
             t0, s.vt(w))
    c.run('QDRIFT', site3, make('get_qdrift_sequence'), qdrift)


def valid(c, s):
    '''At least one step is enough, whatever the time.'''
    tm.MODPHASE[0] = True
    t = sym('in:t', 'real')
    for m, a in (('get_ideal_sequence', ()), ('get_trotter_sequence', ()), ('get_trotter_sequence', (True,)),
                 ('get_qdrift_sequence', ())):
        for N in (1, 2):
            def thunk(m=m, a=a, N=N):
                ts, d = terms_of(s, 2)
                ct.full_unitary(s)
                s.pre(cmp_eq(d, 4))
                return s.m(s.new('Hamiltonian', s.I.new_list([It(x) for x in ts])), m, t, N, *a)
            c.accepts(f'{m}{" shuffled" if a else ""}: accepts {N} steps', s.site('Hamiltonian', m), thunk)


PARTS = [sequences, valid]
