from .common import *
from .. import witness

RULE = ('Unitary.__init__ is analysed for an arbitrary dimension and an arbitrary matrix: on every path that returns, '
        'the facts established before the return must imply squareness of the stated size and closeness of M M^dagger to the '
        'identity at NumPy default tolerance or tighter; the stored matrix term must be a scalar multiple of M of '
        'determinant one; entries may only be zeroed below 1e-12; without a matrix the identity is stored.')
ASSUMES = ['dimension is an int; NumPy functions behave as documented']


def creation(c, s):
    site = s.site('Unitary', '__init__')
    D = s.inp('dimension', 'int')
    M = s.inp('matrix', 'mat')
    m = tm.matsym(M)

    def thunk():
        return s.new('Unitary', D, M)

    def ret(o, r):
        for i in (0, 1):
            c.entails(f'Unitary: matrix has {"rows" if i == 0 else "columns"} = dimension', site, o,
                      cmp_eq(mk('shape', m, i, kind='int'), D), 'size of the accepted matrix')
        unitary_fact(c, s, 'Unitary: accepted matrix is unitary', site, o, m, D)
        cleans(c, o, 'Unitary: only entries below 1e-12 are zeroed', site)
        got = mat_of(s, r)
        d = witness.differs(o.st.facts, M, s.I.canon(D), got)
        if d and peel_scalar(got, m, s) is not m or d and d[1] == 'det':
            what = {'phase': 'holds the supplied matrix up to phase', 'det': 'stored matrix has determinant one'}[d[1]]
            return c.true(f'Unitary: {what}', site, o, False,
                          f'is {c.short(got)}; for {witness.text(d[0])} it is {witness.text(d[2])}',
                          seen={M, s.I.canon(D)})
        c.eq('Unitary: holds the supplied matrix up to phase', site, o, peel_scalar(got, m, s), m)
        factor = tm.det(got)
        if s.I.canon(factor) == 1:
            c.ob('Unitary: stored matrix has determinant one', site, 'ok')
        else:
            want = tm.mscale(tm.power(tm.det(m), tm.neg(tm.power(D, -1))), m)
            c.eq('Unitary: stored matrix has determinant one', site, o, got, s.I.canon(want))
        c.eq('Unitary: reports the stated dimension', site, o, s.m(r, 'get_dimension'), D)

    c.run('Unitary creation', site, thunk, ret)


def peel_scalar(got, m, s):
    '''The matrix without its scalar factor when it is a multiple of m.'''
    m = s.I.canon(m)
    if tm.is_mat(got):
        d, e = tm.to_mat(got), tm.to_mat(m)
        if len(d) == 1 and set(d) == set(e):
            return m
    return got


def unitary_fact(c, s, name, site, o, m, D):
    I = tm.ident(s.I.canon(D))
    m = s.I.canon(m)
    forms = [mmul(m, dagger(m)), mmul(dagger(m), m)]
    forms += [tm.transpose(x) for x in forms]
    tested = []
    sym_ = [w[0].args[0] for w in tm.to_mat(m)][0]
    for f in o.st.facts:
        if not mentions(f, sym_):
            continue
        if f.op == 'allclose':
            a, b = f.args[0], f.args[1]
            a, b = s.I.canon(a), s.I.canon(b)
            if ((a is I and b in forms) or (b is I and a in forms)) and tol_ok(f.args[2:]):
                return c.ob(name, site, 'ok')
        if any(x.op not in ('shape', 'len', 'isnone', 'sym', 'poly', 'eq0', 'le', 'lt', 'and', 'not', 'or', 'mat', 'msym')
               for x in subterms(f)):
            tested.append(f)
    found = witness.find(o.st.facts, sym_, s.I.canon(D), witness.nonunitary, s.holds)
    why = f'tests of the matrix: {"; ".join(show(f, 6) for f in tested)[:300] or "none"}'
    if found is not None:
        return c.true(name, site, o, False, f'accepts {witness.text(found)}, which is not unitary; {why}', seen={sym_, s.I.canon(D)})
    if tested:
        return c.ob(name, site, 'unknown', f'tested in another form; {why}')
    return c.true(name, site, o, False, 'no test of M M^dagger against the identity at default tolerance')


def tol_ok(rest):
    lim = {'rtol': 1e-5, 'atol': 1e-8}
    for r in rest:
        if isinstance(r, T) and r.op == 'tol':
            k, v = r.args
            v = tm.const_of(v)
            if k in lim and (v is None or float(v) > lim[k]):
                return False
    return True


def cleans(c, o, name, site):
    for e in o.st.events:
        if e.kind == 'clean':
            c.true(name, site, o, e.tol <= 1e-12 * (1 + 1e-9), f'entries below {e.tol} are zeroed')
    if name not in c.obs:
        c.ob(name, site, 'ok')


def default(c, s):
    site = s.site('Unitary', '__init__')
    D = s.inp('dimension', 'int')

    def ret(o, r):
        c.eq('Unitary: without a matrix it is the identity', site, o, mat_of(s, r), tm.ident(s.I.canon(D)))
    c.run('Unitary without matrix', site, lambda: s.new('Unitary', D), ret)

    def ret2(o, r):
        c.eq('Unitary.identity is the identity', site, o, mat_of(s, r), tm.ident(s.I.canon(D)))
    c.run('Unitary.identity', s.site('Unitary', 'identity'), lambda: s.call('Unitary', 'identity', D), ret2)


def attributes(c, s):
    site = s.site('Unitary', '__init__')

    def thunk():
        return s.new('Unitary', s.inp('dimension', 'int'), s.inp('matrix', 'mat'), s.inp('name', 'str'),
                     s.inp('pd', 'dict', ('str',), ('tuple', (('float',), ('bool',)))),
                     is_inverse=s.inp('inv', 'bool'), apply_to=s.listof('apply', ('int',)))

    def ret(o, r):
        unitary_fact(c, s, 'Unitary: accepted matrix is unitary', site, o, tm.matsym(s.inp('matrix', 'mat')), s.inp(
            'dimension', 'int'))
        c.eq('Unitary: keeps its name', site, o, s.m(r, 'get_operation_name'), s.inp('name', 'str'))
        c.eq('Unitary: keeps its parameters', site, o, s.get(r, 'parameter_dict'),
             s.inp('pd', 'dict', ('str',), ('tuple', (('float',), ('bool',)))))
        c.eq('Unitary: keeps its inverse mark', site, o, s.get(r, 'is_inverse'), s.inp('inv', 'bool'))
        c.eq('Unitary: keeps its qubits', site, o, s.get(r, 'apply_to'), s.listof('apply', ('int',)))
    c.run('Unitary attributes', site, thunk, ret)


PARTS = [creation, default, attributes]
