from .common import *

RULE = ('left_multiply, right_multiply, tensor and inverse are analysed for arbitrary operations; the matrix term of the '
        'result must equal factor.self, self.factor, kron(self, argument) and the conjugate transpose, modulo a phase; '
        'on every returning path of a product the facts must imply equal dimensions; the inverse must flip the inverse '
        'mark and keep name, parameters and qubits.')
ASSUMES = ['NumPy matmul/kron/conj/T behave as documented']


def products(c, s):
    for name, order in (('left_multiply', 'left'), ('right_multiply', 'right')):
        site = s.site('Unitary', name)
        U, F = s.inp('self', 'cls', 'Unitary'), s.inp('factor', 'cls', 'Unitary')

        def thunk():
            return s.m(U, name, F)

        def ret(o, r):
            u, f = mat_of(s, U), mat_of(s, F)
            want = mmul(f, u) if order == 'left' else mmul(u, f)
            c.entails(f'{name}: dimensions agree', site, o, cmp_eq(s.m(U, 'get_dimension'), s.m(F, 'get_dimension')),
                      'equal dimensions')
            c.true(f'{name}: gives an operation', site, o, is_a(s, r, 'Unitary'), f'returns {class_of(s, r)}')
            phase_eq(c, f'{name}: is ' + ('factor.self' if order == 'left' else 'self.factor'), site, o,
                     mat_of(s, r), want)
        c.run(name, site, thunk, ret)

        def valid():
            s.pre(cmp_eq(s.m(U, 'get_dimension'), s.m(F, 'get_dimension')))
            return s.m(U, name, F)
        c.accepts(f'{name}: accepts operations of one dimension', site, valid)


def tensor(c, s):
    site = s.site('Unitary', 'tensor')
    U, V = s.inp('self', 'cls', 'Unitary'), s.inp('u', 'cls', 'Unitary')

    def ret(o, r):
        phase_eq(c, 'tensor: is kron(self, argument)', site, o, mat_of(s, r), kron(mat_of(s, U), mat_of(s, V)))
        c.eq('tensor: dimension is the product', site, o, s.m(r, 'get_dimension'),
             tm.mul(s.m(U, 'get_dimension'), s.m(V, 'get_dimension')))
    c.run('tensor', site, lambda: s.m(U, 'tensor', V), ret)
    c.accepts('tensor: accepts any two operations', site, lambda: s.m(U, 'tensor', V))


def inverse(c, s):
    site = s.site('Unitary', 'inverse')
    U = s.inp('self', 'cls', 'Unitary')

    def ret(o, r):
        phase_eq(c, 'inverse: is the conjugate transpose', site, o, mat_of(s, r), dagger(mat_of(s, U)))
        c.eq('inverse: flips the inverse mark', site, o, s.I.boolv(s.get(r, 'is_inverse')),
             lnot(s.I.boolv(s.get(U, 'is_inverse'))))
        c.eq('inverse: keeps the name', site, o, s.m(r, 'get_operation_name'), s.m(U, 'get_operation_name'))
        c.eq('inverse: keeps the parameters', site, o, s.get(r, 'parameter_dict'), s.get(U, 'parameter_dict'))
        c.eq('inverse: keeps the qubits', site, o, s.get(r, 'apply_to'), s.get(U, 'apply_to'))
    c.run('inverse', site, lambda: s.m(U, 'inverse'), ret)
    c.accepts('inverse: every operation has one', site, lambda: s.m(U, 'inverse'))

    def twice(o, r):
        phase_eq(c, 'inverse of the inverse is the operation', site, o, mat_of(s, r), mat_of(s, U))
        c.eq('inverse of the inverse has the original mark', site, o, s.I.boolv(s.get(r, 'is_inverse')),
             s.I.boolv(s.get(U, 'is_inverse')))
    c.run('double inverse', site, lambda: s.m(s.m(U, 'inverse'), 'inverse'), twice)


PARTS = [products, tensor, inverse]
