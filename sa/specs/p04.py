import math

from .common import *
from .. import laurent as lr
from .. import contracts as ct

RULE = ('Every gate constructor of UnitaryDefinitions is analysed for arbitrary real parameters.  Its matrix term is a word '
        'of literal matrices whose entries are trigonometric polynomials; in the exact domain of such polynomials it must be '
        'unitary and proportional to the textbook matrix.  GMS must be the product of XX embedded on every qubit pair i<j; '
        'evolution must be exp(iHt).  Name and recorded parameters must be the stated ones.')
ASSUMES = ['numpy cos/sin/exp/sqrt/kron/matmul and scipy.linalg.expm behave as documented',
           'XX gates on different pairs commute, so the order of the factors of GMS is immaterial']

half = tm.div(1, 2)


def C(x):
    return mk('cos', x, kind='real') if isinstance(x, T) else math.cos(x)


def rows(*r):
    return [[lr.entry(x) for x in q] for q in r]


def term_rows(f):
    return [[x for x in r] for r in f]


def co(x):
    f, r = lr.form(x)
    return lr.scale(lr.eadd(lr.cis(f, r), lr.cis(f, r, -1)), 0.5)


def si(x):
    f, r = lr.form(x)
    return lr.scale(lr.eadd(lr.cis(f, r), lr.cis(f, r, -1), -1), -0.5j)


def ex(x):
    f, r = lr.form(x)
    return lr.cis(f, r)


def ca(e, k):
    return lr.scale(e, k)


def textbook():
    th, ph = sym('in:theta', 'real'), sym('in:phi', 'real')
    h = tm.mul(th, half)
    one, zero = lr.const(1), {}
    s2 = 1 / math.sqrt(2)

    def num(m):
        return [[lr.const(x) for x in r] for r in m]
    cn = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]
    cc = [[1 if i == j else 0 for j in range(8)] for i in range(8)]
    cc[6], cc[7] = cc[7], cc[6]
    syn = [[1, 1, 1, 1, 1, 1, 1, 1], [1, -1, -1, 1, -1, 1, 1, -1], [1, 1, -1, -1, 1, 1, -1, -1],
           [1, -1, 1, -1, -1, 1, -1, 1], [1, 1, 1, 1, -1, -1, -1, -1], [1, -1, -1, 1, 1, -1, -1, 1],
           [1, -1, 1, -1, 1, -1, 1, -1], [1, 1, -1, -1, -1, -1, 1, 1]]
    c, si_, mi = co(h), ca(si(h), -1), ca(si(h), -1j)
    ct_, mit = co(th), ca(si(th), -1j)
    return {
        'rx': ('Rx', [('θ', th)], [[c, mi], [mi, c]]),
        'ry': ('Ry', [('θ', th)], [[c, si_], [si(h), c]]),
        'rz': ('Rz', [('θ', th)], [[ex(tm.neg(h)), zero], [zero, ex(h)]]),
        'rphi': ('R', [('θ', th), ('Φ', ph)],
                 [[c, lr.emul(mi, ex(tm.neg(ph)))], [lr.emul(mi, ex(ph)), c]]),
        'h': ('H', [], num([[s2, s2], [s2, -s2]])),
        't': ('T', [], [[one, zero], [zero, ex(tm.div(tm.PI, 4))]]),
        'sigmax': ('X', [], num([[0, 1], [1, 0]])),
        'sigmay': ('Y', [], num([[0, -1j], [1j, 0]])),
        'sigmaz': ('Z', [], num([[1, 0], [0, -1]])),
        'cnot': ('CNOT', [], num(cn)),
        'ccnot': ('CCNOT', [], num(cc)),
        'qecc_phase_flip': ('QECC', [], num([[x / math.sqrt(8) for x in r] for r in syn])),
        'xx': ('XX', [('θ', th)], [[ct_, zero, zero, mit], [zero, ct_, mit, zero], [zero, mit, ct_, zero],
                                   [mit, zero, zero, ct_]]),
    }


def fixed(c, s):
    for name, (label, params, want) in textbook().items():
        site = s.site('UnitaryDefinitions', name)
        values = {'theta': sym('in:theta', 'real'), 'phi': sym('in:phi', 'real')}
        names = [a.arg for a in s.func('UnitaryDefinitions', name).node.args.args]
        kw = {n: values[n] for n in ('theta', 'phi') if any(p[1] is values[n] for p in params)}
        if not set(kw) <= set(names):
            pos = [p[1] for p in params]
            kw = {}
        else:
            pos = []

        def ret(o, r, name=name, label=label, params=params, want=want, site=site):
            gate(c, s, o, r, name, label, params, want, site)
        c.run(name, site, lambda name=name, pos=pos, kw=kw: s.call('UnitaryDefinitions', name, *pos, **kw), ret)


def gate(c, s, o, r, name, label, params, want, site):
    m = mat_of(s, r)
    ob = f'{name}: is the textbook matrix'
    if opaque_in(m):
        c.ob(ob, site, 'unknown', c.short(m))
    else:
        try:
            got = lr.matrix(m, nodet=True)
            d = lr.proportional(got, want)
            c.true(ob, site, o, d is None,
                   f'entry {d} differs: the matrix is {c.short(m)}; at the entry '
                   + (lr.show_entry(got[d[0]][d[1]]) if d and d[0] < len(got) and d[1] < len(got) else '')
                   + ' instead of a multiple of '
                   + (lr.show_entry(want[d[0]][d[1]]) if d and d[0] < len(want) and d[1] < len(want) else ''))
        except lr.NotTrig as e:
            c.ob(ob, site, 'unknown', f'not a trigonometric matrix ({e}): {c.short(m)}')
    ob = f'{name}: is unitary for every parameter value'
    for f, origin in o.st.facts.items():
        if isinstance(f, T) and f.op == 'allclose' and tm.is_mat(f.args[0]) and tm.is_mat(f.args[1]):
            try:
                a, b = lr.matrix(f.args[0], nodet=True), lr.matrix(f.args[1], nodet=True)
            except lr.NotTrig:
                continue
            c.true(ob, site, o, lr.equal(a, b), f'required at run time but not an identity: {show(f, 8)[:300]}')
    if ob not in c.obs:
        c.ob(ob, site, 'ok')
    labels(c, s, o, r, name, label, [(k, v, True) for k, v in params], site)


def labels(c, s, o, r, name, label, params, site):
    c.eq(f'{name}: carries its name', site, o, s.m(r, 'get_operation_name'), label)
    want = s.I.ref(ct_dict(params))
    c.eq(f'{name}: records its parameters', site, o, s.get(r, 'parameter_dict'), want)
    c.eq(f'{name}: is not marked inverse', site, o, s.I.boolv(s.get(r, 'is_inverse')), False)
    c.eq(f'{name}: has no qubits of its own', site, o, s.get(r, 'apply_to'), s.I.new_list([]))


def ct_dict(params):
    from ..dom import DictO
    return DictO([It((k, (v, flag))) for k, v, flag in params])


def evolution(c, s):
    site = s.site('UnitaryDefinitions', 'time_evolution')
    H, t = s.inp('h', 'mat'), sym('in:t', 'real')
    suffix = s.inp('suffix', 'str')

    def ret(o, r):
        h = s.I.canon(tm.matsym(H))
        phase_eq(c, 'time_evolution: is exp(iHt)', site, o, mat_of(s, r), tm.expm(tm.mscale(tm.mul(1j, t), h)))
        labels(c, s, o, r, 'time_evolution', tm.cat('H', suffix), [('t', t, False)], site)
        hermitian(c, s, o, 'time_evolution: generator is Hermitian', site, h)
    c.run('time_evolution', site, lambda: s.call('UnitaryDefinitions', 'time_evolution', H, t, suffix), ret)


def hermitian(c, s, o, name, site, h):
    for f in o.st.facts:
        if f.op == 'allclose':
            a, b = s.I.canon(f.args[0]), s.I.canon(f.args[1])
            if {a, b} == {h, dagger(h)} or {a, b} == {tm.transpose(h), tm.mconj(h)}:
                return c.ob(name, site, 'ok')
    return c.true(name, site, o, False, 'no test of the generator against its conjugate transpose')


def gms(c, s):
    site = s.site('UnitaryDefinitions', 'gms')
    n, th = s.inp('num_qubits', 'int'), sym('in:theta', 'real')
    ct.full_unitary(s)
    tm.MODPHASE[0] = True

    def thunk():
        s.pre(cmp_le(2, n))
        return s.call('UnitaryDefinitions', 'gms', n, th)

    def ret(o, r):
        D = tm.power(2, n)
        xx = mat_of(s, s.call('UnitaryDefinitions', 'xx', th))
        xx = tm.strip_phase(xx)
        i, j = fresh_idx(), fresh_idx()
        e = tm.embed(xx, s.vt(s.I.new_list([It(i), It(tm.add(tm.add(i, 1), j))])), D)
        ct.mark_unitary(e)
        inner = tm.prodmat(0, tm.sub(tm.sub(n, 1), i), j, e)
        want = tm.prodmat(0, n, i, inner)
        got = tm.strip_phase(mat_of(s, r))
        alts = [want]
        inner2 = tm.prodmat(0, n, i, inner)
        ob = 'gms: is XX on every pair of qubits'
        if any(got is s.I.canon(tm.strip_phase(a)) for a in alts):
            c.ob(ob, site, 'ok')
        elif pair_product(s, got, n, xx, D):
            c.ob(ob, site, 'ok')
        else:
            c.eq(ob, site, o, got, s.I.canon(tm.strip_phase(want)))
        labels(c, s, o, r, 'gms', tm.cat('GMS', mk('str', n, kind='str')), [('θ', th, True)], site)
    c.run('gms', site, thunk, ret)


def pair_product(s, got, n, xx, D):
    return False


def default_angles(c, s):
    for name, args in (('xx', ()), ('gms', ('n',))):
        f = s.func('UnitaryDefinitions', name)
        d = f.defaults[-1] if f.defaults else None
        site = s.site('UnitaryDefinitions', name)
        if d is None:
            continue
        c.eq(f'{name}: default angle is pi/4', site, FakeOut(s), d, tm.div(tm.PI, 4))


class FakeOut:
    def __init__(self, s):
        self.st = s.I.base


PARTS = [fixed, evolution, gms, default_angles]
