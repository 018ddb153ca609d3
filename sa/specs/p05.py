from .common import *
from .. import contracts as ct
from .. import laurent as lr
from .p04 import co, si, ex, hermitian

RULE = ('ParameterizedUnitary.as_unitary is analysed for an arbitrary matrix function, parameter list and value list: on '
        'every path that returns, the facts must imply one value per parameter, each within its closed interval; the '
        'matrix must be the function applied to exactly those values (up to phase) and the record must list every value '
        'under its parameter.  Each predefined parameterized gate instantiated at arbitrary values must be the same matrix '
        'term as the fixed gate.  Random values must be an affine image of one uniform draw onto the whole interval.')
ASSUMES = ['parameter values are reals', 'P04 for the textbook form of the fixed gates']


def generic(c, s):
    site = s.site('ParameterizedUnitary', 'as_unitary')
    F = s.inp('f', 'fn')
    D = s.inp('dimension', 'int')
    ps = s.listof('params', 'ParameterizedUnitaryParameter')
    vals = s.listof('values', ('float',))
    n, nv = mk('len', ps, kind='int'), mk('len', vals, kind='int')

    def thunk():
        pu = s.new('ParameterizedUnitary', D, F, ps, s.inp('name', 'str'))
        s.I.st.cnt['spec'] = pu
        return s.m(pu, 'as_unitary', vals)

    def ret(o, r):
        c.entails('as_unitary: one value per parameter', site, o, cmp_eq(n, nv))
        k = fresh_idx()
        p = s.I.mat(s.I.generic(mk('elem', ps, k), ('cls', s.cls('ParameterizedUnitaryParameter'))))
        v = mk('elem', vals, k, kind='real')
        lo, hi = s.get(p, 'min_value'), s.get(p, 'max_value')
        from ..interp import forall_t
        c.entails('as_unitary: every value is at least the minimum', site, o, forall_t(k, n, cmp_le(lo, v)))
        c.entails('as_unitary: every value is at most the maximum', site, o, forall_t(k, n, cmp_le(v, hi)))
        from ..evalx import Star
        want = s.I.call(s.I.mat(F), [Star([For(k, n, [It(v)])])], {})
        phase_eq(c, 'as_unitary: has the matrix of exactly these values', site, o, mat_of(s, r), s.I.vt(want))
        from ..dom import DictO
        rec = s.I.ref(DictO([For(k, n, [It((s.get(p, 'parameter_name'), (v, s.get(p, 'is_angle'))))])]))
        c.eq('as_unitary: records every value in order', site, o, s.get(r, 'parameter_dict'), rec)
        c.eq('as_unitary: has the name of the gate', site, o, s.m(r, 'get_operation_name'), s.inp('name', 'str'))
        c.eq('as_unitary: has the dimension of the gate', site, o, s.m(r, 'get_dimension'), D)
        c.eq('as_unitary: is not marked inverse', site, o, s.I.boolv(s.get(r, 'is_inverse')), False)
    c.run('as_unitary', site, thunk, ret)


def accepts(c, s):
    '''In-range values, including the end points, are accepted.'''
    site = s.site('ParameterizedUnitaryParameter', 'is_valid')
    lo, hi, v = sym('in:lo', 'real'), sym('in:hi', 'real'), sym('in:v', 'real')

    def thunk():
        p = s.new('ParameterizedUnitaryParameter', s.inp('name', 'str'), lo, hi, s.inp('angle', 'bool'))
        return s.m(p, 'is_valid', v)

    def ret(o, r):
        r = s.I.boolv(r)
        inside = land(cmp_le(lo, v), cmp_le(v, hi))
        if s.holds(r) is True or r is True:
            c.entails('is_valid: accepts only the closed interval', site, o, inside)
        elif s.holds(r) is False or r is False:
            c.entails('is_valid: rejects only outside the closed interval', site, o, lnot(inside))
        else:
            c.eq('is_valid: is membership of the closed interval', site, o, r, inside)
    c.run('is_valid', site, thunk, ret)

    def ret2(o, p):
        c.eq('parameter: keeps its name', site2, o, s.m(p, 'get_parameter_name'), s.inp('name', 'str'))
        c.eq('parameter: keeps its angle marking', site2, o, s.m(p, 'get_is_angle'), s.inp('angle', 'bool'))
    site2 = s.site('ParameterizedUnitaryParameter', '__init__')
    c.run('parameter', site2, lambda: s.new('ParameterizedUnitaryParameter', s.inp('name', 'str'), lo, hi,
                                            s.inp('angle', 'bool')), ret2)


def drawn(c, s):
    site = s.site('ParameterizedUnitaryParameter', 'random_value')
    lo, hi = sym('in:lo', 'real'), sym('in:hi', 'real')

    def thunk():
        p = s.new('ParameterizedUnitaryParameter', s.inp('name', 'str'), lo, hi, s.inp('angle', 'bool'))
        return s.m(p, 'random_value')

    def ret(o, r):
        uniform(c, s, 'random_value: uniform over the whole interval', site, o, r, lo, hi)
    c.run('random_value', site, thunk, ret)


def uniform(c, s, name, site, o, r, lo, hi):
    r = s.vt(r)
    us = sorted({a for a in subterms(r) if a.op == 'draw'}, key=lambda a: a.id) if isinstance(r, T) else []
    if len(us) == 1 and us[0].args[0] == 'u01':
        u = us[0]
        w = tm.sub(hi, lo)
        for want in (tm.add(lo, tm.mul(u, w)), tm.sub(hi, tm.mul(u, w))):
            if s.I.canon(r) is s.I.canon(want):
                return c.ob(name, site, 'ok')
        return c.eq(name, site, o, r, tm.add(lo, tm.mul(u, w)))
    return c.true(name, site, o, False, f'is {c.short(r)}, not a uniform draw between the bounds') \
        if not opaque_in(r) else c.ob(name, site, 'unknown', c.short(r))


TWO_PI = tm.mul(2, tm.PI)


def gates(c, s):
    th, ph, t = sym('in:theta', 'real'), sym('in:phi', 'real'), sym('in:t', 'real')
    n, H, sfx = s.inp('num_qubits', 'int'), s.inp('h', 'mat'), s.inp('suffix', 'str')
    lo, hi = sym('in:t_min', 'real'), sym('in:t_max', 'real')
    full = (0, TWO_PI, True)
    cases = [
        ('rotation_xy', (), [('theta', th, full), ('phi', ph, full)], ('rphi', (th, ph)), 2),
        ('xx', (), [('theta', th, full)], ('xx', (th,)), 4),
        ('gms', (n,), [('theta', th, full)], ('gms', (n, th)), tm.power(2, n)),
        ('time_evolution', (H, lo, hi, sfx), [('t', t, (lo, hi, False))], ('time_evolution', (H, t, sfx)),
         mk('shape', tm.matsym(H), 0, kind='int')),
    ]
    for name, args, params, (fixed, fargs), D in cases:
        site = s.site('ParameterizedUnitaryDefinitions', name)
        ct.full_unitary(s)
        tm.MODPHASE[0] = True

        def thunk(name=name, args=args, params=params, fixed=fixed, fargs=fargs):
            if name == 'gms':
                s.pre(cmp_le(2, n))
            g = s.call('ParameterizedUnitaryDefinitions', name, *args)
            for _, v, (a, b, _) in params:
                s.pre(cmp_le(a, v))
                s.pre(cmp_le(v, b))
            u = s.m(g, 'as_unitary', s.I.new_list([It(v) for _, v, _ in params]))
            f = s.call('UnitaryDefinitions', fixed, *fargs)
            return s.I.new_list([It(g), It(u), It(f)])

        def ret(o, r, name=name, params=params, site=site, D=D):
            g, u, f = [p.v for p in s.I.pieces(r)]
            parameters(c, s, o, name, site, g, params)
            phase_eq(c, f'{name}: equals the fixed gate at every value', site, o, mat_of(s, u), mat_of(s, f))
            c.eq(f'{name}: dimension', site, o, s.m(g, 'get_dimension'), D)
            if name != 'rotation_xy':
                c.eq(f'{name}: has the name of the fixed gate', site, o, s.m(g, 'get_operation_name'),
                     s.vt(s.m(f, 'get_operation_name')))
            if name == 'time_evolution':
                hermitian(c, s, o, f'{name}: generator is Hermitian', site, s.I.canon(tm.matsym(H)))
        c.run(name, site, thunk, ret)

        def valid(thunk=thunk):
            if name == 'time_evolution':
                m = tm.matsym(H)
                s.pre(cmp_le(1, mk('shape', m, 0, kind='int')))
                s.pre(cmp_eq(mk('shape', m, 0, kind='int'), mk('shape', m, 1, kind='int')))
            return thunk()
        if name != 'gms':
            c.accepts(f'{name}: values of the interval are accepted', site, valid)
    site = s.site('ParameterizedUnitaryDefinitions', 'gms')
    for k in (2, 3):
        def few(k=k):
            s.pre(cmp_le(0, th))
            s.pre(cmp_le(th, TWO_PI))
            return s.m(s.call('ParameterizedUnitaryDefinitions', 'gms', k), 'as_unitary', s.I.new_list([It(th)]))
        c.accepts(f'gms: values of the interval are accepted for {k} qubits', site, few)


def parameters(c, s, o, name, site, g, params):
    from ..dom import DictO
    got = s.I.pieces(s.m(g, 'get_parameters'))
    want = [(k, *b) for k, _, b in params]
    if not all(isinstance(p, It) for p in got):
        return c.ob(f'{name}: parameters', site, 'unknown', repr(got))
    c.eq(f'{name}: parameter names, intervals and angle marking', site, o,
         s.I.new_list([It((s.get(p.v, 'parameter_name'), s.get(p.v, 'min_value'), s.get(p.v, 'max_value'),
                           s.I.boolv(s.get(p.v, 'is_angle')))) for p in got]),
         s.I.new_list([It(w) for w in want]))


def xyz(c, s):
    site = s.site('ParameterizedUnitaryDefinitions', 'rotation_xyz')
    a, b, g = (sym('in:' + x, 'real') for x in ('alpha', 'beta', 'gamma'))
    full = (0, TWO_PI, True)
    params = [('alpha', a, full), ('beta', b, full), ('gamma', g, full)]

    def thunk():
        pu = s.call('ParameterizedUnitaryDefinitions', 'rotation_xyz')
        for v in (a, b, g):
            s.pre(cmp_le(0, v))
            s.pre(cmp_le(v, TWO_PI))
        return s.I.new_list([It(pu), It(s.m(pu, 'as_unitary', s.I.new_list([It(a), It(b), It(g)])))])

    def ret(o, r):
        pu, u = [p.v for p in s.I.pieces(r)]
        parameters(c, s, o, 'rotation_xyz', site, pu, params)
        c.eq('rotation_xyz: dimension', site, o, s.m(pu, 'get_dimension'), 2)
        h = tm.div(1, 2)
        ag, amg = tm.mul(tm.add(a, g), h), tm.mul(tm.sub(a, g), h)
        cb, sb = co(tm.mul(b, h)), si(tm.mul(b, h))
        want = [[lr.emul(cb, ex(tm.neg(ag))), lr.scale(lr.emul(sb, ex(tm.neg(amg))), -1)],
                [lr.emul(sb, ex(amg)), lr.emul(cb, ex(ag))]]
        ob = 'rotation_xyz: is Rz(alpha) Ry(beta) Rz(gamma)'
        try:
            got = lr.matrix(mat_of(s, u), nodet=True)
        except lr.NotTrig as e:
            return c.ob(ob, site, 'unknown', str(e))
        d = lr.proportional(got, want)
        c.true(ob, site, o, d is None, f'entry {d} differs: {c.short(mat_of(s, u))}')
    c.run('rotation_xyz', site, thunk, ret)
    c.accepts('rotation_xyz: values of the interval are accepted', site, thunk)


PARTS = [generic, accepts, drawn, gates, xyz]
