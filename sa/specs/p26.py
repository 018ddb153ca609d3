from .common import *
from .. import contracts as ct
from fractions import Fraction
from ..interp import forall_t

RULE = ('For arbitrary well-typed arguments, the facts on every path on which a constructor or entry point goes on (returns, '
        'or reaches the first random draw, loop or construction) must imply the stated requirement; with an argument of a '
        'wrong kind, alone or next to proper ones, no path may return.')
ASSUMES = ['P01 for operations, P22 for Hamiltonian terms']


def refuses(c, s, name, site, thunk):
    def ret(o, r):
        c.true(name, site, o, False, 'is accepted')
    def go():
        try:
            return thunk()
        except Accepted:
            return None
    stop_at_draw(s)
    outs = c.run(name, site, go, ret, need_ret=False)
    s.I.intercepts.clear()
    if outs and all(o.kind == 'raise' for o in outs):
        c.ob(name, site, 'ok')


def requires(c, s, site, thunk, conds, upto=None):
    '''conds: name -> function of the path giving the condition.'''
    def ret(o, r):
        for name, f in conds:
            c.entails(name, site, o, f(o))
    c.run(conds[0][0], site, thunk, ret)


def wrong(s):
    return [('a number', lambda: Fraction(1, 2)), ('text', lambda: s.inp('w', 'str')), ('nothing', lambda: None),
            ('a sequence', lambda: s.new('UnitarySequence', 4))]


def prim(s, tag='p'):
    return s.inp(tag, 'cls', 'UnitaryPrimitive')


def mats(s):
    return s.inp('target', 'cls', 'Unitary')


# ---------------------------------------------------------------- placements
def primitives(c, s):
    site = s.site('UnitaryPrimitive', '__init__')
    u = s.inp('u', 'cls', 'Unitary')
    al = s.listof('allowed', ('list', ('int',)))
    k, j = fresh_idx(), fresh_idx()
    n = mk('len', al, kind='int')
    el = s.I.generic(mk('elem', al, k), ('list', ('int',)))
    ln = mk('len', el, kind='int')

    def ret(o, r):
        d = s.m(u, 'get_dimension')
        c.entails('placements have no repeated qubits', site, o,
                  forall_t(k, n, mk('distinct', s.vt(s.I.mat(el)), kind='bool')))
        c.entails('placements have as many qubits as the operation', site, o,
                  forall_t(k, n, cmp_eq(tm.power(2, ln), d)))
        c.entails('placements have no negative qubits', site, o,
                  forall_t(k, n, forall_t(j, ln, cmp_le(0, mk('elem', el, j, kind='int')))))
        c.eq('the placements are kept', site, o, s.m(r, 'get_allowed_apply_to'), s.I.mat(al))
        c.eq('the operation is kept', site, o, s.vt(s.m(r, 'get_unitary')), u)
    c.run('primitive', site, lambda: s.new('UnitaryPrimitive', u, al), ret)

    def ret2(o, r):
        c.eq('without a restriction none is kept', site, o, s.m(r, 'get_allowed_apply_to'), None)
    c.run('free primitive', site, lambda: s.new('UnitaryPrimitive', u), ret2)


# ---------------------------------------------------------------- compilers
def sized(c, s, what, site, thunk, D, ps):
    k = fresh_idx()
    el = s.I.generic(mk('elem', ps, k), ('cls', s.cls('UnitaryPrimitive')))

    def ret(o, r):
        d = s.m(s.m(s.I.mat(el), 'get_unitary'), 'get_dimension')
        c.entails(f'{what}: no primitive is larger than the system', site, o,
                  forall_t(k, mk('len', ps, kind='int'), cmp_le(d, D)))
    c.run(what, site, thunk, ret)


def compilers(c, s):
    site = s.site('Compiler', '__init__')
    D, ps = s.inp('D', 'int'), s.listof('prims', 'UnitaryPrimitive')
    sized(c, s, 'compiler', site, lambda: s.new('Compiler', D, ps), D, ps)

    def ret(o, r):
        c.entails('compiler: the dimension is positive', site, o, cmp_le(1, D))
    c.run('compiler dimension', site, lambda: s.new('Compiler', D, ps), ret)
    for w, f in wrong(s) + [('an operation', lambda: mats(s))]:
        for where, mk_ in (('alone', lambda x: [x]), ('after a primitive', lambda x: [prim(s), x]),
                           ('before a primitive', lambda x: [x, prim(s)])):
            refuses(c, s, f'compiler: refuses {w} as a primitive, {where}', site,
                    lambda: s.new('Compiler', D, s.I.new_list([It(x) for x in mk_(f())])))
    for m in ('compile', 'compile_layered'):
        st = s.site('Compiler', m)

        def args(m=m):
            return [s.inp('counts', 'dict', s.ty('UnitaryPrimitive'), ('int',))] if m == 'compile_layered' else []
        for w, f in wrong(s) + [('a primitive', lambda: prim(s)), ('a matrix', lambda: s.inp('wm', 'mat'))]:
            refuses(c, s, f'{m}: refuses {w} as the target', st,
                    lambda: s.m(s.new('Compiler', D, ps), m, f(), *args()))
    refuses(c, s, 'compile: refuses to run without primitives', s.site('Compiler', 'compile'),
            lambda: s.m(s.new('Compiler', D, s.I.new_list([])), 'compile', mats(s)))
    for w, f in wrong(s) + [('a list', lambda: s.listof('wl', 'UnitaryPrimitive'))]:
        refuses(c, s, f'compile_layered: refuses {w} as the counts', s.site('Compiler', 'compile_layered'),
                lambda: s.m(s.new('Compiler', D, ps), 'compile_layered', mats(s), f()))


# ---------------------------------------------------------------- verification
class Accepted(Exception):
    pass


def stop_at_draw(s):
    '''Drawing functions stand for "the request was accepted": the path ends there.'''
    def h(I, args, kw):
        raise Accepted
    for f in ('create_random_sequence_entry', 'create_random_layer'):
        s.I.intercepts[f'Compiler.{f}'] = h


def verification(c, s):
    D, n, th = s.inp('D', 'int'), s.inp('count', 'int'), sym('in:threshold', 'real')
    ps = s.listof('prims', 'UnitaryPrimitive')
    cs = s.inp('counts', 'dict', s.ty('UnitaryPrimitive'), ('int',))
    rav, lay, xeb = (s.site('Verification', f'generate_{x}_sequence') for x in ('rav', 'layered_rav', 'xeb'))
    k = fresh_idx()
    el = s.I.generic(mk('elem', ps, k), ('cls', s.cls('UnitaryPrimitive')))
    key = s.I.generic(mk('key', cs, k), ('cls', s.cls('UnitaryPrimitive')))
    val = mk('val', cs, k, kind='int')
    runs = [('rav', rav, lambda: s.call('Verification', 'generate_rav_sequence', D, ps, n, th)),
            ('layered', lay, lambda: s.call('Verification', 'generate_layered_rav_sequence', D, cs, n, th)),
            ('xeb', xeb, lambda: s.call('Verification', 'generate_xeb_sequence', D, cs, n))]
    for what, site, thunk in runs:
        def ret(o, r, what=what, site=site):
            c.entails(f'{what}: the number of gates or layers is not negative', site, o, cmp_le(0, n))
            if what != 'xeb':
                c.entails(f'{what}: the threshold is at least zero', site, o, cmp_le(0, th))
                c.entails(f'{what}: the threshold is at most one', site, o, cmp_le(th, 1))
            e, src = (el, ps) if what == 'rav' else (key, cs)
            d = s.m(s.m(s.I.mat(e), 'get_unitary'), 'get_dimension')
            N = mk('len', src, kind='int')
            c.entails(f'{what}: no primitive is larger than the system', site, o, forall_t(k, N, cmp_le(d, D)))
            if what != 'rav':
                c.entails(f'{what}: no count is negative', site, o, forall_t(k, N, cmp_le(0, val)))
        requires_until(c, s, what, site, thunk, ret)
    for w, f in wrong(s) + [('an operation', lambda: mats(s))]:
        for where, order in (('alone', 0), ('after a primitive', 1), ('before a primitive', -1)):
            def lst():
                x = f()
                return s.I.new_list([It(v) for v in ([x] if not order else [prim(s), x] if order > 0 else [x, prim(s)])])
            refuses(c, s, f'rav: refuses {w} as a primitive, {where}', rav,
                    lambda: s.call('Verification', 'generate_rav_sequence', D, lst(), n, th))
        if w == 'nothing':
            continue

        def dct(key=True):
            from ..dom import DictO
            x = f()
            return s.I.ref(DictO([It((x, s.inp('m', 'int')))])) if key else s.I.ref(DictO([It((prim(s), x))]))
        refuses(c, s, f'layered: refuses {w} as a primitive', lay,
                lambda: s.call('Verification', 'generate_layered_rav_sequence', D, dct(), n, th))
        refuses(c, s, f'xeb: refuses {w} as a primitive', xeb,
                lambda: s.call('Verification', 'generate_xeb_sequence', D, dct(), n))
        refuses(c, s, f'layered: refuses {w} as a count', lay,
                lambda: s.call('Verification', 'generate_layered_rav_sequence', D, dct(False), n, th))
        refuses(c, s, f'xeb: refuses {w} as a count', xeb,
                lambda: s.call('Verification', 'generate_xeb_sequence', D, dct(False), n))
    for w, f in wrong(s) + [('a list', lambda: ps)]:
        refuses(c, s, f'layered: refuses {w} as the counts', lay,
                lambda: s.call('Verification', 'generate_layered_rav_sequence', D, f(), n, th))


def requires_until(c, s, what, site, thunk, ret):
    '''Every path that gets past the checks: it returns or reaches the first draw.'''
    stop_at_draw(s)
    try:
        def go():
            try:
                return thunk()
            except Accepted:
                return None
        c.run(what, site, go, ret)
    finally:
        s.I.intercepts.clear()


# ---------------------------------------------------------------- parameters and generators
def parameters(c, s):
    site = s.site('ParameterizedUnitaryParameter', '__init__')
    lo, hi, name = sym('in:lo', 'real'), sym('in:hi', 'real'), s.inp('name', 'str')

    def ret(o, r):
        c.entails('parameter: the maximum is not below the minimum', site, o, cmp_le(lo, hi))
        c.eq('parameter: keeps its name', site, o, s.m(r, 'get_parameter_name'), name)
    c.run('parameter', site, lambda: s.new('ParameterizedUnitaryParameter', name, lo, hi, s.inp('a', 'bool')), ret)
    for w in ('', None):
        refuses(c, s, f'parameter: refuses {w!r} as its name', site,
                lambda: s.new('ParameterizedUnitaryParameter', w, lo, hi, s.inp('a', 'bool')))
    site2 = s.site('ParameterizedUnitary', '__init__')
    F, D, ps = s.inp('f', 'fn'), s.inp('D', 'int'), s.listof('params', 'ParameterizedUnitaryParameter')
    p1 = s.inp('param', 'cls', 'ParameterizedUnitaryParameter')
    for w, f in wrong(s):
        for where, order in (('alone', 0), ('after a parameter', 1), ('before a parameter', -1)):
            def lst():
                x = f()
                return s.I.new_list([It(v) for v in ([x] if not order else [p1, x] if order > 0 else [x, p1])])
            refuses(c, s, f'parameterized: refuses {w} as a parameter, {where}', site2,
                    lambda: s.new('ParameterizedUnitary', D, F, lst(), name))
        refuses(c, s, f'parameterized: refuses {w} as its matrix function', site2,
                lambda: s.new('ParameterizedUnitary', D, f(), ps, name))
        if w not in ('text',):
            refuses(c, s, f'parameterized: refuses {w} as its name', site2,
                    lambda: s.new('ParameterizedUnitary', D, F, ps, f()))

    def ret3(o, r):
        c.entails('parameterized: the dimension is positive', site2, o, cmp_le(1, D))
    c.run('parameterized', site2, lambda: s.new('ParameterizedUnitary', D, F, ps, name), ret3)


def generators(c, s):
    H, t = s.inp('H', 'mat'), sym('in:t', 'real')
    a, b = sym('in:tmin', 'real'), sym('in:tmax', 'real')
    m = tm.matsym(H)
    herm = mk('allclose', m, dagger(m), kind='bool')
    site = s.site('UnitaryDefinitions', 'time_evolution')

    def hermitian(o, name, site):
        ok = any(f.op == 'allclose' and {f.args[0], f.args[1]} == {m, dagger(m)} for f in o.st.facts)
        c.true(f'{name}: the generator is Hermitian', site, o, ok, 'returns without requiring matrix = conjugate transpose')
    c.run('evolution', site, lambda: s.call('UnitaryDefinitions', 'time_evolution', H, t),
          lambda o, r: hermitian(o, 'fixed evolution', site))
    site2 = s.site('ParameterizedUnitaryDefinitions', 'time_evolution')

    def ret(o, r):
        hermitian(o, 'parameterized evolution', site2)
        c.entails('parameterized evolution: the time range is not reversed', site2, o, cmp_le(a, b))
    c.run('parameterized evolution', site2,
          lambda: s.call('ParameterizedUnitaryDefinitions', 'time_evolution', H, a, b), ret)


PARTS = [primitives, compilers, verification, parameters, generators]
