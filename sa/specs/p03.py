from fractions import Fraction as Fr

from .common import *

RULE = ('distance_from is analysed for an operation and for an array argument: the returned term must be '
        '1 - |trace(self^dagger u)|/dimension and returning must imply equal dimensions.  From all ways through close_to the '
        'condition on the distance and the threshold under which it holds is extracted and decided at its critical '
        'points: it must hold up to 1 - t, also just above (rounding), and nowhere clearly above; without a threshold '
        'it must hold exactly around zero.')
ASSUMES = ['NumPy trace/norm/isclose behave as documented']


def dist_term(s, d, a, b):
    return tm.sub(1, tm.div(tm.absval(tm.trace(mmul(dagger(a), b))), d))


def distance(c, s):
    site = s.site('Unitary', 'distance_from')
    U, V = s.inp('self', 'cls', 'Unitary'), s.inp('u', 'cls', 'Unitary')
    M = s.inp('m', 'mat')

    def ret(o, r):
        d = s.m(U, 'get_dimension')
        c.entails('distance: dimensions agree', site, o, cmp_eq(s.m(V, 'get_dimension'), d), 'equal dimensions')
        c.eq('distance: is 1 - |tr(A^dagger B)|/d', site, o, r, dist_term(s, d, mat_of(s, U), mat_of(s, V)))
    c.run('distance', site, lambda: s.m(U, 'distance_from', V), ret)

    def valid():
        s.pre(cmp_eq(s.m(U, 'get_dimension'), s.m(V, 'get_dimension')))
        return s.m(U, 'distance_from', V)
    c.accepts('distance: accepts an operation of the same dimension', site, valid)

    def validm():
        for i in (0, 1):
            s.pre(cmp_eq(mk('shape', tm.matsym(M), i, kind='int'), s.m(U, 'get_dimension')))
        return s.m(U, 'distance_from', M)
    c.accepts('distance: accepts a matrix of the same dimension', site, validm)

    def retm(o, r):
        d = s.m(U, 'get_dimension')
        m = tm.matsym(M)
        for i in (0, 1):
            c.entails(f'distance from an array: {"rows" if i == 0 else "columns"} agree', site, o,
                      cmp_eq(mk('shape', m, i, kind='int'), d), 'equal dimensions')
        c.eq('distance from an array: is 1 - |tr(A^dagger B)|/d', site, o, r,
             dist_term(s, d, mat_of(s, U), s.I.canon(m)))
    c.run('distance from an array', site, lambda: s.m(U, 'distance_from', M), retm)


def close(c, s):
    """Both forms of close_to: the condition extracted from all ways through the function, decided at its critical points."""
    site = s.site('Unitary', 'close_to')
    U, V = s.inp('self', 'cls', 'Unitary'), s.inp('u', 'cls', 'Unitary')
    t = sym('in:threshold', 'real')
    for what, thr in (('with threshold', t), ('without threshold', None)):
        ways = []

        def ret(o, r):
            d = s.I.canon(s.m(U, 'get_dimension'))
            a = s.I.canon(tm.absval(tm.trace(mmul(dagger(mat_of(s, U)), mat_of(s, V)))))
            b = s.I.canon(tm.absval(tm.trace(mmul(mat_of(s, U), dagger(mat_of(s, V))))))
            rep = {x: tm.mul(s.I.canon(d), tm.sub(1, X)) for x in (a, b) if isinstance(x, T)}
            conds = [f for f, og in o.st.facts.items() if og == 'branch' and (
                t in tm.symbols(f) or any(x in rep for x in subterms(f)))]
            ways.append((o, rep, conds, s.I.boolv(r)))
            c.entails('close_to: dimensions agree', site, o, cmp_eq(s.m(V, 'get_dimension'), d), 'equal dimensions')

        def call():
            return s.m(U, 'close_to', V) if thr is None else s.m(U, 'close_to', V, thr)
        c.run(f'close_to {what}', site, call, ret)
        if not ways:
            continue
        try:
            holds = [(x, y, truth(ways, x, y)) for x, y in points(thr is not None)]
        except Foreign as e:
            c.ob(f'close_to {what}: holds when it should', site, 'unknown', f'not a condition on the distance: {e}')
            continue
        o, got = ways[-1][0], ways[-1][3]
        show_ = '; '.join(c.short(w[3]) for w in ways)

        def judge(name, pts):
            bad = [(x, y) for x, y, v in holds if (x, y) in pts and v != pts[x, y]]
            c.true(name, site, o, not bad, bad and f'at distance {float(bad[0][0])!r}' + (
                f' and threshold 1 - {float(bad[0][1])!r}' if thr is not None else '') +
                f' it is {not pts[bad[0]]}: {show_}')
        if thr is not None:
            judge('close_to: holds when distance <= 1 - threshold', {(x, y): True for x, y, _ in holds if x <= y})
            judge('close_to: fails when the distance is larger', {(x, y): False for x, y, _ in holds if x > y + Fr(1, 10 ** 5)})
            judge('close_to: an operation is close to itself in spite of rounding',
                  {(x, y): True for x, y, _ in holds if y < x < y + Fr(1, 10 ** 5)})
        else:
            judge('close_to without threshold: distance is zero within NumPy tolerance',
                  {(x, y): abs(x) < Fr(1, 10 ** 6) for x, y, _ in holds})


X = sym('in:distance', 'real')
TINY_ = Fr(1, 10 ** 12)


class Foreign(Exception):
    pass


def points(threshold):
    """Distances (and bounds 1 - threshold) below, at, just above and well above the bound."""
    if not threshold:
        return [(x, Fr(0)) for x in (-TINY_, Fr(0), TINY_, Fr(1, 10 ** 10), Fr(1, 10 ** 4), Fr(1, 100), Fr(1, 2), Fr(1))]
    out = []
    for y in (Fr(0), Fr(1, 1000), Fr(1, 10), Fr(1, 2), Fr(9, 10), Fr(1)):
        for x in (-TINY_, Fr(0), y / 2, y - Fr(1, 10 ** 3), y - TINY_, y, y + TINY_, y + Fr(1, 10 ** 3), y + Fr(1, 4), Fr(1)):
            if -TINY_ <= x <= 1 + TINY_:
                out.append((x, y))
    return out


def truth(ways, x, y):
    """The outcome at a point: that of the way whose conditions hold there."""
    for o, rep, conds, r in ways:
        mp = dict(rep)
        if all(value(f, mp, x, y) for f in conds):
            return value(r, mp, x, y)
    raise Foreign('no way through at a point')


def value(f, rep, x, y):
    if isinstance(f, bool):
        return f
    if not isinstance(f, T):
        raise Foreign(repr(f))
    if f.op in ('and', 'or'):
        vs = [value(a, rep, x, y) for a in f.args]
        return all(vs) if f.op == 'and' else any(vs)
    if f.op == 'not':
        return not value(f.args[0], rep, x, y)
    if f.op == 'ite':
        return value(f.args[1] if value(f.args[0], rep, x, y) else f.args[2], rep, x, y)

    def num(p):
        p = tm.subst(tm.subst(p, rep), {X: x, sym('in:threshold', 'real'): 1 - y}) if isinstance(p, T) else p
        v = tm.const_of(p)
        if v is None:
            raise Foreign(show(p, 6)[:200])
        return Fr(v)
    if f.op in ('le', 'lt', 'eq0'):
        v = num(f.args[0])
        return v <= 0 if f.op == 'le' else v < 0 if f.op == 'lt' else v == 0
    if f.op == 'isclose':
        tol = {'rtol': Fr(1, 10 ** 5), 'atol': Fr(1, 10 ** 8)}
        for r in f.args[2:]:
            if not isinstance(r, T) or r.op != 'tol' or r.args[0] not in tol:
                raise Foreign(show(f, 5)[:200])
            tol[r.args[0]] = num(r.args[1])
        a, b = num(f.args[0]), num(f.args[1])
        return abs(a - b) <= tol['atol'] + tol['rtol'] * abs(b)
    raise Foreign(show(f, 5)[:200])


PARTS = [distance, close]
