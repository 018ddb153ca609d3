import itertools

from .common import *
from .. import contracts as ct
from ..interp import forall_t

RULE = ('A sequence entry over an arbitrary operation and qubit list: creation must establish distinct, non-negative qubits '
        'whose number matches the operation; the full operation must be permutation . (operation (x) identity) . '
        'permutation^T, i.e. the operation embedded on the listed qubits, with name, parameters, inverse mark and qubits '
        'kept; three requests at arbitrary equal or different system sizes, on the same or on another entry, must each give '
        'the operation for the size asked.')
ASSUMES = ['system dimensions are powers of two']


def entry(s, tag=''):
    u = s.I.generic(sym('in:unitary' + tag), ('cls', s.cls('Unitary')))
    a = s.listof('qubits' + tag, ('int',))
    return u, a


def creation(c, s):
    site = s.site('UnitarySequenceEntry', '__init__')
    u, a = entry(s)
    n = mk('len', a, kind='int')

    def ret(o, r):
        D = s.m(u, 'get_dimension')
        q = s.m(r, 'get_apply_to')
        c.eq('entry: holds the qubits in the order given', site, o, q, s.I.mat(a))
        c.eq('entry: holds the operation', site, o, s.vt(s.get(r, 'unitary')), u)
        c.eq('entry: has the dimension of the operation', site, o, s.m(r, 'get_dimension'), D)
        c.entails('entry: number of qubits matches the operation', site, o, cmp_eq(tm.power(2, n), D))
        k = fresh_idx()
        c.entails('entry: no qubit is negative', site, o,
                  forall_t(k, n, cmp_le(0, mk('elem', a, k, kind='int'))))
        c.entails('entry: qubits are distinct', site, o,
                  mk('distinct', s.vt(s.I.mat(a)), kind='bool'))
    c.run('entry', site, lambda: s.new('UnitarySequenceEntry', u, a), ret)

    def valid():
        proper(s, u, a)
        return s.new('UnitarySequenceEntry', u, a)
    c.accepts('entry: distinct qubits that match the operation are accepted', site, valid)


def proper(s, u, a, *Ds):
    '''The qubits suit the operation and the systems.'''
    n = mk('len', a, kind='int')
    k = fresh_idx()
    s.pre(mk('distinct', s.vt(s.I.mat(a)), kind='bool'))
    s.pre(cmp_eq(tm.power(2, n), s.m(u, 'get_dimension')))
    s.pre(forall_t(k, n, cmp_le(0, mk('elem', a, k, kind='int'))))
    s.pre(cmp_le(1, n))
    for d in Ds:
        s.pre(cmp_le(s.m(u, 'get_dimension'), d))
        s.pre(forall_t(k, n, cmp_le(tm.power(2, tm.add(mk('elem', a, k, kind='int'), 1)), d)))


def perm_contract(s):
    '''UnitarySequenceEntry.get_permute_matrix, established by the part `permutation`.'''
    def h(I, args, kw):
        v = ct.arg(I, s, 'UnitarySequenceEntry', 'get_permute_matrix', args, kw)
        names = [x.arg for x in s.func('UnitarySequenceEntry', 'get_permute_matrix').node.args.args]
        me, D = v[names[0]], I.scalar(v[names[1]])
        a = I.canon(I.vt(I.call(I.getattr(me, 'get_apply_to'), [], {})))
        I.require(cmp_le(I.call(I.getattr(me, 'get_dimension'), [], {}), D), 'fits')
        m = tm.perm(a, I.canon(D))
        ct.mark_unitary(m)
        return I.new_mat(m, 'sparse')
    s.I.intercepts['UnitarySequenceEntry.get_permute_matrix'] = h


def full(c, s):
    site = s.site('UnitarySequenceEntry', 'get_full_unitary')
    s.conforms = conforms(s)
    perm_contract(s)
    tm.MODPHASE[0] = True
    u, a = entry(s)
    D = s.inp('system', 'int')

    def thunk():
        e = s.new('UnitarySequenceEntry', u, a)
        s.pre(cmp_le(1, D))
        return s.I.new_list([It(e), It(s.m(e, 'get_full_unitary', D))])

    def ret(o, r):
        e, f = [p.v for p in s.I.pieces(r)]
        want(c, s, 'full unitary', site, o, f, u, a, D)
        c.eq('full unitary: has the name of the operation', site, o, s.m(f, 'get_operation_name'),
             s.m(u, 'get_operation_name'))
        c.eq('full unitary: has the parameters of the operation', site, o, s.get(f, 'parameter_dict'),
             s.get(u, 'parameter_dict'))
        c.eq('full unitary: has the inverse mark of the operation', site, o, s.I.boolv(s.get(f, 'is_inverse')),
             s.I.boolv(s.get(u, 'is_inverse')))
        c.eq('full unitary: has the qubits of the entry', site, o, s.get(f, 'apply_to'), s.I.mat(a))
        c.eq('full unitary: leaves the operation of the entry alone', site, o, s.vt(s.get(e, 'unitary')), u)
    c.run('full unitary', site, thunk, ret)


def want(c, s, name, site, o, f, u, a, D):
    m = s.I.canon(s.vt(s.m(u, 'get_matrix')))
    w = tm.embed(m, s.I.canon(s.vt(s.I.mat(a))), s.I.canon(D))
    if s.conforms:
        phase_eq(c, name + ': is the operation on its qubits', site, o, mat_of(s, f), w)
    else:
        c.ob(name + ': is the operation on its qubits', site, 'unknown', 'get_permute_matrix shares the work otherwise')
    c.eq(name + ': has the size asked for', site, o, s.m(f, 'get_dimension'), D)


def again(c, s):
    site = s.site('UnitarySequenceEntry', 'get_full_unitary')
    s.conforms = conforms(s)
    perm_contract(s)
    tm.MODPHASE[0] = True
    D = [s.inp(f'system{i}', 'int') for i in range(3)]
    es = [entry(s, '1'), entry(s, '2')]
    for who, txt in (((0, 0, 0), 'one entry'), ((0, 1, 0), 'two entries')):
        def thunk(who=who):
            e = [s.new('UnitarySequenceEntry', *x) for x in es]
            for d in D:
                s.pre(cmp_le(1, d))
            return s.I.new_list([It(s.m(e[w], 'get_full_unitary', d)) for w, d in zip(who, D)])

        def ret(o, r, who=who, txt=txt):
            for i, p in enumerate(s.I.pieces(r)):
                want(c, s, f'{txt}, request {i + 1}', site, o, p.v, *es[who[i]], D[i])
        c.run(txt, site, thunk, ret)

        def valid(who=who):
            D = [tm.power(2, s.inp(f'size{i}', 'int')) for i in range(3)]
            for i, d in enumerate(D):
                s.pre(cmp_le(0, s.inp(f'size{i}', 'int')))
                for x in es:
                    s.pre(cmp_le(mk('len', x[1], kind='int'), s.inp(f'size{i}', 'int')))
            for x in es:
                proper(s, *x, *D)
            e = [s.new('UnitarySequenceEntry', *x) for x in es]
            return [s.m(e[w], 'get_full_unitary', d) for w, d in zip(who, D)]
        c.accepts(f'{txt}: every size that contains the qubits is accepted', site, valid)


# ---------------------------------------------------------------- the permutation, for every layout of up to four qubits
def layouts():
    for n in (1, 2, 3, 4):
        for k in range(1, n + 1):
            if n == 4 and k > 2:
                continue
            for at in itertools.permutations(range(n), k):
                yield n, at


def bits(i, n):
    return [(i >> (n - 1 - j)) & 1 for j in range(n)]


def placed(n, at):
    '''The operation on the qubits `at` of n (qubit 0 first): entries as positions in the matrix of the operation.'''
    rest = [q for q in range(n) if q not in at]
    out = {}
    for i in range(2 ** n):
        for j in range(2 ** n):
            a, b = bits(i, n), bits(j, n)
            if all(a[q] == b[q] for q in rest):
                out[i, j] = (int(''.join(str(a[q]) for q in at), 2), int(''.join(str(b[q]) for q in at), 2))
    return out


class Spread(Exception):
    pass


def entries_of(m, U, d):
    '''The entries of a matrix made of constants and of U: rows of {position in U or None: number}.'''
    def lin(a):
        if a is U:
            return [[{(i, j): 1} for j in range(d)] for i in range(d)]
        if a.op == 'ident':
            n = tm.const_of(a.args[0])
            if n is None or n > 64:
                raise Spread('an identity of unknown size')
            return [[{None: 1} if i == j else {} for j in range(int(n))] for i in range(int(n))]
        if a.op == 'lit':
            r = [[tm.const_of(x) for x in q] for q in a.args[0]]
            if any(x is None for q in r for x in q):
                raise Spread('an unknown entry')
            return [[{None: x} if x != 0 else {} for x in q] for q in r]
        if a.op == 'dec' and not a.args[2]:
            return [list(r) for r in zip(*lin(a.args[0]))]
        if a.op == 'dec' and a.args[0] is not U:
            return [list(r) for r in zip(*lin(a.args[0]))] if a.args[1] else lin(a.args[0])
        if a.op == 'kron':
            x, y = mat(a.args[0]), mat(a.args[1])
            return [[times(p, q) for p in ra for q in rb] for ra in x for rb in y]
        raise Spread(a.op)

    def times(p, q):
        out = {}
        for a, x in p.items():
            for b, y in q.items():
                if a is not None and b is not None:
                    raise Spread('a product of entries')
                k = b if a is None else a
                out[k] = out.get(k, 0) + x * y
        return {k: v for k, v in out.items() if v != 0}

    def plus(p, q):
        out = dict(p)
        for k, v in q.items():
            out[k] = out.get(k, 0) + v
        return {k: v for k, v in out.items() if v != 0}

    def mat(m):
        out = None
        for w, k in tm.to_mat(m).items():
            k = tm.const_of(k)
            if k is None:
                raise Spread('an unknown coefficient')
            x = None
            for a in w:
                y = lin(a)
                if x is None:
                    x = y
                    continue
                if len(x[0]) != len(y):
                    raise Spread('sizes')
                cols = list(zip(*y))
                z = []
                for r in x:
                    row = []
                    for cl in cols:
                        e = {}
                        for p, q in zip(r, cl):
                            if p and q:
                                e = plus(e, times(p, q))
                        row.append(e)
                    z.append(row)
                x = z
            x = [[times(e, {None: k}) for e in r] for r in x]
            out = x if out is None else [[plus(p, q) for p, q in zip(r, t)] for r, t in zip(out, x)]
        return out
    return mat(m)


def conforms(s):
    '''Whether get_permute_matrix alone does what its contract says (False: the two functions share the work otherwise).'''
    I = s.I
    save = I.st, I.overrides.get('fold')
    I.overrides['fold'] = True
    u = s.I.generic(sym('in:unitary'), ('cls', s.cls('Unitary')))
    try:
        for n, at in layouts():
            if n > 3:
                continue

            def thunk():
                s.pre(cmp_eq(s.m(u, 'get_dimension'), 2 ** len(at)))
                e = s.new('UnitarySequenceEntry', u, s.I.new_list([It(q) for q in at]))
                return s.I.lib.as_mat(I, s.m(e, 'get_permute_matrix', 2 ** n))
            for o in I.explore(thunk, st0=I.base.clone()):
                if o.kind != 'ret':
                    continue
                try:
                    p = [[x.get(None, 0) for x in r] for r in entries_of(o.v, None, 0)]
                except (Spread, AttributeError):
                    continue
                N = range(2 ** n)
                if len(p) != 2 ** n or any(sorted(map(float, r)) != [0] * (2 ** n - 1) + [1] for r in p):
                    return False
                to = [r.index(1) for r in p]
                low = 2 ** (n - len(at))
                w = placed(n, at)
                for i in N:
                    for j in N:
                        same = to[i] % low == to[j] % low
                        if same != ((i, j) in w) or same and (to[i] // low, to[j] // low) != w[i, j]:
                            return False
    finally:
        I.st = save[0]
        I.overrides.pop('fold')
    return True


def permutation(c, s):
    site = s.site('UnitarySequenceEntry', 'get_permute_matrix')
    s.I.overrides['fold'] = True
    tm.MODPHASE[0] = True

    def job(n, at):
        def go():
            u = s.I.generic(sym('in:unitary'), ('cls', s.cls('Unitary')))
            k = len(at)
            name = f'qubits {", ".join(map(str, at))} of {n}'

            def thunk():
                s.pre(cmp_eq(s.m(u, 'get_dimension'), 2 ** k))
                e = s.new('UnitarySequenceEntry', u, s.I.new_list([It(q) for q in at]))
                return s.m(e, 'get_full_unitary', 2 ** n)

            def ret(o, f):
                U = s.I.canon(mat_of(s, u))
                g = nodet(strip_phase(s.I.canon(mat_of(s, f))))
                try:
                    (w, _), = tm.to_mat(U).items()
                    got = entries_of(g, w[0], 2 ** k)
                    if _ != 1 or len(w) != 1:
                        raise Spread('the operation')
                except Spread as e:
                    c.ob(f'{name}: the operation acts on them', site, 'unknown', f'{e}: {c.short(g)}')
                    return
                want = placed(n, at)
                want = [[{want[i, j]: 1} if (i, j) in want else {} for j in range(2 ** n)] for i in range(2 ** n)]
                if got == want:
                    c.ob(f'{name}: the operation acts on them', site, 'ok')
                    return
                bad = [(i, j) for i in range(2 ** n) for j in range(2 ** n) if got[i][j] != want[i][j]] \
                    if len(got) == 2 ** n == len(got[0]) else []
                i, j = bad[0] if bad else (0, 0)
                c.true(f'{name}: the operation acts on them', site, o, False,
                       f'entry ({i}, {j}) of the full operation is {got[i][j]} and should be {want[i][j]} '
                       '(positions in the matrix of the operation)' if bad else 'has another size')
            c.run(name, site, thunk, ret)
        return go
    c.par([job(n, at) for n, at in layouts()])


PARTS = [creation, full, again, permutation]
