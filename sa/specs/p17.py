from itertools import product
from .common import *
from .. import contracts as ct
from .p05 import uniform

RULE = ('Compiler.create_random_sequence_entry on lists of one to three arbitrary primitives of every kind (fixed or '
        'parameterized; free, restricted to an arbitrary non-empty list of placements, or without any placement), with '
        'arbitrary or no probabilities: every path on which an entry is returned must have drawn one of the primitives '
        'that has a placement, with the configured probability renormalised over those, carry that operation (its '
        'parameters fresh uniform draws over their own intervals), and sit on a drawn member of its placements or on '
        'a draw without replacement of as many of the qubits of the system as the operation has.')
ASSUMES = ['P05 for the instantiation of a parameterized operation', 'P26 for the placements a primitive accepts',
           'lists of more than three primitives behave like those analysed (the code treats all elements alike)']

KINDS = {'free': ('free', False), 'placed': ('some', False), 'unplaceable': ('none', False),
         'free parameterized': ('free', True), 'placed parameterized': ('some', True),
         'unplaceable parameterized': ('none', True)}


def primitive(s, i, kind):
    place, par = KINDS[kind]
    u = s.inp(f'u{i}', 'cls', 'ParameterizedUnitary' if par else 'Unitary')
    if place == 'free':
        return s.new('UnitaryPrimitive', u)
    if place == 'none':
        return s.new('UnitaryPrimitive', u, s.I.new_list([]))
    al = s.listof(f'allowed{i}', ('list', ('int',)))
    s.pre(cmp_le(1, mk('len', al, kind='int')))
    return s.new('UnitaryPrimitive', u, al)


def lists():
    for k in KINDS:
        yield (k,)
    for a, b in (('free', 'free'), ('free', 'placed parameterized'), ('placed', 'unplaceable'), ('unplaceable', 'placed'),
                 ('unplaceable parameterized', 'free parameterized'), ('free parameterized', 'unplaceable'),
                 ('placed parameterized', 'placed'), ('unplaceable', 'unplaceable')):
        yield (a, b)
    for t in (('free', 'unplaceable', 'placed'), ('unplaceable', 'placed', 'free parameterized'),
              ('free', 'placed', 'unplaceable'), ('free', 'placed', 'placed parameterized'),
              ('unplaceable', 'placed', 'unplaceable')):
        yield t


def chosen(s, e, n):
    '''Which of the primitives the entry was made from, by the operation name it carries.'''
    name = s.vt(s.m(s.get(e, 'unitary'), 'get_operation_name'))
    for i in range(n):
        if mentions(name, sym(f'in:u{i}')):
            return i
    return None


def one(c, s, kinds, probs):
    I = s.I
    site = s.site('Compiler', 'create_random_sequence_entry')
    what = f'[{", ".join(kinds)}]{" with probabilities" if probs else ""}'
    D = s.inp('D', 'int')
    ps = [sym(f'in:p{i}', 'real') for i in range(len(kinds))]
    ok = [i for i, k in enumerate(kinds) if KINDS[k][0] != 'none']

    def thunk():
        for p in ps:
            s.pre(cmp_lt(0, p))
        prims = I.new_list([It(primitive(s, i, k)) for i, k in enumerate(kinds)])
        mark = len(I.st.events)
        I.st.cnt['spec'] = mark
        a = [I.new_list([It(p) for p in ps])] if probs else []
        return s.call('Compiler', 'create_random_sequence_entry', D, prims, *a)

    seen = set()

    def ret(o, e):
        i = chosen(s, e, len(kinds))
        nm = f'{what}: one of the primitives with a placement is used'
        if i is None:
            c.ob(nm, site, 'unknown', c.short(s.vt(s.m(s.get(e, 'unitary'), 'get_operation_name'))))
            return
        c.true(nm, site, o, i in ok, f'primitive {i} is used')
        if i not in ok:
            return
        seen.add(i)
        place, par = KINDS[kinds[i]]
        # --- probability of the draw
        picks = [ev for ev in o.st.events[o.st.cnt['spec']:] if ev.kind == 'draw' and ev.d.get('prob') is not None]
        nm = f'{what}: primitive {i} is used with its configured probability'
        total = 0
        for j in ok:
            total = tm.add(total, ps[j])
        want = tm.div(ps[i], total) if probs else tm.div(1, len(ok))
        if not picks and len(ok) > 1:
            c.ob(nm, site, 'unknown', 'no draw among the primitives found')
        else:
            q = 1
            for ev in picks:
                q = tm.mul(q, ev.d['prob'])
            c.eq(nm, site, o, q, want)
        # --- operation
        u = sym(f'in:u{i}')
        U = s.get(e, 'unitary')
        if not par:
            src = I.mat(s.inp(f'u{i}', 'cls', 'Unitary'))
            c.eq(f'{what}: the operation is that of primitive {i}', site, o,
                 (s.m(U, 'get_matrix'), s.m(U, 'get_operation_name'), s.get(U, 'parameter_dict'), s.get(U, 'is_inverse')),
                 (s.m(src, 'get_matrix'), s.m(src, 'get_operation_name'), s.get(src, 'parameter_dict'),
                  s.get(src, 'is_inverse')))
        else:
            parameters(c, s, what, i, site, o, U)
        # --- placement
        nm = f'{what}: primitive {i} is placed where it may be'
        at = s.m(e, 'get_apply_to')
        t = s.vt(at)
        if place == 'some':
            al = s.listof(f'allowed{i}', ('list', ('int',)))
            n = mk('len', al, kind='int')
            ds = [x for x in subterms(t) if x.op == 'draw'] if isinstance(t, T) else []
            if opaque_in(t):
                return c.ob(nm, site, 'unknown', c.short(t))
            ok1 = len(ds) == 1 and ds[0].args[0] == 'index'
            if not ok1:
                return c.true(nm, site, o, False, f'is {c.short(t)}, not a random member of the allowed placements')
            d = ds[0]
            c.eq(nm, site, o, t, s.vt(I.mat(I.generic(mk('elem', al, d), ('list', ('int',))))))
            c.eq(f'{what}: every placement of primitive {i} can be drawn, with equal probability', site, o,
                 (d.args[2][0], d.args[2][1] if len(d.args[2]) > 1 else None), (n, None))
        else:
            n = tm.to_int(tm.log2(D))
            size = tm.to_int(tm.log2(s.m(U, 'get_dimension')))
            c.eq(f'{what}: primitive {i} gets as many qubits as it needs', site, o, I.seqlen(I.pieces(at)), size)
            ds = sorted({x for x in subterms(t) if x.op == 'draw'}, key=lambda x: x.id)
            if opaque_in(t):
                return c.ob(nm, site, 'unknown', c.short(t))
            if len(ds) != 1 or ds[0].args[0] not in ('sample', 'perm'):
                return c.true(nm, site, o, False, f'is {c.short(t)}, not a sample without replacement')
            d = ds[0]
            if d.args[0] == 'perm':
                return c.ob(nm, site, 'unknown', c.short(t))
            k = fresh_idx()
            pop, _, repl, p = d.args[2]
            c.eq(nm, site, o, (pop, repl, p), (s.vt(I.new_list([For(k, n, [It(k)])])), False, None))
            k = fresh_idx()
            c.eq(f'{what}: the qubits of primitive {i} are those drawn', site, o, t,
                 s.vt(I.new_list([For(k, size, [It(mk('elem', d, k, kind='int'))])])))
    outs = c.run(what, site, thunk, ret, need_ret=bool(ok))
    if outs is None:
        return
    if not ok:
        c.true(f'{what}: nothing can be generated', site, None,
               all(o.kind == 'raise' for o in outs) or any(o.kind not in ('raise', 'ret') for o in outs), 'a path returns')
        return
    if all(o.kind in ('ret', 'raise') for o in outs) and not any(r['status'] == 'unknown' for n, r in c.obs.items()
                                                               if n.startswith(what)):
        c.true(f'{what}: every primitive with a placement can be drawn', site, None, seen == set(ok),
               f'only {sorted(seen)} of {ok} are drawn')


def parameters(c, s, what, i, site, o, U):
    '''One fresh uniform draw over its own interval per parameter, recorded and used in order.'''
    I = s.I
    u = s.inp(f'u{i}', 'cls', 'ParameterizedUnitary')
    pars = I.pieces(s.m(I.mat(u), 'get_parameters'))
    nm = f'{what}: the parameters of primitive {i} are drawn from their intervals'
    n = I.seqlen(pars)
    m = s.vt(s.m(U, 'get_matrix'))
    if opaque_in(m):
        return c.ob(nm, site, 'unknown', c.short(m))
    apps = [x for x in subterms(m) if x.op == 'app']
    f = s.vt(s.get(I.mat(u), 'parameterized_matrix'))
    if len(apps) != 1 or apps[0].args[0] is not f:
        return c.true(nm, site, o, False, f'the matrix is {c.short(m)}')
    lst = apps[0].args[1]
    body = lst.args[0] if lst.op == 'list' and len(lst.args) == 1 else None
    if body is None or body.op != 'for':
        return c.ob(nm, site, 'unknown', c.short(lst))
    bv, cnt, b = body.args
    c.eq(f'{what}: one value per parameter of primitive {i}', site, o, cnt, n)
    k = fresh_idx()
    I.add_fact(cmp_le(0, k), 'pre')
    I.add_fact(cmp_lt(k, n), 'pre')
    it = b.args[0] if b.op == 'seq' and len(b.args) == 1 else None
    if it is None or it.op != 'it':
        return c.ob(nm, site, 'unknown', c.short(lst))
    v = tm.subst(it.args[0], {bv: k})
    p = I.at(pars, k)
    uniform(c, s, nm, site, o, v, s.vt(s.get(p, 'min_value')), s.vt(s.get(p, 'max_value')))
    ds = [x for x in subterms(v) if x.op == 'draw'] if isinstance(v, T) else []
    if ds:
        c.true(f'{what}: the parameters of primitive {i} are drawn independently', site, o,
               all(tm.subst(d, {k: 0}) is not d for d in ds), f'{show(ds[0], 6)} is shared')


def entries(c, s):
    def job(kinds, probs):
        def go():
            tm.MODPHASE[0] = True
            ct.full_unitary(s)
            one(c, s, kinds, probs)
        return go
    c.par([job(k, p) for k in lists() for p in (False, True)])


PARTS = [entries]
