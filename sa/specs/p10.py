from .common import *
from .. import contracts as ct
from .p07 import seq, apply_op, check_product
from .p09 import fits
from . import p06

RULE = ('The inverse of a sequence over an arbitrary entry list, in every cache situation, must hold the entry-wise inverse '
        'operations on the same qubits in reverse order and report the product of those entries; combining one, two or '
        'three arbitrary sequences must hold the concatenation and report its product; sources must report the same '
        'entries, product and undo state as before; facts on return must imply equal dimensions and sequence types.')
ASSUMES = ['P06 (get_full_unitary as a contract)', 'P02 for Unitary.inverse']

STATES = [(), ('product',), ('append_last', 'product'), ('product', 'append_first')]


def inv_entry_key(s, e):
    m, name, pd, inv, q = entry_key(s, e)
    return (s.I.new_mat(dagger(s.I.canon(s.vt(m)))), name, pd, lnot(s.I.boolv(inv)), q)


def source_view(s, q):
    '''Entries and product of a sequence, and those undo would give.'''
    I = s.I
    out = []
    for undo in (False, True):
        save = I.st
        I.st = save.clone()
        try:
            if undo:
                s.m(q, 'undo')
            out.append(s.vt(s.I.new_list([It(entries_key(s, s.m(q, 'get_sequence_entries'))),
                                          It(tm.strip_phase(mat_of(s, s.m(q, 'product'))))])))
        except Exception as e:
            if type(e).__name__ != 'TargetRaise':
                raise
            out.append(sym('raises'))
        finally:
            I.st = save
    return out


def inverse(c, s):
    D, es = seq(s)
    ct.full_unitary(s)
    tm.MODPHASE[0] = True
    site = s.site('UnitarySequence', 'inverse')
    for h in STATES:
        name = f'inverse after {", ".join(h) or "creation"}'

        def make(h=h):
            q = s.new('UnitarySequence', D, es)
            for i, op in enumerate(h):
                apply_op(s, q, op, i)
            return q
        for o in list(s.outs(make)):
            if o.kind != 'ret':
                continue
            q = o.v
            s.I.st = o.st
            before = source_view(s, q)
            ps = s.I.pieces(s.m(q, 'get_sequence_entries'))
            want = s.I.reverse(s.I.map_pieces(ps, lambda e: inv_entry_key(s, e)))
            want = s.vt(s.I.new_list(want))
            outs = s.I.explore(lambda: s.m(q, 'inverse'), st0=o.st)
            for p in outs:
                c.paths += 1
                if p.kind != 'ret':
                    if p.kind != 'raise':
                        c.ob(name, site, 'unknown', f'{p.kind} {p.v}')
                    continue
                c.guard(name, site, p, lambda p: check_inverse(c, s, name, site, p, q, p.v, want, before, D))
            if not any(p.kind == 'ret' for p in outs):
                c.true(f'{name}: returns', site, outs[0] if outs else o, False, f'{[p.v for p in outs]}')


def check_inverse(c, s, name, site, p, q, r, want, before, D):
    c.true(f'{name}: is a sequence', site, p, is_a(s, r, 'UnitarySequence'), 'not a sequence')
    c.eq(f'{name}: dimension', site, p, s.m(r, 'get_dimension'), D)
    c.eq(f'{name}: inverse entries in reverse order', site, p, entries_key(s, s.m(r, 'get_sequence_entries')),
         s.I.canon(want))
    check_product(c, s, name, site, p, r, D)
    same_sources(c, s, name, site, p, [q], [before])


def same_sources(c, s, name, site, p, qs, befores):
    for i, (q, b) in enumerate(zip(qs, befores)):
        for what, x, y in zip(('entries and product', 'undo state'), source_view(s, q), b):
            c.eq(f'{name}: leaves the {what} of source {i + 1} alone', site, p, s.I.canon(x), s.I.canon(y))


def combine(c, s):
    ct.full_unitary(s)
    tm.MODPHASE[0] = True
    site = s.site('UnitarySequence', 'combine')
    Ds = [s.inp(f'D{i}', 'int') for i in range(3)]
    es = [s.listof(f'entries{i}', 'UnitarySequenceEntry') for i in range(3)]
    cases = [(1, [()]), (2, [(), ()]), (2, [('product',), ()]), (2, [('append_last',), ('product', 'append_first')]),
             (3, [(), ('product',), ()])]

    def job(n, hs):
        def go():
            name = 'combine of ' + '; '.join(', '.join(h) or 'new' for h in hs)

            def make():
                qs = []
                for j, h in enumerate(hs):
                    q = s.new('UnitarySequence', Ds[j], es[j])
                    for i, op in enumerate(h):
                        apply_op(s, q, op, 10 * j + i)
                    qs.append(q)
                return tuple(qs)
            for o in list(s.outs(make)):
                if o.kind != 'ret':
                    continue
                qs = o.v
                s.I.st = o.st
                befores = [source_view(s, q) for q in qs]
                want = s.vt(s.I.new_list([x for q in qs for x in s.I.map_pieces(
                    s.I.pieces(s.m(q, 'get_sequence_entries')), lambda e: entry_key(s, e))]))
                outs = s.I.explore(lambda: s.call('UnitarySequence', 'combine', *qs), st0=o.st)
                for p in outs:
                    c.paths += 1
                    if p.kind == 'ret':
                        c.guard(name, site, p, lambda p: check_combine(name, p, qs, p.v, want, befores))
                    elif p.kind != 'raise':
                        c.ob(name, site, 'unknown', f'{p.kind} {p.v}')
                if not any(p.kind == 'ret' for p in outs):
                    c.true(f'{name}: returns', site, outs[0] if outs else o, False, f'{[p.v for p in outs]}')
        return go

    def check_combine(name, p, qs, r, want, befores):
        for d in Ds[1:len(qs)]:
            c.entails(f'{name}: only sequences of one dimension', site, p, cmp_eq(d, Ds[0]))
        c.eq(f'{name}: dimension', site, p, s.m(r, 'get_dimension'), s.I.canon(Ds[0]))
        c.eq(f'{name}: entries of all in order', site, p, entries_key(s, s.m(r, 'get_sequence_entries')), s.I.canon(want))
        check_product(c, s, name, site, p, r, Ds[0])
        same_sources(c, s, name, site, p, qs, befores)
    c.par([job(*x) for x in cases])


def refusals(c, s):
    D, es = seq(s)
    site = s.site('UnitarySequence', 'combine')
    ct.full_unitary(s)

    def refuses(name, thunk):
        outs = c.run(name, site, thunk, lambda o, r: c.true(name, site, o, False, 'returns'), need_ret=False)
        if outs and not any(o.kind == 'ret' for o in outs):
            c.ob(name, site, 'ok')
    x = s.inp('x', 'cls', 'UnitarySequenceEntry')
    u = s.inp('u', 'cls', 'Unitary')
    q = lambda: s.new('UnitarySequence', D, es)
    refuses('combine: refuses an operation', lambda: s.call('UnitarySequence', 'combine', q(), u))
    refuses('combine: refuses an operation first', lambda: s.call('UnitarySequence', 'combine', u, q()))
    refuses('combine: refuses an entry', lambda: s.call('UnitarySequence', 'combine', q(), x))
    refuses('combine: refuses a number', lambda: s.call('UnitarySequence', 'combine', q(), sym('in:n', 'real')))

    def any_(o, r):
        y = s.inp('y', 'any')
        c.true('combine: refuses what is not known to be a sequence', site, o,
               any(f.op == 'isinst' and f.args[0] is y for f in o.st.facts), 'returns without a test of the class')
    c.run('combine with anything', site, lambda: s.call('UnitarySequence', 'combine', q(), s.inp('y', 'any')), any_,
          need_ret=False)


def valid(c, s):
    '''Sequences of one dimension are combined.'''
    ct.full_unitary(s)
    tm.MODPHASE[0] = True
    D = s.inp('D', 'int')
    es = [s.inp(f'x{i}', 'cls', 'UnitarySequenceEntry') for i in range(3)]
    site = s.site('UnitarySequence', 'combine')

    def make(n):
        s.pre(cmp_le(1, D))
        for e in es[:n]:
            fits(s, e, D)
        return s.new('UnitarySequence', D, s.I.new_list([It(e) for e in es[:n]]))
    for ns in ((0,), (1,), (0, 0), (0, 1), (2, 0), (1, 2), (1, 1, 1)):
        for known in (False, True):
            def thunk(ns=ns, known=known):
                qs = [make(n) for n in ns]
                if known:
                    s.m(qs[0], 'product')
                r = s.call('UnitarySequence', 'combine', *qs)
                s.m(r, 'product')
                return r
            c.accepts(f'combine: accepts sequences of {", ".join(map(str, ns))} entries in one dimension', site, thunk)


def entries(c, s):
    '''The full operations of the entries of an inverse, and of its source afterwards, with entries as they are.'''
    ok = p06.conforms(s)
    p06.perm_contract(s)
    tm.MODPHASE[0] = True
    site = s.site('UnitarySequence', 'inverse')
    D = s.inp('D', 'int')
    us = [p06.entry(s, str(i)) for i in range(2)]

    def full(e):
        return s.m(e, 'get_full_unitary', D)

    for h in ('', 'entries asked before', 'product asked before', 'made from another sequence', 'inverted twice'):
        def thunk(h=h):
            s.pre(cmp_le(1, D))
            for x in us:
                p06.proper(s, *x, D)
            es = [s.new('UnitarySequenceEntry', *x) for x in us]
            q = s.new('UnitarySequence', D, s.I.new_list([It(e) for e in es]))
            if h.startswith('made'):
                s.m(q, 'product')
                q = s.new('UnitarySequence', D, s.m(q, 'get_sequence_entries'))
            if h.startswith('entries'):
                for e in [p.v for p in s.I.pieces(s.m(q, 'get_sequence_entries'))]:
                    full(e)
            if h.startswith('product'):
                s.m(q, 'product')
            r = s.m(q, 'inverse')
            if h.startswith('inverted'):
                s.m(r, 'product')
                r = s.m(r, 'inverse')
            return s.I.new_list([It(x) for x in (q, r)])

        def ret(o, r, h=h):
            q, r = [p.v for p in s.I.pieces(r)]
            for who, v, flip in (('inverse', r, not h.startswith('inverted')), ('source', q, False)):
                got = [p.v for p in s.I.pieces(s.m(v, 'get_sequence_entries'))]
                name = f'inverse{", " if h else ""}{h}: entry of the {who}'
                c.true(f'{name}: one for each', site, o, len(got) == 2, f'{len(got)} entries')
                if len(got) != 2:
                    continue
                for e, (u, a) in zip(got, us[::-1] if flip else us):
                    f = full(e)
                    m = s.I.canon(s.vt(s.m(u, 'get_matrix')))
                    w = tm.embed(dagger(m) if flip else m, s.I.canon(s.vt(s.I.mat(a))), s.I.canon(D))
                    phase_eq(c, f'{name}: its full operation is {"the inverse" if flip else "the operation"} on its qubits',
                             site, o, mat_of(s, f), w)
                    inv = s.I.boolv(s.get(u, 'is_inverse'))
                    c.eq(f'{name}: its full operation is marked so', site, o, s.I.boolv(s.get(f, 'is_inverse')),
                         lnot(inv) if flip else inv)
        if ok:
            c.run(f'entries of an inverse{", " if h else ""}{h}', site, thunk, ret)
        else:
            c.ob('entries of an inverse', site, 'unknown', 'get_permute_matrix shares the work otherwise')


PARTS = [inverse, combine, refusals, valid, entries]
