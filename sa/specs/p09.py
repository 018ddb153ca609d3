import os

from .common import *
from .. import contracts as ct
from ..interp import forall_t
from .p07 import seq, apply_op, Histories

RULE = ('On every path on which creation or an append returns, the facts must imply that each entry put in is a sequence '
        'entry, is no larger than the system and addresses only qubits of the system; on every path on which an append is '
        'refused, entries, product and what undo restores must be the same terms as before the call; removal from an empty '
        'sequence must return and leave all of them alone.')
ASSUMES = ['P06 (get_full_unitary as a contract)']


def entry_facts(c, s, name, site, o, x, D, lift=lambda t: t):
    e = s.I.mat(x)
    q = mk('attrof', x, 'apply_to')
    d = s.m(s.get(e, 'unitary'), 'get_dimension')
    c.entails(f'{name}: entry is not larger than the system', site, o, lift(cmp_le(d, D)))
    j = fresh_idx()
    n = mk('len', s.vt(s.m(e, 'get_apply_to')), kind='int')
    pq = s.I.pieces(s.m(e, 'get_apply_to'))
    p = pq[0]
    qubit = p.ps[0].v
    within = cmp_le(tm.power(2, tm.add(qubit, 1)), D)
    c.entails(f'{name}: entry addresses only qubits of the system', site, o, lift(forall_t(p.k, p.n, within)))


def accepted(c, s):
    D, es = seq(s)
    ct.full_unitary(s)
    tm.MODPHASE[0] = True
    k = fresh_idx()
    el = s.I.generic(mk('elem', es, k), ('cls', s.cls('UnitarySequenceEntry')))
    n = mk('len', es, kind='int')
    site = s.site('UnitarySequence', '__init__')

    def ret(o, q):
        entry_facts(c, s, 'creation', site, o, el, D, lambda t: forall_t(k, n, t))
    c.run('creation', site, lambda: s.new('UnitarySequence', D, es), ret)
    x = s.inp('x', 'cls', 'UnitarySequenceEntry')
    for m in ('append_first', 'append_last'):
        for known in (False, True):
            st = s.site('UnitarySequence', m)

            def thunk(m=m, known=known):
                q = s.new('UnitarySequence', D, es)
                if known:
                    s.m(q, 'product')
                s.m(q, m, x)
                return q
            c.run(m, st, thunk, lambda o, q, m=m, st=st: entry_facts(c, s, m, st, o, x, D))


def fits(s, e, D):
    '''The entry suits a system of dimension D.'''
    e = s.I.mat(e)
    d = s.m(s.get(e, 'unitary'), 'get_dimension')
    s.pre(cmp_le(1, d))
    s.pre(cmp_le(d, D))
    p = s.I.pieces(s.m(e, 'get_apply_to'))[0]
    q = p.ps[0].v
    s.pre(forall_t(p.k, p.n, cmp_le(0, q)))
    s.pre(forall_t(p.k, p.n, cmp_le(tm.power(2, tm.add(q, 1)), D)))


def valid(c, s):
    '''Entries that fit are accepted.'''
    ct.full_unitary(s)
    tm.MODPHASE[0] = True
    D = s.inp('D', 'int')
    x, y, z = [s.inp(w, 'cls', 'UnitarySequenceEntry') for w in 'xyz']

    def make(es):
        s.pre(cmp_le(1, D))
        for e in es:
            fits(s, e, D)
        return s.new('UnitarySequence', D, s.I.new_list([It(e) for e in es]))

    def site(m):
        return s.site('UnitarySequence', m)
    c.accepts('creation: a system without entries is accepted', site('__init__'),
              lambda: (s.pre(cmp_le(1, D)), s.new('UnitarySequence', D)))
    for es in ((), (x,), (x, y)):
        n = f'{len(es)} entries'
        c.accepts(f'creation: {n} that fit are accepted', site('__init__'), lambda es=es: make(es))
        for m in ('remove_first', 'remove_last', 'product', 'inverse', 'get_length'):
            c.accepts(f'{m}: accepted with {n}', site(m), lambda m=m, es=es: s.m(make(es), m))
        for m in ('append_first', 'append_last'):
            for known in (False, True):
                for undo in ((), (False,)):
                    def thunk(m=m, known=known, undo=undo, es=es):
                        q = make(es)
                        if known:
                            s.m(q, 'product')
                        fits(s, z, D)
                        s.m(q, m, z, *undo)
                        return s.m(q, 'product')
                    c.accepts(f'{m}: an entry that fits is accepted next to {n}', site(m), thunk)


WRONG = ['number', 'text', 'operation', 'nothing', 'sequence', 'anything']


def wrong(s, w):
    if w == 'number':
        return sym('in:x', 'real')
    if w == 'text':
        return s.inp('x', 'str')
    if w == 'operation':
        return s.inp('x', 'cls', 'Unitary')
    if w == 'nothing':
        return None
    if w == 'sequence':
        return s.new('UnitarySequence', 4)
    return s.inp('x', 'any')


def kinds(c, s):
    '''Anything but a sequence entry is refused.'''
    D, es = seq(s)
    ct.full_unitary(s)
    for w in WRONG:
        for how in ('creation', 'append_first', 'append_last'):
            site = s.site('UnitarySequence', '__init__' if how == 'creation' else how)

            def thunk(w=w, how=how):
                s.pre(cmp_le(1, D))
                x = wrong(s, w)
                if how == 'creation':
                    return s.new('UnitarySequence', D, s.I.new_list([It(x)]))
                q = s.new('UnitarySequence', D)
                s.m(q, how, x)
                return q

            def ret(o, q, w=w, how=how, site=site):
                name = f'{how}: refuses {w if w != "anything" else "what is not known to be an entry"}'
                if w == 'anything':
                    x = s.inp('x', 'any')
                    ok = any(f.op == 'isinst' and f.args[0] is x and 'UnitarySequenceEntry' in f.args[1]
                             for f in o.st.facts)
                    c.true(name, site, o, ok, 'returns without a test of the class')
                else:
                    c.true(name, site, o, False, 'returns')
            outs = c.run(f'{how}: {w}', site, thunk, ret, need_ret=False)
            if outs and w != 'anything' and not any(o.kind == 'ret' for o in outs):
                c.ob(f'{how}: refuses {w}', site, 'ok')


STATES = [(), ('product',), ('append_last',), ('append_last', 'product'), ('product', 'append_last'),
          ('product', 'remove_first/u'), ('append_first', 'product', 'undo')]


def refused(c, s):
    D, es = seq(s)
    ct.full_unitary(s)
    tm.MODPHASE[0] = True
    x = s.inp('bad', 'cls', 'UnitarySequenceEntry')

    def observe(q):
        '''Entries, product and what undo gives, seen on a copy of the state.'''
        I = s.I
        save = I.st
        out = []
        for u in (False, True):
            I.st = save.clone()
            try:
                if u:
                    s.m(q, 'undo')
                out.append((entries_key(s, s.m(q, 'get_sequence_entries')), tm.strip_phase(mat_of(s, s.m(q, 'product')))))
            except Exception as e:
                if type(e).__name__ != 'TargetRaise':
                    raise
                out.append(('raises',))
            finally:
                I.st = save
        return out

    def job(h, m, undo):
        def go():
            site = s.site('UnitarySequence', m)
            name = f'{m}{"" if undo else " without undo saving"} refused after {", ".join(h) or "creation"}'

            def make():
                q = s.new('UnitarySequence', D, es)
                for i, op in enumerate(h):
                    apply_op(s, q, op, i)
                s.I.mat(x)
                return q
            for o in s.outs(make):
                if o.kind != 'ret':
                    continue
                q = o.v
                seen = s.I.explore(lambda: observe(q), st0=o.st)
                if len(seen) != 1:
                    c.ob(f'{name}: the state before', site, 'unknown', 'seen in several ways')
                    continue
                before = seen[0].v
                s.I.overrides['fork'] = True
                outs = s.I.explore(lambda: s.m(q, m, x, *([] if undo else [False])), st0=o.st)
                s.I.overrides.pop('fork')
                for p in outs:
                    c.paths += 1
                    if p.kind == 'ret':
                        continue
                    s.I.st = p.st
                    p.st.fork = 0

                    def cmp_(p):
                        after = observe(q)
                        for what, a, b in zip(('entries and product', 'the undo state'), before, after):
                            c.eq(f'{name}: leaves {what} alone', site, p, s.I.new_list([It(s.I.canon(v)) for v in b]),
                                 s.I.new_list([It(s.I.canon(v)) for v in a]))
                    c.guard(name, site, p, cmp_)
                if all(p.kind == 'ret' for p in outs):
                    c.ob(f'{name}: refusal', site, 'unknown', 'no refusing path found')
        return go
    c.par([job(h, m, u) for h in STATES for m in ('append_first', 'append_last') for u in (True, False)])


def empty(c, s):
    '''Removal from an empty sequence.'''
    D = s.inp('D', 'int')
    ct.full_unitary(s)
    tm.MODPHASE[0] = True
    x = s.inp('x', 'cls', 'UnitarySequenceEntry')
    for m in ('remove_first', 'remove_last'):
        for save in (True, False):
            for h in ((), ('product',), ('append_last', 'remove_last/u'), ('append_first', 'product', 'remove_first/u')):
                site = s.site('UnitarySequence', m)
                name = f'{m} of an empty sequence{"" if save else " without undo saving"} after {", ".join(h) or "creation"}'

                def thunk(h=h, m=m, save=save):
                    s.pre(cmp_le(1, D))
                    q = s.new('UnitarySequence', D)
                    for i, op in enumerate(h):
                        apply_op(s, q, op, i)
                    s.m(q, m, *([] if save else [False]))
                    return q

                def ret(o, q, name=name, site=site, h=h):
                    c.eq(f'{name}: stays empty', site, o, s.m(q, 'get_length'), 0)
                    phase_eq(c, f'{name}: product is the identity', site, o, mat_of(s, s.m(q, 'product')),
                             tm.ident(s.I.canon(D)))
                    for p in s.I.explore(lambda: s.m(q, 'undo'), st0=o.st.clone()):
                        s.I.st = p.st
                        saved = any(x.startswith('append') for x in h)
                        c.true(f'{name}: undo state is left alone', site, p, (p.kind == 'ret') == saved,
                               f'undo {"returns" if p.kind == "ret" else "raises"}')
                c.run(name, site, thunk, ret)


PARTS = [accepted, valid, kinds, refused, empty]
