'''
Assume-guarantee contracts: a method is replaced, for the analysis of its callers, by the behaviour another property
establishes for its body.
'''
from . import terms as tm
from .terms import T, mk, cmp_le, cmp_lt, cmp_eq, lor
from .dom import Ref, Desc
from .interp import TYPES


def arg(I, s, cls, name, args, kw):
    '''Actual parameters of a method by name, defaults included.'''
    return I.bind(s.func(cls, name), args, kw)


def selfname(s, cls, name):
    f = s.func(cls, name)
    return f.node.args.args[0].arg


def full_unitary(s, strict=True):
    '''UnitarySequenceEntry.get_full_unitary (established by P06): the gate on its qubits.'''
    I = s.I

    def h(I, args, kw):
        v = arg(I, s, 'UnitarySequenceEntry', 'get_full_unitary', args, kw)
        me = v[selfname(s, 'UnitarySequenceEntry', 'get_full_unitary')]
        D = [x for k, x in v.items() if k != selfname(s, 'UnitarySequenceEntry', 'get_full_unitary')][0]
        D = I.scalar(D)
        u = I.getattr(me, 'unitary')
        qs = I.call(I.getattr(me, 'get_apply_to'), [], {})
        I.require(cmp_le(I.call(I.getattr(u, 'get_dimension'), [], {}), D), 'gate not larger than the system')
        m = I.canon(I.vt(I.call(I.getattr(u, 'get_matrix'), [], {})))
        a = I.canon(I.vt(qs))
        e = tm.embed(m, a, I.canon(D))
        mark_unitary(e)
        I.st.assume += 1
        try:
            r = I.instantiate(s.cls('Unitary'), [D, I.new_mat(e), I.getattr(u, 'operation_name'),
                                                 I.getattr(u, 'parameter_dict')],
                              {'is_inverse': I.getattr(u, 'is_inverse'), 'apply_to': qs})
        finally:
            I.st.assume -= 1
        return r
    I.intercepts['UnitarySequenceEntry.get_full_unitary'] = h


def mark_unitary(m):
    for w in tm.to_mat(m):
        for a in w:
            tm.UNITARY.add(a)


def dict_items(s, v):
    return s.I.pieces(v)


def sequences(s):
    '''UnitarySequence as P07-P10 establish it: a list of entries, at most one saved list, and the product of the list.'''
    from .specs.common import piece_product
    from .dom import It, TargetRaise
    I = s.I
    C = 'UnitarySequence'

    def bound(name, args, kw):
        v = arg(I, s, C, name, args, kw)
        me = v.pop(selfname(s, C, name))
        return me, list(v.values())

    def entries(me):
        return I.getattr(me, 'sequence_entries')

    def save(me, flag):
        if I.truth(flag):
            I.setattr(me, '#prev', I.new_list(list(I.pieces(entries(me)))))
            I.setattr(me, '#has', True)

    def init(I, args, kw):
        h = I.intercepts.pop(C + '.__init__')
        try:
            I.call_func(s.func(C, '__init__'), args, kw)
        finally:
            I.intercepts[C + '.__init__'] = h
        I.setattr(args[0], '#prev', I.new_list([]))
        I.setattr(args[0], '#has', False)

    def append(name, at):
        def h(I, args, kw):
            me, (e, flag) = bound(name, args, kw)
            if I.o(e) is None and isinstance(e, T):
                e = I.mat(e)
            o = I.o(e)
            if o is None or o.kind != 'inst' or not o.cls.subclass_of(s.cls('UnitarySequenceEntry')):
                raise TargetRaise('AssertionError', I.loc(), 'not an entry')
            save(me, flag)
            meth = I.getattr(entries(me), 'insert' if at == 0 else 'append')
            I.call(meth, [0, e] if at == 0 else [e], {})
        return h

    def remove(name, at):
        def h(I, args, kw):
            me, (flag,) = bound(name, args, kw)
            if I.decide(cmp_lt(0, I.seqlen(I.pieces(entries(me))))):
                save(me, flag)
                I.call(I.getattr(entries(me), 'pop'), [at], {})
        return h

    def undo(I, args, kw):
        me, _ = bound('undo', args, kw)
        if not I.truth(I.getattr(me, '#has')):
            raise TargetRaise('AssertionError', I.loc(), "can't undo")
        I.setattr(me, 'sequence_entries', I.getattr(me, '#prev'))
        I.setattr(me, '#prev', I.new_list([]))
        I.setattr(me, '#has', False)

    def product(I, args, kw):
        me, _ = bound('product', args, kw)
        D = I.call(I.getattr(me, 'get_dimension'), [], {})
        m = piece_product(s, I.pieces(entries(me)), D)
        mark_unitary(m)
        I.st.assume += 1
        try:
            return I.instantiate(s.cls('Unitary'), [D, I.new_mat(m)], {})
        finally:
            I.st.assume -= 1
    for n, h in (('__init__', init), ('append_first', append('append_first', 0)), ('append_last', append('append_last', -1)),
                 ('remove_first', remove('remove_first', 0)), ('remove_last', remove('remove_last', -1)),
                 ('undo', undo), ('product', product)):
        I.intercepts[f'{C}.{n}'] = h


def generated(s):
    '''Compiler.create_random_sequence_entry and create_random_layer as P17 and P19 establish them: an arbitrary entry, an
    arbitrary list of as many entries as the counts add up to.'''
    from .dom import It, For, fresh_idx
    from .lib import draw, sumk
    I = s.I
    ent = ('cls', s.cls('UnitarySequenceEntry'))

    def entry(I, args, kw):
        v = arg(I, s, 'Compiler', 'create_random_sequence_entry', args, kw)
        d = draw(I, 'numpy', 'entry', [I.vt(x) for x in v.values()], 'any', raw=list(v.values()))
        return I.mat(I.generic(d, ent))

    def layer(I, args, kw):
        v = arg(I, s, 'Compiler', 'create_random_layer', args, kw)
        D, counts = list(v.values())[:2]
        d = draw(I, 'numpy', 'layer', [I.vt(D), I.vt(counts)], 'any', raw=[D, counts])
        n = total(I, counts)
        k = fresh_idx()
        m = tm.const_of(n) if tm.is_num_const(n) else None
        if m is not None:
            return I.new_list([It(I.generic(mk('elem', d, i), ent)) for i in range(int(m))])
        return I.new_list([For(k, n, [It(I.generic(mk('elem', d, k), ent))])])
    I.intercepts['Compiler.create_random_sequence_entry'] = entry
    I.intercepts['Compiler.create_random_layer'] = layer


def total(I, counts):
    return I.vt(I.lib.call_ext(I, 'builtins.sum', [I.call(I.getattr(counts, 'values'), [], {})], {}))


def compiled(s):
    '''Compiler.compile and compile_layered as P14-P16, P19 and P20 establish them: an arbitrary sequence and history that
    depend on the configuration, the arguments and a draw.  The draw event keeps configuration and arguments.'''
    from .dom import It, For, fresh_idx
    from .lib import draw
    I = s.I
    ent = ('cls', s.cls('UnitarySequenceEntry'))

    def fields(r):
        return {k: I.vt(v) for k, v in I.o(r).f.items() if not k.startswith('#')}

    def init(I, args, kw):
        h = I.intercepts.pop('Compiler.__init__')
        try:
            I.call_func(s.func('Compiler', '__init__'), args, kw)
        finally:
            I.intercepts['Compiler.__init__'] = h
        v = arg(I, s, 'Compiler', '__init__', args, kw)
        v.pop(selfname(s, 'Compiler', '__init__'))
        r = args[0]
        snap = fields(r)
        for k, x in v.items():
            I.setattr(r, '#' + k, x)
        I.setattr(r, '#snap', tuple(sorted(snap.items())))

    def comp(name):
        def h(I, args, kw):
            v = arg(I, s, 'Compiler', name, args, kw)
            me = v.pop(selfname(s, 'Compiler', name))
            o = I.o(me)
            cfg = {k[1:]: x for k, x in o.f.items() if k.startswith('#') and k != '#snap'}
            old = dict(o.f.get('#snap', ()))
            new = fields(me)
            changed = sorted(k for k in set(old) | set(new) if not (k in old and k in new and (
                old[k] is new[k] or not isinstance(old[k], T) and old[k] == new[k])))
            d = draw(I, 'numpy', 'compiled', [I.vt(x) for x in cfg.values()] + [I.vt(x) for x in v.values()], 'any',
                     raw=(name, cfg, v, changed))
            k, j = fresh_idx(), fresh_idx()
            es = [For(k, mk('len', d, kind='int'), [It(I.generic(mk('elem', d, k), ent))])]
            c = mk('costs', d)
            I.st.assume += 1
            try:
                q = I.instantiate(s.cls('UnitarySequence'), [cfg['dimension']], {})
                I.setattr(q, 'sequence_entries', I.new_list(es))
                return I.instantiate(s.cls('CompilerResult'), [
                    q, I.new_list([For(j, mk('len', c, kind='int'), [It(mk('elem', c, j, kind='real'))])]),
                    mk('nondet', 'elapsed', d, kind='real')], {})
            finally:
                I.st.assume -= 1
        return h
    I.intercepts['Compiler.__init__'] = init
    for n in ('compile', 'compile_layered'):
        I.intercepts['Compiler.' + n] = comp(n)
