from .compiling import *
from .p26 import refuses, wrong, prim

RULE = ('Compiler.create_random_layer for an arbitrary table of counts, with one generated entry per request as the unknown: '
        'the list must consist, for every key, of as many entries as its count says, each generated anew from that primitive '
        'alone on the given dimension, and the whole list in one fresh random order.  One arbitrary step of layered '
        'compilation adds or removes exactly one such layer or nothing, starting from nothing, and layers are generated from '
        'the given table on the compiler\'s dimension; the random part of layered verification and of benchmarking sequences '
        'is one fresh layer of the given table per requested layer.  Also for a compiler that has compiled before.  Layers with negative or non-integer counts are refused.')
ASSUMES = ['P17 for what a generated entry is', 'P07-P10 for what a sequence does']


def draws_in(t, dist):
    return sorted({x for x in subterms(t) if x.op == 'draw' and x.args[0] == dist}, key=lambda x: x.id) \
        if isinstance(t, T) else []


def nest(I, ps, ctx=()):
    '''(variables and lengths of the enclosing repetitions, item) of every item.'''
    for p in ps:
        if isinstance(p, For):
            yield from nest(I, p.ps, ctx + ((p.k, p.n),))
        elif isinstance(p, It):
            yield ctx, p.v
        elif isinstance(p, If) and I.redundant(p):
            yield from nest(I, p.ps, ctx)
        else:
            raise Unsupported(f'piece {p!r}')


def generated_view(s, ps, dist, ty):
    '''Every item replaced by the parameters of the draw it is, None for items that are not plain draws.'''
    def f(e):
        t = s.vt(e)
        ds = draws_in(t, dist)
        if len(ds) != 1:
            return ('not a draw', t)
        w = s.I.mat(s.I.generic(ds[0], ty))
        if entry_key_t(s, w) is not entry_key_t(s, e):
            return ('changed', t)
        return ('draw', tuple(ds[0].args[2]))
    return s.I.map_pieces(ps, f)


def entry_key_t(s, e):
    return s.vt(entry_key(s, e))


def strip(ps):
    '''Without the random orders; the orders found with the variables around them.'''
    perms = []

    def go(ps, ctx):
        out = []
        for p in ps:
            if isinstance(p, Perm):
                perms.append((p.d, ctx, len(ps)))
                out += go(p.ps, ctx)
            elif isinstance(p, For):
                out.append(For(p.k, p.n, go(p.ps, ctx + (p.k,))))
            else:
                out.append(p)
        return out
    return go(ps, ()), perms


def layer(c, s):
    I = s.I
    tm.MODPHASE[0] = True
    ct.full_unitary(s)
    ct.sequences(s)
    ct.generated(s)
    del I.intercepts['Compiler.create_random_layer']
    site = s.site('Compiler', 'create_random_layer')
    D, counts = s.inp('D', 'int'), s.inp('counts', 'dict', s.ty('UnitaryPrimitive'), ('int',))
    ent = ('cls', s.cls('UnitarySequenceEntry'))
    n = mk('len', counts, kind='int')

    def thunk():
        from ..interp import forall_t
        k = fresh_idx()
        s.pre(forall_t(k, n, cmp_le(0, mk('val', counts, k, kind='int'))))
        return s.call('Compiler', 'create_random_layer', D, counts)

    def ret(o, r):
        ps, perms = strip(I.pieces(r))
        whole = s.vt(I.new_list(ps))
        k, j = fresh_idx(), fresh_idx()
        key = lambda k: s.vt(I.mat(I.generic(mk('key', counts, k), ('cls', s.cls('UnitaryPrimitive')))))
        val = lambda k: mk('val', counts, k, kind='int')
        got = generated_view(s, ps, 'entry', ent)

        def view(t):
            '''Probabilities over a single primitive say nothing.'''
            return t
        d, prims, probs = s.vt(D), None, None
        want = [For(k, n, [For(j, val(k), [It(('draw', (d, s.vt(I.new_list([It(key(k))])), None)))])])]
        c.eq('layer: as many entries as the counts add up to', site, o, I.seqlen(ps), ct.total(I, counts))
        c.eq('layer: of every primitive exactly as many generated entries as its count says', site, o,
             s.vt(I.new_list(got)), s.vt(I.new_list(want)))
        ds = draws_in(whole, 'entry')
        if len(ds) == 1 and not opaque_in(whole):
            bad = []
            for ctx, v in nest(s.I, ps):
                for d in draws_in(s.vt(v), 'entry'):
                    bad += [x for x, _ in ctx if tm.subst(d, {x: 0}) is d]
            c.true('layer: every entry is generated anew', site, o, not bad, f'{show(ds[0], 6)} is used for several entries')
        nm = 'layer: the entries are in random order'
        if opaque_in(s.vt(r)):
            return c.ob(nm, site, 'unknown', c.short(s.vt(r)))
        full = [p for p in perms if not p[1] and p[2] == 1]
        c.true(nm, site, o, bool(full) and all(p[0].op == 'draw' and p[0].args[0] == 'perm' for p in full) or
               s.holds(cmp_le(ct.total(I, counts), 1)) is True, f'the orders drawn are {[show(p[0], 4) for p in perms]}')
    c.run('layer', site, thunk, ret)


def layer_args(c, s, what, site, o, evs, D, counts):
    '''Every layer is generated for the given dimension and table.'''
    for e in evs:
        if e.kind == 'draw' and e.d.get('dist') == 'layer':
            c.eq(f'{what}: layers are generated for the dimension and the counts given', site, o,
                 (e.d['raw'][0], s.vt(e.d['raw'][1])), (D, s.vt(s.I.mat(counts))))


def stepping(c, s, **kw):
    what = 'layered' + suffix(kw)

    def use(run):
        I, site = s.I, run.site
        o = run.o
        if run.rec is None:
            return c.eq(f'{what}: without a step nothing is held', site, o, I.seqlen(run.E), 0)
        ps = run.P['seq']
        if ps:
            pre = run.rec.pre
            save, I.st = I.st, pre
            try:
                n0 = I.seqlen(run.entries(pre, ps[0]))
            finally:
                I.st = save
            c.eq(f'{what}: starts with nothing', site, o, n0, 0)

        def step(x, E, C, E2, C2):
            L = run.env['L']
            r, t, empty = run.effect(E, E2, x.st.events)
            nm = f'{what}: a step adds or removes one whole layer or nothing'
            if opaque_in(t) and not r:
                c.ob(nm, site, 'unknown', c.short(t))
            else:
                # with less than a layer held nothing is held
                if not r and s.holds(cmp_lt(I.seqlen(E), L)) is True:
                    r = [1] if s.holds(lor(cmp_eq(I.seqlen(E2), 0), cmp_eq(I.seqlen(E2), L))) is True else []
                c.true(nm, site, x, bool(r), f'the entries become {c.short(t)}')
            layer_args(c, s, what, site, x, x.st.events, run.env['D'], run.env['counts'])
        each_step(run, step)
    runs(c, s, what, True, use, **kw)


def steps(c, s):
    c.par([lambda: stepping(c, s), lambda: stepping(c, s, threshold=False), lambda: stepping(c, s, size=2),
           lambda: stepping(c, s, before=used(s, True))])


def random_layers(s, E, D, counts, m):
    '''The entries m fresh layers make.'''
    I = s.I
    ent = ('cls', s.cls('UnitarySequenceEntry'))
    i, k = fresh_idx(), fresh_idx()
    L = ct.total(I, counts)
    for ctx, v in nest(s.I, E):
        ds = draws_in(s.vt(v), 'layer')
        if len(ds) == 1 and len(ctx) == 2:
            d = tm.subst(ds[0], {ctx[0][0]: i})
            return [For(i, m, [For(k, L, [It(I.generic(mk('elem', d, k), ent))])])], d, i
    return None, None, None


def verification_sequences(c, s):
    I = s.I
    D, m = s.inp('D', 'int'), s.inp('count', 'int')
    cs = s.inp('counts', 'dict', s.ty('UnitaryPrimitive'), ('int',))
    th, N = sym('in:threshold', 'real'), s.inp('N', 'int')
    cases = [('xeb', 'generate_xeb_sequence', lambda: s.call('Verification', 'generate_xeb_sequence', D, cs, m)),
             ('layered', 'generate_layered_rav_sequence',
              lambda: s.call('Verification', 'generate_layered_rav_sequence', D, cs, m, th, max_step_count=N))]

    def one(what, fn, thunk):
        tm.MODPHASE[0] = True
        ct.full_unitary(s)
        ct.sequences(s)
        ct.generated(s)
        ct.compiled(s)
        site = s.site('Verification', fn)

        def ret(o, r):
            seq = s.get(r, 'compiled_sequence')
            E = I.pieces(s.m(seq, 'get_sequence_entries'))
            comp = [e for e in o.st.events if e.kind == 'draw' and e.d['dist'] == 'compiled']
            rest = []
            if comp:
                d = comp[-1].d['term']
                k = fresh_idx()
                rest = [For(k, mk('len', d, kind='int'), [It(I.generic(mk('elem', d, k), (
                    'cls', s.cls('UnitarySequenceEntry'))))])]
            nm = f'{what}: the random part is one fresh whole layer per requested layer'
            key = entries_key(s, I.new_list(E))
            want, d, i = random_layers(s, E, D, cs, m)
            if want is None:
                if opaque_in(key):
                    c.ob(nm, site, 'unknown', c.short(key))
                else:
                    c.true(nm, site, o, s.holds(cmp_le(m, 0)) is True and I.seqlen(E) == 0 or False,
                           f'the sequence is {c.short(key)}')
                return
            c.eq(nm, site, o, key, entries_key(s, I.new_list(want + rest)))
            c.true(f'{what}: every layer is generated anew', site, o, tm.subst(d, {i: 0}) is not d,
                   f'{show(d, 6)} is repeated')
            layer_args(c, s, what, site, o, o.st.events, D, cs)
            for e in comp:
                name, cfg, a, changed = e.d['raw']
                c.true(f'{what}: the rest is compiled in layers', site, o, name == 'compile_layered', f'calls {name}')
                v = a.get('unitary_primitive_counts')
                if v is not None:
                    c.eq(f'{what}: the rest is compiled in layers of the same table', site, o, s.vt(v), s.vt(I.mat(cs)))
        c.run(what, site, thunk, ret)
    for a in cases:
        one(*a)
        I.intercepts.clear()


def refusals(c, s):
    from ..dom import DictO
    D, n, th = s.inp('D', 'int'), s.inp('count', 'int'), sym('in:threshold', 'real')
    neg = s.inp('negative', 'int')

    def table(x):
        return s.I.ref(DictO([It((prim(s), x))]))
    for what, fn, a in (('layered', 'generate_layered_rav_sequence', [th]), ('xeb', 'generate_xeb_sequence', [])):
        site = s.site('Verification', fn)

        def minus():
            s.pre(cmp_lt(neg, 0))
            return neg
        for w, f in [x for x in wrong(s) if x[0] != 'nothing'] + [('a negative count', minus)]:
            refuses(c, s, f'{what}: refuses {w} as a count', site,
                    lambda: s.call('Verification', fn, D, table(f()), n, *a))


PARTS = [layer, steps, verification_sequences, refusals]
