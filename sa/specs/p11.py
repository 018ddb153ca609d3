from .sweep import *

RULE = ('(1) Effects: every public operation of the package is analysed on arbitrary arguments of the documented types, with '
        'and without its optional arguments; every write it performs (assignments, in-place array operations, list and '
        'dictionary methods, through any number of calls) is followed to the object written.  A write to an object that '
        'came from the caller, to a default argument or to a module or class object must leave everything the public '
        'operations show of that object as it was, except for the receiver of the documented mutators of a sequence.  '
        '(2) Capture: what a constructor was given (lists of entries, primitives, probabilities, terms and qubits, matrices) '
        'is changed in place afterwards and what the object shows must stay the same; likewise for the lists a sequence '
        'hands out, and for sequences made from other sequences, changed on either side.')
ASSUMES = SWEEP_ASSUMES

MUTATORS = {('UnitarySequence', n) for n in ('append_first', 'append_last', 'remove_first', 'remove_last', 'undo')}


def effects(c, s, op, every, used):
    I = s.I
    op.contracts()
    nm = f'{op.what}: leaves its arguments as they were' + ('' if every else ' (optional arguments left out)') + \
        (' (a sequence in use)' if used else '')

    def thunk():
        st = I.st
        me, args = op.given('in:', every)
        if used:
            s.m(me, 'append_last', s.inp('more', 'cls', 'UnitarySequenceEntry'))
        prepare(s, op, me, args)
        st.cnt['spec'] = len(st.events)
        st.cnt['before'] = st.clone()
        st.cnt['args'] = (me, args)
        r = op.apply(me, args)
        return r[2]

    def judge(o, r=None):
        st = o.st
        if 'spec' not in st.cnt:
            return
        me, args = st.cnt['args']
        evs = list(all_events(st.events[st.cnt['spec']:]))
        looped = {id(e) for e, inner in evs if inner}
        evs = [e for e, _ in evs]
        ws = [e for e in evs if e.kind == 'write' and e.d.get('ext') and
              not (e.d['ext'] == 'in:self' and (op.cls.name, op.name) in MUTATORS and e.d.get('cls') != 'UnitarySequenceEntry')]
        may = [e for e in evs if e.kind == 'may_write' and e.d.get('ext')] + [e for e in evs if e.kind == 'opaque_write']
        if not ws and not may:
            return c.ob(nm, op.site, 'ok')
        where = '; '.join(sorted({f'{e.loc[1]}:{e.loc[2]} writes {e.d.get("cls")}.{e.d.get("what")} of {e.d["ext"]}' for e in ws}))
        if any(e.d.get('what') == 'clean' and e.d['ext'].startswith('in:') for e in ws):
            return c.true(nm, op.site, o, False, f'sets small entries of an array of the caller to zero: {where}')
        if may and not ws:
            return c.ob(nm, op.site, 'unknown', f'{may[0].kind} {may[0].d.get("name")} at {may[0].loc}')
        glob = [e for e in ws if not e.d['ext'].startswith('in:')]
        if glob:
            return again(o, where)
        definite = grows(c, evs, [e for e in ws if id(e) in looped])
        watched = [('the receiver', me)] if me is not None and (op.cls.name, op.name) not in MUTATORS else []
        watched += list(args.items())
        pre = st.cnt['before'].clone()
        pre.facts, pre.eqs, pre.matz = dict(st.facts), dict(st.eqs), pre.matz
        for n, v in watched:
            save = I.st
            try:
                I.st = pre.clone()
                I.st.assume += 1
                a = observe(s, v)
                I.st = save.clone()
                I.st.assume += 1
                b = observe(s, v)
            finally:
                I.st = save
            same_obs(c, nm, op.site, o, a, b, f'{n} is changed: {where}', definite)

    def again(o, where):
        '''A write to a default argument, a module or a class object: harmless when a later call does not see it.'''
        r = op.s.outs
        save = I.st
        outs = []
        st0 = o.st.clone()
        st0.dec, st0.arity, st0.pos = [], [], 0

        def thunk2():
            I.st.cnt['n2'] = len(I.st.facts)
            me, args = op.given('two:', every)
            return op.apply(me, args)
        try:
            for x in I.explore(thunk2, st0=st0):
                I.st = x.st
                if x.kind != 'ret':
                    continue
                v = observe(s, x.v[2])
                back = [y for y in tm.symbols(s.vt(v)) if y.op in ('sym', 'msym') and 'in:' in show(y, 6)]
                if back:
                    same = any('in:' in show(f, 8) and 'two:' in show(f, 8) for f in list(x.st.facts)[x.st.cnt['n2']:])
                    return c.ob(nm, op.site, 'unknown' if same or opaque_in(s.vt(v)) else 'bad',
                                f'a later call depends on {show(back[0], 4)}: {where}')
        finally:
            I.st = save
        c.ob(nm, op.site, 'ok')
    c.run(nm, op.site, thunk, judge, on_raise=lambda o, v: c.guard(nm, op.site, o, judge), need_ret=False)


def prepare(s, op, me, args):
    '''What a call needs to get anywhere.'''
    I = s.I
    if me is not None and op.cls.name == 'Compiler' and op.name.startswith('compile'):
        s.pre(cmp_le(1, I.seqlen(I.pieces(I.getattr(me, 'unitary_primitives')))))


GROW, SHRINK = {'append', 'insert', 'add', 'extend'}, {'pop', 'remove', 'clear', 'delitem', 'popitem', 'discard'}


def grows(c, evs, ws):
    '''A list or dictionary only ever made longer, or shorter, or given other elements by the iterations of a loop.'''
    for a in {e.d['addr'] for e in ws if e.d['addr']}:
        ks = {e.d['what'] for e in evs if e.kind == 'write' and e.d['addr'] == a}
        if ks <= GROW or ks <= SHRINK:
            return True
        sl = [e for e in evs if e.kind == 'slot' and e.d['addr'] == a]
        if ks == {'setitem'} and len(sl) == 1:
            v, b, i = sl[0].d['value'], sl[0].d['before'], sl[0].d['index']
            if isinstance(v, T) and not opaque_in(v) and i in tm.subterms(v) and v.op != 'elem':
                return True
    return False


def same_obs(c, nm, site, o, a, b, why, definite=False):
    s = c.s
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return c.true(nm, site, o, False, why)
    for x, y in zip(a, b):
        if x is y or (not isinstance(x, T) and not isinstance(y, T) and x == y) or c.same(x, y):
            continue
        if not definite and (isinstance(x, T) and opaque_in(x) or isinstance(y, T) and opaque_in(y)):
            c.ob(nm, site, 'unknown', f'{why}\n  {c.short(y)}')
        else:
            c.true(nm, site, o, False, f'{why}\n  was {c.short(x)}\n  is {c.short(y)}')
        return
    c.ob(nm, site, 'ok')


def flat(x):
    if isinstance(x, tuple):
        return [z for y in x for z in flat(y)]
    return [x]


def sweep(c, s):
    jobs = []
    for op in ops(s):
        if op.name in ('compile', 'compile_layered') and op.cls.name == 'Compiler':
            jobs.insert(0, (op, False, False))
            jobs.insert(0, (op, True, False))
            continue
        va = [True]
        if any(d for _, _, d in op.params()) or optional_parts(op):
            va.append(False)
        for every in va:
            jobs.append((op, every, False))
        if op.cls.name == 'UnitarySequence' and op.kind == 'method':
            jobs.append((op, True, True))

    def small(op, every, used):
        '''What is undecided for arbitrary lists and tables is looked at for those of one and of two elements.'''
        names = [n for n in c.order if c.obs[n]['status'] == 'unknown']
        if not names or not any(ty[0] in ('list', 'dict') for _, ty, _ in op.params()):
            return
        for k in (1, 2):
            keep, order = dict(c.obs), list(c.order)
            c.obs, c.order = {}, []
            s.I.overrides['small'] = k
            s.I.intercepts.clear()
            effects(c, s, op, every, used)
            bad = {n: r for n, r in c.obs.items() if r['status'] == 'bad' and n in names}
            c.obs, c.order = {**keep, **bad}, order
            if bad:
                return

    def run(op, every, used):
        I = s.I
        I.intercepts.clear()
        try:
            effects(c, s, op, every, used)
            small(op, every, used)
        finally:
            I.overrides.pop('bare', None)
            I.overrides.pop('small', None)
            I.intercepts.clear()
            tm.MODPHASE[0] = False
    c.par([(lambda j=j: run(*j)) for j in jobs])


# ---------------------------------------------------------------------------------------------- capture
def change(s, v, evil, how):
    '''The caller changes a list or an array in place.'''
    I = s.I
    o = I.obj(v)
    if o.kind == 'mat':
        I.st.label, keep = None, I.st.label
        try:
            I.lib.call_ext(I, 'operator.imul', [v, 2], {})
        finally:
            I.st.label = keep
        return
    if how == 'append':
        I.call(I.getattr(v, 'append'), [evil], {})
    elif how == 'clear':
        I.call(I.getattr(v, 'clear'), [], {})
    elif how == 'insert':
        I.call(I.getattr(v, 'insert'), [0, evil], {})


def capture(c, s, cls, param, evil, how, kind):
    I = s.I
    init = s.func(cls, '__init__')
    names = {p.arg: p for p in (init.node.args.args + init.node.args.kwonlyargs)[1:]}
    if param not in names:
        return
    site = s.site(cls, '__init__')
    nm = f'{cls}: keeps a copy of the {param} it is given'
    tm.MODPHASE[0] = cls in ('UnitarySequence', 'Compiler', 'Hamiltonian')
    if tm.MODPHASE[0]:
        ct.full_unitary(s)

    def thunk():
        kw = {}
        for n, p in names.items():
            ty = I.ann(p.annotation, init.module)
            if ty[0] == 'opt':
                ty = ty[1]
            kw[n] = I.mat(I.generic(sym('in:' + n, 'any') if ty[0] == 'mat' else sym('in:' + n), ty))
        obj = I.instantiate(s.cls(cls), [], kw)
        st = I.st
        st.cnt['before'] = st.clone()
        st.cnt['obj'] = obj
        change(s, kw[param], evil(), how)
        return obj

    def ret(o, obj):
        both(c, s, nm, site, o, obj, f'the caller changes {param} afterwards ({how})')
    c.run(nm, site, thunk, ret)


def both(c, s, nm, site, o, obj, why):
    I = s.I
    pre = o.st.cnt['before'].clone()
    pre.facts, pre.eqs = dict(o.st.facts), dict(o.st.eqs)
    save = I.st
    try:
        I.st = pre
        I.st.assume += 1
        a = deep(s, obj)
        I.st = save.clone()
        I.st.assume += 1
        b = deep(s, obj)
    finally:
        I.st = save
    same_obs(c, nm, site, o, a, b, why)


def deep(s, obj):
    '''What an object shows, including what it does with what it holds.'''
    I = s.I
    o = I.o(obj)
    out = [observe(s, obj)]
    n = getattr(o.cls, 'name', '') if o.kind == 'inst' else ''
    if n == 'Hamiltonian':
        out.append(mat_of(s, s.m(obj, 'get_time_evolution_operator', sym('in:time', 'real'))))
    elif n == 'UnitarySequence':
        out.append(tm.strip_phase(mat_of(s, s.m(obj, 'product'))))
    elif n == 'UnitarySequenceEntry':
        out.append(s.vt(s.m(obj, 'get_apply_to')))
    return tuple(out)


def captures(c, s):
    jobs = []

    def add(cls, param, evil, hows=('append', 'clear', 'insert')):
        for h in hows:
            jobs.append(lambda h=h: capture(c, s, cls, param, evil, h, None))
    prim = lambda: s.inp('evil', 'cls', 'UnitaryPrimitive')
    ent = lambda: s.inp('evil', 'cls', 'UnitarySequenceEntry')
    term = lambda: s.inp('evil', 'cls', 'HamiltonianTerm')
    num_ = lambda: sym('in:evil', 'int')
    add('UnitarySequence', 'sequence_entries', ent)
    add('Compiler', 'unitary_primitives', prim)
    add('Compiler', 'unitary_primitive_probabilities', lambda: sym('in:evil', 'real'))
    add('Hamiltonian', 'terms', term)
    add('UnitarySequenceEntry', 'apply_to', num_)
    add('UnitaryPrimitive', 'allowed_apply_to', lambda: s.I.new_list([]))
    add('Unitary', 'matrix', num_, ('scale',))
    add('HamiltonianTerm', 'matrix', num_, ('scale',))
    # lists a sequence hands out
    for before in ('', 'append_last', 'product'):
        for h in ('append', 'clear', 'insert'):
            jobs.append(lambda h=h, b=before: handed_out(c, s, h, b))
    # sequences made from sequences
    for make in ('inverse', 'combine', 'combine one', 'again'):
        for side in (0, 1):
            for m in ('append_first', 'append_last', 'remove_first', 'remove_last'):
                jobs.append(lambda a=make, b=side, d=m: made(c, s, a, b, d))

    def run(j):
        s.I.intercepts.clear()
        try:
            j()
        finally:
            s.I.intercepts.clear()
            tm.MODPHASE[0] = False
    c.par([(lambda j=j: run(j)) for j in jobs])


def handed_out(c, s, how, before):
    I = s.I
    tm.MODPHASE[0] = True
    ct.full_unitary(s)
    site = s.site('UnitarySequence', 'get_sequence_entries')
    nm = 'UnitarySequence.get_sequence_entries: hands out a copy'

    def thunk():
        q = s.new('UnitarySequence', s.inp('D', 'int'), I.mat(s.listof('es', 'UnitarySequenceEntry')))
        if before == 'append_last':
            s.m(q, before, s.inp('x', 'cls', 'UnitarySequenceEntry'))
        elif before:
            s.m(q, before)
        r = s.m(q, 'get_sequence_entries')
        st = I.st
        st.cnt['before'] = st.clone()
        change(s, r, s.inp('evil', 'cls', 'UnitarySequenceEntry'), how)
        return q

    def ret(o, q):
        both(c, s, nm, site, o, q, f'the caller changes the list ({how})')
    c.run(nm, site, thunk, ret)


def made(c, s, how, side, m):
    I = s.I
    tm.MODPHASE[0] = True
    ct.full_unitary(s)
    fn = how.split()[0] if how != 'again' else '__init__'
    site = s.site('UnitarySequence', fn)
    nm = f'UnitarySequence.{fn}: the result and the original are independent'

    def thunk():
        D = s.inp('D', 'int')
        es = I.mat(s.listof('es', 'UnitarySequenceEntry'))
        q = s.new('UnitarySequence', D, es)
        if how == 'inverse':
            r = s.m(q, 'inverse')
        elif how == 'again':
            r = s.new('UnitarySequence', D, es)
        else:
            qs = [q]
            if how == 'combine':
                qs.append(s.new('UnitarySequence', D, I.mat(s.listof('es2', 'UnitarySequenceEntry'))))
            r = s.call('UnitarySequence', 'combine', *qs)
        a, b = (q, r) if side == 0 else (r, q)
        st = I.st
        st.cnt['before'] = st.clone()
        st.cnt['es'] = es
        s.m(a, m, *([s.inp('x', 'cls', 'UnitarySequenceEntry')] if m.startswith('append') else []))
        return b

    def ret(o, b):
        both(c, s, nm, site, o, b, f'{m} on the {["original", "result"][side]} after {how}')
        both(c, s, nm, site, o, o.st.cnt['es'], f'{m} on the {["original", "result"][side]} after {how}: the list of the caller')
    c.run(nm, site, thunk, ret, need_ret=False)


PARTS = [sweep, captures]
