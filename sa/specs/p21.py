from .sweep import *
from ..session import OPAQUE
from ..terms import symbols

RULE = ('Every public operation of the package is analysed on arbitrary arguments of the documented types, with and without '
        'its optional arguments, on every way through it.  A source other than NumPy\'s global generator (the random module, '
        'other generators, clocks, the iteration order of sets whose elements are not numbers, object identity and hashes, '
        'the environment) may not reach what the call returns, what it changes, the parameters of a draw, nor decide '
        'between ways that end differently; the elapsed time reported by a compilation is the one exception.  No call may '
        'seed or replace the state of the generator.')
ASSUMES = SWEEP_ASSUMES + ['sets of numbers are iterated in the same order in every run',
                           'NumPy and SciPy functions that draw without a random_state draw from the global generator']

ELAPSED = {('CompilerResult', 'total_elapsed_time')}


def source(t):
    '''A source of variation a term mentions, or None.'''
    if not isinstance(t, T):
        return None
    for y in tm.subterms(t):
        if isinstance(y, T) and y.op == 'draw' and y.args[1] not in ('numpy', 'derived', 'fixed'):
            return y
        if isinstance(y, T) and y.op == 'nondet' and y.args[0] != 'elapsed':
            return y
    return None


def name_of(y):
    return str(y.args[1]) if y.op == 'draw' else str(y.args[0])


def shown(s, v, skip=(), depth=0):
    '''Everything reachable from a value, as terms.'''
    I = s.I
    if isinstance(v, (tuple, list)):
        for x in v:
            yield from shown(s, x, skip, depth)
        return
    if isinstance(v, T) or not isinstance(v, Ref):
        if isinstance(v, T):
            yield v
        return
    o = I.obj(v)
    if o.kind == 'inst' and isinstance(o.cls, Cls) and depth < 4:
        for f, x in o.f.items():
            if (o.cls.name, f) in ELAPSED:
                continue
            yield from shown(s, x, skip, depth + 1)
        return
    if o.kind in ('list', 'set', 'dict'):
        yield from pieces(s, o.ps, depth)
        return
    yield s.vt(v)


def pieces(s, ps, depth):
    for p in ps:
        if isinstance(p, It):
            yield from shown(s, p.v, (), depth + 1)
        elif isinstance(p, For):
            if isinstance(p.n, T):
                yield p.n
            yield from pieces(s, p.ps, depth)
        elif isinstance(p, Perm):
            if isinstance(p.d, T):
                yield p.d
            yield from pieces(s, p.ps, depth)
        elif isinstance(p, If):
            if isinstance(p.c, T):
                yield p.c
            yield from pieces(s, p.ps, depth)
        else:
            t = getattr(p, 't', None)
            if isinstance(t, T):
                yield t


def flat(v):
    if isinstance(v, T):
        yield v
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from flat(x)


def sources(c, s, op, every):
    I = s.I
    op.contracts()
    nm = f'{op.what}: depends on nothing but its arguments and the NumPy generator' + \
        ('' if every else ' (optional arguments left out)')
    seed = f'{op.what}: does not seed the generator'
    ways = []

    def thunk():
        st = I.st
        me, args = op.given('in:', every)
        if me is not None and op.cls.name == 'Compiler' and op.name.startswith('compile'):
            s.pre(cmp_le(1, I.seqlen(I.pieces(I.getattr(me, 'unitary_primitives')))))
        st.cnt['spec'] = len(st.events)
        st.cnt['facts'] = len(st.facts)
        st.cnt['args'] = (me, args)
        st.cnt['fields'] = sorted(I.obj(me).f) if isinstance(me, Ref) and I.obj(me).kind == 'inst' else None
        return op.apply(me, args)[2]

    def judge(o, r=None):
        st = o.st
        if 'spec' not in st.cnt:
            return
        evs = [e for e, _ in all_events(st.events[st.cnt['spec']:])]
        bad = next((e for e in evs if e.kind == 'reseed'), None)
        c.true(seed, op.site, o, bad is None, bad and f'{bad.loc[1]}:{bad.loc[2]} calls {bad.d.get("name")}')
        if bad is not None:
            return
        me, args = st.cnt['args']
        dirty = {}
        for e in evs:
            if e.kind == 'while':
                dirty.update(carried(e.d['rec']))

        def foreign(t):
            return source(t) or (dirty and isinstance(t, T) and next(
                (dirty[x] for x in sorted(symbols(t), key=lambda x: x.id) if x in dirty), None)) or None
        for e in evs:
            if e.kind == 'draw':
                for k in ('p', 'prob', 'pop', 'params', 'raw'):
                    for t in flat(e.d.get(k)):
                        y = foreign(t)
                        if y is not None:
                            return hit(o, y, f'what is drawn at {e.loc[1]}:{e.loc[2]}', t)
        keyed = []
        mine = me
        if st.cnt['fields'] is not None:
            mine = [I.obj(me).f[f] for f in st.cnt['fields'] if f in I.obj(me).f]
        for what, v in [('the result', r), ('the receiver', mine)] + [(f'argument {n}', x) for n, x in args.items()]:
            for t in shown(s, v):
                y = foreign(t)
                if y is not None:
                    return hit(o, y, what, t)
                keyed.append(t)
        for e in evs:
            if e.kind == 'while':
                for w in loop(o, e.d['rec'], foreign):
                    return hit(o, *w)
        fs = list(st.facts)[st.cnt['facts']:]
        picks = [e.d['pick'] for e in evs if e.kind == 'draw' and e.d.get('pick') is not None]
        ways.append((o, o.kind, tuple(keyed), [f for f in fs if source(f) is not None],
                     {f for f in fs if source(f) is None}, picks))
        rnd = next((e for e in evs if e.kind == 'draw' and str(e.d.get('gen', 'numpy')) not in ('numpy', 'contract') and
                    any(e.d.get('term') is y for t in keyed for y in tm.subterms(t))), None)
        c.ob(nm, op.site, 'ok' if rnd is None else 'unknown', rnd and f'{rnd.d["gen"]}')

    def carried(rec):
        '''The variables of a loop that come to depend on a source: symbol -> source.'''
        lvs = rec.cells.leaves()
        for lf in lvs:
            lf.posts = []
        nexts = [x for x in rec.paths if x.kind == 'next']
        for x in nexts:
            rec.loop.read(rec.cells, x.st)
        own = [[x for x in symbols(lf.head) if x.op in ('lv', 'msym')] if isinstance(lf.head, T) else [] for lf in lvs]
        bad = {}

        def term(v, st):
            save, s.I.st = s.I.st, st
            try:
                if isinstance(v, list):
                    v = s.I.new_list(v)
                return s.vt(v) if not isinstance(v, T) else v
            finally:
                s.I.st = save
        for _ in range(len(lvs) + 1):
            n = len(bad)
            for lf, mine in zip(lvs, own):
                if not mine or mine[0] in bad:
                    continue
                for t in flat([term(lf.pre, rec.pre)] + [term(p, x.st) for p, x in zip(lf.posts, nexts)]):
                    y = source(t) or next((bad[z] for z in symbols(t) if z in bad), None)
                    if y is not None:
                        bad.update({z: y for z in mine})
                        break
            if len(bad) == n:
                break
        rec.after = {id(x): [term(lf.posts[i], x.st) for lf in lvs] for i, x in enumerate(nexts)}
        return bad

    def loop(o, rec, foreign):
        xs = [x for x in rec.paths if x.kind in ('next', 'exit', 'break', 'return', 'raise')]
        picks = {id(x): [e.d['pick'] for e, _ in all_events(x.st.events) if e.kind == 'draw' and
                         e.d.get('pick') is not None] for x in xs}
        for x in xs:
            fa = [f for f in x.newfacts if foreign(f) is not None]
            un = {f for f in x.newfacts if foreign(f) is None}
            for x2 in xs:
                if x2.kind == x.kind and (x.kind != 'next' or rec.after[id(x)] == rec.after[id(x2)]):
                    continue
                if any(p != q for p, q in zip(picks[id(x)], picks[id(x2)])):
                    continue
                f = next((f for f in fa if lnot(f) in x2.newfacts), None)
                if f is not None and not any(lnot(g) in x2.newfacts for g in un):
                    yield foreign(f), 'what a step of a loop does', f
                    return

    def hit(o, y, what, t):
        if any(z.op in OPAQUE and z.op != 'nth' for z in subterms(t)):
            return c.ob(nm, op.site, 'unknown', f'{what} may depend on {name_of(y)}')
        c.ob(nm, op.site, 'bad', f'{what} depends on {name_of(y)}: {c.short(t)}')

    c.run(nm, op.site, thunk, judge, on_raise=lambda o, v: c.guard(nm, op.site, o, judge), need_ret=False)
    for o, kind, key, fa, un, picks in ways:
        for o2, kind2, key2, fb, un2, picks2 in ways:
            if o2 is o or not fa or (kind == kind2 and key == key2):
                continue
            f = next((f for f in fa if lnot(f) in fb), None)
            if f is None or any(lnot(g) in un2 for g in un) or any(p != q for p, q in zip(picks, picks2)):
                continue
            return hit(o, source(f), 'which way is taken', f)


def sweep(c, s):
    jobs = []
    for op in ops(s):
        if op.name in ('compile', 'compile_layered') and op.cls.name == 'Compiler':
            jobs.insert(0, (op, False))
            jobs.insert(0, (op, True))
            continue
        jobs.append((op, True))
        if any(d for _, _, d in op.params()) or optional_parts(op):
            jobs.append((op, False))

    def run(op, every):
        s.I.intercepts.clear()
        try:
            sources(c, s, op, every)
        finally:
            s.I.overrides.pop('bare', None)
            s.I.intercepts.clear()
            tm.MODPHASE[0] = False
    c.par([(lambda j=j: run(*j)) for j in jobs])


PARTS = [sweep]
