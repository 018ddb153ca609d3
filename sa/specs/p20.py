from .compiling import *
from ..loops import newname
import os
from ..interp import single_atom

RULE = ('A compiler is configured with lists the caller changes afterwards, runs one compilation (plain or layered, every way '
        'out of it), and then a second one, whose start, one arbitrary step and end are analysed.  No quantity that belongs '
        'to the first compilation (its arguments, its draws, what its loop left in variables and attributes) and none the '
        'caller put into the configured lists afterwards may reach the entries or the history of the second: not by value, '
        'nor by deciding between two ways through the step that end differently.  The sequence and the history of the first '
        'result are the same afterwards, and the two results share no list, sequence or result object with each other or '
        'with the compiler.')
ASSUMES = RUN_ASSUMES + ['unitaries, primitives and entries are immutable (P11) and may be shared by results']


def reachable(s, st, v, through):
    '''Addresses of the objects reachable from v through objects of the given kinds.'''
    out, todo = {}, [v]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo += list(x)
        elif isinstance(x, (For, If, Perm)):
            todo += list(x.ps)
        elif isinstance(x, It):
            todo.append(x.v)
        elif isinstance(x, Ref) and x.a not in out:
            o = st.heap[x.a]
            if not through(o):
                continue
            out[x.a] = o
            if o.kind == 'inst':
                todo += list(o.f.values())
            elif o.kind in ('list', 'dict', 'set'):
                todo += list(o.ps)
    return out


def pair(c, s, first, second):
    I = s.I
    what = f'{"layered" if second else "plain"} after {"layered" if first else "plain"}'
    env = setup(s, second)
    one = {'target': s.inp('one:target', 'cls', 'Unitary'), 'N': s.inp('one:N', 'int'),
           'threshold': sym('in:one:threshold', 'real'), 'counts': s.inp('one:counts', 'dict', s.ty('UnitaryPrimitive'), ('int',))}
    name = ['compile', 'compile_layered']
    site = s.site('Compiler', name[second])
    shared = {x for x in ('Unitary', 'UnitarySequenceEntry', 'UnitaryPrimitive', 'ParameterizedUnitary',
                          'ParameterizedUnitaryParameter') if x in I.classes}

    def mutable(o):
        if o.kind == 'inst':
            return not any(getattr(k, 'name', None) in shared for k in (o.cls.mro() if hasattr(o.cls, 'mro') else []))
        return o.kind in ('list', 'dict', 'set')

    def thunk():
        a2 = args(s, env, second)
        if first:
            from ..interp import forall_t
            k = fresh_idx()
            s.pre(forall_t(k, mk('len', one['counts'], kind='int'), cmp_le(0, mk('val', one['counts'], k, kind='int'))))
        a1 = [one['target']] + [one['counts']] * first + [one['threshold'], one['N']]
        s.pre(cmp_le(1, mk('len', env['probs'], kind='int')))
        prims, probs = I.mat(env['prims']), I.mat(env['probs'])
        k = s.new('Compiler', env['D'], prims, probs, env['ap'], env['rate'])
        # the caller goes on using the lists
        I.call(I.getattr(prims, 'append'), [s.inp('evil', 'cls', 'UnitaryPrimitive')], {})
        I.call(I.getattr(probs, 'append'), [sym('in:evil:p', 'real')], {})
        I.meanings = meanings(s, {**env, 'target': one['target'], 'threshold': one['threshold'], 'N': one['N']})
        if drift is None:
            # which numbers of the compiler change with every compilation
            xs = {f: sym('in:drift:' + f, v.kind if isinstance(v, T) else 'int' if isinstance(v, int) else 'real')
                  for f, v in I.st.heap[k.a].f.items() if tm.is_number(v) and not isinstance(v, bool)}
            for f, x in xs.items():
                I.st.heap[k.a].f[f] = x
            I.st.cnt['xs'], I.st.cnt['compiler'] = xs, k
            return s.m(k, name[first], *a1)
        r1 = s.m(k, name[first], *a1)
        for f in drift:
            I.st.heap[k.a].f[f] = sym('in:one:compiler:' + f, 'real')
        st = I.st
        st.cnt['one'] = r1
        st.cnt['was'] = observed(r1)
        st.cnt['names'] = newname()
        st.cnt['draws'] = st.cnt.get('draw', 0)
        st.cnt['spec'] = len(st.events)
        st.cnt['facts'] = len(st.facts)
        st.cnt['compiler'] = k
        I.meanings = meanings(s, env)
        return s.m(k, name[second], *a2)

    def probe():
        out = set()

        def use(o, r):
            for f, x in o.st.cnt['xs'].items():
                v = o.st.heap[o.st.cnt['compiler'].a].f.get(f)
                if isinstance(v, T) and v is not x and v.kind in tm.NUMK:
                    ps = tm.to_poly(v)
                    at = {a for m in ps for a, e in m}
                    if x in at and not any(x in tm.subterms(a) for a in at if a is not x):
                        out.add(f)
        for o in I.explore(thunk):
            if o.kind == 'ret':
                use(o, o.v)
        return out

    def observed(r):
        q, h = s.get(r, 'compiled_sequence'), s.get(r, 'cost_by_step')
        return entries_key(s, s.get(q, 'sequence_entries')), s.vt(I.new_list(I.pieces(h)))

    def marks(t, st):
        '''What a term mentions of the first compilation or of the changed lists.'''
        for y in tm.symbols(t):
            if y.op == 'sym' and str(y.args[0]).startswith(('in:one:', 'in:evil')):
                return y
            if y.op == 'draw' and isinstance(y.args[3], int) and y.args[3] < st.cnt['draws']:
                return y
            if y.op in ('lv', 'mu') and isinstance(y.args[0], int) and y.args[0] < st.cnt['names']:
                return y
            if y.op == 'msym' and str(y.args[0]).startswith('lv') and str(y.args[0])[2:].isdigit() and \
                    int(y.args[0][2:]) < st.cnt['names']:
                return y
        return None

    def use(o, r):
        st = o.st
        ev = st.events[st.cnt['spec']:]
        recs = [e for e in ev if e.kind == 'while']
        was, now = st.cnt['was'], observed(st.cnt['one'])
        c.eq(f'{what}: the earlier result stays as it was (entries)', site, o, now[0], was[0])
        c.eq(f'{what}: the earlier result stays as it was (history)', site, o, now[1], was[1])
        a, b = reachable(s, st, st.cnt['one'], mutable), reachable(s, st, r, mutable)
        k = reachable(s, st, st.cnt['compiler'], mutable)
        for x, y, t in ((a, b, 'the two results'), (a, k, 'the earlier result and the compiler'),
                        (b, k, 'the result and the compiler')):
            both = [x[i] for i in x if i in y]
            both = [q for q in both if q.kind != 'inst' or q.f]
            c.true(f'{what}: {t} share nothing that can change', site, o, not both,
                   f'shared: {[q.kind if q.kind != "inst" else q.cls.name for q in both]}')
        if not recs:
            return c.ob(f'{what}: nothing of the first compilation reaches the second', site,
                        'unknown' if any(e.kind in ('loop', 'unknown_loop') for e in ev) else 'ok', 'no loop record')
        if len(recs) > 1:
            return c.ob(f'{what}: the loop over the steps', site, 'unknown', f'{len(recs)} loops of unknown length')
        rec, way = recs[0].d['rec'], recs[0].d['way']
        run = Run(c, s, o, rec, way, second, env)
        run.P = run.places(way.st)
        flows(run, o)

    def flows(run, o):
        nm = f'{what}: nothing of the first compilation reaches the second'
        st, rec = o.st, run.rec
        for t, n in ((run.eterm, 'entries'), (run.cterm, 'history')):
            y = marks(t, st)
            if y is not None:
                return place(nm, t, f'the {n} returned depend on {show(y, 4)}')
        if not run.P['seq'] or not run.P['costs']:
            return c.ob(f'{what}: the sequence and the history are kept in variables', site, 'unknown', f'{run.P}')
        before = [f for i, f in enumerate(rec.pre.facts) if i >= st.cnt['facts'] and marks(f, st) is not None]
        if not pinned(before, st):
            before = []
        c.demote = f'decided before the loop: {c.short(before[0])}' if before else None
        try:
            # cells of the loop that start from something of the first compilation
            lvs = rec.cells.leaves()
            for lf in lvs:
                lf.posts = []
            nexts = [x for x in rec.paths if x.kind == 'next']
            for x in nexts:
                rec.loop.read(rec.cells, x.st)
            own = [tm.symbols(lf.head) if isinstance(lf.head, T) else frozenset() for lf in lvs]
            bad = {}
            for _ in range(len(lvs) + 1):
                n = len(bad)
                for i, lf in enumerate(lvs):
                    if i in bad or not own[i]:
                        continue
                    ts = [term(lf.pre, rec.pre)] + [term(p, x.st) for p, x in zip(lf.posts, nexts)]
                    for t in ts:
                        y = marks(t, st) or next((bad[j] for j in bad if own[j] & tm.symbols(t)), None)
                        if y is not None:
                            bad[i] = y
                            break
                if len(bad) == n:
                    break
            tainted = frozenset(x for i in bad for x in own[i] if x.op in ('lv', 'msym'))

            for x in [o] + list(rec.paths):
                for e in x.st.events[st.cnt['spec'] if x is o else 0:]:
                    if e.kind != 'draw':
                        continue
                    for nme in ('p', 'prob', 'pop', 'params', 'raw'):
                        for t in flat(e.d.get(nme), x.st):
                            if marks(t, st) is not None or tm.symbols(t) & tainted:
                                return place(nm, t, f'what is drawn depends on an earlier compilation: {c.short(t)}')

            def hit(t):
                return marks(t, st) is not None or bool(tm.symbols(t) & tainted)
            paths = []
            for x in rec.paths:
                if x.kind not in ('next', 'exit', 'break', 'return', 'raise'):
                    return c.ob(nm, site, 'unknown', f'{x.kind}')
                save, I.st = I.st, x.st
                try:
                    ob = (x.kind if x.kind in ('next', 'raise') else 'exit',)
                    if x.kind == 'next':
                        ob += (run.key(run.entries(x.st, run.P['seq'][0])),
                               s.vt(I.new_list(run.history(x.st, run.P['costs'][0]))))
                finally:
                    I.st = save
                for t in ob[1:]:
                    if hit(t):
                        return place(nm, t, f'a step makes {c.short(t)}, which depends on an earlier compilation')
                fs = list(x.newfacts)
                paths.append((ob, [f for f in fs if hit(f)], {f for f in fs if not hit(f)}, x))
            if os.environ.get('SA_FLOW'):
                for ob, fa, un, x in paths:
                    print('PATH', ob[0], [show(f, 9)[:200] for f in fa])
            for ob, fa, un, x in paths:
                for ob2, fb, un2, x2 in paths:
                    if x2 is x or ob2 == ob or not fa:
                        continue
                    if any(p != q for p, q in zip(picks(x), picks(x2))):
                        continue        # the draws of the step differ
                    f = apart(fa, x2.st, ())
                    if f is None or apart(un, x2.st, fb) is not None:
                        continue
                    return place(nm, f, f'a quantity of an earlier compilation decides: {c.short(f)}')
            c.ob(nm, site, 'ok')
        finally:
            c.demote = None

    def picks(x):
        return [e.d['pick'] for e in x.st.events if e.kind == 'draw' and e.d.get('pick') is not None]

    def apart(fs, st, less):
        '''A condition of one way that cannot hold on the other (judged without the conditions of less).'''
        save, I.st = I.st, st
        if less:
            I.st = st.clone()
            I.st.facts = {f: w for f, w in st.facts.items() if f not in less}
        try:
            return next((f for f in fs if s.holds(f) is False), None)
        finally:
            I.st = save

    def pinned(fs, st):
        '''The conditions may leave a single value of what they mention.'''
        side = {}
        for f in fs:
            x = single_atom(f)
            if x[0] is None or x[1] is None or f.op == 'eq0' or marks(x[0], st) is None or x[0].kind == 'int':
                ps = tm.to_poly(f.args[0]) if f.op in ('le', 'lt') and f.args[0].kind in tm.NUMK else {}
                ms = [m for m in ps if any(marks(a, st) is not None for a, e in m)]
                if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1 or ms[0][0][0].kind == 'int':
                    return True
                x = (ms[0][0][0], ps[ms[0]][0])
            side.setdefault(x[0], set()).add(x[1] > 0)
        return any(len(v) > 1 for v in side.values())

    def flat(v, st):
        if isinstance(v, T):
            yield v
        elif isinstance(v, Ref):
            try:
                yield term(v, st)
            except (Unsupported, TargetRaise):
                return
        elif isinstance(v, (tuple, list)):
            for x in v:
                yield from flat(x, st)

    def place(nm, t, d):
        why = opaque_in(t)
        c.ob(nm, site, 'unknown' if why else 'bad', d)

    def term(v, st):
        save, I.st = I.st, st
        try:
            if isinstance(v, list):
                return s.vt(I.new_list(v))
            return s.vt(v)
        finally:
            I.st = save
    drift = None
    save = I.next_addr
    drift = probe()
    I.next_addr = save
    c.run(what, site, thunk, use)


def pairs(c, s):
    c.par([(lambda a=a, b=b: pair(c, s, a, b)) for a in (False, True) for b in (False, True)])


PARTS = [pairs]
