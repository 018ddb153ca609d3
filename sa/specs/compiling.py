'''One arbitrary step of plain and of layered compilation, shared by P14, P15, P16, P18, P19 and P20.'''
from .common import *
from .. import contracts as ct
from ..dom import Unsupported, TargetRaise, DictO

RUN_ASSUMES = ['P07-P10 for what a sequence does (used as a contract: a list, at most one saved list, the product of the list)',
               'P17 and P19 for generated entries and layers (used as a contract)', 'P03 for close_to and distance_from']


def slots(st):
    '''(place, value) of everything variables and attributes hold in a state.'''
    for a, o in list(st.heap.items()):
        if o.kind == 'env':
            for n, v in list(o.v.items()):
                yield (a, 'v', n), v
        elif o.kind == 'inst':
            for n, v in list(o.f.items()):
                yield (a, 'f', n), v


def read(st, place):
    a, k, n = place
    o = st.heap.get(a)
    return None if o is None else (o.v if k == 'v' else o.f).get(n)


def meanings(s, env):
    '''What variables of a compile loop may hold besides the sequence and the history: functions of these two.'''
    I = s.I

    def op(E):
        m = piece_product(s, E, env['D'])
        ct.mark_unitary(m)
        I.st.assume += 1
        try:
            return I.instantiate(s.cls('Unitary'), [env['D'], I.new_mat(m)], {})
        finally:
            I.st.assume -= 1

    def find(pre, st1):
        seqs, lists = [], []
        for pl, v in slots(pre):
            if isinstance(v, Ref) and isinstance(read(st1, pl), Ref):
                o = pre.heap[v.a]
                if o.kind == 'inst' and is_a(s, v, 'UnitarySequence'):
                    seqs.append(pl)
                elif o.kind == 'list' and not o.ps:
                    lists.append(pl)
        out = []

        def entries(pl):
            return lambda st: I.pieces(s.get(read(st, pl), 'sequence_entries'))

        def close(E):
            return lambda st: I.boolv(s.m(op(E(st)), 'close_to', env['target'], env['threshold']))
        def moving(pl):
            '''The sequence that this loop changes (a compiler used before also holds an old one).'''
            save = I.st
            try:
                I.st = pre.clone()
                a = entries_key(s, I.new_list(list(entries(pl)(I.st))))
                I.st = st1.clone()
                return a is not entries_key(s, I.new_list(list(entries(pl)(I.st))))
            except (Unsupported, TargetRaise):
                return False
            finally:
                I.st = save
        seqs.sort(key=lambda pl: not moving(pl))
        for pl in seqs[:1]:
            E = entries(pl)
            for q in lists:
                left = (lambda q: lambda st: cmp_lt(I.seqlen(I.pieces(read(st, q))), env['N']))(q)
                out.append(('bool', (lambda E, left: lambda st: lor(close(E)(st), lnot(left(st))))(E, left)))
                out.append(('bool', (lambda E, left: lambda st: land(lnot(close(E)(st)), left(st)))(E, left)))
            out.append(('bool', close(E)))
            out.append(('bool', (lambda E: lambda st: lnot(close(E)(st)))(E)))
            out.append(('scalar', (lambda E: lambda st: s.vt(s.m(env['target'], 'distance_from', op(E(st)))))(E)))
            out.append(('mat', (lambda E: lambda st: mat_of(s, op(E(st))))(E)))
            out.append(('mat', (lambda E: lambda st: piece_product(s, E(st), env['D']))(E)))
        for q in lists:
            out.append(('scalar', (lambda q: lambda st: I.seqlen(I.pieces(read(st, q))))(q)))
        return out
    return find


def suffix(kw):
    return ''.join(f', {v} per layer' if k == 'size' else ', used before' if k == 'before' else f', no {k}'
                   for k, v in kw.items())


class Run:
    '''A finished compilation: the loop record, the places of the sequence and of the cost history.'''
    def __init__(self, c, s, o, rec, way, layered, env):
        self.c, self.s, self.o, self.rec, self.way, self.layered, self.env = c, s, o, rec, way, layered, env
        I = s.I
        res = o.v
        self.seq, self.costs = s.get(res, 'compiled_sequence'), s.get(res, 'cost_by_step')
        self.E = I.pieces(s.m(self.seq, 'get_sequence_entries'))
        self.C = I.pieces(self.costs)
        self.eterm, self.cterm = self.key(self.E), s.vt(I.new_list(self.C))

    def strange(self, x):
        '''Why this way through the loop cannot be judged in general, or None: it depends on a carried variable other than
        the sequence, the history and the inverse temperature.'''
        I = self.s.I
        known = set()
        rec = self.rec
        st = rec.head
        save, I.st = I.st, st
        try:
            for pl in self.P['seq']:
                ps = self.entries(st, pl)
                known |= tm.symbols(self.key(ps)) if ps is not None else set()
            for pl in self.P['costs']:
                ps = self.history(st, pl)
                known |= tm.symbols(self.s.vt(I.new_list(ps))) if ps is not None else set()
        finally:
            I.st = save
        for pl, v in slots(st):
            if isinstance(v, T) and v.op == 'lv' and self.autonomous(pl, v):
                known.add(v)
        for f in x.newfacts:
            for y in subterms(f):
                if y not in known and (y.op == 'lv' or y.op == 'msym' and str(y.args[0]).startswith('lv')):
                    return f'depends on a carried variable of unknown meaning ({show(y)}): {show(f, 4)[:200]}'
        return None

    def autonomous(self, pl, v):
        '''Changes in the same way in every step, by the annealing rate.'''
        posts = {read(x.st, pl) for x in self.rec.paths if x.kind == 'next'}
        rate = self.env['rate']
        return all(isinstance(q, T) and rate in tm.symbols(q) and all(y is v or y.op != 'lv' for y in subterms(q)) and
                   not any(y.op in ('draw', 'trace') for y in subterms(q)) for q in posts)

    def rec_way(self):
        return self.way

    def key(self, ps):
        return entries_key(self.s, self.s.I.new_list(list(ps)))

    # ------------------------------------------------------------ places
    def places(self, st):
        '''Where the returned sequence and history live in the state of the way out.'''
        I = self.s.I
        save, I.st = I.st, st
        P = {'seq': [], 'costs': []}
        try:
            for pl, v in slots(st):
                if not isinstance(v, Ref):
                    continue
                o = st.heap[v.a]
                try:
                    if o.kind == 'inst' and is_a(self.s, v, 'UnitarySequence'):
                        if self.key(I.pieces(self.s.get(v, 'sequence_entries'))) is self.eterm:
                            P['seq'].append(pl)
                    elif o.kind == 'list' and self.s.vt(v) is self.cterm:
                        P['costs'].append(pl)
                except (Unsupported, TargetRaise):
                    continue
        finally:
            I.st = save
        return P

    # ------------------------------------------------------------ observation of a state
    def entries(self, st, place):
        v = read(st, place)
        return None if v is None else self.s.I.pieces(self.s.get(v, 'sequence_entries'))

    def history(self, st, place):
        v = read(st, place)
        return None if v is None else self.s.I.pieces(v)

    def product(self, ps):
        m = piece_product(self.s, ps, self.env['D'])
        ct.mark_unitary(m)
        I = self.s.I
        I.st.assume += 1
        try:
            return I.instantiate(self.s.cls('Unitary'), [self.env['D'], I.new_mat(m)], {})
        finally:
            I.st.assume -= 1

    def close(self, ps):
        '''Close to the target at the threshold, as P03 defines it.'''
        return self.s.I.boolv(self.s.m(self.product(ps), 'close_to', self.env['target'], self.env['threshold']))

    def distance(self, ps):
        return self.s.vt(self.s.m(self.env['target'], 'distance_from', self.product(ps)))

    # ------------------------------------------------------------ moves
    def moves(self, E, x):
        '''name -> the entries after each move from E; x: events of the path (what was generated).'''
        s, I = self.s, self.s.I
        n = I.seqlen(E)
        out = {'none': E}
        news = []
        ent = ('cls', s.cls('UnitarySequenceEntry'))
        for ev in x:
            if ev.kind == 'draw' and ev.d.get('dist') == 'entry' and not self.layered:
                news.append(('', [It(I.generic(ev.d['term'], ent))]))
            elif ev.kind == 'draw' and ev.d.get('dist') == 'layer' and self.layered:
                L, d = self.env['L'], ev.d['term']
                k, j = fresh_idx(), fresh_idx()
                if isinstance(L, int):
                    es = [It(I.generic(mk('elem', d, i), ent)) for i in range(L)]
                    news += [('', es), (' reversed', es[::-1])]
                    continue
                news.append(('', [For(k, L, [It(I.generic(mk('elem', d, k), ent))])]))
                news.append((' reversed', [For(j, L, [It(I.generic(mk('elem', d, tm.sub(tm.sub(L, 1), j)), ent))])]))
        for tag, ps in news:
            out['append_first' + tag] = ps + E
            out['append_last' + tag] = E + ps
        q = self.env['L'] if self.layered else 1
        if s.holds(cmp_le(q, n)) is True or not self.layered and s.holds(cmp_lt(0, n)) is True:
            k, j = fresh_idx(), fresh_idx()
            m = tm.sub(n, q)
            if tm.is_num_const(m):
                m = int(tm.const_of(m))
                out['remove_last'] = [It(self.at(E, i)) for i in range(m)]
                out['remove_first'] = [It(self.at(E, i + q)) for i in range(m)]
                return out
            out['remove_last'] = [For(k, m, [It(self.at(E, k))])]
            out['remove_first'] = [For(j, m, [It(self.at(E, tm.add(j, q)))])]
        return out

    def at(self, E, i):
        from ..loops import quiet_at
        v = quiet_at(self.s.I, E, i)
        if v is None:
            raise Unsupported('element of the entries')
        return v

    def effect(self, E, post, evs):
        '''Names of the moves that lead from E to post.'''
        s, I = self.s, self.s.I
        empty = s.holds(cmp_eq(I.seqlen(E), 0)) is True or self.layered and s.holds(cmp_le(self.env['L'], 0)) is True
        t = self.least(self.key(self.trim(post)))
        r = []
        for name, ps in self.moves(self.trim(E), evs).items():
            w = self.least(self.key(self.trim(ps)))
            if t is w or self.c.same(t, w):
                r.append(name)
        return r, t, empty

    def trim(self, ps):
        '''Without parts known to be empty.'''
        return [p for p in ps if not (isinstance(p, For) and self.s.holds(cmp_le(p.n, 0)) is True)]

    def least(self, t):
        '''min and max of quantities the path orders.'''
        for _ in range(8):
            if not isinstance(t, T):
                return t
            sub = {}
            for y in tm.subterms(t):
                if y.op in ('min', 'max') and len(y.args) == 2:
                    a, b = y.args
                    if self.s.holds(cmp_le(a, b)) is True:
                        sub[y] = a if y.op == 'min' else b
                    elif self.s.holds(cmp_le(b, a)) is True:
                        sub[y] = b if y.op == 'min' else a
            if not sub:
                return t
            t = tm.subst(t, sub)
        return t

    def whole(self, E):
        '''Layered sequences consist of whole layers (the invariant P19 establishes).'''
        n, L = self.s.I.seqlen(E), self.env['L']
        return lor(cmp_eq(n, 0), cmp_le(L, n))


def setup(s, layered, threshold=True, probs=True, size=None):
    tm.MODPHASE[0] = True
    ct.full_unitary(s)
    ct.sequences(s)
    ct.generated(s)
    env = {'D': s.inp('D', 'int'), 'target': s.inp('target', 'cls', 'Unitary'), 'N': s.inp('N', 'int'),
           'threshold': sym('in:threshold', 'real') if threshold else None,
           'prims': s.listof('prims', 'UnitaryPrimitive'),
           'probs': s.inp('probs', 'list', ('float',)) if probs else None,
           'ap': sym('in:append', 'real'), 'rate': sym('in:rate', 'real')}
    if layered:
        env['counts'] = s.inp('counts', 'dict', s.ty('UnitaryPrimitive'), ('int',))
        env['size'] = size
    return env


def args(s, env, layered):
    s.pre(cmp_le(1, mk('len', env['prims'], kind='int')))
    s.pre(cmp_le(0, env['ap']))
    s.pre(cmp_le(env['ap'], 1))
    s.pre(cmp_le(0, env['rate']))
    a = [env['target']]
    if layered and env.get('size'):
        # layers of a known size
        env['counts'] = s.I.ref(DictO([It((s.inp('p1', 'cls', 'UnitaryPrimitive'), env['size']))]))
        env['L'] = env['size']
        a.append(env['counts'])
    elif layered:
        k = fresh_idx()
        from ..interp import forall_t
        s.pre(forall_t(k, mk('len', env['counts'], kind='int'), cmp_le(0, mk('val', env['counts'], k, kind='int'))))
        env['L'] = ct.total(s.I, env['counts'])
        a.append(env['counts'])
    return a + [env['threshold'], env['N']]


def compiler(s, env):
    return s.new('Compiler', env['D'], env['prims'], env['probs'], env['ap'], env['rate'])


def runs(c, s, what, layered, use, threshold=True, probs=True, before=None, size=None):
    '''use(run) for every completed compilation.'''
    name = 'compile_layered' if layered else 'compile'
    site = s.site('Compiler', name)
    env = setup(s, layered, threshold, probs, size)

    def thunk():
        a = args(s, env, layered)
        s.I.meanings = meanings(s, env)
        k = before(env) if before else compiler(s, env)
        s.I.st.cnt['spec'] = len(s.I.st.events)
        s.I.st.cnt['compiler'] = k
        return s.m(k, name, *a)

    def ret(o, r):
        recs = [e for e in o.st.events[o.st.cnt['spec']:] if e.kind == 'while']
        if not recs and not any(e.kind in ('loop', 'unknown_loop') for e in o.st.events[o.st.cnt['spec']:]):
            run = Run(c, s, o, None, None, layered, env)
            run.what, run.site = what, site
            return use(run)
        if len(recs) != 1:
            return c.ob(f'{what}: the loop over the steps', site, 'unknown', f'{len(recs)} loops of unknown length')
        rec, way = recs[0].d['rec'], recs[0].d['way']
        run = Run(c, s, o, rec, way, layered, env)
        run.what, run.site = what, site
        run.P = run.places(way.st)
        use(run)
    c.run(what, site, thunk, ret)


def used(s, layered):
    '''A compiler that has run one compilation of the same kind to an arbitrary end.'''
    def before(env):
        k = compiler(s, env)
        s.m(k, 'compile_layered' if layered else 'compile', *args(s, env, layered))
        return k
    return before


UNROLL, FOLLOW = 2, 6


def each_step(run, fn, ends=None):
    '''fn(path, E, C, E', C') on every path through one iteration; E, C at its beginning.  Where a path depends on a
    carried variable whose meaning is not known nothing is refuted in general; the first iterations are then followed from
    the start, where every value is known (ends(path, E, C) judges the ways out).'''
    c, s, I = run.c, run.s, run.s.I
    if run.rec is None:
        return
    if getattr(run.rec, 'stepped', False):
        return
    run.rec.stepped = True
    if not run.P['seq'] or not run.P['costs']:
        c.ob(f'{run.what}: the sequence and the history are kept in variables', run.site, 'unknown',
             f'found {run.P}')
        return
    ps, pc = run.P['seq'][0], run.P['costs'][0]

    def observe(before, x, demote, fn):
        save = I.st

        def go(o):
            I.st = before.clone()
            E, C = run.entries(I.st, ps), run.history(I.st, pc)
            I.st = o.st
            E2, C2 = run.entries(o.st, ps), run.history(o.st, pc)
            if E2 is None or C2 is None:
                return c.ob(f'{run.what}: a step', run.site, 'unknown', 'the sequence cannot be followed')
            if run.layered:
                I.add_fact(run.whole(E), 'pre')
                I.decide(cmp_le(run.env['L'], I.seqlen(E)))
            fn(o, E, C, E2, C2)
        x.st.assume = 0
        I.st = x.st
        c.paths += 1
        c.demote = demote
        try:
            c.guard(f'{run.what}: a step', run.site, x, go)
        finally:
            c.demote = None
            I.st = save
    strange = False
    run.before = run.rec.head
    for x in run.rec.paths:
        if x.kind == 'next':
            why = run.strange(x)
            strange = strange or why
            run.why = why
            observe(run.rec.head, x, why, fn)
        elif run.strange(x):
            strange = True
    run.why = None
    if not strange:
        return
    for S, x, d in run.rec.loop.unrolled(run.rec, UNROLL, FOLLOW):
        run.before = S
        if x.kind == 'next':
            observe(S, x, None, fn)
        elif x.kind in ('exit', 'break') and ends:
            observe(S, x, None, lambda o, E, C, E2, C2: ends(o, E2, C2))
    run.before = run.rec.head
