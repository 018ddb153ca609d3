from .compiling import *

RULE = ('One arbitrary step of plain and of layered compilation: grouped by what a kept proposal does to the entries, the '
        'probabilities of the random decisions that lead to it (weights of drawn alternatives, thresholds of uniform draws, '
        'the acceptance draw left aside) add up to half the append probability for each of the two appends and to half of '
        'the rest for each of the two removals; all four occur; every appended entry or layer is generated with the '
        "compiler's dimension, primitives and probabilities, or the layer counts of the call.")
ASSUMES = RUN_ASSUMES + ['the entries before the step of a layered compilation are none or at least one layer (P19)']


def decisions(s, x):
    '''(key, probability) of the random decisions of a path without the acceptance draw; None when not computable.'''
    key, p = [], 1
    for ev in x.st.events:
        if ev.kind != 'draw':
            continue
        if ev.d.get('prob') is not None:
            key.append((ev.loc, ev.d.get('pick')))
            p = tm.mul(p, ev.d['prob'])
        elif ev.d['dist'] == 'u01':
            u = ev.d['term']
            lo, hi = [], []
            for f, og in x.st.facts.items():
                if og == 'draw' or not mentions(f, u) or any(y.op == 'trace' for y in subterms(f)):
                    continue
                b = bound(u, f)
                if b is None:
                    return None
                (lo if b[0] == 'lo' else hi).append(b[1])
            if not lo and not hi:
                continue
            l, h = best(s, lo, 0, True), best(s, hi, 1, False)
            if l is None or h is None:
                return None
            key.append((u, l, h))
            p = tm.mul(p, tm.sub(h, l))
        elif ev.d['dist'] not in ('entry', 'layer', 'clock'):
            for f in x.st.facts:
                if mentions(f, ev.d['term']) and x.st.facts[f] != 'draw':
                    return None
    return tuple(key), p


def bound(u, f):
    '''('hi', b) for u < b, ('lo', b) for b <= u.'''
    if f.op not in ('lt', 'le'):
        return None
    d = f.args[0]
    q = tm.sub(d, u)
    if not mentions(q, u):
        return 'hi', tm.neg(q)
    q = tm.add(d, u)
    if not mentions(q, u):
        return 'lo', q
    return None


def best(s, bs, default, biggest):
    bs = list(dict.fromkeys(bs))
    if not bs:
        return default
    r = bs[0]
    for b in bs[1:]:
        if s.holds(cmp_le(b, r)) is True:
            r = r if biggest else b
        elif s.holds(cmp_le(r, b)) is True:
            r = b if biggest else r
        else:
            return None
    return r


def moves(c, s, layered, **kw):
    what = ('layered' if layered else 'plain') + suffix(kw)
    NAMES = ('append_first', 'append_last', 'remove_first', 'remove_last')

    def prims(v):
        I = s.I
        return s.vt(I.new_list(I.map_pieces(I.pieces(v), lambda e: (s.m(e, 'get_unitary'), s.m(e, 'get_allowed_apply_to')))))

    def use(run):
        I, site, env = s.I, run.site, run.env
        got = {n: {} for n in NAMES}
        lost = []

        def step(x, E, C, E2, C2):
            evs = [e for e in x.st.events if e.kind == 'draw' and e.d['dist'] == ('layer' if layered else 'entry')]
            for e in evs:
                D, a = e.d['raw'][0], e.d['raw'][1:]
                if layered:
                    c.eq(f'{what}: layers are generated with the counts of the call', site, x, (D, a[0]),
                         (env['D'], env['counts']))
                else:
                    c.eq(f'{what}: gates are generated with the primitives of the compiler', site, x,
                         (D, prims(a[0])), (env['D'], prims(run.own_prims)))
                    c.eq(f'{what}: gates are generated with the probabilities of the compiler', site, x,
                         a[1] if len(a) > 1 else None, run.own_probs)
            if run.before is not run.rec.head:
                return
            if run.why:
                return lost.append(run.why)
            r, t, empty = run.effect(E, E2, x.st.events)
            if empty and r == ['none'] or 'none' in r:
                return
            if not r:
                return lost.append(c.short(t))
            for n in r:
                n = n.split(' ')[0]
                if n not in NAMES:
                    continue
                d = decisions(s, x)
                if d is None:
                    lost.append(f'the probability of {n} is not computable')
                else:
                    got[n][d[0]] = d[1]
        st = s.I.st
        k = st.cnt['compiler']
        run.own_prims, run.own_probs = env['prims'], env['probs']
        each_step(run, step)
        if lost:
            return c.ob(f'{what}: probabilities of the moves', site, 'unknown', f'{lost[:2]}')
        for n in NAMES:
            want = tm.div(env['ap'] if n.startswith('append') else tm.sub(1, env['ap']), 2)
            p = 0
            for v in got[n].values():
                p = tm.add(p, v)
            nm = f'{what}: {n} happens with its probability'
            if not got[n] and opaque_path(run.rec_way()):
                c.ob(nm, site, 'unknown', 'no path shows the move')
            else:
                c.eq(nm, site, run.o, p, want)
    runs(c, s, what, layered, use, **kw)


def steps(c, s):
    c.par([lambda: moves(c, s, False), lambda: moves(c, s, True), lambda: moves(c, s, False, probs=False)])


def again(c, s):
    '''The same for a compiler that has compiled before.'''
    c.par([lambda b=b: moves(c, s, b, before=used(s, b)) for b in (False, True)])


PARTS = [steps, again]
