from .compiling import *
from ..interp import smin

RULE = ('One arbitrary step of plain and of layered compilation, from an arbitrary sequence: on every path on which the '
        'proposal is kept the path condition implies u < min(1, exp(-beta * (new - old))), on every path on which it is '
        'taken back it implies the contrary, where u is a fresh uniform draw of that step that nothing else depends on, '
        'old and new are the distances of the target from the products before and after the proposed move, and beta is '
        'a quantity that is zero before the loop and becomes min(beta + annealing rate, a fixed cap) in every step.')
ASSUMES = RUN_ASSUMES + ['u < p and u <= p are the same event for a continuous draw',
                         'the exponent may use beta as it stands before or after its growth in that step']


def acceptance(c, s, layered, **kw):
    what = ('layered' if layered else 'plain') + suffix(kw)
    caps, uncapped = set(), []

    def loopy(t):
        return isinstance(t, T) and any(y.op in ('lv', 'lvm', 'mu', 'idx', 'iters', 'draw') for y in subterms(t))

    def betas(run, site):
        '''(place or None, term) of everything that is beta: zero at first, growing by the rate, capped.'''
        I = s.I
        out, why = [], []
        for pl, v in slots(run.rec.head):
            if not (isinstance(v, T) and v.op == 'lv'):
                continue
            p0 = read(run.rec.pre, pl)
            if not tm.is_num_const(p0) or tm.const_of(p0) != 0:
                continue
            ok, capped = True, set()
            for x in run.rec.paths:
                if x.kind != 'next':
                    continue
                save, I.st = I.st, x.st
                try:
                    q = read(x.st, pl)
                    g = tm.add(v, run.env['rate'])
                    cp = growth(q, g)
                    if cp is None:
                        ok = False
                        break
                    capped |= cp
                finally:
                    I.st = save
            if ok:
                out.append((pl, v, capped))
        n = run.s.I.seqlen(run.head_C)
        for k in (n, tm.add(n, 1)):
            out.append((None, tm.mul(run.env['rate'], k), set()))
        return out

    def here(run, bs, C):
        '''The candidates as they stand before the step.'''
        if run.before is run.rec.head:
            return bs
        n = s.I.seqlen(C)
        out = [(pl, read(run.before, pl), cp) for pl, _, cp in bs if pl]
        return out + [(None, tm.mul(run.env['rate'], k), set()) for k in (n, tm.add(n, 1))]

    def growth(q, g):
        '''The cap when q is min(g, cap) on the current path; empty when q is g and no cap applies.'''
        if q is g:
            return set()
        if isinstance(q, T) and q.op == 'min' and g in q.args:
            rest = [a for a in q.args if a is not g]
            if len(rest) == 1 and not loopy(rest[0]):
                return {rest[0]}
        if q is not None and tm.is_number(q) and not loopy(q) and s.holds(cmp_le(q, g)) is True:
            return {q}
        return None

    def forms(u, p, x, keep):
        '''Conditions any of which decides the step like u < p = min(1, exp(x)) does.'''
        e = tm.exp_(x)
        lg = mk('log', u, kind='real')
        if keep:
            return [cmp_lt(u, p), cmp_lt(u, e), cmp_le(u, p), cmp_le(u, e), cmp_lt(lg, x), cmp_le(lg, x),
                    cmp_lt(tm.sub(1, p), u), cmp_lt(tm.sub(1, u), p), cmp_lt(tm.sub(1, u), e)]
        return [cmp_le(p, u), cmp_le(e, u), cmp_lt(p, u), cmp_lt(e, u), cmp_le(x, lg), cmp_lt(x, lg),
                cmp_le(u, tm.sub(1, p)), cmp_le(p, tm.sub(1, u)), cmp_le(e, tm.sub(1, u))]

    def use(run):
        I, site = s.I, run.site
        if run.rec is None or not run.P['costs']:
            return
        save, I.st = I.st, run.rec.head
        try:
            run.head_C = run.history(run.rec.head, run.P['costs'][0])
        finally:
            I.st = save
        bs = betas(run, site)

        def step(x, E, C, E2, C2):
            r, t, empty = run.effect(E, E2, x.st.events)
            if empty and r:
                return                      # nothing proposed: kept and taken back are the same
            nm = f'{what}: kept exactly with the Metropolis probability'
            if not r:
                return c.ob(nm, site, 'unknown', f'the move of a path is not recognised: {c.short(t)}')
            keep = 'none' not in r
            us = [ev.d['term'] for ev in x.st.events if ev.kind == 'draw' and ev.d['dist'] == 'u01']
            mv = run.moves(run.trim(E), x.st.events)
            cand = r if keep else [k for k in mv if k != 'none']
            old = run.distance(E)
            tried = []
            known = {run.least(f): f for f in x.st.facts if any(mentions(f, u) for u in us)}
            for m in cand:
                d = tm.sub(run.distance(mv[m]), old)
                better = cmp_le(d, 0)
                if keep and (s.holds(better) is True or run.least(better) in {run.least(f) for f in x.st.facts}):
                    return c.ob(nm, site, 'ok')
                for pl, b0, cp in here(run, bs, C):
                    for b in [b0] + ([read(x.st, pl)] if pl else closed(b0, x)):
                        ex = tm.neg(tm.mul(b, d))
                        p = smin(tm.exp_(ex), 1)
                        for u in us:
                            fs = [known.get(f, f) for f in (run.least(f) for f in forms(u, p, ex, keep))
                                  if f in known or s.holds(f) is True]
                            if not fs:
                                continue
                            other = [f for f in x.st.facts if mentions(f, u) and f not in fs and
                                     x.st.facts.get(f) != 'draw' and not s_only(f, u)]
                            if other:
                                tried.append(f'the draw also decides {c.short(other[0])}')
                                continue
                            if pl is not None:
                                caps.update(cp)
                                if not cp:
                                    uncapped.append(site)
                            return c.ob(nm, site, 'ok')
            fs = [c.short(f, 700) for f in x.st.facts if any(mentions(f, u) for u in us)]
            c.true(nm, site, x, False, f'{"kept" if keep else "taken back"} after {cand} when {fs}; {tried[:1]}; '
                   f'beta may be {[c.short(b) for _, b, _ in bs]}')
        each_step(run, step)
        if uncapped:
            c.true(f'{what}: beta is capped', site, None, False, 'beta grows without bound')
        else:
            c.ob(f'{what}: beta is capped', site, 'ok')
        c.true(f'{what}: one cap', site, None, len(caps) <= 1, f'{[c.short(x) for x in caps]}')

    def s_only(f, u):
        '''A fact about the range of the draw itself.'''
        return all(y.op not in ('sym', 'lv', 'lvm', 'idx') or y in set(subterms(u)) for y in subterms(f))

    def closed(b, x):
        '''min(rate * steps, cap) for a cap the path mentions.'''
        out = []
        for f in x.st.facts:
            for y in subterms(f):
                if y.op == 'min' and b in y.args:
                    out.append(y)
        return list(dict.fromkeys(out))
    runs(c, s, what, layered, use, **kw)


def steps(c, s):
    c.par([lambda: acceptance(c, s, False), lambda: acceptance(c, s, True)])


def again(c, s):
    '''The same for a compiler that has compiled before.'''
    c.par([lambda b=b: acceptance(c, s, b, before=used(s, b)) for b in (False, True)])


PARTS = [steps, again]
