from .compiling import *

RULE = ('Every way out of plain and of layered compilation, from an arbitrary sequence and history: the path condition implies '
        'that the entries returned are close to the target at the requested threshold or that the history returned has at '
        'least the permitted number of steps.  Every path through one further step implies that neither held at its '
        'beginning (by the loop condition, or as an invariant established before the loop and by every step).')
ASSUMES = RUN_ASSUMES + ['a target whose distance differs from 1 - threshold by rounding only may count as close or not (P03)']


def stop(c, s, layered, **kw):
    what = ('layered' if layered else 'plain') + suffix(kw)

    def done(run, E, C):
        return lor(run.close(E), cmp_le(run.env['N'], s.I.seqlen(C)))

    def left(run, E):
        '''Certainly further away than the threshold.'''
        if run.env['threshold'] is None:
            return lnot(run.close(E))
        return cmp_lt(tm.sub(1, run.env['threshold']), run.distance(E))

    def holds(conds):
        return all(x is True or s.holds(x) is True for x in conds)

    def more(run, E, C):
        return [left(run, E), cmp_lt(s.I.seqlen(C), run.env['N'])]

    def use(run):
        I, site = s.I, run.site
        nm = f'{what}: it stops only when close enough or out of steps'
        if run.rec is None:
            return c.entails(nm, site, run.o, done(run, run.E, run.C))
        if not run.P['seq'] or not run.P['costs']:
            return c.ob(f'{what}: the sequence and the history are kept in variables', site, 'unknown', f'{run.P}')
        ps, pc = run.P['seq'][0], run.P['costs'][0]
        c.demote = run.strange(run.way)
        try:
            c.entails(nm, site, run.o, done(run, run.E, run.C))
        finally:
            c.demote = None
        inv = invariant(run, ps, pc)

        def step(x, E, C, E2, C2):
            a, b = more(run, E, C)
            if inv:
                a = b = True
            c.entails(f'{what}: no step once close enough', site, x, a)
            c.entails(f'{what}: no step once out of steps', site, x, b)
        each_step(run, step, lambda x, E, C: c.entails(nm, site, x, done(run, E, C)))

    def invariant(run, ps, pc):
        '''Neither holds when the loop is entered and, if neither held before a step, after every step that stays.'''
        I = s.I

        def at(st, assume=False):
            save, I.st = I.st, st.clone()
            try:
                if assume:
                    h = run.rec.head.clone()
                    I.st, keep = h, I.st
                    m = more(run, run.entries(h, ps), run.history(h, pc))
                    I.st = keep
                    for x in m:
                        I.add_fact(x, 'pre')
                return holds(more(run, run.entries(I.st, ps), run.history(I.st, pc)))
            finally:
                I.st = save
        try:
            return at(run.rec.pre) and all(at(x.st, True) for x in run.rec.paths if x.kind == 'next')
        except (Unsupported, TargetRaise):
            return False
    runs(c, s, what, layered, use, **kw)


def steps(c, s):
    c.par([lambda: stop(c, s, False), lambda: stop(c, s, True), lambda: stop(c, s, False, threshold=False),
           lambda: stop(c, s, True, threshold=False)])


def again(c, s):
    '''The same for a compiler that has compiled before.'''
    c.par([lambda b=b: stop(c, s, b, before=used(s, b)) for b in (False, True)])


PARTS = [steps, again]
