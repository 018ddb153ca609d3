from .compiling import *

RULE = ('One arbitrary step of plain and of layered compilation, from an arbitrary sequence and history: the history grows by '
        'exactly one value, which is the distance between the target and the product of the entries held after the step; the '
        'entries after the step are those before it, or exactly those of one of the four moves.  Both start empty, and the '
        'result holds the sequence and the history as they stand when the loop is left.')
ASSUMES = RUN_ASSUMES + ['the entries before the step of a layered compilation are none or at least one layer (P19)']


def history(c, s, layered, **kw):
    what = ('layered' if layered else 'plain') + suffix(kw)

    def use(run):
        I, site = s.I, run.site
        o = run.o
        if run.rec is None:
            return c.eq(f'{what}: without a step the sequence and the history are empty', site, o,
                        (I.seqlen(run.E), I.seqlen(run.C)), (0, 0))
        ps, pc = run.P['seq'], run.P['costs']
        if ps and pc:
            pre = run.rec.pre
            save, I.st = I.st, pre
            try:
                e0, c0 = run.entries(pre, ps[0]), run.history(pre, pc[0])
                n0, m0 = I.seqlen(e0), I.seqlen(c0)
            finally:
                I.st = save
            c.eq(f'{what}: starts with an empty sequence and history', site, o, (n0, m0), (0, 0))

        def step(x, E, C, E2, C2):
            n = I.seqlen(C)
            c.eq(f'{what}: one value per step', site, x, I.seqlen(C2), tm.add(n, 1))
            if s.holds(cmp_eq(I.seqlen(C2), tm.add(n, 1))) is not True:
                return
            last = I.at(C2, -1)
            c.eq(f'{what}: the earlier values are kept', site, x, s.vt(I.new_list(run.trim(C2))),
                 s.vt(I.new_list(run.trim(C) + [It(last)])))
            c.eq(f'{what}: the value is the distance of the sequence after the step', site, x, last, run.distance(E2))
            r, t, empty = run.effect(E, E2, x.st.events)
            nm = f'{what}: the sequence after a step is the one before or exactly the proposed one'
            if opaque_in(t) and not r:
                c.ob(nm, site, 'unknown', c.short(t))
            else:
                c.true(nm, site, x, bool(r), f'the entries become {c.short(t)}')
        each_step(run, step)
    runs(c, s, what, layered, use, **kw)


def steps(c, s):
    c.par([lambda: history(c, s, False), lambda: history(c, s, True), lambda: history(c, s, False, threshold=False),
           lambda: history(c, s, True, size=2)])


def again(c, s):
    '''The same for a compiler that has compiled before.'''
    c.par([lambda b=b: history(c, s, b, before=used(s, b)) for b in (False, True)])


PARTS = [steps, again]
