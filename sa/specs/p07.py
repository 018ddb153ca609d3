import os

from .common import *
from .. import contracts as ct
from ..dom import Unsupported

RULE = ('A sequence created from an arbitrary list of entries is put through every history of up to three operations '
        '(append or remove at either end with and without undo saving, product, undo); after each history the reported '
        'product term must be the ordered product, over the entries the sequence then reports, of each operation embedded '
        'on its qubits.  The initial list is arbitrary, so a history stands for any longer one reaching the same cache '
        'situation.')
ASSUMES = ['P06: get_full_unitary is the operation on its qubits (used as a contract)',
           'the cache situation of a sequence (product known or not, undo state saved with or without a known product) is '
           'one that a history of at most two operations reaches']

OPS = ['append_first', 'append_first/u', 'append_last', 'append_last/u', 'remove_first', 'remove_first/u',
       'remove_last', 'remove_last/u', 'product', 'undo']


def seq(s):
    return s.inp('D', 'int'), s.listof('entries', 'UnitarySequenceEntry')


def apply_op(s, q, op, i):
    name, _, u = op.partition('/')
    save = not u
    if name.startswith('append'):
        s.m(q, name, s.inp(f'x{i}', 'cls', 'UnitarySequenceEntry'), *([] if save else [False]))
    elif name.startswith('remove'):
        s.m(q, name, *([] if save else [False]))
    else:
        s.m(q, name)


DEPTH = 3


def allowed(h):
    '''Leaves out histories whose undo cannot succeed and repeated product requests.'''
    saved = False
    for a, b in zip(('',) + h, h):
        if b == 'undo':
            if not saved:
                return False
            saved = False
        elif b == 'product':
            if a == 'product':
                return False
        elif not b.endswith('/u'):
            saved = True
    return True


class Histories:
    '''Every history of operations on a node, on every path; the node is whatever apply returns.'''
    def __init__(self, c, s, apply, visit, depth, ops=OPS, ok=allowed):
        self.c, self.s, self.apply, self.visit, self.depth, self.ops, self.ok = c, s, apply, visit, depth, ops, ok

    def step(self, st, h, node, op):
        c, g = self.c, h + (op,)
        try:
            outs = self.s.I.explore(lambda: self.apply(node, op, len(h)), st0=st)
        except (Unsupported, RecursionError) as e:
            c.ob(', '.join(g), '', 'unknown', str(e))
            return
        for o in outs:
            c.paths += 1
            if o.kind == 'ret':
                yield o
            elif o.kind != 'raise':
                c.ob(', '.join(g), '', 'unknown', f'{o.kind} {o.v}')

    def walk(self, st, h, node, ops=None):
        for op in ops or self.ops:
            g = h + (op,)
            if self.ok(g):
                for o in self.step(st, h, node, op):
                    save = o.st.clone()
                    self.visit(g, o, o.v)
                    if len(g) < self.depth:
                        self.walk(save, g, o.v)

    def run(self, make):
        '''The subtrees below the first two operations run in parallel.'''
        def first(st, node, op):
            def go():
                for o in self.step(st, (), node, op):
                    self.visit((op,), o, o.v)
            return go

        def second(st, node, op, op2):
            def go():
                for o in self.step(st, (), node, op):
                    self.walk(o.st, (op,), o.v, [op2])
            return go
        jobs = []
        for o in self.s.outs(make):
            if o.kind == 'ret':
                for op in self.ops:
                    if self.ok((op,)):
                        jobs.append(first(o.st, o.v, op))
                        if self.depth > 1:
                            jobs += [second(o.st, o.v, op, x) for x in self.ops if self.ok((op, x))]
        self.c.par(jobs)


def products(c, s):
    D, es = seq(s)
    ct.full_unitary(s)
    tm.MODPHASE[0] = True
    depth = 4 if os.environ.get('VERIF_TIER') == 'thorough' else DEPTH

    def visit(h, o, q):
        if h[-1] == 'product':
            return
        site = s.site('UnitarySequence', h[-1].partition('/')[0])
        name = ', '.join(h)
        c.guard(name, site, o, lambda o: check_product(c, s, name, site, o, q, D))
    def apply(q, op, i):
        apply_op(s, q, op, i)
        return q
    Histories(c, s, apply, visit, depth).run(lambda: s.new('UnitarySequence', D, es))


def check_product(c, s, name, site, o, q, D, full=False):
    before = s.m(q, 'get_sequence_entries')
    w = piece_product(s, s.I.pieces(before), D)
    p = s.m(q, 'product')
    phase_eq(c, f'{name}: product of the entries held', site, o, mat_of(s, p), w)
    if full:
        kb = entries_key(s, before)
        c.eq(f'{name}: product request leaves the entries alone', site, o,
             entries_key(s, s.m(q, 'get_sequence_entries')), kb)
        phase_eq(c, f'{name}: product of the entries held, again', site, o, mat_of(s, s.m(q, 'product')), w)


def created(c, s):
    D, es = seq(s)
    site = s.site('UnitarySequence', '__init__')
    ct.full_unitary(s)
    tm.MODPHASE[0] = True

    def ret(o, q):
        c.eq('creation: holds the given entries', site, o, entries_key(s, s.m(q, 'get_sequence_entries')),
             entries_key(s, es))
        c.eq('creation: reports its length', site, o, s.m(q, 'get_length'), mk('len', es, kind='int'))
        c.eq('creation: reports its dimension', site, o, s.m(q, 'get_dimension'), D)
        check_product(c, s, 'creation', site, o, q, D, True)
    c.run('creation', site, lambda: s.new('UnitarySequence', D, es), ret)

    def ret2(o, q):
        c.eq('creation: empty by default', site, o, s.m(q, 'get_length'), 0)
        check_product(c, s, 'default creation', site, o, q, D, True)

    def thunk2():
        s.pre(cmp_le(1, D))
        return s.new('UnitarySequence', D)
    c.run('default creation', site, thunk2, ret2)


PARTS = [created, products]
