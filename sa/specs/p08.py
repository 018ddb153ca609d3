import os

from .common import *
from .. import contracts as ct
from ..dom import Unsupported, TargetRaise
from .p07 import Histories, apply_op, seq, OPS

RULE = ('A sequence created from an arbitrary list of entries is put through every history of up to three operations; a '
        'reference model remembers entries and product before the last effective change made with undo saving on.  After '
        'each history undo must succeed exactly when the model holds a saved state, restore exactly those entries and '
        'their product, and then fail; a failing undo must leave entries and product as they were.')
ASSUMES = ['P06 (get_full_unitary as a contract)', 'P07 for the product of the restored entries']


class Node:
    def __init__(self, q, saved):
        self.q, self.saved = q, saved


def undo(c, s):
    D, es = seq(s)
    ct.full_unitary(s)
    tm.MODPHASE[0] = True
    depth = 4 if os.environ.get('VERIF_TIER') == 'thorough' else 3
    site = s.site('UnitarySequence', 'undo')

    def snapshot(q):
        e = s.m(q, 'get_sequence_entries')
        return entries_key(s, e), piece_product(s, s.I.pieces(e), D), s.m(q, 'get_length')

    def apply(n, op, i):
        saves = not op.endswith('/u') and op not in ('product', 'undo')
        before = snapshot(n.q) if saves else None
        if op == 'undo':
            apply_op(s, n.q, op, i)
            return Node(n.q, None)
        apply_op(s, n.q, op, i)
        if saves and op.startswith('remove') and s.holds(cmp_eq(before[2], 0)) is True:
            saves = False
        return Node(n.q, before if saves else n.saved)

    def allowed(h):
        saved = False
        for a, b in zip(('',) + h, h):
            if b == 'undo':
                if not saved:
                    return False
                saved = False
            elif b == 'product' and a == 'product':
                return False
            elif b != 'product' and not b.endswith('/u'):
                saved = True
        return True

    def visit(h, o, n):
        name = ', '.join(h)
        c.guard(name, site, o, lambda o: observe(name, o, n))

    def observe(name, o, n):
        st = o.st
        here = snapshot(n.q) if n.saved is None else None
        for p in s.I.explore(lambda: s.m(n.q, 'undo'), st0=st.clone()):
            s.I.st = p.st
            if n.saved is None:
                if p.kind == 'ret':
                    c.true(f'{name}: undo without a saved state fails', site, p, False, 'undo returns')
                    continue
                same(name + ': failed undo', p, n.q, here)
                continue
            if p.kind != 'ret':
                c.true(f'{name}: undo succeeds', site, p, False, f'undo raises {p.v}')
                continue
            same(name + ': undo', p, n.q, n.saved)
            if len(name.split(',')) > 2:
                continue
            for r in s.I.explore(lambda: s.m(n.q, 'undo'), st0=p.st.clone()):
                s.I.st = r.st
                c.true(f'{name}: a second undo fails', site, r, r.kind != 'ret', 'undo returns twice')
                same(name + ': failed second undo', r, n.q, n.saved)

    def same(name, p, q, want):
        c.guard(name, site, p, lambda p: same_(name, p, q, want))

    def same_(name, p, q, want):
        s.I.st = p.st
        I = s.I
        c.eq(f'{name} gives the saved entries', site, p, entries_key(s, s.m(q, 'get_sequence_entries')), I.canon(want[0]))
        phase_eq(c, f'{name} gives the product of the saved entries', site, p, mat_of(s, s.m(q, 'product')),
                 I.canon(want[1]))

    Histories(c, s, apply, visit, depth, ok=allowed).run(lambda: Node(s.new('UnitarySequence', D, es), None))


PARTS = [undo]
