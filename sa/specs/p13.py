from .common import *
from .p06 import perm_contract
from .p12 import PD

RULE = ('The text of an operation over arbitrary name, parameters and qubits is computed once with and once without the '
        'inverse mark, directly, through the inverse method, through the full operation of a sequence entry and through a '
        'sequence: the two text terms must differ by a constant piece of text, and inverting twice must give the first '
        'text again.')
ASSUMES = ['P06 for the permutation matrix', 'P02: inverse flips the mark']

METHODS = ('get_display_name', 'get_qasm', 'get_jaqal')


def parts(t):
    return list(t.args) if isinstance(t, T) and t.op == 'cat' else [t]


def apart(a, b):
    '''True: some constant piece tells the texts apart; False: they are the same text; None: not known.'''
    if a is b or (isinstance(a, str) and a == b):
        return False
    x, y = parts(a), parts(b)
    while x and y and (x[0] is y[0] or x[0] == y[0]):
        x.pop(0), y.pop(0)
    while x and y and (x[-1] is y[-1] or x[-1] == y[-1]):
        x.pop(), y.pop()
    if all(isinstance(p, str) for p in x + y) and ''.join(x) != ''.join(y):
        return True
    return None


def judge(c, s, name, site, o, a, b):
    a, b = s.vt(a), s.vt(b)
    r = apart(a, b)
    if r is False and not opaque_in(a):
        c.true(name, site, o, False, f'both are shown as {c.short(a)}')
    elif r is True:
        c.ob(name, site, 'ok')
    else:
        c.ob(name, site, 'unknown', f'{c.short(a)} against {c.short(b)}')


def make(s, inv, empty):
    d, name = s.inp('d', 'int'), s.inp('name', 'str')
    s.pre(cmp_lt(0, d))
    q = s.I.new_list([]) if empty else s.listof('qubits', ('int',))
    return s.new('Unitary', d, s.inp('U', 'mat'), name, s.inp('params', *PD), inv, q)


def direct(c, s):
    for meth in METHODS:
        site = s.site('Unitary', meth)
        for empty in (True, False):
            where = 'without qubits' if empty else 'on listed qubits'

            def marked():
                return s.I.new_list([It(s.m(make(s, v, empty), meth)) for v in (False, True)])

            def ret(o, r):
                a, b = [p.v for p in s.I.pieces(r)]
                judge(c, s, f'Unitary.{meth}: an operation marked as inverse, {where}', site, o, a, b)
            c.run(f'{meth} marked {where}', site, marked, ret)

            def inverted():
                u = make(s, s.inp('inv', 'bool'), empty)
                v = s.m(u, 'inverse')
                return s.I.new_list([It(s.m(x, meth)) for x in (u, v, s.m(v, 'inverse'))])

            def ret2(o, r):
                a, b, d = [p.v for p in s.I.pieces(r)]
                judge(c, s, f'Unitary.{meth}: the inverse of an operation, {where}', site, o, a, b)
                c.eq(f'inverting twice shows the original in {meth}, {where}', site, o, d, a)
            c.run(f'{meth} inverted {where}', site, inverted, ret2)


def entries(c, s):
    perm_contract(s)
    tm.MODPHASE[0] = True
    D = s.inp('D', 'int')
    for what, site in (('entry', s.site('UnitarySequenceEntry', 'get_full_unitary')),
                       ('sequence', s.site('UnitarySequence', 'get_display_output'))):
        def thunk():
            s.pre(cmp_le(1, D))
            out = []
            for v in (False, True):
                e = s.new('UnitarySequenceEntry', make(s, v, True), s.listof('at', ('int',)))
                if what == 'entry':
                    out.append(s.m(s.m(e, 'get_full_unitary', D), 'get_display_name'))
                else:
                    q = s.new('UnitarySequence', D, s.I.new_list([It(e)]))
                    out.append(s.m(q, 'get_display_output'))
                    out.append(s.m(s.m(q, 'inverse'), 'get_display_output'))
            return s.I.new_list([It(x) for x in out])

        def ret(o, r):
            v = [p.v for p in s.I.pieces(r)]
            if what == 'entry':
                judge(c, s, 'display of the full operation of an entry', site, o, v[0], v[1])
            else:
                judge(c, s, 'display of a sequence holding an inverted operation', site, o, v[0], v[2])
                judge(c, s, 'display of an inverted sequence', site, o, v[0], v[1])
                c.eq('display of a sequence of inverses, inverted', site, o, v[3], v[0])
        c.run(what, site, thunk, ret)


PARTS = [direct, entries]
