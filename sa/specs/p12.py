from .common import *
from .. import contracts as ct
from .p09 import fits

RULE = ('QASM, JAQAL and display text of an operation over arbitrary name, parameters, qubits and inverse mark, and of a '
        'sequence over an arbitrary entry list, are compared as text terms (constant pieces, formatted values, joins over '
        'all parameters, qubits or entries) with reference renderings that the same interpreter reads on the same path; '
        'entries must keep qubits as plain integers even when given NumPy integers.')
ASSUMES = ['round and str render numbers as Python documents', 'operation names and parameter names are strings',
           'P06: the full operation of an entry keeps name, parameters, inverse mark and qubits (used as a contract)']

REF = '''
import numpy as np


def qasm_line(name, pd, qubits):
    args = ["pi*" + str(round(v[0] / np.pi, 7)) if v[1] else str(round(v[0], 7)) for v in pd.values()]
    text = name
    if len(pd) > 0:
        text = text + "(" + ",".join(args) + ")"
    return text + "\\t" + ",".join(["q[" + str(q) + "]" for q in qubits]) + ";"


def jaqal_line(name, pd, qubits):
    text = name + " " + " ".join(["q[" + str(q) + "]" for q in qubits]) + " "
    if len(pd) > 0:
        text = text + " ".join([str(round(v[0], 7)) for v in pd.values()])
    return text


def display_line(name, pd, qubits, inverse):
    text = name
    if len(qubits) > 0:
        text = text + str(qubits)
    if len(pd) > 0:
        text = text + "(" + ", ".join([k + "=" + (str(round(v[0] / np.pi, 3)) + "\u03c0" if v[1]
                                                  else str(round(v[0], 4))) for k, v in pd.items()]) + ")"
    if inverse:
        text = text + "\u2020"
    return text


def qubits_of(q, n):
    if len(q) == 0:
        return list(range(n))
    return q


def qasm_text(head, entries):
    return head + "\\n" + "\\n".join([qasm_line(e.unitary.get_operation_name(), e.unitary.parameter_dict,
                                                e.get_apply_to()) for e in entries])


def jaqal_text(head, entries):
    return head + "\\n" + "\\n".join([jaqal_line(e.unitary.get_operation_name(), e.unitary.parameter_dict,
                                                 e.get_apply_to()) for e in entries])


def display_text(head, entries):
    return head + "\\n" + "\\n".join([display_line(e.unitary.get_operation_name(), e.unitary.parameter_dict,
                                                   e.get_apply_to(), e.unitary.is_inverse) for e in entries])
'''

PD = ('dict', ('str',), ('tuple', (('float',), ('bool',))))


def unit(s, tag=''):
    d, name, inv = s.inp('d' + tag, 'int'), s.inp('name' + tag, 'str'), s.inp('inv' + tag, 'bool')
    pd, q = s.inp('params' + tag, *PD), s.listof('qubits' + tag, ('int',))
    s.pre(cmp_lt(0, d))
    return s.new('Unitary', d, s.inp('U' + tag, 'mat'), name, pd, inv, q), d, name, pd, inv, q


def lines(c, s):
    ref = s.oracle('text', REF)
    for meth, kind in (('get_qasm', 'qasm'), ('get_jaqal', 'jaqal'), ('get_display_name', 'display')):
        site = s.site('Unitary', meth)

        def thunk():
            u = unit(s)
            s.I.st.cnt['u'] = u
            return s.m(u[0], meth)

        def ret(o, r):
            u, d, name, pd, inv, q = o.st.cnt['u']
            if kind == 'display':
                w = ref('display_line', name, s.I.mat(pd), s.I.mat(q), inv)
            else:
                qs = ref('qubits_of', s.I.mat(q), tm.to_int(tm.log2(d)))
                w = ref(kind + '_line', name, s.I.mat(pd), qs)
            c.eq(f'{meth}: name, parameters and qubits', site, o, r, w)
        c.run(meth, site, thunk, ret)


def sequences(c, s):
    ref = s.oracle('text', REF)
    ct.full_unitary(s)
    tm.MODPHASE[0] = True
    D, es = s.inp('D', 'int'), s.listof('entries', 'UnitarySequenceEntry')
    for meth, kind in (('get_qasm', 'qasm'), ('get_jaqal', 'jaqal'), ('get_display_output', 'display')):
        site = s.site('UnitarySequence', meth)

        def thunk():
            q = s.new('UnitarySequence', D, es)
            s.I.st.cnt['q'] = q
            return s.m(q, meth)

        def ret(o, r):
            q = o.st.cnt['q']
            head, got = split_header(r)
            if head is None and opaque_in(s.vt(r)):
                c.ob(f'{meth}: one line per entry, in order', site, 'unknown', f'text is {c.short(s.vt(r))}')
                return
            c.true(f'{meth}: starts with a header of exactly one line', site, o, head is not None,
                   f'text is {c.short(s.vt(r))}')
            if head is not None:
                want = ref(kind + '_text', head, s.m(q, 'get_sequence_entries'))
                c.eq(f'{meth}: one line per entry, in order', site, o, s.vt(got), want)
        c.run('sequence ' + meth, site, thunk, ret)


def split_header(r):
    '''The constant first line of a text term.  A text that is joined from a list starting with that line is the line, a
    line break and the rest joined (for an empty sequence, the line alone is as good as the line and a line break).'''
    if isinstance(r, T) and r.op == 'join' and r.args[0] == '\n' and isinstance(r.args[1], T) and r.args[1].op == 'list':
        its = r.args[1].args
        if its and isinstance(its[0], T) and its[0].op == 'it' and isinstance(its[0].args[0], str) and \
                its[0].args[0] and '\n' not in its[0].args[0]:
            h = its[0].args[0]
            return h, tm.cat(h + '\n', tm.join('\n', mk('list', *its[1:], kind=r.args[1].kind)))
    if isinstance(r, str) and r and '\n' not in r:
        return r, r + '\n'
    if isinstance(r, T) and r.op == 'cat' and isinstance(r.args[0], str) and '\n' in r.args[0]:
        h = r.args[0]
        if h.count('\n') == 1 and h.endswith('\n') and len(h) > 1:
            return h[:-1], r
    if isinstance(r, str) and r.count('\n') == 1 and r.endswith('\n') and len(r) > 1:
        return r[:-1], r
    return None, r


def plain(c, s):
    '''Entries hold plain integers whatever integers they are given.'''
    site = s.site('UnitarySequenceEntry', '__init__')
    u = s.I.generic(sym('in:unitary'), ('cls', s.cls('Unitary')))
    a = s.listof('qubits', ('int',))

    def thunk():
        k = fresh_idx()
        arr = s.I.new_list([For(k, mk('len', a, kind='int'), [It(mk('npelem', a, k, kind='int'))])], True)
        return s.new('UnitarySequenceEntry', u, arr)

    def ret(o, r):
        got = s.vt(s.m(r, 'get_apply_to'))
        c.true('entry: qubits are kept as plain integers', site, o,
               not any(x.op == 'npelem' for x in subterms(got)), f'qubits are {c.short(got)}')
        lst = s.I.o(s.m(r, 'get_apply_to'))
        c.true('entry: qubits are kept as a plain list', site, o, lst is not None and lst.kind == 'list' and not lst.arr,
               f'qubits are {lst!r}')
        c.eq('entry: qubits are kept in order', site, o, got, s.vt(s.I.mat(a)))
    c.run('entry', site, thunk, ret)


def valid(c, s):
    '''Every operation and every sequence has a text.'''
    u, D = s.inp('u', 'cls', 'Unitary'), s.inp('D', 'int')
    ct.full_unitary(s)
    tm.MODPHASE[0] = True
    for m in ('get_qasm', 'get_jaqal', 'get_display_name'):
        def one(m=m):
            s.pre(cmp_le(1, s.m(s.I.mat(u), 'get_dimension')))
            return s.m(u, m)
        c.accepts(f'{m}: every operation has a text', s.site('Unitary', m), one)
    es = [s.inp(f'x{i}', 'cls', 'UnitarySequenceEntry') for i in range(2)]
    for m in ('get_qasm', 'get_jaqal', 'get_display_output'):
        for n in range(3):
            def thunk(m=m, n=n):
                s.pre(cmp_le(1, D))
                for e in es[:n]:
                    fits(s, e, D)
                return s.m(s.new('UnitarySequence', D, s.I.new_list([It(e) for e in es[:n]])), m)
            c.accepts(f'{m}: every sequence has a text, {n} entries', s.site('UnitarySequence', m), thunk)


PARTS = [lines, sequences, plain, valid]
