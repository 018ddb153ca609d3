'''Shared pieces of the property specifications.'''
from .. import terms as tm
from ..terms import T, mk, sym, cmp_le, cmp_lt, cmp_eq, lnot, land, lor, subterms, mmul, dagger, kron, strip_phase, show
from ..dom import Ref, It, For, If, Perm, Mu, fresh_idx
from ..session import opaque_in, opaque_path
from ..interp import TYPES


def mat_of(s, v):
    '''The matrix term of a Unitary or of an array value.'''
    o = s.I.o(v)
    if o is not None and o.kind == 'inst':
        v = s.m(v, 'get_matrix')
    return s.I.canon(s.vt(v))


def field(s, obj, name):
    return s.vt(s.get(obj, name))


def phase_eq(c, name, site, o, got, want):
    '''Equality of matrices up to a global phase.'''
    s = c.s
    g, w = nodet(strip_phase(s.I.canon(got))), nodet(strip_phase(s.I.canon(want)))
    return c.eq(name, site, o, g, w)


def nodet(m):
    '''Drops determinant powers in front of a word: they balance the phase of a matrix accepted as unitary.'''
    if not tm.is_mat(m):
        return m
    d = tm.to_mat(m)
    if len(d) != 1:
        return m
    (w, k), = d.items()
    if not isinstance(k, T) or not tm.is_number(k):
        return m
    p = tm.to_poly(k)
    if len(p) != 1:
        return m
    (mo, q), = p.items()
    keep = tuple((a, e) for a, e in mo if not (a.op == 'det' or any(y.op == 'det' for y in subterms(a))))
    kk = tm.from_poly({keep: q})
    if tm.const_of(tm.absval(kk)) == 1:
        kk = 1
    return tm.from_mat({w: kk})


def class_of(s, v):
    o = s.I.o(v)
    return o.cls.name if o is not None and o.kind == 'inst' and hasattr(o.cls, 'name') else None


def is_a(s, v, name):
    o = s.I.o(v)
    return o is not None and o.kind == 'inst' and o.cls.subclass_of(s.cls(name))


def mentions(f, t):
    return isinstance(f, T) and (f is t or t in subterms(f))


# ---------------------------------------------------------------- sequences
def entry_key(s, e):
    '''What an entry is: the operation (matrix, name, parameters, inverse mark) and the qubits it acts on.'''
    u = s.get(e, 'unitary')
    return (s.m(u, 'get_matrix'), s.m(u, 'get_operation_name'), s.get(u, 'parameter_dict'),
            s.get(u, 'is_inverse'), s.m(e, 'get_apply_to'))


def entries_key(s, lst):
    return s.vt(s.I.new_list(s.I.map_pieces(s.I.pieces(lst), lambda e: entry_key(s, e))))


def piece_product(s, ps, D):
    '''The product of entries given as pieces, the first acting first.'''
    I = s.I
    D = I.canon(D)
    m = tm.ident(D)

    def emb(e):
        u = s.get(e, 'unitary')
        w = tm.embed(I.canon(s.vt(s.m(u, 'get_matrix'))), I.canon(s.vt(s.m(e, 'get_apply_to'))), D)
        from .. import contracts
        contracts.mark_unitary(w)
        return w
    for p in ps:
        if isinstance(p, It):
            m = mmul(emb(p.v), m)
        elif isinstance(p, For):
            inner = piece_product(s, p.ps, D)
            m = mmul(tm.prodmat(0, p.n, p.k, inner), m)
        else:
            raise ValueError(f'piece {p!r}')
    return m
