'''Constant arrays: where every operand of a NumPy call is a known constant, the array it gives is a constant too.

Only used by parts that ask for it (override 'fold'): constant propagation through index arithmetic such as the
construction of a permutation matrix.  Anything that is not a constant leaves this domain.'''
import operator
import sys
from fractions import Fraction as Fr

from .dom import Cls, Ext, It, Meth, Obj, Ref, TargetRaise, Unsupported
from .terms import T, const_of
from . import terms as tm

LIMIT = 4096


class NotConst(Exception):
    pass


def numpy():
    try:
        import numpy as np
    except ImportError:
        sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
        try:
            import numpy as np
        except ImportError:
            raise NotConst('no numpy')
    return np


class KArr(Obj):
    __slots__ = ('a', 'view')       # view: shares its memory with another array
    kind = 'karr'

    def __init__(self, a, view=False):
        self.a, self.view = a, view

    def clone(self):
        return self._base(KArr(self.a, self.view))


def on(I):
    return I.overrides.get('fold')


def plain(x):
    '''A constant of the engine as a Python number.'''
    if isinstance(x, Fr):
        return int(x) if x.denominator == 1 else float(x)
    return x


def const(I, v):
    if v is None or isinstance(v, (bool, int, float, complex, str)):
        return v
    if isinstance(v, Fr):
        return plain(v)
    if isinstance(v, slice):
        return slice(*(const(I, x) for x in (v.start, v.stop, v.step)))
    if isinstance(v, tuple):
        return tuple(const(I, x) for x in v)
    if isinstance(v, T):
        v = I.scalar(I.canon(v))
        c = const_of(v) if isinstance(v, T) else v
        if c is None or isinstance(c, T):
            w = I.mat(v) if isinstance(v, T) else v
            if isinstance(w, Ref):
                return const(I, w)
            raise NotConst(str(v)[:60])
        return plain(c)
    if isinstance(v, Ext):
        n = v.name.split('.')[-1]
        if v.name.startswith('builtins.') and n in ('int', 'float', 'bool', 'complex'):
            return {'int': int, 'float': float, 'bool': bool, 'complex': complex}[n]
        if v.name.startswith('numpy.') and hasattr(numpy(), n):
            return getattr(numpy(), n)
        raise NotConst(v.name)
    if isinstance(v, Ref):
        o = I.obj(v)
        if o.kind == 'karr':
            return o.a
        if o.kind == 'list':
            if not all(isinstance(p, It) for p in o.ps):
                raise NotConst('list')
            xs = [const(I, p.v) for p in o.ps]
            return numpy().array(xs) if o.arr else xs
        if o.kind == 'mat':
            return dense(I, o.m)
    raise NotConst(type(v).__name__)


def dense(I, m):
    np = numpy()
    m = I.canon(m)
    out = None
    for w, k in tm.to_mat(m).items():
        k = const_of(k)
        if k is None:
            raise NotConst('coefficient')
        x = None
        for a in w:
            tr = False
            while a.op == 'dec':
                tr ^= bool(a.args[1])
                if a.args[0].op == 'dec' or a.args[0].op in ('lit', 'ident'):
                    a = a.args[0]
                else:
                    raise NotConst(a.args[0].op)
            if a.op == 'ident':
                n = const_of(a.args[0])
                if n is None or n > 64:
                    raise NotConst('identity')
                y = np.eye(int(n))
            elif a.op == 'lit':
                rows = [[const_of(x) for x in r] for r in a.args[0]]
                if any(x is None for r in rows for x in r):
                    raise NotConst('entry')
                y = np.array([[plain(x) for x in r] for r in rows])
            else:
                raise NotConst(a.op)
            y = y.T if tr else y
            x = y if x is None else x @ y
        x = x * plain(k)
        out = x if out is None else out + x
    if out is None:
        raise NotConst('empty')
    return out


def wrap(I, x, of=None):
    np = numpy()
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return wrap(I, x.item())
        if x.size > LIMIT:
            raise NotConst('size')
        view = of is not None and np.shares_memory(x, of.a)
        if view:
            of.view = True
        return I.ref(KArr(x, view))
    if isinstance(x, np.generic):
        return wrap(I, x.item())
    if x is None or isinstance(x, (bool, int, float, complex, str)):
        return x
    if isinstance(x, tuple):
        return tuple(wrap(I, y) for y in x)
    if isinstance(x, list):
        return I.new_list([It(wrap(I, y)) for y in x])
    raise NotConst(type(x).__name__)


def scalar(I, v):
    '''An array of one number where a number is needed.'''
    o = I.o(v, 'karr') if isinstance(v, Ref) else None
    if o is not None and o.a.size == 1:
        return wrap(I, o.a.item())
    return v


def to_mat(I, o):
    '''The array as a matrix of the engine.'''
    from . import lib
    if o.a.ndim != 2:
        raise Unsupported('not a matrix')
    return lib.lit(tuple(tuple(x for x in r) for r in o.a.tolist()))


def arrays(I, vs):
    return any(isinstance(v, Ref) and (I.obj(v).kind in ('karr', 'list')) or isinstance(v, tuple) for v in vs)


FRESH = {'arange', 'ones', 'zeros', 'full', 'empty'}
LEAVE = {'max', 'min', 'amax', 'amin', 'identity', 'eye', 'kron', 'allclose', 'isclose', 'random'}


def call(I, name, args, kw):
    '''A NumPy or SciPy function on constants; NotConst when it is not one.'''
    n = name.split('.')
    if n[0] == 'scipy' and len(n) == 3 and n[1] == 'sparse':
        return sparse(I, n[2], args, kw)
    if n[0] == 'builtins' and len(n) == 2 and n[1] in ('len', 'sum', 'int', 'float', 'bool', 'any', 'all', 'abs',
                                                      'max', 'min'):
        if len(args) == 1 and isinstance(args[0], Ref) and I.obj(args[0]).kind == 'karr' and not kw:
            a = I.obj(args[0]).a
            if n[1] in ('int', 'float', 'bool') and a.size != 1:
                raise TargetRaise('TypeError', I.loc(), 'array of several')
            import builtins
            return wrap(I, getattr(builtins, n[1])(a))
        raise NotConst(name)
    if name in ('builtins.tuple', 'builtins.list') and len(args) == 1 and is_karr(I, args[0]):
        xs = [wrap(I, x, I.obj(args[0])) for x in I.obj(args[0]).a]
        return tuple(xs) if name == 'builtins.tuple' else I.new_list([It(x) for x in xs])
    if n[0] != 'numpy' or len(n) != 2 or n[1] in ('linalg',):
        raise NotConst(name)
    vs = list(args) + list(kw.values())
    if n[1] in LEAVE and not any(isinstance(v, Ref) and I.obj(v).kind == 'karr' for v in vs):
        raise NotConst(name)
    if n[1] not in FRESH and not arrays(I, vs):
        raise NotConst(name)
    f = getattr(numpy(), n[1], None)
    if f is None or not callable(f):
        raise NotConst(name)
    a = [const(I, v) for v in args]
    k = {x: const(I, v) for x, v in kw.items()}
    if 'out' in k:
        raise NotConst('out')
    return wrap(I, run(I, f, a, k))


def run(I, f, a, k):
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return f(*a, **k)
    except (TypeError, ValueError, IndexError, ZeroDivisionError, AssertionError) as e:
        raise TargetRaise(type(e).__name__ if type(e).__name__ in ('TypeError', 'ValueError', 'IndexError')
                          else 'ValueError', I.loc(), str(e)[:80])


def sparse(I, cls, args, kw):
    from . import lib
    if not (cls.endswith('_matrix') or cls.endswith('_array')) or len(args) < 1:
        raise NotConst(cls)
    np = numpy()
    a = args[0]
    if isinstance(a, Ref) and I.obj(a).kind == 'karr':
        return I.new_mat(to_mat(I, I.obj(a)), 'sparse')
    a = const(I, a)
    shape = kw.get('shape', args[1] if len(args) > 1 else None)
    shape = const(I, shape) if shape is not None else None
    if not (isinstance(a, tuple) and len(a) in (2, 3)):
        raise NotConst('form')
    if len(a) == 2 and isinstance(a[1], tuple) and len(a[1]) == 2:
        data, (r, c) = np.asarray(a[0]), [np.asarray(x).ravel() for x in a[1]]
        data = data.ravel()
        if shape is None:
            shape = (int(r.max()) + 1, int(c.max()) + 1)
        out = np.zeros(shape, dtype=data.dtype)
        np.add.at(out, (r, c), data)
    elif len(a) == 3 and cls.startswith(('csr', 'csc')):
        data, idx, ptr = [np.asarray(x).ravel() for x in a]
        if shape is None:
            raise NotConst('shape')
        out = np.zeros(shape if cls.startswith('csr') else shape[::-1], dtype=data.dtype)
        for i in range(len(ptr) - 1):
            for j in range(int(ptr[i]), int(ptr[i + 1])):
                out[i, int(idx[j])] += data[j]
        if cls.startswith('csc'):
            out = out.T
    else:
        raise NotConst('form')
    return I.new_mat(lib.lit(tuple(tuple(r) for r in out.tolist())), 'sparse')


def attr(I, o, name):
    a = I.obj(o).a
    if name == 'T':
        return wrap(I, a.T, I.obj(o))
    if name in ('shape', 'ndim', 'size'):
        return wrap(I, getattr(a, name))
    if name in ('real', 'imag', 'flat'):
        return wrap(I, np_array(getattr(a, name)))
    if name == 'dtype':
        raise Unsupported('dtype of an array')
    return Meth(o, name)


def np_array(x):
    return numpy().array(x)


PURE = {'take', 'reshape', 'ravel', 'flatten', 'transpose', 'tolist', 'copy', 'astype', 'sum', 'prod', 'cumsum', 'cumprod',
        'max', 'min', 'argmax', 'argmin', 'argsort', 'dot', 'all', 'any', 'item', 'repeat', 'squeeze', 'nonzero',
        'searchsorted', 'swapaxes', 'round', 'mean', 'diagonal', 'trace', 'conj', 'conjugate', 'clip', 'compress', 'choose'}


def method(I, o, name, args, kw):
    ob = I.obj(o)
    if name not in PURE:
        if name == 'sort' and not ob.view and not args:
            a = ob.a.copy()
            run(I, a.sort, [], {k: const(I, v) for k, v in kw.items()})
            I.wrote(o, name)
            I.obj(o).a = a
            return None
        if name == 'fill' and not ob.view:
            a = ob.a.copy()
            a.fill(const(I, args[0]))
            I.wrote(o, name)
            I.obj(o).a = a
            return None
        raise Unsupported('array method ' + name)
    try:
        r = run(I, getattr(ob.a, name), [const(I, v) for v in args], {k: const(I, v) for k, v in kw.items()})
        return wrap(I, r, ob)
    except NotConst as e:
        raise Unsupported(f'array method {name} on {e}')


OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
       '%': operator.mod, '**': operator.pow, '@': operator.matmul, '&': operator.and_, '|': operator.or_,
       '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift, '==': operator.eq, '!=': operator.ne,
       '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def is_karr(I, v):
    return isinstance(v, Ref) and I.obj(v).kind == 'karr'


def binop(I, op, a, b):
    '''The result on constants, or the operands as matrices of the engine.'''
    f = OPS.get(op)
    if f is None:
        raise Unsupported('array operator ' + op)
    sp = [isinstance(v, Ref) and I.obj(v).kind == 'mat' and I.obj(v).base == 'sparse' for v in (a, b)]
    if not any(sp):
        try:
            return wrap(I, run(I, f, [const(I, a), const(I, b)], {}))
        except NotConst:
            pass
    return None


def as_matrix(I, v):
    return I.new_mat(to_mat(I, I.obj(v))) if is_karr(I, v) else v


def getitem(I, o, i):
    try:
        return wrap(I, run(I, operator.getitem, [I.obj(o).a, const(I, i)], {}), I.obj(o))
    except NotConst as e:
        raise Unsupported(f'array index {e}')


def setitem(I, o, i, v):
    ob = I.obj(o)
    if ob.view:
        raise Unsupported('write through a view')
    try:
        a, i, v = ob.a.copy(), const(I, i), const(I, v)
    except NotConst as e:
        raise Unsupported(f'array write {e}')
    run(I, operator.setitem, [a, i, v], {})
    I.wrote(o, 'item')
    I.obj(o).a = a


def pieces(I, o):
    return [It(wrap(I, x, o)) for x in o.a]


def inplace(I, op, cur, v):
    ob = I.obj(cur)
    r = binop(I, op, cur, v)
    if r is None or not is_karr(I, r) or I.obj(r).a.shape != ob.a.shape:
        raise Unsupported("in-place operator")
    if ob.view:
        raise Unsupported('write through a view')
    I.wrote(cur, 'inplace')
    I.obj(cur).a = I.obj(r).a.astype(ob.a.dtype)
    return cur
