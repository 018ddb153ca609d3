'''
Abstract heap, sequence algebra and program states of the value-flow analysis.
'''
from .terms import T, mk, sym, sub, add, mul, const_of, is_number, subst, symbols
from . import terms as tm

_k = [0]


class Ref:
    '''A heap reference.'''
    __slots__ = ('a',)
    _tab = {}

    def __new__(cls, a):
        r = cls._tab.get(a)
        if r is None:
            r = object.__new__(cls)
            r.a = a
            cls._tab[a] = r
        return r

    def __repr__(self):
        return f'@{self.a}'


# ---------------------------------------------------------------- callable / class values
class Cls:
    def __init__(self, name, module, node, bases, line=0):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.attrs = {}
        self.env = None
        self.members = []
        self.qual = name

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def is_enum(self):
        return any(isinstance(b, Ext) and b.name.startswith('enum.') for c in self.mro() for b in c.bases)

    def subclass_of(self, o):
        return o in self.mro()

    def __repr__(self):
        return f'<class {self.name}>'


class Func:
    def __init__(self, node, name, qual, module, env, defaults, kwdefaults, gen):
        self.node, self.name, self.qual, self.module = node, name, qual, module
        self.env, self.defaults, self.kwdefaults, self.gen = env, defaults, kwdefaults, gen
        self.kind = 'inst'
        self.cls = None

    def __repr__(self):
        return f'<func {self.qual}>'


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f'<bound {self.func.qual}>'


class Ext:
    '''A name outside the analysed package (library function, class or constant).'''
    _tab = {}

    def __new__(cls, name):
        r = cls._tab.get(name)
        if r is None:
            r = object.__new__(cls)
            r.name = name
            cls._tab[name] = r
        return r

    def __repr__(self):
        return f'<ext {self.name}>'


class Meth:
    '''A method of a built-in value.'''
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f'<meth {self.name}>'


class ModV:
    def __init__(self, name):
        self.name = name


class Lazy:
    '''An imported name, resolved at first use.'''
    def __init__(self, module, name):
        self.module, self.name = module, name


class Desc:
    '''staticmethod / classmethod / property wrapper found in a class body.'''
    def __init__(self, kind, func, setter=None):
        self.kind, self.func, self.setter = kind, func, setter


class OpaqueFn:
    '''A callable input about which nothing is known.'''
    def __init__(self, name):
        self.name = name


# ---------------------------------------------------------------- sequence pieces
class It:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'It({self.v})'


class For:
    '''Concatenation over k = 0 .. n-1 of the pieces ps (which mention k).'''
    __slots__ = ('k', 'n', 'ps')

    def __init__(self, k, n, ps):
        self.k, self.n, self.ps = k, n, ps

    def __repr__(self):
        return f'For({self.k}<{self.n}: {self.ps})'


class If:
    __slots__ = ('c', 'ps')

    def __init__(self, c, ps):
        self.c, self.ps = c, ps

    def __repr__(self):
        return f'If({self.c}: {self.ps})'


class Perm:
    '''The pieces ps in the random order d.'''
    __slots__ = ('d', 'ps')

    def __init__(self, d, ps):
        self.d, self.ps = d, ps

    def __repr__(self):
        return f'Perm({self.d}: {self.ps})'


class Mu:
    '''Unknown pieces (outside the vocabulary).'''
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'Mu({self.t})'


def fresh_idx():
    _k[0] += 1
    return mk('idx', _k[0], kind='int')


# ---------------------------------------------------------------- heap objects
class Obj:
    __slots__ = ('ext', 'own')
    kind = ''

    def _base(self, o):
        o.ext, o.own = self.ext, self.own
        return o


class Inst(Obj):
    __slots__ = ('cls', 'f')
    kind = 'inst'

    def __init__(self, cls, f=None):
        self.cls, self.f = cls, ({} if f is None else f)

    def clone(self):
        return self._base(Inst(self.cls, dict(self.f)))

    def __repr__(self):
        return f'Inst({self.cls.name if hasattr(self.cls, "name") else self.cls})'


class ListO(Obj):
    __slots__ = ('ps', 'arr', 'npk')
    kind = 'list'

    def __init__(self, ps, arr=False):
        self.ps, self.arr = ps, arr

    def clone(self):
        return self._base(ListO(list(self.ps), self.arr))

    def __repr__(self):
        return f'List{self.ps}'


class DictO(Obj):
    '''ps: pieces whose items are (key, value) pairs.'''
    __slots__ = ('ps',)
    kind = 'dict'

    def __init__(self, ps):
        self.ps = ps

    def clone(self):
        return self._base(DictO(list(self.ps)))


class SetO(Obj):
    __slots__ = ('ps',)
    kind = 'set'

    def __init__(self, ps):
        self.ps = ps

    def clone(self):
        return self._base(SetO(list(self.ps)))


class MatO(Obj):
    __slots__ = ('m', 'base')
    kind = 'mat'

    def __init__(self, m, base=None):
        self.m, self.base = m, base

    def clone(self):
        return self._base(MatO(self.m, self.base))


class EnvO(Obj):
    __slots__ = ('v', 'parent', 'role', 'globals', 'nonlocals', 'module', 'func')
    kind = 'env'

    def __init__(self, parent, role, module, func=None):
        self.v, self.parent, self.role, self.module, self.func = {}, parent, role, module, func
        self.globals, self.nonlocals = (), ()

    def clone(self):
        o = EnvO(self.parent, self.role, self.module, self.func)
        o.v = dict(self.v)
        o.globals, o.nonlocals = self.globals, self.nonlocals
        return self._base(o)


class Ev:
    __slots__ = ('kind', 'loc', 'd')

    def __init__(self, kind, loc, **d):
        self.kind, self.loc, self.d = kind, loc, d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f'Ev({self.kind} {self.loc} {self.d})'


class State:
    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.eqs = {}
        self.events = []
        self.cnt = {}
        self.matz = {}
        self.ctx = ()
        self.dec, self.arity, self.pos = [], [], 0
        self.assume = 0
        self.label = None
        self.ownpath = ()
        self.fork = 0
        self.lineage = None     # the exploration whose partition this is
        self.first = 0

    def clone(self):
        s = State()
        s.heap = {a: o.clone() for a, o in self.heap.items()}
        s.facts = dict(self.facts)
        s.eqs = dict(self.eqs)
        s.events = list(self.events)
        s.cnt = dict(self.cnt)
        s.matz = dict(self.matz)
        s.ctx = self.ctx
        s.assume = self.assume
        s.label = self.label
        s.fork = self.fork
        return s

    def count(self, what):
        self.cnt[what] = self.cnt.get(what, 0) + 1
        return self.cnt[what]


class TargetRaise(Exception):
    def __init__(self, etype, loc, msg=''):
        self.etype, self.loc, self.msg = etype, loc, msg
        self.cond = None                # the condition that failed, where it is known


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class Out:
    '''One explored path: kind ret|raise|break|cont|return|unsup, value and end state.'''
    def __init__(self, kind, v, st):
        self.kind, self.v, self.st = kind, v, st

    def __repr__(self):
        return f'Out({self.kind},{self.v})'
