'''
One analysed program: entry points for the property specifications.
'''
import sys

from . import terms as tm
from .terms import T, mk, sym, cmp_le, cmp_lt, cmp_eq, lnot, land, lor, subterms, show
from .dom import Cls, Func, Desc, Bound, Ref, Unsupported, TargetRaise, It, For, If, Perm, Mu, fresh_idx
from .interp import Interp, Program, TYPES

sys.setrecursionlimit(20000)

UNKNOWN_EVENTS = ('opaque_write',)


class AnchorGone(Exception):
    pass


class S:
    def __init__(self, root='/repo', pkg='stoqcompiler'):
        self.P = Program(root, pkg)
        self.I = Interp(self.P)

    # ---------------------------------------------------------- names
    def cls(self, name):
        c = self.I.classes.get(name)
        if c is None:
            raise AnchorGone(f'class {name}')
        return c

    def has(self, cls, name):
        return self.I.classes.get(cls) is not None and self.cls(cls).find(name) is not None

    def func(self, cls, name):
        v = self.cls(cls).find(name)
        if isinstance(v, Desc):
            v = v.func
        if not isinstance(v, Func):
            raise AnchorGone(f'{cls}.{name}')
        return v

    def site(self, cls, name):
        f = self.func(cls, name)
        return f'{self.file(f.module)}:{f.node.lineno} {f.qual}'

    def file(self, module):
        p = getattr(self.P, 'files', {}).get(module)
        return p or module.replace('.', '/') + '.py'

    # ---------------------------------------------------------- oracle programs
    def oracle(self, name, src):
        '''Loads reference functions, read by the same interpreter; returns a caller of them.'''
        import ast
        mod = '_oracle_' + name
        if mod not in self.I.modenv:
            self.P.trees[mod] = ast.parse(src)
            save, self.I.st = self.I.st, self.I.base
            self.I.st.label = 'global'
            try:
                self.I.load(mod)
            finally:
                self.I.st.label = None
                self.I.st = save
        env = self.I.modenv[mod]

        def call(fn, *a, **kw):
            return self.I.call_func(self.I.base.heap[env].v[fn], list(a), kw)
        return call

    # ---------------------------------------------------------- building
    def new(self, cls, *a, **kw):
        return self.I.instantiate(self.cls(cls), list(a), kw)

    def call(self, cls, name, *a, **kw):
        '''Static or class method.'''
        v = self.cls(cls).find(name)
        if isinstance(v, Desc):
            if v.kind == 'classmethod':
                return self.I.call_func(v.func, [self.cls(cls)] + list(a), kw)
            return self.I.call_func(v.func, list(a), kw)
        if isinstance(v, Func):
            return self.I.call_func(v, list(a), kw)
        raise AnchorGone(f'{cls}.{name}')

    def m(self, obj, name, *a, **kw):
        f = self.I.getattr(obj, name)
        return self.I.call(f, list(a), kw)

    def get(self, obj, name):
        return self.I.getattr(obj, name)

    def inp(self, name, *ty):
        '''Generic input.'''
        if ty and isinstance(ty[0], str) and ty[0] in ('cls',) and isinstance(ty[1], str):
            ty = ('cls', self.cls(ty[1]))
        return self.I.generic(sym('in:' + name), ty or ('any',))

    def ty(self, t):
        '''Type descriptor with class names resolved.'''
        if isinstance(t, str):
            return ('cls', self.cls(t))
        if t[0] in ('list', 'opt'):
            return (t[0], self.ty(t[1]))
        if t[0] == 'dict':
            return ('dict', self.ty(t[1]), self.ty(t[2]))
        return t

    def listof(self, name, elem):
        return self.I.generic(sym('in:' + name), ('list', self.ty(elem)))

    def pre(self, b):
        self.I.add_fact(b, 'pre')

    # ---------------------------------------------------------- running
    def outs(self, thunk, st0=None):
        self.I.st = st0 or self.I.base
        outs = self.I.explore(thunk)
        for o in outs:
            self.I.st = o.st
            self.I.st.assume = 0
            yield o
        self.I.st = self.I.base

    def holds(self, c):
        return self.I.entails(c)

    def vt(self, v):
        return self.I.vt(v)


def opaque_in(x):
    return isinstance(x, T) and any(y.op in OPAQUE for y in subterms(x))


OPAQUE = {'anyclose', 'anymask', 'allmask', 'unk', 'mu', 'call', 'mup', 'deep', 'cleaned', 'map', 'slice', 'truth', 'sentinel', 'rev', 'nth'}


def opaque_path(o):
    '''Why nothing definite can be said about this path, or None.'''
    for e in o.st.events:
        if e.kind in UNKNOWN_EVENTS:
            return f'{e.kind} at {e.loc}'
    for f in o.st.facts:
        if opaque_in(f):
            return f'path condition outside the vocabulary: {show(f, 14)[:420]}'
    ends = {}
    for f in o.st.facts:
        if isinstance(f, T):
            for y in subterms(f):
                if y.op == 'affix':
                    ends.setdefault(y.args[1], set()).add(y)
                elif y.op == 'eq':
                    for a in y.args:
                        ends.setdefault(a, set()).add(y)
    for x, ys in ends.items():
        if len(ys) > 1 and any(y.op == 'affix' for y in ys):
            return f'several conditions on the text {show(x, 4)}'
    return None


def dig(outs):
    return list(outs)
