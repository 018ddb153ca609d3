'''Every public operation of the package on arbitrary arguments of the documented types; shared by P11 and P21.'''
import ast

from .common import *
from .. import contracts as ct
from ..dom import Func, Desc, Cls, Unsupported, TargetRaise

SWEEP_ASSUMES = ['every public operation is analysed with arbitrary arguments of the annotated types; P06 for a gate on its '
                 'qubits, P07-P10 for sequences, P17 and P19 for generated entries, P14-P16 for compilations where they are '
                 'used by other operations']


class Op:
    def __init__(self, s, cls, name, kind, func):
        self.s, self.cls, self.name, self.kind, self.func = s, cls, name, kind, func
        self.what = cls.name if name == '__init__' else f'{cls.name}.{name}'
        self.site = s.site(cls.name, name)

    def params(self):
        '''(name, type, default present) of the parameters without the receiver.'''
        a = self.func.node.args
        ps = a.posonlyargs + a.args
        if self.kind in ('method', 'class', 'init'):
            ps = ps[1:]
        n = len(a.defaults)
        out = []
        for i, p in enumerate(ps):
            out.append((p.arg, self.s.I.ann(p.annotation, self.func.module), i >= len(ps) - n))
        for p in a.kwonlyargs:
            out.append((p.arg, self.s.I.ann(p.annotation, self.func.module), True))
        return out

    def vararg(self):
        a = self.func.node.args.vararg
        return None if a is None else (a.arg, self.s.I.ann(a.annotation, self.func.module))

    def contracts(self):
        s, n = self.s, self.cls.name
        tm.MODPHASE[0] = False
        if n in ('UnitarySequence', 'Compiler', 'Hamiltonian', 'Verification'):
            tm.MODPHASE[0] = True
            ct.full_unitary(s)
        if n in ('Hamiltonian', 'Verification') or self.name in ('compile', 'compile_layered'):
            ct.sequences(s)
            ct.generated(s)
        if n in ('Hamiltonian', 'Verification'):
            ct.compiled(s)

    def call(self, tag='in:', every=True):
        '''Calls the operation; returns (receiver, arguments by name, result).'''
        s, I = self.s, self.s.I
        me, args = self.given(tag, every)
        return self.apply(me, args)

    def given(self, tag='in:', every=True):
        s, I = self.s, self.s.I
        I.overrides['bare'] = not every
        me = None
        if self.kind == 'method':
            me = I.mat(I.generic(sym(tag + 'self'), ('cls', self.cls)))
        args = {}
        for n, ty, dflt in self.params():
            if dflt and not every:
                continue
            if ty[0] == 'opt':
                ty = ty[1]
            if ty[0] == 'any' and n == 'self':
                continue
            nm = sym(tag + n)
            if ty[0] == 'mat':
                nm = sym(tag + n, 'any')
            args[n] = I.mat(I.generic(nm, ty))
        return me, args

    def apply(self, me, args):
        s, I = self.s, self.s.I
        va = self.vararg()
        extra = []
        if va:
            extra = [I.mat(I.generic(sym(f'in:{va[0]}{i}'), va[1])) for i in range(2)]
            if self.name == 'combine':
                s.pre(cmp_eq(s.m(extra[0], 'get_dimension'), s.m(extra[1], 'get_dimension')))
        if self.kind == 'init':
            r = I.instantiate(self.cls, extra, args)
        elif self.kind == 'method':
            r = I.call(I.getattr(me, self.name), extra, args)
        else:
            r = s.call(self.cls.name, self.name, *extra, **args)
        for i, x in enumerate(extra):
            args = {**args, f'*{i}': x}
        return me, args, r


def optional_parts(op):
    '''Whether the operation works on objects that have optional parts: primitives with or without allowed qubit lists.'''
    def mentions(ty):
        return isinstance(ty, tuple) and (
            len(ty) > 1 and ty[0] == 'cls' and ty[1].name in ('UnitaryPrimitive', 'Compiler') or any(map(mentions, ty)))
    return op.kind == 'method' and op.cls.name in ('UnitaryPrimitive', 'Compiler') or \
        any(mentions(ty) for _, ty, _ in op.params())


def classes(s):
    I = s.I
    for m in list(s.P.trees):
        if m.startswith('_'):
            continue
        try:
            I.load(m)
        except Unsupported:
            continue
    for n in sorted(I.classes):
        c = I.classes[n]
        if n.startswith('_') or c.is_enum() or c.module.startswith('_'):
            continue
        yield c


def ops(s):
    '''All public operations.'''
    for c in classes(s):
        seen = set()
        for k in c.mro() if hasattr(c, 'mro') else [c]:
            if not isinstance(k, Cls):
                continue
            for x in k.node.body:
                if not isinstance(x, ast.FunctionDef) or x.name in seen:
                    continue
                seen.add(x.name)
                if x.name.startswith('_') and x.name != '__init__':
                    continue
                v = c.find(x.name)
                kind = 'init' if x.name == '__init__' else 'method'
                if isinstance(v, Desc):
                    kind = {'staticmethod': 'static', 'classmethod': 'class'}.get(v.kind)
                    v = v.func
                if kind is None or not isinstance(v, Func):
                    continue
                yield Op(s, c, x.name, kind, v)


def getters(s, o):
    '''Names of the operations without arguments that show the state of an instance.'''
    out = []
    if not isinstance(o.cls, Cls):
        return out
    for k in o.cls.mro():
        if isinstance(k, Cls):
            for x in k.node.body:
                if isinstance(x, ast.FunctionDef) and x.name.startswith('get_') and len(x.args.args) == 1 and \
                        not x.decorator_list and x.name not in ('get_jaqal', 'get_qasm', 'get_display_output',
                                                                'get_display_name'):
                    out.append(x.name)
    return out


def fields_of(s, o):
    '''Attributes named like the constructor's parameters.'''
    init = o.cls.find('__init__') if isinstance(o.cls, Cls) else None
    if not isinstance(init, Func):
        return []
    a = init.node.args
    return [p.arg for p in (a.args + a.kwonlyargs)[1:] if p.arg in o.f]


def observe(s, v, depth=0):
    '''What the public operations show of a value.'''
    I = s.I
    if isinstance(v, tuple):
        return tuple(observe(s, x, depth + 1) for x in v)
    o = I.o(v) if isinstance(v, (Ref, T)) else None
    if o is None:
        return s.vt(v)
    if o.kind != 'inst' or depth > 3:
        return s.vt(v)
    if not isinstance(o.cls, Cls):
        return s.vt(v)
    out = []
    r = I.mat(v)
    for g in getters(s, o):
        try:
            x = s.m(r, g)
            if o.cls.name == 'UnitarySequence' and g == 'get_sequence_entries':
                x = entries_key(s, x)
            else:
                x = observe(s, x, depth + 1)
        except TargetRaise as e:
            x = f'raises {e.etype}'
        out.append((g, x))
    for f in fields_of(s, o):
        if not (o.cls.name == 'UnitarySequence'):
            out.append((f, observe(s, I.getattr(r, f), depth + 1)))
    return tuple(x for _, x in out)


def all_events(evs, seen=None):
    '''(event, in a loop) with those of the iterations of loops.'''
    seen = set() if seen is None else seen
    for e in evs:
        yield e, False
        inner = []
        if e.kind == 'loop':
            inner = [x[3] for x in e.d['paths']]
        elif e.kind == 'while' and id(e.d['rec']) not in seen:
            seen.add(id(e.d['rec']))
            inner = [x.st.events for x in e.d['rec'].paths if hasattr(x, 'st')]
        for ev in inner:
            for x, _ in all_events(ev, seen):
                yield x, True
