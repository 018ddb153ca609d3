'''Small models: input numbers for which the conditions of a path hold and a condition does not.'''
import itertools
from fractions import Fraction as Fr

from . import terms as tm
from .terms import T

LOGIC = {'le', 'lt', 'eq0', 'not', 'and', 'or', 'poly', 'powt', 'max', 'min', 'ite', 'abs', 'log2', 'toint'}
ROOTS = {'sym', 'attrof', 'len', 'elem', 'shape', 'norm2'}


class Beyond(Exception):
    pass


def known(t):
    '''Evaluable, given its atoms.'''
    return isinstance(t, T) and t.op in LOGIC and not (t.op in ('max', 'min') and len(t.args) < 2)


def atoms(t, out):
    if not isinstance(t, T):
        return
    if t.op == 'poly':
        for mono, _ in t.args[0]:
            for a, _ in mono:
                atoms(a, out)
    elif known(t):
        for x in t.args:
            atoms(x, out)
    else:
        out.add(t)


def value(t, env):
    if isinstance(t, bool):
        return t
    if not isinstance(t, T):
        c = tm.const_of(t)
        if c is None:
            raise Beyond
        return Fr(c)
    if t in env:
        return env[t]
    if t.op == 'poly':
        s = Fr(0)
        for mono, c in t.args[0]:
            if c[1] != 0:
                raise Beyond
            x = Fr(c[0])
            for a, e in mono:
                if e.denominator != 1:
                    raise Beyond
                v = value(a, env)
                if v == 0 and e < 0:
                    raise Beyond
                x *= v ** int(e)
            s += x
        return s
    if not known(t):
        raise Beyond
    a = [value(x, env) for x in t.args]
    if t.op == 'le':
        return a[0] <= 0
    if t.op == 'lt':
        return a[0] < 0
    if t.op == 'eq0':
        return a[0] == 0
    if t.op == 'not':
        return not a[0]
    if t.op == 'and':
        return all(a)
    if t.op == 'or':
        return any(a)
    if t.op == 'max':
        return max(a)
    if t.op == 'min':
        return min(a)
    if t.op == 'ite':
        return a[1] if a[0] else a[2]
    if t.op == 'abs':
        return abs(a[0])
    if t.op == 'powt' and a[1].denominator == 1 and abs(a[1]) < 20 and a[0] != 0:
        return a[0] ** int(a[1])
    raise Beyond


def fails(facts, cond):
    '''Values of the atoms with which the facts hold and cond does not, or None.'''
    if isinstance(cond, bool):
        return None if cond else {}
    if not isinstance(cond, T):
        return None
    need, todo = set(), [cond]
    left = []
    for f in facts:
        if isinstance(f, T):
            a = set()
            atoms(f, a)
            left.append((f, a))
    atoms(cond, need)
    rel = []
    while True:
        more = [(f, a) for f, a in left if a & need or any(x in need for y in a for x in tm.subterms(y))]
        if not more:
            break
        left = [x for x in left if x not in more]
        for f, a in more:
            rel.append(f)
            need |= a
    if len(need) > 6 or any(x.op not in ROOTS or x.kind not in ('int', 'real', 'bool') for x in need):
        return None
    dom = {'int': [2, 4, 1, 0, 8, 3], 'real': [Fr(1, 2), 1, 0, 2, -1], 'bool': [True, False]}
    need = sorted(need, key=lambda x: x.id)
    for i, vs in enumerate(itertools.product(*[dom[x.kind] for x in need])):
        if i > 20000:
            return None
        env = {x: v if isinstance(v, bool) else Fr(v) for x, v in zip(need, vs)}
        if any(x.op in ('len', 'shape', 'norm2') and env[x] < 0 for x in need):
            continue
        try:
            if not value(cond, env) and all(value(f, env) for f in rel):
                return env
        except Beyond:
            continue
    return None
