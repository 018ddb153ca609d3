'''
Obligations, verdicts, evidence and the command line of one property check.
'''
import argparse
import json
import os
import pickle
import sys
import time
import traceback

from . import model
from . import terms as tm
from .terms import T, show, subterms
from .dom import Unsupported, TargetRaise, Infeasible
from .session import S, AnchorGone, opaque_in, opaque_path

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, s, rule):
        self.pid, self.s, self.rule = pid, s, rule
        self.obs = {}
        self.order = []
        self.paths = 0
        self.assumptions = []
        self.calls = set()

    # ------------------------------------------------------------ recording
    demote = None       # why nothing is refuted at the moment

    def ob(self, name, site, status, detail=''):
        if status == 'bad' and self.demote:
            status, detail = 'unknown', f'{self.demote}\n  {detail}'
        '''status: ok | bad | unknown; the worst of several paths counts.'''
        rank = {'ok': 0, 'unknown': 1, 'bad': 2}
        cur = self.obs.get(name)
        if cur is None:
            self.obs[name] = {'name': name, 'site': site, 'status': status, 'detail': detail, 'paths': 1}
            self.order.append(name)
            return status
        cur['paths'] += 1
        if rank[status] > rank[cur['status']]:
            cur.update(status=status, detail=detail, site=site)
        return status

    def short(self, x, n=400):
        return (show(x, 9) if isinstance(x, T) else repr(x))[:n]

    def trace(self, o):
        I = self.s.I
        save = I.st
        I.st = o.st
        try:
            fs = [show(f, 6)[:160] for f in o.st.facts][:14]
            ev = [f'{e.loc[1]}:{e.loc[2]} {e.kind} {show(e.d["cond"], 5)[:100] if "cond" in e.d else ""}'
                  for e in o.st.events if e.kind in ('assert', 'need', 'loop', 'while', 'unknown_call', 'unknown_loop')][:20]
        finally:
            I.st = save
        return 'path facts: ' + '; '.join(fs) + '\n  path events: ' + '; '.join(ev)

    # ------------------------------------------------------------ judgements on the current path
    def eq(self, name, site, o, got, want):
        '''The two values denote the same mathematical object on this path.'''
        s = self.s
        g, w = s.vt(got), s.vt(want)
        if g is w or (not isinstance(g, T) and not isinstance(w, T) and type(g) is type(w) and g == w):
            return self.ob(name, site, 'ok')
        if tm.is_number(g) and tm.is_number(w) and not opaque_in(g) and not opaque_in(w):
            r = s.holds(tm.cmp_eq(g, w))
            if r is True:
                return self.ob(name, site, 'ok')
        if self.same(g, w):
            return self.ob(name, site, 'ok')
        if opaque_in(g) or opaque_in(w):
            return self.ob(name, site, 'unknown', f'outside the vocabulary: {self.short(g)}')
        why = opaque_path(o) or opaque_path(s.I)
        d = f'is {self.short(g)}\n  must be {self.short(w)}\n  {self.trace(o)}'
        if why:
            return self.ob(name, site, 'unknown', why + '\n  ' + d)
        return self.ob(name, site, 'bad', d)

    def same(self, a, b, depth=0):
        '''Equality of terms by cases: conditional values are compared under every feasible outcome of their conditions,
        element bodies for an arbitrary element.'''
        if a is b or (not isinstance(a, T) and not isinstance(b, T) and type(a) is type(b) and a == b):
            return True
        if not isinstance(a, T) or not isinstance(b, T) or depth > 40:
            return False
        I = self.s.I
        if I.st.eqs:
            a, b = I.canon(a), I.canon(b)
            if a is b or not isinstance(a, T) or not isinstance(b, T):
                return a is b or type(a) is type(b) and a == b
        if a.op == 'ite' or b.op == 'ite':
            if depth > 12:
                return False

            def go():
                x, y = a, b
                for _ in range(40):
                    t = x if isinstance(x, T) and x.op == 'ite' else y
                    if not isinstance(t, T) or t.op != 'ite':
                        break
                    r = I.decide(t.args[0])
                    if t is x:
                        x = x.args[1] if r else x.args[2]
                    else:
                        y = y.args[1] if r else y.args[2]
                return self.same(x, y, depth + 1)
            try:
                outs = I.explore(go)
            except Unsupported:
                return False
            return all(o.kind == 'ret' and o.v for o in outs)
        if a.op != b.op or len(a.args) != len(b.args):
            return self.split(a, b, depth)
        if a.op == 'for':
            from .dom import fresh_idx
            if a.args[1] is not b.args[1] and a.args[1] != b.args[1]:
                return False
            k = fresh_idx()
            save = I.st
            I.st = I.st.clone()
            try:
                I.add_fact(tm.cmp_le(0, k), 'pre')
                I.add_fact(tm.cmp_lt(k, a.args[1]), 'pre')
                return self.same(tm.subst(a.args[2], {a.args[0]: k}), tm.subst(b.args[2], {b.args[0]: k}), depth + 1)
            finally:
                I.st = save
        if any(y.op in ('ite', 'for') for y in subterms(a)) or any(y.op in ('ite', 'for') for y in subterms(b)):
            if a.op in ('cat', 'join', 'list', 'seq', 'it', 'str', 'attrof', 'tuple', 'dict', 'if'):
                return all(self.same(x, y, depth + 1) for x, y in zip(a.args, b.args))
        r = tm.is_number(a) and tm.is_number(b) and self.s.holds(tm.cmp_eq(a, b)) is True
        if not r and os.environ.get('SA_DEBUG'):
            print('DIFF', show(a, 12)[:600], '\n    ', show(b, 12)[:600])
            for f in I.st.facts:
                print('     F', show(f, 9)[:300])
        return r

    def split(self, a, b, depth):
        '''Equality of differently built texts: under each outcome of a condition they contain.'''
        I = self.s.I
        if depth > 6 or a.kind != 'str' or b.kind != 'str':
            return False
        q = next((y for x in (a, b) for y in subterms(x) if y.op == 'ite' and not any(
            z.op in ('bv', 'bve') for z in tm.symbols(y.args[0]))), None)
        if q is None:
            return False

        def go():
            r = q.args[1] if I.decide(q.args[0]) else q.args[2]
            x, y = tm.subst(a, {q: r}), tm.subst(b, {q: r})
            return self.same(I.canon(x), I.canon(y), depth + 1)
        try:
            outs = I.explore(go)
        except Unsupported:
            return False
        return all(o.kind == 'ret' and o.v for o in outs)

    def entails(self, name, site, o, cond, what=''):
        '''The facts of this path imply the condition.'''
        s = self.s
        r = cond if isinstance(cond, bool) else s.holds(cond)
        if r is True or r is None and self.by_cases(cond):
            return self.ob(name, site, 'ok')
        d = f'{what or "required"}: {self.short(cond)}\n  {self.trace(o)}'
        why = opaque_path(o) or opaque_path(s.I)
        if why or opaque_in(cond):
            return self.ob(name, site, 'unknown', f'{why}\n  {d}')
        return self.ob(name, site, 'bad', ('refuted ' if r is False else 'not established ') + d)

    def by_cases(self, cond):
        '''Whether every case of one of the known alternatives implies the condition.'''
        I = self.s.I
        for f in [f for f in I.st.facts if isinstance(f, T) and f.op == 'or'][:8]:
            save = I.st
            try:
                for g in f.args:
                    I.st = save.clone()
                    try:
                        I.add_fact(g, 'pre')
                        I.check_feasible(g)
                    except Infeasible:
                        continue
                    if I.entails(cond) is not True:
                        break
                else:
                    return True
            finally:
                I.st = save
        return False

    def true(self, name, site, o, ok, detail, seen=None):
        '''seen: symbols whose conditions on the path, in whatever vocabulary, were evaluated by other means.'''
        if ok:
            return self.ob(name, site, 'ok')
        if seen and not any(opaque_in(f) and not any(y in seen for y in subterms(f)) for f in o.st.facts
                            if isinstance(f, T)):
            return self.ob(name, site, 'bad', detail + '\n  ' + self.trace(o))
        why = (opaque_path(o) or opaque_path(self.s.I)) if o is not None else None
        if why:
            return self.ob(name, site, 'unknown', why + '\n  ' + detail)
        return self.ob(name, site, 'bad', detail + ('\n  ' + self.trace(o) if o is not None else ''))

    def guard(self, name, site, o, fn, *a):
        '''Observations on one path; an observation the analysis cannot make is undecided.'''
        I = self.s.I
        o.st.assume = 0

        def once():
            mark = self.obs, self.order
            self.obs, self.order = {}, []
            try:
                self.observe(name, site, o, fn, a)
                return self.obs, self.order
            finally:
                self.obs, self.order = mark
        try:
            # a case the observation distinguishes is a path of its own; an infeasible one places nothing
            outs = I.explore(once, st0=o.st)
        except (Unsupported, RecursionError) as e:
            self.ob(name, site, 'unknown', f'{type(e).__name__}: {e}')
            return
        finally:
            I.st = o.st
        for x in outs:
            if x.kind == 'ret':
                obs, order = x.v
                for n in order:
                    self.merge(obs[n])
            else:
                self.ob(name, site, 'unknown', f'observation: {x.kind} {x.v}')

    def merge(self, r):
        self.ob(r['name'], r['site'], r['status'], r['detail'])
        self.obs[r['name']]['paths'] += r['paths'] - 1

    def observe(self, name, site, o, fn, a):
        try:
            fn(o, *a)
        except TargetRaise as e:
            self.ob(name, site, 'unknown', f'observation raised {e.etype} {e.loc} {e.msg}')
        except (Unsupported, AttributeError, KeyError, IndexError, TypeError, ValueError, RecursionError,
                AssertionError) as e:
            if not isinstance(e, Unsupported) and os.environ.get('SA_STRICT'):
                raise
            self.ob(name, site, 'unknown', f'{type(e).__name__}: {e} '
                    + traceback.format_exc(limit=-2).replace('\n', ' | ')[-300:])

    def par(self, jobs, n=8):
        '''Runs the jobs (functions of no argument that place obligations) in forked workers.'''
        jobs = list(jobs)
        n = min(n, len(jobs), os.cpu_count() or 1)
        if n <= 1 or os.environ.get('SA_SERIAL'):
            for j in jobs:
                self.job(j)
            return
        pipes = []
        for w in range(n):
            r, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    self.obs, self.order, self.paths = {}, [], 0
                    I = self.s.I
                    I.stats = {k: 0 for k in I.stats}
                    out = []
                    for i in range(w, len(jobs), n):
                        self.obs, self.order = {}, []
                        self.job(jobs[i])
                        out.append((i, [self.obs[k] for k in self.order]))
                    data = pickle.dumps((out, self.paths, I.stats, set(I.seen_funcs)))
                    with os.fdopen(wr, 'wb') as f:
                        f.write(data)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            pipes.append((pid, r))
        got = {}
        for pid, r in pipes:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                self.ob('worker', '', 'unknown', 'an analysis worker ended without an answer')
                continue
            out, paths, stats, funcs = pickle.loads(data)
            got.update(out)
            self.paths += paths
            for k, v in stats.items():
                self.s.I.stats[k] += v
            self.s.I.seen_funcs |= funcs
        for i in sorted(got):
            for r in got[i]:
                self.merge(r)

    def job(self, j):
        try:
            j()
        except AnchorGone as e:
            self.ob(f'anchor {e}', str(e), 'unknown', f'{e} is not defined')
        except Exception as e:
            if os.environ.get('SA_TRACE'):
                traceback.print_exc()
            self.ob('analysis', '', 'unknown', f'{type(e).__name__}: {e} '
                    + traceback.format_exc(limit=-int(os.environ.get("SA_TB", "3"))).replace('\n', ' | ')[-int(os.environ.get("SA_TBC", "500")):])

    # ------------------------------------------------------------ exploration
    def accepts(self, name, site, thunk, drawn=True):
        '''No path of thunk, whose request is a valid one, is refused.  That a matrix is close to another is not decided
        here, nor (drawn false) what other properties guarantee of generated values.'''
        I = self.s.I
        old = I.overrides.get('fork')
        I.overrides['fork'] = True
        try:
            outs = list(self.s.outs(thunk))
        except (Unsupported, RecursionError) as e:
            return self.ob(name, site, 'unknown', f'{type(e).__name__}: {e}')
        finally:
            I.overrides['fork'] = old
            I.st = I.base
        bad = None
        for o in outs:
            self.paths += 1
            if o.kind == 'raise':
                I.st = o.st
                if o.v.cond is None:        # an explicit raise: the last condition decided on the way to it
                    last = [f for f, og in o.st.facts.items() if og == 'branch']
                    o.v.cond = tm.lnot(last[-1]) if last else None
                near = [f for f in list(o.st.facts) + [o.v.cond] if isinstance(f, T) and any(
                    y.op == 'allclose' for y in subterms(f))]
                if near or not drawn and isinstance(o.v.cond, T) and any(y.op == 'draw' for y in subterms(o.v.cond)):
                    continue
                why = opaque_path(o) or opaque_in(o.v.cond)
                d = f'{o.v.etype} {o.v.msg} at {o.v.loc} ({self.short(o.v.cond)} may not hold)\n  {self.trace(o)}'
                if why:
                    bad = bad or ('unknown', f'{why}\n  {d}')
                else:
                    m = model.fails([f for f in o.st.facts if o.v.cond is None or f is not tm.lnot(o.v.cond)],
                                    False if o.v.cond is None else o.v.cond)
                    if m is None:
                        bad = bad or ('unknown', f'cannot tell whether a valid request is refused: {d}')
                    else:
                        bad = ('bad', f'a valid request is refused: {d}\n  for example with ' + ', '.join(
                            f'{show(k, 4)} = {v}' for k, v in m.items()))
            elif o.kind not in ('ret', 'return'):
                bad = bad or ('unknown', f'{o.kind}: {o.v}')
        I.st = I.base
        if bad:
            return self.ob(name, site, *bad)
        self.ob(name, site, 'ok' if any(o.kind == 'ret' for o in outs) else 'bad', 'no path returns')

    def run(self, name, site, thunk, on_ret, on_raise=None, need_ret=True):
        '''Every path of thunk; on_ret(o, value) places obligations.'''
        rets = 0
        unk = 0
        raises = []
        try:
            outs = list(self.s.outs(thunk))
        except (Unsupported, RecursionError) as e:
            self.ob(name, site, 'unknown', f'{type(e).__name__}: {e}')
            return
        I = self.s.I
        for o in outs:
            self.paths += 1
            I.st = o.st
            I.st.assume = 0
            if o.kind == 'ret':
                rets += 1
                self.guard(name, site, o, on_ret, o.v)
            elif o.kind == 'raise':
                raises.append(o)
                if on_raise:
                    on_raise(o, o.v)
            else:
                unk += 1
                self.ob(name, site, 'unknown', f'{o.kind}: {o.v}')
        I.st = I.base
        if need_ret and rets == 0 and not unk:
            o = raises[0] if raises else None
            self.true(name + ' can succeed', site, o, False,
                      f'no path returns: {[(r.v.etype, r.v.loc, r.v.msg) for r in raises][:3]}')
        return outs


def known_findings(pid):
    out = {}
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            line = line.strip()
            if line.startswith('finding:'):
                parts = line[len('finding:'):].split()
                kv = dict(p.split('=', 1) for p in parts[:2])
                if kv.get('property') == pid:
                    out[kv['site']] = ' '.join(parts[2:])
    except FileNotFoundError:
        pass
    return out


def main(pid, spec, root='/repo'):
    ap = argparse.ArgumentParser()
    ap.add_argument('--root', default=root)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(sys.argv[2:])
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        s = S(a.root)
    except SyntaxError as e:
        print(f'ERROR: the package does not parse: {e}')
        return 2
    c = Check(pid, s, getattr(spec, 'RULE', ''))
    for part in spec.PARTS:
        try:
            part(c, s)
        except AnchorGone as e:
            c.ob(f'{part.__name__} anchor', str(e), 'unknown', f'{e} is not defined')
        except Unsupported as e:
            c.ob(f'{part.__name__}', '', 'unknown', f'unsupported: {e}')
        except Exception as e:      # the analysis itself failed: undecided, never an alarm
            c.ob(f'{part.__name__}', '', 'unknown', f'{type(e).__name__}: {e} '
                 + traceback.format_exc(limit=-int(os.environ.get("SA_TB", "3"))).replace('\n', ' | ')[-int(os.environ.get("SA_TBC", "500")):])
        s.I.st = s.I.base
        s.I.intercepts.clear()
        s.I.overrides.clear()
        s.I.meanings = None
        tm.MODPHASE[0] = False
    known = known_findings(pid)
    bad, found, unk, ok = [], [], [], []
    for n in c.order:
        r = c.obs[n]
        if r['status'] == 'bad':
            hit = [k for k in known if n.startswith(k + ':') or n == k]
            (found if hit else bad).append((r, hit))
        elif r['status'] == 'unknown':
            unk.append(r)
        else:
            ok.append(r)
    for k in sorted({hit[0] for _, hit in found}):
        print(f'KNOWN-FINDING: property={pid} {k}: {known[k]}')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rel = f'evidence/{pid}.violation.txt'
    if bad:
        with open(os.path.join(HERE, rel), 'w') as f:
            f.write(f'property {pid}\nrule {c.rule}\n\n')
            for r, _ in bad:
                f.write(f'obligation: {r["name"]}\nsite: {r["site"]}\n{r["detail"]}\n\n')
    if not a.no_evidence:
        funcs = sorted({f'{m}:{q}' for m, q in s.I.seen_funcs})
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
              'coverage': {
                  'explanation': c.rule,
                  'obligations': len(c.order), 'discharged': len(ok),
                  'undecided': [{'obligation': r['name'], 'why': r['detail'][:300]} for r in unk],
                  'known_findings': [r['name'] for r, _ in found],
                  'paths_analysed': c.paths, 'partitions': s.I.stats['paths'], 'loops_summarised': s.I.stats['loops'],
                  'calls_analysed': s.I.stats['calls'],
                  'functions_analysed': funcs,
                  'samples': [{'obligation': r['name'], 'site': r['site'], 'paths': r['paths']} for r in ok[:40]],
              },
              'assumptions': list(getattr(spec, 'ASSUMES', [])) + c.assumptions,
              'wall_s': round(time.time() - t0, 3), 'violations': len(bad)}
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write('\n')
    print(f'{pid}: {len(c.order)} obligations, {len(ok)} discharged, {len(unk)} undecided, '
          f'{len(found)} known, {len(bad)} refuted; {c.paths} paths, {time.time() - t0:.1f}s')
    if a.v:
        for n in c.order:
            r = c.obs[n]
            print(f'  [{r["status"]}] {n} ({r["paths"]}) {r["site"]}')
            if r['status'] != 'ok':
                print('      ' + r['detail'].replace('\n', '\n      ')[:1800])
    else:
        for r in unk:
            print(f'  undecided: {r["name"]}: {r["detail"][:160]!r}')
    if bad:
        for r, _ in bad:
            print(f'  refuted: {r["name"]} at {r["site"]}: {r["detail"][:300]}')
        print(f'VIOLATION property={pid} replay={rel}')
        return 1
    return 0
