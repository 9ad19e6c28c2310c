"""Runs the contract units of a property and reports their obligations.

A unit explores all paths of one real function (or a short composition of
them) for symbolic inputs and proves named obligations on every path.  Each
unit runs in its own process.  Obligations are

  proved       every verification condition was discharged, no bound
  bounded      only discharged for the stated container sizes (not counted)
  refuted      a verification condition has a counterexample
  unknown      a solver gave no answer, or the unit ran out of time
  unsupported  the code is outside the verifier's reach
"""
import importlib
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
import traceback

import z3

from .values import *  # noqa: F401,F403
from . import engine as en
from . import ext

UNITS = []
CONTRACTS = ['factory', 'schemas', 'serial', 'items', 'tree', 'lists', 'stores',
             'persist', 'dependent']


class Unit:
    def __init__(self, props, name, fn, obligations, bounds, weight,
                 functions, tier='quick', stand_in=None):
        self.tier = tier
        self.stand_in = stand_in    # the bound of a unit that has one
        self.props = props
        self.name = name
        self.fn = fn
        self.obligations = obligations
        self.bounds = bounds
        self.weight = weight
        self.functions = functions


def unit(props, name, obligations, bounds=None, weight=1, functions=(),
         tier='quick', stand_in=None):
    """Register a unit; obligations: {suffix: properties} or a list."""
    props = props.split()

    def deco(fn):
        obs = obligations
        if not isinstance(obs, dict):
            obs = {o: props for o in obs}
        else:
            obs = {o: (p.split() if isinstance(p, str) else p)
                   for o, p in obs.items()}
        UNITS.append(Unit(props, name, fn, obs, bounds, weight, functions,
                          tier, stand_in))
        return fn
    return deco


class Covered(Exception):
    """Everything that had to be reached was reached."""


class Ctx:
    """What a unit sees: the engine and the goals."""

    def __init__(self, eng, names, deadline, tier):
        self.eng = eng
        self.names = names
        self.res = {n: {'conditions': 0, 'fails': [], 'unknown': 0,
                        'z3': 0, 'cvc5': 0} for n in names}
        self.deadline = deadline
        self.tier = tier
        self.done = set()
        self.covers = {}
        self.time = 0.0
        self.covering = None
        self.tries = {}

    # running code

    def explore(self, run, setup=None):
        outs = self.eng.explore(run)
        self.eng_paths = len(outs)
        return outs

    def call(self, f, *args, **kwargs):
        """('return', value) or ('raise', exception) of a call."""
        try:
            return 'return', self.eng.call(f, list(args), kwargs)
        except PyRaise as e:
            return 'raise', e.value

    def method(self, obj, name, *args, **kwargs):
        try:
            f = self.eng.getattr(obj, name)
            return 'return', self.eng.call(f, list(args), kwargs)
        except PyRaise as e:
            return 'raise', e.value

    def attr(self, obj, name):
        try:
            return 'return', self.eng.force(self.eng.getattr(obj, name))
        except PyRaise as e:
            return 'raise', e.value

    def is_exc(self, ref, *classes):
        out = []
        for c in classes:
            if isinstance(c, str):
                c = self.eng.cls('dsch.exceptions', c)
            out.append(c)
        return any(self.eng.is_exc(ref, c) for c in out)

    def exact_exc(self, ref, cls):
        if isinstance(cls, str):
            cls = self.eng.cls('dsch.exceptions', cls)
        return self.eng.h(ref).cls == cls

    def exc_name(self, ref):
        c = self.eng.h(ref).cls
        return getattr(c, 'name', None) or getattr(c, '__name__', str(c))

    def assume(self, f):
        self.eng.assume(f)

    def stop(self):
        raise PathEnd()

    # goals

    def lemma(self, name, f, note=''):
        """As goal, for facts that the proof needs but that are no part of
        the property: they make it undecided, never violated."""
        self.goal(name, f, note, soft=True)

    def goal(self, name, f, note='', soft=False):
        """The obligation `name` holds on the current path."""
        eng = self.eng
        r = self.res.get(name)
        if r is None or self.covering is not None:
            return      # belongs to other properties only
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        f = z3.simplify(f)
        key = (name, f.get_id(), tuple(p.get_id() for p in eng.st.pc))
        if key in self.done:
            return
        self.done.add(key)
        r['conditions'] += 1
        if r['fails'] or r['unknown'] >= 2:
            return      # decided: refuted, or not proved
        if z3.is_true(f):
            r['z3'] += 1
            return
        if time.time() > self.deadline:
            raise Unsupported('time budget of the unit exhausted')
        t = time.time()
        s = z3.Solver()
        s.set('timeout', eng.timeout_ms)
        s.add(*eng.axioms)
        s.add(*eng.st.pc)
        s.add(z3.Not(f))
        q = s.check()
        eng.queries += 1
        self.time += time.time() - t
        if q == z3.unsat:
            r['z3'] += 1
            return
        if q == z3.sat and soft:
            r['unknown'] += 1
            r['unknown_goal'] = 'lemma does not hold: %s %s' % (
                note, str(f)[:500])
            return
        if q == z3.sat:
            if z3.is_false(f) or True:
                r['fails'].append({'note': note, 'model': brief(s.model()),
                                   'path': [str(p)[:300] for p in
                                            eng.st.pc][-12:],
                                   'goal': str(f)[:600]})
            return
        t = time.time()
        a = cvc5(s, 10 if self.tier == 'quick' else 60)
        self.time += time.time() - t
        if a == 'unsat':
            r['cvc5'] += 1
            return
        if a == 'sat' and not soft:
            r['fails'].append({'note': note, 'model': 'cvc5: sat',
                               'path': [str(p)[:300] for p in
                                        eng.st.pc][-12:],
                               'goal': str(f)[:600]})
            return
        r['unknown'] += 1
        r['unknown_goal'] = str(f)[:800] + ' || ' + ' && '.join(
            str(p)[:200] for p in eng.st.pc[-8:])

    def cover(self, name):
        """The current path is one the unit must be able to reach."""
        if self.covers.get(name) == 'sat':
            return
        if self.covering is not None and name not in self.covering:
            return
        k = ('tries', name)
        if self.tries.get(k, 0) >= 4:
            return
        self.tries[k] = self.tries.get(k, 0) + 1
        # Axioms such as those on decimal texts have only infinite models,
        # which the solver cannot build; they are background theory, which
        # the paths here do not depend on.
        for axioms in (self.eng.axioms, [
                a for a in self.eng.axioms if ':%d(' not in str(a)], [
                a for a in self.eng.axioms if not z3.is_quantifier(a)]):
            s = z3.Solver()
            s.set('timeout', 300 if self.eng.bound is None else 1000)
            s.add(*axioms)
            s.add(*self.eng.st.pc)
            r = str(s.check())
            if r != 'unknown':
                break
        if r != 'unsat':
            self.covers[name] = r if self.covers.get(name) != 'sat' else 'sat'
        if self.covering and all(self.covers.get(n) == 'sat'
                                 for n in self.covering):
            raise Covered()

    def need_cover(self, *names):
        for n in names:
            self.covers.setdefault(n, 'unreached')

    # specification helpers

    def forall(self, n, f):
        """For all j in 0..n-1: f(j), also for concrete n."""
        if isinstance(n, int):
            r = True
            for j in range(n):
                r = self.eng.and_(r, f(z3.IntVal(j)))
            return r
        self.nq = getattr(self, 'nq', 0) + 1
        j = z3.Int('j!spec%d' % self.nq)
        b = f(j)
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), b))

    def exists(self, n, f):
        return self.eng.not_(self.forall(n, lambda j: self.eng.not_(f(j))))

    def optional(self, name, v):
        """None or v, depending on a symbol; returns (value, is_none)."""
        b = z3.Bool('none:' + name)
        return Alt([(b, None), (z3.Not(b), v)]), b


def brief(m):
    out = []
    for d in list(m.decls())[:60]:
        if d.arity() == 0:
            out.append('%s = %s' % (d.name(), str(m[d])[:80]))
    return '; '.join(out)[:1500]


def cvc5(s, timeout):
    text = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2',
                                     delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000),
                            f.name], capture_output=True, text=True,
                           timeout=timeout + 5)
        return p.stdout.strip().splitlines()[0] if p.stdout.strip() else '?'
    except (OSError, subprocess.TimeoutExpired):
        return '?'
    finally:
        os.unlink(f.name)


def run_once(u, tier, bound, seconds, prop=None, covering=None):
    """One exploration of a unit: {obligation: result}, error, stats."""
    ext.USED.clear()
    eng = en.Engine(bound=bound, timeout_ms=6000 if tier == 'quick'
                    else 30000)
    deadline = time.time() + seconds
    eng.budget = deadline
    c = Ctx(eng, [n for n, p in u.obligations.items()
                  if prop is None or prop in p], deadline, tier)
    err = None
    c.covering = covering
    try:
        u.fn(c)
    except Covered:
        pass
    except Unsupported as e:
        err = str(e)
    except RecursionError:
        err = 'recursion'
    except z3.Z3Exception as e:
        err = 'z3: %s' % e
    except Exception:
        err = 'internal: ' + traceback.format_exc()[-1500:]
    return c, eng, err


def run_unit(u, tier, seconds, seed=1, prop=None):
    t0 = time.time()
    z3.set_param('smt.random_seed', seed)
    c, eng, err = run_once(u, tier, None, seconds * 0.6, prop)
    stats = {'solver_time': eng.solver_time + c.time,
             'queries': eng.queries, 'paths': eng.paths,
             'used': sorted(ext.USED), 'inlined': sorted(eng.inlined),
             'contracts': sorted(eng.used_contracts),
             'z3': sum(r['z3'] for r in c.res.values()),
             'cvc5': sum(r['cvc5'] for r in c.res.values())}
    bad_cover = [n for n, r in c.covers.items() if r == 'unreached']
    weak_cover = [n for n, r in c.covers.items() if r == 'unknown']
    obs = []
    redo = False
    for n in c.res:
        r = c.res[n]
        o = {'name': '%s: %s' % (u.name, n), 'props': u.obligations[n],
             'conditions': r['conditions'], 'paths': eng.paths, 'bound': None,
             'why': None, 'short': n}
        if r['fails']:
            o['status'] = 'refuted'
            o['why'] = r['fails'][0]
        elif err:
            o['status'] = 'unsupported'
            o['why'] = err
            redo = True
        elif r['unknown']:
            o['status'] = 'unknown'
            o['why'] = 'solver gave no answer for %d conditions: %s' % (
                r['unknown'], r.get('unknown_goal'))
            redo = True
        elif not r['conditions'] or bad_cover:
            o['status'] = 'unknown'
            o['why'] = 'vacuous: nothing reaches it %s' % bad_cover
            redo = True
        else:
            o['status'] = 'proved'
        obs.append(o)
    if weak_cover or redo:
        bounded_pass(u, tier, obs, weak_cover, seconds - (time.time() - t0),
                     stats, prop)
    stats['seconds'] = time.time() - t0
    return obs, stats


DEFAULT_BOUNDS = [[1], [2], [0], [2, 1], [1, 2]]


def bounded_pass(u, tier, obs, weak, seconds, stats, prop=None):
    """Concrete container sizes: refutes, or serves as a stand-in."""
    end = time.time() + max(seconds, 20)
    bounds = u.bounds or DEFAULT_BOUNDS
    if tier == 'thorough' and not u.stand_in:
        bounds = bounds + [[3]]
    done = []
    only = set(weak) if all(
        o['status'] in ('proved', 'bounded') for o in obs) else None
    status = {o['short']: 'ok' for o in obs}
    hit = {o['short']: 0 for o in obs}
    covered = set()
    why = {}
    stop = None
    for b in bounds:
        left = end - time.time()
        if left < 3:
            stop = 'time'
            break
        c, eng, err = run_once(u, tier, b, min(left, max(
            15, seconds / len(bounds) * 2)), prop, only)
        if only is not None:
            only -= {n for n, r in c.covers.items() if r == 'sat'}
        stats['solver_time'] += eng.solver_time + c.time
        covered |= {n for n, r in c.covers.items() if r == 'sat'}
        for n, r in c.res.items():
            hit[n] += r['conditions']
            if r['fails']:
                status[n] = 'refuted'
                why[n] = dict(r['fails'][0], sizes=b)
            elif (err or r['unknown']) and status[n] == 'ok':
                status[n] = 'open'
                why[n] = 'sizes %s: %s' % (b, err or 'unknown: %s' % r.get(
                    'unknown_goal'))
        if not err:
            done.append(b)
        if not any(o['status'] not in (
                'proved', 'bounded') for o in obs) and all(
                w in covered for w in weak):
            return
    for o in obs:
        n = o['short']
        if o['status'] in ('proved', 'bounded'):
            if [w for w in weak if w not in covered]:
                o['status'] = 'unknown'
                o['why'] = 'reachability not shown: %s' % [
                    w for w in weak if w not in covered]
            continue
        if o['status'] == 'refuted':
            continue
        if status[n] == 'refuted':
            o['status'] = 'refuted'
            o['why'] = why[n]
        elif status[n] == 'ok' and hit[n] and done and not stop:
            o['bound'] = u.stand_in or 'container sizes %s' % ', '.join(
                map(str, done))
            o['why'] = 'unbounded: %s' % (o['why'],)
            o['status'] = 'bounded'
        else:
            o['why'] = '%s; bounded: %s' % (o['why'], why.get(n, stop))


# -- parallel runs -------------------------------------------------------------

def _child(u, tier, seconds, seed, prop, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ImportError, ValueError, OSError):
        pass
    import sys
    sys.setrecursionlimit(20000)
    try:
        conn.send(run_unit(u, tier, seconds, seed, prop))
    except BaseException:
        conn.send((None, traceback.format_exc()[-2000:]))
    conn.close()


def load():
    if not UNITS:
        for m in CONTRACTS:
            try:
                importlib.import_module('pyded.contracts.' + m)
            except ModuleNotFoundError as e:
                if 'pyded.contracts.' + m not in str(e):
                    raise
    return UNITS


def check(prop, tier, budget, seed, only=None, workers=None):
    t0 = time.time()
    units = [u for u in load() if any(
        prop in p for p in u.obligations.values()) and (
            u.tier == 'quick' or tier == 'thorough')]
    if only:
        units = [u for u in units if only in u.name]
    workers = workers or max(2, min(7, (os.cpu_count() or 4) - 1))
    per = {'quick': 150, 'thorough': 900}[tier]
    queue = sorted(units, key=lambda u: -u.weight)
    running, results = [], []
    ctx = mp.get_context('fork')
    while queue or running:
        while queue and len(running) < workers:
            u = queue.pop(0)
            left = budget - (time.time() - t0)
            if left < 5:
                results.append((u, None, 'no time left'))
                continue
            a, b = ctx.Pipe(False)
            sec = min(per, left)
            p = ctx.Process(target=_child, args=(u, tier, sec, seed, prop, b))
            p.start()
            b.close()
            running.append((u, p, a, time.time() + sec + 40))
        for item in list(running):
            u, p, a, end = item
            if a.poll(0.02):
                try:
                    obs, st = a.recv()
                except EOFError:
                    obs, st = None, 'the verifier process ended'
                p.join(5)
                running.remove(item)
                results.append((u, obs, st))
            elif not p.is_alive() and not a.poll(0.1):
                running.remove(item)
                results.append((u, None, 'the verifier process ended'))
            elif time.time() > end:
                p.kill()
                p.join()
                running.remove(item)
                results.append((u, None, 'time budget exhausted'))
    out = []
    trusted, funcs, contracts = set(), set(), set()
    solver = 0.0
    be = {'z3': 0, 'cvc5': 0}
    for u, obs, st in results:
        if obs is None:
            obs = [{'name': '%s: %s' % (u.name, n), 'props': p,
                    'status': 'unknown', 'why': st, 'bound': None,
                    'conditions': 0, 'paths': 0, 'short': n}
                   for n, p in u.obligations.items() if prop in p]
        else:
            trusted |= set(st['used'])
            funcs |= set(st['inlined'])
            contracts |= set(st['contracts'])
            solver += st['solver_time']
            be['z3'] += st['z3']
            be['cvc5'] += st['cvc5']
        out.append({'unit': u.name, 'seconds': st['seconds'] if isinstance(
            st, dict) else None,
            'obligations': [o for o in obs if prop in o['props']]})
    out.sort(key=lambda x: x['unit'])
    return {'units': out, 'trusted_base': sorted(trusted) + BASE,
            'functions': sorted(funcs), 'callee_contracts': sorted(contracts),
            'backends': be, 'solver_time': solver,
            'assumptions': ASSUMPTIONS}


BASE = ['pyded: the symbolic interpreter of the Python subset and its '
        'treatment of lists, dicts, loops and exceptions',
        'z3 4.x / cvc5 1.1.2']
ASSUMPTIONS = [
    'Python integers are mathematical integers (they are); no other thread '
    'and no signal interferes; memory does not run out',
    'the schema tree is finite and not changed while data nodes use it',
    'child nodes of a compilation or list satisfy the interface contract '
    'that is proved for every node class (structural induction over the '
    'finite tree)']


def main():
    import sys
    import json
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    tier = os.environ.get('TIER', 'quick')
    r = check(prop, tier, 420 if tier == 'quick' else 2400, 1, only)
    for u in r['units']:
        print('%-60s %s' % (u['unit'], u['seconds'] and round(
            u['seconds'], 1)))
        for o in u['obligations']:
            w = o['why']
            print('   %-12s %-50s %d' % (o['status'], o['short'],
                                         o['conditions']))
            if o['status'] != 'proved':
                print('        ', (json.dumps(w, indent=1) if isinstance(
                    w, dict) else str(w))[:1500], o['bound'] or '')


if __name__ == '__main__':
    from pyded import driver
    driver.main()
