"""Symbolic interpreter and verification condition generator for the real
source code of dsch.

The modules under /repo/dsch are parsed on every run and interpreted as they
are.  Symbolic branches fork the path; loops over containers of unknown size
are replaced by summaries whose invariants are synthesised from one run of
the loop body for an arbitrary index and checked by a second one (see
loops.py).  Anything outside the supported subset raises Unsupported, which
never counts as proved and never as a violation.
"""
import ast
import os
import time

import z3

from .values import *  # noqa: F401,F403
from .values import mro  # noqa: F401

ROOT = os.environ.get('DSCH_SRC', '/repo')


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class State:
    def __init__(self):
        self.pc = []
        self.heap = {}
        self.ghost = {}
        self.next = 0
        self.fresh = 0
        self.marks = {}

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.heap = dict(self.heap)
        s.ghost = dict(self.ghost)
        s.next = self.next
        s.fresh = self.fresh
        s.marks = dict(self.marks)
        return s


class Oracle:
    def __init__(self, trace, work):
        self.trace = list(trace)
        self.pos = 0
        self.work = work


class Outcome:
    def __init__(self, kind, value, st, env=None):
        self.kind = kind
        self.value = value
        self.st = st
        self.env = env

    @property
    def pc(self):
        return self.st.pc


class Frame:
    def __init__(self, func, module, locals_, cls=None, parent=None):
        self.func = func
        self.module = module
        self.locals = locals_
        self.cls = cls
        self.parent = parent
        self.exc = []

    def with_locals(self, locals_):
        f = Frame(self.func, self.module, locals_, self.cls, self.parent)
        f.exc = list(self.exc)
        return f


class SuperV:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class Cmp:
    """Result of comparing opaque values (element-wise for arrays)."""

    def __init__(self, op, a, b):
        self.op = op
        self.a = a
        self.b = b


class Frozen:
    """An object created in a loop iteration, as an immutable value."""

    def __init__(self, payload, pairs=()):
        self.payload = payload
        self.pairs = list(pairs)


_SOURCES = {}


def parse_module(name):
    parts = name.split('.')
    p = os.path.join(ROOT, *parts)
    path = p + '.py' if os.path.isfile(p + '.py') else os.path.join(
        p, '__init__.py')
    if not os.path.isfile(path):
        return None
    if path not in _SOURCES:
        with open(path, encoding='utf8') as f:
            src = f.read()
        _SOURCES[path] = (ast.parse(src), src)
    return _SOURCES[path][0]


MAX_DEPTH = 60


class Engine:
    def __init__(self, bound=None, timeout_ms=4000):
        from . import ext
        self.ext = ext
        self.bound = bound          # None: unbounded; else list of sizes
        self.nseq = 0
        self.modules = {}
        self.axioms = []
        self.lits = {}
        self.numbered = []
        self.tyconsts = {}
        self.isreg = {}
        self.st = State()
        self.oracle = None
        self.loopctx = []
        self.depth = 0
        self.timeout_ms = timeout_ms
        self.sol = z3.Solver()
        self.sol.set('timeout', 400)
        self.nax = 0
        self.quick = z3.Solver()        # for pruning paths
        self.quick.set('timeout', 400)
        self.quick.set('smt.mbqi', False)
        self.nquick = 0
        self.contracts = {}
        self.solver_time = 0.0
        self.queries = 0
        self.used_contracts = set()
        self.inlined = set()
        self.paths = 0
        self.budget = time.time() + 100
        self.ufs = {}
        from . import arrays, h5, files, nodes
        files.install()
        self.arrays = arrays
        self.h5 = h5
        self.files = files
        self.nodec = nodes.NodeContract()
        self.schc = nodes.SchemaContract()

    # -- solver ---------------------------------------------------------------

    def axiom(self, f):
        self.axioms.append(f)

    def axiom_once(self, key, make):
        if ('axiom', key) not in self.isreg:
            self.isreg['axiom', key] = True
            self.axiom(make())

    def _sync(self):
        while self.nax < len(self.axioms):
            self.sol.add(self.axioms[self.nax])
            self.nax += 1

    def may_happen(self, c):
        """False only if c is impossible on this path (instantiation by
        matching only; what it cannot exclude is explored)."""
        if time.time() > self.budget:
            raise Unsupported('time budget of the unit exhausted')
        if z3.is_false(c):
            return False
        t = time.time()
        while self.nquick < len(self.axioms):
            self.quick.add(self.axioms[self.nquick])
            self.nquick += 1
        self.quick.push()
        self.quick.add(*self.st.pc)
        self.quick.add(c)
        r = self.quick.check()
        self.quick.pop()
        self.solver_time += time.time() - t
        self.queries += 1
        return r != z3.unsat

    def feasible(self, extra=()):
        if time.time() > self.budget:
            raise Unsupported('time budget of the unit exhausted')
        fs = list(self.st.pc) + list(extra)
        for f in fs:
            if z3.is_false(f):
                self.last = z3.unsat
                return False
        t = time.time()
        self._sync()
        self.sol.push()
        self.sol.add(*fs)
        r = self.sol.check()
        self.sol.pop()
        self.solver_time += time.time() - t
        self.queries += 1
        self.last = r
        return r != z3.unsat

    def provable(self, f):
        """f is known to hold (False: it may hold or not)."""
        return f if isinstance(f, bool) else not self.may_happen(z3.Not(f))

    def valid_here(self, f):
        """f holds on every input of this path."""
        if isinstance(f, bool):
            return f
        r = not self.feasible([z3.Not(f)])
        if not r and self.last != z3.sat:
            raise Unsupported('undecided by the solver')
        return r

    def is_exc_in(self, out, cls):
        saved = self.st
        self.st = out.st
        try:
            return self.is_exc(out.value, cls)
        finally:
            self.st = saved

    def value_eq_or(self, eq, a, b):
        return eq(a, b)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.st.pc.append(f)

    def choose(self, conds):
        """Fork: one path per feasible alternative; returns its index."""
        o = self.oracle
        if o is None:
            raise Unsupported('fork outside of exploration')
        if o.pos < len(o.trace):
            i = o.trace[o.pos]
        else:
            ok = []
            for i, c in enumerate(conds):
                if c is False or (is_z3(c) and z3.is_false(c)):
                    continue
                if c is True or self.may_happen(c):
                    ok.append(i)
            if not ok:
                raise Infeasible()
            i = ok[0]
            for j in ok[1:]:
                o.work.append(o.trace[:o.pos] + [j])
            o.trace.append(i)
        o.pos += 1
        if conds[i] is not True:
            self.assume(conds[i])
        return i

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.choose([c, z3.Not(c)]) == 0

    def explore(self, run, base=None, limit=3000):
        """All feasible outcomes of run() from a copy of the base state."""
        base = base if base is not None else self.st
        outs = []
        work = [[]]
        saved = (self.st, self.oracle, self.depth, list(self.loopctx))
        nseq = self.nseq
        try:
            while work:
                trace = work.pop()
                self.st = base.copy()
                self.oracle = Oracle(trace, work)
                self.depth = saved[2]
                self.loopctx = list(saved[3])
                self.nseq = nseq
                self.paths += 1
                if len(outs) > limit:
                    raise Unsupported('too many paths')
                try:
                    try:
                        r = run()
                        out = Outcome('return', r, self.st)
                    except PyRaise as e:
                        out = Outcome('raise', e.value, self.st)
                except (Infeasible, PathEnd):
                    continue
                outs.append(out)
        finally:
            self.st, self.oracle, self.depth, self.loopctx = saved
        return outs

    # -- symbols ----------------------------------------------------------------

    def uf(self, name, *sorts):
        key = (name,) + tuple(s.name() for s in sorts)
        if key not in self.ufs:
            self.ufs[key] = z3.Function(name, *sorts)
        return self.ufs[key]

    def fresh(self, name, sort):
        self.st.fresh += 1
        nm = '%s!%d' % (name, self.st.fresh)
        if self.loopctx:
            return z3.Function(nm, *([k.sort() for k in self.loopctx]
                                     + [sort]))(*self.loopctx)
        return z3.Const(nm, sort)

    def lit(self, s):
        """The Str term of a literal."""
        if s not in self.lits:
            c = z3.Const('lit:' + s, Str)
            for t in self.lits.values():
                self.axiom(c != t)
            self.lits[s] = c
            for (suffix, f) in list(self.ext.suffix_funcs(self)):
                self.axiom(f(c) == z3.BoolVal(s.endswith(suffix)))
            for pre, num in self.numbered:
                self._number(s, pre, num)
        return self.lits[s]

    def ty(self, t):
        """The Ty constant of a Python/External/class type."""
        name = t.__name__ if isinstance(t, type) else t.name if isinstance(
            t, External) else '%s.%s' % (t.module.name, t.name)
        if name not in self.tyconsts:
            c = z3.Const('ty:' + name, Ty)
            for d in self.tyconsts.values():
                self.axiom(c != d)
            self.tyconsts[name] = c
        return self.tyconsts[name]

    def text(self, v):
        """The Str term of a text value."""
        if isinstance(v, str):
            return self.lit(v)
        if is_sort(v, Str):
            return v
        if isinstance(v, Rope):
            if any(isinstance(p, Dec) for p in v.parts):
                v = Rope([self.decimal(p) if isinstance(p, Dec) else p
                          for p in v.parts])
            if not v.parts:
                return self.lit('')
            if len(v.parts) == 1 and isinstance(v.parts[0], str):
                return self.lit(v.parts[0])
            if len(v.parts) == 1 and is_sort(v.parts[0], Str):
                return v.parts[0]
            shape = []
            args = []
            for p in v.parts:
                if isinstance(p, str):
                    shape.append(repr(p))
                elif isinstance(p, Dec):
                    shape.append('%d')
                    args.append(p.num)
                else:
                    shape.append('%s')
                    args.append(p)
            name = 'text:' + ' '.join(shape)
            if not args:
                return self.lit(''.join(v.parts))
            f = self.uf(name, *([a.sort() for a in args] + [Str]))
            if ('shape', name) not in self.isreg:
                self.isreg[('shape', name)] = v.parts
                self._shape_axioms(v.parts, f, [a.sort() for a in args])
            return f(*args)
        raise Unsupported('text of %r' % (v,))

    @staticmethod
    def decimal(p):
        n = z3.simplify(p.num) if is_z3(p.num) else p.num
        if isinstance(n, int):
            return str(n)
        return str(n.as_long()) if z3.is_int_value(n) else p

    def unrope(self, v):
        """The pieces of a text that was made of pieces."""
        if not is_sort(v, Str) or not z3.is_app(v):
            return v
        shape = self.isreg.get(('shape', v.decl().name()))
        if shape is None or not v.num_args():
            return v
        args = [z3.simplify(a) for a in v.children()]
        return Rope([p if isinstance(p, str) else Dec(args.pop(0))
                     if isinstance(p, Dec) else args.pop(0) for p in shape])

    def _shape_axioms(self, parts, f, sorts):
        """What the beginning of a text says about its parts."""
        xs = [z3.Const('x!%d' % i, s) for i, s in enumerate(sorts)]
        t = f(*xs)
        nxt = parts[1] if len(parts) > 1 else None
        if is_sort(parts[0], Str) and isinstance(nxt, str) and not (
                nxt[0].isalnum() or nxt[0] == '_'):
            # an identifier ends where another character begins
            head = self.uf('text before ' + nxt[0], Str, Str)
            self.axiom(z3.ForAll(xs, z3.Implies(
                self.uf('isident', Str, Bool)(xs[0]), head(t) == xs[0]),
                patterns=[t]))
            # and what follows that character is the rest of the text
            tail = [p for p in (nxt[1:],) if p] + list(parts[2:])
            left, rest = xs[1:], []
            for p in tail:
                rest.append(p if isinstance(p, str) else
                            Dec(left.pop(0)) if isinstance(p, Dec) else
                            left.pop(0))
            if len(tail) > 1 or tail and is_sort(tail[0], Str):
                after = self.uf('text after ' + nxt[0], Str, Str)
                self.axiom(z3.ForAll(xs, z3.Implies(
                    self.uf('isident', Str, Bool)(xs[0]),
                    after(t) == self.text(Rope(rest))), patterns=[t]))
            if all(s == Str for s in sorts):
                # identifiers do not contain that character
                count = self.uf('occurrences of ' + nxt[0], Str, Int)
                x = z3.Const('x!', Str)
                isident = self.uf('isident', Str, Bool)
                self.axiom_once('occurrences of ' + nxt[0], lambda: z3.ForAll(
                    [x], z3.Implies(isident(x), count(x) == 0),
                    patterns=[count(x)]))
                self.axiom(z3.ForAll(xs, z3.Implies(
                    z3.And([isident(x) for x in xs]), count(t) == sum(
                        p.count(nxt[0]) for p in parts
                        if isinstance(p, str))), patterns=[t]))
        if sorts == [Str]:
            # with an empty part, it is the text of the others
            rest = Rope([p for p in parts if isinstance(p, str)])
            self.axiom(f(self.lit('')) == self.text(rest))
        i = 1 if isinstance(parts[0], str) else 0
        if i < len(parts) and isinstance(parts[i], Dec) and (
                i + 1 == len(parts) or isinstance(parts[i + 1], str)
                and not parts[i + 1][0].isdigit()) and (
                i == 0 or not parts[0][-1:].isdigit()
                and parts[0][-1:] != '-'):
            num = self.uf('number after %r' % (parts[0] if i else ''),
                          Str, Int)
            self.axiom(z3.ForAll(xs, num(t) == xs[0], patterns=[t]))
            if len(parts) == i + 1:
                pre = parts[0] if i else ''
                self.numbered.append((pre, num))
                for s in list(self.lits):
                    self._number(s, pre, num)

    def _number(self, s, pre, num):
        """What is known of the number in the literal s after pre."""
        t = s[len(pre):] if s.startswith(pre) else ''
        c = self.lits[s]
        if t.isascii() and t.isdigit() and str(int(t)) == t:
            self.axiom(num(c) == int(t))
            return
        # not a decimal number after pre: no such text equals it
        f = self.uf('text:%s%%d' % (repr(pre) + ' ' if pre else ''), Int, Str)
        x = z3.Int('x!num')
        if not (t.startswith('-') and t[1:].isdigit()):
            self.axiom(z3.ForAll([x], f(x) != c, patterns=[f(x)]))

    def to_u(self, v):
        """Embed any immutable value into the opaque sort U."""
        if is_sort(v, U):
            return v
        if v is None:
            return z3.Const('u:None', U)
        if isinstance(v, Alt):
            r = None
            for c, x in reversed(v.alts):
                t = self.to_u(x)
                r = t if r is None else z3.If(c, t, r)
            return r
        if isinstance(v, bool):
            v = z3.BoolVal(v)
        if isinstance(v, int):
            v = z3.IntVal(v)
        if is_text(v):
            return self._inj('str', self.text(v))
        if isinstance(v, z3.BoolRef):
            return self._inj('bool', v)
        if isinstance(v, z3.ArithRef):
            return self._inj('int', v)
        if isinstance(v, (float, bytes)):
            c = z3.Const('u:%r' % (v,), U)
            return c
        if is_z3(v):
            return self._inj(v.sort().name(), v)
        if isinstance(v, tuple):
            f = self.uf('u:tuple%d' % len(v), *([U] * len(v) + [U]))
            return f(*[self.to_u(x) for x in v])
        if isinstance(v, Cmp):
            f = self.uf('u:cmp' + v.op, U, U, U)
            return f(self.to_u(v.a), self.to_u(v.b))
        raise Unsupported('opaque embedding of %r' % (v,))

    def _inj(self, tag, t):
        f = self.uf('u:' + tag, t.sort(), U)
        inv = self.uf('u:un' + tag, U, t.sort())
        kind = self.uf('u:kind', U, z3.IntSort())
        u = f(t)
        key = ('inj', u.get_id())
        if key not in self.isreg:
            self.isreg[key] = u
            tags = self.isreg.setdefault('tags', {'None': 0})
            k = tags.setdefault(tag, len(tags))
            if not self._has_bound(t):
                self.axiom(inv(u) == t)
                self.axiom(kind(u) == k)
                self.axiom(kind(z3.Const('u:None', U)) == 0)
        return u

    @staticmethod
    def _has_bound(t):
        return False

    def isinst(self, u, t):
        """Predicate: the opaque value u is an instance of type t."""
        p = self.uf('isinst', U, Ty, Bool)
        c = self.ty(t)
        name = c.sexpr()
        types = self.isreg.setdefault('is:types', {})
        terms = self.isreg.setdefault('is:terms', {})
        if name not in types:
            types[name] = (t, c)
            for x in terms.values():
                self._is_axioms(x, name)
        if u.get_id() not in terms:
            terms[u.get_id()] = u
            for n in types:
                self._is_axioms(u, n)
        return p(u, c)

    def _is_axioms(self, u, name):
        """What the type `name` says about u, given the types before it."""
        types = self.isreg['is:types']
        t, c = types[name]
        p = self.uf('isinst', U, Ty, Bool)
        typeof = self.uf('typeof', U, Ty)
        self.axiom(z3.Implies(typeof(u) == c, p(u, c)))
        self.axiom(z3.Not(p(z3.Const('u:None', U), c)))
        if t is bool:
            self.axiom(p(u, c) == (typeof(u) == c))
        for other, (o, d) in types.items():
            if other == name:
                break
            self._relate(p, u, t, o)
            self._relate(p, u, o, t)
            if self.ext.type_relation(t, o) == 'disjoint' or \
                    self.ext.type_relation(o, t) == 'disjoint':
                self.axiom(z3.Not(z3.And(p(u, c), p(u, d))))

    def _relate(self, p, u, a, b):
        if self.ext.type_relation(a, b) == 'sub':
            self.axiom(z3.Implies(p(u, self.ty(a)), p(u, self.ty(b))))

    # containers of unknown size for the contracts

    def size(self, name):
        """A container size: a symbol, or the next concrete bound."""
        i = self.nseq
        self.nseq += 1
        if self.bound is None:
            n = z3.Int('n_' + name)
            self.assume(n >= 0)
            return n
        return self.bound[i] if i < len(self.bound) else self.bound[-1]

    def parts(self, n, v, label=''):
        """The elements v(0) .. v(n-1) as container parts."""
        if isinstance(n, int):
            return tuple(('i', v(z3.IntVal(j))) for j in range(n))
        return (Seg(n, v, label=label),)

    def dparts(self, n, k, v, inv=None, label=''):
        if isinstance(n, int):
            for a in range(n):
                for b in range(a):
                    self.assume(k(z3.IntVal(a)) != k(z3.IntVal(b)))
            return tuple(('i', k(z3.IntVal(j)), v(z3.IntVal(j)))
                         for j in range(n))
        return (Seg(n, v, k=k, inv=inv, label=label),)

    def dparts_mixed(self, n, k, v, g, inv, label=''):
        """The entries k(j): v(j) for which g(j), in an unknown order."""
        if isinstance(n, int):
            for a in range(n):
                for b in range(a):
                    self.assume(k(z3.IntVal(a)) != k(z3.IntVal(b)))
            order = range(n)
            if n > 1 and self.choose([True, True]):
                order = range(n - 1, -1, -1)
            return tuple(('i', k(j), v(j)) for j in map(z3.IntVal, order)
                         if self.branch(g(j)))
        p = z3.Function('order:' + label, Int, Int)
        q = z3.Function('order:inv:' + label, Int, Int)
        j = z3.Int('j!ord')
        for a, b in ((p, q), (q, p)):
            self.assume(z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < n), z3.And(
                    0 <= a(j), a(j) < n, b(a(j)) == j)), patterns=[a(j)]))
        return (Seg(n, lambda j: v(p(j)), lambda j: g(p(j)), lambda j: k(
            p(j)), lambda s: q(inv(s)), label),)

    # -- heap ------------------------------------------------------------------

    def alloc(self, payload):
        self.st.next += 1
        oid = self.st.next
        self.st.heap[oid] = payload
        return Ref(oid)

    def h(self, ref):
        return self.st.heap[ref.oid]

    def put(self, ref, payload):
        if getattr(self.st.heap.get(ref.oid), 'constant', False):
            raise Unsupported('changes an object that outlives the call')
        self.st.heap[ref.oid] = payload

    def constant(self, expr, fr):
        """The value of a variable of a module or class, or of a default
        argument: evaluated each time, and must not be changed."""
        n = self.st.next
        v = self.eval(expr, fr)
        for oid in range(n + 1, self.st.next + 1):
            p = self.st.heap.get(oid)
            if isinstance(p, (HList, HDict)) or isinstance(
                    p, HObj) and isinstance(p.cls, ClassInfo):
                p.constant = True
        return v

    def new_list(self, parts=()):
        return self.alloc(HList(parts))

    def new_dict(self, parts=()):
        return self.alloc(HDict(parts))

    def exc(self, cls, *args):
        """Make an exception object of a Python exception class."""
        return self.alloc(HObj(cls, {'args': tuple(args)}))

    def raise_(self, cls, *args):
        raise PyRaise(self.exc(cls, *args))

    # -- modules ---------------------------------------------------------------

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        tree = parse_module(name)
        if tree is None:
            raise Unsupported('no module ' + name)
        m = Module(name)
        m.is_pkg = os.path.isdir(os.path.join(ROOT, *name.split('.')))
        self.modules[name] = m
        m.ns['__name__'] = name
        self.exec_module(tree.body, m)
        return m

    def exec_module(self, body, m):
        for s in body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.do_import(s, m.ns, m)
            elif isinstance(s, ast.FunctionDef):
                m.ns[s.name] = self.decorated(s, m, None, {})
            elif isinstance(s, ast.ClassDef):
                m.ns[s.name] = self.make_class(s, m)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.ns[t.id] = Lazy(s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.ns[e.id] = Lazy(ast.Subscript(
                                    s.value, ast.Constant(i), ast.Load()))
            elif isinstance(s, ast.AnnAssign) and s.value is not None \
                    and isinstance(s.target, ast.Name):
                m.ns[s.target.id] = Lazy(s.value)
            elif isinstance(s, ast.Expr):
                pass
            elif isinstance(s, ast.If):
                # e.g. version switches: decided by the imports available
                self.exec_module(s.body, m)
            elif isinstance(s, ast.Try):
                self.exec_module(s.body, m)

    def do_import(self, s, ns, m):
        if isinstance(s, ast.Import):
            for a in s.names:
                top = a.name.split('.')[0]
                if a.asname:
                    ns[a.asname] = self.import_name(a.name)
                else:
                    ns[top] = self.import_name(top)
            return
        base = s.module or ''
        if s.level:
            pkg = m.name.split('.')
            up = s.level - (1 if m.is_pkg else 0)
            if up:
                pkg = pkg[:-up]
            base = '.'.join(pkg + ([base] if base else []))
        for a in s.names:
            nm = a.asname or a.name
            if a.name == '*':
                raise Unsupported('import *')
            if base.split('.')[0] == 'dsch':
                if parse_module(base + '.' + a.name) is not None:
                    ns[nm] = ('lazymod', base + '.' + a.name)
                else:
                    ns[nm] = ('lazyattr', base, a.name)
            else:
                ns[nm] = self.import_name(base + '.' + a.name)

    def import_name(self, name):
        if name.split('.')[0] == 'dsch':
            return ('lazymod', name)
        return self.ext.external(name)

    def resolve(self, v, m, key, ns):
        """Evaluate lazily bound module names."""
        if isinstance(v, tuple) and v and v[0] == 'lazymod':
            return self.module(v[1])
        if isinstance(v, tuple) and v and v[0] == 'lazyattr':
            return self.mod_attr(self.module(v[1]), v[2])
        if isinstance(v, Lazy):
            return self.constant(v.expr, v.frame or Frame(None, m, {}))
        return v

    def mod_attr(self, m, name):
        if name in m.ns:
            return self.resolve(m.ns[name], m, name, m.ns)
        if parse_module(m.name + '.' + name) is not None:
            return self.module(m.name + '.' + name)
        self.raise_(AttributeError, name)

    def make_class(self, s, m, frame=None):
        fr = frame or Frame(None, m, {})
        bases = [self.eval(b, fr) for b in s.bases]
        c = ClassInfo(s.name, bases, {}, m)
        c.ns['__doc__'] = None
        for t in s.body:
            if isinstance(t, ast.FunctionDef):
                c.ns[t.name] = self.decorated(t, m, c, c.ns)
            elif isinstance(t, ast.Assign):
                for x in t.targets:
                    if isinstance(x, ast.Name):
                        c.ns[x.id] = self.class_variable(t.value, m, c)
            elif isinstance(t, ast.AnnAssign) and t.value is not None:
                c.ns[t.target.id] = self.class_variable(t.value, m, c)
            elif isinstance(t, (ast.Pass, ast.Expr, ast.AnnAssign)):
                pass
            else:
                raise Unsupported('class body: ' + type(t).__name__)
        for d in s.decorator_list:
            raise Unsupported('class decorator')
        return c

    def class_variable(self, expr, m, c):
        fr = Frame(None, m, {k: v for k, v in c.ns.items()
                             if not isinstance(v, Lazy)})
        v = self.eval(expr, fr)
        return Lazy(expr, fr) if isinstance(v, (Ref, Alt)) else v

    def decorated(self, node, m, cls, ns, closure=None):
        f = Func(node, m, cls, closure)
        v = f
        for d in reversed(node.decorator_list):
            if isinstance(d, ast.Name) and d.id == 'property':
                v = Prop(fget=v)
            elif isinstance(d, ast.Name) and d.id == 'classmethod':
                v = ClassM(v)
            elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                v = StaticM(v)
            elif isinstance(d, ast.Attribute) and d.attr in (
                    'setter', 'getter') and isinstance(d.value, ast.Name):
                old = ns.get(d.value.id)
                if not isinstance(old, Prop):
                    raise Unsupported('property setter')
                v = Prop(old.fget, v) if d.attr == 'setter' else Prop(
                    v, old.fset)
            else:
                raise Unsupported('decorator %s' % ast.unparse(d))
        return v

    def cls(self, module, name):
        v = self.mod_attr(self.module(module), name)
        if not isinstance(v, ClassInfo):
            raise Unsupported('%s.%s is no class' % (module, name))
        return v

    # -- operations ------------------------------------------------------------

    def force(self, v):
        """Resolve a value that depends on the state by forking."""
        while isinstance(v, Alt):
            i = self.choose([c for c, _ in v.alts])
            v = v.alts[i][1]
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def truth(self, v):
        """Truth value as bool or z3 formula."""
        v = self.force(v)
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, Cmp):
            return self.cmp_formula(v)
        if is_text(v):
            if isinstance(v, Rope) and any(isinstance(p, str) or
                                           isinstance(p, Dec)
                                           for p in v.parts):
                return True
            return self.text(v) != self.lit('')
        if is_sort(v, U):
            t = self.uf('truth', U, Bool)
            return z3.And(v != self.to_u(None), t(v))
        if is_sort(v, Sch):
            return True
        if is_sort(v, Node):
            return self.ext.node_truth(self, v)
        if isinstance(v, SetV):
            return self.b_cmp('>', self.parts_len(v.parts), 0)
        if isinstance(v, STuple):
            return self.b_cmp('>', self.length(v), 0)
        if isinstance(v, Ref):
            p = self.h(v)
            if isinstance(p, (HList, HDict)):
                return self.b_cmp('>', self.length(v), 0)
            if isinstance(p.cls, ClassInfo):
                for nm in ('__bool__', '__len__'):
                    if p.cls.lookup(nm):
                        r = self.call(self.getattr(v, nm), [], {})
                        return self.truth(r)
                return True
            return self.ext.native_truth(self, v, p)
        if isinstance(v, (ClassInfo, Func, BM, type, External, Builtin,
                          NativeBM, Module)):
            return True
        raise Unsupported('truth of %r' % (v,))

    def cond(self, v):
        return self.branch(self.truth(v))

    def b_cmp(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return {'>': a > b, '<': a < b, '>=': a >= b, '<=': a <= b}[op]
        return {'>': a > b, '<': a < b, '>=': a >= b, '<=': a <= b}[op]

    def cmp_formula(self, c):
        a, b, op = self.to_u(c.a), self.to_u(c.b), c.op
        if op in ('<', '<='):
            a, b, op = b, a, {'<': '>', '<=': '>='}[op]
        return self.uf('num' + op, U, U, Bool)(a, b)

    def length(self, v):
        v = self.force(v)
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, (STuple, View)):
            return self.parts_len(v.parts)
        if isinstance(v, SetV):
            return self.set_len(v)
        if isinstance(v, Ref):
            p = self.h(v)
            if isinstance(p, (HList, HDict)):
                return self.parts_len(p.parts)
            if isinstance(p.cls, ClassInfo) and p.cls.lookup('__len__'):
                return self.force(self.call(self.getattr(v, '__len__'), [],
                                            {}))
            return self.ext.native_len(self, v, p)
        if is_text(v):
            f = self.uf('strlen', Str, Int)
            t = f(self.text(v))
            self.assume(t >= 0)
            return t
        if is_sort(v, U):
            return self.ext.u_len(self, v)
        if isinstance(v, (int, z3.ArithRef)) or v is None:
            self.raise_(TypeError, 'object has no len()')
        raise Unsupported('len of %r' % (v,))

    def parts_len(self, parts):
        n = 0
        for p in parts:
            if isinstance(p, Seg):
                if p.g is None:
                    n = n + p.n
                else:
                    c = getattr(p, 'count', None)
                    if c is None:
                        if self.loopctx:
                            raise Unsupported('number of elements in a loop')
                        k = self.isreg['ncount'] = self.isreg.get(
                            'ncount', 0) + 1
                        c = z3.Int('count#%d' % k)
                        p.count = c
                        j = z3.Int('j!cnt')
                        self.axiom(c >= 0)
                        self.axiom(z3.Implies(p.n >= 0, c <= p.n))
                        self.axiom(z3.ForAll([j], z3.Implies(
                            z3.And(0 <= j, j < p.n, p.g(j)), c > 0)))
                        w = z3.Int('counted#%d' % k)
                        self.axiom(z3.Implies(c > 0, z3.And(
                            0 <= w, w < p.n, p.g(w))))
                    n = n + c
            else:
                n = n + 1
        return n

    def set_len(self, v):
        if any(isinstance(p, Seg) for p in v.parts):
            raise Unsupported('number of elements of a set')
        n = 0
        for i, p in enumerate(v.parts):
            dup = False
            for q in v.parts[:i]:
                dup = self.or_(dup, self.eq_nofork(p[1], q[1]))
            if isinstance(dup, bool):
                n = n + (0 if dup else 1)
            else:
                n = n + z3.If(dup, 0, 1)
        return n

    def eq(self, a, b):
        """Python == as bool or formula."""
        a, b = self.force(a), self.force(b)
        if isinstance(a, Frozen) or isinstance(b, Frozen):
            raise Unsupported('== of loop object')
        conc = (bool, int, float, str, bytes, type(None))
        if isinstance(a, conc) and isinstance(b, conc):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = self.and_(r, self.eq(x, y))
            return r
        if isinstance(a, (tuple, STuple)) and isinstance(b, (tuple, STuple)):
            return self.seq_eq_iff(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                p = self.h(x)
                if isinstance(p, HObj) and isinstance(p.cls, ClassInfo):
                    if p.cls.lookup('__eq__') or p.ghost.get('sid') \
                            is not None:
                        return self.truth(self.call(
                            self.getattr(x, '__eq__'), [y], {}))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            pa, pb = self.h(a), self.h(b)
            if isinstance(pa, HList) and isinstance(pb, HList):
                return self.seq_eq_iff(a, b)
            if isinstance(pa, HDict) or isinstance(pb, HDict):
                raise Unsupported('== of dicts')
            if isinstance(pa, HObj) and isinstance(pb, HObj):
                return self.ext.native_eq(self, a, b)
            return False
        if isinstance(a, Ref) or isinstance(b, Ref):
            o = b if isinstance(a, Ref) else a
            r = a if isinstance(a, Ref) else b
            if o is None or isinstance(o, conc) or isinstance(o, tuple):
                return False
            return self.ext.native_eq(self, r, o)
        if is_text(a) and is_text(b):
            return self.text_eq(a, b)
        if is_int(a) and is_int(b):
            return a == b
        if isinstance(a, (z3.BoolRef, bool)) and isinstance(
                b, (z3.BoolRef, bool)):
            return z3.BoolVal(a) == b if isinstance(a, bool) else a == b
        types = (type, ClassInfo, External, Builtin, Func, Module)
        if isinstance(a, types) and isinstance(b, types):
            return a == b if type(a) is type(b) else False
        if is_sort(a, Ty) or is_sort(b, Ty):
            x = a if is_sort(a, Ty) else self.ty(a)
            y = b if is_sort(b, Ty) else self.ty(b)
            return x == y
        if is_sort(a, Sch) and is_sort(b, Sch):
            cfg = self.ext.cfg(self)
            return cfg(a) == cfg(b)
        if is_sort(a, Node) and is_sort(b, Node):
            return a == b
        if a is None or b is None:
            o = b if a is None else a
            if is_sort(o, U):
                return o == self.to_u(None)
            return False
        if is_sort(a, U) or is_sort(b, U):
            return self.ext.u_eq(self, a, b)
        if is_text(a) != is_text(b) or is_int(a) != is_int(b):
            return False
        raise Unsupported('== of %r and %r' % (a, b))

    def text_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return self.text(a) == self.text(b)

    def and_(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return z3.And(a, b)

    def or_(self, a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        return z3.Or(a, b)

    def not_(self, a):
        return (not a) if isinstance(a, bool) else z3.Not(a)

    def seq_parts(self, v):
        v = self.force(v)
        if isinstance(v, tuple):
            return tuple(('i', x) for x in v)
        if isinstance(v, (STuple, View)):
            return v.parts
        if isinstance(v, Ref):
            p = self.h(v)
            if isinstance(p, HList):
                return p.parts
        if isinstance(v, Frozen) and isinstance(v.payload, HList):
            return v.payload.parts
        raise Unsupported('sequence %r' % (v,))

    def seq_eq_iff(self, a, b):
        """== of two sequences, exactly, where that is expressible."""
        pa, pb = self.seq_parts(a), self.seq_parts(b)
        if all(not isinstance(p, Seg) for p in pa + pb):
            if len(pa) != len(pb):
                return False
            r = True
            for x, y in zip(pa, pb):
                r = self.and_(r, self.eq(x[1], y[1]))
            return r
        if any(isinstance(p, Seg) and p.g is not None for p in pa + pb):
            raise Unsupported('== of filtered sequences')
        la, lb = self.parts_len(pa), self.parts_len(pb)
        j = self.fresh('je', Int)
        jb = z3.Int('j!eq')
        ea, eb = self.index_parts(pa, j), self.index_parts(pb, j)
        f = self.value_eq(ea, eb)
        body = z3.substitute(f, (j, jb)) if is_z3(f) else z3.BoolVal(f)
        return z3.And(la == lb, z3.ForAll([jb], z3.Implies(
            z3.And(0 <= jb, jb < la), body)))

    def value_eq(self, a, b):
        """Equality of two immutable values without forking (identity of
        heap objects)."""
        if isinstance(a, Alt) or isinstance(b, Alt):
            aa = a.alts if isinstance(a, Alt) else [(True, a)]
            bb = b.alts if isinstance(b, Alt) else [(True, b)]
            r = False
            for ca, x in aa:
                for cb, y in bb:
                    r = self.or_(r, self.and_(self.and_(ca, cb),
                                              self.value_eq(x, y)))
            return r
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            return o == self.to_u(None) if is_sort(o, U) else False
        if isinstance(a, Ref) or isinstance(b, Ref):
            return a == b if isinstance(a, Ref) and isinstance(b, Ref) \
                else False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = self.and_(r, self.value_eq(x, y))
            return r
        if is_text(a) and is_text(b):
            return self.text_eq(a, b)
        if is_int(a) and is_int(b):
            return a == b
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(
                b, (bool, z3.BoolRef)):
            return a == b if isinstance(b, z3.BoolRef) or isinstance(
                a, bool) else a == z3.BoolVal(b)
        conc = (bool, int, float, str, bytes)
        if isinstance(a, conc) and isinstance(b, conc):
            return type(a) is type(b) and a == b
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return a == b
        if is_sort(a, U) or is_sort(b, U):
            try:
                return self.to_u(a) == self.to_u(b)
            except Unsupported:
                raise
        if is_z3(a) and is_z3(b):
            return False
        if isinstance(a, (type, ClassInfo, External)) and isinstance(
                b, (type, ClassInfo, External)):
            return a == b
        if is_z3(a) or is_z3(b):
            return False
        raise Unsupported('equality of %r and %r' % (a, b))

    def index_parts(self, parts, j):
        """Element at index term j (assumed in range) of ungarded parts."""
        off = 0
        alts = []
        if isinstance(j, int) and all(not isinstance(p, Seg) for p in parts):
            return parts[j][1]
        for p in parts:
            if isinstance(p, Seg):
                if p.g is not None:
                    raise Unsupported('index into filtered sequence')
                if len(parts) == 1:
                    return p.v(self.ix(j))
                c = self.and_(self.b_cmp('>=', j, off),
                              self.b_cmp('<', j, off + p.n))
                if getattr(p, 'acc', None) is not None and is_z3(c) and \
                        not self.feasible([c]):
                    off = off + p.n
                    continue
                alts.append((c, p.v(self.ix(j - off))))
                off = off + p.n
            else:
                c = (j == off) if is_z3(j) or is_z3(off) else j == off
                alts.append((c, p[1]))
                off = off + 1
        alts = [(c, v) for c, v in alts if c is not False]
        for c, v in alts:
            if c is True:
                return v
        if not alts:
            raise Infeasible()
        if len(alts) == 1:
            return alts[0][1]
        return Alt(alts)

    @staticmethod
    def ix(j):
        return z3.IntVal(j) if isinstance(j, int) else z3.simplify(j)

    def is_(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if is_sort(o, U):
                return o == self.to_u(None)
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            o, c = (b, a) if isinstance(a, bool) else (a, b)
            if isinstance(o, bool):
                return o == c
            if isinstance(o, z3.BoolRef):
                return o == z3.BoolVal(c)
            if is_sort(o, U):
                return o == self.to_u(c)
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, Ref) or isinstance(b, Ref):
            return False
        if is_z3(a) and is_z3(b) and a.sort() == b.sort() and a.sort() in (
                Node, Sch, U, Ty):
            return a == b
        if isinstance(a, (type, ClassInfo, External, Builtin)) and isinstance(
                b, (type, ClassInfo, External, Builtin)):
            return a == b
        if is_sort(a, Ty) or is_sort(b, Ty):
            return self.eq(a, b)
        if type(a) is type(b) and isinstance(a, (str, int)):
            return a == b
        if is_z3(a) and is_z3(b) and a.sort() != b.sort():
            return False
        raise Unsupported('is of %r and %r' % (a, b))

    def contains(self, item, cont):
        cont = self.force(cont)
        if isinstance(cont, SetV):
            cont = STuple(cont.parts)
        if isinstance(cont, tuple) or isinstance(cont, (STuple, View)) or (
                isinstance(cont, Ref) and isinstance(self.h(cont), HList)):
            r = False
            for p in self.seq_parts(cont):
                if isinstance(p, Seg):
                    mem = getattr(p, 'member', None)
                    if mem is not None and is_text(item):
                        r = self.or_(r, mem(self.text(item)))
                        continue
                    j = z3.Int('j!in')
                    if is_int(item) and is_z3(p.v(j)) and z3.simplify(
                            p.v(j)).eq(j):
                        # the element at j is j
                        f = z3.And(0 <= item, item < p.n)
                        if p.g is not None:
                            f = z3.And(f, p.g(item if is_z3(
                                item) else z3.IntVal(item)))
                        r = self.or_(r, f)
                        continue
                    kk = self.fresh('kin', Int)
                    f = self.eq_nofork(item, p.v(kk))
                    f = z3.substitute(f, (kk, j)) if is_z3(f) else f
                    rng = z3.And(0 <= j, j < p.n)
                    if p.g is not None:
                        rng = z3.And(rng, p.g(j))
                    r = self.or_(r, z3.Exists([j], z3.And(rng, f)))
                else:
                    r = self.or_(r, self.eq(item, p[1]))
            return r
        if isinstance(cont, str) and isinstance(item, str):
            return item in cont
        if isinstance(cont, Ref):
            p = self.h(cont)
            if isinstance(p, HDict):
                return self.dict_has(p, item)
            if isinstance(p.cls, ClassInfo) and p.cls.lookup('__contains__'):
                return self.truth(self.call(
                    self.getattr(cont, '__contains__'), [item], {}))
            return self.ext.native_contains(self, item, cont, p)
        if is_text(cont) and is_text(item):
            return self.ext.text_contains(self, item, cont)
        raise Unsupported('in %r' % (cont,))

    def eq_nofork(self, a, b):
        if isinstance(b, Alt) or isinstance(a, Alt):
            return self.value_eq(a, b)
        return self.eq(a, b)

    # dicts

    def key_eq(self, a, b):
        return self.value_eq(a, b)

    def dict_has(self, p, key):
        key = self.force(key)
        r = False
        for e in p.parts:
            if isinstance(e, Seg):
                r = self.or_(r, self.seg_has(e, key))
            else:
                r = self.or_(r, self.key_eq(e[1], key))
        return r

    def seg_at(self, seg, key):
        """Index of key in a family of entries, if syntactically evident or
        through the inverse function."""
        if not is_text(key):
            if is_sort(key, U):
                raise Unsupported('opaque key')
            return None
        kt = self.text(key)
        probe = z3.Int('j!probe')
        pat = seg.k(probe)
        pat = z3.simplify(self.text(pat))
        m = match(pat, kt, probe)
        if m is not None:
            return m
        if seg.inv is None:
            raise Unsupported('lookup of a symbolic key')
        return seg.inv(kt)

    def seg_has(self, seg, key):
        i = self.seg_at(seg, key)
        if i is None:
            return False
        f = z3.And(0 <= i, i < seg.n,
                   self.text(seg.k(i)) == self.text(key))
        if seg.g is not None:
            f = z3.And(f, seg.g(i))
        return f

    def dict_get(self, p, key):
        """(found?, value) by forking over the entries."""
        key = self.force(key)
        for e in p.parts:
            # keys are unique
            if not isinstance(e, Seg) and is_text(key) and is_text(
                    e[1]) and self.text(e[1]).eq(self.text(key)):
                return True, e[2]
        conds, vals = [], []
        none = True
        for e in p.parts:
            if isinstance(e, Seg):
                i = self.seg_at(e, key)
                if i is None:
                    continue
                c = self.seg_has(e, key)
                v = (e, i)
            else:
                c = self.key_eq(e[1], key)
                v = e[2]
            if c is False:
                continue
            if c is True:
                conds = [z3.BoolVal(True)]
                vals = [v]
                none = False
                break
            conds.append(c)
            vals.append(v)
            none = self.and_(none, z3.Not(c))
        if not conds:
            return False, None
        if none is False:
            v = vals[0]
        else:
            # later entries of equal key cannot exist; keys are distinct
            i = self.choose(conds + [none])
            if i == len(conds):
                return False, None
            v = vals[i]
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Seg):
            return True, v[0].v(self.ix(v[1]))
        return True, v

    def dict_set(self, ref, key, value):
        p = self.h(ref)
        key = self.force(key)
        parts = list(p.parts)
        for i, e in enumerate(parts):
            if isinstance(e, Seg):
                if getattr(e, 'acc', None) is not None:
                    # keys of different iterations are distinct (checked by
                    # the loop summary)
                    continue
                c = self.seg_has(e, key)
                if isinstance(c, bool):
                    hit = c
                else:
                    hit = self.branch(c)
                if hit:
                    at = self.seg_at(e, key)
                    old = e.v
                    parts[i] = Seg(e.n, lambda j, at=at, old=old:
                                   merge_if(j == at, value, old(j), self),
                                   e.g, e.k, e.inv, e.label)
                    self.put(ref, HDict(parts))
                    return
            else:
                c = self.key_eq(e[1], key)
                if c is True or (c is not False and self.branch(c)):
                    parts[i] = ('i', e[1], value)
                    self.put(ref, HDict(parts))
                    return
        parts.append(('i', key, value))
        self.put(ref, HDict(parts))

    def dict_del(self, ref, key):
        p = self.h(ref)
        key = self.force(key)
        parts = list(p.parts)
        for i, e in enumerate(parts):
            if isinstance(e, Seg):
                c = self.seg_has(e, key)
                if c is not False and self.branch(c):
                    at = self.seg_at(e, key)
                    g = e.g
                    parts[i] = Seg(e.n, e.v, lambda j, at=at, g=g: z3.And(
                        j != at, *([g(j)] if g else [])), e.k, e.inv,
                        e.label)
                    parts[i].drop = (getattr(e, 'root', e), at)
                    parts[i].root = getattr(e, 'root', e)
                    self.put(ref, HDict(parts))
                    return True
            else:
                c = self.key_eq(e[1], key)
                if c is True or (c is not False and self.branch(c)):
                    del parts[i]
                    self.put(ref, HDict(parts))
                    return True
        return False

    # -- attributes --------------------------------------------------------------

    def getattr(self, v, name, default=NotImplemented):
        try:
            return self._getattr(v, name)
        except PyRaise as e:
            if default is not NotImplemented and self.is_exc(
                    e.value, AttributeError):
                return default
            raise

    def no_attr(self, v, name):
        self.ext.no_attr(self, object, name)

    def _getattr(self, v, name):
        v = self.force(v)
        if isinstance(v, SuperV):
            return self.super_attr(v, name)
        if isinstance(v, Frozen):
            if isinstance(v.payload, HObj) and name in v.payload.attrs:
                return subst_value(v.payload.attrs[name], v.pairs, self)
            raise Unsupported('attribute of loop object')
        if isinstance(v, Ref):
            p = self.h(v)
            if isinstance(p, HList):
                return self.ext.list_attr(self, v, name)
            if isinstance(p, HDict):
                return self.ext.dict_attr(self, v, name)
            over = p.ghost.get('over')
            if over is not None and name in over:
                return NativeBM(name, over[name])
            props = p.ghost.get('props')
            if props is not None:
                if name in props:
                    return props[name]()
                if name in p.attrs:
                    return self.force(p.attrs[name])
                raise Unsupported('attribute %s of an object known by its '
                                  'contract' % name)
            if p.ghost.get('sid') is not None:
                r = self.ext.schema_contract(self, v, p, name)
                if r is not NotImplemented:
                    return r
            if isinstance(p.cls, ClassInfo):
                hit = p.cls.lookup(name)
                if hit and isinstance(hit[1], Prop):
                    return self.force(self.call(hit[1].fget, [v], {}))
                if name in p.attrs:
                    return self.force(p.attrs[name])
                if hit:
                    return self.bind(hit[1], v, p.cls)
                if name == '__class__':
                    return p.cls
                if name == '__module__':
                    return p.cls.module.name
                if name == '__dict__':
                    raise Unsupported('__dict__')
                if p.cls.pybase() is not object:
                    r = self.ext.exc_attr(self, v, p, name)
                    if r is not NotImplemented:
                        return r
                r = self.ext.object_attr(self, v, p, name)
                if r is not NotImplemented:
                    return r
                ga = p.cls.lookup('__getattr__')
                if ga:
                    return self.force(self.call(ga[1], [v, name], {}))
                self.no_attr(v, name)
            return self.ext.native_attr(self, v, p, name)
        if isinstance(v, ClassInfo):
            hit = v.lookup(name)
            if hit:
                x = hit[1]
                if isinstance(x, ClassM):
                    return BM(x.func, v)
                if isinstance(x, StaticM):
                    return x.func
                return self.resolve(x, v.module, name, v.ns)
            if name == '__name__' or name == '__qualname__':
                return v.name
            if name == '__module__':
                return v.module.name
            if name == '__mro__':
                return tuple(v.mro)
            if name == '__bases__':
                return tuple(v.bases)
            self.no_attr(v, name)
        if isinstance(v, Module):
            if name == '__name__':
                return v.name
            return self.mod_attr(v, name)
        if isinstance(v, External):
            return self.ext.ext_attr(self, v, name)
        if isinstance(v, type):
            if name in ('__name__', '__qualname__'):
                return v.__name__
            return self.ext.type_attr(self, v, name)
        if isinstance(v, Func):
            if name == '__name__':
                return v.name
            raise Unsupported('function attribute')
        if is_text(v):
            return self.ext.text_attr(self, v, name)
        if is_z3(v):
            return self.ext.term_attr(self, v, name)
        if isinstance(v, tuple):
            return self.ext.tuple_attr(self, v, name)
        if v is None:
            self.no_attr(v, name)
        return self.ext.value_attr(self, v, name)

    def bind(self, x, self_, cls):
        if isinstance(x, Func):
            return BM(x, self_)
        if isinstance(x, ClassM):
            return BM(x.func, cls)
        if isinstance(x, StaticM):
            return x.func
        return self.resolve(x, None, None, None)

    def super_attr(self, s, name):
        self_ = s.self_
        cls = self_ if isinstance(self_, ClassInfo) else self.h(self_).cls
        hit = cls.lookup(name, after=s.cls)
        if hit:
            if isinstance(hit[1], Prop):
                return self.call(hit[1].fget, [self_], {})
            return self.bind(hit[1], self_, cls)
        r = self.ext.super_native(self, s, cls, name)
        if r is NotImplemented:
            self.ext.no_attr(self, object, name)
        return r

    def setattr(self, v, name, value):
        v = self.force(v)
        if isinstance(v, Ref):
            p = self.h(v)
            if isinstance(p, HObj):
                if isinstance(p.cls, ClassInfo):
                    hit = p.cls.lookup('__setattr__')
                    if hit:
                        self.call(hit[1], [v, name, value], {})
                        return
                    return self.raw_setattr(v, name, value)
                return self.ext.native_setattr(self, v, p, name, value)
        if is_z3(v):
            return self.ext.term_setattr(self, v, name, value)
        raise Unsupported('set attribute of %r' % (v,))

    def raw_setattr(self, v, name, value):
        p = self.h(v)
        hit = p.cls.lookup(name)
        if hit and isinstance(hit[1], Prop):
            if hit[1].fset is None:
                self.raise_(AttributeError, name)
            self.call(hit[1].fset, [v, value], {})
            return
        self.put(v, p.with_attr(name, value))

    # -- calls ---------------------------------------------------------------------

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.force(f)
        if isinstance(f, BM):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, NativeBM):
            return f.call(*args, **kwargs)
        if isinstance(f, ClassInfo):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, External):
            return self.ext.call_external(self, f, args, kwargs)
        if isinstance(f, Builtin):
            return self.ext.call_builtin(self, f.name, args, kwargs)
        if isinstance(f, type):
            return self.ext.call_type(self, f, args, kwargs)
        if f is None or isinstance(f, (int, str)):
            self.raise_(TypeError, 'not callable')
        if isinstance(f, Ref):
            p = self.h(f)
            if isinstance(p, HObj) and isinstance(p.cls, ClassInfo) and \
                    p.cls.lookup('__call__'):
                return self.call(self.getattr(f, '__call__'), args, kwargs)
            return self.ext.native_call(self, f, p, args, kwargs)
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kwargs):
        h = self.contracts.get('new:%s.%s' % (cls.module.name, cls.name))
        if h is not None:
            r = h(self, cls, args, kwargs)
            if r is not NotImplemented:
                return r
        if cls.lookup('__new__'):
            raise Unsupported('__new__')
        obj = self.alloc(HObj(cls, {}))
        init = cls.lookup('__init__')
        if init:
            self.call(init[1], [obj] + list(args), kwargs)
        else:
            self.ext.native_init(self, obj, cls, args, kwargs)
        return obj

    def call_func(self, f, args, kwargs):
        h = self.contracts.get(f.qualname)
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                self.used_contracts.add(f.qualname)
                return r
        if isinstance(f.node, ast.FunctionDef) and f.qualname not in \
                self.inlined:
            self.inlined.add(f.qualname)
        env = self.bind_args(f, args, kwargs)
        frame = Frame(f, f.module, env, f.cls, f.closure)
        if self.depth > MAX_DEPTH:
            raise Unsupported('recursion too deep: %s' % f.qualname)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, frame)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await))
                   for n in ast.walk(f.node)):
                raise Unsupported('generator function')
            try:
                self.exec_body(f.node.body, frame)
            except _Return as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_(TypeError, 'too many arguments')
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        dfr = Frame(None, f.module, {}, None, f.closure)
        defaults = dict(zip(names[len(names) - len(a.defaults):],
                            a.defaults))
        for n in names[len(args):]:
            if n in kwargs:
                env[n] = kwargs.pop(n)
            elif n in defaults:
                env[n] = self.constant(defaults[n], dfr)
            else:
                self.raise_(TypeError, 'missing argument ' + n)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.constant(d, dfr)
            else:
                self.raise_(TypeError, 'missing argument ' + x.arg)
        if kwargs:
            if a.kwarg is None:
                self.raise_(TypeError, 'unexpected arguments %s'
                            % sorted(kwargs))
            env[a.kwarg.arg] = self.new_dict(
                [('i', k, v) for k, v in kwargs.items()])
        elif a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict()
        return env

    def is_exc(self, ref, cls):
        c = self.h(ref).cls
        if isinstance(cls, tuple):
            return any(self.is_exc(ref, x) for x in cls)
        if isinstance(c, ClassInfo):
            return c.issub(cls)
        if isinstance(c, type) and isinstance(cls, type):
            return issubclass(c, cls)
        return c == cls

    # -- statements ------------------------------------------------------------------

    def exec_body(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise _Return(self.eval(s.value, fr) if s.value else None)

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_If(self, s, fr):
        if self.cond(self.eval(s.test, fr)):
            self.exec_body(s.body, fr)
        else:
            self.exec_body(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.cond(self.eval(s.test, fr)):
            self.raise_(AssertionError)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        load = ast.copy_location(type(t)(**{
            **{k: getattr(t, k) for k in t._fields if k != 'ctx'},
            'ctx': ast.Load()}), t)
        old = self.eval(load, fr)
        new = self.eval(s.value, fr)
        if isinstance(old, Ref) and isinstance(self.h(old), HList) \
                and isinstance(s.op, ast.Add):
            self.call(self.getattr(old, 'extend'), [new])
            v = old
        else:
            v = self.binop(s.op, old, new)
        self.assign(t, v, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                self.assign_starred(t.elts, self.force(v), fr)
                return
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        else:
            raise Unsupported('assign ' + type(t).__name__)

    def assign_starred(self, elts, v, fr):
        at = [isinstance(e, ast.Starred) for e in elts].index(True)
        m = len(elts) - 1 - at
        if isinstance(v, (tuple, STuple)):
            ps = self.seq_parts(v)
        elif isinstance(v, Ref) and isinstance(self.h(v), HList):
            ps = self.h(v).parts
        elif isinstance(v, Ref) and hasattr(getattr(
                self.h(v), 'cls', None), 'ops'):
            ps = None
        else:
            ps = self.iter_parts(v)
        if ps is not None:
            nh = 0
            while nh < len(ps) and not isinstance(ps[nh], Seg):
                nh += 1
            nt = 0
            while nt < len(ps) - nh and not isinstance(ps[-1 - nt], Seg):
                nt += 1
            if nh == len(ps):
                if nh < at + m:
                    self.raise_(ValueError, 'unpack')
            elif nh < at or nt < m:
                raise Unsupported('starred assignment')
            end = len(ps) - m
            for e, x in zip(elts[:at], ps):
                self.assign(e, x[1], fr)
            self.assign(elts[at].value, self.new_list(ps[at:end]), fr)
            for e, x in zip(elts[at + 1:], ps[end:]):
                self.assign(e, x[1], fr)
            return
        n = self.length(v)
        if not self.branch(n >= at + m):
            self.raise_(ValueError, 'unpack')
        mid = self.getitem(v, slice(at or None, -m or None))
        vals = [self.getitem(v, i) for i in range(at)]
        last = [self.getitem(v, i - m) for i in range(m)]
        for e, x in zip(elts, vals + [mid] + last):
            self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)

    def unpack(self, v, n):
        v = self.force(v)
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_(ValueError, 'unpack')
            return list(v)
        parts = self.iter_parts(v)
        if any(isinstance(p, Seg) for p in parts):
            raise Unsupported('unpack of unknown length')
        if len(parts) != n:
            self.raise_(ValueError, 'unpack')
        return [p[1] for p in parts]

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.force(self.eval(t.value, fr))
                if isinstance(o, Ref) and isinstance(self.h(o), HObj):
                    if t.attr not in self.h(o).attrs:
                        self.raise_(AttributeError, t.attr)
                    self.put(o, self.h(o).without_attr(t.attr))
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del')

    def s_Raise(self, s, fr):
        if s.exc is None:
            if not fr.exc:
                raise Unsupported('bare raise')
            raise PyRaise(fr.exc[-1])
        e = self.force(self.eval(s.exc, fr))
        if isinstance(e, (ClassInfo, type)):
            e = self.call(e, [])
        if not isinstance(e, Ref):
            raise Unsupported('raise of %r' % (e,))
        p = self.h(e)
        if s.cause is not None:
            c = self.eval(s.cause, fr)
            self.put(e, p.with_attr('__cause__', c))
        elif fr.exc:
            self.put(e, p.with_attr('__context__', fr.exc[-1]))
        raise PyRaise(e)

    def s_Try(self, s, fr):
        try:
            try:
                self.exec_body(s.body, fr)
            except PyRaise as err:
                for hnd in s.handlers:
                    if hnd.type is None:
                        ok = True
                    else:
                        t = self.force(self.eval(hnd.type, fr))
                        ts = list(t) if isinstance(t, tuple) else [t]
                        ok = any(self.is_exc(err.value, x) for x in ts)
                    if ok:
                        if hnd.name:
                            fr.locals[hnd.name] = err.value
                        fr.exc.append(err.value)
                        try:
                            self.exec_body(hnd.body, fr)
                        finally:
                            fr.exc.pop()
                            if hnd.name:
                                fr.locals.pop(hnd.name, None)
                        break
                else:
                    raise
            else:
                self.exec_body(s.orelse, fr)
        except (Infeasible, Unsupported, PathEnd):
            raise
        except BaseException:
            if s.finalbody:
                self.exec_body(s.finalbody, fr)
            raise
        else:
            self.exec_body(s.finalbody, fr)

    def s_With(self, s, fr):
        self.with_items(list(s.items), s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.exec_body(body, fr)
            return
        it = items[0]
        mgr = self.eval(it.context_expr, fr)
        v = self.call(self.getattr(mgr, '__enter__'), [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self.with_items(items[1:], body, fr)
        except PyRaise as e:
            r = self.call(self.getattr(mgr, '__exit__'),
                          [self.h(e.value).cls, e.value, None])
            if self.cond(r):
                return
            raise
        except (_Return, _Break, _Continue):
            self.call(self.getattr(mgr, '__exit__'), [None, None, None])
            raise
        self.call(self.getattr(mgr, '__exit__'), [None, None, None])

    def s_FunctionDef(self, s, fr):
        fr.locals[s.name] = self.decorated(s, fr.module, None, fr.locals, fr)

    def s_ClassDef(self, s, fr):
        fr.locals[s.name] = self.make_class(s, fr.module, fr)

    def s_Import(self, s, fr):
        self.do_import(s, fr.locals, fr.module)

    s_ImportFrom = s_Import

    def s_While(self, s, fr):
        for _ in range(64):
            if not self.cond(self.eval(s.test, fr)):
                self.exec_body(s.orelse, fr)
                return
            try:
                self.exec_body(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass
        raise Unsupported('while loop without bound')

    def s_For(self, s, fr):
        from . import loops
        parts = self.iter_parts(self.eval(s.iter, fr))
        for p in parts:
            if isinstance(p, Seg):
                brk = loops.for_segment(self, p, s.target, s.body, fr)
            else:
                brk = False
                self.assign(s.target, p[1], fr)
                try:
                    self.exec_body(s.body, fr)
                except _Break:
                    brk = True
                except _Continue:
                    pass
            if brk:
                return
        self.exec_body(s.orelse, fr)

    def iter_parts(self, v):
        """The parts an iteration over v runs through."""
        v = self.force(v)
        if isinstance(v, (tuple, STuple, View)):
            return self.seq_parts(v)
        if isinstance(v, GenV):
            return self.h(self.comp_list(v.node, v.frame)).parts
        if isinstance(v, str):
            return tuple(('i', c) for c in v)
        if isinstance(v, Frozen):
            if isinstance(v.payload, HDict):
                return tuple(('i', subst_value(e[1], v.pairs, self))
                             for e in v.payload.parts)
            if isinstance(v.payload, HList):
                return tuple(('i', subst_value(e[1], v.pairs, self))
                             for e in v.payload.parts)
        if isinstance(v, Ref):
            p = self.h(v)
            if isinstance(p, HList):
                return p.parts
            if isinstance(p, HDict):
                return self.ext.dict_view(self, p, 'keys').parts
            if isinstance(p.cls, ClassInfo):
                if p.cls.lookup('__iter__'):
                    return self.iter_parts(self.call(
                        self.getattr(v, '__iter__'), []))
                if p.cls.lookup('__getitem__') and p.cls.lookup('__len__'):
                    return self.ext.getitem_iter(self, v, p)
            return self.ext.native_iter(self, v, p)
        if is_z3(v):
            return self.ext.term_iter(self, v)
        if v is None or isinstance(v, (int, float)):
            self.raise_(TypeError, 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    # -- expressions -----------------------------------------------------------------

    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, fr)

    def ev(self, e, fr):
        return self.force(self.eval(e, fr))

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        f = fr
        while f is not None:
            if e.id in f.locals:
                v = f.locals[e.id]
                if isinstance(v, tuple) and v and v[0] in ('lazymod',
                                                           'lazyattr'):
                    return self.resolve(v, fr.module, e.id, f.locals)
                return self.force(v)
            f = f.parent
        m = fr.module
        if e.id in m.ns:
            return self.resolve(m.ns[e.id], m, e.id, m.ns)
        return self.ext.builtin_name(self, e.id)

    def e_Attribute(self, e, fr):
        v = self.ev(e.value, fr)
        return self.force(self.getattr(v, self.mangle(e.attr, fr)))

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and fr.cls:
            return '_%s%s' % (fr.cls.name.lstrip('_'), name)
        return name

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                not e.args:
            f = fr
            while f.func is None or f.func.cls is None:
                f = f.parent
            first = f.func.node.args.args[0].arg
            return SuperV(f.func.cls, f.locals[first])
        if isinstance(e.func, ast.Name) and e.func.id == 'globals':
            return self.ext.globals_dict(self, fr.module)
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                ps = self.iter_parts(v)
                if any(isinstance(p, Seg) for p in ps):
                    raise Unsupported('*args of unknown length')
                args += [p[1] for p in ps]
            elif isinstance(a, ast.GeneratorExp):
                args.append(GenV(a, fr))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                v = self.force(v)
                if not (isinstance(v, Ref) and isinstance(self.h(v), HDict)):
                    raise Unsupported('** of %r' % (v,))
                for p in self.h(v).parts:
                    if isinstance(p, Seg):
                        kwargs = self.ext.seg_kwargs(self, f, p, kwargs)
                        continue
                    if not isinstance(p[1], str):
                        raise Unsupported('** with symbolic key')
                    kwargs[p[1]] = p[2]
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(t, z3.BoolRef):
                t = z3.simplify(t)
            c = self.branch(t)
            if isinstance(e.op, ast.And) and not c:
                return v if not isinstance(v, (z3.BoolRef, Cmp)) else False
            if isinstance(e.op, ast.Or) and c:
                return v if not isinstance(v, (z3.BoolRef, Cmp)) else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return self.not_(self.truth(v))
        if isinstance(e.op, ast.USub) and is_int(v):
            return -v
        if isinstance(e.op, ast.USub) and isinstance(v, float):
            return -v
        if isinstance(e.op, ast.Invert):
            return self.ext.invert(self, v)
        raise Unsupported('unary operator')

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Add):
            if is_int(a) and is_int(b):
                return a + b
            if is_text(a) and is_text(b):
                return a + b if isinstance(a, str) and isinstance(b, str) \
                    else Rope([a, b])
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (tuple, STuple)) and isinstance(
                    b, (tuple, STuple)):
                return STuple(self.seq_parts(a) + self.seq_parts(b))
            if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(
                    self.h(a), HList) and isinstance(self.h(b), HList):
                return self.new_list(self.h(a).parts + self.h(b).parts)
            if isinstance(a, bytes) and isinstance(b, bytes):
                return a + b
        if isinstance(op, ast.Sub) and is_int(a) and is_int(b):
            return a - b
        if isinstance(op, ast.Mult):
            if is_int(a) and is_int(b):
                return a * b
            if isinstance(b, tuple):
                a, b = b, a
            if isinstance(a, tuple) and isinstance(b, int):
                return a * b
            if isinstance(a, tuple) and len(a) == 1 and is_int(b):
                x = a[0]
                n = z3.If(b > 0, b, 0)
                return STuple([Seg(n, lambda j: x)])
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return self.ext.percent(self, a, b)
        if isinstance(op, ast.FloorDiv) and is_int(a) and isinstance(b, int) \
                and b > 0:
            return a // b if isinstance(a, int) else a / b
        if isinstance(op, ast.Mod) and is_int(a) and isinstance(b, int) \
                and b > 0:
            return a % b
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            r = self.ext.bitop(self, op, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, SetV) and isinstance(b, SetV):
            if isinstance(op, ast.BitOr):
                return SetV(a.parts + b.parts)
            if isinstance(op, (ast.Sub, ast.BitAnd)):
                f = Frame(None, None, {'a': STuple(a.parts), 'b': b})
                return self.ev(ast.parse(
                    '{x for x in a if x %s b}' % (
                        'in' if isinstance(op, ast.BitAnd) else 'not in'),
                    mode='eval').body, f)
        raise Unsupported('operator %s on %r, %r' % (type(op).__name__, a, b))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            c = self.truth(c)
            if not self.branch(c):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.not_(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(a, b))
        o = {ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>='}[type(op)]
        if is_int(a) and is_int(b):
            return self.b_cmp(o, a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return self.b_cmp(o, a, b)
        if a is None or b is None:
            self.raise_(TypeError, 'unorderable')
        if is_sort(a, U) or is_sort(b, U):
            return self.ext.u_order(self, o, a, b)
        raise Unsupported('comparison %s of %r, %r' % (o, a, b))

    def e_IfExp(self, e, fr):
        if self.cond(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def elems(self, elts, fr):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts += list(self.iter_parts(self.ev(x.value, fr)))
            else:
                parts.append(('i', self.eval(x, fr)))
        return parts

    def e_List(self, e, fr):
        return self.new_list(self.elems(e.elts, fr))

    def e_Tuple(self, e, fr):
        parts = self.elems(e.elts, fr)
        if any(isinstance(p, Seg) for p in parts):
            return STuple(parts)
        return tuple(p[1] for p in parts)

    def e_Set(self, e, fr):
        return SetV(self.elems(e.elts, fr))

    def e_Dict(self, e, fr):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.call(self.getattr(d, 'update'), [self.eval(v, fr)])
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                if v.format_spec is not None:
                    raise Unsupported('format spec')
                x = self.ev(v.value, fr)
                if v.conversion in (-1, 115):
                    out.append(self.ext.to_text(self, x))
                else:
                    raise Unsupported('!r')
        return self.ext.rope(out)

    def e_Lambda(self, e, fr):
        return Func(e, fr.module, None, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        fr.locals[e.target.id] = v
        return v

    def e_Subscript(self, e, fr):
        v = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, fr) if e.slice.lower else None
            hi = self.ev(e.slice.upper, fr) if e.slice.upper else None
            st = self.ev(e.slice.step, fr) if e.slice.step else None
            return self.force(self.ext.slice_(self, v, lo, hi, st))
        return self.force(self.getitem(v, self.ev(e.slice, fr)))

    def e_Slice(self, e, fr):
        raise Unsupported('slice object')

    def getitem(self, v, k):
        v, k = self.force(v), self.force(k)
        if isinstance(k, slice) and (isinstance(v, (tuple, STuple)) or (
                isinstance(v, Ref) and isinstance(self.h(v), HList))):
            return self.ext.slice_(self, v, k.start, k.stop, k.step)
        if isinstance(v, (tuple, STuple, View)):
            return self.seq_get(self.seq_parts(v), k)
        if isinstance(v, str) and isinstance(k, int):
            if not -len(v) <= k < len(v):
                self.raise_(IndexError)
            return v[k]
        if isinstance(v, Frozen):
            if isinstance(v.payload, (HDict, HList)):
                ref = self.alloc(v.payload)
                return subst_value(self.getitem(ref, k), v.pairs, self)
        if isinstance(v, Ref):
            p = self.h(v)
            if isinstance(p, HList):
                return self.seq_get(p.parts, k)
            if isinstance(p, HDict):
                ok, x = self.dict_get(p, k)
                if not ok:
                    self.raise_(KeyError, k)
                return x
            if isinstance(p.cls, ClassInfo):
                if p.cls.lookup('__getitem__'):
                    return self.call(self.getattr(v, '__getitem__'), [k])
                self.raise_(TypeError, 'not subscriptable')
            return self.ext.native_getitem(self, v, p, k)
        if is_z3(v):
            return self.ext.term_getitem(self, v, k)
        raise Unsupported('subscript of %r' % (v,))

    def seq_get(self, parts, k):
        if isinstance(k, bool) or not is_int(k):
            if isinstance(k, slice):
                raise Unsupported('slice')
            if not (k is None or is_text(k) or isinstance(k, tuple)):
                raise Unsupported('index %r' % (k,))
            self.raise_(TypeError, 'index')
        n = self.parts_len(parts)
        if not self.branch(self.and_(self.b_cmp('<', k, n),
                                     self.b_cmp('>=', k, -n))):
            self.raise_(IndexError, 'index out of range')
        if not self.branch(self.b_cmp('>=', k, 0)):
            k = k + n
        if is_z3(k):
            k = z3.simplify(k)
        return self.index_parts(parts, k)

    def setitem(self, v, k, x):
        v, k = self.force(v), self.force(k)
        if isinstance(v, Ref):
            p = self.h(v)
            if isinstance(p, HDict):
                self.dict_set(v, k, x)
                return
            if isinstance(p, HList):
                self.list_set(v, p, k, x)
                return
            if isinstance(p.cls, ClassInfo):
                if p.cls.lookup('__setitem__'):
                    self.call(self.getattr(v, '__setitem__'), [k, x])
                    return
                self.raise_(TypeError, 'no item assignment')
            self.ext.native_setitem(self, v, p, k, x)
            return
        if isinstance(v, (tuple, STuple)) or v is None:
            self.raise_(TypeError, 'no item assignment')
        if is_z3(v):
            return self.ext.term_setitem(self, v, k, x)
        raise Unsupported('item assignment to %r' % (v,))

    def list_set(self, v, p, k, x):
        n = self.parts_len(p.parts)
        if not self.branch(self.and_(self.b_cmp('<', k, n),
                                     self.b_cmp('>=', k, -n))):
            self.raise_(IndexError, 'assignment index out of range')
        if not self.branch(self.b_cmp('>=', k, 0)):
            k = k + n
        if isinstance(k, int) and all(not isinstance(q, Seg)
                                      for q in p.parts):
            parts = list(p.parts)
            parts[k] = ('i', x)
            self.put(v, HList(parts))
            return
        if len(p.parts) == 1 and isinstance(p.parts[0], Seg) \
                and p.parts[0].g is None:
            s = p.parts[0]
            old = s.v
            ns = Seg(s.n, lambda j: merge_if(j == k, x, old(j), self),
                     label=s.label)
            ns.store = (getattr(s, 'root', s), k, x)
            ns.root = getattr(s, 'root', s)
            self.put(v, HList([ns]))
            return
        raise Unsupported('item assignment at symbolic index')

    def delitem(self, v, k):
        v, k = self.force(v), self.force(k)
        if isinstance(v, Ref):
            p = self.h(v)
            if isinstance(p, HDict):
                if not self.dict_del(v, k):
                    self.raise_(KeyError, k)
                return
            if isinstance(p, HList):
                if all(not isinstance(q, Seg) for q in p.parts) and \
                        isinstance(k, int):
                    parts = list(p.parts)
                    if not -len(parts) <= k < len(parts):
                        self.raise_(IndexError)
                    del parts[k]
                    self.put(v, HList(parts))
                    return
                raise Unsupported('del of symbolic list item')
            if isinstance(p.cls, ClassInfo):
                self.call(self.getattr(v, '__delitem__'), [k])
                return
            self.ext.native_delitem(self, v, p, k)
            return
        raise Unsupported('del item of %r' % (v,))

    # comprehensions

    def e_ListComp(self, e, fr):
        return self.comp_list(e, fr)

    def e_GeneratorExp(self, e, fr):
        return GenV(e, fr)

    def e_SetComp(self, e, fr):
        return SetV(self.h(self.comp_list(e, fr)).parts)

    def comp_list(self, e, fr):
        out = self.new_list()
        f = Frame(fr.func, fr.module, {}, fr.cls, fr)
        body = [ast.Expr(('append', e.elt))]
        self.run_comp(e.generators, 0, f, lambda ff: self.call(
            self.getattr(out, 'append'), [self.eval(e.elt, ff)]))
        return out

    def e_DictComp(self, e, fr):
        out = self.new_dict()
        f = Frame(fr.func, fr.module, {}, fr.cls, fr)

        def put(ff):
            k = self.ev(e.key, ff)
            self.dict_set(out, k, self.eval(e.value, ff))
        self.run_comp(e.generators, 0, f, put)
        return out

    def run_comp(self, gens, i, fr, leaf):
        from . import loops
        if i == len(gens):
            leaf(fr)
            return
        g = gens[i]

        def body(ff):
            for c in g.ifs:
                if not self.cond(self.eval(c, ff)):
                    return
            self.run_comp(gens, i + 1, ff, leaf)
        for p in self.iter_parts(self.ev(g.iter, fr)):
            if isinstance(p, Seg):
                loops.for_segment(self, p, g.target, body, fr)
            else:
                self.assign(g.target, p[1], fr)
                body(fr)

    # quantified search over a generator (any/all)

    def any_all(self, v, want_any):
        """any()/all() of an iterable, as bool or formula, forking only where
        the elements raise or fork."""
        from . import loops
        v = self.force(v)
        if not isinstance(v, GenV):
            r = not want_any
            for p in self.iter_parts(v):
                if isinstance(p, Seg):
                    return self._any_all_list(v, want_any)
                t = self.truth(p[1])
                r = self.or_(r, t) if want_any else self.and_(r, t)
            return r
        gens = v.node.generators
        fr = Frame(v.frame.func, v.frame.module, {}, v.frame.cls, v.frame)

        class _Hit(Exception):
            pass

        def leaf(ff):
            c = self.cond(self.eval(v.node.elt, ff))
            if c == want_any:
                raise _Break()

        def nest(i, ff):
            # returns True when the search hit
            if i == len(gens):
                leaf(ff)
                return
            g = gens[i]

            def body(f2):
                for c in g.ifs:
                    if not self.cond(self.eval(c, f2)):
                        return
                nest(i + 1, f2)
            it = self.ev(g.iter, ff)
            if isinstance(it, SetV):
                sets.append(it)
                it = STuple(it.parts)
            for p in self.iter_parts(it):
                if isinstance(p, Seg):
                    if loops.for_segment(self, p, g.target, body, ff):
                        raise _Break()
                else:
                    self.assign(g.target, p[1], ff)
                    body(ff)
        sets = []
        try:
            nest(0, fr)
        except _Break:
            return want_any
        except PyRaise:
            if sets:
                raise Unsupported('error for an element of a set')
            raise
        return not want_any

    def _any_all_list(self, v, want_any):
        from . import loops
        for p in self.iter_parts(v):
            def body(ff):
                if self.cond(ff.locals['x']) == want_any:
                    raise _Break()
            fr = Frame(None, None, {})
            t = ast.Name('x', ast.Store())
            if isinstance(p, Seg):
                if loops.for_segment(self, p, t, body, fr):
                    return want_any
            elif self.cond(p[1]) == want_any:
                return want_any
        return not want_any


def merge_if(c, a, b, eng):
    """If(c, a, b) for values."""
    c = z3.simplify(c) if is_z3(c) else c
    if c is True or (is_z3(c) and z3.is_true(c)):
        return a
    if c is False or (is_z3(c) and z3.is_false(c)):
        return b
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    if not is_z3(a) and not is_z3(b) and type(a) is type(b) and isinstance(
            a, (int, str, bool, type(None))) and a == b:
        return a
    return Alt([(c, a), (z3.Not(c), b)])


def match(pat, term, var):
    """Find t with pat[var := t] == term, syntactically."""
    if pat.eq(term):
        return None if contains_term(pat, var) else None
    found = []

    def go(p, t):
        if p.eq(var):
            found.append(t)
            return True
        if not contains_term(p, var):
            return p.eq(t)
        if not z3.is_app(p) or not z3.is_app(t) or p.decl() != t.decl() or \
                p.num_args() != t.num_args():
            return False
        return all(go(p.arg(i), t.arg(i)) for i in range(p.num_args()))
    if go(pat, term) and found and all(f.eq(found[0]) for f in found):
        return found[0]
    return None


def contains_term(t, var):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(var):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def subst_value(v, pairs, eng):
    """Substitute terms in a value."""
    if not pairs:
        return v
    if is_z3(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, tuple):
        return tuple(subst_value(x, pairs, eng) for x in v)
    if isinstance(v, Alt):
        return Alt([(subst_value(c, pairs, eng), subst_value(x, pairs, eng))
                    for c, x in v.alts])
    if isinstance(v, Rope):
        return Rope([subst_value(p, pairs, eng) for p in v.parts])
    if isinstance(v, Dec):
        return Dec(subst_value(v.num, pairs, eng))
    if isinstance(v, Cmp):
        return Cmp(v.op, subst_value(v.a, pairs, eng),
                   subst_value(v.b, pairs, eng))
    if isinstance(v, Seg):
        return Seg(subst_value(v.n, pairs, eng),
                   lambda j: subst_value(v.v(j), pairs, eng),
                   (lambda j: subst_value(v.g(j), pairs, eng))
                   if v.g else None,
                   (lambda j: subst_value(v.k(j), pairs, eng))
                   if v.k else None, v.inv, v.label)
    if isinstance(v, (STuple, View, SetV)):
        return type(v)([subst_value(p, pairs, eng) if isinstance(p, Seg)
                        else ('i',) + tuple(subst_value(x, pairs, eng)
                                            for x in p[1:])
                        for p in v.parts])
    if isinstance(v, Frozen):
        return Frozen(v.payload, v.pairs + list(pairs))
    return v
