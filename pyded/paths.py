"""Nested dicts of any depth as finite maps from paths, for the proof of
npz._flatten_dotted and npz._inflate_dotted (contracts/persist.py).

A path is a sequence of names.  A nested dict is a tree: at each path there is
nothing (0), a dict (1) or a leaf (2).  A flat dict maps dotted names, that is
paths, to leaves.  Loops over their entries, and over the names of a path, are
cut by the invariants below: the body is executed once, for an arbitrary
entry, from an arbitrary state that satisfies the invariant, which must hold
again afterwards; the code after the loop starts from the invariant for all
entries.  Code of another form is Unsupported, and the unit falls back to its
bounded check; nothing here refutes.
"""
import ast
import copy

import z3

from . import engine as en
from .values import *  # noqa: F401,F403
from .ext import used

Path = z3.DeclareSort('Path')


class Kind(External):
    """A class of ghost containers; ops holds its operations."""

    def __init__(self, name, ops):
        External.__init__(self, name)
        self.ops = ops


class Theory:
    """Paths; sets up eng for them."""

    def __init__(self, c):
        self.c, eng = c, c.eng
        self.eng = eng
        eng.isreg['paths'] = self
        P, I = Path, Int
        self.len = z3.Function('path:len', P, I)
        self.anc = z3.Function('path:anc', P, I, P)
        self.name = z3.Function('path:name', P, I, Str)
        self.ext = z3.Function('path:ext', P, Str, P)
        self.root = z3.Const('path:root', P)
        self.dot = z3.Function('path:dotted', P, Str)
        p, s = z3.Const('p!pt', P), z3.Const('s!pt', Str)
        i, j = z3.Int('i!pt'), z3.Int('j!pt')
        ln, anc, nm, ext = self.len, self.anc, self.name, self.ext
        def ax(vs, f, *pats):
            eng.axiom(z3.ForAll(vs, f, patterns=list(pats)))
        ax([p], z3.And(ln(p) >= 0, (ln(p) == 0) == (p == self.root),
                       anc(p, ln(p)) == p, anc(p, 0) == self.root), ln(p))
        ax([p, s], z3.And(ln(ext(p, s)) == ln(p) + 1,
                          anc(ext(p, s), ln(p)) == p,
                          nm(ext(p, s), ln(p)) == s), ext(p, s))
        ax([p, s, i], z3.Implies(z3.And(0 <= i, i <= ln(p)),
                                 anc(ext(p, s), i) == anc(p, i)),
           anc(ext(p, s), i))
        ax([p, i], z3.Implies(z3.And(0 <= i, i <= ln(p)),
                              ln(anc(p, i)) == i), anc(p, i))
        ax([p, i], z3.Implies(z3.And(0 <= i, i < ln(p)),
                              ext(anc(p, i), nm(p, i)) == anc(p, i + 1)),
           anc(p, i), nm(p, i))
        ax([p, i, j], z3.Implies(
            z3.And(0 <= j, j <= i, i <= ln(p)),
            anc(anc(p, i), j) == anc(p, j)), anc(anc(p, i), j))
        ax([p, i, j], z3.Implies(
            z3.And(0 <= j, j < i, i <= ln(p)),
            nm(anc(p, i), j) == nm(p, j)), nm(anc(p, i), j))
        ax([p], z3.Implies(p != self.root, self.dot(p) != eng.lit('')),
           self.dot(p))

    def below(self, q, P):
        """q lies strictly below P."""
        return z3.And(self.len(q) > self.len(P),
                      self.anc(q, self.len(P)) == P)

    def child(self, P, name):
        """The entry of that name, and that it is next on every path."""
        return self.ext(P, self.eng.text(name))

    def path_of(self, text):
        """The path of a dotted name."""
        eng = self.eng
        text = eng.force(text)
        parts = text.parts if isinstance(text, Rope) else [text]
        at = self.root
        sep = True
        for n, x in enumerate(parts):
            if isinstance(x, str):
                if x != '.' or sep:
                    raise Unsupported('dotted name')
                sep = True
                continue
            if not sep or not is_sort(x, Str):
                raise Unsupported('dotted name')
            sep = False
            if z3.is_app(x) and x.decl().eq(self.dot):
                if n:
                    raise Unsupported('dotted name')
                at = x.arg(0)
            elif eng.provable(eng.uf('isident', Str, Bool)(x)):
                at = self.ext(at, x)
            else:
                raise Unsupported('dotted name')
        if sep:
            raise Unsupported('dotted name')
        used('str: the names of a dotted name of names without dots are '
             'got back by splitting it at the dots')
        return at

    def split(self, text, sep, how, args):
        if sep != '.' or len(args) != 1 or how not in ('split', 'rsplit'):
            raise Unsupported('split of a dotted name')
        p = text.arg(0)
        return self.eng.alloc(HObj(NAMES, {
            'path': p, 'lo': z3.IntVal(0), 'hi': self.len(p)}))

    # making containers

    def tree(self, kind, val, fixed=False):
        return self.eng.alloc(HObj(TREE, {'kind': kind, 'val': val,
                                          'fixed': fixed}))

    def node(self, tree, path):
        return self.eng.alloc(HObj(NESTED, {'tree': tree, 'path': path}))

    def flat(self, has, val):
        return self.eng.alloc(HObj(FLAT, {'has': has, 'val': val}))

    def q(self, name='path'):
        return self.eng.fresh(name, Path)

    def lemma(self, f, what):
        self.c.goal(self.names[0], f, what, soft=True)
        for n in self.names[1:]:
            self.c.goal(n, f, what, soft=True)

    # -- loops ------------------------------------------------------------------

    def split_loop(self):
        """Whether this path checks the body (or goes on after the loop)."""
        return self.eng.choose([z3.BoolVal(True), z3.BoolVal(True)]) == 0

    def body(self, target, value, body, fr, may):
        """Run the body once; it may change only the objects in may."""
        if callable(body):
            raise Unsupported('comprehension over nested dicts')
        st = self.eng.st
        heap, ghost = dict(st.heap), dict(st.ghost)
        try:
            self.eng.assign(target, value, fr)
            self.eng.exec_body(body, fr)
        except en._Continue:
            pass
        except (en._Break, en._Return):
            raise Unsupported('leaving a loop over nested dicts')
        st = self.eng.st
        if st.ghost != ghost or any(
                st.heap.get(k) is not v for k, v in heap.items()
                if k not in may):
            raise Unsupported('other effects in a loop over nested dicts')

    def empties(self, fr, cls):
        """Local names of the containers that a loop fills."""
        eng = self.eng
        out = {}
        for k, v in fr.locals.items():
            if isinstance(v, Ref):
                p = eng.h(v)
                if isinstance(p, HDict) and not p.parts:
                    out.setdefault(v.oid, v)
                elif isinstance(p, HObj) and p.cls is cls and cls is FLAT \
                        and p.attrs.get('new'):
                    out.setdefault(v.oid, v)
        if len(out) != 1:
            raise Unsupported('not one result of the loop')
        return list(out.values())[0]

    def forget(self, target, body, fr, keep):
        """What the body assigns is unknown at the next iteration."""
        names = {n.id for s in body for n in ast.walk(s) if isinstance(
            n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        names |= {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        for n in names:
            v = fr.locals.get(n)
            if isinstance(v, Ref) and v.oid in keep:
                raise Unsupported('the result of the loop is exchanged')
            fr.locals.pop(n, None)

    def loop_nested(self, seg, target, body, fr):
        """Over the entries of a nested dict, filling a flat one."""
        eng = self.eng
        tree, P, what = seg.src
        t = eng.h(tree).attrs
        out = self.empties(fr, FLAT)
        zero = z3.Const('nothing', U)

        def state(V):
            def has(q):
                return z3.And(t['kind'](q) == 2, self.below(q, P),
                              V(self.name(q, self.len(P))))
            return HObj(FLAT, {'has': has, 'val': t['val'], 'new': True})
        self.forget(target, body, fr, {out.oid})
        if self.split_loop():
            k = eng.fresh('entry', Str)
            V = eng.uf('visited!%s' % k, Str, Bool)
            eng.put(out, state(V))
            ch = self.ext(P, k)
            eng.assume(eng.uf('isident', Str, Bool)(k))
            eng.assume(z3.Not(V(k)))
            eng.assume(t['kind'](ch) != 0)
            self.body(target, self.entry(tree, P, k, what), body, fr,
                      {out.oid})
            p = eng.h(out)
            q = self.q()
            want = state(lambda s: z3.Or(V(s), s == k)).attrs
            if not (isinstance(p, HObj) and p.cls is FLAT):
                raise Unsupported('result of flattening')
            self.lemma(z3.And(
                p.attrs['has'](q) == want['has'](q), z3.Implies(
                    want['has'](q), p.attrs['val'](q) == want['val'](q))),
                'flattening: one more entry')
            raise PathEnd()
        eng.put(out, state(lambda s: z3.BoolVal(True)))
        return False

    def entry(self, tree, P, k, what):
        eng = self.eng
        if what == 'keys':
            return k
        v = NESTED.ops.getitem(eng, None, HObj(NESTED, {
            'tree': tree, 'path': P}), k)
        return v if what == 'values' else (k, v)

    def under(self, K, tag):
        """The proper prefixes (not the root) of the paths in K."""
        eng = self.eng
        B = eng.uf('under!' + tag, Path, Bool)
        w = eng.uf('under:of!' + tag, Path, Path)
        p, i = z3.Const('p!un', Path), z3.Int('i!un')
        eng.assume(z3.ForAll([p, i], z3.Implies(z3.And(
            K(p), 1 <= i, i < self.len(p)), B(self.anc(p, i))),
            patterns=[self.anc(p, i)]))
        eng.assume(z3.ForAll([p], z3.Implies(B(p), z3.And(
            K(w(p)), 1 <= self.len(p), self.len(p) < self.len(w(p)),
            self.anc(w(p), self.len(p)) == p)), patterns=[B(p)]))
        return B

    def loop_flat(self, seg, target, body, fr):
        """Over the entries of a flat dict, filling a nested one."""
        eng = self.eng
        F, what = seg.src
        out = self.empties(fr, NESTED)

        def kinds(K, B):
            return lambda q: z3.If(z3.Or(q == self.root, B(q)), 1, z3.If(
                K(q), 2, 0))

        def start(K, B):
            t = self.tree(kinds(K, B), F['val'])
            eng.put(out, HObj(NESTED, {'tree': t, 'path': self.root}))
            return t
        self.forget(target, body, fr, {out.oid})
        if self.split_loop():
            p = self.q('key')
            K = eng.uf('visited!%s' % p, Path, Bool)
            q = z3.Const('q!vis', Path)
            eng.assume(z3.ForAll([q], z3.Implies(K(q), F['has'](q)),
                                 patterns=[K(q)]))
            B = self.under(K, str(p))
            eng.assume(F['has'](p))
            eng.assume(z3.Not(K(p)))
            t = start(K, B)
            key, v = self.dot(p), F['val'](p)
            self.body(target, {'keys': key, 'values': v}.get(
                what, (key, v)), body, fr, {out.oid, t.oid})
            o = eng.h(out)
            if not (isinstance(o, HObj) and o.cls is NESTED
                    and o.attrs['tree'] == t
                    and o.attrs['path'].eq(self.root)):
                raise Unsupported('result of inflating')
            q = self.q()
            n = self.len(q)

            def B2(q):
                return z3.Or(B(q), z3.And(1 <= n, n < self.len(p),
                                          self.anc(p, n) == q))
            now = eng.h(t).attrs
            self.lemma(z3.And(
                now['kind'](q) == kinds(lambda x: z3.Or(K(x), x == p), B2)(
                    q), z3.Implies(now['kind'](q) == 2,
                                   now['val'](q) == F['val'](q))),
                'inflating: one more key')
            raise PathEnd()
        start(F['has'], self.under(F['has'], 'all'))
        return False

    def loop_names(self, seg, target, body, fr):
        """Along the names of a path, descending into a nested dict."""
        eng = self.eng
        p, lo, hi = seg.src
        assigned = {n.id for s in body for n in ast.walk(s) if isinstance(
            n, ast.Name) and isinstance(n.ctx, ast.Store)}
        at = [k for k, v in fr.locals.items() if k in assigned and isinstance(
            v, Ref) and isinstance(eng.h(v), HObj) and eng.h(v).cls
            is NESTED]
        if len(at) != 1 or callable(body):
            raise Unsupported('loop along a path')
        at = at[0]
        node = eng.h(fr.locals[at]).attrs
        tree = node['tree']
        t0 = eng.h(tree)
        if t0.attrs['fixed'] or not eng.provable(
                node['path'] == self.anc(p, lo)):
            raise Unsupported('loop along another path')

        def state(i):
            k0 = t0.attrs['kind']

            def kind(q):
                n = self.len(q)
                return z3.If(z3.And(lo < n, n <= i, self.anc(p, n) == q), 1,
                             k0(q))
            return HObj(TREE, dict(t0.attrs, kind=kind))
        self.forget(target, body, fr, {})
        if self.split_loop():
            i = eng.fresh('i', Int)
            eng.assume(z3.And(lo <= i, i < hi))
            eng.put(tree, state(i))
            fr.locals[at] = self.node(tree, self.anc(p, i))
            self.body(target, self.name(p, i), body, fr, {tree.oid})
            v = fr.locals.get(at)
            o = eng.h(v) if isinstance(v, Ref) else None
            q = self.q()
            same = False
            if isinstance(o, HObj) and o.cls is NESTED and o.attrs[
                    'tree'] == tree:
                now = eng.h(tree).attrs
                same = z3.And(
                    o.attrs['path'] == self.anc(p, i + 1),
                    now['kind'](q) == state(i + 1).attrs['kind'](q),
                    z3.Implies(now['kind'](q) == 2,
                               now['val'](q) == t0.attrs['val'](q)))
            self.lemma(same, 'inflating: one name further')
            raise PathEnd()
        eng.put(tree, state(hi))
        fr.locals[at] = self.node(tree, self.anc(p, hi))
        return False


def theory(eng):
    return eng.isreg['paths']


def rule_seg(eng, rule, src):
    def v(j):
        raise Unsupported('entry of a nested dict')
    n = eng.fresh('entries', Int)
    eng.assume(n >= 0)
    s = Seg(n, v, label='paths')
    s.rule, s.src = rule, src
    return s


class TreeOps:
    @staticmethod
    def isinstance(eng, p, t):
        return t is dict


class NestedOps(TreeOps):
    @staticmethod
    def kind(eng, p, k):
        th = theory(eng)
        k = eng.force(k)
        if not is_text(k):
            raise Unsupported('key of a nested dict')
        ch = th.ext(p.attrs['path'], eng.text(k))
        return ch, eng.h(p.attrs['tree']).attrs

    @staticmethod
    def contains(eng, v, p, k):
        ch, t = NestedOps.kind(eng, p, k)
        return t['kind'](ch) != 0

    @staticmethod
    def getitem(eng, v, p, k):
        th = theory(eng)
        ch, t = NestedOps.kind(eng, p, k)
        kd = t['kind'](ch)
        i = eng.choose([kd == 1, kd == 2, z3.And(kd != 1, kd != 2)])
        if i == 2:
            eng.raise_(KeyError, k)
        if i == 0:
            return th.node(p.attrs['tree'], ch)
        x = t['val'](ch)
        eng.assume(x != eng.to_u(None))
        eng.assume(z3.Not(eng.isinst(x, dict)))
        return x

    @staticmethod
    def setitem(eng, v, p, k, x):
        ch, t = NestedOps.kind(eng, p, k)
        if t['fixed']:
            raise Unsupported('change of the argument')
        if not eng.valid_here(t['kind'](ch) != 1):
            raise Unsupported('a nested dict is replaced')
        x = eng.force(x)
        kind, val = t['kind'], t['val']
        if is_sort(x, U):
            new = dict(t, kind=lambda q: z3.If(q == ch, 2, kind(q)),
                       val=lambda q: z3.If(q == ch, x, val(q)))
        elif isinstance(x, Ref) and isinstance(eng.h(x), HDict) and \
                not eng.h(x).parts:
            new = dict(t, kind=lambda q: z3.If(q == ch, 1, kind(q)))
            eng.put(x, HObj(NESTED, {'tree': p.attrs['tree'], 'path': ch}))
        else:
            raise Unsupported('value in a nested dict')
        eng.put(p.attrs['tree'], HObj(TREE, new))

    @staticmethod
    def attr(eng, v, p, name):
        if name in ('items', 'keys', 'values'):
            return NativeBM(name, lambda: eng.new_list([rule_seg(
                eng, theory(eng).loop_nested,
                (p.attrs['tree'], p.attrs['path'], name))]))
        if name == 'setdefault':
            def setdefault(k, d=None):
                if not eng.branch(NestedOps.contains(eng, v, eng.h(v), k)):
                    NestedOps.setitem(eng, v, eng.h(v), k, d)
                return NestedOps.getitem(eng, v, eng.h(v), k)
            return NativeBM(name, setdefault)
        raise Unsupported('nested dict.' + name)

    @staticmethod
    def iterate(eng, v, p):
        return (rule_seg(eng, theory(eng).loop_nested,
                         (p.attrs['tree'], p.attrs['path'], 'keys')),)


class FlatOps(TreeOps):
    @staticmethod
    def contains(eng, v, p, k):
        return p.attrs['has'](theory(eng).path_of(k))

    @staticmethod
    def getitem(eng, v, p, k):
        q = theory(eng).path_of(k)
        if not eng.branch(p.attrs['has'](q)):
            eng.raise_(KeyError, k)
        return p.attrs['val'](q)

    @staticmethod
    def setitem(eng, v, p, k, x):
        q = theory(eng).path_of(k)
        x = eng.force(x)
        if not is_sort(x, U):
            raise Unsupported('value in a flat dict')
        has, val = p.attrs['has'], p.attrs['val']
        eng.put(v, HObj(FLAT, dict(
            p.attrs, has=lambda r: z3.Or(r == q, has(r)),
            val=lambda r: z3.If(r == q, x, val(r)))))

    @staticmethod
    def attr(eng, v, p, name):
        if name in ('items', 'keys', 'values'):
            return NativeBM(name, lambda: eng.new_list([rule_seg(
                eng, theory(eng).loop_flat, (eng.h(v).attrs, name))]))
        if name == 'update':
            def update(o):
                o = eng.force(o)
                b = eng.h(o) if isinstance(o, Ref) else None
                if isinstance(b, HDict) and not b.parts:
                    return
                if not (isinstance(b, HObj) and b.cls is FLAT):
                    raise Unsupported('update of a flat dict')
                a = eng.h(v).attrs
                has, val = a['has'], a['val']
                h2, v2 = b.attrs['has'], b.attrs['val']
                eng.put(v, HObj(FLAT, dict(
                    a, has=lambda r: z3.Or(h2(r), has(r)),
                    val=lambda r: z3.If(h2(r), v2(r), val(r)))))
            return NativeBM(name, update)
        raise Unsupported('flat dict.' + name)

    @staticmethod
    def iterate(eng, v, p):
        return (rule_seg(eng, theory(eng).loop_flat, (p.attrs, 'keys')),)


class NamesOps:
    @staticmethod
    def isinstance(eng, p, t):
        return t is list

    @staticmethod
    def bounds(p):
        return p.attrs['lo'], p.attrs['hi']

    @staticmethod
    def getitem(eng, v, p, k):
        lo, hi = NamesOps.bounds(p)
        if isinstance(k, slice):
            return NamesOps.slice(eng, v, p, k.start, k.stop, k.step)
        if not isinstance(k, int):
            raise Unsupported('index of names')
        i = lo + k if k >= 0 else hi + k
        if not eng.branch(z3.And(lo <= i, i < hi)):
            eng.raise_(IndexError, 'list index out of range')
        return theory(eng).name(p.attrs['path'], z3.simplify(i))

    @staticmethod
    def slice(eng, v, p, lo, hi, st):
        a, b = NamesOps.bounds(p)
        if st is not None or not all(x is None or isinstance(
                x, int) for x in (lo, hi)):
            raise Unsupported('slice of names')

        def at(x, d):
            if x is None:
                return d
            r = a + x if x >= 0 else b + x
            return z3.If(r < a, a, z3.If(r > b, b, r))
        x, y = z3.simplify(at(lo, a)), z3.simplify(at(hi, b))
        if eng.branch(x > y):
            y = x
        if hi == -1 and lo is None and eng.valid_here(b - a >= 1):
            x, y = a, z3.simplify(b - 1)
        return eng.alloc(HObj(NAMES, {'path': p.attrs['path'], 'lo': x,
                                      'hi': y}))

    @staticmethod
    def length(eng, v, p):
        lo, hi = NamesOps.bounds(p)
        return hi - lo

    @staticmethod
    def truth(eng, v, p):
        lo, hi = NamesOps.bounds(p)
        return hi > lo

    @staticmethod
    def iterate(eng, v, p):
        lo, hi = NamesOps.bounds(p)
        return (rule_seg(eng, theory(eng).loop_names,
                         (p.attrs['path'], lo, hi)),)

    @staticmethod
    def attr(eng, v, p, name):
        if name == 'pop':
            def pop(k=-1):
                q = eng.h(v)
                x = NamesOps.getitem(eng, v, q, k)
                lo, hi = NamesOps.bounds(q)
                if k == -1:
                    new = dict(q.attrs, hi=z3.simplify(hi - 1))
                elif k == 0:
                    new = dict(q.attrs, lo=z3.simplify(lo + 1))
                else:
                    raise Unsupported('pop')
                eng.put(v, HObj(NAMES, new))
                return x
            return NativeBM(name, pop)
        raise Unsupported('names.' + name)


TREE = Kind('ghost.tree', TreeOps)
NESTED = Kind('ghost.nested dict', NestedOps)
FLAT = Kind('ghost.flat dict', FlatOps)
NAMES = Kind('ghost.names', NamesOps)


# -- which functions of the code under test these are -------------------------

NESTING, DOTTED = {'a': {'b': {'c': 1}}, 'd': 2}, {'a.b.c': 1, 'd': 2}


def dotting(eng):
    """The two functions, flattening and inflating: by their names, else by
    what they make of an example (among those the backend's module uses)."""
    m = eng.module('dsch.backends.npz')
    out = [eng.mod_attr(m, n) if n in m.ns else None
           for n in ['_flatten_dotted', '_inflate_dotted']]
    if not all(isinstance(f, Func) for f in out):
        fs = list(functions(eng, m))
        out = [next((f for f in fs if gives(f, x, y)), None)
               for x, y in [(NESTING, DOTTED), (DOTTED, NESTING)]]
    if None in out:
        raise Unsupported('no function that flattens or inflates')
    return out


def functions(eng, m):
    """Functions of the package that the module can name."""
    for n, v in list(m.ns.items()):
        if isinstance(v, tuple):
            v = eng.resolve(v, m, n, m.ns)
        if isinstance(v, Func):
            yield v
        elif isinstance(v, Module) and v.name.startswith('dsch.'):
            yield from (x for x in v.ns.values() if isinstance(x, Func))


def gives(f, x, want):
    """Running the function alone, with the other functions of its module."""
    ns = {}
    for v in f.module.ns.values():
        if isinstance(v, Func) and v.module is f.module:
            d = ast.Module(body=[v.node], type_ignores=[])
            try:
                exec(compile(d, '<candidate>', 'exec'), ns)
            except Exception:
                pass
    try:
        return ns[f.name](copy.deepcopy(x)) == want
    except Exception:
        return False
