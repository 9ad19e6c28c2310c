"""The contract of npz._flatten_dotted and npz._inflate_dotted that the
contracts of storages rely on (stores.flat): what flattening makes of a nested
dict, inflating turns back into the same one.

Nested dicts of any depth; where this cannot be decided, the shape of the
nested dicts is bounded, their names and values are not.
"""
import itertools

import z3

from ..values import *  # noqa: F401,F403
from ..driver import unit
from .. import paths
from .items import pick

DEPTH, NODES = 3, 6


def forests(n, depth):
    """All dicts with n nodes below them: lists of shapes; None: a leaf."""
    if n == 0:
        yield ()
        return
    # the first entry takes m nodes, itself included
    for m in range(1, n + 1):
        for first in shapes(m, depth):
            for rest in forests(n - m, depth):
                yield (first,) + rest


def shapes(n, depth):
    if n == 1:
        yield None
    if depth > 1:
        yield from forests(n - 1, depth - 1)


def all_shapes():
    seen = set()
    for n in range(NODES + 1):
        for f in forests(n, DEPTH):
            # the order of the entries does not matter
            key = canon(f)
            if key not in seen:
                seen.add(key)
                yield f


def canon(f):
    return None if f is None else tuple(sorted(map(canon, f), key=repr))


class Build:
    def __init__(self, eng):
        self.eng, self.count = eng, itertools.count()

    def dict(self, f):
        """(object, what it must become): empty dicts vanish."""
        eng = self.eng
        names, items, want = [], [], []
        for x in f:
            i = next(self.count)
            name = z3.Const('name%d' % i, Str)
            eng.assume(eng.uf('isident', Str, Bool)(name))
            eng.assume(name != eng.lit(''))
            for other in names:
                eng.assume(name != other)
            names.append(name)
            if x is None:
                v = z3.Const('array%d' % i, U)
                eng.assume(v != eng.to_u(None))
                eng.assume(z3.Not(eng.isinst(v, dict)))
                items.append(('i', name, v))
                want.append((name, v))
            else:
                d, w = self.dict(x)
                items.append(('i', name, d))
                if w:
                    want.append((name, w))
        return eng.new_dict(items), want


def equal(eng, v, want):
    """(formula) v is the nested dict described by want."""
    v = eng.force(v)
    if not isinstance(want, list):
        return is_sort(v, U) and v == want
    if not isinstance(v, Ref) or not isinstance(eng.h(v), HDict):
        return False
    p = eng.h(v)
    r = eng.eq(len(p.parts), len(want))
    for name, w in want:
        ok, x = eng.dict_get(p, name)
        r = eng.and_(r, ok and equal(eng, x, w))
    return r


F = ['flattening needs no error', 'flattened dicts hold arrays only',
     'inflating needs no error',
     'inflating what was flattened gives the same nested dict']
LIMIT = ('nested dicts of up to %d levels with up to %d entries altogether, '
         'any names and values' % (DEPTH, NODES))


@unit('P09', 'npz flattening and inflating', {
    F[0]: 'P09', F[1]: 'P09', F[2]: 'P09', F[3]: 'P09 P13 P07 P15'},
    weight=3, stand_in=LIMIT, bounds=[[1]])
def flatten(c):
    c.need_cover('nested')
    if c.eng.bound is None:
        any_depth(c)
    else:
        some_shapes(c)


def any_depth(c):
    """Nested dicts of any depth and size (pyded/paths.py)."""
    eng = c.eng
    th = paths.Theory(c)
    th.names = [F[1], F[3]]
    kind = z3.Function('kind', paths.Path, Int)
    val = z3.Function('leaf', paths.Path, U)
    q, i = z3.Const('q!ad', paths.Path), z3.Int('i!ad')
    eng.axiom(kind(th.root) == 1)
    eng.axiom(z3.ForAll([q], z3.And(0 <= kind(q), kind(q) <= 2),
                        patterns=[kind(q)]))
    eng.axiom(z3.ForAll([q, i], z3.Implies(
        z3.And(kind(q) != 0, 0 <= i, i < th.len(q)),
        kind(th.anc(q, i)) == 1), patterns=[th.anc(q, i)]))
    flattening, inflating = paths.dotting(eng)

    def contract(e, f, args, kwargs):
        """For the entries of a nested dict: dicts strictly below it."""
        if not c.inside:
            c.inside = True
            return NotImplemented
        a = dict(zip(['d', 'prefix'], args))
        if len(args) != 2 or kwargs:
            raise Unsupported('recursive call')
        d = e.force(a['d'])
        p = e.h(d) if isinstance(d, Ref) else None
        if not (isinstance(p, HObj) and p.cls is paths.NESTED
                and p.attrs['tree'] == c.tree):
            raise Unsupported('recursive call')
        P = p.attrs['path']
        if not e.valid_here(z3.And(
                th.len(P) > th.len(c.top), P != th.root,
                th.path_of(a['prefix']) == P)):
            raise Unsupported('recursive call with another prefix')
        c.cover('nested')
        return spec(P)

    def spec(P):
        return th.flat(lambda q: z3.And(kind(q) == 2, th.below(q, P)), val)
    eng.contracts[flattening.qualname] = contract

    def run():
        c.tree = th.tree(kind, val, fixed=True)
        c.inside = False
        inner = eng.choose([z3.BoolVal(True), z3.BoolVal(True)])
        if inner:
            P = z3.Const('place', paths.Path)
            eng.assume(kind(P) == 1)
            eng.assume(P != th.root)
        else:
            P = th.root
        c.top = P
        args = [th.dot(P)] if inner else []
        k, flat = c.call(flattening,
                         th.node(c.tree, P), *args)
        c.goal(F[0], k == 'return', soft=True)
        if k == 'raise':
            c.stop()
        flat = eng.force(flat)
        p = eng.h(flat) if isinstance(flat, Ref) else None
        if not (isinstance(p, HObj) and p.cls is paths.FLAT):
            raise Unsupported('result of flattening')
        want = eng.h(spec(P)).attrs
        q = th.q()
        good = z3.And(p.attrs['has'](q) == want['has'](q), z3.Implies(
            want['has'](q), p.attrs['val'](q) == want['val'](q)))
        c.goal(F[1], good, 'result of flattening', soft=True)
        c.goal(F[3], good, 'result of flattening', soft=True)
        if inner:
            c.stop()
        k, r = c.call(inflating, flat)
        c.goal(F[2], k == 'return', soft=True)
        if k == 'raise':
            c.stop()
        r = eng.force(r)
        p = eng.h(r) if isinstance(r, Ref) else None
        if not (isinstance(p, HObj) and p.cls is paths.NESTED):
            raise Unsupported('result of inflating')
        t = eng.h(p.attrs['tree']).attrs
        q, x = th.q(), z3.Const('q!leaf', paths.Path)
        leaf_below = z3.Exists([x], z3.And(kind(x) == 2, th.below(x, q)))
        c.goal(F[3], z3.And(
            p.attrs['path'] == th.root,
            (t['kind'](q) == 2) == (kind(q) == 2),
            z3.Implies(kind(q) == 2, t['val'](q) == val(q)),
            (t['kind'](q) == 1) == z3.Or(q == th.root, leaf_below)),
            'result of inflating', soft=True)
    c.explore(run)


def some_shapes(c):
    """Bounded: all nested dicts of the sizes LIMIT."""
    eng = c.eng
    fs = list(all_shapes())
    flattening, inflating = paths.dotting(eng)

    def run():
        f = fs[eng.choose([True] * len(fs))]
        d, want = Build(eng).dict(f)
        k, flat = c.call(flattening, d)
        if k == 'raise':
            c.goal(F[0], False, c.exc_name(flat))
            return
        c.goal(F[0], True)
        p = eng.h(eng.force(flat))
        c.goal(F[1], isinstance(p, HDict) and all(
            is_sort(eng.force(x[2]), U) for x in p.parts))
        k, r = c.call(inflating, flat)
        if k == 'raise':
            c.goal(F[2], False, c.exc_name(r))
            return
        c.goal(F[2], True)
        if any(x is not None for x in f):
            c.cover('nested')
        c.goal(F[3], equal(eng, r, want))
    c.explore(run)
