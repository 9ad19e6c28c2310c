"""The contract of Array nodes with independent variables: what their validate
hands to the schema node (whose own contract is schema.Array.validate)."""
import z3

from ..values import *  # noqa: F401,F403
from ..driver import unit
from .items import BACKENDS, World, all_same, over, pick
from .tree import Comp, tree

D = ['the value held is checked against the schema',
     'every linked dimension is checked against the value of its variable',
     'dimensions without a variable are not linked to anything',
     'validating changes nothing']
# sizes: fields, optional fields, dependencies
DEP_BOUNDS = [[2, 0, 1], [2, 0, 2], [3, 0, 3], [1, 0, 1]]


def dependent(b):
    @unit('P04 P05', 'items.%s.Array validate with independent variables' % b,
          {D[0]: 'P04 P05', D[1]: 'P04 P05', D[2]: 'P04 P05', D[3]: 'P16'},
          bounds=DEP_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('linked', 'not linked', 'invalid')

        def run():
            comp = Comp(c, b)
            comp.make()
            at = comp.children()
            w = World(c, b, 'Array', opaque=True)
            w.parent = comp.node
            n = eng.size('dependencies')
            none = z3.Function('dep:none', Int, Bool)
            idx = z3.Function('dep:field', Int, Int)
            item = eng.uf('is_item', Sch, Bool)

            def fact(j):
                f = at(idx(j))
                return z3.Implies(z3.And(0 <= j, j < n), z3.And(
                    0 <= idx(j), idx(j) < comp.n,
                    item(nc.sch(eng, f)),
                    z3.Not(nc.is_empty(eng, tree(eng, f))),
                    comp.names(idx(j)) != eng.lit('')))
            if isinstance(n, int):
                # which fields: any choice
                for j in range(n):
                    if not comp.n:
                        c.stop()
                    eng.assume(idx(j) == pick(c, list(range(comp.n))))
                for i in range(comp.n):
                    f = at(i)
                    eng.assume(item(nc.sch(eng, f)))
                    eng.assume(z3.Not(nc.is_empty(eng, tree(eng, f))))
                    eng.assume(comp.names(i) != eng.lit(''))
                for j in range(n):
                    eng.assume(comp.names(idx(j)) != eng.lit(''))
            else:
                j = z3.Int('j!dep')
                eng.assume(z3.ForAll([j], fact(j)))
            eng.assume(w.ndim == n)
            deps = STuple(eng.parts(n, lambda j: Alt([
                (none(j), None),
                (z3.Not(none(j)), comp.names(idx(j)))]), label='deps'))
            if isinstance(n, int):
                deps = tuple(p[1] for p in deps.parts)
            p = eng.h(w.schema)
            eng.put(w.schema, p.with_attr('depends_on', deps))
            over(w)
            t0 = nc.map(eng)
            node, place, held = w.state('set')
            k, e = c.method(node, 'validate')
            calls = w.validated
            if not calls:
                c.goal(D[0], False, 'not checked: ' + (
                    'returns' if k == 'return' else c.exc_name(e)))
                return
            c.goal(D[0], all_same(w, calls, held))
            c.goal(D[0], (k == 'return') == (w.error is None))
            if w.error is not None:
                c.cover('invalid')
            for a in calls:
                if len(a) != 2:
                    c.goal(D[1], False, 'validated without variables')
                    return
                ps = eng.iter_parts(eng.force(a[1]))
                m = eng.parts_len(ps)
                c.goal(D[1], eng.eq(m, n))
                if isinstance(n, int):
                    if not isinstance(m, int) or m != n:
                        return
                    q = z3.IntVal(pick(c, list(range(n))))
                else:
                    q = z3.Int('dim0')
                    eng.assume(z3.And(0 <= q, q < n))
                x = eng.force(eng.index_parts(ps, q))
                if eng.branch(none(q)):
                    c.cover('not linked')
                    c.goal(D[2], x is None)
                    return
                c.cover('linked')
                if isinstance(n, int):
                    for i in range(comp.n):
                        if eng.branch(idx(q) == i):
                            f = at(i)
                            break
                    else:
                        c.stop()
                else:
                    f = at(idx(q))
                want = z3.Select(t0, f)
                c.goal(D[1], is_sort(x, U) and x == nc.value(eng, want))
            c.goal(D[3], nc.map(eng).eq(t0))
        c.explore(run)


for _b in BACKENDS:
    dependent(_b)
