"""Contracts of Compilation and List nodes of every backend.

Children are nodes of unknown type, known by the interface contract of
nodes.NodeContract (the induction hypothesis of the structural induction over
the data tree); their content is a ghost map from nodes to trees.  The state
of a node is the one its constructor, replace or loading leads to, with
arbitrary contents of the children.
"""
import ast

import z3

from ..values import *  # noqa: F401,F403
from ..driver import unit
from .. import files, nodes
from .items import (BACKENDS, CLOSED, LOOKERS, TRACE, boolv, drawn,
                    pick, shows)

TREE_BOUNDS = [[1, 0], [2, 1], [0, 0], [2, 2], [3, 1]]


def reserved(eng, cls):
    """Names of the attributes that a node of the class itself has."""
    names = {'schema_node', 'parent'}
    for k in cls.mro:
        if not isinstance(k, ClassInfo):
            continue
        for f in k.ns.values():
            if not isinstance(f, Func) or not f.node.args.args:
                continue
            me = f.node.args.args[0].arg
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, ast.Store) and isinstance(
                            x.value, ast.Name) and x.value.id == me:
                    names.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and \
                        x.func.attr == '__setattr__':
                    names.update(a.value for a in x.args if isinstance(
                        a, ast.Constant) and isinstance(a.value, str))
    return sorted(names)


def install(eng):
    eng.nodec.map(eng)
    eng.contracts['dsch.data.data_node_from_schema'] = nodes.factory(eng, None)


class Comp:
    """A compilation schema with arbitrary fields, and a node of it."""

    def __init__(self, c, backend, tag='', like=None):
        self.c, self.eng, self.backend, self.tag = c, c.eng, backend, tag
        eng = c.eng
        install(eng)
        if like is None:
            self.n = eng.size('fields')
            self.names = z3.Function('name', Int, Str)
            self.inv = z3.Function('name:inv', Str, Int)
            j = z3.Int('j!nm')
            own = reserved(eng, eng.cls('dsch.backends.' + backend,
                                        'Compilation'))
            eng.assume(z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < self.n), z3.And(
                    self.inv(self.names(j)) == j,
                    eng.uf('isident', Str, Bool)(self.names(j)),
                    *[self.names(j) != eng.lit(x) for x in own])),
                patterns=[self.names(j)]))
        else:
            self.n, self.names, self.inv = like.n, like.names, like.inv
        self.csch = z3.Function('child' + tag, Int, Sch)
        fields = eng.new_dict(eng.dparts(
            self.n, lambda i: self.names(i), lambda i: self.csch(i),
            inv=lambda s: self.inv(s), label='fields'))
        m = eng.size('optionals')
        self.no = m
        self.oname = z3.Function('optional' + tag, Int, Str)
        opts = eng.new_list(eng.parts(m, lambda i: self.oname(i),
                                      label='optionals'))
        self.schema = eng.call(eng.cls('dsch.schema', 'Compilation'),
                               [fields], {'optionals': opts})
        self.sid = z3.Const('cfg' + tag, Sch)
        p = eng.h(self.schema)
        eng.put(self.schema, HObj(p.cls, p.attrs, dict(
            p.ghost, sid=self.sid)))
        self.parent = eng.alloc(HObj(External('parent'), {}))
        self.group = self.gname = None

    def optional(self, name):
        return z3.Not(boolv(self.c.forall(
            self.no, lambda j: self.oname(j) != name)))

    # nodes

    def new(self, top=None):
        eng = self.eng
        k = {}
        if self.backend == 'hdf5':
            nm = z3.Const('place' + self.tag, Str)
            eng.assume(eng.uf('isident', Str, Bool)(nm))
            eng.assume(nm != eng.lit(''))
            if top is None:
                top = pick(self.c, [True, False])
            self.group = eng.h5.group(eng, (), path=z3.Const(
                'path' + self.tag, Str))
            self.gname = '' if top else nm
            k['new_params'] = eng.new_dict([
                ('i', 'name', self.gname), ('i', 'parent', self.group)])
            eng.isreg['factory_hook'] = place_hook
        kind, n = self.c.call(
            eng.cls('dsch.backends.' + self.backend, 'Compilation'),
            self.schema, self.parent, **k)
        if kind == 'raise':
            return None, n
        self.node = n
        return n, None

    def make(self):
        """A compilation node whose fields hold anything."""
        n, e = self.new()
        if n is None:
            self.c.stop()
        self.havoc()
        return n

    def havoc(self):
        eng = self.eng
        eng.st.fresh += 1
        eng.st.ghost['tree'] = z3.Const('tree!%d' % eng.st.fresh,
                                        nodes.TreeMap)

    def own_group(self):
        """hdf5: the group with the fields."""
        eng = self.eng
        if isinstance(self.gname, str):
            return self.group
        ok, g = eng.dict_get(eng.h(eng.h(self.group).attrs['items']),
                             self.gname)
        if not ok:
            self.c.stop()
        return g

    def field(self, node, name):
        """The field called name, by attribute access."""
        k, f = self.c.attr(node, '__getattr__')
        if k == 'raise':
            return 'raise', f
        return self.c.call(f, name)

    def some(self, name='k'):
        """An arbitrary field: (index, its node)."""
        eng = self.eng
        k = z3.Int(name + '0' + self.tag)
        if isinstance(self.n, int):
            if self.n == 0:
                return None, None
            i = pick(self.c, list(range(self.n)))
            k = z3.IntVal(i)
        else:
            eng.assume(z3.And(0 <= k, k < self.n))
        how, f = self.field(self.node, self.names(k))
        if how == 'raise' or not is_sort(f, Node):
            return k, None
        return k, f

    def children(self):
        """Term of the field node at any index, for quantified facts."""
        eng = self.eng
        if isinstance(self.n, int):
            fs = [self.field(self.node, self.names(z3.IntVal(i)))[1]
                  for i in range(self.n)]

            def at(j):
                j = z3.simplify(j) if is_z3(j) else z3.IntVal(j)
                return fs[j.as_long()]
            return at
        p = z3.Int('k!any' + self.tag)
        mark = len(eng.st.pc)
        eng.assume(z3.And(0 <= p, p < self.n))
        how, f = self.field(self.node, self.names(p))
        new = eng.st.pc[mark:]
        del eng.st.pc[mark:]
        for g in new:
            if not eng.valid_here(z3.Implies(z3.And(0 <= p, p < self.n), g)):
                raise Unsupported('field access depends on the field')
        if how == 'raise' or not is_sort(f, Node):
            raise Unsupported('fields')
        return lambda j: z3.substitute(f, (p, j))

    def outside(self):
        """An arbitrary node that is no field of the compilation."""
        x = z3.Const('outsider', Node)
        self.eng.assume(self.eng.nodec.old(self.eng, x))
        return x


def place_hook(eng, n, s, a):
    """Where a child of an hdf5 node is kept."""
    np_ = eng.force(a.get('new_params'))
    ds = eng.force(a.get('data_storage'))
    if np_ is not None and ds is None:
        ok, name = eng.dict_get(eng.h(np_), 'name')
        ok2, grp = eng.dict_get(eng.h(np_), 'parent')
        if not ok or not ok2:
            raise Unsupported('new_params')
        eng.assume(eng.uf('place', Node, Str)(n) == eng.text(
            eng.force(name)))
        grp = eng.force(grp)
        eng.assume(eng.uf('place_in', Node, Int)(n) == (
            grp.oid if isinstance(grp, Ref) else 0))
    return None


def tree(eng, n):
    return eng.nodec.tree(eng, n)


# -- creation -----------------------------------------------------------------------

def comp_new(b):
    N = ['every field of the schema is there, new, with its schema node',
         'the node is the parent of its fields',
         'nothing else in memory changes', 'the schema is not modified',
         'no two fields share their place in the file']

    @unit('P14', 'tree.%s.Compilation creation' % b, {
        N[0]: 'P14 P18 P06', N[1]: 'P14 P05', N[2]: 'P11', N[3]: 'P11',
        N[4]: 'P11 P09 P10'}, bounds=TREE_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('field')

        def run():
            w = Comp(c, b)
            snap = eng.h(w.schema)
            x = w.outside()
            t0 = tree(eng, x)
            node, e = w.new()
            if node is None:
                c.goal(N[0], False, 'raises ' + c.exc_name(e))
                return
            at = w.children()
            k, f = w.some()
            c.goal(N[2], tree(eng, x) == t0)
            c.goal(N[3], same_obj(eng, snap, eng.h(w.schema)))
            if k is None:
                return
            c.cover('field')
            if f is None:
                c.goal(N[0], False, 'a field is missing')
                return
            c.goal(N[0], z3.And(nc.sch(eng, f) == w.csch(k),
                                tree(eng, f) == nc.new(eng, w.csch(k)),
                                z3.Not(nc.old(eng, f)),
                                eng.uf('mod', Node, Str)(f) == eng.text(
                                    'dsch.backends.' + b)))
            c.goal(N[1], eng.uf('parent_is', Node, Int)(f) == node.oid)
            k2, p = c.attr(node, 'parent')
            k3, s = c.attr(node, 'schema_node')
            c.goal(N[1], k2 == k3 == 'return' and p == w.parent
                   and s == w.schema)
            if b == 'hdf5':
                k2, f2 = w.some('l')
                pl = eng.uf('place', Node, Str)
                pi = eng.uf('place_in', Node, Int)
                c.goal(N[4], z3.Implies(k != k2, z3.Or(
                    pl(f) != pl(f2), pi(f) != pi(f2))))
            else:
                c.goal(N[4], True)
        c.explore(run)


def same_obj(eng, a, b):
    if a is b:
        return True
    if set(a.attrs) != set(b.attrs):
        return False
    r = True
    for n in a.attrs:
        r = eng.and_(r, eng.value_eq(a.attrs[n], b.attrs[n]))
    return r


# -- operations -----------------------------------------------------------------------

def comp_ops(b):
    O = {'clear empties every field': 'P14 P10 P06',
         'clear touches nothing outside': 'P11 P10',
         'empty: everything in it is empty': 'P06',
         'complete: every field not optional is complete': 'P06',
         'the fields stay the same nodes': 'P14 P11',
         TRACE: LOOKERS, CLOSED: 'P10 P06'}

    @unit('P14', 'tree.%s.Compilation clear, empty, complete' % b, O,
          bounds=TREE_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('clear', 'empty', 'complete', 'not empty',
                     'not complete')

        def run():
            w = Comp(c, b)
            node = w.make()
            x = w.outside()
            t0 = tree(eng, x)
            at = w.children()
            before, trees = state_of(eng, node), nc.map(eng)
            op = pick(c, ['clear', 'empty', 'complete'])
            k, f = w.some()
            if op == 'clear':
                how, e = c.method(node, 'clear')
                c.cover('clear')
                if k is not None:
                    c.goal('clear empties every field', eng.and_(
                        how == 'return', z3.And(
                            nc.is_empty(eng, tree(eng, f)),
                            tree(eng, f) == nc.cleared(
                                eng, nc.sch(eng, f)))))
                c.goal('clear touches nothing outside', tree(eng, x) == t0)
                c.lemma(CLOSED, unchanged(eng, before), op)
            else:
                how, r = c.attr(node, op)
                c.lemma(TRACE, eng.and_(unchanged(eng, before), nc.map(
                    eng).eq(trees)), op)
                if op == 'empty':
                    want = c.forall(w.n, lambda j: nc.is_empty(
                        eng, tree(eng, at(j))))
                    name = 'empty: everything in it is empty'
                else:
                    want = c.forall(w.n, lambda j: z3.Or(
                        w.optional(w.names(j)), nc.is_complete(
                            eng, at(j), tree(eng, at(j)))))
                    name = 'complete: every field not optional is complete'
                if how == 'raise':
                    c.goal(name, False, c.exc_name(r))
                    return
                r = eng.truth(r)
                if not isinstance(r, bool):
                    r = eng.branch(r)
                c.cover(op if r else 'not ' + op)
                c.goal(name, eng.eq(r, want))
            if k is not None:
                k2, f2 = w.field(node, w.names(k))
                c.goal('the fields stay the same nodes',
                       k2 == 'return' and f2 == f)
        c.explore(run)


def state_of(eng, *roots):
    """Everything reachable, to see later that nothing of it changed."""
    from .items import reachable
    return {o: eng.st.heap[o] for o in reachable(eng, *roots)}


def unchanged(eng, before):
    return all(same_payload(eng, p, eng.st.heap[o])
               for o, p in before.items())


def same_but(eng, p, q, *names):
    """The objects p and q have the same attributes, apart from names."""
    if set(p.attrs) != set(q.attrs):
        return False
    return all(n in names or x is q.attrs[n] or same_ref(x, q.attrs[n])
               for n, x in p.attrs.items())


def same_ref(a, b):
    if isinstance(a, Ref) or isinstance(b, Ref):
        return isinstance(a, Ref) and isinstance(b, Ref) and a == b
    if is_z3(a) or is_z3(b):
        return is_z3(a) and is_z3(b) and a.eq(b)
    return type(a) is type(b) and a == b


def same_payload(eng, p, q):
    if p is q:
        return True
    if type(p) is not type(q):
        return False
    from ..loops import same
    if isinstance(p, HObj):
        return p.cls == q.cls and set(p.attrs) == set(q.attrs) and all(
            same(p.attrs[k], q.attrs[k]) for k in p.attrs)
    return len(p.parts) == len(q.parts) and all(
        x is y or (not isinstance(x, Seg) and not isinstance(y, Seg)
                   and all(same(m, n) for m, n in zip(x, y)))
        for x, y in zip(p.parts, q.parts))


def error_path(c, err):
    """node_path() and original_cause() of an error, as a user reads them."""
    k, p = c.method(err, 'node_path')
    k2, o = c.method(err, 'original_cause')
    return (p if k == 'return' else None), (o if k2 == 'return' else None)


SAYS = 'the text of the error names the path'


def says(c, err, path):
    eng = c.eng
    try:
        ok = shows(eng, eng.ext.to_text(eng, err), path)
    except PyRaise:
        ok = False
    except Unsupported:
        c.lemma(SAYS, False)
        return
    c.goal(SAYS, ok)


def check_error(c, goal, err, n, at, location):
    """err is right: one of the n children at(j) is invalid and err names its
    location(j) and has its own error as the original cause."""
    eng = c.eng
    if not c.exact_exc(err, 'SubnodeValidationError'):
        c.goal(SAYS, True)
        c.goal(goal, False, '%s instead of SubnodeValidationError' %
               c.exc_name(err))
        return
    path, orig = error_path(c, err)
    if path is None or not isinstance(orig, Ref) or 'inner' not in eng.h(
            orig).ghost:
        c.goal(goal, False, 'no path, or not the error of a child')
        return
    says(c, err, path)
    g = eng.h(orig).ghost
    x, inner = g['child'], g['inner']
    if isinstance(n, int):
        for i in range(n):
            j = z3.IntVal(i)
            if eng.branch(at(j) == x):
                break
        else:
            c.goal(goal, False, 'no child')
            return
    else:
        j = eng.uf('nodeidx0', Node, Int)(x)
    loc = location(j)
    if inner is None:
        want = Rope(loc)
    elif eng.branch(eng.ext.prefix_test(eng, inner, '[')):
        want = Rope(loc + [inner])
    else:
        want = Rope(loc + ['.', inner])
    c.goal(goal, eng.and_(eng.value_eq(path, want), z3.And(
        0 <= j, j < n, at(j) == x, z3.Not(eng.nodec.is_valid(eng, x)))))


def comp_validate(b):
    V = ['it succeeds exactly if every field is valid',
         'the error leads to an invalid field and has its cause',
         'validating changes nothing']

    @unit('P05', 'tree.%s.Compilation validate' % b, {
        V[0]: 'P05', V[1]: 'P05', V[2]: 'P16', TRACE: LOOKERS,
        SAYS: 'P05'},
        bounds=TREE_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('valid', 'invalid')

        def run():
            w = Comp(c, b)
            node = w.make()
            at = w.children()
            before, t0 = state_of(eng, node), nc.map(eng)
            how, e = c.method(node, 'validate')
            ok = c.forall(w.n, lambda j: nc.is_valid(eng, at(j)))
            c.cover('valid' if how == 'return' else 'invalid')
            c.goal(V[0], ok if how == 'return' else eng.not_(ok))
            same = eng.and_(unchanged(eng, before), nc.map(eng).eq(t0))
            c.goal(V[2], same)
            c.lemma(TRACE, same)
            if how == 'raise':
                check_error(c, V[1], e, w.n, at, lambda j: [w.names(j)])
            else:
                c.goal(V[1], True)
                c.goal(SAYS, True)
        c.explore(run)


def comp_export(b):
    X = ['data_tree has exactly the fields with data, in order',
         'include_empty keeps empty fields',
         'node_tree and print have every field once, under its name,'
         ' in order',
         'exporting and printing changes nothing',
         'exporting and printing never fails']

    @unit('P17', 'tree.%s.Compilation data_tree, node_tree' % b, {
        X[0]: 'P17', X[1]: 'P17', X[2]: 'P19', X[3]: 'P16',
        X[4]: 'P17 P19', TRACE: LOOKERS}, bounds=TREE_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('data', 'all data', 'nodes', 'print')

        def run():
            w = Comp(c, b)
            node = w.make()
            at = w.children()
            before, t0 = state_of(eng, node), nc.map(eng)
            op = pick(c, ['data', 'all data', 'nodes', 'print'])
            if op == 'nodes':
                how, r = c.method(node, 'node_tree')
            elif op == 'print':
                how, r = c.method(node, '__repr__')
            elif op == 'data':
                how, r = c.method(node, 'data_tree')
            elif pick(c, [0, 1]):
                how, r = c.method(node, 'data_tree', True)
            else:
                how, r = c.method(node, 'data_tree', include_empty=True)
            c.cover(op)
            same = eng.and_(unchanged(eng, before), nc.map(eng).eq(t0))
            c.goal(X[3], same)
            c.lemma(TRACE, same)
            c.goal(X[4], how == 'return')
            if how == 'raise':
                return
            if op in ('nodes', 'print'):
                if op == 'print':
                    r = drawn(eng, r)
                sub = single(eng, r, '(Compilation)')
                c.goal(X[2], sub is not None and is_family(
                    c, sub, w.n,
                    lambda j: Rope([w.names(j), ' ', nc.label(
                        eng, at(j), tree(eng, at(j)))]),
                    lambda j: nc.branches(eng, at(j), tree(eng, at(j))),
                    None))
                return
            inc = op == 'all data'
            none = eng.to_u(None)
            c.goal(X[1] if inc else X[0], is_family(
                c, r, w.n, lambda j: w.names(j),
                lambda j: nc.data(eng, tree(eng, at(j)), inc),
                None if inc else lambda j: nc.data(
                    eng, tree(eng, at(j)), False) != none))
        c.explore(run)


def single(eng, r, key):
    """The value of a dict of one entry."""
    if not isinstance(r, Ref) or not isinstance(eng.h(r), HDict):
        return None
    ps = eng.h(r).parts
    if len(ps) != 1 or isinstance(ps[0], Seg):
        return None
    if eng.value_eq(ps[0][1], key) is not True:
        return None
    return ps[0][2]


def is_family(c, r, n, key, val, guard):
    """The dict (key given) or list r has exactly the entries key(j): val(j)
    for the j < n with guard(j), in order."""
    eng = c.eng
    if not isinstance(r, Ref):
        return False
    p = eng.h(r)
    if not isinstance(p, HDict if key else HList):
        return False
    if isinstance(n, int):
        want = [j for j in map(z3.IntVal, range(n))
                if guard is None or eng.branch(guard(j))]
        if any(isinstance(e, Seg) for e in p.parts):
            raise Unsupported('entries')
        if len(want) != len(p.parts):
            return False
        f = True
        for j, e in zip(want, p.parts):
            if key:
                f = eng.and_(f, eng.value_eq(e[1], key(j)))
            f = eng.and_(f, same_value(eng, e[-1], val(j)))
        return f
    segs = [e for e in p.parts if not (isinstance(e, Seg) and not is_z3(
        e.n) and e.n == 0)]
    if not segs:
        return n == 0
    if len(segs) != 1 or not isinstance(segs[0], Seg):
        raise Unsupported('entries of several kinds')
    s = segs[0]

    def body(j):
        f = True
        if key:
            f = eng.and_(f, eng.value_eq(s.k(j), key(j)))
        f = eng.and_(f, same_value(eng, s.v(j), val(j)))
        have = boolv(s.g(j)) if s.g is not None else z3.BoolVal(True)
        if guard is None:
            return z3.And(have, boolv(f))
        return z3.And(have == guard(j), z3.Implies(have, boolv(f)))
    return z3.And(s.n == n, boolv(c.forall(n, body)))


def same_value(eng, a, b):
    if is_sort(b, U):
        if isinstance(a, Alt) or not isinstance(a, (Ref, z3.ExprRef)):
            a = eng.to_u(a)
        if is_sort(a, U):
            return a == b
        return False
    return eng.value_eq(a, b)


def comp_write(b):
    W = ['replacing sets the named fields', 'the other fields stay',
         'nothing else in memory changes', 'the fields stay the same nodes',
         'assigning to a field raises ResetSubnodeError and changes nothing']

    @unit('P14', 'tree.%s.Compilation replace and assign' % b, {
        W[0]: 'P14 P10', W[1]: 'P14 P11', W[2]: 'P11 P14',
        W[3]: 'P14 P11', W[4]: 'P14', CLOSED: 'P10 P14'},
        bounds=[[1, 0, 1], [2, 0, 1], [2, 0, 2], [2, 0, 0], [3, 0, 2]])
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('replaced', 'kept', 'assigned')

        def run():
            w = Comp(c, b)
            node = w.make()
            at = w.children()
            x = w.outside()
            before, t0 = state_of(eng, node), nc.map(eng)
            k, f = w.some()
            if k is None:
                c.stop()
            if pick(c, [0, 1]):
                try:
                    eng.setattr(node, w.names(k), z3.Const('v', U))
                    how, e = 'return', None
                except PyRaise as err:
                    how, e = 'raise', err.value
                c.cover('assigned')
                c.goal(W[4], eng.and_(how == 'raise' and c.is_exc(
                    e, 'ResetSubnodeError'), eng.and_(
                        unchanged(eng, before), nc.map(eng).eq(t0))))
                return
            # a dict of values for some of the fields
            m = eng.size('values')
            which = z3.Function('which', Int, Int)
            back = z3.Function('which:inv', Int, Int)
            val = z3.Function('val', Int, U)
            j = z3.Int('j!wh')
            eng.assume(z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < m), z3.And(
                    0 <= which(j), which(j) < w.n, back(which(j)) == j,
                    val(j) != eng.to_u(None))), patterns=[which(j)]))
            d = eng.new_dict(eng.dparts(
                m, lambda i: w.names(which(i)), lambda i: val(i),
                inv=lambda s: back(w.inv(s)), label='values'))
            arg_before = eng.h(d)
            how, e = c.method(node, 'replace', d)
            if how == 'raise':
                c.goal(W[0], False, 'raises ' + c.exc_name(e))
                return
            c.lemma(CLOSED, unchanged(eng, before))
            i = back(k)
            given = z3.And(0 <= i, i < m, which(i) == k)
            old = z3.Select(t0, f)
            if eng.branch(given):
                c.cover('replaced')
                c.goal(W[0], tree(eng, f) == nc.replaced(
                    eng, w.csch(k), old, val(i)))
            else:
                c.cover('kept')
                c.goal(W[1], tree(eng, f) == old)
            c.goal(W[2], z3.And(tree(eng, x) == z3.Select(t0, x), boolv(
                eng.h(d) is arg_before)))
            k2, f2 = w.field(node, w.names(k))
            c.goal(W[3], k2 == 'return' and f2 == f)
        c.explore(run)


def comp_copy(b):
    L = ['every field holds what that of the source holds',
         'the source is not changed', 'nothing else in memory changes',
         'different schemas are refused and nothing is changed']

    @unit('P12', 'tree.%s.Compilation load_from' % b, {
        L[0]: 'P12 P18', L[1]: 'P12 P16 P11', L[2]: 'P11', L[3]: 'P12'},
        bounds=TREE_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('copied', 'refused')

        def run():
            w = Comp(c, b)
            src = pick(c, BACKENDS)
            ws = Comp(c, src, '_s', like=w)
            # equal schemas have equal fields
            same = eng.schc.cfg(eng, w.sid) == eng.schc.cfg(eng, ws.sid)
            j = z3.Int('j!cf')
            eng.assume(z3.Implies(same, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < w.n), eng.schc.cfg(
                    eng, w.csch(j)) == eng.schc.cfg(eng, ws.csch(j))))))
            node = w.make()
            s = ws.make()
            at, ats = w.children(), ws.children()
            x = w.outside()
            before = state_of(eng, s, w.schema, w.parent)
            t0 = nc.map(eng)
            k, f = w.some()
            how, e = c.method(node, 'load_from', s)
            if not eng.branch(same):
                c.cover('refused')
                c.goal(L[3], how == 'raise' and c.is_exc(
                    e, 'IncompatibleNodesError'))
                c.goal(L[3], nc.map(eng) == t0)
                return
            if how == 'raise':
                c.goal(L[0], False, 'raises ' + c.exc_name(e))
                return
            c.cover('copied')
            if k is not None:
                c.goal(L[0], tree(eng, f) == z3.Select(t0, ats(k)))
                c.goal(L[1], tree(eng, ats(k)) == z3.Select(t0, ats(k)))
            c.goal(L[1], unchanged(eng, before))
            c.goal(L[2], tree(eng, x) == z3.Select(t0, x))
        c.explore(run)


def comp_itself(b):
    L = 'copying a compilation to itself changes nothing'

    @unit('P12', 'tree.%s.Compilation load_from itself' % b,
          {L: 'P12 P16 P11'}, bounds=TREE_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('copied')

        def run():
            w = Comp(c, b)
            node = w.make()
            at = w.children()
            x = w.outside()
            t0 = nc.map(eng)
            k, f = w.some()
            how, e = c.method(node, 'load_from', node)
            if how == 'raise':
                c.goal(L, False, 'raises ' + c.exc_name(e))
                return
            c.cover('copied')
            if k is not None:
                c.goal(L, tree(eng, at(k)) == z3.Select(t0, at(k)))
                k2, f2 = w.field(node, w.names(k))
                c.goal(L, k2 == 'return' and f2 == f)
            c.goal(L, tree(eng, x) == z3.Select(t0, x))
        c.explore(run)


# -- saving and loading ----------------------------------------------------------------

def filed(eng, u):
    """What is read back of something that was saved."""
    t = eng.uf('filed', U, U)(u)
    eng.axiom_once('filed', lambda: any_u(eng, lambda x: eng.uf(
        'filed', U, U)(x) != eng.to_u(None), eng.uf('filed', U, U)))
    return t


def any_u(eng, f, pat):
    x = z3.Const('x!filed', U)
    return z3.ForAll([x], f(x), patterns=[pat(x)])


def leaves(eng, u):
    """Number of arrays that something saved consists of."""
    n = eng.uf('flat:n', U, Int)
    eng.axiom_once('flat:n', lambda: any_u(eng, lambda x: n(x) >= 0, n))
    return n(u)


def child_saved(eng):
    """Contract of saving a child: nothing or an empty dict is saved only of
    an empty node."""
    nc = eng.nodec
    t = z3.Const('t!sv', Tree)
    s = eng.uf('t_saved', Tree, U)
    eng.axiom(z3.ForAll([t], z3.Implies(z3.Not(nc.is_empty(eng, t)), z3.And(
        s(t) != eng.to_u(None), leaves(eng, s(t)) > 0)), patterns=[s(t)]))


def npz_dict(eng, r):
    """What is read back of a dict that was saved to an npz file: the
    contract of flattening and inflating (stores.flat)."""
    p = eng.h(r) if isinstance(r, Ref) else None
    if not isinstance(p, HDict):
        raise Unsupported('saved %r' % (r,))
    out = []
    for e in p.parts:
        if isinstance(e, Seg):
            if not is_sort(e.v(z3.Int('j!nd')), U):
                raise Unsupported('saved values')

            def g(j, e=e):
                x = [e.g(j)] if e.g is not None else []
                return z3.And(leaves(eng, e.v(j)) != 0, *x)
            out.append(Seg(e.n, lambda j, e=e: filed(eng, e.v(j)), g, e.k,
                           e.inv, 'reread'))
        else:
            u = eng.force(e[2])
            if not is_sort(u, U):
                raise Unsupported('saved value')
            if eng.branch(leaves(eng, u) != 0):
                out.append(('i', e[1], filed(eng, u)))
    return eng.new_dict(out)


S = ['loading what was saved gives every field what was saved of it',
     'fields saved as empty are loaded as empty',
     'a loaded field has its schema node and parent, and is new',
     'saving changes nothing in memory', 'loading changes nothing saved',
     'a compilation with something in it is stored',
     'fields of the file are found under their names']


def comp_persist(b):
    obs = {S[0]: 'P09 P13 P18', S[1]: 'P09 P18', S[2]: 'P09 P14 P11',
           S[4]: 'P16 P11'}
    if b == 'hdf5':
        obs[S[6]] = 'P09'
    else:
        obs[S[3]] = 'P16'
        obs[TRACE] = LOOKERS
        if b == 'npz':
            obs[S[5]] = 'P09'

    @unit('P09', 'tree.%s.Compilation save and load' % b, obs,
          bounds=TREE_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('held', 'empty')

        def run():
            w = Comp(c, b)
            child_saved(eng)
            eng.isreg['mat_u'] = filed
            node = w.make()
            at = w.children()
            x = w.outside()
            k, f = w.some()
            t0 = nc.map(eng)
            before = state_of(eng, node, w.schema, w.parent)
            if b == 'hdf5':
                # what the fields have put at their places
                has = z3.Function('has', Int, Bool)
                put = z3.Function('entry', Int, U)
                eng.assume(c.forall(w.n, lambda j: z3.And(
                    put(j) != eng.to_u(None), z3.Or(has(j), nc.is_empty(
                        eng, z3.Select(t0, at(j)))))))
                g = w.own_group()
                if k is not None:
                    c.goal(S[6], z3.And(
                        eng.uf('place', Node, Str)(f) == w.names(k),
                        eng.uf('place_in', Node, Int)(f) == g.oid))
                eng.put(eng.h(g).attrs['items'], HDict(eng.dparts_mixed(
                    w.n, w.names, put, has, w.inv, 'entries')))
                stored, data = None, g
            else:
                how, r = c.method(node, 'save')
                same = eng.and_(nc.map(eng).eq(t0), unchanged(eng, before))
                c.goal(S[3], eng.and_(how == 'return', same))
                c.lemma(TRACE, same)
                if how == 'raise':
                    c.goal(S[0], False, 'saving raises ' + c.exc_name(r))
                    return
                data = files.mat_value(eng, r) if b == 'mat' else \
                    npz_dict(eng, r)
            kept = state_of(eng, data)
            p2 = eng.alloc(HObj(External('parent'), {}))
            how, n2 = c.call(eng.cls('dsch.backends.' + b, 'Compilation'),
                             w.schema, p2, data_storage=data)
            if how == 'raise':
                c.goal(S[0], False, 'loading raises ' + c.exc_name(n2))
                return
            c.goal(S[4], eng.and_(unchanged(eng, kept), tree(
                eng, x) == z3.Select(t0, x)))
            if k is None:
                c.goal(S[0], True)
                return
            how, f2 = w.field(n2, w.names(k))
            if how == 'raise' or not is_sort(f2, Node):
                c.goal(S[2], False, 'no such field')
                return
            c.goal(S[2], z3.And(
                nc.sch(eng, f2) == w.csch(k), z3.Not(nc.old(eng, f2)),
                eng.uf('mod', Node, Str)(f2) == eng.text(
                    'dsch.backends.' + b),
                eng.uf('parent_is', Node, Int)(f2) == n2.oid, f2 != f))
            t, t2 = z3.Select(t0, f), tree(eng, f2)
            if b == 'hdf5':
                if eng.branch(has(k)):
                    c.cover('held')
                    c.goal(S[0], t2 == nc.loaded(eng, w.csch(k), put(k)))
                    return
                c.cover('empty')
                c.goal(S[1], z3.And(
                    t2 == nc.cleared(eng, w.csch(k)), nc.is_empty(eng, t)))
                c.goal(S[6], z3.And(
                    eng.uf('place', Node, Str)(f2) == w.names(k),
                    eng.uf('place_in', Node, Int)(f2) == g.oid))
                return
            same = t2 == nc.loaded(eng, w.csch(k), filed(
                eng, nc.saved(eng, t)))
            if eng.branch(nc.is_empty(eng, t)):
                c.cover('empty')
                c.goal(S[1], z3.Or(same, t2 == nc.cleared(
                    eng, w.csch(k))))
                return
            c.cover('held')
            c.goal(S[0], same)
            if b == 'npz':
                c.goal(S[5], dict_of(eng, r, w.names(k)))
        c.explore(run)


def dict_of(eng, r, name):
    """(npz) saving gave an entry of that name with something in it."""
    d = eng.h(r)
    ok, v = eng.dict_get(d, name)
    return ok and leaves(eng, eng.force(v)) > 0


for _b in BACKENDS:
    if _b != 'inmem':
        comp_persist(_b)
    comp_new(_b)
    comp_ops(_b)
    comp_validate(_b)
    comp_export(_b)
    comp_write(_b)
    comp_copy(_b)
    comp_itself(_b)
