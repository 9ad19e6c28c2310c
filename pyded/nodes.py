"""Interface contracts: what the verifier assumes about a child data node or
schema node while verifying the code of its parent.  They are the induction
hypotheses of the structural induction over data trees: every class that can
be a child is proved to satisfy them (contracts/tree.py, contracts/items.py).
"""
import z3

from .values import *  # noqa: F401,F403
from . import engine as en

TreeMap = z3.ArraySort(Node, Tree)


class SchemaContract:
    """Schema nodes known by identity: configuration cfg(s), which is
    represented by the dict that describes it."""

    def cfg(self, eng, s):
        return eng.uf('cfg', Sch, U)(s)

    def hash_of(self, eng, s):
        h = eng.uf('schash', U, Str)
        inv = eng.uf('unschash', Str, U)
        x = z3.Const('x!cfg', U)
        if 'schash' not in eng.isreg:
            eng.isreg['schash'] = True
            eng.axiom(z3.ForAll([x], inv(h(x)) == x, patterns=[h(x)]))
        return h(self.cfg(eng, s))

    def json_of(self, eng, s):
        h = eng.uf('scjson', U, Str)
        inv = eng.uf('unscjson', Str, U)
        x = z3.Const('x!cfg', U)
        if 'scjson' not in eng.isreg:
            eng.isreg['scjson'] = True
            eng.axiom(z3.ForAll([x], inv(h(x)) == x, patterns=[h(x)]))
        t = h(self.cfg(eng, s))
        eng.assume(t != eng.lit(''))
        return t

    def valid(self, eng, s, v):
        return eng.uf('schema_valid', U, U, Bool)(self.cfg(eng, s), v)

    def sid(self, eng, v):
        if is_sort(v, Sch):
            return v
        if isinstance(v, Ref) and isinstance(eng.h(v), HObj):
            return eng.h(v).ghost.get('sid')
        return None

    def method(self, eng, s, name):
        def m(f):
            return NativeBM(name, f)
        if name == 'hash':
            return m(lambda: self.hash_of(eng, s))
        if name == 'to_json':
            return m(lambda: self.json_of(eng, s))
        if name == 'to_dict':
            return m(lambda: self.cfg(eng, s))
        if name in ('__eq__', '__ne__'):
            def eq(o):
                o = eng.force(o)
                t = self.sid(eng, o)
                if t is None:
                    r = False
                else:
                    r = self.cfg(eng, s) == self.cfg(eng, t)
                return r if name == '__eq__' else eng.not_(r)
            return m(eq)
        return NotImplemented

    def obj_attr(self, eng, v, p, name):
        return self.method(eng, p.ghost['sid'], name)

    def attr(self, eng, s, name):
        r = self.method(eng, s, name)
        if r is not NotImplemented:
            return r
        if name == 'validate':
            def validate(v, *rest):
                u = eng.to_u(v)
                if not eng.branch(self.valid(eng, s, u)):
                    cls = eng.cls('dsch.exceptions', 'ValidationError')
                    raise PyRaise(eng.alloc(HObj(cls, {
                        'args': (), 'message': eng.fresh('msg', Str),
                        'expected': None, 'got': None}, {'child': True})))
            return NativeBM(name, validate)
        if name in ('optionals', 'subnodes', 'subnode'):
            raise Unsupported('child schema.' + name)
        has = eng.uf('sch:has:' + name, Sch, Bool)(s)
        if not eng.branch(has):
            eng.raise_(AttributeError, name)
        return eng.uf('sch:' + name, Sch, U)(s)

    def type_of(self, eng, s):
        return eng.uf('cfg:type', U, Ty)(self.cfg(eng, s))

    def isinstance(self, eng, s, t):
        if isinstance(t, ClassInfo):
            if t.name == 'SchemaNode':
                return True
            if t.module.name == 'dsch.schema':
                return self.type_of(eng, s) == eng.ty(t)
        return False


class NodeContract:
    """Data nodes known by their contract; their content is a ghost map from
    nodes to trees."""

    def __init__(self):
        self.on_missing = None

    # spec functions

    def sch(self, eng, n):
        return eng.uf('sch', Node, Sch)(n)

    def tree(self, eng, n):
        m = self.map(eng)
        while z3.is_app(m) and m.decl().kind() == z3.Z3_OP_STORE:
            if m.arg(1).eq(n):
                return m.arg(2)
            if not eng.provable(m.arg(1) != n):
                break
            m = m.arg(0)
        return z3.Select(m, n)

    def map(self, eng):
        t = eng.st.ghost.get('tree')
        if t is None:
            t = z3.Const('tree0', TreeMap)
            eng.st.ghost['tree'] = t
        return t

    def set_tree(self, eng, n, t):
        eng.st.ghost['tree'] = z3.Store(self.map(eng), n, t)

    def is_empty(self, eng, t):
        return eng.uf('t_empty', Tree, Bool)(t)

    def is_complete(self, eng, n, t):
        return eng.uf('t_complete', Sch, Tree, Bool)(self.sch(eng, n), t)

    def is_valid(self, eng, n, trees=None):
        trees = self.map(eng) if trees is None else trees
        return eng.uf('n_valid', Node, TreeMap, Bool)(n, trees)

    def cleared(self, eng, s):
        t = eng.uf('t_cleared', Sch, Tree)(s)
        eng.assume(self.is_empty(eng, t))
        return t

    def new(self, eng, s):
        return eng.uf('t_new', Sch, Tree)(s)

    def loaded(self, eng, s, data):
        return eng.uf('t_loaded', Sch, U, Tree)(s, data)

    def replaced(self, eng, s, old, v):
        return eng.uf('t_replaced', Sch, Tree, U, Tree)(s, old, v)

    def data(self, eng, t, inc):
        inc = z3.BoolVal(inc) if isinstance(inc, bool) else inc
        return eng.uf('t_data', Tree, Bool, U)(t, inc)

    def label(self, eng, n, t):
        return eng.uf('t_label', Node, Tree, Str)(n, t)

    def branches(self, eng, n, t):
        return eng.uf('t_branches', Node, Tree, U)(n, t)

    def saved(self, eng, t):
        return eng.uf('t_saved', Tree, U)(t)

    def value(self, eng, t):
        return eng.uf('t_value', Tree, U)(t)

    # fresh nodes

    def fresh(self, eng, name='node'):
        n = eng.fresh(name, Node)
        site = eng.uf('nodesite', Node, Int)
        eid = eng.st.fresh
        f = site(n) == eid
        for i, k in enumerate(eng.loopctx):
            f = z3.And(f, eng.uf('nodeidx%d' % i, Node, Int)(n) == k)
        eng.assume(f)
        return n

    @staticmethod
    def old(eng, n):
        """n existed before the verified call."""
        return eng.uf('nodesite', Node, Int)(n) <= 0

    # the interface

    def attr(self, eng, n, name):
        def m(f):
            return NativeBM(name, f)
        t = self.tree(eng, n)
        if name == 'empty':
            return self.is_empty(eng, t)
        if name == 'complete':
            return self.is_complete(eng, n, t)
        if name == 'schema_node':
            return self.sch(eng, n)
        if name == 'clear':
            return m(lambda: self.set_tree(eng, n, self.cleared(
                eng, self.sch(eng, n))))
        if name == 'replace':
            def replace(v):
                u = self.arg_u(eng, v)
                self.set_tree(eng, n, self.replaced(
                    eng, self.sch(eng, n), self.tree(eng, n), u))
            return m(replace)
        if name == 'load_from':
            def load_from(src):
                src = eng.force(src)
                if not is_sort(src, Node):
                    raise Unsupported('load_from')
                a = eng.schc.cfg(eng, self.sch(eng, n))
                b = eng.schc.cfg(eng, self.sch(eng, src))
                if not eng.branch(a == b):
                    cls = eng.cls('dsch.exceptions',
                                  'IncompatibleNodesError')
                    raise PyRaise(eng.alloc(HObj(cls, {'args': ()})))
                self.set_tree(eng, n, self.tree(eng, src))
            return m(load_from)
        if name == 'validate':
            return m(lambda: self.validate(eng, n))
        if name == 'data_tree':
            def data_tree(include_empty=False):
                inc = eng.truth(include_empty)
                return self.data(eng, self.tree(eng, n), inc)
            return m(data_tree)
        if name == 'node_tree':
            def node_tree():
                t = self.tree(eng, n)
                return eng.new_dict([('i', self.label(eng, n, t),
                                      self.branches(eng, n, t))])
            return m(node_tree)
        if name == 'save':
            return m(lambda: self.saved(eng, self.tree(eng, n)))
        if name == 'value':
            if eng.branch(eng.uf('is_item', Sch, Bool)(self.sch(eng, n))):
                if eng.branch(self.is_empty(eng, t)):
                    cls = eng.cls('dsch.exceptions', 'NodeEmptyError')
                    raise PyRaise(eng.instantiate(cls, [], {}))
                return self.value(eng, t)
            raise Unsupported('value of a compilation or list')
        if name in ('parent',):
            return eng.uf('par', Node, U)(n)
        if name in ('_storage', '_subnodes', '_value'):
            raise Unsupported('private attribute %s of a child' % name)
        raise Unsupported('attribute %s of a node' % name)

    def arg_u(self, eng, v):
        v = eng.force(v)
        if isinstance(v, Ref):
            p = eng.h(v)
            if isinstance(p, HObj) and p.ghost.get('u') is not None:
                return p.ghost['u']
            if isinstance(p, HDict):
                u = self.whole(eng, p)
                if u is not None:
                    return u
            raise Unsupported('argument of a child node')
        return eng.to_u(v)

    def whole(self, eng, p):
        """The opaque dict all whose entries, and no others, p has."""
        if len(p.parts) != 1 or not isinstance(p.parts[0], Seg):
            return None
        x = p.parts[0]
        j = z3.Int('j!whole')

        def is_(a, b):
            return is_z3(a) and is_z3(b) and a.eq(b)
        for s, u in eng.isreg.get('opaque_dicts', ()):
            if is_(s.n, x.n) and is_(s.k(j), x.k(j)) and is_(
                    s.v(j), x.v(j)):
                if x.g is None or eng.valid_here(z3.Implies(z3.And(
                        0 <= j, j < x.n), x.g(j))):
                    return u
        return None

    def details(self, eng):
        """What a ValidationError says."""
        return {'args': (), 'message': eng.fresh('message', Str),
                'expected': eng.fresh('expected', U),
                'got': eng.fresh('got', U)}

    def validate(self, eng, n):
        if eng.branch(self.is_valid(eng, n)):
            return None
        # the child's own error (ValidationError) or that of a node below
        i = eng.choose([True, True])
        ve = eng.cls('dsch.exceptions', 'ValidationError')
        if i == 0:
            raise PyRaise(eng.alloc(HObj(ve, self.details(eng), {
                'child': n, 'inner': None, 'props': {}})))
        path = eng.fresh('childpath', Str)
        eng.assume(path != eng.lit(''))
        orig = eng.alloc(HObj(ve, self.details(eng), {
            'child': n, 'inner': path, 'props': {}}))
        sve = eng.cls('dsch.exceptions', 'SubnodeValidationError')
        raise PyRaise(eng.alloc(HObj(sve, {'args': ()}, {
            'child': n, 'props': {}, 'over': {
                'node_path': lambda: path,
                'original_cause': lambda: orig}})))

    def set(self, eng, n, name, value):
        if name == 'value':
            self.set_tree(eng, n, self.replaced(
                eng, self.sch(eng, n), self.tree(eng, n),
                self.arg_u(eng, value)))
            return
        raise Unsupported('assignment to attribute %s of a node' % name)

    def iter(self, eng, n):
        raise Unsupported('iteration over a node')

    def getitem(self, eng, n, k):
        raise Unsupported('subscript of a node')

    def isinstance(self, eng, n, t):
        if isinstance(t, type) or (isinstance(t, ClassInfo) and
                                   t.module.name != 'dsch.data'):
            return False
        raise Unsupported('isinstance of a node')


def factory(eng, module_name):
    """Contract of data_node_from_schema for a child of unknown type."""
    def contract(eng, f, args, kwargs):
        names = ['schema_node', 'module_name', 'parent', 'data_storage',
                 'new_params']
        a = dict(zip(names, args))
        a.update(kwargs)
        s = eng.force(a['schema_node'])
        if not is_sort(s, Sch):
            return NotImplemented
        n = eng.nodec.fresh(eng)
        eng.assume(eng.nodec.sch(eng, n) == s)
        mod = eng.force(a['module_name'])
        eng.assume(eng.uf('mod', Node, Str)(n) == eng.text(mod))
        par = eng.force(a['parent'])
        eng.assume(eng.uf('parent_is', Node, Int)(n) == (
            par.oid if isinstance(par, Ref) else 0))
        ds = eng.force(a.get('data_storage'))
        eng.st.marks['made'] = True
        hook = eng.isreg.get('factory_hook')
        if hook is not None:
            r = hook(eng, n, s, a)
            if r is not None:
                return r
        if is_sort(ds, U):
            if eng.branch(ds == eng.to_u(None)):
                ds = None
        if ds is None:
            t = eng.nodec.new(eng, s)
        else:
            t = eng.nodec.loaded(eng, s, eng.nodec.arg_u(eng, ds))
        eng.nodec.set_tree(eng, n, t)
        return n
    return contract
