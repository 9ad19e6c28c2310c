"""Contracts of List nodes of every backend; see tree.py."""
import z3

from ..values import *  # noqa: F401,F403
from ..driver import unit
from .. import files
from .items import (BACKENDS, CLOSED, LOOKERS, TRACE, boolv, drawn,
                    pick)
from .tree import (SAYS, install, tree, state_of, unchanged, same_but,
                   check_error, is_family, single, child_saved, filed, leaves,
                   npz_dict)

LIST_BOUNDS = [[1, 1], [0, 0], [2, 2], [2, 1], [3, 2], [0, 2]]


def item_name(j):
    return Rope(['item_', Dec(j)])


class Lst:
    """A list schema with an arbitrary entry schema, and a node of it."""

    def __init__(self, c, backend, tag='', limits=False):
        self.c, self.eng, self.backend, self.tag = c, c.eng, backend, tag
        eng = c.eng
        install(eng)
        self.elem = z3.Const('elem' + tag, Sch)
        self.maxl, self.nomax = c.optional('max' + tag, z3.Int('max' + tag))
        self.minl, self.nomin = c.optional('min' + tag, z3.Int('min' + tag))
        self.schema = eng.call(eng.cls('dsch.schema', 'List'), [self.elem], {
            'max_length': self.maxl, 'min_length': self.minl}
            if limits else {})
        self.sid = z3.Const('cfg' + tag, Sch)
        p = eng.h(self.schema)
        eng.put(self.schema, HObj(p.cls, p.attrs, dict(
            p.ghost, sid=self.sid)))
        self.parent = eng.alloc(HObj(External('parent'), {}))
        self.group = self.gname = None
        eng.isreg['factory_hook'] = place

    def params(self):
        """How a backend is told where a new list is kept."""
        eng = self.eng
        if self.backend != 'hdf5':
            return {}
        self.gname = z3.Const('place' + self.tag, Str)
        eng.assume(eng.uf('isident', Str, Bool)(self.gname))
        eng.assume(self.gname != eng.lit(''))
        self.group = eng.h5.group(eng, (), path=z3.Const(
            'path' + self.tag, Str))
        return {'new_params': eng.new_dict([
            ('i', 'name', self.gname), ('i', 'parent', self.group)])}

    def create(self, **k):
        return self.c.call(
            self.eng.cls('dsch.backends.' + self.backend, 'List'),
            self.schema, self.parent, **k)

    def new(self):
        kind, n = self.create(**self.params())
        if kind == 'raise':
            return None, n
        self.node = n
        return n, None

    def own_group(self):
        """hdf5: the group with the entries of the list."""
        eng = self.eng
        ok, g = eng.dict_get(eng.h(eng.h(self.group).attrs['items']),
                             self.gname)
        if not ok:
            self.c.stop()
        return g

    def make(self, n=None):
        """A list node with any number of entries that hold anything."""
        eng = self.eng
        node, e = self.new()
        if node is None:
            self.c.stop()
        self.n = eng.size('entries') if n is None else n
        val = z3.Function('made' + self.tag, Int, U)
        j = z3.Int('j!mk')
        eng.assume(z3.ForAll([j], val(j) != eng.to_u(None)))
        how, e = self.c.method(node, 'replace', eng.new_list(eng.parts(
            self.n, lambda i: val(i), label='values')))
        if how == 'raise':
            self.c.stop()
        self.havoc()
        return node

    def havoc(self):
        eng = self.eng
        eng.st.fresh += 1
        eng.st.ghost['tree'] = z3.Const('tree!%d' % eng.st.fresh,
                                        eng.nodec.map(eng).sort())
        if self.backend == 'hdf5':
            self.fill(self.own_group())

    def fill(self, g):
        """Any of the entries may have something in the file."""
        eng = self.eng
        has = z3.Function('has' + self.tag, Int, Bool)
        put = z3.Function('entry' + self.tag, Int, U)
        items = eng.h(g).attrs['items']
        if isinstance(self.n, int):
            out = []
            for j in map(z3.IntVal, range(self.n)):
                if eng.branch(has(j)):
                    out.append(('i', 'item_%d' % j.as_long(), put(j)))
            eng.put(items, HDict(out))
            return
        num = eng.uf("number after 'item_'", Str, Int)
        eng.put(items, HDict([Seg(
            self.n, lambda j: put(j), lambda j: has(j), item_name,
            lambda s: num(s), 'group')]))

    def length(self):
        return self.c.method(self.node, '__len__')

    def entry(self, j):
        try:
            return 'return', self.eng.force(self.eng.getitem(self.node, j))
        except PyRaise as e:
            return 'raise', e.value

    def some(self, name='k', n=None):
        eng = self.eng
        n = self.n if n is None else n
        k = z3.Int(name + '0' + self.tag)
        if isinstance(n, int):
            if n == 0:
                return None, None
            k = z3.IntVal(pick(self.c, list(range(n))))
        else:
            eng.assume(z3.And(0 <= k, k < n))
        how, f = self.entry(k)
        if how == 'raise' or not is_sort(f, Node):
            return k, None
        return k, f

    def children(self):
        """Term of the entry node at any index, for quantified facts."""
        eng = self.eng
        if isinstance(self.n, int):
            fs = [self.entry(z3.IntVal(i))[1] for i in range(self.n)]

            def at(j):
                j = z3.simplify(j) if is_z3(j) else z3.IntVal(j)
                return fs[j.as_long()]
            return at
        p = z3.Int('k!any' + self.tag)
        mark = len(eng.st.pc)
        eng.assume(z3.And(0 <= p, p < self.n))
        how, f = self.entry(p)
        new = eng.st.pc[mark:]
        del eng.st.pc[mark:]
        for g in new:
            if not eng.valid_here(z3.Implies(z3.And(0 <= p, p < self.n), g)):
                raise Unsupported('access depends on the entry')
        if how == 'raise' or not is_sort(f, Node):
            raise Unsupported('entries')
        return lambda j: z3.substitute(f, (p, j))

    def outside(self):
        x = z3.Const('outsider', Node)
        self.eng.assume(self.eng.nodec.old(self.eng, x))
        return x


def place(eng, n, s, a):
    """Where an entry of an hdf5 list is kept: its name must be free."""
    np_ = eng.force(a.get('new_params'))
    ds = eng.force(a.get('data_storage'))
    if np_ is None or ds is not None:
        return None
    ok, name = eng.dict_get(eng.h(np_), 'name')
    ok2, grp = eng.dict_get(eng.h(np_), 'parent')
    if not ok or not ok2:
        raise Unsupported('new_params')
    name, grp = eng.force(name), eng.force(grp)
    eng.assume(eng.uf('place', Node, Str)(n) == eng.text(name))
    eng.assume(eng.uf('place_in', Node, Int)(n) == grp.oid)
    items = eng.h(grp).attrs['items']
    # an acc segment holds names of earlier iterations; the summary of the
    # loop checks that the names of all iterations differ
    taken = False
    for e in eng.h(items).parts:
        if isinstance(e, Seg):
            if getattr(e, 'acc', None) is None:
                taken = eng.or_(taken, eng.seg_has(e, name))
        else:
            taken = eng.or_(taken, eng.key_eq(e[1], name))
    if eng.branch(taken):
        eng.raise_(ValueError, 'name already exists')
    if eng.isreg.get('places_only'):
        return None     # nothing is stored for an empty item
    eng.dict_set(items, name, eng.uf('h5 of', Node, U)(n))
    return None


# -- creation and operations -----------------------------------------------------------

def list_new(b):
    N = ['a new list has no entries', 'creating touches nothing else']

    @unit('P13', 'lists.%s creation' % b, {
        N[0]: 'P13 P18 P06', N[1]: 'P11'}, bounds=LIST_BOUNDS)
    def _(c):
        eng = c.eng
        c.need_cover('new')

        def run():
            w = Lst(c, b)
            x = w.outside()
            t0 = eng.nodec.map(eng)
            before = state_of(eng, w.schema, w.parent)
            node, e = w.new()
            if node is None:
                c.goal(N[0], False, 'raises ' + c.exc_name(e))
                return
            c.cover('new')
            k, n = w.length()
            c.goal(N[0], k == 'return' and eng.eq(n, 0))
            for a, want in (('empty', True), ('complete', True)):
                k, r = c.attr(node, a)
                c.goal(N[0], eng.and_(k == 'return', eng.eq(
                    eng.truth(r) if k == 'return' else False, want)))
            c.goal(N[1], eng.and_(unchanged(eng, before),
                                  eng.nodec.map(eng).eq(t0)))
        c.explore(run)


def list_ops(b):
    A = ['append adds one entry at the end',
         'an appended entry has the schema of the list, is new, and is below it',
         'append with a value sets the new entry to it',
         'append without a value adds a new entry as it is created',
         'append leaves the other entries alone',
         'append changes nothing else in memory']

    @unit('P13', 'lists.%s append' % b, {
        A[0]: 'P13', A[1]: 'P13 P14 P18', A[2]: 'P13 P10', A[3]: 'P13 P18',
        A[4]: 'P13 P11', A[5]: 'P11 P13', CLOSED: 'P13 P10 P06'},
        bounds=LIST_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('value', 'no value', 'others')

        def run():
            w = Lst(c, b)
            node = w.make()
            n = w.n
            x = w.outside()
            k, f = w.some()
            before = state_of(eng, w.schema, w.parent)
            mine = eng.h(node)
            t0 = nc.map(eng)
            v = z3.Const('v', U)
            op = pick(c, ['value', 'no value', 'none'])
            if op == 'value':
                eng.assume(v != eng.to_u(None))
                how, e = c.method(node, 'append', v)
            elif op == 'none':
                how, e = c.method(node, 'append', None)
            else:
                how, e = c.method(node, 'append')
            if how == 'raise':
                c.goal(A[0], False, 'raises ' + c.exc_name(e))
                return
            c.cover('value' if op == 'value' else 'no value')
            c.lemma(CLOSED, same_but(eng, mine, eng.h(node), '_subnodes'),
                    op)
            kk, m = w.length()
            c.goal(A[0], kk == 'return' and eng.eq(m, n + 1))
            how, g = w.entry(z3.IntVal(n) if isinstance(n, int) else n)
            if how == 'raise' or not is_sort(g, Node):
                c.goal(A[0], False, 'no such entry')
                return
            c.goal(A[1], z3.And(
                nc.sch(eng, g) == w.elem, z3.Not(nc.old(eng, g)),
                eng.uf('mod', Node, Str)(g) == eng.text('dsch.backends.' + b),
                eng.uf('parent_is', Node, Int)(g) == node.oid))
            new = nc.new(eng, w.elem)
            if op == 'value':
                c.goal(A[2], tree(eng, g) == nc.replaced(
                    eng, w.elem, new, v))
            else:
                c.goal(A[3], tree(eng, g) == new)
            if k is not None:
                c.cover('others')
                how, f2 = w.entry(k)
                c.goal(A[4], how == 'return' and is_sort(f2, Node) and z3.And(
                    f2 == f, f2 != g, tree(eng, f2) == z3.Select(t0, f)))
                if b == 'hdf5':
                    pl = eng.uf('place', Node, Str)
                    pi = eng.uf('place_in', Node, Int)
                    c.goal(A[4], z3.Or(pl(f) != pl(g), pi(f) != pi(g)))
            c.goal(A[5], eng.and_(tree(eng, x) == z3.Select(t0, x),
                                  unchanged(eng, before)))
        c.explore(run)

    R = ['replace leaves exactly the new entries, in order',
         'clear leaves no entries', 'clear and replace leave no trace',
         'clear and replace change nothing else in memory']

    @unit('P13', 'lists.%s replace and clear' % b, {
        R[0]: 'P13 P10', R[1]: 'P13 P10 P06', R[2]: 'P13 P11',
        R[3]: 'P11 P13', CLOSED: 'P13 P10 P06'}, bounds=LIST_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('replaced', 'cleared', 'entry')

        def run():
            w = Lst(c, b)
            node = w.make()
            x = w.outside()
            k, f = w.some()
            before = state_of(eng, w.schema, w.parent)
            mine = eng.h(node)
            t0 = nc.map(eng)
            if pick(c, ['replace', 'clear']) == 'clear':
                how, e = c.method(node, 'clear')
                c.cover('cleared')
                kk, n = w.length()
                c.goal(R[1], eng.and_(how == 'return' and kk == 'return',
                                      eng.eq(n, 0)))
                m, val = 0, None
            else:
                m = eng.size('values')
                val = z3.Function('val', Int, U)
                vals = eng.new_list(eng.parts(m, lambda i: val(i)))
                keep = eng.h(vals)
                how, e = c.method(node, 'replace', vals)
                if how == 'raise':
                    c.goal(R[0], False, 'raises ' + c.exc_name(e))
                    return
                c.cover('replaced')
                kk, n = w.length()
                c.goal(R[0], kk == 'return' and eng.eq(n, m))
                i, g = w.some('i', m)
                if i is not None:
                    c.cover('entry')
                    new = nc.new(eng, w.elem)
                    c.goal(R[0], g is not None and z3.And(
                        nc.sch(eng, g) == w.elem,
                        tree(eng, g) == z3.If(
                            val(i) == eng.to_u(None), new, nc.replaced(
                                eng, w.elem, new, val(i)))))
                    if g is not None and f is not None:
                        c.goal(R[2], g != f)
                c.goal(R[3], eng.h(vals) is keep)
            if b == 'hdf5' and how == 'return':
                # nothing of the old entries is left in the file
                items = eng.h(eng.h(w.own_group()).attrs['items'])
                q = z3.Int('q0')
                eng.assume(q >= m)
                c.goal(R[2], eng.not_(eng.dict_has(items, item_name(q))))
            if how == 'return':
                c.goal(R[2], True)
                c.lemma(CLOSED, same_but(eng, mine, eng.h(node),
                                         '_subnodes'))
            c.goal(R[3], eng.and_(tree(eng, x) == z3.Select(t0, x),
                                  unchanged(eng, before)))
        c.explore(run)


def list_look(b):
    L = ['len, index and iteration give the entries in order',
         'an index outside of the list raises IndexError',
         'empty: every entry is empty', 'complete: every entry is complete',
         'assigning to an entry raises ResetSubnodeError, changes nothing',
         'looking changes nothing']

    @unit('P13', 'lists.%s looking' % b, {
        L[0]: 'P13 P17', L[1]: 'P13', L[2]: 'P06', L[3]: 'P06', L[4]: 'P14',
        L[5]: 'P16', TRACE: LOOKERS}, bounds=LIST_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('index', 'negative', 'outside', 'iter', 'empty',
                     'not empty', 'complete', 'not complete', 'assign')

        def run():
            w = Lst(c, b)
            node = w.make()
            at = w.children()
            n = w.n
            before, t0 = state_of(eng, node), nc.map(eng)
            op = pick(c, ['index', 'iter', 'empty', 'complete', 'assign',
                          'slice'])
            if op == 'index':
                kk, m = w.length()
                c.goal(L[0], kk == 'return' and eng.eq(m, n))
                i = z3.Int('i0')
                if isinstance(n, int):
                    i = z3.IntVal(pick(c, list(range(-n - 1, n + 1))))
                how, f = w.entry(i)
                if eng.branch(z3.And(i < n, i >= -n)):
                    c.goal(L[0], how == 'return')
                    if how == 'return':
                        if eng.branch(i >= 0):
                            c.cover('index')
                            c.goal(L[0], f == at(i))
                        else:
                            c.cover('negative')
                            c.goal(L[0], f == at(i + n))
                else:
                    c.cover('outside')
                    c.goal(L[1], how == 'raise' and c.is_exc(f, IndexError))
            elif op == 'iter':
                c.cover('iter')
                try:
                    got = eng.new_list(eng.iter_parts(node))
                except PyRaise as e:
                    c.goal(L[0], False, 'raises ' + c.exc_name(e.value))
                    return
                c.goal(L[0], is_family(c, got, n, None, lambda j: at(j),
                                       None))
            elif op == 'slice':
                try:
                    got = eng.ext.slice_(eng, node, None, None, None)
                except PyRaise as e:
                    c.goal(L[0], False, 'raises ' + c.exc_name(e.value))
                    return
                c.goal(L[0], is_family(c, got, n, None, lambda j: at(j),
                                       None))
            elif op == 'assign':
                c.cover('assign')
                i = z3.Int('i0')
                try:
                    eng.setitem(node, i, z3.Const('v', U))
                    how, e = 'return', None
                except PyRaise as err:
                    how, e = 'raise', err.value
                c.goal(L[4], eng.and_(how == 'raise' and c.is_exc(
                    e, 'ResetSubnodeError'), eng.and_(
                        unchanged(eng, before), nc.map(eng).eq(t0))))
            else:
                how, r = c.attr(node, op)
                if op == 'empty':
                    want = c.forall(n, lambda j: nc.is_empty(
                        eng, tree(eng, at(j))))
                else:
                    want = c.forall(n, lambda j: nc.is_complete(
                        eng, at(j), tree(eng, at(j))))
                g = L[2] if op == 'empty' else L[3]
                if how == 'raise':
                    c.goal(g, False, c.exc_name(r))
                    return
                r = eng.truth(r)
                if not isinstance(r, bool):
                    r = eng.branch(r)
                c.cover(op if r else 'not ' + op)
                c.goal(g, eng.eq(r, want))
            same = eng.and_(unchanged(eng, before), nc.map(eng).eq(t0))
            c.goal(L[5], same)
            c.lemma(TRACE, same, op)
        c.explore(run)


def list_validate(b):
    V = ['it succeeds exactly if the length and every entry is valid',
         'a wrong length is a ValidationError of the list itself',
         'the error leads to an invalid entry and has its cause',
         'validating changes nothing']

    @unit('P05', 'lists.%s validate' % b, {
        V[0]: 'P05', V[1]: 'P05', V[2]: 'P05', V[3]: 'P16',
        TRACE: LOOKERS, SAYS: 'P05'},
        bounds=LIST_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('valid', 'length', 'entry')

        def run():
            w = Lst(c, b, limits=True)
            node = w.make()
            at = w.children()
            n = w.n
            before, t0 = state_of(eng, node), nc.map(eng)
            how, e = c.method(node, 'validate')
            lok = z3.And(z3.Or(w.nomax, n <= z3.Int('max')),
                         z3.Or(w.nomin, n >= z3.Int('min')))
            ok = c.forall(n, lambda j: nc.is_valid(eng, at(j)))
            same = eng.and_(unchanged(eng, before), nc.map(eng).eq(t0))
            c.goal(V[3], same)
            c.lemma(TRACE, same)
            if how == 'return':
                c.cover('valid')
                c.goal(V[0], eng.and_(lok, ok))
                return
            c.goal(V[0], eng.not_(eng.and_(lok, ok)))
            if not eng.branch(lok):
                c.cover('length')
                c.goal(V[1], c.exact_exc(e, 'ValidationError'))
            else:
                c.cover('entry')
                check_error(c, V[2], e, n, at, lambda j: [
                    '[', Dec(j), ']'])
        c.explore(run)


def list_export(b):
    X = ['data_tree has exactly the entries with data, in order',
         'include_empty keeps empty entries',
         'node_tree and print have every entry once, under its position,'
         ' in order',
         'exporting and printing changes nothing',
         'exporting and printing never fails']

    @unit('P17', 'lists.%s data_tree, node_tree' % b, {
        X[0]: 'P17', X[1]: 'P17', X[2]: 'P19', X[3]: 'P16',
        X[4]: 'P17 P19', TRACE: LOOKERS}, bounds=LIST_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('data', 'all data', 'nodes', 'print')

        def run():
            w = Lst(c, b)
            node = w.make()
            at = w.children()
            before, t0 = state_of(eng, node), nc.map(eng)
            op = pick(c, ['data', 'all data', 'nodes', 'print'])
            if op == 'nodes':
                how, r = c.method(node, 'node_tree')
            elif op == 'print':
                how, r = c.method(node, '__repr__')
            elif op == 'data':
                how, r = c.method(node, 'data_tree')
            elif pick(c, [0, 1]):
                how, r = c.method(node, 'data_tree', True)
            else:
                how, r = c.method(node, 'data_tree', include_empty=True)
            c.cover(op)
            same = eng.and_(unchanged(eng, before), nc.map(eng).eq(t0))
            c.goal(X[3], same)
            c.lemma(TRACE, same)
            c.goal(X[4], how == 'return')
            if how == 'raise':
                return
            if op in ('nodes', 'print'):
                if op == 'print':
                    r = drawn(eng, r)
                sub = single(eng, r, '(List)')
                c.goal(X[2], sub is not None and is_family(
                    c, sub, w.n,
                    lambda j: Rope(['[', Dec(j), '] ', nc.label(
                        eng, at(j), tree(eng, at(j)))]),
                    lambda j: nc.branches(eng, at(j), tree(eng, at(j))),
                    None))
                return
            inc = op == 'all data'
            none = eng.to_u(None)
            c.goal(X[1] if inc else X[0], is_family(
                c, r, w.n, None,
                lambda j: nc.data(eng, tree(eng, at(j)), inc),
                None if inc else lambda j: nc.data(
                    eng, tree(eng, at(j)), False) != none))
        c.explore(run)


def list_copy(b):
    L = ['the list has the entries of the source, with what they hold',
         'the source is not changed', 'nothing else in memory changes',
         'different schemas are refused and nothing is changed',
         'the entries are new nodes']

    @unit('P12', 'lists.%s load_from' % b, {
        L[0]: 'P12 P18 P13', L[1]: 'P12 P16 P11', L[2]: 'P11', L[3]: 'P12',
        L[4]: 'P12 P11'}, bounds=LIST_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('copied', 'refused', 'entry')

        def run():
            w = Lst(c, b)
            src = pick(c, BACKENDS)
            ws = Lst(c, src, '_s')
            same = eng.schc.cfg(eng, w.sid) == eng.schc.cfg(eng, ws.sid)
            eng.assume(z3.Implies(same, eng.schc.cfg(
                eng, w.elem) == eng.schc.cfg(eng, ws.elem)))
            node = w.make()
            s = ws.make()
            ats = ws.children()
            x = w.outside()
            before = state_of(eng, s, w.schema, w.parent)
            t0 = nc.map(eng)
            how, e = c.method(node, 'load_from', s)
            if not eng.branch(same):
                c.cover('refused')
                kk, n = w.length()
                c.goal(L[3], how == 'raise' and c.is_exc(
                    e, 'IncompatibleNodesError'))
                c.goal(L[3], eng.and_(nc.map(eng) == t0, eng.and_(
                    kk == 'return', eng.eq(n, w.n))))
                return
            if how == 'raise':
                c.goal(L[0], False, 'raises ' + c.exc_name(e))
                return
            c.cover('copied')
            kk, n = w.length()
            c.goal(L[0], kk == 'return' and eng.eq(n, ws.n))
            i, f = w.some('i', ws.n)
            if i is not None:
                c.cover('entry')
                c.goal(L[0], f is not None and z3.And(
                    nc.sch(eng, f) == w.elem,
                    tree(eng, f) == z3.Select(t0, ats(i))))
                c.goal(L[1], tree(eng, ats(i)) == z3.Select(t0, ats(i)))
                c.goal(L[4], f is not None and z3.And(f != ats(i), z3.Not(
                    nc.old(eng, f))))
            c.goal(L[1], unchanged(eng, before))
            c.goal(L[2], tree(eng, x) == z3.Select(t0, x))
        c.explore(run)


def list_itself(b):
    L = 'copying a list to itself changes nothing'

    @unit('P12', 'lists.%s load_from itself' % b, {L: 'P12 P16 P11'},
          bounds=LIST_BOUNDS)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('copied', 'entry')

        def run():
            w = Lst(c, b)
            node = w.make()
            at = w.children()
            x = w.outside()
            t0 = nc.map(eng)
            how, e = c.method(node, 'load_from', node)
            if how == 'raise':
                c.goal(L, False, 'raises ' + c.exc_name(e))
                return
            c.cover('copied')
            kk, n = w.length()
            c.goal(L, kk == 'return' and eng.eq(n, w.n))
            i, f = w.some('i', w.n)
            if i is not None:
                c.cover('entry')
                c.goal(L, f is not None and z3.And(
                    nc.sch(eng, f) == w.elem,
                    tree(eng, f) == z3.Select(t0, at(i))))
            c.goal(L, tree(eng, x) == z3.Select(t0, x))
        c.explore(run)


S = ['loading what was saved gives every entry what was saved of it',
     'entries saved as empty are loaded as empty',
     'no more entries are loaded than were saved, none of them elsewhere',
     'a loaded entry has its schema node and parent, and is new',
     'saving changes nothing in memory', 'loading changes nothing saved',
     'a list with something in it is stored',
     'a loaded list can be appended to',
     'entries of the file are found under their names']


def list_persist(b):
    obs = {S[0]: 'P09 P13', S[2]: 'P09 P13', S[3]: 'P09 P14 P11',
           S[5]: 'P16 P11', S[7]: 'P13'}
    if b == 'hdf5':
        obs[S[8]] = 'P09'
    else:
        obs[S[4]] = 'P16'
        obs[TRACE] = LOOKERS
    if b == 'npz':
        obs[S[6]] = 'P09'
    if b != 'mat':
        obs[S[1]] = 'P09 P13 P18'

    @unit('P09 P13', 'lists.%s save and load' % b, obs, bounds=LIST_BOUNDS,
          weight=2)
    def _(c):
        eng = c.eng
        nc = eng.nodec
        c.need_cover('held', 'appended', *(['empty'] if b != 'mat' else []))

        def run():
            eng.isreg.pop('places_only', None)
            w = Lst(c, b)
            child_saved(eng)
            eng.isreg['mat_u'] = filed
            node = w.make()
            at = w.children()
            n = w.n
            x = w.outside()
            k, f = w.some()
            t0 = nc.map(eng)
            before = state_of(eng, node, w.schema, w.parent)
            if b == 'hdf5':
                has = z3.Function('in the file', Int, Bool)
                put = z3.Function('h5 entry', Int, U)
                eng.assume(c.forall(n, lambda j: z3.And(
                    put(j) != eng.to_u(None), z3.Or(has(j), nc.is_empty(
                        eng, z3.Select(t0, at(j)))))))
                g = w.own_group()
                if k is not None:
                    c.goal(S[8], z3.And(
                        eng.uf('place', Node, Str)(f) == eng.text(
                            item_name(k)),
                        eng.uf('place_in', Node, Int)(f) == g.oid))
                num = eng.uf("number after 'item_'", Str, Int)
                eng.put(eng.h(g).attrs['items'], HDict(eng.dparts_mixed(
                    n, item_name, put, has, num, 'entries')))
                data = g
            else:
                if b == 'mat':
                    # K7: a mat list with empty entries cannot be stored
                    eng.assume(c.forall(n, lambda j: z3.Not(nc.is_empty(
                        eng, z3.Select(t0, at(j))))))
                how, r = c.method(node, 'save')
                same = eng.and_(nc.map(eng).eq(t0), unchanged(eng, before))
                c.goal(S[4], eng.and_(how == 'return', same))
                c.lemma(TRACE, same)
                if how == 'raise':
                    c.goal(S[0], False, 'saving raises ' + c.exc_name(r))
                    return
                try:
                    data = files.mat_value(eng, r) if b == 'mat' else \
                        npz_dict(eng, r)
                except PyRaise as e:
                    c.goal(S[0], False, 'saving raises ' + c.exc_name(
                        e.value))
                    return
            kept = state_of(eng, data)
            eng.isreg['places_only'] = True
            p2 = eng.alloc(HObj(External('parent'), {}))
            how, n2 = c.call(eng.cls('dsch.backends.' + b, 'List'),
                             w.schema, p2, data_storage=data)
            if how == 'raise':
                c.goal(S[0], False, 'loading raises ' + c.exc_name(n2))
                return
            c.goal(S[5], eng.and_(unchanged(eng, kept), tree(
                eng, x) == z3.Select(t0, x)))
            kk, m = c.method(n2, '__len__')
            if kk == 'raise':
                c.goal(S[2], False, 'no length')
                return
            c.goal(S[2], m <= n)
            if k is not None:
                t = z3.Select(t0, f)
                if b == 'hdf5':
                    stored = has(k)
                    there = eng.dict_has(eng.h(eng.h(g).attrs['items']),
                                         item_name(k))
                    c.goal(S[8], eng.eq(there, stored))
                    eng.assume(eng.eq(there, stored))
                    same = nc.loaded(eng, w.elem, put(k))
                else:
                    stored = z3.Not(nc.is_empty(eng, t))
                    same = nc.loaded(eng, w.elem, filed(
                        eng, nc.saved(eng, t)))
                inside = eng.branch(k < m)
                stored = eng.branch(stored)
                if stored:
                    c.cover('held')
                    c.goal(S[0], inside)
                if inside:
                    how, f2 = entry_of(eng, n2, k)
                    if how == 'raise' or not is_sort(f2, Node):
                        c.goal(S[3], False, 'no such entry')
                        return
                    t2 = tree(eng, f2)
                    c.goal(S[3], z3.And(
                        nc.sch(eng, f2) == w.elem, z3.Not(nc.old(eng, f2)),
                        eng.uf('mod', Node, Str)(f2) == eng.text(
                            'dsch.backends.' + b),
                        eng.uf('parent_is', Node, Int)(f2) == n2.oid,
                        f2 != f))
                    if stored:
                        c.goal(S[0], t2 == same)
                    else:
                        c.cover('empty')
                        gone = t2 == nc.cleared(eng, w.elem)
                        c.goal(S[1], z3.And(nc.is_empty(eng, t), gone if
                                            b == 'hdf5' else z3.Or(
                                                gone, t2 == same)))
                    if b == 'hdf5' and not stored:
                        c.goal(S[8], z3.And(
                            eng.uf('place', Node, Str)(f2) == eng.text(
                                item_name(k)),
                            eng.uf('place_in', Node, Int)(f2) == g.oid))
                    # two entries are two nodes
                    l = z3.Int('l0')
                    if isinstance(n, int):
                        l = z3.IntVal(pick(c, list(range(n))))
                    if eng.branch(z3.And(0 <= l, l < m, l != k)):
                        how, f3 = entry_of(eng, n2, l)
                        c.goal(S[3], how == 'return' and is_sort(
                            f3, Node) and f3 != f2)
                if stored and b == 'npz':
                    ok, v = eng.dict_get(eng.h(r), item_name(k))
                    c.goal(S[6], ok and leaves(eng, eng.force(v)) > 0)
            how, e = c.method(n2, 'append')
            kk, m2 = c.method(n2, '__len__')
            c.cover('appended')
            c.goal(S[7], how == 'return' and kk == 'return' and
                   eng.eq(m2, m + 1))
            if b == 'hdf5' and how == 'return':
                how, f4 = entry_of(eng, n2, m)
                c.goal(S[8], how == 'return' and is_sort(f4, Node) and
                       eng.and_(eng.uf('place', Node, Str)(f4) == eng.text(
                           item_name(m)), eng.uf('place_in', Node, Int)(
                               f4) == g.oid))
        c.explore(run)


def entry_of(eng, node, j):
    try:
        return 'return', eng.force(eng.getitem(node, j))
    except PyRaise as e:
        return 'raise', e.value


for _b in BACKENDS:
    if _b != 'inmem':
        list_persist(_b)
    list_new(_b)
    list_ops(_b)
    list_look(_b)
    list_validate(_b)
    list_export(_b)
    list_copy(_b)
    list_itself(_b)
