"""Contracts of the item nodes of every backend: new, replace, clear, value,
empty, complete, validate, data_tree, node_tree, load_from and what they do
after saving and loading.

The states of an item are those that new, replace, clear and loading lead to;
the units below run every operation from each of them, for an arbitrary valid
value, schema, parent and (hdf5) group with arbitrary other entries.
"""
import datetime

import z3

from ..values import *  # noqa: F401,F403
from ..driver import unit
from .. import libs

ND = External('numpy.ndarray')
NUM = External('numpy.number')
BACKENDS = ['inmem', 'npz', 'mat', 'hdf5']
ITEMS = ['Array', 'Bool', 'Bytes', 'Date', 'DateTime', 'Scalar', 'String',
         'Time']
DTS = {'Date': datetime.date, 'DateTime': datetime.datetime,
       'Time': datetime.time}


def boolv(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class World:
    """A schema, its parent, and a place in a backend, all arbitrary."""

    def __init__(self, c, backend, cls, opaque=False):
        """opaque: the limits of an Array schema are arbitrary objects that
        the code may pass on but not look into."""
        self.c, self.eng, self.backend, self.cls = c, c.eng, backend, cls
        self.opaque = opaque and cls == 'Array'
        eng = self.eng
        self.nvals = 0
        self.dtype = None
        self.schema = self.make_schema()
        self.snapshot = eng.h(self.schema)
        self.parent = eng.alloc(HObj(External('parent'), {}))
        self.groups = 0

    # schemas

    def make_schema(self):
        c, eng, cls = self.c, self.eng, self.cls
        k = {}
        if cls in ('Scalar', 'Array'):
            self.dtype = z3.Const('dtype', U)
            eng.assume(self.dtype != eng.to_u(None))
        if cls == 'Array':
            if self.opaque:
                return self.opaque_array()
            from .schemas import ArrayArgs
            self.args = a = ArrayArgs(c)
            self.dtype = a.dtype
            kind, s = a.make(None)
            if kind == 'raise':
                c.stop()
            self.ndim = a.spec_ndim()
            return s
        if cls == 'Scalar':
            k = {'dtype': self.dtype, 'unit': z3.Const('unit', Str)}
            self.unit = k['unit']
        elif cls in DTS:
            self.soc = z3.Bool('set_on_create')
            k = {'set_on_create': self.soc}
        elif cls in ('Bytes', 'String'):
            k = {'max_length': c.optional('max', z3.Int('max'))[0],
                 'min_length': c.optional('min', z3.Int('min'))[0]}
        return eng.call(eng.cls('dsch.schema', cls), [], k)

    def opaque_array(self):
        eng = self.eng
        self.ndim = z3.Int('ndim')
        eng.assume(self.ndim >= 1)
        s = eng.call(eng.cls('dsch.schema', 'Array'), [self.dtype],
                     {'ndim': self.ndim})
        p = eng.h(s)
        attrs = dict(p.attrs)
        for n in ('max_shape', 'min_shape', 'max_value', 'min_value'):
            if n == 'max_shape' and self.backend == 'hdf5':
                continue    # looked into when storing: None here
            if n not in attrs:
                raise Unsupported('schema without ' + n)
            attrs[n] = z3.Const('opaque:' + n, U)
        eng.put(s, HObj(p.cls, attrs, p.ghost))
        return s

    def schema_kept(self):
        """The configuration of the schema node is as it was."""
        now = self.eng.h(self.schema)
        if now is self.snapshot:
            return True
        r = True
        for n, v in self.snapshot.attrs.items():
            if n not in now.attrs:
                return False
            r = self.eng.and_(r, self.eng.value_eq(v, now.attrs[n]))
        return r

    # values

    def value(self, name=None):
        """An arbitrary valid value (of exactly the value type)."""
        c, eng, cls = self.c, self.eng, self.cls
        self.nvals += 1
        n = '%s%d' % (name or 'v', self.nvals)
        if cls == 'Bool':
            return z3.Bool(n)
        if cls == 'String':
            return z3.Const(n, Str)
        u = z3.Const(n, U)
        eng.assume(u != eng.to_u(None))
        if cls == 'Bytes':
            eng.assume(eng.isinst(u, bytes))
            eng.assume(eng.uf('len', U, Int)(u) >= 0)
            return u
        if cls in DTS:
            eng.assume(eng.isinst(u, DTS[cls]))
            if cls == 'DateTime':
                eng.assume(eng.isinst(u, datetime.date))
            return eng.ext.dt_value(eng, u, DTS[cls])
        dt = eng.uf('arr:dtype', U, U)(u)
        if cls == 'Scalar':
            eng.assume(eng.isinst(u, NUM))
            eng.assume(eng.ext.u_eq(eng, dt, self.dtype))
            return u
        eng.assume(eng.isinst(u, ND))
        eng.assume(eng.ext.u_eq(eng, dt, self.dtype))
        eng.assume(eng.uf('arr:ndim', U, Int)(u) == self.ndim)
        eng.ext.shape_parts(eng, u)
        sh = eng.uf('arr:shape', U, Int, Int)
        a = None if self.opaque else self.args
        for lim, mx in () if a is None else (
                (a.mx, True), (a.mn, False)):
            eng.assume(z3.Or(z3.Not(lim['given']), boolv(c.forall(
                lim['n'], lambda j: z3.Or(lim['none'](j), (
                    sh(u, j) <= lim['val'](j)) if mx else (
                    sh(u, j) >= lim['val'](j)))))))
        self.mat_array(u)
        return libs.nd(eng, ('u', u))

    def mat_array(self, u):
        """What the mat format can hold: see known_findings.txt."""
        eng = self.eng
        if self.backend != 'mat' and not getattr(self, 'for_mat', False):
            return
        eng.assume(eng.uf('mat_ok', U, Bool)(eng.uf('arr:dtype', U, U)(u)))
        # equality of dtypes is transitive
        b = eng.uf('dtype:ty', Ty, U)(eng.ty(bool))
        x, d = eng.uf('arr:dtype', U, U)(u), self.dtype
        eng.assume(eng.ext.u_eq(eng, x, b) == eng.ext.u_eq(eng, d, b))

    def same(self, got, want):
        """got is an equal value of the same type as want."""
        eng = self.eng
        if self.cls == 'Array':
            a, b = self.array_u(got), self.array_u(want)
            if a is None or b is None:
                return False
            return a == b
        if isinstance(got, Ref) or isinstance(want, Ref):
            return False
        return eng.value_eq(got, want)

    def array_u(self, v):
        if not isinstance(v, Ref):
            return None
        p = self.eng.h(v)
        if not isinstance(p, HObj) or p.cls != ND:
            return None
        if p.attrs['content'][0] != 'u':
            raise Unsupported('array content')
        if self.eng.arrays.form_of(self.eng, p) != 'nat':
            # the extra dimensions of the mat format are still there
            return None
        return p.attrs['content'][1]

    # nodes

    def group(self, name='name'):
        """A group with arbitrary other entries."""
        eng = self.eng
        self.groups += 1
        g = self.groups
        nm = z3.Const('%s_%d' % (name, g), Str)
        # names of sub-nodes and list items have no separator in them
        eng.assume(eng.uf('isident', Str, Bool)(nm))
        n = z3.Int('n_others%d' % g)
        eng.assume(n >= 0)
        k = z3.Function('other_key%d' % g, Int, Str)
        inv = z3.Function('other_inv%d' % g, Str, Int)
        v = z3.Function('other%d' % g, Int, U)
        j = z3.Int('j!o')
        eng.assume(z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < n), z3.And(inv(k(j)) == j, k(j) != nm)),
            patterns=[k(j)]))
        seg = Seg(n, lambda i: v(i), k=lambda i: k(i),
                  inv=lambda s: inv(s), label='others')
        r = eng.h5.group(eng, (seg,), path=z3.Const('path%d' % g, Str))
        return r, nm, seg

    def others_kept(self, place):
        """The other entries of the group are as they were."""
        if place is None:
            return True
        eng = self.eng
        g, nm, seg = place
        ps = eng.h(eng.h(g).attrs['items']).parts
        mine = [p for p in ps if isinstance(p, Seg)]
        if len(mine) != 1 or mine[0] is not seg:
            j = z3.Int('j!kept')
            if len(mine) != 1:
                return False
            s = mine[0]
            f = z3.And(eng.text(s.k(j)) == seg.k(j),
                       boolv(eng.value_eq(s.v(j), seg.v(j))))
            if s.g is not None:
                f = z3.And(f, s.g(j))
            return z3.And(s.n == seg.n, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < seg.n), f)))
        r = True
        for p in ps:
            if not isinstance(p, Seg):
                r = eng.and_(r, eng.value_eq(p[1], nm))
        return r

    def new(self, schema=None, parent=None, place=None, backend=None):
        """A new node: (node, place)."""
        eng = self.eng
        backend = backend or self.backend
        k = {}
        if backend == 'hdf5':
            place = place or self.group()
            k['new_params'] = eng.new_dict([
                ('i', 'name', place[1]), ('i', 'parent', place[0])])
        kind, n = self.c.call(
            eng.cls('dsch.backends.' + backend, self.cls),
            schema or self.schema, parent or self.parent, **k)
        if kind == 'raise':
            return None, n
        return n, place

    def stored(self, node, place):
        """What a saved file holds for the node, as loading presents it."""
        eng, c = self.eng, self.c
        if self.backend == 'hdf5':
            ok, ds = eng.dict_get(eng.h(eng.h(place[0]).attrs['items']),
                                  place[1])
            return ds if ok else None
        k, v = c.method(node, 'save')
        if k == 'raise':
            return v
        f = eng.files.npz_value if self.backend == 'npz' else \
            eng.files.mat_value
        return f(eng, v)

    def load(self, data):
        kind, n = self.c.call(
            self.eng.cls('dsch.backends.' + self.backend, self.cls),
            self.schema, self.parent, data_storage=data)
        return n if kind == 'return' else None

    def value_of(self, node):
        k, r = self.c.attr(node, 'value')
        return (k, r)

    def holds(self, node, v):
        """node holds exactly v."""
        c, eng = self.c, self.eng
        k, e = c.attr(node, 'empty')
        k2, r = c.attr(node, 'value')
        if k != 'return' or k2 != 'return':
            return False
        return eng.and_(eng.not_(eng.truth(e)), self.same(r, v))

    def is_empty(self, node):
        c, eng = self.c, self.eng
        k, e = c.attr(node, 'empty')
        k2, r = c.attr(node, 'value')
        if k != 'return' or k2 != 'raise' or not c.is_exc(
                r, 'NodeEmptyError'):
            return False
        return eng.truth(e)

    def put(self, node, v, how):
        """Set a value: kind of the outcome."""
        if how == 'replace':
            return self.c.method(node, 'replace', v)
        try:
            self.eng.setattr(node, 'value', v)
            return 'return', None
        except PyRaise as e:
            return 'raise', e.value

    # the states of an item

    STATES = ['new', 'set', 'cleared', 'loaded']

    def state(self, how):
        """A node in one of its states: (node, place, held value)."""
        c = self.c
        node, place = self.new()
        if node is None:
            c.stop()
        if how == 'new':
            if self.cls in DTS:
                if self.eng.branch(self.soc):
                    return node, place, self.value_of(node)[1]
            return node, place, None
        w = self.value('w')
        k, e = self.put(node, w, 'replace')
        if k == 'raise':
            c.stop()    # shown not to happen by 'set' from a new node
        if how == 'set':
            return node, place, w
        if how == 'cleared':
            k, e = c.method(node, 'clear')
            if k == 'raise':
                c.stop()
            return node, place, None
        if self.backend == 'inmem':
            c.stop()
        n = self.load(self.stored(node, place))
        if n is None:
            c.stop()    # shown not to happen by the persistence unit
        return n, place, w

    def attrs_kept(self, node):
        eng = self.eng
        k, s = self.c.attr(node, 'schema_node')
        k2, p = self.c.attr(node, 'parent')
        return s == self.schema and p == self.parent and isinstance(
            s, Ref) and isinstance(p, Ref)


def pick(c, names):
    return names[c.eng.choose([True] * len(names))]


def same_state(w, a, b, eng=None):
    """The heap objects reachable from a and b are equal, one for one."""
    eng = w.eng
    pairs = {}
    back = {}

    def go(x, y, depth=0):
        if depth > 12:
            return False
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x == y:
                return True
            if x.oid in pairs:
                return pairs[x.oid] == y.oid
            if y.oid in back:
                return False
            pairs[x.oid], back[y.oid] = y.oid, x.oid
            p, q = eng.h(x), eng.h(y)
            if type(p) is not type(q):
                return False
            if isinstance(p, HObj):
                if p.cls != q.cls or set(p.attrs) != set(q.attrs):
                    return False
                return all_(go(p.attrs[k], q.attrs[k], depth + 1)
                            for k in sorted(p.attrs))
            if len(p.parts) != len(q.parts):
                return False
            return all_(go_part(s, t, depth) for s, t in zip(
                p.parts, q.parts))
        if isinstance(x, Ref) or isinstance(y, Ref):
            return False
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all_(
                go(s, t, depth + 1) for s, t in zip(x, y))
        if isinstance(x, Rope) and isinstance(y, Rope) or (
                is_text(x) and is_text(y)):
            return eng.value_eq(x, y)
        if isinstance(x, (bool, int, str, type(None))) and isinstance(
                y, (bool, int, str, type(None))):
            return type(x) is type(y) and x == y
        return eng.value_eq(x, y)

    def go_part(s, t, depth):
        if isinstance(s, Seg) or isinstance(t, Seg):
            return s is t
        return all_(go(m, n, depth + 1) for m, n in zip(s[1:], t[1:]))

    def all_(it):
        r = True
        for f in it:
            r = eng.and_(r, f)
            if r is False:
                return False
        return r
    return go(a, b)


def reachable(eng, *roots):
    seen = set()
    todo = list(roots)
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            if x.oid in seen:
                continue
            seen.add(x.oid)
            p = eng.h(x)
            if isinstance(p, HObj):
                todo.extend(p.attrs.values())
            else:
                for e in p.parts:
                    if not isinstance(e, Seg):
                        todo.extend(e[1:])
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, Alt):
            todo.extend(v for _, v in x.alts)
    return seen


def mutable_shared(eng, a, b, known=()):
    """Mutable value objects reachable from both nodes."""
    bad = []
    for o in reachable(eng, a) & reachable(eng, b):
        p = eng.st.heap[o]
        if isinstance(p, HObj) and p.cls in (ND, libs.DATASET, libs.GROUP,
                                             libs.H5FILE):
            if not (p.cls == ND and p.attrs.get('readonly')):
                bad.append(o)
        elif isinstance(p, (HList, HDict)) and o not in known:
            bad.append(o)
    return bad


def both(x):
    return list(x)


SET = ['reading returns the value that was set', 'setting never fails',
       'a cleared item is empty and reading raises NodeEmptyError',
       'schema and parent stay', 'other entries of the place stay']
CLOSED = 'every history leads to one of the states examined'
TRACE = 'looking, validating and saving leave no trace in memory'
LOOKERS = 'P16 P05 P06 P09 P10 P17 P19'


def set_clear(backend, cls):
    obs = {SET[0]: 'P10', SET[1]: 'P10', SET[2]: 'P10 P06',
           SET[3]: 'P10 P11', SET[4]: 'P10 P11',
           'empty and complete say whether a value is held': 'P06',
           CLOSED: 'P10 P06', 'the schema node is not modified': 'P11'}

    @unit('P10', 'items.%s.%s set and clear' % (backend, cls), obs,
          bounds=BOUNDS)
    def _(c):
        eng = c.eng
        states = [s for s in World.STATES if backend != 'inmem' or
                  s != 'loaded']
        c.need_cover(*['set from ' + s for s in states])
        c.need_cover(*['clear from ' + s for s in states])

        def run():
            w = World(c, backend, cls)
            st = pick(c, states)
            node, place, held = w.state(st)
            op = pick(c, ['replace', 'assign', 'clear'])
            if op == 'clear':
                k, e = c.method(node, 'clear')
                c.cover('clear from ' + st)
                c.goal(SET[2], eng.and_(k == 'return', w.is_empty(node)),
                       'clear from state ' + st)
            else:
                v = w.value()
                k, e = w.put(node, v, op)
                c.goal(SET[1], k == 'return', '%s from state %s raises %s' % (
                    op, st, c.exc_name(e) if k == 'raise' else ''))
                if k == 'raise':
                    return
                c.cover('set from ' + st)
                c.goal(SET[0], w.holds(node, v),
                       '%s from state %s' % (op, st))
            name = 'empty and complete say whether a value is held'
            k1, e = c.attr(node, 'empty')
            k2, f = c.attr(node, 'complete')
            c.goal(name, k1 == k2 == 'return' and eng.and_(
                eng.eq(eng.truth(e), op == 'clear'),
                eng.eq(eng.truth(f), op != 'clear')))
            c.goal(SET[3], w.attrs_kept(node))
            c.goal(SET[4], w.others_kept(place))
            c.goal('the schema node is not modified', w.schema_kept())
            if op == 'replace' and st in ('set', 'cleared', 'loaded'):
                # same state as setting a new node
                node2, place2 = w.new(place=copy_place(w, place))
                if node2 is None or w.put(node2, v, op)[0] == 'raise':
                    c.stop()
                c.lemma(CLOSED, same_state(w, node, node2),
                        'replace from ' + st)
            if op == 'clear' and st in ('set', 'loaded'):
                node2, place2 = w.new(place=copy_place(w, place))
                if node2 is None or c.method(node2, 'clear')[0] == 'raise':
                    c.stop()
                c.lemma(CLOSED, same_state(w, node, node2),
                        'clear from ' + st)
        c.explore(run)


def copy_place(w, place):
    """A second group just like the one of place at the start."""
    if place is None:
        return None
    eng = w.eng
    g, nm, seg = place
    p = eng.h(g)
    r = eng.alloc(HObj(p.cls, dict(p.attrs, items=eng.new_dict((seg,)))))
    return r, nm, seg


BOUNDS = [[1, 1], [2, 2], [0, 1], [1, 0], [0, 0], [2, 1]]


# -- looking -----------------------------------------------------------------------

def looks(backend, cls):
    DT = ['data_tree gives the value, or None for an empty item']
    NT = ['node_tree has one entry, with type and value, and never fails']
    LK = ['looking changes neither value nor emptiness',
          'the schema node is not modified', 'stored entries stay']
    obs = {DT[0]: 'P17', NT[0]: 'P19', LK[0]: 'P16', LK[1]: 'P16',
           LK[2]: 'P16', TRACE: LOOKERS + ' P21'}

    @unit('P16', 'items.%s.%s looking' % (backend, cls), obs, bounds=BOUNDS)
    def _(c):
        eng = c.eng
        states = [s for s in World.STATES if backend != 'inmem' or
                  s != 'loaded']
        c.need_cover(*states)

        def run():
            w = World(c, backend, cls, opaque=True)
            over(w)
            st = pick(c, states)
            node, place, held = w.state(st)
            before = dict(eng.st.heap)
            items = None if place is None else eng.h(eng.h(
                place[0]).attrs['items'])
            op = pick(c, ['value', 'complete', 'data_tree', 'node_tree',
                          'repr', 'validate', 'save'])
            c.cover(st)
            look(c, w, node, op, held, DT[0], NT[0])
            same = True
            for o, p in before.items():
                if eng.st.heap[o] is not p:
                    same = False
            if items is not None:
                c.goal(LK[2], eng.h(eng.h(place[0]).attrs['items']) is items
                       or w.others_kept(place))
            c.goal(LK[1], w.schema_kept())
            c.goal(LK[0], w.is_empty(node) if held is None
                   else w.holds(node, held), 'after %s from %s' % (op, st))
            c.lemma(TRACE, same, op)
            if items is None:
                c.goal(LK[2], True)
        c.explore(run)


def over(w, outcome=True):
    """Give the schema node of w a validate that only records."""
    eng = w.eng
    w.validated = []
    w.error = None
    p = eng.h(w.schema)

    def validate(*args):
        w.validated.append(args)
        if eng.choose([True, True]) == 1:
            cls = eng.cls('dsch.exceptions', 'ValidationError')
            w.error = eng.alloc(HObj(cls, {'args': (), 'message': '',
                                           'expected': None, 'got': None}))
            raise PyRaise(w.error)
    eng.put(w.schema, HObj(p.cls, p.attrs, dict(
        p.ghost, over={'validate': validate})))
    w.snapshot = eng.h(w.schema)


def label_parts(eng, key):
    if isinstance(key, str):
        return [key]
    if is_sort(key, Str):
        return [key]
    if isinstance(key, Rope):
        return list(key.parts)
    raise Unsupported('label %r' % (key,))


def shows(eng, key, want):
    """The text `want` occurs in the label."""
    ps = label_parts(eng, key)
    open_ = []
    if not isinstance(want, str) and eng.provable(
            eng.text(want) == eng.lit('')):
        return True
    if isinstance(want, str):
        if any(isinstance(p, str) and want in p for p in ps):
            return True
    else:
        for p in ps:
            if not isinstance(p, str):
                a = Rope([p]) if isinstance(p, Dec) else p
                if known(eng, open_, eng.text(a) == eng.text(want)):
                    return True
        if isinstance(want, Rope):
            # a sequence of parts
            k = len(want.parts)
            for i in range(len(ps) - k + 1):
                if all(part_in(eng, a, b, open_) for a, b in zip(
                        ps[i:i + k], want.parts)):
                    return True
    if any(is_z3(p) and p.decl().name().startswith('text!') for p in ps):
        raise Unsupported('text of unknown form')
    if open_:
        raise Unsupported('undecided by the solver')
    return False


def known(eng, open_, f):
    try:
        return eng.valid_here(f)
    except Unsupported:
        open_.append(f)
        return False


def part_in(eng, a, b, open_):
    if isinstance(a, str) and isinstance(b, str):
        return b in a
    if isinstance(a, Dec) and isinstance(b, Dec):
        return known(eng, open_, a.num == b.num)
    if isinstance(a, (str, Dec)) or isinstance(b, (str, Dec)):
        return False
    return known(eng, open_, eng.text(a) == eng.text(b))


def look(c, w, node, op, held, DT, NT):
    eng = c.eng
    if op in ('value', 'complete'):
        c.attr(node, op)
    elif op == 'data_tree':
        inc = pick(c, [None, False, True])
        k, r = c.method(node, 'data_tree', *([] if inc is None else [inc]))
        c.goal(DT, k == 'return' and (r is None if held is None
                                      else w.same(r, held)))
    elif op == 'node_tree':
        k, r = c.method(node, 'node_tree')
        if k == 'raise':
            c.goal(NT, False, 'raises ' + c.exc_name(r))
            return
        entry_shown(c, w, r, held, NT)
    elif op == 'repr':
        k, r = c.method(node, '__repr__')
        c.goal(NT, k == 'return', 'repr raises')
        if k == 'return':
            entry_shown(c, w, drawn(eng, r), held, NT)
    elif op == 'validate':
        c.method(node, 'validate')
    elif op == 'save' and w.backend in ('npz', 'mat'):
        c.method(node, 'save')


def entry_shown(c, w, r, held, NT):
    """The node tree r is right for an item with the value held."""
    eng = w.eng
    ps = eng.h(r).parts if isinstance(r, Ref) and isinstance(
        eng.h(r), HDict) else ()
    if len(ps) != 1 or isinstance(ps[0], Seg):
        c.goal(NT, False, 'not one entry')
        return
    key = eng.force(ps[0][1])
    ok = shows(eng, key, w.cls)
    if held is None:
        ok = ok and shows(eng, key, '<empty>')
    elif w.cls == 'Array':
        u = w.array_u(held)
        sh = eng.ext.arr_attr(eng, u, 'shape')
        if isinstance(sh, tuple):
            want = []
            for j, s in enumerate(sh):
                want += (['x'] if j else []) + [Dec(s)]
            ok = ok and shows(eng, key, Rope(want + [' array']))
        else:
            parts = [Seg(p.n, lambda j, p=p: Rope([Dec(p.v(j))]))
                     for p in eng.seq_parts(sh)]
            t = eng.ext.join(eng, 'x', STuple(parts))
            ok = ok and shows(eng, key, t)
    else:
        ok = ok and shows(eng, key, eng.ext.to_text(eng, held))
        if w.cls == 'Scalar':
            ok = ok and shows(eng, key, w.unit)
    sub = eng.force(ps[0][2])
    ok = ok and isinstance(sub, Ref) and eng.h(sub).parts == ()
    c.goal(NT, ok, 'label %r' % (key,))


def drawn(eng, r):
    """The tree that was drawn."""
    r = eng.force(r)
    if isinstance(r, Ref) and isinstance(eng.h(r), HObj) and eng.h(
            r).cls == External('drawing'):
        return eng.force(eng.h(r).attrs['content'][1])
    raise Unsupported('printed text')


# -- validation ----------------------------------------------------------------------

def validation(backend, cls):
    V = ['the value held is checked against the schema, and nothing else',
         'an empty item never fails',
         'the error of the schema node is raised unchanged']

    @unit('P05', 'items.%s.%s validate' % (backend, cls), {
        V[0]: 'P05 P03' if cls != 'Array' else 'P05 P04',
        V[1]: 'P05', V[2]: 'P05'}, bounds=BOUNDS)
    def _(c):
        eng = c.eng
        states = [s for s in World.STATES if backend != 'inmem' or
                  s != 'loaded']
        c.need_cover('valid', 'invalid', 'empty')

        def run():
            w = World(c, backend, cls)
            over(w)
            node, place, held = w.state(pick(c, states))
            k, e = c.method(node, 'validate')
            if held is None:
                c.cover('empty')
                c.goal(V[1], k == 'return')
                return
            n = len(w.validated)
            ok = n >= 1 and all_same(w, w.validated, held)
            c.goal(V[0], ok)
            if w.error is None:
                c.cover('valid')
                c.goal(V[2], k == 'return')
            else:
                c.cover('invalid')
                c.goal(V[2], k == 'raise' and e == w.error)
        c.explore(run)


def all_same(w, calls, held):
    r = True
    for args in calls:
        r = w.eng.and_(r, w.same(w.eng.force(args[0]), held))
    return r


# -- creation defaults ------------------------------------------------------------------

def creation(backend, cls):
    D = ['a new item holds the current time if set_on_create is set',
         'a new item without set_on_create is empty',
         'a new item has its schema and parent']

    @unit('P18', 'items.%s.%s creation' % (backend, cls), {
        D[0]: 'P18', D[1]: 'P18 P06', D[2]: 'P18 P11'} if cls in DTS else {
        D[1]: 'P18 P06', D[2]: 'P18 P11'}, bounds=BOUNDS)
    def _(c):
        eng = c.eng
        if cls in DTS:
            c.need_cover('default')
        c.need_cover('empty')

        def run():
            w = World(c, backend, cls)
            node, place = w.new()
            if node is None:
                c.goal(D[2], False, 'creation raises ' + c.exc_name(place))
                return
            c.goal(D[2], w.attrs_kept(node))
            if cls in DTS and eng.branch(w.soc):
                c.cover('default')
                now = eng.ext.clock(eng, DTS[cls])
                c.goal(D[0], w.holds(node, now))
            else:
                c.cover('empty')
                c.goal(D[1], w.is_empty(node))
        c.explore(run)


# -- saving and loading -------------------------------------------------------------------

def persist(backend, cls):
    P = ['loading what was saved gives an equal value of the same type',
         'saving changes nothing in memory',
         'a loaded item has its schema and parent']

    @unit('P09', 'items.%s.%s save and load' % (backend, cls), {
        P[0]: 'P09 P13 P18', P[1]: 'P09 P16', P[2]: 'P09 P11'},
        bounds=BOUNDS)
    def _(c):
        eng = c.eng
        c.need_cover('loaded')

        def run():
            w = World(c, backend, cls)
            st = pick(c, ['set', 'loaded'])
            node, place, held = w.state(st)
            data = w.stored(node, place)
            c.goal(P[1], w.holds(node, held))
            if data is None or (isinstance(data, Ref) and c.is_exc(
                    data, Exception)):
                c.goal(P[0], False, 'nothing is saved')
                return
            kind, n = c.call(eng.cls('dsch.backends.' + backend, cls),
                             w.schema, w.parent, data_storage=data)
            c.cover('loaded')
            if kind == 'raise':
                c.goal(P[0], False, 'loading raises ' + c.exc_name(n))
                return
            c.goal(P[0], w.holds(n, held), 'state ' + st)
            c.goal(P[2], w.attrs_kept(n))
            c.goal(P[1], w.holds(node, held))
        c.explore(run)


# -- elements of arrays --------------------------------------------------------------------

def elements(backend):
    E = ['indexing an array node gives the elements of its value',
         'assigning to an index changes these elements of the value',
         'a changed array is what is saved and loaded',
         'a changed array is validated',
         'changing elements changes nothing else of the node']

    @unit('P21', 'items.%s.Array elements' % backend, {
        x: 'P21' for x in E if backend != 'inmem' or x != E[2]},
        bounds=BOUNDS)
    def _(c):
        eng = c.eng
        states = ['set'] + ['loaded'] * (backend != 'inmem')
        c.need_cover('read', 'written', *states)
        if backend != 'inmem':
            c.need_cover('saved')

        def run():
            w = World(c, backend, 'Array')
            over(w)
            st = pick(c, states)
            node, place, held = w.state(st)
            c.cover(st)
            key = z3.Const('index', U)
            u = w.array_u(held)
            want = eng.arrays.element(eng, u, key)
            k, r = c.call(eng.getattr(node, '__getitem__'), key)
            c.cover('read')
            c.goal(E[0], k == 'return' and eng.value_eq(r, want),
                   'state ' + st)
            c.goal(E[4], w.holds(node, held), 'after indexing')
            x = z3.Const('x', U)
            new = eng.arrays.changed(eng, u, key, x)
            w.mat_array(new)
            k, r = c.call(eng.getattr(node, '__setitem__'), key, x)
            if k == 'raise':
                c.goal(E[1], False, 'raises ' + c.exc_name(r))
                c.stop()
            c.cover('written')
            v = libs.nd(eng, ('u', new))
            c.goal(E[1], w.holds(node, v), 'state ' + st)
            c.goal(E[4], w.attrs_kept(node))
            c.goal(E[4], w.schema_kept())
            c.goal(E[4], w.others_kept(place))
            k, r = c.call(eng.getattr(node, '__getitem__'), key)
            c.goal(E[0], k == 'return' and eng.value_eq(
                r, eng.arrays.element(eng, new, key)), 'after a change')
            op = pick(c, ['saved'] * (backend != 'inmem') + ['validated'])
            if op == 'validated':
                w.validated.clear()
                c.method(node, 'validate')
                c.goal(E[3], len(w.validated) >= 1 and all_same(
                    w, w.validated, v))
                return
            data = w.stored(node, place)
            if data is None or (isinstance(data, Ref) and c.is_exc(
                    data, Exception)):
                c.goal(E[2], False, 'nothing is saved')
                return
            n = w.load(data)
            c.cover('saved')
            c.goal(E[2], n is not None and w.holds(n, v), 'state ' + st)
        c.explore(run)


# -- two nodes ------------------------------------------------------------------------------

def isolation(backend, cls):
    I = ['an operation on one node does not show in another']

    @unit('P11', 'items.%s.%s isolation' % (backend, cls), {I[0]: 'P11'},
          bounds=BOUNDS)
    def _(c):
        eng = c.eng
        c.need_cover('both')

        def run():
            w = World(c, backend, cls)
            a, pa = w.new()
            if a is None:
                c.stop()
            place = None
            if backend == 'hdf5':
                # in the same group under another name
                nm = z3.Const('name_b', Str)
                eng.assume(nm != pa[1])
                seg = pa[2]
                j = z3.Int('j!nb')
                eng.assume(z3.ForAll([j], seg.k(j) != nm))
                place = (pa[0], nm, seg)
            b, pb = w.new(place=place)
            if b is None:
                c.stop()
            x = None
            if pick(c, [0, 1]):
                x = w.value('b')
                if w.put(b, x, 'replace')[0] == 'raise':
                    c.stop()
            elif cls in DTS:
                c.method(b, 'clear')
            if pick(c, [0, 1]):
                if w.put(a, w.value('a'), 'replace')[0] == 'raise':
                    c.stop()
            op = pick(c, ['replace', 'clear', 'new'])
            if op == 'replace':
                w.put(a, w.value('a'), 'assign')
            elif op == 'clear':
                c.method(a, 'clear')
            elif backend != 'hdf5':
                w.new()
            c.cover('both')
            c.goal(I[0], w.is_empty(b) if x is None else w.holds(b, x), op)
        c.explore(run)


# -- copies -----------------------------------------------------------------------------------

def copies(dest, src, cls):
    L = ['a copy holds the value of the source, or is empty like it',
         'the source is not changed',
         'source and copy share no arrays or stored data',
         'nodes of different schemas are refused and left as they were']
    obs = {L[0]: 'P12 P18', L[1]: 'P12 P11 P16', L[2]: 'P12 P11',
           L[3]: 'P12'}

    @unit('P12', 'items.%s.%s load_from %s' % (dest, cls, src), obs,
          bounds=BOUNDS, tier='quick' if src == 'any' else 'thorough')
    def _(c):
        eng = c.eng
        c.need_cover('copied', 'empty', 'refused')

        def run():
            w = World(c, dest, cls)
            w.for_mat = 'mat' in (src, dest)
            # schema nodes are known by their configuration here
            cfg = z3.Const('cfg_d', Sch), z3.Const('cfg_s', Sch)
            tag(eng, w.schema, cfg[0])
            w.snapshot = eng.h(w.schema)
            ws = same_world(c, w, src, cfg[1])
            if src == 'any':
                snode, sheld = source(c, w, ws)
            else:
                snode, _, sheld = ws.state(pick(c, [
                    s for s in World.STATES
                    if src != 'inmem' or s != 'loaded']))
            node, place, held = w.state(pick(c, [
                'new', 'set'] + (['loaded'] if dest != 'inmem' else [])))
            k, e = c.method(node, 'load_from', snode)
            same = eng.schc.cfg(eng, cfg[0]) == eng.schc.cfg(eng, cfg[1])
            if not eng.branch(same):
                c.cover('refused')
                c.goal(L[3], eng.and_(
                    k == 'raise' and c.is_exc(e, 'IncompatibleNodesError'),
                    w.is_empty(node) if held is None
                    else w.holds(node, held)))
            elif k == 'raise':
                c.goal(L[0], False, '%s to %s raises %s' % (
                    src, dest, c.exc_name(e)))
            elif sheld is None:
                c.cover('empty')
                c.goal(L[0], w.is_empty(node), 'empty, %s to %s' % (
                    src, dest))
            else:
                c.cover('copied')
                c.goal(L[0], w.holds(node, sheld), '%s to %s' % (src, dest))
            kept = ws.is_empty(snode) if sheld is None else \
                ws.holds(snode, sheld)
            c.goal(L[1], eng.and_(kept, ws.schema_kept()))
            c.goal(L[2], not mutable_shared(eng, node, snode, reachable(
                eng, w.schema, ws.schema)), '%s to %s' % (src, dest))
        c.explore(run)


def itself(b, cls):
    L = 'copying an item to itself changes nothing'

    @unit('P12', 'items.%s.%s load_from itself' % (b, cls),
          {L: 'P12 P16 P11'}, bounds=BOUNDS)
    def _(c):
        eng = c.eng
        c.need_cover('copied', 'empty')

        def run():
            w = World(c, b, cls)
            tag(eng, w.schema, z3.Const('cfg_d', Sch))
            w.snapshot = eng.h(w.schema)
            node, place, held = w.state(pick(c, [
                'new', 'set'] + (['loaded'] if b != 'inmem' else [])))
            k, e = c.method(node, 'load_from', node)
            c.cover('empty' if held is None else 'copied')
            c.goal(L, k == 'return' and (
                w.is_empty(node) if held is None else w.holds(node, held)),
                '' if k == 'return' else 'raises ' + c.exc_name(e))
            c.goal(L, w.schema_kept())
        c.explore(run)


def source(c, w, ws):
    """A source node of any backend, known by the interface that the other
    units prove of every backend; reading its value gives the very array it
    holds (as the in-memory backend does)."""
    eng = c.eng
    held = ws.value('src') if pick(c, [0, 1]) else None

    def value():
        if held is None:
            eng.raise_(eng.cls('dsch.exceptions', 'NodeEmptyError'))
        return held
    n = eng.alloc(HObj(External('source node'), {
        'schema_node': ws.schema, 'parent': ws.parent, 'held': held}, {
            'props': {'empty': lambda: held is None,
                      'complete': lambda: held is not None,
                      'value': value}}))
    return n, held


def tag(eng, schema, s):
    p = eng.h(schema)
    eng.put(schema, HObj(p.cls, p.attrs, dict(p.ghost, sid=s)))


def same_world(c, w, backend, sid):
    """Another backend, the same options in another schema object."""
    eng = c.eng
    ws = World.__new__(World)
    ws.__dict__.update(w.__dict__)
    p = eng.h(w.schema)
    ws.schema = eng.alloc(HObj(p.cls, dict(p.attrs), dict(
        p.ghost, sid=sid)))
    ws.snapshot = eng.h(ws.schema)
    ws.parent = eng.alloc(HObj(External('parent'), {}))
    ws.backend = backend
    ws.groups = 10
    ws.nvals = 10
    return ws


for _b in BACKENDS:
    elements(_b)
    for _c in ITEMS:
        set_clear(_b, _c)
        looks(_b, _c)
        validation(_b, _c)
        creation(_b, _c)
        isolation(_b, _c)
        itself(_b, _c)
        for _s in BACKENDS + ['any']:
            copies(_b, _s, _c)
        if _b != 'inmem':
            persist(_b, _c)
