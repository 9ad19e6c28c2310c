"""Values of the symbolic interpreter.

Immutable Python constants (None, bool, int, str, bytes, float) stand for
themselves; z3 terms are symbolic values; everything mutable lives in a heap
and is reached through Ref.
"""
import z3

U = z3.DeclareSort('U')          # any Python value the code treats as opaque
Str = z3.DeclareSort('Str')      # text
Node = z3.DeclareSort('Node')    # a data node known by its contract only
Sch = z3.DeclareSort('Sch')      # a schema node known by its contract only
Tree = z3.DeclareSort('Tree')    # the content (abstract data) of a data node
Ty = z3.DeclareSort('Ty')        # Python types, as seen by isinstance/type
Int = z3.IntSort()
Bool = z3.BoolSort()


class Unsupported(Exception):
    """The code uses something outside the verifier's reach."""


class Infeasible(Exception):
    """The current path cannot happen."""


class PyRaise(Exception):
    """The interpreted program raises the exception object `value`."""

    def __init__(self, value):
        super().__init__('PyRaise')
        self.value = value


class PathEnd(Exception):
    """Stop exploring this path here (the rest is covered elsewhere)."""


class Ref:
    """A heap object."""
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, other):
        return isinstance(other, Ref) and other.oid == self.oid

    def __hash__(self):
        return hash(('Ref', self.oid))

    def __repr__(self):
        return 'Ref(%s)' % self.oid


class HObj:
    """Heap payload: an instance of a class."""

    def __init__(self, cls, attrs=None, ghost=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.ghost = ghost if ghost is not None else {}

    def with_attr(self, name, value):
        a = dict(self.attrs)
        a[name] = value
        return HObj(self.cls, a, self.ghost)

    def without_attr(self, name):
        a = dict(self.attrs)
        del a[name]
        return HObj(self.cls, a, self.ghost)

    def __repr__(self):
        return 'HObj(%s %s)' % (getattr(self.cls, 'name', self.cls),
                                self.attrs)


class Seg:
    """A family of list elements / dict entries: for j in 0..n-1, if g(j):
    v(j) (with key k(j), whose inverse is inv, for dicts)."""

    def __init__(self, n, v, g=None, k=None, inv=None, label=''):
        self.n = n
        self.v = v
        self.g = g
        self.k = k
        self.inv = inv
        self.label = label

    def __repr__(self):
        return 'Seg(%s n=%s%s)' % (self.label, self.n,
                                   ' guarded' if self.g else '')


class HList:
    """Heap payload: a list. parts: tuple of ('i', value) or Seg."""

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'HList%r' % (self.parts,)


class HDict:
    """Heap payload: a dict. parts: tuple of ('i', key, value) or Seg."""

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'HDict%r' % (self.parts,)


class STuple:
    """An immutable sequence of unknown length (parts as HList)."""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'STuple%r' % (self.parts,)


class SetV:
    """A set, known by the elements it was made from."""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'SetV%r' % (self.parts,)


class Alt:
    """One of several values, depending on the state: [(cond, value)]."""

    def __init__(self, alts):
        self.alts = list(alts)

    def __repr__(self):
        return 'Alt%r' % (self.alts,)


class Rope:
    """Text made of literal pieces and Str terms."""

    def __init__(self, parts):
        out = []
        for p in parts:
            for q in (p.parts if isinstance(p, Rope) else [p]):
                if isinstance(q, str):
                    if q == '':
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)

    def __repr__(self):
        return 'Rope%r' % (self.parts,)


class Dec:
    """Decimal text of an integer term."""

    def __init__(self, num):
        self.num = num

    def __repr__(self):
        return 'Dec(%s)' % (self.num,)


class Poison:
    """A value that must not be used (e.g. loop variable after the loop)."""

    def __init__(self, why):
        self.why = why


class Func:
    def __init__(self, node, module, cls=None, closure=None, name=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.closure = closure
        self.name = name or getattr(node, 'name', '<lambda>')
        self.defaults = None

    @property
    def qualname(self):
        return '%s.%s%s' % (self.module.name,
                            self.cls.name + '.' if self.cls else '',
                            self.name)


class Prop:
    def __init__(self, fget=None, fset=None):
        self.fget = fget
        self.fset = fset


class ClassM:
    def __init__(self, func):
        self.func = func


class StaticM:
    def __init__(self, func):
        self.func = func


class BM:
    """Bound method."""

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class NativeBM:
    """Method implemented by the engine, bound to a value."""

    def __init__(self, name, call):
        self.name = name
        self.call = call


class Builtin:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Builtin(%s)' % self.name

    def __eq__(self, other):
        return isinstance(other, Builtin) and self.name == other.name

    def __hash__(self):
        return hash(self.name)


class External:
    """Something of a module outside dsch, e.g. numpy.array."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'External(%s)' % self.name

    def __eq__(self, other):
        return isinstance(other, External) and self.name == other.name

    def __hash__(self):
        return hash(self.name)


class ClassInfo:
    def __init__(self, name, bases, ns, module):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.mro = mro(self)

    def __repr__(self):
        return 'ClassInfo(%s.%s)' % (self.module.name, self.name)

    def lookup(self, name, after=None):
        """Find a class attribute along the MRO: (class, value) or None."""
        seq = self.mro
        if after is not None:
            seq = seq[seq.index(after) + 1:]
        for c in seq:
            if isinstance(c, ClassInfo) and name in c.ns:
                return c, c.ns[name]
        return None

    def pybase(self):
        """The first genuine Python type in the MRO."""
        for c in self.mro:
            if isinstance(c, type):
                return c
        return object

    def issub(self, other):
        if other is object:
            return True
        for c in self.mro:
            if c is other:
                return True
            if isinstance(c, type) and isinstance(other, type) \
                    and issubclass(c, other):
                return True
            if isinstance(c, External) and c == other:
                return True
        return False


def mro(cls):
    def lin(c):
        if isinstance(c, ClassInfo):
            return list(c.mro)
        if isinstance(c, type):
            return list(c.__mro__)
        return [c]
    seqs = [lin(b) for b in cls.bases] + [list(cls.bases)]
    if not cls.bases:
        seqs = [[object]]
    out = [cls]
    while any(seqs):
        seqs = [s for s in seqs if s]
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('inconsistent MRO')
        out.append(h)
        for s in seqs:
            if s and s[0] == h:
                del s[0]
    return out


class Module:
    def __init__(self, name):
        self.name = name
        self.ns = {}

    def __repr__(self):
        return 'Module(%s)' % self.name


class Lazy:
    """Module-level assignment, evaluated when it is first needed."""

    def __init__(self, expr, frame=None):
        self.expr = expr
        self.frame = frame


class GenV:
    """A generator expression that has not been consumed yet."""

    def __init__(self, node, frame):
        self.node = node
        self.frame = frame


class View:
    """keys/values/items/enumerate/zip/range/reversed: parts like HList."""

    def __init__(self, parts):
        self.parts = tuple(parts)


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_sort(v, sort):
    return isinstance(v, z3.ExprRef) and v.sort() == sort


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (
        isinstance(v, z3.ArithRef))


def is_text(v):
    return isinstance(v, (str, Rope)) or is_sort(v, Str)
