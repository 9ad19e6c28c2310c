"""External contracts of the libraries dsch uses (assumed, see ext.USED):
json, hashlib, inspect, importlib, os, copy, io, numpy, scipy.io, h5py,
asciitree."""
import z3

from .values import *  # noqa: F401,F403
from . import engine as en
from . import ext
from .ext import used, External  # noqa: F811

ND = External('numpy.ndarray')
JT = External('json.text')
HX = External('hashlib.hexdigest')
SHA = External('hashlib.sha256.object')
JB = External('json.bytes')
GROUP = External('h5py.Group')
DATASET = External('h5py.Dataset')
H5FILE = External('h5py.File')
H5ATTRS = External('h5py.AttributeManager')
BYTESIO = External('io.BytesIO')
FILEOBJ = External('io.FileIO')
NPZ = External('numpy.NpzFile')
NPDTYPE = External('numpy.dtype.object')
SCALARTYPE = External('numpy.scalartype')


# -- json ----------------------------------------------------------------------

class J:
    """A JSON value: kind 'arr' or 'obj' with parts."""

    def __init__(self, kind, parts, sort=False):
        self.kind = kind
        self.parts = tuple(parts)
        self.sort = sort

    def __repr__(self):
        return 'J(%s %r)' % (self.kind, self.parts)


def jconv(eng, v, sort):
    v = v if isinstance(v, Alt) else eng.force(v)
    if isinstance(v, Alt):
        return Alt([(c, jconv(eng, x, sort)) for c, x in v.alts])
    if v is None or isinstance(v, (bool, int, float, J)) or is_text(v):
        return v
    if isinstance(v, (z3.BoolRef, z3.ArithRef)):
        return v
    if is_sort(v, U):
        return v
    if isinstance(v, en.Frozen):
        p = v.payload
        if isinstance(p, HDict):
            return J('obj', [('i', en.subst_value(e[1], v.pairs, eng),
                              jconv(eng, en.subst_value(e[2], v.pairs, eng),
                                    sort)) for e in p.parts], sort)
        if isinstance(p, HList):
            return J('arr', [('i', jconv(eng, en.subst_value(
                e[1], v.pairs, eng), sort)) for e in p.parts])
    if isinstance(v, (tuple, STuple)) or (isinstance(v, Ref) and isinstance(
            eng.h(v), HList)):
        out = []
        for e in eng.seq_parts(v):
            if isinstance(e, Seg):
                out.append(Seg(e.n, lambda j, e=e: jconv(eng, e.v(j), sort),
                               e.g, label='json'))
            else:
                out.append(('i', jconv(eng, e[1], sort)))
        return J('arr', out)
    if isinstance(v, Ref) and isinstance(eng.h(v), HDict):
        out = []
        for e in eng.h(v).parts:
            if isinstance(e, Seg):
                out.append(Seg(e.n, lambda j, e=e: jconv(eng, e.v(j), sort),
                               e.g, e.k, e.inv, label='json'))
            else:
                if not is_text(eng.force(e[1])):
                    raise Unsupported('json key')
                out.append(('i', e[1], jconv(eng, e[2], sort)))
        return J('obj', out, sort)
    if isinstance(v, (type, ClassInfo, External, bytes)) or isinstance(
            v, Ref):
        eng.raise_(TypeError, 'not JSON serializable')
    raise Unsupported('json of %r' % (v,))


def jload(eng, v):
    if isinstance(v, Alt):
        return Alt([(c, jload(eng, x)) for c, x in v.alts])
    if isinstance(v, J):
        if v.kind == 'arr':
            return eng.new_list([
                Seg(e.n, lambda j, e=e: jload(eng, e.v(j)), e.g)
                if isinstance(e, Seg) else ('i', jload(eng, e[1]))
                for e in v.parts])
        return eng.new_dict([
            Seg(e.n, lambda j, e=e: jload(eng, e.v(j)), e.g, e.k, e.inv)
            if isinstance(e, Seg) else ('i', e[1], jload(eng, e[2]))
            for e in v.parts])
    return v


def jeq(eng, a, b):
    """Equality of two JSON texts by structure."""
    if isinstance(a, Alt) or isinstance(b, Alt):
        r = False
        for ca, x in (a.alts if isinstance(a, Alt) else [(True, a)]):
            for cb, y in (b.alts if isinstance(b, Alt) else [(True, b)]):
                r = eng.or_(r, eng.and_(eng.and_(ca, cb), jeq(eng, x, y)))
        return r
    if isinstance(a, J) != isinstance(b, J):
        o = b if isinstance(a, J) else a
        if is_sort(o, U):
            j = a if isinstance(a, J) else b
            return o == j_u(eng, j)
        return False
    if not isinstance(a, J):
        return eng.value_eq(a, b)
    if a.kind != b.kind:
        return False
    sa = any(isinstance(e, Seg) for e in a.parts)
    sb = any(isinstance(e, Seg) for e in b.parts)
    if a.kind == 'arr':
        if not sa and not sb:
            if len(a.parts) != len(b.parts):
                return False
            r = True
            for x, y in zip(a.parts, b.parts):
                r = eng.and_(r, jeq(eng, x[1], y[1]))
            return r
        return pointwise(eng, a.parts, b.parts,
                         lambda x, y: jeq(eng, x, y))
    if not sa and not sb:
        if len(a.parts) != len(b.parts):
            return False
        r = True
        if a.sort and b.sort:
            ka = {e[1]: e[2] for e in a.parts if isinstance(e[1], str)}
            kb = {e[1]: e[2] for e in b.parts if isinstance(e[1], str)}
            if len(ka) == len(a.parts) and len(kb) == len(b.parts):
                if set(ka) != set(kb):
                    return False
                for k in ka:
                    r = eng.and_(r, jeq(eng, ka[k], kb[k]))
                return r
            # symbolic keys: each entry of a has an equal one in b
            for x in a.parts:
                one = False
                for y in b.parts:
                    one = eng.or_(one, eng.and_(
                        eng.value_eq(x[1], y[1]), jeq(eng, x[2], y[2])))
                r = eng.and_(r, one)
            return r
        for x, y in zip(a.parts, b.parts):
            if r is False:
                break
            r = eng.and_(r, eng.value_eq(x[1], y[1]))
            if r is not False:
                r = eng.and_(r, jeq(eng, x[2], y[2]))
        return r
    if len(a.parts) != 1 or len(b.parts) != 1 or not (sa and sb):
        raise Unsupported('equality of json objects')
    x, y = a.parts[0], b.parts[0]
    if x.g is not None or y.g is not None:
        raise Unsupported('equality of filtered json objects')
    if not (a.sort and b.sort):
        def both(p, q):
            return eng.and_(eng.value_eq(p[0], q[0]), jeq(eng, p[1], q[1]))
        return pointwise(eng, [pairs_seg(x)], [pairs_seg(y)], both)
    if x.inv is None or y.inv is None:
        raise Unsupported('equality of json objects')
    key = z3.Const('key!jeq', Str)

    def has(s):
        i = s.inv(key)
        return z3.And(0 <= i, i < s.n, eng.text(s.k(i)) == key)
    f = jeq(eng, x.v(x.inv(key)), y.v(y.inv(key)))
    f = z3.BoolVal(f) if isinstance(f, bool) else f
    return z3.ForAll([key], z3.And(has(x) == has(y),
                                   z3.Implies(has(x), f)))


def pairs_seg(s):
    return Seg(s.n, lambda j: (s.k(j), s.v(j)))


def pointwise(eng, pa, pb, eq):
    if len(pa) == 1 and len(pb) == 1 and isinstance(
            pa[0], Seg) and isinstance(pb[0], Seg) and pa[0].g is None \
            and pb[0].g is None:
        x, y = pa[0], pb[0]
        j = z3.Int('j!pw')
        f = eq(x.v(j), y.v(j))
        f = z3.BoolVal(f) if isinstance(f, bool) else f
        return z3.And(x.n == y.n, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < x.n), f)))
    la, lb = eng.parts_len(pa), eng.parts_len(pb)
    if not pa or not pb:
        return eng.eq(la, lb)
    if all(not isinstance(p, Seg) for p in pa):
        r = eng.eq(la, lb)
        for i, p in enumerate(pa):
            r = eng.and_(r, eng.value_eq_or(eq, p[1], eng.index_parts(
                pb, i)))
        return r
    raise Unsupported('comparison of sequences')


def j_u(eng, j):
    raise Unsupported('json structure against opaque value')


def uns(what):
    raise Unsupported(what)


# -- dispatch --------------------------------------------------------------------

def call(eng, name, args, kwargs):
    f = CALLS.get(name)
    if f is not None:
        return f(eng, *args, **kwargs)
    raise Unsupported('call of ' + name)


CALLS = {}


def ext_fun(name):
    def deco(f):
        CALLS[name] = f
        return f
    return deco


@ext_fun('json.dumps')
def _dumps(eng, v, sort_keys=False, **kw):
    used('json: loads(dumps(x)) is x with tuples as lists; equal texts '
         '(sorted keys) mean equal values')
    if set(kw) - {'ensure_ascii', 'allow_nan', 'separators', 'indent'}:
        raise Unsupported('json.dumps options')
    j = jconv(eng, v, bool(eng.force(sort_keys)))
    if kw.pop('allow_nan', True) is not True:
        used('json: with allow_nan=False, a number that is not finite '
             'raises ValueError')
        bad = [eng.uf('nonfinite', U, Bool)(x) for x in leaves(j)
               if is_sort(x, U)]
        if bad and eng.branch(z3.Or(*bad)):
            eng.raise_(ValueError, 'Out of range float values')
    ascii_ = kw.pop('ensure_ascii', True)
    if ascii_ not in (True, False):
        raise Unsupported('json.dumps options')
    sep = eng.force(kw.get('separators'))
    if sep is not None and (not isinstance(sep, tuple) or [
            x.strip(' ') for x in sep] != [',', ':']):
        raise Unsupported('json.dumps separators')
    return eng.alloc(HObj(JT, {
        'content': ('json', j), 'ascii': ascii_,
        'fmt': (sep, eng.force(kw.get('indent')))}))


def leaves(j):
    """The values in a JSON form, outside of quantified parts."""
    if isinstance(j, Alt):
        return [y for _, x in j.alts for y in leaves(x)]
    if isinstance(j, J):
        return [y for e in j.parts if not isinstance(e, Seg)
                for x in e[1:] for y in leaves(x)]
    return [j]


UTF8 = ('utf-8', 'utf8', 'UTF-8', 'UTF8', 'utf_8')


def j_encode(eng, v, p, enc='utf-8', errors='strict'):
    """The bytes of a JSON text."""
    lossy = False
    enc, errors = eng.force(enc), eng.force(errors)
    if p.attrs.get('ascii', True):
        if enc not in UTF8 + ('ascii', 'latin-1', 'latin1', 'us-ascii'):
            raise Unsupported('encoding')
    elif enc in UTF8:
        used('json: texts do not contain lone surrogates')
    elif enc in ('ascii', 'us-ascii', 'latin-1', 'latin1'):
        used('str: encode(errors=ignore or replace) maps different texts '
             'with other characters to equal bytes')
        texts = [x for x in leaves(p.attrs['content'][1])
                 if is_sort(x, Str) or is_sort(x, U) or isinstance(
                     x, Rope)]
        if errors == 'strict':
            if texts and eng.branch(eng.fresh('other characters', Bool)):
                eng.raise_(UnicodeEncodeError, enc)
        elif errors in ('ignore', 'replace'):
            lossy = bool(texts)
        elif errors not in ('backslashreplace', 'xmlcharrefreplace',
                            'namereplace'):
            raise Unsupported('encode errors')
    else:
        raise Unsupported('encoding')
    return eng.alloc(HObj(JB, {'content': v, 'lossy': lossy}))


@ext_fun('json.loads')
def _loads(eng, v, **kw):
    v = eng.force(v)
    if isinstance(v, Ref) and eng.h(v).cls == JT:
        return jload(eng, eng.h(v).attrs['content'][1])
    raise Unsupported('json.loads of other text')


@ext_fun('hashlib.sha256')
def _sha(eng, v=None):
    used('hashlib: different JSON texts have different SHA-256 hashes '
         '(collision freedom), equal texts the same')
    return eng.alloc(HObj(SHA, {'content': v}))


@ext_fun('inspect.isclass')
def _isclass(eng, v):
    v = eng.force(v)
    return isinstance(v, (ClassInfo, type))


@ext_fun('importlib.import_module')
def _import(eng, name, package=None):
    name = eng.force(name)
    if package is not None:
        raise Unsupported('relative import_module')
    if isinstance(name, str):
        if not name.startswith('dsch'):
            raise Unsupported('import of ' + name)
        if en.parse_module(name) is None:
            eng.raise_(ModuleNotFoundError, name)
        return eng.module(name)
    if isinstance(name, Rope) and len(name.parts) == 2 and \
            name.parts[0] == 'dsch.backends.' and is_sort(
                name.parts[1], Str):
        b = name.parts[1]
        known = ['inmem', 'npz', 'hdf5', 'mat']
        conds = [b == eng.lit(k) for k in known]
        conds.append(z3.And(*[b != eng.lit(k) for k in known]))
        i = eng.choose(conds)
        if i == len(known):
            eng.raise_(ModuleNotFoundError, 'backend')
        return eng.module('dsch.backends.' + known[i])
    raise Unsupported('import_module of symbolic name')


@ext_fun('os.path.exists')
def _exists(eng, path):
    return eng.files.exists(eng, path)


@ext_fun('os.path.isfile')
def _isfile(eng, path):
    return eng.files.kind(eng, path, 'file')


@ext_fun('os.path.isdir')
def _isdir(eng, path):
    return eng.files.kind(eng, path, 'directory')


@ext_fun('os.path.lexists')
def _lexists(eng, path):
    return eng.or_(eng.files.exists(eng, path),
                   eng.files.kind(eng, path, 'link'))


@ext_fun('os.path.islink')
def _islink(eng, path):
    return eng.files.kind(eng, path, 'link')


@ext_fun('os.path.getsize')
def _getsize(eng, path):
    return eng.files.size(eng, path)


@ext_fun('copy.copy')
def _copy(eng, v):
    v = eng.force(v)
    if isinstance(v, Ref):
        p = eng.h(v)
        if isinstance(p, HObj) and p.cls == ND:
            used('copy.copy: an independent array of equal content; an '
                 'equal value otherwise')
            return eng.alloc(HObj(ND, dict(p.attrs, base=None)))
        if isinstance(p, HList):
            return eng.new_list(p.parts)
        if isinstance(p, HDict):
            return eng.new_dict(p.parts)
        raise Unsupported('copy of %r' % (p.cls,))
    return v


@ext_fun('copy.deepcopy')
def _deepcopy(eng, v):
    v = eng.force(v)
    if isinstance(v, Ref) and isinstance(eng.h(v), HObj) and eng.h(
            v).cls == ND or not isinstance(v, Ref):
        return _copy(eng, v)
    raise Unsupported('deepcopy')


@ext_fun('asciitree.LeftAligned')
def _la(eng, *a, **k):
    return External('asciitree.drawer')


@ext_fun('asciitree.BoxStyle')
def _bs(eng, *a, **k):
    return External('asciitree.style')


@ext_fun('asciitree.drawer')
def _draw(eng, tree):
    used('asciitree: draws each label of the tree once, in order')
    t = eng.alloc(HObj(External('drawing'), {'content': ('tree', tree)}))
    return t


# -- numpy ------------------------------------------------------------------------

def nd(eng, content, **attrs):
    a = {'content': content, 'base': None, 'form': 'nat'}
    a.update(attrs)
    return eng.alloc(HObj(ND, a))


def content_u(eng, c):
    """An opaque term for an array content."""
    if c[0] == 'u':
        return c[1]
    if c[0] in ('ints', 'bools'):
        ts = [z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool)
              else z3.BoolVal(x) if isinstance(x, bool) else x
              for x in c[1]]
        return eng.uf('nd:%s%d' % (c[0], len(ts)),
                      *([t.sort() for t in ts] + [U]))(*ts)
    if c[0] == 'buf':
        return eng.uf('nd:buf', U, U)(c[1])
    if c[0] == 'text':
        return eng.uf('nd:text', Str, U)(eng.text(c[1]))
    raise Unsupported('opaque array')


def dtype_name(eng, d):
    d = eng.force(d)
    if d is None or isinstance(d, str):
        return d
    if isinstance(d, type):
        return {int: 'int', bool: 'bool', str: 'U', object: 'object',
                float: 'float'}.get(d, d.__name__)
    return d


@ext_fun('numpy.array')
def _array(eng, x, dtype=None, copy=True):
    x = eng.force(x)
    d = dtype_name(eng, dtype)
    if d in ('int64', 'i8', '<i8', 'int_', 'i'):
        d = 'int' if d != 'i' else 'i4'
    if isinstance(x, Ref) and isinstance(eng.h(x), HObj) and eng.h(
            x).cls == ND:
        if d is not None:
            raise Unsupported('np.array(array, dtype)')
        return eng.alloc(HObj(ND, dict(eng.h(x).attrs, base=None)))
    if is_text(x):
        if d in ('U', None, '<U0', 'str', 'object') and d != 'object':
            used('numpy: str(np.array(text)) is text (no NUL at the end)')
            return nd(eng, ('text', x))
        raise Unsupported('np.array of text')
    if isinstance(x, (tuple, STuple)) or (isinstance(x, Ref) and isinstance(
            eng.h(x), HList)):
        ps = eng.seq_parts(x)
        if any(isinstance(p, Seg) for p in ps):
            raise Unsupported('np.array of unknown length')
        vals = [eng.force(p[1]) for p in ps]
        if d in ('int', None) and vals and all(is_int(v) for v in vals):
            used('numpy: an integer array keeps the integers it was made of')
            return nd(eng, ('ints', tuple(vals)), dt='int')
        if d in ('int16', 'int32', 'uint16', 'uint32', 'i4', 'i2') and \
                vals and all(is_int(v) for v in vals):
            bits = {'int16': (-2**15, 2**15), 'i2': (-2**15, 2**15),
                    'int32': (-2**31, 2**31), 'i4': (-2**31, 2**31),
                    'uint16': (0, 2**16), 'uint32': (0, 2**32)}[d]
            for v in vals:
                ok = eng.and_(eng.b_cmp('>=', v, bits[0]),
                              eng.b_cmp('<', v, bits[1]))
                if not eng.branch(ok):
                    eng.raise_(OverflowError, 'out of bounds')
            return nd(eng, ('ints', tuple(vals)), dt=d)
        if d == 'bool' and len(vals) == 1:
            b = eng.truth(vals[0])
            return nd(eng, ('bools', (b,)), dt='bool')
        raise Unsupported('np.array of list')
    if d == 'bool' and (isinstance(x, (bool, z3.BoolRef))):
        return nd(eng, ('bools', (x,)), dt='bool', form='0d')
    if is_sort(x, U) and d is None:
        return nd(eng, ('u', x))
    raise Unsupported('np.array')


@ext_fun('numpy.asarray')
def _asarray(eng, x, dtype=None):
    x = eng.force(x)
    if dtype is None and isinstance(x, Ref) and isinstance(
            eng.h(x), HObj) and eng.h(x).cls == ND:
        return x
    return _array(eng, x, dtype)


@ext_fun('numpy.frombuffer')
def _frombuffer(eng, x, dtype=None):
    x = eng.force(x)
    if dtype_name(eng, dtype) not in ('uint8', 'u1', 'B', 'uint8'):
        raise Unsupported('frombuffer dtype')
    if is_sort(x, U):
        if not eng.branch(eng.isinst(x, bytes)):
            raise Unsupported('frombuffer of other objects')
        used('numpy: frombuffer(b, uint8) has exactly the bytes of b')
        return nd(eng, ('buf', x), readonly=True)
    raise Unsupported('frombuffer')


@ext_fun('numpy.dtype')
def _dtype(eng, x):
    x = eng.force(x)
    if is_text(x):
        return eng.alloc(HObj(NPDTYPE, {'of': eng.uf('dtype:str', Str, U)(
            eng.text(x))}))
    if isinstance(x, type):
        return eng.alloc(HObj(NPDTYPE, {'of': eng.uf('dtype:ty', Ty, U)(
            eng.ty(x))}))
    if is_sort(x, U):
        return eng.alloc(HObj(NPDTYPE, {'of': x}))
    if isinstance(x, Ref) and eng.h(x).cls == NPDTYPE:
        return x
    raise Unsupported('np.dtype')


@ext_fun('numpy.any')
def _any(eng, v):
    return ext.np_any(eng, v)


@ext_fun('numpy.squeeze')
def _squeeze(eng, v):
    return eng.arrays.squeeze(eng, eng.force(v))


@ext_fun('numpy.ravel')
def _ravel(eng, v):
    return eng.arrays.ravel(eng, eng.force(v))


@ext_fun('numpy.zeros')
def _zeros(eng, shape, dtype=None):
    d = dtype_name(eng, dtype)
    if d not in ('object', 'O'):
        raise Unsupported('np.zeros')
    shape = eng.force(shape)
    n = shape[0] if isinstance(shape, tuple) and len(shape) == 1 else shape
    if not is_int(n):
        raise Unsupported('np.zeros shape')
    used('numpy: an object array holds the objects assigned to it')
    z = 0
    parts = [('i', z) for _ in range(n)] if isinstance(n, int) else [
        Seg(n, lambda j: z, label='zeros')]
    items = eng.new_list(parts)
    return eng.alloc(HObj(ND, {'content': ('objs', items), 'form': 'nat',
                               'base': None}))


@ext_fun('numpy.empty')
def _empty(eng, shape, dtype=None):
    return _zeros(eng, shape, dtype)


# -- generic native objects ----------------------------------------------------------

def truth(eng, v, p):
    ops = getattr(p.cls, 'ops', None)
    if ops is not None:
        return ops.truth(eng, v, p) if hasattr(ops, 'truth') else uns(
            'truth of %r' % p.cls)
    if p.cls == ND:
        return eng.arrays.truth(eng, v, p)
    if p.cls in (DATASET, GROUP, H5FILE):
        used('h5py: an object of an open file is true')
        return True
    if p.cls == JT:
        return True
    if isinstance(p.cls, type) and issubclass(p.cls, BaseException):
        return True
    return True


def length(eng, v, p):
    ops = getattr(p.cls, 'ops', None)
    if ops is not None:
        return ops.length(eng, v, p) if hasattr(ops, 'length') else uns(
            'len of %r' % p.cls)
    if p.cls == ND:
        return eng.arrays.length(eng, v, p)
    if p.cls in (GROUP, H5FILE):
        return eng.length(p.attrs['items'])
    raise Unsupported('len of %r' % (p.cls,))


def equal(eng, a, b):
    pa = eng.h(a)
    pb = eng.h(b) if isinstance(b, Ref) else None
    if pb is not None and pa.cls == JT and pb.cls == JT:
        if pa.attrs.get('fmt') != pb.attrs.get('fmt') or pa.attrs.get(
                'ascii') != pb.attrs.get('ascii'):
            raise Unsupported('== of json texts of different formats')
        return jeq(eng, pa.attrs['content'][1], pb.attrs['content'][1])
    if pb is not None and pa.cls == pb.cls == JB and (
            pa.attrs['lossy'] or pb.attrs['lossy']):
        return eng.or_(eng.eq(pa.attrs['content'], pb.attrs['content']),
                       eng.fresh('equal without the other characters',
                                 Bool))
    if pb is not None and pa.cls == pb.cls and pa.cls in (HX, SHA, JB):
        return eng.eq(pa.attrs['content'], pb.attrs['content'])
    if pb is not None and {pa.cls, pb.cls} <= {JT, HX, SHA, JB}:
        return False
    if pa.cls == NPDTYPE:
        if pb is not None and pb.cls == NPDTYPE:
            return ext.u_eq(eng, pa.attrs['of'], pb.attrs['of'])
        if isinstance(b, type):
            return ext.u_eq(eng, pa.attrs['of'], eng.uf(
                'dtype:ty', Ty, U)(eng.ty(b)))
        if is_sort(b, U) or is_text(b):
            return ext.u_eq(eng, pa.attrs['of'], b)
    if pa.cls in (JT, HX) and (b is None or is_text(b)):
        if b is None:
            return False
        raise Unsupported('== of json text')
    if pa.cls == ND:
        raise Unsupported('== of arrays')
    if pb is None or (isinstance(pa.cls, External) != isinstance(
            pb.cls, External)):
        return False
    if isinstance(pa.cls, ClassInfo) and pb is not None and isinstance(
            pb.cls, ClassInfo):
        return a == b
    raise Unsupported('== of %r' % (pa.cls,))


def contains(eng, item, v, p):
    ops = getattr(p.cls, 'ops', None)
    if ops is not None:
        return ops.contains(eng, v, p, item)
    if p.cls in (GROUP, H5FILE):
        return eng.contains(item, p.attrs['items'])
    if p.cls == NPZ:
        return eng.contains(item, p.attrs['items'])
    if p.cls == ND and p.attrs.get('fields') is not None:
        raise Unsupported('in of array')
    raise Unsupported('in of %r' % (p.cls,))


def attr(eng, v, p, name):
    ops = getattr(p.cls, 'ops', None)
    if ops is not None:
        return ops.attr(eng, v, p, name)
    def m(f):
        return NativeBM(name, f)
    c = p.cls
    if c == JT:
        if name == 'encode':
            return m(lambda *a, **k: j_encode(eng, v, p, *a, **k))
        raise Unsupported('json text.' + name)
    if c == JB and name == 'decode' and not p.attrs['lossy']:
        return m(lambda *a: p.attrs['content'])
    if c == SHA:
        def update(x):
            if p.attrs['content'] is not None:
                raise Unsupported('sha.update twice')
            eng.put(v, HObj(SHA, {'content': x}))
        if name == 'update':
            return m(update)
        if p.attrs['content'] is None:
            raise Unsupported('hash of nothing')
        if name == 'hexdigest':
            return m(lambda: eng.alloc(HObj(HX, {
                'content': p.attrs['content']})))
        raise Unsupported('sha.' + name)
    if c == ND:
        return eng.arrays.attr(eng, v, p, name)
    if c == NPDTYPE:
        if name == 'type':
            return eng.alloc(HObj(SCALARTYPE, {'of': p.attrs['of']}))
        if name == 'str':
            used('numpy: np.dtype(d).str names the dtype d uniquely')
            f = eng.uf('dtype.str', U, Str)
            t = f(p.attrs['of'])
            eng.assume(eng.uf('dtype:str', Str, U)(t) == p.attrs['of'])
            return t
        if name == 'name':
            return eng.uf('dtype.name', U, Str)(p.attrs['of'])
        if name == 'kind':
            return eng.uf('dtype.kind', U, Str)(p.attrs['of'])
        raise Unsupported('dtype.' + name)
    if isinstance(c, type) and issubclass(c, BaseException):
        if name == 'args':
            return p.attrs.get('args', ())
        if name in ('__cause__', '__context__'):
            return p.attrs.get(name)
        if name in p.attrs:
            return p.attrs[name]
        eng.ext.no_attr(eng, c, name)
    if c in (GROUP, H5FILE, DATASET, H5ATTRS):
        return eng.h5.attr(eng, v, p, name)
    if c in (BYTESIO, FILEOBJ, NPZ):
        return eng.files.attr(eng, v, p, name)
    h = getattr(c, 'handler', None)
    if h is not None:
        return h(eng, v, p, name)
    raise Unsupported('attribute %s of %r' % (name, c))


def iterate(eng, v, p):
    ops = getattr(p.cls, 'ops', None)
    if ops is not None:
        return ops.iterate(eng, v, p)
    if p.cls == ND:
        return eng.arrays.iterate(eng, v, p)
    if p.cls in (GROUP, H5FILE, NPZ):
        return eng.iter_parts(p.attrs['items'])
    raise Unsupported('iteration over %r' % (p.cls,))


def getitem(eng, v, p, k):
    ops = getattr(p.cls, 'ops', None)
    if ops is not None:
        return ops.getitem(eng, v, p, k)
    if p.cls == ND:
        return eng.arrays.getitem(eng, v, p, k)
    if p.cls in (GROUP, H5FILE, DATASET, H5ATTRS):
        return eng.h5.getitem(eng, v, p, k)
    if p.cls == NPZ:
        return eng.files.npz_get(eng, v, p, k)
    raise Unsupported('subscript of %r' % (p.cls,))


def setitem(eng, v, p, k, x):
    ops = getattr(p.cls, 'ops', None)
    if ops is not None:
        return ops.setitem(eng, v, p, k, x)
    if p.cls == ND:
        return eng.arrays.setitem(eng, v, p, k, x)
    if p.cls in (GROUP, H5FILE, DATASET, H5ATTRS):
        return eng.h5.setitem(eng, v, p, k, x)
    raise Unsupported('item assignment on %r' % (p.cls,))


def delitem(eng, v, p, k):
    if p.cls in (GROUP, H5FILE):
        return eng.h5.delitem(eng, v, p, k)
    raise Unsupported('del item of %r' % (p.cls,))


def scalar_of(eng, d, v):
    """np.dtype(d).type(v) for a number v (or 0-d array)."""
    used('numpy: dtype.type(v) is v for a NumPy number v of that dtype, and '
         'in general a number of that dtype')
    t = eng.uf('scalar', U, U, U)(d, v)
    eng.assume(eng.isinst(t, External('numpy.generic')))
    num = eng.isinst(v, External('numpy.number'))
    eng.assume(z3.Implies(z3.And(num, ext.u_eq(eng, eng.uf(
        'arr:dtype', U, U)(v), d)), t == v))
    return t


def call_obj(eng, f, p, args, kwargs):
    if p.cls == SCALARTYPE:
        v = eng.force(args[0])
        d = p.attrs['of']
        if isinstance(v, Ref) and eng.h(v).cls == ND:
            return eng.arrays.scalar(eng, v, eng.h(v), d)
        return scalar_of(eng, d, eng.to_u(v))
    raise Unsupported('call of %r' % (p.cls,))
