"""NumPy arrays as heap objects: content (what was put in) and form (how it
is laid out: 'nat' as made; 'mat' as returned by scipy.io.loadmat)."""
import numpy
import z3

from .values import *  # noqa: F401,F403
from . import engine as en
from . import ext
from .ext import used


def libs():
    from . import libs as m
    return m


def form_of(eng, p):
    """Arrays of two or more dimensions keep their form in mat files."""
    f, c = p.attrs['form'], p.attrs['content']
    if f == 'mat' and c[0] == 'u' and eng.branch(
            eng.uf('arr:ndim', U, Int)(c[1]) >= 2):
        return 'nat'
    return f


def to_bytes(eng, v):
    if is_sort(v, U):
        if eng.branch(eng.isinst(v, bytes)):
            return v
        raise Unsupported('bytes()')
    if isinstance(v, Ref) and eng.h(v).cls == libs().ND:
        p = eng.h(v)
        c = p.attrs['content']
        if c[0] == 'buf' and p.attrs['form'] in ('nat',):
            return c[1]
    raise Unsupported('bytes()')


def truth(eng, v, p):
    c = p.attrs['content']
    if c[0] == 'bools' and len(c[1]) == 1:
        used('numpy: bool() of a one-element array is its element')
        return c[1][0]
    raise Unsupported('truth of array')


def length(eng, v, p):
    c = p.attrs['content']
    if c[0] == 'objs' and p.attrs['form'] == 'nat':
        return eng.length(c[1])
    if c[0] == 'buf' and p.attrs['form'] == 'nat':
        return eng.uf('len', U, Int)(c[1])
    if c[0] in ('ints', 'bools') and p.attrs['form'] == 'nat':
        return len(c[1])
    if c[0] == 'u' and form_of(eng, p) == 'nat':
        nd = eng.uf('arr:ndim', U, Int)(c[1])
        if not eng.branch(nd > 0):
            eng.raise_(TypeError, 'len() of unsized object')
        return eng.uf('arr:shape', U, Int, Int)(c[1], z3.IntVal(0))
    raise Unsupported('len of array')


def attr(eng, v, p, name):
    def m(f):
        return NativeBM(name, f)
    c, form = p.attrs['content'], p.attrs['form']
    if name == 'tolist':
        def tolist():
            if c[0] in ('ints', 'bools') and form == 'nat':
                return eng.new_list([('i', x) for x in c[1]])
            if c[0] in ('ints',) and form == 'mat':
                return eng.new_list([('i', eng.new_list(
                    [('i', x) for x in c[1]]))])
            if c[0] == 'text' and form == 'nat':
                return c[1]
            raise Unsupported('tolist')
        return m(tolist)
    if name == 'tobytes':
        def tobytes():
            if c[0] == 'buf':
                return c[1]
            raise Unsupported('tobytes')
        return m(tobytes)
    if name == 'copy':
        return m(lambda: eng.alloc(HObj(p.cls, dict(p.attrs, base=None))))
    if name == 'size':
        if c[0] == 'text' and form == 'mat':
            used('scipy.io: an empty string is loaded as an empty array')
            return z3.If(eng.text(c[1]) == eng.lit(''), 0, 1)
        if c[0] in ('ints', 'bools'):
            return len(c[1])
        if c[0] == 'text' and form == 'nat':
            return 1
        if c[0] == 'u':
            return ext.arr_attr(eng, c[1], 'size')
        raise Unsupported('size')
    if name in ('ndim', 'shape', 'dtype'):
        if c[0] == 'u' and form == 'mat' and name == 'shape':
            return mat_shape(eng, c[1])
        if c[0] == 'u' and form_of(eng, p) == 'nat':
            return ext.arr_attr(eng, c[1], name)
        if name == 'shape' and c[0] == 'objs':
            raise Unsupported('shape')
        raise Unsupported('array.' + name)
    if name == 'astype':
        return m(lambda d, **k: astype(eng, v, p, d))
    if name == 'reshape':
        return m(lambda *s: reshape(eng, v, p, s))
    if name in ('item',):
        def item():
            if c[0] == 'bools' and len(c[1]) == 1:
                return c[1][0]
            if c[0] == 'text':
                return c[1]
            raise Unsupported('item()')
        return m(item)
    if name in ('resize', 'fill', 'sort', 'squeeze', 'ravel', 'flatten',
                'T', 'flat', 'any', 'all', 'max', 'min', 'view', 'base',
                'decode', 'flags', 'setflags'):
        if name == 'squeeze':
            return m(lambda: squeeze(eng, v))
        if name in ('ravel', 'flatten'):
            return m(lambda: ravel(eng, v))
        raise Unsupported('array.' + name)
    eng.ext.no_attr(eng, numpy.ndarray, name)


def mat_shape(eng, u):
    """Shape of an array as loaded from a mat file: at least 2-D, 1-D arrays
    as rows, 0-d as (1, 1)."""
    used('scipy.io: loadmat returns arrays with at least two dimensions, '
         '1-D arrays as rows')
    nd_ = eng.uf('arr:ndim', U, Int)(u)
    s = eng.uf('arr:shape', U, Int, Int)
    i = eng.choose([nd_ == 0, nd_ == 1, nd_ >= 2])
    if i == 0:
        return (z3.IntVal(1), z3.IntVal(1))
    if i == 1:
        n = s(u, z3.IntVal(0))
        # an empty 1-D array is stored as (1, 0) or (0, 0) by savemat
        if eng.branch(n == 0):
            k = eng.fresh('rows', Int)
            eng.assume(z3.Or(k == 0, k == 1))
            return (k, n)
        return (z3.IntVal(1), n)
    return STuple([Seg(nd_, lambda j: s(u, j), label='shape')])


def bool_dtype(eng, u):
    """The array u has dtype bool."""
    return ext.u_eq(eng, eng.uf('arr:dtype', U, U)(u), eng.uf(
        'dtype:ty', Ty, U)(eng.ty(bool)))


def mat_conv(eng, u):
    """Elements of an array after savemat and loadmat."""
    used('scipy.io: arrays come back with the same elements and dtype, bool '
         'as uint8 (except the dtypes mat has no room for, see '
         'known_findings.txt)')
    t = eng.uf('matconv', U, U)(u)
    ok = eng.uf('mat_ok', U, Bool)(eng.uf('arr:dtype', U, U)(u))
    num = eng.isinst(u, External('numpy.number'))
    eng.assume(z3.Implies(z3.Or(num, z3.And(
        ok, z3.Not(bool_dtype(eng, u)))), t == u))
    eng.isreg.setdefault(('matconv', t.get_id()), (t, u))
    # the shape survives (up to the form)
    nd_ = eng.uf('arr:ndim', U, Int)
    sh = eng.uf('arr:shape', U, Int, Int)
    j = z3.Int('j!mc')
    eng.assume(nd_(t) == nd_(u))
    eng.assume(z3.ForAll([j], sh(t, j) == sh(u, j), patterns=[sh(t, j)]))
    return t


def astype(eng, v, p, d):
    d = libs().dtype_name(eng, d)
    c = p.attrs['content']
    if d == 'bool' and c[0] == 'u':
        t = eng.uf('astype_bool', U, U)(c[1])
        eng.assume(eng.isinst(t, libs().ND))
        eng.assume(bool_dtype(eng, t))
        eng.assume(z3.Implies(bool_dtype(eng, c[1]), t == c[1]))
        m = eng.isreg.get(('matconv', c[1].get_id()))
        if m is not None:
            used('scipy.io: bool arrays are loaded as uint8 with the same '
                 'elements; astype(bool) restores them')
            eng.assume(z3.Implies(bool_dtype(eng, m[1]), t == m[1]))
        return eng.alloc(HObj(p.cls, dict(p.attrs, base=None,
                                          content=('u', t))))
    if d == 'bool' and c[0] == 'bools':
        return eng.alloc(HObj(p.cls, dict(p.attrs, base=None)))
    raise Unsupported('astype')


def reshape(eng, v, p, s):
    s = tuple(eng.force(x) for x in s)
    if len(s) == 1 and isinstance(s[0], tuple):
        s = s[0]
    c = p.attrs['content']
    if c[0] == 'u' and p.attrs['form'] in ('mat', 'nat'):
        nd_ = eng.uf('arr:ndim', U, Int)(c[1])
        if s == (-1,) and eng.valid_here(nd_ == 1):
            return eng.alloc(HObj(p.cls, dict(p.attrs, form='nat')))
        if s == () and eng.valid_here(nd_ == 0):
            return eng.alloc(HObj(p.cls, dict(p.attrs, form='nat')))
    raise Unsupported('reshape')


def squeeze(eng, v):
    if is_sort(v, U):
        raise Unsupported('squeeze of opaque')
    p = eng.h(v)
    c, form = p.attrs['content'], p.attrs['form']
    out = dict(p.attrs)
    if c[0] == 'struct':
        return v
    if c[0] == 'bools' and len(c[1]) == 1:
        out['form'] = '0d'
    elif c[0] == 'ints' and len(c[1]) > 1:
        out['form'] = 'nat'
    elif c[0] == 'text':
        if form == 'mat' and not eng.valid_here(
                eng.text(c[1]) != eng.lit('')):
            raise Unsupported('squeeze of an empty string array')
        out['form'] = 'nat'
    elif c[0] == 'none':
        pass
    elif c[0] == 'u' and eng.valid_here(eng.isinst(
            c[1], External('numpy.number'))):
        out['form'] = 'nat'
    elif c[0] == 'json':
        out['form'] = 'nat'
    else:
        raise Unsupported('squeeze')
    return eng.alloc(HObj(p.cls, out))


def ravel(eng, v):
    if is_sort(v, U):
        raise Unsupported('ravel of opaque')
    p = eng.h(v)
    c = p.attrs['content']
    if c[0] in ('buf', 'objs', 'ints', 'bools'):
        out = dict(p.attrs)
        out['form'] = 'nat'
        return eng.alloc(HObj(p.cls, out))
    raise Unsupported('ravel')


def iterate(eng, v, p):
    c = p.attrs['content']
    if c[0] == 'objs' and p.attrs['form'] == 'nat':
        return eng.iter_parts(c[1])
    raise Unsupported('iteration over array')


def element(eng, u, k):
    """The elements of the array u at the index k."""
    return eng.uf('item', U, U, U)(u, k)


def changed(eng, u, k, x):
    """The array that assigning x to the index k makes of u."""
    used('numpy: assigning to elements keeps dtype and shape')
    f = eng.uf('arr:changed', U, U, U, U)
    n = f(u, k, eng.to_u(x))
    sh = eng.uf('arr:shape', U, Int, Int)
    j = z3.Int('j!chg')
    eng.assume(z3.And(
        n != eng.to_u(None), eng.isinst(n, libs().ND),
        eng.uf('arr:dtype', U, U)(n) == eng.uf('arr:dtype', U, U)(u),
        eng.uf('arr:ndim', U, Int)(n) == eng.uf('arr:ndim', U, Int)(u),
        eng.ext.u_eq(eng, eng.uf('arr:dtype', U, U)(n),
                     eng.uf('arr:dtype', U, U)(u)),
        z3.ForAll([j], sh(n, j) == sh(u, j), patterns=[sh(n, j)])))
    eng.ext.shape_parts(eng, n)
    return n


def getitem(eng, v, p, k):
    c = p.attrs['content']
    if is_sort(k, U) and c[0] == 'u' and form_of(eng, p) == 'nat':
        return element(eng, c[1], k)
    if isinstance(k, tuple) and k == ():
        if c[0] == 'none':
            return None
        if c[0] == 'struct':
            return v
        if c[0] == 'text' and p.attrs['form'] == 'nat':
            return c[1]
        if c[0] == 'json' and p.attrs['form'] == 'nat':
            return c[1]
        raise Unsupported('array[()]')
    if c[0] == 'objs' and p.attrs['form'] == 'nat':
        return eng.getitem(c[1], k)
    if c[0] == 'struct':
        ok, x = eng.dict_get(eng.h(c[1]), k)
        if not ok:
            used('numpy: reading a missing field of a structured array '
                 'raises ValueError')
            eng.raise_(ValueError, 'no field')
        return x
    if c[0] == 'u' and form_of(eng, p) == 'nat':
        return ext.term_getitem(eng, c[1], k if not isinstance(
            k, Ref) else eng.to_u(k))
    raise Unsupported('array item')


def setitem(eng, v, p, k, x):
    c = p.attrs['content']
    if c[0] == 'objs' and p.attrs['form'] == 'nat':
        eng.setitem(c[1], k, x)
        return
    if is_sort(k, U) and c[0] == 'u' and form_of(eng, p) == 'nat':
        if p.attrs.get('readonly'):
            eng.raise_(ValueError, 'assignment destination is read-only')
        if p.attrs.get('base') is not None or any(
                isinstance(q, HObj) and q.attrs.get('base') == v
                for q in eng.st.heap.values()):
            raise Unsupported('change of an array with views')
        eng.put(v, p.with_attr('content', ('u', changed(
            eng, c[1], k, x))))
        return
    raise Unsupported('array item assignment')


def scalar(eng, v, p, d):
    """np.dtype(d).type(array)"""
    c = p.attrs['content']
    if c[0] == 'u' and p.attrs['form'] == 'nat' and eng.valid_here(
            eng.isinst(c[1], External('numpy.number'))):
        return libs().scalar_of(eng, d, c[1])
    raise Unsupported('scalar type of array')
