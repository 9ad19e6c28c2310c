"""h5py (assumed): groups are dicts of groups and datasets; a dataset keeps
what was put in, converted to its dtype; names in a group are unique."""
import z3

from .values import *  # noqa: F401,F403
from . import ext
from .ext import used

SELECT = ('h5py: integers, forward slices and Ellipsis select and change the '
          'same elements of a dataset as of the NumPy array it reads as')
H5TEXT = External('h5py.textbytes')


def libs():
    from . import libs as m
    return m


def group(eng, parts=(), name=None, parent=None, cls=None, path=None):
    L = libs()
    return eng.alloc(HObj(cls or L.GROUP, {
        'items': eng.new_dict(parts), 'name': name, 'parent': parent,
        'path': path if path is not None else z3.Const('h5path', Str)}))


def content_of(eng, data, dtype):
    """Dataset content for data= of create_dataset."""
    L = libs()
    data = eng.force(data)
    if data is None:
        raise Unsupported('create_dataset without data')
    if isinstance(data, Ref):
        p = eng.h(data)
        if not isinstance(p, HObj) or p.cls != L.ND:
            raise Unsupported('dataset of %r' % (p,))
        c = p.attrs['content']
        if c[0] == 'u':
            return ('u', convert(eng, c[1], dtype))
        if c[0] in ('buf', 'ints'):
            if dtype is not None:
                raise Unsupported('dtype of dataset')
            return c
        if c[0] == 'bools' and p.attrs['form'] == 'nat':
            return c
        if c[0] == 'bools':
            return ('bool', c[1][0])
        raise Unsupported('dataset of %s array' % c[0])
    if isinstance(data, (bool, z3.BoolRef)):
        return ('bool', data)
    if is_text(data):
        used('h5py: a text dataset holds the text (no NULs)')
        return ('h5text', data)
    if is_sort(data, U):
        return ('u', convert(eng, data, dtype))
    raise Unsupported('dataset of %r' % (data,))


def convert(eng, u, dtype):
    if dtype is None:
        return u
    if isinstance(dtype, Ref) and eng.h(dtype).cls == libs().NPDTYPE:
        d = eng.h(dtype).attrs['of']
    else:
        d = eng.to_u(dtype)
    used('h5py: data of the dtype of the dataset is stored unchanged (except '
         'the dtypes it does not know, see known_findings.txt)')
    f = eng.uf('h5conv', U, U, U)
    t = f(u, d)
    eng.assume(z3.Implies(ext.u_eq(eng, eng.uf('arr:dtype', U, U)(u), d),
                          t == u))
    return t


def path_of(eng, g, name):
    """Full path of an entry: opaque prefix, slash, name."""
    return Rope(['/', eng.h(g).attrs['path'], '/', name])


def create_dataset(eng, g, name, shape=None, dtype=None, data=None,
                   **kw):
    L = libs()
    maxshape = eng.force(kw.pop('maxshape', None))
    if shape is not None or kw:
        raise Unsupported('create_dataset options')
    if data is None:
        eng.raise_(TypeError, 'One of data, shape or dtype must be given')
    c = content_of(eng, data, eng.force(dtype))
    if maxshape is not None:
        check_maxshape(eng, c, maxshape)
    name = eng.force(name)
    if not is_text(name):
        raise Unsupported('dataset name')
    items = eng.h(g).attrs['items']
    used('h5py: names in a group are unique; creating an existing name '
         'raises ValueError')
    if eng.branch(eng.dict_has(eng.h(items), name)):
        eng.raise_(ValueError, 'name already exists')
    ds = eng.alloc(HObj(L.DATASET, {'content': c, 'name': path_of(
        eng, g, name), 'parent': g}))
    eng.dict_set(items, name, ds)
    return ds


def check_maxshape(eng, c, m):
    used('h5py: maxshape must have an entry per dimension, None or not '
         'below the size of the data, otherwise ValueError')
    if c[0] != 'u':
        raise Unsupported('maxshape')
    u = c[1]
    nd_ = eng.uf('arr:ndim', U, Int)(u)
    sh = eng.uf('arr:shape', U, Int, Int)
    ps = eng.seq_parts(m)
    ok = eng.parts_len(ps) == nd_
    off = 0
    for p in ps:
        if isinstance(p, Seg):
            if p.g is not None or len(ps) > 1:
                raise Unsupported('maxshape')
            j = z3.Int('j!mxs')
            f = entry_ok(eng, p.v(j), sh(u, j))
            ok = z3.And(ok, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < p.n), f)))
        else:
            ok = z3.And(ok, entry_ok(eng, p[1], sh(u, z3.IntVal(off))))
            off += 1
    if not eng.branch(ok):
        eng.raise_(ValueError, 'maxshape')


def entry_ok(eng, m, size):
    if isinstance(m, Alt):
        return z3.Or(*[z3.And(c, entry_ok(eng, x, size))
                       for c, x in m.alts])
    if m is None:
        return z3.BoolVal(True)
    return m >= size


def create_group(eng, g, name):
    name = eng.force(name)
    if not is_text(name):
        raise Unsupported('group name')
    items = eng.h(g).attrs['items']
    if eng.branch(eng.dict_has(eng.h(items), name)):
        eng.raise_(ValueError, 'name already exists')
    full = path_of(eng, g, name)
    n = group(eng, (), full, g, path=eng.text(full))
    eng.dict_set(items, name, n)
    return n


def read(eng, ds):
    L = libs()
    c = eng.h(ds).attrs['content']
    if c[0] == 'bool':
        return c[1]
    if c[0] == 'h5text':
        return eng.alloc(HObj(H5TEXT, {'content': c[1]}))
    if c[0] == 'u':
        if eng.branch(eng.isinst(c[1], External('numpy.number'))):
            return c[1]
        return L.nd(eng, c)
    if c[0] in ('ints', 'buf', 'bools'):
        return L.nd(eng, c)
    raise Unsupported('read of dataset')


def attr(eng, v, p, name):
    L = libs()

    def m(f):
        return NativeBM(name, f)
    if p.cls in (L.GROUP, L.H5FILE):
        items = p.attrs['items']
        if name == 'create_dataset':
            return m(lambda nm, *a, **k: create_dataset(eng, v, nm, *a, **k))
        if name == 'create_group':
            return m(lambda nm: create_group(eng, v, nm))
        if name in ('keys', 'values', 'items', 'get', 'pop'):
            if name == 'pop':
                raise Unsupported('group.pop')
            return eng.getattr(items, name)
        if name == 'clear':
            return m(lambda: eng.put(items, HDict()))
        if name == 'name':
            return p.attrs['name'] if p.attrs['name'] is not None else '/'
        if name == 'parent':
            return p.attrs['parent']
        if name == 'require_group':
            def req(nm):
                ok, x = eng.dict_get(eng.h(items), nm)
                return x if ok else create_group(eng, v, nm)
            return m(req)
        if p.cls == L.H5FILE:
            if name == 'attrs':
                return p.attrs['attrs']
            if name in ('flush', 'close'):
                return m(lambda: eng.files.h5_flush(eng, v, name))
        raise Unsupported('h5py group.' + name)
    if p.cls == L.DATASET:
        c = p.attrs['content']
        if name in ('name', 'parent'):
            return p.attrs[name]
        if name in ('shape', 'dtype', 'ndim', 'size') and c[0] == 'u':
            return ext.arr_attr(eng, c[1], name)
        raise Unsupported('dataset.' + name)
    if p.cls == L.H5ATTRS:
        if name == 'get':
            return eng.getattr(p.attrs['items'], 'get')
    raise Unsupported('h5py attribute ' + name)


def text_attr(eng, v, p, name):
    if name == 'decode':
        def dec(enc='utf8', *a):
            if enc not in ('utf8', 'utf-8', 'UTF-8'):
                raise Unsupported('decode')
            used('h5py: text datasets read as UTF-8 bytes')
            return p.attrs['content']
        return NativeBM(name, dec)
    raise Unsupported('bytes.' + name)


H5TEXT.handler = text_attr


def getitem(eng, v, p, k):
    L = libs()
    if p.cls in (L.GROUP, L.H5FILE, L.H5ATTRS):
        ok, x = eng.dict_get(eng.h(p.attrs['items']), k)
        if not ok:
            used('h5py: reading or deleting a missing name raises KeyError')
            eng.raise_(KeyError, 'no such name')
        return x
    if isinstance(k, tuple) and k == ():
        return read(eng, v)
    if is_sort(k, U) and p.attrs['content'][0] == 'u':
        used(SELECT)
        return eng.arrays.element(eng, p.attrs['content'][1], k)
    raise Unsupported('dataset selection')


def setitem(eng, v, p, k, x):
    L = libs()
    if p.cls == L.H5ATTRS:
        eng.dict_set(p.attrs['items'], k, x)
        return
    if p.cls == L.DATASET and isinstance(k, tuple) and k == ():
        c = p.attrs['content']
        new = content_of(eng, x, None)
        if c[0] == new[0] and c[0] in ('bool', 'h5text'):
            used('h5py: ds[()] = v replaces the value of a scalar dataset')
            eng.put(v, p.with_attr('content', new))
            return
        raise Unsupported('dataset assignment of another kind')
    if p.cls == L.DATASET and is_sort(k, U) and \
            p.attrs['content'][0] == 'u':
        used(SELECT)
        eng.put(v, p.with_attr('content', ('u', eng.arrays.changed(
            eng, p.attrs['content'][1], k, x))))
        return
    raise Unsupported('assignment to group')


def delitem(eng, v, p, k):
    if not eng.dict_del(p.attrs['items'], k):
        used('h5py: reading or deleting a missing name raises KeyError')
        eng.raise_(KeyError, 'no such name')
