"""Files (assumed): a file system as a map from paths to contents; what
numpy.savez/load, scipy.io.savemat/loadmat and h5py.File do to it."""
import z3

from .values import *  # noqa: F401,F403
from . import ext
from .ext import used

FS = External('filesystem')
FOREIGN = External('file.content')


def libs():
    from . import libs as m
    return m


# -- the file system ---------------------------------------------------------------

def fs(eng):
    """The file system object of this state."""
    oid = eng.st.marks.get('fs')
    if oid is None:
        r = eng.alloc(HObj(FS, {'files': eng.new_dict(), 'log': ()}))
        eng.st.marks['fs'] = r.oid
        return r
    return Ref(oid)


def put_file(eng, path, content):
    eng.dict_set(eng.h(fs(eng)).attrs['files'], path, content)


def log(eng, *what):
    f = fs(eng)
    p = eng.h(f)
    eng.put(f, p.with_attr('log', p.attrs['log'] + (what,)))


def lookup(eng, path):
    """(known, content) of a path; content None: no such file."""
    path = eng.force(path)
    if not is_text(path):
        raise Unsupported('path %r' % (path,))
    return eng.dict_get(eng.h(eng.h(fs(eng)).attrs['files']), path)


def exists(eng, path):
    used('os.path.exists tells whether the file is there')
    path = eng.force(path)
    ok, c = lookup(eng, path)
    if ok:
        return c is not None
    return eng.uf('exists0', Str, Bool)(eng.text(path))


def kind(eng, path, what):
    """Whether a path is a file, a directory or a link."""
    used('os.path.isfile, isdir: an existing path is one of both; a path '
         'that is written to is a file')
    path = eng.force(path)
    ok, c = lookup(eng, path)
    link = eng.uf('link0', Str, Bool)(eng.text(path))
    if what == 'link':
        return link if not ok or c is None else False
    if ok:
        return c is not None and what == 'file'
    f = eng.and_(eng.uf('exists0', Str, Bool)(eng.text(path)),
                 eng.uf('isfile0', Str, Bool)(eng.text(path)))
    return f if what == 'file' else eng.and_(
        exists(eng, path), eng.not_(f))


def size(eng, path):
    ok, c = lookup(eng, eng.force(path))
    if not eng.branch(exists(eng, path)):
        eng.raise_(FileNotFoundError, 'no such file')
    if ok:
        eng.st.fresh += 1
        n = z3.Int('size!%d' % eng.st.fresh)
    else:
        n = eng.uf('size0', Str, Int)(eng.text(eng.force(path)))
    eng.assume(n >= 0)
    return n


def get(eng, path):
    """Content of an existing file, else raises FileNotFoundError."""
    ok, c = lookup(eng, path)
    if not ok:
        if not eng.branch(eng.uf('exists0', Str, Bool)(eng.text(path))):
            c = None
        else:
            h = eng.isreg.get('foreign_file')
            c = h(eng, path) if h else eng.alloc(HObj(FOREIGN, {
                'path': path}))
            put_file(eng, path, c)
    if c is None:
        eng.raise_(FileNotFoundError, 'no such file')
    return c


def open(eng, path, mode='r', *a, **k):
    L = libs()
    mode = eng.force(mode)
    path = eng.force(path)
    if mode in ('wb', 'bw', 'w+b', 'wb+'):
        used("open(path, 'wb') creates or empties the file")
        put_file(eng, path, eng.alloc(HObj(FOREIGN, {'empty': True})))
        log(eng, 'truncate', path)
        return eng.alloc(HObj(L.FILEOBJ, {'path': path}))
    if mode in ('xb', 'bx'):
        if eng.branch(exists(eng, path)):
            eng.raise_(FileExistsError, 'exists')
        put_file(eng, path, eng.alloc(HObj(FOREIGN, {'empty': True})))
        log(eng, 'create', path)
        return eng.alloc(HObj(L.FILEOBJ, {'path': path}))
    raise Unsupported('open mode %r' % (mode,))


def attr(eng, v, p, name):
    L = libs()

    def m(f):
        return NativeBM(name, f)
    if p.cls == L.FILEOBJ:
        if name == '__enter__':
            return m(lambda: v)
        if name == '__exit__':
            return m(lambda *a: None)
        if name in ('close', 'flush'):
            return m(lambda: None)
        if name == 'write':
            def write(b):
                b = eng.force(b)
                c = b if isinstance(b, Ref) else None
                if c is None:
                    raise Unsupported('write of %r' % (b,))
                put_file(eng, p.attrs['path'], c)
                log(eng, 'write', p.attrs['path'])
            return m(write)
    if p.cls == L.BYTESIO:
        if name in ('getbuffer', 'getvalue', 'read'):
            def buf():
                c = eng.h(v).attrs['content']
                if c is None:
                    raise Unsupported('empty buffer')
                return c
            return m(buf)
        if name == 'seek':
            return m(lambda *a: None)
        if name in ('__enter__',):
            return m(lambda: v)
        if name in ('__exit__', 'close'):
            return m(lambda *a: None)
    if p.cls == L.NPZ:
        if name == '__enter__':
            return m(lambda: v)
        if name in ('__exit__', 'close'):
            return m(lambda *a: None)
        if name == 'files':
            return eng.new_list(ext.dict_view(eng, eng.h(
                p.attrs['items']), 'keys').parts)
        if name in ('items', 'keys', 'values', 'get'):
            return eng.getattr(p.attrs['items'], name)
    raise Unsupported('%s of %r' % (name, p.cls))


def npz_get(eng, v, p, k):
    ok, x = eng.dict_get(eng.h(p.attrs['items']), k)
    if not ok:
        eng.raise_(KeyError, 'not a file in the archive')
    return x


def target(eng, where, suffix):
    """Where savez/savemat writes: a buffer or a path."""
    L = libs()
    where = eng.force(where)
    if isinstance(where, Ref) and isinstance(eng.h(where), HObj) and eng.h(
            where).cls in (L.BYTESIO, L.FILEOBJ):
        return where
    if is_text(where):
        t = ext.suffix_test(eng, where, suffix)
        if eng.branch(t):
            return where
        return Rope([where, suffix])
    raise Unsupported('save target')


def store(eng, where, content, suffix):
    """The save call may fail for reasons of its own, leaving a partial
    result at the target."""
    L = libs()
    where = target(eng, where, suffix)
    broken = eng.choose([True, True]) == 1 if eng.isreg.get(
        'saves_may_fail') else False
    c = eng.alloc(HObj(FOREIGN, {'partial': True})) if broken else content
    if isinstance(where, Ref):
        p = eng.h(where)
        if p.cls == L.BYTESIO:
            eng.put(where, p.with_attr('content', c))
        else:
            put_file(eng, p.attrs['path'], c)
            log(eng, 'write', p.attrs['path'])
    else:
        put_file(eng, where, c)
        log(eng, 'write', where)
    if broken:
        eng.st.marks['save_failed'] = True
        eng.raise_(OSError, 'the library call failed')


# -- numpy -----------------------------------------------------------------------------

NPZFILE = External('npz.content')
MATFILE = External('mat.content')


def npz_value(eng, v):
    """Array read back for a value given to savez."""
    L = libs()
    v = eng.force(v)
    if isinstance(v, Ref) and isinstance(eng.h(v), HObj):
        p = eng.h(v)
        if p.cls == L.ND:
            used('numpy: savez/load return equal arrays (same dtype and '
                 'shape)')
            return eng.alloc(HObj(L.ND, dict(p.attrs, base=None)))
        if p.cls == L.JT:
            return L.nd(eng, ('json', v))
    if is_text(v):
        return L.nd(eng, ('text', v))
    if is_sort(v, U):
        h = eng.isreg.get('npz_u')
        if h is not None:
            return h(eng, v)
        return L.nd(eng, ('u', v))
    raise Unsupported('savez of %r' % (v,))


def savez(eng, where, *args, **kw):
    if args:
        raise Unsupported('positional arrays')
    items = eng.new_dict()
    for k, v in kw.items():
        if isinstance(v, Seg):
            # what is read back of it is up to the contract of flattening
            d = eng.h(items)
            eng.put(items, HDict(d.parts + (v,)))
            continue
        eng.dict_set(items, k, npz_value(eng, v))
    c = eng.alloc(HObj(NPZFILE, {'items': items}))
    store(eng, where, c, '.npz')


def np_load(eng, path, **kw):
    L = libs()
    if kw:
        raise Unsupported('np.load options')
    c = get(eng, path)
    p = eng.h(c)
    if p.cls != NPZFILE:
        raise Unsupported('np.load of another file')
    return eng.alloc(HObj(L.NPZ, {'items': p.attrs['items']}))


# -- scipy -----------------------------------------------------------------------------

def mat_value(eng, v):
    """Array read back for a value given to savemat."""
    L = libs()
    v = v if isinstance(v, Ref) else eng.force(v)
    if isinstance(v, Ref):
        p = eng.h(v)
        if isinstance(p, HDict):
            if not p.parts:
                used('scipy.io: an empty struct is loaded as None')
                return L.nd(eng, ('none',), form='mat')
            out = []
            there = []
            for e in p.parts:
                if isinstance(e, Seg):
                    out.append(reread(eng, e))
                    j = z3.Int('j!ms')
                    there.append(z3.Exists([j], z3.And(
                        0 <= j, j < e.n, *([e.g(j)] if e.g else []))))
                    continue
                there.append(True)
                out.append(('i', e[1], mat_value(eng, e[2])))
            if True not in there and not eng.branch(z3.Or(*there)):
                used('scipy.io: an empty struct is loaded as None')
                return L.nd(eng, ('none',), form='mat')
            used('scipy.io: a dict is loaded as a struct with the same '
                 'fields')
            return L.nd(eng, ('struct', eng.new_dict(out)), form='mat')
        if isinstance(p, HObj) and p.cls == L.ND:
            c = p.attrs['content']
            if c[0] == 'u':
                return L.nd(eng, ('u', eng.arrays.mat_conv(eng, c[1])),
                            form='mat')
            if c[0] in ('ints', 'bools', 'buf', 'text'):
                used('scipy.io: integer, bool and text arrays come back as '
                     'rows with the same elements')
                return L.nd(eng, c, form='mat')
            if c[0] == 'objs':
                parts = []
                for e in eng.h(c[1]).parts:
                    if isinstance(e, Seg):
                        j = z3.Int('j!mc')
                        x = e.v(j)
                        if not is_sort(x, U) or e.g is not None:
                            raise Unsupported('mat cell of %r' % (x,))
                        if eng.branch(z3.Exists([j], z3.And(
                                0 <= j, j < e.n, x == eng.to_u(None)))):
                            eng.raise_(TypeError, 'cannot store None')
                        parts.append(reread(eng, e))
                        continue
                    if eng.force(e[1]) is None:
                        eng.raise_(TypeError, 'cannot store None')
                    parts.append(('i', mat_value(eng, e[1])))
                used('scipy.io: an object array is loaded as a row of its '
                     'elements')
                return L.nd(eng, ('objs', eng.new_list(parts)), form='mat')
        if isinstance(p, HObj) and p.cls == L.JT:
            return L.nd(eng, ('json', v), form='mat')
    if is_text(v):
        return L.nd(eng, ('text', v), form='mat')
    if is_sort(v, U):
        h = eng.isreg.get('mat_u')
        if h is not None:
            return h(eng, v)
        return L.nd(eng, ('u', eng.arrays.mat_conv(eng, v)), form='mat')
    raise Unsupported('savemat of %r' % (v,))


def reread(eng, e):
    """Opaque values: the contract tells what is read back."""
    h = eng.isreg.get('mat_u')
    if h is None or not is_sort(e.v(z3.Int('j!rr')), U):
        raise Unsupported('mat file of unknown values')
    return Seg(e.n, lambda j: h(eng, e.v(j)), e.g, e.k, e.inv, 'reread')


def savemat(eng, where, d, **kw):
    if kw:
        raise Unsupported('savemat options')
    d = eng.force(d)
    out = []
    for e in eng.h(d).parts:
        if isinstance(e, Seg):
            raise Unsupported('savemat of unknown names')
        out.append(('i', e[1], mat_value(eng, e[2])))
    store(eng, where, eng.alloc(HObj(MATFILE, {
        'items': eng.new_dict(out)})), '.mat')


def loadmat(eng, path, **kw):
    if kw:
        raise Unsupported('loadmat options')
    path = eng.force(path)
    if not eng.branch(exists(eng, path)):
        # loadmat tries the name with .mat appended
        path = Rope([path, '.mat'])
    c = get(eng, path)
    p = eng.h(c)
    if p.cls != MATFILE:
        raise Unsupported('loadmat of another file')
    return eng.new_dict(eng.h(p.attrs['items']).parts)


# -- h5py ------------------------------------------------------------------------------

def h5_file(eng, path, mode='r', **kw):
    L = libs()
    mode = eng.force(mode)
    path = eng.force(path)
    if kw:
        raise Unsupported('h5py.File options')
    if mode in ('x', 'w-'):
        used("h5py: File(path, 'x') creates a new file or raises "
             "FileExistsError")
        if eng.branch(exists(eng, path)):
            eng.raise_(FileExistsError, 'file exists')
        f = new_h5(eng)
        put_file(eng, path, f)
        log(eng, 'create', path)
        return f
    if mode == 'w':
        f = new_h5(eng)
        put_file(eng, path, f)
        log(eng, 'truncate', path)
        return f
    if mode == 'a' and not eng.branch(exists(eng, path)):
        f = new_h5(eng)
        put_file(eng, path, f)
        log(eng, 'create', path)
        return f
    if mode in ('r+', 'a'):
        used("h5py: File(path, 'r+') opens what was flushed to it")
        c = get(eng, path)
        if eng.h(c).cls != L.H5FILE:
            raise Unsupported('h5py.File of another file')
        return c
    raise Unsupported('h5py mode %r' % (mode,))


def new_h5(eng):
    L = libs()
    f = eng.h5.group(eng, (), cls=L.H5FILE, path=eng.lit(''))
    a = eng.alloc(HObj(L.H5ATTRS, {'items': eng.new_dict()}))
    eng.put(f, eng.h(f).with_attr('attrs', a))
    return f


def h5_flush(eng, f, name):
    log(eng, name, f.oid)


def install():
    L = libs()
    L.CALLS['numpy.savez'] = savez
    L.CALLS['numpy.load'] = np_load
    L.CALLS['scipy.io.savemat'] = savemat
    L.CALLS['scipy.io.loadmat'] = loadmat
    L.CALLS['h5py.File'] = h5_file
    L.CALLS['io.BytesIO'] = lambda eng: eng.alloc(HObj(
        L.BYTESIO, {'content': None}))
