"""Case generators: schemas and values, with emphasis on boundaries."""
import datetime as dt
import math

import numpy as np

from dsch import schema
from . import model

INTS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
        'uint64']
FLOATS = ['float32', 'float64']
COMPLEX = ['complex64', 'complex128']

TEXTS = ['', 'a', ' ', 'ab', 'a b', ' lead', 'trail ', 'x\n', '\n', '\t',
         'äöü', '日本語', '\U0001f600', '0', 'None', "quote'\"", 'a' * 31,
         'b' * 300, 'back\\slash', '{}', 'é' * 7]
BLOBS = [b'', b'\0', b'a', b'a\0', b'\0a', b'\xff', b'ab\0\0', b'\0' * 9,
         bytes(range(256)), b'x' * 300, b'\n', b' ']
DATES = [dt.date(1, 1, 1), dt.date(9999, 12, 31), dt.date(2024, 2, 29),
         dt.date(1969, 12, 31), dt.date(2001, 10, 3)]
DATETIMES = [dt.datetime(1, 1, 1), dt.datetime(9999, 12, 31, 23, 59, 59,
                                               999999),
             dt.datetime(2024, 2, 29, 12, 0, 0, 1),
             dt.datetime(1970, 1, 1, 0, 0, 0, 0),
             dt.datetime(2012, 3, 4, 5, 6, 7, 890),
             dt.datetime(2012, 12, 11, 10, 9, 8, 120000)]
TIMES = [dt.time(0), dt.time(23, 59, 59, 999999), dt.time(12, 0, 0, 1),
         dt.time(1, 2, 3, 4), dt.time(0, 0, 59, 120000)]


def scalar_pool(dtype):
    d = np.dtype(dtype)
    if d.kind in 'iu':
        i = np.iinfo(d)
        return [d.type(x) for x in {i.min, i.max, 0, 1, 2, 7,
                                    max(i.min, -1), max(i.min, -3)}]
    if d.kind == 'f':
        f = np.finfo(d)
        return [d.type(x) for x in (0.0, 1.0, -1.0, 0.1, 2.5, -3.0, f.max,
                                    f.min, f.tiny, float('inf'),
                                    float('-inf'), float('nan'))]
    return [d.type(x) for x in (0, 1, 1j, -2.5 + 3j)]


def rand_numbers(rng, dtype, n=3):
    """Numbers with all bits in use."""
    d = np.dtype(dtype)
    if d.kind in 'iu':
        i = np.iinfo(d)
        return [d.type(rng.randint(int(i.min), int(i.max)))
                for _ in range(n)]
    if d.kind == 'f':
        return [d.type(rng.uniform(-1, 1) * 10 ** rng.randint(-4, 4))
                for _ in range(n)]
    return [d.type(complex(rng.gauss(0, 1), rng.gauss(0, 1)))
            for _ in range(n)]


def rand_date(rng):
    return dt.date.fromordinal(rng.randint(1, dt.date.max.toordinal()))


def rand_time(rng):
    return dt.time(rng.randrange(24), rng.randrange(60), rng.randrange(60),
                   rng.choice([0, rng.randrange(10 ** 6), rng.randrange(1000)
                               * 1000]))


def array_of(rng, dtype, shape):
    d = np.dtype(dtype)
    n = 1
    for x in shape:
        n *= x
    if d.kind == 'b':
        a = np.array([rng.random() < .5 for _ in range(n)], dtype=d)
    else:
        pool = scalar_pool(d) + rand_numbers(rng, d)
        a = np.array([rng.choice(pool) for _ in range(n)], dtype=d)
    a = a.reshape(shape)
    if len(shape) and rng.random() < .3:
        # other layouts in memory
        if rng.random() < .5:
            return np.asfortranarray(a)
        return np.repeat(a, 2, axis=-1)[..., ::2]
    return a


def fit(s, a):
    """Bring array elements into the value limits of s."""
    whole = a.dtype.kind in 'iu'
    for x in (s.max_value, s.min_value):
        if whole and x is not None and not (
                np.iinfo(a.dtype).min <= x <= np.iinfo(a.dtype).max):
            # no value outside of the limit, or none within
            return a
    if s.max_value is not None:
        x = math.floor(s.max_value) if whole and math.isfinite(
            s.max_value) else s.max_value
        a = np.where(a > s.max_value, np.array(x).astype(a.dtype), a)
    if s.min_value is not None:
        x = math.ceil(s.min_value) if whole and math.isfinite(
            s.min_value) else s.min_value
        a = np.where(a < s.min_value, np.array(x).astype(a.dtype), a)
    return a


def rand_len(rng, s, lo=0, cap=6):
    """A length within the limits, often at a boundary."""
    mn = s.min_length or 0
    mx = s.max_length
    c = [mn, mn + 1, mn + rng.randrange(cap)]
    if mx is not None:
        c = [x for x in c if x <= mx] + [mx] * (mx < 5000)
    return rng.choice(c)


def valid_value(rng, s, indep=None):
    """A valid value for an item schema node."""
    t = type(s).__name__
    if t == 'Bool':
        return rng.random() < .5
    if t == 'Bytes':
        if rng.random() < .6:
            c = [b for b in BLOBS if model.in_len(s, b)]
            if c:
                return rng.choice(c)
        return bytes(rng.randrange(256) for _ in range(rand_len(rng, s)))
    if t == 'String':
        if rng.random() < .7:
            c = [b for b in TEXTS if model.in_len(s, b)]
            if c:
                return rng.choice(c)
        return ''.join(rng.choice('abc xyzÄß€0189_-') for _ in
                       range(rand_len(rng, s)))
    if t == 'Date':
        return rng.choice(DATES + [rand_date(rng)] * 3)
    if t == 'DateTime':
        return rng.choice(DATETIMES + [dt.datetime.combine(
            rand_date(rng), rand_time(rng))] * 4)
    if t == 'Time':
        return rng.choice(TIMES + [rand_time(rng)] * 3)
    if t == 'Scalar':
        c = [v for v in scalar_pool(s.dtype) + rand_numbers(rng, s.dtype)
             if model.valid_item(s, v)]
        for lim in (s.max_value, s.min_value):
            if lim is not None:
                try:
                    v = np.dtype(s.dtype).type(lim)
                except OverflowError:
                    continue
                if model.valid_item(s, v):
                    c.append(v)
        return rng.choice(c) if c else None
    if t == 'Array':
        shape = []
        for d in range(s.ndim):
            mn = (s.min_shape[d] or 0) if s.min_shape else 0
            mx = s.max_shape[d] if s.max_shape else None
            c = [mn, mn + 1, mn + 2, mn + rng.randrange(5)]
            if mx is not None:
                c = [x for x in c if x <= mx] + [mx]
            n = rng.choice(c)
            if indep and indep[d] is not None:
                n = indep[d]
            shape.append(n)
        return fit(s, array_of(rng, s.dtype, tuple(shape)))
    raise AssertionError(t)


def maybe(rng, *opts):
    return rng.choice(opts)


UNITS = ['', 'V', 'm/s', '\u03a9', '\xb0C', '\xb5m', 'v', ' V', 'V ',
         'a "b"', 'back\\slash', 'x' * 40, '\U0001f600', 'line\nend', '%']


def limits(d):
    """Further value limits, exact in every type of the kind of d."""
    k = np.dtype(d).kind
    if k == 'u':
        return [(0, 1), (5, None), (np.iinfo(d).max // 2, None),
                (None, 2**53 + 1), (.5, 2.5)]
    if k == 'i':
        return [(-3, 5), (None, -1), (-1, None), (-2.5, 1.5),
                (-2**53 - 1, 2**53 + 1)]
    if k == 'f':
        return [(-1.5, .25), (.5, None), (None, -.5), (None, float('inf')),
                (float('-inf'), None), (float('-inf'), float('inf')),
                (-2.0, 2.0), (float('inf'), None)]
    return []


def item_schema(rng, on_create=False, kinds=None):
    t = rng.choice(kinds or ['Bool', 'Bytes', 'String', 'Scalar', 'Array',
                             'Array', 'Date', 'DateTime', 'Time'])
    if t == 'Bool':
        return schema.Bool()
    if t in ('Bytes', 'String'):
        mn, mx = rng.choice([(None, None), (None, None), (0, None), (2, None),
                             (None, 0), (None, 3), (1, 1), (0, 5), (3, 400),
                             (5, None), (2, 2), (7, 9), (4, 31), (None, 300),
                             (31, 31)])
        return getattr(schema, t)(min_length=mn, max_length=mx)
    if t in ('Date', 'DateTime', 'Time'):
        return getattr(schema, t)(set_on_create=on_create
                                  and rng.random() < .5)
    unit = rng.choice(UNITS)
    if t == 'Scalar':
        d = rng.choice(INTS + FLOATS + COMPLEX)
        mn, mx = rng.choice([(None, None), (None, 0), (0, None), (1, 7),
                             (0, 2), (2, 2)] + limits(d))
        if 'complex' in d:
            mn = mx = None
        return schema.Scalar(d, unit=unit, min_value=mn, max_value=mx)
    d = rng.choice(INTS + FLOATS + ['complex128', 'bool'])
    mn, mx = rng.choice([(None, None), (None, None), (None, 0), (0, None),
                         (1, 7), (0, 2)] + limits(d))
    if d in ('bool', 'complex128'):
        mn = mx = None
    ndim = rng.choice([1, 1, 2, 2, 3])
    kw = dict(unit=unit, min_value=mn, max_value=mx)
    r = rng.random()
    lo = tuple(rng.choice([None, 0, 1, 2]) for _ in range(ndim))
    hi = tuple(rng.choice([None, 2, 3, 4]) for _ in range(ndim))
    if r < .3:
        kw['max_shape'] = hi
    elif r < .5:
        kw['min_shape'] = lo
    elif r < .7:
        kw['max_shape'] = hi
        kw['min_shape'] = lo
    elif r < .8:
        fix = tuple(rng.choice([1, 2, 3]) for _ in range(ndim))
        kw['max_shape'] = fix
        kw['min_shape'] = fix
    else:
        kw['ndim'] = ndim
    return schema.Array(d, **kw)


NAMES = ['a', 'b', 'c', 'x', 'y1', 'time', 'voltage', 'long_field_name',
         'data', 'schema', 'A', 'aa', 'item_0', 'name', 'value', 'B2']


def rand_schema(rng, depth=3, on_create=False, top=None, dep=True):
    r = rng.random()
    if top:
        t = top
    elif depth <= 0 or r < .3:
        t = 'item'
    elif r < .75:
        t = 'Compilation'
    else:
        t = 'List'
    if t == 'item':
        return item_schema(rng, on_create)
    if t == 'List':
        mn, mx = rng.choice([(None, None), (None, None), (0, None), (1, None),
                             (None, 3), (2, 4), (None, 0), (1, 1), (3, None),
                         (None, 12), (2, 2)])
        return schema.List(rand_schema(rng, depth - 1, on_create, dep=dep),
                           min_length=mn, max_length=mx)
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 3, 4, 5]))
    subs = {n: rand_schema(rng, depth - 1, on_create, dep=dep) for n in names}
    if dep and rng.random() < .3:
        subs['t'] = schema.Array('float64')
        subs['u'] = schema.Array('float32', depends_on='t')
        if rng.random() < .5:
            subs['s'] = schema.Array('int32', ndim=1)
            subs['w'] = schema.Array(
                'float64', ndim=3 if rng.random() < .5 else 2,
                depends_on=None)
            deps = [rng.choice(['t', 's', None])
                    for _ in range(subs['w'].ndim)]
            subs['w'] = schema.Array('float64', ndim=len(deps),
                                     depends_on=tuple(deps))
        items = list(subs.items())
        rng.shuffle(items)
        subs = dict(items)
    elif rng.random() < .15:
        # the same schema node for several fields
        one = subs[rng.choice(list(subs))]
        for n in rng.sample(NAMES, 2):
            subs[n] = one
    opt = None
    if rng.random() < .5:
        opt = [n for n in subs if rng.random() < .4]
    return schema.Compilation(subs, optionals=opt)


def rand_model(rng, s, fill=.75, ctx=None, no_empty_entries=False,
               no_last_empty=False, valid=True):
    """A random valid data tree (model) for a schema."""
    if model.is_comp(s):
        m = {}
        order = sorted(s.subnodes, key=lambda n: bool(
            getattr(s.subnodes[n], 'depends_on', None)))
        for n in order:
            m[n] = rand_model(rng, s.subnodes[n], fill, m, no_empty_entries,
                              no_last_empty)
        return {n: m[n] for n in s.subnodes}
    if model.is_list(s):
        n = rand_len(rng, s, cap=3)
        out = []
        for i in range(n):
            e = rand_model(rng, s.subnode, fill, None, no_empty_entries,
                           no_last_empty)
            if no_empty_entries or (no_last_empty and i == n - 1):
                for _ in range(20):
                    if not model.empty(s.subnode, e):
                        break
                    e = rand_model(rng, s.subnode, 1, None, no_empty_entries,
                                   no_last_empty)
                if model.empty(s.subnode, e):
                    break
            out.append(e)
        while no_last_empty and out and model.empty(s.subnode, out[-1]):
            out.pop()
        return out
    if rng.random() > fill:
        return None
    indep = None
    if type(s).__name__ == 'Array' and s.depends_on:
        indep = []
        for n in s.depends_on:
            if n is None:
                indep.append(None)
            elif ctx is None or not isinstance(ctx.get(n), np.ndarray):
                return None
            else:
                indep.append(ctx[n].size)
    v = valid_value(rng, s, indep)
    if v is None:
        return None
    if indep and not model.valid_item(s, v, [
            None if n is None else ctx[n] for n in s.depends_on]):
        return None
    return v


def plain(s, m):
    """The model in the form accepted by replace(): empties left out."""
    if model.is_comp(s):
        return {n: plain(s.subnodes[n], v) for n, v in m.items()
                if v is not None}
    if model.is_list(s):
        return [plain(s.subnode, v) for v in m]
    if isinstance(m, np.ndarray):
        return m.copy()
    return m


def fill_node(s, node, m):
    """Put a model into a fresh real node, item by item."""
    if model.is_comp(s):
        for n, v in m.items():
            fill_node(s.subnodes[n], model.child(node, n), v)
    elif model.is_list(s):
        for i, v in enumerate(m):
            node.append()
            fill_node(s.subnode, node[i], v)
    elif m is not None:
        node.value = m.copy() if isinstance(m, np.ndarray) else m
    elif getattr(s, 'set_on_create', False):
        node.clear()
