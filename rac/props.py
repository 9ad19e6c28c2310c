"""Run-time contract checks, one generator of cases per property.

Each generator yields (case id, function(ctx, rng)).  The case id and the seed
determine the case completely, so a failing case can be repeated.
"""
import datetime as dt
import itertools
import json
import os
import shutil

import numpy as np

import dsch
from dsch import exceptions as E
from dsch import frontend, schema
from . import gen, model
from .core import Fail, Skip, expect, raises

BACKENDS = ['inmem', 'npz', 'mat', 'hdf5']
FILES = ['npz', 'mat', 'hdf5']
EXT = {'npz': 'npz', 'mat': 'mat', 'hdf5': 'h5'}


def N(ctx, quick, thorough):
    return thorough if ctx.tier == 'thorough' else quick


def new(ctx, be, s):
    if be == 'inmem':
        return dsch.create('::inmem::', s)
    return dsch.create(ctx.path(EXT[be]), s)


def reload(st):
    """Close a storage and load its file again."""
    p = st.storage_path
    close(st)
    return dsch.load(p, force=True)


def load_copy(c, st):
    """Load a copy of the file of a storage that stays open."""
    p = c.path(os.path.splitext(st.storage_path)[1].lstrip('.'))
    shutil.copyfile(st.storage_path, p)
    return dsch.load(p, force=True)


def close(st):
    f = getattr(st, '_storage', None)
    if f is not None and hasattr(f, 'close'):
        f.flush()
        f.close()


def read(st):
    return model.read(st.schema_node, st.data)


def same_now(st, m, what):
    got = read(st)
    if not model.same_tree(st.schema_node, m, got):
        raise Fail('%s: expected %r, got %r' % (what, m, got))


def rand_backend(rng, files=False):
    return rng.choice(FILES if files else BACKENDS)


def savable(be, s, m):
    return not model.has_empty_entry(s, m, last_only=(be != 'mat'))


def filled(ctx, rng, be, depth=3, top=None, fill=None, on_create=False,
           saveable=True, s=None):
    """A storage of a random schema, filled with a random valid model."""
    fill = rng.choice([0, .3, .8, .8, 1, 1]) if fill is None else fill
    given = s
    for _ in range(30):
        if given is None:
            s = gen.rand_schema(rng, depth, on_create=on_create, top=top)
        m = gen.rand_model(rng, s, fill, no_last_empty=saveable,
                           no_empty_entries=be == 'mat' and saveable)
        if not model.invalid_nodes(s, m):
            break
        # e.g. a list that needs entries, but all of them came out empty
        fill = (fill + 1) / 2
    else:
        raise Skip()
    ctx.note = '%s %s = %r' % (be, model.describe(s), m)
    st = new(ctx, be, s)
    gen.fill_node(s, st.data, m)
    return st, s, m


# -- P01, P02: schemas --------------------------------------------------------

def variants(rng, s):
    """The same schema with dtypes etc. given in another way."""
    return s


ITEM_SCHEMAS = [
    lambda: schema.Bool(),
    lambda: schema.Bytes(), lambda: schema.Bytes(0, 0),
    lambda: schema.Bytes(min_length=3), lambda: schema.Bytes(max_length=4),
    lambda: schema.String(), lambda: schema.String(1, 2),
    lambda: schema.String(min_length=3), lambda: schema.String(max_length=0),
    lambda: schema.Date(), lambda: schema.Date(set_on_create=True),
    lambda: schema.DateTime(), lambda: schema.DateTime(set_on_create=True),
    lambda: schema.Time(), lambda: schema.Time(set_on_create=True),
    lambda: schema.Scalar('float64'), lambda: schema.Scalar(float),
    lambda: schema.Scalar(np.int16), lambda: schema.Scalar(np.dtype('>f4')),
    lambda: schema.Scalar('int32', unit='V', max_value=0, min_value=-5),
    lambda: schema.Scalar('uint8', min_value=0),
    lambda: schema.Scalar('float32', max_value=2.5),
    lambda: schema.Array('float64'), lambda: schema.Array(np.float32),
    lambda: schema.Array(np.dtype('int8'), ndim=0),
    lambda: schema.Array('int32', ndim=3),
    lambda: schema.Array('int32', max_shape=(3, None)),
    lambda: schema.Array('int32', min_shape=(0, 2, None)),
    lambda: schema.Array('int32', max_shape=(3,), min_shape=(3,)),
    lambda: schema.Array('int32', max_shape=(0,), min_shape=(0,)),
    lambda: schema.Array('f', unit='m', max_value=0, min_value=-1.5),
    lambda: schema.Array('bool', depends_on='t'),
    lambda: schema.Array('f8', ndim=2, depends_on=('t', None)),
    lambda: schema.Array('f8', ndim=3, depends_on=(None, 't', 'u')),
    lambda: schema.Array('f8', ndim=2, depends_on=['a', 'b']),
    lambda: schema.Scalar('f8', unit='\u03a9'),
    lambda: schema.Scalar('f8', unit='\xb0C'),
    lambda: schema.Scalar('f8', unit='\xb5m'),
    lambda: schema.Scalar('f8', unit='\u03bcm'),
    lambda: schema.Scalar('f8', unit='a "b" \\ \n', max_value=2**53),
    lambda: schema.Scalar('f8', max_value=float('inf')),
    lambda: schema.Scalar('f8', max_value=float('-inf')),
    lambda: schema.Scalar('i8', max_value=2**53 + 1),
    lambda: schema.Scalar('i8', min_value=-2**63, max_value=2**63 - 1),
    lambda: schema.Scalar('f8', min_value=1e-300, max_value=.1),
    lambda: schema.Array('f8', unit='v', min_value=float('-inf')),
    lambda: schema.Array('f8', unit='V ', max_value=float('inf')),
    lambda: schema.Array('f8', unit='V'),
    lambda: schema.Array('i8', max_value=2**53 + 1),
    lambda: schema.Array('f8', depends_on='\xe4'),
    lambda: schema.String(max_length=2**40), lambda: schema.Bytes(0),
]


def nested(items):
    out = list(items)
    out += [lambda i=i: schema.List(i()) for i in items]
    out += [lambda i=i, j=j: schema.Compilation({'a': i(), 'b': j()},
                                                optionals=['b'])
            for i, j in zip(items, items[1:] + items[:1])]
    out += [
        lambda: schema.Compilation({}),
        lambda: schema.Compilation({'x': schema.Bool()}, optionals=['x']),
        lambda: schema.List(schema.List(schema.List(schema.Bool(),
                                                    max_length=0))),
        lambda: schema.List(schema.Compilation({'a': schema.List(
            schema.Compilation({'b': schema.String(max_length=3)}),
            min_length=1)}), max_length=4, min_length=2),
    ]
    return out


def round_trip(ctx, rng, s):
    ctx.note = model.describe(s)
    want = model.config(s)
    d = s.to_dict()
    j = s.to_json()
    expect(isinstance(j, str), 'to_json did not return a str')
    for form, back in (('dict', schema.node_from_dict(d)),
                       ('json', schema.node_from_json(j)),
                       ('class.from_dict', type(s).from_dict(
                           json.loads(j)))):
        expect(model.config(back) == want, '%s round trip: %r instead of %r'
               % (form, model.config(back), want))
        expect(back.to_json() == j, '%s round trip: JSON text differs' % form)
    expect(model.config(s) == want, 'serialising changed the schema')
    back = schema.node_from_json(j)
    for _ in range(3):
        accept_same(ctx, rng, s, back)


def accepts(s, v, indep=()):
    try:
        if type(s).__name__ == 'Array':
            s.validate(v, indep)
        else:
            s.validate(v)
    except E.ValidationError:
        return False
    return True


def accept_same(ctx, rng, s, t):
    """Both schemas accept and reject the same values."""
    if model.is_comp(s):
        for n in s.subnodes:
            accept_same(ctx, rng, s.subnodes[n], t.subnodes[n])
        return
    if model.is_list(s):
        for n in range(5):
            expect(accepts(s, [None] * n) == accepts(t, [None] * n),
                   'list of length %d judged differently' % n)
        accept_same(ctx, rng, s.subnode, t.subnode)
        return
    vals = rng.sample(odd_values(), 6)
    if '>' not in str(np.dtype(getattr(s, 'dtype', 'i1'))):
        # NumPy scalars always have native byte order
        vals.append(gen.valid_value(rng, s))
    if type(s).__name__ in ('Bytes', 'String'):
        vals += [gen.TEXTS[i] for i in range(6)] + gen.BLOBS[:6]
    for v in vals:
        indep = None
        if type(s).__name__ == 'Array' and s.depends_on:
            indep = [None if n is None else np.zeros(1)
                     for n in s.depends_on]
        expect(accepts(s, v, indep) == accepts(t, v, indep),
               'value %r judged differently' % (v,))


def odd_values():
    return [None, True, False, 0, 1, -1, 2.5, 'x', '', b'x', b'', [], {}, (),
            bytearray(b'ab'), np.bool_(True), np.int8(1), np.int32(1),
            np.int64(3), np.float32(1), np.float64(1), np.complex64(1),
            np.str_('ab'), np.bytes_(b'ab'), np.uint8(0), np.longdouble(1),
            np.datetime64('2020-01-01'), np.zeros(1), np.zeros((1, 1)),
            np.array(1.0), np.zeros(0), np.array([1], dtype='int32'),
            np.array([True]), dt.date(2020, 1, 2),
            dt.datetime(2020, 1, 2, 3, 4), dt.time(1, 2), dt.timedelta(1),
            object(), int, bool]


def P01(ctx):
    for i, mk in enumerate(nested(ITEM_SCHEMAS)):
        yield 'table:%d' % i, lambda c, r, mk=mk: round_trip(c, r, mk())
    for i in range(N(ctx, 500, 10000)):
        yield 'random:%d' % i, lambda c, r: round_trip(
            c, r, gen.rand_schema(r, r.choice([1, 2, 3, 4]), on_create=True))


def shuffled(rng, s):
    """An equal schema, built anew, with compilation fields reordered."""
    t = type(s).__name__
    if t == 'Compilation':
        items = [(n, shuffled(rng, c)) for n, c in s.subnodes.items()]
        rng.shuffle(items)
        return schema.Compilation(dict(items), optionals=list(s.optionals))
    if t == 'List':
        return schema.List(shuffled(rng, s.subnode), max_length=s.max_length,
                           min_length=s.min_length)
    kw = {o: getattr(s, o) for o in model.OPTIONS[t]}
    if t == 'Array':
        for o in ('max_shape', 'min_shape', 'depends_on'):
            if kw[o] is not None and rng.random() < .5:
                kw[o] = rng.choice([tuple, list])(kw[o])
    return type(s)(**kw)


def mutated(rng, s):
    """A schema that differs from s in exactly one option or node type."""
    t = type(s).__name__
    kids = list(s.subnodes) if t == 'Compilation' else \
        [None] if t == 'List' else []
    if kids and rng.random() < .7:
        k = rng.choice(kids)
        if t == 'List':
            return schema.List(mutated(rng, s.subnode),
                               max_length=s.max_length,
                               min_length=s.min_length)
        subs = {n: (mutated(rng, c) if n == k else shuffled(rng, c))
                for n, c in s.subnodes.items()}
        return schema.Compilation(subs, optionals=list(s.optionals))
    if t == 'Compilation':
        subs = {n: shuffled(rng, c) for n, c in s.subnodes.items()}
        opt = list(s.optionals)
        how = rng.choice(['add', 'drop', 'rename', 'opt'])
        if how == 'add' or not subs:
            subs['zz_new'] = schema.Bool()
        elif how == 'drop':
            n = rng.choice(sorted(subs))
            del subs[n]
        elif how == 'rename':
            n = rng.choice(sorted(subs))
            subs['zz_' + n] = subs.pop(n)
        else:
            n = rng.choice(sorted(subs))
            opt = [x for x in opt if x != n] if n in opt else opt + [n]
        return schema.Compilation(subs, optionals=opt)
    if t == 'List':
        o = rng.choice(['max_length', 'min_length'])
        kw = dict(max_length=s.max_length, min_length=s.min_length)
        kw[o] = rng.choice([x for x in (None, 0, 1, 5) if x != kw[o]])
        return schema.List(shuffled(rng, s.subnode), **kw)
    if t == 'Bool' or rng.random() < .15:
        # same options, other type
        if t in ('Date', 'DateTime', 'Time'):
            o = rng.choice([x for x in ('Date', 'DateTime', 'Time')
                            if x != t])
            return getattr(schema, o)(set_on_create=s.set_on_create)
        if t in ('Bytes', 'String'):
            o = {'Bytes': 'String', 'String': 'Bytes'}[t]
            return getattr(schema, o)(s.min_length, s.max_length)
        return schema.Date() if t == 'Bool' else schema.Bool()
    kw = {o: getattr(s, o) for o in model.OPTIONS[t]}
    opts = list(model.OPTIONS[t])
    if 'dtype' in opts and np.dtype(s.dtype).kind in 'bc':
        opts = [o for o in opts if o not in ('min_value', 'max_value')]
    o = rng.choice(opts)
    if o == 'set_on_create':
        kw[o] = not kw[o]
    elif o == 'dtype':
        kw[o] = rng.choice([d for d in gen.INTS + gen.FLOATS
                            if np.dtype(d) != np.dtype(kw[o])])
    elif o == 'unit':
        u = kw[o]
        kw[o] = rng.choice([x for x in (
            '', 'V', 'A', u + ' ', ' ' + u, u + u, u.swapcase(), u[1:],
            u[:-1], u + '\xb5', '\u03a9' + u, u + '\0', u.strip(),
            u + '\n', u.replace('\xb5', '\u03bc').replace(
                '\u03a9', '\u2126')) if x != u])
    elif o in ('min_length', 'max_length', 'min_value', 'max_value'):
        c = [None, 0, 1, 5]
        if kw[o] is not None:
            c += [kw[o] + 1, -kw[o]]
            if o.endswith('value'):
                c += [kw[o] + .5, kw[o] * 2, 2**53, 2**64 + 1,
                      float('inf'), float('-inf')]
        kw[o] = rng.choice([x for x in c if x != kw[o]])
    elif o in ('max_shape', 'min_shape'):
        old = kw[o]
        n = s.ndim or 1
        if old is None:
            kw[o] = tuple(rng.choice([None, 1, 2]) for _ in range(n))
        else:
            i = rng.randrange(len(old))
            kw[o] = tuple(rng.choice([x for x in (None, 0, 1, 9) if x != y])
                          if k == i else y for k, y in enumerate(old))
        kw.pop('ndim')
    elif o == 'ndim':
        kw['ndim'] = s.ndim + 1
        kw['max_shape'] = kw['min_shape'] = kw['depends_on'] = None
    else:
        old = kw[o]
        n = s.ndim
        if n == 0:
            kw['unit'] += 'x'
        else:
            kw[o] = tuple('q' if k == 0 else None for k in range(n)) \
                if old is None or old[0] != 'q' else None
    return type(s)(**kw)


class Odd:
    def to_dict(self):
        raise RuntimeError('must not be called')

    def to_json(self):
        return schema.Bool().to_json()

    def hash(self):
        return schema.Bool().hash()


def check_same(a, b):
    expect(a == b and b == a, 'equal schemas compare unequal: %s / %s'
           % (model.describe(a), model.describe(b)))
    expect(not (a != b), 'equal schemas compare !=')
    expect(a.hash() == b.hash(), 'equal schemas have different hashes: %s'
           % model.describe(a))


def check_differ(a, b):
    expect(not (a == b) and not (b == a) and a != b,
           'different schemas compare equal: %s / %s'
           % (model.describe(a), model.describe(b)))
    expect(a.hash() != b.hash(), 'different schemas have the same hash: '
           '%s / %s' % (model.describe(a), model.describe(b)))


def P02(ctx):
    def pair(c, r, s):
        c.note = model.describe(s)
        check_same(s, shuffled(r, s))
        check_same(s, schema.node_from_json(s.to_json()))
        for _ in range(4):
            m = mutated(r, s)
            if model.config(m) != model.config(s):
                check_differ(s, m)

    def other(c, r, s):
        c.note = model.describe(s)
        for o in odd_values() + [Odd(), type(s), schema.SchemaNode,
                                 s.to_dict(), s.to_json(), s.hash(),
                                 np.zeros(3)]:
            if isinstance(o, np.ndarray):
                continue
            expect((s == o) is False, 'schema node equals %r' % (o,))
            expect((s != o) is True, 'schema node equals (!=) %r' % (o,))

    def cross(c, r):
        tab = [mk() for mk in nested(ITEM_SCHEMAS)]
        for a, b in itertools.product(tab, tab):
            c.note = model.describe(a) + ' / ' + model.describe(b)
            if model.config(a) == model.config(b):
                continue
            if not (a == b) and a.hash() != b.hash():
                continue
            check_differ(a, b)

    for i, mk in enumerate(nested(ITEM_SCHEMAS)):
        yield 'pair:%d' % i, lambda c, r, mk=mk: pair(c, r, mk())
        yield 'other:%d' % i, lambda c, r, mk=mk: other(c, r, mk())
    yield 'cross:0', cross
    for i in range(N(ctx, 600, 12000)):
        yield 'random:%d' % i, lambda c, r: pair(
            c, r, gen.rand_schema(r, r.choice([0, 1, 2, 3]), on_create=True))


# -- P03, P04: item validation -----------------------------------------------

def check_item(c, s, v, indep=None):
    want = model.valid_item(s, v, indep)
    c.note = '%s, value %r' % (model.describe(s), v)
    if indep:
        c.note += ', independent %r' % (indep,)
    try:
        if type(s).__name__ == 'Array':
            s.validate(v, indep if indep is not None else [])
        else:
            s.validate(v)
        got = True
    except E.ValidationError:
        got = False
    expect(got == want, 'value %r is %s but should be %s' % (
        v, 'accepted' if got else 'rejected',
        'accepted' if want else 'rejected'))


def check_item_node(c, s, v, be):
    """The data node agrees, if the backend can hold the value."""
    st = new(c, be, s)
    try:
        st.data.replace(v)
    except Exception:
        return
    if st.data.empty:
        return
    got_v = st.data.value
    want = model.valid_item(s, got_v)
    try:
        st.data.validate()
        got = True
    except E.ValidationError:
        got = False
    close(st)
    expect(got == want, '%s node: value %r is %s' % (
        be, v, 'accepted' if got else 'rejected'))


def P03(ctx):
    lens = [None, 0, 1, 2, 5]
    for mn, mx in itertools.product(lens, lens):
        def lim(c, r, mn=mn, mx=mx):
            for n in range(8):
                check_item(c, schema.Bytes(mn, mx), b'\0' * n)
                check_item(c, schema.String(mn, mx), 'x' * n)
                check_item(c, schema.String(mn, mx), '\U0001f600' * n)
        yield 'len:%s,%s' % (mn, mx), lim
    for mn, mx in itertools.product(lens[1:], [None, 3]):
        def limn(c, r, mn=mn, mx=mx):
            for be in BACKENDS:
                for n in range(7):
                    check_item_node(c, schema.Bytes(mn, mx), b'a' * n, be)
                    check_item_node(c, schema.String(mn, mx), 'x' * n, be)
        yield 'lennode:%s,%s' % (mn, mx), limn
    for cls in ('Bool', 'Bytes', 'String', 'Date', 'DateTime', 'Time'):
        def odd(c, r, cls=cls):
            s = getattr(schema, cls)()
            for v in odd_values():
                check_item(c, s, v)
                check_item_node(c, s, v, 'inmem')
            for v in gen.TEXTS + gen.BLOBS + gen.DATES + gen.DATETIMES \
                    + gen.TIMES:
                check_item(c, s, v)
                check_item_node(c, s, v, 'inmem')
        yield 'type:' + cls, odd

    def biglen(c, r):
        for n in list(range(0, 70)) + [100, 127, 128, 129, 255, 256, 257,
                                       1000, 1024, 4096, 65535, 65536]:
            for d in (-1, 0, 1):
                if n + d < 0:
                    continue
                check_item(c, schema.String(n, n), 'x' * (n + d))
                check_item(c, schema.String(None, n), 'x' * (n + d))
                check_item(c, schema.String(n), 'x' * (n + d))
                check_item(c, schema.Bytes(n, n), b'x' * (n + d))
                check_item(c, schema.Bytes(None, n), b'x' * (n + d))
                check_item(c, schema.Bytes(n), b'x' * (n + d))
    yield 'biglen:0', biglen

    def texts(c, r):
        """The length of a text counts each of its characters."""
        for v in gen.TEXTS + gen.BLOBS:
            cls = schema.String if isinstance(v, str) else schema.Bytes
            for k in {len(v) - 1, len(v), len(v) + 1}:
                if k >= 0:
                    check_item(c, cls(k), v)
                    check_item(c, cls(None, k), v)
                    check_item(c, cls(k, k), v)
    yield 'texts:0', texts
    for d in gen.INTS + gen.FLOATS + ['complex64', 'complex128', 'float16',
                                      '>i4', '>f8']:
        def scal(c, r, d=d):
            vals = gen.scalar_pool(d) + [v for v in odd_values()]
            for x in (-2, -1, 0, 1, 2, 3, 7):
                try:
                    vals.append(np.dtype(d).type(x))
                except OverflowError:
                    pass
            lims = [None, 0, 1, -1, 2, 2.5]
            if np.dtype(d).kind == 'c':
                lims = [None]
            for mn, mx in itertools.product(lims, lims):
                s = schema.Scalar(d, min_value=mn, max_value=mx)
                for v in vals:
                    if isinstance(v, np.complexfloating) and not (
                            mn is None and mx is None):
                        continue
                    check_item(c, s, v)
        yield 'scalar:' + d, scal

        def scaln(c, r, d=d):
            for mn, mx in [(None, None), (0, None), (None, 0), (1, 2)]:
                if np.dtype(d).kind == 'c' and (mn, mx) != (None, None):
                    continue
                s = schema.Scalar(d, min_value=mn, max_value=mx)
                for v in gen.scalar_pool(d):
                    for be in BACKENDS:
                        check_item_node(c, s, v, be)
        if d not in ('float16', '>i4', '>f8'):
            yield 'scalarnode:' + d, scaln
    for i in range(N(ctx, 300, 6000)):
        def rnd(c, r):
            s = gen.item_schema(r, kinds=['Bytes', 'String', 'Scalar'])
            mn, mx = sorted([r.randrange(0, 40), r.randrange(0, 40)])
            if type(s).__name__ == 'Scalar':
                if np.dtype(s.dtype).kind == 'c':
                    return
                s.min_value = r.choice([None, mn, -mn, mn + .5])
                s.max_value = r.choice([None, mx, mx + .25])
                for x in range(41):
                    check_item(c, s, np.dtype(s.dtype).type(x))
            else:
                s.min_length = r.choice([None, mn])
                s.max_length = r.choice([None, mx])
                for n in range(42):
                    check_item(c, s, ('x' if type(s).__name__ == 'String'
                                      else b'x') * n)
        yield 'random:%d' % i, rnd


def P04(ctx):
    ent = [None, 0, 1, 2, 3]

    def check(c, s, a, indep=None):
        check_item(c, s, a, indep)

    def one(c, r):
        for mx, mn in itertools.product([None] + [(e,) for e in ent],
                                        [None] + [(e,) for e in ent]):
            s = schema.Array('int32', max_shape=mx, min_shape=mn)
            for n in range(5):
                check(c, s, np.zeros(n, 'int32'))
            check(c, s, np.zeros((1, 1), 'int32'))
            check(c, s, np.zeros((), 'int32'))
            check(c, s, np.zeros(1, 'int64'))
    yield 'shape1:0', one
    for a in ent:
        def two(c, r, a=a):
            for b, which in itertools.product(ent, ('max', 'min')):
                s = schema.Array('f8', **{which + '_shape': (a, b)})
                for sh in itertools.product(range(5), range(5)):
                    check(c, s, np.zeros(sh))
        yield 'shape2:%s' % a, two

    def typ(c, r):
        for d in ['int8', 'int32', 'int64', 'uint8', 'float32', 'float64',
                  'complex128', 'bool', '>f4', '<f4', 'U3']:
            for s in (schema.Array(d), schema.Array(np.dtype(d))):
                for v in odd_values() + [
                        np.zeros(2, e) for e in
                        ['int8', 'int32', 'int64', 'uint8', 'float32',
                         'float64', 'complex128', 'bool', '>f4', 'U3', 'U2',
                         'O']]:
                    check(c, s, v)
                check(c, s, [1, 2])
    yield 'dtype:0', typ

    def dims(c, r):
        for n in range(5):
            s = schema.Array('int32', ndim=n)
            for k in range(5):
                check(c, s, np.zeros((1,) * k, 'int32'))
                check(c, s, np.zeros((2,) * k, 'int32'))
                check(c, s, np.zeros((0,) * k, 'int32'))
    yield 'ndim:0', dims

    def vals(c, r):
        for d, mn, mx in itertools.product(['int32', 'f8'],
                                           [None, 0, -1, 1, 1.5],
                                           [None, 0, 1, 2, 1.5]):
            s = schema.Array(d, min_value=mn, max_value=mx)
            for v in itertools.product([-2, -1, 0, 1, 2, 3], repeat=2):
                check(c, s, np.array(v, d))
            check(c, s, np.zeros(0, d))
            s2 = schema.Array(d, ndim=2, min_value=mn, max_value=mx)
            for i in range(6):
                for x in (-2, 3):
                    a = np.ones((2, 3), d)
                    a.flat[i] = x
                    check(c, s2, a)
        s = schema.Array('f8', min_value=0, max_value=1)
        for v in ([np.nan], [np.nan, 2], [2, np.nan], [np.inf], [-np.inf],
                  [np.nan, -1], [.5, np.nan]):
            check(c, s, np.array(v))
    yield 'values:0', vals

    def big(c, r):
        for n in (1, 9, 10, 16, 17, 64, 100, 101, 999, 1000, 1001, 5000):
            s = schema.Array('int32', max_value=5, min_value=-5)
            for pos in {0, n // 2, n - 1}:
                for x in (5, 6, -5, -6):
                    a = np.zeros(n, 'int32')
                    a[pos] = x
                    check(c, s, a)
            for k in (n - 1, n, n + 1):
                check(c, schema.Array('int8', max_shape=(n,)),
                      np.zeros(k, 'int8'))
                check(c, schema.Array('int8', min_shape=(n,)),
                      np.zeros(k, 'int8'))
                check(c, schema.Array('int8', max_shape=(n,),
                                      min_shape=(n,)), np.zeros(k, 'int8'))
                check(c, schema.Array('int8', depends_on='t'),
                      np.zeros(k, 'int8'), [np.zeros(n)])
    yield 'big:0', big
    for nd in (1, 2, 3):
        def dep(c, r, nd=nd):
            for names in itertools.product(['t', 's', None], repeat=nd):
                s = schema.Array('f8', ndim=nd, depends_on=names)
                for sh in itertools.product([0, 1, 2, 3], repeat=nd):
                    for it in ({'t': np.zeros(2), 's': np.zeros(3)},
                               {'t': np.zeros(0), 's': np.zeros(1)}):
                        ind = [None if n is None else it[n] for n in names]
                        check(c, s, np.zeros(sh), ind)
        yield 'depends:%d' % nd, dep
    for be in BACKENDS:
        def depn(c, r, be=be):
            """Through data nodes: the right field for the right dimension."""
            for names in [('t',), ('t', 's'), ('s', 't'), ('t', None),
                          (None, 't'), (None, 's', 't'), ('t', 't'),
                          (None, None), ('t', None, 's')]:
                s = schema.Compilation({
                    'u': schema.Array('f8', ndim=len(names),
                                      depends_on=names),
                    't': schema.Array('f8'), 's': schema.Array('int32')})
                st = new(c, be, s)
                st.data.t.value = np.zeros(2)
                st.data.s.value = np.zeros(3, 'int32')
                ind = [None if n is None else {'t': 2, 's': 3}[n]
                       for n in names]
                for sh in itertools.product([1, 2, 3], repeat=len(names)):
                    a = np.ones(sh)
                    st.data.u.value = a
                    ok = all(i is None or i == k for i, k in zip(ind, sh))
                    c.note = '%s depends_on=%r shape=%r t:2 s:3' % (
                        be, names, sh)
                    try:
                        st.data.u.validate()
                        got = True
                    except E.ValidationError:
                        got = False
                    expect(got == ok, 'array of shape %r is %s' % (
                        sh, 'accepted' if got else 'rejected'))
                close(st)
        yield 'depnode:' + be, depn
    for i in range(N(ctx, 1500, 30000)):
        def rnd(c, r):
            s = gen.item_schema(r, kinds=['Array'])
            if np.dtype(s.dtype).kind == 'c':
                s.max_value = s.min_value = None
            indep = None
            if r.random() < .4 and s.ndim:
                s.depends_on = tuple(r.choice(['t', 's', None])
                                     for _ in range(s.ndim))
                indep = [None if n is None else np.zeros(r.choice([0, 1, 2,
                                                                   3]))
                         for n in s.depends_on]
            for _ in range(6):
                nd = s.ndim if r.random() < .9 else r.randrange(4)
                sh = tuple(r.choice([0, 1, 2, 3, 4, 5]) for _ in range(nd))
                if r.random() < .5 and nd == s.ndim:
                    sh = gen.valid_value(r, s, [
                        None if x is None else x.size for x in indep]
                        if indep else None).shape
                d = s.dtype if r.random() < .9 else 'int16'
                if s.max_value is not None or s.min_value is not None:
                    if np.dtype(d).kind == 'c':
                        continue
                a = gen.array_of(r, d, sh)
                if r.random() < .6:
                    a = gen.fit(s, a)
                check(c, s, a, indep)
        yield 'random:%d' % i, rnd


# -- P05, P06: trees ----------------------------------------------------------

def invalidate(rng, s, m, be):
    """Make some nodes of a model invalid; returns whether it tried."""
    if model.is_comp(s):
        names = list(m)
        rng.shuffle(names)
        done = False
        for n in names:
            if rng.random() < .7:
                c = s.subnodes[n]
                if model.is_item(c):
                    v = bad_value(rng, c, be)
                    if v is not None:
                        m[n] = v
                        done = True
                else:
                    done = invalidate(rng, c, m[n], be) or done
            if done and rng.random() < .6:
                break
        return done
    if model.is_list(s):
        if rng.random() < .3:
            if s.max_length is not None and s.max_length < 5:
                while len(m) <= s.max_length:
                    m.append(gen.rand_model(rng, s.subnode, 1))
                return True
            if s.min_length:
                del m[s.min_length - 1:]
                return True
        idx = list(range(len(m)))
        rng.shuffle(idx)
        for i in idx:
            if model.is_item(s.subnode):
                v = bad_value(rng, s.subnode, be)
                if v is not None:
                    m[i] = v
                    return True
            elif invalidate(rng, s.subnode, m[i], be):
                return True
    return False


def bad_value(rng, s, be):
    """An invalid value that the backend can hold as it is."""
    t = type(s).__name__
    for _ in range(12):
        v = None
        if t in ('Bytes', 'String'):
            v = (b'z' if t == 'Bytes' else 'z') * rng.choice([0, 1, 2, 4, 9])
        elif t == 'Scalar':
            v = rng.choice(gen.scalar_pool(s.dtype))
        elif t == 'Array':
            nd = s.ndim
            if not (s.max_shape or s.min_shape) and be != 'hdf5' \
                    and be != 'mat' and rng.random() < .3:
                nd += 1
            v = gen.array_of(rng, s.dtype, tuple(
                rng.choice([0, 1, 2, 3, 5]) for _ in range(nd)))
            if be == 'hdf5' and s.max_shape and any(
                    x is not None and y > x
                    for x, y in zip(s.max_shape, v.shape)):
                continue
        elif be == 'inmem' and t in ('Bool', 'Date', 'DateTime', 'Time'):
            v = rng.choice([1, 'x', 2.5])
        if v is not None and not model.valid_item(s, v, None if not getattr(
                s, 'depends_on', None) else [np.zeros(99)] * s.ndim):
            if getattr(s, 'depends_on', None):
                continue
            return v
    return None


def check_validation(c, st, s, m):
    bad = model.invalid_nodes(s, m)
    for who, func in (('node', st.data.validate), ('storage', st.validate)):
        try:
            func()
            err = None
        except (E.ValidationError, E.SubnodeValidationError) as e:
            err = e
        if not bad:
            expect(err is None, '%s.validate() raised for valid data: %s'
                   % (who, err))
            continue
        expect(err is not None, '%s.validate() did not raise; invalid: %s'
               % (who, [model.path_text(b) for b in bad]))
        if isinstance(err, E.SubnodeValidationError):
            texts = {model.path_text(b): b for b in bad if b}
            p = err.node_path()
            expect(p in texts, 'error names %r, but invalid are %r'
                   % (p, sorted(texts)))
            cause = err.original_cause()
            expect(type(cause) is E.ValidationError,
                   'original cause is %r' % (cause,))
            own = raises(E.ValidationError,
                         model.at(st.data, texts[p]).validate)
            expect((own.message, str(own.expected), str(own.got)) ==
                   (cause.message, str(cause.expected), str(cause.got)),
                   'original cause %s, but the node itself reports %s'
                   % (cause, own))
            expect(p in str(err) and str(cause) in str(err),
                   'error text lacks path or cause: %s' % err)
        else:
            expect(() in bad, 'top level reported, but invalid are %r'
                   % [model.path_text(b) for b in bad])


def P05(ctx):
    def one(c, r, be, depth, top):
        s = gen.rand_schema(r, depth, top=top)
        m = gen.rand_model(r, s, r.choice([.5, .9, 1]))
        st = new(c, be, s)
        k = r.random()
        if k < .7:
            for _ in range(r.choice([1, 1, 2, 3])):
                invalidate(r, s, m, be)
        if model.indep_missing(s, m):
            return
        c.note = '%s %s = %r' % (be, model.describe(s), m)
        gen.fill_node(s, st.data, m)
        now = read(st)
        if model.indep_missing(s, now):
            return
        check_validation(c, st, s, now)
        close(st)

    def place(c, r, be):
        """A single invalid leaf at each position of nested lists/comps."""
        leaf = schema.String(max_length=2)
        shapes = {
            'c.c.i': schema.Compilation({'a': schema.Compilation(
                {'p': leaf, 'q': leaf, 'r': leaf}), 'b': leaf}),
            'l.l.i': schema.List(schema.List(leaf)),
            'c.l.c': schema.Compilation({'x': schema.List(
                schema.Compilation({'p': leaf, 'q': leaf})), 'y': leaf}),
            'l.c.l': schema.List(schema.Compilation(
                {'p': schema.List(leaf), 'q': leaf})),
        }
        for nm, s in shapes.items():
            def full(s):
                if model.is_comp(s):
                    return {n: full(x) for n, x in s.subnodes.items()}
                if model.is_list(s):
                    return [full(s.subnode) for _ in range(3)]
                return 'ok'
            st = new(c, be, s)
            m = full(s)
            gen.fill_node(s, st.data, m)
            leaves = [(p, n) for p, cs, n in model.walk(s, st.data)
                      if model.is_item(cs)]
            for p, n in leaves:
                n.value = 'toolong'
                c.note = '%s %s: bad leaf at %s' % (be, nm,
                                                    model.path_text(p))
                check_validation(c, st, s, read(st))
                n.value = 'ok'
            for p, n in leaves:
                n.clear()
            check_validation(c, st, s, read(st))
            close(st)

    def lengths(c, r, be):
        for mn, mx in itertools.product([None, 0, 1, 2], [None, 0, 1, 3]):
            s = schema.Compilation({'l': schema.List(
                schema.Bool(), min_length=mn, max_length=mx)})
            st = new(c, be, s)
            top = new(c, be, s.subnodes['l'])
            for n in range(5):
                c.note = '%s List(min=%r, max=%r), %d entries' % (be, mn, mx,
                                                                  n)
                check_validation(c, st, s, read(st))
                check_validation(c, top, s.subnodes['l'], read(top))
                st.data.l.append(True)
                top.data.append(True)
            close(st)
            close(top)

    def judge(c, M):
        if not model.indep_missing(M.s, M.m):
            check_validation(c, M.st, M.s, M.m)

    yield from histories(ctx, judge, N(ctx, 250, 3000), ['bad'] * 5)
    for be in BACKENDS:
        yield 'place:' + be, lambda c, r, be=be: place(c, r, be)
        yield 'lengths:' + be, lambda c, r, be=be: lengths(c, r, be)
    for i in range(N(ctx, 700, 12000)):
        be = BACKENDS[i % 4] if i % 3 == 0 else 'inmem'
        top = [None, 'Compilation', 'List', 'Compilation', 'item'][i % 5]
        yield 'random:%d' % i, lambda c, r, be=be, top=top: one(
            c, r, be, r.choice([1, 2, 3, 4]), top)


def check_flags(c, st, s, m):
    for p, cs, node in model.walk(s, st.data):
        _, cm = model.mat(s, m, p)
        where = model.path_text(p) or '(top)'
        we, wc = model.empty(cs, cm), model.complete(cs, cm)
        ge, gc = node.empty, node.complete
        expect(type(ge) is bool and type(gc) is bool,
               '%s: empty/complete not bool' % where)
        expect(ge == we, '%s: empty is %r, should be %r' % (where, ge, we))
        expect(gc == wc, '%s: complete is %r, should be %r'
               % (where, gc, wc))
        if model.is_item(cs) and cm is None:
            raises(E.NodeEmptyError, lambda: node.value)
    expect(st.complete == model.complete(s, m), 'storage.complete is %r'
           % st.complete)


def P06(ctx):
    def one(c, r, be, top):
        s = gen.rand_schema(r, r.choice([1, 2, 3, 4]), top=top)
        m = gen.rand_model(r, s, r.choice([0, .2, .5, .8, .95, 1]))
        c.note = '%s %s = %r' % (be, model.describe(s), m)
        st = new(c, be, s)
        check_flags(c, st, s, model.fresh(s))
        gen.fill_node(s, st.data, m)
        check_flags(c, st, s, m)
        nodes = [p for p, cs, n in model.walk(s, st.data)]
        for _ in range(3):
            p = r.choice(nodes)
            try:
                cs, cm = model.mat(s, m, p)
            except (IndexError, KeyError):
                continue
            model.at(st.data, p).clear()
            set_model(s, m, p, model.fresh(cs))
            if p == ():
                m = model.fresh(cs)
            check_flags(c, st, s, m)
        close(st)

    def table(c, r, be):
        """All fill states of a compilation with optionals and a list."""
        for opt in ([], ['a'], ['b'], ['l'], ['a', 'l'], ['a', 'b', 'l']):
            s = schema.Compilation({
                'a': schema.Bool(), 'b': schema.Compilation(
                    {'x': schema.Bool(), 'y': schema.Bool()},
                    optionals=['y']), 'l': schema.List(schema.Bool())},
                optionals=opt)
            for a, x, y, l in itertools.product([None, False], [None, True],
                                                [None, False],
                                                [[], [None], [True],
                                                 [True, None],
                                                 [None, False]]):
                m = {'a': a, 'b': {'x': x, 'y': y}, 'l': l}
                c.note = '%s optionals=%r %r' % (be, opt, m)
                st = new(c, be, s)
                gen.fill_node(s, st.data, m)
                check_flags(c, st, s, m)
                close(st)

    def falsy(c, r, be):
        """Values that look empty are values."""
        for s, v in [(schema.Bool(), False), (schema.String(), ''),
                     (schema.Bytes(), b''), (schema.Scalar('int32'),
                                             np.int32(0)),
                     (schema.Scalar('f8'), np.float64(0)),
                     (schema.Time(), dt.time(0)),
                     (schema.Array('f8'), np.zeros(0)),
                     (schema.Array('f8'), np.zeros(1)),
                     (schema.Array('f8', ndim=2), np.zeros((0, 3))),
                     (schema.Array('bool'), np.array([False]))]:
            c.note = '%s %s %r' % (be, model.describe(s), v)
            st = new(c, be, s)
            check_flags(c, st, s, None)
            st.data.value = v
            check_flags(c, st, s, v)
            if be != 'inmem':
                st.save()
                st = reload(st)
                check_flags(c, st, s, v)
            st.data.clear()
            check_flags(c, st, s, None)
            if be != 'inmem':
                st.save()
                st = reload(st)
                check_flags(c, st, s, None)
            close(st)

    yield from histories(ctx, lambda c, M: check_flags(
        c, M.st, M.s, M.m), N(ctx, 250, 3000))
    for be in BACKENDS:
        yield 'falsy:' + be, lambda c, r, be=be: falsy(c, r, be)
        if be == 'inmem' or ctx.tier == 'thorough':
            yield 'table:' + be, lambda c, r, be=be: table(c, r, be)
    for i in range(N(ctx, 600, 10000)):
        be = BACKENDS[i % 4] if i % 3 == 0 else 'inmem'
        top = [None, 'Compilation', 'List', 'Compilation', 'item'][i % 5]
        yield 'random:%d' % i, lambda c, r, be=be, top=top: one(c, r, be, top)


def set_model(s, m, path, val):
    """Replace the part of a model at path (not the root) in place."""
    if not path:
        return
    for p in path[:-1]:
        m = m[p]
    m[path[-1]] = val


# -- P07, P08: gates -----------------------------------------------------------

def snap_dir(d):
    out = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            with open(p, 'rb') as h:
                out[f] = h.read()
        else:
            out[f] = 'dir'
    return out


def P07(ctx):
    def make_bad(r, be, s, m):
        for _ in range(5):
            invalidate(r, s, m, be)
            if model.invalid_nodes(s, m):
                return True
        return False

    def save_gate(c, r, be, top):
        st, s, m = filled(c, r, be, depth=2, top=top)
        st.save()
        before = snap_dir(c.dir) if be != 'hdf5' else None
        bad = model.copy_tree(s, m)
        if not make_bad(r, be, s, bad) or not savable(be, s, bad) \
                or model.indep_missing(s, bad):
            return
        c.note += ' then invalid %r' % (bad,)
        st.data.clear()
        gen.fill_node(s, st.data, bad)
        now = read(st)
        isbad = bool(model.invalid_nodes(s, now))
        if not isbad:
            return
        raises((E.ValidationError, E.SubnodeValidationError), st.save)
        raises((E.ValidationError, E.SubnodeValidationError),
               lambda: st.save(force=False))
        if before is not None:
            expect(snap_dir(c.dir) == before, 'rejected save changed files')
        same_now(st, now, 'data after rejected save')
        st.save(force=True)
        p = st.storage_path
        close(st)
        del st
        raises((E.ValidationError, E.SubnodeValidationError), dsch.load, p)
        raises((E.ValidationError, E.SubnodeValidationError), dsch.load, p,
               required_schema=s)
        raises((E.ValidationError, E.SubnodeValidationError), dsch.load, p,
               required_schema_hash=s.hash())
        st = dsch.load(p, force=True)
        got = read(st)
        expect(bool(model.invalid_nodes(s, got)), 'data became valid')
        close(st)
        other = schema.Compilation({'other': s})
        for force in (True, False):
            raises(E.InvalidSchemaError, dsch.load, p, required_schema=other,
                   force=force)
            raises(E.InvalidSchemaError, dsch.load, p, required_schema=s,
                   required_schema_hash=other.hash(), force=force)
        close(dsch.load(p, required_schema=s, force=True))

    def load_gate(c, r, be, top):
        st, s, m = filled(c, r, be, depth=2, top=top)
        st.save()
        p = st.storage_path
        h = s.hash()
        close(st)
        before = snap_dir(c.dir)
        other = mutated(r, s)
        if model.config(other) == model.config(s):
            other = schema.List(s)
        for sch, hsh, force in itertools.product(
                (None, s, shuffled(r, s), other), (None, h, other.hash(),
                                                   h.upper(), h[:-1], 'x'),
                (False, True)):
            ok = (sch is None or sch is not other) and hsh in (None, h)
            if ok:
                st = dsch.load(p, required_schema=sch,
                               required_schema_hash=hsh, force=force)
                same_now(st, m, 'loaded data')
                close(st)
            else:
                raises(E.InvalidSchemaError, dsch.load, p,
                       required_schema=sch, required_schema_hash=hsh,
                       force=force)
        if be != 'hdf5':
            expect(snap_dir(c.dir) == before, 'loading changed files')

    def failing_write(c, r, be):
        """A save that fails in the serialisation keeps the file."""
        s = schema.Compilation({'a': schema.String(), 'l': schema.List(
            schema.Bool()), 'arr': schema.Array('f8')})
        st = new(c, be, s)
        st.data.a.value = 'first'
        st.data.l.append(True)
        st.save()
        before = snap_dir(c.dir)

        class Bad:
            def __array__(self, *a, **k):
                raise RuntimeError('cannot be converted')

            def __reduce__(self):
                raise RuntimeError('cannot be pickled')
        st.data.arr.replace(Bad())
        try:
            st.save(force=True)
        except Exception:
            expect(snap_dir(c.dir) == before, 'failed save changed the file')
        raises((E.ValidationError, E.SubnodeValidationError), st.save)
        expect(snap_dir(c.dir) == before, 'rejected save changed the file')

    for be in ('npz', 'mat'):
        yield 'write:' + be, lambda c, r, be=be: failing_write(c, r, be)
    tops = [None, 'Compilation', 'List', 'item']
    for i in range(N(ctx, 360, 5000)):
        be = FILES[i % 3]
        top = tops[(i // 3) % 4]
        yield 'save:%d' % i, lambda c, r, be=be, top=top: save_gate(
            c, r, be, top)
    for i in range(N(ctx, 90, 1500)):
        be = FILES[i % 3]
        top = tops[(i // 3) % 4]
        yield 'load:%d' % i, lambda c, r, be=be, top=top: load_gate(
            c, r, be, top)


def P08(ctx):
    S = [schema.Bool(), schema.Compilation({'a': schema.String()}),
         schema.List(schema.Bool())]

    def fmt(path):
        with open(path, 'rb') as f:
            h = f.read(8)
        if h.startswith(b'PK'):
            return 'npz'
        if h.startswith(b'\x89HDF'):
            return 'hdf5'
        if h.startswith(b'MATLAB'):
            return 'mat'
        return '?'

    def names():
        base = ['a', 'a.b', 'UPPER', 'dot.', '.hidden', 'x y', 'ü', 'n.npz.x',
                'h5', 'npz', '::inmem::x', 'inmem']
        ext = {'.npz': 'npz', '.h5': 'hdf5', '.hdf5': 'hdf5', '.mat': 'mat'}
        for b in base:
            for e, be in ext.items():
                yield b + e, be
        for n in ['a', 'a.npy', 'a.h5x', 'a.hdf', 'a.npz.bak', 'mat', 'a.txt',
                  '.', 'xnpz', 'xh5', 'a.NPZ', 'a.mat ', '::inmem', 'inmem::',
                  ':inmem:', ' ::inmem::', '', 'a.npz/b']:
            if n not in ('',):
                yield n, None

    def auto(c, r):
        for n, be in names():
            for s in S:
                c.note = 'create(%r, %s)' % (n, model.describe(s))
                before = snap_dir(c.dir)
                if be is None:
                    raises(E.AutodetectBackendError, dsch.create, n, s)
                    raises(E.AutodetectBackendError, dsch.load, n)
                    expect(snap_dir(c.dir) == before, 'files were changed')
                    continue
                raises(FileNotFoundError, dsch.load, n)
                expect(snap_dir(c.dir) == before, 'load created something')
                st = dsch.create(n, s)
                expect(st.storage_path == n, 'storage_path is %r'
                       % st.storage_path)
                st.save(force=True)
                close(st)
                after = snap_dir(c.dir)
                expect(set(after) - set(before) == {n},
                       'created %r' % (set(after) - set(before)))
                expect(fmt(n) == be, 'file format is %s' % fmt(n))
                raises(FileExistsError, dsch.create, n, s)
                raises(FileExistsError, dsch.create, n, S[0])
                src = dsch.create('::inmem::', s)
                raises(FileExistsError, dsch.create_from, n, src)
                raises(FileExistsError, src.save_as, n)
                expect(snap_dir(c.dir) == after, 'existing file was changed')
                st = dsch.load(n, force=True)
                expect(st.schema_node == s, 'schema differs')
                close(st)
                os.remove(n)
        st = dsch.create('::inmem::', S[0])
        st.data.value = True
        expect(not hasattr(st, 'save'), 'in-memory storage can be saved')
        expect(os.listdir(c.dir) == [], 'in-memory storage made a file')

    def explicit(c, r, be):
        for n in ['plain', 'a.npz', 'b.h5', 'c.mat', 'd.hdf5', 'e.txt',
                  'f.x.y']:
            for s in S:
                c.note = 'create(%r, backend=%r)' % (n, be)
                before = snap_dir(c.dir)
                raises(FileNotFoundError, dsch.load, n, backend=be)
                expect(snap_dir(c.dir) == before, 'load created something')
                if r.random() < .5:
                    st = dsch.create(n, s, backend=be)
                else:
                    st = dsch.create('::inmem::', s).save_as(n, backend=be)
                st.save(force=True)
                close(st)
                after = snap_dir(c.dir)
                expect(set(after) - set(before) == {n}, 'created %r'
                       % (set(after) - set(before)))
                expect(fmt(n) == be, 'file format is %s' % fmt(n))
                for be2 in FILES:
                    raises(FileExistsError, dsch.create, n, s, backend=be2)
                raises(FileExistsError, dsch.create_from, n,
                       dsch.create('::inmem::', s), backend=be)
                expect(snap_dir(c.dir) == after, 'existing file was changed')
                st = dsch.load(n, backend=be, force=True)
                expect(st.schema_node == s, 'schema differs')
                close(st)
                os.remove(n)

    def existing(c, r):
        """Foreign, empty files and directories are in the way, too."""
        for ext in ('npz', 'mat', 'h5', 'hdf5'):
            for content in (b'', b'hello'):
                n = 'f.' + ext
                with open(n, 'wb') as f:
                    f.write(content)
                for s in S:
                    raises(FileExistsError, dsch.create, n, s)
                expect(open(n, 'rb').read() == content, 'file was changed')
                os.remove(n)
            os.mkdir('d.' + ext)
            raises(FileExistsError, dsch.create, 'd.' + ext, S[0])
            os.rmdir('d.' + ext)

    def inmem(c, r):
        from dsch.backends import inmem as mod
        for p in ['', 'x', 'a.npz', '::inmem:', '::INMEM::', '::inmem::x']:
            raises(ValueError, dsch.create, p, S[0], backend='inmem')
            raises(ValueError, mod.Storage, p, S[0])
            raises(ValueError, mod.Storage, storage_path=p,
                   schema_node=S[0])
        raises(ValueError, mod.Storage)
        raises(ValueError, mod.Storage, '::inmem::', None)
        raises(ValueError, dsch.load, '::inmem::')
        raises(ValueError, dsch.create, '::inmem::', None)
        expect(mod.Storage(schema_node=S[0]).storage_path == '::inmem::', '')
        for be in FILES:
            raises((FileNotFoundError,), dsch.load, '::inmem::', backend=be)
        expect(os.listdir(c.dir) == [], 'a file was made')
        # an explicit backend wins over the special path
        st = dsch.create('::inmem::', S[0], backend='npz')
        st.data.value = True
        st.save()
        expect(os.listdir(c.dir) == ['::inmem::'], 'file is missing')

    def subdir(c, r):
        os.mkdir('sub.npz')
        for ext in ('npz', 'mat', 'h5'):
            p = os.path.join('sub.npz', 'x.' + ext)
            st = dsch.create(p, S[0])
            st.data.value = True
            st.save()
            close(st)
            expect(os.path.exists(p), 'not at its path')
            absolute = os.path.join(c.dir, 'sub.npz', 'y.' + ext)
            st = dsch.create(absolute, S[0])
            st.data.value = True
            st.save()
            close(st)
        expect(sorted(os.listdir(c.dir)) == ['sub.npz'], 'stray files')
        expect(len(os.listdir('sub.npz')) == 6, 'stray files')

    yield 'auto:0', auto
    yield 'existing:0', existing
    yield 'inmem:0', inmem
    yield 'subdir:0', subdir
    for be in FILES:
        for i in range(N(ctx, 2, 10)):
            yield 'explicit:%s%d' % (be, i), lambda c, r, be=be: explicit(
                c, r, be)


# -- P09, P10: values -----------------------------------------------------------

def boundary_items():
    """(schema, values) covering each item type."""
    out = [(schema.Bool(), [True, False]),
           (schema.String(), gen.TEXTS), (schema.Bytes(), gen.BLOBS),
           (schema.Date(), gen.DATES), (schema.DateTime(), gen.DATETIMES),
           (schema.Time(), gen.TIMES)]
    for d in gen.INTS + gen.FLOATS + gen.COMPLEX:
        out.append((schema.Scalar(d), gen.scalar_pool(d)))
    for d in gen.INTS + gen.FLOATS + ['complex128', 'bool']:
        for sh in [(0,), (1,), (2,), (7,), (0, 0), (0, 3), (3, 0), (1, 1),
                   (1, 3), (3, 1), (2, 3), (1, 1, 1), (1, 2, 3), (2, 1, 3),
                   (3, 2, 1), (0, 1, 2), (2, 0, 1), (2, 2, 2, 2),
                   (1, 1, 1, 1)]:
            n = int(np.prod(sh))
            if d == 'bool':
                a = np.array([i % 3 == 0 for i in range(n)], bool)
            else:
                pool = gen.scalar_pool(d)
                a = np.array([pool[i % len(pool)] for i in range(n)], d)
            out.append((schema.Array(d, ndim=len(sh)), [a.reshape(sh)]))
    out += [
        (schema.Array('int32', max_shape=(3, None)),
         [np.ones((2, 5), 'int32')]),
        (schema.Array('int32', max_shape=(3, 2), min_shape=(3, 2)),
         [np.ones((3, 2), 'int32')]),
        (schema.Array('f8', ndim=2), [np.asfortranarray(np.arange(6.).reshape(
            2, 3)), np.arange(12.).reshape(3, 4)[::2, ::-1],
            np.arange(6.).reshape(2, 3).T]),
        (schema.Array('f8'), [np.arange(20.)[::3]]),
    ]
    return out


def wrappers(s):
    """The item alone and at places of nested structures."""
    C, L = schema.Compilation, schema.List
    return [
        ('top', s, lambda v: v),
        ('C', C({'a': s, 'b': schema.Bool()}), lambda v: {'a': v, 'b': None}),
        ('L', L(s), lambda v: [v]),
        ('L3', L(s), lambda v: [v, v, v]),
        ('CC', C({'a': C({'x': s})}), lambda v: {'a': {'x': v}}),
        ('CL', C({'a': L(s), 'c': L(s)}), lambda v: {'a': [v], 'c': []}),
        ('LC', L(C({'a': s, 'z': s})), lambda v: [{'a': v, 'z': None}]),
        ('LC2', L(C({'a': s, 'z': s})), lambda v: [{'a': v, 'z': None},
                                                   {'a': None, 'z': v}]),
        ('LL', L(L(s)), lambda v: [[v]]),
        ('LL2', L(L(s)), lambda v: [[v, v], [v]]),
        ('CLCL', C({'p': L(C({'q': L(s)}))}),
         lambda v: {'p': [{'q': [v, v]}, {'q': [v]}]}),
    ]


def cycle(c, st, s, m):
    """Save, load, compare; twice."""
    for k in range(2):
        st.save()
        st = reload(st)
        expect(model.config(st.schema_node) == model.config(s),
               'schema differs after loading')
        expect(st.schema_node == s and st.schema_hash() == s.hash(),
               'schema is not equal after loading')
        same_now(st, m, 'after %d save/load' % (k + 1))
    st.validate()
    return st


def P09(ctx):
    items = boundary_items()
    for be in FILES:
        for i, (s, vals) in enumerate(items):
            def tab(c, r, be=be, s=s, vals=vals):
                ws = wrappers(s)
                if c.tier != 'thorough':
                    ws = ws[:1] + r.sample(ws[1:], 2)
                for w, ws_, mk in ws:
                    vv = vals
                    if w != 'top' and len(vals) > 3 and c.tier != 'thorough':
                        vv = r.sample(vals, 3)
                    for v in vv:
                        m = mk(v)
                        c.note = '%s %s = %r' % (be, model.describe(ws_), m)
                        st = new(c, be, ws_)
                        gen.fill_node(ws_, st.data, m)
                        close(cycle(c, st, ws_, m))
            yield 'item:%s%d' % (be, i), tab

    def empties(c, r, be):
        B, C, L = schema.Bool, schema.Compilation, schema.List
        for s, m in [
                (B(), None), (C({'a': B()}), {'a': None}), (L(B()), []),
                (C({}), {}), (C({'a': C({})}), {'a': {}}),
                (C({'a': C({'b': B()}), 'c': L(B())}),
                 {'a': {'b': None}, 'c': []}),
                (C({'a': C({'b': B()}), 'c': L(B())}),
                 {'a': {'b': True}, 'c': []}),
                (C({'a': C({'b': C({'d': B(), 'e': B()})}), 'c': L(B())}),
                 {'a': {'b': {'d': None, 'e': True}}, 'c': [False]}),
                (L(L(L(B()))), [[[True], [False, True]], [[True]]]),
                (L(C({'a': B(), 'b': B()})),
                 [{'a': True, 'b': None}, {'a': None, 'b': False}]),
                (C({'a': C({'b': B()}), 'ab': B(), 'a_b': B(),
                    'b': C({'a': B()})}),
                 {'a': {'b': True}, 'ab': False, 'a_b': True,
                  'b': {'a': False}}),
                (L(B()), [True, False] * 20),
                (C({'l': L(schema.Scalar('int32'))}),
                 {'l': [np.int32(i) for i in range(25)]}),
                (C({'f%d' % i: schema.Scalar('int32') for i in range(30)}),
                 {'f%d' % i: np.int32(i) for i in range(30)}),
                (C({'data': B(), 'schema': B(), 'item_0': B(),
                    'dsch_data': B(), 'item_': B()}),
                 {'data': True, 'schema': False, 'item_0': True,
                  'dsch_data': False, 'item_': True}),
                (C({'data': C({'data': B(), 'schema': L(B())})}),
                 {'data': {'data': True, 'schema': [False]}}),
        ]:
            c.note = '%s %s = %r' % (be, model.describe(s), m)
            st = new(c, be, s)
            gen.fill_node(s, st.data, m)
            close(cycle(c, st, s, m))

    def gaps(c, r, be):
        s = schema.List(schema.Scalar('int32'))
        for pat in itertools.product([0, 1], repeat=4):
            m = [np.int32(i) if x else None for i, x in enumerate(pat)]
            m.append(np.int32(9))
            c.note = '%s %r' % (be, m)
            st = new(c, be, s)
            gen.fill_node(s, st.data, m)
            close(cycle(c, st, s, m))

    def rnd(c, r, be, top):
        st, s, m = filled(c, r, be, depth=r.choice([1, 2, 3, 4]), top=top,
                          on_create=False)
        st = cycle(c, st, s, m)
        # change a few things after loading, and do it again
        ops = Machine(c, r, st, s, m, be)
        for _ in range(4):
            ops.step(reloads=False)
        if savable(be, s, ops.m) and not model.indep_missing(s, ops.m) \
                and not model.invalid_nodes(s, ops.m):
            close(cycle(c, ops.st, s, ops.m))
        else:
            close(ops.st)

    def again(c, r, be, top):
        """One storage, saved again after changes."""
        st, s, m = filled(c, r, be, depth=r.choice([0, 1, 2, 3]), top=top)
        M = Machine(c, r, st, s, m, be)
        for _ in range(5):
            for _ in range(r.choice([0, 1, 1, 2])):
                M.step(kinds=OPS)
            if not savable(be, s, M.m) or model.indep_missing(s, M.m) or \
                    model.invalid_nodes(s, M.m):
                continue
            M.log.append('save')
            M.st.save()
            same_now(M.st, M.m, 'after saving')
            copied = r.random() < .5
            if copied:
                other = load_copy(c, M.st)
            elif be == 'hdf5' or r.random() < .3:
                M.log.append('load')
                M.st = reload(M.st)
                other = M.st
            else:
                other = dsch.load(M.st.storage_path)
            same_now(other, M.m, 'loaded')
            expect(other.schema_node == s, 'schema differs')
            if copied:
                close(other)
        close(M.st)

    def many(c, r, be):
        """Sizes far beyond those of the other cases."""
        B, C, L = schema.Bool, schema.Compilation, schema.List
        n = 1100 if c.tier == 'thorough' else 260
        text = ''.join(r.choice('abc äß') for _ in range(70000))
        for s, m in [
                (L(B()), [r.random() < .5 for _ in range(n)]),
                (C({'l': L(C({'a': schema.Scalar('int32')}))}),
                 {'l': [{'a': np.int32(i)} for i in range(130)]}),
                (L(L(schema.Scalar('int32'))),
                 [[np.int32(i)] * (1 + i % 3) for i in range(120)]),
                (C({'s': schema.String(), 'b': schema.Bytes()}),
                 {'s': text, 'b': bytes(range(256)) * 300}),
                (C({'a': schema.Array('uint8', ndim=2)}),
                 {'a': np.arange(90000, dtype='int64').astype(
                     'uint8').reshape(300, 300)}),
                (C({'f%d' % i: B() for i in range(120)}),
                 {'f%d' % i: bool(i % 2) for i in range(120)})]:
            c.note = '%s %s' % (be, model.describe(s)[:200])
            st = new(c, be, s)
            gen.fill_node(s, st.data, m)
            close(cycle(c, st, s, m))

    for be in FILES:
        yield 'many:' + be, lambda c, r, be=be: many(c, r, be)
        yield 'empty:' + be, lambda c, r, be=be: empties(c, r, be)
        if be != 'mat':
            yield 'gaps:' + be, lambda c, r, be=be: gaps(c, r, be)
    tops = [None, 'Compilation', 'List', 'Compilation', 'item']
    for i in range(N(ctx, 210, 3000)):
        yield 'again:%d' % i, lambda c, r, be=FILES[i % 3], \
            top=tops[(i // 3) % 5]: again(c, r, be, top)
    tops = [None, 'Compilation', 'List', 'Compilation']
    for i in range(N(ctx, 450, 9000)):
        yield 'random:%d' % i, lambda c, r, be=FILES[i % 3], \
            top=tops[(i // 3) % 4]: rnd(c, r, be, top)


def P10(ctx):
    items = boundary_items()

    def tab(c, r, be, s, vals):
        st = new(c, be, s)
        node = st.data
        seq = list(vals)
        if len(seq) > 1:
            for a in vals:
                for b in (vals if len(vals) < 8 else r.sample(vals, 6)):
                    seq += [a, b]
        if c.tier != 'thorough' and len(seq) > 60:
            seq = seq[:len(vals)] + r.sample(seq[len(vals):], 45)
        for i, v in enumerate(seq):
            c.note = '%s %s: %r after %r' % (be, model.describe(s), v,
                                             seq[i - 1] if i else 'nothing')
            w = v.copy() if isinstance(v, np.ndarray) else v
            if r.random() < .5:
                node.value = w
            else:
                node.replace(w)
            expect(not node.empty and node.complete, 'empty after setting')
            expect(model.same(v, node.value), 'read %r' % (node.value,))
            expect(model.same(v, node.value), 'second read differs')
            if isinstance(v, np.ndarray):
                for ix in [(), Ellipsis] + ([0] if v.shape[0] else []):
                    x = node[ix]
                    expect(np.array_equal(x, v[ix], equal_nan=True) if
                           v.dtype.kind in 'fc' else
                           np.array_equal(x, v[ix]), 'indexing %r' % (ix,))
            if r.random() < .25:
                node.clear()
                expect(node.empty and not node.complete,
                       'not empty after clear')
                raises(E.NodeEmptyError, lambda: node.value)
                if r.random() < .3:
                    node.clear()
                    expect(node.empty, 'not empty after second clear')
            expect(node is st.data and node.schema_node is st.schema_node
                   and node.parent is None, 'node attributes changed')
        close(st)

    def inner(c, r, be, s, vals):
        """The same below a compilation and a list."""
        top = schema.Compilation({'x': s, 'l': schema.List(s)})
        st = new(c, be, top)
        st.data.l.append()
        st.data.l.append()
        for _ in range(12):
            node = r.choice([st.data.x, st.data.l[0], st.data.l[1]])
            v = r.choice(vals)
            c.note = '%s %s nested: %r' % (be, model.describe(s), v)
            par = node.parent
            node.value = v.copy() if isinstance(v, np.ndarray) else v
            expect(model.same(v, node.value), 'read %r' % (node.value,))
            expect(node.parent is par, 'parent changed')
            if r.random() < .3:
                node.clear()
                expect(node.empty, 'not empty after clear')
        close(st)

    for be in BACKENDS:
        for i, (s, vals) in enumerate(items):
            yield 'item:%s%d' % (be, i), lambda c, r, be=be, s=s, vals=vals: \
                tab(c, r, be, s, vals)
            if i < 16 or ctx.tier == 'thorough':
                yield 'inner:%s%d' % (be, i), \
                    lambda c, r, be=be, s=s, vals=vals: inner(c, r, be, s,
                                                              vals)
    for i in range(N(ctx, 500, 8000)):
        def rnd(c, r, be=BACKENDS[i % 4]):
            s = gen.item_schema(r)
            vals = [gen.valid_value(r, s) for _ in range(6)]
            tab(c, r, be, s, vals)
        yield 'random:%d' % i, rnd


# -- P11 - P14, P16: operations -----------------------------------------------

class Machine:
    """A real storage and its model, changed in lockstep."""

    def __init__(self, ctx, rng, st, s, m, be):
        self.c, self.r, self.st, self.s, self.m, self.be = (
            ctx, rng, st, s, m, be)
        self.log = []

    def paths(self, want=None):
        out = []

        def rec(s, m, p):
            if want is None or want(s):
                out.append(p)
            if model.is_comp(s):
                for n, v in m.items():
                    rec(s.subnodes[n], v, p + (n,))
            elif model.is_list(s):
                for i, v in enumerate(m):
                    rec(s.subnode, v, p + (i,))
        rec(self.s, self.m, ())
        return out

    def put(self, path, val):
        if path:
            set_model(self.s, self.m, path, val)
        else:
            self.m = val

    def value_for(self, s, path):
        indep = None
        if type(s).__name__ == 'Array' and s.depends_on:
            par = model.mat(self.s, self.m, path[:-1])[1]
            if any(n is not None and par[n] is None for n in s.depends_on):
                return None
            indep = [None if n is None else par[n].size
                     for n in s.depends_on]
        return gen.valid_value(self.r, s, indep)

    def merged(self, s, old, new):
        """Effect of replace(plain(new)) on the model old."""
        if model.is_comp(s):
            return {n: (self.merged(s.subnodes[n], old[n], new[n])
                        if new[n] is not None else old[n]) for n in old}
        if model.is_list(s):
            return [self.merged(s.subnode, model.fresh(s.subnode), x)
                    for x in new]
        return new if new is not None else old

    def step(self, reloads=True, kinds=None):
        r = self.r
        ops = kinds or ['set', 'set', 'clear', 'append', 'append', 'lreplace',
                        'creplace', 'copy', 'reload']
        for _ in range(10):
            op = r.choice(ops)
            if op == 'reload' and not reloads:
                continue
            if getattr(self, 'op_' + op)():
                self.c.note = '%s %s: %s' % (
                    self.be, model.describe(self.s), '; '.join(self.log))
                return op
        return None

    def node(self, path):
        return model.at(self.st.data, path)

    def op_set(self):
        ps = self.paths(model.is_item)
        if not ps:
            return False
        p = self.r.choice(ps)
        s, _ = model.mat(self.s, self.m, p)
        v = self.value_for(s, p)
        if v is None:
            return False
        self.log.append('%s.value = %r' % (model.path_text(p), v))
        w = v.copy() if isinstance(v, np.ndarray) else v
        if self.r.random() < .5:
            self.node(p).value = w
        else:
            self.node(p).replace(w)
        self.put(p, v)
        return True

    def op_clear(self):
        p = self.r.choice(self.paths())
        s, _ = model.mat(self.s, self.m, p)
        self.log.append('%s.clear()' % model.path_text(p))
        self.node(p).clear()
        self.put(p, model.fresh(s))
        return True

    def op_append(self):
        ps = self.paths(model.is_list)
        if not ps:
            return False
        p = self.r.choice(ps)
        s, m = model.mat(self.s, self.m, p)
        if len(m) > 12:
            return False
        if self.r.random() < .2:
            e = model.fresh(s.subnode)
            self.log.append('%s.append()' % model.path_text(p))
            self.node(p).append()
        else:
            e = gen.rand_model(self.r, s.subnode, .9)
            if e is None:
                return False
            self.log.append('%s.append(%r)' % (
                model.path_text(p), gen.plain(s.subnode, e)))
            self.node(p).append(gen.plain(s.subnode, e))
        m.append(e)
        return True

    def op_lreplace(self):
        ps = self.paths(model.is_list)
        if not ps:
            return False
        p = self.r.choice(ps)
        s, m = model.mat(self.s, self.m, p)
        e = gen.rand_model(self.r, s, .9, no_empty_entries=True)
        self.log.append('%s.replace(%r)' % (model.path_text(p),
                                            gen.plain(s, e)))
        self.node(p).replace(gen.plain(s, e))
        m[:] = e
        return True

    def op_creplace(self):
        ps = self.paths(model.is_comp)
        if not ps:
            return False
        p = self.r.choice(ps)
        s, m = model.mat(self.s, self.m, p)
        e = gen.rand_model(self.r, s, .6)
        arg = gen.plain(s, e)
        for n in list(arg):
            if self.r.random() < .4:
                del arg[n]
                e[n] = None
        self.log.append('%s.replace(%r)' % (model.path_text(p), arg))
        self.node(p).replace(arg)
        new = {n: (self.merged(s.subnodes[n], m[n], e[n]) if n in arg
                   else m[n]) for n in m}
        for n in m:
            m[n] = new[n]
        return True

    def op_elem(self):
        """Change elements of an array."""
        ps = [p for p in self.paths(
            lambda s: type(s).__name__ == 'Array')
            if model.mat(self.s, self.m, p)[1] is not None
            and model.mat(self.s, self.m, p)[1].size]
        if not ps:
            return False
        p = self.r.choice(ps)
        s, v = model.mat(self.s, self.m, p)
        ix = rand_index(self.r, v.shape)
        if not np.size(v[ix]):
            return False
        v = v.copy()
        x = gen.array_of(self.r, v.dtype, (1,))[0]
        v[ix] = x
        self.log.append('%s[%r] = %r' % (model.path_text(p), ix, x))
        self.node(p)[ix] = x
        self.put(p, v)
        return True

    def op_bad(self):
        """Set an invalid value."""
        ps = self.paths(model.is_item)
        if not ps:
            return False
        p = self.r.choice(ps)
        s, _ = model.mat(self.s, self.m, p)
        v = bad_value(self.r, s, self.be)
        if v is None:
            return False
        self.log.append('%s.value = %r' % (model.path_text(p), v))
        self.node(p).value = v.copy() if isinstance(v, np.ndarray) else v
        self.put(p, v)
        return True

    def op_save(self):
        """Save, and go on with the same storage."""
        if self.be == 'inmem' or not savable(self.be, self.s, self.m):
            return False
        self.log.append('save')
        self.st.save(force=True)
        return True

    def op_copy(self):
        """load_from a node of another storage with the same schema."""
        be = self.r.choice(BACKENDS)
        src, _, sm = filled(self.c, self.r, be, s=self.s, saveable=False)
        ps = [p for p in self.paths()
              if exists(self.s, sm, p)]
        p = self.r.choice(ps)
        s, v = model.mat(self.s, sm, p)
        self.log.append('%s.load_from(%s node holding %r)' % (
            model.path_text(p), be, v))
        self.node(p).load_from(model.at(src.data, p))
        same_now(src, sm, 'source after copy')
        self.put(p, model.copy_tree(s, v))
        close(src)
        return True

    def op_reload(self):
        if self.be == 'inmem' or not savable(self.be, self.s, self.m):
            return False
        self.log.append('save and load')
        self.st.save(force=True)
        self.st = reload(self.st)
        return True

    def check(self, what='data'):
        same_now(self.st, self.m, what)


OPS = ['set', 'set', 'clear', 'clear', 'append', 'append', 'lreplace',
       'creplace', 'creplace', 'copy', 'elem', 'elem']


def histories(ctx, check, n, ops=()):
    """The same storage, judged again after every change."""
    def one(c, r, be, top):
        st, s, m = filled(c, r, be, depth=r.choice([0, 1, 2, 2, 3]), top=top,
                          saveable=False)
        M = Machine(c, r, st, s, m, be)
        check(c, M)
        for _ in range(r.choice([3, 6, 9])):
            kinds = OPS + list(ops)
            if not model.invalid_nodes(s, M.m):
                kinds += ['save', 'reload']
            if M.step(kinds=kinds):
                check(c, M)
        close(M.st)

    tops = [None, 'Compilation', 'List', 'List', 'Compilation', 'item']
    for i in range(n):
        be = BACKENDS[i % 4] if i % 3 == 0 else 'inmem'
        yield 'history:%d' % i, lambda c, r, be=be, top=tops[i % 6]: one(
            c, r, be, top)


def exists(s, m, path):
    try:
        model.mat(s, m, path)
        return True
    except (IndexError, KeyError):
        return False


def P11(ctx):
    def identity(mach):
        return {p: n for p, cs, n in model.walk(mach.s, mach.st.data)}

    def one(c, r, be, top):
        s = gen.rand_schema(r, r.choice([1, 2, 3]), top=top)
        cfg, js = model.config(s), s.to_json()
        st, _, m = filled(c, r, be, s=s)
        be2 = r.choice([be, r.choice(BACKENDS)])
        st2, _, m2 = filled(c, r, be2, s=s)
        A = Machine(c, r, st, s, m, be)
        B = Machine(c, r, st2, s, m2, be2)
        A.check('first storage')
        B.check('second storage')
        for _ in range(8):
            before = identity(A)
            op = A.step(reloads=False)
            A.check('changed storage')
            B.check('other storage')
            after = identity(A)
            if op in ('set', 'clear', 'append', 'creplace'):
                for p, n in before.items():
                    if p in after and not gone(A, op, p):
                        expect(after[p] is n, 'node %s was exchanged by %s'
                               % (model.path_text(p), A.log[-1]))
            expect(model.config(s) == cfg and s.to_json() == js,
                   'schema was modified')
            if r.random() < .3:
                B.step(reloads=False)
                A.check('other storage')
                B.check('changed storage')
        close(A.st)
        close(B.st)

    def gone(mach, op, p):
        # below a list everything may have been rebuilt by clear/replace
        return any(isinstance(x, int) for x in p) and op in ('clear',
                                                             'creplace')

    def shared(c, r, be):
        """Fresh nodes share nothing."""
        for k in range(20):
            s = gen.rand_schema(r, 3, top=r.choice(['Compilation', 'List']))
            sts = [new(c, be, s) for _ in range(3)]
            m = gen.rand_model(r, s, 1)
            c.note = '%s %s' % (be, model.describe(s))
            gen.fill_node(s, sts[1].data, m)
            same_now(sts[0], model.fresh(s), 'untouched storage')
            same_now(sts[2], model.fresh(s), 'untouched storage')
            same_now(sts[1], m, 'filled storage')
            sts[2].data.clear()
            same_now(sts[1], m, 'filled storage')
            sts[1].data.clear()
            same_now(sts[0], model.fresh(s), 'untouched storage')
            for st in sts:
                close(st)

    def elements(c, r, be):
        """Changing single elements of equal arrays, new and loaded."""
        for d in gen.INTS + gen.FLOATS + ['bool', 'complex128']:
            for size in (1, 2):
                s = schema.Compilation({n: schema.Array(d) for n in 'abc'})
                st = new(c, be, s)
                one = np.ones(size, dtype=d)
                c.note = '%s %s size %d' % (be, d, size)
                for n in 'abc':
                    model.child(st.data, n).value = one.copy()
                m = {n: one.copy() for n in 'abc'}
                for rnd in range(2):
                    for n in 'ab':
                        model.child(st.data, n)[0] = 0
                        m[n] = m[n].copy()
                        m[n][0] = 0
                        same_now(st, m, 'after changing an element of ' + n)
                        expect(bool((one == 1).all()),
                               'the value set before was changed')
                    if be == 'inmem' or rnd:
                        break
                    for n in 'abc':
                        model.child(st.data, n).value = one.copy()
                        m[n] = one.copy()
                    st.save()
                    st = reload(st)
                    same_now(st, m, 'loaded')
                if be != 'inmem':
                    st = reload(st) if be != 'hdf5' else st
                    if be != 'hdf5':
                        same_now(st, {n: one for n in 'abc'}, 'loaded again')
                close(st)

    for be in BACKENDS:
        yield 'shared:' + be, lambda c, r, be=be: shared(c, r, be)
        yield 'elements:' + be, lambda c, r, be=be: elements(c, r, be)
    tops = [None, 'Compilation', 'List', 'Compilation']
    for i in range(N(ctx, 260, 5000)):
        yield 'random:%d' % i, lambda c, r, be=BACKENDS[i % 4], \
            top=tops[(i // 4) % 4]: one(c, r, be, top)


def clear_items(s, node):
    """Empty every item below a node, whatever is set on creation."""
    if model.is_item(s):
        node.clear()
    elif model.is_list(s):
        for i in range(len(node)):
            clear_items(s.subnode, node[i])
    else:
        for n, cs in s.subnodes.items():
            clear_items(cs, model.child(node, n))


def P12(ctx):
    def one(c, r, be, be2, top, how):
        timed = r.random() < .3
        src, s, m = filled(c, r, be, depth=r.choice([1, 2, 3]), top=top,
                           on_create=timed)
        if r.random() < .2:
            # everything empty, also what is set on creation
            clear_items(s, src.data)
            m = read(src)
        if how == 'load_from':
            dst, _, old = filled(c, r, be2, s=shuffled(r, s))
            dst.data.load_from(src.data)
        elif how == 'create_from':
            dst = dsch.create_from('::inmem::' if be2 == 'inmem' else
                                   c.path(EXT[be2]), src)
        else:
            dst = src.save_as('::inmem::' if be2 == 'inmem' else
                              c.path(EXT[be2]))
        c.note = '%s from %s to %s: %s = %r' % (how, be, be2,
                                                model.describe(s), m)
        expect(dst.schema_node == s and dst.data.schema_node == s,
               'schema differs')
        same_now(dst, m, 'copy')
        same_now(src, m, 'source after copy')
        if how != 'load_from' and be2 != 'inmem' and savable(be2, s, m):
            dst.save(force=True)
            dst = reload(dst)
            same_now(dst, m, 'saved copy')
        if timed:
            # the steps below do not know the creation times
            dst.data.clear()
            same_now(src, m, 'other storage')
            src.data.clear()
            close(src)
            close(dst)
            return
        # independence, including single array elements
        A = Machine(c, r, src, s, model.copy_tree(s, m), be)
        B = Machine(c, r, dst, s, model.copy_tree(s, m), be2)
        for x, y in ((A, B), (B, A)):
            for p in x.paths(lambda q: type(q).__name__ == 'Array'):
                xs, v = model.mat(s, x.m, p)
                if v is not None and v.size and v.dtype.kind in 'iuf':
                    x.node(p)[(0,) * v.ndim] = 3
                    v[(0,) * v.ndim] = 3
                    break
            x.check('changed storage')
            y.check('other storage (single element)')
            for _ in range(2):
                x.step(reloads=False)
            x.check('changed storage')
            y.check('other storage')
        close(A.st)
        close(B.st)

    def incompatible(c, r, be, be2):
        s = gen.rand_schema(r, 3)
        t = mutated(r, s)
        if model.config(s) == model.config(t):
            return
        src, _, m = filled(c, r, be, s=s, fill=.9)
        dst, _, m2 = filled(c, r, be2, s=t, fill=.9)
        c.note = '%s %s -> %s %s' % (be, model.describe(s), be2,
                                     model.describe(t))
        raises(E.IncompatibleNodesError, dst.data.load_from, src.data)
        same_now(dst, m2, 'destination after rejected copy')
        same_now(src, m, 'source after rejected copy')
        close(src)
        close(dst)

    def reserved(c, r, be):
        names = ['empty', 'complete', 'parent', 'schema_node', 'clear',
                 'replace', 'validate', 'data_tree']
        s = schema.Compilation({n: schema.Bool() for n in names})
        src = new(c, 'inmem', s)
        src.data.replace({n: i % 2 == 0 for i, n in enumerate(names)})
        dst = new(c, be, s)
        dst.data.load_from(src.data)
        expect(dst.data.data_tree() == src.data.data_tree(), 'copy differs')
        close(dst)

    def inside(c, r, be):
        """Copying between nodes of one tree, and a node to itself."""
        st, s, m = filled(c, r, be, depth=r.choice([1, 2, 3]))
        c.note = '%s: %s = %r' % (be, model.describe(s), m)
        A = Machine(c, r, st, s, m, be)
        nodes = A.paths(lambda q: True)
        for p in nodes[:12]:
            A.node(p).load_from(A.node(p))
            A.check('copied %s to itself' % model.path_text(p))
        # two entries of a list, two equal storages in one
        t = gen.rand_schema(r, 2)
        s = schema.Compilation({'a': t, 'b': t, 'c': schema.List(t)})
        m1, m2, m3 = (gen.rand_model(r, t, .8) for _ in range(3))
        st2 = new(c, be, s)
        m = {'a': m1, 'b': m2, 'c': [m3, m1]}
        gen.fill_node(s, st2.data, m)
        data = st2.data
        c.note = '%s: %s = %r' % (be, model.describe(s), m)
        same_now(st2, m, 'filled')
        data.a.load_from(data.b)
        same_now(st2, dict(m, a=m2), 'a copied from b')
        data.c[1].load_from(data.c[0])
        same_now(st2, dict(m, a=m2, c=[m3, m3]), 'second entry from first')
        data.b.load_from(data.c[1])
        same_now(st2, dict(m, a=m2, c=[m3, m3], b=m3), 'b from an entry')
        data.b.clear()
        same_now(st2, dict(m, a=m2, c=[m3, m3], b=model.fresh(t)),
                 'b cleared')
        close(st)
        close(st2)

    tops = [None, 'Compilation', 'List', 'item', 'Compilation']
    hows = ['load_from', 'load_from', 'create_from', 'save_as']
    k = 0
    for i in range(N(ctx, 22, 350)):
        for be, be2 in itertools.product(BACKENDS, BACKENDS):
            yield 'copy:%d' % k, lambda c, r, be=be, be2=be2, \
                top=tops[k % 5], how=hows[(k // 5) % 4]: one(
                    c, r, be, be2, top, how)
            k += 1
    for i in range(N(ctx, 160, 3000)):
        yield 'incompatible:%d' % i, lambda c, r, be=BACKENDS[i % 4], \
            be2=BACKENDS[(i // 4) % 4]: incompatible(c, r, be, be2)
    for i in range(N(ctx, 80, 1500)):
        yield 'inside:%d' % i, lambda c, r, be=BACKENDS[i % 4]: inside(
            c, r, be)
    for be in BACKENDS:
        yield 'reserved:' + be, lambda c, r, be=be: reserved(c, r, be)


def check_list(node, s, m, what):
    expect(len(node) == len(m), '%s: %d entries instead of %d' % (
        what, len(node), len(m)))
    n = len(m)
    for i in range(n):
        expect(model.same_tree(s.subnode, m[i], model.read(
            s.subnode, node[i])), '%s: entry %d is %r instead of %r' % (
                what, i, model.read(s.subnode, node[i]), m[i]))
        expect(node[i - n] is node[i], 'negative index')
        expect(node[i].parent is node, 'parent of entry %d' % i)
        expect(node[i].schema_node is node.schema_node.subnode,
               'schema node of entry %d' % i)
    for bad in (n, n + 3, -n - 1):
        raises(IndexError, lambda: node[bad])
    seen = [x for x in node]
    expect(len(seen) == n and all(x is node[i] for i, x in enumerate(seen)),
           'iteration')
    part = node[1:3]
    expect(len(part) == len(m[1:3]) and all(
        x is y for x, y in zip(part, seen[1:3])), 'slice')


def P13(ctx):
    def one(c, r, be, sub):
        s = schema.List(sub)
        wrap = r.random() < .4
        ts = schema.Compilation({'w': s, 'v': schema.Bool()}) if wrap else s
        st = new(c, be, ts)
        m = model.fresh(ts)
        M = Machine(c, r, st, ts, m, be)
        path = ('w',) if wrap else ()
        n = r.choice([6, 10, 16])
        for _ in range(n):
            M.step(kinds=['append', 'append', 'append', 'lreplace', 'clear',
                          'reload', 'set'])
            node = M.node(path)
            check_list(node, s, model.mat(ts, M.m, path)[1],
                       'after ' + M.log[-1] if M.log else '')
        M.check()
        close(M.st)

    def long(c, r, be):
        """More than ten entries, continued after loading."""
        s = schema.List(schema.Scalar('int32'))
        st = new(c, be, s)
        want = []
        for k in (3, 8, 12, 40, 130):
            while len(want) < k:
                st.data.append(np.int32(len(want)))
                want.append(np.int32(len(want)))
            c.note = '%s %d entries' % (be, k)
            check_list(st.data, s, want, 'appended')
            if be != 'inmem':
                st.save()
                st = reload(st)
                check_list(st.data, s, want, 'loaded')
        for k in (11, 2, 0, 15):
            want = [np.int32(100 + i) for i in range(k)]
            st.data.replace(list(want))
            check_list(st.data, s, want, 'replaced')
            if be != 'inmem':
                st.save()
                st = reload(st)
                check_list(st.data, s, want, 'loaded')
            st.data.append(np.int32(-1))
            want.append(np.int32(-1))
            check_list(st.data, s, want, 'appended')
        st.data.replace(iter([np.int32(4), np.int32(5)]))
        check_list(st.data, s, [np.int32(4), np.int32(5)],
                   'replaced by an iterator')
        close(st)

    def falsy(c, r, be):
        for sub, vals in [(schema.Bool(), [False, True, False]),
                          (schema.String(), ['', 'a', '']),
                          (schema.Bytes(), [b'', b'a', b'']),
                          (schema.Scalar('int32'), [np.int32(0)] * 2),
                          (schema.Array('f8'), [np.zeros(0), np.zeros(1)]),
                          (schema.List(schema.Bool()), [[True], [False]])]:
            s = schema.List(sub)
            st = new(c, be, s)
            for v in vals:
                st.data.append(v)
            c.note = '%s %s %r' % (be, model.describe(s), vals)
            check_list(st.data, s, vals, 'appended')
            st.data.replace(vals)
            check_list(st.data, s, vals, 'replaced')
            if be != 'inmem':
                st.save()
                st = reload(st)
                check_list(st.data, s, vals, 'loaded')
            close(st)

    for be in BACKENDS:
        yield 'long:' + be, lambda c, r, be=be: long(c, r, be)
        yield 'falsy:' + be, lambda c, r, be=be: falsy(c, r, be)
    for i in range(N(ctx, 300, 6000)):
        def rnd(c, r, be=BACKENDS[i % 4]):
            one(c, r, be, gen.rand_schema(r, r.choice([0, 0, 1, 2])))
        yield 'random:%d' % i, rnd


def check_fields(st, s):
    for p, cs, node in model.walk(s, st.data):
        if model.is_comp(cs):
            expect(set(node.data_tree(include_empty=True)) ==
                   set(cs.subnodes), 'fields of %s' % model.path_text(p))
            d = dir(node)
            for n in cs.subnodes:
                f = getattr(node, n)
                expect(getattr(node, n) is f, 'field is not stable')
                expect(f.parent is node, 'parent of field %s' % n)
                expect(f.schema_node == cs.subnodes[n],
                       'schema node of %s' % n)
                expect(type(f).__name__ == type(cs.subnodes[n]).__name__,
                       'node type of %s' % n)
                expect(n in d, 'dir() lacks %s' % n)


def P14(ctx):
    def one(c, r, be):
        st, s, m = filled(c, r, be, top='Compilation', depth=3)
        M = Machine(c, r, st, s, m, be)
        check_fields(M.st, s)
        for _ in range(6):
            M.step(kinds=['creplace', 'creplace', 'clear', 'set', 'reload'])
            M.check('after ' + (M.log[-1] if M.log else 'nothing'))
            check_fields(M.st, s)
            forbid(c, r, M)
        close(M.st)

    def forbid(c, r, M):
        ps = [p for p in M.paths() if p]
        if not ps:
            return
        p = r.choice(ps)
        par = M.node(p[:-1])
        old = M.node(p)
        for v in r.sample([True, 'x', None, 5, old, {}, []], 3):
            if isinstance(p[-1], int):
                def do():
                    par[p[-1]] = v
            else:
                def do():
                    setattr(par, p[-1], v)
            raises(E.ResetSubnodeError, do)
            expect(M.node(p) is old, 'node was exchanged')
        if not isinstance(p[-1], int):
            raises(E.ResetSubnodeError, lambda: setattr(par, 'zz_new', 1))
            expect('zz_new' not in dir(par), 'attribute was created')
        M.check('after rejected assignment')

    def partial(c, r, be):
        names = ['a', 'b', 'c', 'd']
        s = schema.Compilation({n: schema.Scalar('int32') for n in names})
        for k in range(16):
            sub = {n: np.int32(i) for i, n in enumerate(names) if k >> i & 1}
            for prior in (None, np.int32(-5)):
                st = new(c, be, s)
                if prior is not None:
                    st.data.replace({n: prior for n in names})
                keys = list(sub)
                r.shuffle(keys)
                st.data.replace({n: sub[n] for n in keys})
                want = {n: sub.get(n, prior) for n in names}
                c.note = '%s replace(%r) over %r' % (be, sub, prior)
                same_now(st, want, 'partial replace')
                close(st)

    def names(c, r, be):
        """Fields of every kind of name, without storing them."""
        ns = ['_hidden', '__private', '_schema', '__dunder__', 'x', '_', '__',
              'with space', '\xfc', 'class', '1st', 'X', 'a.b', 'l']
        s = schema.Compilation({n: schema.Scalar('int32') if i % 2 else
                                schema.Compilation({n: schema.Bool()})
                                for i, n in enumerate(ns)})
        st = new(c, be, s)
        node = st.data
        c.note = '%s fields %r' % (be, ns)
        kids = {n: getattr(node, n) for n in ns}
        m = {n: None if i % 2 else {n: None} for i, n in enumerate(ns)}
        for i, n in enumerate(ns):
            expect(kids[n].schema_node is s.subnodes[n], 'schema of ' + n)
            expect(kids[n].parent is node, 'parent of ' + n)
            for v in (np.int32(1), True, None, kids[n], {n: True}, 'x'):
                raises(E.ResetSubnodeError, lambda: setattr(node, n, v))
                expect(getattr(node, n) is kids[n], 'node was exchanged')
                same_now(st, m, 'after rejected assignment')
        for i, n in enumerate(ns):
            v = np.int32(i) if i % 2 else {n: True}
            node.replace({n: v})
            m[n] = v
            same_now(st, m, 'after replacing ' + n)
        node.clear()
        same_now(st, {n: None if i % 2 else {n: None}
                      for i, n in enumerate(ns)}, 'cleared')
        close(st)

    for be in BACKENDS:
        yield 'names:' + be, lambda c, r, be=be: names(c, r, be)
    for be in BACKENDS:
        yield 'partial:' + be, lambda c, r, be=be: partial(c, r, be)
    for i in range(N(ctx, 260, 5000)):
        yield 'random:%d' % i, lambda c, r, be=BACKENDS[i % 4]: one(c, r, be)


# -- P15 ------------------------------------------------------------------------

def P15(ctx):
    PS = dsch.PseudoStorage

    def closed(ps):
        expect(ps.data is None and ps.storage is None
               and ps.schema_node is None, 'not closed: data=%r storage=%r '
               'schema_node=%r' % (ps.data, ps.storage, ps.schema_node))

    def opened(ps, s, m):
        expect(ps.data is not None, 'not open')
        expect(ps.schema_node == s, 'schema_node is %r' % ps.schema_node)
        expect(ps.data.schema_node == s, 'data.schema_node')
        if ps.storage is not None:
            expect(ps.data is ps.storage.data, 'data is not storage.data')
        got = model.read(s, ps.data)
        expect(model.same_tree(s, m, got), 'data is %r instead of %r'
               % (got, m))

    def h5close(ps):
        if ps.storage is not None:
            close(ps.storage)

    def alternatives(r, accept, others):
        alts = []
        for a in accept + others:
            alts.append(a if r.random() < .5 else a.hash())
        r.shuffle(alts)
        k = r.random()
        return alts if k < .6 else tuple(alts) if k < .8 else iter(alts)

    def existing(c, r, be, how):
        st, s, m = filled(c, r, be, depth=2)
        st.save()
        p = st.storage_path
        close(st)
        before = snap_dir(c.dir)
        others = [mutated(r, s) for _ in range(3)]
        others = [o for o in others if model.config(o) != model.config(s)]
        if not others:
            return
        c.note = '%s %s %s = %r' % (how, be, model.describe(s), m)
        kw = dict(defer_open=r.random() < .5)
        if how == 'same':
            ps = PS(p, shuffled(r, s), schema_alternatives=r.choice(
                [None, [], alternatives(r, [], others)]), **kw)
        elif how == 'alternative':
            ps = PS(p, others[0], schema_alternatives=alternatives(
                r, [s], others[1:]), **kw)
        else:
            alt = r.choice([None, [], alternatives(r, [], others[1:])])
            if kw['defer_open']:
                ps = PS(p, others[0], schema_alternatives=alt, **kw)
                closed(ps)
                for _ in range(2):
                    raises(E.InvalidSchemaError, ps.open)
                    closed(ps)
                raises(E.InvalidSchemaError, ps.__enter__)
                closed(ps)
                ps.close()
                closed(ps)
            else:
                raises(E.InvalidSchemaError, PS, p, others[0],
                       schema_alternatives=alt)
            if be != 'hdf5':
                expect(snap_dir(c.dir) == before, 'file was changed')
            st = dsch.load(p)
            same_now(st, m, 'file after rejection')
            close(st)
            return
        if kw['defer_open']:
            closed(ps)
            expect(snap_dir(c.dir) == before, 'deferred open touched files')
            ps.open()
        opened(ps, s, m)
        d, sto = ps.data, ps.storage
        raises(RuntimeError, ps.open)
        expect(ps.data is d and ps.storage is sto, 'second open changed')
        opened(ps, s, m)
        M = Machine(c, r, ps.storage, s, m, be)
        for _ in range(3):
            M.step(reloads=False)
        if model.invalid_nodes(s, M.m) or model.indep_missing(s, M.m) \
                or not savable(be, s, M.m):
            return
        if r.random() < .5:
            with ps as q:
                expect(q is ps and ps.data is d, 'with block')
        else:
            ps.close()
        closed(ps)
        close(sto)
        st = dsch.load(p)
        same_now(st, M.m, 'file after close')
        close(st)
        ps.close()
        closed(ps)
        ps.open()
        opened(ps, s, M.m)
        sto = ps.storage
        ps.close()
        closed(ps)
        close(sto)
        with ps:
            opened(ps, s, M.m)
            sto = ps.storage
        closed(ps)
        close(sto)

    def creating(c, r, be):
        s = gen.rand_schema(r, 2)
        m = gen.rand_model(r, s, .8, no_empty_entries=be == 'mat',
                           no_last_empty=True)
        if model.invalid_nodes(s, m):
            raise Skip()
        c.note = 'new %s %s = %r' % (be, model.describe(s), m)
        p = '::inmem::' if be == 'inmem' else c.path(EXT[be])
        alts = r.choice([None, [schema.List(s)], [schema.List(s).hash()]])
        if r.random() < .5:
            ps = PS(p, s, True, alts)
            closed(ps)
            expect(os.listdir(c.dir) == [], 'deferred open made a file')
            if r.random() < .5:
                with ps:
                    opened(ps, s, model.fresh(s))
                    gen.fill_node(s, ps.data, m)
                    sto = ps.storage
                closed(ps)
            else:
                ps.open()
                opened(ps, s, model.fresh(s))
                gen.fill_node(s, ps.data, m)
                sto = ps.storage
                ps.close()
                closed(ps)
        else:
            ps = PS(p, s, schema_alternatives=alts)
            opened(ps, s, model.fresh(s))
            gen.fill_node(s, ps.data, m)
            sto = ps.storage
            ps.close()
            closed(ps)
        close(sto)
        if be == 'inmem':
            ps.open()
            opened(ps, s, model.fresh(s))
            ps.close()
            closed(ps)
            expect(os.listdir(c.dir) == [], 'in-memory made a file')
            return
        st = dsch.load(p)
        same_now(st, m, 'file')
        expect(st.schema_node == s, 'schema of the file')
        close(st)
        ps.open()
        opened(ps, s, m)
        close(ps.storage)

    def node(c, r, be):
        st, s, m = filled(c, r, be, depth=2, top='Compilation')
        others = [o for o in (mutated(r, s) for _ in range(3))
                  if model.config(o) != model.config(s)]
        if not others:
            return
        p = r.choice([q for q, cs, n in model.walk(s, st.data)])
        nd = model.at(st.data, p)
        ns, nm = model.mat(s, m, p)
        oth = [o for o in (mutated(r, ns) for _ in range(3))
               if model.config(o) != model.config(ns)]
        if not oth:
            return
        c.note = 'node %s of %s %s' % (model.path_text(p), be,
                                       model.describe(s))
        before = snap_dir(c.dir) if be != 'hdf5' else None
        for main, alts, ok in [(shuffled(r, ns), None, True),
                               (oth[0], [ns], True),
                               (oth[0], [ns.hash()], True),
                               (oth[0], None, False),
                               (oth[0], [oth[0].hash()], False),
                               (oth[0], oth[1:], False)]:
            if ok:
                ps = PS(nd, main, schema_alternatives=alts)
                expect(ps.data is nd, 'data is not the node')
                expect(ps.storage is None, 'storage is not None')
                opened(ps, ns, nm)
                raises(RuntimeError, ps.open)
                expect(ps.data is nd, 'second open changed data')
                ps.close()
                closed(ps)
                with ps:
                    expect(ps.data is nd, 'data is not the node')
                closed(ps)
                same_now(st, m, 'data after close')
            else:
                raises(E.InvalidSchemaError, PS, nd, main,
                       schema_alternatives=alts)
                ps = PS(nd, main, True, alts)
                raises(E.InvalidSchemaError, ps.open)
                closed(ps)
        if before is not None:
            expect(snap_dir(c.dir) == before, 'node use touched the file')
        close(st)

    def raising(c, r, be):
        """Leaving the with block by an exception saves and closes, too."""
        s = schema.Compilation({'a': schema.Scalar('int32')})
        p = c.path(EXT[be])
        ps = PS(p, s)

        class Boom(Exception):
            pass
        sto = ps.storage
        try:
            with ps:
                ps.data.a.value = 5
                raise Boom()
        except Boom:
            pass
        else:
            raise Fail('exception was swallowed')
        closed(ps)
        close(sto)
        st = dsch.load(p)
        expect(st.data.a.value == 5, 'not saved')
        close(st)

    for be in FILES:
        yield 'raising:' + be, lambda c, r, be=be: raising(c, r, be)
    hows = ['same', 'alternative', 'rejected']
    for i in range(N(ctx, 240, 5000)):
        yield 'existing:%d' % i, lambda c, r, be=FILES[i % 3], \
            how=hows[(i // 3) % 3]: existing(c, r, be, how)
    for i in range(N(ctx, 100, 2000)):
        yield 'create:%d' % i, lambda c, r, be=BACKENDS[i % 4]: creating(
            c, r, be)
    for i in range(N(ctx, 80, 1500)):
        yield 'node:%d' % i, lambda c, r, be=BACKENDS[i % 4]: node(c, r, be)


# -- P16 - P19: reading -----------------------------------------------------------

def P16(ctx):
    def looks(c, r, st, s):
        """All reading operations at all nodes; returns their results."""
        out = []
        for p, cs, n in model.walk(s, st.data):
            out.append((p, n.empty, n.complete))
            out.append(norm_tree(n.node_tree()))
            if not model.is_item(cs) or not n.empty:
                out.append(repr(n))
            out.append(n.data_tree())
            out.append(n.data_tree(include_empty=True))
            out.append(cs.to_json())
            out.append(cs.to_dict())
            out.append(cs.hash())
            out.append(n.schema_node.hash())
            if model.is_list(cs):
                out.append(len(n))
                out.append(len([x for x in n]))
            if model.is_comp(cs):
                out.append(sorted(dir(n)))
            if model.is_item(cs):
                try:
                    out.append(n.value)
                except E.NodeEmptyError:
                    out.append('empty')
            try:
                n.validate()
                out.append('valid')
            except (E.ValidationError, E.SubnodeValidationError,
                    E.NodeEmptyError) as err:
                out.append(str(err))
        out.append(st.complete)
        out.append(st.schema_hash())
        try:
            st.validate()
        except (E.ValidationError, E.SubnodeValidationError,
                E.NodeEmptyError) as err:
            out.append(str(err))
        return out

    def norm_tree(t):
        return [(k, norm_tree(v)) for k, v in t.items()]

    def eq(a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict):
            return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
        return model.same(a, b)

    def one(c, r, be):
        st, s, m = filled(c, r, be, depth=r.choice([1, 2, 3]))
        if r.random() < .3:
            bad = model.copy_tree(s, m)
            invalidate(r, s, bad, be)
            if not model.indep_missing(s, bad) and savable(be, s, bad):
                st.data.clear()
                gen.fill_node(s, st.data, bad)
                m = read(st)
                c.note += ' / %r' % (m,)
        cfg, js = model.config(s), s.to_json()
        a = looks(c, r, st, s)
        same_now(st, m, 'after reading operations')
        b = looks(c, r, st, s)
        expect(eq(a, b), 'reading twice gives different results')
        same_now(st, m, 'after reading operations')
        expect(model.config(s) == cfg and s.to_json() == js,
               'schema was modified')
        # only the in-memory backend can hold every kind of invalid value
        dst = new(c, 'inmem' if model.invalid_nodes(s, m)
                  else r.choice(BACKENDS), s)
        dst.data.load_from(st.data)
        same_now(st, m, 'source after copying')
        close(dst)
        if be != 'inmem':
            nodes = [n for p, cs, n in model.walk(s, st.data)]
            st.save(force=True)
            same_now(st, m, 'after saving')
            expect(all(x is y for x, y in zip(nodes, [
                n for p, cs, n in model.walk(s, st.data)])),
                'saving exchanged nodes')
            st.save(force=True)
            same_now(st, m, 'after saving twice')
            path = st.storage_path
            close(st)
            before = snap_dir(c.dir)
            for _ in range(2):
                st = dsch.load(path, force=True)
                same_now(st, m, 'loaded')
                looks(c, r, st, s)
                close(st)
            if be != 'hdf5':
                expect(snap_dir(c.dir) == before, 'reading changed the file')
            st = dsch.load(path, force=True)
            same_now(st, m, 'loaded again')
            expect(model.config(st.schema_node) == cfg, 'stored schema')
        close(st)

    def anything(c, r, be):
        """Saving data that is not restored as it was, or not saved."""
        st, s, m = filled(c, r, be, depth=r.choice([1, 2, 3]),
                          fill=r.choice([0, .2, .5]), saveable=False)
        nodes = [n for p, cs, n in model.walk(s, st.data)]
        cfg = model.config(s)
        looks(c, r, st, s)
        for force in (False, True):
            try:
                st.save(force=force)
            except Exception:   # what saving raises is judged elsewhere
                pass
            same_now(st, m, 'after saving')
            now = [n for p, cs, n in model.walk(s, st.data)]
            expect(len(now) == len(nodes) and all(
                x is y for x, y in zip(nodes, now)), 'nodes were exchanged')
            expect(model.config(s) == cfg, 'schema was modified')
        close(st)

    for i in range(N(ctx, 120, 2000)):
        yield 'saved:%d' % i, lambda c, r, be=FILES[i % 3]: anything(
            c, r, be)
    for i in range(N(ctx, 260, 5000)):
        yield 'random:%d' % i, lambda c, r, be=BACKENDS[i % 4]: one(c, r, be)


def P17(ctx):
    def one(c, r, be, top):
        s = gen.rand_schema(r, r.choice([0, 1, 2, 3, 4]), top=top)
        m = gen.rand_model(r, s, r.choice([0, .3, .6, .9, 1]))
        c.note = '%s %s = %r' % (be, model.describe(s), m)
        st = new(c, be, s)
        gen.fill_node(s, st.data, m)
        check(c, r, st, s, m)
        close(st)

    def check(c, r, st, s, m):
        for p, cs, n in model.walk(s, st.data):
            cm = model.mat(s, m, p)[1]
            ways = [({}, False), ({'include_empty': False}, False),
                    ({'include_empty': True}, True)]
            # the first and the last way are not always the same
            r.shuffle(ways)
            for kw, inc in ways:
                got = n.data_tree(**kw)
                want = model.data_tree(cs, cm, inc)
                expect(model.same_export(want, got),
                       '%s.data_tree(%r) is %r instead of %r' % (
                           model.path_text(p), kw, got, want))

    def table(c, r):
        s = schema.Compilation({
            'f': schema.Bool(), 's': schema.String(),
            'n': schema.Scalar('int32'), 'e': schema.Array('f8'),
            'l': schema.List(schema.Bool()),
            'c': schema.Compilation({'x': schema.Bytes()})})
        for f, t, n, e, l, x in itertools.product(
                [None, False], [None, ''], [None, np.int32(0)],
                [None, np.zeros(0)], [[], [None], [False, None, True]],
                [None, b'']):
            m = {'f': f, 's': t, 'n': n, 'e': e, 'l': l, 'c': {'x': x}}
            c.note = repr(m)
            st = new(c, 'inmem', s)
            gen.fill_node(s, st.data, m)
            check(c, r, st, s, m)

    yield 'table:0', table
    yield from histories(ctx, lambda c, M: check(
        c, M.r, M.st, M.s, M.m), N(ctx, 200, 3000))
    tops = [None, 'Compilation', 'List', 'Compilation', 'item']
    for i in range(N(ctx, 700, 12000)):
        be = BACKENDS[i % 4] if i % 3 == 0 else 'inmem'
        yield 'random:%d' % i, lambda c, r, be=be, top=tops[i % 5]: one(
            c, r, be, top)


def now_value(t):
    n = dt.datetime.now()
    return {'Date': n.date(), 'DateTime': n, 'Time': n.time()}[t]


def P18(ctx):
    KINDS = ['Date', 'DateTime', 'Time']

    def check_new(s, node, t0):
        """All nodes below a new node hold defaults, or nothing."""
        if model.is_comp(s):
            for n, x in s.subnodes.items():
                check_new(x, model.child(node, n), t0)
        elif model.is_list(s):
            expect(len(node) == 0, 'new list has entries')
        elif getattr(s, 'set_on_create', False):
            t = type(s).__name__
            expect(not node.empty, '%s: new node is empty' % t)
            v, t1 = node.value, dt.datetime.now()
            expect(model.valid_item(s, v), '%s: default is %r' % (t, v))
            if t == 'DateTime':
                expect(t0 <= v <= t1, 'default %r' % v)
            elif t == 'Date':
                expect(t0.date() <= v <= t1.date() and type(v) is dt.date,
                       'default %r' % v)
            elif t0.date() == t1.date():
                expect(t0.time() <= v <= t1.time(), 'default %r' % v)
        else:
            expect(node.empty, '%s: new node is not empty'
                   % type(s).__name__)

    def one(c, r, be):
        s = gen.rand_schema(r, r.choice([1, 2, 3]), on_create=True,
                            top=r.choice([None, 'Compilation', 'List']))
        flip(r, s)
        c.note = '%s %s' % (be, model.describe(s))
        t0 = dt.datetime.now()
        st = new(c, be, s)
        check_new(s, st.data, t0)
        for p, cs, n in list(model.walk(s, st.data)):
            if model.is_list(cs):
                t0 = dt.datetime.now()
                n.append()
                check_new(cs.subnode, n[len(n) - 1], t0)
                n.append()
                check_new(cs.subnode, n[len(n) - 1], t0)
        # clear some, keep some; then save/load and copy
        st.data.clear()
        m = gen.rand_model(r, s, r.choice([0, .3, .7]),
                           no_empty_entries=be == 'mat', no_last_empty=True)
        fill(s, st.data, m)
        c.note = '%s %s = %r' % (be, model.describe(s), m)
        same_now(st, m, 'after clearing and filling')
        if be != 'inmem':
            for _ in range(2):
                st.save(force=True)
                st = reload(st)
                same_now(st, m, 'after loading')
        for be2 in r.sample(BACKENDS, 2):
            dst = new(c, be2, s)
            dst.data.load_from(st.data)
            same_now(dst, m, 'copy in ' + be2)
            same_now(st, m, 'source')
            close(dst)
            dst = dsch.create_from('::inmem::', st)
            same_now(dst, m, 'created copy')
        close(st)

    def flip(r, s):
        if model.is_comp(s):
            for x in s.subnodes.values():
                flip(r, x)
            if r.random() < .8:
                for k in KINDS:
                    s.subnodes['on_' + k] = getattr(schema, k)(
                        set_on_create=r.random() < .8)
        elif model.is_list(s):
            flip(r, s.subnode)

    def fill(s, node, m):
        """Fill; nodes that are to be empty are cleared."""
        if model.is_comp(s):
            for n, v in m.items():
                fill(s.subnodes[n], model.child(node, n), v)
        elif model.is_list(s):
            for v in m:
                node.append()
                fill(s.subnode, node[len(node) - 1], v)
        elif m is None:
            node.clear()
        else:
            node.value = m

    def top(c, r, be, kind, on):
        s = getattr(schema, kind)(set_on_create=on)
        c.note = '%s %s' % (be, model.describe(s))
        t0 = dt.datetime.now()
        st = new(c, be, s)
        check_new(s, st.data, t0)
        if on:
            v = st.data.value
            expect(model.same(v, st.data.value), 'default is not stable')
            if be != 'inmem':
                st.save()
                st = reload(st)
                expect(model.same(v, st.data.value), 'default as stored')
        st.data.clear()
        expect(st.data.empty, 'clear')
        if be != 'inmem':
            st.save()
            st = reload(st)
            expect(st.data.empty, 'stored empty, loaded with a value')
        src = dsch.create('::inmem::', s)
        src.data.clear()
        dst = new(c, be, s)
        dst.data.load_from(src.data)
        expect(dst.data.empty, 'copied empty, but has a value')
        close(st)
        close(dst)

    for be, kind, on in itertools.product(BACKENDS, KINDS, (True, False)):
        yield 'top:%s%s%d' % (be, kind, on), lambda c, r, be=be, kind=kind, \
            on=on: top(c, r, be, kind, on)
    for i in range(N(ctx, 260, 5000)):
        yield 'random:%d' % i, lambda c, r, be=BACKENDS[i % 4]: one(c, r, be)


def P19(ctx):
    def label(s, m):
        t = type(s).__name__
        if model.is_comp(s) or model.is_list(s):
            return '(%s)' % t
        if m is None:
            return '(%s): <empty>' % t
        if t == 'Array':
            return '(%s): %s array' % (t, 'x'.join(str(x) for x in m.shape))
        if t == 'Scalar':
            return '(%s): {} %s'.format(m) % (t, s.unit)
        return '(%s): %s' % (t, m)

    def want(s, m, prefix=''):
        """[(label, [children])]"""
        if model.is_comp(s):
            kids = [want(x, m[n], n + ' ') for n, x in s.subnodes.items()]
        elif model.is_list(s):
            kids = [want(s.subnode, v, '[%d] ' % i)
                    for i, v in enumerate(m)]
        else:
            kids = []
        return (prefix + label(s, m), kids)

    def got(tree):
        return [(k, got(v)) for k, v in tree.items()]

    def canon(x, s):
        return x

    def flat(x):
        yield x[0]
        for k in x[1]:
            yield from flat(k)

    def compare(w, g, s, where):
        expect(w[0].rstrip() == g[0].rstrip(), 'label %r instead of %r' % (
            g[0], w[0]))
        wk, gk = w[1], g[1]
        expect(len(wk) == len(gk), '%s: %d sub-nodes shown instead of %d'
               % (w[0], len(gk), len(wk)))
        for a, b in zip(wk, gk):
            compare(a, b, s, where)

    def one(c, r, be, top):
        s = gen.rand_schema(r, r.choice([0, 1, 2, 3, 4]), top=top)
        m = gen.rand_model(r, s, r.choice([0, .4, .8, 1]))
        c.note = '%s %s = %r' % (be, model.describe(s), m)
        st = new(c, be, s)
        gen.fill_node(s, st.data, m)
        check(st, s, m)
        close(st)

    def check(st, s, m):
        for p, cs, n in model.walk(s, st.data):
            cm = model.mat(s, m, p)[1]
            t = got(n.node_tree())
            expect(len(t) == 1, 'more than one root')
            compare(want(cs, cm), t[0], cs, p)
            text = repr(n)
            expect(isinstance(text, str), 'repr')
            pos = 0
            for lab in flat(want(cs, cm)):
                first = lab.rstrip().split('\n')[0]
                k = text.find(first, pos)
                expect(k >= 0, 'printed form lacks %r (or has it in another '
                       'place)' % first)
                pos = k + len(first)

    def same_entries(c, r, be):
        """Equal entries are still shown one by one."""
        for sub, v in [(schema.Bool(), True), (schema.Array('f8'),
                                               np.zeros(2)),
                       (schema.Scalar('int32', unit='V'), np.int32(1)),
                       (schema.Compilation({'a': schema.Bool()}),
                        {'a': True}), (schema.List(schema.Bool()),
                                       [True, True])]:
            s = schema.List(sub)
            m = [v] * 12
            st = new(c, be, s)
            gen.fill_node(s, st.data, m)
            c.note = '%s %s' % (be, model.describe(s))
            check(st, s, m)
            close(st)

    for be in BACKENDS:
        yield 'equal:' + be, lambda c, r, be=be: same_entries(c, r, be)
    yield from histories(ctx, lambda c, M: check(
        M.st, M.st.schema_node, M.m),
                         N(ctx, 200, 3000))
    tops = [None, 'Compilation', 'List', 'Compilation', 'item']
    for i in range(N(ctx, 600, 10000)):
        be = BACKENDS[i % 4] if i % 3 == 0 else 'inmem'
        yield 'random:%d' % i, lambda c, r, be=be, top=tops[i % 5]: one(
            c, r, be, top)


# -- P20 ------------------------------------------------------------------------

def P20(ctx):
    def table(c, r):
        shapes = [None, (), (3,), (None,), (0,), (1, 2), (None, None),
                  [4, 5], (1, 2, 3)]
        deps = [None, 't', ('t',), ('t', 'u'), ('t', None), (None, None),
                ['t', 'u'], ('a', 'b', 'c'), ()]
        for mx, mn, nd, dep in itertools.product(shapes, shapes,
                                                 [None, 0, 1, 2, 3], deps):
            kw = {}
            if mx is not None:
                kw['max_shape'] = mx
            if mn is not None:
                kw['min_shape'] = mn
            if nd is not None:
                kw['ndim'] = nd
            if dep is not None:
                kw['depends_on'] = dep
            if mx == () or mn == ():
                # an empty tuple cannot limit anything; see DESIGN.md
                continue
            c.note = 'Array(%r)' % (kw,)
            bad = bool(mx is not None and mn is not None
                       and len(mx) != len(mn))
            shape = mx if mx is not None else mn
            ndim = len(shape) if shape is not None else \
                (1 if nd is None else nd)
            d = (dep,) if isinstance(dep, str) else dep
            if d and len(d) != ndim:
                bad = True
            if bad:
                raises(ValueError, schema.Array, 'f8', **kw)
            else:
                s = schema.Array('f8', **kw)
                expect(s.ndim == ndim, 'ndim is %r' % s.ndim)
                expect(model.norm(s.depends_on) == model.norm(d),
                       'depends_on is %r' % (s.depends_on,))
                expect(model.norm(s.max_shape) == model.norm(mx)
                       and model.norm(s.min_shape) == model.norm(mn),
                       'shape limits changed')

    def types(c, r):
        good = {'Array': {'dtype': 'f8'}, 'Bytes': {}, 'Bool': {},
                'Compilation': {'subnodes': {}}, 'Date': {}, 'DateTime': {},
                'List': {'subnode': {'node_type': 'Bool', 'config': {}}},
                'Scalar': {'dtype': 'f8'}, 'String': {}, 'Time': {}}
        for name in list(good) + ['', 'bool', 'ARRAY', 'Foo', 'Node', 'Lists',
                                  'Str', 'dict', 'object', 'np', 'json',
                                  'ValidationError', 'node_from_dict',
                                  'datetime', '__name__', 'Arrayy']:
            d = {'node_type': name, 'config': good.get(name, {})}
            c.note = repr(d)
            if name in good:
                n = schema.node_from_dict(d)
                expect(type(n) is getattr(schema, name), 'type %r' % type(n))
                n = schema.node_from_json(json.dumps(d))
                expect(type(n) is getattr(schema, name), 'type %r' % type(n))
            else:
                raises(ValueError, schema.node_from_dict, d)
                raises(ValueError, schema.node_from_json, json.dumps(d))
                for wrap in ({'node_type': 'List', 'config': {'subnode': d}},
                             {'node_type': 'Compilation', 'config': {
                                 'subnodes': {'a': {'node_type': 'Bool',
                                                    'config': {}}, 'x': d}}}):
                    raises(ValueError, schema.node_from_dict, wrap)
            for cls in good:
                if cls == name:
                    n = getattr(schema, cls).from_dict(d)
                    expect(type(n) is getattr(schema, cls), 'type')
                else:
                    raises(ValueError, getattr(schema, cls).from_dict, d)

    def rnd(c, r):
        n1, n2, nd = r.choice([None, 1, 2, 3, 4, 5, 6]), r.choice(
            [None, 1, 2, 3, 4, 5, 6]), r.choice([None, 0, 1, 2, 5])
        kw = {}
        if n1:
            kw['max_shape'] = tuple(r.choice([None, 0, 5])
                                    for _ in range(n1))
        if n2:
            kw['min_shape'] = tuple(r.choice([None, 0, 5])
                                    for _ in range(n2))
        if nd is not None:
            kw['ndim'] = nd
        k = r.choice([None, 1, 2, 3, 4, 5, 6])
        if k:
            kw['depends_on'] = tuple(r.choice(['t', None])
                                     for _ in range(k))
        ndim = n1 or n2 or (1 if nd is None else nd)
        bad = (n1 and n2 and n1 != n2) or (k and k != ndim)
        c.note = 'Array(%r)' % kw
        if bad:
            raises(ValueError, schema.Array, 'f8', **kw)
        else:
            s = schema.Array('f8', **kw)
            expect(s.ndim == ndim, 'ndim is %r' % s.ndim)

    yield 'table:0', table
    yield 'types:0', types
    for i in range(N(ctx, 1500, 20000)):
        yield 'random:%d' % i, rnd


# -- P21 -----------------------------------------------------------------------

def rand_index(r, shape):
    """Integers, forward slices and Ellipsis, valid for the shape."""
    def one(n):
        k = r.random()
        if n and k < .35:
            return r.randrange(-n, n)
        if k < .55:
            return slice(None)
        # ends beyond the array are cut off, also negative ones
        lo = r.choice([None, r.randrange(-n - 2, n + 2)])
        hi = r.choice([None, r.randrange(-n - 2, n + 3)])
        return slice(lo, hi, r.choice([None, None, 1, 2, 3]))
    k = r.random()
    if k < .12:
        return r.choice([Ellipsis, ()])
    n = r.randrange(0, len(shape) + 1) if k < .5 else len(shape)
    ix = [one(x) for x in shape[:n]]
    if len(shape) and k > .85:
        # the last dimensions, after an Ellipsis
        ix = [Ellipsis] + [one(x) for x in shape[-1:]]
    if len(ix) == 1 and r.random() < .7:
        return ix[0]
    return tuple(ix)


def eq_elems(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return model.same(np.atleast_1d(a), np.atleast_1d(b))


def P21(ctx):
    def schemas(r, s):
        """s alone, or somewhere in a tree: (schema, way to the node)."""
        k = r.randrange(4)
        if k == 0:
            return s, lambda d: d
        t = schema.Compilation({'o': schema.Array('int32'), 'a': s})
        if k == 1:
            return t, lambda d: d.a
        if k == 2:
            return schema.List(s), lambda d: d[1]
        return schema.List(t), lambda d: d[1].a

    def rest(c, nodes, kept):
        expect(set(nodes) == set(kept) and all(
            not nodes[p].empty and model.same(x, nodes[p].value)
            for p, x in kept.items()), 'another node changed')

    def one(c, r, be, s=None):
        s = s or gen.item_schema(r, kinds=['Array'])
        if s.depends_on:
            raise Skip
        v = gen.valid_value(r, s)
        if not savable(be, s, v):
            raise Skip
        top, way = schemas(r, s)
        c.note = '%s %s = %r' % (be, model.describe(top), v)
        st = new(c, be, top)
        if model.is_list(top):
            st.data.append()
            st.data.append()
        def others():
            return {model.path_text(p): n for p, cs, n in model.walk(
                st.schema_node, st.data) if model.is_item(cs)
                and n is not way(st.data)}
        for n in others().values():
            n.value = gen.valid_value(r, n.schema_node)
        kept = {p: n.value.copy() for p, n in others().items()}
        node = way(st.data)
        node.value = v.copy()
        want = v.copy()
        if be != 'inmem' and r.random() < .5:
            st.save(force=True)
            st = reload(st)
            node = way(st.data)
        par = node.parent
        sch = node.schema_node
        for step in range(8):
            if r.random() < .3:
                # another value, with another shape
                if r.random() < .3:
                    node.clear()
                want = gen.valid_value(r, s)
                c.note += ' value = %r' % (want,)
                if r.random() < .5:
                    node.value = want.copy()
                else:
                    node.replace(want.copy())
            ix = rand_index(r, want.shape)
            c.note += ' [%r]' % (ix,)
            got = node[ix]
            expect(eq_elems(got, want[ix]), 'node%r is %r instead of %r' % (
                [ix], got, want[ix]))
            expect(model.same(want, node.value), 'value is %r after reading '
                   'elements' % (node.value,))
            x = gen.array_of(r, want.dtype, np.shape(want[ix]))
            if x.shape == () or r.random() < .3:
                x = gen.array_of(r, want.dtype, (1,))[0]
            if np.size(want[ix]) == 0:
                continue
            c.note += ' = %r' % (x,)
            node[ix] = x
            want[ix] = x
            expect(model.same(want, node.value), 'value is %r instead of '
                   '%r' % (node.value, want))
            expect(model.same(want, node.value), 'second read differs')
            expect(not node.empty and node.complete, 'empty after a change')
            expect(eq_elems(node[ix], want[ix]), 'elements read back')
            expect(model.same(want, node.data_tree()), 'data_tree')
            try:
                s.validate(want, [])
                ok = True
            except E.ValidationError:
                ok = False
            try:
                node.validate()
                expect(ok, 'an invalid array passes after a change')
            except E.ValidationError:
                expect(not ok, 'a valid array fails after a change')
            expect(node.parent is par and node.schema_node is sch
                   and way(st.data) is node, 'node attributes changed')
        rest(c, others(), kept)
        if be != 'inmem':
            st.save(force=True)
            st = reload(st)
            expect(model.same(want, way(st.data).value), 'value is %r '
                   'instead of %r after saving and loading' % (
                       way(st.data).value, want))
            rest(c, others(), kept)
        close(st)

    def history(c, r, be):
        """Values of changing shape, looked at in between."""
        n = r.choice([1, 2, 2, 3])
        top, way = schemas(r, schema.Array('int32', ndim=n))
        st = new(c, be, top)
        if model.is_list(top):
            st.data.append()
            st.data.append()
        node = way(st.data)
        c.note = '%s %s' % (be, model.describe(top))
        want = None
        for step in range(14):
            k = r.random()
            if want is None or k < .3:
                want = gen.array_of(r, 'int32', [r.choice(
                    [1, 1, 2, 3]) for _ in range(n)])
                c.note += ' value = %r' % (want,)
                node.value = want.copy()
            elif k < .4:
                node.clear()
                c.note += ' clear'
                want = None
                continue
            elif k < .6:
                ix = rand_index(r, want.shape)
                x = gen.array_of(r, 'int32', (1,))[0]
                c.note += ' [%r] = %r' % (ix, x)
                node[ix] = want[ix] = x
            for ix in (0, -1, slice(None), Ellipsis, slice(1),
                       rand_index(r, want.shape)):
                expect(eq_elems(node[ix], want[ix]),
                       'node%r is %r instead of %r' % (
                           [ix], node[ix], want[ix]))
            expect(model.same(want, node.value), 'value is %r instead of '
                   '%r' % (node.value, want))
        close(st)

    plain = [schema.Array('int32'), schema.Array('f8', ndim=2),
             schema.Array('bool'), schema.Array('f8', ndim=3),
             schema.Array('int16', max_shape=(4, None), min_shape=(1, 2),
                          max_value=7, min_value=-3),
             schema.Array('f4', max_shape=(3, 2), min_shape=(3, 2)),
             schema.Array('c16'), schema.Array('u1', max_shape=(5,))]
    for be in BACKENDS:
        for i, s in enumerate(plain):
            for k in range(N(ctx, 3, 20)):
                yield 'plain:%s%d.%d' % (be, i, k), \
                    lambda c, r, be=be, s=s: one(c, r, be, s)
    for i in range(N(ctx, 80, 1000)):
        yield 'history:%d' % i, lambda c, r, be=BACKENDS[i % 4]: history(
            c, r, be)
    for i in range(N(ctx, 250, 6000)):
        yield 'random:%d' % i, lambda c, r, be=BACKENDS[i % 4]: one(
            c, r, be)


PROPS = {k: v for k, v in list(globals().items())
         if len(k) == 3 and k[0] == 'P' and k[1:].isdigit()}
