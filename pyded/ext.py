"""What the verifier knows about everything outside dsch: Python builtins and
the external contracts of the libraries dsch calls.  These are assumptions
(trusted base); TRUSTED lists the ones a run has used.
"""
import ast
import copy
import datetime
import string

import numpy

import z3

from .values import *  # noqa: F401,F403
from .values import mro  # noqa: F401
from . import engine as en

USED = set()


def used(what):
    USED.add(what)


# -- names ------------------------------------------------------------------------

PYTYPES = {'bool': bool, 'int': int, 'float': float, 'str': str,
           'bytes': bytes, 'list': list, 'tuple': tuple, 'dict': dict,
           'set': set, 'frozenset': frozenset, 'object': object,
           'type': type, 'complex': complex, 'bytearray': bytearray,
           'memoryview': memoryview, 'slice': slice, 'property': property}
for _n, _v in vars(__import__('builtins')).items():
    if isinstance(_v, type) and issubclass(_v, BaseException):
        PYTYPES[_n] = _v

KNOWN_ATTRS = {n for t in (
    object, numpy.ndarray, numpy.float64, bytes, str, list, tuple, dict, int,
    float, complex, datetime.datetime, datetime.time, bytearray, memoryview)
    for n in dir(t)}

BUILTINS = {'len', 'isinstance', 'issubclass', 'hasattr', 'getattr',
            'setattr', 'enumerate', 'zip', 'range', 'max', 'min', 'any',
            'all', 'map', 'filter', 'reversed', 'callable', 'repr', 'iter',
            'sorted', 'sum', 'print', 'open', 'id', 'vars', 'dir', 'abs',
            'next', 'format', 'hash'}

NP_GENERIC = {'numpy.generic', 'numpy.number', 'numpy.integer',
              'numpy.floating', 'numpy.inexact', 'numpy.bool_', 'numpy.bool',
              'numpy.complexfloating', 'numpy.signedinteger',
              'numpy.unsignedinteger', 'numpy.str_', 'numpy.bytes_',
              'numpy.character'}
NP_SUB = {('numpy.number', 'numpy.generic'),
          ('numpy.integer', 'numpy.number'),
          ('numpy.integer', 'numpy.generic'),
          ('numpy.inexact', 'numpy.number'),
          ('numpy.inexact', 'numpy.generic'),
          ('numpy.floating', 'numpy.inexact'),
          ('numpy.floating', 'numpy.number'),
          ('numpy.floating', 'numpy.generic'),
          ('numpy.signedinteger', 'numpy.integer'),
          ('numpy.signedinteger', 'numpy.number'),
          ('numpy.unsignedinteger', 'numpy.integer'),
          ('numpy.unsignedinteger', 'numpy.number')}
LAYOUT = (bytes, str, dict, list, tuple, set, datetime.date, datetime.time)


def builtin_name(eng, name):
    if name in PYTYPES:
        return PYTYPES[name]
    if name in BUILTINS:
        return Builtin(name)
    if name == 'NotImplemented':
        return External('NotImplemented')
    eng.raise_(NameError, name)


def external(name):
    if name in ('datetime.date', 'datetime.datetime', 'datetime.time'):
        return getattr(datetime, name.split('.')[1])
    if name in PYTYPES:
        return PYTYPES[name]
    return External(name)


def ext_attr(eng, v, name):
    if name == '__name__':
        return v.name.split('.')[-1]
    full = v.name + '.' + name
    if full == 'h5py.version.version':
        return '3.16.0'
    if full in ('os.path.sep', 'os.sep'):
        return '/'
    return external(full)


def type_relation(a, b):
    """'sub' if every instance of a is one of b, 'disjoint' if none is."""
    if isinstance(a, type) and isinstance(b, type):
        if issubclass(a, b):
            return 'sub'
        if issubclass(b, a):
            return None
        if a in LAYOUT and b in LAYOUT:
            return 'disjoint'
        if {a, b} & {bool, type(None)}:
            return 'disjoint'
        return None
    if isinstance(a, External) and isinstance(b, External):
        if (a.name, b.name) in NP_SUB:
            return 'sub'
        if {a.name, b.name} & {'numpy.ndarray'} and (
                {a.name, b.name} & NP_GENERIC):
            return 'disjoint'
        return None
    e, o = (a, b) if isinstance(a, External) else (b, a)
    if isinstance(e, External) and isinstance(o, type):
        if e is a and o is object:
            return 'sub'
        if e.name == 'numpy.ndarray' and o in LAYOUT + (
                bool, int, float, complex, type(None)):
            return 'disjoint'
        if e.name in ('numpy.number', 'numpy.integer', 'numpy.floating') \
                and o in LAYOUT + (bool, type(None)):
            return 'disjoint'
    if isinstance(a, ClassInfo) and isinstance(b, ClassInfo):
        return 'sub' if a.issub(b) else None
    return None


def suffix_funcs(eng):
    return [(s, f) for (s, f) in eng.isreg.get('suffixes', {}).items()]


def suffix_fun(eng, suffix):
    reg = eng.isreg.setdefault('suffixes', {})
    if suffix not in reg:
        f = z3.Function('endswith:' + suffix, Str, Bool)
        reg[suffix] = f
        for s, c in eng.lits.items():
            eng.axiom(f(c) == z3.BoolVal(s.endswith(suffix)))
        x = z3.Const('x!sfx', Str)
        for other, g in reg.items():
            if other == suffix:
                continue
            if suffix.endswith(other):
                eng.axiom(z3.ForAll([x], z3.Implies(f(x), g(x)),
                                    patterns=[f(x)]))
            elif other.endswith(suffix):
                eng.axiom(z3.ForAll([x], z3.Implies(g(x), f(x)),
                                    patterns=[g(x)]))
            else:
                eng.axiom(z3.ForAll([x], z3.Not(z3.And(f(x), g(x))),
                                    patterns=[f(x)]))
                eng.axiom(z3.ForAll([x], z3.Not(z3.And(f(x), g(x))),
                                    patterns=[g(x)]))
    return reg[suffix]


def no_attr(eng, t, name):
    """AttributeError, unless values of type t do have the attribute."""
    if hasattr(t, name):
        raise Unsupported('%s.%s' % (t.__name__, name))
    eng.raise_(AttributeError, name)


# -- opaque values -----------------------------------------------------------------

def cfg(eng):
    return eng.uf('cfg', Sch, U)


def u_len(eng, v):
    has = eng.uf('has_len', U, Bool)(v)
    for t in (bytes, str, list, tuple, dict):
        eng.assume(z3.Implies(eng.isinst(v, t), has))
    if not eng.branch(has):
        eng.raise_(TypeError, 'object has no len()')
    n = eng.uf('len', U, Int)(v)
    eng.assume(n >= 0)
    return n


def u_eq(eng, a, b):
    """== of opaque values: uninterpreted, symmetric; identical values whose
    == is reflexive are equal."""
    a, b = eng.to_u(a), eng.to_u(b)
    if a.eq(b):
        return eng.uf('selfeq', U, Bool)(a)
    f = eng.uf('ueq', U, U, Bool)
    key = ('ueq', min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id()))
    if key not in eng.isreg:
        eng.isreg[key] = (a, b)
        x, y = z3.Const('x!ueq', U), z3.Const('y!ueq', U)
        if 'ueq' not in eng.isreg:
            eng.isreg['ueq'] = True
            eng.axiom(z3.ForAll([x, y], f(x, y) == f(y, x),
                                patterns=[f(x, y)]))
            eng.axiom(z3.ForAll([x], f(x, x) == eng.uf(
                'selfeq', U, Bool)(x), patterns=[f(x, x)]))
    return f(a, b)


def u_order(eng, op, a, b):
    return en.Cmp(op, a, b)


def u_attr(eng, v, name):
    """Attributes of opaque values that are arrays or numbers."""
    arr = eng.isinst(v, External('numpy.ndarray'))
    num = eng.isinst(v, External('numpy.number'))
    if name in ('dtype', 'shape', 'ndim', 'size', 'tolist', 'T', 'copy',
                'tobytes', 'astype', 'reshape', 'any', 'all', 'max', 'min',
                'item', 'flatten', 'ravel', 'squeeze'):
        if not eng.branch(z3.Or(arr, num)):
            # strings, dates, lists ... have none of these
            if any(hasattr(t, name) for t in (str, bytes, list, dict, tuple,
                                              datetime.datetime)):
                raise Unsupported('attribute %s of an opaque value' % name)
            eng.raise_(AttributeError, name)
        eng.assume(v != eng.to_u(None))
        return arr_attr(eng, v, name)
    if name in ('year', 'month', 'day', 'hour', 'minute', 'second',
                'microsecond', 'tzinfo', 'fold', 'date', 'time',
                'isoformat', 'replace'):
        need = {'year': (datetime.date,), 'month': (datetime.date,),
                'day': (datetime.date,)}.get(
            name, (datetime.datetime, datetime.time))
        if name in ('date', 'time'):
            need = (datetime.datetime,)
        ok = z3.Or(*[eng.isinst(v, t) for t in need])
        if not eng.branch(ok):
            eng.raise_(AttributeError, name)
        if name == 'tzinfo':
            return None     # naive values only, see USED
        if name in ('date', 'time', 'isoformat', 'fold', 'replace'):
            return NativeBM(name, lambda *a, **k: dt_method(
                eng, v, name, a, k))
        return eng.uf('dt:' + name, U, Int)(v)
    if name in ('strip', 'lstrip', 'rstrip'):
        if not eng.branch(z3.Or(eng.isinst(v, str), eng.isinst(v, bytes))):
            raise Unsupported('attribute %s of an opaque value' % name)

        def strip(*a):
            if a:
                raise Unsupported(name)
            r = eng.uf('u.' + name, U, U)(v)
            eng.assume(eng.isinst(r, str) == eng.isinst(v, str))
            eng.assume(eng.isinst(r, bytes) == eng.isinst(v, bytes))
            eng.assume(u_len(eng, r) <= u_len(eng, v))
            return r
        return NativeBM(name, strip)
    if name in ('decode', 'encode', 'startswith', 'endswith', 'split',
                'strip', 'items', 'keys', 'values', 'get', 'append'):
        raise Unsupported('attribute %s of an opaque value' % name)
    if name in KNOWN_ATTRS:
        raise Unsupported('attribute %s of an opaque value' % name)
    # anything else: an unknown attribute
    has = eng.uf('has:' + name, U, Bool)(v)
    if not eng.branch(has):
        eng.raise_(AttributeError, name)
    return eng.uf('attr:' + name, U, U)(v)


def dt_method(eng, v, name, args, kwargs):
    def fields(t):
        return [eng.uf('dt:' + f, U, Int)(v) for f in DT_FIELDS[t]]
    if name in ('date', 'time') and not args and not kwargs:
        return from_fields(eng, getattr(datetime, name), fields(
            getattr(datetime, name)))
    if name == 'replace' and not args:
        for t in (datetime.datetime, datetime.date, datetime.time):
            if eng.branch(eng.uf('typeof', U, Ty)(v) == eng.ty(t)):
                fs = fields(t)
                for k, x in kwargs.items():
                    if k not in DT_FIELDS[t]:
                        raise Unsupported('replace(%s)' % k)
                    x = eng.force(x)
                    fs[DT_FIELDS[t].index(k)] = z3.IntVal(x) if isinstance(
                        x, int) else x
                return from_fields(eng, t, fs)
    raise Unsupported('datetime method ' + name)


def shape_parts(eng, v, ndim=None):
    n = eng.uf('arr:ndim', U, Int)(v)
    s = eng.uf('arr:shape', U, Int, Int)
    eng.assume(n >= 0)
    if not hasattr(eng, '_shape_ax'):
        eng._shape_ax = True
        x, j = z3.Const('x!sh', U), z3.Int('j!sh')
        eng.axiom(z3.ForAll([x, j], s(x, j) >= 0, patterns=[s(x, j)]))
    return (Seg(n, lambda j: s(v, j), label='shape'),)


def arr_attr(eng, v, name):
    if name == 'dtype':
        return eng.uf('arr:dtype', U, U)(v)
    if name == 'ndim':
        n = eng.uf('arr:ndim', U, Int)(v)
        eng.assume(n >= 0)
        return n
    if name == 'size':
        n = eng.uf('arr:size', U, Int)(v)
        eng.assume(n >= 0)
        return n
    if name == 'shape':
        if eng.bound is not None:
            nd = eng.uf('arr:ndim', U, Int)(v)
            s = eng.uf('arr:shape', U, Int, Int)
            for k in range(0, 4):
                eng.isreg.setdefault(('shp', v.get_id(), k), v)
            i = eng.choose([nd == k for k in range(0, 4)])
            for k in range(i):
                eng.assume(s(v, z3.IntVal(k)) >= 0)
            return tuple(s(v, z3.IntVal(k)) for k in range(i))
        return STuple(shape_parts(eng, v))
    if name in ('any', 'all', 'max', 'min', 'item', 'tolist', 'copy',
                'tobytes'):
        def call(*a, **k):
            if a or k:
                raise Unsupported('ndarray.%s with arguments' % name)
            if name == 'copy':
                return v
            if name in ('any', 'all'):
                return eng.uf('np.' + name, U, Bool)(v)
            return eng.uf('arr.' + name, U, U)(v)
        return NativeBM(name, call)
    raise Unsupported('array attribute ' + name)


def term_attr(eng, v, name):
    s = v.sort()
    if s == U:
        return u_attr(eng, v, name)
    if s == Node:
        return eng.nodec.attr(eng, v, name)
    if s == Sch:
        return eng.schc.attr(eng, v, name)
    if s == Ty:
        if name in ('__name__', '__qualname__'):
            return eng.uf('tyname', Ty, Str)(v)
    if s in (Int, Bool):
        if name in ('bit_length', 'to_bytes', 'is_integer'):
            raise Unsupported('int method')
        no_attr(eng, int, name)
    raise Unsupported('attribute %s of %s' % (name, s))


def term_setattr(eng, v, name, value):
    if is_sort(v, Node):
        return eng.nodec.set(eng, v, name, value)
    raise Unsupported('attribute assignment to an opaque value')


def term_iter(eng, v):
    if is_sort(v, U):
        n = u_len(eng, v)
        el = eng.uf('elem', U, Int, U)
        return (Seg(n, lambda j: el(v, j), label='elems'),)
    if is_sort(v, Node):
        return eng.nodec.iter(eng, v)
    if is_sort(v, Str):
        raise Unsupported('iteration over text')
    eng.raise_(TypeError, 'not iterable')


def term_getitem(eng, v, k):
    if is_sort(v, U):
        if k == ():
            return eng.uf('item()', U, U)(v)
        if isinstance(k, en.Cmp):
            return eng.uf('item', U, U, U)(v, eng.to_u(k))
        if is_int(k) or is_text(k):
            return eng.uf('item', U, U, U)(v, eng.to_u(k))
    if is_sort(v, Node):
        return eng.nodec.getitem(eng, v, k)
    raise Unsupported('subscript of opaque value')


def term_setitem(eng, v, k, x):
    raise Unsupported('item assignment to opaque value')


def node_truth(eng, v):
    """A node is true, except for lists without entries."""
    mod = eng.module('dsch.data')
    for c in mod.ns.values():
        if isinstance(c, ClassInfo) and (c.lookup('__bool__') or (
                c.lookup('__len__') and c.name != 'List')):
            raise Unsupported('truth of a node')
    nc = eng.nodec
    t = nc.tree(eng, v)
    some = eng.uf('has entries', t.sort(), Bool)(t)
    eng.assume(z3.Implies(z3.Not(some), nc.is_empty(eng, t)))
    return z3.Or(eng.schc.type_of(eng, nc.sch(eng, v)) != eng.ty(
        eng.cls('dsch.schema', 'List')), some)


# -- text -----------------------------------------------------------------------------

def rope(parts):
    r = Rope(parts)
    if not r.parts:
        return ''
    if len(r.parts) == 1 and isinstance(r.parts[0], str):
        return r.parts[0]
    if len(r.parts) == 1 and is_sort(r.parts[0], Str):
        return r.parts[0]
    return r


def to_text(eng, v):
    v = eng.force(v)
    if is_text(v):
        return v
    if v is None or isinstance(v, (bool, float, int)):
        return str(v)
    if isinstance(v, bytes):
        return str(v)
    if is_int(v):
        return Rope([Dec(v)])
    if isinstance(v, Ref):
        p = eng.h(v)
        if isinstance(p, HObj):
            if 'child' in p.ghost:
                return eng.uf('text of error', Int, Str)(z3.IntVal(v.oid))
            if isinstance(p.cls, ClassInfo):
                if p.cls.lookup('__str__'):
                    return eng.call(eng.getattr(v, '__str__'), [])
                if issubclass(p.cls.pybase(), BaseException):
                    return exc_str(eng, v, p)
                if p.cls.lookup('__repr__'):
                    return eng.call(eng.getattr(v, '__repr__'), [])
            if isinstance(p.cls, type) and issubclass(p.cls, BaseException):
                return exc_str(eng, v, p)
            c = p.attrs.get('content')
            if isinstance(c, tuple) and c[0] == 'text':
                return c[1]
            if isinstance(c, tuple) and c[0] == 'json':
                return v
    if isinstance(v, (type, ClassInfo, External)):
        return eng.uf('str:ty', Ty, Str)(eng.ty(v))
    if isinstance(v, (tuple, STuple)):
        try:
            u = eng.to_u(v)
        except Unsupported:
            return eng.fresh('text', Str)
        return eng.uf('str', U, Str)(u)
    if is_sort(v, Ty):
        return eng.uf('str:ty', Ty, Str)(v)
    if isinstance(v, Ref) or is_sort(v, Node) or is_sort(v, Sch):
        return eng.fresh('text', Str)
    if isinstance(v, z3.BoolRef):
        return eng.uf('str:bool', Bool, Str)(v)
    return eng.uf('str', U, Str)(eng.to_u(v))


def exc_str(eng, v, p):
    args = p.attrs.get('args', ())
    if len(args) == 1:
        return to_text(eng, args[0])
    if not args:
        return ''
    return eng.fresh('text', Str)


def fmt_call(eng, fmt, args, kwargs):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format string')
    out, auto = [], 0
    for litr, field, spec, conv in string.Formatter().parse(fmt):
        out.append(litr)
        if field is None:
            continue
        if spec or conv:
            raise Unsupported('format spec')
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            if field not in kwargs:
                eng.raise_(KeyError, field)
            v = kwargs[field]
        else:
            base, _, rest = field.partition('.')
            if not rest.isidentifier():
                raise Unsupported('format field')
            v = eng.getattr(args[int(base)] if base.isdigit()
                            else kwargs[base], rest)
        out.append(to_text(eng, v))
    return rope(out)


def percent(eng, fmt, arg):
    args = list(arg) if isinstance(arg, tuple) else [arg]
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == '%' and i + 1 < len(fmt):
            c = fmt[i + 1]
            if c == '%':
                out.append('%')
            elif c in 'sd':
                if not args:
                    eng.raise_(TypeError, 'format')
                out.append(to_text(eng, args.pop(0)))
            else:
                raise Unsupported('%' + c)
            i += 2
            continue
        out.append(fmt[i])
        i += 1
    return rope(out)


def prefix_test(eng, v, pre):
    if isinstance(v, str):
        return v.startswith(pre)
    r = v if isinstance(v, Rope) else Rope([v])
    if not r.parts:
        return pre == ''
    h = r.parts[0]
    if isinstance(h, str):
        if len(h) >= len(pre):
            return h.startswith(pre)
        if not pre.startswith(h):
            return False
        raise Unsupported('startswith')
    if isinstance(h, Dec):
        if pre and pre[0] not in '0123456789-':
            return False
        raise Unsupported('startswith')
    f = eng.uf('startswith:' + pre, Str, Bool)
    key = ('pre', pre)
    reg = eng.isreg.setdefault(key, set())
    for s, c in eng.lits.items():
        if s not in reg:
            reg.add(s)
            eng.axiom(f(c) == z3.BoolVal(s.startswith(pre)))
    if len(r.parts) == 1:
        return f(h)
    # text in front of other text: decided by the first part if it is long
    # enough, which the contract of the first part has to guarantee
    if eng.valid_here(z3.And(h != eng.lit(''), z3.BoolVal(len(pre) == 1))):
        return f(h)
    raise Unsupported('startswith')


def suffix_test(eng, v, suf):
    if isinstance(v, str):
        return v.endswith(suf)
    r = v if isinstance(v, Rope) else Rope([v])
    t = r.parts[-1]
    if isinstance(t, str):
        if len(t) >= len(suf):
            return t.endswith(suf)
        if not suf.endswith(t):
            return False
        raise Unsupported('endswith')
    if isinstance(t, Dec) or len(r.parts) > 1:
        raise Unsupported('endswith')
    return suffix_fun(eng, suf)(t)


def text_attr(eng, v, name):
    def m(f):
        return NativeBM(name, f)
    if name == 'format':
        return m(lambda *a, **k: fmt_call(eng, v, a, k))
    if name in ('startswith', 'endswith'):
        test = prefix_test if name == 'startswith' else suffix_test

        def call(x):
            x = eng.force(x)
            xs = x if isinstance(x, tuple) else (x,)
            r = False
            for s in xs:
                if not isinstance(s, str):
                    raise Unsupported(name)
                r = eng.or_(r, test(eng, v, s))
            return r
        return m(call)
    if name == 'join':
        return m(lambda x: join(eng, v, x))
    if name == 'encode':
        def enc(*a, **k):
            return eng.uf('encode', Str, U)(eng.text(v))
        return m(enc)
    if name in ('lower', 'upper', 'strip', 'split', 'rsplit', 'partition',
                'rpartition', 'replace', 'isdigit', 'isidentifier',
                'splitlines', 'count', 'find', 'title', 'lstrip', 'rstrip',
                'removeprefix', 'removesuffix'):
        v = eng.unrope(v)
        if isinstance(v, str):
            def conc(*a):
                if not all(isinstance(x, (str, int)) for x in a):
                    raise Unsupported(name)
                r = getattr(v, name)(*a)
                if isinstance(r, list):
                    return eng.new_list([('i', x) for x in r])
                return r
            return m(conc)
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip'):
            return m(lambda *a: eng.uf('str.' + name, Str, Str)(
                eng.text(v)) if not a else _uns('strip'))
        if name in ('split', 'rsplit', 'rpartition', 'partition'):
            return m(lambda *a: split(eng, v, name, a))
        if name in ('removeprefix', 'replace') and isinstance(v, Rope):
            def cut(x, y=''):
                h = v.parts[0]
                if not (isinstance(x, str) and isinstance(h, str) and h == x
                        and not any(q.isdigit() for q in x) and len(
                            v.parts) == 2 and isinstance(v.parts[1], Dec)):
                    raise Unsupported(name)
                return rope([y, v.parts[1]])
            return m(cut)
        raise Unsupported('str.' + name)
    no_attr(eng, str, name)


def _uns(what):
    raise Unsupported(what)


def split(eng, v, how, args):
    """split of a rope at a one-character separator; Str terms in ropes are
    names without separators (isident) or arbitrary text, whose pieces are
    unknown up to the next literal separator."""
    sep = args[0] if args else None
    th = eng.isreg.get('paths')
    if th is not None and is_sort(v, Str) and z3.is_app(v) and \
            v.decl().eq(th.dot):
        return th.split(v, sep, how, args)
    if not isinstance(sep, str) or len(sep) != 1:
        raise Unsupported('split')
    r = v if isinstance(v, Rope) else Rope([v])
    pieces = [[]]
    head = ()
    open_ = False
    for p in r.parts:
        if isinstance(p, str):
            bits = p.split(sep)
            if open_ and len(bits) > 1:
                m = eng.fresh('pieces', Int)
                eng.assume(m >= 1)
                w = eng.uf('piece', Str, Int, Str)
                whole = eng.text(rope([x for q in pieces for x in q] or ['']))
                head = (Seg(m, lambda j, w=w, t=whole: w(t, j),
                            label='pieces'),)
                pieces = [[bits[1]]]
                open_ = False
                for b in bits[2:]:
                    pieces.append([b])
                continue
            pieces[-1].append(bits[0])
            for b in bits[1:]:
                pieces.append([b])
        else:
            pieces[-1].append(p)
            if is_sort(p, Str) and not eng.provable(
                    eng.uf('isident', Str, Bool)(p)):
                open_ = True
    if open_:
        raise Unsupported('split of arbitrary text')
    pieces = [rope(p) for p in pieces]
    parts = head + tuple(('i', p) for p in pieces)
    if how == 'split' and len(args) == 1 or how == 'rsplit' and \
            len(args) == 1:
        return eng.new_list(parts)
    if how == 'rsplit' and args[1] == 1 or how == 'rpartition':
        if len(parts) < 2:
            raise Unsupported(how)
        before = eng.fresh('before', Str)
        last = parts[-1][1]
        if how == 'rpartition':
            return (before, sep, last)
        return eng.new_list([('i', before), ('i', last)])
    raise Unsupported(how)


def join(eng, sep, x):
    parts = eng.iter_parts(x)
    if all(not isinstance(p, Seg) for p in parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.append(sep)
            e = eng.force(p[1])
            if is_sort(e, U):
                raise Unsupported('join of opaque values')
            if not is_text(e):
                eng.raise_(TypeError, 'join')
            out.append(e)
        return rope(out)
    if len(parts) == 1 and parts[0].g is None:
        s = parts[0]
        j = z3.Int('j!join')
        arr = z3.Lambda([j], eng.text(s.v(j)))
        return eng.uf('join', Str, Int, arr.sort(), Str)(
            eng.text(sep), s.n, arr)
    raise Unsupported('join')


def text_contains(eng, item, cont):
    if isinstance(item, str) and isinstance(cont, str):
        return item in cont
    raise Unsupported('substring test')


def slice_(eng, v, lo, hi, st):
    w = eng.force(v)
    if isinstance(w, Ref) and hasattr(getattr(eng.h(w), 'cls', None), 'ops'):
        return eng.getitem(w, slice(lo, hi, st))
    if st is not None:
        if st == -1 and lo is None and hi is None:
            v = eng.force(v)
            ps = eng.seq_parts(v)
            if all(not isinstance(p, Seg) for p in ps):
                r = tuple(p[1] for p in reversed(ps))
                return r if isinstance(v, tuple) else eng.new_list(
                    [('i', x) for x in r])
        raise Unsupported('slice step')
    if isinstance(v, (str, bytes)) and all(
            x is None or isinstance(x, int) for x in (lo, hi)):
        return v[lo:hi]
    v = eng.unrope(v)
    if isinstance(v, Rope) and hi is None and isinstance(lo, int) and \
            lo >= 0 and v.parts:
        h = v.parts[0]
        if isinstance(h, str) and len(h) >= lo:
            return rope([h[lo:]] + list(v.parts[1:]))
        raise Unsupported('slice of text')
    if isinstance(v, tuple) and all(x is None or isinstance(x, int)
                                    for x in (lo, hi)):
        return v[lo:hi]
    is_list = isinstance(v, Ref) and isinstance(eng.h(v), HList)
    if is_list or isinstance(v, STuple):
        parts = eng.seq_parts(v)
        if lo is None and hi is None:
            return eng.new_list(parts) if is_list else v
        if all(not isinstance(p, Seg) for p in parts) and all(
                x is None or isinstance(x, int) for x in (lo, hi)):
            ps = parts[lo:hi]
            return eng.new_list(ps) if is_list else STuple(ps)
        if len(parts) == 1 and parts[0].g is None and hi == -1 and \
                lo is None:
            s = parts[0]
            ns = Seg(z3.If(s.n > 0, s.n - 1, 0), s.v, label=s.label)
            return eng.new_list([ns]) if is_list else STuple([ns])
        raise Unsupported('slice')
    if isinstance(v, Ref):
        p = eng.h(v)
        if isinstance(p, HObj) and isinstance(p.cls, ClassInfo) and \
                p.cls.lookup('__getitem__'):
            return eng.call(eng.getattr(v, '__getitem__'),
                            [slice(lo, hi, st)])
    raise Unsupported('slice of %r' % (v,))


# -- lists, dicts, tuples --------------------------------------------------------------

def list_attr(eng, ref, name):
    def m(f):
        return NativeBM(name, f)

    def payload():
        return eng.h(ref)

    if name == 'append':
        return m(lambda x: eng.put(ref, HList(payload().parts
                                              + (('i', x),))))
    if name == 'extend':
        return m(lambda x: eng.put(ref, HList(
            payload().parts + tuple(eng.iter_parts(x)))))
    if name == 'clear':
        return m(lambda: eng.put(ref, HList()))
    if name == 'copy':
        return m(lambda: eng.new_list(payload().parts))
    if name == 'pop':
        def pop(i=-1):
            ps = payload().parts
            if any(isinstance(p, Seg) for p in ps) or not isinstance(i, int):
                raise Unsupported('list.pop')
            if not -len(ps) <= i < len(ps):
                eng.raise_(IndexError, 'pop')
            ps = list(ps)
            x = ps.pop(i)
            eng.put(ref, HList(ps))
            return x[1]
        return m(pop)
    if name == 'insert':
        def ins(i, x):
            ps = list(payload().parts)
            if i == 0:
                eng.put(ref, HList([('i', x)] + ps))
                return
            if any(isinstance(p, Seg) for p in ps) or not isinstance(i, int):
                raise Unsupported('list.insert')
            ps.insert(i, ('i', x))
            eng.put(ref, HList(ps))
        return m(ins)
    if name == 'index':
        def index(x):
            raise Unsupported('list.index')
        return m(index)
    if name in ('sort', 'reverse', 'remove', 'count'):
        raise Unsupported('list.' + name)
    no_attr(eng, list, name)


def tuple_attr(eng, v, name):
    no_attr(eng, tuple, name)


def dict_view(eng, p, what):
    parts = []
    for e in p.parts:
        if isinstance(e, Seg):
            if what == 'keys':
                s = Seg(e.n, lambda j, e=e: e.k(j), e.g, label='keys')
            elif what == 'values':
                s = Seg(e.n, e.v, e.g, label='values')
            else:
                s = Seg(e.n, lambda j, e=e: (e.k(j), e.v(j)), e.g,
                        label='items')
            s.root_seg = e
            s.k, s.inv = e.k, e.inv
            parts.append(s)
        elif what == 'keys':
            parts.append(('i', e[1]))
        elif what == 'values':
            parts.append(('i', e[2]))
        else:
            parts.append(('i', (e[1], e[2])))
    v = View(parts)
    v.dict = p
    return v


def dict_attr(eng, ref, name):
    def m(f):
        return NativeBM(name, f)

    def payload():
        return eng.h(ref)

    if name in ('keys', 'values', 'items'):
        return m(lambda: dict_view(eng, payload(), name))
    if name == 'get':
        def get(k, d=None):
            ok, x = eng.dict_get(payload(), k)
            return x if ok else d
        return m(get)
    if name == 'pop':
        def pop(k, *d):
            ok, x = eng.dict_get(payload(), k)
            if not ok:
                if d:
                    return d[0]
                eng.raise_(KeyError, k)
            eng.dict_del(ref, k)
            return x
        return m(pop)
    if name == 'setdefault':
        def setdefault(k, d=None):
            ok, x = eng.dict_get(payload(), k)
            if ok:
                return x
            eng.dict_set(ref, k, d)
            return d
        return m(setdefault)
    if name == 'clear':
        return m(lambda: eng.put(ref, HDict()))
    if name == 'copy':
        return m(lambda: eng.new_dict(payload().parts))
    if name == 'update':
        def update(other=None, **kw):
            if other is not None:
                o = eng.force(other)
                if not (isinstance(o, Ref) and isinstance(eng.h(o), HDict)):
                    raise Unsupported('dict.update')
                for e in eng.h(o).parts:
                    if isinstance(e, Seg):
                        if payload().parts:
                            raise Unsupported('dict.update')
                        eng.put(ref, HDict(payload().parts + (e,)))
                    else:
                        eng.dict_set(ref, e[1], e[2])
            for k, x in kw.items():
                eng.dict_set(ref, k, x)
        return m(update)
    if name == 'fromkeys':
        raise Unsupported('dict.fromkeys')
    no_attr(eng, dict, name)


def value_attr(eng, v, name):
    if isinstance(v, View) and name in ('isdisjoint',):
        raise Unsupported('view method')
    if isinstance(v, STuple):
        no_attr(eng, tuple, name)
    if isinstance(v, bytes) and name == 'decode':
        return NativeBM(name, lambda *a: v.decode(*a))
    if isinstance(v, (bool, int, float, bytes)):
        no_attr(eng, type(v), name)
    if isinstance(v, en.Cmp):
        if name in ('any', 'all'):
            return NativeBM(name, lambda: np_any(eng, v) if name == 'any'
                            else np_all(eng, v))
    if isinstance(v, (BM, NativeBM, Builtin)):
        if name in ('__name__',):
            return getattr(v, 'name', None) or v.func.name
        no_attr(eng, type(eng.__init__), name)
    raise Unsupported('attribute %s of %r' % (name, v))


def type_attr(eng, v, name):
    if v in (datetime.date, datetime.datetime, datetime.time):
        if name in ('today', 'now', 'utcnow') and hasattr(v, name):
            return NativeBM(name, lambda *a: now(eng, v, name, a))
        if name in ('combine', 'fromisoformat', 'strptime', 'min', 'max'):
            raise Unsupported('datetime.' + name)
    if v is dict and name == 'fromkeys':
        raise Unsupported('dict.fromkeys')
    if v is object and name in ('__setattr__', '__getattribute__',
                                '__dir__'):
        if name == '__setattr__':
            return NativeBM(name, lambda o, n, x: obj_setattr(eng, o, n, x))
        raise Unsupported('object.' + name)
    if name == '__mro__':
        return v.__mro__
    if isinstance(v, type) and issubclass(v, BaseException) and \
            name == '__init__':
        return NativeBM(name, lambda o, *a: eng.put(
            o, eng.h(o).with_attr('args', tuple(a))))
    if hasattr(v, name):
        raise Unsupported('%s.%s' % (v.__name__, name))
    eng.raise_(AttributeError, name)


def clock(eng, t, zone='clock'):
    """The current time, read as a value of type t."""
    f = [eng.uf(zone + ':' + n, Int, Int)(eng.st.ghost.get(
        'clock', z3.IntVal(0))) for n in DT_FIELDS[t]]
    return from_fields(eng, t, f)


def now(eng, t, name, args):
    if args:
        raise Unsupported('now(tz)')
    used('datetime: today()/now() return the current naive date/time')
    eng.st.ghost['clockread'] = True
    return clock(eng, t, 'utc' if name == 'utcnow' else 'clock')


def from_fields(eng, t, fs):
    """The naive value of type t with the given (valid) fields."""
    u = mk_dt(eng, t, fs)
    for n, f in zip(DT_FIELDS[t], fs):
        eng.assume(eng.uf('dt:' + n, U, Int)(u) == f)
    eng.assume(eng.isinst(u, t))
    if t is datetime.datetime:
        eng.assume(eng.isinst(u, datetime.date))
    return dt_value(eng, u, t)


DT_FIELDS = {datetime.date: ('year', 'month', 'day'),
             datetime.datetime: ('year', 'month', 'day', 'hour', 'minute',
                                 'second', 'microsecond'),
             datetime.time: ('hour', 'minute', 'second', 'microsecond')}


def dt_value(eng, u, t):
    """Assume that u is a naive value of type t: it is determined by its
    fields."""
    used('datetime: a naive date/datetime/time is determined by its fields')
    fs = [eng.uf('dt:' + f, U, Int)(u) for f in DT_FIELDS[t]]
    eng.assume(eng.uf('typeof', U, Ty)(u) == eng.ty(t))
    eng.assume(mk_dt(eng, t, fs) == u)
    return u


def mk_dt(eng, t, fs):
    f = eng.uf('mk:' + t.__name__, *([Int] * len(fs) + [U]))
    return f(*fs)


# -- attributes of exceptions and other objects -----------------------------------------

def exc_attr(eng, v, p, name):
    if issubclass(p.cls.pybase(), BaseException):
        if name in ('__cause__', '__context__'):
            return p.attrs.get(name)
        if name == 'args':
            return p.attrs.get('args', ())
    return NotImplemented


def object_attr(eng, v, p, name):
    if name in ('__dir__', '__setattr__', '__eq__', '__ne__', '__hash__',
                '__init__', '__str__', '__repr__'):
        raise Unsupported('object.' + name)
    return NotImplemented


def obj_setattr(eng, o, name, value):
    eng.raw_setattr(o, name, value)


def super_native(eng, s, cls, name):
    me = s.self_
    if name == '__init__':
        base = cls.pybase()
        if issubclass(base, BaseException):
            return NativeBM(name, lambda *a, **k: eng.put(
                me, eng.h(me).with_attr('args', tuple(a))))

        def init(*a, **k):
            if a or k:
                eng.raise_(TypeError, 'object.__init__')
        return NativeBM(name, init)
    if name == '__setattr__':
        return NativeBM(name, lambda n, x: obj_setattr(eng, me, n, x))
    if name == '__dir__':
        return NativeBM(name, lambda: eng.new_list(
            [('i', x) for x in eng.h(me).attrs]
            + [('i', x) for c in cls.mro if isinstance(c, ClassInfo)
               for x in c.ns]))
    if name == '__getattribute__':
        return NativeBM(name, lambda n: eng.getattr(me, n))
    if name == '__eq__':
        return NativeBM(name, lambda o: eng.is_(me, o))
    return NotImplemented


def native_init(eng, obj, cls, args, kwargs):
    if issubclass(cls.pybase(), BaseException):
        if kwargs:
            eng.raise_(TypeError, 'keyword arguments')
        eng.put(obj, eng.h(obj).with_attr('args', tuple(args)))
        return
    if args or kwargs:
        eng.raise_(TypeError, 'takes no arguments')


def schema_contract(eng, v, p, name):
    return eng.schc.obj_attr(eng, v, p, name)


def globals_dict(eng, m):
    parts = []
    for k in m.ns:
        x = eng.resolve(m.ns[k], m, k, m.ns)
        parts.append(('i', k, x))
    return eng.new_dict(parts)


def getitem_iter(eng, v, p):
    """Iteration through __len__ and __getitem__ (sequence protocol): the
    elements are __getitem__(0), ... until it raises IndexError."""
    g = eng.getattr(v, '__getitem__')
    n = eng.length(v)
    if isinstance(n, int):
        return tuple(('i', eng.call(g, [z3.IntVal(j)])) for j in range(n))
    # the object must behave as a list over a stored sequence
    k = eng.fresh('it', Int)
    base = eng.st.copy()
    base.pc += [0 <= k, k < n]
    outs = eng.explore(lambda: eng.call(g, [k]), base)
    base2 = eng.st.copy()
    base2.pc += [k == n]
    ends = eng.explore(lambda: eng.call(g, [k]), base2)
    for o in ends:
        if o.kind != 'raise' or not eng.is_exc_in(o, IndexError):
            raise Unsupported('__getitem__ does not end the iteration')
    if any(o.kind != 'return' for o in outs) or not outs:
        raise Unsupported('__getitem__ raises during iteration')
    if any(en_heap_changed(eng, o) for o in outs):
        raise Unsupported('__getitem__ has effects')
    pairs = [(z3.simplify(z3.And(*o.pc[len(base.pc):]))
              if len(o.pc) > len(base.pc) else z3.BoolVal(True), o.value)
             for o in outs]
    from . import loops
    val = loops.merged(pairs, eng)
    eng.st.fresh = max([eng.st.fresh] + [o.st.fresh for o in outs])
    return (Seg(n, lambda j: en.subst_value(val, [(k, j)], eng),
                label='iter'),)


def en_heap_changed(eng, o):
    return any(o.st.heap.get(i) is not p for i, p in eng.st.heap.items())


def seg_kwargs(eng, f, seg, kwargs):
    if f == External('numpy.savez') and getattr(seg, 'flat_of', None):
        return dict(kwargs, **{'** %d' % len(kwargs): seg})
    raise Unsupported('** of unknown length')


def invert(eng, v):
    raise Unsupported('~')


def bitop(eng, op, a, b):
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(
            b, (bool, z3.BoolRef)):
        return eng.and_(a, b) if isinstance(op, ast.BitAnd) else eng.or_(
            a, b)
    if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(
            op, ast.BitOr) and isinstance(eng.h(a), HDict) and isinstance(
                eng.h(b), HDict):
        d = eng.new_dict(eng.h(a).parts)
        eng.call(eng.getattr(d, 'update'), [b])
        return d
    return NotImplemented


# -- builtins ------------------------------------------------------------------------------

def isinstance_(eng, v, t):
    t = eng.force(t)
    if isinstance(t, tuple):
        r = False
        for x in t:
            r = eng.or_(r, isinstance_(eng, v, x))
        return r
    if not isinstance(t, (type, ClassInfo, External)):
        raise Unsupported('isinstance with %r' % (t,))
    v = eng.force(v)
    if t is object:
        return True
    if is_sort(v, U):
        if t is type(None):
            return v == eng.to_u(None)
        return eng.isinst(v, t)
    if is_sort(v, Sch):
        return eng.schc.isinstance(eng, v, t)
    if is_sort(v, Node):
        return eng.nodec.isinstance(eng, v, t)
    if is_text(v):
        return t is str
    if isinstance(v, z3.BoolRef):
        return t in (bool, int)
    if is_int(v):
        return t is int
    if isinstance(v, (STuple,)):
        return t is tuple
    if v is None or isinstance(v, (bool, float, bytes, tuple)):
        return isinstance(t, type) and isinstance(v, t)
    if isinstance(v, (type, ClassInfo)):
        return t is type
    if isinstance(v, Ref):
        p = eng.h(v)
        if isinstance(p, HList):
            return t is list
        if isinstance(p, HDict):
            return t is dict
        c = p.cls
        if hasattr(c, 'ops'):
            return c.ops.isinstance(eng, p, t)
        if isinstance(c, ClassInfo):
            return c.issub(t)
        if isinstance(c, type) and isinstance(t, type):
            return issubclass(c, t)
        if isinstance(c, External):
            return c == t or (c.name, getattr(t, 'name', '')) in NP_SUB
        return False
    if isinstance(v, en.Frozen):
        if isinstance(v.payload, HDict):
            return t is dict
        if isinstance(v.payload, HList):
            return t is list
        if isinstance(v.payload.cls, ClassInfo):
            return v.payload.cls.issub(t)
    if isinstance(v, (Func, BM, NativeBM, Builtin, External, Module)):
        return False
    raise Unsupported('isinstance of %r' % (v,))


def issubclass_(eng, a, b):
    a, b = eng.force(a), eng.force(b)
    if isinstance(b, tuple):
        return any(issubclass_(eng, a, x) for x in b)
    if isinstance(a, ClassInfo):
        return a.issub(b)
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    if isinstance(a, (type, External)) and isinstance(b, ClassInfo):
        return False
    if isinstance(a, (type, External)) and isinstance(b, (type, External)):
        if a == b or b is object or type_relation(a, b) == 'sub':
            return True
        if isinstance(a, type) and isinstance(b, External):
            return False
        if type_relation(a, b) == 'disjoint':
            return False
        raise Unsupported('issubclass of %r, %r' % (a, b))
    if is_sort(a, Ty) and a.decl().name() == 'typeof':
        # isinstance() asks for the same, unless __class__ is overridden
        return isinstance_(eng, a.arg(0), b)
    if a is None or isinstance(a, (int, str, float, bytes, tuple)):
        eng.raise_(TypeError, 'issubclass() arg 1 must be a class')
    raise Unsupported('issubclass of %r' % (a,))


def zipped(eng, seqs):
    ps = [list(eng.iter_parts(s)) for s in seqs]
    out = []
    while all(ps):
        heads = [p[0] for p in ps]
        if all(not isinstance(h, Seg) for h in heads):
            out.append(('i', tuple(h[1] for h in heads)))
            for p in ps:
                p.pop(0)
            continue
        if all(len(p) == 1 for p in ps) and all(
                isinstance(h, Seg) and h.g is None for h in heads):
            n = heads[0].n
            for h in heads[1:]:
                if not (is_z3(n) and is_z3(h.n) and n.eq(h.n)):
                    n = z3.If(n <= h.n, n, h.n)
            out.append(Seg(n, lambda j, hs=heads: tuple(h.v(j) for h in hs),
                           label='zip'))
            break
        # a fixed number of items against a family: take them by index
        fixed = [i for i, p in enumerate(ps)
                 if all(not isinstance(x, Seg) for x in p)]
        if fixed:
            m = min(len(ps[i]) for i in fixed)
            for j in range(m):
                row = []
                stop = False
                for p in ps:
                    if j < len(p) and all(not isinstance(x, Seg)
                                          for x in p[:j + 1]):
                        row.append(p[j][1])
                    else:
                        n = eng.parts_len(p)
                        if not eng.branch(eng.b_cmp('>', n, j)):
                            stop = True
                            break
                        row.append(eng.index_parts(p, j))
                if stop:
                    break
                out.append(('i', tuple(row)))
            break
        raise Unsupported('zip')
    return View(out)


def enumerated(eng, v, start=0):
    off = start
    out = []
    for p in eng.iter_parts(v):
        if isinstance(p, Seg):
            if p.g is not None:
                raise Unsupported('enumerate of filtered sequence')
            out.append(Seg(p.n, lambda j, p=p, off=off: (j + off, p.v(j)),
                           label='enumerate'))
            off = off + p.n
        else:
            out.append(('i', (off, p[1])))
            off = off + 1
    return View(out)


def ranged(eng, args):
    lo, hi, st = 0, None, 1
    if len(args) == 1:
        hi = args[0]
    elif len(args) == 2:
        lo, hi = args
    else:
        lo, hi, st = args
    lo, hi = eng.force(lo), eng.force(hi)
    if not (is_int(lo) and is_int(hi)):
        if is_sort(hi, U) or is_sort(lo, U):
            raise Unsupported('range of opaque value')
        eng.raise_(TypeError, 'range')
    if isinstance(lo, int) and isinstance(hi, int) and isinstance(st, int):
        return View([('i', j) for j in range(lo, hi, st)])
    if st != 1:
        raise Unsupported('range step')
    if is_z3(hi):
        hi = z3.simplify(hi)
        if z3.is_int_value(hi) and isinstance(lo, int):
            return View([('i', j) for j in range(lo, hi.as_long())])
    n = hi - lo
    if not eng.branch(n >= 0):
        return View(())
    return View([Seg(z3.simplify(n), lambda j: j + lo if lo != 0 else j,
                     label='range')])


def extremum(eng, name, args, kwargs):
    default = kwargs.pop('default', NotImplemented)
    if kwargs:
        raise Unsupported(name)
    if len(args) == 1:
        parts = eng.iter_parts(args[0])
    else:
        parts = tuple(('i', a) for a in args)
    if not parts:
        if default is NotImplemented:
            eng.raise_(ValueError, name + ' of empty sequence')
        return default
    op = '>' if name == 'max' else '<'
    if all(not isinstance(p, Seg) for p in parts):
        r = eng.force(parts[0][1])
        for p in parts[1:]:
            x = eng.force(p[1])
            if not (is_int(x) and is_int(r)):
                raise Unsupported(name)
            c = eng.b_cmp(op, x, r)
            r = (x if c else r) if isinstance(c, bool) else z3.If(c, x, r)
        return r
    if len(parts) == 1:
        s = parts[0]
        j = z3.Int('j!max')

        def g(i):
            return z3.And(0 <= i, i < s.n, *([s.g(i)] if s.g else []))
        some = z3.Exists([j], g(j))
        if not eng.branch(some):
            if default is NotImplemented:
                eng.raise_(ValueError, name + ' of empty sequence')
            return default
        m = eng.fresh(name, Int)
        w = eng.fresh(name + 'at', Int)
        e = s.v(w)
        if not is_int(e):
            raise Unsupported(name)
        eng.assume(g(w))
        eng.assume(m == e)
        eng.assume(z3.ForAll([j], z3.Implies(
            g(j), s.v(j) <= m if name == 'max' else s.v(j) >= m)))
        return m
    raise Unsupported(name)


def counted(eng, v):
    """sum() of numbers, or counting the elements of a generator."""
    if isinstance(v, GenV):
        e = v.node
        if isinstance(e.elt, ast.Constant) and e.elt.value in (1, True):
            elt = e.elt
        elif isinstance(e.elt, ast.UnaryOp) and isinstance(
                e.elt.op, ast.Not):
            e, elt = copy.deepcopy(e), ast.Constant(1)
            e.generators[-1].ifs.append(e.elt)
        else:
            raise Unsupported('sum() of a generator')
        return eng.length(eng.comp_list(ast.ListComp(elt, e.generators),
                                        v.frame))
    r = 0
    for p in eng.iter_parts(v):
        x = None if isinstance(p, Seg) else eng.force(p[1])
        if not is_int(x) or isinstance(x, bool):
            raise Unsupported('sum()')
        r = r + x
    return r


def call_builtin(eng, name, args, kwargs):
    if name == 'len':
        return eng.length(args[0])
    if name == 'isinstance':
        return isinstance_(eng, args[0], args[1])
    if name == 'issubclass':
        return issubclass_(eng, args[0], args[1])
    if name == 'hasattr':
        if not isinstance(args[1], str):
            raise Unsupported('hasattr')
        missing = object()
        return eng.getattr(args[0], args[1], missing) is not missing
    if name == 'getattr':
        nm = eng.force(args[1])
        if not isinstance(nm, str):
            raise Unsupported('getattr of symbolic name')
        if len(args) > 2:
            return eng.getattr(args[0], nm, args[2])
        return eng.getattr(args[0], nm)
    if name == 'setattr':
        if not isinstance(args[1], str):
            raise Unsupported('setattr')
        return eng.setattr(args[0], args[1], args[2])
    if name == 'enumerate':
        return enumerated(eng, args[0], *args[1:], **kwargs)
    if name == 'zip':
        if kwargs:
            raise Unsupported('zip strict')
        return zipped(eng, args)
    if name == 'range':
        return ranged(eng, args)
    if name in ('max', 'min'):
        return extremum(eng, name, args, dict(kwargs))
    if name in ('any', 'all'):
        return eng.any_all(args[0], name == 'any')
    if name == 'map':
        if len(args) != 2:
            raise Unsupported('map() of several')
        out = []
        for p in eng.iter_parts(args[1]):
            if isinstance(p, Seg):
                return GenV(ast.parse('(f(x) for x in xs)',
                                      mode='eval').body,
                            en.Frame(None, None, {'f': args[0],
                                                  'xs': args[1]}))
            out.append(('i', eng.call(args[0], [p[1]])))
        return View(out)
    if name == 'reversed':
        ps = eng.iter_parts(args[0])
        if any(isinstance(p, Seg) for p in ps):
            raise Unsupported('reversed')
        return View(tuple(reversed(ps)))
    if name == 'callable':
        v = eng.force(args[0])
        if isinstance(v, (Func, BM, NativeBM, Builtin, ClassInfo, type)):
            return True
        if v is None or isinstance(v, (int, str, float)):
            return False
        raise Unsupported('callable')
    if name == 'repr':
        v = eng.force(args[0])
        if isinstance(v, Ref) and isinstance(eng.h(v), HObj) and isinstance(
                eng.h(v).cls, ClassInfo) and eng.h(v).cls.lookup('__repr__'):
            return eng.call(eng.getattr(v, '__repr__'), [])
        return eng.uf('repr', U, Str)(eng.to_u(v))
    if name == 'iter':
        return View(eng.iter_parts(args[0]))
    if name == 'sorted':
        ps = eng.iter_parts(args[0])
        if kwargs:
            raise Unsupported('sorted key')
        if all(not isinstance(p, Seg) and isinstance(p[1], (int, str))
               for p in ps):
            return eng.new_list([('i', x) for x in sorted(
                p[1] for p in ps)])
        raise Unsupported('sorted')
    if name == 'sum' and len(args) == 1 and not kwargs:
        return counted(eng, eng.force(args[0]))
    if name == 'print':
        return None
    if name == 'open':
        return eng.files.open(eng, *args, **kwargs)
    if name == 'hash':
        raise Unsupported('hash()')
    raise Unsupported('builtin ' + name)


def call_type(eng, t, args, kwargs):
    if t is type and len(args) == 1:
        v = eng.force(args[0])
        if is_sort(v, U):
            return eng.uf('typeof', U, Ty)(v)
        if isinstance(v, Ref):
            p = eng.h(v)
            return p.cls if isinstance(p, HObj) else (
                list if isinstance(p, HList) else dict)
        if is_sort(v, Sch):
            return eng.schc.type_of(eng, v)
        if is_text(v):
            return str
        if isinstance(v, z3.BoolRef):
            return bool
        if is_int(v) and not isinstance(v, bool):
            return int
        if isinstance(v, STuple):
            return tuple
        if isinstance(v, (ClassInfo, type)):
            return type
        if v is None or isinstance(v, (bool, float, bytes, tuple)):
            return type(v)
        raise Unsupported('type of %r' % (v,))
    if issubclass(t, BaseException):
        if kwargs:
            eng.raise_(TypeError, 'keyword arguments')
        return eng.exc(t, *args)
    a = eng.force(args[0]) if args else None
    if t is list:
        return eng.new_list(eng.iter_parts(a) if args else ())
    if t is tuple:
        if not args:
            return ()
        ps = eng.iter_parts(a)
        if any(isinstance(p, Seg) for p in ps):
            return STuple(ps)
        return tuple(p[1] for p in ps)
    if t is dict:
        d = eng.new_dict()
        if args:
            if isinstance(a, Ref) and isinstance(eng.h(a), HDict):
                eng.put(d, HDict(eng.h(a).parts))
            else:
                for p in eng.iter_parts(a):
                    if isinstance(p, Seg):
                        raise Unsupported('dict()')
                    k, v = eng.unpack(p[1], 2)
                    eng.dict_set(d, k, v)
        for k, v in kwargs.items():
            eng.dict_set(d, k, v)
        return d
    if t in (set, frozenset):
        return SetV(eng.iter_parts(a)) if args else SetV(())
    if t is str:
        if not args:
            return ''
        if len(args) > 1:
            raise Unsupported('str(bytes, encoding)')
        return to_text(eng, a)
    if t is int:
        a = eng.unrope(a)
        if is_int(a) and len(args) == 1:
            return a
        if isinstance(a, str) and len(args) == 1:
            try:
                return int(a)
            except ValueError:
                eng.raise_(ValueError, 'int')
        if isinstance(a, Rope) and len(a.parts) == 1 and isinstance(
                a.parts[0], Dec):
            return a.parts[0].num
        if isinstance(a, z3.BoolRef):
            return z3.If(a, 1, 0)
        raise Unsupported('int()')
    if t is bool:
        return eng.truth(a) if args else False
    if t is float and isinstance(a, (int, float)):
        return float(a)
    if t is bytes:
        if not args:
            return b''
        return eng.arrays.to_bytes(eng, a)
    if t in DT_FIELDS:
        fields = DT_FIELDS[t]
        vals = []
        names = list(fields) + (['tzinfo', 'fold'] if t is not datetime.date
                                else [])
        given = dict(zip(names, args))
        if len(args) > len(names):
            eng.raise_(TypeError, 'too many arguments')
        given.update(kwargs)
        if given.pop('tzinfo', None) is not None or given.pop('fold', 0):
            raise Unsupported('time zones')
        for i, f in enumerate(fields):
            if f not in given:
                if f in ('year', 'month', 'day'):
                    eng.raise_(TypeError, 'missing ' + f)
                vals.append(z3.IntVal(0))
                continue
            x = eng.force(given.pop(f))
            if not is_int(x):
                raise Unsupported('datetime of opaque field')
            vals.append(z3.IntVal(x) if isinstance(x, int) else x)
        if given:
            eng.raise_(TypeError, 'arguments')
        u = mk_dt(eng, t, vals)
        eng.assume(eng.uf('typeof', U, Ty)(u) == eng.ty(t))
        for f, x in zip(fields, vals):
            eng.assume(eng.uf('dt:' + f, U, Int)(u) == x)
        return u
    raise Unsupported('%s()' % t.__name__)


# -- numpy predicates on opaque values ------------------------------------------------------

def np_any(eng, v):
    v = eng.force(v)
    if isinstance(v, en.Cmp):
        a, b, op = eng.to_u(v.a), eng.to_u(v.b), v.op
        if op in ('<', '<='):
            a, b, op = b, a, {'<': '>', '<=': '>='}[op]
        return eng.uf('any' + op, U, U, Bool)(a, b)
    if is_sort(v, U):
        return eng.uf('np.any', U, Bool)(v)
    raise Unsupported('np.any')


def np_all(eng, v):
    raise Unsupported('np.all')


def call_external(eng, f, args, kwargs):
    from . import libs
    return libs.call(eng, f.name, args, kwargs)


def native_truth(eng, v, p):
    from . import libs
    return libs.truth(eng, v, p)


def native_len(eng, v, p):
    from . import libs
    return libs.length(eng, v, p)


def native_eq(eng, a, b):
    from . import libs
    return libs.equal(eng, a, b)


def native_contains(eng, item, v, p):
    from . import libs
    return libs.contains(eng, item, v, p)


def native_attr(eng, v, p, name):
    from . import libs
    return libs.attr(eng, v, p, name)


def native_setattr(eng, v, p, name, value):
    raise Unsupported('attribute assignment on %r' % (p.cls,))


def native_iter(eng, v, p):
    from . import libs
    return libs.iterate(eng, v, p)


def native_getitem(eng, v, p, k):
    from . import libs
    return libs.getitem(eng, v, p, k)


def native_setitem(eng, v, p, k, x):
    from . import libs
    return libs.setitem(eng, v, p, k, x)


def native_delitem(eng, v, p, k):
    from . import libs
    return libs.delitem(eng, v, p, k)


def native_call(eng, f, p, args, kwargs):
    from . import libs
    return libs.call_obj(eng, f, p, args, kwargs)
