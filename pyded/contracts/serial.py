"""Contracts of schema serialisation and identity (P01, P02, P20).

A child schema is known by its configuration cfg(s) only, represented by the
dict it converts to; node_from_dict of that dict gives a schema with this
configuration: the induction hypotheses, shown here for every class.
JSON forms are compared by structure, with tuples as lists.
"""
import z3

from ..values import *  # noqa: F401,F403
from ..driver import unit
from .. import libs
from .items import boolv, pick
from .schemas import ArrayArgs, install

OPTIONS = {
    'Array': ['dtype', 'unit', 'max_shape', 'min_shape', 'ndim', 'max_value',
              'min_value', 'depends_on'],
    'Scalar': ['dtype', 'unit', 'max_value', 'min_value'],
    'Bool': [], 'Bytes': ['min_length', 'max_length'],
    'String': ['min_length', 'max_length'],
    'Date': ['set_on_create'], 'DateTime': ['set_on_create'],
    'Time': ['set_on_create'],
    'List': ['subnode', 'max_length', 'min_length'],
    'Compilation': ['subnodes', 'optionals'],
}
CLASSES = list(OPTIONS)


class Args:
    """Arbitrary options of a schema class."""

    def __init__(self, c, cls, tag='', free=False):
        """free: options are arbitrary JSON values."""
        self.c, self.eng, self.cls, self.tag = c, c.eng, cls, tag
        self.free = free
        self.dt = []
        self.k = {}
        for n in OPTIONS[cls]:
            if free and n not in ('dtype', 'subnode', 'subnodes'):
                self.k[n] = z3.Const(n + tag, U)
            elif free or cls != 'Array':
                self.k[n] = getattr(self, n)()

    def dtype(self):
        """The name of a dtype, or something else numpy.dtype accepts."""
        eng = self.eng
        text = z3.Const('dtype name' + self.tag, Str)
        u = z3.Const('dtype' + self.tag, U)
        named = z3.Bool('named dtype' + self.tag)
        eng.assume(u != eng.to_u(None))
        eng.assume(z3.Not(eng.isinst(u, str)))
        return Alt([(named, text), (z3.Not(named), u)])

    def unit(self):
        return z3.Const('unit' + self.tag, Str)

    def limit(self, name):
        return self.c.optional(name + self.tag, z3.Int(name + self.tag))[0]

    def value(self, name):
        u = z3.Const(name + self.tag, U)
        self.eng.assume(u != self.eng.to_u(None))
        return self.c.optional(name + self.tag, u)[0]

    def max_length(self):
        return self.limit('max_length')

    def min_length(self):
        return self.limit('min_length')

    def max_value(self):
        return self.value('max_value')

    def min_value(self):
        return self.value('min_value')

    def set_on_create(self):
        return z3.Bool('set_on_create' + self.tag)

    def subnode(self):
        return z3.Const('elem' + self.tag, Sch)

    def subnodes(self):
        eng, t = self.eng, self.tag
        self.n = n = eng.size('fields')
        self.names = names = z3.Function('name' + t, Int, Str)
        self.inv = inv = z3.Function('name:inv' + t, Str, Int)
        self.child = child = z3.Function('child' + t, Int, Sch)
        if isinstance(n, int):
            for j in range(n):
                eng.assume(inv(names(z3.IntVal(j))) == j)
        else:
            j = z3.Int('j!nm')
            eng.assume(z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < n), inv(names(j)) == j),
                patterns=[names(j)]))
        return eng.new_dict(eng.dparts(n, lambda i: names(i),
                                       lambda i: child(i),
                                       inv=lambda s: inv(s), label='fields'))

    def optionals(self):
        eng = self.eng
        m = eng.size('optionals')
        self.m = m
        f = z3.Function('optional' + self.tag, Int, Str)
        return eng.new_list(eng.parts(m, lambda i: f(i), label='optionals'))

    def make(self):
        c, eng = self.c, self.eng
        cls = eng.cls('dsch.schema', self.cls)
        if self.free:
            return 'return', eng.alloc(HObj(cls, dict(self.k)))
        if self.cls == 'Array':
            self.a = ArrayArgs(c)
            return self.a.make(self.a.deps())
        return c.call(cls, **self.k)


def option(eng, v, name):
    """An option in a form that libs.jeq compares."""
    if name == 'dtype':
        return np_name(eng, v)
    if name in ('subnode', 'subnodes'):
        return to_cfg(eng, v)
    return libs.jconv(eng, v, True)


def np_name(eng, v):
    if isinstance(v, Alt):
        return Alt([(g, np_name(eng, x)) for g, x in v.alts])
    if is_text(v):
        return v
    return eng.getattr(eng.call(External('numpy.dtype'), [v], {}), 'str')


def to_cfg(eng, v):
    v = eng.force(v)
    if is_sort(v, Sch):
        return eng.schc.cfg(eng, v)
    p = eng.h(v)
    if not isinstance(p, HDict):
        raise Unsupported('fields')
    return libs.J('obj', [
        Seg(e.n, lambda j, e=e: to_cfg(eng, e.v(j)), e.g, e.k, e.inv)
        if isinstance(e, Seg) else ('i', e[1], to_cfg(eng, e[2]))
        for e in p.parts], True)


def same(c, cls, a, b):
    """Equal configuration."""
    eng = c.eng
    r = True
    for n in OPTIONS[cls]:
        try:
            x = eng.getattr(a, n)
            y = eng.getattr(b, n)
        except PyRaise:
            return False
        r = eng.and_(r, libs.jeq(eng, option(eng, x, n), option(eng, y, n)))
    return r


def is_class(eng, v, cls):
    v = eng.force(v)
    return isinstance(v, Ref) and eng.h(v).cls == eng.cls('dsch.schema', cls)


# -- P02: equality and hash -------------------------------------------------------

EQ = ['equal exactly with the same type and configuration',
      'same hash exactly with the same type and configuration']


def identity(cls):
    @unit('P02', 'schema.%s identity' % cls, EQ, weight=2,
          bounds=[[1, 1, 1], [2, 2, 1], [0, 1, 1], [2, 1, 2]])
    def _(c):
        eng = c.eng
        c.need_cover('same', 'other options', 'other type')

        def run():
            install(eng)
            k, a = Args(c, cls, '1', free=True).make()
            other = pick(c, CLASSES)
            k, b = Args(c, other, '2', free=True).make()
            want = same(c, cls, a, b) if other == cls else False
            if other != cls:
                c.cover('other type')
            want = boolv(want)
            k, r = c.method(a, '__eq__', b)
            c.goal(EQ[0], k == 'return' and eng.truth(r) == want,
                   'compared with ' + other)
            k, h1 = c.method(a, 'hash')
            k2, h2 = c.method(b, 'hash')
            if k == 'raise' or k2 == 'raise':
                c.goal(EQ[1], False, 'hash raises')
                return
            c.goal(EQ[1], boolv(eng.eq(h1, h2)) == want,
                   'compared with ' + other)
            if other == cls:
                if eng.branch(want):
                    c.cover('same')
                else:
                    c.cover('other options')
                if not OPTIONS[cls]:
                    c.covers['other options'] = 'sat'
        c.explore(run)


for _c in CLASSES:
    identity(_c)


NONE = 'nothing but a schema node is equal to it, and comparing never fails'


@unit('P02', 'schema nodes and other objects', [NONE])
def others(c):
    eng = c.eng

    def run():
        install(eng)
        k, a = Args(c, pick(c, CLASSES), free=True).make()
        u = z3.Const('other', U)
        eng.assume(z3.Not(eng.isinst(u, eng.cls('dsch.schema',
                                                'SchemaNode'))))
        other = pick(c, [
            None, True, z3.Int('other int'), z3.Const('other text', Str), u,
            1.5, (), eng.new_list([]), eng.new_dict([]), b'',
            eng.alloc(HObj(External('object'), {})), 'Bool',
            eng.cls('dsch.schema', 'Bool'),
            a if False else eng.alloc(HObj(eng.cls(
                'dsch.backends.inmem', 'Bool'), {'schema_node': a,
                                                 'parent': None}))])
        k, r = c.method(a, '__eq__', other)
        c.goal(NONE, k == 'return' and eng.not_(eng.truth(r)))
    c.explore(run)


# -- P01: to a dict or text and back ---------------------------------------------

RT = ['the dict gives the same type and configuration',
      'the JSON text gives the same type and configuration',
      'the rebuilt schema has the identical JSON text',
      'from_dict of the class gives the same type and configuration',
      'every option is kept as it was given']


def round_trip(cls):
    obs = {o: 'P01' for o in RT}
    obs[RT[2]] = 'P01 P02'

    @unit('P01 P02', 'schema.%s round trip' % cls, obs, weight=2,
          bounds=[[1, 1, 1], [2, 2, 1], [0, 1, 1], [2, 1, 2]])
    def _(c):
        eng = c.eng
        c.need_cover('rebuilt')

        def run():
            install(eng)
            g = Args(c, cls)
            k, s = g.make()
            if k == 'raise':
                if cls != 'Array':
                    c.goal(RT[4], False, 'raises')
                c.stop()
            kept = True
            for n, v in g.k.items():
                got = eng.getattr(s, n)
                kept = eng.and_(kept, libs.jeq(
                    eng, option(eng, v, n), option(eng, got, n)))
            c.goal(RT[4], kept)
            way = pick(c, ['dict', 'json', 'class'])
            name = RT[{'dict': 0, 'json': 1, 'class': 3}[way]]
            mod = eng.module('dsch.schema')
            k, d = c.method(s, 'to_json' if way == 'json' else 'to_dict')
            if k == 'raise':
                c.goal(name, False, 'raises ' + c.exc_name(d))
                c.stop()
            if way == 'class':
                k, r = c.method(eng.cls('dsch.schema', cls), 'from_dict', d)
            else:
                k, r = c.call(eng.mod_attr(mod, 'node_from_' + way), d)
            if k == 'raise':
                c.goal(name, False, 'raises ' + c.exc_name(r))
                c.stop()
            c.cover('rebuilt')
            if not is_class(eng, r, cls):
                c.goal(name, False, 'another class')
                c.stop()
            c.goal(name, same(c, cls, s, r))
            k, t = c.method(s, 'to_json')
            k2, t2 = c.method(r, 'to_json')
            c.goal(RT[2], k == k2 == 'return' and eng.eq(t, t2))
        c.explore(run)


for _c in CLASSES:
    round_trip(_c)


# -- P20: dicts that describe no schema ------------------------------------------

BADT = ['an unknown node type raises ValueError',
        'a dict of another type raises ValueError']


@unit('P20', 'schema dicts of other types', BADT)
def bad_types(c):
    eng = c.eng

    def run():
        install(eng)
        t = z3.Const('node type', Str)
        cfg = pick(c, [eng.new_dict([]), z3.Const('config', U)])
        which = pick(c, ['unknown'] + CLASSES)
        if which == 'unknown':
            for n in CLASSES + ['SchemaNode']:
                eng.assume(t != eng.lit(n))
        else:
            eng.assume(t != eng.lit(which))
        d = eng.new_dict([('i', 'node_type', t), ('i', 'config', cfg)])
        if which == 'unknown':
            k, r = c.call(eng.mod_attr(eng.module('dsch.schema'), 'node_from_dict'), d)
        else:
            k, r = c.method(eng.cls('dsch.schema', which), 'from_dict', d)
        c.goal(BADT[which != 'unknown'], k == 'raise' and c.is_exc(
            r, ValueError))
    c.explore(run)
