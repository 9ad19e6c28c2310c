"""Contracts of dsch.schema: construction, validation, serialisation."""
import datetime

import z3

from ..values import *  # noqa: F401,F403
from ..driver import unit
from .. import ext

ND = External('numpy.ndarray')
NUM = External('numpy.number')


def opt_int(c, name):
    """(value, limit-is-unset, number) for an optional integer option."""
    n = z3.Int(name)
    v, none = c.optional(name, n)
    return v, none, n


def opt_u(c, name):
    u = z3.Const(name, U)
    c.assume(u != c.eng.to_u(None))
    v, none = c.optional(name, u)
    return v, none, u


def verdict(c, kind, val, ok, accept, reject):
    """validate: returns exactly when ok, else raises a ValidationError."""
    if kind == 'return':
        c.cover('accepts')
        c.goal(accept, ok)
    else:
        if c.is_exc(val, 'ValidationError'):
            c.cover('rejects')
            c.goal(reject, c.eng.not_(ok))
        else:
            c.goal(reject, False, 'raises %s' % c.exc_name(val))


def install(eng):
    def from_dict(e, f, args, kwargs):
        a = list(args) + list(kwargs.values())
        u = e.force(a[0])
        if not is_sort(u, U):
            return NotImplemented
        s = e.uf('rebuilt', U, Sch)(u)
        e.assume(e.schc.cfg(e, s) == u)
        return s
    eng.contracts['dsch.schema.node_from_dict'] = from_dict


def again(c, s, v=None, d=None):
    """The schema that the JSON text of s gives."""
    eng = c.eng
    k, t = c.method(s, 'to_json')
    if k == 'raise':
        return k, t
    k, r = c.call(eng.mod_attr(eng.module('dsch.schema'), 'node_from_json'), t)
    if k == 'return' and d is not None:
        ext.used('numpy: a dtype equals what its name np.dtype(d).str says '
                 'exactly if it equals d')
        name = eng.force(eng.getattr(r, 'dtype'))
        x = eng.uf('arr:dtype', U, U)(v)
        eng.assume(eng.ext.u_eq(eng, x, name) == eng.ext.u_eq(eng, x, d))
    return k, r


def both(name, obs=None, **kw):
    """Two units: for a schema as constructed, and for the one read back
    from its JSON text, which has to accept the same values."""
    def deco(fn):
        for a in (False, True):
            u = unit('P01' if a else obs, name + (
                ' of the schema read back' if a else ''), [ACC, REJ], **kw)
            u(lambda c, a=a: fn(c, (lambda c, s, *r: again(c, s, *r)) if a
                                else lambda c, s, *r: ('return', s)))
        return fn
    return deco


ACC, REJ = ('accepted values satisfy every limit',
            'rejected values violate a limit (ValidationError)')


def typed(cls, t):
    @both('schema.%s.validate' % cls, 'P03')
    def _(c, back):
        eng = c.eng
        c.need_cover('accepts', 'rejects')

        def run():
            s = eng.call(eng.cls('dsch.schema', cls), [], {})
            v = eng.fresh('v', U)
            k, s = back(c, s)
            if k == 'raise':
                c.goal(ACC, False, 'cannot be read back')
                c.stop()
            k, r = c.method(s, 'validate', v)
            ok = eng.uf('typeof', U, Ty)(v) == eng.ty(t) if t is bool \
                else eng.isinst(v, t)
            if t is bool:
                eng.isinst(v, bool)
            verdict(c, k, r, ok, ACC, REJ)
        c.explore(run)


for _c, _t in (('Bool', bool), ('Date', datetime.date),
               ('DateTime', datetime.datetime), ('Time', datetime.time)):
    typed(_c, _t)


def sized(cls, t):
    @both('schema.%s.validate' % cls, 'P03')
    def _(c, back):
        eng = c.eng
        c.need_cover('accepts', 'rejects')

        def run():
            mn, no_mn, n = opt_int(c, 'min')
            mx, no_mx, m = opt_int(c, 'max')
            s = eng.call(eng.cls('dsch.schema', cls), [],
                         {'min_length': mn, 'max_length': mx})
            v = eng.fresh('v', U)
            k, s = back(c, s)
            if k == 'raise':
                c.goal(ACC, False, 'cannot be read back')
                c.stop()
            k, r = c.method(s, 'validate', v)
            ln = eng.uf('len', U, Int)(v)
            eng.assume(z3.Implies(eng.isinst(v, t), ln >= 0))
            ok = z3.And(eng.isinst(v, t), z3.Or(no_mx, ln <= m),
                        z3.Or(no_mn, ln >= n))
            verdict(c, k, r, ok, ACC, REJ)
        c.explore(run)


sized('Bytes', bytes)
sized('String', str)


@both('schema.Scalar.validate', 'P03')
def scalar(c, back):
    eng = c.eng
    c.need_cover('accepts', 'rejects')

    def run():
        d = z3.Const('dtype', U)
        eng.assume(d != eng.to_u(None))
        mn, no_mn, n = opt_u(c, 'min')
        mx, no_mx, m = opt_u(c, 'max')
        s = eng.call(eng.cls('dsch.schema', 'Scalar'), [d],
                     {'min_value': mn, 'max_value': mx})
        v = eng.fresh('v', U)
        k, s = back(c, s, v, d)
        if k == 'raise':
            c.goal(ACC, False, 'cannot be read back')
            c.stop()
        k, r = c.method(s, 'validate', v)
        gt = eng.uf('num>', U, U, Bool)
        ok = z3.And(eng.isinst(v, NUM),
                    eng.ext.u_eq(eng, eng.uf('arr:dtype', U, U)(v), d),
                    z3.Or(no_mx, z3.Not(gt(v, m))),
                    z3.Or(no_mn, z3.Not(gt(n, v))))
        verdict(c, k, r, ok, ACC, REJ)
    c.explore(run)


# -- P05, top of lists: the length of a list -----------------------------------

@both('schema.List.validate', 'P05')
def list_len(c, back):
    eng = c.eng
    c.need_cover('accepts', 'rejects')

    def run():
        mn, no_mn, n = opt_int(c, 'min')
        mx, no_mx, m = opt_int(c, 'max')
        s = eng.call(eng.cls('dsch.schema', 'List'),
                     [z3.Const('sub', Sch)],
                     {'min_length': mn, 'max_length': mx})
        ln = eng.size('len')
        v = eng.new_list(eng.parts(ln, lambda j: eng.uf('el', Int, U)(j)))
        install(eng)
        k, s = back(c, s)
        if k == 'raise':
            c.goal(ACC, False, 'cannot be read back')
            c.stop()
        k, r = c.method(s, 'validate', v)
        ok = z3.And(z3.Or(no_mx, ln <= m), z3.Or(no_mn, ln >= n))
        verdict(c, k, r, ok, ACC, REJ)
    c.explore(run)


# -- Array -------------------------------------------------------------------------

class ArrayArgs:
    """Symbolic constructor arguments of schema.Array."""

    def __init__(self, c):
        eng = c.eng
        self.c, self.eng = c, eng
        self.dtype = z3.Const('dtype', U)
        eng.assume(self.dtype != eng.to_u(None))
        self.mx = self.shape('max_shape')
        self.mn = self.shape('min_shape')
        self.ndim = z3.Int('ndim')
        eng.assume(self.ndim >= 1)
        self.maxv, self.no_maxv, self.maxv_u = opt_u(c, 'max_value')
        self.minv, self.no_minv, self.minv_u = opt_u(c, 'min_value')

    def shape(self, name):
        eng = self.eng
        n = eng.size(name)
        none = z3.Function(name + ':none', Int, Bool)
        val = z3.Function(name + ':val', Int, Int)
        t = STuple(eng.parts(n, lambda j: Alt([
            (none(j), None), (z3.Not(none(j)), val(j))]), label=name))
        if isinstance(n, int):
            t = tuple(p[1] for p in t.parts)
        unset = z3.Bool('none:' + name)
        given = z3.And(z3.Not(unset), n > 0)
        return {'value': Alt([(unset, None), (z3.Not(unset), t)]),
                'n': n, 'given': given, 'none': none, 'val': val}

    def deps(self, single=False):
        """depends_on: None, a name, or a sequence of names and None."""
        eng = self.eng
        n = eng.size('deps')
        none = z3.Function('dep:none', Int, Bool)
        name = z3.Function('dep:name', Int, Str)
        self.dep_none, self.dep_name, self.dep_n = none, name, n
        j = z3.Int('j!dep')
        eng.assume(z3.ForAll([j], name(j) != eng.lit('')))
        t = STuple(eng.parts(n, lambda j: Alt([
            (none(j), None), (z3.Not(none(j)), name(j))]), label='deps'))
        if isinstance(n, int):
            t = tuple(p[1] for p in t.parts)
        unset = z3.Bool('none:deps')
        one = z3.Bool('single:deps')
        nm = z3.Const('dep:single', Str)
        eng.assume(nm != eng.lit(''))
        self.single, self.single_name, self.unset = one, nm, unset
        alts = [(unset, None), (z3.And(z3.Not(unset), z3.Not(one)), t)]
        if single:
            alts.append((z3.And(z3.Not(unset), one), nm))
        else:
            eng.assume(z3.Not(one))
        self.dep_count = z3.If(unset, 0, z3.If(one, 1, n))
        return Alt(alts)

    def spec_ndim(self):
        return z3.If(self.mx['given'], self.mx['n'],
                     z3.If(self.mn['given'], self.mn['n'], self.ndim))

    def make(self, deps):
        return self.c.call(self.eng.cls('dsch.schema', 'Array'), self.dtype,
                           max_shape=self.mx['value'],
                           min_shape=self.mn['value'], ndim=self.ndim,
                           max_value=self.maxv, min_value=self.minv,
                           depends_on=deps)


BOUNDS = [[1], [2], [0, 1, 1], [2, 1], [1, 2, 1], [0], [2, 0, 2]]


@unit('P20', 'schema.Array.__init__', [
    'raises ValueError only for mismatching lengths',
    'accepts only matching lengths',
    'ndim is the length of the given shape limits, else ndim',
    'a single dependency name becomes a one-element sequence'],
    bounds=BOUNDS)
def array_init(c):
    eng = c.eng
    c.need_cover('made', 'refused', 'single')

    def run():
        a = ArrayArgs(c)
        k, r = a.make(a.deps(single=True))
        both = z3.And(a.mx['given'], a.mn['given'])
        bad = z3.Or(z3.And(both, a.mx['n'] != a.mn['n']),
                    z3.And(a.dep_count > 0,
                           a.dep_count != a.spec_ndim()))
        if k == 'raise':
            c.cover('refused')
            if not c.exact_exc(r, ValueError):
                c.goal('raises ValueError only for mismatching lengths',
                       False, 'raises ' + c.exc_name(r))
            c.goal('raises ValueError only for mismatching lengths', bad)
            return
        c.cover('made')
        c.goal('accepts only matching lengths', z3.Not(bad))
        nd = eng.force(eng.getattr(r, 'ndim'))
        c.goal('ndim is the length of the given shape limits, else ndim',
               nd == a.spec_ndim())
        name = 'a single dependency name becomes a one-element sequence'
        d = eng.force(eng.getattr(r, 'depends_on'))
        if eng.branch(z3.And(z3.Not(a.unset), a.single)):
            c.cover('single')
            ps = eng.seq_parts(d) if d is not None and not isinstance(
                d, str) and not is_z3(d) else None
            c.goal(name, ps is not None and len(ps) == 1 and eng.value_eq(
                ps[0][1], a.single_name))
        elif eng.branch(z3.And(z3.Not(a.unset), a.dep_count > 0)):
            ps = eng.seq_parts(d)
            c.goal(name, z3.And(
                eng.parts_len(ps) == a.dep_n, boolv(c.forall(
                    a.dep_n, lambda j: eng.value_eq(
                        eng.index_parts(ps, j), Alt([
                            (a.dep_none(j), None),
                            (z3.Not(a.dep_none(j)), a.dep_name(j))]))))))
    c.explore(run)


def boolv(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


@both('schema.Array.validate', 'P04', bounds=BOUNDS, weight=5)
def array_validate(c, back):
    eng = c.eng
    c.need_cover('accepts', 'rejects')

    def run():
        a = ArrayArgs(c)
        deps = a.deps()
        k, s = a.make(deps)
        if k == 'raise':
            c.stop()
        v = eng.fresh('v', U)
        # independent values: None or one-dimensional arrays
        ivn = z3.Function('iv:none', Int, Bool)
        iv = z3.Function('iv', Int, U)
        n = a.dep_n
        if isinstance(n, int):
            for j in range(n):
                one_dim(eng, iv(z3.IntVal(j)))
        else:
            j = z3.Int('j!iv')
            nd_ = eng.uf('arr:ndim', U, Int)
            isin = eng.uf('isinst', U, Ty, Bool)
            eng.assume(z3.ForAll([j], z3.And(
                isin(iv(j), eng.ty(ND)), iv(j) != eng.to_u(None),
                nd_(iv(j)) == 1, eng.uf('arr:size', U, Int)(iv(j)) >= 0)))
        ivs = eng.new_list(eng.parts(n, lambda j: Alt([
            (ivn(j), None), (z3.Not(ivn(j)), iv(j))])))
        no_deps = eng.new_list()
        has = z3.And(z3.Not(a.unset), n > 0)
        arg = ivs if eng.branch(has) else no_deps
        k, s = back(c, s, v, a.dtype)
        if k == 'raise':
            c.goal(ACC, False, 'cannot be read back')
            c.stop()
        k, r = c.method(s, 'validate', v, arg)
        shape = eng.uf('arr:shape', U, Int, Int)
        nd = eng.uf('arr:ndim', U, Int)(v)
        size = eng.uf('arr:size', U, Int)
        anygt = eng.uf('any>', U, U, Bool)

        def within(sh, cmp):
            return z3.Or(z3.Not(sh['given']), boolv(c.forall(
                sh['n'], lambda j: z3.Or(sh['none'](j), cmp(
                    shape(v, j), sh['val'](j))))))
        eng.ext.shape_parts(eng, v)
        ok = z3.And(
            eng.isinst(v, ND),
            eng.ext.u_eq(eng, eng.uf('arr:dtype', U, U)(v), a.dtype),
            nd == a.spec_ndim(),
            within(a.mx, lambda x, y: x <= y),
            within(a.mn, lambda x, y: x >= y),
            z3.Or(a.no_maxv, z3.Not(anygt(v, a.maxv_u))),
            z3.Or(a.no_minv, z3.Not(anygt(a.minv_u, v))),
            z3.Or(z3.Not(has), boolv(c.forall(n, lambda j: z3.Or(
                ivn(j), size(iv(j)) == shape(v, j))))))
        verdict(c, k, r, ok, ACC, REJ)
    c.explore(run)


def one_dim(eng, u):
    eng.assume(eng.isinst(u, ND))
    eng.assume(u != eng.to_u(None))
    eng.assume(eng.uf('arr:ndim', U, Int)(u) == 1)
    eng.assume(eng.uf('arr:size', U, Int)(u) >= 0)
