"""The contract of data.data_node_from_schema, which every compilation, list
and storage makes its nodes with: the node is of the class that the given
module has for the type of the schema node, made from exactly the arguments
given, once.  (The units of those classes say what their constructors do.)
"""
import z3

from ..values import *  # noqa: F401,F403
from ..driver import unit
from .items import BACKENDS, ITEMS, pick

TYPES = ITEMS + ['Compilation', 'List']
G = ['the node is of the class for the type of its schema node',
     'the node is made from exactly the arguments given',
     'making a node touches nothing else']


def schema_of(c, t):
    eng = c.eng
    cls = eng.cls('dsch.schema', t)
    if t == 'Compilation':
        return eng.call(cls, [eng.new_dict([])], {})
    if t == 'List':
        return eng.call(cls, [z3.Const('entry', Sch)], {})
    if t in ('Array', 'Scalar'):
        return eng.call(cls, [z3.Const('dtype', U)], {})
    return eng.call(cls, [], {})


@unit('P14 P13 P09 P18 P12 P11 P10', 'making nodes', {
    G[0]: 'P14 P13 P09 P11 P10 P12', G[1]: 'P14 P13 P09 P18 P12 P11 P10',
    G[2]: 'P11 P10 P12'})
def making(c):
    eng = c.eng
    c.need_cover('default', 'stored', 'placed')

    def run():
        b = pick(c, BACKENDS)
        t = pick(c, TYPES)
        s = schema_of(c, t)
        keep = eng.h(s)
        parent = eng.alloc(HObj(External('parent'), {})) if pick(
            c, [True, False]) else None
        made = []
        mod = 'dsch.backends.' + b
        want = eng.cls(mod, t)

        def record(eng_, cls, args, kwargs):
            a = {'data_storage': None, 'new_params': None}
            names = ['schema_node', 'parent', 'data_storage', 'new_params']
            a.update(zip(names, args))
            a.update(kwargs)
            o = eng.alloc(HObj(cls, {}))
            made.append((o, cls, a))
            return o
        for bb in BACKENDS:
            m = eng.module('dsch.backends.' + bb)
            for tt in TYPES:
                k = eng.getattr(m, tt)
                eng.contracts['new:%s.%s' % (k.module.name, k.name)] = record
        extra = {}
        how = pick(c, ['default', 'stored', 'placed'])
        if how == 'stored':
            extra['data_storage'] = z3.Const('stored', U)
        if how == 'placed':
            extra['new_params'] = eng.new_dict([
                ('i', 'name', z3.Const('name', Str)),
                ('i', 'parent', eng.alloc(HObj(External('group'), {})))])
        f = eng.getattr(eng.module('dsch.data'), 'data_node_from_schema')
        k, r = c.call(f, s, mod, parent, **extra)
        if k == 'raise':
            c.goal(G[0], False, 'raises ' + c.exc_name(r))
            return
        c.cover(how)
        c.goal(G[0], len(made) == 1 and eng.is_(r, made[0][0])
               and made[0][1] is want)
        if len(made) == 1:
            a = made[0][2]
            ok = set(a) == {'schema_node', 'parent', 'data_storage',
                            'new_params'}
            for n, v in (('schema_node', s), ('parent', parent),
                         ('data_storage', extra.get('data_storage')),
                         ('new_params', extra.get('new_params'))):
                ok = eng.and_(ok, eng.is_(eng.force(a[n]), v))
            c.goal(G[1], ok)
        c.goal(G[2], eng.h(s) is keep)
    c.explore(run)
