"""Contracts of storages and of the functions that open them (P07, P08, P12,
P15, P16).

The file system is a map from paths to contents (files.py); the top-level
schema is a schema node of any type, known by its contract, and so is the
top-level data node (nodes.py).
"""
import z3

from ..values import *  # noqa: F401,F403
from ..driver import unit
from .. import files, nodes, paths
from .items import BACKENDS, TRACE, boolv, pick
from .tree import install, same_but

FILES = ['npz', 'mat', 'hdf5']
SUFFIX = [('npz', '.npz'), ('hdf5', '.h5'), ('hdf5', '.hdf5'),
          ('mat', '.mat')]


def text(eng, name):
    t = z3.Const(name, Str)
    return t


def ends(eng, p, s):
    return eng.ext.suffix_test(eng, p, s)


def by_path(eng, p):
    """{backend: condition} for which the path alone selects it."""
    mem = p == eng.lit('::inmem::')
    out = {'inmem': mem}
    rest = z3.Not(mem)
    for b, s in SUFFIX:
        e = boolv(ends(eng, p, s))
        out[b] = z3.Or(out.get(b, z3.BoolVal(False)), z3.And(rest, e))
    out[None] = z3.And(rest, *[z3.Not(boolv(ends(eng, p, s)))
                               for b, s in SUFFIX])
    return out


def untouched(eng):
    return eng.h(files.fs(eng)).attrs['log'] == ()


def log_of(eng):
    return eng.h(files.fs(eng)).attrs['log']


def backend_of(eng, st):
    if not isinstance(st, Ref) or not isinstance(eng.h(st).cls, ClassInfo):
        return None
    c = eng.h(st).cls
    return c.module.name.split('.')[-1] if c.name == 'Storage' else None


def arg(c, how, given):
    return given if how == 'given' else None


# -- P08 ---------------------------------------------------------------------------

CR = ['an existing file is neither overwritten nor opened',
      'the storage is created with the selected backend',
      'the storage is kept at exactly the path given, nothing else touched',
      'paths without a known ending are refused, touching nothing',
      'the in-memory backend takes only its own path']


@unit('P08', 'frontend.create', CR, weight=2)
def create(c):
    eng = c.eng
    c.need_cover('created', 'exists', 'no backend', 'bad path', 'explicit')

    def run():
        install(eng)
        files.fs(eng)
        p = text(eng, 'path')
        s = z3.Const('schema', Sch)
        b = pick(c, [None] + BACKENDS)
        if b is not None:
            c.cover('explicit')
        there = boolv(files.exists(eng, p))
        sel = by_path(eng, p)
        f = eng.mod_attr(eng.module('dsch.frontend'), 'create')
        way = pick(c, ['positional', 'keyword'])
        if way == 'positional':
            k, r = c.call(f, p, s, *([] if b is None else [b]))
        else:
            k, r = c.call(f, storage_path=p, schema_node=s, backend=b)
        outcome(c, eng, k, r, p, there, sel, b, s)
    c.explore(run)


def outcome(c, eng, k, r, p, there, sel, b, s):
    mem = p == eng.lit('::inmem::')
    if k == 'raise':
        if c.is_exc(r, 'AutodetectBackendError'):
            c.cover('no backend')
            c.goal(CR[3], z3.And(sel[None], b is None))
            c.goal(CR[3], untouched(eng))
        elif c.is_exc(r, FileExistsError):
            c.cover('exists')
            c.goal(CR[0], z3.And(there, z3.BoolVal(untouched(eng))))
            c.goal(CR[1], z3.Not(sel['inmem'] if b is None
                                 else z3.BoolVal(b == 'inmem')))
            c.goal(CR[3], boolv(b is not None) if b is not None
                   else z3.Not(sel[None]))
        elif c.is_exc(r, ValueError):
            c.cover('bad path')
            c.goal(CR[4], z3.And(b == 'inmem', z3.Not(mem)))
            c.goal(CR[4], untouched(eng))
        else:
            c.goal(CR[1], False, 'raises ' + c.exc_name(r))
        return
    c.cover('created')
    got = backend_of(eng, r)
    if got is None:
        c.goal(CR[1], False, 'no storage')
        return
    c.goal(CR[1], sel[got] if b is None else z3.BoolVal(got == b))
    c.goal(CR[3], z3.Not(sel[None]) if b is None else z3.BoolVal(True))
    if got == 'inmem':
        c.goal(CR[4], mem)
        c.goal(CR[2], untouched(eng))
    else:
        c.goal(CR[0], z3.Not(there))
        c.goal(CR[2], all_(eng.value_eq(e[1], p) if is_text(e[1]) else True
                           for e in log_of(eng)) if log_of(eng) else True)
        if got == 'hdf5':
            c.goal(CR[2], any(e[0] == 'create' for e in log_of(eng)))
    how, sp = c.attr(r, 'storage_path')
    c.goal(CR[2], how == 'return' and eng.value_eq(sp, p))
    how, sn = c.attr(r, 'schema_node')
    c.goal(CR[1], how == 'return' and is_sort(sn, Sch) and sn.eq(s))
    how, d = c.attr(r, 'data')
    c.goal(CR[1], how == 'return' and is_sort(d, Node))
    if how == 'return' and is_sort(d, Node):
        c.goal(CR[1], z3.And(
            eng.nodec.sch(eng, d) == s,
            eng.uf('mod', Node, Str)(d) == eng.lit(
                'dsch.backends.' + got)))


LD = ['loading a missing file raises FileNotFoundError and creates nothing',
      'loading selects the backend by explicit choice or path',
      'loading leaves the files as they are']


@unit('P08', 'frontend.load of any path', LD, weight=2)
def load_missing(c):
    eng = c.eng
    c.need_cover('missing', 'no backend', 'reached')

    class Found(Exception):
        pass

    def run():
        install(eng)
        files.fs(eng)
        p = text(eng, 'path')
        b = pick(c, [None] + BACKENDS)
        sel = by_path(eng, p)
        there = boolv(files.exists(eng, p))
        where = []

        def foreign(e, path):
            where.append(path)
            raise Found()
        eng.isreg['foreign_file'] = foreign
        f = eng.mod_attr(eng.module('dsch.frontend'), 'load')
        force = pick(c, [False, True])
        try:
            k, r = c.call(f, p, backend=b, force=force)
        except Found:
            # the rest is the matter of the backend
            c.cover('reached')
            c.goal(LD[0], there)
            c.goal(LD[1], eng.value_eq(where[0], p))
            c.goal(LD[2], untouched(eng))
            return
        finally:
            del eng.isreg['foreign_file']
        c.goal(LD[2], untouched(eng))
        if k == 'return':
            c.goal(LD[0], False, 'loads something')
            return
        if c.is_exc(r, 'AutodetectBackendError'):
            c.cover('no backend')
            c.goal(LD[1], z3.And(sel[None], b is None))
        elif c.is_exc(r, FileNotFoundError):
            c.cover('missing')
            c.goal(LD[0], z3.Not(there))
            c.goal(LD[1], z3.Not(sel['inmem']) if b is None
                   else b != 'inmem')
        else:
            # the in-memory backend has nothing to load
            c.goal(LD[1], z3.And(c.is_exc(r, ValueError), sel['inmem']
                                 if b is None else b == 'inmem'))
    c.explore(run)


MEM = ['only the path ::inmem:: is accepted', 'a schema is required',
       'a path and a schema that are fine are accepted']


@unit('P08', 'inmem.Storage', MEM)
def inmem(c):
    eng = c.eng
    c.need_cover('made', 'refused')

    def run():
        install(eng)
        files.fs(eng)
        p = text(eng, 'path')
        s = z3.Const('schema', Sch)
        cls = eng.cls('dsch.backends.inmem', 'Storage')
        k = {}
        if eng.choose([True, True]):
            k['storage_path'] = p
        if eng.choose([True, True]):
            k['schema_node'] = s
        how, r = c.call(cls, **k)
        mem = p == eng.lit('::inmem::') if 'storage_path' in k else \
            z3.BoolVal(True)
        if how == 'raise':
            c.cover('refused')
            c.goal(MEM[2], z3.And(c.is_exc(r, ValueError), z3.Or(
                z3.Not(mem), 'schema_node' not in k)))
        else:
            c.cover('made')
            c.goal(MEM[0], mem)
            c.goal(MEM[1], 'schema_node' in k)
        c.goal(MEM[2], untouched(eng))
    c.explore(run)


# -- the file formats of npz: nested dicts as dotted names --------------------------

def flat(eng):
    """Contracts of npz._flatten_dotted and npz._inflate_dotted: what the one
    makes of a nested dict, the other turns back into an equal one (shown in
    persist.py)."""
    def flatten(e, f, args, kwargs):
        a = list(args) + list(kwargs.values())
        if len(a) != 1:
            return NotImplemented
        d = e.force(a[0])
        if is_sort(d, U):
            return e.new_dict([names_of(e, d, None)])
        if not isinstance(d, Ref) or not isinstance(e.h(d), HDict):
            return NotImplemented
        out = []
        for x in e.h(d).parts:
            if isinstance(x, Seg):
                return NotImplemented
            v = e.force(x[2])
            if is_sort(v, U):
                out.append(names_of(e, v, x[1]))
            elif isinstance(v, Ref) and isinstance(e.h(v), HDict):
                return NotImplemented
            else:
                out.append(('i', x[1], v))
        return e.new_dict(out)

    def inflate(e, f, args, kwargs):
        a = list(args) + list(kwargs.values())
        d = e.force(a[0])
        p = e.h(d)
        parts = p.parts if isinstance(p, HDict) else e.h(
            p.attrs['items']).parts
        out = []
        for x in parts:
            if isinstance(x, Seg):
                src = getattr(x, 'flat_of', None)
                if src is None:
                    return NotImplemented
                u, under = src
                if under is None:
                    out.append(entries_of(e, filed(e, u)))
                elif not e.branch(e.uf('flat:n', U, Int)(u) == 0):
                    out.append(('i', under, filed(e, u)))
            else:
                out.append(x)
        return e.new_dict(out)
    try:
        fs = paths.dotting(eng)
    except Unsupported:
        return
    for f, contract in zip(fs, [flatten, inflate]):
        eng.contracts[f.qualname] = contract


def filed(eng, u):
    """What is read back of something that was saved."""
    t = eng.uf('filed', U, U)(u)
    eng.assume(t != eng.to_u(None))
    return t


def names_of(eng, u, under):
    """The dotted entries that something saved becomes."""
    n = eng.uf('flat:n', U, Int)(u)
    eng.assume(n >= 0)
    key = eng.uf('flat:key', U, Str, Int, Str)
    inv = eng.uf('flat:inv', U, Str, Str, Int)
    val = eng.uf('flat:val', U, Int, U)
    pre = eng.text(under if under is not None else '')
    j = z3.Int('j!flat')
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
        inv(u, pre, key(u, pre, j)) == j,
        key(u, pre, j) != eng.lit('_schema'))),
        patterns=[key(u, pre, j)]))
    s = Seg(n, lambda j: val(u, j), None, lambda j: key(u, pre, j),
            lambda t: inv(u, pre, t), 'dotted names')
    s.flat_of = (u, under)
    return s


def entries_of(eng, u):
    """The entries of a dict u that was read from a file."""
    n = eng.uf('dict:n', U, Int)(u)
    eng.assume(n >= 0)
    key = eng.uf('dict:key', U, Int, Str)
    inv = eng.uf('dict:inv', U, Str, Int)
    val = eng.uf('dict:val', U, Int, U)
    j = z3.Int('j!ent')
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(
        inv(u, key(u, j)) == j, key(u, j) != eng.lit('_schema'))),
        patterns=[key(u, j)]))
    s = Seg(n, lambda j: val(u, j), None, lambda j: key(u, j),
            lambda t: inv(u, t), 'entries')
    eng.isreg.setdefault('opaque_dicts', []).append((s, u))
    return s


def from_json(eng):
    """Contract of schema.node_from_json for the text of a child schema."""
    def contract(e, f, args, kwargs):
        a = list(args) + list(kwargs.values())
        t = e.force(a[0])
        if not is_sort(t, Str):
            return NotImplemented
        s = e.uf('schema from', Str, Sch)(t)
        e.assume(e.schc.cfg(e, s) == e.uf('unscjson', Str, U)(t))
        return s
    eng.contracts['dsch.schema.node_from_json'] = contract


# -- P07: saving --------------------------------------------------------------------

class Open:
    """A newly created storage whose data node holds anything."""

    def __init__(self, c, backend):
        self.c, self.eng, self.backend = c, c.eng, backend
        eng = c.eng
        install(eng)
        flat(eng)
        files.fs(eng)
        self.path = text(eng, 'path')
        self.schema = z3.Const('schema', Sch)
        self.mod = eng.module('dsch.backends.' + backend)
        self.place = None
        eng.isreg['factory_hook'] = self.hook
        from_json(eng)
        kind, st = c.call(eng.cls('dsch.backends.' + backend, 'Storage'),
                          self.path, self.schema)
        if kind == 'raise':
            c.stop()
        self.st = st
        how, self.node = c.attr(st, 'data')
        if how == 'raise' or not is_sort(self.node, Node):
            c.stop()    # shown by frontend.create
        self.havoc()

    def on_disk(self):
        """hdf5: the data node has its place in the file."""
        eng = self.eng
        if self.backend != 'hdf5':
            return None
        ok, f = files.lookup(eng, self.path)
        name, grp = self.place
        if not ok or grp != f:
            self.c.stop()
        here = eng.uf('h5 of', Node, U)(self.node)
        eng.assume(here != eng.to_u(None))
        items = eng.h(f).attrs['items']
        if name == '':
            p = eng.h(f)
            eng.put(f, HObj(p.cls, p.attrs, dict(p.ghost, u=here)))
            # whatever the entries are called and are
            u = z3.Const('fields on disk', U)
            eng.put(items, HDict([entries_of(eng, u)]))
        else:
            has = z3.Bool('has data')
            eng.assume(z3.Or(has, eng.nodec.is_empty(eng, self.tree)))
            eng.put(items, HDict([('i', name, here)] if eng.branch(has)
                                 else []))
        return here

    def hook(self, eng, n, s, a):
        np_ = eng.force(a.get('new_params'))
        if np_ is not None and eng.force(a.get('data_storage')) is None:
            d = eng.h(np_)
            ok, name = eng.dict_get(d, 'name')
            ok2, grp = eng.dict_get(d, 'parent')
            if not ok or not ok2:
                raise Unsupported('new_params')
            self.place = eng.force(name), eng.force(grp)
        return None

    def havoc(self):
        eng = self.eng
        eng.st.fresh += 1
        eng.st.ghost['tree'] = z3.Const('tree!%d' % eng.st.fresh,
                                        nodes.TreeMap)
        self.tree = eng.nodec.tree(eng, self.node)

    def file(self):
        ok, content = files.lookup(self.eng, self.path)
        return content if ok else 'as before'


SV = ['saving without force rejects exactly the invalid data',
      'saving with force rejects nothing',
      'a save that fails leaves the file as it was',
      'saving changes no data in memory']


def saving(b):
    obs = {SV[0]: 'P07', SV[1]: 'P07', SV[3]: 'P16',
           TRACE: 'P07 P09 P16'}
    if b != 'hdf5':
        obs[SV[2]] = 'P07'

    @unit('P07 P16', '%s.Storage.save' % b, obs, weight=2)
    def _(c):
        eng = c.eng
        c.need_cover('saved', 'rejected', 'forced')
        if b != 'hdf5':
            c.need_cover('fails')

        def run():
            w = Open(c, b)
            eng.isreg['saves_may_fail'] = True
            before = eng.h(w.st)
            was = w.file()
            mem = eng.nodec.map(eng)
            valid = eng.nodec.is_valid(eng, w.node)
            force = pick(c, [None, False, True, 'positional'])
            try:
                if force is None:
                    k, r = c.method(w.st, 'save')
                elif force == 'positional':
                    k, r = c.method(w.st, 'save', True)
                else:
                    k, r = c.method(w.st, 'save', force=force)
            finally:
                del eng.isreg['saves_may_fail']
            same_file = w.file() is was or (
                isinstance(was, Ref) and w.file() == was)
            if k == 'raise':
                c.goal(SV[2], same_file, 'raises ' + c.exc_name(r))
                ve = c.is_exc(r, 'ValidationError', 'SubnodeValidationError')
                if eng.st.marks.get('save_failed') and not ve:
                    c.cover('fails')
                elif force in (True, 'positional'):
                    c.goal(SV[1], False, 'raises ' + c.exc_name(r))
                else:
                    c.cover('rejected')
                    c.goal(SV[0], z3.And(ve, z3.Not(valid)))
            elif force in (True, 'positional'):
                c.cover('forced')
                c.goal(SV[1], True)
            else:
                c.cover('saved')
                c.goal(SV[0], valid)
            now = eng.h(w.st)
            c.lemma(TRACE, same_but(eng, before, now))
            c.goal(SV[3], z3.And(
                eng.nodec.map(eng) == mem,
                z3.BoolVal(all(now.attrs.get(n) is v or now.attrs.get(n) == v
                               for n, v in before.attrs.items()
                               if n in ('data', 'schema_node',
                                        'storage_path')))))
        c.explore(run)


for _b in FILES:
    saving(_b)


LG = ['InvalidSchemaError exactly if the stored schema is not the required',
      'loading without force rejects exactly the invalid data',
      'loading with force rejects no data']


def gates(b):
    @unit('P07', 'frontend.load from %s' % b, LG, weight=2)
    def _(c):
        eng = c.eng
        c.need_cover('loaded', 'invalid schema', 'invalid data', 'forced')

        def run():
            w = Open(c, b)
            w.on_disk()
            if b == 'mat':
                eng.isreg['mat_u'] = lambda e, u: filed(e, u)
            k, r = c.method(w.st, 'save', force=True)
            if k == 'raise':
                c.stop()
            req = z3.Const('required', Sch)
            want = z3.Const('required hash', Str)
            eng.assume(want != eng.lit(''))
            kw = {}
            stored = eng.schc.hash_of(eng, w.schema)
            bad = z3.BoolVal(False)
            if eng.choose([True, True]):
                kw['required_schema'] = req
                bad = z3.Or(bad, eng.schc.hash_of(eng, req) != stored)
            if eng.choose([True, True]):
                kw['required_schema_hash'] = want
                bad = z3.Or(bad, want != stored)
            force = pick(c, [None, False, True])
            if force is not None:
                kw['force'] = force
            made = []
            eng.isreg['factory_hook'] = lambda e, n, s, a: made.append(
                n)
            k, r = c.call(eng.mod_attr(eng.module('dsch.frontend'), 'load'), w.path,
                          b, **kw)
            invalid = z3.Not(eng.nodec.is_valid(eng, made[-1])) if made \
                else None
            if k == 'raise' and c.is_exc(r, 'InvalidSchemaError'):
                c.cover('invalid schema')
                c.goal(LG[0], bad)
                return
            c.goal(LG[0], z3.Not(bad))
            if k == 'raise':
                ve = c.is_exc(r, 'ValidationError', 'SubnodeValidationError')
                c.cover('invalid data')
                if force:
                    c.goal(LG[2], False, 'raises ' + c.exc_name(r))
                else:
                    c.goal(LG[1], z3.And(ve, invalid if made
                                         else z3.BoolVal(False)),
                           c.exc_name(r))
                return
            if backend_of(eng, r) != b or not made:
                c.goal(LG[1], False, 'no storage')
                return
            if force:
                c.cover('forced')
                c.goal(LG[2], True)
            else:
                c.cover('loaded')
                how, d = c.attr(r, 'data')
                c.goal(LG[1], z3.And(z3.Not(invalid), z3.BoolVal(
                    is_sort(d, Node) and d.eq(made[-1]))))
        c.explore(run)


for _b in FILES:
    gates(_b)


# -- P12: copies between storages ---------------------------------------------------

CP = ['the copy has the schema of the source', 'the copy has the data of the '
      'source', 'the source is not modified', 'the copy is kept at the path '
      'given, by the selected backend', 'an existing file is not overwritten']


def copying(how, src):
    obs = {CP[0]: 'P12', CP[1]: 'P12', CP[2]: 'P12 P16', CP[3]: 'P12 P08',
           CP[4]: 'P08'}

    @unit('P12 P08 P16', '%s, source on %s' % (how, src), obs, weight=2)
    def _(c):
        eng = c.eng
        c.need_cover('copied')

        def run():
            if src == 'inmem':
                install(eng)
                files.fs(eng)
                s = z3.Const('schema', Sch)
                k, st = c.call(eng.cls('dsch.backends.inmem', 'Storage'),
                               schema_node=s)
                if k == 'raise':
                    c.stop()
                how_, node = c.attr(st, 'data')
                eng.st.ghost['tree'] = z3.Const('tree!src', nodes.TreeMap)
                was = None
            else:
                w = Open(c, src)
                st, s, node = w.st, w.schema, w.node
                was = w.file()
            t = eng.nodec.tree(eng, node)
            before = eng.h(st)
            log = log_of(eng)
            p = text(eng, 'destination')
            b = pick(c, [None] + BACKENDS)
            sel = by_path(eng, p)
            there = boolv(files.exists(eng, p))
            if how == 'create_from':
                f = eng.mod_attr(eng.module('dsch.frontend'), 'create_from')
                k, r = c.call(f, p, st, *([] if b is None else [b]))
            else:
                k, r = c.method(st, 'save_as', p, *(
                    [] if b is None else [b]))
            now = eng.h(st)
            c.goal(CP[2], z3.And(
                eng.nodec.tree(eng, node) == t,
                z3.BoolVal(now is before or now.attrs == before.attrs),
                z3.BoolVal(True) if src == 'inmem' else z3.Or(
                    p == w.path, z3.BoolVal(w.file() == was))))
            if k == 'raise':
                if c.is_exc(r, FileExistsError):
                    c.goal(CP[4], z3.And(there, z3.BoolVal(
                        log_of(eng) == log)))
                elif c.is_exc(r, 'AutodetectBackendError'):
                    c.goal(CP[3], sel[None] if b is None else False)
                elif c.is_exc(r, ValueError):
                    c.goal(CP[3], b == 'inmem')
                else:
                    c.goal(CP[1], False, 'raises ' + c.exc_name(r))
                return
            c.cover('copied')
            got = backend_of(eng, r)
            if got is None:
                c.goal(CP[3], False, 'no storage')
                return
            c.goal(CP[3], sel[got] if b is None else got == b)
            if got != 'inmem':
                c.goal(CP[4], z3.Not(there))
            h1, sp = c.attr(r, 'storage_path')
            h2, sn = c.attr(r, 'schema_node')
            h3, d = c.attr(r, 'data')
            if 'raise' in (h1, h2, h3) or not is_sort(d, Node):
                c.goal(CP[1], False)
                return
            c.goal(CP[3], eng.value_eq(sp, p))
            c.goal(CP[0], is_sort(sn, Sch) and z3.And(
                eng.schc.cfg(eng, sn) == eng.schc.cfg(eng, s),
                eng.nodec.sch(eng, d) == sn))
            c.goal(CP[1], z3.And(eng.nodec.tree(eng, d) == t, d != node))
        c.explore(run)


for _h in ('create_from', 'save_as'):
    for _b in BACKENDS:
        copying(_h, _b)


# -- a storage and its top-level node ------------------------------------------------

TOP = ['complete is that of the top-level node',
       'validating is validating the top-level node',
       'the schema hash is that of its schema']


def top(b):
    @unit('P05 P06 P07', '%s.Storage' % b, {
        TOP[0]: 'P06', TOP[1]: 'P05', TOP[2]: 'P07',
        TRACE: 'P05 P06 P07 P09 P16'})
    def _(c):
        eng = c.eng
        c.need_cover('valid', 'invalid')

        def run():
            if b == 'inmem':
                install(eng)
                files.fs(eng)
                s = z3.Const('schema', Sch)
                k, st = c.call(eng.cls('dsch.backends.inmem', 'Storage'),
                               schema_node=s)
                if k == 'raise':
                    c.stop()
                node = c.attr(st, 'data')[1]
                eng.st.ghost['tree'] = z3.Const('tree!any', nodes.TreeMap)
            else:
                w = Open(c, b)
                st, s, node = w.st, w.schema, w.node
            t = eng.nodec.tree(eng, node)
            before = eng.h(st)
            k, r = c.attr(st, 'complete')
            c.goal(TOP[0], k == 'return' and eng.truth(r) ==
                   eng.nodec.is_complete(eng, node, t))
            k, r = c.method(st, 'schema_hash')
            c.goal(TOP[2], k == 'return' and eng.value_eq(
                r, eng.schc.hash_of(eng, s)))
            k, r = c.method(st, 'validate')
            c.cover('valid' if k == 'return' else 'invalid')
            c.lemma(TRACE, same_but(eng, before, eng.h(st)))
            if k == 'return':
                c.goal(TOP[1], eng.nodec.is_valid(eng, node))
            else:
                # it is the very error of the top-level node
                c.goal(TOP[1], z3.And(
                    z3.Not(eng.nodec.is_valid(eng, node)), z3.BoolVal(
                        eng.h(r).ghost.get('child') is not None)))
        c.explore(run)


for _b in BACKENDS:
    top(_b)


# -- P15: PseudoStorage ---------------------------------------------------------------

PS = ['a missing path is created with the given schema',
      'an existing storage or data node is used exactly if its schema is '
      'accepted', 'a refused one leaves it closed',
      'while open, data and schema_node are those of the actual data',
      'close saves and resets', 'opening an open one raises RuntimeError and '
      'changes nothing', 'with defer_open nothing is touched',
      'opened again it has the saved data']
PS_BOUNDS = [[1], [2], [0]]


class Pseudo:
    """Arguments of a PseudoStorage: what it opens, and what it accepts."""

    def __init__(self, c, b, kind):
        self.c, self.eng, self.b, self.kind = c, c.eng, b, kind
        eng = c.eng
        install(eng)
        flat(eng)
        from_json(eng)
        files.fs(eng)
        if b == 'mat':
            eng.isreg['mat_u'] = lambda e, u: filed(e, u)
        self.given = z3.Const('given', Sch)
        self.w = None
        if kind == 'node':
            self.target = z3.Const('own node', Node)
            eng.assume(eng.nodec.old(eng, self.target))
            self.actual = eng.nodec.sch(eng, self.target)
        elif kind == 'file':
            self.w = w = Open(c, b)
            w.on_disk()
            eng.assume(by_path(eng, w.path)[b])
            k, r = c.method(w.st, 'save', force=True)
            if k == 'raise':
                c.stop()
            self.target, self.actual = w.path, w.schema
        else:
            self.target = text(eng, 'path')
            eng.assume(by_path(eng, self.target)[b])
            if b != 'inmem':
                eng.assume(z3.Not(boolv(files.exists(eng, self.target))))
            else:
                eng.assume(z3.Not(boolv(files.exists(eng, self.target))))
            self.actual = self.given
        self.alternatives()
        self.f = eng.cls('dsch.frontend', 'PseudoStorage')
        self.made = []
        old = eng.isreg.get('factory_hook')

        def hook(e, n, s, a):
            self.made.append(n)
            return old(e, n, s, a) if old and self.w and False else None
        eng.isreg['factory_hook'] = hook

    def alternatives(self):
        eng, c = self.eng, self.c
        n = eng.size('alternatives')
        sch = z3.Function('alt:schema', Int, Sch)
        txt = z3.Function('alt:hash', Int, Str)
        isn = z3.Function('alt:is schema', Int, Bool)
        s = eng.new_list(eng.parts(n, lambda j: Alt([
            (isn(j), sch(j)), (z3.Not(isn(j)), txt(j))]), label='alts'))
        self.given_alts = z3.Bool('alternatives given')
        h = eng.schc.hash_of(eng, self.actual)
        one = c.exists(n, lambda j: z3.If(
            isn(j), eng.schc.hash_of(eng, sch(j)) == h, txt(j) == h))
        alts = eng.choose([True, True])
        self.alts = s if alts else None
        ok = h == eng.schc.hash_of(eng, self.given)
        if alts:
            ok = z3.Or(ok, boolv(one))
        self.accepted = ok

    def make(self, **k):
        if self.alts is not None:
            k['schema_alternatives'] = self.alts
        return self.c.call(self.f, self.target, self.given, **k)

    def parts(self, ps):
        return [self.c.attr(ps, n)[1] for n in (
            'data', 'storage', 'schema_node')]

    def closed(self, ps):
        return all(x is None for x in self.parts(ps))

    def opened(self, ps):
        """(formula) it shows the actual data."""
        eng = self.eng
        d, st, sn = self.parts(ps)
        if not is_sort(d, Node) or not is_sort(sn, Sch):
            return z3.BoolVal(False)
        f = [eng.nodec.sch(eng, d) == sn, eng.schc.cfg(eng, sn) ==
             eng.schc.cfg(eng, self.actual)]
        if self.kind == 'node':
            f += [d == self.target, z3.BoolVal(st is None)]
        else:
            f.append(z3.BoolVal(backend_of(eng, st) == self.b))
            if backend_of(eng, st) is not None:
                f.append(boolv(eng.value_eq(self.c.attr(
                    st, 'storage_path')[1], self.target)))
                f.append(boolv(is_sort(self.c.attr(st, 'data')[1], Node)))
                f.append(d == self.c.attr(st, 'data')[1])
        return z3.And(*f)


def pseudo(b, kind):
    obs = [PS[3], PS[4], PS[5], PS[6]] + {
        'node': [PS[1], PS[2], PS[7]], 'file': [PS[1], PS[2]],
        'new': [PS[0]]}[kind]
    if b in ('npz', 'mat') and kind != 'node':
        obs.append(PS[7])

    @unit('P15', 'PseudoStorage of a %s%s' % (
        {'node': 'data node', 'file': 'stored file, ',
         'new': 'missing path, '}[kind], '' if kind == 'node' else b),
        obs, weight=3, bounds=PS_BOUNDS)
    def _(c):
        eng = c.eng
        c.need_cover('open', 'closed')
        if kind != 'new':
            c.need_cover('refused')
        if b in ('npz', 'mat') and kind != 'node':
            c.need_cover('again')

        def run():
            w = Pseudo(c, b, kind)
            log0, heap0 = log_of(eng), set(eng.st.heap)
            tree0 = eng.nodec.map(eng)
            how = pick(c, ['at once', 'later', 'with', 'with deferred'])
            if how in ('later', 'with deferred'):
                k, ps = w.make(defer_open=True)
                if k == 'raise':
                    c.goal(PS[6], False, 'raises ' + c.exc_name(ps))
                    return
                c.goal(PS[6], w.closed(ps) and log_of(eng) == log0 and
                       not w.made and eng.nodec.map(eng) is tree0)
                k, r = c.method(ps, '__enter__' if how == 'with deferred'
                                else 'open')
            else:
                k, ps = w.make()
                r = ps
                if k == 'return' and how == 'with':
                    k, r = c.method(ps, '__enter__')
            if k == 'raise':
                if how in ('later', 'with deferred'):
                    c.goal(PS[2], w.closed(ps), 'after an error')
                if c.is_exc(r, 'InvalidSchemaError'):
                    c.cover('refused')
                    c.goal(PS[1], z3.Not(w.accepted))
                    if kind == 'new':
                        c.goal(PS[0], False, 'refused')
                elif kind == 'file' and w.made and c.is_exc(
                        r, 'ValidationError', 'SubnodeValidationError'):
                    c.goal(PS[1], z3.Not(eng.nodec.is_valid(
                        eng, w.made[-1])))
                else:
                    c.goal(PS[1] if kind != 'new' else PS[0], False,
                           'raises ' + c.exc_name(r))
                return
            if how.startswith('with'):
                c.goal(PS[3], isinstance(r, Ref) and r == ps)
            c.cover('open')
            if kind == 'new':
                d = w.parts(ps)[0]
                c.goal(PS[0], z3.And(w.opened(ps), z3.BoolVal(bool(
                    w.made) and is_sort(d, Node) and d.eq(w.made[-1]))))
            else:
                c.goal(PS[1], w.accepted)
            c.goal(PS[3], w.opened(ps))
            then = pick(c, ['open', 'close'])
            if then == 'open':
                was, logd = w.parts(ps), log_of(eng)
                k, r = c.method(ps, 'open')
                c.goal(PS[5], k == 'raise' and c.is_exc(r, RuntimeError)
                       and same_parts(was, w.parts(ps))
                       and log_of(eng) == logd)
                return
            # the data are changed while it is open, then it is closed
            d, st, sn = w.parts(ps)
            if not is_sort(d, Node):
                return      # refuted above
            new = eng.fresh('content', Tree)
            eng.nodec.set_tree(eng, d, new)
            valid = eng.nodec.is_valid(eng, d)
            eng.assume(valid)
            saved = eng.nodec.saved(eng, new)
            comp = eng.schc.type_of(eng, w.actual) == eng.ty(
                eng.cls('dsch.schema', 'Compilation'))
            eng.assume(z3.Implies(saved == eng.to_u(None), z3.And(
                eng.nodec.is_empty(eng, new), z3.Not(comp))))
            n0 = len(log_of(eng))
            if how.startswith('with'):
                exc = pick(c, [None, ValueError])
                k, r = c.method(ps, '__exit__', exc, None, None)
                if k == 'return' and exc is not None:
                    # the error must not be swallowed
                    c.goal(PS[4], z3.Not(boolv(eng.truth(r))))
            else:
                k, r = c.method(ps, 'close')
            c.cover('closed')
            wrote = [e for e in log_of(eng)[n0:] if e[0] in (
                'write', 'flush', 'close')]
            c.goal(PS[4], k == 'return' and w.closed(ps) and (
                b == 'inmem' or kind == 'node' or bool(wrote)))
            if b == 'inmem' or kind == 'node':
                c.goal(PS[4], log_of(eng) == log0 and boolv(
                    eng.nodec.tree(eng, d) == new))
                if kind == 'node':
                    k, r = c.method(ps, 'open')
                    c.goal(PS[7], k == 'return' and z3.And(
                        w.opened(ps), eng.nodec.tree(eng, d) == new))
                return
            c.goal(PS[4], eng.nodec.tree(eng, d) == new)
            if b == 'hdf5' or PS[7] not in obs:
                return
            eng.assume(z3.Implies(eng.uf('flat:n', U, Int)(saved) == 0,
                                  eng.nodec.is_empty(eng, new)))
            k, r = c.method(ps, 'open')
            if k == 'raise' and c.is_exc(r, 'ValidationError',
                                         'SubnodeValidationError'):
                c.stop()    # what is loaded is valid as what was saved
            d2, st2, sn2 = w.parts(ps)
            if k == 'raise' or not is_sort(d2, Node):
                c.goal(PS[7], False)
                return
            c.cover('again')
            t = eng.nodec.tree(eng, d2)
            c.goal(PS[7], z3.And(w.opened(ps), z3.Or(
                t == eng.nodec.loaded(eng, sn2, filed(eng, saved)),
                z3.And(eng.nodec.is_empty(eng, new),
                       t == eng.nodec.cleared(eng, sn2)))))
        c.explore(run)


def same_parts(a, b):
    return all(x is y or (isinstance(x, Ref) and x == y) or (
        is_z3(x) and is_z3(y) and x.eq(y)) for x, y in zip(a, b))


pseudo('npz', 'node')
for _b in FILES:
    pseudo(_b, 'file')
for _b in BACKENDS:
    pseudo(_b, 'new')


# -- P09, P16: what is saved is what is loaded -------------------------------------

RT = ['saving with force succeeds', 'the stored storage can be loaded',
      'the loaded schema is the saved one',
      'the loaded data are the saved data',
      'loading changes neither files nor memory',
      'the data are written to the file']


def round_trip(b):
    obs = {RT[0]: 'P07 P09', RT[1]: 'P09', RT[2]: 'P09',
           RT[3]: 'P09 P13 P18', RT[4]: 'P16', RT[5]: 'P09'}

    @unit('P09 P07 P16 P18', '%s.Storage save and load' % b, obs, weight=2)
    def _(c):
        eng = c.eng
        c.need_cover('compilation', 'other', 'empty')

        def run():
            w = Open(c, b)
            here = w.on_disk()
            comp = eng.schc.type_of(eng, w.schema) == eng.ty(
                eng.cls('dsch.schema', 'Compilation'))
            saved = eng.nodec.saved(eng, w.tree)
            if b != 'hdf5':
                # contract of saving: nothing is saved of empty items only
                eng.assume(z3.Implies(saved == eng.to_u(None), z3.And(
                    eng.nodec.is_empty(eng, w.tree), z3.Not(comp))))
            if b == 'npz':
                eng.assume(z3.Implies(
                    eng.uf('flat:n', U, Int)(saved) == 0,
                    eng.nodec.is_empty(eng, w.tree)))
            if b == 'mat':
                eng.isreg['mat_u'] = lambda e, u: filed(e, u)
            k, r = c.method(w.st, 'save', force=True)
            c.goal(RT[0], k == 'return')
            if k == 'raise':
                c.stop()
            if b == 'hdf5':
                c.goal(RT[5], bool(log_of(eng)) and log_of(eng)[-1][0] in (
                    'flush', 'close'))
            else:
                c.goal(RT[5], z3.Or(False, *[
                    boolv(eng.value_eq(e[1], w.path)) for e in log_of(eng)
                    if e[0] == 'write']))
            log, mem = log_of(eng), eng.nodec.map(eng)
            content = snap(eng, w)
            k, st = c.call(eng.cls('dsch.backends.' + b, 'Storage'), w.path)
            c.goal(RT[1], k == 'return', '' if k == 'return' else
                   c.exc_name(st))
            if k == 'raise':
                c.stop()
            how, sn = c.attr(st, 'schema_node')
            how2, d = c.attr(st, 'data')
            if how == 'raise' or how2 == 'raise' or not is_sort(
                    sn, Sch) or not is_sort(d, Node):
                c.goal(RT[2], False)
                c.goal(RT[3], False)
                c.stop()
            c.goal(RT[2], z3.And(
                eng.schc.cfg(eng, sn) == eng.schc.cfg(eng, w.schema),
                eng.nodec.sch(eng, d) == sn))
            if eng.branch(comp):
                c.cover('compilation')
            else:
                c.cover('other')
            t = eng.nodec.tree(eng, d)
            x = here if b == 'hdf5' else filed(eng, saved)
            empty = eng.nodec.is_empty(eng, w.tree)
            kept = t == eng.nodec.loaded(eng, sn, x)
            if eng.branch(empty):
                c.cover('empty')
            c.goal(RT[3], z3.Or(kept, z3.And(empty, t == eng.nodec.cleared(
                eng, sn))))
            c.goal(RT[3], eng.uf('mod', Node, Str)(d) == eng.lit(
                'dsch.backends.' + b))
            now = eng.nodec.map(eng)
            old = w.node
            c.goal(RT[4], z3.And(
                z3.BoolVal(log_of(eng) == log and snap(eng, w) == content),
                eng.nodec.tree(eng, old) == w.tree))
        c.explore(run)


def snap(eng, w):
    ok, f = files.lookup(eng, w.path)
    if not ok or not isinstance(f, Ref):
        return None
    p = eng.h(f)
    return (f.oid, id(eng.h(p.attrs['items'])) if 'items' in p.attrs
            else None)


for _b in FILES:
    round_trip(_b)


def all_(it):
    r = True
    for x in it:
        r = z3.And(boolv(r), boolv(x))
    return r
