"""Loops over containers of unknown size.

The invariant is synthesised and checked in two steps.  Step 1 runs the body
once for an arbitrary index k from the state before the loop and records what
it changes.  Step 2 runs the body again from a state in which everything that
the loop changes is generalised to "after k iterations" (a counter, a flag, a
list or dict that has grown by one guarded element per iteration, a ghost map
updated at the k-th element) and checks that one more iteration keeps exactly
that shape; reading something generalised in any other way is Unsupported.
The result is exact: after the loop, every index took one of the normal paths
of the body (for all j < n: Norm(j)); a path that leaves the loop does so at
some k with Norm(j) for all j < k.
"""
import z3

from . import engine as en
from .values import *  # noqa: F401,F403


def same(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if is_z3(a) or is_z3(b):
        return False
    if isinstance(a, (Ref, External, Builtin, tuple)) or isinstance(
            a, (int, str, bool, type(None), float, bytes)):
        try:
            return type(a) is type(b) and bool(a == b)
        except Exception:
            return False
    return False


def undefined(*_):
    raise Unsupported('reads what earlier iterations of the loop made')


def bump(st, outs):
    st.fresh = max([st.fresh] + [o.st.fresh for o in outs])
    st.next = max([st.next] + [o.st.next for o in outs])


def freeze(v, heap, limit, depth=0):
    """Make a value of one iteration independent of the heap."""
    if depth > 8:
        raise Unsupported('deep loop object')
    if isinstance(v, Ref) and v.oid > limit:
        p = heap[v.oid]

        def fz(x):
            return freeze(x, heap, limit, depth + 1)
        if isinstance(p, HObj):
            q = HObj(p.cls, {k: fz(x) for k, x in p.attrs.items()},
                     {k: fz(x) for k, x in p.ghost.items()})
        elif isinstance(p, HList):
            q = HList([e if isinstance(e, Seg) else ('i', fz(e[1]))
                       for e in p.parts])
        else:
            q = HDict([e if isinstance(e, Seg) else ('i', fz(e[1]), fz(e[2]))
                       for e in p.parts])
        return en.Frozen(q)
    if isinstance(v, tuple):
        return tuple(freeze(x, heap, limit, depth + 1) for x in v)
    if isinstance(v, Alt):
        return Alt([(c, freeze(x, heap, limit, depth + 1))
                    for c, x in v.alts])
    return v


def conj(fs):
    fs = [f for f in fs if not z3.is_true(f)]
    if not fs:
        return z3.BoolVal(True)
    return fs[0] if len(fs) == 1 else z3.And(*fs)


def disj(fs):
    if not fs:
        return z3.BoolVal(False)
    if any(z3.is_true(f) for f in fs):
        return z3.BoolVal(True)
    return fs[0] if len(fs) == 1 else z3.Or(*fs)


def merged(pairs, eng):
    """One value from [(condition, value)] with exhaustive conditions."""
    v = pairs[-1][1]
    for c, x in reversed(pairs[:-1]):
        if same(x, v):
            continue
        v = en.merge_if(c, x, v, eng)
    return v


def boolify(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def store_chain(t):
    """Decompose Store(Store(base, a, x), b, y) into base, [(b, y), (a, x)]."""
    out = []
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
        out.append((t.arg(1), t.arg(2)))
        t = t.arg(0)
    return t, out


class _Plan:
    def __init__(self):
        self.locals = {}
        self.lists = {}
        self.dicts = {}
        self.attrs = {}
        self.ghost = {}

    def __bool__(self):
        return bool(self.locals or self.lists or self.dicts or self.attrs
                    or self.ghost)


def classify(v0, finals, eng):
    """How a variable changes per iteration."""
    if is_int(v0):
        ds = []
        for v in finals:
            if not is_int(v):
                return ('temp',)
            d = v - v0
            d = z3.simplify(d) if is_z3(d) else d
            if is_z3(d):
                if not z3.is_int_value(d):
                    return ('temp',)
                d = d.as_long()
            ds.append(d)
        if len(set(ds)) == 1:
            return ('counter', ds[0])
        return ('temp',)
    if isinstance(v0, (bool, z3.BoolRef)) and all(
            isinstance(v, (bool, z3.BoolRef)) for v in finals):
        return ('flag',)
    return ('temp',)


def for_segment(eng, seg, target, body, fr):
    rule = getattr(seg, 'rule', None)
    if rule is not None:
        return rule(seg, target, body, fr)
    S0 = eng.st
    ctx = list(eng.loopctx)
    k = eng.fresh('k', Int)
    n = seg.n
    rng = z3.And(0 <= k, k < n)
    guard = [seg.g(k)] if seg.g is not None else []
    base = S0.copy()
    base.pc += [rng] + guard
    start = fr.locals

    def runner(locals_):
        def run():
            eng.loopctx = ctx + [k]
            f = fr.with_locals(dict(locals_))
            kind, val = 'next', None
            try:
                eng.assign(target, seg.v(k), f)
                if callable(body):
                    body(f)
                else:
                    eng.exec_body(body, f)
            except en._Continue:
                pass
            except en._Break:
                kind = 'break'
            except en._Return as r:
                kind, val = 'return', r.value
            except PyRaise as e:
                kind, val = 'raise', e.value
            return kind, val, f.locals
        return run

    outs = eng.explore(runner(start), base)
    plan = make_plan(eng, base, start, outs, n, seg, k)
    bump(S0, outs)
    fills = []
    flags = {}
    gfix = []
    s1 = base
    if plan:
        s1, locs, fills, flags, gsym = generalise(eng, base, start, plan, k,
                                                  seg, ctx)
        outs = eng.explore(runner(locs), s1)
        bump(S0, outs)
        check = make_plan(eng, s1, locs, outs, n, seg, k)
        conform(plan, check)
    nb = len(s1.pc)
    nexts = [o for o in outs if o.value[0] == 'next']
    exits = [o for o in outs if o.value[0] != 'next']

    def cond(o):
        return z3.simplify(conj(o.pc[nb:]))
    conds = {id(o): cond(o) for o in outs}
    norm = z3.simplify(disj([conds[id(o)] for o in nexts]))
    exhaustive = not exits

    def at(f, j):
        return z3.substitute(f, (k, j)) if is_z3(f) else f

    # flags: turn "b after k iterations" into a formula
    flagdef = {}
    for name, b in flags.items():
        v0 = boolify(get_loc(start, base, name))
        fin = disj([z3.And(conds[id(o)], boolify(get_loc(
            o.value[2], o.st, name))) for o in nexts])
        t_, f_ = z3.BoolVal(True), z3.BoolVal(False)

        def sub(f, x, b=b):
            return z3.simplify(z3.substitute(f, (b, x)))
        if valid(eng, s1.pc, z3.Implies(sub(norm, f_), z3.Not(sub(fin, f_)))):
            p = sub(fin, t_)
            flagdef[name] = lambda m, p=p, v0=v0: z3.And(
                v0, every(m, lambda j: z3.Implies(gd(j), at(p, j))))
        elif valid(eng, s1.pc, z3.Implies(sub(norm, t_), sub(fin, t_))):
            p = sub(fin, f_)
            flagdef[name] = lambda m, p=p, v0=v0: z3.Or(
                v0, z3.Not(every(m, lambda j: z3.Implies(
                    gd(j), z3.Not(at(p, j))))))
        else:
            raise Unsupported('flag variable %s in a loop' % (name,))
        norm = z3.simplify(z3.Or(sub(norm, t_), sub(norm, f_)))

    def gd(j):
        return seg.g(j) if seg.g is not None else z3.BoolVal(True)

    def every(m, f):
        j = z3.Int('j!%d' % (S0.fresh + 1))
        S0.fresh += 1
        b = z3.simplify(f(j))
        if z3.is_true(b):
            return b
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), b))

    if fills or (plan and plan.ghost):
        for name in flags:
            # growing containers whose elements depend on a flag
            for o in nexts:
                if en.contains_term(conds[id(o)], flags[name]):
                    raise Unsupported('flag-dependent loop result')

    # growing lists and dicts
    finals = []
    for kind, oid, acc in fills:
        if kind == 'drop':
            finals.append((kind, oid, acc))
            continue
        pairs = []
        for o in nexts:
            new = added(kind, s1, o.st, oid)
            pairs.append((conds[id(o)], new))
        hit = [(c, x) for c, x in pairs if x]
        full = len(hit) == len(pairs)
        c_any = z3.simplify(disj([c for c, x in hit])) if not full else None
        heaps = {id(o): o.st.heap for o in nexts}
        vals, keys = [], []
        for o in nexts:
            new = added(kind, s1, o.st, oid)
            if not new:
                continue
            e = new[0]
            vals.append((conds[id(o)], freeze(e[-1], o.st.heap, base.next)))
            if kind == 'dict':
                keys.append((conds[id(o)], eng.text(e[1])
                             if is_text(e[1]) else e[1]))
        v = merged(vals, eng)

        def vfun(j, v=v):
            return en.subst_value(v, [(k, j)], eng)
        acc.v = vfun
        if full and seg.g is None:
            acc.g = None
        elif full:
            acc.g = seg.g
        else:
            acc.g = lambda j, c=c_any: z3.And(gd(j), at(c, j))
        if kind == 'dict':
            kk = merged(keys, eng)
            if isinstance(kk, Alt):
                raise Unsupported('dict keys in a loop')
            if not is_z3(kk):
                raise Unsupported('constant dict key in a loop')
            acc.k = lambda j, kk=kk: at(kk, j)
            # keys of different iterations must differ
            a, b = z3.Int('a!key'), z3.Int('b!key')
            g2 = acc.g or (lambda j: z3.BoolVal(True))
            inj = z3.ForAll([a, b], z3.Implies(z3.And(
                0 <= a, a < n, 0 <= b, b < n, g2(a), g2(b),
                acc.k(a) == acc.k(b)), a == b))
            kinv = getattr(seg, 'inv', None)
            probe = z3.Int('j!pi')
            acc.inv = None
            if seg.k is not None and kinv is not None and \
                    eng.text(seg.k(probe)).eq(acc.k(probe)):
                acc.inv = kinv
            elif not valid(eng, S0.pc, inj):
                raise Unsupported('dict keys in a loop may repeat')
        finals.append((kind, oid, acc))

    # ghost maps
    garr = {}
    if plan and plan.ghost:
        for key in plan.ghost:
            garr[key] = ghost_summary(eng, key, base, s1, gsym[key], nexts,
                                      conds, k, n, gd, at, S0, nb)

    # the alternatives
    alts = []
    full_norm = every(n, lambda j: z3.Implies(gd(j), at(norm, j)))
    normal = [full_norm] if not z3.is_true(full_norm) else []
    gn = {}
    for key, mk in garr.items():
        arr, ax = mk(n)
        gn[key] = arr
        normal.append(ax)
    alts.append(conj(normal))
    for e in exits:
        fs = [rng] + guard
        bef = every(k, lambda j: z3.Implies(gd(j), at(norm, j)))
        if not z3.is_true(bef):
            fs.append(bef)
        for name, b in flags.items():
            fs.append(b == flagdef[name](k))
        for key, mk in garr.items():
            arr, ax = mk(k, gsym[key])
            fs.append(ax)
        fs += e.pc[nb:]
        alts.append(conj(fs))
    if not nexts:
        # every iteration leaves: the loop completes only if it is empty
        alts[0] = every(n, lambda j: z3.Not(gd(j)))
    i = eng.choose(alts) if len(alts) > 1 else _only(eng, alts[0])
    st = eng.st
    if i == 0:
        apply_normal(eng, st, start, plan, finals, flagdef, gn, n, seg, outs,
                     fr, base)
        return False
    e = exits[i - 1]
    st.heap = dict(e.st.heap)
    st.ghost = dict(e.st.ghost)
    st.next = max(st.next, e.st.next)
    st.fresh = max(st.fresh, e.st.fresh)
    kind, val, locs = e.value
    fr.locals.update(locs)
    if kind == 'break':
        return True
    if kind == 'return':
        raise en._Return(val)
    raise PyRaise(val)


def _only(eng, f):
    if not z3.is_true(f):
        eng.assume(f)
        if z3.is_false(f):
            raise Infeasible()
    return 0


def get_loc(locals_, st, name):
    if isinstance(name, tuple):
        return st.heap[name[0]].attrs[name[1]]
    return locals_[name]


def valid(eng, pc, f):
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(*eng.axioms)
    s.add(*pc)
    s.add(z3.Not(f))
    eng.queries += 1
    return s.check() == z3.unsat


def make_plan(eng, base, start, outs, n, seg=None, k=None):
    plan = _Plan()
    nexts = [o for o in outs if o.value[0] == 'next']
    names = {}
    for o in nexts:
        for nm, v in o.value[2].items():
            if nm not in start or not same(start[nm], v):
                names.setdefault(nm, []).append(v)
    for nm, vals in names.items():
        if nm not in start or isinstance(start[nm], Poison):
            plan.locals[nm] = ('new',)
            continue
        finals = [o.value[2].get(nm) for o in nexts]
        plan.locals[nm] = classify(start[nm], finals, eng)
    if all(x == ('new',) for x in plan.locals.values()):
        fresh_only = True
    else:
        fresh_only = False
    oids = set()
    for o in nexts:
        for oid, p in o.st.heap.items():
            if oid in base.heap and p is not base.heap[oid]:
                oids.add(oid)
    for oid in sorted(oids):
        p0 = base.heap[oid]
        if isinstance(p0, HObj):
            for o in nexts:
                p1 = o.st.heap[oid]
                for a in set(p0.attrs) | set(p1.attrs):
                    if a not in p0.attrs or a not in p1.attrs:
                        raise Unsupported('attribute set in a loop')
                    if not same(p0.attrs[a], p1.attrs[a]):
                        fin = [q.st.heap[oid].attrs[a] for q in nexts]
                        plan.attrs[(oid, a)] = classify(p0.attrs[a], fin,
                                                        eng)
                if p1.ghost is not p0.ghost and p1.ghost != p0.ghost:
                    raise Unsupported('native object changed in a loop')
            continue
        counts = set()
        for o in nexts:
            p1 = o.st.heap[oid]
            if isinstance(p0, HList) and stored(p0, p1) is not None:
                counts.add('store')
                continue
            if isinstance(p0, HDict) and dropped(p0, p1) is not None:
                if not (seg and dropped(p0, p1).eq(k)):
                    raise Unsupported('entries removed in a loop')
                counts.add('drop')
                continue
            if len(p1.parts) < len(p0.parts) or any(
                    x is not y for x, y in zip(p0.parts, p1.parts)):
                counts.add('other')
                continue
            c = len(p1.parts) - len(p0.parts)
            counts.add(c if not any(isinstance(x, Seg) for x in
                                    p1.parts[len(p0.parts):]) else 'other')
        if counts == {'store'} and isinstance(p0, HList):
            plan.lists[oid] = 'store'
        elif counts == {'drop'} and isinstance(p0, HDict):
            plan.dicts[oid] = 'drop'
        elif counts <= {0, 1}:
            (plan.lists if isinstance(p0, HList) else plan.dicts)[oid] = (
                'all' if counts == {1} else 'some')
        else:
            raise Unsupported('container changed in a loop (%s)' % counts)
    gk = set()
    for o in nexts:
        for key, v in o.st.ghost.items():
            if key not in base.ghost:
                raise Unsupported('ghost %s' % key)
            if not same(v, base.ghost[key]):
                gk.add(key)
    for key in gk:
        plan.ghost[key] = True
    if fresh_only and not (plan.lists or plan.dicts or plan.attrs
                           or plan.ghost):
        plan.new_locals = set(plan.locals)
        p = _Plan()
        p.new_locals = plan.new_locals
        return p
    plan.new_locals = {nm for nm, c in plan.locals.items()
                       if c == ('new',)}
    return plan


def stored(p0, p1):
    """(index, value) if p1 is p0 with one element assigned."""
    if len(p0.parts) == 1 and len(p1.parts) == 1 and isinstance(
            p0.parts[0], Seg) and isinstance(p1.parts[0], Seg):
        s = getattr(p1.parts[0], 'store', None)
        if s is not None and s[0] is getattr(p0.parts[0], 'root',
                                             p0.parts[0]):
            return s[1], s[2]
    return None


def dropped(p0, p1):
    """Index of the entry that is missing from p1, compared to p0."""
    if len(p0.parts) == 1 and len(p1.parts) == 1 and isinstance(
            p0.parts[0], Seg) and isinstance(p1.parts[0], Seg):
        s = getattr(p1.parts[0], 'drop', None)
        if s is not None and s[0] is getattr(p0.parts[0], 'root',
                                             p0.parts[0]):
            return s[1]
    return None


def rest(seg, e, m):
    """Entries of e that are left after m iterations each removed its own."""
    def g(j):
        done = [0 <= j, j < m] + ([seg.g(j)] if seg.g is not None else [])
        have = [e.g(j)] if e.g is not None else []
        return z3.And(z3.Not(z3.And(*done)), *have)
    return Seg(e.n, e.v, g, e.k, e.inv, e.label)


def conform(plan, check):
    for a, b, what in ((plan.lists, check.lists, 'list'),
                       (plan.dicts, check.dicts, 'dict')):
        if set(b) - set(a):
            raise Unsupported('loop changes another %s later' % what)
        for oid in a:
            if a[oid] != b.get(oid, 'none') and not (
                    a[oid] == 'some'):
                raise Unsupported('loop changes a %s irregularly' % what)
    if set(check.ghost) - set(plan.ghost):
        raise Unsupported('loop changes more data later')
    for nm, c in check.locals.items():
        p = plan.locals.get(nm)
        if p is None:
            raise Unsupported('loop changes variable %s later' % nm)
        if c[0] == 'counter' and p[0] == 'counter' and c != p:
            raise Unsupported('irregular counter')
        if p[0] == 'counter' and c[0] not in ('counter',):
            raise Unsupported('irregular counter')
    for key, c in check.attrs.items():
        p = plan.attrs.get(key)
        if p is None or (p[0] == 'counter' and c != p):
            raise Unsupported('loop changes attribute later')


def generalise(eng, base, start, plan, k, seg, ctx):
    s1 = base.copy()
    locs = dict(start)
    flags = {}
    fills = []
    gsym = {}
    saved = eng.st, eng.loopctx
    eng.st, eng.loopctx = s1, ctx + [k]
    try:
        for nm, c in plan.locals.items():
            if c[0] == 'counter':
                if seg.g is not None:
                    raise Unsupported('counter in a filtered loop')
                locs[nm] = start[nm] + c[1] * k
            elif c[0] == 'flag':
                b = eng.fresh('flag', Bool)
                locs[nm] = b
                flags[nm] = b
            elif c[0] == 'temp':
                locs[nm] = Poison('loop variable %s of an earlier iteration'
                                  % nm)
        for (oid, a), c in plan.attrs.items():
            ref = Ref(oid)
            p = s1.heap[oid]
            if c[0] == 'counter':
                s1.heap[oid] = p.with_attr(a, p.attrs[a] + c[1] * k)
            elif c[0] == 'flag':
                b = eng.fresh('flag', Bool)
                s1.heap[oid] = p.with_attr(a, b)
                flags[(oid, a)] = b
            else:
                s1.heap[oid] = p.with_attr(a, Poison('attribute ' + a))
        for oid, how in plan.lists.items():
            p = s1.heap[oid]
            if how == 'store':
                acc = Seg(p.parts[0].n, undefined, label='stored')
                acc.acc = True
                acc.root = acc
                s1.heap[oid] = HList([acc])
                fills.append(('store', oid, acc))
                continue
            acc = Seg(k, undefined, label='acc')
            acc.acc = True
            if how == 'some' or seg.g is not None:
                acc.g = undefined
            s1.heap[oid] = HList(p.parts + (acc,))
            fills.append(('list', oid, acc))
        for oid, how in plan.dicts.items():
            p = s1.heap[oid]
            if how == 'drop':
                e = p.parts[0]
                s1.heap[oid] = HDict([rest(seg, e, k)])
                fills.append(('drop', oid, e))
                continue
            acc = Seg(k, undefined, k=undefined, label='acc')
            acc.acc = True
            if how == 'some' or seg.g is not None:
                acc.g = undefined
            s1.heap[oid] = HDict(p.parts + (acc,))
            fills.append(('dict', oid, acc))
        for key in plan.ghost:
            v = s1.ghost[key]
            if not z3.is_array(v):
                raise Unsupported('ghost %s changed in a loop' % key)
            t = eng.fresh('T', v.sort())
            s1.ghost[key] = t
            gsym[key] = t
    finally:
        eng.st, eng.loopctx = saved
    return s1, locs, fills, flags, gsym


def added(kind, s1, st, oid):
    p0, p1 = s1.heap[oid], st.heap[oid]
    if kind == 'store':
        s = stored(p0, p1)
        return [] if s is None else [('i', s[1])]
    return list(p1.parts[len(p0.parts):])


def ghost_summary(eng, key, base, s1, t1, nexts, conds, k, n, gd, at, S0,
                  nb):
    """Each iteration writes the map at one key of its own."""
    t0 = base.ghost[key]
    writes = []
    for o in nexts:
        root, chain = store_chain(o.st.ghost[key])
        if not root.eq(t1):
            raise Unsupported('ghost map replaced in a loop')
        if not chain:
            continue
        i = chain[0][0]
        if any(not c[0].eq(i) for c in chain):
            raise Unsupported('several ghost writes in one iteration')
        if not en.contains_term(i, k):
            raise Unsupported('ghost write at a fixed key in a loop')
        writes.append((conds[id(o)], i, chain[0][1]))
    # reads of the map: only what earlier iterations cannot have written
    reads = []
    for o in nexts:
        for f in [conds[id(o)]] + [w for _, _, w in writes]:
            collect_reads(f, t1, reads)
    a = z3.Int('a!gs')

    def clean(f):
        return z3.substitute(f, (t1, t0))
    # what every iteration establishes (apart from the map itself)
    common = [f for f in nexts[0].pc[nb:]
              if all(any(f.eq(g) for g in o.pc[nb:]) for o in nexts[1:])
              and not en.contains_term(f, t1)]
    pure = conj(common)
    pc = s1.pc + [pure]
    whole = len(writes) == len(nexts) and all(
        w[1].eq(writes[0][1]) for w in writes)

    def when(c):
        """Condition of a write, for the comparison of keys."""
        if whole:
            return z3.BoolVal(True)
        if en.contains_term(c, t1):
            fs = c.children() if z3.is_and(c) else [c]
            return conj([f for f in fs if not en.contains_term(f, t1)])
        return c

    def earlier(a, c):
        return z3.And(0 <= a, a < k, gd(a), at(pure, a), at(when(c), a))
    keys = []
    for c, i, _ in writes:
        if not any(i.eq(x[1]) and (whole or c.eq(x[0])) for x in keys):
            keys.append((c, i))
    for ca, ia in keys:
        for cb, ib in keys:
            own = z3.ForAll([a], z3.Implies(earlier(a, ca),
                                            at(ia, a) != ib))
            if not valid(eng, pc + [when(cb)], own):
                raise Unsupported('ghost keys of a loop may coincide')
    for r in reads:
        for c, i in keys:
            if r.eq(i):
                continue
            f = z3.ForAll([a], z3.Implies(earlier(a, c), at(i, a) != r))
            if not valid(eng, pc, f):
                raise Unsupported('loop reads data written before')
    groups = []     # (key, value, condition)
    for _, i in keys:
        if any(i.eq(g[0]) for g in groups):
            continue
        ws = [(c, w) for c, x, w in writes if x.eq(i)]
        val = ws[-1][1]
        for c, w in reversed(ws[:-1]):
            if not w.eq(val):
                val = z3.If(c, w, val)
        g = clean(z3.simplify(disj([c for c, _ in ws]))) if len(
            ws) < len(nexts) else z3.BoolVal(True)
        groups.append((i, clean(val), g))
    for i, _, _ in groups[1:]:
        if i.sort() != groups[0][0].sort():
            raise Unsupported('ghost keys')
    inv = z3.Function('inv!%d' % S0.fresh, groups[0][0].sort(), Int)
    S0.fresh += 1
    x = z3.Const('x!gs', groups[0][0].sort())
    j = z3.Int('j!gs')

    def mk(m, arr=None):
        if arr is None:
            arr = eng.fresh('T', t0.sort())
        ix = inv(x)
        v = z3.Select(t0, x)
        axs = []
        for idx, val, g in groups:
            v = z3.If(z3.And(0 <= ix, ix < m, gd(ix), at(g, ix),
                             at(idx, ix) == x), at(val, ix), v)
            axs.append(z3.ForAll([j], z3.Implies(z3.And(
                0 <= j, j < m, gd(j), at(g, j)), inv(at(idx, j)) == j),
                patterns=[at(idx, j)]))
        ax1 = z3.ForAll([x], z3.Select(arr, x) == v,
                        patterns=[z3.Select(arr, x)])
        return arr, z3.And(ax1, *axs)
    return mk


def collect_reads(f, arr, out):
    seen = set()
    stack = [f]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and \
                t.arg(0).eq(arr):
            out.append(t.arg(1))
            stack.append(t.arg(1))
            continue
        if t.eq(arr):
            raise Unsupported('ghost map used as a whole')
        stack.extend(t.children())


def apply_normal(eng, st, start, plan, finals, flagdef, gn, n, seg, outs, fr,
                 base):
    for nm in getattr(plan, 'new_locals', ()):
        fr.locals[nm] = Poison('variable %s after the loop' % nm)
    if not plan:
        return
    for nm, c in plan.locals.items():
        if c[0] == 'counter':
            fr.locals[nm] = start[nm] + c[1] * n
        elif c[0] == 'flag':
            fr.locals[nm] = flagdef[nm](n)
        else:
            fr.locals[nm] = Poison('variable %s after the loop' % nm)
    for (oid, a), c in plan.attrs.items():
        p = st.heap[oid]
        if c[0] == 'counter':
            st.heap[oid] = p.with_attr(a, p.attrs[a] + c[1] * n)
        elif c[0] == 'flag':
            st.heap[oid] = p.with_attr(a, flagdef[(oid, a)](n))
        else:
            st.heap[oid] = p.with_attr(a, Poison('attribute %s after a loop'
                                                 % a))
    for kind, oid, acc in finals:
        p = base.heap[oid]
        if kind == 'drop':
            r = rest(seg, acc, n)
            j = z3.Int('j!rest')
            gone = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.n),
                                             z3.Not(r.g(j))))
            st.heap[oid] = HDict([] if valid(eng, st.pc, gone) else [r])
            continue
        if kind == 'store':
            if not valid(eng, st.pc, acc.n == n):
                raise Unsupported('list is filled partially')
            st.heap[oid] = HList([Seg(n, acc.v, acc.g, label='stored')])
            continue
        s = Seg(n, acc.v, acc.g, acc.k, getattr(acc, 'inv', None),
                label='made')
        st.heap[oid] = (HList if kind == 'list' else HDict)(
            p.parts + (s,))
    for key, arr in gn.items():
        st.ghost[key] = arr
