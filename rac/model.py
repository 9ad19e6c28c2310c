"""Executable specification used by the run-time contract checks.

Everything here is written from the property statements only; it shares no
code with dsch.  A data tree is modelled as

* item:         None (empty) or the value
* compilation:  dict of field name -> model
* list:         list of models
"""
import datetime
import math

import numpy as np

from dsch import schema


def is_comp(s):
    return type(s).__name__ == 'Compilation'


def is_list(s):
    return type(s).__name__ == 'List'


def is_item(s):
    return not (is_comp(s) or is_list(s))


# -- values -----------------------------------------------------------------

def same(a, b):
    """Equality of values: same type, dtype, shape and content."""
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype.kind in 'fc':
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, np.generic):
        if a.dtype != b.dtype:
            return False
        return bool(a == b) or (bool(a != a) and bool(b != b))
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    return a == b


def same_tree(s, a, b):
    """Equality of two model trees for schema s."""
    if is_comp(s):
        return (isinstance(a, dict) and isinstance(b, dict)
                and set(a) == set(b) == set(s.subnodes)
                and all(same_tree(s.subnodes[n], a[n], b[n]) for n in a))
    if is_list(s):
        return (isinstance(a, list) and isinstance(b, list)
                and len(a) == len(b)
                and all(same_tree(s.subnode, x, y) for x, y in zip(a, b)))
    if a is None or b is None:
        return a is None and b is None
    return same(a, b)


def fresh(s):
    """Model of a new, empty node."""
    if is_comp(s):
        return {n: fresh(c) for n, c in s.subnodes.items()}
    if is_list(s):
        return []
    return None


def copy_tree(s, m):
    if is_comp(s):
        return {n: copy_tree(s.subnodes[n], v) for n, v in m.items()}
    if is_list(s):
        return [copy_tree(s.subnode, v) for v in m]
    if isinstance(m, np.ndarray):
        return m.copy()
    return m


def empty(s, m):
    if is_comp(s):
        return all(empty(s.subnodes[n], v) for n, v in m.items())
    if is_list(s):
        return all(empty(s.subnode, v) for v in m)
    return m is None


def complete(s, m):
    if is_comp(s):
        opt = s.optionals or []
        return all(complete(s.subnodes[n], v) for n, v in m.items()
                   if n not in opt)
    if is_list(s):
        return all(complete(s.subnode, v) for v in m)
    return m is not None


def data_tree(s, m, include_empty):
    if is_comp(s):
        return {n: data_tree(s.subnodes[n], v, include_empty)
                for n, v in m.items()
                if include_empty or not (is_item(s.subnodes[n]) and v is None)}
    if is_list(s):
        return [data_tree(s.subnode, v, include_empty) for v in m
                if include_empty or not (is_item(s.subnode) and v is None)]
    return m


def same_export(a, b):
    if isinstance(a, dict):
        return (isinstance(b, dict) and set(a) == set(b)
                and all(same_export(a[k], b[k]) for k in a))
    if type(a) is list:
        return (type(b) is list and len(a) == len(b)
                and all(same_export(x, y) for x, y in zip(a, b)))
    return same(a, b)


def has_empty_entry(s, m, last_only):
    """Is any list entry (or any *last* list entry) in the tree empty?"""
    if is_comp(s):
        return any(has_empty_entry(s.subnodes[n], v, last_only)
                   for n, v in m.items())
    if is_list(s):
        ent = m[-1:] if last_only else m
        return (any(empty(s.subnode, v) for v in ent)
                or any(has_empty_entry(s.subnode, v, last_only) for v in m))
    return False


# -- validity ---------------------------------------------------------------

def in_len(s, v):
    return ((s.min_length is None or len(v) >= s.min_length)
            and (s.max_length is None or len(v) <= s.max_length))


def valid_item(s, v, indep=None):
    """Does the value satisfy the item schema node?  (P03, P04)"""
    t = type(s).__name__
    if t == 'Bool':
        return type(v) is bool
    if t == 'Bytes':
        return isinstance(v, bytes) and in_len(s, v)
    if t == 'String':
        return isinstance(v, str) and in_len(s, v)
    if t == 'Date':
        return isinstance(v, datetime.date)
    if t == 'DateTime':
        return isinstance(v, datetime.datetime)
    if t == 'Time':
        return isinstance(v, datetime.time)
    if t == 'Scalar':
        return (isinstance(v, np.number) and v.dtype == np.dtype(s.dtype)
                and not (s.max_value is not None and v > s.max_value)
                and not (s.min_value is not None and v < s.min_value))
    if t == 'Array':
        if not isinstance(v, np.ndarray) or v.dtype != np.dtype(s.dtype):
            return False
        if v.ndim != s.ndim:
            return False
        for d in range(v.ndim):
            if s.max_shape and s.max_shape[d] is not None \
                    and v.shape[d] > s.max_shape[d]:
                return False
            if s.min_shape and s.min_shape[d] is not None \
                    and v.shape[d] < s.min_shape[d]:
                return False
            if s.depends_on and s.depends_on[d] is not None \
                    and indep[d].size != v.shape[d]:
                return False
        for e in v.ravel().tolist():
            if s.max_value is not None and e > s.max_value:
                return False
            if s.min_value is not None and e < s.min_value:
                return False
        return True
    raise AssertionError(t)


def invalid_nodes(s, m, parent=None, path=()):
    """Paths of all nodes that violate their schema node themselves."""
    if is_comp(s):
        out = []
        for n, v in m.items():
            out += invalid_nodes(s.subnodes[n], v, m, path + (n,))
        return out
    if is_list(s):
        out = [] if in_len(s, m) else [path]
        for i, v in enumerate(m):
            out += invalid_nodes(s.subnode, v, m, path + (i,))
        return out
    if m is None:
        return []
    indep = None
    if type(s).__name__ == 'Array' and s.depends_on:
        indep = [parent.get(n) if n is not None else None
                 for n in s.depends_on]
        if any(n is not None and (not isinstance(v, np.ndarray)
                                  or v.ndim != 1)
               for n, v in zip(s.depends_on, indep)):
            return []   # no usable independent variable: outside P04/P05
    return [] if valid_item(s, m, indep) else [path]


def indep_missing(s, m, parent=None):
    """Is there a dependent array without a usable independent variable?"""
    if is_comp(s):
        return any(indep_missing(s.subnodes[n], v, m) for n, v in m.items())
    if is_list(s):
        return any(indep_missing(s.subnode, v, m) for v in m)
    if m is not None and type(s).__name__ == 'Array' and s.depends_on:
        return any(n is not None and (
            not isinstance(parent.get(n), np.ndarray) or parent[n].ndim != 1)
                   for n in s.depends_on)
    return False


def path_text(path):
    out = ''
    for p in path:
        if isinstance(p, int):
            out += '[%d]' % p
        else:
            out += ('.' if out else '') + p
    return out


# -- schemas ----------------------------------------------------------------

OPTIONS = {
    'Array': ('dtype', 'unit', 'max_shape', 'min_shape', 'ndim', 'max_value',
              'min_value', 'depends_on'),
    'Bytes': ('min_length', 'max_length'),
    'Bool': (),
    'Compilation': ('optionals',),
    'Date': ('set_on_create',), 'DateTime': ('set_on_create',),
    'List': ('min_length', 'max_length'),
    'Scalar': ('dtype', 'unit', 'max_value', 'min_value'),
    'String': ('min_length', 'max_length'),
    'Time': ('set_on_create',),
}


def norm(x):
    if isinstance(x, (tuple, list)):
        return [norm(y) for y in x]
    return x


def config(s):
    """Canonical description of a schema tree, from its public attributes."""
    t = type(s).__name__
    opts = {}
    for o in OPTIONS[t]:
        v = norm(getattr(s, o))
        if o == 'dtype':
            v = np.dtype(v).str
        opts[o] = v
    if t == 'Compilation':
        opts['subnodes'] = {n: config(c) for n, c in s.subnodes.items()}
    if t == 'List':
        opts['subnode'] = config(s.subnode)
    return [t, opts]


# -- reading real data nodes --------------------------------------------------

RESERVED = set(dir(object)) | {
    'schema_node', 'parent', 'empty', 'complete', 'clear', 'replace',
    'validate', 'load_from', 'node_tree', 'data_tree', 'save', '_subnodes',
    '_storage'}


def child(node, name):
    return getattr(node, name)


def read(s, node):
    """Model of a real data node, read through the public interface."""
    if is_comp(s):
        return {n: (read(c, child(node, n)) if n not in RESERVED else
                    node.data_tree(include_empty=True).get(n))
                for n, c in s.subnodes.items()}
    if is_list(s):
        return [read(s.subnode, node[i]) for i in range(len(node))]
    if node.empty:
        return None
    v = node.value
    if isinstance(v, np.ndarray):
        v = v.copy()
    return v


def walk(s, node, path=()):
    """Yield (path, schema node, data node) for every node of a real tree."""
    yield path, s, node
    if is_comp(s):
        for n, c in s.subnodes.items():
            if n not in RESERVED:
                yield from walk(c, child(node, n), path + (n,))
    elif is_list(s):
        for i in range(len(node)):
            yield from walk(s.subnode, node[i], path + (i,))


def at(node, path):
    for p in path:
        node = node[p] if isinstance(p, int) else child(node, p)
    return node


def mat(s, m, path):
    """(schema node, model) at a path."""
    for p in path:
        s = s.subnode if isinstance(p, int) else s.subnodes[p]
        m = m[p]
    return s, m


def describe(s):
    t = type(s).__name__
    if t == 'Compilation':
        r = 'Compilation({%s}' % ', '.join(
            '%r: %s' % (n, describe(c)) for n, c in s.subnodes.items())
        return r + (', optionals=%r)' % (s.optionals,) if s.optionals
                    else ')')
    opts = ', '.join('%s=%r' % (o, getattr(s, o)) for o in OPTIONS[t]
                     if getattr(s, o) not in (None, '', False))
    if t == 'List':
        return 'List(%s%s)' % (describe(s.subnode), ', ' + opts if opts else '')
    return '%s(%s)' % (t, opts)
