"""Known findings: genuine limits of dsch, each shown on the real code.

Every entry of known_findings.txt marked KNOWN-FINDING has a demonstration
here; the check prints the line as long as the demonstration still shows the
failure.  The generators never produce these inputs, and the contracts
exclude exactly them, so any other violation is still reported.
"""
import datetime as dt
import os
import shutil
import sys
import tempfile
import warnings

sys.path.insert(0, os.environ.get('DSCH_SRC', '/repo'))
import numpy as np  # noqa: E402
import dsch  # noqa: E402
from dsch import schema  # noqa: E402


def cycle(ext, s, v):
    """Save value v in a storage of schema s; return the loaded data."""
    d = tempfile.mkdtemp(prefix='dsch-known-')
    try:
        p = os.path.join(d, 'f.' + ext)
        st = dsch.create(p, s)
        st.data.replace(v)
        st.save(force=True)
        if ext == 'h5':
            st._storage.close()
        st = dsch.load(p, force=True)
        r = st.data.data_tree(include_empty=True)
        if ext == 'h5':
            st._storage.close()
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def differs(ext, s, v, want=None):
    try:
        return cycle(ext, s, v) != (v if want is None else want)
    except Exception:
        return True


C = schema.Compilation
S = schema.String
Z = dt.timezone(dt.timedelta(hours=2))


def nul():
    return [e for e in ('npz', 'h5', 'mat') if differs(e, S(), 'a\0')]


def tz():
    v = dt.datetime(2020, 1, 2, 3, 4, 5, 6, tzinfo=Z)
    return [e for e in ('npz', 'h5', 'mat')
            if differs(e, schema.DateTime(), v)]


def npz_names():
    return [n for n in ('file', 'allow_pickle', '_schema')
            if differs('npz', C({n: S()}), {n: 'x'})]


def mat_names():
    return [n for n in ('_a', 'a' * 32, 'ä')
            if differs('mat', C({n: S()}), {n: 'x'})]


def odd_names():
    return [(e, n) for e in ('npz',) for n in ('a.b',)
            if differs(e, C({n: S()}), {n: 'x'})]


def trailing():
    out = []
    for e in ('npz', 'h5'):
        d = tempfile.mkdtemp(prefix='dsch-known-')
        try:
            p = os.path.join(d, 'f.' + e)
            st = dsch.create(p, schema.List(S()))
            st.data.append('x')
            st.data.append()
            st.save()
            if e == 'h5':
                st._storage.close()
            if len(dsch.load(p).data) != 2:
                out.append(e)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return out


def mat_empty():
    d = tempfile.mkdtemp(prefix='dsch-known-')
    try:
        st = dsch.create(os.path.join(d, 'f.mat'), schema.List(S()))
        st.data.append()
        try:
            st.save()
        except TypeError:
            return ['TypeError']
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return []


def mat_float16():
    r = cycle('mat', schema.Array('float16'), np.array([1], 'float16'))
    return [] if r.dtype == np.dtype('float16') else [str(r.dtype)]


def mat_order():
    r = cycle('mat', schema.Array('>i4'), np.array([1], '>i4'))
    return [] if r.dtype == np.dtype('>i4') else [str(r.dtype)]


def h5_text():
    v = np.array(['a'])
    try:
        cycle('h5', schema.Array('<U1'), v)
    except TypeError:
        return ['TypeError']
    return []


def subclass():
    v = dt.datetime(2020, 1, 2, 3, 4, 5)
    return [e for e in ('npz', 'h5', 'mat') if differs(e, schema.Date(), v)]


def no_room():
    out = []
    for e, names in (('mat', ['float128', 'complex256', 'S5', 'datetime64[s]',
                              'timedelta64[s]']),
                     ('h5', ['datetime64[s]', 'timedelta64[s]', 'object']),
                     ('npz', ['object'])):
        for d in names:
            v = np.array([1, 2]).astype(d)
            try:
                r = cycle(e, schema.Array(d), v)
                if r.dtype == v.dtype and (r == v).all():
                    continue
            except Exception:
                pass
            out.append((e, d))
    return out


DEMOS = {'K1': nul, 'K2': tz, 'K3': npz_names, 'K4': mat_names,
         'K5': odd_names, 'K6': trailing, 'K7': mat_empty,
         'K8': mat_float16, 'K9': mat_order, 'K10': h5_text,
         'K11': subclass, 'K12': no_room}

if __name__ == '__main__':
    warnings.simplefilter('ignore')
    for k in sys.argv[1:] or DEMOS:
        try:
            print(k, DEMOS[k]())
        except Exception as err:
            print(k, [type(err).__name__ + ': ' + str(err)])
