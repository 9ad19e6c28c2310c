"""Driver of the run-time contract checks (RAC)."""
import os
import random
import shutil
import tempfile
import time
import traceback
import warnings


class Fail(Exception):
    def __init__(self, what, case='', known=None):
        super().__init__(what)
        self.what = what
        self.case = case
        self.known = known


class Skip(Exception):
    """The generated case is outside the quantifier of the property."""


class Ctx:
    """Everything a case needs: randomness, scratch files, bookkeeping."""

    def __init__(self, prop, seed, tier):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.dir = None
        self.n = 0
        self.note = ''

    def rng(self, case_id):
        return random.Random('%s/%s/%s' % (self.prop, self.seed, case_id))

    def path(self, ext):
        self.n += 1
        return os.path.join(self.dir, 'f%d.%s' % (self.n, ext))


def expect(cond, what):
    if not cond:
        raise Fail(what)


def raises(exc, func, *args, **kwargs):
    """Call func; return the exception of type exc, or fail."""
    try:
        func(*args, **kwargs)
    except exc as err:
        return err
    except Exception as err:
        raise Fail('expected %s, but %s was raised: %s' % (
            getattr(exc, '__name__', exc), type(err).__name__, err))
    raise Fail('expected %s, but nothing was raised'
               % getattr(exc, '__name__', exc))


def in_generator(err):
    """Raised while making a case, outside of the code under test."""
    tb = traceback.extract_tb(err.__traceback__)
    return any(f.filename.endswith('rac/gen.py') and f.name in (
        'valid_value', 'rand_model', 'fit', 'array_of') for f in tb) and \
        not any(os.sep + 'dsch' + os.sep in f.filename for f in tb)


def run(prop, cases, seed, tier, budget, only=None, max_fail=3):
    """Run the cases of one property. Returns a result dict."""
    warnings.simplefilter('ignore')
    ctx = Ctx(prop, seed, tier)
    base = tempfile.mkdtemp(prefix='dsch-rac-')
    t0 = time.time()
    out = dict(property=prop, evaluations=0, kinds={}, failures=[],
               samples=[], skipped=0, vacuous=0)
    old = os.getcwd()
    try:
        for case_id, func in cases(ctx):
            if only is not None and case_id != only:
                continue
            if time.time() - t0 > budget:
                out['skipped'] += 1
                break
            ctx.dir = os.path.join(base, 'c')
            os.makedirs(ctx.dir, exist_ok=True)
            os.chdir(ctx.dir)
            ctx.note = ''
            try:
                func(ctx, ctx.rng(case_id))
            except Skip:
                out['vacuous'] += 1
            except Fail as err:
                out['failures'].append(dict(case=case_id, note=ctx.note,
                                            what=err.what))
            except Exception as err:
                if in_generator(err):
                    # no case could be made: nothing was checked
                    out['vacuous'] += 1
                    continue
                tb = traceback.format_exc().splitlines()
                out['failures'].append(dict(
                    case=case_id, note=ctx.note,
                    what='unexpected %s: %s' % (type(err).__name__, err),
                    trace=tb[-12:]))
            finally:
                os.chdir(old)
                shutil.rmtree(ctx.dir, ignore_errors=True)
            out['evaluations'] += 1
            kind = case_id.split(':')[0]
            out['kinds'][kind] = out['kinds'].get(kind, 0) + 1
            if out['kinds'][kind] <= 1 and len(out['samples']) < 8:
                out['samples'].append((case_id + ' ' + ctx.note)[:400])
            if len(out['failures']) >= max_fail:
                break
    finally:
        os.chdir(old)
        shutil.rmtree(base, ignore_errors=True)
    out['wall_s'] = time.time() - t0
    return out
