"""Executable contracts: the same pre- and postconditions evaluated on the real code, used to find
a concrete failing input for a failed obligation and as the bounded stand-in where an obligation
cannot be generated or decided."""
import json, time, traceback, warnings, random, io, contextlib, copy
import numpy as np

ORACLES = []
QUICK_FACTOR = 8


class Fail(Exception):
    def __init__(self, msg, **inputs):
        super().__init__(msg)
        self.inputs = inputs


class Skip(Exception):
    pass


def oracle(prop, name, reps=240, thorough=None, cost=1, known=False, bound=None, **k):
    thorough = thorough or reps * 10

    def deco(f):
        for pr in (prop if isinstance(prop, (list, tuple)) else [prop]):
            ORACLES.append(dict(property=pr, name=name, f=f, reps=reps, thorough=thorough, cost=cost, known=known,
                                bound=bound or 'at most %d sampled cases or 40 s (quick), %d or 600 s (thorough)' % (reps * QUICK_FACTOR, thorough * 4), **k))
        return f
    return deco


class Rng:
    """random generation with the corner cases a user meets: ties, constant columns, outliers, small samples"""

    HINTS = None          # numbers new in the source (search guidance, see hints.py)

    def __init__(self, seed):
        if Rng.HINTS is None:
            from . import hints
            import os
            Rng.HINTS = [float(x) for x in os.environ['PVC_HINTS'].split(',')] if os.environ.get('PVC_HINTS') else hints.load()
        self.r = random.Random(seed)
        self.np = np.random.RandomState(self.r.randrange(2 ** 31))
        self.log = []

    def near(self, lo, hi, whole):
        """a value around a number of the source, within [lo, hi]; None when there is none"""
        hs = [h for h in Rng.HINTS if (h == int(h) or not whole)]
        if not hs or self.r.random() > 0.35:
            return None
        h = self.r.choice(hs)
        c = [h - 1, h, h + 1, h + 2, 2 * h] if whole else [h, h * 0.5, h * 0.9, h * 1.1, h * 2, h + 0.01, 1 - h]
        c = [x for x in c if lo <= x <= hi]
        if not c:
            return None
        x = self.r.choice(c)
        return int(x) if whole else float(x)

    def size(self, a, b):
        """a sample size, mostly in [a, b], sometimes much larger"""
        if Rng.HINTS:
            x = self.near(a, 260, True)
            if x is not None: return x
        if self.r.random() < 0.08:
            return self.r.randint(b, 3 * b)
        return self.r.randint(a, b)

    def wide(self, a, b):
        """a number of variables, mostly in [a, b], sometimes larger"""
        if Rng.HINTS:
            x = self.near(a, 12, True)
            if x is not None: return x
        if self.r.random() < 0.06:
            return self.r.randint(b, b + 4)
        return self.r.randint(a, b)

    def only(self, *xs):
        return xs[self.r.randrange(len(xs))]

    def pick(self, *xs):
        if Rng.HINTS and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in xs) and any(isinstance(x, float) and x != int(x) for x in xs):
            x = self.near(min(xs), max(xs), False)
            if x is not None: return x
        return xs[self.r.randrange(len(xs))]

    def int(self, a, b):
        if Rng.HINTS:
            x = self.near(a, b, True)
            if x is not None: return x
        return self.r.randint(a, b)

    def uni(self, a, b):
        if Rng.HINTS:
            x = self.near(a, b, False)
            if x is not None: return x
        return self.r.uniform(a, b)

    def data(self, n, p, style=None):
        s = style or self.pick('normal', 'normal', 'outliers', 'ties', 'scaled', 'cauchy', 'shifted')
        g = self.np
        x = g.randn(n, p)
        if s == 'outliers':
            k = max(1, n // 6)
            x[g.choice(n, k, replace=False)] += g.choice([-1, 1], size=(k, 1)) * g.uniform(8, 60)
        elif s == 'ties':
            x = np.round(x * 1.5)
        elif s == 'scaled':
            x = x * np.exp(g.uniform(-4, 4, size=p)) + g.uniform(-50, 50, size=p)
        elif s == 'cauchy':
            x = g.standard_cauchy(size=(n, p))
        elif s == 'shifted':
            x = x + g.uniform(-1e3, 1e3)
        return x

    def reg(self, n, p, noise=0.3, outliers=None, style='normal'):
        X = self.data(n, p, style)
        b = self.np.randn(p) * (self.np.rand(p) < 0.7)
        y = X @ b + noise * self.np.randn(n)
        if outliers is None:
            outliers = self.pick(0, 0, 1, 2)
        for _ in range(outliers):
            y[self.r.randrange(n)] += self.pick(-1, 1) * self.uni(10, 50)
        return X, y


def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def expect(cond, msg, **inputs):
    if not cond:
        raise Fail(msg, **inputs)


def same(a, b, msg, rtol=1e-7, atol=1e-9, shape=True, **inputs):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if not shape:
        a, b = a.reshape(-1), b.reshape(-1)
    if a.shape != b.shape:
        raise Fail('%s: shape %s, expected %s' % (msg, a.shape, b.shape), **inputs)
    sc = max(1.0, float(np.nanmax(np.abs(b))) if b.size and np.isfinite(b).any() else 1.0)
    if not np.allclose(a, b, rtol=rtol, atol=atol * sc, equal_nan=True):
        raise Fail('%s: got %s, expected %s' % (msg, np.array2string(a.reshape(-1)[:8], precision=10), np.array2string(b.reshape(-1)[:8], precision=10)), **inputs)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        yield


def must(f, msg, **inputs):
    """f must not raise"""
    try:
        with quiet():
            return f()
    except (Fail, Skip):
        raise
    except Exception as e:
        raise Fail('%s: raised %s: %s' % (msg, type(e).__name__, str(e)[:200]), **inputs)


def must_raise(f, exc, msg, **inputs):
    try:
        with quiet():
            r = f()
    except exc:
        return
    except Exception as e:
        raise Fail('%s: raised %s instead of %s' % (msg, type(e).__name__, exc), **inputs)
    raise Fail('%s: accepted, no error raised' % msg, **inputs)


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    return repr(x)[:500]


def one(o, s):
    """run one case; None or a failure record"""
    rng = Rng(s)
    try:
        with quiet():
            r = o['f'](rng)
        return 'ok', r
    except Skip:
        return 'skip', None
    except Fail as e:
        return 'fail', {'seed': s, 'case': repr(rng.log)[:300], 'message': str(e), 'inputs': jsonable(e.inputs)}
    except (AttributeError, ImportError, NameError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any('/direpack/' in f.filename for f in tb):
            return 'fail', {'seed': s, 'case': '', 'message': 'raised %s: %s at %s' % (type(e).__name__, e, where(tb)), 'inputs': None}
        raise                      # the entry point is gone: no verdict from this oracle
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any('/direpack/' in f.filename for f in tb):
            return 'fail', {'seed': s, 'case': '', 'message': 'raised %s: %s at %s' % (type(e).__name__, str(e)[:300], where(tb)), 'inputs': None}
        raise


def where(tb):
    fs = [f for f in tb if '/direpack/' in f.filename]
    return '%s:%s in %s' % (fs[-1].filename.split('/direpack/')[-1], fs[-1].lineno, fs[-1].name) if fs else '?'


def run_oracle(o, tier, seed):
    t0 = time.time()
    n = o['reps'] * QUICK_FACTOR if tier == 'quick' else o['thorough'] * 4
    limit = 40 if tier == 'quick' else 600
    fails, done, skipped, dist, sample = [], 0, 0, set(), None
    for k in range(n):
        if time.time() - t0 > limit:
            break
        s = seed * 1000003 + k * 7919 + 17
        st, r = one(o, s)
        if st == 'skip':
            skipped += 1
            continue
        done += 1
        if st == 'fail':
            fails.append(r)
            if len(fails) >= 1:
                break
        else:
            dist.add(s)
            if sample is None:
                sample = jsonable(r) if r is not None else {'seed': s}
    return {'status': 'fail' if fails else 'ok', 'failures': fails, 'evaluations': done, 'skipped': skipped, 'distinct': len(dist), 'sample': sample, 'wall': round(time.time() - t0, 2)}


def replay(path):
    d = json.load(open(path))
    if d['kind'] != 'oracle':
        print(json.dumps(d, indent=1)[:6000])
        return 1
    o = [x for x in ORACLES if x['name'] == d['oracle'] and x['property'] == d['property']][0]
    st, r = one(o, d['seed'])
    print(st, json.dumps(r, indent=1)[:6000] if r else '')
    return 1 if st == 'fail' else 0
