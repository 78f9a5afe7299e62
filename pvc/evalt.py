"""Numeric evaluation of terms (floating point), used for the CPython conformance check and to
look for a falsifying instance of an obligation the solver could not discharge."""
import math, hashlib, itertools
import numpy as np
from . import term as T


class Undefined(Exception):
    pass


class Env:
    def __init__(self, dims=None, arrays=None, seed=0):
        self.dims = dict(dims or {})        # variable name -> number
        self.arrays = dict(arrays or {})    # base array name -> numpy array
        self.seed = seed
        self.memo = {}
        self.bound = {}

    def rnd(self, name, idx, sort):
        h = hashlib.sha1(('%s|%s|%s' % (self.seed, name, idx)).encode()).digest()
        u = int.from_bytes(h[:6], 'big') / 2.0 ** 48
        if sort == 'I':
            return int(u * 4)
        if name in T.POS_EL or name in T.NONNEG_EL:
            return 0.1 + 3 * u
        return 6 * u - 3

    def real(self, x):
        return float(x)

    def math(self, n, x):
        return getattr(math, n)(x)

    def median(self, vals):
        return float(np.median(vals))

    def tick(self):
        pass

    # ------------------------------------------------------------
    def poly(self, p, b=None):
        b = b or {}
        fv = p.fv & b.keys() if b else ()
        key = (p.key, tuple(sorted((k, b[k]) for k in fv)))
        r = self.memo.get(key)
        if r is None:
            self.tick()
            r = 0.0
            isint = p.integral
            for m, c in p.t:
                t = self.real(c) if not isint else int(c)
                for a, e in m:
                    x = self.atom(a, b)
                    if e != 1:
                        if e < 0 and x == 0:
                            raise Undefined('division by zero')
                        if e.denominator != 1:
                            if x < 0:
                                if x > -1e-12:
                                    x = 0.0
                                else:
                                    raise Undefined('root of a negative number')
                            x = self.real(x) ** self.real(e)
                        else:
                            x = x ** int(e) if e > 0 else self.real(1) / (x ** int(-e))
                    t = t * x
                r = r + t
            if isint:
                r = int(r)
            self.memo[key] = r
        return r

    def atom(self, a, b):
        fv = a.fv & b.keys() if b else ()
        key = ('a', a.key, tuple(sorted((k, b[k]) for k in fv)))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._atom(a, b)
        return r

    def _atom(self, a, b):
        k = a.kind
        if k == 'var':
            n = a.a[0]
            if n in b: return b[n]
            if n in self.dims: return self.dims[n]
            d = T.VARDIM.get(n)
            if d is not None:
                D = self.poly(d, b)
                if D <= 0: raise Undefined('empty range')
                v = self.rnd(n, '', 'I') % D
            else:
                v = self.rnd(n, '', a.a[1])
            self.dims[n] = v
            return v
        if k == 'el':
            nm, idx, sort = a.a
            ix = tuple(int(self.poly(i, b)) for i in idx)
            arr = self.arrays.get(nm)
            if arr is None and nm in T.OPAQUE:
                arr = self.arrays[nm] = np.asarray(T.OPAQUE[nm](self), dtype=float)
            if arr is not None:
                if callable(arr):
                    return arr(ix)
                for q, s in zip(ix, arr.shape):
                    if not 0 <= q < s:
                        raise Undefined('index out of range in %s%s' % (nm, ix))
                v = arr[ix]
                return int(v) if sort == 'I' else self.real(v)
            if nm in T.SYM_EL:
                ix = tuple(sorted(ix))
            return self.rnd(nm, ix, sort)
        if k == 'ind':
            return 1 if self.boole(a.a[0], b) else 0
        if k == 'ite':
            return self.poly(a.a[1] if self.boole(a.a[0], b) else a.a[2], b)
        if k == 'pb':
            return self.poly(a.a[0], b)
        if k == 'fn':
            n = a.a[0]
            x = [self.poly(z, b) for z in a.a[1]]
            if n == 'abs': return abs(x[0])
            if n == 'max2': return max(x)
            if n == 'min2': return min(x)
            if n == 'floor': return int(math.floor(x[0]))
            if n == 'ceil': return int(math.ceil(x[0]))
            if n == 'round': return round(float(x[0]))
            if n == 'trunc': return int(x[0])
            if n == 'sign': return (x[0] > 0) - (x[0] < 0)
            if n == 'idiv': return x[0] // x[1]
            if n == 'mod': return x[0] % x[1]
            if n == 'tanh': return self.math('tanh', x[0])
            if n == 'exp': return self.math('exp', x[0])
            if n == 'log': return self.math('log', x[0])
            if n == 'sin': return self.math('sin', x[0])
            if n == 'cos': return self.math('cos', x[0])
            if n == 'arcsin': return self.math('asin', x[0])
            if n == 'arccos': return self.math('acos', x[0])
            if n == 'pow': return self.real(x[0]) ** self.real(x[1])
            raise Undefined('function ' + n)
        if k == 'sum':
            dims, names, mono = a.a
            rs = [range(int(self.poly(d, b))) for d in dims]
            tot = 0
            body = T._mkpoly({mono: T.F1})
            for t in itertools.product(*rs):
                b2 = dict(b)
                b2.update(zip(names, t))
                # indicators first: do not evaluate excluded terms
                if any(at.kind == 'ind' and not self.boole(at.a[0], b2) for at, e in mono):
                    continue
                tot += self.poly(body, b2)
            return tot
        if k == 'agg':
            kind, dims, names, g, body, params = a.a
            rs = [range(int(self.poly(d, b))) for d in dims]
            vals = []
            for t in itertools.product(*rs):
                b2 = dict(b)
                b2.update(zip(names, t))
                if self.boole(g, b2):
                    vals.append(self.poly(body, b2))
            if not vals:
                raise Undefined('empty aggregate')
            if kind == 'median': return self.median(vals)
            if kind == 'max': return max(vals)
            if kind == 'min': return min(vals)
            if kind == 'sorted':
                q = int(self.poly(params[0], b))
                if not 0 <= q < len(vals): raise Undefined('rank')
                return sorted(vals)[q]
            if kind == 'trimmean':
                import scipy.stats as sps
                return float(sps.trim_mean(vals, float(self.poly(params[0], b))))
            raise Undefined(kind)
        raise Undefined(k)

    def boole(self, c, b=None, tol=0.0):
        b = b or {}
        k = c.kind
        if k == 'true': return True
        if k == 'false': return False
        if k == 'cmp':
            op, p = c.a
            x = self.poly(p, b)
            if op == '<': return x < -tol if tol else x < 0
            if op == '<=': return x <= tol
            return abs(x) <= tol if tol else x == 0
        if k == 'not': return not self.boole(c.a[0], b, -tol if False else tol)
        if k == 'and': return all(self.boole(x, b, tol) for x in c.a)
        if k == 'or': return any(self.boole(x, b, tol) for x in c.a)
        if k == 'bvar':
            if c.a[0] in self.dims: return bool(self.dims[c.a[0]])
            return self.rnd(c.a[0], '', 'R') > 0
        if k == 'bel':
            ix = tuple(int(self.poly(i, b)) for i in c.a[1])
            arr = self.arrays.get(c.a[0])
            if arr is not None:
                return bool(arr[ix])
            return self.rnd(c.a[0], ix, 'R') > 1.5
        if k == 'ex':
            dim, nme, body = c.a
            for i in range(int(self.poly(dim, b))):
                b2 = dict(b)
                b2[nme] = i
                if self.boole(body, b2, tol):
                    return True
            return False
        raise Undefined(k)

    def slack(self, c, b=None):
        """how badly a formula is violated: (truth, margin) – margin is the distance by which
        the deciding comparison fails, so that rounding noise can be told from a real violation"""
        b = b or {}
        k = c.kind
        if k == 'cmp':
            op, p = c.a
            scale = 1.0
            x = self.poly(p, b)
            for m, q in p.t:
                try:
                    t = abs(self.poly(T._mkpoly({m: q}), b))
                    scale = max(scale, t)
                except Undefined:
                    pass
            x = x / scale
            if op == '==': return (x == 0, -abs(x))
            return ((x < 0) if op == '<' else (x <= 0), -x)
        if k == 'not':
            t, m = self.slack(c.a[0], b)
            return (not t, -m)
        if k == 'and':
            rs = [self.slack(x, b) for x in c.a]
            return (all(t for t, m in rs), min(m for t, m in rs))
        if k == 'or':
            rs = [self.slack(x, b) for x in c.a]
            return (any(t for t, m in rs), max(m for t, m in rs))
        t = self.boole(c, b)
        return (t, math.inf if t else -math.inf)


class Slow(Exception):
    pass


class Precise(Env):
    """the same instance evaluated with sixty digits: tells rounding in the floating-point evaluation of an
    expanded term (cancellation at outliers) from a real difference"""

    def __init__(self, env, seconds=20):
        import mpmath, time
        Env.__init__(self, {k: (v if isinstance(v, (int, np.integer)) else None) for k, v in env.dims.items()}, env.arrays, env.seed)
        self.mp = mpmath.mp.clone()
        self.mp.dps = 60
        self.clock, self.until = time.time, time.time() + seconds
        self.n = 0
        for k, v in env.dims.items():
            if self.dims[k] is None:
                self.dims[k] = self.mp.mpf(float(v))

    def real(self, x):
        q = getattr(x, 'denominator', 1)
        if q != 1 and not isinstance(x, float):
            return self.mp.mpf(int(x.numerator)) / int(q)
        return self.mp.mpf(x) if isinstance(x, (int, self.mp.mpf)) else self.mp.mpf(float(x))

    def rnd(self, name, idx, sort):
        v = Env.rnd(self, name, idx, sort)
        return v if sort == 'I' else self.mp.mpf(v)

    def math(self, n, x):
        v = getattr(self.mp, n)(x)
        if not isinstance(v, self.mp.mpf):
            raise Undefined(n)
        return v

    def median(self, vals):
        v = sorted(vals)
        k = len(v) // 2
        return v[k] if len(v) % 2 else (v[k - 1] + v[k]) / 2

    def tick(self):
        self.n += 1
        if not self.n % 64 and self.clock() > self.until:
            raise Slow()
