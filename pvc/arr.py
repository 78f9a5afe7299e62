"""Symbolic n-dimensional arrays with symbolic extents.

An element is a term of its indices.  Views share a mutable buffer, so that in-place updates,
aliasing and frame conditions are those of numpy.  An axis is either an extent (Poly) or a
Space: a selection {i < n | guard(i)} or a flattened product of extents, whose positions are
addressed by base index tuples."""
import numbers, operator
import numpy as _np
from fractions import Fraction
from . import term as T
from .term import Poly, B
from . import path as P
from .path import Unsupported, decide, entailed

SMALL = 8     # concrete extents up to this are expanded element by element


class Space:
    def __init__(self, dims, guard=None, key=None):
        self.dims = tuple(T.lift(d) for d in dims)
        self.guard = guard            # function(tuple of Poly) -> B, or None
        vs = [T.var('~sp%d' % i, 'I', d) for i, d in enumerate(self.dims)]
        g = guard(tuple(vs)) if guard else T.TRUE
        self.g = g
        self.key = 'Space(%s|%s)' % (','.join(d.key for d in self.dims), g.key)
        self._size = None

    def gd(self, idx):
        return self.guard(idx) if self.guard else T.TRUE

    @property
    def size(self):
        if self._size is None:
            vs = [T.fresh_index(d) for d in self.dims]
            body = T.ind(self.gd(tuple(vs)))
            for v, d in reversed(list(zip(vs, self.dims))):
                body = T.mk_sum(v, d, body)
            self._size = body
        if self._size.const is None:
            b = T.ge(self._size, 0)                 # (a count)
            if b is not T.TRUE and P.CTX is not None and not any(x is b for x in P.CTX.pc):
                P.assume(b)
        return self._size

    def same(self, o):
        return isinstance(o, Space) and o.key == self.key


def dsize(d):
    return d.size if isinstance(d, Space) else d


def const_int(p):
    c = p.const
    return int(c) if c is not None else None


class Buf:
    __slots__ = ('get', 'nan', 'memo', 'nmemo', 'ver', 'name')

    def __init__(self, get, nan=None, name=None):
        self.get, self.nan, self.memo, self.nmemo, self.ver, self.name = get, nan, {}, {}, 0, name

    def at(self, idx):
        r = self.memo.get(idx)
        if r is None:
            r = self.get(idx)
            self.memo[idx] = r
        return r

    def nanat(self, idx):
        if self.nan is None:
            return T.FALSE
        r = self.nmemo.get(idx)
        if r is None:
            r = self.nan(idx)
            self.nmemo[idx] = r
        return r

    def write(self, cond, val, nanval):
        oget, onan, memo, nmemo = self.get, self.nan, self.memo, self.nmemo

        def old(idx):
            r = memo.get(idx)
            if r is None:
                r = memo[idx] = oget(idx)
            return r

        def new(idx):
            c = cond(idx)
            if c is T.FALSE:
                return old(idx)
            v = val(idx)
            if c is T.TRUE:
                return v
            o = old(idx)
            if isinstance(v, B) or isinstance(o, B):
                v, o = T.liftb(v), T.liftb(o)
                return T.or_(T.and_(c, v), T.and_(T.not_(c), o))
            return T.ite(c, v, o)
        self.get = new
        self.memo = {}
        if onan is not None or nanval is not None:
            def nnew(idx):
                c = cond(idx)
                o = onan(idx) if onan is not None else T.FALSE
                v = nanval(idx) if nanval is not None else T.FALSE
                return T.or_(T.and_(c, v), T.and_(T.not_(c), o))
            self.nan = nnew
            self.nmemo = {}
        self.ver += 1
        if WRITELOG is not None:
            WRITELOG.append(self)


WRITELOG = None
_DT = {'f': _np.dtype('float64'), 'i': _np.dtype('int64'), 'b': _np.dtype('bool'), 'O': _np.dtype('O')}


class A(object):
    """symbolic array (also 0-d: symbolic scalar)"""
    __slots__ = ('buf', 'shp', 'fwd', 'inv', 'kind', '__weakref__')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, shp, get=None, kind='f', nan=None, buf=None, fwd=None, inv=None, name=None):
        self.shp = tuple(d if isinstance(d, Space) else T.lift(d) for d in shp)
        self.buf = buf if buf is not None else Buf(get, nan, name)
        self.fwd, self.inv, self.kind = fwd, inv, kind

    # --- element access
    def at(self, *idx):
        idx = tuple(i if isinstance(i, tuple) else T.lift(i) for i in idx)
        if self.fwd is not None:
            idx = self.fwd(idx)
        return self.buf.at(idx)

    def pat(self, *idx):
        """element as a Poly"""
        return T.lift(self.at(*idx))

    def nanat(self, *idx):
        if self.buf.nan is None:
            return T.FALSE
        idx = tuple(i if isinstance(i, tuple) else T.lift(i) for i in idx)
        if self.fwd is not None:
            idx = self.fwd(idx)
        return self.buf.nanat(idx)

    @property
    def maynan(self):
        return self.buf.nan is not None

    # --- shape
    @property
    def ndim(self):
        return len(self.shp)

    @property
    def shape(self):
        return tuple(pyint(dsize(d)) for d in self.shp)

    @property
    def size(self):
        r = T.ONE
        for d in self.shp:
            r = r * dsize(d)
        return pyint(r)

    @property
    def dtype(self):
        return _DT[self.kind]

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        n = self.ndim
        if not axes:
            perm = tuple(reversed(range(n)))
        else:
            perm = axes[0] if isinstance(axes[0], (tuple, list)) else axes
        if n < 2:
            return self
        invp = [0] * n
        for i, q in enumerate(perm):
            invp[q] = i

        def f(idx):
            return tuple(idx[invp[k]] for k in range(n))

        def g(idx):
            return T.TRUE, tuple(idx[perm[k]] for k in range(n))
        return self._view(tuple(self.shp[q] for q in perm), f, g)

    def _view(self, shp, f, g):
        ofwd, oinv = self.fwd, self.inv
        if ofwd is None:
            fwd, inv = f, g
        else:
            def fwd(idx):
                return ofwd(f(idx))

            def inv(J):
                c, idx = oinv(J)
                if c is T.FALSE:
                    return c, None
                c2, idx2 = g(idx)
                return T.and_(c, c2), idx2
        r = self.__class__.__new__(self.__class__)
        A.__init__(r, shp, kind=self.kind, buf=self.buf, fwd=fwd, inv=inv)
        return r

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        tgt = []
        for s in shape:
            if isinstance(s, (int, _np.integer)):
                tgt.append(-1 if s == -1 else T.num(int(s)))
            else:
                tgt.append(scalar(s))
        src = list(self.shp)
        # all-concrete: row-major arithmetic
        if all(not isinstance(d, Space) and d.const is not None for d in src) and \
                all(t == -1 if isinstance(t, int) else t.const is not None for t in tgt):
            return self._reshape_const([int(d.const) for d in src], [t if isinstance(t, int) else int(t.const) for t in tgt], order)
        one = T.ONE
        s_non = [(k, d) for k, d in enumerate(src) if d is not one]
        t_non = [(k, d) for k, d in enumerate(tgt) if isinstance(d, int) or d is not one]
        # F order on matrices that are effectively vectors is the same map
        free = [k for k, d in t_non if isinstance(d, int)]
        pairs = None
        if len(s_non) == len(t_non):
            ok = True
            pairs = []
            for (ks, ds), (kt, dt) in zip(s_non, t_non):
                if isinstance(dt, int):
                    pairs.append((ks, kt, ds))
                elif dt is dsize(ds) or decide(T.eq(dt, dsize(ds))):
                    pairs.append((ks, kt, ds))
                else:
                    ok = False
                    break
            if not ok:
                pairs = None
        elif len(s_non) == len(t_non) - 1 and free:
            # -1 absorbs nothing: it is 1
            t2 = [(k, d) for k, d in t_non if not isinstance(d, int)]
            if all(d is dsize(ds) for (k, d), (ks, ds) in zip(t2, s_non)):
                pairs = [(ks, kt, ds) for (ks, ds), (kt, _) in zip(s_non, t2)]
        if pairs is not None:
            newshp = []
            mp = {}
            for ks, kt, ds in pairs:
                mp[kt] = ks
            for k in range(len(tgt)):
                newshp.append(src[mp[k]] if k in mp else one)
            nsrc = len(src)
            rmp = {ks: kt for kt, ks in mp.items()}

            def f(idx):
                return tuple(idx[rmp[k]] if k in rmp else T.ZERO for k in range(nsrc))
            ntgt = len(tgt)

            def g(J):
                return T.TRUE, tuple(J[mp[k]] if k in mp else T.ZERO for k in range(ntgt))
            return self._view(tuple(newshp), f, g)
        if len(s_non) > 1 and len(t_non) == 1:
            # flatten to one axis
            kt, dt = t_non[0]
            tot = T.ONE
            for _, d in s_non:
                tot = tot * dsize(d)
            if not (isinstance(dt, int) or dt is tot or entailed(T.eq(dt, tot))):
                raise ValueError('cannot reshape')
            if order in ('C', 'F') and all(not isinstance(d, Space) for _, d in s_non):
                if order == 'F':
                    s_non = s_non[::-1]         # column-major: the first axis runs fastest
                sp = Space([d for _, d in s_non])
                pos = {k: q for q, (k, _) in enumerate(s_non)}
                nsrc = len(src)
                ntgt = len(tgt)

                def f(idx):
                    t = idx[kt]
                    return tuple(t[pos[k]] if k in pos else T.ZERO for k in range(nsrc))

                def g(J):
                    t = tuple(J[k] for k, _ in s_non)
                    return T.TRUE, tuple(t if k == kt else T.ZERO for k in range(ntgt))
                newshp = tuple(sp if k == kt else one for k in range(ntgt))
                return self._view(newshp, f, g)
        if len(s_non) == 1 and isinstance(s_non[0][1], Space) and s_non[0][1].guard is None and len(t_non) == len(s_non[0][1].dims):
            sp = s_non[0][1]
            if order == 'F':
                t_non = t_non[::-1]
            if order in ('C', 'F') and all(isinstance(dt, int) or dt is d for (kt, dt), d in zip(t_non, sp.dims)):
                ks = s_non[0][0]
                tpos = [kt for kt, _ in t_non]
                nsrc, ntgt = len(src), len(tgt)

                def f(idx):
                    return tuple(tuple(idx[k] for k in tpos) if k == ks else T.ZERO for k in range(nsrc))

                def g(J):
                    t = J[ks]
                    return T.TRUE, tuple(t[tpos.index(k)] if k in tpos else T.ZERO for k in range(ntgt))
                return self._view(tuple(sp.dims[tpos.index(k)] if k in tpos else one for k in range(ntgt)), f, g)
        if len(s_non) == 1 and not isinstance(s_non[0][1], Space) and len(t_non) == 2 and order in ('C', 'F'):
            # a vector cut into a matrix
            ks, ds = s_non[0]
            (k1, d1), (k2, d2) = t_non
            if isinstance(d1, int):
                d1 = ds * T.power(d2, -1)
            elif isinstance(d2, int):
                d2 = ds * T.power(d1, -1)
            if d1.integral and d2.integral and (d1 * d2 is ds or entailed(T.eq(d1 * d2, ds))):
                nsrc = len(src)

                def f(idx):
                    i, j = idx[k1], idx[k2]
                    q = i + j * d1 if order == 'F' else i * d2 + j
                    return tuple(q if k == ks else T.ZERO for k in range(nsrc))

                def g(J):
                    raise Unsupported('write through a reshaped vector')
                return self._view(tuple(d1 if k == k1 else d2 if k == k2 else one for k in range(len(tgt))), f, g)
        raise Unsupported('reshape %s -> %s' % (self.shp, tgt))

    def _reshape_const(self, s, t, order):
        tot = 1
        for d in s:
            tot *= d
        if -1 in t:
            k = 1
            for d in t:
                if d != -1:
                    k *= d
            if k == 0 or tot % k:
                raise ValueError('cannot reshape array')
            t = [tot // k if d == -1 else d for d in t]
        k = 1
        for d in t:
            k *= d
        if k != tot:
            raise ValueError('cannot reshape array of size %d into shape %s' % (tot, tuple(t)))

        def mk(shape_from, shape_to):
            arr = _np.arange(tot).reshape(shape_to, order=order)   # position of flat in target
            mf = {}

            def f(idx):
                cs = []
                nz = [q for q, d in enumerate(shape_from) if d != 1]
                nz2 = [q for q, d in enumerate(shape_to) if d != 1]
                if [shape_from[q] for q in nz] == [shape_to[q] for q in nz2]:
                    out = [T.ZERO] * len(shape_to)
                    for a, b in zip(nz, nz2):
                        out[b] = idx[a]
                    return tuple(out)
                for i in idx:
                    c = const_int(i)
                    if c is None:
                        raise Unsupported('symbolic index into a concrete reshape')
                    cs.append(c)
                flat = int(_np.ravel_multi_index(tuple(cs), shape_from, order=order)) if shape_from else 0
                return tuple(T.num(int(x)) for x in (_np.unravel_index(flat, shape_to, order=order) if shape_to else ()))
            return f
        f = mk(tuple(t), tuple(s))
        gi = mk(tuple(s), tuple(t))
        return self._view(tuple(T.num(d) for d in t), f, lambda J: (T.TRUE, gi(J)))

    def ravel(self, order='C'):
        return self.reshape(-1, order=order)

    def flatten(self, order='C'):
        return self.reshape(-1, order=order).copy()

    def squeeze(self):
        return self.reshape(tuple(pyint(dsize(d)) for d in self.shp if d is not T.ONE))

    # --- copies
    def copy(self, *a, **k):
        return self._new(self.shp, self._snap(), self.kind, self._nansnap())

    def _snap(self):
        """element function frozen at this moment"""
        b = self.buf
        get, memo, fwd = b.get, b.memo, self.fwd

        def at(idx):
            if fwd is not None:
                idx = fwd(idx)
            r = memo.get(idx)
            if r is None:
                r = memo[idx] = get(idx)
            return r
        return at

    def _nansnap(self):
        b = self.buf
        if b.nan is None:
            return None
        nan, fwd = b.nan, self.fwd
        return lambda idx: nan(fwd(idx) if fwd is not None else idx)

    def _new(self, shp, get, kind='f', nan=None):
        r = self.__class__.__new__(self.__class__)
        A.__init__(r, shp, get, kind, nan)
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, **kw):
        k = kind_of(dt)
        f = self._snap()
        if k == self.kind:
            return self._new(self.shp, f, k, self._nansnap())
        if k == 'f':
            return self._new(self.shp, lambda i: T.lift(f(i)), 'f', self._nansnap())
        if k == 'i':
            return self._new(self.shp, lambda i: T.fn('trunc', T.lift(f(i))), 'i')
        if k == 'b':
            return self._new(self.shp, lambda i: T.liftb(f(i)), 'b')
        raise Unsupported('astype %s' % dt)

    def view(self, *a):
        return self

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return self._scalar_of()

    def tolist(self):
        if self.ndim == 0:
            return self
        n = const_int(self.shp[0]) if not isinstance(self.shp[0], Space) else None
        if n is None:
            raise Unsupported('tolist of symbolic length')
        return [self[i].tolist() for i in range(n)]

    def _scalar_of(self):
        idx = []
        for d in self.shp:
            if isinstance(d, Space):
                raise Unsupported('scalar of selection')
            if d is not T.ONE and not decide(T.eq(d, 1)):
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            idx.append(T.ZERO)
        return wrap0(self.at(*idx), self.nanat(*idx) if self.maynan else T.FALSE)

    # --- scalar conversions
    def __bool__(self):
        s = self if self.ndim == 0 else self._scalar_of()
        if not isinstance(s, A):
            return bool(s)
        v = s.at()
        if s.maynan:
            return decide(T.or_(s.nanat(), T.liftb(v)))
        return decide(T.liftb(v))

    def __index__(self):
        v = self.at() if self.ndim == 0 else None
        if v is not None and isinstance(v, Poly) and v.const is not None and v.const.denominator == 1:
            return int(v.const)
        raise Unsupported('symbolic value used as a concrete index: %s' % (T.show(v) if isinstance(v, Poly) else v))

    def __int__(self):
        v = self._scalar_of()
        if isinstance(v, A):
            v = T.fn('trunc', T.lift(v.at()))
            c = v.const
            if c is None:
                raise Unsupported('int() of a symbolic value')
            return int(c)
        return int(v)

    def __float__(self):
        v = self._scalar_of()
        if isinstance(v, A):
            c = T.lift(v.at()).const
            if c is None:
                raise Unsupported('float() of a symbolic value')
            return float(c)
        return float(v)

    def __len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        c = const_int(dsize(self.shp[0]))
        if c is None:
            raise Unsupported('len() of symbolic length')
        return c

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        c = None if isinstance(self.shp[0], Space) else const_int(self.shp[0])
        if c is None:
            raise Unsupported('iteration over a symbolic extent')
        return iter([self[i] for i in range(c)])

    def __hash__(self):
        if self.ndim == 0 and isinstance(self.at(), Poly) and self.at().const is not None:
            return hash(self.at().const)
        raise TypeError('unhashable symbolic array')

    def __repr__(self):
        try:
            if self.ndim == 0:
                v = self.at()
                return 'sym(%s)' % (T.show(v) if isinstance(v, Poly) else T.showb(v))
        except Exception:
            pass
        return '<symbolic array %s>' % (tuple(T.show(dsize(d)) for d in self.shp),)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __round__(self, n=0):
        return unary('round', self, lambda x: T.fn('round', x) if not n else T.fn('roundn', x, T.num(n)))

    # --- arithmetic
    def __add__(self, o): return binop('+', self, o)
    def __radd__(self, o): return binop('+', o, self)
    def __sub__(self, o): return binop('-', self, o)
    def __rsub__(self, o): return binop('-', o, self)
    def __mul__(self, o): return binop('*', self, o)
    def __rmul__(self, o): return binop('*', o, self)
    def __truediv__(self, o): return binop('/', self, o)
    def __rtruediv__(self, o): return binop('/', o, self)
    def __floordiv__(self, o): return binop('//', self, o)
    def __rfloordiv__(self, o): return binop('//', o, self)
    def __mod__(self, o): return binop('%', self, o)
    def __rmod__(self, o): return binop('%', o, self)
    def __pow__(self, o): return binop('**', self, o)
    def __rpow__(self, o): return binop('**', o, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __neg__(self): return unary('neg', self, T.neg)
    def __pos__(self): return self.copy()
    def __abs__(self): return unary('abs', self, lambda x: T.fn('abs', x))
    def __lt__(self, o): return binop('<', self, o)
    def __le__(self, o): return binop('<=', self, o)
    def __gt__(self, o): return binop('>', self, o)
    def __ge__(self, o): return binop('>=', self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return binop('==', self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return binop('!=', self, o)

    def __and__(self, o): return binop('&', self, o)
    def __rand__(self, o): return binop('&', o, self)
    def __or__(self, o): return binop('|', self, o)
    def __ror__(self, o): return binop('|', o, self)
    def __invert__(self): return unaryb(self, T.not_)

    def _inplace(self, op, o):
        if self.ndim == 0:
            return binop(op, self, o)
        r = binop(op, self, o)
        if self.kind == 'i' and r.kind == 'f':
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")
        self[...] = r
        return self

    def __iadd__(self, o): return self._inplace('+', o)
    def __isub__(self, o): return self._inplace('-', o)
    def __imul__(self, o): return self._inplace('*', o)
    def __itruediv__(self, o): return self._inplace('/', o)
    def __ipow__(self, o): return self._inplace('**', o)
    def __iand__(self, o): return self._inplace('&', o)
    def __ior__(self, o): return self._inplace('|', o)

    # --- reductions
    def sum(self, axis=None, keepdims=False, **k): return reduce_('sum', self, axis, keepdims)
    def mean(self, axis=None, keepdims=False, **k): return reduce_('mean', self, axis, keepdims)
    def prod(self, axis=None, keepdims=False, **k): return reduce_('prod', self, axis, keepdims)
    def max(self, axis=None, keepdims=False, **k): return reduce_('max', self, axis, keepdims)
    def min(self, axis=None, keepdims=False, **k): return reduce_('min', self, axis, keepdims)
    def any(self, axis=None, keepdims=False, **k): return reduce_('any', self, axis, keepdims)
    def all(self, axis=None, keepdims=False, **k): return reduce_('all', self, axis, keepdims)
    def var(self, axis=None, ddof=0, keepdims=False, **k): return var_(self, axis, ddof, keepdims)
    def std(self, axis=None, ddof=0, keepdims=False, **k): return unary('sqrt', var_(self, axis, ddof, keepdims), T.sqrt)
    def dot(self, o): return dot(self, o)

    def __getattr__(self, k):
        # methods of arrays with a modelled function of the same name; anything else is outside the subset
        if k.startswith('__') or k in A.__slots__:
            raise AttributeError(k)
        from . import snp
        f = snp.NP.get({'conj': 'conjugate'}.get(k, k))
        if k in ('argsort', 'argmax', 'argmin', 'diagonal', 'trace', 'repeat', 'round', 'clip', 'nonzero', 'cumsum', 'searchsorted', 'take') and f is not None:
            return lambda *a, **kw: f(self, *a, **kw)
        if hasattr(_np.ndarray, k):
            raise Unsupported('array attribute %s' % k)
        raise AttributeError("'numpy.ndarray' object has no attribute %r" % k)

    # --- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)


class M(A):
    """np.matrix"""
    __slots__ = ()

    def __init__(self, shp, get, kind='f', nan=None):
        A.__init__(self, shp, get, kind, nan)

    def __mul__(self, o): return matmul(self, o) if not is_scalar(o) else binop('*', self, o)
    def __rmul__(self, o): return matmul(o, self) if not is_scalar(o) else binop('*', o, self)


def is_scalar(x):
    return isinstance(x, numbers.Number) or (isinstance(x, A) and x.ndim == 0)


def pyint(p):
    c = p.const
    if c is not None and c.denominator == 1:
        return int(c)
    return A((), lambda idx: p, 'i')


def wrap0(v, nan=T.FALSE):
    """0-d symbolic value (python bool/int when it is a constant)"""
    if isinstance(v, B):
        if v is T.TRUE: return _np.bool_(True)
        if v is T.FALSE: return _np.bool_(False)
        return A((), lambda idx: v, 'b')
    n = None if nan is T.FALSE else (lambda idx: nan)
    return A((), lambda idx: v, 'i' if v.integral else 'f', n)


def scalar(x):
    """Poly of a scalar-like"""
    if isinstance(x, Poly):
        return x
    if isinstance(x, A):
        v = x.at() if x.ndim == 0 else None
        if v is None:
            s = x._scalar_of()
            v = s.at() if isinstance(s, A) else s
        return T.lift(v)
    return T.lift(x)


def kind_of(dt):
    if dt is None: return 'f'
    if dt is float: return 'f'
    if dt is int: return 'i'
    if dt is bool: return 'b'
    q = getattr(dt, '__name__', '')
    if callable(dt) and q in ('s_float', 's_int', 's_bool'):
        return q[2]
    k = _np.dtype(dt).kind
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O'}.get(k, 'O')


class SymList:
    """a python list of symbolic length: element i is fn(i)"""

    def __init__(self, n, fn):
        self.n, self.fn = T.lift(n), fn
        self.extra = []

    def __len__(self):
        raise Unsupported('len of symbolic list')

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of symbolic list')
        return self.fn(scalar(i))

    def __iter__(self):
        raise Unsupported('iteration over a symbolic list')


def from_np(x):
    x = _np.asarray(x)
    if x.dtype.kind in 'OUS':
        if x.dtype.kind == 'O':
            flat = [v for v in x.ravel()]
            if all(isinstance(v, (A, numbers.Number)) and (not isinstance(v, A) or v.ndim == 0) for v in flat):
                pass
            else:
                raise Unsupported('object array')
        else:
            raise Unsupported('string array')
    shp = tuple(T.num(int(d)) for d in x.shape)
    kind = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(x.dtype.kind, 'f')
    x = x.copy()
    hasnan = x.dtype.kind == 'f' and bool(_np.isnan(x).any())

    def get(idx):
        cs = tuple(const_int(i) for i in idx)
        if any(c is None for c in cs):
            # symbolic index into a concrete array: chain of ites over the first symbolic axis
            k = [q for q, c in enumerate(cs) if c is None][0]
            n = x.shape[k]
            if n == 0:
                return T.ZERO
            if n > 64:
                raise Unsupported('symbolic index into a concrete array')
            r = None
            for v in range(n - 1, -1, -1):
                e = get(idx[:k] + (T.num(v),) + idx[k + 1:])
                if r is None:
                    r = e
                elif isinstance(e, B):
                    c = T.eq(idx[k], v)
                    r = T.or_(T.and_(c, e), T.and_(T.not_(c), r))
                else:
                    r = T.ite(T.eq(idx[k], v), e, r)
            return r
        v = x[cs]
        if isinstance(v, A):
            return v.at()
        if isinstance(v, (bool, _np.bool_)):
            return T.TRUE if v else T.FALSE
        if v != v:
            return T.ZERO
        return T.lift(v)
    nan = None
    if hasnan:
        def nan(idx):
            cs = tuple(const_int(i) for i in idx)
            return T.TRUE if bool(_np.isnan(x[cs])) else T.FALSE
    return A(shp, get, kind, nan)


def asarray(x, copy_=False):
    if isinstance(x, A):
        if isinstance(x, M):
            return A(x.shp, x._snap(), x.kind, x._nansnap())
        return x.copy() if copy_ else x
    if hasattr(x, '_pvc_array'):
        return x._pvc_array()
    if isinstance(x, SymList):
        if x.extra:
            raise Unsupported('array of an extended symbolic list')
        probe = T.fresh_index(x.n, 'l')
        from . import path as _path
        c = _path.CTX
        old = c.forbid if c is not None else None
        if c is not None:
            c.forbid = list(old) + [T.vname(probe)]        # no branch on a generic element
        try:
            e = x.fn(probe)
        finally:
            if c is not None:
                c.forbid = old
        if isinstance(e, SymList) or isinstance(e, (list, tuple)):
            e = asarray(e)
        if isinstance(e, A):
            sub = e.shp
            pv = T.vname(probe)
            bad = [d for d in sub if pv in dsize(d).fv]
            if bad:
                raise Unsupported('ragged symbolic list')
            kind = e.kind
            snap = e._snap()
            nsnap = e._nansnap()

            def get(idx):
                r = snap(idx[1:])
                return T.substb(r, {pv: idx[0]}) if isinstance(r, B) else T.subst(r, {pv: idx[0]})
            nan = (lambda idx: T.substb(nsnap(idx[1:]), {pv: idx[0]})) if nsnap else None
            return A((x.n,) + sub, get, kind, nan)
        v = e if isinstance(e, (B, Poly)) else T.lift(e)
        pv = T.vname(probe)
        return A((x.n,), lambda idx: T.substb(v, {pv: idx[0]}) if isinstance(v, B) else T.subst(v, {pv: idx[0]}), 'b' if isinstance(v, B) else 'f')
    if isinstance(x, (list, tuple)):
        if any(isinstance(e, (A, SymList, list, tuple)) for e in x):
            es = [asarray(e) for e in x]
            sub = es[0].shp
            for e in es[1:]:
                if len(e.shp) != len(sub):
                    raise ValueError('setting an array element with a sequence: inhomogeneous shape')
                for d1, d2 in zip(e.shp, sub):
                    if d1 is not d2 and not (isinstance(d1, Space) and d1.same(d2)) and not decide(T.eq(dsize(d1), dsize(d2))):
                        raise ValueError('setting an array element with a sequence: inhomogeneous shape')
            kind = 'f' if any(e.kind == 'f' for e in es) else ('i' if any(e.kind == 'i' for e in es) else 'b')
            snaps = [e._snap() for e in es]
            nans = [e._nansnap() for e in es]

            def get(idx):
                c = const_int(idx[0])
                if c is not None:
                    r = snaps[c](idx[1:])
                    return T.lift(r) if kind != 'b' else r
                r = None
                for k in range(len(snaps) - 1, -1, -1):
                    e = T.lift(snaps[k](idx[1:]))
                    r = e if r is None else T.ite(T.eq(idx[0], k), e, r)
                return r
            nan = None
            if any(nans):
                def nan(idx):
                    c = const_int(idx[0])
                    if c is None:
                        raise Unsupported('nan at symbolic index')
                    return nans[c](idx[1:]) if nans[c] else T.FALSE
            return A((T.num(len(es)),) + sub, get, kind, nan)
        return from_np(x)
    if isinstance(x, range):
        return from_np(_np.array(x))
    if isinstance(x, (B, Poly)):
        return wrap0(x) if isinstance(wrap0(x), A) else from_np(wrap0(x))
    if hasattr(x, 'pvc_asarray'):
        return x.pvc_asarray()
    if isinstance(x, (numbers.Number, _np.ndarray, _np.generic)):
        return from_np(x)
    raise Unsupported('array of %r' % type(x))


# ---------------------------------------------------------------- elementwise
def _bcast_dims(shapes):
    """broadcast shapes -> (shape, list of index maps)"""
    n = max(len(s) for s in shapes)
    out = []
    maps = [[None] * len(s) for s in shapes]
    for ax in range(n):
        cand = None
        ents = []
        for k, s in enumerate(shapes):
            q = ax - (n - len(s))
            if q >= 0:
                ents.append((k, q, s[q]))
        non1 = [e for e in ents if e[2] is not T.ONE]
        if not non1:
            out.append(T.ONE)
            for k, q, d in ents:
                maps[k][q] = -1
            continue
        d0 = non1[0][2]
        # prefer concrete
        for k, q, d in non1:
            if not isinstance(d, Space) and d.const is not None:
                d0 = d
        res = d0
        squeezed = set()
        for k, q, d in non1:
            if d is res:
                continue
            if isinstance(d, Space) and isinstance(res, Space) and d.same(res):
                continue
            if isinstance(d, Space) or isinstance(res, Space):
                raise Unsupported('broadcast of a selection against %s' % T.show(dsize(res)))
            if decide(T.eq(d, res)):
                continue
            if decide(T.eq(d, 1)):
                squeezed.add(k)
                continue
            if decide(T.eq(res, 1)):
                for k2, q2, d2 in non1:
                    if d2 is res:
                        squeezed.add(k2)
                res = d
                continue
            raise ValueError('operands could not be broadcast together with shapes %s' % (tuple(tuple(T.show(dsize(z)) for z in s) for s in shapes),))
        out.append(res)
        for k, q, d in ents:
            maps[k][q] = -1 if (d is T.ONE or k in squeezed) else ax
    return tuple(out), maps


def _idxmap(mp):
    if all(m == i for i, m in enumerate(mp)):
        return None
    mp = tuple(mp)
    return lambda idx: tuple(T.ZERO if m == -1 else idx[m] for m in mp)


def _cls(*xs):
    return M if any(isinstance(x, M) for x in xs) else A


def elementwise(fn, args, kind='f', nan='prop'):
    arrs = [asarray(a) for a in args]
    shp, maps = _bcast_dims([a.shp for a in arrs])
    snaps = [a._snap() for a in arrs]
    nsnaps = [a._nansnap() for a in arrs]
    n = len(shp)
    ims = []
    for mp in maps:
        off = None
        im = _idxmap(mp) if len(mp) == n else (lambda mp: (lambda idx: tuple(T.ZERO if m == -1 else idx[m] for m in mp)))(tuple(mp))
        ims.append(im)

    def get(idx):
        vs = []
        for s, im in zip(snaps, ims):
            vs.append(s(im(idx) if im else idx))
        return fn(*vs)
    nf = None
    if nan == 'prop' and any(nsnaps):
        def nf(idx):
            r = T.FALSE
            for s, im in zip(nsnaps, ims):
                if s:
                    r = T.or_(r, s(im(idx) if im else idx))
            return r
    elif callable(nan):
        nf = nan
    cls = _cls(*args)
    r = cls.__new__(cls)
    A.__init__(r, shp, get, kind, nf)
    if n == 0:
        v = get(())
        nv = nf(()) if nf else T.FALSE
        if isinstance(v, B) and nv is T.FALSE:
            return wrap0(v)
        return wrap0(v, nv)
    return r


def _kind2(a, b):
    ka, kb = a.kind, b.kind
    if 'f' in (ka, kb): return 'f'
    if 'i' in (ka, kb): return 'i'
    return 'b'


def _pow(x, y):
    c = y.const
    if c is not None:
        return T.power(x, c) if c.denominator == 1 else T.power(x, float(c) if not isinstance(c, Fraction) else _nicefrac(c))
    if x.const is not None and x.const == -1:
        raise Unsupported('(-1)**symbolic')
    return T.fn('pow', x, y)


def _nicefrac(c):
    r = c.limit_denominator(12)
    return r if abs(float(r) - float(c)) < 1e-12 else c


def _div(x, y):
    c = y.const
    if c is not None and c == 0:
        raise Unsupported('division by the constant zero')
    return x * T.power(y, -1)


_ARITH = {'+': T.add, '-': lambda x, y: T.add(x, T.neg(y)), '*': T.mul, '/': _div, '**': _pow,
          '//': lambda x, y: T.fn('idiv', x, y) if (x.integral and y.integral) else T.fn('floor', _div(x, y)),
          '%': lambda x, y: T.fn('mod', x, y)}
_CMP = {'<': T.lt, '<=': T.le, '>': T.gt, '>=': T.ge, '==': T.eq, '!=': T.ne}


def binop(op, x, y):
    if isinstance(x, (str,)) or isinstance(y, (str,)) or x is None or y is None:
        return NotImplemented
    if isinstance(x, (list, tuple)) and op == '+' or isinstance(y, (list, tuple)) and op == '+':
        pass
    try:
        a, b = asarray(x), asarray(y)
    except Unsupported:
        raise
    if op in _ARITH:
        f = _ARITH[op]
        kind = _kind2(a, b)
        if op == '/': kind = 'f'
        if kind == 'b' and op != '/':
            kind = 'i'
            if op == '-':
                raise TypeError('numpy boolean subtract')
            if op == '*':
                kind = 'b'
                return _keepm(x, y, elementwise(lambda u, v: T.and_(T.liftb(u), T.liftb(v)), [a, b], 'b'))
        if op == '**' and b.kind == 'f':
            kind = 'f'
        r = elementwise(lambda u, v: f(T.lift(u), T.lift(v)), [a, b], kind)
        return _keepm(x, y, r)
    if op in _CMP:
        f = _CMP[op]
        an, bn = a.maynan, b.maynan
        if op in ('==', '!=') and a.kind == 'b' and b.kind == 'b':
            g = (lambda u, v: T.iff(u, v)) if op == '==' else (lambda u, v: T.not_(T.iff(u, v)))
            return elementwise(g, [a, b], 'b', nan=None)
        if an or bn:
            # comparisons with NaN are false (!= is true)
            a1 = A(a.shp, _pairget(a), 'f')
            b1 = A(b.shp, _pairget(b), 'f')

            def g(u, v):
                r = f(u[0], v[0])
                nn = T.or_(u[1], v[1])
                return T.or_(r, nn) if op == '!=' else T.and_(r, T.not_(nn))
            return elementwise(g, [a1, b1], 'b', nan=None)
        return elementwise(lambda u, v: f(T.lift(u), T.lift(v)), [a, b], 'b', nan=None)
    if op in ('&', '|'):
        if a.kind != 'b' or b.kind != 'b':
            raise Unsupported('bitwise integer operation')
        g = T.and_ if op == '&' else T.or_
        return elementwise(lambda u, v: g(T.liftb(u), T.liftb(v)), [a, b], 'b', nan=None)
    raise AssertionError(op)


def _keepm(x, y, r):
    if (isinstance(x, M) or isinstance(y, M)) and isinstance(r, A) and r.ndim == 2 and not isinstance(r, M):
        return M(r.shp, r._snap(), r.kind, r._nansnap())
    return r


def _pairget(a):
    s, n = a._snap(), a._nansnap()
    return lambda idx: (T.lift(s(idx)), n(idx) if n else T.FALSE)


def unary(name, x, f, kind=None):
    a = asarray(x)
    k = kind or ('f' if a.kind == 'f' or name in ('sqrt', 'tanh', 'exp', 'sin', 'cos', 'arcsin', 'arccos', 'log') else 'i')
    r = elementwise(lambda u: f(T.lift(u)), [a], k)
    return _keepm(x, None, r)


def unaryb(x, f):
    a = asarray(x)
    if a.kind != 'b':
        raise Unsupported('~ on non-boolean')
    return elementwise(lambda u: f(T.liftb(u)), [a], 'b', nan=None)


# ---------------------------------------------------------------- reductions
def _norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(a % nd for a in axis)
    axis = int(axis)
    if not -nd <= axis < nd:
        raise _np.exceptions.AxisError('axis %d is out of bounds for array of dimension %d' % (axis, nd))
    return (axis % nd,)


def _over(d, f):
    """binders for one axis: list of (var, extent), index object, guard"""
    if isinstance(d, Space):
        vs = [T.fresh_index(e, 'r') for e in d.dims]
        return list(zip(vs, d.dims)), tuple(vs), d.gd(tuple(vs))
    v = T.fresh_index(d, 'r')
    return [(v, d)], v, T.TRUE


def sum_over(dims, f):
    """sum of f(index list) over a list of axes"""
    if not dims:
        return f([])
    d = dims[0]
    if not isinstance(d, Space) and const_int(d) is not None and const_int(d) <= SMALL:
        r = T.ZERO
        for k in range(const_int(d)):
            r = r + sum_over(dims[1:], lambda rest, k=k: f([T.num(k)] + rest))
        return r
    bs, ix, g = _over(d, None)
    body = sum_over(dims[1:], lambda rest: f([ix] + rest))
    if g is not T.TRUE:
        body = T.mul(body, T.ind(g))
    for v, e in reversed(bs):
        body = T.mk_sum(v, e, body)
    return body


def ex_over(dims, f):
    if not dims:
        return f([])
    d = dims[0]
    if not isinstance(d, Space) and const_int(d) is not None and const_int(d) <= SMALL:
        return T.or_(*[ex_over(dims[1:], lambda rest, k=k: f([T.num(k)] + rest)) for k in range(const_int(d))])
    bs, ix, g = _over(d, None)
    body = ex_over(dims[1:], lambda rest: f([ix] + rest))
    body = T.and_(body, g)
    for v, e in reversed(bs):
        body = T.exists(v, e, body)
    return body


def prod_over(dims, f):
    if not dims:
        return f([])
    d = dims[0]
    c = None if isinstance(d, Space) else const_int(d)
    if c is not None:
        r = T.ONE
        for k in range(c):
            r = r * prod_over(dims[1:], lambda rest, k=k: f([T.num(k)] + rest))
        return r
    raise Unsupported('product over a symbolic extent')


def count_over(dims, guard):
    return sum_over(dims, lambda ix: T.ind(guard(ix)))


def agg_over(kind, dims, f, guard=None, params=()):
    """order-statistic aggregate over axes"""
    if len(dims) != 1:
        d = [x for x in dims if x is not T.ONE]
        if len(d) == 1:
            pos = [i for i, x in enumerate(dims) if x is not T.ONE][0]

            def f1(ix):
                full = [T.ZERO] * len(dims)
                full[pos] = ix[0]
                return f(full)
            g1 = None
            if guard is not None:
                def g1(ix):
                    full = [T.ZERO] * len(dims)
                    full[pos] = ix[0]
                    return guard(full)
            return agg_over(kind, d, f1, g1, params)
        if not d:
            return f([T.ZERO] * len(dims))
        if len(d) == 2 and len(dims) == 2 and not any(isinstance(x, Space) for x in d):
            dims = [Space(d)]
            f0, g0 = f, guard
            return agg_over(kind, dims, lambda ix: f0(list(ix[0])), (lambda ix: g0(list(ix[0]))) if g0 else None, params)
        raise Unsupported('%s over several symbolic axes' % kind)
    d = dims[0]
    if d is T.ONE:
        return f([T.ZERO])
    if isinstance(d, Space):
        if len(d.dims) == 1:
            v = T.fresh_index(d.dims[0], 'r')
            g = T.and_(d.gd((v,)), guard([(v,)]) if guard else T.TRUE)
            return T.mk_agg(kind, v, d.dims[0], g, f([(v,)]), params)
        if len(d.dims) == 2 and d.guard is None:
            v = [T.fresh_index(e, 'r') for e in d.dims]
            g = guard([tuple(v)]) if guard else T.TRUE
            return T.mk_agg2(kind, v, d.dims, g, f([tuple(v)]), params)
        raise Unsupported('%s over a product selection' % kind)
    v = T.fresh_index(d, 'r')
    return T.mk_agg(kind, v, d, guard([v]) if guard else T.TRUE, f([v]), params)


def reduce_(op, x, axis=None, keepdims=False, skipnan=False, params=()):
    a = asarray(x)
    nd = a.ndim
    if nd == 0:
        a = a.reshape(1)
        nd = 1
        axis = None
    axes = _norm_axis(axis, nd)
    keep = [k for k in range(nd) if k not in axes]
    rdims = [a.shp[k] for k in axes]
    snap, nsnap = a._snap(), a._nansnap()

    def place(kidx, ix):
        full = [None] * nd
        for k, i in zip(keep, kidx):
            full[k] = i
        for k, i in zip(axes, ix):
            full[k] = i
        return tuple(full)
    kept = tuple(a.shp[k] for k in keep)
    N = T.ONE
    for d in rdims:
        N = N * dsize(d)

    def get(kidx):
        f = lambda ix: T.lift(snap(place(kidx, ix)))
        fb = lambda ix: T.liftb(snap(place(kidx, ix)))
        g = None
        if skipnan and nsnap:
            g = lambda ix: T.not_(nsnap(place(kidx, ix)))
        if op == 'sum':
            return sum_over(rdims, (lambda ix: f(ix) * T.ind(g(ix))) if g else f)
        if op == 'mean':
            if g:
                return sum_over(rdims, lambda ix: f(ix) * T.ind(g(ix))) / count_over(rdims, g)
            return sum_over(rdims, f) / N
        if op == 'prod':
            return prod_over(rdims, f)
        if op == 'any':
            return ex_over(rdims, fb)
        if op == 'all':
            return T.not_(ex_over(rdims, lambda ix: T.not_(fb(ix))))
        if op in ('max', 'min'):
            c = [None if isinstance(d, Space) else const_int(d) for d in rdims]
            if all(k is not None and k <= 4 for k in c):
                vals = [f([T.num(i) for i in t]) for t in __import__('itertools').product(*[range(k) for k in c])]
                if not vals:
                    raise ValueError('zero-size array to reduction operation')
                r = vals[0]
                for v in vals[1:]:
                    r = T.fn('max2' if op == 'max' else 'min2', r, v)
                return r
            return agg_over(op, rdims, f, g)
        if op in ('median', 'trimmean'):
            return agg_over(op, rdims, f, g, params)
        raise AssertionError(op)
    nan = None
    if nsnap and not skipnan and op not in ('any', 'all'):
        nan = lambda kidx: ex_over(rdims, lambda ix: nsnap(place(kidx, ix)))
    kind = {'any': 'b', 'all': 'b', 'mean': 'f', 'median': 'f', 'trimmean': 'f'}.get(op, 'i' if a.kind in 'ib' else 'f')
    memo = {}

    def gm(idx):
        r = memo.get(idx)
        if r is None:
            r = memo[idx] = get(idx)
        return r
    if keepdims:
        shp = tuple(T.ONE if k in axes else a.shp[k] for k in range(nd))
        return a._new(shp, lambda idx: gm(tuple(idx[k] for k in keep)), kind, (lambda idx: nan(tuple(idx[k] for k in keep))) if nan else None)
    if isinstance(x, M) and axis is not None and kept:
        shp = tuple(T.ONE if k in axes else a.shp[k] for k in range(nd))
        return M(shp, lambda idx: gm(tuple(idx[k] for k in keep)), kind)
    if not kept:
        return wrap0(gm(()), nan(()) if nan else T.FALSE)
    return A(kept, gm, kind, nan)


def _label_var(a):
    """variance of class labels: zero exactly when a single label occurs (decided label by label)"""
    d = a.shp[0]
    ix = tuple(T.fresh_index(e, 'l') for e in (d.dims if isinstance(d, Space) else (d,)))
    v = T.lift(a.at(ix if isinstance(d, Space) else ix[0]))
    if len(ix) != 1 or v.const is not None or not all(x.kind == 'ind' and x.a[0].kind == 'bel' for m, c in v.t for x, e in m):
        return None
    ats = sorted({x for m, c in v.t for x, e in m}, key=lambda x: x.key)
    if len(ats) > 3:
        return None
    import itertools
    vals = set()
    for t in itertools.product((0, 1), repeat=len(ats)):
        w = dict(zip(ats, t))
        vals.add(sum(c for m, c in v.t if all(w[x] for x, e in m)))
    g = d.gd(ix) if isinstance(d, Space) else T.TRUE
    present = [q for q in sorted(vals) if decide(T.ge(T.mk_sum(ix[0], d.dims[0] if isinstance(d, Space) else d, T.ind(T.and_(g, T.eq(v, T.num(q))))), 1))]
    return len(present) <= 1


def var_(x, axis=None, ddof=0, keepdims=False, skipnan=False):
    a = asarray(x)
    if SPLIT[0] and a.ndim == 1 and ddof == 0 and not skipnan and a.kind != 'b':
        z = _label_var(a)
        if z is True:
            return wrap0(T.ZERO)
        if z is False:
            SPLIT[0] = False
            try:
                r = var_(a, axis, ddof, keepdims)
            finally:
                SPLIT[0] = True
            P.assume(T.gt(r.at(), 0))
            return r
    if skipnan:
        m = reduce_('mean', a, axis, True, True)
        mm = A(m.shp, m._snap(), m.kind)
        sq = binop('**', binop('-', a, mm), 2)
        return reduce_('mean', sq, axis, keepdims, True)
    m = reduce_('mean', a, axis, True)
    sq = binop('**', binop('-', a, m), 2)
    s = reduce_('sum', sq, axis, keepdims)
    axes = _norm_axis(axis, a.ndim)
    N = T.ONE
    for k in axes:
        N = N * dsize(a.shp[k])
    return binop('/', s, wrap_num(N - T.lift(ddof)))


def wrap_num(p):
    return A((), lambda idx: p, 'i' if p.integral else 'f')


ABSTRACT = []          # intermediate products named by a contract: function(a, b) giving the named array, or None


def matmul(x, y):
    a, b = asarray(x), asarray(y)
    for f in ABSTRACT:
        r = f(a, b)
        if r is not None:
            return r
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('stacked matmul')
    ca, cb = a.shp[-1], b.shp[0]
    if ca is not cb and not (isinstance(ca, Space) and ca.same(cb)):
        if isinstance(ca, Space) or isinstance(cb, Space) or not decide(T.eq(ca, cb)):
            if isinstance(ca, Space) or isinstance(cb, Space):
                raise Unsupported('matmul over different selections')
            raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
    if isinstance(cb, Poly) and cb.const is not None:
        ca = cb
    s1, s2 = a._snap(), b._snap()
    n1, n2 = a._nansnap(), b._nansnap()
    la, lb = a.ndim == 2, b.ndim == 2
    shp = (a.shp[:1] if la else ()) + (b.shp[1:] if lb else ())

    def get(idx):
        i = idx[:1] if la else ()
        j = idx[-1:] if lb else ()
        return sum_over([ca], lambda ix: T.lift(s1(i + (ix[0],))) * T.lift(s2((ix[0],) + j)))
    nan = None
    if n1 or n2:
        def nan(idx):
            i = idx[:1] if la else ()
            j = idx[-1:] if lb else ()
            return ex_over([ca], lambda ix: T.or_(n1(i + (ix[0],)) if n1 else T.FALSE, n2((ix[0],) + j) if n2 else T.FALSE))
    kind = 'f' if 'f' in (a.kind, b.kind) else 'i'
    if not shp:
        return wrap0(get(()), nan(()) if nan else T.FALSE)
    if isinstance(x, M) or isinstance(y, M):
        return M(shp, get, kind, nan)
    return A(shp, get, kind, nan)


def dot(x, y):
    a, b = asarray(x), asarray(y)
    if a.ndim == 0 or b.ndim == 0:
        return binop('*', x, y)
    return matmul(x, y)


# ---------------------------------------------------------------- indexing
def _slice_bounds(s, d):
    """(start Poly, length Poly, step int) of a slice on extent d"""
    step = 1 if s.step is None else int(s.step)

    def clamp(v, dflt):
        if v is None:
            return dflt
        p = scalar(v)
        c = p.const
        if c is not None and c < 0:
            p = d + p
            if p.const is not None:
                return T.num(max(0, p.const))
            return p if entailed(T.ge(p, 0)) else (p if decide(T.ge(p, 0)) else T.ZERO)
        if p.const is not None and d.const is not None:
            return T.num(min(p.const, d.const))
        if p is d or (p.const is not None and p.const == 0):
            return p
        if decide(T.le(p, d)):
            return p
        return d
    if step == 1:
        st = clamp(s.start, T.ZERO)
        en = clamp(s.stop, d)
        ln = en - st
        if ln.const is not None:
            ln = T.num(max(0, ln.const))
        elif not T.nonneg(ln) and not decide(T.ge(ln, 0)):
            ln = T.ZERO
        return st, ln, 1
    if d.const is not None:
        r = range(*slice(None if s.start is None else int(scalar(s.start).const), None if s.stop is None else int(scalar(s.stop).const), step).indices(int(d.const)))
        return T.num(r.start), T.num(len(r)), step
    if step == -1 and s.start is None and s.stop is None:
        return d - 1, d, -1
    raise Unsupported('slice with a step on a symbolic extent')


def check_index(i, d):
    """normalise a scalar index on extent d (may fork on bounds)"""
    p = scalar(i)
    c = p.const
    if isinstance(d, Space):
        if c != 0 or len(d.dims) != 1:
            raise Unsupported('integer index into a selection')
        # the first selected position
        if not decide(T.gt(d.size, 0)):
            raise IndexError('index 0 is out of bounds for axis 0 with size 0')
        i = T.fresh_index(d.dims[0], 'f')
        f = T.mk_agg('min', i, d.dims[0], d.gd((i,)), i, ())
        P.assume(d.gd((f,)))
        return (f,)
    if c is not None and c.denominator != 1:
        raise IndexError('only integers are valid indices')
    if c is not None and c < 0:
        p = d + p
        if p.const is None:
            if not (T.nonneg(p) or decide(T.ge(p, 0))):
                raise IndexError('index out of bounds')
        elif p.const < 0:
            raise IndexError('index out of bounds')
        return p
    if c is not None and d.const is not None:
        if c >= d.const:
            raise IndexError('index %d is out of bounds for axis with size %d' % (c, d.const))
        return p
    if T.is_var(p) and T.VARDIM.get(T.vname(p)) is d:
        return p
    if not decide(T.lt(p, d)):
        raise IndexError('index out of bounds')
    if not T.nonneg(p) and not decide(T.ge(p, 0)):
        return p + d
    return p


def _expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    if any(isinstance(k, list) and any(isinstance(z, slice) for z in k) for k in key):
        raise Unsupported('list of slices')
    nd = a.ndim
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, A) and k.kind == 'b' and k.ndim > 1:
            used += k.ndim
        elif isinstance(k, _np.ndarray) and k.dtype == bool and k.ndim > 1:
            used += k.ndim
        else:
            used += 1
    if any(k is Ellipsis for k in key):
        i = [q for q, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [slice(None)] * (nd - used)
    else:
        key += [slice(None)] * (nd - used)
    if used > nd:
        raise IndexError('too many indices for array')
    return key


def is_int_like(k):
    return (isinstance(k, (int, _np.integer)) and not isinstance(k, (bool, _np.bool_))) or (isinstance(k, A) and k.ndim == 0 and k.kind != 'b') or isinstance(k, Poly)


def _sel_of_mask(m):
    """Space selected by a 1-d boolean array"""
    m = asarray(m)
    snap = m._snap()
    d = m.shp[0]
    if isinstance(d, Space):
        return Space(d.dims, lambda idx: T.and_(d.gd(idx), T.liftb(snap((idx,)))))
    return Space((d,), lambda idx: T.liftb(snap((idx[0],))))


class IdxSel(A):
    """result of np.where(mask)[0] / flatnonzero: the sorted indices selected by a guard"""
    __slots__ = ('space',)


def idx_sel(space):
    r = IdxSel.__new__(IdxSel)
    A.__init__(r, (space,), lambda idx: idx[0][0], 'i')
    r.space = space
    return r


def _base_index(d, ix):
    """index into an axis with extent d from an addressing object"""
    return ix


def _adv(k):
    """normalise an advanced index: returns ('sel', Space) or ('gather', A)"""
    if isinstance(k, IdxSel):
        return 'sel', k.space
    if isinstance(k, (list, range, tuple)):
        k = asarray(list(k)) if len(list(k)) else from_np(_np.zeros(0, dtype=int))
    if isinstance(k, _np.ndarray):
        k = from_np(k)
    if isinstance(k, SymList):
        k = asarray(k)
    if isinstance(k, A):
        if k.kind == 'b':
            if k.ndim != 1:
                raise Unsupported('multi-dimensional mask')
            c = None if isinstance(k.shp[0], Space) else const_int(k.shp[0])
            if c is not None:
                vals = [k.at(i) for i in range(c)]
                if all(v is T.TRUE or v is T.FALSE for v in vals):
                    return 'gather', from_np(_np.array([i for i, v in enumerate(vals) if v is T.TRUE], dtype=int))
            return 'sel', _sel_of_mask(k)
        if k.kind == 'f':
            # float index arrays are rejected by numpy (except empty results of set operations)
            c = None if k.ndim != 1 or isinstance(k.shp[0], Space) else const_int(k.shp[0])
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return 'gather', k
    raise Unsupported('index of type %r' % type(k))


SPLIT = [False]        # class labels (polynomials in indicators) read one by one are resolved by cases


def split_label(r):
    if isinstance(r, A) and r.ndim == 0:
        v = r.at()
        while isinstance(v, Poly) and v.const is None and all(x.kind == 'ind' for m, c in v.t for x, e in m):
            b = v.t[-1][0][0][0].a[0]
            w = T.TRUE if decide(b) else T.FALSE
            v = T.Mapper(lambda q: w if q is b else None).poly(v)
        if isinstance(v, Poly) and v.const is not None:
            return wrap0(v)
    return r


def getitem(a, key):
    if isinstance(key, A) and key.kind == 'b' and key.ndim == a.ndim and a.ndim > 1:
        # full mask: 1-d selection over the product
        ds = a.shp
        if any(isinstance(d, Space) for d in ds):
            raise Unsupported('mask on a selection')
        ms, sn, nn = key._snap(), a._snap(), a._nansnap()
        non = [k for k, d in enumerate(ds) if d is not T.ONE]
        sp = Space([ds[k] for k in non], lambda idx: T.liftb(ms(tuple(idx[non.index(k)] if k in non else T.ZERO for k in range(len(ds))))))

        def full(ix):
            t = ix[0]
            return tuple(t[non.index(k)] if k in non else T.ZERO for k in range(len(ds)))
        return A((sp,), lambda ix: sn(full(ix)), a.kind, (lambda ix: nn(full(ix))) if nn else None)
    key = _expand_key(a, key)
    if all(is_int_like(k) or isinstance(k, slice) or k is None for k in key):
        r = _basic(a, key)
        return split_label(r) if SPLIT[0] else r
    # advanced
    advs = [i for i, k in enumerate(key) if not (is_int_like(k) or isinstance(k, slice) or k is None)]
    sn, nn = a._snap(), a._nansnap()
    if any(k is None for k in key):
        raise Unsupported('newaxis with advanced index')
    specs = []
    shp = []
    gathers = []
    for ax, k in enumerate(key):
        d = a.shp[ax]
        if ax in advs:
            kind, obj = _adv(k)
            if kind == 'sel':
                if isinstance(d, Space):
                    if d.same(obj) or True:
                        # selection of a selection: mask is addressed by the same base indices
                        if not isinstance(k, IdxSel):
                            shp.append(obj)
                            specs.append(('sel', len(shp) - 1, True))
                            continue
                    raise Unsupported('index set into a selection')
                if obj.dims[0] is not d and not decide(T.eq(obj.dims[0], d)):
                    raise IndexError('boolean index did not match')
                shp.append(obj)
                specs.append(('sel', len(shp) - 1, False))
            else:
                gathers.append((ax, obj))
                specs.append(('gather', obj))
        elif is_int_like(k):
            specs.append(('int', check_index(k, d)))
        else:
            if isinstance(d, Space):
                if k != slice(None):
                    raise Unsupported('slice of a selection')
                shp.append(d)
                specs.append(('keep', len(shp) - 1))
            else:
                st, ln, step = _slice_bounds(k, d)
                shp.append(ln)
                specs.append(('slice', len(shp) - 1, st, step))
    if len(gathers) > 1:
        objs = [o for _, o in gathers]
        gshp, maps = _bcast_dims([o.shp for o in objs])
        first = gathers[0][0]
        contiguous = all(gathers[i][0] + 1 == gathers[i + 1][0] for i in range(len(gathers) - 1))
        if not contiguous or any(s[0] == 'int' for s in specs):
            raise Unsupported('non-contiguous advanced indices')
        npre = sum(1 for s in specs[:first] if s[0] in ('sel', 'slice', 'keep'))
        newshp = tuple(shp[:npre]) + gshp + tuple(shp[npre:])
        gn = len(gshp)

        def mp(idx):
            g = idx[npre:npre + gn]
            rest = idx[:npre] + idx[npre + gn:]
            out = []
            q = 0
            for s in specs:
                if s[0] == 'gather':
                    o = s[1]
                    m = maps[q]
                    q += 1
                    out.append(T.lift(o.at(*[T.ZERO if z == -1 else g[z] for z in m])))
                elif s[0] == 'slice':
                    out.append(s[2] + rest[s[1]] * s[3])
                elif s[0] == 'keep':
                    out.append(rest[s[1]])
                elif s[0] == 'sel':
                    out.append(rest[s[1]][0])
            return tuple(out)
        return A(newshp, lambda idx: sn(mp(idx)), a.kind, (lambda idx: nn(mp(idx))) if nn else None)
    if gathers:
        ax, obj = gathers[0]
        osn = obj._snap()
        d = a.shp[ax]
        npre = sum(1 for s in specs[:ax] if s[0] in ('sel', 'slice', 'keep'))
        if isinstance(d, Space):
            raise Unsupported('gather from a selection')
        dd = d

        def norm(p):
            c = p.const
            if c is not None:
                if c < 0:
                    p = dd + p
                if dd.const is not None and not (0 <= p.const < dd.const):
                    raise IndexError('index %s is out of bounds for axis %d with size %s' % (p, ax, dd))
            return p
        newshp = tuple(shp[:npre]) + obj.shp + tuple(shp[npre:])
        gn = obj.ndim
        # eager bounds check on concrete index arrays
        if obj.ndim == 1 and not isinstance(obj.shp[0], Space) and const_int(obj.shp[0]) is not None:
            for q in range(const_int(obj.shp[0])):
                norm(T.lift(osn((T.num(q),))))
    else:
        npre, gn, newshp = 0, 0, tuple(shp)

    def mp(idx):
        g = idx[npre:npre + gn]
        rest = idx[:npre] + idx[npre + gn:]
        out = []
        for s in specs:
            if s[0] == 'gather':
                out.append(norm(T.lift(osn(g))))
            elif s[0] == 'int':
                out.append(s[1])
            elif s[0] == 'slice':
                out.append(s[2] + rest[s[1]] * s[3])
            elif s[0] == 'keep':
                out.append(rest[s[1]])
            elif s[0] == 'sel':
                out.append(rest[s[1]] if s[2] else rest[s[1]][0])
        return tuple(out)
    if not newshp:
        ix = mp(())
        return wrap0(sn(ix), nn(ix) if nn else T.FALSE)
    return A(newshp, lambda idx: sn(mp(idx)), a.kind, (lambda idx: nn(mp(idx))) if nn else None)


def _basic(a, key):
    shp = []
    specs = []
    ax = 0
    ismat = isinstance(a, M)
    for k in key:
        if k is None:
            shp.append(T.ONE)
            specs.append(('new', len(shp) - 1))
            continue
        d = a.shp[ax]
        ax += 1
        if is_int_like(k):
            p = check_index(k, d)
            if ismat:
                shp.append(T.ONE)
                specs.append(('slice', len(shp) - 1, p, 1, T.ONE))
            else:
                specs.append(('int', p))
        elif isinstance(d, Space):
            if k != slice(None):
                raise Unsupported('slice of a selection')
            shp.append(d)
            specs.append(('keep', len(shp) - 1))
        else:
            st, ln, step = _slice_bounds(k, d)
            shp.append(ln)
            if st is T.ZERO and step == 1:
                specs.append(('keep0', len(shp) - 1, ln, ln is d))
            else:
                specs.append(('slice', len(shp) - 1, st, step, ln))
    use = [s for s in specs if s[0] != 'new']
    nsh = len(shp)

    def f(idx):
        out = []
        for s in use:
            if s[0] == 'int':
                out.append(s[1])
            elif s[0] in ('keep', 'keep0'):
                out.append(idx[s[1]])
            else:
                out.append(s[2] + idx[s[1]] * s[3])
        return tuple(out)

    def g(J):
        out = [T.ZERO] * nsh
        c = T.TRUE
        for s, j in zip(use, J):
            if s[0] == 'int':
                c = T.and_(c, T.eq(j, s[1]))
            elif s[0] == 'keep':
                out[s[1]] = j
            elif s[0] == 'keep0':
                out[s[1]] = j
                if not s[3]:
                    c = T.and_(c, T.lt(j, s[2]))
            else:
                if s[3] == 1:
                    i = j - s[2]
                elif s[3] == -1:
                    i = s[2] - j
                else:
                    raise Unsupported('write through a strided view')
                out[s[1]] = i
                if s[4] is T.ONE:
                    c = T.and_(c, T.eq(i, 0))
                    out[s[1]] = T.ZERO
                else:
                    c = T.and_(c, T.ge(i, 0), T.lt(i, s[4]))
        return c, tuple(out)
    if not shp:
        ix = f(())
        return wrap0(a.at(*ix), a.nanat(*ix) if a.maynan else T.FALSE)
    return a._view(tuple(shp), f, g)


def setitem(a, key, val):
    if a.ndim == 0:
        raise TypeError('0-d assignment')
    v = asarray(val)
    if isinstance(key, _np.ndarray):
        key = from_np(key)
    if isinstance(key, A) and key.kind == 'b' and key.ndim == a.ndim and not (a.ndim == 1 and isinstance(key.shp[0], Space)):
        # elementwise mask
        shp, maps = _bcast_dims([a.shp, key.shp])
        ms = key._snap()
        cond0 = lambda idx: T.liftb(ms(idx))
        if v.ndim == 0 or (isinstance(v.size, int) and v.size == 1) or (v.ndim == 1 and v.shp[0] is T.ONE):
            vs, ns = v._snap(), v._nansnap()
            z = (T.ZERO,) * v.ndim
            _write(a, cond0, lambda idx: vs(z), (lambda idx: ns(z)) if ns else None)
            return
        if v.ndim == 1 and isinstance(v.shp[0], Space):
            sp = v.shp[0]
            vs, ns = v._snap(), v._nansnap()
            non = [k for k, d in enumerate(a.shp) if d is not T.ONE]
            msp = Space([a.shp[k] for k in non], lambda idx: T.liftb(ms(tuple(idx[non.index(k)] if k in non else T.ZERO for k in range(a.ndim)))))
            if not msp.same(sp):
                raise Unsupported('mask assignment from another selection')
            _write(a, cond0, lambda idx: vs((tuple(idx[k] for k in non),)), None)
            return
        if v.ndim == a.ndim:
            raise Unsupported('mask assignment of an array')
        raise Unsupported('mask assignment')
    key = _expand_key(a, key)
    # region described by per-axis constraints
    shp = []
    specs = []
    advs = [i for i, k in enumerate(key) if not (is_int_like(k) or isinstance(k, slice) or k is None)]
    for ax, k in enumerate(key):
        if k is None:
            raise Unsupported('newaxis in assignment')
        d = a.shp[ax]
        if ax in advs:
            kind, obj = _adv(k)
            if kind == 'sel':
                shp.append(obj)
                specs.append(('sel', len(shp) - 1, obj, isinstance(d, Space)))
            else:
                c = None
                if obj.ndim == 1 and not isinstance(obj.shp[0], Space):
                    c = const_int(obj.shp[0])
                if c is not None:
                    ps = [check_index(wrap_num(T.lift(obj.at(q))), d) for q in range(c)]
                    shp.append(T.num(c))
                    specs.append(('list', len(shp) - 1, ps))
                elif obj.ndim == 1 and not isinstance(obj.shp[0], Space):
                    # index array that is the identity on its extent (np.arange)
                    w = T.fresh_index(obj.shp[0], 'w')
                    off = T.lift(obj.at(w)) - w
                    if T.vname(w) in off.fv:
                        raise Unsupported('scatter through a symbolic index array')
                    shp.append(obj.shp[0])
                    specs.append(('slice', len(shp) - 1, off, 1, obj.shp[0]))
                else:
                    raise Unsupported('scatter through a symbolic index array')
        elif is_int_like(k):
            specs.append(('int', check_index(k, d)))
        elif isinstance(d, Space):
            shp.append(d)
            specs.append(('keep', len(shp) - 1))
        else:
            st, ln, step = _slice_bounds(k, d)
            shp.append(ln)
            specs.append(('slice', len(shp) - 1, st, step, ln, d))
    # broadcasting of v to shp (v may have leading ones)
    vshp = v.shp
    while len(vshp) > len(shp):
        if vshp[0] is not T.ONE:
            raise ValueError('could not broadcast input array into shape')
        v = v.reshape(tuple(pyint(dsize(d)) for d in vshp[1:])) if not any(isinstance(d, Space) for d in vshp) else _drop_lead(v)
        vshp = v.shp
    maps = []
    off = len(shp) - len(vshp)
    for q, d in enumerate(vshp):
        t = shp[off + q]
        if d is T.ONE:
            maps.append(-1)
        elif d is t or (isinstance(d, Space) and d.same(t)) or \
                (not isinstance(d, Space) and not isinstance(t, Space) and decide(T.eq(d, t))):
            maps.append(off + q)
        elif isinstance(d, Space) or isinstance(t, Space):
            raise Unsupported('assignment of %s into a different selection' % T.show(dsize(d)))
        else:
            raise ValueError('could not broadcast input array from shape into shape')
    vs, ns = v._snap(), v._nansnap()
    vm = lambda idx: tuple(T.ZERO if m == -1 else idx[m] for m in maps)
    # expand 'list' specs into a sequence of int writes
    li = [q for q, s in enumerate(specs) if s[0] == 'list']
    if len(li) > 1:
        ls = [specs[q] for q in li]
        n0 = len(ls[0][2])
        raise Unsupported('several index lists in assignment')
    variants = [(None, None)]
    if li:
        variants = [(specs[li[0]][2][q], q) for q in range(len(specs[li[0]][2]))]

    for tgt, q in variants:
        def region(J, tgt=tgt, q=q):
            c = T.TRUE
            out = [None] * len(shp)
            for s, j in zip(specs, J):
                if s[0] == 'int':
                    c = T.and_(c, T.eq(j, s[1]))
                elif s[0] == 'list':
                    c = T.and_(c, T.eq(j, tgt))
                    out[s[1]] = T.num(q)
                elif s[0] == 'keep':
                    out[s[1]] = j
                elif s[0] == 'sel':
                    t = j if s[3] else (j,)
                    c = T.and_(c, s[2].gd(t))
                    out[s[1]] = t
                else:
                    st, step, ln = s[2], s[3], s[4]
                    if step == 1:
                        i = j - st
                    elif step == -1:
                        i = st - j
                    else:
                        cj = const_int(j)
                        if cj is None:
                            raise Unsupported('strided write')
                        i0 = (cj - const_int(st))
                        if i0 % step:
                            return T.FALSE, None
                        i = T.num(i0 // step)
                    out[s[1]] = i
                    if not (st is T.ZERO and len(s) > 5 and ln is s[5]):
                        if ln is T.ONE:
                            c = T.and_(c, T.eq(i, 0))
                            out[s[1]] = T.ZERO
                        else:
                            c = T.and_(c, T.ge(i, 0), T.lt(i, ln))
            return c, tuple(out)
        _write(a, lambda J, r=region: r(J)[0], lambda J, r=region: vs(vm(r(J)[1])), (lambda J, r=region: ns(vm(r(J)[1])) if r(J)[0] is not T.FALSE else T.FALSE) if ns else None)


def _drop_lead(v):
    sn, nn = v._snap(), v._nansnap()
    return A(v.shp[1:], lambda idx: sn((T.ZERO,) + idx), v.kind, (lambda idx: nn((T.ZERO,) + idx)) if nn else None)


def _write(a, cond, val, nanval):
    """write through the (possibly viewed) array a"""
    kind = a.kind
    if kind == 'b':
        conv = T.liftb
    elif kind == 'i':
        def conv(x):
            x = T.lift(x)
            return x if x.integral else T.fn('trunc', x)
    else:
        conv = T.lift
    inv = a.inv
    if inv is None:
        a.buf.write(cond, lambda J: conv(val(J)), nanval)
        return

    def c2(J):
        c, idx = inv(J)
        if c is T.FALSE:
            return c
        return T.and_(c, cond(idx))

    def v2(J):
        return conv(val(inv(J)[1]))
    n2 = (lambda J: nanval(inv(J)[1])) if nanval else None
    a.buf.write(c2, v2, n2)
