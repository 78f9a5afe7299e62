"""Model of numpy for symbolic arrays: the assumed contracts on the dependency.  A name that is
not modelled falls through to real numpy and is refused when it meets a symbolic argument."""
import numpy as _np
import numbers, itertools, builtins
from . import term as T
from . import path as P
from .path import Unsupported, decide, note
from . import arr as R
from .arr import A, M, Space, SymList, asarray, binop, unary, elementwise, reduce_, wrap0, scalar, pyint, const_int, dsize


def symbolic(x):
    if isinstance(x, (A, SymList, T.Poly, T.B)):
        return True
    if isinstance(x, (list, tuple)):
        return any(symbolic(e) for e in x)
    if isinstance(x, dict):
        return any(symbolic(e) for e in x.values())
    return False


def guarded(name, f):
    if not callable(f) or isinstance(f, type):
        return f

    def g(*a, **k):
        if builtins.any(symbolic(x) for x in a) or builtins.any(symbolic(x) for x in k.values()):
            raise Unsupported('no contract for %s' % name)
        return f(*a, **k)
    g.__name__ = name.split('.')[-1]
    return g


class Proxy:
    """a dependency module: contracts where given, the real thing on concrete arguments"""

    def __init__(self, real, name, table):
        self.__dict__['_real'] = real
        self.__dict__['_name'] = name
        self.__dict__['_table'] = table

    def __getattr__(self, k):
        t = self.__dict__['_table']
        if k in t:
            return t[k]
        r = self.__dict__['_real']
        if r is None or not hasattr(r, k):
            raise AttributeError('module %r has no attribute %r' % (self.__dict__['_name'], k))
        v = getattr(r, k)
        return guarded(self.__dict__['_name'] + '.' + k, v)


NP = {}


def np_(f=None, *names):
    def deco(g):
        for n in names or (g.__name__.rstrip('_'),):
            NP[n] = g
        return g
    return deco(f) if f is not None and callable(f) else deco


# types
NP['ndarray'] = A
NP['matrix'] = M


def _mk(shape, kind, v):
    if isinstance(shape, A) and shape.ndim == 0 or isinstance(shape, numbers.Integral):
        shape = (shape,)
    shp = tuple(scalar(s) for s in shape)
    for d in shp:
        if d.const is None and not T.nonneg(d):
            if not decide(T.ge(d, 0)):
                raise ValueError('negative dimensions are not allowed')
        elif d.const is not None and d.const < 0:
            raise ValueError('negative dimensions are not allowed')
    return A(shp, lambda idx: v, kind)


def full_like_kind(kind, x):
    return (T.TRUE if x else T.FALSE) if kind == 'b' else T.num(x)


@np_
def zeros(shape, dtype=None, order='C', **k):
    kd = R.kind_of(dtype)
    return _mk(shape, kd, full_like_kind(kd, 0))


@np_
def ones(shape, dtype=None, order='C', **k):
    kd = R.kind_of(dtype)
    return _mk(shape, kd, full_like_kind(kd, 1))


_emp = itertools.count()


@np_
def empty(shape, dtype=None, order='C', **k):
    kd = R.kind_of(dtype)
    r = _mk(shape, kd, T.ZERO)
    nm = 'empty~%d' % next(_emp)
    r.buf.get = (lambda idx: T.bel(nm, idx)) if kd == 'b' else (lambda idx: T.el(nm, idx, 'I' if kd == 'i' else 'R'))
    return r


@np_
def full(shape, v, dtype=None, **k):
    r = zeros(shape, dtype or float)
    r[...] = v
    return r


@np_
def zeros_like(x, dtype=None, **k):
    a = asarray(x)
    return A(a.shp, lambda idx: T.ZERO, R.kind_of(dtype) if dtype else a.kind)


@np_
def ones_like(x, dtype=None, **k):
    a = asarray(x)
    return A(a.shp, lambda idx: T.ONE, R.kind_of(dtype) if dtype else a.kind)


@np_
def empty_like(x, dtype=None, **k):
    a = asarray(x)
    return empty(tuple(a.shape), dtype or {'f': float, 'i': int, 'b': bool}[a.kind])


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


NP['identity'] = identity


@np_
def eye(N, M_=None, k=0, dtype=None, **kw):
    n = scalar(N)
    m = n if M_ is None else scalar(M_)
    kd = R.kind_of(dtype)
    if kd == 'b':
        return A((n, m), lambda i: T.eq(i[0] + k, i[1]), 'b')
    return A((n, m), lambda i: T.ind(T.eq(i[0] + k, i[1])), kd)


@np_
def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, _np.ndarray) and x.dtype.kind in 'OUS':
        return x.copy()
    if isinstance(x, (list, tuple)) and len(x) and builtins.any(isinstance(e, str) for e in x):
        return _np.array(x)
    a = asarray(x, copy_=True)
    if isinstance(x, (list, tuple)) and len(x) == 0:
        a = A((T.ZERO,), lambda i: T.ZERO, 'f')
    if dtype is not None:
        a = a.astype(dtype)
    while a.ndim < ndmin:
        a = a[None]
    return a


@np_
def asarray_(x, dtype=None, **k):
    if isinstance(x, _np.ndarray) and x.dtype.kind in 'OUS':
        return x
    a = asarray(x)
    if dtype is not None and R.kind_of(dtype) != a.kind:
        a = a.astype(dtype)
    return a


NP['asarray'] = asarray_
NP['asanyarray'] = asarray_
NP['ascontiguousarray'] = asarray_


def asmatrix(x, dtype=None, **k):
    a = asarray(x)
    if a.ndim == 1:
        a = a.reshape((1, -1))
    return M(a.shp, a._snap(), a.kind, a._nansnap())


NP['asmatrix'] = NP['mat'] = asmatrix


@np_
def copy(x, **k):
    return asarray(x, copy_=True)


@np_
def isscalar(x):
    if isinstance(x, A):
        return x.ndim == 0
    return _np.isscalar(x)


@np_
def shape(x):
    return asarray(x).shape


@np_
def ndim(x):
    return asarray(x).ndim


@np_
def size(x, axis=None):
    a = asarray(x)
    if axis is None:
        return a.size
    return a.shape[axis]


@np_
def reshape(x, shp, order='C', **k):
    a = asarray(x)
    if isinstance(shp, (tuple, list)):
        return a.reshape(*shp, order=order)
    return a.reshape(shp, order=order)


@np_
def ravel(x, **k):
    return asarray(x).ravel()


@np_
def transpose(x, axes=None):
    return asarray(x).transpose(*( (axes,) if axes else ()))


@np_
def squeeze(x, axis=None):
    a = asarray(x)
    if axis is None:
        return a.squeeze()
    ax = R._norm_axis(axis, a.ndim)
    return a[tuple(0 if k in ax else slice(None) for k in range(a.ndim))]


@np_
def expand_dims(x, axis):
    a = asarray(x)
    if axis < 0:
        axis += a.ndim + 1
    key = [slice(None)] * a.ndim
    key.insert(axis, None)
    return a[tuple(key)]


@np_
def atleast_1d(x):
    a = asarray(x)
    return a.reshape(1) if a.ndim == 0 else a


@np_
def atleast_2d(x):
    a = asarray(x)
    return a.reshape(1, 1) if a.ndim == 0 else (a[None] if a.ndim == 1 else a)


# arithmetic
for _n, _o in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('true_divide', '/'), ('power', '**'),
               ('floor_divide', '//'), ('mod', '%'), ('remainder', '%'), ('less', '<'), ('less_equal', '<='), ('greater', '>'),
               ('greater_equal', '>='), ('equal', '=='), ('not_equal', '!=')):
    def _f(x, y, out=None, where=None, _o=_o, **k):
        if out is not None or where is not None:
            if out is not None and where is None:
                r = binop(_o, asarray(x), y)
                out[...] = r
                return out
            raise Unsupported('ufunc where=')
        if isinstance(x, M) or isinstance(y, M):
            r = binop(_o, asarray(x), asarray(y))
            return M(r.shp, r._snap(), r.kind, r._nansnap()) if r.ndim == 2 else r
        return binop(_o, asarray(x), y)
    _f.__name__ = _n
    NP[_n] = _f


def _u(name, f, kind=None):
    def g(x, out=None, **k):
        if out is not None:
            r = unary(name, x, f, kind)
            out[...] = r
            return out
        return unary(name, x, f, kind)
    g.__name__ = name
    NP[name] = g


_u('sqrt', T.sqrt)
_u('square', lambda x: T.power(x, 2))
_u('abs', lambda x: T.fn('abs', x))
_u('absolute', lambda x: T.fn('abs', x))
_u('fabs', lambda x: T.fn('abs', x))
_u('negative', T.neg)
_u('sign', lambda x: T.fn('sign', x))
_u('floor', lambda x: T.fn('floor', x))
_u('ceil', lambda x: T.fn('ceil', x))
_u('rint', lambda x: T.fn('round', x))
_u('tanh', lambda x: T.fn('tanh', x))
_u('exp', lambda x: T.fn('exp', x))
_u('log', lambda x: T.fn('log', x))
_u('sin', lambda x: T.fn('sin', x))
_u('cos', lambda x: T.fn('cos', x))
_u('arcsin', lambda x: T.fn('arcsin', x))
_u('arccos', lambda x: T.fn('arccos', x))
_u('reciprocal', lambda x: T.power(x, -1))


@np_
def round_(x, decimals=0, **k):
    if decimals:
        raise Unsupported('round to decimals')
    return unary('round', x, lambda v: T.fn('round', v))


NP['round'] = NP['around'] = round_


@np_
def maximum(x, y, **k):
    return elementwise(lambda u, v: T.fn('max2', T.lift(u), T.lift(v)), [x, y], 'f')


@np_
def minimum(x, y, **k):
    return elementwise(lambda u, v: T.fn('min2', T.lift(u), T.lift(v)), [x, y], 'f')


@np_
def clip(x, lo, hi, **k):
    r = x
    if lo is not None: r = maximum(r, lo)
    if hi is not None: r = minimum(r, hi)
    return r


@np_
def logical_and(x, y, **k):
    return elementwise(lambda u, v: T.and_(T.liftb(u), T.liftb(v)), [x, y], 'b', nan=None)


@np_
def logical_or(x, y, **k):
    return elementwise(lambda u, v: T.or_(T.liftb(u), T.liftb(v)), [x, y], 'b', nan=None)


@np_
def logical_not(x, **k):
    return elementwise(lambda u: T.not_(T.liftb(u)), [x], 'b', nan=None)


@np_
def isnan(x, **k):
    a = asarray(x)
    n = a._nansnap()
    if n is None:
        return A(a.shp, lambda idx: T.FALSE, 'b') if a.ndim else _np.bool_(False)
    if a.ndim == 0:
        return wrap0(n(()))
    return A(a.shp, n, 'b')


@np_
def isfinite(x, **k):
    return logical_not(isnan(x))


@np_
def nan_to_num(x, copy=True, nan=0.0, **k):
    a = asarray(x)
    s, n = a._snap(), a._nansnap()
    if n is None:
        return a.copy()
    v = T.lift(nan)
    return A(a.shp, lambda i: T.ite(n(i), v, T.lift(s(i))), a.kind)


@np_
def where(c, x=None, y=None):
    c = asarray(c)
    if x is None:
        if c.kind != 'b':
            c = binop('!=', c, 0)
        snap = c._snap()
        if c.ndim == 1:
            return (_idx1(c),)
        non = [k for k, d in enumerate(c.shp) if d is not T.ONE]
        if len(non) <= 1 and c.ndim > 1:
            # an (n,1)-like condition: the selected rows, and zeros
            k0 = non[0] if non else 0
            nd = c.ndim
            flat = A((c.shp[k0],), lambda idx: snap(tuple(idx[0] if k == k0 else T.ZERO for k in range(nd))), 'b')
            sel = _idx1(flat)
            sp = sel.shp[0]
            return tuple(sel if k == k0 else A((sp,), lambda idx: T.ZERO, 'i') for k in range(nd))
        if c.ndim == 2:
            r = RowWhere.__new__(RowWhere)
            sp = Space(c.shp, lambda idx: T.liftb(snap(tuple(idx)))) if not builtins.any(isinstance(d, Space) for d in c.shp) else None
            if sp is None:
                raise Unsupported('np.where on a selection')
            rows = A((sp,), lambda idx: idx[0][0], 'i')
            cols = A((sp,), lambda idx: idx[0][1], 'i')
            return (rows, cols)
        raise Unsupported('np.where of %d-d condition' % c.ndim)
    xa, ya = asarray(x), asarray(y)
    if xa.maynan or ya.maynan:
        raise Unsupported('np.where with missing values')
    if xa.kind == 'b' and ya.kind == 'b':
        return elementwise(lambda b, u, v: T.or_(T.and_(T.liftb(b), u), T.and_(T.not_(T.liftb(b)), v)), [c, xa, ya], 'b')
    return elementwise(lambda b, u, v: T.ite(T.liftb(b), T.lift(u), T.lift(v)), [c, xa, ya], R._kind2(xa, ya))


class RowWhere(A):
    __slots__ = ()


def _idx1(c):
    """indices where a 1-d boolean array holds"""
    n = None if isinstance(c.shp[0], Space) else const_int(c.shp[0])
    if n is not None:
        vals = [c.at(i) for i in range(n)]
        if builtins.all(v is T.TRUE or v is T.FALSE for v in vals):
            return R.from_np(_np.array([i for i, v in enumerate(vals) if v is T.TRUE], dtype=int))
        if n <= R.SMALL:
            # concrete extent: decide every membership (forks), so that the index set is concrete
            return R.from_np(_np.array([i for i, v in enumerate(vals) if decide(v)], dtype=int))
    return R.idx_sel(R._sel_of_mask(c))


@np_
def flatnonzero(x):
    a = asarray(x)
    return where(a if a.ndim == 1 else a.ravel())[0]


@np_
def nonzero(x):
    return where(x)


@np_
def argwhere(x):
    return where(x)[0].reshape(-1, 1)


# reductions
@np_
def sum_(x, axis=None, keepdims=False, **k):
    if isinstance(x, TrimmedPart): return x.sum(axis)
    return reduce_('sum', x, axis, keepdims)


NP['sum'] = sum_


@np_
def nansum(x, axis=None, keepdims=False, **k):
    return reduce_('sum', x, axis, keepdims, skipnan=True)


@np_
def mean(x, axis=None, keepdims=False, **k):
    if isinstance(x, TrimmedPart): return x.mean(axis)
    return reduce_('mean', x, axis, keepdims)


@np_
def nanmean(x, axis=None, keepdims=False, **k):
    note('numpy.nanmean: at least one observed value per column')
    return reduce_('mean', x, axis, keepdims, skipnan=True)


@np_
def median(x, axis=None, keepdims=False, **k):
    return reduce_('median', x, axis, keepdims)


@np_
def nanmedian(x, axis=None, keepdims=False, **k):
    return reduce_('median', x, axis, keepdims, skipnan=True)


@np_
def var(x, axis=None, ddof=0, keepdims=False, **k):
    return R.var_(x, axis, ddof, keepdims)


@np_
def nanvar(x, axis=None, ddof=0, keepdims=False, **k):
    if ddof:
        raise Unsupported('nanvar ddof')
    return R.var_(x, axis, 0, keepdims, skipnan=True)


@np_
def std(x, axis=None, ddof=0, keepdims=False, **k):
    return unary('sqrt', R.var_(x, axis, ddof, keepdims), T.sqrt)


@np_
def nanstd(x, axis=None, ddof=0, keepdims=False, **k):
    return unary('sqrt', nanvar(x, axis, ddof, keepdims), T.sqrt)


@np_
def prod(x, axis=None, keepdims=False, **k):
    return reduce_('prod', x, axis, keepdims)


@np_
def max_(x, axis=None, keepdims=False, **k):
    return reduce_('max', x, axis, keepdims)


NP['max'] = NP['amax'] = max_


@np_
def min_(x, axis=None, keepdims=False, **k):
    return reduce_('min', x, axis, keepdims)


NP['min'] = NP['amin'] = min_


@np_
def nanmax(x, axis=None, keepdims=False, **k):
    return reduce_('max', x, axis, keepdims, skipnan=True)


@np_
def nanmin(x, axis=None, keepdims=False, **k):
    return reduce_('min', x, axis, keepdims, skipnan=True)


@np_
def any_(x, axis=None, **k):
    return reduce_('any', x, axis)


@np_
def all_(x, axis=None, **k):
    return reduce_('all', x, axis)


NP['any'] = any_
NP['all'] = all_


@np_
def count_nonzero(x, axis=None, **k):
    a = asarray(x)
    if a.kind != 'b':
        a = binop('!=', a, 0)
    return reduce_('sum', a, axis)


@np_
def average(x, axis=None, weights=None, **k):
    if weights is None:
        return mean(x, axis)
    raise Unsupported('weighted average')


@np_
def cumsum(x, axis=None, **k):
    a = asarray(x)
    if a.ndim != 1 or const_int(dsize(a.shp[0])) is None:
        raise Unsupported('cumsum')
    return R.from_np(_np.array(list(itertools.accumulate([a[i] for i in range(len(a))])), dtype=object))


# products
@np_
def matmul(x, y, **k):
    return R.matmul(x, y)


@np_
def dot(x, y, **k):
    return R.dot(x, y)


@np_
def inner(x, y):
    a, b = asarray(x), asarray(y)
    return R.dot(a, b.T)


@np_
def vdot(x, y):
    return R.dot(asarray(x).ravel(), asarray(y).ravel())


@np_
def outer(x, y):
    a, b = asarray(x).ravel(), asarray(y).ravel()
    s, t = a._snap(), b._snap()
    return A(a.shp + b.shp, lambda i: T.lift(s(i[:1])) * T.lift(t(i[1:])), 'f')


@np_
def trace(x, **k):
    a = asarray(x)
    return wrap0(R.sum_over([a.shp[0]], lambda ix: T.lift(a.at(ix[0], ix[0]))))


@np_
def einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    if '->' not in spec or '.' in spec:
        raise Unsupported('einsum ' + spec)
    ins, out = spec.split('->')
    ins = ins.split(',')
    arrs = [asarray(o) for o in ops]
    dims = {}
    for s, a in zip(ins, arrs):
        for c, d in zip(s, a.shp):
            if c in dims and dims[c] is not d and not decide(T.eq(dims[c], d)):
                raise ValueError('einsum dims')
            dims.setdefault(c, d)
    red = [c for c in dims if c not in out]
    snaps = [a._snap() for a in arrs]

    def get(idx):
        env = dict(zip(out, idx))

        def f(ix):
            e = dict(env)
            e.update(zip(red, ix))
            r = T.ONE
            for s, sn in zip(ins, snaps):
                r = r * T.lift(sn(tuple(e[c] for c in s)))
            return r
        return R.sum_over([dims[c] for c in red], f)
    if not out:
        return wrap0(get(()))
    return A(tuple(dims[c] for c in out), get, 'f')


# construction
@np_
def tile(x, reps):
    a = asarray(x)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = [scalar(r) for r in reps]
    nd = builtins.max(a.ndim, len(reps))
    while a.ndim < nd:
        a = a[None]
    reps = [T.ONE] * (nd - len(reps)) + reps
    shp = []
    md = []
    for d, r in zip(a.shp, reps):
        if r is T.ONE:
            shp.append(d); md.append('id')
        elif d is T.ONE:
            shp.append(r); md.append('zero')
        elif not isinstance(d, Space) and d.const is not None and r.const is not None:
            shp.append(d * r); md.append(('mod', d))
        else:
            raise Unsupported('tile of a symbolic extent')
    s, n = a._snap(), a._nansnap()
    f = lambda idx: tuple(i if m == 'id' else (T.ZERO if m == 'zero' else T.fn('mod', i, m[1]) if i.const is None else T.num(int(i.const) % int(m[1].const))) for i, m in zip(idx, md))
    return A(tuple(shp), lambda idx: s(f(idx)), a.kind, (lambda idx: n(f(idx))) if n else None)


@np_
def repeat(x, n, axis=None):
    a = asarray(x)
    n = scalar(n)
    if a.ndim == 0:
        v = a.at()
        return A((n,), lambda i: v, a.kind)
    if axis is None and isinstance(a.size, int) and a.size == 1:
        v = a.at(*([T.ZERO] * a.ndim))
        return A((n,), lambda i: v, a.kind)
    if axis is not None and a.shp[axis] is T.ONE:
        s = a._snap()
        ax = axis % a.ndim
        return A(tuple(n if k == ax else d for k, d in enumerate(a.shp)), lambda i: s(tuple(T.ZERO if k == ax else q for k, q in enumerate(i))), a.kind)
    raise Unsupported('repeat')


@np_
def broadcast_to(x, shp, **k):
    a = asarray(x)
    return elementwise(lambda u, v: u, [a, zeros(shp)], a.kind)


@np_
def arange(*a, dtype=None, **k):
    if not symbolic(a):
        return R.from_np(_np.arange(*a, dtype=dtype))
    if len(a) == 1:
        lo, hi = T.ZERO, scalar(a[0])
    else:
        lo, hi = scalar(a[0]), scalar(a[1])
        if len(a) > 2 and scalar(a[2]) is not T.ONE:
            raise Unsupported('arange step')
    n = hi - lo
    if not n.integral:
        raise Unsupported('arange of reals')
    if not T.nonneg(n) and not decide(T.ge(n, 0)):
        n = T.ZERO
    return A((n,), lambda i: lo + i[0], 'i')


@np_
def linspace(a, b, n=50, endpoint=True, **k):
    if not symbolic((a, b, n)):
        return R.from_np(_np.linspace(a, b, n, endpoint=endpoint, **k))
    a, b, n = scalar(a), scalar(b), scalar(n)
    den = n - 1 if endpoint else n
    return A((n,), lambda i: a + (b - a) * i[0] / den, 'f')


@np_
def concatenate(xs, axis=0, **k):
    if isinstance(xs, SymList):
        raise Unsupported('concatenate of a symbolic list')
    arrs = [asarray(x) for x in xs]
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    nd = arrs[0].ndim
    axis %= nd
    if builtins.any(a.ndim != nd for a in arrs):
        raise ValueError('all the input array dimensions must match')
    kind = 'f' if builtins.any(a.kind == 'f' for a in arrs) else arrs[0].kind
    for a in arrs[1:]:
        for k_ in range(nd):
            if k_ != axis and a.shp[k_] is not arrs[0].shp[k_] and not decide(T.eq(dsize(a.shp[k_]), dsize(arrs[0].shp[k_]))):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    arrs = [a for a in arrs if not (not isinstance(a.shp[axis], Space) and const_int(a.shp[axis]) == 0)] or arrs[:1]
    if len(arrs) == 1:
        return arrs[0].copy()
    if builtins.any(isinstance(a.shp[axis], Space) for a in arrs):
        raise Unsupported('concatenate selections')
    offs = [T.ZERO]
    for a in arrs:
        offs.append(offs[-1] + a.shp[axis])
    snaps = [a._snap() for a in arrs]
    nans = [a._nansnap() for a in arrs]

    def pick(idx, fs, b):
        i = idx[axis]
        r = None
        for q in range(len(arrs) - 1, -1, -1):
            f = fs[q]
            v = f(idx[:axis] + (i - offs[q],) + idx[axis + 1:]) if f else T.FALSE
            if r is None:
                if i.const is not None and offs[q].const is not None and i.const >= offs[q].const:
                    return v
                r = v
                continue
            c = T.lt(i, offs[q + 1])
            if c is T.FALSE:
                continue
            if c is T.TRUE:
                r = v
            elif b or isinstance(v, T.B):
                r = T.or_(T.and_(c, T.liftb(v)), T.and_(T.not_(c), T.liftb(r)))
            else:
                r = T.ite(c, v, r)
        return r
    shp = tuple(offs[-1] if k_ == axis else d for k_, d in enumerate(arrs[0].shp))
    return A(shp, lambda idx: pick(idx, snaps, False), kind, (lambda idx: pick(idx, nans, True)) if builtins.any(nans) else None)


@np_
def vstack(xs, **k):
    if isinstance(xs, A):
        # rows of an array
        if xs.ndim == 1:
            return xs.reshape(-1, 1)
        if xs.ndim == 2:
            return xs.copy()
    if isinstance(xs, SymList):
        a = asarray(xs)
        return a.reshape(-1, 1) if a.ndim == 1 else (a if a.ndim == 2 else (a[:, 0, :] if a.shp[1] is T.ONE else _uns('vstack')))
    return concatenate([atleast_2d(x) for x in xs], 0)


def _uns(s):
    raise Unsupported(s)


@np_
def hstack(xs, **k):
    arrs = [atleast_1d(x) for x in xs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


@np_
def column_stack(xs, **k):
    if isinstance(xs, SymList):
        return asarray(xs).T
    arrs = []
    for x in xs:
        a = asarray(x)
        arrs.append(a.reshape(-1, 1) if a.ndim < 2 else a)
    return concatenate(arrs, 1)


@np_
def stack(xs, axis=0, **k):
    if isinstance(xs, SymList):
        a = asarray(xs)
        return a if axis == 0 else a.T if a.ndim == 2 else _uns('stack')
    return concatenate([expand_dims(x, axis) for x in xs], axis)


@np_
def append(x, v, axis=None):
    if axis is None:
        return concatenate([asarray(x).ravel(), asarray(v).ravel()], 0)
    return concatenate([x, v], axis)


@np_
def triu(x, k=0):
    a = asarray(x)
    s = a._snap()
    return A(a.shp, lambda i: T.ite(T.le(i[0] + k, i[1]), T.lift(s(i)), T.ZERO), a.kind)


@np_
def tril(x, k=0):
    a = asarray(x)
    s = a._snap()
    return A(a.shp, lambda i: T.ite(T.ge(i[0] + k, i[1]), T.lift(s(i)), T.ZERO), a.kind)


@np_
def diag(x, k=0):
    a = asarray(x)
    if k:
        raise Unsupported('diag offset')
    s = a._snap()
    if a.ndim == 1:
        return A((a.shp[0], a.shp[0]), lambda i: T.ind(T.eq(i[0], i[1])) * T.lift(s((i[0],))), a.kind)
    return A((a.shp[0],), lambda i: s((i[0], i[0])), a.kind)


@np_
def diagonal(x, **k):
    return diag(x)


@np_
def fill_diagonal(x, v, **k):
    m = eye(x.shape[0], dtype=bool)
    x[m] = v


# order
@np_
def sort(x, axis=-1, **k):
    a = asarray(x)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    s = a._snap()
    d = a.shp[axis]
    c = None if isinstance(d, Space) else const_int(d)
    if isinstance(d, Space) and not len(d.dims) == 1:
        raise Unsupported('sort of product selection')

    def get(idx):
        f = lambda ix: T.lift(s(idx[:axis] + (ix[0],) + idx[axis + 1:]))
        r = idx[axis]
        if isinstance(r, tuple):
            raise Unsupported('positional access to a sorted selection')
        if d is T.ONE:
            return f([T.ZERO])
        if c is not None and const_int(r) is not None and c <= 6:
            vals = [f([T.num(i)]) for i in range(c)]
            if builtins.all(v.const is not None for v in vals):
                return T.num(sorted(v.const for v in vals)[const_int(r)])
        return R.agg_over('sorted', [d], f, None, (r,))
    shp = tuple(dsize(d) if k_ == axis else e for k_, e in enumerate(a.shp))
    return A(shp, get, a.kind)


_perm = itertools.count()


@np_
def argsort(x, axis=-1, **k):
    a = asarray(x)
    if a.ndim != 1:
        raise Unsupported('argsort of a matrix')
    d = a.shp[0]
    if isinstance(d, Space):
        raise Unsupported('argsort of a selection')
    vals = None
    if const_int(d) is not None:
        vals = [T.lift(a.at(i)) for i in range(const_int(d))]
        if builtins.all(v.const is not None for v in vals):
            return R.from_np(_np.argsort([float(v.const) for v in vals], kind='stable'))
    s = a._snap()
    v = T.fresh_index(d, 'r')
    b = T.lift(s((v,)))
    if len(b.t) == 1 and b.t[0][1] == 1 and len(b.t[0][0]) == 1 and b.t[0][0][0][1] == 1:
        at = b.t[0][0][0][0]
        if at.kind == 'el' and at.a[0] in T.ASCENDING and at.a[1] == (v,):
            return arange(R.pyint(d))
    key = T.subst(b, {T.vname(v): T.var('~as', 'I', d)}).key
    nm = 'argsort!' + key
    return A((d,), lambda i: T.el(nm, i, 'I'), 'i')


@np_
def partition(x, kth, axis=-1, **k):
    a = asarray(x)
    if a.ndim != 1:
        raise Unsupported('np.partition of a matrix')
    note('numpy.partition(a, (k, m-1))[k:m] holds the k-th to (m-1)-th smallest values (order within not used)')
    return PartitionArr(a, kth)


class PartitionArr:
    """a partitioned vector; only slices bounded by the partition points are meaningful"""
    ndim = 1

    def __init__(self, a, kth):
        self.a = a
        ks = kth if isinstance(kth, (tuple, list)) else (kth,)
        self.kth = [scalar(x) for x in ks]

    @property
    def shape(self):
        return self.a.shape

    def __getitem__(self, s):
        if isinstance(s, tuple) and len(s) == 1:
            s = s[0]
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise Unsupported('np.partition: element access')
        n = dsize(self.a.shp[0])
        lo = T.ZERO if s.start is None else scalar(s.start)
        hi = n if s.stop is None else scalar(s.stop)
        if lo is T.ZERO and hi is n:
            return self.a.copy()
        ok = lambda x: x is T.ZERO or x is n or builtins.any(x is k or (x - T.ONE) is k for k in self.kth)
        if not (ok(lo) and ok(hi)):
            raise Unsupported('np.partition: slice not at a partition point')
        d = self.a.shp[0]
        if isinstance(d, Space) and len(d.dims) > 1:
            # the same number of values left out at either end: what is kept is known by its sum and its number
            at = lo.t[0][0][0][0] if len(lo.t) == 1 and lo.t[0][1] == 1 and len(lo.t[0][0]) == 1 and lo.t[0][0][0][1] == 1 else None
            if at is not None and at.kind == 'fn' and at.a[0] in ('floor', 'trunc') and (n - lo) is hi:
                m = R.reduce_('trimmean', self.a, None, params=(T.lift(at.a[1][0]) * T.power(n, -1),))
                return TrimmedPart(m, hi - lo)
        return sort(self.a)[s]


class TrimmedPart:
    """the values left after the same number has been cut off at either end"""
    ndim = 1

    def __init__(self, m, k):
        self.m, self.k = m, k

    @property
    def shape(self):
        return (R.pyint(self.k),)

    @property
    def size(self):
        return R.pyint(self.k)

    def _symbolic_len(self):
        return R.pyint(self.k)

    def sum(self, axis=None):
        if axis not in (None, 0): raise Unsupported('axis')
        return self.m * wrap0(self.k)

    def mean(self, axis=None):
        if axis not in (None, 0): raise Unsupported('axis')
        return self.m


@np_
def argmax(x, axis=None, **k):
    return _argext(x, axis, 'max')


@np_
def argmin(x, axis=None, **k):
    return _argext(x, axis, 'min')


def _argext(x, axis, kind):
    a = asarray(x)
    if a.ndim == 1:
        pass
    elif axis is None:
        a = a.ravel()
    else:
        raise Unsupported('argmax axis')
    d = a.shp[0]
    c = None if isinstance(d, Space) else const_int(d)
    if c is None:
        raise Unsupported('argmax over a symbolic extent')
    if c == 0:
        raise ValueError('attempt to get argmax of an empty sequence')
    # first extremal position, decided path by path
    for q in range(c):
        conds = []
        for j in range(c):
            if j == q:
                continue
            u, v = T.lift(a.at(q)), T.lift(a.at(j))
            if kind == 'min':
                u, v = v, u
            conds.append(T.gt(u, v) if (j < q) == (kind == 'max') or j < q else T.ge(u, v))
        # (strict against earlier entries)
        if q == c - 1 or decide(T.and_(*conds)):
            return q


@np_
def apply_along_axis(f, axis, x, *args, **k):
    a = asarray(x)
    if a.ndim != 2:
        raise Unsupported('apply_along_axis')
    ax = axis % 2
    o = 1 - ax
    d = a.shp[o]
    if isinstance(d, Space):
        v = tuple(T.fresh_index(e, 'ap') for e in d.dims)
        names = [T.vname(q) for q in v]
        raise Unsupported('apply_along_axis on a selection')
    c = const_int(d)
    if c is not None and c <= R.SMALL:
        rows = [asarray(f(a[i, :] if o == 0 else a[:, i], *args, **k)) for i in range(c)]
        r = asarray(rows)
        return r if r.ndim == 1 or o == 0 else r.T
    from . import loader
    if not T.pos(T.lift(d)) and not P.decide(T.gt(d, 0)):
        raise Unsupported('apply_along_axis over nothing')
    # once at a generic lane; branches that depend on the lane are merged into conditionals
    lst = loader.h_listcomp(lambda p: f(a[wrap0(p), :] if o == 0 else a[:, wrap0(p)], *args, **k), SymList(d, lambda p: p))
    r = asarray(lst)
    return r if r.ndim == 1 or o == 0 else r.T


# sets (index sets)
def _is_selish(x):
    return isinstance(x, R.IdxSel)


@np_
def setdiff1d(x, y, **k):
    cx, cy = _conc_ints(x), _conc_ints(y)
    if cx is not None and cy is not None:
        return R.from_np(_np.setdiff1d(_np.array(cx, dtype=int), _np.array(cy, dtype=int)))
    n = _full_range(x)
    g = _member(y)
    if n is None or g is None:
        raise Unsupported('setdiff1d')
    return R.idx_sel(Space((n,), lambda idx: T.not_(g(idx[0]))))


@np_
def union1d(x, y, **k):
    cx, cy = _conc_ints(x), _conc_ints(y)
    if cx is not None and cy is not None:
        r = _np.union1d(_np.array(cx), _np.array(cy))
        fl = builtins.any(isinstance(z, A) and z.kind == 'f' for z in (x, y)) or builtins.any(isinstance(z, _np.ndarray) and z.dtype.kind == 'f' for z in (x, y))
        return FloatIdx(r) if False else R.from_np(r.astype(float) if fl else r.astype(int))
    gx, gy = _member(x), _member(y)
    dims = [z.space.dims[0] for z in (x, y) if isinstance(z, R.IdxSel)]
    if not dims or gx is None or gy is None:
        raise Unsupported('union1d')
    return R.idx_sel(Space((dims[0],), lambda idx: T.or_(gx(idx[0]), gy(idx[0]))))


@np_
def intersect1d(x, y, **k):
    gx, gy = _member(x), _member(y)
    dims = [z.space.dims[0] for z in (x, y) if isinstance(z, R.IdxSel)]
    if not dims or gx is None or gy is None:
        raise Unsupported('intersect1d')
    return R.idx_sel(Space((dims[0],), lambda idx: T.and_(gx(idx[0]), gy(idx[0]))))


def _conc_ints(x):
    if isinstance(x, R.IdxSel):
        return None
    if isinstance(x, (range, list, tuple, _np.ndarray)):
        try:
            return [int(e) for e in x]
        except (Unsupported, TypeError):
            return None
    if isinstance(x, A) and x.ndim == 1 and not isinstance(x.shp[0], Space):
        c = const_int(x.shp[0])
        if c is None:
            return None
        out = []
        for i in range(c):
            v = T.lift(x.at(i)).const
            if v is None:
                return None
            out.append(int(v))
        return out
    return None


def _full_range(x):
    from .loader import SymRange
    if isinstance(x, SymRange):
        return x.n if x.lo is T.ZERO else None
    if isinstance(x, range) and x.start == 0 and x.step == 1:
        return T.num(len(x))
    if isinstance(x, A) and x.ndim == 1 and not isinstance(x.shp[0], Space):
        v = T.fresh_index(x.shp[0], 'w')
        if T.lift(x.at(v)) is v:
            return x.shp[0]
    return None


def _member(x):
    if isinstance(x, R.IdxSel):
        return lambda i: x.space.gd((i,))
    c = _conc_ints(x)
    if c is not None:
        return lambda i: T.or_(*[T.eq(i, v) for v in c])
    n = _full_range(x)
    if n is not None:
        return lambda i: T.TRUE
    return None


@np_
def unique(x, **k):
    c = _conc_ints(x)
    if c is None or k:
        raise Unsupported('np.unique')
    return R.from_np(_np.unique(c))


@np_
def isin(x, y, **k):
    g = _member(y)
    if g is None:
        raise Unsupported('isin')
    return elementwise(lambda u: g(T.lift(u)), [x], 'b')


NP['in1d'] = isin


# second moments
COV_ABSTRACT = []      # covariance matrices named by a contract


@np_
def cov(x, y=None, rowvar=True, bias=False, ddof=None, **k):
    a = asarray(x)
    if y is not None or k:
        if not builtins.all(v is None for v in k.values()):
            raise Unsupported('cov options')
        if y is not None:
            b = asarray(y)
            if a.ndim == 1: a = a.reshape(1, -1) if rowvar else a.reshape(-1, 1)
            if b.ndim == 1: b = b.reshape(1, -1) if rowvar else b.reshape(-1, 1)
            a = concatenate([a, b], axis=0 if rowvar else 1)
    for f in COV_ABSTRACT:
        r = f(a, rowvar, bias, ddof)
        if r is not None:
            return r
    if a.ndim == 1:
        a = a.reshape(1, -1)
        rowvar = True
    if not rowvar:
        a = a.T
    d = a.shp[1]
    dd = ddof if ddof is not None else (0 if bias else 1)
    m = reduce_('mean', a, 1, True)
    c = binop('-', a, m)
    r = binop('/', R.matmul(c, c.T), R.wrap_num(dsize(d) - T.lift(dd)))
    if a.shp[0] is T.ONE:
        return wrap0(r.at(0, 0))
    return r


@np_
def outer_(x, y):
    return outer(x, y)


NP['newaxis'] = None
NP['pi'] = _np.pi
NP['inf'] = _np.inf
NP['nan'] = _np.nan

# ---------------------------------------------------------------- linalg
LA = {}


def norm(x, ord=None, axis=None, keepdims=False):
    a = asarray(x)
    if ord not in (None, 'fro', 2):
        if ord == 1 and a.ndim == 1:
            return reduce_('sum', unary('abs', a, lambda v: T.fn('abs', v)), axis, keepdims)
        raise Unsupported('norm ord %r' % (ord,))
    if ord == 2 and a.ndim == 2 and axis is None:
        if not (a.shp[0] is T.ONE or a.shp[1] is T.ONE):
            raise Unsupported('spectral norm')
    if ord == 'fro' and a.ndim != 2:
        raise ValueError('Invalid norm order for vectors.')
    if isinstance(axis, tuple):
        raise Unsupported('norm axis')
    return unary('sqrt', reduce_('sum', binop('**', a, 2), axis, keepdims), T.sqrt)


LA['norm'] = norm
_lin = itertools.count()


def _matkey(a):
    i, j = T.var('~mi', 'I'), T.var('~mj', 'I')
    idx = (i, j) if a.ndim == 2 else (i,)
    cs = [None if isinstance(d, Space) else const_int(d) for d in a.shp]
    if builtins.all(c is not None for c in cs):
        return '|'.join(T.lift(a.at(*[T.num(q) for q in t])).key for t in itertools.product(*[range(c) for c in cs])) + str(cs)
    T.VARDIM['~mi'] = dsize(a.shp[0])
    if a.ndim == 2:
        T.VARDIM['~mj'] = dsize(a.shp[1])
    return T.lift(a.at(*idx)).key + ','.join(dsize(d).key for d in a.shp)


def _det(rows):
    n = len(rows)
    if n == 1:
        return rows[0][0]
    if n == 2:
        return rows[0][0] * rows[1][1] - rows[0][1] * rows[1][0]
    r = T.ZERO
    for j in range(n):
        minor = [row[:j] + row[j + 1:] for row in rows[1:]]
        t = rows[0][j] * _det(minor)
        r = r + (t if j % 2 == 0 else -t)
    return r


def inv(x, **k):
    a = asarray(x)
    if a.ndim != 2:
        raise Unsupported('inv')
    if a.shp[0] is not a.shp[1] and not decide(T.eq(dsize(a.shp[0]), dsize(a.shp[1]))):
        raise _np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    n = const_int(a.shp[0])
    if n is not None and n <= 3:
        note('numpy.linalg.inv: the matrix is non-singular (precondition)')
        rows = [[T.lift(a.at(i, j)) for j in range(n)] for i in range(n)]
        # triangular with unit diagonal: polynomial inverse; otherwise adjugate / determinant
        det = _det(rows) if n > 1 else rows[0][0]
        if det is T.ZERO:
            raise _np.linalg.LinAlgError('Singular matrix')
        idet = T.power(det, -1)
        out = {}
        for i in range(n):
            for j in range(n):
                if n == 1:
                    c = T.ONE
                else:
                    minor = [[rows[r][s] for s in range(n) if s != i] for r in range(n) if r != j]
                    c = _det(minor)
                    if (i + j) % 2:
                        c = -c
                out[i, j] = c * idet

        def get(idx):
            i, j = const_int(idx[0]), const_int(idx[1])
            if i is None or j is None:
                r = None
                for p_ in range(n):
                    for q_ in range(n):
                        c = T.and_(T.eq(idx[0], p_), T.eq(idx[1], q_))
                        r = out[p_, q_] if r is None else T.ite(c, out[p_, q_], r)
                return r
            return out[i, j]
        return a._new((a.shp[0], a.shp[1]), get, 'f')
    note('numpy.linalg.inv / scipy.linalg.inv: the inverse of a non-singular matrix (a matrix G with G A = I)')
    a = a.copy()
    nm = _opaque('inv', a)
    T.OPAQUE[nm] = lambda env: _np.linalg.inv(_num(env, a))
    d = a.shp[0]
    i, j = T.fresh_index(d), T.fresh_index(d)
    if T.lift(a.at(i, j)) is T.lift(a.at(j, i)):
        T.SYM_EL.add(nm)
    CALLS.append(('inv', a, nm))
    return A((d, d), lambda ix: T.el(nm, ix), 'f')


LA['inv'] = inv


def det_(x):
    a = asarray(x)
    n = const_int(a.shp[0])
    if n is None or n > 3:
        raise Unsupported('det')
    return wrap0(_det([[T.lift(a.at(i, j)) for j in range(n)] for i in range(n)]))


LA['det'] = det_


def _opaque(tag, a, *extra):
    import hashlib
    return tag + '!' + hashlib.sha1((_matkey(a) + repr(extra)).encode()).hexdigest()[:12]


def lstsq(x, y, rcond=None, **k):
    a, b = asarray(x), asarray(y)
    note('numpy.linalg.lstsq: returns some coefficient array of the right shape (no optimality assumed)')
    nm = _opaque('lstsq', a) + _opaque('', b)
    shp = (a.shp[1],) + b.shp[1:]
    return (A(shp, lambda i: T.el(nm, i), 'f'), None, None, None)


LA['lstsq'] = lstsq


def svd(x, full_matrices=True, compute_uv=True, **k):
    a = asarray(x)
    note('numpy.linalg.svd: returns arrays of the right shapes, singular values >= 0')
    nm = _opaque('svd', a)
    n, p = a.shp
    if isinstance(n, Space) or isinstance(p, Space):
        raise Unsupported('svd of a selection')
    if n is p:
        k_ = n
    elif n.const is not None and p.const is not None:
        k_ = T.num(builtins.min(n.const, p.const))
    else:
        k_ = n if decide(T.le(n, p)) else p
    T.NONNEG_EL.add(nm + 's')
    S = A((k_,), lambda i: T.el(nm + 's', i), 'f')
    if not compute_uv:
        return S
    U = A((n, n if full_matrices else k_), lambda i: T.el(nm + 'u', i), 'f')
    V = A((p if full_matrices else k_, p), lambda i: T.el(nm + 'v', i), 'f')
    return U, S, V


LA['svd'] = svd


def _num(env, a):
    from .contract import eval_array
    return _np.asarray(eval_array(env, a), dtype=float)


CALLS = []             # calls of numerical decompositions on the current path: (name, argument, results)


def eigh(x, **k):
    a = asarray(x)
    if k:
        raise Unsupported('eigh options')
    if a.ndim != 2:
        raise Unsupported('eigh of a stack')
    note('numpy.linalg.eigh: eigenvalues in non-decreasing order with their eigenvectors in the columns of an array of the shape of the argument')
    nm = _opaque('eigh', a)
    a = a.copy()
    d = a.shp[0]
    T.ASCENDING.add(nm + 'w')
    T.OPAQUE[nm + 'w'] = lambda env: _np.linalg.eigh(_num(env, a))[0]
    T.OPAQUE[nm + 'v'] = lambda env: _np.linalg.eigh(_num(env, a))[1]
    W, Q = A((d,), lambda i: T.el(nm + 'w', i), 'f'), A((d, d), lambda i: T.el(nm + 'v', i), 'f')
    CALLS.append(('eigh', a, (W, Q)))
    return W.copy(), Q.copy()


LA['eigh'] = eigh
LA['LinAlgError'] = _np.linalg.LinAlgError
NP['linalg'] = Proxy(_np.linalg, 'numpy.linalg', LA)
for _alias in ('float', 'int', 'bool'):
    pass

np = Proxy(_np, 'numpy', NP)
