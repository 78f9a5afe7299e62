"""Assumed contracts on scipy, dcor, statsmodels and a few sklearn helpers."""
import importlib, types
import numpy as _np
from . import term as T
from . import arr as R
from .arr import A, asarray, reduce_, scalar, wrap0, Space, dsize
from . import snp
from .snp import Proxy, symbolic, guarded
from .path import Unsupported, note


def _real(name):
    try:
        return importlib.import_module(name)
    except Exception:
        return None


def trim_mean(a, proportiontocut, axis=0):
    note('scipy.stats.trim_mean: symmetric trimmed mean along the axis; equals the mean at trimming 0')
    t = scalar(proportiontocut)
    if t is T.ZERO:
        return reduce_('mean', a, axis)
    return reduce_('trimmean', a, axis, params=(t,))


class _Norm:
    def ppf(self, q):
        if symbolic(q): raise Unsupported('norm.ppf')
        return _real('scipy.stats').norm.ppf(q)

    def cdf(self, q):
        if symbolic(q): raise Unsupported('norm.cdf')
        return _real('scipy.stats').norm.cdf(q)

    def pdf(self, q):
        if symbolic(q): raise Unsupported('norm.pdf')
        return _real('scipy.stats').norm.pdf(q)


class _Chi2:
    def ppf(self, q, df):
        if symbolic(df) or symbolic(q):
            note('scipy.stats.chi2.ppf: increasing in the probability, positive')
            d = scalar(df)
            nm = 'chi2ppf_%s' % str(q).replace('.', '_')
            T.POS_EL.add(nm)
            return wrap0(T.el(nm, (d,)))
        return _real('scipy.stats').chi2.ppf(q, df)


norm, chi2 = _Norm(), _Chi2()


def pdist(x, metric='euclidean', **k):
    if metric != 'euclidean':
        raise Unsupported('pdist metric')
    note('scipy.spatial.distance.pdist/squareform: matrix of Euclidean distances between rows')
    a = asarray(x)
    if a.ndim != 2:
        raise ValueError('A 2-dimensional array must be passed.')
    s = a._snap()
    d = a.shp[0]

    def get(idx):
        i, j = idx
        return T.sqrt(R.sum_over([a.shp[1]], lambda ix: T.power(T.lift(s((i, ix[0]))) - T.lift(s((j, ix[0]))), 2)))
    return Condensed(A((d, d), get, 'f'))


class Frame:
    """a data frame (two-dimensional) or series (one-dimensional) of numbers; to_numpy shares the values"""
    __array_ufunc__ = None

    def __init__(self, a):
        self.a = a

    shape = property(lambda self: self.a.shape)
    ndim = property(lambda self: self.a.ndim)
    values = property(lambda self: self.a)
    dtype = property(lambda self: self.a.dtype)

    def to_numpy(self, *a, **k):
        return self.a

    def _pvc_array(self):
        return self.a.copy()

    def _pvc_type(self):
        ps = _real('pandas')
        return ps.core.frame.DataFrame if self.a.ndim == 2 else ps.core.series.Series

    def __len__(self):
        return len(self.a)


class Condensed:
    """condensed distance vector, carried as the square matrix it stands for"""
    __array_ufunc__ = None

    def __init__(self, sq):
        self.sq = sq

    def __pow__(self, e):
        return Condensed(self.sq ** e)

    def __mul__(self, o):
        return Condensed(self.sq * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Condensed(self.sq / o)


def squareform(x, **k):
    if isinstance(x, Condensed):
        return x.sq.copy()
    raise Unsupported('squareform')


def mad(x, c=None, axis=0, center=None, **k):
    a = asarray(x)
    if c is None:
        c = _real('scipy.stats').norm.ppf(0.75)
    m = reduce_('median', a, axis, True)
    return reduce_('median', abs(a - m), axis) / c


class Opt:
    pass


_nopt = [0]


def minimize(fun, x0, args=(), **k):
    note('scipy.optimize.minimize: returns some point of the shape of the start (no optimality assumed)')
    x0 = asarray(x0)
    nm = 'argmin~%d' % _nopt[0]
    _nopt[0] += 1
    r = Opt()
    r.x = A(x0.shp, lambda i: T.el(nm, i), 'f')
    r.args = (fun, x0, args, k)
    r.success = True
    return r


def orth(x, **k):
    raise Unsupported('scipy.linalg.orth')


def sqrtm(x, **k):
    note('scipy.linalg.sqrtm: the principal square root, a function of the matrix; symmetric for a symmetric argument')
    a = asarray(x)
    if a.ndim != 2:
        raise Unsupported('sqrtm')
    a = a.copy()
    nm = snp._opaque('sqrtm', a)
    d = a.shp[0]
    i, j = T.fresh_index(d), T.fresh_index(d)
    if T.lift(a.at(i, j)) is T.lift(a.at(j, i)):
        T.SYM_EL.add(nm)

    def value(env):
        from .evalt import Undefined
        m = snp._num(env, a)
        w, q = _np.linalg.eigh((m + m.T) / 2)
        if w.min() < 1e-6 * max(w.max(), 1e-300):
            raise Undefined('singular')
        return (q * _np.sqrt(w)) @ q.T
    T.OPAQUE[nm] = value
    snp.CALLS.append(('sqrtm', a, nm))
    return A((d, d), lambda ix: T.el(nm, ix), 'f')


def pinv(x, **k):
    a = asarray(x)
    if a.ndim != 2 or a.shp[0] is not a.shp[1] or a.shp[0].const is None or int(a.shp[0].const) > 3:
        raise Unsupported('pinv')
    if int(a.shp[0].const) == 1:
        c = T.lift(a.at(T.ZERO, T.ZERO))
        note('scipy.linalg.pinv of one number: its inverse, zero for zero')
        return A(a.shp, lambda ix: T.ite(T.eq(c, 0), T.ZERO, T.power(c, -1)), 'f')
    note('scipy.linalg.pinv: the inverse of a non-singular matrix')
    return snp.inv(a)


def add_constant(x, prepend=True, has_constant='skip'):
    note('statsmodels.add_constant: a column of ones in front (precondition: no score is constant)')
    a = asarray(x)
    if not prepend:
        raise Unsupported('add_constant(prepend=False)')
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    return snp.concatenate([snp.ones((R.pyint(dsize(a.shp[0])), 1)), a], axis=1)


class OLS:
    """ordinary least squares: the coefficients are a function of response and design"""

    def __init__(self, endog, exog=None, **k):
        if k or exog is None:
            raise Unsupported('OLS options')
        note('statsmodels.OLS: coefficients are the least squares solution, predictions design times coefficients')
        self.endog, self.exog = asarray(endog).copy(), asarray(exog).copy()

    def fit(self, *a, **k):
        if a or k:
            raise Unsupported('OLS.fit options')
        return self

    @property
    def params(self):
        nm = snp._opaque('ols', self.exog) + snp._opaque('', self.endog)
        ex, en = self.exog, self.endog
        T.OPAQUE[nm] = lambda env: _np.linalg.lstsq(snp._num(env, ex), snp._num(env, en).ravel(), rcond=None)[0]
        return A((self.exog.shp[1],), lambda i: T.el(nm, i), 'f')

    def predict(self, exog=None):
        return R.matmul(self.exog if exog is None else exog, self.params)

    @property
    def fittedvalues(self):
        return self.predict()


def svd_flip(u, v=None, **k):
    raise Unsupported('svd_flip')


def _weighted_mse(y, yp, sample_weight=None, **k):
    note('sklearn.metrics.mean_squared_error: (weighted) mean of squared differences')
    a, b = asarray(y), asarray(yp)
    d = (a - b) ** 2
    if sample_weight is None:
        return d.mean()
    w = asarray(sample_weight)
    return (w * d).sum() / w.sum()


def _dcov(x, y, unbiased):
    """distance covariance of dcor, squared: the average product of (U-)centred Euclidean distances"""
    a, b = asarray(x), asarray(y)
    a = a.reshape(-1, 1) if a.ndim == 1 else a
    b = b.reshape(-1, 1) if b.ndim == 1 else b
    n = dsize(a.shp[0])

    def centred(z):
        D = squareform(pdist(z))
        c = D.mean(axis=0)
        q = T.lift(n) * T.power(n - T.num(2), -1) if unbiased else T.ONE
        g = (T.lift(n) * n * T.power((n - T.ONE) * (n - T.num(2)), -1)) if unbiased else T.ONE
        tot = T.lift(D.mean().at()) * g
        f = lambda i: D.at(i[0], i[1]) - c.at(i[0]) * q - c.at(i[1]) * q + tot
        return A((n, n), (lambda i: T.ite(T.eq(i[0], i[1]), T.ZERO, f(i))) if unbiased else f, 'f')
    m = (centred(a) * centred(b)).mean()
    return m * A((), lambda i: n * T.power(n - T.num(3), -1), 'f') if unbiased else m


def distance_covariance_sqr(x, y, **k):
    if k: raise Unsupported('dcor options')
    note('dcor.distance_covariance_sqr: average of the products of doubly centred Euclidean distances')
    return _dcov(x, y, False)


def u_distance_covariance_sqr(x, y, **k):
    if k: raise Unsupported('dcor options')
    note('dcor.u_distance_covariance_sqr: inner product of U-centred Euclidean distances over n(n-3)')
    return _dcov(x, y, True)


_dcor = Proxy(_real('dcor'), 'dcor', {'distance_covariance_sqr': distance_covariance_sqr, 'u_distance_covariance_sqr': u_distance_covariance_sqr})
_stats = Proxy(_real('scipy.stats'), 'scipy.stats', {'trim_mean': trim_mean, 'norm': norm, 'chi2': chi2})
_dist = Proxy(_real('scipy.spatial.distance'), 'scipy.spatial.distance', {'pdist': pdist, 'squareform': squareform})
_spatial = Proxy(_real('scipy.spatial'), 'scipy.spatial', {'distance': _dist})
_opt = Proxy(_real('scipy.optimize'), 'scipy.optimize', {'minimize': minimize})
_linalg = Proxy(_real('scipy.linalg'), 'scipy.linalg', {'inv': snp.inv, 'orth': orth, 'sqrtm': sqrtm, 'pinv': pinv})
_scipy = Proxy(_real('scipy'), 'scipy', {'stats': _stats, 'spatial': _spatial, 'optimize': _opt, 'linalg': _linalg})
_robust = Proxy(_real('statsmodels.robust'), 'statsmodels.robust', {'mad': mad, 'scale': types.SimpleNamespace(mad=mad)})
_smapi = Proxy(_real('statsmodels.api'), 'statsmodels.api', {'OLS': OLS, 'add_constant': add_constant, 'robust': _robust})
_sm = Proxy(_real('statsmodels'), 'statsmodels', {'robust': _robust, 'api': _smapi})
_metrics = Proxy(_real('sklearn.metrics'), 'sklearn.metrics', {'mean_squared_error': _weighted_mse})
_extmath = Proxy(_real('sklearn.utils.extmath'), 'sklearn.utils.extmath', {'svd_flip': svd_flip})

TABLE = {
    'numpy': snp.np,
    'numpy.linalg': snp.NP['linalg'],
    'scipy': _scipy, 'scipy.stats': _stats, 'scipy.spatial': _spatial, 'scipy.spatial.distance': _dist,
    'scipy.optimize': _opt, 'scipy.linalg': _linalg,
    'statsmodels': _sm, 'statsmodels.api': _smapi, 'statsmodels.robust': _robust, 'statsmodels.robust.scale': types.SimpleNamespace(mad=mad),
    'dcor': _dcor, 'sklearn.metrics': _metrics, 'sklearn.utils.extmath': _extmath,
}
