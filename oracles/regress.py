"""Executable contracts for sparse (robust) PLS, robust M regression, projection pursuit"""
from .base import *
from .preproc import mod, frame, form, rfair, rhuber, rhampel
from .comoments import tmean
import scipy.stats as sps


def cls(name):
    m = {'snipls': 'sprm.snipls', 'rm': 'sprm.rm', 'sprm': 'sprm.sprm', 'ppdire': 'ppdire.ppdire', 'sudire': 'sudire.sudire'}[name]
    return getattr(mod(m), name)


def dicomo():
    return mod('dicomo.dicomo').dicomo


def yform(r, y):
    f = r.pick('vector', 'vector', 'column', 'series', 'frame')
    r.log.append('y ' + f)
    import pandas as pd
    if f == 'column': return y.reshape(-1, 1).copy()
    if f == 'series': return pd.Series(y)
    if f == 'frame': return pd.DataFrame({'y': y})
    return y.copy()


def regdata(r, nlo=15, nhi=35, plo=2, phi=5, **k):
    n, p = r.size(nlo, nhi), r.wide(plo, phi)
    X, y = r.reg(n, p, **k)
    if r.pick(0, 1):
        X = X * np.exp(r.np.uniform(-1.5, 1.5, size=p)) + r.np.uniform(-5, 5, size=p)
        y = y * r.uni(0.5, 3) + r.uni(-20, 20)
    return X, y


def make(r, which=None, X=None):
    """an estimator with random settings"""
    which = which or r.pick('snipls', 'rm', 'sprm', 'ppdire', 'sudire')
    p = X.shape[1]
    if which == 'snipls':
        s = dict(eta=r.pick(0.0, 0.2, 0.5, 0.8), n_components=r.int(1, min(p, 3)), verbose=False, centre=r.pick('mean', 'median', 'l1median'), scale=r.pick('None', 'std', 'mad'), copy=r.pick(True, False))
    elif which == 'rm':
        c, sc = r.pick(('median', 'mad'), ('mean', 'std'), ('l1median', 'mad'), ('median', 'None'), ('mean', 'None'))
        s = dict(fun=r.pick('Hampel', 'Huber', 'Fair'), centre=c, scale=sc, start_cutoff_mode=r.pick('specific', 'x'), verbose=False, copy=r.pick(True, False), maxit=r.pick(100, 5))
    elif which == 'sprm':
        c, sc = r.pick(('median', 'mad'), ('mean', 'std'), ('l1median', 'mad'))
        s = dict(n_components=r.int(1, min(p, 3)), eta=r.pick(0.0, 0.2, 0.5), fun=r.pick('Hampel', 'Huber', 'Fair'), centre=c, scale=sc, verbose=False,
                 start_cutoff_mode=r.pick('specific', 'x'), start_X_init=r.pick('pcapp', 'none'), copy=r.pick(True, False), maxit=r.pick(100, 5))
    elif which == 'ppdire':
        opt = r.pick('SLSQP', 'SLSQP', 'grid')
        s = dict(projection_index=dicomo(), pi_arguments={'mode': r.pick('cov', 'corr', 'continuum')}, n_components=r.int(1, min(p, 3)), optimizer=opt,
                 optimizer_options=r.pick({'maxiter': 10, 'ndir': 20}, {'maxiter': 10, 'ndir': 20}, {'maxiter': 10, 'ndir': 30}, {'maxiter': 3}) if opt == 'grid' else {'maxiter': 500}, regopt=r.pick('OLS', 'OLS', 'robust', 'quantile'),
                 center=r.pick('mean', 'median'), center_data=r.pick(True, True, False), scale_data=r.pick(True, True, False), square_pi=r.pick(True, False),
                 copy=r.pick(True, False), verbose=False)
        if not s['center_data']:
            s['scale_data'] = False
    else:
        s = dict(sudiremeth=r.pick('sir', 'save', 'dr', 'phd', 'iht'), n_components=r.int(1, min(p, 3)), n_slices=r.int(2, 6), center=r.pick('mean', 'median'),
                 center_data=True, scale_data=r.pick(True, True, False), copy=r.pick(True, False), verbose=False)
    return which, s


def build(which, s):
    return cls(which)(**{k: (dict(v) if isinstance(v, dict) else v) for k, v in s.items()})


def fitted(r, which=None, **k):
    X, y = regdata(r, **k)
    which, s = make(r, which, X)
    e = build(which, s)
    r.log.append((which, {k: v for k, v in s.items() if k != 'projection_index'}))
    return X, y, which, s, e


def finite(*xs):
    for x in xs:
        if x is not None and not np.isfinite(np.asarray(x, dtype=float)).all():
            raise Skip()


def degenerate(e):
    """a component that explains nothing but rounding error"""
    q = np.sqrt((np.asarray(e.x_scores_, dtype=float) ** 2).sum(axis=0))
    if q.min() < 1e-7 * q.max():
        raise Skip()


def fit(r, e, which, X, y, forms=True):
    Xf = form(r, X) if forms else X.copy()
    yf = yform(r, y) if forms else y.copy()
    try:
        with quiet():
            e.fit(Xf, yf)
    except np.linalg.LinAlgError:
        raise Skip()
    except ValueError as ex:
        if which == 'ppdire' and 'NaN' in str(ex):
            raise Skip()           # the optimiser of scipy returned an undefined direction
        raise
    return Xf, yf


def settings(s):
    return {k: (v if isinstance(v, (int, float, str, bool, dict)) else str(v)) for k, v in s.items() if k != 'projection_index'}


# ------------------------------------------------------------------ C08
@oracle('C08', 'fitted values, residuals and predictions of all regression estimators', reps=260, thorough=3000, cost=5)
def o_pred(r):
    X, y, which, s, e = fitted(r)
    info = dict(estimator=which, settings=settings(s), X=X, y=y)
    X0 = X.copy()
    must(lambda: fit(r, e, which, X, y), 'fit', **info)
    n, p = X.shape
    if which == 'sudire':
        finite(e.x_loadings_)
        coef = None
    else:
        finite(e.coef_, e.fitted_)
        coef = np.asarray(e.coef_, dtype=float)
        coef = coef[:, -1] if which == 'ppdire' else coef.reshape(-1)
    pred = lambda Z: np.asarray(must(lambda: e.predict(Z), 'predict', **info), dtype=float)
    P = pred(X0.copy())
    expect(P.size == n, 'one prediction per case', **info)
    P = P.reshape(-1)
    if which != 'sudire':
        same(P, np.asarray(e.fitted_).reshape(-1), 'predictions of the training data against the fitted values', atol=1e-8, **info)
        same(np.asarray(e.residuals_).reshape(-1), y - P, 'residuals', atol=1e-8, **info)
        if not (which == 'sprm' and len(e.non_zero_scale_vars_) < p):
            same(P, X0 @ coef + np.asarray(e.intercept_, dtype=float).reshape(-1)[0], 'predictions against coefficients and intercept', atol=1e-8, **info)
    else:
        T = np.column_stack([np.ones(n), X0 @ e.x_loadings_])
        b = np.linalg.lstsq(T, y, rcond=None)[0]
        same(P, T @ b, 'predictions against least squares on the scores', rtol=1e-5, atol=1e-6, **info)
    # row by row, affine, whatever the container
    Z = X0[r.np.randint(0, n, size=r.int(1, 6))] * r.uni(-2, 2) + r.np.randn(p)
    Q = pred(Z).reshape(-1)
    expect(len(Q) == len(Z), 'one prediction per new case', **info)
    k = r.int(0, len(Z) - 1)
    same(pred(Z[k:k + 1]).reshape(-1), Q[k:k + 1], 'prediction of one case alone', atol=1e-8, **info)
    same(pred(frame(Z)).reshape(-1), Q, 'prediction of a data frame', atol=1e-8, **info)
    if which in ('snipls', 'rm', 'sprm'):
        same(pred(Z[k].copy()).reshape(-1), Q[k:k + 1], 'prediction of a vector', atol=1e-8, **info)
    o = r.np.permutation(len(Z))
    same(pred(Z[o]).reshape(-1), Q[o], 'prediction of permuted cases', atol=1e-8, **info)
    Z2 = r.np.randn(len(Z), p)
    t = r.uni(-1, 2)
    same(pred(t * Z + (1 - t) * Z2).reshape(-1), t * Q + (1 - t) * pred(Z2).reshape(-1), 'prediction is affine', rtol=1e-6, atol=1e-7, **info)
    must_raise(lambda: e.predict(np.column_stack([Z, Z[:, :1]])), ValueError, 'prediction of data with one column more', **info)
    if p > 1:
        must_raise(lambda: e.predict(Z[:, :-1]), ValueError, 'prediction of data with one column fewer', **info)
    same(pred(X0.copy()).reshape(-1), P, 'predictions asked for again', atol=1e-10, **info)
    return {'estimator': which, 'n': n, 'p': p}


@oracle('C08', 'prediction with a zero-scale column removed', reps=40)
def o_zero(r):
    X, y = regdata(r, plo=3, phi=5)
    j = r.int(0, X.shape[1] - 1)
    X[:, j] = r.pick(0.0, 2.0)
    e = cls('sprm')(n_components=1, eta=r.pick(0.0, 0.3), verbose=False, fun=r.pick('Hampel', 'Fair'))
    must(lambda: e.fit(X.copy(), y.copy()), 'fit', X=X, y=y)
    finite(e.coef_)
    P = np.asarray(must(lambda: e.predict(X.copy()), 'predict', X=X, y=y)).reshape(-1)
    same(P, np.asarray(e.fitted_).reshape(-1), 'predictions against fitted values', atol=1e-8, X=X, y=y)
    T = must(lambda: e.transform(X.copy()), 'transform', X=X, y=y)
    same(T, e.x_scores_, 'transform of the training data against the scores', atol=1e-8, X=X, y=y)
    Z = X.copy()
    Z[:, j] += r.uni(1, 5)
    same(np.asarray(e.predict(Z)).reshape(-1), P, 'prediction depends on a removed column', atol=1e-8, X=X, y=y)
    return {}


# ------------------------------------------------------------------ C09
def growing(e):
    """snipls retains more variables after the first component (the recorded finding)"""
    W = np.asarray(e.x_weights_)
    nz = [set(np.where(W[:, k] != 0)[0]) for k in range(W.shape[1])]
    return any(not nz[k] <= nz[0] for k in range(1, len(nz)))


@oracle('C09', 'scores of training and new data', reps=260, thorough=3000, cost=5)
def o_trans(r):
    which = r.pick('snipls', 'sprm', 'ppdire', 'sudire')
    X, y, which, s, e = fitted(r, which)
    info = dict(estimator=which, settings=settings(s), X=X, y=y)
    X0 = X.copy()
    must(lambda: fit(r, e, which, X, y), 'fit', **info)
    finite(e.x_scores_)
    n, p = X.shape
    degenerate(e)
    tr = lambda Z: np.asarray(must(lambda: e.transform(Z), 'transform', **info), dtype=float)
    T = tr(X0.copy())
    h = s['n_components']
    expect(T.shape == (n, h), 'shape of the scores %s' % (T.shape,), **info)
    if not (which == 'snipls' and growing(e)):
        S = np.asarray(e.x_scores_, dtype=float)
        same(T, S, 'transform of the training data against the scores', rtol=1e-6, atol=1e-7, **info)
    Z = X0[r.np.randint(0, n, size=r.int(2, 6))] * r.uni(-2, 2) + r.np.randn(p)
    Q = tr(Z)
    k = r.int(0, len(Z) - 1)
    same(tr(Z[k:k + 1]), Q[k:k + 1], 'score of one case alone', atol=1e-8, **info)
    same(tr(frame(Z)), Q, 'scores of a data frame', atol=1e-8, **info)
    o = r.np.permutation(len(Z))
    same(tr(Z[o]), Q[o], 'scores of permuted cases', atol=1e-8, **info)
    Z2 = r.np.randn(len(Z), p)
    t = r.uni(-1, 2)
    same(tr(t * Z + (1 - t) * Z2), t * Q + (1 - t) * tr(Z2), 'scores are affine in the data', rtol=1e-6, atol=1e-7, **info)
    must_raise(lambda: e.transform(np.column_stack([Z, Z[:, :1]])), ValueError, 'transform of data with one column more', **info)
    if p > 1:
        must_raise(lambda: e.transform(Z[:, :-1]), ValueError, 'transform of data with one column fewer', **info)
    return {'estimator': which, 'n': n, 'p': p}


@oracle('C09', 'scores of snipls when the retained set grows', reps=60, known=True)
def o_grow(r):
    X, y = regdata(r, plo=4, phi=6)
    e = cls('snipls')(eta=r.pick(0.5, 0.7), n_components=r.int(2, 3), verbose=False)
    e.fit(X.copy(), y.copy())
    finite(e.x_scores_)
    if not growing(e):
        raise Skip()
    same(e.transform(X.copy()), e.x_scores_, 'transform of the training data against the scores', rtol=1e-6, atol=1e-7, X=X, y=y)


@oracle('C09', 'scores of compressed data in projection pursuit', reps=10, known=True)
def o_compress(r):
    n, p = r.size(8, 12), r.int(14, 20)
    X, y = r.reg(n, p, outliers=0)
    e = cls('ppdire')(projection_index=dicomo(), pi_arguments={'mode': 'cov'}, n_components=1, compression=True, verbose=False, optimizer_options={'maxiter': 100})
    e.fit(X.copy(), y=y.copy())
    finite(e.x_scores_)
    same(e.transform(X.copy()), e.x_scores_, 'transform of the training data against the scores', rtol=1e-6, atol=1e-7, X=X, y=y)


# ------------------------------------------------------------------ C10
def ref_snipls(X, y, eta, h, centre, scale):
    c = {'mean': np.mean, 'median': np.median}[centre]
    sd = {'None': lambda a: np.ones(a.shape[1]), 'std': lambda a: a.std(axis=0), 'mad': lambda a: np.median(np.abs(a - np.median(a, axis=0)), axis=0) / 0.6744897501960817}[scale]
    mX, sX = c(X, axis=0), sd(X)
    Y = y.reshape(-1, 1)
    my, sy = c(Y, axis=0), sd(Y)
    sX1, sy1 = np.where(sX == 0, 1, sX), np.where(sy == 0, 1, sy)
    E0, f = (X - mX) / sX1, (Y - my) / sy1
    E, F = E0.copy(), f.copy()
    keep = np.zeros(X.shape[1], bool)
    W, T = [], []
    for k in range(h):
        w = E.T @ F
        if np.linalg.norm(w) < 1e-8 * np.linalg.norm(E0.T @ f):
            raise Skip()
        w = w / np.linalg.norm(w)
        g = np.abs(w) - eta * np.abs(w).max()
        if np.any(np.abs(g) < 1e-9):
            raise Skip()
        keep |= (g > 0).reshape(-1)
        if np.any(np.abs(w[keep]) < 1e-9):
            raise Skip()
        w = np.where(keep.reshape(-1, 1), g * np.sign(w), 0.0)
        t = E @ w
        E = E - t @ (E.T @ t).T / (t.T @ t)
        F = F - t @ (t.T @ F) / (t.T @ t)
        W.append(w[:, 0]); T.append(t[:, 0])
    W, T = np.array(W).T, np.array(T).T
    return mX, sX, my, sy, E0, f, keep, W, T


@oracle('C10', 'sparse PLS: retained variables, orthogonal scores, least squares on the scores', reps=300, cost=3)
def o_snipls(r):
    X, y = regdata(r, plo=2, phi=6)
    n, p = X.shape
    s = dict(eta=r.pick(0.0, 0.1, 0.3, 0.5, 0.8, 0.9, 0.95, 0.99), n_components=r.int(1, min(p, 4)), verbose=False, centre=r.pick('mean', 'median'), scale=r.pick('None', 'std', 'mad'))
    info = dict(settings=s, X=X, y=y)
    e = cls('snipls')(**s)
    must(lambda: e.fit(form(r, X), yform(r, y)), 'fit', **info)
    finite(e.coef_, e.x_scores_)
    mX, sX, my, sy, E0, f, keep, W, T = ref_snipls(X, y, s['eta'], s['n_components'], s['centre'], s['scale'])
    if np.linalg.cond(T) > 1e6:
        raise Skip()
    same(e.x_weights_, W, 'weights', rtol=1e-5, atol=1e-7, **info)
    same(e.x_scores_, T, 'scores', rtol=1e-5, atol=1e-7, **info)
    G = np.asarray(e.x_scores_).T @ np.asarray(e.x_scores_)
    d = np.sqrt(np.outer(np.diag(G), np.diag(G)))
    expect(np.abs(G - np.diag(np.diag(G))).max() <= 1e-6 * d.max(), 'scores are not orthogonal', **info)
    same(np.sort(np.asarray(e.colret_, dtype=float)), np.where(keep)[0].astype(float), 'retained variables', **info)
    for nm in ('coef_', 'coef_scaled_', 'x_weights_', 'x_Rweights_', 'x_loadings_'):
        v = np.asarray(getattr(e, nm))
        expect(np.all(v[~keep] == 0), '%s has a nonzero entry for an eliminated variable' % nm, **info)
    b = np.asarray(e.coef_scaled_)
    same((E0 @ b).reshape(-1), T @ np.linalg.lstsq(T, f, rcond=None)[0].reshape(-1), 'coefficients against least squares on the scores', rtol=1e-5, atol=1e-6, **info)
    sX1 = np.where(sX == 0, 1, sX)
    if (sX > 0).all() and (sy > 0).all():
        same(np.asarray(e.coef_).reshape(-1), b.reshape(-1) * sy[0] / sX, 'coefficients on the original scale', atol=1e-8, **info)
    yh = X @ np.asarray(e.coef_).reshape(-1)
    same(e.intercept_, (np.mean if s['centre'] == 'mean' else np.median)(y - yh), 'intercept', rtol=1e-6, atol=1e-7, **info)
    ev = ((T ** 2).sum(axis=0) * np.asarray(e.C_).reshape(-1) ** 2) / (f ** 2).sum() * 100
    same(np.asarray(e.y_ev_).reshape(-1), ev, 'explained variance of y', rtol=1e-5, atol=1e-6, **info)
    if s['eta'] == 0 and s['centre'] == 'mean' and s['scale'] == 'None':
        from sklearn.cross_decomposition import PLSRegression
        q = PLSRegression(n_components=s['n_components'], scale=False, tol=1e-12, max_iter=5000).fit(X, y)
        same(np.asarray(e.fitted_).reshape(-1), q.predict(X).reshape(-1), 'without sparsity, against PLS of scikit-learn', rtol=1e-5, atol=1e-5, **info)
    return {'n': n, 'p': p, 'eta': s['eta'], 'h': s['n_components']}


@oracle('C10', 'sparse PLS: column names of the retained variables, invalid settings', reps=100)
def o_cols(r):
    X, y = regdata(r, plo=3, phi=6)
    p = X.shape[1]
    names = ['a%d' % (i * i) for i in range(p)]
    which = r.pick('snipls', 'sprm')
    eta = r.pick(0.3, 0.6)
    kw = dict(eta=eta, n_components=r.int(1, 2), verbose=False)
    if r.pick(0, 1):
        e = cls(which)(columns=True, **kw); D = frame(X, names)
    else:
        e = cls(which)(columns=list(names), **kw); D = X.copy()
    must(lambda: e.fit(D, y.copy()), 'fit with column names', X=X, y=y)
    finite(e.coef_)
    c = np.asarray(e.coef_).reshape(-1)
    kept = set(np.asarray(e.colret_).tolist())
    expect({names[i] for i in range(p) if c[i] != 0} <= kept and kept <= set(names), 'names of the retained variables %s, coefficients %s' % (sorted(kept), c), X=X, y=y)
    if len(kept) < p:
        expect(all(c[i] == 0 for i in range(p) if names[i] not in kept), 'coefficient of a variable not listed as retained', X=X, y=y)
    if which == 'snipls':
        must_raise(lambda: cls('snipls')(eta=r.only(-0.1, 1.0, 1.5)), Exception, 'sparsity parameter outside [0, 1)')
        must_raise(lambda: cls('snipls')(n_components=r.pick(0, -1)), Exception, 'no components')
    else:
        bad = cls("sprm")(eta=r.only(-0.1, 1.0), n_components=1, verbose=False)
        must_raise(lambda: bad.fit(X.copy(), y.copy()), Exception, 'sparsity parameter outside [0, 1)')
        bad = cls('sprm')(n_components=p + 1, verbose=False)
        must_raise(lambda: bad.fit(X.copy(), y.copy()), Exception, 'more components than variables')
        bad = cls('sprm')(n_components=1, fun='Bogus', verbose=False)
        must_raise(lambda: bad.fit(X.copy(), y.copy()), Exception, 'unknown weight function')
    return {'estimator': which}


@oracle(['C10', 'C19'], 'sparse PLS: a response no variable is related to', reps=60)
def o_none(r):
    k, p = r.int(1, 3), r.int(2, 3)
    n = 4 * k
    a, b = np.tile([1.0, 1, -1, -1], k), np.tile([1.0, -1, 1, -1], k)
    X = np.c_[a, b, -a][:, :p] * r.pick(1.0, 2.0, 0.5) + r.pick(0.0, 1.0, -4.0)
    y = a * b * r.pick(1.0, 4.0) + r.pick(0.0, 2.0)
    h, eta = r.int(1, 2), r.pick(0.0, 0.5, 0.9)
    c, s = r.pick('mean', 'median'), r.pick('std', 'None')
    info = dict(X=X, y=y, n_components=h, eta=eta, centre=c, scale=s)
    e = cls('snipls')(eta=eta, n_components=h, centre=c, scale=s, verbose=False)
    with quiet():
        junk = [np.full((q, h), 1e300) for q in (n, p, p, 1, h)]      # memory that has been used before
        del junk
        must(lambda: e.fit(X.copy(), y.copy()), 'fit', **info)
    z = [np.asarray(q, dtype=float) for q in (e.x_weights_, e.x_loadings_, e.x_scores_, e.x_Rweights_, e.coef_scaled_, e.coef_)]
    if np.any(X - X.mean(axis=0)) and not np.any(np.abs((X - X.mean(axis=0)).T @ (y - y.mean())) > 0) and c == 'mean':
        for q, w in zip(z, ('weights', 'loadings', 'scores', 'rotations', 'scaled coefficients', 'coefficients')):
            expect(not np.any(q) and np.isfinite(q).all(), 'no variable is retained and yet there are %s' % w, **info)
        for q, w in ((e.C_, 'inner coefficients'), (e.x_ev_, 'explained variances'), (e.y_ev_, 'explained variances of the response')):
            q = np.asarray(q, dtype=float)
            expect(not np.any(q) and np.isfinite(q).all(), 'no variable is retained and yet there are %s' % w, **info)
        same(np.asarray(e.fitted_).reshape(-1), np.full(n, y.mean()), 'fitted values without retained variables', **info)
        expect(z[3].shape == (p, h), 'shape of the rotations', **info)
    return {'n': n, 'h': h}


# ------------------------------------------------------------------ C07
WF = {'Fair': lambda x, c: rfair(x, c[0]), 'Huber': lambda x, c: rhuber(x, c[0]), 'Hampel': lambda x, c: rhampel(x, *c)}


def scaler(centre, scale):
    VS = mod('preprocessing.robcent').VersatileScaler
    return VS(center=centre, scale=scale)


def ref_rm(X, y, s, P=(0.95, 0.975, 0.999)):
    n, p = X.shape
    vs = scaler(s['centre'], s['scale'])
    Xs = np.asarray(vs.fit_transform(X))
    ys = np.asarray(vs.fit_transform(y.reshape(-1, 1))).reshape(-1)
    cy = tuple(sps.norm.ppf(P))
    cx = tuple(sps.chi2.ppf(P, p)) if s['start_cutoff_mode'] == 'specific' else cy
    d = np.sqrt((Xs ** 2).sum(axis=1))
    wx = WF[s['fun']](d / np.median(d), cx)
    a = np.abs(ys) if (s['centre'], s['scale']) == ('median', 'mad') else np.abs(y - np.median(y)) / (1.4826 * np.median(np.abs(y - np.median(y))))
    we = np.maximum(wx * WF[s['fun']](a, cy), 1e-6)
    old, diff, k = 1e-5, 1, 1
    while diff > s['tol'] and k < s['maxit']:
        q = np.sqrt(we)
        b = np.linalg.lstsq(Xs * q[:, None], ys * q, rcond=None)[0]
        res = np.abs(ys - Xs @ b)
        res = res / (1.4826 * np.median(res))
        wy = WF[s['fun']](res, cy)
        nb = (b ** 2).sum()
        diff = abs(nb - old) / old
        old = nb
        w = wx * wy
        flag = w < 1e-6
        we = np.where(flag, 1e-6, w)
        if flag.sum() >= n / 2:
            break
        k += 1
    return b, np.where(flag, 0, wx), np.where(flag, 0, wy), np.where(flag, 0, w)


@oracle('C07', 'robust M regression: weights and coefficients', reps=250, cost=3)
def o_rm(r):
    X, y = regdata(r, phi=4)
    if r.pick(0, 0, 1):
        X[r.int(0, len(X) - 1)] += r.uni(20, 60)
    c, sc = r.pick(('median', 'mad'), ('mean', 'std'), ('l1median', 'mad'), ('median', 'None'))
    s = dict(fun=r.pick('Hampel', 'Huber', 'Fair'), centre=c, scale=sc, start_cutoff_mode=r.pick('specific', 'x'), maxit=r.pick(100, 100, 2, 5), tol=0.01)
    kw, P = {}, (0.95, 0.975, 0.999)
    if r.pick(0, 1):
        a = r.uni(0.7, 0.93); b = r.uni(a + 0.01, 0.97); P = (a, b, r.uni(b + 0.005, 0.9995))
    kw = dict(probp1=P[0], probp2=P[1], probp3=P[2])
    info = dict(settings={**s, **kw}, X=X, y=y)
    e = cls('rm')(verbose=False, **kw, **s)
    must(lambda: e.fit(form(r, X), yform(r, y)), 'fit', **info)
    finite(e.coef_)
    w, wx, wy = (np.asarray(v, dtype=float).reshape(-1) for v in (e.caseweights_, e.x_caseweights_, e.y_caseweights_))
    weights_ok(w, wx, wy, len(y), info)
    b, rx, ry, rw = ref_rm(X, y, s, P)
    t = dict(rtol=1e-5, atol=1e-6)
    same(np.asarray(e.coef_scaled_).reshape(-1), b, 'coefficients', **t, **info)
    same(wx, rx, 'weights in the predictor space', **t, **info)
    same(wy, ry, 'weights of the residuals', **t, **info)
    same(w, rw, 'case weights', **t, **info)
    for bad in (dict(fun='Tukey'), dict(probp1=0), dict(probp1=1.2), dict(fun='Hampel', probp1=0.9, probp2=0.8), dict(fun='Hampel', probp3=1.1)):
        must_raise(lambda: cls('rm')(verbose=False, **bad).fit(X.copy(), y.copy()), Exception, 'setting %s' % bad)
    return {'n': len(y), **s}


def weights_ok(w, wx, wy, n, info):
    expect(len(w) == len(wx) == len(wy) == n, 'one weight per case', **info)
    for nm, v in (('case', w), ('x', wx), ('y', wy)):
        expect((v >= 0).all() and (v <= 1).all(), '%s weight outside [0, 1]: %s' % (nm, v[(v < 0) | (v > 1)]), **info)
    same(w, wx * wy, 'case weights against the product of x and y weights', atol=1e-10, **info)
    z = w == 0
    expect((wx[z] == 0).all() and (wy[z] == 0).all(), 'a flagged case keeps a nonzero x or y weight', **info)
    expect((w[~z] >= 1e-6).all(), 'a weight below the flagging threshold that is not zero', **info)


def ref_sprm(X, y, s, P):
    """the documented iteration, written independently; the sparse PLS step is the package's own"""
    n, p = X.shape
    vs = scaler(s['centre'], s['scale'])
    Xs = np.asarray(vs.fit_transform(X))
    ys = np.asarray(vs.fit_transform(y.reshape(-1, 1))).reshape(-1)
    h = s['n_components']
    if s['start_X_init'] == 'pcapp':
        U, S, V = np.linalg.svd(Xs)
        m = min(n, p)
        share = S ** 2 / (S ** 2).sum()
        bs = np.array([sum(1.0 / k for k in range(j, m + 1)) / m for j in range(1, m + 1)])
        rc = max(np.where(share - bs <= 0)[0][0], 1)
        D = np.asarray(vs.fit_transform(U[:, :rc]))
    else:
        D, rc = Xs, p
    cy = tuple(sps.norm.ppf(P))
    cx = tuple(sps.chi2.ppf(P, rc)) if s['start_cutoff_mode'] == 'specific' else cy
    d = np.sqrt((D ** 2).sum(axis=1))
    wx = WF[s['fun']](d / np.median(d), cx)
    if (s['centre'], s['scale']) == ('median', 'mad'):
        a = np.abs(ys)
    else:
        a = (y - np.median(y)) / (1.4826 * np.median(np.abs(y - np.median(y))))
    we = np.maximum(wx * WF[s['fun']](a, cy), 1e-6)
    old, diff, k = 1e-5, 1, 1
    flag = None
    while diff > s['tol'] and k < s['maxit']:
        q = np.sqrt(we)[:, None]
        f = cls('snipls')(s['eta'], h, False, False, 'mean', 'None', True).fit(Xs * q, ys * q[:, 0])
        T = np.asarray(f.x_scores_) / q
        res = np.abs(ys - f.fitted_)
        res = res / (1.4826 * np.median(res))
        vt = scaler(s['centre'], 'mad' if s['scale'] == 'None' else s['scale'])
        dt = np.sqrt((np.asarray(vt.fit_transform(T)) ** 2).sum(axis=1))
        ct = tuple(sps.chi2.ppf(P, h)) if s['fun'] == 'Hampel' else cx
        wt = WF[s['fun']](dt / np.median(dt), ct)
        wy = WF[s['fun']](res, cy)
        nb = (np.asarray(f.coef_) ** 2).sum()
        diff = abs(nb - old) / old
        if abs(diff - s['tol']) < 1e-7 or k > 15:
            raise Skip()           # the stopping rule is undecided, or the iteration does not settle
        old = nb
        w = wt * wy
        flag = w < 1e-6
        we = np.where(flag, 1e-6, w)
        if flag.sum() >= n / 2:
            break
        k += 1
    return f, np.where(flag, 0, wt), np.where(flag, 0, wy), np.where(flag, 0, w), ct


@oracle('C07', 'sparse partial robust M regression: weights, coefficients, weights of new cases', reps=160, cost=4)
def o_sprm(r):
    X, y = regdata(r, plo=3, phi=5)
    if r.pick(0, 0, 1):
        X[r.int(0, len(X) - 1)] += r.uni(20, 60)
    c, sc = r.pick(('median', 'mad'), ('mean', 'std'), ('l1median', 'mad'))
    fun = r.pick('Hampel', 'Huber', 'Fair')
    s = dict(fun=fun, centre=c, scale=sc, start_cutoff_mode=r.pick('specific', 'x'), start_X_init=r.pick('pcapp', 'none'), maxit=r.pick(100, 100, 3), tol=0.01,
             n_components=r.int(1, 2), eta=r.pick(0.0, 0.3, 0.6))
    P = (0.95, 0.975, 0.999)
    kw = {}
    if r.pick(0, 1):
        a = r.uni(0.7, 0.93); b = r.uni(a + 0.01, 0.97); P = (a, b, r.uni(b + 0.005, 0.9995))
        kw = dict(probp1=P[0], probp2=P[1], probp3=P[2])
    info = dict(settings={**s, **kw}, X=X, y=y)
    e = cls('sprm')(verbose=False, **kw, **s)
    must(lambda: e.fit(form(r, X), yform(r, y)), 'fit', **info)
    finite(e.coef_)
    w, wx, wy = (np.asarray(v, dtype=float).reshape(-1) for v in (e.caseweights_, e.x_caseweights_, e.y_caseweights_))
    weights_ok(w, wx, wy, len(y), info)
    signed = fun == 'Fair' or (c, sc) == ('median', 'mad')
    t = dict(rtol=1e-5, atol=1e-6)
    f, rx, ry, rw, ct = ref_sprm(X, y, s, P)
    same(np.asarray(e.coef_scaled_).reshape(-1), np.asarray(f.coef_).reshape(-1), 'coefficients', **t, **info)
    same(wx, rx, 'weights in the score space', **t, **info)
    same(wy, ry, 'weights of the residuals', **t, **info)
    same(w, rw, 'case weights', **t, **info)
    Z = X[r.np.randint(0, len(X), size=r.int(5, 12))] + 0.3 * r.np.randn(1, X.shape[1])
    Z = Z + 0.1 * r.np.randn(*Z.shape)
    if r.pick(0, 1):
        Z[0] += 30
    T = e.transform(Z)
    d = np.sqrt((np.asarray(scaler(c, sc).fit_transform(T)) ** 2).sum(axis=1))
    ref = WF[fun](d / np.median(d), ct)
    got = np.asarray(must(lambda: e.weightnewx(form(r, Z, ('array', 'frame'))), 'weights of new cases', **info)).reshape(-1)
    if np.isfinite(ref).all():
        same(got, ref, 'weights of new cases', **t, **info)
        expect((got >= 0).all() and (got <= 1).all(), 'weight of a new case outside [0, 1]', **info)
        same(np.asarray(e.weightnewx(Z)).reshape(-1), got, 'weights of new cases, asked again', **info)
    must_raise(lambda: e.weightnewx(Z[:, :-1]), ValueError, 'new cases with a column missing')
    return {'n': len(y), **s}


@oracle('C07', 'gross outliers are flagged', reps=60)
def o_flag(r):
    n, p = r.size(25, 40), r.int(2, 4)
    X, y = r.reg(n, p, noise=0.3, outliers=0)
    k = r.int(0, n - 1)
    y = y + X[:, 0] * 2
    y1 = y.copy()
    y1[k] += r.pick(-1, 1) * r.uni(500, 5000)
    which = r.pick('rm', 'sprm')
    kw = dict(n_components=p, eta=0.0) if which == 'sprm' else {}
    fun = r.pick('Hampel', 'Huber', 'Fair')
    e = cls(which)(fun=fun, verbose=False, **kw)
    e.fit(X.copy(), y1.copy())
    w = np.asarray(e.caseweights_, dtype=float).reshape(-1)
    expect(w[k] < 0.05 and w[k] <= np.median(w), '%s, %s: weight %.4f of a case shifted by thousands of residual scales' % (which, fun, w[k]), X=X, y=y1, case=k)
    if fun == 'Hampel':
        expect(w[k] == 0, '%s: a case shifted by thousands of residual scales is not flagged' % which, X=X, y=y1, case=k)
    return {}


# ------------------------------------------------------------------ C11
@oracle('C11', 'projection pursuit: orthogonal scores, unit weights, rotations, regression on the scores', reps=160, thorough=1500, cost=6)
def o_pp(r):
    X, y, which, s, e = fitted(r, 'ppdire', plo=2, phi=4)
    s['regopt'] = r.pick('OLS', 'OLS', 'OLS', 'quantile')
    one = r.pick(0, 0, 1)
    if one:
        s['pi_arguments'] = {'mode': 'var'}
        s['optimizer'] = 'SLSQP'
        s['optimizer_options'] = {'maxiter': 300}
    e = build('ppdire', s)
    info = dict(settings=settings(s), X=X, y=y)
    n, p = X.shape
    try:
        with quiet():
            e.fit(X.copy()) if one else e.fit(X.copy(), y=y.copy())
    except np.linalg.LinAlgError:
        raise Skip()
    except ValueError as ex:
        if 'NaN' in str(ex):
            raise Skip()          # no direction from the optimiser, or one in which nothing varies
        raise
    finite(e.x_scores_, e.x_weights_)
    T, W, P, R = (np.asarray(getattr(e, a), dtype=float) for a in ('x_scores_', 'x_weights_', 'x_loadings_', 'x_rotations_'))
    cen = {'mean': np.mean, 'median': np.median}[s['center']](X, axis=0) if s['center_data'] else np.zeros(p)
    if s['center_data'] and s['scale_data']:
        sca = X.std(axis=0) if s['center'] == 'mean' else np.median(np.abs(X - np.median(X, axis=0)), axis=0) / 0.6744897501960817
    else:
        sca = np.ones(p)
    if (sca < 1e-8).any():
        raise Skip()
    same(np.asarray(e.x_loc_, dtype=float).reshape(-1), cen, 'location', **info)
    same(np.asarray(e.x_sca_, dtype=float).reshape(-1), sca, 'scale', **info)
    Xs = (X - cen) / sca
    nt2 = (T ** 2).sum(axis=0)
    if nt2.min() < 1e-8 * max(1, nt2.max()):
        raise Skip()
    G = T.T @ T
    expect(np.abs(G - np.diag(nt2)).max() <= 1e-6 * nt2.max(), 'scores are not orthogonal: %s' % G, **info)
    if s['optimizer'] != 'grid' or p == 2:
        same(np.sqrt((W ** 2).sum(axis=0)), np.ones(W.shape[1]), 'norm of the weights', rtol=1e-6, **info)
    same(T, Xs @ R, 'scores against data times rotations', rtol=1e-5, atol=1e-6, **info)
    same(P, Xs.T @ T / nt2, 'loadings', rtol=1e-5, atol=1e-6, **info)
    same(T[:, 0], Xs @ W[:, 0], 'first score', rtol=1e-6, atol=1e-8, **info)
    E = Xs - T @ P.T
    same(np.abs(E.T @ T).max() / max(1, np.abs(Xs).max() * np.sqrt(nt2.max())), 0.0, 'deflated data are orthogonal to the scores', atol=1e-6, **info)
    if not one:
        ols = s['regopt'] == 'OLS'
        ys = y.reshape(-1, 1)
        if s['center_data']:
            my = np.mean(y) if s['center'] == 'mean' else np.median(y)
            sy = 1.0
            if s['scale_data']:
                sy = y.std() if s['center'] == 'mean' else np.median(np.abs(y - np.median(y))) / 0.6744897501960817
            ys = (ys - my) / (sy or 1.0)
        else:
            sy = 1.0
        if ols:
            C = (T.T @ ys).reshape(-1) / nt2
        else:
            from statsmodels.regression.quantile_regression import QuantReg
            if (nt2 < 1e-6).any() or np.abs(ys).max() < 1e-8:
                raise Skip()
            with quiet():
                C = np.array([np.asarray(QuantReg(ys, T[:, k].reshape(-1, 1)).fit(q=0.5).params).reshape(-1)[0] for k in range(T.shape[1])])
        same(np.asarray(e.y_loadings_).reshape(-1), C, 'regression on the scores', rtol=1e-5 if ols else 1e-3, atol=1e-6 if ols else 1e-3, **info)
        C = np.asarray(e.y_loadings_).reshape(-1)
        b = np.linalg.lstsq(T, ys, rcond=None)[0].reshape(-1)
        B = np.asarray(e.coef_scaled_)[:, -1]
        if ols: same(Xs @ B, T @ b, 'coefficients against least squares on the scores', rtol=1e-4, atol=1e-5, **info)
        same(np.asarray(e.coef_)[:, -1], B * sy / sca, 'coefficients on the original scale', rtol=1e-6, atol=1e-8, **info)
        yh = X @ np.asarray(e.coef_)[:, -1]
        same(float(np.asarray(e.intercept_).reshape(-1)[0]), (np.mean if s['center'] == 'mean' else np.median)(y - yh), 'intercept', rtol=1e-6, atol=1e-7, **info)
        for k in range(T.shape[1]):
            same(Xs @ np.asarray(e.coef_scaled_)[:, k], T[:, :k + 1] @ C[:k + 1], 'coefficients with fewer components', rtol=1e-4, atol=1e-5, **info)
    return {'n': n, 'p': p, 'optimizer': s['optimizer']}


@oracle('C11', 'projection pursuit on whitened data', reps=3, known=True)
def o_white(r):
    X, y = regdata(r, plo=2, phi=3)
    e = cls('ppdire')(projection_index=dicomo(), pi_arguments={'mode': 'kurt'}, n_components=1, whiten_data=True, verbose=False)
    must(lambda: e.fit(X.copy()), 'fit with whitening', X=X)


# ------------------------------------------------------------------ C12
class Index:
    """a projection index with a known value, recording what it is asked"""

    def __init__(self, f):
        self.f = f

    def fit(self, x, **k):
        return self.f(np.asarray(x, dtype=float).reshape(-1), k)


@oracle('C12', 'grid search in a plane: the direction returned maximises the index over the grid', reps=300)
def o_grid(r):
    u = mod('ppdire._ppdire_utils')
    n = r.size(5, 15)
    X = r.data(n, 2, r.pick('normal', 'outliers', 'ties'))
    X0 = X.copy()
    c = r.np.randn(n)
    nd = r.int(3, 60)
    sq = r.pick(True, False)
    f = r.pick(lambda x, k: float(np.var(x)), lambda x, k: float(c @ x), lambda x, k: float(np.median(np.abs(x)) - 0.3 * np.var(x)), lambda x, k: -float(np.abs(x).max()))
    g = (lambda x, k: f(x, k) ** 2) if sq else f
    args = {'alpha': 1, 'trimming': 0, 'biascorr': False, 'dmetric': 'euclidean', 'ndir': nd, 'optrange': (-1, 1), 'optmax': 1, 'square_pi': sq,
            '_stop0c': 0.0, '_stop1c': np.pi, '_stop0s': -np.pi / 2, '_stop1s': np.pi / 2}
    th = np.linspace(0, np.pi, nd, endpoint=False)
    A = np.array([np.cos(th), np.sin(th)])
    vals = np.array([g(X @ A[:, i], {}) for i in range(nd)])
    info = dict(X=X0, ndir=nd, square=sq)
    w, m = must(lambda: u.gridplane(X, Index(f), {**args, 'alphamat': (A,)}), 'grid search', **info)
    same(m, vals.max(), 'value found by the grid search', **info)
    w = np.asarray(w)
    expect(w.shape == (2, 1), 'shape of the direction', **info)
    same(np.linalg.norm(w), 1.0, 'norm of the direction', **info)
    same(g(X @ w[:, 0], {}), m, 'index at the direction returned', rtol=1e-6, **info)
    k = int(np.argmin(np.abs(A - w).sum(axis=0)))
    same(w[:, 0], A[:, k], 'the direction is one of the grid', **info)
    # refinement
    q = np.array([r.uni(-0.9, 0.9)])
    th = np.linspace(-np.pi / 2, np.pi / 2, nd, endpoint=True)
    A2 = np.array([np.cos(th), np.sin(th)])
    D = np.sqrt(1 + 2 * A2[0] * A2[1] * q[0])
    if (D < 1e-6).any():
        raise Skip()
    A3 = A2 / D
    vals = np.array([g(X @ A3[:, i], {}) for i in range(nd)])
    w, m = must(lambda: u.gridplane_2(X, Index(f), q, 4, {**args, 'alphamat': A2}), 'refinement', **info)
    w = np.asarray(w)
    same(m, vals.max(), 'value found by the refinement', **info)
    same(g(X @ w[:, 0], {}), m, 'index at the refined direction', rtol=1e-6, **info)
    expect(np.abs(A3 - w).sum(axis=0).min() < 1e-9, 'the refined direction is one of the grid', **info)
    # objective handed to the numerical optimisers
    p = r.int(1, 4)
    Z = r.np.randn(n, p)
    v = r.np.randn(p)
    o = {'alpha': 2.5, 'y': c}
    seen = []

    def rec(x, k):
        seen.append(k)
        return float(np.var(x)) + 1.5
    same(u.pp_objective(v, Index(rec), Z, o), -(np.var(Z @ v) + 1.5), 'objective of the optimisers', Z=Z, v=v)
    expect(seen and seen[0].get('alpha') == 2.5 and seen[0].get('y') is c, 'arguments of the projection index', **info)
    expect(np.array_equal(X, X0), 'the data were modified', **info)
    return {'n': n, 'ndir': nd}


@oracle('C12', 'projection pursuit attains the index it reports', reps=80, cost=5)
def o_attain(r):
    X, y = regdata(r, plo=2, phi=3, outliers=0)
    n, p = X.shape
    opt = r.pick('grid', 'SLSQP')
    mode = r.pick('var', 'cov', 'cov')
    sq = r.pick(True, False)
    nd = r.int(20, 80)
    if opt == 'SLSQP':
        sq = False
    e = cls('ppdire')(projection_index=dicomo(), pi_arguments={'mode': mode}, n_components=1, optimizer=opt,
                      optimizer_options={'maxiter': 20, 'ndir': nd} if opt == 'grid' else {'maxiter': 1000}, square_pi=sq, verbose=False)
    info = dict(X=X, y=y, optimizer=opt, mode=mode, square=sq)
    kw = {} if mode == 'var' else {'y': y.copy()}
    try:
        with quiet():
            e.fit(X.copy(), **kw)
    except ValueError as ex:
        if opt == 'SLSQP' and 'NaN' in str(ex):
            raise Skip()           # the optimiser of scipy returned an undefined direction
        raise Fail('fit: raised %s' % ex, **info)
    finite(e.x_weights_)
    Xs = (X - X.mean(axis=0)) / X.std(axis=0)
    ys = (y - y.mean()) / y.std()
    w = np.asarray(e.x_weights_)[:, 0]
    val = lambda v: (np.var(Xs @ v) if mode == 'var' else float(ys @ (Xs @ v)) / n)
    g = (lambda v: val(v) ** 2) if sq else val
    m = float(np.asarray(e.Maxobjf_).reshape(-1)[0])
    same(m, g(w), 'criterion reported against criterion at the weights', rtol=1e-5, atol=1e-7, **info)
    best = np.linalg.eigvalsh(Xs.T @ Xs / n)[-1] if mode == 'var' else np.linalg.norm(Xs.T @ ys / n)
    if sq:
        best = best ** 2
    if opt == 'grid':
        if p == 2:
            th = np.linspace(0, np.pi, nd, endpoint=False)
            top = max(g(np.array([np.cos(t), np.sin(t)])) for t in th)
            same(m, top, 'criterion against the best of the grid', rtol=1e-6, atol=1e-9, **info)
    else:
        if mode == 'cov':          # a linear index: every local optimum is global
            expect(m >= best * (1 - 1e-3) - 1e-6, 'criterion %.6g, the optimum is %.6g' % (m, best), **info)
    return {'optimizer': opt, 'mode': mode}
