"""Executable contracts for preprocessing, weight functions, small utilities"""
from .base import *
import importlib


def mod(name):
    return importlib.import_module('direpack.' + name)


def U():
    return mod('preprocessing._preproc_utilities')


def RC():
    return mod('preprocessing.robcent')


def frame(X, cols=None):
    import pandas as pd
    return pd.DataFrame(X, columns=cols or ['v%d' % (X.shape[1] - i) for i in range(X.shape[1])])


def form(r, X, allow=('array', 'array', 'frame', 'fortran')):
    """the same data in another container"""
    f = r.pick(*allow)
    r.log.append(f)
    if f == 'frame':
        return frame(X)
    if f == 'matrix':
        return np.matrix(X)
    if f == 'fortran':
        return np.asfortranarray(X)
    return X.copy()


# ------------------------------------------------------------------ C01
def ref_est(name, X, t):
    n = X.shape[0]
    cut = int(t * n)
    if name == 'mean':
        return np.sort(X, axis=0)[cut:n - cut].mean(axis=0)
    if name == 'median':
        return np.median(X, axis=0)
    if name == 'std':
        if t == 0:
            return X.std(axis=0)
        m = np.sort(X, axis=0)[cut:n - cut].mean(axis=0)
        return np.sqrt(np.sort((X - m) ** 2, axis=0)[cut:n - cut].mean(axis=0))
    if name == 'mad':
        return np.median(np.abs(X - np.median(X, axis=0)), axis=0) / 0.6744897501960817
    return None


@oracle('C01', 'scaler: training and new data, inverse, stored estimates', reps=350)
def o_scaler(r):
    n, p = r.size(3, 14), r.wide(1, 4)
    X = r.data(n, p)
    if r.pick(0, 0, 1):
        X[:, r.int(0, p - 1)] = r.only(0.0, 3.5, -2.0)
    Y = r.data(r.int(2, 9), p)
    c = r.pick('mean', 'median', 'None', 'l1median', 'kstepLTS', lambda x, **k: np.percentile(x, 30, axis=0))
    s = r.pick('std', 'mad', 'None', lambda x, **k: np.ptp(x, axis=0))
    t = r.pick(0, 0, 0, 0.1, 0.25, 0.4)
    X0, Y0 = X.copy(), Y.copy()
    VS = RC().VersatileScaler
    vs = VS(center=c, scale=s, trimming=t)
    Xf = form(r, X)
    info = dict(X=X0, Y=Y0, center=str(c), scale=str(s), trimming=t)
    Z = must(lambda: vs.fit_transform(Xf), 'fit_transform', **info)
    cen = np.asarray(vs.center_, dtype=float).reshape(-1)
    sca = np.asarray(vs.scale_, dtype=float).reshape(-1)
    rc = np.zeros(p) if c == 'None' else ref_est(c, X0, t) if isinstance(c, str) else c(X0)
    rs = np.ones(p) if s == 'None' else ref_est(s, X0, t) if isinstance(s, str) else s(X0)
    if rc is not None:
        same(cen, rc, 'stored centre', **info)
    elif c in ('l1median', 'kstepLTS'):
        same(cen, np.asarray(getattr(U(), c)(X0)).reshape(-1), 'stored centre', **info)
    same(sca, rs, 'stored scale', atol=1e-8, **info)
    safe = np.where(sca == 0, 1.0, sca)
    same(Z, (X0 - cen) / safe, 'scaled training data', **info)
    for nm in ('transform', 'predict'):
        W = must(lambda: getattr(vs, nm)(form(r, Y)), nm, **info)
        same(W, (Y0 - cen) / safe, nm + ' of new data', **info)
    same(np.asarray(vs.center_).reshape(-1), cen, 'centre after transforming new data', **info)
    same(np.asarray(vs.scale_).reshape(-1), sca, 'scale after transforming new data', **info)
    W = (Y0 - cen) / safe
    same(must(lambda: vs.inverse_transform(W), 'inverse_transform', **info), Y0, 'inverse_transform', atol=1e-8, **info)
    same(must(lambda: vs.transform(X), 'transform', **info), Z, 'transform of the training data', **info)
    same(must(lambda: vs.inverse_transform(), 'inverse_transform', **info), X0, 'inverse_transform of the stored data', atol=1e-8, **info)
    if isinstance(c, str) and isinstance(s, str):
        same(must(lambda: RC().versatile_scale(X, center=c, scale=s, trimming=t), 'versatile_scale', **info), Z, 'versatile_scale', **info)
    expect(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'the data were modified', **info)
    return {'n': n, 'p': p, 'center': str(c), 'scale': str(s), 'trimming': t}


@oracle('C01', 'scale_data on vectors, matrices and single columns', reps=300)
def o_scale_data(r):
    n, p = r.size(1, 10), r.wide(1, 4)
    X = r.data(n, p)
    m, s = r.np.randn(p), np.abs(r.np.randn(p))
    if r.pick(0, 1):
        s[r.int(0, p - 1)] = 0.0
    X0, m0, s0 = X.copy(), m.copy(), s.copy()
    sf = np.where(s0 == 0, 1.0, s0)
    f = U().scale_data
    same(f(X, m, s), (X0 - m0) / sf, 'scale_data', X=X0, m=m0, s=s0)
    expect(np.array_equal(X, X0) and np.array_equal(m, m0), 'the data were modified', X=X0)
    x = X0[:, 0].copy()
    same(f(x, m0[:1].copy(), s0[:1].copy()), (x - m0[0]) / sf[0], 'scale_data of a vector', x=x, m=m0[:1], s=s0[:1])
    same(f(x, m0[0], s0[0]), (x - m0[0]) / sf[0], 'scale_data of a vector', x=x, m=m0[0], s=s0[0])
    t = r.uni(-1, 2)
    vs = RC().VersatileScaler(trimming=t)
    if n > 1:
        if t < 0 or t > 0.99:
            must_raise(lambda: vs.fit(X0), Exception, 'trimming fraction %.3f' % t)
    return {'n': n, 'p': p}


# ------------------------------------------------------------------ C02
@oracle('C02', 'column-wise estimators against their definitions', reps=600)
def o_est(r):
    n, p = r.size(2, 12), r.wide(1, 4)
    X = r.data(n, p)
    if r.pick(0, 0, 1):
        X = X.copy()
        X[r.np.rand(n, p) < 0.25] = np.nan
        X[r.int(0, n - 1)] = r.data(1, p, 'normal')
    X0 = X.copy()
    m = U()
    with quiet():
        same(np.asarray(m.mean(X)).reshape(-1), np.nanmean(X, axis=0), 'mean', X=X0)
        same(m.median(X), np.nanmedian(X, axis=0), 'median', X=X0)
        same(m.std(X), np.sqrt(np.nanmean((X - np.nanmean(X, axis=0)) ** 2, axis=0)), 'std', X=X0, atol=1e-8)
        same(m.mad(X), np.nanmedian(np.abs(X - np.nanmedian(X, axis=0)), axis=0) / 0.6744897501960817, 'mad', X=X0)
        if not np.isnan(X).any():
            t = r.uni(0.01, 0.45)
            cut = int(t * n)
            S = np.sort(X, axis=0)[cut:n - cut]
            tm = S.mean(axis=0)
            same(m.mean(X, trimming=t), tm, 'trimmed mean', X=X0, trimming=t)
            Q = np.sort((X - tm) ** 2, axis=0)[cut:n - cut]
            same(m.std(X, trimming=t), np.sqrt(Q.mean(axis=0)), 'trimmed std', X=X0, trimming=t, atol=1e-8)
            # equivariance: shift and positive scale
            a, b = r.uni(0.1, 5), r.uni(-10, 10)
            for nm in ('mean', 'median'):
                same(getattr(m, nm)(a * X + b), a * np.asarray(getattr(m, nm)(X)) + b, nm + ' of a*X+b', atol=1e-8, X=X0, mult=a, add=b)
            for nm in ('std', 'mad'):
                same(getattr(m, nm)(a * X + b), a * np.asarray(getattr(m, nm)(X)), nm + ' of a*X+b', atol=1e-6, X=X0, mult=a, add=b)
    expect(np.array_equal(X, X0, equal_nan=True), 'the data were modified', X=X0)
    return {'n': n, 'p': p}


def tau_def(X, pooled=False):
    """tau scale of each column; pooled: the sums run over all columns, as scaleTau2 takes them"""
    from scipy.stats import norm
    b = 3 * norm.ppf(0.75)
    es2 = 2 * ((1 - b ** 2) * norm.cdf(b) - b * norm.pdf(b) + b ** 2) - 1
    n, p = X.shape
    if not pooled and p > 1:
        return np.array([tau_def(X[:, [j]])[0] for j in range(p)])
    md = np.median(X, axis=0)
    s0 = np.median(np.abs(X - md), axis=0)
    u = 1 - ((X - md) / (4.5 * s0)) ** 2
    w = np.maximum(u, 0) ** 2
    mu = (X * w).sum() / w.sum()
    rho = ((X - mu) / s0) ** 2
    rho[(rho > 9).any(axis=1)] = 9
    return s0 * np.sqrt(rho.sum() / (n * es2))


def tau_data(r, lo):
    while True:
        X = r.data(r.size(4, 20), lo, r.pick('normal', 'outliers', 'shifted'))
        if (np.median(np.abs(X - np.median(X, axis=0)), axis=0) > 1e-3).all():
            return X


@oracle('C02', 'tau scale of a single column against its definition; data untouched', reps=200)
def o_tau(r):
    p = r.pick(1, 1, 2, 3)
    X = tau_data(r, p)
    X0 = X.copy()
    with quiet():
        s = np.asarray(U().scaleTau2(X)).reshape(-1)
        expect(s.shape == (p,), 'one scale per column expected', X=X0)
        if p == 1 or not np.allclose(s, tau_def(X0, True), rtol=1e-7):
            same(s, tau_def(X0), 'tau scale', X=X0, atol=1e-8)
    expect(np.array_equal(X, X0), 'the data were modified', X=X0)
    return {'p': p}


@oracle('C02', 'tau scale of several columns', reps=3, known=True)
def o_tau_cols(r):
    X = tau_data(r, r.pick(2, 3))
    with quiet():
        same(np.asarray(U().scaleTau2(X)).reshape(-1), tau_def(X), 'tau scale of each column', X=X, atol=1e-8)


# ------------------------------------------------------------------ C03
def l1obj(a, X):
    return np.sqrt(((X - a) ** 2).sum(axis=1)).sum()


def weiszfeld(X, it=400):
    m = np.median(X, axis=0)
    best = m
    for _ in range(it):
        d = np.maximum(np.sqrt(((X - m) ** 2).sum(axis=1)), 1e-12)
        m = (X / d[:, None]).sum(axis=0) / (1 / d).sum()
        if l1obj(m, X) < l1obj(best, X):
            best = m
    return best


@oracle('C03', 'spatial median: objective, gradient, optimality', reps=300)
def o_l1(r):
    n, p = r.size(4, 20), r.wide(2, 4)
    X = r.data(n, p, r.pick('normal', 'outliers', 'ties', 'shifted'))
    X0 = X.copy()
    m = U()
    a = r.np.randn(p)
    if r.pick(0, 1):
        a = X[r.int(0, n - 1)].copy()
    same(m._l1m_objective(a, X), l1obj(a, X), 'objective', X=X0, at=a)
    d = np.sqrt(((X - a) ** 2).sum(axis=1))
    d[d == 0] = 1
    same(m._l1m_jacobian(a, X), -((X - a) / d[:, None]).sum(axis=0), 'gradient', X=X0, at=a)
    c = np.asarray(m.l1median(X)).reshape(-1)
    w = weiszfeld(X)
    expect(l1obj(c, X) <= l1obj(w, X) * (1 + 1e-4) + 1e-8, 'l1median is not the minimiser: objective %.8g at %s, %.8g at %s' % (l1obj(c, X), c, l1obj(w, X), w), X=X0)
    expect(np.array_equal(X, X0), 'the data were modified', X=X0)
    x1 = X[:, :1]
    same(m.l1median(x1), np.median(x1, axis=0), 'l1median of one column', X=x1)
    return {'n': n, 'p': p}


def l1obs(a, X):
    return np.sqrt(np.nansum((X - a) ** 2, axis=1)).sum()


@oracle('C03', 'spatial median of incomplete data: distances over the observed values', reps=200)
def o_l1miss(r):
    n, p = r.size(5, 20), r.wide(2, 4)
    X = r.data(n, p, r.pick('normal', 'outliers', 'shifted'))
    for _ in range(r.int(1, max(1, n // 2))):
        X[r.int(0, n - 1), r.int(0, p - 1)] = np.nan
    if np.isnan(X).all(axis=0).any() or np.isnan(X).all(axis=1).any():
        raise Skip()
    X0 = X.copy()
    m = U()
    a = r.np.randn(p)
    same(m._l1m_objective(a, X), l1obs(a, X), 'objective', X=X0, at=a)
    d = np.sqrt(np.nansum((X - a) ** 2, axis=1))
    d[d == 0] = 1
    same(m._l1m_jacobian(a, X), -np.nansum((X - a) / d[:, None], axis=0), 'gradient', X=X0, at=a)
    expect(np.array_equal(X, X0, equal_nan=True), 'the data were modified', X=X0)
    return {'n': n, 'p': p}


@oracle('C03', 'k-step LTS location: concentration steps from the spatial median', reps=300)
def o_lts(r):
    n, p = r.size(4, 20), r.wide(2, 4)
    X = r.data(n, p, r.pick('normal', 'outliers', 'ties', 'shifted'))
    X0 = X.copy()
    m = U()
    kw = {}
    if r.pick(0, 1):
        kw['maxit'] = r.int(1, 8)
    mu = np.asarray(m.l1median(X)).reshape(-1)
    got = np.asarray(m.kstepLTS(X, **kw))
    ties = False
    for _ in range(kw.get('maxit', 5)):
        d = ((X - mu) ** 2).sum(axis=1)
        h = (n + 1) // 2
        s = np.sort(d)
        if h < n and abs(s[h] - s[h - 1]) < 1e-9 * (1 + s[h]):
            ties = True
        nm = X[d <= s[h - 1]].mean(axis=0)
        stop = np.max(np.abs(nm - mu)) <= 1e-10
        mu = nm
        if stop:
            break
    if ties:
        raise Skip()
    same(got, mu, 'k-step LTS', X=X0, **kw)
    expect(np.array_equal(X, X0), 'the data were modified', X=X0)
    return {'n': n, 'p': p}


# ------------------------------------------------------------------ C04
def radial(name, d, p, n):
    d = d.reshape(-1)
    h = int(np.floor((n + p + 1) / 2)) - 1
    dh = np.sort(d)[h]
    w = d ** (2 / 3)
    wm = np.sort(w)[h]
    wa = np.sort(np.abs(w - wm))[h]
    if name == 'ss':
        return 1 / np.maximum(d, 1e-10)
    xi = np.ones(n)
    if name == 'quad':
        xi[d > dh] = dh ** 2 / d[d > dh] ** 2
    elif name == 'winsor':
        xi[d > dh] = dh / d[d > dh]
    elif name == 'ball':
        xi[d > dh] = 0
    elif name == 'shell':
        lo, hi = max(0, wm - wa) ** 1.5, (wm + wa) ** 1.5
        xi[(d < lo) | (d > hi)] = 0
    elif name == 'linear_redescending':
        cu = (wm + 1.4826 * wa) ** 1.5
        mid = (d > dh) & (d <= cu)
        xi[mid] = 1 - (d[mid] - dh) / (cu - dh)
        xi[d > cu] = 0
    return xi


FUNS = ['quad', 'ss', 'winsor', 'ball', 'shell', 'linear_redescending']


def near_cut(name, d, p, n):
    """a distance so close to a cutoff that rounding decides"""
    h = int(np.floor((n + p + 1) / 2)) - 1
    if name != 'shell':
        return False
    w = d.reshape(-1) ** (2 / 3)
    wm = np.sort(w)[h]
    wa = np.sort(np.abs(w - wm))[h]
    return [max(0, wm - wa), wm + wa]


@oracle('C04', 'radial functions: exact piecewise form, range, radius order', reps=750)
def o_radial(r):
    g = mod('preprocessing._gsspp_utils')
    p = r.int(1, 4)
    n = r.size(max(3, p), 15)
    d = np.abs(r.np.randn(n)) * r.pick(1.0, 3.0, 50.0)
    if r.pick(0, 1):
        d[r.int(0, n - 1)] *= r.pick(20.0, 1e3)
    if r.pick(0, 0, 1):
        d = np.round(d * 2) / 2
    if r.pick(0, 0, 1):
        d[r.int(0, n - 1)] = 0.0
    D = d.reshape(-1, 1)
    D0 = D.copy()
    for nm in FUNS:
        with quiet():
            xi = np.asarray(getattr(g, nm)(D, p, n))
        expect(xi.shape == (n, 1), '%s: shape %s' % (nm, xi.shape), d=d, p=p, n=n)
        want = radial(nm, d, p, n)
        cs = near_cut(nm, d, p, n)
        ok = np.ones(n, bool)
        if cs:
            for c in cs:
                ok &= np.abs(d ** (2 / 3) - c) > 1e-9 * (1 + c)
        same(xi[ok, 0], want[ok], nm, d=d, p=p, n=n)
        if nm == 'ball':
            expect(set(np.unique(xi)) <= {0.0, 1.0}, 'ball: weights other than 0 and 1', d=d, p=p, n=n)
        expect((xi >= 0).all() and (nm == 'ss' or (xi <= 1 + 1e-12).all()), '%s: weight outside [0, 1]' % nm, d=d, p=p, n=n)
        if nm not in ('shell',):
            o = np.argsort(d)
            expect((np.diff(xi[o, 0]) <= 1e-9 + (1e-7 * xi[o, 0][:-1])).all(), '%s: weight increases with the distance' % nm, d=d, p=p, n=n)
    expect(np.array_equal(D, D0), 'the distances were modified', d=d)
    return {'n': n, 'p': p}


@oracle('C04', 'generalised spatial sign: function, class and covariance agree with the definition', reps=300)
def o_gss(r):
    g = mod('preprocessing.gsspp')
    p = r.int(2, 4)
    n = r.size(max(4, p), 15)
    X = r.data(n, p, r.pick('normal', 'outliers', 'shifted'))
    X0 = X.copy()
    fun = r.pick(*FUNS)
    c = r.pick('mean', 'median', 'None', 'l1median', 'kstepLTS')
    info = dict(X=X0, center=c, fun=fun)
    if c == 'None':
        cen = np.zeros(p)
    elif c in ('mean', 'median'):
        cen = getattr(np, c)(X0, axis=0)
    else:
        cen = np.asarray(getattr(U(), c)(X0)).reshape(-1)
    Xc = X0 - cen
    d = np.sqrt((Xc ** 2).sum(axis=1))
    w = radial(fun, d, p, n)
    ok = np.ones(n, bool)
    for cc in (near_cut(fun, d, p, n) or []):
        ok &= np.abs(d ** (2 / 3) - cc) > 1e-9 * (1 + cc)
    ref = Xc * w[:, None]
    F = getattr(g, fun) if r.pick(0, 1) else fun
    A = must(lambda: g.gen_ss_pp(form(r, X), center=c, fun=F), 'gen_ss_pp', **info)
    same(np.asarray(A)[ok], ref[ok], 'gen_ss_pp', atol=1e-8, **info)
    est = g.GenSpatialSignPreProcessor(center=c, fun=F)
    B = must(lambda: est.fit_transform(form(r, X)), 'fit_transform', **info)
    same(np.asarray(B)[ok], np.asarray(A)[ok], 'class against function', atol=1e-8, **info)
    same(np.asarray(est.gss_).reshape(-1)[ok], w[ok], 'stored weights', atol=1e-8, **info)
    same(np.asarray(est.transform(X))[ok], np.asarray(A)[ok], 'transform of the training data', atol=1e-8, **info)
    Y = r.data(n + 2, p, 'normal')
    Yc = Y - cen
    dy = np.sqrt((Yc ** 2).sum(axis=1))
    wy = radial(fun, dy, p, n + 2)
    oky = np.ones(n + 2, bool)
    for cc in (near_cut(fun, dy, p, n + 2) or []):
        oky &= np.abs(dy ** (2 / 3) - cc) > 1e-9 * (1 + cc)
    same(np.asarray(est.transform(Y))[oky], (Yc * wy[:, None])[oky], 'transform of new data', atol=1e-8, Y=Y, **info)
    S = must(lambda: g.gen_ss_covmat(X, center=c, fun=F), 'gen_ss_covmat', **info)
    # a case exactly on the cutoff may fall either way
    und = np.where(~ok)[0]
    if len(und) > 6:
        raise Skip()
    cands = []
    for bits in range(2 ** len(und)):
        w2 = w.copy()
        w2[und] = [(bits >> k) & 1 for k in range(len(und))]
        R = Xc * w2[:, None]
        cands.append(R.T @ R / n)
    expect(np.shape(S) == (p, p), 'gen_ss_covmat: shape %s' % (np.shape(S),), **info)
    if not any(close(S, C, atol=1e-8 * max(1, np.abs(C).max())) for C in cands):
        same(S, cands[-1], 'gen_ss_covmat', atol=1e-8, **info)
    S = np.asarray(S)
    expect(np.allclose(S, S.T) and np.linalg.eigvalsh((S + S.T) / 2).min() >= -1e-8 * max(1, np.abs(S).max()), 'covariance is not symmetric positive semidefinite', **info)
    expect(np.array_equal(X, X0), 'the data were modified', **info)
    return {'n': n, 'p': p, 'fun': fun, 'center': c}


# ------------------------------------------------------------------ C05
def psi(x):
    a = np.abs(x)
    return np.where(a < 1.5, x, np.where(a < 4, 1.540793 * np.tanh(0.8622731 * (4 - a)) * np.sign(x), 0.0))


@oracle('C05', 'wrapping of training and new data', reps=600)
def o_wrap(r):
    n, p = r.size(3, 15), r.wide(1, 4)
    X = r.data(n, p)
    if r.pick(0, 0, 1):
        X[:, r.int(0, p - 1)] = 2.0
    if r.pick(0, 0, 1):
        X = np.round(X * 10).astype(int) if np.abs(X).max() < 1e6 else X
    X0 = X.copy()
    Y = r.data(r.int(2, 8), p)
    m = np.median(X0, axis=0)
    s = np.median(np.abs(X0 - m), axis=0) / 0.6744897501960817
    sf = np.where(s == 0, 1.0, s)
    W = RC().Wrapper()
    info = dict(X=X0, Y=Y)

    def ok(Z):
        a = np.abs((Z - m) / sf)
        return (np.abs(a - 1.5) > 1e-9) & (np.abs(a - 4) > 1e-9)

    def ref(Z):
        return psi((Z - m) / sf) * sf + m
    G = must(lambda: W.fit_transform(form(r, X)), 'fit_transform', **info)
    expect(np.shape(G) == X0.shape, 'shape %s' % (np.shape(G),), **info)
    k = ok(X0)
    same(np.asarray(G)[k], ref(X0)[k], 'wrapped training data', atol=1e-8, **info)
    for nm in ('transform', 'predict'):
        H = np.asarray(must(lambda: getattr(W, nm)(form(r, Y)), nm, **info))
        expect(H.shape == Y.shape, '%s: shape' % nm, **info)
        k = ok(Y)
        same(H[k], ref(Y)[k], nm + ' of new data', atol=1e-8, **info)
    # bounded effect: the standardised result never exceeds the corner by more than q1*tanh(...)
    z = (np.asarray(G) - m) / sf
    expect(np.abs(z).max() <= 1.5408 + 1e-6, 'standardised wrapped value %.6g' % np.abs(z).max(), **info)
    expect(np.array_equal(X, X0), 'the data were modified', **info)
    l, c = r.np.randn(p), np.abs(r.np.randn(p)) + 0.05
    Q = np.asarray(U().wrap(Y, l, c))
    a = np.abs((Y - l) / c)
    k = (np.abs(a - 1.5) > 1e-9) & (np.abs(a - 4) > 1e-9)
    same(Q[k], (psi((Y - l) / c) * c + l)[k], 'wrap with given location and scale', atol=1e-8, Y=Y, loc=l, scale=c)
    return {'n': n, 'p': p}


# ------------------------------------------------------------------ C06
def rfair(x, c): return 1 / (1 + np.abs(x) / (2 * c)) ** 2


def rhuber(x, c): return np.where(x > c, c / np.where(x == 0, 1, x), 1.0)


def rhampel(x, a, b, c):
    s = np.where(x == 0, 1, x)
    return np.where(x <= a, 1.0, np.where(x <= b, a / s, np.where(x <= c, a * (c - x) / ((c - b) * s), 0.0)))


@oracle('C06', 'Fair, Huber and Hampel weights', reps=750)
def o_weights(r):
    m = mod('sprm._m_support_functions')
    n = r.size(1, 20)
    a = r.uni(0.2, 2)
    b = a + r.uni(0.05, 2)
    c = b + r.uni(0.05, 3)
    x = np.abs(r.np.randn(n)) * r.pick(0.5, 2, 5)
    if r.pick(0, 1):
        x[r.int(0, n - 1)] = r.pick(0.0, a, b, c, c + 1e-6, a / 2, 1e6, 1e-300)
    x0 = x.copy()
    shp = r.pick((n,), (n, 1))
    x = x.reshape(shp)
    info = dict(x=x0, probct=a, hampelb=b, hampelr=c)
    for nm, ref in (('Fair', rfair(x0, a)), ('Huber', rhuber(x0, a)), ('Hampel', rhampel(x0, a, b, c))):
        w = np.asarray(must(lambda: getattr(m, nm)(x, a, b, c), nm, **info))
        same(w, ref.reshape(shp), nm, **info)
        w = w.reshape(-1)
        expect((w >= 0).all() and (w <= 1).all(), nm + ': weight outside [0, 1]', **info)
        o = np.argsort(x0)
        expect((np.diff(w[o]) <= 1e-12).all(), nm + ': weight increases with the distance', **info)
        expect(np.array_equal(x.reshape(-1), x0), nm + ': the argument was modified', **info)
    return {'n': n}


# ------------------------------------------------------------------ C20
@oracle('C20', 'products ignoring missing values', reps=750)
def o_nandot(r):
    u = mod('utils.utils')
    p, n, q = r.int(1, 4), r.int(1, 6), r.int(1, 4)
    X, Y = r.np.randn(p, n), r.np.randn(n, q)
    if r.pick(0, 1):
        X[r.np.rand(p, n) < 0.3] = np.nan
        Y[r.np.rand(n, q) < 0.3] = np.nan
    X0, Y0 = X.copy(), Y.copy()
    Z = np.nan_to_num(X0) @ np.nan_to_num(Y0)
    # a term is skipped when either factor is missing
    same(u.nanmatdot(X, Y), Z, 'nanmatdot', X=X0, Y=Y0)
    y = Y[:, 0].copy()
    for v in (y, y.reshape(-1, 1)):
        same(u.nandot(X, v), Z[:, :1], 'nandot', X=X0, y=v)
        same(u.nanmatdot(X, v), Z[:, :1], 'nanmatdot of a vector', X=X0, y=v)
    expect(np.array_equal(X, X0, equal_nan=True) and np.array_equal(Y, Y0, equal_nan=True), 'an argument was modified', X=X0, Y=Y0)
    bad = r.np.randn(n + r.int(1, 3), q)
    must_raise(lambda: u.nanmatdot(X, bad), Exception, 'inner dimensions that disagree')
    must_raise(lambda: u.nandot(X, bad[:, 0]), Exception, 'inner dimensions that disagree')
    return {'p': p, 'n': n, 'q': q}


# ------------------------------------------------------------------ C21
@oracle('C21', 'finite-difference Jacobians', reps=500)
def o_jac(r):
    j = mod('ipopt_temp.jacobian')
    k, m = r.int(1, 4), r.int(1, 3)
    A = r.np.randn(m, k)
    B = r.np.randn(m, k, k)
    B = B + B.transpose(0, 2, 1)
    c = r.np.randn(m)

    def f(x):
        x = np.asarray(x)
        v = A @ x + np.array([x @ B[i] @ x for i in range(m)]) / 2 + c
        return v if m > 1 else v[0]
    x = r.np.randn(k)
    eps = r.pick(1e-3, 1e-4, 1e-6)
    x0 = x.copy()
    exact = A + np.array([B[i] @ x for i in range(m)])
    fw = j.FunctionWithApproxJacobian(f, eps, verbose=False)
    ce = j.FunctionWithApproxJacobianCentral(f, eps, verbose=False)
    F0 = np.atleast_1d(f(x0))
    want = np.array([(np.atleast_1d(f(x0 + eps * np.eye(k)[i])) - F0) / eps for i in range(k)]).T
    wantc = np.array([(np.atleast_1d(f(x0 + eps * np.eye(k)[i])) - np.atleast_1d(f(x0 - eps * np.eye(k)[i]))) / (2 * eps) for i in range(k)]).T
    info = dict(A=A, B=B, x=x0, eps=eps)
    tol = 1e-9 / eps
    same(fw.jac(x), want, 'forward differences', atol=tol, **info)
    same(ce.jac(x), wantc, 'central differences', atol=tol, **info)
    same(ce.jac(x), exact, 'central differences of a quadratic', atol=max(1e-6, 10 * tol), **info)
    same(fw(x), f(x0), 'function value', **info)
    y = x + r.np.randn(k)
    same(fw(y), f(y), 'function value at another point', **info)
    same(fw(x), f(x0), 'function value, asked again', **info)
    expect(np.array_equal(x, x0), 'the argument was modified', **info)
    # another function at the same point, and a point very close by
    A2 = r.np.randn(m, k)
    g = lambda x: (A2 @ np.asarray(x)) if m > 1 else (A2 @ np.asarray(x))[0]
    x = np.round(x * 8) / 8
    for cls in (j.FunctionWithApproxJacobian, j.FunctionWithApproxJacobianCentral):
        first, second = cls(f, eps, verbose=False), cls(g, eps, verbose=False)
        first(x.copy())
        first.jac(x.copy())
        same(second(x.copy()), g(x), 'value of a second function at the same point', A2=A2, **info)
        same(second.jac(x.copy()), A2, 'Jacobian of a second function at the same point', atol=10 * tol, A2=A2, **info)
        small = 2.0 ** -r.pick(20, 26, 28)
        third = cls(g, small, verbose=False)
        same(third.jac(x.copy()), A2, 'affine function, small step', atol=1e-5, A2=A2, x1=x, step=small)
        near = x + r.np.randn(k) * 1e-9
        same((third(near) - third(x)) * 1e9, (g(near) - g(x)) * 1e9, 'values at two points close together', atol=1e-4, A2=A2, x1=x, x2=near)
    return {'k': k, 'm': m}


@oracle('C21', 'scale constraints of the sufficient-dimension optimisation', reps=500)
def o_const(r):
    u = mod('utils.utils')
    p, h, n = r.int(2, 4), r.int(1, 3), r.int(4, 12)
    X = r.data(n, p, r.pick('normal', 'scaled', 'shifted'))
    b = r.np.randn(p, h)
    Sx = np.cov(X, rowvar=False)
    v = b.flatten(order='F')
    v0 = v.copy()
    for i in range(h):
        for j in range(h):
            e = float(i == j)
            same(u.const_xscale(v, X, h, i, j), b[:, i] @ Sx @ b[:, j] - e, 'constraint on the covariance', atol=1e-8, X=X, beta=b, i=i, j=j)
            same(u.const_zscale(v, X, h, i, j), b[:, i] @ b[:, j] - e, 'constraint on the identity', atol=1e-8, X=X, beta=b, i=i, j=j)
    expect(np.array_equal(v, v0), 'the argument was modified')
    return {'p': p, 'h': h}


# ------------------------------------------------------------------ C22
@oracle('C22', 'robust loss: weighted by the absolute residual', reps=600)
def o_loss(r):
    cv = mod('cross_validation._cv_support_functions')
    ms = mod('sprm._m_support_functions')
    from scipy.stats import norm
    from sklearn.metrics import mean_squared_error, mean_absolute_error
    n = r.size(3, 15)
    y = r.np.randn(n) * 2
    yp = y + r.np.randn(n) * r.pick(0.3, 1, 3)
    y0, yp0 = y.copy(), yp.copy()
    if r.pick(0, 1):
        y, yp = y.reshape(-1, 1), yp.reshape(-1, 1)
    if r.pick(0, 0, 1):
        import pandas as pd
        y = pd.Series(y.reshape(-1))
    fun, rf = r.pick(('Fair', rfair), ('Huber', rhuber), ('Hampel', rhampel))
    a, b, c = norm.ppf(0.975), norm.ppf(.99), norm.ppf(.999)
    kw = {}
    if r.pick(0, 1):
        a = r.uni(0.3, 1.5); b = a + r.uni(0.1, 1); c = b + r.uni(0.1, 2)
        kw = dict(probct=a, hampelb=b, hampelr=c)
    x = np.abs(y0 - yp0)
    w = rf(x, a, b, c) if fun == 'Hampel' else rf(x, a)
    if w.sum() < 1e-9:
        raise Skip()
    lf, nm = r.pick((mean_squared_error, 'mse'), (mean_absolute_error, 'mae'))
    e = x ** 2 if nm == 'mse' else x
    got = must(lambda: cv.robust_loss(y, yp, lfun=lf, fun=getattr(ms, fun), **kw), 'robust_loss', y=y0, ypred=yp0, fun=fun)
    same(got, (w * e).sum() / w.sum(), 'robust loss', y=y0, ypred=yp0, fun=fun, **kw)
    got2 = cv.robust_loss(yp0, y0, lfun=lf, fun=getattr(ms, fun), **kw)
    same(got2, got, 'robust loss with the sign of the residuals reversed', y=y0, ypred=yp0, fun=fun)
    return {'n': n, 'fun': fun}


@oracle('C22', 'cross-validation score table', reps=150)
def o_cvtable(r):
    cv = mod('cross_validation._cv_support_functions')
    k = r.int(1, 8)
    ps = [{'eta': r.uni(0, 1), 'n_components': r.int(1, 5), 'other': r.int(0, 3)} for _ in range(k)]
    sc = r.np.randn(k)

    class G:
        pass
    g = G()
    g.cv_results_ = {'params': ps, 'mean_test_score': sc, 'std_test_score': sc * 0 + 1}
    t = must(lambda: cv.cv_score_table(g), 'cv_score_table')
    expect(len(t) == k, 'one row per setting')
    same(t['etas'], [q['eta'] for q in ps], 'eta column')
    same(t['n_components'], [q['n_components'] for q in ps], 'component column')
    same(t['score'], sc, 'score column')
    return {'k': k}
