"""Executable contracts for (co-)moments and energy statistics"""
from .base import *
from .preproc import mod, frame, form


def DC():
    return mod('dicomo.dicomo').dicomo


def DU():
    return mod('dicomo._dicomo_utils')


def tmean(a, t):
    a = np.sort(np.asarray(a, dtype=float).reshape(-1))
    c = int(t * len(a))
    return a[c:len(a) - c].mean()


def nt(n, t):
    return round(n * (1 - t))


def mom(x, y, kx, ky, t):
    return tmean((x - tmean(x, t)) ** kx * (y - tmean(y, t)) ** ky, t)


def fac(n, t, order):
    m = nt(n, t)
    return m / np.prod([m - k for k in range(max(1, order - 2), order)])


def vec(r, n):
    s = r.pick('normal', 'outliers', 'ties', 'shifted', 'normal')
    x = r.data(n, 1, s).reshape(-1)
    if s == 'ties' and np.std(x) == 0:
        x[0] += 1.0
    return x


@oracle('C13', 'variance, deviation, skewness, kurtosis', reps=800)
def o_mom(r):
    n = r.size(6, 25)
    x = vec(r, n)
    if r.pick(0, 0, 0, 1):
        x = x * r.pick(1e-3, 1e3)
    x0 = x.copy()
    t = r.pick(0, 0, 0.1, 0.2)
    bc = r.pick(True, False)
    m = r.pick('var', 'std', 'skew', 'kurt')
    kw = {}
    if t or r.pick(0, 1): kw['trimming'] = t
    if bc or r.pick(0, 1): kw['biascorr'] = bc
    k = nt(n, t)
    v = mom(x, x, 1, 1, t)
    if v < 1e-12 or k < 5:
        raise Skip()
    if m == 'var':
        w = v * (fac(n, t, 2) if bc else 1)
    elif m == 'std':
        w = np.sqrt(v * (fac(n, t, 2) if bc else 1))
    elif m == 'skew':
        w = mom(x, x, 2, 1, t) / v ** 1.5
        if bc:
            w = w * np.sqrt(k * (k - 1.0)) / (k - 2)
    else:
        q = mom(x, x, 3, 1, t) / v ** 2
        if bc:
            fisher = r.pick(True, False)
            kw['Fisher'] = fisher
            w = ((k * k - 1.0) * q - 3 * (k - 1.0) ** 2) / ((k - 2.0) * (k - 3)) + (0 if fisher else 3)
        else:
            w = q
    X = x.reshape(-1, 1) if r.pick(0, 1) else x
    d = DC()(est='arithmetic', mode=m)
    got = must(lambda: d.fit(X, **kw), m, x=x0, **kw)
    same(got, w, m, rtol=1e-6, x=x0, **kw)
    same(d.moment_, w, m + ' (stored)', rtol=1e-6, x=x0, **kw)
    if t == 0:
        import scipy.stats as sps
        if m == 'skew':
            same(got, sps.skew(x0, bias=not bc), 'skewness against scipy', rtol=1e-6, x=x0)
        if m == 'kurt' and bc:
            same(got, sps.kurtosis(x0, fisher=kw['Fisher'], bias=False), 'kurtosis against scipy', rtol=1e-6, x=x0)
        if m == 'var':
            same(got, np.var(x0, ddof=1 if bc else 0), 'variance against numpy', rtol=1e-6, x=x0)
        # affine behaviour
        a, b = r.pick(-2.0, 0.5, 3.0), r.uni(-5, 5)
        g2 = DC()(est='arithmetic', mode=m).fit(a * X + b, **kw)
        f = {'var': a * a, 'std': abs(a), 'skew': np.sign(a), 'kurt': 1.0}[m]
        same(g2, got * f, m + ' of a linear transform', rtol=1e-5, atol=1e-6, x=x0, mult=a, add=b)
    expect(np.array_equal(x, x0), 'the data were modified', x=x0)
    return {'n': n, 'mode': m, **kw}


@oracle('C13', 'covariance, correlation, co-skewness, co-kurtosis, continuum', reps=800)
def o_com(r):
    n = r.size(6, 25)
    x, y = vec(r, n), vec(r, n)
    y = y + r.pick(0, 0.7, -2) * x
    x0, y0 = x.copy(), y.copy()
    t = r.pick(0, 0, 0.1, 0.2)
    bc = r.pick(True, False)
    m = r.pick('cov', 'corr', 'cos', 'cok', 'continuum', 'cov', 'com')
    kw = {}
    if t or r.pick(0, 1): kw['trimming'] = t
    k = nt(n, t)
    vx, vy = mom(x, x, 1, 1, t), mom(y, y, 1, 1, t)
    if min(vx, vy) < 1e-10 or k < 5:
        raise Skip()
    if m == 'cok':
        bc = False
    if bc or r.pick(0, 1): kw['biascorr'] = bc
    f2 = fac(n, t, 2) if bc else 1
    cv = mom(x, y, 1, 1, t) * f2
    if m == 'cov' or m == 'com':
        w = cv
    elif m == 'corr':
        w = mom(x, y, 1, 1, t) / np.sqrt(vx * vy)
    elif m == 'continuum':
        al = r.pick(0.0, 0.5, 1.0, 2.0, 3.0)
        kw['alpha'] = al
        w = cv ** 2 * np.sqrt(vx * f2) ** (al - 1)
    else:
        o = {'cos': 3, 'cok': 4}[m]
        op = r.int(1, o - 1)
        if op > 1 or r.pick(0, 1): kw['option'] = op
        w = mom(x, y, o - op, op, t) * ((fac(n, t, 3) * k) if bc else 1) / (np.sqrt(vx * f2) ** (o - op) * np.sqrt(vy * f2) ** op)
    X = x.reshape(-1, 1) if r.pick(0, 1) else x
    Y = y.reshape(-1, 1) if r.pick(0, 1) else y
    d = DC()(est='arithmetic', mode=m)
    got = must(lambda: d.fit(X, y=Y, **kw), m, x=x0, y=y0, **kw)
    same(got, w, m, rtol=1e-6, atol=1e-8, x=x0, y=y0, **kw)
    if m == 'corr' and t == 0:
        expect(-1 - 1e-9 <= float(got) <= 1 + 1e-9, 'correlation outside [-1, 1]', x=x0, y=y0)
    if m in ('cov', 'corr'):
        same(DC()(est='arithmetic', mode=m).fit(Y, y=X, **kw), got, m + ' with x and y exchanged', rtol=1e-6, atol=1e-8, x=x0, y=y0, **kw)
    expect(np.array_equal(x, x0) and np.array_equal(y, y0), 'the data were modified', x=x0, y=y0)
    must_raise(lambda: DC()(est='arithmetic', mode=m).fit(X), Exception, m + ' without a second variable')
    must_raise(lambda: DC()(est='arithmetic', mode=m).fit(X, y=y0[:-1]), Exception, m + ' with data of unequal length')
    return {'n': n, 'mode': m, **kw}


@oracle('C13', 'median-based variation and comedian', reps=300)
def o_med(r):
    n = r.size(4, 25)
    x, y = vec(r, n), vec(r, n)
    if (x == y).all():
        raise Skip()
    g = DC()(est='arithmetic', mode='var', center='median').fit(x)
    same(g, 1.4826 * np.median(np.abs(x - np.median(x))), 'median variation', x=x)
    g = DC()(est='arithmetic', mode='cov', center='median').fit(x, y=y)
    same(g, np.median((x - np.median(x)) * (y - np.median(y))), 'comedian', x=x, y=y)
    return {'n': n}


@oracle('C13', 'co-moment analysis projection index', reps=300)
def o_capi(r):
    C = mod('ppdire.capi').capi
    n = r.size(6, 25)
    x, y = vec(r, n), vec(r, n)
    if min(mom(x, x, 1, 1, 0), mom(y, y, 1, 1, 0)) < 1e-10:
        raise Skip()
    k = r.int(2, 4)
    wt = r.pick([1, 1, 1, -1, -1, -1], list(np.round(r.np.randn(6), 2)))
    sc = r.pick(True, False)
    sx, sy = np.sqrt(mom(x, x, 1, 1, 0)), np.sqrt(mom(y, y, 1, 1, 0))
    ms = [mom(x, y, 1, 1, 0)]
    for o in (3, 4):
        for j in range(1, o):
            ms.append((mom(x, y, o - j, j, 0) / ((sx ** (o - j) * sy ** j) if sc else 1)) if o <= k else 0.0)
    c = C(max_degree=k, weights=wt, scaling=sc, pi_arguments={'mode': 'cov'})
    x0, y0 = x.copy(), y.copy()
    got = must(lambda: c.fit(x.reshape(-1, 1), y.reshape(-1, 1)), 'capi', x=x0, y=y0)
    same(got, np.dot(wt, ms), 'capi', rtol=1e-6, atol=1e-8, x=x0, y=y0, weights=wt, degree=k, scaling=sc)
    same(c.fit(x.reshape(-1, 1), y.reshape(-1, 1)), got, 'capi, evaluated again', x=x0, y=y0)
    if k == 4 and r.pick(0, 1):
        must_raise(lambda: C(max_degree=5), ValueError, 'degree 5')
    return {'n': n, 'degree': k}


# ---------------------------------------------------------------- energy statistics
def dist(X):
    X = np.asarray(X, dtype=float)
    X = X.reshape(len(X), -1)
    return np.sqrt(((X[:, None, :] - X[None, :, :]) ** 2).sum(axis=2))


def dcen(D):
    return D - D.mean(axis=0) - D.mean(axis=1)[:, None] + D.mean()


def ucen(D):
    n = len(D)
    A = D - D.sum(axis=0) / (n - 2) - (D.sum(axis=1) / (n - 2))[:, None] + D.sum() / ((n - 1) * (n - 2))
    A[np.eye(n, dtype=bool)] = 0
    return A


def dc2(A, B, bc):
    n = len(A)
    return (A * B).sum() / (n * (n - 3) if bc else n * n)


@oracle('C14', 'double centring and U-centring', reps=500)
def o_dcen(r):
    u = DU()
    n = r.size(4, 12)
    D = dist(r.data(n, r.int(1, 3), r.pick('normal', 'ties', 'outliers')))
    if r.pick(0, 1):
        D = r.np.randn(n, n)
    D0 = D.copy()
    A, k = must(lambda: u.double_center_flex(D), 'double centring', D=D0)
    same(A, dcen(D0), 'double centring', D=D0)
    same(np.abs(A.sum(axis=0)).max(), 0, 'column sums after double centring', atol=1e-8, D=D0)
    same(np.abs(A.sum(axis=1)).max(), 0, 'row sums after double centring', atol=1e-8, D=D0)
    B, k = must(lambda: u.double_center_flex(D, biascorr=True), 'U-centring', D=D0)
    same(B, ucen(D0), 'U-centring', atol=1e-8, D=D0)
    M, k = must(lambda: u.double_center_flex(D, center='median'), 'median centring', D=D0)
    same(M, D0 - np.median(D0, axis=0) - np.median(D0, axis=1)[:, None] + np.median(D0), 'median centring', D=D0)
    t = r.pick(0.1, 0.2)
    T_, k = must(lambda: u.double_center_flex(D, trimming=t), 'trimmed centring', D=D0)
    same(T_, D0 - np.array([tmean(c, t) for c in D0.T]) - np.array([tmean(c, t) for c in D0])[:, None] + tmean(D0, t), 'trimmed centring', D=D0, trimming=t)
    expect(np.array_equal(D, D0), 'the argument was modified', D=D0)
    must_raise(lambda: u.double_center_flex(D, center='mode'), ValueError, 'unknown centre')
    X = r.data(n, 2, 'normal')
    A, k = u.distance_matrix_centered(X)
    same(A, dcen(dist(X)), 'centred distance matrix', X=X, atol=1e-8)
    return {'n': n}


@oracle('C14', 'distance variance, covariance and correlation, fast and naive', reps=500)
def o_dcov(r):
    n = r.size(5, 16)
    p, q = r.int(1, 3), r.int(1, 2)
    X = r.data(n, p, r.pick('normal', 'outliers', 'ties', 'shifted'))
    Y = r.data(n, q, r.pick('normal', 'ties', 'shifted'))
    if r.pick(0, 1):
        Y = Y + (X[:, :1] ** 2)
    X0, Y0 = X.copy(), Y.copy()
    bc = r.pick(True, False)
    c = ucen if bc else dcen
    A, B = c(dist(X)), c(dist(Y))
    vx, vy, cv = dc2(A, A, bc), dc2(B, B, bc), dc2(A, B, bc)
    if min(vx, vy) < 1e-6 or cv < 1e-6:
        raise Skip()
    m = r.pick('var', 'cov', 'corr', 'std', 'continuum')
    kw = {'biascorr': bc}
    kw['calcmode'] = r.pick('fast', 'naive')
    al = r.pick(0.0, 1.0, 2.0)
    if m == 'continuum':
        kw['alpha'] = al
    w = {'var': np.sqrt(vx), 'std': np.sqrt(vx) ** 0.5, 'cov': np.sqrt(cv), 'corr': np.sqrt(cv / np.sqrt(vx * vy)), 'continuum': cv * np.sqrt(np.sqrt(vx)) ** (al - 1)}[m]
    if m not in ('var', 'std'):
        kw['y'] = Y.reshape(-1) if q == 1 and r.pick(0, 1) else Y
    Xf = X.reshape(-1) if p == 1 and r.pick(0, 1) else X
    info = dict(X=X0, Y=Y0, mode=m, biascorr=bc, calcmode=kw['calcmode'])
    d = DC()(est='distance', mode=m)
    got = must(lambda: d.fit(Xf, **kw), 'distance ' + m, **info)
    same(got, w, 'distance ' + m, rtol=1e-6, atol=1e-8, shape=False, **info)
    if m == 'corr' and not bc:
        expect(-1e-9 <= float(got) <= 1 + 1e-9, 'distance correlation outside [0, 1]', **info)
    other = dict(kw, calcmode='naive' if kw['calcmode'] == 'fast' else 'fast')
    same(must(lambda: DC()(est='distance', mode=m).fit(Xf, **other), 'distance ' + m, **info), got, 'fast against naive, ' + m, rtol=1e-6, atol=1e-8, shape=False, **info)
    expect(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'the data were modified', **info)
    return {'n': n, 'mode': m, 'biascorr': bc}


@oracle('C14', 'trimmed distance statistics of a variable with itself', reps=200)
def o_dself(r):
    n = r.size(8, 25)
    x, y = vec(r, n), vec(r, n)
    t, bc, c = r.pick(0.05, 0.1, 0.2, 0.25), r.pick(True, False), r.pick('mean', 'mean', 'median')
    X = x.reshape(-1, 1) if r.pick(0, 1) else x
    kw = dict(trimming=t, biascorr=bc)
    f = lambda m, **k: must(lambda: DC()(est='distance', mode=m, center=c).fit(X, **kw, **k), 'distance ' + m, x=x, **kw)
    vx = f('var')
    if not abs(vx) > 1e-6 * (1 + np.abs(x).max()): raise Skip()
    same(f('cov', y=X), vx, 'trimmed distance covariance of a variable with itself', rtol=1e-7, atol=1e-9, shape=False, x=x, center=c, **kw)
    if vx > 0: same(f('corr', y=X), 1.0, 'trimmed distance correlation of a variable with itself', rtol=1e-7, shape=False, x=x, center=c, **kw)
    if vx > 0:
        Y = y.reshape(-1, 1) if X.ndim == 2 else y
        vy = DC()(est='distance', mode='var', center=c).fit(Y, **kw)
        if vy > 1e-6 * (1 + np.abs(y).max()):
            a, b = f('corr', y=Y), DC()(est='distance', mode='corr', center=c).fit(Y, y=X, **kw)
            same(a, b, 'trimmed distance correlation with x and y exchanged', rtol=1e-6, atol=1e-8, shape=False, x=x, y=y, center=c, **kw)
    return {'n': n, **kw}


@oracle('C14', 'distance moments of given matrices', reps=400)
def o_dmom(r):
    u = DU()
    n = r.size(5, 12)
    A, B = r.np.randn(n, n), r.np.randn(n, n)
    A0, B0 = A.copy(), B.copy()
    bc = r.pick(True, False)
    o = r.pick(2, 2, 3, 4)
    op = r.int(1, o - 1)
    kw = dict(biascorr=bc, order=o, option=op)
    a, b = (1, 1) if o == 2 else (o - op, op)
    v = (A ** a * B ** b).mean() * (n / (n - 3) if bc else 1)
    w = (-1) ** o * abs(v) ** (1 / o)
    same(must(lambda: u.distance_moment(A, B, **kw), 'distance moment', A=A0, B=B0), w, 'distance moment', rtol=1e-6, A=A0, B=B0, **kw)
    expect(np.array_equal(A, A0) and np.array_equal(B, B0), 'an argument was modified', A=A0, B=B0)
    if o == 2:
        same(u.distance_moment(A, B, center='median'), np.median(A0 * B0), 'median distance moment', A=A0, B=B0)
    must_raise(lambda: u.distance_moment(A, B[:-1, :-1]), Exception, 'matrices of unequal size')
    return {'n': n}


@oracle('C14', 'martingale difference divergence', reps=400)
def o_mdd(r):
    u = DU()
    n = r.size(5, 14)
    p, q = r.int(1, 3), r.int(1, 3)
    X, Y = r.data(n, p, r.pick('normal', 'ties', 'shifted')), r.data(n, q, r.pick('normal', 'shifted'))
    Y[:, 0] += X[:, 0] ** 2
    X0, Y0 = X.copy(), Y.copy()
    D = dist(X)
    Yc = Y - Y.mean(axis=0)
    M = -(Yc.T @ D @ Yc) / n ** 2
    got = must(lambda: u.MDDM(X, Y), 'MDDM', X=X0, Y=Y0)
    same(got, M, 'divergence matrix', atol=1e-8, X=X0, Y=Y0)
    y = Y[:, 0]
    v = must(lambda: u.difference_divergence(X, y), 'divergence', X=X0, y=y)
    same(v, M[0, 0], 'divergence', atol=1e-8, X=X0, y=y)
    A, B = ucen(D), ucen(0.5 * dist(y.reshape(-1, 1)) ** 2)
    v = must(lambda: u.difference_divergence(X, y, biascorr=True), 'unbiased divergence', X=X0, y=y)
    same(v, dc2(A, B, True), 'unbiased divergence', atol=1e-7, X=X0, y=y)
    if M[0, 0] > 1e-6:
        g = must(lambda: DC()(est='distance', mode='mdd').fit(X, y=y), 'mdd', X=X0, y=y)
        same(g, np.sqrt(M[0, 0]), 'mdd', atol=1e-8, X=X0, y=y)
    E = np.linalg.eigvalsh((np.asarray(got) + np.asarray(got).T) / 2)
    expect(E.min() > -1e-8 * max(1, abs(E).max()), 'divergence matrix is not positive semidefinite', X=X0, Y=Y0)
    P, Q = r.np.randn(n, n), r.np.randn(n, n)
    same(u.D_inner(P, Q), (P * Q).sum() / n ** 2, 'inner product', P=P, Q=Q)
    same(u.U_inner(P, Q), (P * Q).sum() / (n * (n - 3)), 'unbiased inner product', P=P, Q=Q)
    expect(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'the data were modified', X=X0, Y=Y0)
    return {'n': n, 'p': p, 'q': q}
