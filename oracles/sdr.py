"""Executable contracts for slicing, the sufficient dimension reduction kernels and the estimator around them"""
from .base import *
from .preproc import mod, frame, form
from .regress import yform, cls


def SU():
    return mod('sudire._sudire_utils')


# ------------------------------------------------------------------ C15
def ref_slices(y, h):
    s = sorted(float(v) for v in y)
    m = len(s) // h
    d = [s[i * m] for i in range(1, h)]
    return np.array([1 + sum(1 for c in d if c <= v) for v in y])


@oracle('C15', 'slices: order preserving classes cut at the order statistics', reps=1500, thorough=20000)
def o_disc(r):
    n = r.size(2, 40)
    h = r.int(2, min(n, 9))
    y = r.data(n, 1).reshape(-1)
    k = r.pick(0, 1, 2, 3)
    if k == 1: y = np.round(y)
    if k == 2: y = np.round(y).astype(int)
    if k == 3: y = np.sort(y)[::r.pick(1, -1)].copy()
    y0 = y.copy()
    z = np.asarray(must(lambda: SU().discretize(y, h), 'discretize', y=y0, slices=h))
    expect(z.shape == (n,), 'one class per case', y=y0, slices=h)
    expect(np.array_equal(y, y0), 'the response was modified', y=y0, slices=h)
    same(z, ref_slices(y0, h), 'classes', y=y0, slices=h)
    expect(((z >= 1) & (z <= h) & (z == np.round(z))).all(), 'class outside 1..h', y=y0, slices=h)
    o = np.argsort(y0, kind='stable')
    expect((np.diff(z[o]) >= 0).all(), 'a larger response is in a lower slice', y=y0, slices=h)
    for v in np.unique(y0):
        expect(len(set(z[y0 == v])) == 1, 'equal responses in different slices', y=y0, slices=h)
    if len(np.unique(y0)) == n:
        c = np.bincount(z.astype(int), minlength=h + 1)[1:]
        expect((c[:-1] == n // h).all() and c[-1] == n - (h - 1) * (n // h), 'slice sizes %s' % c, y=y0, slices=h)
        a, b = r.uni(0.5, 3), r.uni(-5, 5)
        if len(np.unique(a * y0 + b)) == n:
            same(SU().discretize(a * y0 + b, h), z, 'classes of an increasing transformation', y=y0, slices=h)
    q = r.np.permutation(n)
    same(SU().discretize(y0[q], h), z[q], 'classes of permuted responses', y=y0, slices=h)
    return {'n': n, 'h': h}


# ------------------------------------------------------------------ C16
def power(A, a):
    w, V = np.linalg.eigh((A + A.T) / 2)
    return (V * w ** a) @ V.T


def kernel(meth, Z, y, h, ytype):
    """the candidate matrix of the method for data Z, from its definition"""
    n, p = Z.shape
    I = np.eye(p)
    if meth in ('SIR', 'SAVE', 'DR'):
        lab = ref_slices(y, h) if ytype == 'continuous' else np.asarray(y)
        M = np.zeros((p, p)); A = np.zeros((p, p)); B = np.zeros((p, p))
        for l in np.unique(lab):
            S = Z[lab == l]
            w = len(S) / n
            m = S.sum(axis=0) / len(S)
            V = (S - m).T @ (S - m) / (len(S) - 1) if len(S) > 1 else I
            if meth == 'SIR':
                M += w * np.outer(m, m)
            elif meth == 'SAVE':
                M += w * (V - I) @ (V - I)
            else:
                Q = V + np.outer(m, m)
                A += w * Q @ Q
                B += w * np.outer(m, m)
        if meth == 'DR':
            M = 2 * A + 2 * B @ B + 2 * np.trace(B) * B - 2 * I
        return M
    yc = y - y.mean()
    if meth == 'PHD':
        return (Z * yc[:, None]).T @ Z / n
    Zc = Z - Z.mean(axis=0)
    c = Zc.T @ yc / (n - 1)
    S = Zc.T @ Zc / (n - 1)
    cols, v = [], c
    for _ in range(p):
        cols.append(v)
        v = S @ v
    K = np.array(cols).T
    return K @ K.T


def sdrdata(r, plo=2, phi=5):
    n, p = r.size(14, 45), r.wide(plo, phi)
    X = r.np.randn(n, p)
    if r.pick(0, 1):
        X = X @ r.np.randn(p, p) + r.np.uniform(-3, 3, size=p)
    t = X[:, 0] - X[:, -1]
    y = r.pick(lambda: t + 0.2 * r.np.randn(n), lambda: t ** 2 + 0.2 * r.np.randn(n), lambda: r.np.randn(n))()
    if np.linalg.cond(np.cov(X, rowvar=False)) > 1e4:
        raise Skip()
    return X, y


def discrete(r, y):
    k = r.int(2, 4)
    q = np.quantile(y, np.arange(1, k) / k)
    lab = np.digitize(y, q)
    vals = r.np.permutation(k) * r.pick(1.0, 2.0, -1.0) + r.pick(0.0, 10.0)
    return vals[lab]


def eigen(B, S, M, d, scale, info):
    """B spans the leading d eigenvectors of M (in the standardized data)"""
    V = power(S, 0.5) @ B if scale else B
    same(V.T @ V, np.eye(d), 'the directions are not orthonormal in the metric of the data', rtol=1e-6, atol=1e-7, **info)
    w = np.linalg.eigvalsh((M + M.T) / 2)[::-1]
    sc = max(1e-12, np.abs(w).max())
    L = np.diag(V.T @ M @ V)
    expect(np.abs(L - w[:d]).max() <= 1e-6 * sc, 'kernel values along the directions %s, the leading eigenvalues are %s' % (L, w[:d]), **info)
    expect(np.abs(M @ V - V * L).max() <= 1e-5 * sc, 'the directions are not eigenvectors of the kernel', **info)


@oracle('C16', 'directions are the leading eigenvectors of the kernel of the method', reps=700, cost=2)
def o_kernel(r):
    X, y = sdrdata(r)
    n, p = X.shape
    meth = r.pick('SIR', 'SAVE', 'DR', 'PHD', 'IHT')
    d = r.int(1, p)
    h = r.int(2, 7)
    cen, sca = r.pick((True, True), (True, True), (True, False), (False, False), (False, True))
    yt = 'continuous'
    if meth in ('SIR', 'SAVE', 'DR') and r.pick(0, 0, 1):
        yt, y = 'discrete', discrete(r, y)
    elif r.pick(0, 0, 1):
        y = np.round(y * 2) / 2
        if len(np.unique(y)) < 2:
            raise Skip()
    X0, y0 = X.copy(), y.copy()
    info = dict(method=meth, d=d, slices=h, center=cen, scale=sca, response=yt, X=X0, y=y0)
    yy = y.reshape(-1, 1) if r.pick(0, 1) else y
    f = getattr(SU(), meth)
    a = (X, yy, h, d, yt, cen, sca) if meth in ('SIR', 'SAVE', 'DR') else (X, yy, d, cen, sca)
    B = np.asarray(must(lambda: f(*a), meth, **info))
    expect(B.shape == (p, d), 'shape %s' % (B.shape,), **info)
    expect(np.array_equal(X, X0) and np.array_equal(y, y0), 'the data were modified', **info)
    S = np.cov(X, rowvar=False)
    Z = X - X.mean(axis=0) if cen else X
    if sca:
        Z = Z @ power(S, -0.5)
    M = kernel(meth, Z, y, h, yt)
    eigen(B, S, M, d, sca, info)
    w = np.linalg.eigvalsh((M + M.T) / 2)[::-1]
    gap = d == p or (w[d - 1] - w[d]) > 1e-4 * max(1e-12, np.abs(w).max())
    pr = lambda B: B @ np.linalg.solve(B.T @ B, B.T)
    if gap:
        o = r.np.permutation(n)
        a2 = (X0[o], y0[o]) + a[2:]
        same(pr(np.asarray(f(*a2))), pr(B), 'subspace after permuting the cases', rtol=1e-4, atol=1e-5, **info)
        if yt == 'discrete':
            u, inv = np.unique(y0, return_inverse=True)
            new = (r.np.permutation(len(u)) * 3.0 - 1)[inv]
            same(pr(np.asarray(f(X0.copy(), new, *a[2:]))), pr(B), 'subspace after relabelling the classes', rtol=1e-4, atol=1e-5, **info)
        if cen and sca and meth != 'IHT':
            s = np.diag(np.exp(r.np.uniform(-1, 1, size=p)))
            B2 = np.asarray(f(X0 @ s + r.np.randn(p), y0.copy(), *a[2:]))
            same(pr(s @ B2), pr(B), 'subspace after rescaling the variables', rtol=1e-3, atol=1e-4, **info)
    return {'method': meth, 'n': n, 'p': p, 'd': d}


@oracle('C16', 'matrix powers', reps=300)
def o_matpower(r):
    p = r.int(1, 6)
    A = r.np.randn(p, p + 3)
    A = A @ A.T / (p + 3) + 0.05 * np.eye(p)
    a, b = r.pick(-0.5, 0.5, -1, 1, 2, 0), r.pick(-0.5, 0.5, -1, 1, 2)
    f = SU().matpower
    P = must(lambda: f(A, a), 'matpower', A=A, power=a)
    same(P, power(A, a), 'power', rtol=1e-6, atol=1e-8, A=A, power=a)
    same(P @ f(A, b), f(A, a + b), 'product of powers', rtol=1e-5, atol=1e-6, A=A, power=(a, b))
    same(f(A, 1), A, 'first power', rtol=1e-7, atol=1e-8, A=A)
    same(f(A, -1) @ A, np.eye(p), 'inverse', rtol=1e-6, atol=1e-7, A=A)
    B = r.np.randn(p, p) * 0.01
    B = B - B.T
    same(f(A + B, a), P, 'power of the symmetric part', rtol=1e-6, atol=1e-8, A=A)
    return {'p': p}


# ------------------------------------------------------------------ C17
@oracle('C17', 'loadings, scores, projection and regression of the estimator', reps=500, cost=2)
def o_sudire(r):
    X, y = sdrdata(r)
    n, p = X.shape
    meth = r.pick('sir', 'save', 'dr', 'phd', 'iht')
    h = r.int(1, p)
    ns = r.int(2, 7)
    rt = 'continuous'
    if meth in ('sir', 'save', 'dr') and r.pick(0, 0, 1):
        rt, y = 'discrete', discrete(r, y)
    s = dict(sudiremeth=meth, n_components=h, n_slices=ns, center=r.pick('mean', 'mean', 'median'), center_data=r.pick(True, True, False), scale_data=r.pick(True, True, False),
             copy=r.pick(True, False), response_type=rt, verbose=False)
    info = dict(settings=s, X=X, y=y)
    e = cls('sudire')(**s)
    X0 = X.copy()
    must(lambda: e.fit(form(r, X), yform(r, y)), 'fit', **info)
    P = np.asarray(e.x_loadings_, dtype=float)
    expect(P.shape == (p, h), 'shape of the loadings', **info)
    if not np.isfinite(P).all():
        raise Skip()
    same(np.asarray(e.x_scores_), X0 @ P, 'scores', rtol=1e-6, atol=1e-8, **info)
    J = np.asarray(e.proj_mat_)
    if np.linalg.cond(P) < 1e4:
        same(J, J.T, 'the projection is not symmetric', rtol=1e-6, atol=1e-6, **info)
        same(J @ J, J, 'the projection is not idempotent', rtol=1e-5, atol=1e-6, **info)
        same(J @ P, P, 'the projection does not leave the loadings alone', rtol=1e-5, atol=1e-6, **info)
        same(np.trace(J), float(h), 'rank of the projection', rtol=1e-6, **info)
    S = np.cov(X, rowvar=False)
    if s['center'] == 'mean':
        Z = X - X.mean(axis=0) if s['center_data'] else X
        D = power(S, 0.5) if s['scale_data'] else np.eye(p)
        if s['scale_data']:
            Z = Z @ power(S, -0.5)
    else:
        if s['scale_data']:
            md = np.median(np.abs(X - np.median(X, axis=0)), axis=0) / 0.6744897501960817
            if (md < 1e-8).any():
                raise Skip()
            D = np.diag(md)
            Z = (X - np.median(X, axis=0)) / md
        else:
            D = np.eye(p)
            Z = X - np.median(X, axis=0) if s['center_data'] else X
    # the loadings, in the preprocessed data, are the directions of the kernel
    K = np.cov(Z, rowvar=False)
    Y = Z - Z.mean(axis=0) if s['center_data'] else Z
    if s['scale_data']:
        Y = Y @ power(K, -0.5)
    M = kernel(meth.upper(), Y, y, ns, rt)
    eigen(D @ P, K, M, h, s['scale_data'], info)
    if s['scale_data'] and s['center'] == 'mean':
        same(P.T @ S @ P, np.eye(h), 'covariance of the scores', rtol=1e-6, atol=1e-6, **info)
    T = np.column_stack([np.ones(n), X0 @ P])
    if np.linalg.cond(T) < 1e6:
        b = np.linalg.lstsq(T, y, rcond=None)[0]
        same(np.asarray(e.ols_obj_.params).reshape(-1), b, 'regression on the scores', rtol=1e-4, atol=1e-5, **info)
        same(np.asarray(e.predict(X0.copy())).reshape(-1), T @ b, 'predictions', rtol=1e-5, atol=1e-6, **info)
    must_raise(lambda: cls('sudire')(**{**s, 'n_components': p + 1}).fit(X0.copy(), y.copy()), Exception, 'more components than variables', **info)
    return {'method': meth, 'n': n, 'p': p, 'h': h}
