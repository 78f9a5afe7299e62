"""Executable contracts on state: the caller's data and settings are left alone; results do not depend on history"""
from .base import *
from .preproc import mod, frame, form
from .regress import regdata, make, build, yform, cls, dicomo, settings, finite
import pandas as pd


def containers(r, X, y):
    k = r.pick('array', 'fortran', 'frame', 'view', 'readonly')
    if k == 'fortran':
        A = np.asfortranarray(X)
    elif k == 'frame':
        A = frame(X)
    elif k == 'view':
        B = np.zeros((2 * len(X), X.shape[1] + 1)); B[::2, :-1] = X; A = B[::2, :-1]
    else:
        A = X.copy()
    if k == 'readonly':
        A.setflags(write=False)
    q = r.pick('vector', 'column', 'series', 'frame')
    b = {'vector': lambda: y.copy(), 'column': lambda: y.reshape(-1, 1).copy(), 'series': lambda: pd.Series(y, name='y'), 'frame': lambda: pd.DataFrame({'y': y})}[q]()
    if k == 'readonly' and q in ('vector', 'column'):
        b.setflags(write=False)
    r.log.append((k, q))
    return A, b


def snap(a):
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.copy(deep=True)
    return a.copy()


def unchanged(a, s, what, **info):
    if isinstance(a, (pd.DataFrame, pd.Series)):
        expect(a.equals(s) and list(a.index) == list(s.index), '%s: modified' % what, **info)
    else:
        expect(a.shape == s.shape and np.array_equal(a, s, equal_nan=a.dtype.kind == 'f'), '%s: modified' % what, **info)


def deep(x):
    return copy.deepcopy({k: v for k, v in x.items() if k != 'projection_index'})


def eq(a, b):
    try:
        if isinstance(a, dict):
            return isinstance(b, dict) and a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)):
            return type(a) == type(b) and len(a) == len(b) and all(eq(u, v) for u, v in zip(a, b))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.array_equal(a, b)
        return a is b or bool(a == b)
    except Exception:
        return False


# ------------------------------------------------------------------ C18
@oracle('C18', 'estimators leave the data and settings of the caller alone', reps=320, cost=4)
def o_mut(r):
    X, y = regdata(r)
    which, s = make(r, None, X)
    if r.pick(0, 0, 1):
        s['copy'] = False
    if which == 'ppdire' and r.pick(0, 1):
        s['pi_arguments'] = {'mode': 'var'}
    Xc, yc = containers(r, X, y)
    X1, y1 = snap(Xc), snap(yc)
    info = dict(estimator=which, settings=settings(s), X=X, y=y, container=str(r.log))
    given = dict(s)
    given0 = deep(s)
    e = must(lambda: cls(which)(**given), 'constructor', **info)
    p0 = deep(e.get_params())
    kw = {'y': yc} if which == 'ppdire' and r.pick(0, 1) else None
    try:
        with quiet():
            e.fit(Xc, **kw) if kw else e.fit(Xc, yc)
    except np.linalg.LinAlgError:
        raise Skip()
    except ValueError as ex:
        if which == 'ppdire' and 'NaN' in str(ex):
            raise Skip()
        raise Fail('fit: %s: %s' % (type(ex).__name__, ex), **info)
    except Exception as ex:
        raise Fail('fit: %s: %s' % (type(ex).__name__, ex), **info)
    unchanged(Xc, X1, 'predictors after fit', **info)
    unchanged(yc, y1, 'response after fit', **info)
    expect(eq(deep(given), given0), 'settings handed over were modified by fit: %s' % deep(given), **info)
    expect(eq(deep(e.get_params()), p0), 'parameters of the estimator were modified by fit', **info)
    Zc, _ = containers(r, r.np.randn(r.int(2, 6), X.shape[1]), y)
    Z1 = snap(Zc)
    must(lambda: e.predict(Zc), 'predict', **info)
    unchanged(Zc, Z1, 'new data after predict', **info)
    if which != 'rm':
        must(lambda: e.transform(Zc), 'transform', **info)
        unchanged(Zc, Z1, 'new data after transform', **info)
    if which == 'sprm':
        must(lambda: e.weightnewx(Zc), 'weights of new cases', **info)
        unchanged(Zc, Z1, 'new data after weighting', **info)
        must(lambda: e.valscore(Xc, yc, r.pick('weighted', 'normal')), 'validation score', **info)
    unchanged(Xc, X1, 'predictors', **info)
    unchanged(yc, y1, 'response', **info)
    expect(eq(deep(e.get_params()), p0), 'parameters of the estimator were modified', **info)
    return {'estimator': which}


@oracle('C18', 'preprocessing, moments and utilities leave their arguments alone', reps=900)
def o_mut2(r):
    n, p = r.size(5, 20), r.int(2, 4)
    X, Y = r.data(n, p), r.data(n, p)
    y = r.data(n, 1).reshape(-1)
    A, b = containers(r, X, y)
    A1, b1 = snap(A), snap(b)
    nd = isinstance(A, np.ndarray)
    k = r.pick('scaler', 'function', 'wrap', 'sign', 'dicomo', 'dicomo', 'distance', 'estim', 'weights', 'nan', 'energy', 'loss', 'slices')
    r.log.append(k)
    info = dict(entry=k, X=X, y=y)
    robc = mod('preprocessing.robcent'); pu = mod('preprocessing._preproc_utilities'); gs = mod('preprocessing.gsspp')
    c, sc = r.pick('mean', 'median', 'l1median', 'kstepLTS', 'None'), r.pick('std', 'mad', 'None')
    if k == 'scaler':
        def run():
            v = robc.VersatileScaler(center=c, scale=sc)
            v.fit(A); v.transform(A); v.predict(A); t = v.fit_transform(A); v.inverse_transform(t); v.inverse_transform()
    elif k == 'function':
        run = lambda: robc.versatile_scale(A, center=c, scale=sc)
    elif k == 'wrap':
        def run():
            w = robc.Wrapper()
            w.fit(A); w.transform(A); w.fit_transform(A)
            if nd:
                pu.wrap(A, np.median(A, axis=0), np.ones(p))
                pu.wrap_univ(A[:, 0], True, 0.5, 1.5)
    elif k == 'sign':
        def run():
            g = gs.GenSpatialSignPreProcessor(center='l1median', fun=r.pick('ss', 'quad', 'winsor', 'ball', 'shell', 'linear_redescending'))
            g.fit(A); g.transform(A); g.fit_transform(A)
            if nd:
                gs.gen_ss_pp(A); gs.gen_ss_covmat(A)
    elif k == 'dicomo':
        m = r.pick('var', 'std', 'skew', 'kurt', 'cov', 'corr', 'cos', 'cok', 'continuum', 'M3')
        kw = dict(trimming=r.pick(0, 0.1), biascorr=r.pick(True, False))
        if m in ('cov', 'corr', 'cos', 'cok', 'continuum', 'M3'):
            kw['y'] = b
        x = X[:, 0].copy(); x1 = x.copy()
        kw0 = dict(kw)

        def run():
            dicomo()(est='arithmetic', mode=m).fit(x, **kw)
            unchanged(x, x1, 'first block of the %s' % m, **info)
            expect(kw.keys() == kw0.keys() and all(kw[i] is kw0[i] for i in kw), 'keyword arguments modified', **info)
    elif k == 'distance':
        def run():
            m = r.pick('var', 'cov', 'corr')
            kw = {} if m == 'var' else {'y': b}
            x = X[:, 0].copy() if r.pick(0, 1) else X[:, :1].copy()
            x1 = x.copy()
            dicomo()(est='distance', mode=m).fit(x, calcmode=r.pick('fast', 'naive'), **kw)
            unchanged(x, x1, 'first block', **info)
    elif k == 'estim':
        def run():
            if not nd: raise Skip()
            for f in ('mean', 'median', 'std', 'mad', 'l1median', 'kstepLTS', 'scaleTau2'):
                getattr(pu, f)(A)
            pu.scale_data(A, np.ones(p), np.full(p, 2.0))
    elif k == 'weights':
        def run():
            ms = mod('sprm._m_support_functions')
            x = np.abs(X[:, 0]) * 3; x1 = x.copy()
            x.setflags(write=r.pick(True, False))
            ms.Fair(x, 1.5); ms.Huber(x, 1.5); ms.Hampel(x, 1.0, 2.0, 3.0)
            unchanged(x, x1, 'distances', **info)
    elif k == 'nan':
        def run():
            u = mod('utils.utils')
            M = X.copy(); M[0, 0] = np.nan; M1 = M.copy(); N = Y.copy(); N1 = N.copy()
            u.nandot(M.T, N[:, :1]); u.nanmatdot(M.T, N)
            unchanged(M, M1, 'first factor', **info); unchanged(N, N1, 'second factor', **info)
    elif k == 'energy':
        def run():
            d = mod('dicomo._dicomo_utils')
            M = np.abs(X - X.mean()); D = np.abs(M[:, :1] - M[:, :1].T); D1 = D.copy(); E = np.abs(Y[:, :1] - Y[:, :1].T); E1 = E.copy()
            d.double_center_flex(D, center=r.pick('mean', 'median'), biascorr=r.pick(True, False))
            d.distance_moment(D, E, n1=n, order=r.pick(2, 3), option=r.pick(1, 2)) if r.pick(0, 1) else d.distance_moment(D, E, n1=n, order=2)
            d.difference_divergence(X[:, :1], y.reshape(-1, 1)); d.MDDM(X, Y)
            d.U_inner(D, E); d.D_inner(D, E)
            unchanged(D, D1, 'first matrix', **info); unchanged(E, E1, 'second matrix', **info)
    elif k == 'loss':
        def run():
            f = mod('cross_validation._cv_support_functions').robust_loss
            u, v = y.copy(), y + 0.1 * r.np.randn(n); v1 = v.copy()
            f(u, v)
            unchanged(u, y, 'responses', **info); unchanged(v, v1, 'predictions', **info)
    else:
        def run():
            mod('sudire._sudire_utils').discretize(b if isinstance(b, np.ndarray) and b.ndim == 1 else y.copy(), r.int(2, 4))
    must(run, k, **info)
    unchanged(A, A1, 'data after %s' % k, **info)
    unchanged(b, b1, 'second block after %s' % k, **info)
    return {'what': k}


# ------------------------------------------------------------------ C19
SKIP = ('ols_obj_', 'scaling_object_', 'centring_', 'scalingt_', 'scaling_', 'most')


def results(e, Z):
    out = {}
    for a, v in sorted(vars(e).items()):
        if a.endswith('_') and not a.startswith('_') and a not in SKIP:
            try:
                w = np.asarray(v, dtype=float)
            except Exception:
                continue
            out[a] = w
    with quiet():
        out['predict'] = np.asarray(e.predict(Z), dtype=float).reshape(-1)
        if hasattr(e, 'transform'):
            out['transform'] = np.asarray(e.transform(Z), dtype=float)
    return out


def agree(a, b, msg, info):
    expect(a.keys() >= b.keys(), '%s: %s against %s' % (msg, sorted(a), sorted(b)), **info)
    for k in b:
        same(a[k], b[k], '%s: %s' % (msg, k), rtol=1e-9, atol=1e-11, **info)


@oracle('C19', 'refitting, settings and queries: results depend on the last fit only', reps=220, cost=5)
def o_hist(r):
    X, y = regdata(r)
    p = X.shape[1]
    which, s = make(r, None, X)
    which2, s2 = make(r, which, X)
    X2, y2 = regdata(r, plo=p, phi=p)
    if r.pick(0, 1):
        X2 = X2 * 3 + 7
    q = r.pick(p, p, p + 1)
    if q != p:
        X2 = np.column_stack([X2, r.np.randn(len(X2))])
    Z = r.np.randn(4, p)
    info = dict(estimator=which, settings=settings(s), other=settings(s2), X=X, y=y)
    with quiet():
        try:
            fresh = build(which, s); fresh.fit(X.copy(), y.copy())
        except Exception:
            raise Skip()
        ref = results(fresh, Z)
        if not all(np.isfinite(v).all() for v in ref.values()):
            raise Skip()
    # a fit of other data with other settings before
    e = build(which2, s2)
    p0 = deep(s)
    with quiet():
        try:
            e.fit(X2.copy(), y2.copy())
            e.predict(X2.copy())
            hasattr(e, 'transform') and e.transform(X2.copy())
        except Exception:
            pass
    must(lambda: e.set_params(**{k: v for k, v in s.items()}), 'set_params', **info)
    for k, v in s.items():
        expect(eq(e.get_params()[k], v), 'parameter %s is not the one set' % k, **info)
    if r.pick(0, 1):
        for d in range(r.int(1, 2)):
            with quiet():
                try: e.fit(X2.copy(), y2.copy())
                except Exception: pass
    must(lambda: e.fit(X.copy(), y.copy()), 'fit after another fit', **info)
    agree(results(e, Z), ref, 'fit after other fits against a fresh fit', info)
    # queries change nothing
    with quiet():
        e.predict(X.copy()); hasattr(e, 'transform') and e.transform(Z); which == 'sprm' and e.weightnewx(X.copy())
    agree(results(e, Z), ref, 'after queries', info)
    # a new estimator from the parameters of a fitted one
    g = cls(which)(**{k: v for k, v in e.get_params().items()})
    must(lambda: g.fit(X.copy(), y.copy()), 'fit of an estimator built from get_params', **info)
    agree(results(g, Z), ref, 'estimator built from the parameters of a fitted one', info)
    agree(results(fresh, Z), ref, 'another estimator changed this one', info)
    with quiet():
        h = cls(which)(**{k: v for k, v in s.items()})
        h.fit(X.copy(), y.copy()); h.fit(X.copy(), y.copy())
    agree(results(h, Z), ref, 'the same fit twice', info)
    return {'estimator': which}


@oracle('C19', 'scalers, moments and projection indices: results depend on the last call only', reps=600)
def o_hist2(r):
    n, p = r.size(6, 18), r.int(2, 4)
    X, X2 = r.data(n, p), r.data(r.int(6, 18), r.int(2, 4))
    k = r.pick('scaler', 'sign', 'wrap', 'dicomo', 'dicomo', 'capi', 'defaults')
    robc = mod('preprocessing.robcent'); gs = mod('preprocessing.gsspp')
    info = dict(entry=k, X=X)
    if k == 'scaler':
        c, s, t = r.pick('mean', 'median', 'l1median', 'kstepLTS', 'None'), r.pick('std', 'mad', 'scaleTau2', 'None'), r.pick(0, 0.1)
        v, w = robc.VersatileScaler(c, s, t), robc.VersatileScaler(c, s, t)
        v.fit(X2); v.transform(X2)
        par = v.get_params()
        expect(par['center'] == c and par['scale'] == s and par['trimming'] == t, 'parameters changed by fit', **info)
        v.fit(X); w.fit(X)
        same(v.col_loc_, w.col_loc_, 'location after another fit', **info)
        same(v.col_sca_, w.col_sca_, 'scale after another fit', **info)
        t1 = v.transform(X)
        v.transform(X * 2); v.predict(X + 1)
        same(v.transform(X), t1, 'transform asked again', **info)
        same(t1, w.fit_transform(X), 'transform after another fit', **info)
    elif k == 'sign':
        f = r.pick('ss', 'quad', 'winsor', 'ball', 'shell', 'linear_redescending')
        v, w = (gs.GenSpatialSignPreProcessor(center='l1median', fun=f) for _ in range(2))
        v.fit(X2); v.fit(X)
        same(v.transform(X), w.fit_transform(X), 'after another fit', rtol=1e-6, atol=1e-7, **info)
    elif k == 'wrap':
        v, w = robc.Wrapper(), robc.Wrapper()
        with quiet():
            v.fit(X2); v.transform(X2); v.fit(X)
            same(v.transform(X), w.fit_transform(X), 'wrapped data after another fit', **info)
    elif k == 'dicomo':
        est = r.pick('arithmetic', 'arithmetic', 'distance')
        m = r.pick('var', 'std', 'skew', 'kurt', 'cov', 'corr', 'cos', 'cok', 'continuum') if est == 'arithmetic' else r.pick('var', 'std', 'cov', 'corr')
        kw = dict(trimming=r.pick(0, 0.1), biascorr=r.pick(True, False)) if est == 'arithmetic' else {}
        two = m in ('cov', 'corr', 'cos', 'cok', 'continuum')
        c = r.pick('mean', 'mean', 'median')
        v, w = (dicomo()(est=est, mode=m, center=c) for _ in range(2))
        x, y = X[:, 0], X[:, 1]
        with quiet():
            for _ in range(r.int(1, 2)):
                try: v.fit(X2[:, 0], **({'y': X2[:, 1]} if two else {}), trimming=r.pick(0, 0.2), biascorr=r.pick(True, False), option=r.pick(1, 2), alpha=r.pick(0.5, 2))
                except Exception: pass
            a = w.fit(x, **({'y': y} if two else {}), **kw)
            b = v.fit(x, **({'y': y} if two else {}), **kw)
        par = v.get_params()
        expect(par['mode'] == m and par['est'] == est and par['center'] == c, 'parameters changed by fit: %s' % par, **info)
        same(b, a, 'moment after another call', **info)
        same(v.moment_, w.moment_, 'stored moment after another call', **info)
    elif k == 'capi':
        C = mod('ppdire.capi').capi
        v, w = (C(max_degree=r.pick(4)) for _ in range(2))
        v.fit(X2[:, 0], X2[:, 1])
        same(v.fit(X[:, 0], X[:, 1]), w.fit(X[:, 0], X[:, 1]), 'index after another call', **info)
        same(v.moments_, w.moments_, 'moments after another call', **info)
        D = dicomo()
        new = dict(max_degree=r.pick(2, 3, 4), pi_arguments={'est': r.pick('arithmetic', 'distance'), 'mode': 'cov', 'center': 'mean'}, scaling=r.pick(True, False), centring=r.pick(True, False), weights=[float(r.pick(1, -1, 2)) for _ in range(6)])
        v.set_params(**copy.deepcopy(new))
        w = C(projection_index=D, **copy.deepcopy(new))
        for q, z in w.get_params().items():
            if q in new: expect(eq(z, new[q]), 'parameter %s of the projection index is reported as %r' % (q, z), **info)
            expect(eq(v.get_params()[q], z) if q != 'projection_index' else True, 'parameter %s of the projection index after set_params' % q, **info)
        with quiet():
            try: want = w.fit(X[:, 0], X[:, 1])
            except Exception: want = None
            if want is not None: same(v.fit(X[:, 0], X[:, 1]), want, 'index after set_params', **info)
    else:
        # settings left at their defaults are not shared between estimators
        y = X @ np.ones(p) + 0.1 * r.np.randn(n)
        for nm in ('ppdire', 'sudire', 'snipls', 'sprm', 'rm'):
            a = (dicomo(),) if nm == 'ppdire' else (() if nm != 'sudire' else ('sir',))
            d0 = copy.deepcopy({k: v for k, v in cls(nm)(*a).get_params().items() if k != 'projection_index'})
            o = cls(nm)(*a)
            if nm == 'ppdire': o.set_params(pi_arguments={'mode': 'var'})
            with quiet():
                try: o.fit(X.copy(), y.copy())
                except Exception: pass
            expect(eq(deep(cls(nm)(*a).get_params()), d0), '%s: the defaults changed after a fit' % nm, **info)
    return {'what': k}


@oracle(['C18', 'C19'], 'the interior point optimiser is called with the caller\'s options left alone (solver stubbed)', reps=30)
def o_ipopt(r):
    import types
    w = mod('ipopt_temp.ipopt_wrapper')
    seen = []

    class Problem:
        def __init__(self, n, m, problem_obj, lb, ub, cl, cu):
            self.p = problem_obj; seen.append((n, m))

        def add_option(self, *a): pass
        addOption = add_option

        def solve(self, x):
            f = self.p.objective(x)
            return np.array(x), {'status': 0, 'status_msg': b'', 'obj_val': f}
    old = (w.cyipopt, w.CYIPOPT_INSTALLED)
    w.cyipopt, w.CYIPOPT_INSTALLED = types.SimpleNamespace(Problem=Problem), True
    try:
        o = {'maxiter': 5, 'disp': 0} if r.pick(0, 1) else {'max_iter': 7}
        o0 = dict(o)
        k = r.int(1, 3)
        x = r.np.randn(k)
        res = must(lambda: w.minimize_ipopt(lambda v: float((v ** 2).sum()), x, options=o), 'minimize', options=o0)
        same(res.x, x, 'solution handed back')
        same(res.fun, (x ** 2).sum(), 'value handed back')
        expect(eq(o, o0), 'the options handed over were modified: %s' % o, options=str(o0))
    finally:
        w.cyipopt, w.CYIPOPT_INSTALLED = old
    return {}


@oracle('C19', 'parameters after fitting whitened data', reps=3, known=True)
def o_white(r):
    X, y = regdata(r, plo=3, phi=3)
    e = cls('sudire')(sudiremeth='sir', n_components=1, whiten_data=True, scale_data=True, verbose=False)
    p0 = deep(e.get_params())
    with quiet():
        e.fit(X.copy(), y.copy())
    expect(eq(deep(e.get_params()), p0), 'parameters overwritten by fit', X=X, y=y)
