"""Contracts on histories (C19): a fit overwrites whatever an earlier life of the estimator left behind.

For each estimator four fits are run in a row on symbolic data: a fresh one, the same one again after predictions, one of
an estimator made with other settings, whose state is arbitrary (every array, every number) and whose settings are then
set, and one of an estimator built from the parameters the first reports.  The state after each of them, and what each
hands to its callees, are proved to be that of the fresh one."""
from .lib import *
from pvc import snp, arr, path, loader, models
from .ppdire import PD
from .snipls import SN
from .robust import RM, SP, ones

Z = T.ZERO
SD, SU, DC = 'sudire.sudire', 'sudire._sudire_utils', 'dicomo.dicomo'
PP, GS = 'preprocessing.robcent', 'preprocessing.gsspp'


class Stale:
    """an object left behind: whether it is looked into is not decided here"""
    def _no(self, *a, **k):
        raise path.Unsupported('state left behind is looked into')
    __getattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __add__ = __radd__ = __mul__ = __rmul__ = _no
    __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __contains__ = __matmul__ = __rmatmul__ = _no

    def __deepcopy__(self, memo):
        return self


def plain(q):
    return q is None or isinstance(q, (bool, int, float, str, bytes))


def freeze(q):
    if isinstance(q, arr.IdxSel):
        return q
    if isinstance(q, A):
        return q.copy()
    if isinstance(q, (list, tuple)):
        return [freeze(x) for x in q]
    if isinstance(q, dict):
        return {k: freeze(x) for k, x in q.items()}
    return q


def state(e, params):
    return {k: freeze(q) for k, q in vars(e).items() if k not in params}


def same(v, o, a, b, what):
    """b is what a is"""
    if isinstance(a, models.Frame) or isinstance(b, models.Frame):
        return
    if isinstance(a, A) and isinstance(b, A):
        if any(isinstance(d, arr.Space) for d in a.shp + b.shp):
            if isinstance(a, arr.IdxSel) and isinstance(b, arr.IdxSel):
                j = tuple(T.fresh_index(d, 'q') for d in a.space.dims)
                if len(a.space.dims) == len(b.space.dims):
                    v.prove(o, what, T.iff(a.space.gd(j), b.space.gd(j)))
                return
            return
        return v.equal(o, b, lambda *ix: a.at(*ix), tuple(a.shp), what)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        v.check(o, what, len(a) == len(b), '%d entries, then %d' % (len(a), len(b)))
        for x, y in zip(a, b):
            same(v, o, x, y, what)
        return
    if isinstance(a, dict) and isinstance(b, dict):
        v.check(o, what, set(a) == set(b), '%s, then %s' % (sorted(map(str, a)), sorted(map(str, b))))
        for k in a:
            if k in b: same(v, o, a[k], b[k], what)
        return
    if isinstance(a, T.Poly) and isinstance(b, T.Poly):
        return v.prove(o, what, T.eq(a, b))
    if plain(a) or plain(b):
        v.check(o, what, plain(a) and plain(b) and a == b, '%r, then %r' % (a, b))


class Recorder(dict):
    def __init__(self):
        super().__init__()
        self.log = []

    def reset(self):
        self.clear()
        del self.log[:]

    def __call__(self, what, *a, **k):
        self.log.append((what, freeze(list(a)), freeze(k)))
        self[what] = self.get(what, 0) + 1
        return self[what]


def scaler(rec, outs):
    """outs: (scaled, location, scale) for each call; the data as they are afterwards"""
    class Scaler:
        def __init__(self, *a, **k):
            rec('scaler', *a, **k)

        def set_params(self, **k):
            rec('scaler settings', **k)
            return self

        def fit_transform(self, x):
            k = rec('scaling', arr.asarray(x))
            if k > len(outs):
                return x
            s, self.col_loc_, self.col_sca_ = [q.copy() for q in outs[k - 1]]
            return s
    return Scaler


def history(nm, functions, setup, bound=None, cost=1, paths=96):
    @contract('C19', nm, functions, cost=cost, **({'bound': bound} if bound else {}))
    def c(v):
        s = setup(v)
        new, kw, other, fit, use, rec = s['new'], s['kw'], s['other'], s['fit'], s.get('use'), s['rec']
        olds = {}

        def old(k, q):
            if isinstance(q, A) and not any(isinstance(d, arr.Space) for d in q.shp) and not isinstance(q, arr.IdxSel):
                if k not in olds:
                    v.arrays.setdefault('old_' + k, dict(shape=[T.lift(d) for d in q.shp], nan=False, kind='f', pos=False, nonneg=False, gen=None, ghost=True,
                                                         a=A(q.shp, lambda i: T.el('old_' + k, loader._flat(i)), 'f')))
                    olds[k] = v.arrays['old_' + k]['a']
                return olds[k].copy()
            if isinstance(q, float):
                return 0.123456789
            if q is None or isinstance(q, (str, bool, int)):
                return q
            return Stale()

        def go():
            runs = []

            def one(label, e, params):
                rec.reset()
                r = fit(e)
                runs.append((label, state(e, params), freeze(r) if r is not e else None, [q for q in rec.log], {k: q for k, q in get(e).items() if plain(q)}))
            get = lambda e: e.get_params() if hasattr(e, 'get_params') else {k: getattr(e, k) for k in kw}
            e1 = new(**kw)
            params = set(get(e1)) | set(kw)
            one('the first fit', e1, params)
            if use: use(e1)
            one('a second fit of the same data', e1, params)
            e2 = new(**other)
            for k, q in vars(e1).items():
                if k not in params: setattr(e2, k, old(k, q))
            if hasattr(e2, 'set_params'): e2.set_params(**kw)
            else:
                for k, q in kw.items(): setattr(e2, k, q)
            one('a fit after other data and other settings', e2, params)
            e3 = new(**{k: q for k, q in get(e1).items()})
            one('a fit of an estimator with the same parameters', e3, params)
            return runs
        outs = v.run(go, max_paths=paths)
        for o in v.normal(outs):
            runs = o.value
            _, st, r0, l0, p0 = runs[0]
            for q, x in kw.items():
                if plain(x): v.check(o, 'parameters are those of the user', p0.get(q, x) == x, '%s became %r' % (q, p0.get(q)))
            for label, s1, r1, l1, p1 in runs[1:]:
                v.check(o, '%s: parameters are the same' % label, p0 == p1, repr(p1))
                v.check(o, '%s: the same state is set' % label, set(st) <= set(s1), 'missing %s' % sorted(set(st) - set(s1)))
                for k in st:
                    if k in s1: same(v, o, st[k], s1[k], '%s: %s is that of the first' % (label, k))
                if r0 is not None: same(v, o, r0, r1, '%s: result is that of the first' % label)
                v.check(o, '%s: the same calls' % label, [q[0] for q in l0] == [q[0] for q in l1], '%s, then %s' % ([q[0] for q in l0], [q[0] for q in l1]))
                if len(l0) == len(l1):
                    for a, b in zip(l0, l1):
                        same(v, o, a[1:], b[1:], '%s: arguments of the same call (%s)' % (label, a[0]))


def data(v, ycol=False, lo=(3, 2)):
    n, p, m = v.dim('n', lo[0]), v.dim('p', lo[1]), v.dim('m', 1)
    X, W = v.array('X', n, p), v.array('W', m, p)
    y = v.array('y', n, T.ONE) if ycol else v.array('y', n)
    E, loc, sca = v.array('E', n, p), v.array('loc', p), v.array('sca', p, pos=True)
    F, yloc, ysca = v.array('F', n, T.ONE), v.array('yloc', T.ONE), v.array('ysca', T.ONE, pos=True)
    return n, p, m, X, W, y, [(E, loc, sca), (F, yloc, ysca)]


def s_snipls(centre, h):
    def setup(v):
        n, p, m, X, W, y, outs = data(v)
        mod = v.mod(SN)
        rec = Recorder()
        v.stub(SN, 'VersatileScaler', scaler(rec, outs))
        kw = dict(eta=0.4, n_components=h, verbose=False, columns=False, centre=centre, scale='None', copy=True)
        return dict(new=mod.snipls, kw=kw, other=dict(eta=0.1, n_components=1, verbose=True, columns=True, centre='None', scale='std', copy=False),
                    fit=lambda e: e.fit(X, y) and None, use=lambda e: (e.predict(W), e.transform(W)), rec=rec)
    history('snipls: fits do not depend on what came before, %d component%s, centre %s' % (h, 's' * (h > 1), centre), [SN + '.snipls.fit', SN + '.snipls.__init__', SN + '.snipls.predict', SN + '.snipls.transform'], setup,
            bound='%d components' % h)


for _c in ('mean', 'median'):
    s_snipls(_c, 1)


def s_rm(fun, centre, scale, mode):
    def setup(v):
        n, p, m, X, W, y, outs = data(v)
        mod = v.mod(RM)
        rec = Recorder()
        v.stub(RM, 'VersatileScaler', scaler(rec, outs))
        hs = [v.array(q, n, nonneg=True) for q in ('hx', 'hy', 'hr')]
        b = v.array('b', p)
        for q in ('Fair', 'Huber', 'Hampel'):
            v.stub(RM, q, (lambda q: lambda d, *cuts: hs[min(rec(q, d, *cuts), 3) - 1].copy())(q))

        def fit(e):
            keep = snp.LA['lstsq']
            snp.LA['lstsq'] = lambda A_, B_, rcond=None, **k: (rec('regression', A_, B_), (b.copy(), None, None, None))[1]
            try:
                e.fit(X, y)
            finally:
                snp.LA['lstsq'] = keep
        kw = dict(fun=fun, probp1=0.95, probp2=0.975, probp3=0.999, centre=centre, scale=scale, start_cutoff_mode=mode, verbose=False, maxit=2, tol=0.01, copy=True)
        other = dict(fun='Fair' if fun != 'Fair' else 'Hampel', probp1=0.8, probp2=0.9, probp3=0.97, centre='mean' if centre != 'mean' else 'median', scale='mad', start_cutoff_mode='normal' if mode != 'normal' else 'specific', verbose=True, maxit=5, tol=0.1, copy=False)
        return dict(new=mod.rm, kw=kw, other=other, fit=fit, use=lambda e: e.predict(W), rec=rec)
    history('rm: fits do not depend on what came before, %s weights, centre %s, scale %s, %s cutoffs' % (fun, centre, scale, mode), [RM + '.rm.fit', RM + '.rm.__init__', RM + '.rm.predict'], setup, bound='one reweighting step', cost=3)


for _a in (('Hampel', 'median', 'mad', 'specific'), ('Huber', 'mean', 'std', 'normal'), ('Fair', 'median', 'None', 'specific')):
    s_rm(*_a)


def s_sprm(fun, centre, scale, mode):
    def setup(v):
        n, p, m, X, W, y, outs = data(v)
        mod = v.mod(SP)
        rec = Recorder()
        EPS = 1e-5
        (E, loc, sca), second = outs
        Dt, Dn = v.array('D', n, T.ONE), v.array('Dn', m, T.ONE)

        class Scaler(scaler(rec, [])):
            def fit_transform(self, x):
                k = rec('scaling', arr.asarray(x))
                if k == 1:
                    self.col_loc_, self.col_sca_ = loc.copy(), sca.copy() + EPS
                    return E.copy()
                if k == 2:
                    self.col_loc_, self.col_sca_ = second[1].copy(), second[2].copy()
                    return second[0].copy()
                return Dt.copy() if k == 3 else x
        hs = [v.array(q, n, nonneg=True) for q in ('hx', 'hy', 'ht', 'hr')]
        hn = v.array('hn', m, nonneg=True)
        h = T.ONE
        G = dict(x_scores_=v.array('S', n, h), coef_=v.array('b', p, h), fitted_=v.array('f', n), x_loadings_=v.array('P', p, h), x_weights_=v.array('Wt', p, h), x_Rweights_=v.array('R', p, h), C_=v.array('C', h, h))

        class Inner:
            def __init__(self, *a, **k): rec('inner', *a, **k)

            def fit(self, x, z):
                rec('inner fit', x, z)
                for k, q in G.items(): setattr(self, k, q.copy())
                self.x_ev_ = self.y_ev_ = self.colret_ = None
                return self

        def weight(q):
            def f(d, *cuts):
                k = rec(q, d, *cuts)
                return (hn if k > 4 else hs[k - 1]).copy()
            return f
        v.stub(SP, 'VersatileScaler', Scaler)
        v.stub(SP, 'snipls', Inner)
        for q in ('Fair', 'Huber', 'Hampel'):
            v.stub(SP, q, weight(q))
        kw = dict(n_components=1, eta=0.3, fun=fun, probp1=0.95, probp2=0.975, probp3=0.999, centre=centre, scale=scale, start_cutoff_mode=mode, start_X_init='XY', columns=False, copy=True, verbose=False, maxit=2, tol=0.01)
        other = dict(n_components=2, eta=0.6, fun='Fair' if fun != 'Fair' else 'Hampel', probp1=0.8, probp2=0.9, probp3=0.97, centre='mean' if centre != 'mean' else 'median', scale='mad', start_cutoff_mode='normal' if mode != 'normal' else 'specific', start_X_init='pcapp', columns=True, copy=False, verbose=True, maxit=7, tol=0.3)
        return dict(new=mod.sprm, kw=kw, other=other, fit=lambda e: e.fit(X, y) and None, use=lambda e: (e.predict(W), e.transform(W)), rec=rec)
    history('sprm: fits do not depend on what came before, %s weights, centre %s, scale %s, %s cutoffs' % (fun, centre, scale, mode), [SP + '.sprm.fit', SP + '.sprm.__init__', SP + '.sprm.predict', SP + '.sprm.transform'], setup,
            bound='one component, one reweighting step', cost=3)


for _a in (('Hampel', 'median', 'mad', 'specific'), ('Huber', 'mean', 'std', 'normal'), ('Fair', 'median', 'None', 'specific')):
    s_sprm(*_a)


def s_ppdire(h, two, center, square, whiten=False):
    def setup(v):
        n, p, m, X, W, y, outs = data(v, True, (h + 1, h + 1))
        val = v.array('val', T.num(6 * h))
        us = [v.array('u%d' % k, p) for k in range(h)]
        mod = v.mod(PD)
        rec = Recorder()

        class PI:
            def __init__(self, **k):
                rec('index made', **k)

            def fit(self, x, **k):
                return arr.wrap0(T.el('val', (T.num(rec('index', x, **k) - 1),)))

        class Other(PI):
            def __init__(self, **k):
                rec('another index made', **k)

        class Res: pass

        def minimize(f, x0, args=(), **k):
            r = Res()
            r.x = us[rec('search', getattr(f, '__name__', ''), x0, [q for q in args if not hasattr(q, 'fit')], {q: x for q, x in k.items() if q not in ('constraints', 'jac')}) - 1].copy()
            return r
        v.stub(PD, 'VersatileScaler', scaler(rec, outs))
        v.stub(PD, 'minimize', minimize)
        kw = dict(projection_index=PI, pi_arguments={'mode': 'x'}, n_components=h, trimming=0, alpha=1, optimizer='SLSQP', optimizer_options={'maxiter': 50}, optimizer_constraints=None, regopt='OLS', center=center, center_data=True, scale_data=True, whiten_data=False, square_pi=square, compression=False, copy=True, verbose=False, return_scaling_object=True)
        other = dict(projection_index=Other, pi_arguments={'mode': 'y'}, n_components=3, trimming=0.1, alpha=2, optimizer='grid', optimizer_options={'ndir': 4}, regopt='robust', center='mean' if center != 'mean' else 'median', center_data=False, scale_data=False, square_pi=not square, copy=False, verbose=True, return_scaling_object=False)
        return dict(new=mod.ppdire, kw=kw, other=other, fit=lambda e: (e.fit(X, y) if two else e.fit(X)) and None, use=lambda e: (e.transform(W), two and e.predict(W)), rec=rec)
    history('ppdire: fits do not depend on what came before, %d component%s, %s, centre %s' % (h, 's' * (h > 1), 'with a response' if two else 'one block', center), [PD + '.ppdire.fit', PD + '.ppdire.__init__', PD + '.ppdire.transform', PD + '.ppdire.predict'], setup,
            bound='%d components' % h)


s_ppdire(1, False, 'mean', False)
s_ppdire(1, True, 'median', True)
s_ppdire(2, True, 'mean', False)


def s_sudire(meth, center, scale):
    from .sudire import METH

    def setup(v):
        n, p, d, m = v.dim('n', 4), v.dim('p', 2), v.dim('d', 1), v.dim('m', 1)
        v.requires(T.le(d, p), T.le(p, n - 2))
        X, D, W, y = v.array('X', n, p), v.array('D', p, d), v.array('W', m, p), v.array('Y', n, T.ONE)
        mod = v.mod(SD)
        rec = Recorder()
        v.stub(SU, METH[meth], lambda *a, **k: (rec('method', *a, **k), D.copy())[1])
        kw = dict(sudiremeth=meth, n_components=v.int(d), trimming=0, optimizer_options={'max_iter': 7}, optimizer_constraints=None, optimizer_arguments=None, optimizer_start=None, center_data=True, center=center, scale_data=scale, whiten_data=False,
                  compression=False, n_slices=7, dmetric='euclidean', fit_ols=True, copy=True, response_type='discrete', verbose=False, return_scaling_object=True)
        other = dict(sudiremeth='phd' if meth != 'phd' else 'sir', n_components=1, trimming=0.2, optimizer_options={'max_iter': 9}, optimizer_start=None, center_data=False, center='median' if center == 'mean' else 'mean', scale_data=not scale, n_slices=3, fit_ols=False, copy=False, response_type='continuous', verbose=True, return_scaling_object=False)
        return dict(new=mod.sudire, kw=kw, other=other, fit=lambda e: e.fit(X, y) and None, use=lambda e: (e.transform(W), e.predict(W)), rec=rec)
    history('sudire: fits do not depend on what came before, %s, centre %s%s' % (meth, center, ', standardised' if scale else ''), [SD + '.sudire.fit', SD + '.sudire.__init__', SD + '.sudire.transform', SD + '.sudire.predict'], setup)


for _a in (('sir', 'mean', False), ('phd', 'median', True), ('iht', 'mean', True)):
    s_sudire(*_a)


def s_dicomo(mode, center, k=None):
    def setup(v):
        n = v.dim('n', 5)
        x, y = v.array('X', n, T.ONE), v.array('Y', n, T.ONE)
        mod = v.mod(DC)
        rec = Recorder()
        kw = dict(est='arithmetic', mode=mode, center=center)
        kk = dict(k or {}, biascorr=True)
        return dict(new=mod.dicomo, kw=kw, other=dict(est='distance', mode='corr' if mode != 'corr' else 'kurt', center='median' if center == 'mean' else 'mean'), fit=lambda e: e.fit(x, y=y, **kk), use=lambda e: e.fit(x, y=y), rec=rec)
    history('dicomo: fits do not depend on what came before, mode %s, centre %s' % (mode, center), [DC + '.dicomo.fit', DC + '.dicomo.__init__', DC + '.dicomo.set_params', DC + '.dicomo.get_params'], setup)


for _a in (('var', 'mean'), ('skew', 'mean'), ('kurt', 'mean'), ('cov', 'median'), ('cos', 'mean', {'option': 2}), ('cok', 'mean', {'option': 3}), ('corr', 'mean'), ('continuum', 'mean', {'alpha': 2})):
    s_dicomo(*_a)


def s_capi(deg, scaling):
    CP = 'ppdire.capi'

    def setup(v):
        n = v.dim('n', 5)
        x, y, val = v.array('X', n, T.ONE), v.array('Y', n, T.ONE), v.array('val', T.num(9))
        mod = v.mod(CP)
        rec = Recorder()

        class PI:
            def __init__(self, **k):
                self.k = k

            def set_params(self, **k):
                self.k = dict(self.k, **k)

            def fit(self, x, **k):
                return arr.wrap0(T.el('val', (T.num(rec('index', type(self).__name__, self.k, x, **k) - 1),)))

        class Other(PI): pass
        kw = dict(max_degree=deg, projection_index=PI, pi_arguments={'est': 'a'}, weights=[1, 2, 3, 4, 5, 6], centring=True, scaling=scaling, options='all')
        other = dict(max_degree=2 if deg != 2 else 4, projection_index=Other, pi_arguments={'est': 'b'}, weights=[0, 0, 0, 1, 1, 1], centring=False, scaling=not scaling, options=[2])
        return dict(new=mod.capi, kw=kw, other=other, fit=lambda e: e.fit(x, y), rec=rec)
    history('capi: fits do not depend on what came before, degree %d%s' % (deg, ', scaled' if scaling else ''), [CP + '.capi.fit', CP + '.capi.__init__', CP + '.capi.set_params', CP + '.capi.get_params'], setup)


s_capi(3, True)
s_capi(4, False)


def s_scaler(center, scale, trim):
    def setup(v):
        n, p, m = v.dim('n', 4), v.dim('p', 1), v.dim('m', 2)
        X, W = v.array('X', n, p), v.array('W', m, p)
        mod = v.mod(PP)
        return dict(new=mod.VersatileScaler, kw=dict(center=center, scale=scale, trimming=trim), other=dict(center='None', scale='None', trimming=0.4), fit=lambda e: e.fit_transform(X), use=lambda e: (e.predict(W), e.transform(W)), rec=Recorder())
    history('VersatileScaler: fits do not depend on what came before, centre %s, scale %s' % (center, scale), [PP + '.VersatileScaler.' + q for q in ('fit', 'fit_transform', 'transform', 'predict', '__init__')], setup)


s_scaler('mean', 'std', 0)
s_scaler('median', 'mad', 0)


def s_wrapper():
    def setup(v):
        n, p, m = v.dim('n', 4), v.dim('p', 1), v.dim('m', 2)
        X, W = v.array('X', n, p), v.array('W', m, p)
        mod = v.mod(PP)
        rec = Recorder()
        out = v.array('out', n, p)
        v.stub(PP, 'wrap', lambda *a, **k: (rec('wrap', *a, **k), out.copy())[1])
        return dict(new=mod.Wrapper, kw={}, other={}, fit=lambda e: e.fit_transform(X), use=lambda e: (e.predict(W), e.transform(W)), rec=rec)
    history('Wrapper: fits do not depend on what came before', [PP + '.Wrapper.' + q for q in ('fit', 'fit_transform', 'transform', 'predict', '__init__')], setup)


s_wrapper()


def s_sign(center, fun):
    def setup(v):
        n, p, m = v.dim('n', 4), v.dim('p', 1), v.dim('m', 2)
        v.requires(T.le(p + 1, n), T.le(p + 1, m))       # the cut-offs are order statistics up to (n + p + 1)/2
        X, W = v.array('X', n, p), v.array('W', m, p)
        mod = v.mod(GS)
        return dict(new=mod.GenSpatialSignPreProcessor, kw=dict(center=center, fun=fun), other=dict(center='None', fun='quad' if fun != 'quad' else 'ss'), fit=lambda e: e.fit_transform(X), use=lambda e: e.transform(W), rec=Recorder())
    history('GenSpatialSignPreProcessor: fits do not depend on what came before, centre %s, %s' % (center, fun), [GS + '.GenSpatialSignPreProcessor.' + q for q in ('fit', 'fit_transform', 'transform', '__init__')], setup)


s_sign('mean', 'ss')
s_sign('median', 'winsor')
