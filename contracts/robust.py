"""Contracts on the iteratively reweighted estimators sprm/rm.py and sprm/sprm.py (C07, C08)

The loop is verified by its invariant: at its head the data it works on are the preprocessed data, every case
multiplied by the square root of a weight of at least 1e-6 (an arbitrary one); one iteration from there ends in the state
the property describes.  The weight functions, the scaler and the inner solver are replaced by their contracts
(recorded arguments, arbitrary results)."""
from .lib import *
from pvc import snp, arr, path, loader, models

RM = 'sprm.rm'
SP = 'sprm.sprm'
Z = T.ZERO
LO = T.lift(1e-06)


def _floor(x):
    return T.ite(T.lt(x, LO), LO, x)


def ones(d):
    return A((d,), lambda i: T.ONE, 'f')


def _rm(fun, centre, scale, mode, ycol=False, frames=False):
    nm = 'rm.fit: %s weights, centre %s, scale %s, %s cutoffs%s' % (fun, centre, scale, mode, ', data frames' if frames else '')

    @contract(['C07', 'C08', 'C09', 'C18', 'C19'], nm, [RM + '.rm.fit', RM + '.rm.predict', RM + '.rm.__init__'], cost=3, select=FITSEL)
    def c(v):
        import numpy as np
        n, p, m = v.dim('n', 3), v.dim('p', 1), v.dim('m', 1)
        X, W = v.array('X', n, p), v.array('W', m, p)
        y = v.array('y', n, T.ONE) if ycol else v.array('y', n)
        yy = (lambda i: el('y', i, Z)) if ycol else (lambda i: el('y', i))
        E, loc = v.array('E', n, p), v.array('loc', p)
        F, yloc = v.array('F', n), v.array('yloc', T.ONE)
        if scale == 'None':     # the scaler then divides by ones
            sca, ysca, sx, sy = ones(p), ones(T.ONE), (lambda j: T.ONE), T.ONE
        else:
            sca, ysca, sx, sy = v.array('sca', p, pos=True), v.array('ysca', T.ONE, pos=True), (lambda j: el('sca', j)), el('ysca', Z)
        hx, hy, hr = [v.array(q, n, nonneg=True) for q in ('hx', 'hy', 'hr')]
        G, b = v.array('G', n, pos=True), v.array('b', p)
        mi = v.dim('maxit', 2)
        i_ = T.fresh_index(n, 'q')
        mod = v.mod(RM)
        log = {}

        class Scaler:
            def __init__(self, **k):
                log['scaler'].append(k)

            def set_params(self, **k):
                return self

            def fit_transform(self, x):
                log['scaled'].append(arr.asarray(x).copy())
                k = len(log['scaled'])
                if k == 1:
                    self.col_loc_, self.col_sca_ = loc.copy(), sca.copy()
                    return E.copy()
                if k == 2:
                    self.col_loc_, self.col_sca_ = yloc.copy(), ysca.copy()
                    return F.copy().reshape(-1, 1)
                return x

        def weight(nm_):
            def f(d, *cuts):
                log['weights'].append((nm_, arr.asarray(d).copy(), cuts))
                k = len(log['weights'])
                return (hx, hy, hr)[min(k, 3) - 1].copy()
            return f

        def lstsq(A_, B_, rcond=None, **k):
            log['lstsq'].append((arr.asarray(A_).copy(), arr.asarray(B_).copy()))
            return (b.copy(), None, None, None)
        v.stub(RM, 'VersatileScaler', Scaler)
        for q in ('Fair', 'Huber', 'Hampel'):
            v.stub(RM, q, weight(q))
        rule = v.loops()
        col = lambda f: A((n, p), lambda i: f(i[0], i[1]), 'f')
        vec = lambda f: A((n,), lambda i: f(i[0]), 'f')
        rule.templ = lambda g: [col(lambda i, j: el('E', i, j) * T.sqrt(g(i))), vec(lambda i: el('F', i) * T.sqrt(g(i))), vec(g), vec(lambda i: T.sqrt(g(i))),
                                col(lambda i, j: T.sqrt(g(i))), A((p, n), lambda i: T.sqrt(g(i[1])), 'f')]
        rule.ghost0 = lambda: (lambda i: _floor(el('hx', i) * el('hy', i)))
        rule.ghost = lambda i: el('G', i)
        rule.ghost1 = lambda: (lambda i: _floor(el('hx', i) * el('hr', i)))
        kw = dict(fun=fun, centre=centre, scale=scale, start_cutoff_mode=mode, copy=True)

        def go():
            log.update(scaler=[], scaled=[], weights=[], lstsq=[])
            keep = snp.LA['lstsq']
            snp.LA['lstsq'] = lstsq
            try:
                est = mod.rm(maxit=v.int(mi), **kw)
                est.fit(framed(X, frames), framed(y, frames))
                r = [est.coef_, est.coef_scaled_, est.intercept_, est.fitted_, est.residuals_, est.predict(framed(W, frames)), est.caseweights_, est.x_caseweights_, est.y_caseweights_, est.intercept_scaled_]
            finally:
                snp.LA['lstsq'] = keep
            return r, est, {k: list(q) for k, q in log.items()}
        outs = v.run(go)
        if not rule.uses: raise path.Unsupported('loop not found')
        bb = lambda j: el('b', j)
        for o in v.normal(outs):
            r, est, L = o.value
            B, Bs, ic, fi, rs, pr, cw, xw, yw, ics = [arr.asarray(q) for q in r]
            if len(L['lstsq']) != 1 or len(L['weights']) != 3: raise path.Unsupported('another sequence of calls')
            a_, y_ = L['lstsq'][0]
            v.equal(o, a_, lambda i, j: el('E', i, j) * T.sqrt(el('G', i)), (n, p), 'weighted data are regressed')
            v.equal(o, y_.ravel(), lambda i: el('F', i) * T.sqrt(el('G', i)), (n,), 'weighted responses are regressed')
            # distances handed to the weight function
            norm_ = lambda i: T.sqrt(sm(p, lambda j: sq(el('E', i, j))))
            f0, d0, c0 = L['weights'][0]
            f1, d1, c1 = L['weights'][1]
            f2, d2, c2 = L['weights'][2]
            if (f0, f1, f2) != (fun,) * 3: v.fail(o, 'weight function asked for', repr((f0, f1, f2)))
            v.equal(o, d0.ravel(), lambda i: norm_(i) * inv(med(n, norm_)), (n,), 'starting distances of the cases')
            if [centre, scale] == ['median', 'mad']:
                v.equal(o, d1.ravel(), lambda i: absv(el('F', i)), (n,), 'starting residuals')
            else:
                my = lambda: med(n, yy)
                v.equal(o, d1.ravel(), lambda i: absv(yy(i) - my()) * inv(T.lift(1.4826) * med(n, lambda s: absv(yy(s) - my()))), (n,), 'starting residuals')
            res = lambda i: absv(el('F', i) - sm(p, lambda j: el('E', i, j) * bb(j)))
            few = T.gt(n * H, count(n, lambda i: T.eq(res(i), Z)))
            sc = T.ite(few, med(n, res), med(n, res, lambda i: T.ne(res(i), Z)))
            v.equal(o, d2.ravel(), lambda i: res(i) * inv(T.lift(1.4826) * sc), (n,), 'residuals are scaled by their median (of the nonzero ones when half are zero)')
            import scipy.stats as S
            prob = [est.probp1] + ([est.probp2, est.probp3] if fun == 'Hampel' else [])
            for k, cs in ((0, c0), (1, c1), (2, c2)):
                if len(cs) != len(prob): raise path.Unsupported('cutoffs')
                for q, c_ in zip(prob, cs):
                    w_ = models.chi2.ppf(q, arr.wrap0(p)) if k == 0 and mode == 'specific' else S.norm.ppf(q)
                    v.prove(o, 'cutoffs', T.eq(T.lift(arr.scalar(c_)), T.lift(arr.scalar(w_))))
            # results
            w1 = lambda i: el('hx', i) * el('hr', i)
            cut = lambda f: (lambda i: T.ite(T.lt(w1(i), LO), Z, f(i)))
            v.equal(o, cw, cut(w1), (n,), 'case weights')
            v.equal(o, xw, cut(lambda i: el('hx', i)), (n,), 'case weights in the predictors')
            v.equal(o, yw, cut(lambda i: el('hr', i)), (n,), 'case weights in the response')
            v.equal(o, Bs.ravel(), bb, (p,), 'scaled coefficients are those of the last regression')
            v.equal(o, B.ravel(), lambda j: bb(j) * sy * inv(sx(j)), (p,), 'coefficients are on the original scale')
            beta = (lambda j: bb(j) * sy * inv(sx(j)))
            av = avg if centre == 'mean' else med
            pred = lambda nm_, i: sm(p, lambda j: el(nm_, i, j) * beta(j))
            I = lambda: av(n, lambda i: yy(i) - pred('X', i))
            v.equal(o, ic.ravel(), lambda q: I(), (T.ONE,), 'intercept')
            v.equal(o, fi.ravel(), lambda i: pred('X', i) + I(), (n,), 'fitted values')
            v.equal(o, rs.ravel(), lambda i: yy(i) - pred('X', i) - I(), (n,), 'residuals')
            v.equal(o, pr.ravel(), lambda i: pred('W', i) + I(), (m,), 'predictions')
            v.equal(o, ics.ravel(), lambda q: av(n, lambda i: el('F', i) - sm(p, lambda j: el('E', i, j) * bb(j))) if scale != 'None' else I(), (T.ONE,), 'scaled intercept')
            v.shape(o, fi, (n,), 'shape of the fitted values')
            v.shape(o, rs, (n,), 'shape of the residuals')
            s0 = L['scaler'][0]
            for q, x_ in (('center', centre), ('scale', scale)):
                if s0.get(q) != x_: v.fail(o, 'preprocessing asked for', '%s %r' % (q, s0.get(q)))
            v.equal(o, L['scaled'][0], lambda i, j: el('X', i, j), (n, p), 'the data are preprocessed')
            v.equal(o, L['scaled'][1].ravel(), lambda i: yy(i), (n,), 'the response is preprocessed')
            after = est.get_params()
            for q, x_ in kw.items():
                v.check(o, 'parameters are those of the user', after.get(q) == x_, '%s became %r' % (q, after.get(q)))
            v.unchanged(o, 'X', 'y', 'W')


for _f, _c, _s, _m in (('Hampel', 'median', 'mad', 'specific'), ('Huber', 'mean', 'std', 'specific'), ('Fair', 'median', 'None', 'normal')):
    _rm(_f, _c, _s, _m)
_rm('Huber', 'median', 'std', 'specific', True)
_rm('Hampel', 'mean', 'mad', 'normal', False, True)
_rm('Fair', 'median', 'mad', 'normal', True, True)



def _sprm(h, fun, centre, scale, mode, ycol, frames=False):
    nm = 'sprm.fit: %d component%s, %s weights, centre %s, scale %s, %s cutoffs%s' % (h, 's' if h > 1 else '', fun, centre, scale, mode, ', data frames' if frames else '')

    @contract(['C07', 'C08', 'C09', 'C18', 'C19'], nm, [SP + '.sprm.fit', SP + '.sprm.predict', SP + '.sprm.transform', SP + '.sprm.weightnewx', SP + '.sprm.__init__', 'utils.utils._check_input', 'utils.utils._predict_check_input'],
              bound='%d components, no column of (almost) zero scale, start_X_init other than pcapp; any data, any number of cases and variables' % h, cost=3, select=FITSEL)
    def c(v):
        import numpy as np
        import scipy.stats as S
        n, p, m = v.dim('n', h + 2), v.dim('p', h + 1), v.dim('m', 2)
        X, W = v.array('X', n, p), v.array('W', m, p)
        y = v.array('y', n, T.ONE) if ycol else v.array('y', n)
        yy = (lambda i: el('y', i, Z)) if ycol else (lambda i: el('y', i))
        E, loc, sca0 = v.array('E', n, p), v.array('loc', p), v.array('sca', p, pos=True)
        F, yloc, ysca = v.array('F', n), v.array('yloc', T.ONE), v.array('ysca', T.ONE, pos=True)
        hs = [v.array(q, n, nonneg=True) for q in ('hx', 'hy', 'ht', 'hr')]
        hn = v.array('hn', m, nonneg=True)
        G, b = v.array('G', n, pos=True), v.array('b', p, T.ONE)
        St, f_, P_, Wt, R_t, C_ = v.array('S', n, T.num(h)), v.array('f', n), v.array('P', p, T.num(h)), v.array('Wt', p, T.num(h)), v.array('R', p, T.num(h)), v.array('C', T.num(h), T.ONE)
        Dt, Dn = v.array('D', n, T.num(h)), v.array('Dn', m, T.num(h))
        EPS = T.lift(1e-5)
        sca = lambda j: el('sca', j) + EPS          # no column is dropped
        mi = v.dim('maxit', 2)
        mod = v.mod(SP)
        log = {}

        class Scaler:
            def __init__(self, **k):
                log['scaler'].append(k)
                self.scale = k.get('scale')

            def set_params(self, **k):
                self.scale = k.get('scale', self.scale)
                return self

            def fit_transform(self, x):
                log['scaled'].append((arr.asarray(x).copy(), self.scale))
                k = len(log['scaled'])
                if k == 1:
                    self.col_loc_, self.col_sca_ = loc.copy(), sca0.copy() + 1e-5
                    return E.copy()
                if k == 2:
                    self.col_loc_, self.col_sca_ = yloc.copy(), ysca.copy()
                    return F.copy().reshape(-1, 1)
                if k == 3:
                    return Dt.copy()
                return Dn.copy() if k == 5 else x

        class Inner:
            def __init__(self, *a, **k):
                log['inner'].append((a, k))

            def fit(self, x, z):
                log['fits'].append((arr.asarray(x).copy(), arr.asarray(z).copy()))
                self.x_scores_, self.coef_, self.fitted_, self.x_loadings_ = St.copy(), b.copy(), f_.copy(), P_.copy()
                self.x_weights_, self.x_Rweights_, self.C_ = Wt.copy(), R_t.copy(), C_.copy()
                self.x_ev_, self.y_ev_, self.colret_ = None, None, None
                return self

        def weight(nm_):
            def f(d, *cuts):
                log['weights'].append((nm_, arr.asarray(d).copy(), cuts))
                k = len(log['weights'])
                return (hn if k > 4 else hs[k - 1]).copy()
            return f
        v.stub(SP, 'VersatileScaler', Scaler)
        v.stub(SP, 'snipls', Inner)
        for q in ('Fair', 'Huber', 'Hampel'):
            v.stub(SP, q, weight(q))
        rule = v.loops()
        col = lambda f: A((n, p), lambda i: f(i[0], i[1]), 'f')
        vec = lambda f: A((n,), lambda i: f(i[0]), 'f')
        rule.templ = lambda g: [col(lambda i, j: el('E', i, j) * T.sqrt(g(i))), vec(lambda i: el('F', i) * T.sqrt(g(i))), vec(g), vec(lambda i: T.sqrt(g(i))),
                                col(lambda i, j: T.sqrt(g(i))), A((p, n), lambda i: T.sqrt(g(i[1])), 'f')]
        rule.ghost0 = lambda: (lambda i: _floor(el('hx', i) * el('hy', i)))
        rule.ghost = lambda i: el('G', i)
        rule.ghost1 = lambda: (lambda i: _floor(el('ht', i) * el('hr', i)))
        if fun == 'Hampel': rule.poison = ('probctx_', 'hampelbx_', 'hampelrx_')
        kw = dict(n_components=h, eta=0.3, fun=fun, centre=centre, scale=scale, start_cutoff_mode=mode, start_X_init='XY', copy=True, verbose=False)

        def go():
            log.update(scaler=[], scaled=[], weights=[], fits=[], inner=[])
            est = mod.sprm(maxit=v.int(mi), **kw)
            est.fit(framed(X, frames), framed(y, frames))
            r = [est.coef_, est.coef_scaled_, est.intercept_, est.fitted_, est.residuals_, est.predict(framed(W, frames)), est.caseweights_, est.x_caseweights_, est.y_caseweights_, est.intercept_scaled_,
                 est.x_scores_, est.transform(framed(W, frames)), est.weightnewx(framed(W, frames)), est.x_weights_, est.x_loadings_, est.x_Rweights_, est.C_]
            return r, est, {k: list(q) for k, q in log.items()}
        outs = v.run(go)
        if not rule.uses: raise path.Unsupported('loop not found')
        bb = lambda j: el('b', j, Z)
        K = T.num(h)
        for o in v.normal(outs):
            r, est, L = o.value
            B, Bs, ic, fi, rs, pr, cw, xw, yw, ics, t, tw, wn, w_, l_, rw_, c_ = [arr.asarray(q) for q in r]
            if len(L['fits']) != 1 or len(L['weights']) != 5 or len(L['inner']) != 1 or len(L['scaled']) < 3: raise path.Unsupported('another sequence of calls')
            a_, y_ = L['fits'][0]
            v.equal(o, a_, lambda i, j: el('E', i, j) * T.sqrt(el('G', i)), (n, p), 'weighted data are regressed')
            v.equal(o, y_.ravel(), lambda i: el('F', i) * T.sqrt(el('G', i)), (n,), 'weighted responses are regressed')
            args, kws = L['inner'][0]
            given = dict(zip(('eta', 'n_components', 'verbose', 'columns', 'centre', 'scale', 'copy'), args))
            given.update(kws)
            for q, x_ in (('eta', 0.3), ('n_components', h), ('centre', 'mean'), ('scale', 'None')):
                if given.get(q) != x_: v.fail(o, 'inner regression asked for', '%s %r' % (q, given.get(q)))
            # distances handed to the weight function
            norm_ = lambda D_, q, d: (lambda i: T.sqrt(sm(d, lambda j: sq(el(D_, i, j)))))
            names = [q[0] for q in L['weights']]
            if names != [fun] * 5: v.fail(o, 'weight function asked for', repr(names))
            d0, d1, d2, d3, d4 = [q[1].ravel() for q in L['weights']]
            f0 = norm_('E', n, p)
            v.equal(o, d0, lambda i: f0(i) * inv(med(n, f0)), (n,), 'starting distances of the cases')
            if [centre, scale] == ['median', 'mad']:
                v.equal(o, d1, lambda i: absv(el('F', i)), (n,), 'starting residuals')
            else:
                my = lambda: med(n, yy)
                v.equal(o, d1, lambda i: (yy(i) - my()) * inv(T.lift(1.4826) * med(n, lambda s: absv(yy(s) - my()))), (n,), 'starting residuals')
            v.equal(o, L['scaled'][2][0], lambda i, k: el('S', i, k) * inv(T.sqrt(el('G', i))), (n, K), 'scores are freed of the weights')
            if (L['scaled'][2][1]) != (scale if scale != 'None' else 'mad'): v.fail(o, 'scores are scaled', repr(L['scaled'][2][1]))
            f2 = norm_('D', n, K)
            v.equal(o, d2, lambda i: f2(i) * inv(med(n, f2)), (n,), 'distances of the scores')
            res = lambda i: absv(el('F', i) - el('f', i))
            few = T.gt(n * H, count(n, lambda i: T.eq(res(i), Z)))
            sc = T.ite(few, med(n, res), med(n, res, lambda i: T.ne(res(i), Z)))
            v.equal(o, d3, lambda i: res(i) * inv(T.lift(1.4826) * sc), (n,), 'residuals are scaled by their median (of the nonzero ones when half are zero)')
            f4 = norm_('Dn', m, K)
            v.equal(o, L['scaled'][4][0], lambda i, k: sm(p, lambda j: (el('W', i, j) - el('loc', j)) * inv(sca(j)) * el('R', j, k)), (m, K), 'new cases are weighted by their scores')
            v.equal(o, d4, lambda i: f4(i) * inv(med(m, f4)), (m,), 'distances of new cases')
            v.equal(o, wn.ravel(), lambda i: el('hn', i), (m,), 'weights of new cases')
            prob = [est.probp1] + ([est.probp2, est.probp3] if fun == 'Hampel' else [])
            for k in range(5):
                cs = L['weights'][k][2]
                if len(cs) != len(prob): raise path.Unsupported('cutoffs')
                for q, cc in zip(prob, cs):
                    x0 = models.chi2.ppf(q, arr.wrap0(p)) if mode == 'specific' else S.norm.ppf(q)
                    want = x0 if k == 0 else S.norm.ppf(q) if k in (1, 3) else S.chi2.ppf(q, h) if fun == 'Hampel' else x0
                    v.prove(o, 'cutoffs', T.eq(T.lift(arr.scalar(cc)), T.lift(arr.scalar(want))))
            # results
            w1 = lambda i: el('ht', i) * el('hr', i)
            cut = lambda f: (lambda i: T.ite(T.lt(w1(i), LO), Z, f(i)))
            v.equal(o, cw.ravel(), cut(w1), (n,), 'case weights')
            v.equal(o, xw.ravel(), cut(lambda i: el('ht', i)), (n,), 'case weights in the predictors')
            v.equal(o, yw.ravel(), cut(lambda i: el('hr', i)), (n,), 'case weights in the response')
            v.equal(o, Bs.ravel(), bb, (p,), 'scaled coefficients are those of the last regression')
            for q, a, nm_ in (('Wt', w_, 'weights'), ('P', l_, 'loadings'), ('R', rw_, 'rotations')):
                v.equal(o, a, lambda j, k: el(q, j, k), (p, K), '%s are those of the last regression' % nm_)
            v.equal(o, c_.ravel(), lambda k: el('C', k, Z), (K,), 'inner relation')
            v.equal(o, t, lambda i, k: sm(p, lambda j: el('E', i, j) * el('R', j, k)), (n, K), 'scores are the preprocessed data times the rotations')
            v.equal(o, tw, lambda i, k: sm(p, lambda j: (el('W', i, j) - el('loc', j)) * inv(sca(j)) * el('R', j, k)), (m, K), 'transform')
            beta = (lambda j: bb(j) * el('ysca', Z) * inv(sca(j)))
            v.equal(o, B.ravel(), beta, (p,), 'coefficients are on the original scale')
            av = avg if centre == 'mean' else med
            pred = lambda nm_, i: sm(p, lambda j: el(nm_, i, j) * beta(j))
            I = lambda: Z if centre == 'None' else av(n, lambda i: yy(i) - pred('X', i))
            v.equal(o, ic.ravel(), lambda q: I(), (T.ONE,), 'intercept')
            v.equal(o, fi.ravel(), lambda i: pred('X', i) + I(), (n,), 'fitted values')
            v.equal(o, rs.ravel(), lambda i: yy(i) - pred('X', i) - I(), (n,), 'residuals')
            v.equal(o, pr.ravel(), lambda i: pred('W', i) + I(), (m,), 'predictions')
            if scale != 'None':
                v.equal(o, ics.ravel(), lambda q: (avg if centre == 'mean' else med)(n, lambda i: el('F', i) - sm(p, lambda j: el('E', i, j) * bb(j))), (T.ONE,), 'scaled intercept')
            s0 = L['scaler'][0]
            for q, x_ in (('center', centre), ('scale', scale)):
                if s0.get(q) != x_: v.fail(o, 'preprocessing asked for', '%s %r' % (q, s0.get(q)))
            v.equal(o, L['scaled'][0][0], lambda i, j: el('X', i, j), (n, p), 'the data are preprocessed')
            v.equal(o, L['scaled'][1][0].ravel(), yy, (n,), 'the response is preprocessed')
            after = est.get_params()
            for q, x_ in kw.items():
                v.check(o, 'parameters are those of the user', after.get(q) == x_, '%s became %r' % (q, after.get(q)))
            v.unchanged(o, 'X', 'y', 'W')


for _h, _f, _c, _s, _m, _y in ((1, 'Hampel', 'median', 'mad', 'specific', False), (2, 'Huber', 'mean', 'std', 'specific', True), (1, 'Fair', 'median', 'None', 'normal', True), (2, 'Hampel', 'kstepLTS', 'mad', 'normal', False)):
    _sprm(_h, _f, _c, _s, _m, _y)


_sprm(1, 'Huber', 'mean', 'mad', 'normal', True, True)
_sprm(1, 'Fair', 'median', 'std', 'specific', False, True)
