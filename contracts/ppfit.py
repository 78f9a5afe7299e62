"""Contracts on ppdire/ppdire.py: fit, transform, predict (C11, C08, C09)"""
from .lib import *
from pvc import snp, arr, path
from .ppdire import PD, Z


def _fit(h, two, center, scale, square, copy_, frames=False, opt='SLSQP', given=False, raw=False, inner='OLS', alpha=1, trim=0):
    nm = 'ppdire.fit: %d component%s, %s%s, centre %s%s%s' % (h, 's' if h > 1 else '', 'with a response' if two else 'one block', ', squared index' if square else '', center, '' if scale else ', unscaled', ('' if copy_ else ', without copying') + (', data frames' if frames else '') + ('' if opt == 'SLSQP' else ', ' + opt) + (', constraint of the user' if given else '') + (', data as they are' if raw else '') + ('' if inner == 'OLS' else ', %s inner regression' % inner) + (', trimmed' if trim else ''))

    @contract(['C11', 'C08', 'C09', 'C12', 'C18', 'C19'], nm, [PD + '.ppdire.fit', PD + '.ppdire.transform', PD + '.ppdire.predict', PD + '.ppdire.__init__'], bound='%d components; any data, any number of cases and variables, any directions found by the optimiser' % h, select=FITSEL)
    def c(v):
        import numpy as np
        grid = opt == 'grid'
        n, p, m = v.dim('n', h + 1), T.num(2) if grid else v.dim('p', h + 1), v.dim('m', 1)
        X, W = v.array('X', n, p), v.array('W', m, p)
        E, loc, sca = v.array('E', n, p), v.array('loc', p), v.array('sca', p, pos=True)
        val = v.array('val', T.num(4 * h))
        us = [v.array('u%d' % k, p) for k in range(h)]
        if raw:
            # nothing is centred or scaled
            ELE = lambda i, j: el('X', i, j)
            LOC, SCA = (lambda j: Z), (lambda j: T.ONE)
            FE, YS = (lambda i: el('Y', i, Z)), T.ONE
        else:
            ELE = lambda i, j: el('E', i, j)
            LOC, SCA = (lambda j: el('loc', j)), (lambda j: el('sca', j))
            FE, YS = (lambda i: el('F', i, Z)), el('ysca', Z)
        cc = v.array('cc', T.num(h)) if inner != 'OLS' else None
        if two:
            Y, F = v.array('Y', n, T.ONE), v.array('F', n, T.ONE)
            yloc, ysca = v.array('yloc', T.ONE), v.array('ysca', T.ONE, pos=True)
        mod = v.mod(PD)
        log = {}

        class PI:
            def __init__(self, **k):
                log['pi'] = k

            def fit(self, x, **k):
                log['calls'].append((arr.asarray(x).copy(), k))
                return arr.wrap0(T.el('val', (T.num(len(log['calls']) - 1),)))

        class Scaler:
            def __init__(self, **k):
                log['scaler'].append(k)

            def fit_transform(self, x):
                log['scaled'].append(arr.asarray(x).copy())
                if len(log['scaled']) == 1:
                    self.col_loc_, self.col_sca_ = loc.copy(), sca.copy()
                    return E.copy()
                self.col_loc_, self.col_sca_ = yloc.copy(), ysca.copy()
                return F.copy()

        class Res:
            pass

        mine = {'type': 'ineq', 'fun': lambda x: x}
        own = {'maxiter': 7}

        def searched(f, args, meth, k):
            r = Res()
            k_ = len(log['opt'])
            r.x = us[k_].copy()
            con = k.get('constraints')
            con = list(con) if isinstance(con, (list, tuple)) else [con]
            if given and mine not in con: v_fail.append('the constraint of the user is not handed on')
            if opt != 'differential_evolution' and k.get('options') != own: v_fail.append('options of the optimiser: %r' % (k.get('options'),))
            con = [c_ for c_ in con if c_ is not mine]
            con = con[0] if len(con) == 1 else None
            if isinstance(con, NLC): con = {'type': 'eq' if isinstance(con.lb, (int, float)) and con.lb == con.ub == 0 else 'other', 'fun': con.fun}
            if not isinstance(con, dict): con = None
            log['opt'].append((f, [arr.asarray(a).copy() if isinstance(a, A) else a for a in args], meth, con and con.get('type'), arr.scalar(con['fun'](us[k_].copy())) if con else None))
            return r
        v_fail = []

        class NLC:
            def __init__(self, fun, lb, ub, **k):
                self.fun, self.lb, self.ub = fun, lb, ub

        class RM:
            def __init__(self, **k):
                log['inner'].append([k])

            def fit(self, t, y):
                log['inner'][-1] += [arr.asarray(t).copy(), arr.asarray(y).copy()]
                self.coef_ = arr.asarray([arr.wrap0(el('cc', T.num(len(log['inner']) - 1)))])
                return self

        class QR:
            def __init__(self, y, t):
                log['inner'].append([None, arr.asarray(t).copy(), arr.asarray(y).copy()])

            def fit(self, q=None):
                log['inner'][-1][0] = {'q': q}
                self.params = arr.asarray([arr.wrap0(el('cc', T.num(len(log['inner']) - 1)))])
                return self
        v.stub(PD, 'VersatileScaler', Scaler)
        v.stub(PD, 'minimize', lambda f, x0, args=(), **k: searched(f, args, k.get('method'), k))
        v.stub(PD, 'minimize_ipopt', lambda f, x0, args=(), **k: searched(f, args, 'IPOPT', k))
        v.stub(PD, 'differential_evolution', lambda f, bounds, args=(), **k: searched(f, args, 'differential_evolution', k))
        v.stub(PD, 'NonlinearConstraint', NLC)

        def plane(X_, most, pi_arguments=None, **k):
            k_ = len(log['opt'])
            log['opt'].append((most, [arr.asarray(X_).copy(), dict(pi_arguments)], 'grid', None, None))
            return us[k_].copy().reshape((2, 1)), arr.wrap0(el('top', T.num(k_)))
        if grid:
            v.array('top', T.num(h))
            v.stub(PD, 'gridplane', plane)
        v.stub(PD, 'rm', RM)
        v.stub(PD, 'QuantReg', QR)
        kw = dict(n_components=h, center=center, scale_data=scale, square_pi=square, copy=copy_, optimizer=opt, center_data=not raw, regopt=inner, optimizer_options=own, alpha=alpha, trimming=trim)

        def go():
            log.update(pi=None, calls=[], scaler=[], scaled=[], opt=[], inner=[])
            del v_fail[:]
            pia = {'mode': 'x'}
            est = mod.ppdire(projection_index=PI, pi_arguments=pia, **({'optimizer_constraints': mine} if given else {}), **kw)
            est.fit(framed(X, frames), framed(Y, frames)) if two else est.fit(framed(X, frames))
            L = {k: (list(q) if isinstance(q, list) else q) for k, q in log.items()}
            r = [est.x_weights_, est.x_scores_, est.x_loadings_, est.x_rotations_, est.transform(framed(W, frames)), est.Maxobjf_]
            if two: r += [est.crit_values_, est.coef_, est.coef_scaled_, est.intercept_, est.fitted_, est.residuals_, est.predict(framed(W, frames)), est.y_loadings_, est.intercept_scaled_]
            return r, est, L, pia, list(v_fail)
        outs = v.run(go)
        for o in v.normal(outs):
            r, est, L, pia, bad = o.value
            v.check(o, 'constraints and options of the user reach the optimiser', not bad, '; '.join(bad))
            w, t, P, R, tw, mx = [arr.asarray(q) for q in r[:6]]
            v.shape(o, w, (p, T.num(h)), 'shape of the weights')
            v.shape(o, t, (n, T.num(h)), 'shape of the scores')
            v.shape(o, P, (p, T.num(h)), 'shape of the loadings')
            v.shape(o, R, (p, T.num(h)), 'shape of the rotations')
            K = [T.num(k) for k in range(h)]
            i, j = T.fresh_index(n, 'q'), T.fresh_index(p, 'q')
            for k in range(h):
                if grid:
                    v.prove(o, 'weights of component %d are those of the best direction of the grid' % k, T.eq(w.at(j, K[k]), el('u%d' % k, j)))
                    v.prove(o, 'largest value of component %d is that of the grid' % k, T.eq(mx.at(K[k], Z), el('top', K[k])))
                else: v.prove(o, 'weights of component %d have unit norm' % k, T.eq(sm(p, lambda q: sq(w.at(q, K[k]))), T.ONE))
                if not grid: v.prove(o, 'weights of component %d point where the optimiser says' % k, T.eq(w.at(j, K[k]) * T.sqrt(sm(p, lambda q: sq(el('u%d' % k, q)))), el('u%d' % k, j)))
                for l in range(k):
                    v.prove(o, 'scores of components %d and %d are orthogonal' % (l, k), T.eq(sm(n, lambda q: t.at(q, K[l]) * t.at(q, K[k])), Z))
                v.prove(o, 'loadings of component %d regress the data on the scores' % k, T.eq(P.at(j, K[k]) * sm(n, lambda q: sq(t.at(q, K[k]))), sm(n, lambda q: ELE(q, j) * t.at(q, K[k]))))
                v.prove(o, 'scores of component %d are the data times the rotations' % k, T.eq(t.at(i, K[k]), sm(p, lambda q: ELE(i, q) * R.at(q, K[k]))))
            v.equal(o, tw, lambda r_, k: sm(p, lambda q: (el('W', r_, q) - LOC(q)) * inv(SCA(q)) * R.at(q, k)), (m, T.num(h)), 'transform')
            # what the optimiser is given
            D = lambda k: (lambda i_, j_: ELE(i_, j_) - sum((t.at(i_, K[l]) * P.at(j_, K[l]) for l in range(k)), Z))
            if len(L['opt']) != h: raise path.Unsupported('optimiser called %d times' % len(L['opt']))
            for k, (f, a, meth, ct, cf) in enumerate(L['opt']):
                data = [q for q in a if isinstance(q, A)]
                if len(data) != 1 or meth != opt or (not grid and (getattr(f, '__name__', '') != 'pp_objective' or ct is None)): raise path.Unsupported('optimiser called in another way')
                v.equal(o, data[0], D(k), (n, p), 'component %d is sought in the deflated data' % k)
                if grid: v.check(o, 'the index asked for is maximised', f is est.most, repr(f))
                else: v.prove(o, 'directions of unit norm are sought', T.and_(T.TRUE if ct == 'eq' else T.FALSE, T.eq(cf, T.sqrt(sm(p, lambda q: sq(el('u%d' % k, q)))) - 1)))
                oa = [q for q in a if isinstance(q, dict)]
                if len(oa) != 1: raise path.Unsupported('optimiser called in another way')
                for q, x_ in (('alpha', alpha), ('trimming', trim), ('biascorr', False), ('dmetric', 'euclidean')):
                    if oa[0].get(q) != x_: v.fail(o, 'arguments handed to the index', '%s %r' % (q, oa[0].get(q)))
                if two: v.equal(o, oa[0]['y'], lambda i_, j_: FE(i_), (n, T.ONE), 'the preprocessed response is handed to the index')
            sc = L['scaler']
            for q, x_ in (('center', center), ('scale', 'None' if not scale else 'std' if center == 'mean' else 'mad'), ('trimming', trim)):
                if sc[0].get(q) != x_: v.fail(o, 'preprocessing asked for', '%s %r' % (q, sc[0].get(q)))
            if not raw: v.equal(o, L['scaled'][0], lambda i_, j_: el('X', i_, j_), (n, p), 'the data are preprocessed')
            # value of the criterion
            for nm_, a in ([] if grid else [('largest value', mx)]) + ([('criterion value', arr.asarray(r[6]))] if two else []):
                for k in range(h):
                    x_ = T.lift(a.at(K[k], Z))
                    hit = [q for q in range(len(L['calls'])) if x_ is el('val', T.num(q)) or x_ is sq(el('val', T.num(q)))]
                    if len(hit) != 1:
                        v.fail(o, '%s of component %d' % (nm_, k), repr(x_))
                        continue
                    if nm_[0] == 'c': v.prove(o, 'criterion value is squared when asked', T.eq(x_, sq(el('val', T.num(hit[0]))) if square else el('val', T.num(hit[0]))))
                    d_ = L['calls'][hit[0]][0]
                    v.prove(o, '%s of component %d is the index of its scores' % (nm_, k), T.eq(d_.ravel().at(i), t.at(i, K[k])))
            if two:
                if not raw: v.equal(o, L['scaled'][1].ravel(), lambda i_: el('Y', i_, Z), (n,), 'the response is preprocessed')
                B, Bs, ic, fi, rs, pr, C, ics = [arr.asarray(q) for q in r[7:]]
                v.shape(o, B, (p, T.num(h)), 'shape of the coefficients')
                tt = [sm(n, lambda q: sq(t.at(q, K[k]))) for k in range(h)]
                for k in range(h):
                    if inner != 'OLS':
                        v.prove(o, 'inner relation %d is the regression asked for' % k, T.eq(C.at(K[k], Z), el('cc', T.num(k))))
                        k_, t_, y_ = L['inner'][k]
                        if inner == 'quantile': v.check(o, 'median regression unless told otherwise', k_.get('q') == 0.5, repr(k_))
                        v.equal(o, t_.ravel(), lambda i_: t.at(i_, K[k]), (n,), 'inner regression %d is on the score' % k)
                        v.equal(o, y_.ravel(), lambda i_: FE(i_), (n,), 'inner regression %d is of the preprocessed response' % k)
                    else: v.prove(o, 'inner relation %d' % k, T.eq(C.at(K[k], Z) * tt[k], sm(n, lambda q: t.at(q, K[k]) * FE(q))))
                    v.prove(o, 'scaled coefficients for %d components' % (k + 1), T.eq(Bs.at(j, K[k]), sum((R.at(j, K[l]) * C.at(K[l], Z) for l in range(k + 1)), Z)))
                    v.prove(o, 'coefficients for %d components are on the original scale' % (k + 1), T.eq(B.at(j, K[k]) * SCA(j), Bs.at(j, K[k]) * YS))
                    for l in range(k + 1 if inner == 'OLS' else 0):
                        v.prove(o, 'residuals with %d components are orthogonal to score %d' % (k + 1, l), T.eq(sm(n, lambda q: t.at(q, K[l]) * (FE(q) - sm(p, lambda r_: ELE(q, r_) * Bs.at(r_, K[k])))), Z))
                av = avg if center == 'mean' else med
                b = lambda q: B.at(q, K[h - 1])
                av_ = av if not (trim and center == 'mean') else (lambda d, f: agg('trimmean', d, f, params=(T.lift(trim),)))
                I = lambda: av_(n, lambda q: el('Y', q, Z) - sm(p, lambda r_: el('X', q, r_) * b(r_)))
                v.equal(o, ic.ravel(), lambda q: I(), (T.ONE,), 'intercept')
                yf = lambda q, *z: sm(p, lambda r_: el('X', q, r_) * b(r_)) + I()
                v.equal(o, fi.ravel(), yf, (n,), 'fitted values')
                v.equal(o, rs.ravel(), lambda q: el('Y', q, Z) - yf(q), (n,), 'residuals')
                v.equal(o, pr, lambda q: sm(p, lambda r_: el('W', q, r_) * b(r_)) + I(), (m,), 'predictions')
                v.equal(o, ics.ravel(), lambda q: av(n, lambda q: FE(q) - sm(p, lambda r_: ELE(q, r_) * Bs.at(r_, K[h - 1]))) if scale else I(), (T.ONE,), 'scaled intercept')
            after = est.get_params()
            for q, x_ in kw.items():
                v.check(o, 'parameters are those of the user', after.get(q) == x_, '%s became %r' % (q, after.get(q)))
            v.check(o, 'options of the index are left alone', pia == {'mode': 'x'}, repr(pia))
            v.unchanged(o)

        def call(d, x):
            real = R_(PD)
            names = 'VersatileScaler', 'minimize', 'minimize_ipopt', 'differential_evolution', 'rm', 'QuantReg', 'gridplane'
            keep = [getattr(real, q) for q in names]
            st = {'s': 0, 'o': 0, 'c': 0, 'i': 0}

            class PI_:
                def __init__(self, **k): pass
                def fit(self, x_, **k):
                    st['c'] += 1
                    return x['val'][st['c'] - 1]

            class S_:
                def __init__(self, **k): pass
                def fit_transform(self, a):
                    st['s'] += 1
                    if st['s'] == 1:
                        self.col_loc_, self.col_sca_ = x['loc'].copy(), x['sca'].copy()
                        return x['E'].copy()
                    self.col_loc_, self.col_sca_ = x['yloc'].copy(), x['ysca'].copy()
                    return x['F'].copy()

            class Rs: pass
            def mini(*a, **k):
                q = Rs(); q.x = x['u%d' % st['o']].copy(); st['o'] += 1
                return q

            def plane_(*a, **k):
                st['o'] += 1
                return x['u%d' % (st['o'] - 1)].reshape(2, 1).copy(), x['top'][st['o'] - 1]

            class In_:
                def __init__(self, *a, **k): pass
                def fit(self, *a, **k):
                    self.coef_ = self.params = np.array([x['cc'][st['i']]]); st['i'] += 1
                    return self
            try:
                for q_, s_ in zip(names, (S_, mini, mini, mini, In_, In_, plane_)): setattr(real, q_, s_)
                e = real.ppdire(projection_index=PI_, pi_arguments={}, **kw)
                e.fit(real_framed(x['X'], frames), real_framed(x['Y'], frames)) if two else e.fit(real_framed(x['X'], frames))
                if (np.linalg.norm(e.x_scores_, axis=0) < 1e-6).any(): raise Skip()
                r = [e.x_weights_, e.x_scores_, e.x_loadings_, e.x_rotations_, e.transform(x['W']), e.Maxobjf_]
                if two: r += [e.crit_values_, e.coef_, e.coef_scaled_, e.intercept_, e.fitted_, e.residuals_, e.predict(x['W']), e.y_loadings_, e.intercept_scaled_]
                return r
            finally:
                for q_, s_ in zip(names, keep): setattr(real, q_, s_)
        v.conformance(outs, call, extract=lambda r: r[0], tol=1e-5)


for _h in (1, 2):
    _fit(_h, False, 'mean', True, False, True)
    _fit(_h, True, 'mean', True, False, True)
_fit(1, True, 'median', True, True, False)
_fit(2, True, 'median', False, True, True)
_fit(1, True, 'mean', True, False, True, True)
_fit(1, False, 'median', True, False, True, True)

_fit(2, True, 'mean', True, False, True, opt='IPOPT', given=True)
_fit(1, True, 'median', True, False, True, opt='IPOPT', alpha=0)
_fit(2, False, 'mean', True, False, True, opt='differential_evolution')
_fit(1, True, 'mean', True, False, True, opt='differential_evolution', given=True)
_fit(1, True, 'mean', True, False, True, given=True, trim=0.25)
_fit(2, True, 'mean', True, False, True, raw=True)
_fit(2, True, 'mean', True, False, True, inner='quantile')
_fit(2, True, 'median', True, False, True, inner='robust')
_fit(1, True, 'mean', True, False, True, opt='grid')
_fit(1, True, 'median', True, True, True, opt='grid')
_fit(1, False, 'mean', True, False, True, opt='grid')
