"""Contracts on sprm/snipls.py (C10, C08, C09)"""
from .lib import *
import itertools
from pvc import snp, arr, path

SN = 'sprm.snipls'
Z = T.ZERO


def matvec(M, w, out):
    """sum over j of M[i, j] w[j] is out(i)"""
    def rule(binders, m):
        bn = [b for b, d in binders]
        for at, e in m:
            if at.kind != 'el' or at.a[0] != w or e != 1: continue
            j = at.a[1][0]
            if not T.is_var(j) or T.vname(j) not in bn: continue
            use = [x for x, q in m if T.vname(j) in x.fv and x is not at]
            if len(use) != 1 or (use[0], 1) not in [(x, q) for x, q in m]: continue
            E = use[0]
            if E.kind != 'el' or E.a[0] != M or E.a[1][-1] is not j: continue
            i = E.a[1][0] if len(E.a[1]) == 2 else None
            if i is j: continue
            rest = tuple((x, q) for x, q in m if x is not at and x is not E)
            return [(q, d) for q, d in binders if q != T.vname(j)], T.mul(T._mkpoly({rest: T.F1}), T.lift(out(i)))
        return None
    return rule


def orth(a, b):
    def rule(binders, m):
        bn = [q for q, d in binders]
        for at, e in m:
            if at.kind == 'el' and at.a[0] == a and e == 1 and T.is_var(at.a[1][0]) and T.vname(at.a[1][0]) in bn:
                use = [(x, q) for x, q in m if T.vname(at.a[1][0]) in x.fv and x is not at]
                if len(use) == 1 and use[0][1] == 1 and use[0][0].kind == 'el' and use[0][0].a[0] == b and use[0][0].a[1][0] is at.a[1][0]:
                    return binders, Z
        return None
    return rule


def supported(w, kp):
    """w[j] is zero unless kp(j)"""
    def rule(binders, m):
        for at, e in m:
            if at.kind == 'el' and at.a[0] == w:
                k = kp(at.a[1][0])
                for x, q in m:
                    if x.kind == 'ind' and (x.a[0] is k or x.a[0] is T.not_(k)):
                        return binders, (Z if x.a[0] is not k else T._mkpoly({tuple(y for y in m if y[0] is not x): T.F1}))
        return None
    return rule


def _fit(h, centre, ycol, frames=False):
    nm = 'snipls.fit: %d component%s, centre %s, response as a %s' % (h, 's' if h > 1 else '', centre, 'column' if ycol else 'vector') + (', data frames' if frames else '')

    @contract(['C10', 'C08', 'C09', 'C18', 'C19'], nm, [SN + '.snipls.fit', SN + '.snipls.predict', SN + '.snipls.transform', SN + '.snipls.__init__'], bound='%d components; any data, any number of cases and variables, any sparsity' % h, select=FITSEL)
    def c(v):
        import numpy as np
        n, p, m = v.dim('n', h + 1), v.dim('p', h + 1), v.dim('m', 1)
        X, W = v.array('X', n, p), v.array('W', m, p)
        Y = v.array('Y', n, T.ONE) if ycol else v.array('Y', n)
        E, loc, sca = v.array('E', n, p), v.array('loc', p), v.array('sca', p, pos=True)
        F, yloc, ysca = v.array('F', n, T.ONE), v.array('yloc', T.ONE), v.array('ysca', T.ONE, pos=True)
        eta = v.real('eta', lo=0, hi=1, gen=lambda r: r.choice([0.0, 0.3, 0.6, 0.9]))
        ETA = T.lift(arr.scalar(eta))
        v.requires(T.lt(ETA, T.ONE))
        T.FOLD.add('ite')
        mod = v.mod(SN)
        log = {}
        i0, j0 = T.fresh_index(n), T.fresh_index(p)
        runs = itertools.count()

        class Scaler:
            def __init__(self, **k):
                log['scaler'].append(k)

            def fit_transform(self, x):
                log['scaled'].append(arr.asarray(x).copy())
                if len(log['scaled']) == 1:
                    self.col_loc_, self.col_sca_ = loc.copy(), sca.copy()
                    return E.copy()
                self.col_loc_, self.col_sca_ = yloc.copy(), ysca.copy()
                return F.copy()
        v.stub(SN, 'VersatileScaler', Scaler)

        def cut(a, b):
            """ghost names for the covariances, weights and scores of every component"""
            if a.ndim != 2 or b.ndim != 2 or b.shp[1] is not T.ONE:
                return None
            g = log['tag']
            if a.shp[0] is p and a.shp[1] is n and b.shp[0] is n:
                y = b.at(i0, Z)
                if any(y is el('t%d~%s' % (k, g), i0) for k in range(len(log['t']))):
                    return None
                key = (a.at(j0, i0).key, y.key)
                if key not in log['names']:
                    nm_ = log['names'][key] = 'c%d~%s' % (len(log['c']), g)
                    a_, b_ = a.copy(), b.copy()
                    log['c'].append((a_, b_))
                    T.OPAQUE[nm_] = lambda env: (snp._num(env, a_) @ snp._num(env, b_)).ravel()
                nm_ = log['names'][key]
                return A((p, T.ONE), lambda ix: T.el(nm_, (ix[0],)), 'f')
            if a.shp[0] is n and a.shp[1] is p and b.shp[0] is p and a.at(i0, j0) is not el('X', i0, j0):
                key = (a.at(i0, j0).key, b.at(j0, Z).key)
                if key not in log['names']:
                    k = len(log['t'])
                    if k == h: return None
                    a_, b_ = a.copy(), b.copy()
                    log['t'].append((a_, b_))
                    wn, tn = 'w%d~%s' % (k, g), 't%d~%s' % (k, g)
                    T.OPAQUE[wn] = lambda env: snp._num(env, b_).ravel()
                    b.buf.get, b.buf.memo = (lambda ix: T.el(wn, (ix[0],))), {}
                    if b.at(j0, Z) is not el(wn, j0): raise path.Unsupported('weights held in a view')
                    T.OPAQUE[tn] = lambda env: (snp._num(env, a_) @ snp._num(env, b_)).ravel()
                    key = (a.at(i0, j0).key, b.at(j0, Z).key)
                    log['names'][key] = tn
                tn = log['names'][key]
                return A((n, T.ONE), lambda ix: T.el(tn, (ix[0],)), 'f')
            return None
        arr.ABSTRACT.append(cut)

        def go():
            log.update(scaler=[], scaled=[], c=[], t=[], names={}, tag=next(runs))
            est = mod.snipls(eta=eta, n_components=h, verbose=False, centre=centre)
            est.fit(framed(X, frames), framed(Y, frames))
            return [est.x_weights_, est.x_loadings_, est.x_scores_, est.C_, est.coef_, est.coef_scaled_, est.intercept_, est.fitted_, est.residuals_, est.x_Rweights_, est.colret_, est.predict(framed(W, frames)), est.transform(framed(W, frames))], est, dict(log)
        outs = v.run(go)
        arr.ABSTRACT.remove(cut)
        for o in v.normal(outs):
            r, est, lg = o.value
            if r[10] is None:
                continue                                # (no covariance at all)
            if len(lg['t']) != h or len(lg['c']) != h: raise path.Unsupported('components formed in another way')
            w, P, t, C, B, Bs, ic, fi, rs, R = [arr.asarray(q) for q in r[:10]]
            pr, tw = arr.asarray(r[11]), arr.asarray(r[12])
            K = [T.num(k) for k in range(h)]
            for nm_, a, d in (('weights', w, (p, T.num(h))), ('loadings', P, (p, T.num(h))), ('scores', t, (n, T.num(h))), ('coefficients', B, (p, T.ONE)), ('rotations', R, (p, T.num(h)))):
                v.shape(o, a, d, 'shape of the ' + nm_)
            i, j = T.fresh_index(n, 'q'), T.fresh_index(p, 'q')
            g = lg['tag']
            cn, wn, tn = [['%s%d~%s' % (s_, k, g) for k in range(h)] for s_ in 'cwt']
            S = [sm(n, lambda q: sq(el(tn[k], q))) for k in range(h)]
            e = lambda q, r_: el('E', q, r_)
            F_ = lambda q: el('F', q, Z)
            ch = [sm(n, lambda q: el(tn[k], q) * F_(q)) * inv(S[k]) for k in range(h)]
            full = [lambda r_, k=k: sm(n, lambda q: e(q, r_) * el(tn[k], q)) * inv(S[k]) for k in range(h)]
            kept = []
            a12 = {}
            rules = 0
            for k in range(h):
                D = lambda q, r_, k=k: e(q, r_) - sum((el(tn[l], q) * full[l](r_) for l in range(k)), Z)
                f = lambda q, k=k: F_(q) - sum((el(tn[l], q) * ch[l] for l in range(k)), Z)
                v.equal(o, lg['c'][k][0], lambda r_, q: D(q, r_), (p, n), 'component %d: covariances of the deflated data' % k)
                v.equal(o, lg['c'][k][1], lambda q, z: f(q), (n, T.ONE), 'component %d: covariances with the deflated response' % k)
                u = lambda r_, k=k: el(cn[k], r_) * inv(T.sqrt(sm(p, lambda q: sq(el(cn[k], q)))))
                top = agg('max', p, lambda q: absv(u(q)))
                ex = lambda r_, u=u, top=top: absv(u(r_)) - ETA * top
                kp = lambda r_, ex=ex, k=k: T.or_(T.gt(ex(r_), 0), *[kept[l](r_) for l in range(k)])
                kept.append(kp)
                v.equal(o, lg['t'][k][1], lambda r_, z: T.ind(kp(r_)) * ex(r_) * T.fn('sign', u(r_)), (p, T.ONE), 'weights of component %d' % k)
                v.prove(o, 'weights of component %d are reported' % k, T.eq(w.at(j, K[k]), el(wn[k], j)))
                v.equal(o, lg['t'][k][0], D, (n, p), 'scores of component %d are those of the deflated data' % k)
                v.prove(o, 'scores of component %d are reported' % k, T.eq(t.at(i, K[k]), el(tn[k], i)))
                # the scores by their definition
                td = lambda q, k=k, D=D: sm(p, lambda r_: D(q, r_) * el(wn[k], r_))
                for l in range(k):
                    v.prove(o, 'scores of components %d and %d are orthogonal' % (l, k), T.eq(sm(n, lambda q: el(tn[l], q) * td(q)), Z))
                    T.CONTRACTIONS.append(orth(tn[l], tn[k])); rules += 1
                    T.CONTRACTIONS.append(orth(tn[k], tn[l])); rules += 1
                    a12[l, k] = el('a%d%d~%s' % (l, k, g), Z)
                    vec = lambda nm_, d: A((d,), lambda ix: T.el(nm_, ix), 'f')
                    T.OPAQUE['a%d%d~%s' % (l, k, g)] = lambda env, tl=vec(tn[l], n), wk=vec(wn[k], p): np.array([snp._num(env, tl) @ snp._num(env, E) @ snp._num(env, wk) / (snp._num(env, tl) ** 2).sum()])
                T.CONTRACTIONS.append(supported(wn[k], kp)); rules += 1
                v.prove(o, 'loadings of component %d' % k, T.eq(P.at(j, K[k]), T.ind(kp(j)) * sm(n, lambda q: e(q, j) * el(tn[k], q)) * inv(S[k])))
                v.prove(o, 'inner relation %d' % k, T.eq(C.at(K[k], Z), ch[k]))
                comb = lambda q, k=k: el(tn[k], q) + sum((a12[l, k] * el(tn[l], q) for l in range(k)), Z)
                T.CONTRACTIONS.append(matvec('E', wn[k], comb)); rules += 1
                T.CONTRACTIONS.append(matvec(cn[0], wn[k], lambda _, comb=comb: sm(n, lambda q: comb(q) * F_(q)))); rules += 1
            re = lambda x_: T.Mapper(lambda b_: None).poly(x_)
            v.prove(o, 'eliminated variables have no coefficient', T.implies(T.not_(kept[-1](j)), T.eq(B.at(j, Z), Z)), hyps=[T.implies(T.not_(kept[k](j)), T.eq(el(wn[k], j), Z)) for k in range(h)])
            for k in range(1, h):
                T.CONTRACTIONS.append(supported(wn[k], kept[0]))
            # (holds when no variable enters after the first component)
            for k in range(h):
                v.prove(o, 'scores of component %d are the data times the rotations%s' % (k, ' when no variable enters later' if h > 1 else ''), T.eq(el(tn[k], i), sm(p, lambda r_: e(i, r_) * R.at(r_, K[k]))))
            del T.CONTRACTIONS[len(T.CONTRACTIONS) - (h - 1):]
            for l in range(h):
                v.prove(o, 'residuals are orthogonal to score %d' % l, T.eq(sm(n, lambda q: el(tn[l], q) * (F_(q) - sm(p, lambda r_: e(q, r_) * Bs.at(r_, Z)))), Z))
            v.prove(o, 'coefficients are on the original scale', T.eq(B.at(j, Z) * el('sca', j), Bs.at(j, Z) * el('ysca', Z)))
            del T.CONTRACTIONS[len(T.CONTRACTIONS) - rules:]
            b = lambda q: B.at(q, Z)
            av = {'mean': avg, 'median': med, 'None': lambda *a: Z}[centre]
            y = (lambda q: el('Y', q, Z)) if ycol else (lambda q: el('Y', q))
            I = lambda: av(n, lambda q: y(q) - sm(p, lambda r_: el('X', q, r_) * b(r_)))
            v.equal(o, ic.ravel(), lambda q: I(), (T.ONE,), 'intercept')
            yf = lambda q: sm(p, lambda r_: el('X', q, r_) * b(r_)) + I()
            v.equal(o, fi, yf, (n,), 'fitted values')
            v.equal(o, rs, lambda q: y(q) - yf(q), (n,), 'residuals')
            v.equal(o, pr.ravel(), lambda q: sm(p, lambda r_: el('W', q, r_) * b(r_)) + I(), (m,), 'predictions')
            v.equal(o, tw, lambda r_, k: sm(p, lambda q: (el('W', r_, q) - el('loc', q)) * inv(el('sca', q)) * R.at(q, k)), (m, T.num(h)), 'transform')
            if isinstance(r[10], arr.IdxSel):
                v.prove(o, 'retained variables are reported', T.iff(r[10].space.gd((j,)), kept[-1](j)))
            for q, x_ in (('center', centre), ('scale', 'None')):
                if lg['scaler'] and lg['scaler'][0].get(q) != x_: v.fail(o, 'preprocessing asked for', '%s %r' % (q, lg['scaler'][0].get(q)))
            v.equal(o, lg['scaled'][0], lambda q, r_: el('X', q, r_), (n, p), 'the data are preprocessed')
            v.equal(o, lg['scaled'][1].ravel(), lambda q: y(q), (n,), 'the response is preprocessed')
            after = est.get_params()
            for q, x_ in (('n_components', h), ('centre', centre), ('scale', 'None')):
                v.check(o, 'parameters are those of the user', after.get(q) == x_, '%s became %r' % (q, after.get(q)))
            v.unchanged(o)

        def call(d, x):
            real = R_(SN)
            keep = real.VersatileScaler
            st = {'s': 0}

            class S_:
                def __init__(self, **k): pass
                def fit_transform(self, a):
                    st['s'] += 1
                    if st['s'] == 1:
                        self.col_loc_, self.col_sca_ = x['loc'].copy(), x['sca'].copy()
                        return x['E'].copy()
                    self.col_loc_, self.col_sca_ = x['yloc'].copy(), x['ysca'].copy()
                    return x['F'].copy()
            try:
                real.VersatileScaler = S_
                e = real.snipls(eta=float(d['eta']), n_components=h, verbose=False, centre=centre)
                e.fit(real_framed(x['X'], frames), real_framed(x['Y'], frames))
                if e.colret_ is None or (np.linalg.norm(e.x_scores_, axis=0) < 1e-6).any(): raise Skip()
                return [e.x_weights_, e.x_loadings_, e.x_scores_, e.C_, e.coef_, e.coef_scaled_, e.intercept_, e.fitted_, e.residuals_, e.x_Rweights_]
            finally:
                real.VersatileScaler = keep
        v.conformance(outs, call, extract=lambda r: r[0][:10], tol=1e-5)


_fit(1, 'mean', True)
_fit(1, 'median', False)
_fit(1, 'None', True)
_fit(2, 'mean', True)
_fit(2, 'median', False)
_fit(1, 'mean', True, True)
_fit(1, 'median', False, True)
