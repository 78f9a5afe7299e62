"""Contracts on sudire/_sudire_utils.py and sudire/sudire.py"""
from .lib import *
from pvc import snp, arr, path
from pvc.evalt import Undefined

SU = 'sudire._sudire_utils'
SD = 'sudire.sudire'
Z = T.ZERO


# ---------------------------------------------------------------------- matrix powers
def _matpower(alpha):
    @contract('C16', 'matpower: power %s of a symmetric matrix from its eigendecomposition' % alpha, [SU + '.matpower'])
    def c(v):
        import numpy as np
        p = v.dim('p', 2)

        def spd(rng, shp):
            x = np.random.RandomState(rng.randrange(2 ** 31)).randn(shp[0] + 3, shp[0])
            return x.T @ x + 0.1 * np.eye(shp[0])
        M = v.array('M', p, p, gen=spd)
        T.SYM_EL.add('M')
        mod = v.mod(SU)
        outs = v.run(lambda: (mod.matpower(M, alpha), list(snp.CALLS))[0:2])
        for o in v.normal(outs):
            res, calls = o.value
            if len(calls) != 1:
                raise path.Unsupported('not a single eigendecomposition')
            a, (W, Q) = calls[0][1], calls[0][2]
            v.equal(o, a, lambda i, j: el('M', i, j), (p, p), 'the matrix itself is decomposed')
            v.equal(o, res, lambda i, j: sm(p, lambda k: Q.at(i, k) * T.power(W.at(k), T.lift(alpha)) * Q.at(j, k)), (p, p))
            v.unchanged(o)
        v.conformance(outs, lambda d, x: R_(SU).matpower(x['M'], alpha), extract=lambda r: r[0], tol=1e-6)


for _a in (-0.5, 1, 2, -1):
    _matpower(_a)


# ---------------------------------------------------------------------- slicing
def _disc(h):
    @contract('C15', 'discretize: %d slices cut at order statistics' % h, [SU + '.discretize'], bound='%d slices; any number of cases' % h)
    def c(v):
        n = v.dim('n', h)
        y = v.array('y', n)
        mod = v.mod(SU)
        outs = v.run(lambda: mod.discretize(y, h))
        m = T.fn('floor', n * inv(T.num(h)))
        q = [rank(n, lambda s: el('y', s), m * k) for k in range(1, h)]
        # order statistics are ordered
        hy = [T.le(q[k], q[k + 1]) for k in range(h - 2)]
        lab = lambda i: T.ONE + sum_([T.ind(T.ge(el('y', i), x)) for x in q])
        for o in v.normal(outs):
            v.equal(o, o.value, lab, (n,), 'class = 1 + number of cut points not above the response', hyps=hy)
            i, k = T.fresh_index(n, 'q'), T.fresh_index(n, 'q')
            a, b = o.value.at(i), o.value.at(k)
            v.prove(o, 'every case has a class from 1 to h', T.and_(T.ge(a, 1), T.le(a, h)), hy)
            v.prove(o, 'larger responses never get a lower class', T.or_(T.gt(el('y', i), el('y', k)), T.le(a, b)), hy)
            v.prove(o, 'equal responses get the same class', T.or_(T.ne(el('y', i), el('y', k)), T.eq(a, b)), hy)
            v.unchanged(o)
        v.conformance(outs, lambda d, a: R_(SU).discretize(a['y'], h))


for _h in (2, 3, 4, 5, 6):
    _disc(_h)


# ---------------------------------------------------------------------- kernels
def root(v, p):
    """contract of matpower: some symmetric matrix; what it is the power of is recorded"""
    import numpy as np
    rec = []

    def g(a, alpha):
        a = arr.asarray(a).copy()
        nm = 'pow%d' % len(rec)
        rec.append((a, alpha))

        def value(env):
            w, q = np.linalg.eigh(snp._num(env, a))
            if w.min() < 1e-6 * w.max():
                raise Undefined('singular covariance')
            return (q * np.abs(w) ** float(alpha)) @ q.T
        T.OPAQUE[nm] = value
        T.SYM_EL.add(nm)
        return A((p, p), lambda i: T.el(nm, i), 'f')
    v.stub(SU, 'matpower', g)
    return rec


def named_product(v, n, p, rec):
    """the product of the data with the root of the covariance, carried as an array of its own"""
    def f(a, b):
        if a.ndim != 2 or b.ndim != 2 or len(a.shp) != 2 or a.shp[0] is not n:
            return None
        i, j = T.fresh_index(p), T.fresh_index(p)
        if b.at(i, j) is not T.el('pow0', (i, j)):
            return None
        a = a.copy()
        rec.append(a)
        T.OPAQUE['XS'] = lambda env: snp._num(env, a) @ snp._num(env, b)
        return A((n, p), lambda ix: T.el('XS', ix), 'f')
    arr.ABSTRACT.append(f)


def named_covs(v, n, p, gs, rec):
    """the covariance matrices of the slices, carried as arrays of their own; their arguments are recorded"""
    def f(a, rowvar, bias, ddof):
        if a.ndim != 2 or not isinstance(a.shp[0], arr.Space) or rowvar or bias or ddof is not None:
            return None
        sp = a.shp[0]
        i = T.fresh_index(n)
        for k, g in enumerate(gs):
            if T.ind(sp.gd((i,))) is T.ind(g(i)):
                a = a.copy()
                rec.append((k, a))
                T.OPAQUE['cov%d' % k] = lambda env: np_cov(snp._num(env, a))
                T.SYM_EL.add('cov%d' % k)
                return A((p, p), lambda ix: T.el('cov%d' % k, ix), 'f')
        return None
    snp.COV_ABSTRACT.append(f)


def np_cov(x):
    import numpy as np
    if x.shape[0] < 2:
        raise Undefined('covariance of a single case')
    return np.atleast_2d(np.cov(x, rowvar=0))


def cov_(n, x, i, j):
    mi, mj = avg(n, lambda s: x(s, i)), avg(n, lambda s: x(s, j))
    return sm(n, lambda s: (x(s, i) - mi) * (x(s, j) - mj)) * inv(n - T.ONE)


def std_(n, p, center, scale):
    """the data the kernel is formed from"""
    x = lambda i, j: el('X', i, j)
    c = (lambda i, j: x(i, j) - avg(n, lambda s: x(s, j))) if center else x
    return (lambda i, j: el('XS', i, j)) if scale else c


def classes(v, n, h):
    """every assignment of the cases to h non-empty classes: label vector (1..h) and class conditions"""
    arr.SPLIT[0] = True
    ms = [v.mask('c%d' % k, n) for k in range(h - 1)]

    def cond(k):
        def f(i):
            prev = [T.not_(T.bel('c%d' % q, (i,))) for q in range(k)]
            return T.and_(*prev, *([T.bel('c%d' % k, (i,))] if k < h - 1 else []))
        return f
    gs = [cond(k) for k in range(h)]
    lab = lambda ix: sum_([T.num(k + 1) * T.ind(gs[k](ix[0])) for k in range(h)])
    for g in gs:
        v.requires(T.ge(count(n, g), 1))
    return arr.A((n,), lab, 'i'), gs


def sum_(xs):
    r = T.ZERO
    for x in xs:
        r = r + x
    return r


def labels(x, h):
    import numpy as np
    y = np.full(len(x['c0']), h)
    for k in range(h - 2, -1, -1):
        y[x['c%d' % k]] = k + 1
    return y


def check(v, o, n, p, d, kernel, center, scale, gs=()):
    """the kernel is what is decomposed; the directions are its leading eigenvectors, mapped by the root of the covariance"""
    res, calls, rec, prod, covs = o.value
    if len(calls) != 1:
        raise path.Unsupported('not a single eigendecomposition')
    K, (W, Q) = calls[0][1], calls[0][2]
    if scale:
        a, alpha = rec[0]
        v.equal(o, a, lambda i, j: cov_(n, lambda s, t: el('X', s, t), i, j), (p, p), 'the metric is the sample covariance')
        if len(prod) != 1:
            raise path.Unsupported('not a single product with the root of the covariance')
        v.equal(o, prod[0], std_(n, p, center, False), (n, p), 'the %sdata are standardised' % ('centred ' if center else ''))
        v.prove(o, 'the data are standardised by the inverse square root', T.eq(T.lift(alpha), T.num(-1) * H))
    for k, a in covs:
        q = T.fresh_index(n, 'q')
        jj = T.fresh_index(p, 'q')
        v.shape(o, a, (count(n, gs[k]), p), 'shape of the slice whose covariance is taken')
        v.prove(o, 'the slice whose covariance is taken', T.eq(a.at((q,), jj), std_(n, p, center, scale)(q, jj)), [gs[k](q)])
    v.shape(o, K, (p, p), 'shape of the matrix decomposed')
    i, j, k, l = [T.fresh_index(p, 'q') for _ in range(4)]
    g = T.eq(K.at(i, j), kernel(i, j))
    if g is not T.TRUE:
        # a positive multiple has the same eigenvectors
        g = T.or_(g, T.and_(T.eq(K.at(i, j) * kernel(k, l), K.at(k, l) * kernel(i, j)), T.ge(K.at(i, i) * kernel(i, i), 0)))
    v.prove(o, 'the matrix decomposed is the kernel', g)
    S_ = lambda f: sum_([f(T.num(k)) for k in range(int(p.const))]) if p.const is not None else sm(p, f)
    dirn = lambda i, j: (S_(lambda k: el('pow0', i, k) * Q.at(k, p - 1 - j)) if scale else Q.at(i, p - 1 - j))
    v.shape(o, res, (p, d))
    rng = lambda m: [T.num(k) for k in range(int(m.const))] if m.const is not None else [T.fresh_index(m, 'q')]
    js = rng(d)
    for i in rng(p):
        for l in rng(p):
            for j in js:
                v.prove(o, 'directions are the leading eigenvectors, in order (up to sign)', T.eq(res.at(i, j) * res.at(l, j), dirn(i, j) * dirn(l, j)))
    v.unchanged(o)


def slices(n, p, z, gs):
    cnt = [count(n, g) for g in gs]
    mean = [lambda j, g=g, c=c: sm(n, lambda i: z(i, j), g) * inv(c) for g, c in zip(gs, cnt)]
    return cnt, mean


def sir_kernel(n, p, z, gs):
    cnt, mean = slices(n, p, z, gs)
    return lambda i, j: sum_([cnt[k] * inv(n) * mean[k](i) * mean[k](j) for k in range(len(gs))])


def delta(i, j):
    return T.ind(T.eq(i, j))


def slice_cov(k, c):
    """sample covariance of slice k; the identity when it holds a single case"""
    b = v_known(T.gt(c, 1))
    return lambda i, j: T.ite(b, el('cov%d' % k, i, j), delta(i, j))


PC = [()]


def v_known(b):
    """the condition as decided on the path at hand, if it is"""
    from pvc import prove
    if prove.entails(list(PC[0]), b) is True: return T.TRUE
    if prove.entails(list(PC[0]), T.not_(b)) is True: return T.FALSE
    return b


def save_kernel(n, p, z, gs):
    cnt, mean = slices(n, p, z, gs)
    r = []
    for k, c in enumerate(cnt):
        V_ = slice_cov(k, c)
        D = lambda i, j, V_=V_: V_(i, j) - delta(i, j)
        r.append(lambda i, j, c=c, D=D: c * inv(n) * sm(p, lambda k: D(i, k) * D(k, j)))
    return lambda i, j: sum_([f(i, j) for f in r])


def dr_kernel(n, p, z, gs):
    cnt, mean = slices(n, p, z, gs)
    r = []
    for k, (c, m) in enumerate(zip(cnt, mean)):
        V_ = slice_cov(k, c)
        E = lambda i, j, V_=V_, m=m: V_(i, j) + m(i) * m(j)
        r.append(lambda i, j, c=c, E=E: c * inv(n) * sm(p, lambda k: E(i, k) * E(k, j)))
    S = sir_kernel(n, p, z, gs)
    return lambda i, j: (sum_([f(i, j) for f in r]) * 2 + sm(p, lambda k: S(i, k) * S(k, j)) * 2
                         + S(i, j) * sm(p, lambda k: S(k, k)) * 2 - delta(i, j) * 2)


KER = {'SIR': sir_kernel, 'SAVE': save_kernel, 'DR': dr_kernel}


def _sliced(meth, h, center, scale, disc):
    @contract('C16', '%s: leading eigenvectors of the kernel, %d classes%s%s, %s response' % (meth, h, ', centred' if center else '', ', standardised' if scale else '', 'discrete' if disc else 'continuous'),
              [SU + '.' + meth], cost=3, bound='%d classes, one direction; any number of cases and predictors' % h)
    def c(v):
        import numpy as np
        n, p = v.dim('n', h + 2), v.dim('p', 2)
        d = v.dim('d', 1)
        v.requires(T.le(d, p))
        X = v.array('X', n, p)
        y, gs = classes(v, n, h)
        if h > 2 and meth != 'SIR':
            for g in gs:
                v.requires(T.ge(count(n, g), 2))
        mod = v.mod(SU)
        rec, prod, covs = root(v, p), [], []
        named_covs(v, n, p, gs, covs)
        if scale:
            named_product(v, n, p, prod)
        if not disc:
            v.stub(SU, 'discretize', lambda yy, hh: y.copy())
            yy = v.array('Y', n)
        else:
            yy = y

        def go():
            del rec[:], prod[:], covs[:]
            return getattr(mod, meth)(X, yy, R_int(h), v.int(d), 'discrete' if disc else 'continuous', center, scale), list(snp.CALLS), list(rec), list(prod), list(covs)
        outs = v.run(go)
        z = std_(n, p, center, scale)
        for o in v.normal(outs):
            PC[0] = o.pc
            check(v, o, n, p, d, KER[meth](n, p, z, gs), center, scale, gs)

        def call(dd, x):
            y = labels(x, h)
            sv = np.linalg.svd(np.cov(x['X'], rowvar=0), compute_uv=False)
            if sv.min() < 1e-6 * sv.max(): raise Skip()
            if meth != 'SIR' and x['X'].shape[1] > 2 and min(np.bincount(y)[1:]) <= x['X'].shape[1]: raise Skip()   # tied eigenvalues
            mod = R_(SU)
            keep = mod.discretize
            try:
                mod.discretize = lambda yy, hh: y
                r = getattr(mod, meth)(x['X'], y, h, int(dd['d']), 'discrete' if disc else 'continuous', center, scale)
            finally:
                mod.discretize = keep
            return np.abs(r[:, 0])
        v.conformance(outs, call, extract=lambda r: abs(r[0][:, 0]), tol=1e-6)
    return c


def R_int(h):
    return h


for _m in ('SIR', 'SAVE', 'DR'):
    _sliced(_m, 2, True, True, True)
    _sliced(_m, 2, True, True, False)
    _sliced(_m, 2, True, False, True)
    _sliced(_m, 2, False, False, True)
    if _m != 'DR':
        _sliced(_m, 3, True, False, True)


def _phd(vec, center, scale):
    @contract('C16', 'PHD: leading eigenvectors of the response-weighted covariance%s%s, response as a %s' % (', centred' if center else '', ', standardised' if scale else '', 'vector' if vec else 'column'), [SU + '.PHD'])
    def c(v):
        import numpy as np
        n, p = v.dim('n', 4), v.dim('p', 2)
        d = v.dim('d', 1)
        v.requires(T.le(d, p))
        X = v.array('X', n, p)
        y = v.array('Y', n) if vec else v.array('Y', n, T.ONE)
        mod = v.mod(SU)
        rec, prod = root(v, p), []
        if scale:
            named_product(v, n, p, prod)

        def go():
            del rec[:], prod[:]
            return mod.PHD(X, y, v.int(d), center, scale), list(snp.CALLS), list(rec), list(prod), []
        outs = v.run(go)
        z = std_(n, p, center, scale)
        Y = (lambda i: el('Y', i)) if vec else (lambda i: el('Y', i, Z))
        ker = lambda j, k: sm(n, lambda i: z(i, j) * (Y(i) - avg(n, Y)) * z(i, k)) * inv(n)
        for o in v.normal(outs):
            check(v, o, n, p, d, ker, center, scale)

        def call(dd, x):
            sv = np.linalg.svd(np.cov(x['X'], rowvar=0), compute_uv=False)
            if sv.min() < 1e-6 * sv.max() or np.ptp(x['Y']) == 0 or x['X'].shape[1] > x['X'].shape[0] - 2: raise Skip()
            return np.abs(R_(SU).PHD(x['X'], x['Y'], int(dd['d']), center, scale)[:, 0])
        v.conformance(outs, call, extract=lambda r: abs(r[0][:, 0]), tol=1e-6)


_phd(True, True, True)
_phd(False, True, True)
_phd(False, True, False)
_phd(False, False, False)


def _iht(p_, vec, center, scale):
    @contract('C16', 'IHT: leading eigenvectors of the iterated Hessian kernel, %d predictors%s%s, response as a %s' % (p_, ', centred' if center else '', ', standardised' if scale else '', 'vector' if vec else 'column'),
              [SU + '.IHT'], bound='%d predictors; any number of cases' % p_)
    def c(v):
        import numpy as np
        n, p = v.dim('n', 4), T.num(p_)
        d = 1
        X = v.array('X', n, p)
        y = v.array('Y', n) if vec else v.array('Y', n, T.ONE)
        mod = v.mod(SU)
        rec, prod = root(v, p), []
        if scale:
            named_product(v, n, p, prod)

        def go():
            del rec[:], prod[:]
            return mod.IHT(X, y, d, center, scale), list(snp.CALLS), list(rec), list(prod), []
        outs = v.run(go)
        z = std_(n, p, center, scale)
        Y = (lambda i: el('Y', i)) if vec else (lambda i: el('Y', i, Z))
        s = lambda j: sm(n, lambda i: (z(i, j) - avg(n, lambda q: z(q, j))) * (Y(i) - avg(n, Y))) * inv(n - T.ONE)
        for o in v.normal(outs):
            pw = {}
            for k, (a, alpha) in enumerate(o.value[2]):
                al = T.lift(alpha)
                if al.const is None: raise path.Unsupported('symbolic power')
                if k:
                    v.equal(o, a, lambda i, j: cov_(n, z, i, j), (p, p), 'the covariance of the standardised data is iterated')
                    pw[int(al.const)] = 'pow%d' % k
            if sorted(pw) != list(range(1, p_)):
                raise path.Unsupported('powers taken in another way')
            tm = lambda k: (lambda i: s(i)) if k == 0 else (lambda i: sum_([T.el(pw[k], (T.lift(i), T.num(q))) * s(T.num(q)) for q in range(p_)]))
            ker = lambda i, j: sum_([tm(k)(i) * tm(k)(j) for k in range(p_)])
            check(v, o, n, p, T.ONE, ker, center, scale)

        def call(dd, x):
            sv = np.linalg.svd(np.cov(x['X'], rowvar=0), compute_uv=False)
            if sv.min() < 1e-6 * sv.max() or np.ptp(x['Y']) == 0 or x['X'].shape[1] > x['X'].shape[0] - 2: raise Skip()
            return np.abs(R_(SU).IHT(x['X'], x['Y'], 1, center, scale)[:, 0])
        v.conformance(outs, call, extract=lambda r: abs(r[0][:, 0]), tol=1e-6)


for _p in (2, 3):
    _iht(_p, False, True, True)
_iht(2, True, True, True)
_iht(2, False, False, False)


# ---------------------------------------------------------------------- the estimator
METH = {'sir': 'SIR', 'save': 'SAVE', 'dr': 'DR', 'phd': 'PHD', 'iht': 'IHT'}


def gram_rule(P, G):
    """sum_b sum_l G[a,b] P[l,b] P[l,c] = [a = c], for G the inverse of P'P"""
    def rule(binders, m):
        bn = {b for b, d in binders}
        gs = [a for a, e in m if a.kind == 'el' and a.a[0] == G and e == 1]
        ps = [(a, e) for a, e in m if a.kind == 'el' and a.a[0] == P]
        for g in gs:
            for u in (0, 1):
                b, a_ = g.a[1][u], g.a[1][1 - u]
                if not T.is_var(b) or T.vname(b) not in bn:
                    continue
                if a_ is b:
                    # trace of G P'P: handled when written as a double sum
                    continue
                use = [at for at, e in m if T.vname(b) in at.fv and at is not g]
                if len(use) != 1 or use[0] not in [x for x, e in ps if e == 1] or use[0].a[1][1] is not b:
                    continue
                l = use[0].a[1][0]
                if not T.is_var(l) or T.vname(l) not in bn:
                    continue
                oth = [at for at, e in m if T.vname(l) in at.fv and at is not use[0]]
                if len(oth) != 1 or oth[0] not in [x for x, e in ps if e == 1] or oth[0].a[1][0] is not l:
                    continue
                c = oth[0].a[1][1]
                rest = [(at, e) for at, e in m if at not in (g, use[0], oth[0])]
                nb = [(q, d) for q, d in binders if q not in (T.vname(b), T.vname(l))]
                return nb, T.mul(T._mkpoly({tuple(rest): T.F1}), T.ind(T.eq(a_, c)))
        return None
    return rule


def _fit(meth, center, center_data, scale, yvec):
    nm = 'sudire.fit: %s, centre %s%s%s, response as a %s' % (meth, center, '' if center_data else ' not removed', ', standardised' if scale else '', 'vector' if yvec else 'column')
    props = ['C17', 'C08', 'C09', 'C18', 'C19']

    @contract(props, nm, [SD + '.sudire.fit', SD + '.sudire.transform', SD + '.sudire.predict', SD + '.sudire.__init__'], select=dict(FITSEL, C17=r'^(?!argument|parameters)', C08=('only', 'prediction|regress|intercept'), C09=('only', 'transform|^scores')))
    def c(v):
        import numpy as np
        n, p, d, m = v.dim('n', 4), v.dim('p', 2), v.dim('d', 1), v.dim('m', 1)
        v.requires(T.le(d, p), T.le(p, n - 2))
        X, D, W = v.array('X', n, p), v.array('D', p, d), v.array('W', m, p)
        y = v.array('Y', n) if yvec else v.array('Y', n, T.ONE)
        mod = v.mod(SD)
        rec = []

        def method(*a, **k):
            rec.append((a, k))
            return D.copy()
        v.stub(SU, METH[meth], method)
        kw = dict(sudiremeth=meth, center=center, center_data=center_data, scale_data=scale, n_slices=7, response_type='discrete')
        prods = []

        def named(a, b):
            """the loadings are carried as an array of their own"""
            i, j = T.fresh_index(p), T.fresh_index(d)
            if a.ndim == 2 and b.ndim == 2 and len(b.shp) == 2 and b.shp[1] is d and a.shp[0] is p and b.at(i, j) is T.el('D', (i, j)) and not (a.at(i, i) is T.ONE):
                a = a.copy()
                prods.append(a)
                T.OPAQUE['P'] = lambda env: snp._num(env, a) @ np.asarray(env.arrays['D'], dtype=float)
                return A((p, d), lambda ix: T.el('P', ix), 'f')
            return None
        if scale:
            arr.ABSTRACT.append(named)
        P_ = 'P' if scale else 'D'

        def go():
            del rec[:], prods[:]
            est = mod.sudire(n_components=v.int(d), **kw)
            est.fit(X, y)
            return (est.x_loadings_, est.x_scores_, est.proj_mat_, est.x_loc_, est.transform(W), est.predict(W)), est, list(snp.CALLS), list(rec), list(prods)
        outs = v.run(go)
        x = lambda i, j: el('X', i, j)
        Y = (lambda i: el('Y', i)) if yvec else (lambda i: el('Y', i, Z))
        loc = (lambda j: avg(n, lambda s: x(s, j))) if center == 'mean' else (lambda j: med(n, lambda s: x(s, j)))
        if not center_data and not (scale and center == 'median'): loc = lambda j: Z
        for o in v.normal(outs):
            (L, S, PM, xl, TW, PW), est, calls, rc, pr = o.value
            # the method sees the standardised data and the settings
            if len(rc) != 1:
                raise path.Unsupported('not a single call of the method')
            a, k = rc[0]
            a = list(a) + [k[q] for q in k]
            want = [None, None] + ([7, d, 'discrete', center_data, scale] if meth in ('sir', 'save', 'dr') else [d, center_data, scale])
            if k or len(a) != len(want):
                raise path.Unsupported('method called in another way')
            for q, w in zip(a[2:], want[2:]):
                same = (q is w or q == w) if not isinstance(w, T.Poly) else arr.scalar(q) is w
                if not same: v.fail(o, 'settings handed to the method', '%r for %r' % (q, w))
            sca = lambda j: Tz(med(n, lambda s: absv(x(s, j) - med(n, lambda r: x(r, j)))) * inv(T.lift(0.6744897501960817)))
            if scale and center == 'mean':
                C_ = A((p, p), lambda ix: cov_(n, x, ix[0], ix[1]), 'f')
                from pvc import models
                N2 = snp.inv(models.sqrtm(C_))
                xs = lambda i, j: sm(p, lambda q: (x(i, q) - loc(q)) * N2.at(q, j))
            elif scale:
                N2 = A((p, p), lambda ix: T.ind(T.eq(ix[0], ix[1])) * inv(sca(ix[0])), 'f')
                xs = lambda i, j: (x(i, j) - loc(j)) * inv(sca(j))
            else:
                xs = lambda i, j: x(i, j) - loc(j)
            v.equal(o, a[0], xs, (n, p), 'the method is given the standardised data')
            v.equal(o, a[1], lambda i, j: Y(i), (n, T.ONE), 'the method is given the response')
            if scale:
                if len(pr) != 1:
                    raise path.Unsupported('loadings formed in another way')
                v.equal(o, pr[0], lambda i, j: N2.at(i, j), (p, p), 'directions are mapped back to the original variables')
            v.equal(o, L, lambda i, j: el(P_, i, j), (p, d), 'loadings')
            v.equal(o, S, lambda i, j: sm(p, lambda q: x(i, q) * el(P_, q, j)), (n, d), 'scores are the original data times the loadings')
            v.equal(o, TW, lambda i, j: sm(p, lambda q: el('W', i, q) * el(P_, q, j)), (m, d), 'transform is the new data times the loadings')
            # projection matrix
            G = [c_ for c_ in calls if c_[0] == 'inv' and c_[1].shp[0] is d]
            if len(G) != 1:
                raise path.Unsupported('projection matrix formed in another way')
            gn = G[0][2]
            v.equal(o, G[0][1], lambda i, j: sm(p, lambda q: el(P_, q, i) * el(P_, q, j)), (d, d), 'the Gram matrix of the loadings is inverted')
            v.equal(o, PM, lambda i, j: sm(d, lambda q: sm(d, lambda r: el(P_, i, q) * T.el(gn, (q, r)) * el(P_, j, r))), (p, p), 'projection matrix')
            i, j = T.fresh_index(p, 'q'), T.fresh_index(p, 'q')
            v.prove(o, 'projection matrix is symmetric', T.eq(PM.at(i, j), PM.at(j, i)))
            T.CONTRACTIONS.append(gram_rule(P_, gn))
            v.prove(o, 'projection matrix is idempotent', T.eq(sm(p, lambda q: PM.at(i, q) * PM.at(q, j)), PM.at(i, j)))
            jj = T.fresh_index(d, 'q')
            v.prove(o, 'projection matrix leaves the loadings alone', T.eq(sm(p, lambda q: PM.at(i, q) * el(P_, q, jj)), el(P_, i, jj)))
            T.CONTRACTIONS.pop()
            # least squares on the scores
            ob = est.ols_obj_
            v.equal(o, ob.endog, lambda i, *z: Y(i), None, 'the response is regressed')
            v.shape(o, ob.exog, (n, d + 1), 'shape of the regressors')
            i = T.fresh_index(n, 'q')
            v.prove(o, 'intercept', T.eq(ob.exog.at(i, Z), T.ONE))
            v.prove(o, 'scores are the regressors', T.eq(ob.exog.at(i, jj + 1), sm(p, lambda q: x(i, q) * el(P_, q, jj))))
            b = ob.params
            v.equal(o, PW, lambda r: sm(d + 1, lambda u: T.ite(T.ge(u, 1), sm(p, lambda q: el('W', r, q) * el(P_, q, u - 1)), T.ONE) * b.at(u)), (m,), 'predictions are the regression at the new scores')
            v.equal(o, arr.asarray(xl).ravel(), loc, (p,), 'stored location')
            # settings and data are left alone
            after = est.get_params()
            for q, w in kw.items():
                v.check(o, 'parameters are those of the user', after.get(q) == w, '%s became %r' % (q, after.get(q)))
            v.unchanged(o)

        def call(dd, z):
            real = R_(SD)
            keep = getattr(real, METH[meth])
            sv = np.linalg.svd(np.cov(z['X'], rowvar=0), compute_uv=False)
            if sv.min() < 1e-5 * sv.max() or (scale and center == 'median' and (np.median(np.abs(z['X'] - np.median(z['X'], axis=0)), axis=0) == 0).any()): raise Skip()
            if np.linalg.cond(z['D']) > 1e4: raise Skip()
            try:
                setattr(real, METH[meth], lambda *a, **k: z['D'].copy())
                e = real.sudire(n_components=int(dd['d']), **kw)
                e.fit(z['X'], z['Y'])
                if (np.ptp(e.x_scores_, axis=0) < 1e-8).any(): raise Skip()
                return [e.x_loadings_, e.x_scores_, e.proj_mat_, np.asarray(e.x_loc_), e.transform(z['W'])]
            finally:
                setattr(real, METH[meth], keep)
        v.conformance(outs, call, extract=lambda r: list(r[0][:5]), tol=1e-5)


def Tz(s):
    """a zero scale is replaced by one"""
    return T.ite(T.eq(s, 0), T.ONE, s)


_fit('sir', 'mean', True, True, True)
for _m in ('sir', 'save', 'dr', 'phd', 'iht'):
    _fit(_m, 'mean', True, True, False)
for _a in (('mean', True, False), ('mean', False, False), ('mean', False, True), ('median', True, True), ('median', True, False)):
    _fit('sir', *_a, False)
    _fit('phd', *_a, True)
    for _m in ('save', 'dr', 'iht'):
        _fit(_m, *_a, _m == 'dr')


# ---------------------------------------------------------------------- methods that search for the subspace
def _search(meth, h, center, scale, start):
    nm = 'sudire.fit: %s searched for, %d component%s, centre %s%s, %s' % (meth, h, 's' * (h > 1), center, ', standardised' if scale else '', 'start of the user' if start else 'start chosen')

    @contract(['C17', 'C18', 'C19', 'C21'], nm, [SD + '.sudire.fit', SD + '.sudire.transform', SD + '.sudire.__init__'], bound='%d components; any data, any number of cases and variables, whatever the optimiser returns' % h,
              select=dict(FITSEL, C17=r'^(?!argument|parameters)', C21=('only', 'constraint')))
    def c(v):
        import numpy as np
        n, p, m = v.dim('n', max(4, h + 2)), v.dim('p', max(2, h)), v.dim('m', 1)
        v.requires(T.le(p, n - 2))
        X, W, y = v.array('X', n, p), v.array('W', m, p), v.array('Y', n, T.ONE)
        D0, D, S0 = v.array('D0', p, T.num(h)), v.array('D', p, T.num(h)), v.array('S0', p, T.num(h))
        U, dcv = v.array('U', p * T.num(h)), v.array('dcv', T.num(3))
        mod = v.mod(SD)
        rec, log = [], {}

        class Res: pass

        def minimise(f, x0, args=(), constraints=(), options=None, **k):
            r = Res()
            r.x = (D if meth == 'dcov-sdr' or rec else D0).flatten(order='F')
            rec.append((f, arr.asarray(x0).copy(), args, constraints, options, k))
            return r

        class DC_:
            @staticmethod
            def distance_covariance_sqr(a, b, **k):
                log['dc'].append(arr.asarray(a).copy())
                return arr.wrap0(T.el('dcv', (T.num(len(log['dc']) - 1),)))
        v.stub(SD, 'minimize_ipopt', minimise)
        v.stub(SD, 'dc', DC_)
        v.stub(SD, 'orth', lambda a: a.copy())
        for q in ('SAVE', 'SIR', 'DR'):
            v.stub(SD, q, lambda *a, **k: S0.copy())
        own = lambda b, *a: 0
        f0 = own if meth == 'own' else meth
        kw = dict(sudiremeth=f0, n_components=h, center=center, center_data=True, scale_data=scale, n_slices=7, response_type='discrete', optimizer_options={'max_iter': 7})
        prods = []

        def named(a, b):
            i, j = T.fresh_index(p), T.fresh_index(T.num(h)) if h > 1 else Z
            for q, P in (('D', 'P'), ('D0', 'P0')):
                if a.ndim == 2 and b.ndim == 2 and len(b.shp) == 2 and b.shp[1].const == h and a.shp[0] is p and b.at(i, j) is T.el(q, (i, j)) and not (a.at(i, i) is T.ONE):
                    a = a.copy()
                    prods.append((q, a))
                    T.OPAQUE[P] = lambda env: snp._num(env, a) @ np.asarray(env.arrays[q], dtype=float)
                    return A((p, T.num(h)), lambda ix: T.el(P, ix), 'f')
            return None
        if scale:
            arr.ABSTRACT.append(named)
        P_ = 'P' if scale else 'D'

        def go():
            del rec[:], prods[:]
            log.update(dc=[])
            st = U.copy() if start else None
            e = mod.sudire(optimizer_start=st, **kw)
            e.fit(X, y)
            return (e.x_loadings_, e.x_scores_, e.proj_mat_, e.transform(W)), e, list(snp.CALLS), list(rec), list(prods)
        outs = v.run(go)
        x = lambda i, j: el('X', i, j)
        loc = (lambda j: avg(n, lambda s: x(s, j))) if center == 'mean' else (lambda j: med(n, lambda s: x(s, j)))
        for o in v.normal(outs):
            (L, S, PM, TW), est, calls, rc, pr = o.value
            if len(rc) != (1 if meth == 'dcov-sdr' else 2): raise path.Unsupported('%d searches' % len(rc))
            sca = lambda j: Tz(med(n, lambda s: absv(x(s, j) - med(n, lambda r: x(r, j)))) * inv(T.lift(0.6744897501960817)))
            if scale and center == 'mean':
                C_ = A((p, p), lambda ix: cov_(n, x, ix[0], ix[1]), 'f')
                from pvc import models
                N2 = snp.inv(models.sqrtm(C_))
                xs = lambda i, j: sm(p, lambda q: (x(i, q) - loc(q)) * N2.at(q, j))
            elif scale:
                N2 = A((p, p), lambda ix: T.ind(T.eq(ix[0], ix[1])) * inv(sca(ix[0])), 'f')
                xs = lambda i, j: (x(i, j) - loc(j)) * inv(sca(j))
            else:
                xs = lambda i, j: x(i, j) - loc(j)
            names = {'dcov-sdr': ['dcov_trim'], 'mdd-sdr': ['dcov_trim', 'mdd_trim'], 'own': ['dcov_trim', None]}[meth]
            B_ = lambda k, c_: el('U', k + p * T.num(c_))
            cv = lambda j, k: cov_(n, xs, j, k)
            for q, (f, x0, args, cons, opt, k) in enumerate(rc):
                if names[q]: v.check(o, 'objective of search %d' % q, getattr(f, '__name__', '') == names[q], repr(f))
                else: v.check(o, 'objective of search %d' % q, f is own, repr(f))
                v.check(o, 'options of the optimiser', opt == {'max_iter': 7}, repr(opt))
                if not isinstance(args, tuple) or len(args) != 9: raise path.Unsupported('arguments of the objective')
                v.equal(o, args[0], xs, (n, p), 'the objective is given the standardised data')
                v.equal(o, args[1], lambda i, j: el('Y', i, Z), (n, T.ONE), 'the objective is given the response')
                v.check(o, 'the objective is given the number of components', args[2] == h, repr(args[2]))
                v.check(o, 'the objective is given the trimming', args[5] == 0, repr(args[5]))
                if not q and start: v.equal(o, x0, lambda i: el('U', i), (p * T.num(h),), 'the search starts where the user says')
                cons = list(cons)
                if len(cons) != h * h: raise path.Unsupported('constraints written in another way')
                got = []
                for a in range(h):
                    for b in range(h):
                        cc = cons[a * h + b]
                        v.check(o, 'constraints are equalities', cc['type'] == 'eq', cc['type'])
                        if scale: spec = sm(p, lambda k_: B_(k_, a) * B_(k_, b))
                        else: spec = sm(p, lambda k_: sm(p, lambda l: B_(k_, a) * cv(k_, l) * B_(l, b)))
                        val = cc['fun'](U.copy(), *cc['args'])
                        v.equal(o, val, lambda: spec - T.num(int(a == b)), (), 'constraint %d %d makes the directions orthonormal' % (a, b))
            if scale:
                if len(pr) != len(rc): raise path.Unsupported('loadings formed in another way')
                v.equal(o, pr[-1][1], lambda i, j: N2.at(i, j), (p, p), 'directions are mapped back to the original variables')
            v.equal(o, L, lambda i, j: el(P_, i, j), (p, T.num(h)), 'loadings')
            v.equal(o, S, lambda i, j: sm(p, lambda q: x(i, q) * el(P_, q, j)), (n, T.num(h)), 'scores are the original data times the loadings')
            v.equal(o, TW, lambda i, j: sm(p, lambda q: el('W', i, q) * el(P_, q, j)), (m, T.num(h)), 'transform is the new data times the loadings')
            G = [c_ for c_ in calls if c_[0] == 'inv' and c_[1].shp[0].const == h]
            if not G and h <= 2:        # inverses of order one and two are written out
                gm = lambda q, r: sm(p, lambda q_: el(P_, q_, T.num(q)) * el(P_, q_, T.num(r)))
                if h == 1: g = lambda q, r: inv(gm(0, 0))
                else: g = lambda q, r: (gm(1 - q, 1 - q) if q == r else -gm(0, 1)) * inv(gm(0, 0) * gm(1, 1) - gm(0, 1) * gm(0, 1))
            else:
                if len(G) != 1: raise path.Unsupported('projection matrix formed in another way')
                v.equal(o, G[0][1], lambda i, j: sm(p, lambda q: el(P_, q, i) * el(P_, q, j)), (T.num(h), T.num(h)), 'the Gram matrix of the loadings is inverted')
                g = lambda q, r: T.el(G[0][2], (T.num(q), T.num(r)))
            v.equal(o, PM, lambda i, j: sum_([el(P_, i, T.num(q)) * g(q, r) * el(P_, j, T.num(r)) for q in range(h) for r in range(h)]), (p, p), 'projection matrix')
            ob = est.ols_obj_
            v.equal(o, ob.endog, lambda i, *z: el('Y', i, Z), None, 'the response is regressed')
            i, jj = T.fresh_index(n, 'q'), T.fresh_index(T.num(h), 'q') if h > 1 else Z
            v.prove(o, 'intercept', T.eq(ob.exog.at(i, Z), T.ONE))
            v.prove(o, 'scores are the regressors', T.eq(ob.exog.at(i, jj + 1), sm(p, lambda q: x(i, q) * el(P_, q, jj))))
            after = est.get_params()
            for q, w in kw.items():
                v.check(o, 'parameters are those of the user', after.get(q) == w, '%s became %r' % (q, after.get(q)))
            v.check(o, 'parameters are those of the user', after.get('optimizer_constraints') is None and after.get('optimizer_arguments') is None, 'settings of the optimiser')
            v.check(o, 'parameters are those of the user', (after.get('optimizer_start') is None) == (not start), 'start')
            v.unchanged(o)

        def call(dd, z):
            real = R_(SD)
            nms = ('minimize_ipopt', 'dc', 'orth', 'SAVE', 'SIR', 'DR')
            keep = [getattr(real, q) for q in nms]
            sv = np.linalg.svd(np.cov(z['X'], rowvar=0), compute_uv=False)
            if np.min(sv) < 1e-5 * np.max(sv) or (scale and center == 'median' and (np.median(np.abs(z['X'] - np.median(z['X'], axis=0)), axis=0) == 0).any()): raise Skip()
            if np.linalg.cond(z['D']) > 1e4: raise Skip()
            cnt = [0, 0]

            def mini(*a, **k):
                r = Res(); r.x = (z['D'] if meth == 'dcov-sdr' or cnt[0] else z['D0']).flatten(order='F'); cnt[0] += 1
                return r

            class DC2:
                @staticmethod
                def distance_covariance_sqr(a, b, **k):
                    cnt[1] += 1
                    return z['dcv'][cnt[1] - 1]
            try:
                real.minimize_ipopt, real.dc, real.orth = mini, DC2, lambda a: a
                real.SAVE = real.SIR = real.DR = lambda *a, **k: z['S0'].copy()
                e = real.sudire(optimizer_start=z['U'] if start else None, **kw)
                e.fit(z['X'], z['Y'])
                if (np.ptp(e.x_scores_, axis=0) < 1e-8).any(): raise Skip()
                return [e.x_loadings_, e.x_scores_, e.proj_mat_, e.transform(z['W'])]
            finally:
                for q, w in zip(nms, keep): setattr(real, q, w)
        v.conformance(outs, call, extract=lambda r: list(r[0]), tol=1e-5)


for _a in (('dcov-sdr', 1, 'mean', True, True), ('dcov-sdr', 2, 'mean', True, True), ('dcov-sdr', 2, 'mean', False, True), ('mdd-sdr', 1, 'mean', False, True), ('mdd-sdr', 2, 'mean', True, True), ('own', 2, 'median', True, True), ('dcov-sdr', 1, 'mean', True, False), ('mdd-sdr', 2, 'mean', True, False)):
    _search(*_a)
