"""Contracts on sprm/_m_support_functions.py (C06) and preprocessing/_gsspp_utils.py, gsspp.py (C04)"""
from .lib import *
from .preproc import X2, s_med, s_mean, nz

W = 'sprm._m_support_functions'
G = 'preprocessing._gsspp_utils'
GP = 'preprocessing.gsspp'


def _d(v, two=False):
    n = v.dim('n', 1)
    if two:
        return n, v.array('d', n, T.ONE, nonneg=True), (n, T.ONE)
    return n, v.array('d', n, nonneg=True), (n,)


def mono(v, o, arr, f, what):
    """f(x) for two distances x<=y: f(y)<=f(x), f in [0,1]"""
    n = arr.shp[0]
    i, j = T.fresh_index(n, 'q'), T.fresh_index(n, 'q')
    z = (T.ZERO,) * (len(arr.shp) - 1)
    di, dj = el('d', i, *z), el('d', j, *z)
    wi, wj = arr.at(i, *z), arr.at(j, *z)
    v.prove(o, 'weights are at least 0', T.ge(wi, 0))
    v.prove(o, 'weights are at most 1', T.le(wi, 1))
    v.prove(o, 'weights never increase with the distance', T.le(wj, wi), (T.le(di, dj),))


def _shapes(f):
    for two in (False, True):
        f(two)


def _fair(two):
    @contract('C06', 'Fair weights' + (' of a column' if two else ''), [W + '.Fair'])
    def c(v):
        n, d, shp = _d(v, two)
        c_ = v.real('c', pos=True)
        m = v.mod(W)
        outs = v.run(lambda: m.Fair(d, c_))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda *i: T.power(T.ONE + el('d', *i) * inv(T.num(2) * c_.at()), -2), shp)
            v.unchanged(o)
            # lemma: 1/(1+t)^2 lies in (0,1] and decreases; instantiated at two distances
            i, j = T.fresh_index(n, 'q'), T.fresh_index(n, 'q')
            z = (T.ZERO,) * (len(shp) - 1)
            x, y = el('d', i, *z), el('d', j, *z)
            A_, B_ = T.ONE + x * inv(T.num(2) * c_.at()), T.ONE + y * inv(T.num(2) * c_.at())
            v.prove(o, 'base at least one', T.ge(A_, 1))
            v.prove(o, 'base monotone', T.le(A_, B_), (T.le(x, y),))
        v.conformance(outs, lambda d_, a: R_(W).Fair(a['d'], d_['c']))


_shapes(_fair)


@contract('C06', 'Fair weights lie in [0,1] and decrease (lemma over the contract)', [W + '.Fair'])
def c_fairlem(v):
    s, t = v.real('s', lo=1), v.real('t', lo=1)
    v.requires(T.le(s.at(), t.at()))
    a, b = T.power(s.at(), -2), T.power(t.at(), -2)
    v.prove(None, 'weights are at least 0', T.ge(a, 0))
    v.prove(None, 'weights are at most 1', T.le(a, 1))
    v.prove(None, 'weights never increase with the distance', T.le(b, a))


def huber(x, c):
    return T.ite(T.le(x, c), T.ONE, c * inv(x))


def _huber(two):
    @contract('C06', 'Huber weights' + (' of a column' if two else ''), [W + '.Huber'])
    def c(v):
        n, d, shp = _d(v, two)
        c_ = v.real('c', pos=True)
        m = v.mod(W)
        outs = v.run(lambda: m.Huber(d, c_))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda *i: huber(el('d', *i), c_.at()), shp)
            mono(v, o, o.value, None, '')
            v.unchanged(o)
        v.conformance(outs, lambda d_, a: R_(W).Huber(a['d'], d_['c']))


_shapes(_huber)


def hampel(x, a, b, r):
    return T.ite(T.le(x, a), T.ONE, T.ite(T.le(x, b), a * inv(x), T.ite(T.le(x, r), a * (r - x) * inv((r - b) * x), T.ZERO)))


def _hampel(two):
    @contract('C06', 'Hampel weights' + (' of a column' if two else ''), [W + '.Hampel'], cost=3)
    def c(v):
        n, d, shp = _d(v, two)
        a, e, g = v.real('c', pos=True), v.real('e', pos=True), v.real('g', pos=True)
        b = T.lift(a.at()) + e.at()
        r = b + g.at()
        m = v.mod(W)
        outs = v.run(lambda: m.Hampel(d, a, a + e, a + e + g))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda *i: hampel(el('d', *i), a.at(), b, r), shp)
            mono(v, o, o.value, None, '')
            v.unchanged(o)
        v.conformance(outs, lambda d_, x: R_(W).Hampel(x['d'], d_['c'], d_['c'] + d_['e'], d_['c'] + d_['e'] + d_['g']))


_shapes(_hampel)


# ---------------------------------------------------------------------- radial functions (C04)
TT = T.num(2) * T.power(T.num(3), -1)      # 2/3


def hmed(n, p, body):
    """order statistic floor((n+p+1)/2) (counted from one)"""
    k = T.fn('floor', (n + p + T.ONE) * H) - 1
    return rank(n, body, k)


def p23(x):
    return T.power(T.lift(x), TT.const)


def p32(x):
    from fractions import Fraction as Fr
    return T.power(T.lift(x), Fr(3, 2))


def dd(i):
    return el('d', i, T.ZERO)


def x_quad(n, p, i):
    h = hmed(n, p, dd)
    return T.ite(T.gt(dd(i), h), sq(h) * T.power(dd(i), -2), T.ONE)


def x_winsor(n, p, i):
    h = hmed(n, p, dd)
    return T.ite(T.gt(dd(i), h), h * inv(dd(i)), T.ONE)


def x_ball(n, p, i):
    h = hmed(n, p, dd)
    return T.ite(T.gt(dd(i), h), T.ZERO, T.ONE)


def _cut(n, p):
    h = hmed(n, p, lambda k: p23(dd(k)))
    s = hmed(n, p, lambda k: absv(p23(dd(k)) - h))
    return h, s


def x_shell(n, p, i):
    h, s = _cut(n, p)
    lo = p32(T.ite(T.ge(h - s, 0), h - s, T.ZERO))
    hi = p32(h + s)
    return T.ite(T.or_(T.lt(dd(i), lo), T.gt(dd(i), hi)), T.ZERO, T.ONE)


def x_lr(n, p, i):
    h, s = _cut(n, p)
    dm, c = p32(h), p32(h + T.lift(1.4826) * s)
    return T.ite(T.le(dd(i), dm), T.ONE, T.ite(T.le(dd(i), c), T.ONE - (dd(i) - dm) * inv(c - dm), T.ZERO))


def x_ss(n, p, i):
    return T.ite(T.ge(dd(i), T.lift(1e-10)), inv(dd(i)), inv(T.lift(1e-10)))


RAD = {'quad': x_quad, 'winsor': x_winsor, 'ball': x_ball, 'shell': x_shell, 'linear_redescending': x_lr, 'ss': x_ss}


def zeroone(rng, shp):
    import numpy as np
    r = np.random.RandomState(rng.randrange(2 ** 31))
    return np.where(r.rand(*shp) < 0.75, r.randint(0, 2, size=shp), 3 * r.rand(*shp))


def _radial(nm):
    @contract('C04', 'radial function %s' % nm, [G + '.' + nm], cost=2)
    def c(v):
        n, p = v.dim('n', 2), v.dim('p', 1)
        v.requires(T.le(p, n - 1))
        d = v.array('d', n, T.ONE, nonneg=True, gen=zeroone if nm == 'shell' else None)
        m = v.mod(G)
        outs = v.run(lambda: getattr(m, nm)(d, v.int(p), v.int(n)))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda i, j: RAD[nm](n, p, i), (n, T.ONE))
            v.unchanged(o)

        def real(d_, a):
            if nm == 'shell':
                # a case sits on each cut-off; whether rounding puts it in or out is not modelled
                import numpy as np
                h = int(np.floor((d_['n'] + d_['p'] + 1) / 2)) - 1
                w = a['d'] ** (2 / 3)
                m_ = np.sort(w, axis=0)[h]
                s_ = np.sort(abs(w - m_), axis=0)[h]
                lo, hi = np.maximum(0, m_ - s_) ** 1.5, (m_ + s_) ** 1.5
                near = lambda c: abs(a['d'] - c) < 1e-9
                ex = (a['d'] == 0) | (a['d'] == 1)
                if ((near(lo) | near(hi)) & ~ex).any():
                    raise Skip()
            return getattr(R_(G), nm)(a['d'], d_['p'], d_['n'])
        v.conformance(outs, real)


for _n in RAD:
    _radial(_n)


def _norm(nm, p, i, c):
    return T.sqrt(sm(p, lambda j: sq(el(nm, i, j) - c(j))))


@contract('C04', 'generalised spatial signs: the transformer stores the centre and moves every case along its ray by the radial function',
          [GP + '.GenSpatialSignPreProcessor.fit', GP + '.GenSpatialSignPreProcessor.transform', GP + '.GenSpatialSignPreProcessor.fit_transform', G + '._gsspp', G + '._norms'])
def c_gss(v):
    """arbitrary centre (uninterpreted estimator) and arbitrary radial function"""
    n, p, X = X2(v, 2, 2)
    k = v.dim('nk', 2)
    Y = v.array('Y', k, p)
    m = v.array('m', p)
    rx, ry = v.array('rx', n, T.ONE), v.array('ry', k, T.ONE)
    mod = v.mod(GP)
    seen = []

    def cen(x, trimming=0):
        return m.copy()

    def fun(d, p_, n_, *a):
        seen.append((d, p_, n_))
        return rx.copy() if asd(n_) is n else ry.copy()

    def asd(q):
        return q.at() if isinstance(q, A) else q

    def go():
        seen.clear()
        g = mod.GenSpatialSignPreProcessor(center=cen, fun=fun)
        a = g.fit_transform(X)
        b = g.transform(Y)
        return a, b, seen[-2], seen[-1], g.gss_
    outs = v.run(go)
    for o in v.normal(outs):
        a, b, sx, sy, gss = o.value
        v.equal(o, a, lambda i, j: (el('X', i, j) - el('m', j)) * el('rx', i, T.ZERO), (n, p), 'training data')
        v.equal(o, b, lambda i, j: (el('Y', i, j) - el('m', j)) * el('ry', i, T.ZERO), (k, p), 'new data')
        v.equal(o, sx[0], lambda i, z: _norm('X', p, i, lambda j: el('m', j)), (n, T.ONE), 'radial function evaluated at the distances to the centre')
        v.equal(o, sy[0], lambda i, z: _norm('Y', p, i, lambda j: el('m', j)), (k, T.ONE), 'radial function evaluated at the distances of the new cases to the stored centre')
        for q, nn in ((sx, n), (sy, k)):
            v.prove(o, 'numbers of columns and cases passed on', T.and_(T.eq(asd(q[1]), p), T.eq(asd(q[2]), nn)))
        v.equal(o, gss, lambda i, z: el('rx', i, T.ZERO), (n, T.ONE), 'stored radial values')
        v.unchanged(o)

    def real(d, a):
        g = R_(GP).GenSpatialSignPreProcessor(center=lambda x, trimming=0: a['m'].copy(), fun=lambda dd, p, n, *r: (a['rx'] if len(dd) == len(a['X']) else a['ry']).copy())
        if len(a['X']) == len(a['Y']):
            raise Skip()
        return g.fit_transform(a['X']), g.transform(a['Y'])
    v.conformance(outs, real, lambda w: (w[0], w[1]))


def _gfun(nm, cen):
    """modular: the radial function and the location estimator are known by their contracts only
    (functions of the distances, respectively of the data)"""
    @contract('C04', 'gen_ss_pp, gen_ss_covmat and the transformer agree: radial function %s, centre %s' % (nm, cen),
              [GP + '.gen_ss_pp', GP + '.gen_ss_covmat', GP + '.GenSpatialSignPreProcessor.fit_transform', G + '._gsspp', G + '._norms'])
    def c(v):
        n, p, X = X2(v, 3, 2)
        mod = v.mod(GP)
        r = v.array('r', n, T.ONE)
        m = v.array('m', p)
        seen = []

        def fun(d, p_, n_, *a):
            seen.append(d)
            return r.copy()
        if isinstance(nm, str):
            v.stub(G, nm, fun)
        centre = cen
        if cen != 'None':
            v.stub(U_, cen, lambda x, **k: m.copy())
        arg = nm

        def go():
            seen.clear()
            f = mod.gen_ss_pp(X, center=centre, fun=arg)
            k = len(seen)
            cm = mod.gen_ss_covmat(X, center=centre, fun=arg)
            g = mod.GenSpatialSignPreProcessor(center=centre, fun=arg).fit_transform(X)
            return f, cm, g, seen[0], seen[k], seen[-1]
        outs = v.run(go)
        mm = (lambda j: el('m', j)) if cen != 'None' else (lambda j: T.ZERO)

        def spec(i, j):
            return (el('X', i, j) - mm(j)) * el('r', i, T.ZERO)
        for o in v.normal(outs):
            f, cm, g = o.value[:3]
            v.equal(o, f, spec, (n, p), 'function form')
            v.equal(o, g, spec, (n, p), 'transformer')
            v.equal(o, cm, lambda a, b: sm(n, lambda i: spec(i, a) * spec(i, b)) * inv(n), (p, p), 'sign covariance matrix')
            for d in o.value[3:]:
                v.equal(o, d, lambda i, z: _norm('X', p, i, mm), (n, T.ONE), 'radial function evaluated at the distances')
            v.unchanged(o)


from .preproc import U as U_
for _n in RAD:
    _gfun(_n, 'l1median')
for _c in ('None', 'mean', 'median', 'kstepLTS'):
    _gfun('ss', _c)
