"""Contracts on preprocessing/_preproc_utilities.py and preprocessing/robcent.py"""
from .lib import *

U = 'preprocessing._preproc_utilities'
RC = 'preprocessing.robcent'
C_MAD = 0.6744897501960817
MADC = T.lift(C_MAD)


def X2(v, lo_n=2, lo_p=2, **k):
    n, p = v.dim('n', lo_n), v.dim('p', lo_p)
    return n, p, v.array('X', n, p, **k)


def nonan(i, j):
    return T.not_(T.bel('X.nan', (i, j)))


# ---------------------------------------------------------------------- estimators (C02)
@contract('C02', 'median of each column', [U + '.median'])
def c_median(v):
    n, p, X = X2(v, 1, 1)
    m = v.mod(U)
    outs = v.run(lambda: m.median(X))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda j: med(n, lambda i: el('X', i, j)), (p,))
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_('preprocessing._preproc_utilities').median(a['X']))


@contract('C02', 'median of each column, missing values ignored', [U + '.median'])
def c_median_nan(v):
    n, p, X = X2(v, 1, 1, nan=True)
    m = v.mod(U)
    j0 = T.fresh_index(p, 'j')
    v.requires(T.forall(j0, p, count(n, lambda i: nonan(i, j0)) .__class__ and T.ge(count(n, lambda i: nonan(i, j0)), 1)))
    outs = v.run(lambda: m.median(X))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda j: med(n, lambda i: el('X', i, j), lambda i: nonan(i, j)), (p,))
    v.conformance(outs, lambda d, a: R_('preprocessing._preproc_utilities').median(a['X']))


@contract('C02', 'mean of each column', [U + '.mean'])
def c_mean(v):
    n, p, X = X2(v, 1, 1)
    m = v.mod(U)
    outs = v.run(lambda: m.mean(X))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda j: avg(n, lambda i: el('X', i, j)), (p,))
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_('preprocessing._preproc_utilities').mean(a['X']))


@contract('C02', 'mean of each column, missing values ignored', [U + '.mean'])
def c_mean_nan(v):
    n, p, X = X2(v, 1, 1, nan=True)
    m = v.mod(U)
    j0 = T.fresh_index(p, 'j')
    v.requires(T.forall(j0, p, T.ge(count(n, lambda i: nonan(i, j0)), 1)))
    outs = v.run(lambda: m.mean(X))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda j: avg(n, lambda i: el('X', i, j), lambda i: nonan(i, j)), (p,))
    v.conformance(outs, lambda d, a: R_('preprocessing._preproc_utilities').mean(a['X']))


@contract('C02', 'trimmed mean of each column', [U + '.mean'])
def c_mean_trim(v):
    n, p, X = X2(v, 1, 1)
    t = v.real('t', lo=0, hi=T.lift(0.49))
    v.requires(T.gt(t.at(), 0))
    m = v.mod(U)
    outs = v.run(lambda: m.mean(X, trimming=t))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda j: agg('trimmean', n, lambda i: el('X', i, j), None, (t.at(),)), (p,))
    v.conformance(outs, lambda d, a: R_('preprocessing._preproc_utilities').mean(a['X'], trimming=d['t']))


@contract('C02', 'standard deviation of each column', [U + '.std'])
def c_std(v):
    n, p, X = X2(v, 1, 1)
    m = v.mod(U)
    outs = v.run(lambda: m.std(X))

    def spec(j):
        mu = avg(n, lambda i: el('X', i, j))
        return T.sqrt(avg(n, lambda i: sq(el('X', i, j) - mu)))
    for o in v.normal(outs):
        v.equal(o, o.value, spec, (p,))
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_('preprocessing._preproc_utilities').std(a['X']))


@contract('C02', 'standard deviation of each column, missing values ignored', [U + '.std'])
def c_std_nan(v):
    n, p, X = X2(v, 1, 1, nan=True)
    m = v.mod(U)
    j0 = T.fresh_index(p, 'j')
    v.requires(T.forall(j0, p, T.ge(count(n, lambda i: nonan(i, j0)), 1)))
    outs = v.run(lambda: m.std(X))

    def spec(j):
        g = lambda i: nonan(i, j)
        mu = avg(n, lambda i: el('X', i, j), g)
        return T.sqrt(avg(n, lambda i: sq(el('X', i, j) - mu), g))
    for o in v.normal(outs):
        v.equal(o, o.value, spec, (p,))
    v.conformance(outs, lambda d, a: R_('preprocessing._preproc_utilities').std(a['X']))


@contract('C02', 'trimmed standard deviation of each column', [U + '.std'])
def c_std_trim(v):
    n, p, X = X2(v, 1, 1)
    t = v.real('t', lo=0, hi=T.lift(0.49))
    v.requires(T.gt(t.at(), 0))
    m = v.mod(U)
    outs = v.run(lambda: m.std(X, trimming=t))

    def spec(j):
        tm = agg('trimmean', n, lambda i: el('X', i, j), None, (t.at(),))
        return T.sqrt(agg('trimmean', n, lambda i: sq(el('X', i, j) - tm), None, (t.at(),)))
    for o in v.normal(outs):
        v.equal(o, o.value, spec, (p,))
    v.conformance(outs, lambda d, a: R_('preprocessing._preproc_utilities').std(a['X'], trimming=d['t']))


@contract('C02', 'median absolute deviation of each column', [U + '.mad', U + '.median'])
def c_mad(v):
    n, p, X = X2(v, 1, 1)
    m = v.mod(U)
    outs = v.run(lambda: m.mad(X))

    def spec(j):
        mm = med(n, lambda i: el('X', i, j))
        return med(n, lambda i: absv(el('X', i, j) - mm)) * inv(MADC)
    for o in v.normal(outs):
        v.equal(o, o.value, spec, (p,))
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_('preprocessing._preproc_utilities').mad(a['X']))


def _tau_contract(cons):
    @contract('C02', 'tau scale of a single column, %s' % {False: 'no consistency factor', True: 'consistent at the normal', 'finiteSample': 'consistent in finite samples'}[cons], [U + '.scaleTau2', U + '.median'])
    def c_tau(v):
        n = v.dim('n', 3)
        X = v.array('X', n, T.ONE)
        mod = v.mod(U)
        x = lambda i: el('X', i, T.ZERO)
        m0 = med(n, x)
        s0 = med(n, lambda i: absv(x(i) - m0))
        v.requires(T.gt(s0, 0))
        outs = v.run(lambda: mod.scaleTau2(X, consistency=cons))

        def spec(j):
            def w(i):
                u = 1 - sq((x(i) - m0) * inv(s0 * T.lift(4.5)))
                return sq((absv(u) + u) * T.lift(0.5))
            mu = sm(n, lambda i: x(i) * w(i)) * inv(sm(n, w))
            r = lambda i: sq((x(i) - mu) * inv(s0))
            tot = sm(n, lambda i: T.ite(T.gt(r(i), 9), T.lift(9), r(i)))
            return s0 * T.sqrt(tot * inv({False: n, True: n * T.lift(ES2), 'finiteSample': (n - 2) * T.lift(ES2)}[cons]))
        for o in v.normal(outs):
            v.equal(o, o.value, spec, (T.ONE,))
            v.unchanged(o)
        v.conformance(outs, lambda d, a: R_(U).scaleTau2(a['X'], consistency=cons))
    return c_tau


def _es2():
    from scipy.stats import norm
    b = 3 * norm.ppf(0.75)
    return float(2 * ((1 - b ** 2) * norm.cdf(b) - b * norm.pdf(b) + b ** 2) - 1)


ES2 = _es2()
for _c in (False, True, 'finiteSample'):
    _tau_contract(_c)


# ---------------------------------------------------------------------- scaling (C01)
def nz(s):
    """zero scale counts as one"""
    return T.ite(T.eq(s, 0), T.ONE, s)


@contract('C01', 'scale_data subtracts the centre and divides by the scale, column by column', [U + '.scale_data', U + '._handle_zeros_in_scale'])
def c_scale_data(v):
    n, p, X = X2(v, 1, 2)
    m, s = v.array('m', p), v.array('s', p, gen=zscale)
    mod = v.mod(U)
    outs = v.run(lambda: mod.scale_data(X, m, s))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda i, j: (el('X', i, j) - el('m', j)) * inv(nz(el('s', j))), (n, p))
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_(U).scale_data(a['X'], a['m'], a['s']))


@contract('C01', 'scale_data on a single column', [U + '.scale_data', U + '._handle_zeros_in_scale'])
def c_scale_data1(v):
    n = v.dim('n', 1)
    X = v.array('X', n, T.ONE)
    m, s = v.array('m', T.ONE), v.array('s', T.ONE, gen=zscale)
    mod = v.mod(U)
    outs = v.run(lambda: mod.scale_data(X, m, s))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda i, j: (el('X', i, T.ZERO) - el('m', T.ZERO)) * inv(nz(el('s', T.ZERO))), (n, T.ONE))
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_(U).scale_data(a['X'], a['m'], a['s']))


def zscale(rng, shp):
    import numpy as np
    r = np.random.RandomState(rng.randrange(2 ** 31))
    x = np.abs(r.randn(*shp)) + 0.2
    x[r.rand(*shp) < 0.3] = 0
    return x


def _vs(v, lo_p=2):
    """a scaler with arbitrary location and scale estimators"""
    n, p, X = X2(v, 2, lo_p)
    mod = v.mod(RC)
    m, s = v.array('m', p), v.array('s', p, gen=zscale)
    calls = []

    def cen(x, trimming=0):
        calls.append(('c', x, trimming))
        return m.copy()

    def sca(x, trimming=0):
        calls.append(('s', x, trimming))
        return s.copy()
    return n, p, X, mod, cen, sca, calls


def real_vs(a):
    return R_(RC).VersatileScaler(center=lambda x, trimming=0: a['m'].copy(), scale=lambda x, trimming=0: a['s'].copy())


@contract('C01', 'VersatileScaler.fit_transform scales by its own estimates and stores them',
          [RC + '.VersatileScaler.fit', RC + '.VersatileScaler.transform', RC + '.VersatileScaler.fit_transform', U + '.scale_data'])
def c_vs(v):
    n, p, X, mod, cen, sca, calls = _vs(v)

    def go():
        calls.clear()
        vs = mod.VersatileScaler(center=cen, scale=sca, trimming=0)
        r = vs.fit_transform(X)
        return r, vs.center_, vs.scale_, vs.col_loc_, vs.col_sca_, calls[0][1], calls[1][1]
    outs = v.run(go)
    for o in v.normal(outs):
        r, c, s, c2, s2, xc, xs = o.value
        v.equal(o, r, lambda i, j: (el('X', i, j) - el('m', j)) * inv(nz(el('s', j))), (n, p))
        v.equal(o, c, lambda j: el('m', j), (p,), 'stored centre')
        v.equal(o, s, lambda j: el('s', j), (p,), 'stored scale')
        v.equal(o, c2, lambda j: el('m', j), (p,), 'stored centre (old name)')
        v.equal(o, s2, lambda j: el('s', j), (p,), 'stored scale (old name)')
        v.equal(o, xc, lambda i, j: el('X', i, j), (n, p), 'the centre is estimated on the data')
        v.equal(o, xs, lambda i, j: el('X', i, j), (n, p), 'the scale is estimated on the data')
        v.unchanged(o, 'X')
    v.conformance(outs, lambda d, a: real_vs(a).fit_transform(a['X']), lambda w: w[0])


@contract('C01', 'VersatileScaler.predict and transform use the stored estimates on new data; the estimates stay',
          [RC + '.VersatileScaler.predict', RC + '.VersatileScaler.transform', U + '.scale_data'])
def c_vs_new(v):
    n, p, X, mod, cen, sca, calls = _vs(v)
    k = v.dim('nk', 2)
    Y = v.array('Y', k, p)

    def go():
        calls.clear()
        vs = mod.VersatileScaler(center=cen, scale=sca, trimming=0)
        vs.fit(X)
        a = vs.predict(Y)
        b = vs.transform(Y)
        return a, b, vs.center_, vs.scale_, len(calls)
    outs = v.run(go)
    for o in v.normal(outs):
        a, b, c, s, nc = o.value
        for r, w in ((a, 'predict'), (b, 'transform')):
            v.equal(o, r, lambda i, j: (el('Y', i, j) - el('m', j)) * inv(nz(el('s', j))), (k, p), w)
        v.equal(o, c, lambda j: el('m', j), (p,), 'stored centre')
        v.equal(o, s, lambda j: el('s', j), (p,), 'stored scale')
        v.prove(o, 'estimators are evaluated at fit only', T.TRUE if nc == 2 else T.FALSE)
        v.unchanged(o)

    def real(d, a):
        vs = real_vs(a)
        vs.fit(a['X'])
        return vs.predict(a['Y']), vs.transform(a['Y'])
    v.conformance(outs, real, lambda w: (w[0], w[1]))


@contract('C01', 'inverse_transform undoes transform', [RC + '.VersatileScaler.inverse_transform', RC + '.VersatileScaler.transform', U + '.scale_data'])
def c_vs_inv(v):
    n, p, X, mod, cen, sca, calls = _vs(v)
    k = v.dim('nk', 2)
    Y = v.array('Y', k, p)

    def go():
        vs = mod.VersatileScaler(center=cen, scale=sca, trimming=0)
        vs.fit(X)
        vs.transform(X)
        return vs.inverse_transform(), vs.inverse_transform(vs.transform(Y)), vs.transform(vs.inverse_transform(Y))
    outs = v.run(go)
    for o in v.normal(outs):
        a, b, c = o.value
        v.equal(o, a, lambda i, j: el('X', i, j), (n, p), 'the data scaled last are recovered')
        v.equal(o, b, lambda i, j: el('Y', i, j), (k, p), 'new data are recovered')
        v.equal(o, c, lambda i, j: el('Y', i, j), (k, p), 'scaled data are recovered')

    def real(d, a):
        vs = real_vs(a)
        vs.fit(a['X'])
        vs.transform(a['X'])
        return vs.inverse_transform(), vs.inverse_transform(vs.transform(a['Y'])), vs.transform(vs.inverse_transform(a['Y']))
    v.conformance(outs, real)


@contract('C01', "centre 'None' and scale 'None' leave the data as they are", [RC + '.VersatileScaler.fit', RC + '.VersatileScaler.fit_transform'])
def c_vs_none(v):
    n, p, X = X2(v, 2, 2)
    mod = v.mod(RC)
    outs = v.run(lambda: mod.VersatileScaler(center='None', scale='None').fit_transform(X))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda i, j: el('X', i, j), (n, p))
    v.conformance(outs, lambda d, a: R_(RC).VersatileScaler(center='None', scale='None').fit_transform(a['X']))


def _named(cen, sca, cspec, sspec):
    @contract('C01', 'versatile_scale(%s, %s): columns of the result' % (cen, sca),
              [RC + '.versatile_scale', RC + '.VersatileScaler.fit', RC + '.VersatileScaler.fit_transform', U + '.scale_data', U + '.' + cen, U + '.' + sca])
    def c(v, cen=cen, sca=sca):
        n, p, X = X2(v, 2, 2)
        mod = v.mod(RC)
        outs = v.run(lambda: mod.versatile_scale(X, center=cen, scale=sca))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda i, j: (el('X', i, j) - cspec(n, j)) * inv(nz(sspec(n, j))), (n, p))
            v.unchanged(o)
        v.conformance(outs, lambda d, a: R_(RC).versatile_scale(a['X'], center=cen, scale=sca))
    return c


def s_mean(n, j): return avg(n, lambda i: el('X', i, j))
def s_med(n, j): return med(n, lambda i: el('X', i, j))
def s_std(n, j):
    mu = s_mean(n, j)
    return T.sqrt(avg(n, lambda i: sq(el('X', i, j) - mu)))
def s_mad(n, j):
    mm = s_med(n, j)
    return med(n, lambda i: absv(el('X', i, j) - mm)) * inv(MADC)


for _c, _cs in (('mean', s_mean), ('median', s_med)):
    for _s, _ss in (('std', s_std), ('mad', s_mad)):
        _named(_c, _s, _cs, _ss)


@contract('C01', 'a trimming fraction outside [0, 0.99] is rejected', [RC + '.VersatileScaler.fit', U + '._check_trimming'])
def c_trim_bad(v):
    n, p, X = X2(v, 2, 2)
    t = v.real('t')
    v.requires(T.or_(T.gt(t.at(), T.lift(0.99)), T.lt(t.at(), 0)))
    mod = v.mod(RC)
    outs = v.run(lambda: mod.VersatileScaler(trimming=t).fit(X))
    v.raises(outs, ValueError, 'ValueError')


# ---------------------------------------------------------------------- spatial median, k-step LTS (C03)
def dist(n, p, i, a='a'):
    return T.sqrt(sm(p, lambda j: sq(el('X', i, j) - el(a, j))))


@contract('C03', 'objective of the spatial median: sum of Euclidean distances', [U + '._l1m_objective', U + '._euclidnorm', U + '._diffmat_objective'])
def c_l1obj(v):
    n, p, X = X2(v, 1, 2)
    a = v.array('a', p)
    m = v.mod(U)
    outs = v.run(lambda: m._l1m_objective(a, X))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda: sm(n, lambda i: dist(n, p, i)), ())
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_(U)._l1m_objective(a['a'], a['X']))


@contract('C03', 'gradient of the spatial median objective', [U + '._l1m_jacobian', U + '._euclidnorm', U + '._diffmat_objective', U + '._handle_zeros_in_scale'])
def c_l1jac(v):
    n, p, X = X2(v, 1, 2)
    a = v.array('a', p)
    m = v.mod(U)
    outs = v.run(lambda: m._l1m_jacobian(a, X))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda j: -sm(n, lambda i: (el('X', i, j) - el('a', j)) * inv(nz(dist(n, p, i)))), (p,))
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_(U)._l1m_jacobian(a['a'], a['X']))


@contract('C03', 'l1median minimises that objective with that gradient, from the columnwise median', [U + '.l1median', U + '._l1median', U + '.median'])
def c_l1(v):
    n, p, X = X2(v, 2, 2)
    m = v.mod(U)
    from pvc import models
    seen = []
    old = m.spo

    class SPO:
        def minimize(self, fun, x0, args=(), jac=None, **k):
            seen[:] = [(fun, x0, args, jac)]
            r = models.Opt()
            r.x = v.arrays['opt']['a'].copy()
            return r
    v.array('opt', p)
    m.spo = SPO()

    def go():
        seen.clear()
        r = m.l1median(X)
        fun, x0, args, jac = seen[0]
        return r, x0, fun is m._l1m_objective, jac is m._l1m_jacobian, (args[0] if isinstance(args, tuple) else args)
    outs = v.run(go)
    m.spo = old
    for o in v.normal(outs):
        r, x0, f1, f2, xa = o.value
        v.equal(o, r, lambda j: el('opt', j), (p,), 'the optimum found is returned')
        v.equal(o, x0, lambda j: s_med(n, j), (p,), 'start')
        v.prove(o, 'objective and gradient handed to the optimiser', T.TRUE if f1 and f2 else T.FALSE)
        v.equal(o, xa, lambda i, j: el('X', i, j), (n, p), 'data handed to the optimiser')
        v.unchanged(o)


@contract('C03', 'l1median of a single column is the median', [U + '.l1median', U + '.median'])
def c_l1one(v):
    n = v.dim('n', 1)
    X = v.array('X', n, T.ONE)
    m = v.mod(U)
    outs = v.run(lambda: m.l1median(X))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda j: med(n, lambda i: el('X', i, T.ZERO)), (T.ONE,))
    v.conformance(outs, lambda d, a: R_(U).l1median(a['X']))


# ---------------------------------------------------------------------- wrapping (C05)
def psi(x):
    """wrapping function, b=1.5, c=4"""
    q1, q2 = T.lift(1.540793), T.lift(0.8622731)
    ax = absv(x)
    mid = q1 * T.fn('tanh', q2 * (T.num(4) - ax)) * T.ite(T.lt(x, 0), T.num(-1), T.ONE)
    return T.ite(T.lt(ax, T.lift(1.5)), x, T.ite(T.lt(ax, 4), mid, T.ZERO))


@contract('C05', 'wrap applies the wrapping function to each standardised column and rescales', [U + '.wrap', U + '.wrap_univ', U + '._handle_zeros_in_scale'])
def c_wrap(v):
    n, p, X = X2(v, 1, 1)
    m, s = v.array('m', p), v.array('s', p, gen=zscale, nonneg=True)
    mod = v.mod(U)
    outs = v.run(lambda: mod.wrap(X, m, s))
    for o in v.normal(outs):
        def spec(i, j):
            sj = nz(el('s', j))
            return psi((el('X', i, j) - el('m', j)) * inv(sj)) * sj + el('m', j)
        v.equal(o, o.value, spec, (n, p))
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_(U).wrap(a['X'], a['m'], a['s']))


@contract('C05', 'Wrapper wraps about the columnwise median and mad of the training data',
          [RC + '.Wrapper.fit', RC + '.Wrapper.transform', RC + '.Wrapper.predict', RC + '.Wrapper.fit_transform', U + '.wrap', U + '.wrap_univ'])
def c_wrapper(v):
    n, p, X = X2(v, 2, 2)
    k = v.dim('nk', 2)
    Y = v.array('Y', k, p)
    mod = v.mod(RC)

    def go():
        w = mod.Wrapper()
        a = w.fit_transform(X)
        return a, w.transform(Y), w.predict(Y)
    outs = v.run(go)

    def spec(nm):
        def f(i, j):
            sj, mj = nz(s_mad(n, j)), s_med(n, j)
            return psi((el(nm, i, j) - mj) * inv(sj)) * sj + mj
        return f
    for o in v.normal(outs):
        a, b, c = o.value
        v.equal(o, a, spec('X'), (n, p), 'training data')
        v.equal(o, b, spec('Y'), (k, p), 'new data, transform')
        v.equal(o, c, spec('Y'), (k, p), 'new data, predict')
        v.unchanged(o)

    def real(d, a):
        w = R_(RC).Wrapper()
        x = w.fit_transform(a['X'])
        return x, w.transform(a['Y']), w.predict(a['Y'])
    v.conformance(outs, real)


# ---------------------------------------------------------------------- k-step LTS (C03)
@contract('C03', 'k-step LTS: starts at the spatial median; every step averages the half of the cases nearest to the current location',
          [U + '.kstepLTS', U + '.mean'], cost=2)
def c_kstep(v):
    n, p, X = X2(v, 2, 2)
    m0 = v.array('m0', p)
    mod = v.mod(U)
    v.stub(U, 'l1median', lambda x, **k: m0.copy())
    carried = []

    def arrays(loc):
        return {k: x for k, x in loc.items() if isinstance(x, A) and x.ndim == 1 and x.shp[0] is p}

    def inv(loc):
        # the copies of the location agree at the head of the loop
        a = arrays(loc)
        j = T.fresh_index(p, 'q')
        c = [q for q in carried if q in a]
        return [('the location carried over is the one just computed', T.forall(j, p, T.eq(a[c[0]].at(j), a[q].at(j)))) for q in c[1:]]

    def entry(loc):
        a = arrays(loc)
        carried[:] = sorted(a)
        j = T.fresh_index(p, 'q')
        return [('the iteration starts at the spatial median', T.eq(a[q].at(j), el('m0', j))) for q in a]
    rule = v.loops(inv, entry)
    mi = v.dim('nit', 1)
    outs = v.run(lambda: mod.kstepLTS(X, maxit=v.int(mi)))
    if not rule.uses:
        raise AssertionError('loop not found')
    cur = 'head.' + carried[0]

    def spec(j):
        d = lambda i: sm(p, lambda q: sq(el('X', i, q) - el(cur, q)))
        h = T.fn('floor', (n + 1) * H) - 1
        cut = rank(n, d, h)
        return avg(n, lambda i: el('X', i, j), lambda i: T.le(d(i), cut))
    for o in v.normal(outs):
        v.equal(o, o.value, spec, (p,), 'the result is one step from the current location')
        v.unchanged(o, 'X')


# ---------------------------------------------------------------------- spatial median of data with missing values
def dist_nan(n, p, i, a='a'):
    return T.sqrt(sm(p, lambda j: sq(el('X', i, j) - el(a, j)), lambda j: nonan(i, j)))


@contract('C03', 'objective of the spatial median of incomplete data: distances over what is observed', [U + '._l1m_objective', U + '._euclidnorm', U + '._diffmat_objective'])
def c_l1objn(v):
    n, p, X = X2(v, 1, 2, nan=True)
    a = v.array('a', p)
    m = v.mod(U)
    outs = v.run(lambda: m._l1m_objective(a, X))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda: sm(n, lambda i: dist_nan(n, p, i)), ())
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_(U)._l1m_objective(a['a'], a['X']))


@contract('C03', 'gradient of the spatial median objective of incomplete data', [U + '._l1m_jacobian', U + '._euclidnorm', U + '._diffmat_objective', U + '._handle_zeros_in_scale'])
def c_l1jacn(v):
    n, p, X = X2(v, 1, 2, nan=True)
    a = v.array('a', p)
    m = v.mod(U)
    outs = v.run(lambda: m._l1m_jacobian(a, X))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda j: -sm(n, lambda i: (el('X', i, j) - el('a', j)) * inv(nz(dist_nan(n, p, i))), lambda i: nonan(i, j)), (p,))
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_(U)._l1m_jacobian(a['a'], a['X']))
