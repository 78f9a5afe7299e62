"""Contracts on dicomo/_dicomo_utils.py, dicomo/dicomo.py and ppdire/capi.py"""
from .lib import *
from pvc import snp

DU = 'dicomo._dicomo_utils'
DI = 'dicomo.dicomo'
Z = T.ZERO


def mmt(n, x, y, kx, ky, t=None):
    """(trimmed) co-moment of orders kx, ky about the (trimmed) means"""
    A_ = (lambda f: avg(n, f)) if t is None else (lambda f: agg('trimmean', n, f, None, (t,)))
    mx, my = A_(x), A_(y)
    return A_(lambda i: T.power(x(i) - mx, kx) * T.power(y(i) - my, ky))


def fac(m, order):
    r = m
    for k in range(max(1, order - 2), order):
        r = r * inv(m - T.num(k))
    return r


def col(nm, vec=False):
    return (lambda i: el(nm, i)) if vec else (lambda i: el(nm, i, Z))


def data(v, nm, n, vec):
    return v.array(nm, n) if vec else v.array(nm, n, T.ONE)


def nonflat(v, n, *nms, vec=False):
    for q in nms:
        v.requires(T.gt(mmt(n, col(q, vec), col(q, vec), 1, 1), 0))


# ---------------------------------------------------------------------- trim_mom
def _trim_mom(order, option, bc):
    @contract('C13', 'trim_mom: co-moment of order %d, option %d%s' % (order, option, ', small-sample correction' if bc else ''), [DU + '.trim_mom', DU + '.trim_mean'])
    def c(v):
        n = v.dim('n', 5)
        x, y = v.array('x', n, T.ONE), v.array('y', n, T.ONE)
        mod = v.mod(DU)
        outs = v.run(lambda: mod.trim_mom(x, y, mod.trim_mean, order, 0, option, bc))
        k2 = option if order > 2 else 1
        for o in v.normal(outs):
            v.equal(o, o.value, lambda: mmt(n, col('x'), col('y'), order - k2 if order > 2 else 1, k2) * (fac(n, order) if bc else T.ONE), ())
            v.unchanged(o)
        v.conformance(outs, lambda d, a: R_(DU).trim_mom(a['x'], a['y'], R_(DU).trim_mean, order, 0, option, bc), tol=1e-6)


for _o, _p in ((2, 0), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3)):
    for _b in (False, True):
        _trim_mom(_o, _p, _b)


def _trim_mom_t(order, option, bc):
    @contract('C13', 'trim_mom with trimming: co-moment of order %d, option %d%s' % (order, option, ', small-sample correction' if bc else ''), [DU + '.trim_mom', DU + '.trim_mean'])
    def c(v):
        n = v.dim('n', 8)
        x, y = v.array('x', n, T.ONE), v.array('y', n, T.ONE)
        t = v.real('t', lo=0, hi=T.lift(0.3))
        v.requires(T.gt(t.at(), 0))
        mod = v.mod(DU)
        outs = v.run(lambda: mod.trim_mom(x, y, mod.trim_mean, order, t, option, bc))
        k2 = option if order > 2 else 1
        m = T.fn('round', n * (T.ONE - t.at()))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda: mmt(n, col('x'), col('y'), order - k2 if order > 2 else 1, k2, t.at()) * (fac(m, order) if bc else T.ONE), ())
            v.unchanged(o)
        v.conformance(outs, lambda d, a: R_(DU).trim_mom(a['x'], a['y'], R_(DU).trim_mean, order, d['t'], option, bc), tol=1e-6)


for _o, _p in ((2, 0), (3, 1), (4, 2)):
    for _b in (False, True):
        _trim_mom_t(_o, _p, _b)


@contract('C13', 'trim_mom about medians: comedian', [DU + '.trim_mom'])
def c_comed(v):
    n = v.dim('n', 2)
    x, y = v.array('x', n, T.ONE), v.array('y', n, T.ONE)
    i0 = T.fresh_index(n, 'd')
    v.requires(T.exists(i0, n, T.ne(el('x', i0, Z), el('y', i0, Z))))
    mod = v.mod(DU)
    outs = v.run(lambda: mod.trim_mom(x, y, snp.np.median, 2, 0, 0, False))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda: med(n, lambda i: (el('x', i, Z) - med(n, col('x'))) * (el('y', i, Z) - med(n, col('y')))), ())
        v.unchanged(o)
    import numpy as np
    v.conformance(outs, lambda d, a: R_(DU).trim_mom(a['x'], a['y'], np.median, 2, 0, 0, False))


@contract('C13', 'trim_mom about medians of one variable: median absolute deviation', [DU + '.trim_mom'])
def c_medvar(v):
    n = v.dim('n', 2)
    x = v.array('x', n, T.ONE)
    mod = v.mod(DU)
    outs = v.run(lambda: mod.trim_mom(x, x, snp.np.median, 2, 0, 0, False))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda: T.lift(1.4826) * med(n, lambda i: absv(el('x', i, Z) - med(n, col('x')))), ())
        v.unchanged(o)
    import numpy as np
    v.conformance(outs, lambda d, a: R_(DU).trim_mom(a['x'], a['x'], np.median, 2, 0, 0, False))


@contract('C13', 'trimmed variance', [DU + '.trimvar'])
def c_trimvar(v):
    n = v.dim('n', 3)
    x = v.array('x', n, T.ONE)
    t = v.real('t', lo=0, hi=T.lift(0.3))
    v.requires(T.gt(t.at(), 0))
    mod = v.mod(DU)
    outs = v.run(lambda: mod.trimvar(x, t))
    tm = lambda f: agg('trimmean', n, f, None, (t.at(),))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda j: tm(lambda i: sq(el('x', i, Z) - tm(col('x')))), (T.ONE,))
    v.conformance(outs, lambda d, a: R_(DU).trimvar(a['x'], d['t']))


# ---------------------------------------------------------------------- dicomo.fit, product moments
def _fit(mode, vec, bc, spec, ykind=None, **kw):
    opts = ', '.join('%s=%s' % z for z in sorted(kw.items()))
    @contract('C13', "dicomo(mode='%s')%s%s%s" % (mode, ', vectors' if vec else ', columns', ', small-sample correction' if bc else '', ', ' + opts if opts else ''),
              [DI + '.dicomo.fit', DU + '.trim_mom', DU + '.trim_mean'], cost=2)
    def c(v):
        n = v.dim('n', 5)
        x = data(v, 'x', n, vec)
        two = ykind is not None
        y = data(v, 'y', n, vec) if two else None
        nonflat(v, n, *(['x', 'y'] if two else ['x']), vec=vec)
        k = dict(kw, biascorr=bc)
        al = None
        if mode == 'continuum':
            al = v.real('al', lo=0, hi=4)
        mod = v.mod(DI)
        X, Y = col('x', vec), col('y', vec)

        def call():
            d = mod.dicomo(est='arithmetic', mode=mode)
            kk = dict(k)
            if two: kk['y'] = y
            if al is not None: kk['alpha'] = al
            r = d.fit(x, **kk)
            return r, d.moment_
        outs = v.run(call)
        for o in v.normal(outs):
            for q, w in ((0, 'returned'), (1, 'stored')):
                v.equal(o, o.value[q], lambda: spec(n, X, Y, al), (), w + ' value')
            v.unchanged(o)

        def real(d, a):
            kk = dict(k)
            if two: kk['y'] = a['y']
            if al is not None: kk['alpha'] = d['al']
            return R_(DI).dicomo(est='arithmetic', mode=mode).fit(a['x'], **kk)
        v.conformance(outs, real, extract=lambda z: z[0] if isinstance(z, tuple) else z, tol=1e-6)


F2 = lambda n, bc: fac(n, 2) if bc else T.ONE
for _v in (False, True):
    for _b in (False, True):
        _fit('var', _v, _b, lambda n, X, Y, al, b=_b: mmt(n, X, X, 1, 1) * F2(n, b))
        _fit('std', _v, _b, lambda n, X, Y, al, b=_b: T.sqrt(mmt(n, X, X, 1, 1) * F2(n, b)))
        _fit('skew', _v, _b, lambda n, X, Y, al, b=_b: mmt(n, X, X, 2, 1) * T.power(T.sqrt(mmt(n, X, X, 1, 1)), -3) * ((T.sqrt(n * (n - T.ONE)) * inv(n - T.num(2))) if b else T.ONE))
        _fit('cov', _v, _b, lambda n, X, Y, al, b=_b: mmt(n, X, Y, 1, 1) * F2(n, b), 'y')
        _fit('corr', _v, _b, lambda n, X, Y, al, b=_b: mmt(n, X, Y, 1, 1) * inv(T.sqrt(mmt(n, X, X, 1, 1)) * T.sqrt(mmt(n, Y, Y, 1, 1))), 'y')
        for _op in (1, 2):
            _fit('cos', _v, _b, lambda n, X, Y, al, b=_b, op=_op: mmt(n, X, Y, 3 - op, op) * (fac(n, 3) * n if b else T.ONE) *
                 T.power(T.sqrt(mmt(n, X, X, 1, 1) * F2(n, b)), op - 3) * T.power(T.sqrt(mmt(n, Y, Y, 1, 1) * F2(n, b)), -op), 'y', option=_op)
    _kq = lambda n, X: mmt(n, X, X, 3, 1) * T.power(mmt(n, X, X, 1, 1), -2)
    _fit('kurt', _v, False, lambda n, X, Y, al: _kq(n, X))
    for _fi in (True, False):
        _fit('kurt', _v, True, lambda n, X, Y, al, fi=_fi: ((n * n - T.ONE) * _kq(n, X) - T.num(3) * sq(n - T.ONE)) * inv((n - T.num(2)) * (n - T.num(3))) + (T.ZERO if fi else T.num(3)), None, Fisher=_fi)
    for _op in (1, 2, 3):
        _fit('cok', _v, False, lambda n, X, Y, al, op=_op: mmt(n, X, Y, 4 - op, op) * T.power(T.sqrt(mmt(n, X, X, 1, 1)), op - 4) * T.power(T.sqrt(mmt(n, Y, Y, 1, 1)), -op), 'y', option=_op)
    for _o, _op in ((2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3)):
        _fit('com', _v, False, lambda n, X, Y, al, o=_o, op=_op: mmt(n, X, Y, o - op, op), 'y', order=_o, option=_op)
        if _op == 1:
            _fit('mom', _v, False, lambda n, X, Y, al, o=_o: mmt(n, X, X, o - 1, 1), None, order=_o)
    for _b in (False, True):
        _fit('continuum', _v, _b, lambda n, X, Y, al, b=_b: sq(mmt(n, X, Y, 1, 1) * F2(n, b)) * T.fn('pow', T.sqrt(mmt(n, X, X, 1, 1) * F2(n, b)), al.at() - T.ONE), 'y')


# ---------------------------------------------------------------------- energy statistics (C14)
def colm(n, D, j): return avg(n, lambda i: D(i, j))
def rowm(n, D, i): return avg(n, lambda j: D(i, j))
def allm(n, D): return avg(n, lambda i: avg(n, lambda j: D(i, j)))


def dcent(n, D):
    return lambda i, j: D(i, j) - colm(n, D, j) - rowm(n, D, i) + allm(n, D)


def ucent(n, D):
    two, one = T.num(2), T.ONE
    def g(i, j):
        r = D(i, j) - colm(n, D, j) * n * inv(n - two) - rowm(n, D, i) * n * inv(n - two) + allm(n, D) * n * n * inv((n - one) * (n - two))
        return T.ite(T.eq(i, j), T.ZERO, r)
    return g


DD = lambda i, j: el('D', i, j)


@contract('C14', 'double centring: entry minus row and column mean plus grand mean', [DU + '.double_center_flex'])
def c_dc(v):
    n = v.dim('n', 3)
    D = v.array('D', n, n)
    mod = v.mod(DU)
    outs = v.run(lambda: mod.double_center_flex(D))
    for o in v.normal(outs):
        v.equal(o, o.value[0], dcent(n, DD), (n, n), 'centred entries')
        v.equal(o, o.value[0].sum(axis=0), lambda j: T.ZERO, (n,), 'column sums vanish')
        v.equal(o, o.value[0].sum(axis=1), lambda j: T.ZERO, (n,), 'row sums vanish')
        v.equal(o, o.value[1], lambda: n, (), 'size')
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_(DU).double_center_flex(a['D'])[0], extract=lambda z: z[0])


@contract('C14', 'U-centring: unbiased double centring with zero diagonal', [DU + '.double_center_flex'])
def c_uc(v):
    n = v.dim('n', 4)
    D = v.array('D', n, n)
    mod = v.mod(DU)
    outs = v.run(lambda: mod.double_center_flex(D, biascorr=True))
    for o in v.normal(outs):
        v.equal(o, o.value[0], ucent(n, DD), (n, n), 'centred entries')
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_(DU).double_center_flex(a['D'], biascorr=True)[0], extract=lambda z: z[0])


@contract('C14', 'median double centring', [DU + '.double_center_flex'])
def c_mc(v):
    n = v.dim('n', 3)
    D = v.array('D', n, n)
    mod = v.mod(DU)
    outs = v.run(lambda: mod.double_center_flex(D, center='median'))

    def allmed():
        i, j = T.fresh_index(n, 'a'), T.fresh_index(n, 'a')
        return T.mk_agg2('median', (i, j), (n, n), T.TRUE, el('D', i, j))
    for o in v.normal(outs):
        v.equal(o, o.value[0], lambda i, j: el('D', i, j) - med(n, lambda k: el('D', k, j)) - med(n, lambda k: el('D', i, k)) + allmed(), (n, n), 'centred entries')
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_(DU).double_center_flex(a['D'], center='median')[0], extract=lambda z: z[0])


@contract('C14', 'an unknown centre is refused', [DU + '.double_center_flex'])
def c_badc(v):
    n = v.dim('n', 3)
    D = v.array('D', n, n)
    mod = v.mod(DU)
    v.raises(v.run(lambda: mod.double_center_flex(D, center='mode')), ValueError, 'unknown centre')


def dist_(nm, p):
    return lambda i, j: T.sqrt(sm(p, lambda k: sq(el(nm, i, k) - el(nm, j, k))))


for _bc in (False, True):
    def _dmc(bc):
        @contract('C14', 'distance_matrix_centered: %s distance matrix' % ('U-centred' if bc else 'doubly centred'), [DU + '.distance_matrix_centered', DU + '.double_center_flex'])
        def c(v):
            n, p = v.dim('n', 4), v.dim('p', 1)
            X = v.array('X', n, p)
            mod = v.mod(DU)
            outs = v.run(lambda: mod.distance_matrix_centered(X, biascorr=bc))
            for o in v.normal(outs):
                v.equal(o, o.value[0], (ucent if bc else dcent)(n, dist_('X', p)), (n, n), 'centred distances')
                v.unchanged(o)
            v.conformance(outs, lambda d, a: R_(DU).distance_matrix_centered(a['X'], biascorr=bc)[0], extract=lambda z: z[0])
    _dmc(_bc)


def _dm(order, option, bc):
    @contract('C14', 'distance_moment of order %d, option %d%s' % (order, option, ', bias corrected' if bc else ''), [DU + '.distance_moment', DU + '.trim_mean'])
    def c(v):
        n = v.dim('n', 4)
        A_, B_ = v.array('A', n, n), v.array('B', n, n)
        mod = v.mod(DU)
        outs = v.run(lambda: mod.distance_moment(A_, B_, order=order, option=option, biascorr=bc))
        a, b = (1, 1) if order == 2 else (order - option, option)
        for o in v.normal(outs):
            m = avg(n, lambda i: avg(n, lambda j: T.power(el('A', i, j), a) * T.power(el('B', i, j), b))) * (n * inv(n - T.num(3)) if bc else T.ONE)
            v.equal(o, o.value, lambda: T.num((-1) ** order) * T.power(absv(m), F(1, order)), (), 'moment')
            v.unchanged(o)
        v.conformance(outs, lambda d, x: R_(DU).distance_moment(x['A'], x['B'], order=order, option=option, biascorr=bc), tol=1e-6)


from fractions import Fraction as F
for _o, _p in ((2, 0), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3)):
    for _b in (False, True):
        _dm(_o, _p, _b)


@contract('C14', 'median distance moment', [DU + '.distance_moment'])
def c_dmmed(v):
    n = v.dim('n', 4)
    A_, B_ = v.array('A', n, n), v.array('B', n, n)
    mod = v.mod(DU)
    outs = v.run(lambda: mod.distance_moment(A_, B_, center='median'))
    i, j = T.fresh_index(n, 'a'), T.fresh_index(n, 'a')
    for o in v.normal(outs):
        v.equal(o, o.value, lambda: T.mk_agg2('median', (i, j), (n, n), T.TRUE, el('A', i, j) * el('B', i, j)), (), 'moment')
        v.unchanged(o)
    v.conformance(outs, lambda d, x: R_(DU).distance_moment(x['A'], x['B'], center='median'), tol=1e-6)


def _inner(nm):
    @contract('C14', '%s: inner product of centred matrices' % nm, [DU + '.' + nm])
    def c(v):
        n = v.dim('n', 4)
        A_, B_ = v.array('A', n, n), v.array('B', n, n)
        mod = v.mod(DU)
        outs = v.run(lambda: getattr(mod, nm)(A_, B_))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda: sm(n, lambda i: sm(n, lambda j: el('A', i, j) * el('B', i, j))) * inv(n * n if nm == 'D_inner' else n * (n - T.num(3))), ())
            v.unchanged(o)
        v.conformance(outs, lambda d, x: getattr(R_(DU), nm)(x['A'], x['B']), tol=1e-6)


_inner('D_inner')
_inner('U_inner')


def _dd(bc):
    @contract('C14', 'difference_divergence%s' % (', unbiased' if bc else ''), [DU + '.difference_divergence', DU + '.distance_matrix_centered', DU + '.double_center_flex', DU + '.D_inner', DU + '.U_inner'], cost=3)
    def c(v):
        n, p = v.dim('n', 4), v.dim('p', 1)
        X, y = v.array('X', n, p), v.array('y', n)
        mod = v.mod(DU)
        outs = v.run(lambda: mod.difference_divergence(X, y, biascorr=bc))
        ce = ucent if bc else dcent
        D1 = dist_('X', p)
        D2 = lambda i, j: H * sq(el('y', i) - el('y', j))
        A1, B1 = ce(n, D1), ce(n, D2)
        for o in v.normal(outs):
            v.equal(o, o.value, lambda: sm(n, lambda i: sm(n, lambda j: A1(i, j) * B1(i, j))) * inv(n * (n - T.num(3)) if bc else n * n), ())
            v.unchanged(o)
        v.conformance(outs, lambda d, x: R_(DU).difference_divergence(x['X'], x['y'], biascorr=bc), tol=1e-6)


_dd(False)
_dd(True)


def _mddm(p1):
    @contract('C14', 'MDDM: martingale difference divergence matrix, %s' % ('one predictor' if p1 else 'several predictors'), [DU + '.MDDM'], cost=2)
    def c(v):
        n, q = v.dim('n', 2), v.dim('q', 1)
        p = T.ONE if p1 else v.dim('p', 2)
        X, Y = v.array('X', n, p), v.array('Y', n, q)
        mod = v.mod(DU)
        outs = v.run(lambda: mod.MDDM(X, Y))
        yc = lambda i, k: el('Y', i, k) - avg(n, lambda s: el('Y', s, k))
        Dd = dist_('X', p)
        for o in v.normal(outs):
            v.equal(o, o.value, lambda k, l: -sm(n, lambda i: sm(n, lambda j: yc(i, k) * Dd(i, j) * yc(j, l))) * inv(n * n), (q, q))
            v.unchanged(o)
        v.conformance(outs, lambda d, x: R_(DU).MDDM(x['X'], x['Y']), tol=1e-6)


_mddm(True)
_mddm(False)


# ---------------------------------------------------------------------- dicomo.fit, energy statistics
def dsq(n, p, x, y, bc):
    """squared distance covariance by its definition"""
    ce = ucent if bc else dcent
    a, b = ce(n, dist_(x, p)), ce(n, dist_(y, p))
    return avg(n, lambda i: avg(n, lambda j: a(i, j) * b(i, j))) * (n * inv(n - T.num(3)) if bc else T.ONE)


def _dfit(mode, bc, calc, spec, **kw):
    nm = "dicomo(est='distance', mode='%s')%s, %s computation%s" % (mode, ', U-centred' if bc else '', calc, ''.join(', %s=%s' % q for q in sorted(kw.items())))

    @contract('C14', nm, [DI + '.dicomo.fit'] + ([] if calc == 'fast' else [DU + '.distance_matrix_centered', DU + '.distance_moment', DU + '.double_center_flex']), cost=2)
    def c(v):
        n = v.dim('n', 5)
        x, y = v.array('x', n, T.ONE), v.array('y', n, T.ONE)
        two = mode not in ('var', 'std', 'skew', 'kurt')
        mod = v.mod(DI)

        def run(m, a, b):
            d = m.dicomo(est='distance', mode=mode)
            k = dict(kw, biascorr=bc, calcmode=calc)
            if two: k['y'] = b
            return d.fit(a, **k), d.moment_
        # statistics of which roots are taken or which divide are positive (definedness)
        for q in ('x', 'y') if two else ('x',):
            v.requires(T.gt(dsq(n, T.ONE, q, q, bc), 0))
        if calc == 'fast' and two:
            v.requires(T.ge(dsq(n, T.ONE, 'x', 'y', bc), 0))
        outs = v.run(lambda: run(mod, x, y))
        for o in v.normal(outs):
            for q, w in ((0, 'returned'), (1, 'stored')):
                v.equal(o, o.value[q], lambda: spec(n, bc), (), w + ' value')
            v.unchanged(o)
        def real(d, a):
            for q in ('x', 'y') if two else ('x',):     # a statistic that vanishes up to rounding is divided by
                z = R_(DI).dicomo(est='distance', mode='var').fit(a[q], biascorr=bc, calcmode='naive')
                if not z > 1e-5 * abs(a[q]).max(): raise Skip()
            return run(R_(DI), a['x'], a['y'])[0]
        v.conformance(outs, real, extract=lambda z: z[0] if isinstance(z, tuple) else z, tol=1e-5)


P4 = lambda q, e: T.power(q, e)
rt = T.sqrt
for _b in (False, True):
    for _c in ('fast', 'naive'):
        mo = (lambda n, bc, a, b: rt(dsq(n, T.ONE, a, b, bc))) if _c == 'fast' else (lambda n, bc, a, b: rt(absv(dsq(n, T.ONE, a, b, bc))))
        _dfit('var', _b, _c, lambda n, bc, mo=mo: mo(n, bc, 'x', 'x'))
        _dfit('std', _b, _c, lambda n, bc, mo=mo: rt(mo(n, bc, 'x', 'x')))
        _dfit('cov', _b, _c, lambda n, bc, mo=mo: mo(n, bc, 'x', 'y'))
        _dfit('corr', _b, _c, lambda n, bc, mo=mo: mo(n, bc, 'x', 'y') * inv(rt(mo(n, bc, 'x', 'x')) * rt(mo(n, bc, 'y', 'y'))))
        _dfit('continuum', _b, _c, lambda n, bc, mo=mo: sq(mo(n, bc, 'x', 'y')) * sq(rt(mo(n, bc, 'x', 'x'))), alpha=3)


def dm_(n, x, y, order, option, bc):
    """distance co-moment of higher order of single variables"""
    a, b = (1, 1) if order == 2 else (order - option, option)
    ce = ucent if bc else dcent
    A1, B1 = ce(n, dist_(x, T.ONE)), ce(n, dist_(y, T.ONE))
    m = avg(n, lambda i: avg(n, lambda j: P4(A1(i, j), a) * P4(B1(i, j), b))) * (n * inv(n - T.num(3)) if bc else T.ONE)
    return T.num((-1) ** order) * T.power(absv(m), F(1, order))


for _b in (False, True):
    _dfit('skew', _b, 'naive', lambda n, bc: dm_(n, 'x', 'x', 3, 1, bc) * P4(rt(dm_(n, 'x', 'x', 2, 0, bc)), -3))
    _dfit('kurt', _b, 'naive', lambda n, bc: dm_(n, 'x', 'x', 4, 1, bc) * P4(dm_(n, 'x', 'x', 2, 0, bc), -2))
    for _op in (1, 2):
        _dfit('cos', _b, 'naive', lambda n, bc, op=_op: dm_(n, 'x', 'y', 3, op, bc) * P4(rt(dm_(n, 'x', 'x', 2, 0, bc)), op - 3) * P4(rt(dm_(n, 'y', 'y', 2, 0, bc)), -op), option=_op)
        _dfit('M3', _b, 'naive', lambda n, bc, op=_op: dm_(n, 'x', 'y', 3, op, bc), option=_op)
    for _op in (1, 3):
        _dfit('cok', _b, 'naive', lambda n, bc, op=_op: dm_(n, 'x', 'y', 4, op, bc) * P4(rt(dm_(n, 'x', 'x', 2, 0, bc)), op - 4) * P4(rt(dm_(n, 'y', 'y', 2, 0, bc)), -op), option=_op)


# ---------------------------------------------------------------------- trimming
def tr2(n, f, t):
    """symmetric trimmed mean of all entries of a square table"""
    if t is None: return avg(n, lambda i: avg(n, lambda j: f(i, j)))
    i, j = T.fresh_index(n, 'a'), T.fresh_index(n, 'a')
    return T.mk_agg2('trimmean', (i, j), (n, n), T.TRUE, f(i, j), (t,))


def cent_t(n, D, t, bc):
    m = T.fn('round', n * (T.ONE - t))
    tm = lambda f: agg('trimmean', n, f, None, (t,))
    k1, k2 = (m * inv(m - T.num(2)), m * m * inv((m - T.ONE) * (m - T.num(2)))) if bc else (T.ONE, T.ONE)

    def g(i, j):
        r = D(i, j) - k1 * tm(lambda q: D(q, j)) - k1 * tm(lambda q: D(i, q)) + k2 * tr2(n, D, t)
        return T.ite(T.eq(i, j), T.ZERO, r) if bc else r
    return g


def some_t(v, hi=0.3):
    t = v.real('t', lo=0, hi=T.lift(hi))
    v.requires(T.gt(t.at(), 0))
    return t


def _dct(bc):
    @contract('C14', 'double centring with trimmed means%s' % (', U-centred' if bc else ''), [DU + '.double_center_flex'])
    def c(v):
        n = v.dim('n', 5)
        D, t = v.array('D', n, n), some_t(v)
        mod = v.mod(DU)
        outs = v.run(lambda: mod.double_center_flex(D, trimming=t, biascorr=bc))
        for o in v.normal(outs):
            v.equal(o, o.value[0], cent_t(n, DD, t.at(), bc), (n, n), 'centred entries')
            v.equal(o, o.value[1], lambda: T.fn('round', n * (T.ONE - t.at())) if bc else n, (), 'size')
            v.unchanged(o)
        v.conformance(outs, lambda d, a: R_(DU).double_center_flex(a['D'], trimming=d['t'], biascorr=bc)[0], extract=lambda z: z[0])


def _dmt(order, option, bc):
    @contract('C14', 'trimmed distance_moment of order %d, option %d%s' % (order, option, ', bias corrected' if bc else ''), [DU + '.distance_moment', DU + '.trim_mean'])
    def c(v):
        n, m = v.dim('n', 5), v.dim('m', 4)
        A_, B_, t = v.array('A', n, n), v.array('B', n, n), some_t(v)
        mod = v.mod(DU)
        outs = v.run(lambda: mod.distance_moment(A_, B_, order=order, option=option, biascorr=bc, trimming=t, n1=v.int(m)))
        a, b = (1, 1) if order == 2 else (order - option, option)
        for o in v.normal(outs):
            q = tr2(n, lambda i, j: T.power(el('A', i, j), a) * T.power(el('B', i, j), b), t.at()) * (m * inv(m - T.num(3)) if bc else T.ONE)
            v.equal(o, o.value, lambda: T.num((-1) ** order) * T.power(absv(q), F(1, order)), (), 'moment')
            v.unchanged(o)
        v.conformance(outs, lambda d, x: R_(DU).distance_moment(x['A'], x['B'], order=order, option=option, biascorr=bc, trimming=d['t'], n1=int(d['m'])), tol=1e-6)


def _innert(nm):
    @contract('C14', '%s: trimmed inner product' % nm, [DU + '.' + nm])
    def c(v):
        n = v.dim('n', 5)
        A_, B_, t = v.array('A', n, n), v.array('B', n, n), some_t(v)
        mod = v.mod(DU)
        outs = v.run(lambda: getattr(mod, nm)(A_, B_, t))
        for o in v.normal(outs):
            k = n * n - T.num(2) * T.fn('floor', t.at() * n * n)
            v.equal(o, o.value, lambda: tr2(n, lambda i, j: el('A', i, j) * el('B', i, j), t.at()) * (T.ONE if nm == 'D_inner' else T.sqrt(k) * inv(T.sqrt(k) - T.num(3))), ())
            v.unchanged(o)
        v.conformance(outs, lambda d, x: getattr(R_(DU), nm)(x['A'], x['B'], d['t']), tol=1e-6)


def _dfit_t(mode, bc, spec, **kw):
    nm = "dicomo(est='distance', mode='%s')%s, trimmed%s" % (mode, ', U-centred' if bc else '', ''.join(', %s=%s' % q for q in sorted(kw.items())))

    @contract('C14', nm, [DI + '.dicomo.fit', DU + '.distance_matrix_centered', DU + '.distance_moment', DU + '.double_center_flex'], cost=2)
    def c(v):
        n = v.dim('n', 6)
        x, y, t = v.array('x', n, T.ONE), v.array('y', n, T.ONE), some_t(v)
        two = mode in ('cov', 'corr', 'continuum', 'cos')
        mod = v.mod(DI)

        def run(m, a, b, t_):
            d = m.dicomo(est='distance', mode=mode)
            k = dict(kw, biascorr=bc, trimming=t_)
            if two: k['y'] = b
            return d.fit(a, **k), d.moment_
        m = T.fn('round', n * (T.ONE - t.at()))
        for q in ('x', 'y') if two else ('x',):
            g = cent_t(n, dist_(q, T.ONE), t.at(), bc)
            v.requires(T.gt(tr2(n, lambda i, j: sq(g(i, j)), t.at()), 0))
        if bc: v.requires(T.ge(m, 4))
        outs = v.run(lambda: run(mod, x, y, t))
        for o in v.normal(outs):
            for q, w in ((0, 'returned'), (1, 'stored')):
                v.equal(o, o.value[q], lambda: spec(n, bc, t.at()), (), w + ' value')
            v.unchanged(o)

        def real(d, a):
            for q in ('x', 'y') if two else ('x',):
                z = R_(DI).dicomo(est='distance', mode='var').fit(a[q], biascorr=bc, calcmode='naive', trimming=d['t'])
                if not z > 1e-5 * abs(a[q]).max(): raise Skip()
            return run(R_(DI), a['x'], a['y'], d['t'])[0]
        v.conformance(outs, real, extract=lambda z: z[0] if isinstance(z, tuple) else z, tol=1e-5)


def dmt_(n, x, y, order, option, bc, t):
    a, b = (1, 1) if order == 2 else (order - option, option)
    m = T.fn('round', n * (T.ONE - t))
    A1, B1 = cent_t(n, dist_(x, T.ONE), t, bc), cent_t(n, dist_(y, T.ONE), t, bc)
    q = tr2(n, lambda i, j: P4(A1(i, j), a) * P4(B1(i, j), b), t) * (m * inv(m - T.num(3)) if bc else T.ONE)
    return T.num((-1) ** order) * T.power(absv(q), F(1, order))


for _b in (False, True):
    _dct(_b)
    for _o, _p in ((2, 0), (3, 1), (4, 2)):
        _dmt(_o, _p, _b)
    _dfit_t('var', _b, lambda n, bc, t: dmt_(n, 'x', 'x', 2, 0, bc, t))
    _dfit_t('std', _b, lambda n, bc, t: rt(dmt_(n, "x", "x", 2, 0, bc, t)))
    _dfit_t('cov', _b, lambda n, bc, t: dmt_(n, 'x', 'y', 2, 0, bc, t))
    _dfit_t('corr', _b, lambda n, bc, t: dmt_(n, 'x', 'y', 2, 0, bc, t) * inv(rt(dmt_(n, 'x', 'x', 2, 0, bc, t)) * rt(dmt_(n, 'y', 'y', 2, 0, bc, t))))
    _dfit_t('continuum', _b, lambda n, bc, t: sq(dmt_(n, 'x', 'y', 2, 0, bc, t)) * sq(rt(dmt_(n, 'x', 'x', 2, 0, bc, t))), alpha=3)
    _dfit_t('skew', _b, lambda n, bc, t: dmt_(n, 'x', 'x', 3, 1, bc, t) * P4(rt(dmt_(n, 'x', 'x', 2, 0, bc, t)), -3))
    _dfit_t('cos', _b, lambda n, bc, t: dmt_(n, 'x', 'y', 3, 1, bc, t) * P4(rt(dmt_(n, 'x', 'x', 2, 0, bc, t)), -2) * P4(rt(dmt_(n, 'y', 'y', 2, 0, bc, t)), -1), option=1)
_innert('D_inner')
_innert('U_inner')


def dd_(n, D1, D2, bc, t=None):
    """martingale difference divergence from the distances of the predictors and half the squared distances of the responses"""
    if t is None: a, b = (ucent if bc else dcent)(n, D1), (ucent if bc else dcent)(n, D2)
    else: a, b = cent_t(n, D1, t, bc), cent_t(n, D2, t, bc)
    r = tr2(n, lambda i, j: a(i, j) * b(i, j), t)
    if not bc: return r
    k = n if t is None else T.sqrt(n * n - T.num(2) * T.fn('floor', t * n * n))
    return r * k * inv(k - T.num(3))


def _ddt(bc):
    @contract('C14', 'trimmed difference_divergence%s' % (', unbiased' if bc else ''), [DU + '.difference_divergence', DU + '.distance_matrix_centered', DU + '.double_center_flex', DU + '.D_inner', DU + '.U_inner'], cost=3)
    def c(v):
        n, p = v.dim('n', 5), v.dim('p', 1)
        X, y, t = v.array('X', n, p), v.array('y', n), some_t(v)
        mod = v.mod(DU)
        outs = v.run(lambda: mod.difference_divergence(X, y, biascorr=bc, trimming=t))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda: dd_(n, dist_('X', p), lambda i, j: H * sq(el('y', i) - el('y', j)), bc, t.at()), ())
            v.unchanged(o)
        v.conformance(outs, lambda d, x: R_(DU).difference_divergence(x['X'], x['y'], biascorr=bc, trimming=d['t']), tol=1e-6)


def _mdd(bc, trim):
    @contract('C14', "dicomo(est='distance', mode='mdd')%s%s" % (', U-centred' if bc else '', ', trimmed' if trim else ''), [DI + '.dicomo.fit', DU + '.difference_divergence', DU + '.distance_matrix_centered', DU + '.double_center_flex', DU + '.D_inner', DU + '.U_inner'], cost=3)
    def c(v):
        n = v.dim('n', 6)
        x, y, t = v.array('x', n, T.ONE), v.array('y', n, T.ONE), some_t(v) if trim else None
        mod = v.mod(DI)
        s = lambda: dd_(n, dist_('x', T.ONE), lambda i, j: H * sq(el('y', i, Z) - el('y', j, Z)), bc, t.at() if trim else None)
        v.requires(T.gt(s(), 0))

        def run(m, a, b, t_):
            d = m.dicomo(est='distance', mode='mdd')
            return d.fit(a, y=b, biascorr=bc, **({'trimming': t_} if trim else {})), d.moment_
        outs = v.run(lambda: run(mod, x, y, t))
        for o in v.normal(outs):
            for q, w in ((0, 'returned'), (1, 'stored')):
                v.equal(o, o.value[q], lambda: T.sqrt(s()), (), w + ' value')
            v.unchanged(o)

        def real(d, a):
            w = R_(DU).difference_divergence(a['x'], a['y'], biascorr=bc, trimming=d['t'] if trim else 0)
            if not w > 1e-8 * abs(a['x']).max() * abs(a['y']).max() ** 2: raise Skip()
            return run(R_(DI), a['x'], a['y'], d.get('t'))[0]
        v.conformance(outs, real, extract=lambda z: z[0] if isinstance(z, tuple) else z, tol=1e-5)


SU_ = 'sudire._sudire_utils'


def _objective(fn, h, bc):
    @contract('C14', 'objective %s: ten times the negative %s of the projected data and the response, %d component%s%s' % (fn, 'distance covariance' if fn == 'dcov_trim' else 'martingale difference divergence', h, 's' * (h > 1), ', bias corrected' if bc else ''),
              [SU_ + '.' + fn, DU + '.distance_matrix_centered', DU + '.double_center_flex'] + ([DU + '.distance_moment'] if fn == 'dcov_trim' else [DU + '.difference_divergence']), cost=3, bound='%d components; any data' % h)
    def c(v):
        n, p = v.dim('n', 6), v.dim('p', h)
        X, y, b, N2 = v.array('X', n, p), v.array('Y', n, T.ONE), v.array('b', p * T.num(h)), v.array('N', p, p)
        mod = v.mod(SU_)
        pr = lambda i, k: sm(p, lambda q: el('X', i, q) * el('b', q + p * T.num(k)))
        D1 = lambda i, j: T.sqrt(sum((sq(pr(i, k) - pr(j, k)) for k in range(h)), Z))
        if fn == 'dcov_trim':
            a, c_ = dcent(n, D1), dcent(n, lambda i, j: absv(el('Y', i, Z) - el('Y', j, Z)))
            s = lambda: T.sqrt(absv(tr2(n, lambda i, j: a(i, j) * c_(i, j), None)))
        else:
            w = dd_(n, D1, lambda i, j: H * sq(el('Y', i, Z) - el('Y', j, Z)), bc)
            v.requires(T.gt(w, 0))
            s = lambda: T.sqrt(w)
        outs = v.run(lambda: getattr(mod, fn)(b, X, y, h, N2, False, 0, 'mean', 'euclidean', bc))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda: T.num(-10) * s(), ())
            v.unchanged(o)

        def real(d, a):
            with __import__('numpy').errstate(all='ignore'):
                r = getattr(R_(SU_), fn)(a['b'], a['X'], a['Y'], h, a['N'], False, 0, 'mean', 'euclidean', bc)
            if not abs(r) > 1e-3: raise Skip()
            return r
        v.conformance(outs, real, tol=1e-5)


for _b in (False, True):
    _ddt(_b)
    for _t in (False, True):
        _mdd(_b, _t)
_objective('dcov_trim', 1, False)
_objective('dcov_trim', 2, False)
_objective('mdd_trim', 1, False)
_objective('mdd_trim', 2, True)


# ---------------------------------------------------------------------- trimmed and median-based product moments (C13)
def _fit_t(mode, bc, spec, two=False, center='mean', **kw):
    trim = center == 'mean'
    opts = ', '.join('%s=%s' % z for z in sorted(kw.items()))

    @contract('C13', "dicomo(mode='%s')%s%s, %s" % (mode, ', small-sample correction' if bc else '', ', ' + opts if opts else '', 'trimmed' if trim else 'about medians'), [DI + '.dicomo.fit', DU + '.trim_mom', DU + '.trim_mean'], cost=2)
    def c(v):
        n = v.dim('n', 8)
        x, y = v.array('x', n, T.ONE), v.array('y', n, T.ONE)
        t = some_t(v) if trim else None
        mod = v.mod(DI)
        X, Y = col('x'), col('y')
        if trim:
            for q in (X, Y) if two else (X,):
                v.requires(T.gt(mmt(n, q, q, 1, 1, t.at()), 0))
        else:
            for q in (X, Y) if two else (X,):
                v.requires(T.gt(med(n, lambda i: absv(q(i) - med(n, q))), 0))
            if two:
                i0 = T.fresh_index(n, 'd')
                v.requires(T.exists(i0, n, T.ne(X(i0), Y(i0))))

        def run(m, a, b, t_):
            e = m.dicomo(est='arithmetic', mode=mode, center=center)
            k = dict(kw, biascorr=bc)
            if trim: k['trimming'] = t_
            if two: k['y'] = b
            return e.fit(a, **k), e.moment_
        outs = v.run(lambda: run(mod, x, y, t))
        for o in v.normal(outs):
            m = T.fn('round', n * (T.ONE - t.at())) if trim else n
            for q, w in ((0, 'returned'), (1, 'stored')):
                v.equal(o, o.value[q], lambda: spec(n, X, Y, t.at() if trim else None, m), (), w + ' value')
            v.unchanged(o)

        def real(d, a):
            import numpy as np
            import scipy.stats as sps
            for q in (a['x'], a['y']) if two else (a['x'],):
                c_ = q - (sps.trim_mean(q, d['t']) if trim else np.median(q))
                if not (sps.trim_mean(c_ ** 2, d['t']).item() if trim else np.median(c_ ** 2)) > 1e-8: raise Skip()
            if not trim and two and (a['x'] == a['y']).all(): raise Skip()
            return run(R_(DI), a['x'], a['y'], d.get('t'))[0]
        v.conformance(outs, real, extract=lambda z: z[0] if isinstance(z, tuple) else z, tol=1e-6)


for _b in (False, True):
    g2 = lambda m, b: fac(m, 2) if b else T.ONE
    _fit_t('var', _b, lambda n, X, Y, t, m, b=_b: mmt(n, X, X, 1, 1, t) * g2(m, b))
    _fit_t('std', _b, lambda n, X, Y, t, m, b=_b: T.sqrt(mmt(n, X, X, 1, 1, t) * g2(m, b)))
    _fit_t('skew', _b, lambda n, X, Y, t, m, b=_b: mmt(n, X, X, 2, 1, t) * T.power(T.sqrt(mmt(n, X, X, 1, 1, t)), -3) * ((T.sqrt(m * (m - T.ONE)) * inv(m - T.num(2))) if b else T.ONE))
    _fit_t('cov', _b, lambda n, X, Y, t, m, b=_b: mmt(n, X, Y, 1, 1, t) * g2(m, b), True)
    _fit_t('corr', _b, lambda n, X, Y, t, m, b=_b: mmt(n, X, Y, 1, 1, t) * inv(T.sqrt(mmt(n, X, X, 1, 1, t)) * T.sqrt(mmt(n, Y, Y, 1, 1, t))), True)
    for _op in (1, 2):
        _fit_t('cos', _b, lambda n, X, Y, t, m, b=_b, op=_op: mmt(n, X, Y, 3 - op, op, t) * (fac(m, 3) * m if b else T.ONE) *
               T.power(T.sqrt(mmt(n, X, X, 1, 1, t) * g2(m, b)), op - 3) * T.power(T.sqrt(mmt(n, Y, Y, 1, 1, t) * g2(m, b)), -op), True, option=_op)
    _fit_t('continuum', _b, lambda n, X, Y, t, m, b=_b: sq(mmt(n, X, Y, 1, 1, t) * g2(m, b)) * T.sqrt(mmt(n, X, X, 1, 1, t) * g2(m, b)), True, alpha=2)
_fit_t('kurt', False, lambda n, X, Y, t, m: mmt(n, X, X, 3, 1, t) * T.power(mmt(n, X, X, 1, 1, t), -2))
_kt = lambda n, X, t: mmt(n, X, X, 3, 1, t) * T.power(mmt(n, X, X, 1, 1, t), -2)
for _fi in (True, False):
    _fit_t('kurt', True, lambda n, X, Y, t, m, fi=_fi: ((m * m - T.ONE) * _kt(n, X, t) - T.num(3) * sq(m - T.ONE)) * inv((m - T.num(2)) * (m - T.num(3))) + (T.ZERO if fi else T.num(3)), Fisher=_fi)
for _op in (1, 2, 3):
    _fit_t('cok', False, lambda n, X, Y, t, m, op=_op: mmt(n, X, Y, 4 - op, op, t) * T.power(T.sqrt(mmt(n, X, X, 1, 1, t)), op - 4) * T.power(T.sqrt(mmt(n, Y, Y, 1, 1, t)), -op), True, option=_op)
for _o, _op in ((2, 1), (3, 1), (3, 2), (4, 2)):
    _fit_t('com', False, lambda n, X, Y, t, m, o=_o, op=_op: mmt(n, X, Y, o - op, op, t), True, order=_o, option=_op)
mc = lambda n, q: (lambda i: q(i) - med(n, q))
_fit_t('var', False, lambda n, X, Y, t, m: T.lift(1.4826) * med(n, lambda i: absv(mc(n, X)(i))), center='median')
_fit_t('cov', False, lambda n, X, Y, t, m: med(n, lambda i: mc(n, X)(i) * mc(n, Y)(i)), True, center='median')
for _o, _op in ((3, 1), (4, 2)):
    _fit_t('com', False, lambda n, X, Y, t, m, o=_o, op=_op: med(n, lambda i: T.power(mc(n, X)(i), o - op) * T.power(mc(n, Y)(i), op)), True, center='median', order=_o, option=_op)
