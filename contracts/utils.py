"""Contracts on utils/utils.py (C20, C21), ipopt_temp/jacobian.py (C21), cross_validation (C22)"""
from .lib import *
from pvc import arr, path

UT = 'utils.utils'
J = 'ipopt_temp.jacobian'
CV = 'cross_validation._cv_support_functions'
Z = T.ZERO


def nn(a, *i):
    return T.not_(T.bel(a + '.nan', i))


# ---------------------------------------------------------------------- products with missing values (C20)
def _nandot(col):
    @contract('C20', 'nandot skips exactly the missing products%s' % (', y a column' if col else ''), [UT + '.nandot'])
    def c(v):
        n, p = v.dim('n', 1), v.dim('p', 1)
        X = v.array('X', p, n, nan=True)
        y = v.array('y', n, T.ONE, nan=True) if col else v.array('y', n, nan=True)
        z = (T.ZERO,) if col else ()
        m = v.mod(UT)
        outs = v.run(lambda: m.nandot(X, y))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda i, k: sm(n, lambda q: el('X', i, q) * el('y', q, *z), lambda q: T.and_(nn('X', i, q), nn('y', q, *z))), (p, T.ONE))
            v.unchanged(o)
        v.conformance(outs, lambda d, a: R_(UT).nandot(a['X'], a['y']))

    @contract('C20', 'nandot of complete data is the ordinary product%s' % (', y a column' if col else ''), [UT + '.nandot'])
    def c2(v):
        n, p = v.dim('n', 1), v.dim('p', 1)
        X = v.array('X', p, n)
        y = v.array('y', n, T.ONE) if col else v.array('y', n)
        z = (T.ZERO,) if col else ()
        m = v.mod(UT)
        outs = v.run(lambda: m.nandot(X, y))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda i, k: sm(n, lambda q: el('X', i, q) * el('y', q, *z)), (p, T.ONE))
        v.conformance(outs, lambda d, a: R_(UT).nandot(a['X'], a['y']))


_nandot(False)
_nandot(True)


def _nmd(kind):
    @contract('C20', 'nanmatdot skips exactly the missing products: right factor %s' % kind, [UT + '.nanmatdot', UT + '.nandot'])
    def c(v):
        n, p = v.dim('n', 1), v.dim('p', 1)
        q = v.dim('q', 2) if kind == 'matrix' else T.ONE
        X = v.array('X', p, n, nan=True)
        Y = v.array('Y', n, q, nan=True) if kind != 'vector' else v.array('Y', n, nan=True)
        m = v.mod(UT)
        outs = v.run(lambda: m.nanmatdot(X, Y))
        ix = (lambda k, j: (k,)) if kind == 'vector' else (lambda k, j: (k, j))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda i, j: sm(n, lambda k: el('X', i, k) * el('Y', *ix(k, j)), lambda k: T.and_(nn('X', i, k), nn('Y', *ix(k, j)))), (p, q))
            v.unchanged(o)
        v.conformance(outs, lambda d, a: R_(UT).nanmatdot(a['X'], a['Y']))


for _k in ('matrix', 'column', 'vector'):
    _nmd(_k)


@contract('C20', 'products of mismatching sizes are refused', [UT + '.nanmatdot', UT + '.nandot'])
def c_nmbad(v):
    n, p, k, q = v.dim('n', 1), v.dim('p', 1), v.dim('k', 1), v.dim('q', 2)
    v.requires(T.ne(n, k))
    X = v.array('X', p, n)
    Y = v.array('Y', k, q)
    m = v.mod(UT)
    outs = v.run(lambda: m.nanmatdot(X, Y))
    v.raises(outs, (AssertionError, ValueError), 'refused')
    outs = v.run(lambda: m.nandot(X, Y[:, 0]))
    v.raises(outs, (AssertionError, ValueError), 'refused')


# ---------------------------------------------------------------------- constraints (C21)
def _const(fn):
    for h in (1, 2, 3):
        def mk(h):
            @contract('C21', '%s: entries of the scale constraint, %d component%s' % (fn, h, 's' if h > 1 else ''), [UT + '.' + fn], bound='number of components %d (any number of cases and variables)' % h)
            def c(v):
                n, p = v.dim('n', 2), v.dim('p', 2)
                X = v.array('X', n, p)
                b = v.array('b', p * T.num(h))
                m = v.mod(UT)

                def cov(a, c_):
                    mu = lambda j: avg(n, lambda i: el('X', i, j))
                    return sm(n, lambda i: (el('X', i, a) - mu(a)) * (el('X', i, c_) - mu(c_))) * inv(n - 1)
                for i in range(h):
                    for j in range(h):
                        outs = v.run(lambda: m.const_xscale(b, X, h, i, j) if fn == 'const_xscale' else m.const_zscale(b, X, h, i, j))
                        B_ = lambda k, c_: el('b', k + p * T.num(c_))       # column-major
                        if fn == 'const_xscale':
                            spec = sm(p, lambda k: sm(p, lambda l: B_(k, i) * cov(k, l) * B_(l, j)))
                        else:
                            spec = sm(p, lambda k: B_(k, i) * B_(k, j))
                        for o in v.normal(outs):
                            v.equal(o, o.value, lambda: spec - T.num(int(i == j)), ())
                            v.unchanged(o)
                        v.conformance(outs, lambda d, a: getattr(R_(UT), fn)(a['b'], a['X'], h, i, j))
        mk(h)


_const('const_xscale')
_const('const_zscale')


# ---------------------------------------------------------------------- numerical Jacobians (C21)
def _jac(cls, vec):
    @contract('C21', '%s is exact on affine functions%s' % (cls, '' if vec else ' with one output'), [J + '.' + cls + '.jac', J + '.FunctionWithApproxJacobian.__call__'])
    def c(v):
        m = v.dim('m', 1)
        k = v.dim('k', 2) if vec else T.ONE
        x, Am, b = v.array('x', m), v.array('A', k, m), v.array('b', k)
        eps = v.real('eps', pos=True, gen=lambda r: 10.0 ** r.uniform(-4, 1))
        mod = v.mod(J)
        from pvc import snp
        outs = v.run(lambda: getattr(mod, cls)(lambda z: snp.np.dot(Am, z) + b, eps, verbose=False).jac(x))
        for o in v.normal(outs):
            v.equal(o, o.value, lambda r, i: el('A', r, i), (k, m))
            v.unchanged(o)
        v.conformance(outs, lambda d, a: getattr(R_(J), cls)(lambda z: a['A'] @ z + a['b'], d['eps'], verbose=False).jac(a['x']), tol=1e-5)


for _c in ('FunctionWithApproxJacobian', 'FunctionWithApproxJacobianCentral'):
    _jac(_c, True)
    _jac(_c, False)


def _jac2(cls):
    @contract('C21', '%s: two functions at one point, and one function at two points, do not mix' % cls, [J + '.' + cls + '.jac', J + '.FunctionWithApproxJacobian.__call__', J + '.FunctionWithApproxJacobian.__init__'])
    def c(v):
        m = v.dim('m', 1)
        k = v.dim('k', 2)
        x, z, Am, Bm = v.array('x', m), v.array('z', m), v.array('A', k, m), v.array('B', k, m)
        eps = v.real('eps', pos=True, gen=lambda r: 10.0 ** r.uniform(-4, 1))
        mod = v.mod(J)
        from pvc import snp

        def go(C, dot, A, B, e, x, z):
            f, g = C(lambda u: dot(A, u), e, verbose=False), C(lambda u: dot(B, u), e, verbose=False)
            return f(x), f.jac(x), g(x), g.jac(x), f(z), f.jac(z), f(x)
        outs = v.run(lambda: go(getattr(mod, cls), snp.np.dot, Am, Bm, eps, x, z))
        lin = lambda M, u: (lambda r: sm(m, lambda i: el(M, r, i) * el(u, i)))
        mat = lambda M: (lambda r, i: el(M, r, i))
        for o in v.normal(outs):
            want = [lin('A', 'x'), mat('A'), lin('B', 'x'), mat('B'), lin('A', 'z'), mat('A'), lin('A', 'x')]
            for q, (val, w) in enumerate(zip(o.value, want)):
                v.equal(o, val, w, (k, m) if q in (1, 3, 5) else (k,), ('value', 'Jacobian', 'value of the second function', 'Jacobian of the second function', 'value at the second point', 'Jacobian at the second point', 'value at the first point again')[q])
            v.unchanged(o)
        import numpy as np
        v.conformance(outs, lambda d, a: go(getattr(R_(J), cls), np.dot, a['A'], a['B'], d['eps'], a['x'], a['z']), tol=1e-5)


for _c in ('FunctionWithApproxJacobian', 'FunctionWithApproxJacobianCentral'):
    _jac2(_c)


IW = 'ipopt_temp.ipopt_wrapper'


@contract('C21', 'IpoptProblemWrapper: constraints and their numerical Jacobians are stacked in order, exact for affine constraints; objective and gradient are those given',
          [IW + '.IpoptProblemWrapper.' + q for q in ('__init__', 'constraints', 'jacobian', 'objective', 'gradient')] + [IW + '.get_constraint_bounds', J + '.FunctionWithApproxJacobian.jac'])
def c_wrap(v):
    m, k = v.dim('m', 1), v.dim('k', 2)
    x, z, Am, b, c_, g0 = v.array('x', m), v.array('z', m), v.array('A', k, m), v.array('b', k), v.array('c', m), v.array('g', m)
    eps, t = v.real('eps', pos=True, gen=lambda r: 10.0 ** r.uniform(-4, 1)), v.real('t')
    mod = v.mod(IW)
    from pvc import snp

    def go(C, bounds, dot, A, b, c, g, e, t, x, z):
        cons = ({'type': 'eq', 'fun': lambda u, a: dot(A, u) + a * b, 'args': [t]}, {'type': 'ineq', 'fun': lambda u: dot(c, u)})
        w = C(lambda u, s: s * dot(g, u), args=(t,), jac=lambda u, s: s * g, constraints=cons, eps=e)
        one = C(lambda u: dot(g, u), jac=lambda u: g, constraints=cons[1], eps=e)
        return (w.constraints(x), w.jacobian(x), w.objective(x), w.gradient(x), w.constraints(z), w.jacobian(z), one.constraints(x), one.jacobian(x)) + tuple(bounds(cons, x))
    outs = v.run(lambda: go(mod.IpoptProblemWrapper, lambda *a: (), snp.np.dot, Am, b, c_, g0, eps, t, x, z))
    lin = lambda M, u: (lambda *r: sm(m, lambda i: el(M, *r, i) * el(u, i)))
    K1 = k + T.ONE
    val = lambda u: (lambda r: T.ite(T.lt(r, k), lin('A', u)(r) + t.at() * el('b', r), lin('c', u)()))
    jac = lambda r, i: T.ite(T.lt(r, k), el('A', r, i), el('c', i))
    for o in v.normal(outs):
        r = o.value
        v.equal(o, r[0], val('x'), (K1,), 'constraints stacked')
        v.equal(o, r[1], jac, (K1, m), 'Jacobians stacked')
        v.equal(o, r[2], lambda: t.at() * lin('g', 'x')(), (), 'objective')
        v.equal(o, r[3], lambda i: t.at() * el('g', i), (m,), 'gradient')
        v.equal(o, r[4], val('z'), (K1,), 'constraints at another point')
        v.equal(o, r[5], jac, (K1, m), 'Jacobians at another point')
        v.equal(o, r[6], lambda i: lin('c', 'x')(), (T.ONE,), 'a single constraint')
        v.equal(o, r[7], lambda q, i: el('c', i), (T.ONE, m), 'Jacobian of a single constraint')
        v.unchanged(o)
    import numpy as np
    v.conformance(outs, lambda d, a: go(R_(IW).IpoptProblemWrapper, lambda *q: (), np.dot, a['A'], a['b'], a['c'], a['g'], d['eps'], d['t'], a['x'], a['z']), tol=1e-5)


@contract(['C21', 'C18'], 'minimize_ipopt: sizes, bounds, options and callbacks handed to the solver, and its result handed back', [IW + '.minimize_ipopt', IW + '.get_constraint_bounds', IW + '.get_bounds', IW + '.convert_to_bytes', IW + '.replace_option', IW + '.IpoptProblemWrapper.__init__'],
          bound='two constraints of two and one values; any number of variables', select={'C18': ('only', r'is not modified|left alone')})
def c_min(v):
    import types
    m = v.dim('m', 1)
    x, s_, Am, c_, g0 = v.array('x', m), v.array('s', m, gen=None), v.array('A', T.num(2), m), v.array('c', m), v.array('g', m)
    ov = v.real('ov')
    mod = v.mod(IW)
    from pvc import snp
    opts = {'disp': 3, 'maxiter': 7, 'tol': 0.5}

    def go(W, dot, A, c, g, x, s, ov, maxsize):
        rec = {}

        class Problem:
            def __init__(self, **k):
                rec.update(k)
                rec['options'] = {}

            def add_option(self, a, b):
                rec['options'][a] = b

            def solve(self, x0):
                rec['start'] = x0
                o = rec['problem_obj']
                rec['con'], rec['obj'], rec['grad'], rec['jac'] = o.constraints(s), o.objective(s), o.gradient(s), o.jacobian(s)
                return s, {'status': 0, 'status_msg': 'done', 'obj_val': ov}
        old = W.cyipopt, W.CYIPOPT_INSTALLED
        W.cyipopt, W.CYIPOPT_INSTALLED = types.SimpleNamespace(Problem=Problem), True
        try:
            cons = ({'type': 'eq', 'fun': lambda u: dot(A, u)}, {'type': 'ineq', 'fun': lambda u: dot(c, u)})
            mine = dict(opts)
            res = W.minimize_ipopt(lambda u: dot(g, u), x, jac=lambda u: g, constraints=cons, options=mine, bounds=((0, 1), (2, 3)))
        finally:
            W.cyipopt, W.CYIPOPT_INSTALLED = old
        return res, rec, mine
    outs = v.run(lambda: go(mod, snp.np.dot, Am, c_, g0, x, s_, ov, None))
    for o in v.normal(outs):
        res, rec, mine = o.value
        if mine != opts: v.fail(o, 'options of the caller are left alone', repr(mine))
        if rec['options'].get(b'print_level') != 3 or rec['options'].get(b'max_iter') != 7 or rec['options'].get(b'tol') != 0.5:
            raise path.Unsupported('options handed to the solver: %r' % rec['options'])
        if rec['m'] != 3: v.fail(o, 'number of constraints', repr(rec['m']))
        v.equal(o, rec['n'], lambda: m, (), 'number of variables')
        if [float(q) for q in rec['lb']] != [0, 2] or [float(q) for q in rec['ub']] != [1, 3]: v.fail(o, 'bounds of the variables', repr((rec['lb'], rec['ub'])))
        v.equal(o, rec['cl'], lambda i: T.ZERO, (T.num(3),), 'lower bounds of the constraints')
        v.equal(o, rec['cu'], lambda i: T.ite(T.lt(i, 2), T.ZERO, T.lift(1e19)), (T.num(3),), 'upper bounds of the constraints')
        v.equal(o, rec['start'], lambda i: el('x', i), (m,), 'start')
        lin = lambda M, u: (lambda *r: sm(m, lambda i: el(M, *r, i) * el(u, i)))
        v.equal(o, rec['con'], lambda r: T.ite(T.lt(r, 2), lin('A', 's')(r), lin('c', 's')()), (T.num(3),), 'constraints called back')
        v.equal(o, rec['obj'], lambda: lin('g', 's')(), (), 'objective called back')
        v.equal(o, rec['grad'], lambda i: el('g', i), (m,), 'gradient called back')
        v.equal(o, rec['jac'], lambda r, i: T.ite(T.lt(r, 2), el('A', r, i), el('c', i)), (T.num(3), m), 'Jacobian called back')
        v.equal(o, res.x, lambda i: el('s', i), (m,), 'point returned by the solver')
        v.equal(o, res.fun, lambda: ov.at(), (), 'value returned by the solver')
        v.unchanged(o)
    import numpy as np
    pick = lambda r: [r[1]['con'], r[1]['obj'], r[1]['grad'], r[1]['jac'], r[0].x, r[0].fun, r[1]['cl'], r[1]['start']]
    v.conformance(outs, lambda d, a: pick(go(R_(IW), np.dot, a['A'], a['c'], a['g'], a['x'], a['s'], d['ov'], None)), extract=pick, tol=1e-4)


@contract('C21', 'the central Jacobian is exact on quadratic functions', [J + '.FunctionWithApproxJacobianCentral.jac'])
def c_jacq(v):
    m = v.dim('m', 1)
    x, Q, b = v.array('x', m), v.array('Q', m, m), v.array('b', m)
    eps = v.real('eps', pos=True, gen=lambda r: 10.0 ** r.uniform(-2, 1))
    mod = v.mod(J)
    from pvc import snp
    f = lambda np_, Q, b: (lambda z: np_.dot(z, np_.dot(Q, z)) + np_.dot(b, z))
    outs = v.run(lambda: mod.FunctionWithApproxJacobianCentral(f(snp.np, Q, b), eps, verbose=False).jac(x))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda r, i: el('b', i) + sm(m, lambda k: (el('Q', i, k) + el('Q', k, i)) * el('x', k)), (T.ONE, m))
        v.unchanged(o)
    import numpy as np
    v.conformance(outs, lambda d, a: R_(J).FunctionWithApproxJacobianCentral(f(np, a['Q'], a['b']), d['eps'], verbose=False).jac(a['x']), tol=1e-4)


@contract('C21', 'the forward Jacobian of a quadratic function is off by the step times the curvature', [J + '.FunctionWithApproxJacobian.jac'])
def c_jacq2(v):
    m = v.dim('m', 1)
    x, Q, b = v.array('x', m), v.array('Q', m, m), v.array('b', m)
    eps = v.real('eps', pos=True, gen=lambda r: 10.0 ** r.uniform(-2, 1))
    mod = v.mod(J)
    from pvc import snp
    f = lambda np_, Q, b: (lambda z: np_.dot(z, np_.dot(Q, z)) + np_.dot(b, z))
    outs = v.run(lambda: mod.FunctionWithApproxJacobian(f(snp.np, Q, b), eps, verbose=False).jac(x))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda r, i: el('b', i) + sm(m, lambda k: (el('Q', i, k) + el('Q', k, i)) * el('x', k)) + eps.at() * el('Q', i, i), (T.ONE, m))
    import numpy as np
    v.conformance(outs, lambda d, a: R_(J).FunctionWithApproxJacobian(f(np, a['Q'], a['b']), d['eps'], verbose=False).jac(a['x']), tol=1e-4)


# ---------------------------------------------------------------------- robust loss (C22)
@contract('C22', 'robust_loss hands the weights of the absolute residuals to the loss, whatever the weight function and loss', [CV + '.robust_loss'])
def c_loss_gen(v):
    n = v.dim('n', 1)
    y, yp = v.array('y', n), v.array('f', n)
    wt, L = v.array('w', n), v.real('L')
    cs = [v.real(q) for q in ('c1', 'c2', 'c3')]
    mod = v.mod(CV)
    seen = {}

    def fun(x, *a):
        seen['w'] = (x, a)
        return wt.copy()

    def lfun(u, t, sample_weight=None):
        seen['l'] = (u, t, sample_weight)
        return L
    outs = v.run(lambda: (mod.robust_loss(y, yp, lfun=lfun, fun=fun, probct=cs[0], hampelb=cs[1], hampelr=cs[2]), dict(seen)))
    for o in v.normal(outs):
        r, s = o.value
        v.equal(o, r, lambda: L.at(), (), 'the loss is returned')
        v.equal(o, s['w'][0], lambda i: absv(el('y', i) - el('f', i)), (n,), 'weights of absolute residuals')
        v.prove(o, 'cut-offs in order', T.and_(*[T.eq(R.scalar(p), q.at()) for p, q in zip(s['w'][1], cs)]) if len(s['w'][1]) == 3 else T.FALSE)
        for k, nm in ((0, 'y'), (1, 'f'), (2, 'w')):
            v.equal(o, s['l'][k], lambda i: el(nm, i), (n,), 'argument %d of the loss' % k)
        v.unchanged(o)


def _loss_cols(ycol, fcol):
    @contract('C22', 'robust_loss of columns%s%s' % (', response as a column' if ycol else '', ', prediction as a column' if fcol else ''), [CV + '.robust_loss'])
    def c(v):
        n = v.dim('n', 1)
        y = v.array('y', n, T.ONE) if ycol else v.array('y', n)
        yp = v.array('f', n, T.ONE) if fcol else v.array('f', n)
        wt, L = v.array('w', n), v.real('L')
        mod = v.mod(CV)
        seen = {}

        def fun(x, *a):
            seen['w'] = x
            return wt.copy()

        def lfun(u, t, sample_weight=None):
            seen['l'] = (u, t, sample_weight)
            return L
        Y, F = (lambda i: el('y', i, Z) if ycol else el('y', i)), (lambda i: el('f', i, Z) if fcol else el('f', i))
        outs = v.run(lambda: (mod.robust_loss(y, yp, lfun=lfun, fun=fun), dict(seen)))
        for o in v.normal(outs):
            r, s = o.value
            v.equal(o, r, lambda: L.at(), (), 'the loss is returned')
            v.equal(o, s['w'], lambda i: absv(Y(i) - F(i)), (n,), 'weights of absolute residuals')
            v.equal(o, s['l'][0], Y, (n,), 'response of the loss')
            v.equal(o, s['l'][1], F, (n,), 'prediction of the loss')
            v.equal(o, s['l'][2], lambda i: el('w', i), (n,), 'weights of the loss')
            v.unchanged(o)


for _y, _f in ((True, True), (True, False), (False, True)):
    _loss_cols(_y, _f)


@contract('C22', 'robust_loss with the default loss is the weighted mean of squared residuals, whatever the weight function', [CV + '.robust_loss'])
def c_loss_mse(v):
    n = v.dim('n', 1)
    y, yp = v.array('y', n), v.array('f', n)
    wt = v.array('w', n, pos=True)
    mod = v.mod(CV)
    outs = v.run(lambda: mod.robust_loss(y, yp, fun=lambda x, *a: wt.copy()))
    for o in v.normal(outs):
        v.equal(o, o.value, lambda: sm(n, lambda i: el('w', i) * sq(el('y', i) - el('f', i))) * inv(sm(n, lambda i: el('w', i))), ())
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_(CV).robust_loss(a['y'], a['f'], fun=lambda x, *q: a['w'].copy()))


@contract('C22', 'robust_loss with Huber weights and the default loss', [CV + '.robust_loss', 'sprm._m_support_functions.Huber'])
def c_loss_huber(v):
    from .weights import huber
    n = v.dim('n', 1)
    y, yp, c1 = v.array('y', n), v.array('f', n), v.real('c', pos=True)
    mod = v.mod(CV)
    outs = v.run(lambda: mod.robust_loss(y, yp, fun=mod.Huber, probct=c1))
    w = lambda i: huber(absv(el('y', i) - el('f', i)), c1.at())
    for o in v.normal(outs):
        v.equal(o, o.value, lambda: sm(n, lambda i: w(i) * sq(el('y', i) - el('f', i))) * inv(sm(n, w)), ())
        v.unchanged(o)
    v.conformance(outs, lambda d, a: R_(CV).robust_loss(a['y'], a['f'], fun=R_(CV).Huber, probct=d['c']))


@contract('C22', 'the score table has one row per parameter combination with its scores, in order', [CV + '.cv_score_table'])
def c_table(v):
    import types
    import pandas
    n = v.dim('n', 1)
    E, K, S = v.array('E', n), v.array('K', n), v.array('S', n)
    mod = v.mod(CV)
    made = []

    class Pandas:
        """the table is the columns it is made of"""
        def __getattr__(self, at):
            raise path.Unsupported('pandas.' + at)

        def DataFrame(self, data=None, **k):
            if k or not isinstance(data, dict):
                raise path.Unsupported('columns of the table')
            made.append(data)
            return data
    for nm, val in list(vars(mod).items()):
        if val is pandas:
            setattr(mod, nm, Pandas())
    G = types.SimpleNamespace(cv_results_={'params': arr.SymList(n, lambda i: {'eta': arr.wrap0(el('E', i)), 'n_components': arr.wrap0(el('K', i))}), 'mean_test_score': S})
    outs = v.run(lambda: mod.cv_score_table(G))
    for o in v.normal(outs):
        t = o.value
        if not isinstance(t, dict): raise path.Unsupported('not a table')
        if list(t) != ['etas', 'n_components', 'score']: v.fail(o, 'columns of the table', repr(list(t)))
        for col, src in (('etas', 'E'), ('n_components', 'K'), ('score', 'S')):
            x = t[col]
            x = arr.A((x.n,), lambda ix, x=x: T.lift(arr.asarray(x.fn(ix[0])).at()), 'f') if isinstance(x, arr.SymList) else x
            v.equal(o, x, lambda i, src=src: el(src, i), (n,), 'column %s' % col)
        v.unchanged(o)

    def call(d, a):
        g = types.SimpleNamespace(cv_results_={'params': [{'eta': e, 'n_components': k} for e, k in zip(a['E'], a['K'])], 'mean_test_score': a['S']})
        t = R_(CV).cv_score_table(g)
        return [t['etas'].values, t['n_components'].values, t['score'].values]
    v.conformance(outs, call, extract=lambda t: [arr.A((n,), lambda ix, x=t[c_]: T.lift(arr.asarray(x.fn(ix[0])).at()), 'f') if isinstance(t[c_], arr.SymList) else t[c_] for c_ in ('etas', 'n_components', 'score')])
