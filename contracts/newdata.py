"""Contracts on predict and transform alone, for any fitted state (C08, C09): any container, single rows, refusal of
another number of columns"""
from .lib import *
from pvc import snp, arr, path, models

Z = T.ZERO
UT = 'utils.utils'


def wrap(a, cont):
    return models.Frame(a) if cont in ('frame', 'series') else a


def real_wrap(x, cont):
    import pandas as pd
    return pd.DataFrame(x) if cont == 'frame' else pd.Series(x) if cont == 'series' else x


WHERE = dict(snipls='sprm.snipls', rm='sprm.rm', sprm='sprm.sprm', ppdire='ppdire.ppdire', sudire='sudire.sudire')


def _new(which, method, cont, wrong):
    cls = 'sprm.' + which if which in ('snipls', 'rm', 'sprm') else which
    mn = WHERE[which]
    nm = '%s.%s on new data: %s%s' % (which, method, {'array': 'array', 'row': 'a single row as a vector', 'frame': 'data frame', 'series': 'a single row as a series'}[cont], ', another number of columns' if wrong else '')

    @contract((['C08'] if method == 'predict' else ['C09', 'C08']) + ([] if wrong else ['C18', 'C19']), nm, ['%s.%s.%s' % (mn, which, method), mn + '.%s.__init__' % which], select={'C18': ('only', r'is not modified'), 'C19': ('only', 'fitted state'), 'C08': r'^(?!argument|fitted state)', 'C09': r'^(?!argument|fitted state)'})
    def c(v):
        n, p, h, m = v.dim('n', 2), v.dim('p', 2), v.dim('h', 1), v.dim('m', 1)
        q = v.dim('q', 1) if wrong else p
        if wrong: v.requires(T.ne(q, p))
        one = cont in ('row', 'series')
        X = v.array('X', n, p)
        W = v.array('W', q) if one else v.array('W', m, q)
        w = (lambda i, j: el('W', j)) if one else (lambda i, j: el('W', i, j))
        rows = T.ONE if one else m
        B = v.array('B', p, h) if which in ('ppdire', 'sudire') else v.array('B', p, T.ONE)
        R = v.array('R', p, h)
        I = v.array('I', T.ONE) if which == 'ppdire' else v.real('I')
        loc, sca = v.array('loc', p), v.array('sca', p, pos=True)
        mod = v.mod(mn)
        th = v.array('th', h + 1) if which == 'sudire' else None

        class Ols:
            def predict(self, x):
                return x @ th.copy()

        def make(cls_, X_, B_, R_, I_, loc_, sca_, np_, ols):
            e = cls_(lambda: None) if which == "ppdire" else cls_()
            e.X, e.coef_, e.intercept_, e.x_loc_, e.x_sca_ = X_, B_, I_, loc_, sca_
            e.x_Rweights_ = e.x_rotations_ = R_
            e.x_loadings_ = B_ if which == 'sudire' else R_
            e.ols_obj_ = ols
            if which == 'sprm': e.non_zero_scale_vars_ = np_
            return e

        def go():
            import pvc.snp as S
            e = make(getattr(mod, which), X, B.copy(), R.copy(), I if not isinstance(I, A) or I.ndim == 0 else I.copy(), loc.copy(), sca.copy(), S.NP['arange'](0, v.int(p)), Ols())
            state = {k: (q.copy() if isinstance(q, A) else q) for k, q in vars(e).items()}
            try:
                return getattr(e, method)(wrap(W, cont)), state, e
            except AttributeError as x:
                # the fitted state is set up here by hand; state of another make is not judged
                raise path.Unsupported('attribute %s' % x)
        outs = v.run(go)
        if wrong:
            v.raises(outs, ValueError, 'another number of columns is refused')
        else:
            P = p
            for o in v.normal(outs):
                r, state, e = o.value
                r = arr.asarray(r)
                for k, q in state.items():
                    if isinstance(q, A) and isinstance(vars(e).get(k), A):
                        v.equal(o, vars(e)[k], lambda *ix: q.at(*ix), tuple(q.shp), 'fitted state %s is left alone' % k)
                    else:
                        v.check(o, 'fitted state %s is left alone' % k, k in vars(e) and (vars(e)[k] is q or (not isinstance(q, A) and vars(e)[k] == q)), 'attribute %s' % k)
                if method == 'predict':
                    if which == 'sudire':
                        f = lambda i: sm(h + 1, lambda r_: T.ite(T.ge(r_, 1), sm(p, lambda j: w(i, j) * el('B', j, r_ - 1)), T.ONE) * el('th', r_))     # regression on a constant and the scores
                    elif which == 'ppdire':
                        f = lambda i: sm(p, lambda j: w(i, j) * el('B', j, h - 1)) + el('I', Z)
                    else:
                        f = lambda i: sm(p, lambda j: w(i, j) * el('B', j, Z)) + T.lift(arr.scalar(I))
                    v.equal(o, r.ravel(), f, (rows,), 'the data times the coefficients plus the intercept')
                else:
                    if which == 'sudire':
                        f = lambda i, k: sm(p, lambda j: w(i, j) * el('B', j, k))
                    else:
                        f = lambda i, k: sm(p, lambda j: (w(i, j) - el('loc', j)) * inv(el('sca', j)) * el('R', j, k))
                    v.equal(o, r, f, (rows, h), 'the preprocessed data times the rotations')
                v.unchanged(o)

        def call(d, a):
            import numpy as np

            class Ols_:
                def predict(self, x): return x @ a['th']
            e = make(getattr(R_(mn), which), a['X'], a['B'], a['R'], a['I'] if 'I' in a else d['I'], a['loc'], a['sca'], np.arange(a['X'].shape[1]), Ols_())
            r = getattr(e, method)(real_wrap(a['W'], cont))
            return r
        v.conformance(outs, call, extract=lambda r: r[0])


for _w in WHERE:
    for _m in ('predict', 'transform'):
        if _w == 'rm' and _m == 'transform': continue
        for _c in ('array', 'frame') + (('row', 'series') if _w in ('snipls', 'rm', 'sprm') else ()):
            for _x in (False, True):
                _new(_w, _m, _c, _x)
