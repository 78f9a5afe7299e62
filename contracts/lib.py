"""Specification vocabulary: sums, medians, order statistics over symbolic index ranges"""
from pvc import term as T
from pvc import arr as R
from pvc.arr import A
from pvc.contract import contract, V, Skip

H = T.num(1) * T.power(T.num(2), -1)


def sm(d, body, guard=None):
    if d is T.ONE and guard is None:
        return T.lift(body(T.ZERO))
    c = T.lift(d).const
    if c is not None and c.denominator == 1 and 0 < c <= 8 and guard is None:
        return sum((T.lift(body(T.num(k))) for k in range(int(c))), T.ZERO)
    i = T.fresh_index(d, 's')
    b = body(i)
    if guard is not None:
        b = T.ind(guard(i)) * b
    return T.mk_sum(i, d, b)


def count(d, guard):
    i = T.fresh_index(d, 's')
    return T.mk_sum(i, d, T.ind(guard(i)))


def agg(kind, d, body, guard=None, params=()):
    i = T.fresh_index(d, 'm')
    return T.mk_agg(kind, i, d, guard(i) if guard else T.TRUE, T.lift(body(i)), params)


def med(d, body, guard=None):
    return agg('median', d, body, guard)


def rank(d, body, k, guard=None):
    return agg('sorted', d, body, guard, (T.lift(k),))


def avg(d, body, guard=None):
    if guard is None:
        return sm(d, body) * T.power(d, -1)
    return sm(d, body, guard) * T.power(count(d, guard), -1)


def inv(x):
    return T.power(T.lift(x), -1)


def sq(x):
    return T.power(T.lift(x), 2)


def absv(x):
    return T.fn('abs', T.lift(x))


def el(a, *i):
    return T.el(a, i)


def R_(mod):
    """the real module, imported by the unmodified interpreter, for conformance runs"""
    import importlib
    return importlib.import_module('direpack.' + mod)


def ufun(v, name, dims):
    """an uninterpreted estimator: returns a fresh array of the given shape whatever its arguments"""
    a = v.array(name, *dims)
    return lambda *args, **k: a.copy()


def framed(a, on=True):
    """the array as a data frame (series)"""
    from pvc import models
    return models.Frame(a) if on else a


def real_framed(x, on=True):
    import pandas as pd
    return (pd.DataFrame(x) if x.ndim == 2 else pd.Series(x)) if on else x


# which obligations of a contract on a whole fit belong to which property
FITSEL = {'C07': r'weight|regress|distance|residual|scaled coefficients|preprocess|arguments|starting',
          'C08': r'fitted|residuals$|predictions|intercept|coefficients|orthogonal|plus the intercept|preprocess',
          'C09': r'transform|scores|rotations|loadings|preprocess',
          'C12': r'optimiser|sought|index|criterion|largest|arguments handed',
          'C18': ('only', r'is not modified|left alone|not written'),
          'C19': ('only', r'parameters are those')}
