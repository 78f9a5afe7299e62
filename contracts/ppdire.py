"""Contracts on ppdire/_ppdire_utils.py, ppdire/capi.py and ppdire/ppdire.py"""
from .lib import *
from pvc import snp, arr, path

PU = 'ppdire._ppdire_utils'
PD = 'ppdire.ppdire'
CA = 'ppdire.capi'
Z = T.ZERO


import numpy as _n
MAT = _n.array([[0.0, 1.0], [1.0, 0.0]])      # (only whether an angle matrix was given matters)


class Index:
    """a projection index: any function of the projected data; calls are recorded"""

    def __init__(self, v, values):
        self.values, self.calls = values, []

    def fit(self, x, **k):
        self.calls.append((arr.asarray(x).copy(), k))
        i = len(self.calls) - 1
        return arr.wrap0(T.el(self.values, (T.num(i),)))


class RealIndex:
    def __init__(self, values):
        self.values, self.k = values, -1

    def fit(self, x, **k):
        self.k += 1
        return self.values[self.k]


@contract('C12', 'pp_objective: minus the index of the projected data, with the arguments given', [PU + '.pp_objective'])
def c_obj(v):
    n, p = v.dim('n', 2), v.dim('p', 1)
    X, w, val = v.array('X', n, p), v.array('w', p), v.array('val', T.ONE)
    mod = v.mod(PU)
    st = {}

    def go():
        st['m'] = Index(v, 'val')
        args = {'alpha': 1, 'trimming': 0.1}
        return mod.pp_objective(w, st['m'], X, args), st['m'].calls, args
    outs = v.run(go)
    for o in v.normal(outs):
        r, calls, args = o.value
        v.equal(o, r, lambda: -el('val', Z), ())
        if len(calls) != 1: raise path.Unsupported('index evaluated more than once')
        v.equal(o, calls[0][0], lambda i, j: sm(p, lambda q: el('X', i, q) * el('w', q)), (n, T.ONE), 'projected data')
        if calls[0][1] != {'alpha': 1, 'trimming': 0.1}: v.fail(o, 'arguments are passed on', repr(calls[0][1]))
        v.unchanged(o)
    v.conformance(outs, lambda d, x: R_(PU).pp_objective(x['w'], RealIndex(x['val']), x['X'], {'alpha': 1, 'trimming': 0.1}), extract=lambda r: r[0])


def angles(ndir, refine, rng=(-1, 1)):
    import numpy as np
    if refine:
        a = np.linspace(min(np.arccos(rng[1]), np.arcsin(rng[0])), min(np.arccos(rng[0]), np.arcsin(rng[1])), ndir, endpoint=True)
    else:
        a = np.linspace(max(np.arccos(rng[1]), np.arcsin(rng[0])), max(np.arccos(rng[0]), np.arcsin(rng[1])), ndir, endpoint=False)
    return [[T.fold('cos', t), T.fold('sin', t)] for t in a]


def grid_args(ndir, square, y=None):
    import numpy as np
    g = {'alpha': 1, 'trimming': 0, 'biascorr': False, 'dmetric': 'euclidean', '_stop0c': np.arccos(1), '_stop0s': np.arcsin(-1), '_stop1c': np.arccos(-1), '_stop1s': np.arcsin(1),
         'optmax': 1, 'optrange': (-1, 1), 'square_pi': square, 'ndir': ndir, 'maxiter': 100}
    if y is not None: g['y'] = y
    return g


def _grid(ndir, square, y, refine):
    @contract('C12', '%s: best of a grid of %d directions%s%s' % ('gridplane_2' if refine else 'gridplane', ndir, ', squared index' if square else '', ', with a response' if y else ''),
              [PU + ('.gridplane_2' if refine else '.gridplane')], bound='%d directions in the grid; any data, index values and number of cases' % ndir)
    def c(v):
        n = v.dim('n', 2)
        T.FOLD.update(('cos', 'sin', 'arcsin', 'arccos'))
        X, val = v.array('X', n, 2), v.array('val', T.num(ndir))
        Y = v.array('Y', n, T.ONE) if y else None
        q = v.array('q', T.ONE, gen=lambda rng, shp: [rng.choice([0.0, 0.3, -0.4, 0.6])]) if refine else None
        if refine:
            v.requires(T.lt(absv(el('q', Z)), T.ONE))
        mod = v.mod(PU)
        G = angles(ndir, refine)
        st = {}

        def go():
            st['m'] = Index(v, 'val')
            a = grid_args(ndir, square, Y)
            a['alphamat'] = MAT if refine else (MAT,)
            f = (lambda: mod.gridplane_2(X, st['m'], q, 4, a)) if refine else (lambda: mod.gridplane(X, st['m'], pi_arguments=a))
            wi, mx = f()
            return wi, mx, st['m'].calls
        outs = v.run(go)
        f_ = lambda x: float(x)
        dvs = [T.power(T.ONE + T.num(2) * G[k][0] * G[k][1] * el('q', Z), T.lift(-0.5)) if refine else T.ONE for k in range(ndir)]
        crit = [sq(el('val', T.num(k))) if square else el('val', T.num(k)) for k in range(ndir)]
        for o in v.normal(outs):
            wi, mx, calls = o.value
            if len(calls) != ndir: raise path.Unsupported('index evaluated %d times' % len(calls))
            for k in range(ndir):
                t, kw = calls[k]
                i = T.fresh_index(n, 'q')
                v.shape(o, t.ravel(), (n,), 'shape of the projected data')
                v.prove(o, 'the index is evaluated in direction %d of the grid' % k, close(t.ravel().at(i), (el('X', i, Z) * G[k][0] + el('X', i, T.ONE) * G[k][1]) * dvs[k]))
                for nm in ('alpha', 'trimming', 'biascorr', 'dmetric'):
                    if kw.get(nm) != grid_args(ndir, square)[nm]: v.fail(o, 'arguments are passed on', nm)
                if y: v.equal(o, kw['y'], lambda i, j: el('Y', i, Z), (n, T.ONE), 'the response is passed on')
            wi, mx = arr.asarray(wi), arr.scalar(mx)
            v.shape(o, wi, (T.num(2), T.ONE), 'shape of the direction')
            v.prove(o, 'the value returned is the largest', T.and_(*[T.ge(mx, x) for x in crit]))
            v.prove(o, 'the direction returned attains it', T.or_(*[T.and_(T.eq(mx, crit[k]), close(wi.at(Z, Z), G[k][0] * dvs[k]), close(wi.at(T.ONE, Z), G[k][1] * dvs[k])) for k in range(ndir)]))
            v.unchanged(o)

        def call(d, x):
            a = grid_args(ndir, square, x.get('Y'))
            a['alphamat'] = MAT if refine else (MAT,)
            m = RealIndex(x['val'])
            r = R_(PU).gridplane_2(x['X'], m, x['q'], 4, a) if refine else R_(PU).gridplane(x['X'], m, pi_arguments=a)
            return [r[0], r[1]]
        v.conformance(outs, call, extract=lambda r: [r[0], r[1]])


def close(a, b):
    """equal up to the rounding of the (numeric) grid"""
    return T.eq(a, b)


_grid(3, False, False, False)
_grid(4, True, True, False)
_grid(3, False, True, True)
_grid(3, True, False, True)


# ---------------------------------------------------------------------- co-moment analysis projection index
SLOTS = {2: [(2, 1)], 3: [(3, 1), (3, 2)], 4: [(4, 1), (4, 2), (4, 3)]}


def _capi(deg, scaling):
    @contract('C13', 'capi.fit: weighted sum of the co-moments up to degree %d, %s' % (deg, 'scaled' if scaling else 'raw'), [CA + '.capi.fit', CA + '.capi.__init__', CA + '.capi.set_params'])
    def c(v):
        n = v.dim('n', 4)
        X, Y = v.array('X', n, T.ONE), v.array('Y', n, T.ONE)
        val, w = v.array('val', T.num(6)), v.array('w', T.num(6))
        mod = v.mod(CA)
        want = [s for k in range(2, deg + 1) for s in SLOTS[k]]
        modes = {2: 'cov', 3: 'cos', 4: 'cok'}
        rec = []

        class Co:
            def __init__(self, **k):
                self.mode = k.get('mode')

            def set_params(self, mode):
                self.mode = mode

            def fit(self, x, **k):
                rec.append((self.mode, x, dict(k)))
                key = (int(k['order']), int(k['option']))
                return arr.wrap0(T.el('val', (T.num(want.index(key)) if key in want else T.num(5),)))

        def go():
            del rec[:]
            a = {'mode': 'var'}
            est = mod.capi(max_degree=deg, projection_index=Co, pi_arguments=a, weights=w, scaling=scaling)
            r = est.fit(X, Y, trimming=0, biascorr=True)
            r2 = est.fit(X, Y, trimming=0, biascorr=True)
            return r, est.moments_, est.capi_index_, r2, list(rec), a
        outs = v.run(go)
        for o in v.normal(outs):
            r, mom, ci, r2, calls, a = o.value
            if len(calls) != 2 * len(want): raise path.Unsupported('%d co-moments' % len(calls))
            seen = []
            for mode, x, k in calls:
                key = (int(k['order']), int(k['option']))
                seen.append(key)
                if mode != (modes[key[0]] if scaling else 'com'): v.fail(o, 'mode of the co-moment of order %d' % key[0], mode)
                if k.get('trimming') != 0 or k.get('biascorr') is not True: v.fail(o, 'arguments are passed on', repr(sorted(k)))
                v.equal(o, arr.asarray(x).ravel(), lambda i: el('X', i, Z), (n,), 'data of the co-moment')
                v.equal(o, arr.asarray(k['y']).ravel(), lambda i: el('Y', i, Z), (n,), 'second block of the co-moment')
            if sorted(seen) != sorted(want + want): v.fail(o, 'co-moments collected', repr(seen))
            spec = sum((el('w', T.num(q)) * el('val', T.num(q)) for q in range(len(want))), Z)
            v.equal(o, r, lambda: spec, ())
            v.equal(o, r2, lambda: spec, (), 'a second evaluation gives the same')
            v.equal(o, ci, lambda: spec, (), 'index kept')
            v.equal(o, mom, lambda i: sum((T.ind(T.eq(i, T.num(q))) * el('val', T.num(q)) for q in range(len(want))), Z), (T.num(6),), 'moments kept')
            if a != {'mode': 'var'}: v.fail(o, 'settings are left alone', repr(a))
            v.unchanged(o)

        def call(d, x):
            class Co_(object):
                def __init__(self, **k): self.mode = None
                def set_params(self, mode): self.mode = mode
                def fit(self, x_, **k): return x['val'][want.index((int(k['order']), int(k['option'])))]
            e = R_(CA).capi(max_degree=deg, projection_index=Co_, pi_arguments={}, weights=x['w'], scaling=scaling)
            r = e.fit(x['X'], x['Y'])
            return [r, e.moments_]
        v.conformance(outs, call, extract=lambda r: [r[0], r[1]])


for _d in (2, 3, 4):
    for _s in (True, False):
        _capi(_d, _s)
