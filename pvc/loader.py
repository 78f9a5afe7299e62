"""Loading of the code under verification.

Every module of /repo/src/direpack is read from disk on each run, parsed, and compiled unchanged
except for two mechanical rewrites of the syntax tree:
  * a list comprehension / generator / for statement goes through a hook, which is the ordinary
    construct when the iterable is concrete and a summary when its length is symbolic;
  * a while statement goes through the invariant rule when the contract supplies an invariant for it
    (arbitrary iteration from an arbitrary state satisfying the invariant), and is left alone otherwise.
numpy, scipy, dcor and statsmodels are replaced by their assumed contracts (snp, models); python
builtins that insist on machine integers (range, len, int, ...) by versions that accept symbolic
values.  Nothing is dropped from the modules; what is executed is what is in the file."""
import ast, sys, os, types, builtins, importlib, numbers
import numpy as _np
from . import term as T
from . import path as P
from .path import Unsupported, decide
from . import arr as R
from .arr import A, M, Space, SymList, scalar, pyint, dsize, const_int, wrap0, asarray
from . import snp
from . import prove

SRC = os.environ.get('PVC_SRC', '/repo/src/direpack')
PKG = 'direpack'


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        n = hi - lo
        self.n = n

    def __iter__(self):
        raise Unsupported('iteration over a symbolic range')

    def pvc_asarray(self):
        lo = self.lo
        return A((self.n,), lambda i: lo + i[0], 'i')

    def __len__(self):
        raise Unsupported('len of a symbolic range')


def s_range(*a):
    ps = [scalar(x) if isinstance(x, A) else x for x in a]
    if all(isinstance(x, numbers.Integral) or (isinstance(x, T.Poly) and x.const is not None) for x in ps):
        return range(*[int(x) if isinstance(x, numbers.Integral) else int(x.const) for x in ps])
    ps = [T.lift(x) for x in ps]
    if len(ps) == 3:
        if ps[2] is not T.ONE:
            raise Unsupported('range with a step')
    lo, hi = (T.ZERO, ps[0]) if len(ps) == 1 else (ps[0], ps[1])
    n = hi - lo
    if n.const is None and not T.nonneg(n) and not decide(T.ge(n, 0)):
        return range(0)
    if n.const is not None:
        # symbolic start, concrete length
        return [wrap0(lo + k) for k in range(max(0, int(n.const)))]
    return SymRange(lo, hi)


def s_len(x):
    if isinstance(x, A):
        if x.ndim == 0:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    if isinstance(x, SymList):
        return pyint(x.n + len(x.extra))
    if isinstance(x, SymRange):
        return pyint(x.n)
    if hasattr(x, '_symbolic_len'):
        return x._symbolic_len()
    return len(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int) or (isinstance(o, A) and o.ndim == 0 and o.kind == 'i' and type(o) is A)


def s_int(x=0, *a):
    if isinstance(x, A):
        p = scalar(x)
        v = T.fn('trunc', p)
        return pyint(v)
    return int(x, *a)


def s_float(x=0.0):
    if isinstance(x, A):
        p = scalar(x)
        return A((), lambda i: p, 'f')
    return float(x)


def s_round(x, nd=None):
    if isinstance(x, A):
        if nd:
            return x
        v = T.fn('round', scalar(x))
        return pyint(v) if v.const is not None else A((), lambda i: v, 'i')
    return round(x) if nd is None else round(x, nd)


def s_abs(x):
    return abs(x)


def s_sum(x, start=0):
    if isinstance(x, (A, SymList)):
        a = asarray(x)
        return R.reduce_('sum', a, 0) + start
    return builtins.sum(x, start)


def _ext(kind, bi):
    def f(*a, **k):
        if len(a) == 1 and isinstance(a[0], (A, SymList)):
            x = asarray(a[0])
            if x.ndim == 2 and x.shp[1] is T.ONE:
                # rows of an (n,1) array are compared as size-one arrays
                r = R.reduce_(kind, x, 0)
                return r
            if x.ndim != 1:
                raise ValueError('The truth value of an array with more than one element is ambiguous')
            return R.reduce_(kind, x, 0)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if any(isinstance(v, A) for v in xs):
            if k:
                raise Unsupported('max(key=) on symbolic values')
            r = xs[0]
            for v in xs[1:]:
                r = snp.maximum(r, v) if kind == 'max' else snp.minimum(r, v)
            ks = [v for v in xs if isinstance(v, A)]
            if isinstance(r, A) and r.ndim == 0 and all((not isinstance(v, A) and isinstance(v, numbers.Integral)) or (isinstance(v, A) and v.kind == 'i') for v in xs):
                return pyint(r.at())
            return r
        return bi(*a, **k)
    return f


s_max, s_min = _ext('max', builtins.max), _ext('min', builtins.min)


def s_any(x):
    if isinstance(x, (A, SymList)):
        a = asarray(x)
        if a.ndim > 1 and not all(d is T.ONE for d in a.shp[1:]):
            raise ValueError('ambiguous truth value')
        return R.reduce_('any', a)
    return builtins.any(x)


def s_all(x):
    if isinstance(x, (A, SymList)):
        a = asarray(x)
        return R.reduce_('all', a)
    return builtins.all(x)


def s_isinstance(o, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(o, A):
        if o.ndim == 0:
            for q in ts:
                if q in (int, s_int) and o.kind == 'i': return True
                if q in (float, s_float) and o.kind == 'f': return True
                if isinstance(q, type) and issubclass(q, _np.generic): return True
                if q is numbers.Number or q is numbers.Real: return True
                if q is numbers.Integral and o.kind == 'i': return True
            return False
        return any(isinstance(q, type) and issubclass(type(o), q) for q in ts)
    ts = tuple({s_int: int, s_float: float, s_list: list, s_type: type, s_tuple: tuple}.get(q, q) if callable(q) else q for q in ts)
    if isinstance(o, SymList):
        return list in ts
    if hasattr(o, '_pvc_type'):
        return any(isinstance(q, type) and issubclass(o._pvc_type(), q) for q in ts)
    return isinstance(o, ts)


def s_type(o, *rest):
    if rest:
        return type(o, *rest)
    if isinstance(o, A):
        if o.ndim == 0:
            return int if o.kind == 'i' else _np.float64
        if isinstance(o, M):
            return M
        return A
    if isinstance(o, SymList):
        return list
    if hasattr(o, '_pvc_type'):
        return o._pvc_type()
    return type(o)


def s_list(x=()):
    if isinstance(x, SymList):
        return x
    if isinstance(x, SymRange):
        lo = x.lo
        return SymList(x.n, lambda i: wrap0(lo + i))
    if isinstance(x, A) and not (not isinstance(x.shp[0], Space) and const_int(x.shp[0]) is not None):
        return SymList(dsize(x.shp[0]), lambda i: x[wrap0(i)])
    return list(x)


def s_enumerate(x, start=0):
    if isinstance(x, (SymRange, SymList)) or (isinstance(x, A) and const_int(dsize(x.shp[0])) is None):
        it = _iter_of(x)
        return SymList(it[0], lambda i: (wrap0(i + start), it[1](i)))
    return enumerate(x, start)


def s_zip(*xs):
    if any(isinstance(x, (SymRange, SymList)) or (isinstance(x, A) and const_int(dsize(x.shp[0])) is None) for x in xs):
        its = [_iter_of(x) for x in xs]
        return SymList(its[0][0], lambda i: tuple(f(i) for n, f in its))
    return zip(*xs)


class SymKey:
    """tuple(x) of a vector of symbolic length, usable as a dictionary key only: two keys are equal when their
    entries are the same terms, so that a memo table shared too widely is seen to be hit (vectors that merely
    might coincide are taken to be different)"""

    def __init__(self, x):
        n = dsize(x.shp[0])
        try:
            e = x[wrap0(T.var('key~', 'I', n))]
            self.key = (n.key, repr(e.at().key) if e.ndim == 0 else None)
            if e.ndim:
                self.key = None
        except (AttributeError, Unsupported):
            self.key = None

    def __hash__(self):
        return hash(self.key) if self.key else object.__hash__(self)

    def __eq__(self, o):
        return self is o or (isinstance(o, SymKey) and self.key is not None and self.key == o.key)


def s_tuple(x=()):
    if isinstance(x, A) and x.ndim >= 1 and const_int(dsize(x.shp[0])) is None:
        P.note('memo tables keyed on a vector are hit by the same terms only (vectors that might coincide are taken to be different)')
        return SymKey(x)
    if isinstance(x, SymList):
        raise Unsupported('tuple of a symbolic list')
    return tuple(x)


def s_str(*a):
    return str(*a)


def _iter_of(x):
    """(length, element function) of a symbolic iterable, or None"""
    if isinstance(x, SymRange):
        lo = x.lo
        return x.n, (lambda i: wrap0(lo + i))
    if isinstance(x, SymList):
        return x.n, x.fn
    if isinstance(x, A) and x.ndim >= 1:
        d = x.shp[0]
        if isinstance(d, Space):
            raise Unsupported('iteration over a selection')
        if const_int(d) is None:
            return d, (lambda i: x[wrap0(i)])
    return None


# ---------------------------------------------------------------- hooks called by rewritten code
def h_listcomp(f, it):
    r = _iter_of(it)
    if r is None:
        return [f(x) for x in it]
    n, e = r
    if not T.pos(T.lift(n)) and not decide(T.gt(n, 0)):
        return []
    # evaluate once at a generic index; branches on the element are merged into conditionals
    g = T.fresh_index(n, 'c')
    gn = T.vname(g)
    ps = P.local_paths(lambda: f(e(g)), gn)
    v = ps[-1][1]
    for facts, w in reversed(ps[:-1]):
        v = _merge(T.and_(*facts), w, v)
    return SymList(n, lambda i: _inst(v, gn, i))


def _merge(c, x, y):
    """if c then x else y, for values of comprehension bodies"""
    if x is y:
        return x
    if isinstance(x, (A, numbers.Number, _np.generic)) and isinstance(y, (A, numbers.Number, _np.generic)):
        x, y = asarray(x), asarray(y)
        if len(x.shp) != len(y.shp) or any(d1 is not d2 and not (isinstance(d1, Space) and d1.same(d2)) for d1, d2 in zip(x.shp, y.shp)):
            raise Unsupported('comprehension elements of different shapes')
        sx, sy, nx, ny = x._snap(), y._snap(), x._nansnap(), y._nansnap()

        def get(i):
            a, b = sx(i), sy(i)
            if isinstance(a, T.B) or isinstance(b, T.B):
                a, b = T.liftb(a), T.liftb(b)
                return T.or_(T.and_(c, a), T.and_(T.not_(c), b))
            return T.ite(c, a, b)
        nan = None
        if nx or ny:
            def nan(i):
                return T.or_(T.and_(c, nx(i) if nx else T.FALSE), T.and_(T.not_(c), ny(i) if ny else T.FALSE))
        if not x.shp:
            return wrap0(get(()), nan(()) if nan else T.FALSE)
        return A(x.shp, get, x.kind if x.kind == y.kind else 'f', nan)
    if isinstance(x, (list, tuple)) and type(x) is type(y) and len(x) == len(y):
        return type(x)(_merge(c, p, q) for p, q in zip(x, y))
    if isinstance(x, (str, bool, type(None))) and x == y:
        return x
    raise Unsupported('comprehension elements that cannot be merged')


def _inst(v, name, i):
    """instantiate the generic element"""
    if isinstance(v, A):
        i = T.lift(i)
        s = v._snap()
        n = v._nansnap()

        def get(idx):
            r = s(idx)
            return T.substb(r, {name: i}) if isinstance(r, T.B) else T.subst(r, {name: i})
        shp = tuple(d if isinstance(d, Space) else T.subst(d, {name: i}) for d in v.shp)
        if v.ndim == 0:
            return wrap0(get(()), T.substb(n(()), {name: i}) if n else T.FALSE)
        return A(shp, get, v.kind, (lambda idx: T.substb(n(idx), {name: i})) if n else None)
    if isinstance(v, (list, tuple)):
        return type(v)(_inst(x, name, i) for x in v)
    if isinstance(v, SymList):
        return SymList(v.n, lambda j: _inst(v.fn(j), name, i))
    return v


class Loop:
    """summary of `for x in it: body` over a symbolic length.

    The body is executed once at a generic index k, with every variable it may change replaced
    by a fresh symbol; the effect must be of one of the forms
        v' = v + f(k)          ->  v + sum_k f(k)
        v' = f(k) (independent of v)   ->  f(n-1)
        A[k, ...] = f(k)       ->  pointwise update
        list.append(f(k))      ->  list extended by a symbolic list
    anything else is outside the subset."""

    def __init__(self, it, attrs=()):
        self.sym = _iter_of(it)
        self.native = self.sym is None
        self.attrs = attrs
        self.it = it

    def enter(self, names, loc):
        self.n, self.e = self.sym
        if self.attrs:
            raise Unsupported('attribute written in a symbolic loop')
        if not decide(T.gt(self.n, 0)):
            raise Unsupported('empty symbolic loop')
        self.k = T.fresh_index(self.n, 'k')
        self.names = names
        self.old = {}
        self.ph = {}
        self.lists = {}
        self.dicts = []
        vals = {}
        for nm in names:
            if nm not in loc:
                continue
            v = loc[nm]
            self.old[nm] = v
            if isinstance(v, (numbers.Number, _np.generic)) and not isinstance(v, (bool, _np.bool_)):
                v = A((), lambda i, v=v: T.lift(v), 'i' if isinstance(v, numbers.Integral) else 'f')
            if isinstance(v, A):
                ph = T.fresh_name('acc')
                kd = v.kind
                if kd == 'b':
                    continue
                a = A(v.shp, (lambda i, ph=ph: T.el(ph, _flat(i), 'R')), 'f' if kd != 'i' else 'f')
                self.ph[nm] = (ph, a, v)
                vals[nm] = a
        # mutable objects reachable by name
        self.snap = {}
        for nm, v in loc.items():
            if isinstance(v, A) and nm not in self.ph:
                self.snap[id(v.buf)] = (v.buf, v.buf.get, v.buf.nan, v.buf.memo, v.buf.ver)
            elif isinstance(v, list):
                self.lists[id(v)] = (v, list(v))
            elif isinstance(v, (dict, set)):
                self.dicts.append((v, dict(v) if isinstance(v, dict) else set(v)))
        self.log = R.WRITELOG
        R.WRITELOG = []
        P.CTX.forbid.append(T.vname(self.k))
        return vals

    def item(self):
        return self.e(self.k)

    def again(self, loc):
        """settling rule: is there another iteration that may change the state?"""
        now = {}
        for nm, v in loc.items():
            if nm.startswith('_pvc'):
                continue
            now[nm] = (id(v), len(v) if isinstance(v, (list, dict, set)) else None, v.buf.ver if isinstance(v, A) else None)
        j = getattr(self, 'round', 0)
        self.keep = getattr(self, 'keep', []) + [loc]
        if j and now == self.state:
            return False
        if j > 6:
            raise Unsupported('symbolic loop that does not settle')
        self.state, self.round = now, j + 1
        return decide(T.gt(self.sym[0], j))

    def leave(self, loc):
        writes, R.WRITELOG = R.WRITELOG, self.log
        P.CTX.forbid.pop()
        kn = T.vname(self.k)
        phs = {ph for ph, a, v in self.ph.values()}
        out = {}
        for nm in self.names:
            if nm not in loc:
                continue
            new = loc[nm]
            if nm in self.ph:
                ph, a, v = self.ph[nm]
                if new is a and a.buf.ver == 0:
                    out[nm] = self.old[nm]
                    continue
                new = asarray(new)
                if len(new.shp) != len(a.shp) or any(d1 is not d2 and not (isinstance(d1, Space) and d1.same(d2)) for d1, d2 in zip(new.shp, a.shp)):
                    # shape changes: only allowed when independent of the carried value
                    out[nm] = self._last(new, phs)
                    continue
                out[nm] = self._acc(new, a, v, ph, phs, kn)
            else:
                if isinstance(new, A):
                    out[nm] = self._last(new, phs)
                elif isinstance(new, (list, SymList)):
                    out[nm] = new
                else:
                    out[nm] = new
        # in-place updates of arrays that were not rebound
        for bid, (buf, get, nan, memo, ver) in self.snap.items():
            if buf.ver == ver:
                continue
            newget = buf.get
            probe = None
            k, n = self.k, self.n
            buf.get, buf.memo, buf.nan = get, memo, nan
            oget = get

            def final(J, newget=newget, oget=oget):
                # the write must be guarded by (index == k) on some axis: recover by instantiating k at each axis
                r = newget(J)
                o = oget(J)
                if isinstance(r, T.B):
                    raise Unsupported('boolean array written in a symbolic loop')
                if _uses(r, phs):
                    raise Unsupported('loop-carried dependence')
                if r is o:
                    return o
                r = _resolve_writes(r, kn, n, o, J)
                return r
            buf.get = final
            buf.memo = {}
            # a body that reads what earlier iterations wrote is outside the subset
        for d, was in self.dicts:
            if len(d) != len(was) or (isinstance(d, dict) and any(k_ not in was or d[k_] is not was[k_] for k_ in d)):
                raise Unsupported('dictionary written in a symbolic loop')
        for lid, (lst, was) in self.lists.items():
            ln = len(was)
            if any(x is not y for x, y in zip(lst, was)) or len(lst) < ln:
                raise Unsupported('list written in a symbolic loop')
            if len(lst) > ln:
                add = lst[ln:]
                del lst[ln:]
                if len(add) != 1 or ln != 0:
                    raise Unsupported('list extended in a symbolic loop')
                v = add[0]
                nm = [q for q, w in loc.items() if w is lst]
                sl = SymList(self.n, lambda i, v=v: _inst(v, kn, i))
                for q in nm:
                    if q not in self.names:
                        raise Unsupported('list extended in a symbolic loop')
                    out[q] = sl
                if not nm:
                    raise Unsupported('list extended in a symbolic loop')
        return out

    def _last(self, new, phs):
        s = new._snap()
        v = _inst(new, T.vname(self.k), self.n - 1)
        return v

    def _acc(self, new, a, v, ph, phs, kn):
        old = v
        s = new._snap()
        so = old._snap()
        n, k = self.n, self.k
        mode = {}

        def get(idx):
            r = T.lift(s(idx))
            p0 = T.el(ph, _flat(idx), 'R')
            d = r - p0
            if not _uses(d, phs):
                return T.lift(so(idx)) + T.mk_sum(k, n, d)
            if not _uses(r, phs):
                return T.subst(r, {kn: n - 1})
            raise Unsupported('loop-carried dependence that is not an accumulation')
        # check at a generic index now
        g = tuple(tuple(T.fresh_index(e) for e in d.dims) if isinstance(d, Space) else T.fresh_index(d, 'g') for d in new.shp)
        get(g)
        if not new.shp:
            return wrap0(get(()))
        return A(new.shp, get, 'f')


def _flat(idx):
    out = []
    for i in idx:
        if isinstance(i, tuple):
            out.extend(i)
        else:
            out.append(i)
    return tuple(out)


def _uses(p, names):
    """does the term mention an element of one of the placeholder arrays?"""
    seen = set()

    def pol(q):
        if q.key in seen: return False
        seen.add(q.key)
        return any(at(a) for m, c in q.t for a, e in m)

    def bo(b):
        if b.key in seen: return False
        seen.add(b.key)
        if b.kind == 'cmp': return pol(b.a[1])
        if b.kind in ('not', 'and', 'or'): return any(bo(x) for x in b.a)
        if b.kind == 'bel': return b.a[0] in names or any(pol(i) for i in b.a[1])
        if b.kind == 'ex': return bo(b.a[2])
        return False

    def at(a):
        k = a.kind
        if k == 'el': return a.a[0] in names or any(pol(i) for i in a.a[1])
        if k == 'fn': return any(pol(x) for x in a.a[1])
        if k == 'ind': return bo(a.a[0])
        if k == 'ite': return bo(a.a[0]) or pol(a.a[1]) or pol(a.a[2])
        if k == 'pb': return pol(a.a[0])
        if k == 'sum': return any(at(x) for x, e in a.a[2])
        if k == 'agg': return bo(a.a[3]) or pol(a.a[4]) or any(pol(x) for x in a.a[5])
        return False
    return pol(p)


def _resolve_writes(r, kn, n, o, J):
    """ite(j == k (+c), v, old) -> v[k := j], for one of the indices j"""
    if len(r.t) == 1 and r.t[0][1] == 1 and len(r.t[0][0]) == 1 and r.t[0][0][0][0].kind in ('ite', 'ind') and r.t[0][0][0][1] == 1:
        a = r.t[0][0][0][0]
        if a.kind == 'ite':
            c, x, y = a.a
        else:
            c, x, y = a.a[0], T.ONE, T.ZERO
        conj = c.a if c.kind == 'and' else (c,)
        for q in conj:
            if q.kind == 'cmp' and q.a[0] == '==' and kn in q.fv:
                p = q.a[1]
                # p == s*(k - e): solve for k
                co = None
                for m, cc in p.t:
                    if len(m) == 1 and m[0][0].kind == 'var' and m[0][0].a[0] == kn and m[0][1] == 1:
                        co = cc
                if co is None:
                    continue
                e = T.scale(p, -1 / co) + T.var(kn, 'I')
                if kn in e.fv:
                    continue
                rest = T.and_(*[z for z in conj if z is not q])
                rest = T.substb(rest, {kn: e})
                x2 = T.subst(x, {kn: e})
                if y is not o and kn in y.fv:
                    y = _resolve_writes(y, kn, n, o, J)
                inr = T.and_(T.ge(e, 0), T.lt(e, n))
                if T.is_var(e) and T.VARDIM.get(T.vname(e)) is n:
                    inr = T.TRUE
                return T.ite(T.and_(inr, rest), x2, y)
    if kn in r.fv:
        raise Unsupported('array update in a symbolic loop that is not pointwise')
    return r


def h_for(it, attrs=()):
    return Loop(it, attrs)


# ---------------------------------------------------------------- while: invariant rule
class WhileRule:
    """contract of the while statements met on a path

    while c: S   is replaced, for verification, by
        assert Inv;  if c { havoc the variables assigned in S; assume Inv and c; S; assert Inv; assume not c }
    (a break in S leaves the loop with the state reached).  The state after the loop is thus the state
    after its last iteration, started from an arbitrary state allowed by the invariant.

    A variable the body assigns before it reads it, and before it can leave the loop, keeps its value (it is
    never read at the head).  An invariant may be given as templates: `templ(g)` lists the arrays that a value
    g of the ghost variable determines; a carried array equal to a template at the entry ghost `ghost0()` is
    the template of an arbitrary ghost `ghost` at the head, and must be that of `ghost1()` after the body."""

    def __init__(self, inv=None, entry=None, on_head=None, declare=None):
        self.inv, self.entry, self.on_head, self.declare = inv, entry, on_head, declare
        self.uses = 0
        self.heads = []
        self.templ = None
        self.poison = ()


WHILE = None        # set by the contract


class Poison:
    """attribute value of an earlier iteration: must not be read"""

    def _no(self, *a, **k):
        raise Unsupported('attribute carried around a loop')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __bool__ = __len__ = __iter__ = __float__ = __getitem__ = __array__ = __pow__ = __neg__ = __abs__ = _no
    __hash__ = object.__hash__
    __eq__ = __ne__ = _no


def _equal_arrays(x, y):
    from .contract import path_simplify
    if x.ndim != y.ndim or any(d is not e for d, e in zip(x.shp, y.shp)):
        return False
    idx = tuple(T.fresh_index(d, 'q') for d in x.shp)
    a, b = T.lift(x.at(*idx)), T.lift(y.at(*idx))
    if a is b:
        return True
    g = path_simplify(T.eq(a, b), list(P.CTX.pc))
    return g is T.TRUE or prove.entails(P.CTX.pc, g) is True


class _While:
    def __init__(self, rule, names, dead=(), attrs=()):
        self.rule, self.names, self.dead, self.attrs = rule, names, dead, attrs

    def _inv(self, loc, what):
        r = self.rule
        if r.inv is None:
            return
        for nm, g in r.inv(loc):
            P.CTX.obls.append((list(P.CTX.pc), '%s (%s)' % (nm, what), g))

    def begin(self, loc):
        r = self.rule
        r.uses += 1
        if r.entry is not None:
            for nm, g in r.entry(loc):
                P.CTX.obls.append((list(P.CTX.pc), '%s (on entry of the loop)' % nm, g))
        self._inv(loc, 'invariant on entry')
        self.match = {}
        if r.templ is not None:
            cands = r.templ(r.ghost0())
            for nm in self.names:
                v = loc.get(nm)
                if isinstance(v, A) and v.ndim and nm not in self.dead and not any(isinstance(d, Space) for d in v.shp):
                    for k, c in enumerate(cands):
                        if _equal_arrays(v, c):
                            self.match[nm] = k
                            break

    def havoc(self, loc):
        r = self.rule
        vals = {}
        head = r.templ(r.ghost) if r.templ is not None else None
        for nm in self.names:
            if nm not in loc or nm in self.dead:
                continue
            v = loc[nm]
            if nm in self.match:
                vals[nm] = head[self.match[nm]].copy()
            elif isinstance(v, (bool, _np.bool_)) or (isinstance(v, A) and v.kind == 'b' and v.ndim == 0):
                vals[nm] = wrap0(T.bvar('head.' + nm))
            elif isinstance(v, numbers.Integral):
                vals[nm] = wrap0(T.var('head.' + nm, 'I'))
                if r.declare: r.declare('head.' + nm, None, 'i')
            elif isinstance(v, (float, _np.floating)):
                vals[nm] = wrap0(T.var('head.' + nm, 'R'))
                if r.declare: r.declare('head.' + nm, None, 'f')
            elif isinstance(v, A):
                nm_ = 'head.' + nm
                if v.ndim == 0:
                    vals[nm] = wrap0(T.var(nm_, 'I' if v.kind == 'i' else 'R'))
                    if r.declare: r.declare(nm_, None, v.kind)
                else:
                    if any(isinstance(d, Space) for d in v.shp):
                        raise Unsupported('loop-carried selection %s' % nm)
                    vals[nm] = A(v.shp, (lambda i, q=nm_: T.el(q, _flat(i), 'R')), 'f')
                    if r.declare: r.declare(nm_, v.shp, v.kind)
            elif v is None or isinstance(v, (str, list, tuple, dict)) or callable(v):
                raise Unsupported('loop-carried variable %s' % nm)
        # in-place writes of the body to arrays it does not rebind
        self.snap = {nm: (v.buf, v.buf.ver) for nm, v in loc.items() if isinstance(v, A) and nm not in vals and nm not in self.dead}
        self.held = []
        for o, at in self.attrs:
            ob = loc.get(o)
            if ob is None:
                raise Unsupported('attribute of %s written by a loop' % o)
            if at in r.poison:
                setattr(ob, at, Poison())
            elif hasattr(ob, at):
                self.held.append((ob, at, getattr(ob, at)))
        loc2 = dict(loc)
        loc2.update(vals)
        if r.inv is not None:
            for nm, g in r.inv(loc2):
                if not isinstance(g, T.B):
                    raise Unsupported('invariant')
                P.assume(g)
        r.heads.append(vals)
        return vals

    def step(self, loc):
        r = self.rule
        for nm, (b, ver) in self.snap.items():
            if b.ver != ver:
                raise Unsupported('array %s written in place by a loop under an invariant' % nm)
        for ob, at, val in self.held:
            if getattr(ob, at) is not val:
                raise Unsupported('attribute %s carried around a loop under an invariant' % at)
        self._inv(loc, 'invariant preserved')
        if self.match:
            nxt = r.templ(r.ghost1())
            for nm, k in self.match.items():
                v, w = loc[nm], nxt[k]
                if v.ndim != w.ndim or any(d is not e for d, e in zip(v.shp, w.shp)):
                    raise Unsupported('loop-carried array of changing shape')
                idx = tuple(T.fresh_index(d, 'q') for d in v.shp)
                P.CTX.obls.append((list(P.CTX.pc), 'array carried to the next iteration (invariant preserved)', T.eq(T.lift(v.at(*idx)), T.lift(w.at(*idx)))))


def h_while(names, dead=(), attrs=()):
    return _While(WHILE, names, dead, attrs) if WHILE is not None else None


def _dead_at_head(test, body):
    """variables the body assigns before it reads them and before it can leave the loop"""
    live = {n.id for n in ast.walk(test) if isinstance(n, ast.Name)}
    dead = set()
    for s in body:
        live |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - dead
        live |= {n.target.id for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)} - dead
        if _has([s], (ast.Break, ast.Continue)):
            break
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(e, ast.Name) and e.id not in live:
                        dead.add(e.id)
    return tuple(sorted(dead))


def _attr_stores(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                if not isinstance(n.value, ast.Name):
                    out.add(('?', n.attr))
                else:
                    out.add((n.value.id, n.attr))
    return tuple(sorted(out))


def h_assume(x, want):
    if isinstance(x, A):
        b = x.at() if x.ndim == 0 else None
        if b is None:
            b = scalar(x)
        if not isinstance(b, T.B):
            b = T.ne(b, 0)
    elif isinstance(x, T.B):
        b = x
    else:
        b = T.TRUE if x else T.FALSE
    b = b if want else T.not_(b)
    if b is T.FALSE or prove.entails(P.CTX.pc, T.not_(b)) is True:
        raise P.Infeasible()
    P.assume(b)


def h_and(*fs):
    """short-circuit conjunction, as a condition"""
    for f in fs[:-1]:
        v = f()
        if not v:
            return v
    return fs[-1]()


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators
        if any(x.ifs or x.is_async for x in g):
            return node
        body = node.elt
        for gen in reversed(g):
            if isinstance(gen.target, ast.Name):
                lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=gen.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
            elif isinstance(gen.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in gen.target.elts):
                inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=e.id) for e in gen.target.elts], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
                lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__t')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                 body=ast.Call(func=inner, args=[ast.Starred(value=ast.Name(id='__t', ctx=ast.Load()), ctx=ast.Load())], keywords=[]))
            else:
                return node
            body = ast.Call(func=ast.Name(id='_pvc_lc', ctx=ast.Load()), args=[lam, gen.iter], keywords=[])
        if len(g) > 1:
            # [e for a in x for b in y]: nested lists are not flattened by the hook
            return node
        return ast.copy_location(body, node)

    def visit_Compare(self, node):
        # types in comparisons (type(x) == int, type(x) in (list, tuple)) are the builtin ones
        self.generic_visit(node)

        def f(e):
            if isinstance(e, ast.Name) and e.id in ('int', 'float', 'list', 'tuple'):
                return ast.copy_location(ast.Name(id='_pvc_t_' + e.id, ctx=ast.Load()), e)
            if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
                e.elts = [f(x) for x in e.elts]
            return e
        node.left, node.comparators = f(node.left), [f(x) for x in node.comparators]
        return node

    def visit_GeneratorExp(self, node):
        g = node.generators
        if len(g) == 1 and not g[0].ifs:
            r = self.visit_ListComp(ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node))
            return r
        self.generic_visit(node)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if not node.orelse and not _has(node.body, (ast.Return, ast.Yield, ast.YieldFrom)) and len(node.body) == 1 and isinstance(node.body[0], ast.If) \
                and not ({n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name)} & _targets(node.target)):
            return self.settling(node)
        if node.orelse or _has(node.body, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom)):
            node.iter = ast.Call(func=ast.Name(id='_pvc_conc', ctx=ast.Load()), args=[node.iter], keywords=[])
            return node
        names = sorted((_assigned(node.body) | _appended(node.body)) - _targets(node.target))
        self.n += 1
        L = '_pvc_L%d' % self.n
        V = '_pvc_V%d' % self.n
        src = '''
%(L)s = _pvc_for(None, %(attrs)r)
if %(L)s.native:
    for __x in %(L)s.it:
        pass
else:
    %(V)s = %(L)s.enter(%(names)r, {**locals()})
%(load)s
    for __x in (%(L)s.item(),):
        pass
    %(V)s = %(L)s.leave({**locals()})
%(store)s
''' % dict(L=L, V=V, names=tuple(names), attrs=_attr_stores(node.body),
           load='\n'.join("    if %r in %s: %s = %s[%r]" % (n, V, n, V, n) for n in names) or '    pass',
           store='\n'.join("    if %r in %s: %s = %s[%r]" % (n, V, n, V, n) for n in names) or '    pass')
        mod = ast.parse(src)
        st = mod.body
        st[0].value.args[0] = node.iter
        iff = st[1]
        import copy as _c
        iff.body[0].target = node.target
        iff.body[0].body = node.body
        for s in iff.orelse:
            if isinstance(s, ast.For):
                s.target = _c.deepcopy(node.target)
                s.body = _c.deepcopy(node.body)
        for s in st:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return st


def _settling(self, node):
    """for _ in it: if c: S   (the loop variable is not used): over a symbolic length, the body is repeated
    until an iteration leaves the state as it was - all later ones then do so too"""
    self.n += 1
    L = '_pvc_L%d' % self.n
    st = ast.parse('''
%(L)s = _pvc_for(None)
if %(L)s.native:
    for __x in %(L)s.it:
        pass
else:
    while %(L)s.again({**locals()}):
        pass
''' % dict(L=L)).body
    import copy as _c
    st[0].value.args[0] = node.iter
    st[1].body[0].target, st[1].body[0].body = node.target, node.body
    st[1].orelse[0].body = _c.deepcopy(node.body)
    for s in st:
        ast.copy_location(s, node)
        ast.fix_missing_locations(s)
    return st


Rewriter.settling = _settling


def _while(self, node):
    self.generic_visit(node)
    if node.orelse or _has(node.body, (ast.Return, ast.Yield, ast.YieldFrom)):
        return node
    names = sorted(_assigned(node.body))
    dead, attrs = _dead_at_head(node.test, node.body), _attr_stores(node.body)
    self.n += 1
    L = '_pvc_W%d' % self.n
    V = '_pvc_X%d' % self.n
    src = '''
%(L)s = _pvc_while(%(names)r, %(dead)r, %(attrs)r)
if %(L)s is None:
    while 0:
        pass
else:
    %(L)s.begin({**locals()})
    if 0:
        %(V)s = %(L)s.havoc({**locals()})
%(load)s
        _pvc_assume(0, True)
        for _pvc_once in (0,):
            pass
        else:
            %(L)s.step({**locals()})
            _pvc_assume(0, False)
''' % dict(L=L, V=V, names=tuple(names), dead=dead, attrs=attrs, load='\n'.join("        if %r in %s: %s = %s[%r]" % (n, V, n, V, n) for n in names) or '        pass')
    import copy as _c
    st = ast.parse(src).body
    iff = st[1]
    iff.body[0] = node
    inner = iff.orelse[1]
    inner.test = _c.deepcopy(node.test)
    for q in inner.body:
        if isinstance(q, ast.Expr) and isinstance(q.value, ast.Call) and getattr(q.value.func, 'id', '') == '_pvc_assume':
            q.value.args[0] = _c.deepcopy(node.test)
        if isinstance(q, ast.For):
            q.body = _c.deepcopy(node.body)
            q.orelse[1].value.args[0] = _c.deepcopy(node.test)
    for q in st:
        ast.copy_location(q, node)
        ast.fix_missing_locations(q)
    return st


Rewriter.visit_While = _while


def _has(body, kinds):
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.For, ast.While)):
            ks = tuple(k for k in kinds if k not in (ast.Break, ast.Continue))
            return any(_has([c], ks) for c in ast.iter_child_nodes(n)) if ks else False
        return any(walk(c) for c in ast.iter_child_nodes(n))
    return any(walk(b) for b in body)


def _targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _assigned(body):
    out = set()

    def walk(n):
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            if not n.id.startswith('_pvc'):
                out.add(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for b in body:
        walk(b)
    return out


def _appended(body):
    return {n.func.value.id for b in body for n in ast.walk(b)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and isinstance(n.func.value, ast.Name)}


def h_conc(it):
    if _iter_of(it) is not None:
        raise Unsupported('loop with early exit over a symbolic extent')
    return it


def _copy_model():
    import copy as _c
    return _c


class Loader:
    """a fresh instance of the package, loaded from source"""

    def __init__(self, src=None, models=None):
        self.src = src or SRC
        self.mods = {}
        self.files = {}
        from . import models as MD
        self.models = dict(MD.TABLE)
        if models:
            self.models.update(models)
        self.bi = dict(vars(builtins))
        self.bi.update(range=s_range, len=s_len, int=s_int, float=s_float, round=s_round, sum=s_sum, max=s_max, min=s_min,
                       any=s_any, all=s_all, isinstance=s_isinstance, type=s_type, list=s_list, tuple=s_tuple, enumerate=s_enumerate, zip=s_zip,
                       __import__=self._import, _pvc_lc=h_listcomp, _pvc_t_int=int, _pvc_t_float=float, _pvc_t_list=list, _pvc_t_tuple=tuple, _pvc_for=h_for, _pvc_conc=h_conc, _pvc_while=h_while, _pvc_assume=h_assume,
                       print=lambda *a, **k: None)

    def path_of(self, dotted):
        p = os.path.join(self.src, *dotted.split('.')) if dotted else self.src
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def module(self, dotted):
        """dotted: path inside direpack, e.g. 'preprocessing.robcent'"""
        m = self.mods.get(dotted)
        if m is not None:
            return m
        f = self.path_of(dotted)
        if not os.path.exists(f):
            raise ImportError('no module direpack.%s' % dotted)
        m = types.ModuleType(PKG + ('.' + dotted if dotted else ''))
        m.__file__ = f
        m.__dict__['__builtins__'] = self.bi
        self.mods[dotted] = m
        if f.endswith('__init__.py'):
            # package initialisers only re-export; importing every sibling is not needed
            return m
        src = open(f, encoding='utf-8').read()
        self.files[dotted] = src
        tree = ast.parse(src, f)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, f, 'exec')
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[dotted]
            raise
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level or name == PKG or name.startswith(PKG + '.'):
            if level:
                pk = (globals.get('__name__') or '')
                base = pk.split('.')[1:]           # drop 'direpack'
                base = base[:-level] if level <= len(base) else []
                full = '.'.join(base + ([name] if name else []))
            else:
                full = name[len(PKG) + 1:]
            m = self.module(full)
            if fromlist and os.path.basename(m.__file__ or '') == '__init__.py':
                for q in fromlist:
                    if q != '*' and not hasattr(m, q):
                        sub = self.path_of((full + '.' if full else '') + q)
                        if os.path.exists(sub):
                            setattr(m, q, self.module((full + '.' if full else '') + q))
                        else:
                            v = self._reexport(full, q)
                            if v is not None:
                                setattr(m, q, v)
            return m
        if name == '__future__':
            return importlib.import_module(name)
        if fromlist:
            if name in self.models:
                return self.models[name]
            return importlib.import_module(name)
        root = name.split('.')[0]
        if root in self.models:
            return self.models[root]
        importlib.import_module(name)
        return importlib.import_module(root)

    def _reexport(self, pkg, name):
        f = self.path_of(pkg)
        for st in ast.parse(open(f).read()).body:
            if isinstance(st, ast.ImportFrom) and st.level == 1:
                for al in st.names:
                    if (al.asname or al.name) == name:
                        return getattr(self.module((pkg + '.' if pkg else '') + st.module), al.name)
        return None

    def rebind(self, f, g):
        """replace function object f by g wherever a loaded module binds it"""
        for m in self.mods.values():
            for k, v in list(m.__dict__.items()):
                if v is f:
                    m.__dict__[k] = g
