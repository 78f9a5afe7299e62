"""Terms of the verifier: real/integer polynomials over opaque atoms, with tensor-style
finite sums over symbolic index ranges, order-statistic aggregates, indicators and
if-then-else; and boolean formulas over them.

Everything is hash-consed by a canonical key, so that two terms that are equal modulo the
laws built into the constructors (commutative-ring laws, alpha-equivalence, linearity and
Fubini for finite sums, Kronecker-delta elimination, translation/scale equivariance of the
median and of symmetric trimmed means) are the same object.  What is not built in is left to
the SMT solver (see prove.py)."""
from fractions import Fraction
import hashlib, itertools, math, numbers

F0, F1 = Fraction(0), Fraction(1)
HALF = Fraction(1, 2)


def _k(s):
    return s if len(s) <= 64 else '#' + hashlib.sha1(s.encode()).hexdigest()[:24]


class Atom:
    __slots__ = ('kind', 'a', 'key', 'fv', 'height', 'integral', '_nn', 'base')

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key


_atoms = {}
_polys = {}
_bools = {}
NONNEG_EL = set()      # names of base arrays / variables assumed >= 0 by a contract
POS_EL = set()         # names assumed > 0
SYM_EL = set()         # names of symmetric matrices
_fresh = itertools.count()
CONTRACTIONS = []      # contraction rules for named tensors (orthonormality, inverses)


def reset():
    keep = {k: p for k, p in _polys.items() if p.const is not None}
    _atoms.clear(); _polys.clear(); _bools.clear()
    _polys.update(keep)
    MINDIM.clear()
    NONNEG_EL.clear(); POS_EL.clear(); SYM_EL.clear(); CONTRACTIONS.clear()
    VARDIM.clear()
    OPAQUE.clear(); ASCENDING.clear(); FOLD.clear()
    _subst_cache.clear()


VARDIM = {}            # index variable name -> its range (Poly)


def _atom(kind, a, keystr, fv, height, integral):
    key = _k(keystr)
    x = _atoms.get(key)
    if x is None:
        x = Atom()
        x.kind, x.a, x.key, x.fv, x.height, x.integral, x._nn = kind, a, key, fv, height, integral, None
        x.base = None
        if kind == 'pb' and len(a[0].t) == 1:
            m, c = a[0].t[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                x.base = m[0][0]
        _atoms[key] = x
    return x


EMPTY = frozenset()


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ('t', 'key', 'fv', 'height', '_hash')
    # t: tuple of (mono, coef); mono: tuple of (Atom, Fraction exponent)

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._hash

    def __eq__(self, o):           # structural identity
        return self is o

    # arithmetic (python operators build terms)
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return add(self, neg(lift(o)))
    def __rsub__(self, o): return add(lift(o), neg(self))
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return mul(self, power(lift(o), -1))
    def __rtruediv__(self, o): return mul(lift(o), power(self, -1))
    def __neg__(self): return neg(self)
    def __pow__(self, q): return power(self, q)

    @property
    def const(self):
        if not self.t:
            return F0
        if len(self.t) == 1 and not self.t[0][0]:
            return self.t[0][1]
        return None

    @property
    def integral(self):
        for m, c in self.t:
            if c.denominator != 1:
                return False
            for a, e in m:
                if not a.integral or e.denominator != 1 or e < 0:
                    return False
        return True


def _mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: _monokey(mc[0]))
    keystr = '+'.join('%s*%s' % (c, _monokey(m)) for m, c in items)
    key = _k('P' + keystr)
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t = tuple(items)
        p.key = key
        fv = EMPTY
        h = 0
        for m, c in items:
            for a, e in m:
                if a.fv:
                    fv = fv | a.fv
                if a.height > h:
                    h = a.height
        p.fv = fv
        p.height = h
        p._hash = hash(key)
        _polys[key] = p
    return p


def _monokey(m):
    return '.'.join('%s^%s' % (a.key, e) if e != 1 else a.key for a, e in m)


def num(q):
    if isinstance(q, float):
        if q != q or q in (float('inf'), float('-inf')):
            raise ValueError('non-finite constant')
        q = Fraction(repr(q))
    q = Fraction(q)
    return _mkpoly({(): q})


def lift(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return of_atom(x)
    if isinstance(x, B):
        return ind(x)
    if isinstance(x, bool):
        return num(int(x))
    if isinstance(x, numbers.Integral):
        return num(int(x))
    if isinstance(x, Fraction):
        return num(x)
    if isinstance(x, numbers.Real):
        return num(float(x))
    if hasattr(x, 'item') and getattr(x, 'ndim', 1) == 0:
        return lift(x.item())
    raise TypeError('cannot lift %r' % (x,))


def of_atom(a, e=F1):
    if e == 1:
        return _mkpoly({((a, F1),): F1})
    return _mkpoly({((a, Fraction(e)),): F1})


def add(p, q):
    if not p.t: return q
    if not q.t: return p
    d = dict(p.t)
    for m, c in q.t:
        d[m] = d.get(m, F0) + c
    return _mkpoly(d)


def neg(p):
    return _mkpoly({m: -c for m, c in p.t})


def scale(p, c):
    if c == 1:
        return p
    return _mkpoly({m: c * k for m, k in p.t})


_SPECIAL = ('ind', 'sum')


def _mulmono(m1, m2):
    """product of two monomials: returns list of (atom, exp), re-normalised"""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, F0) + e
    for a, e in m2:
        d[a] = d.get(a, F0) + e
    for a in [a for a in d if a.kind == 'pb' and a.base is not None]:
        if a.base in d and d[a].denominator != 1:       # x^i * root(x)^j = root(x)^(2i+j)
            d[a] += d.pop(a.base)
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind == 'ind' and e > 0:
            e = F1
        out.append((a, e))
    out.sort(key=lambda ae: ae[0].key)
    return tuple(out)


def _needs_unfold(m):
    # pb(P)^e with positive integer e must be expanded
    for a, e in m:
        if a.kind == 'pb' and e.denominator == 1 and e > 0:
            return True
        if a.kind == 'pb' and not 0 < e < 1 and a.a[0].const is not None and a.a[0].const > 0:
            return True
        if a.kind == 'fn' and a.a[0] == 'abs' and e.denominator == 1 and e % 2 == 0:
            return True
    return False


def _fixmono(m, c):
    """monomial -> Poly, unfolding pb powers that became positive integers and |x|^even"""
    if not _needs_unfold(m):
        return _mkpoly({m: c})
    rest = []
    acc = num(c)
    todo = []
    for a, e in m:
        if a.kind == 'pb' and e.denominator == 1 and e > 0:
            todo.append(power(a.a[0], e))
        elif a.kind == 'pb' and not 0 < e < 1 and a.a[0].const is not None and a.a[0].const > 0:
            k = math.floor(e)
            c = c * a.a[0].const ** k
            if e != k:
                rest.append((a, e - k))
        elif a.kind == 'fn' and a.a[0] == 'abs' and e.denominator == 1 and e % 2 == 0:
            todo.append(power(a.a[1][0], e))
        else:
            rest.append((a, e))
    acc = _mkpoly({tuple(rest): c})
    for t in todo:
        acc = mul(acc, t)
    return acc


def _proportional(p, q):
    """c with p == c*q, or None"""
    if len(p.t) != len(q.t) or not p.t:
        return None
    c = None
    for (m1, c1), (m2, c2) in zip(p.t, q.t):
        if m1 != m2:
            return None
        r = c1 / c2
        if c is None:
            c = r
        elif c != r:
            return None
    return c


def mul(p, q):
    cp, cq = p.const, q.const
    if cp is not None:
        return scale(q, cp) if cp else ZERO
    if cq is not None:
        return scale(p, cq) if cq else ZERO
    # cancellation of a sum against its own inverse
    for a_, b_ in ((p, q), (q, p)):
        if len(b_.t) == 1 and len(a_.t) > 1:
            m, c = b_.t[0]
            for i, (at, e) in enumerate(m):
                if at.kind == 'pb' and e < 0:
                    c2, mono_g, prim = _content(a_)
                    r = _proportional(prim, at.a[0])
                    if r is not None:
                        m2 = m[:i] + (((at, e + 1),) if e + 1 != 0 else ()) + m[i + 1:]
                        rest = _fixmono(tuple(m2), c * r * c2)
                        return mul(rest, _mkpoly({mono_g: F1})) if mono_g else rest
    d = {}
    extra = None
    for m1, c1 in p.t:
        for m2, c2 in q.t:
            m = _mulmono(m1, m2)
            c = c1 * c2
            if _needs_unfold(m):
                x = _fixmono(m, c)
                extra = x if extra is None else add(extra, x)
            else:
                d[m] = d.get(m, F0) + c
    r = _mkpoly(d)
    if extra is not None:
        r = add(r, extra)
    return r


def _content(p):
    """p == c * monomial * primitive, the coefficients of primitive being whole numbers without common factor"""
    if len(p.t) <= 1:
        return F1, (), p
    common = dict(p.t[0][0])
    for m, c in p.t[1:]:
        dm = dict(m)
        for a in list(common):
            if a in dm:
                common[a] = min(common[a], dm[a])
            else:
                if common[a] > 0:
                    del common[a]
                else:
                    pass  # negative exponent present in one only: keep min(e,0)
        for a, e in dm.items():
            if e < 0 and a not in common:
                common[a] = e
    # an atom with negative exponent must be in the gcd with its min exponent
    for m, c in p.t:
        for a, e in m:
            if e < 0:
                common[a] = min(common.get(a, e), e)
    g = {a: e for a, e in common.items() if e != 0}
    # only integer exponents are factored
    g = {a: e for a, e in g.items() if e.denominator == 1 and a.kind != 'ind'}
    mono_g = tuple(sorted(g.items(), key=lambda ae: ae[0].key))
    inv = tuple((a, -e) for a, e in mono_g)
    d = {}
    for m, c in p.t:
        mm = _mulmono(m, inv)
        d[mm] = d.get(mm, F0) + c
    prim = _mkpoly(d)
    lead = _numeric_content([c for m, c in prim.t])
    prim2 = scale(prim, 1 / lead)
    return lead, mono_g, prim2


def _numeric_content(cs):
    """signed greatest common divisor of the coefficients; does not depend on their order, except for the sign in rare cases"""
    g = math.gcd(*[c.numerator for c in cs])
    l = math.lcm(*[c.denominator for c in cs])
    s = sum(cs) or sum(c ** 3 for c in cs) or cs[0]
    return Fraction(g if s > 0 else -g, l)


def power(p, q):
    if isinstance(q, Poly):
        if q.const is None:
            return fn('pow', p, q)
        q = q.const
    if isinstance(q, float):
        q = Fraction(repr(q)) if abs(q) < 1e6 else Fraction(q)
        # 2/3, 1/3 and friends arrive as binary floats
        r = q.limit_denominator(12)
        if abs(float(r) - float(q)) < 1e-12:
            q = r
    q = Fraction(q)
    if q == 0:
        return ONE
    if q == 1:
        return p
    c = p.const
    if c is not None:
        if q.denominator == 1:
            if c == 0 and q < 0:
                return of_atom(_atom('pb', (p,), 'pb(%s)' % p.key, EMPTY, 0, False), q)
            return num(c ** int(q))
        if c == 0 or c == 1:
            return num(c)
        if c > 0:
            return _constpow(c, q)
        return of_atom(_atom('pb', (p,), 'pb(%s)' % p.key, EMPTY, 0, False), q)
    if q.denominator == 1:
        if len(p.t) == 1:
            m, c = p.t[0]
            if q < 0 and any(a.kind == 'ind' for a, e in m):
                return of_atom(_pb(p), q)
            r = tuple((a, e * q) for a, e in m)
            return _fixmono(r, c ** int(q))
        if q > 0:
            r = p
            for _ in range(int(q) - 1):
                r = mul(r, p)
            return r
        c, mono_g, prim = _content(p)
        out = _fixmono(tuple((a, e * q) for a, e in mono_g), c ** int(q))
        if len(prim.t) == 1:
            return mul(out, power(prim, q))
        return mul(out, of_atom(_pb(prim), q))
    # fractional power
    return _fracpow(p, q)


def _constpow(c, q):
    """c^q for a positive rational c; square roots as a rational number times the roots of primes"""
    r = _rational_root(c, q.denominator)
    if r is not None:
        return num(r ** q.numerator)
    if q.denominator != 2 or c.numerator * c.denominator > 10 ** 9:
        p = num(c)
        return of_atom(_atom('pb', (p,), 'pb(%s)' % p.key, EMPTY, 0, False), q)
    k = q.numerator
    n, co, m = c.numerator * c.denominator, Fraction(1, c.denominator), []
    f = 2
    while f * f <= n:
        while n % (f * f) == 0:
            n //= f * f
            co *= f
        if n % f == 0:
            n //= f
            m.append(f)
        f += 1
    if n > 1: m.append(n)
    co = co ** k
    for f in m:
        co *= Fraction(f) ** ((k - 1) // 2)
    mono = sorted(((_pb(num(f)), HALF) for f in m), key=lambda ae: ae[0].key)
    return _mkpoly({tuple(mono): co})


def _pb(p):
    return _atom('pb', (p,), 'pb(%s)' % p.key, p.fv, p.height, False)


def _rational_root(c, d):
    def iroot(n):
        r = round(n ** (1.0 / d))
        for x in (r - 1, r, r + 1):
            if x >= 0 and x ** d == n:
                return x
        return None
    a, b = iroot(c.numerator), iroot(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b)


def _square_root(p):
    """r with r*r == p, for p the expanded square of a sum of two or three terms"""
    k = 2 if len(p.t) == 3 else 3
    sq_ = [(m, c) for m, c in p.t if c > 0 and all((e / 2).denominator == 1 for a, e in m)]
    for cand in itertools.combinations(sq_, k):
        c0 = cand[0][1]
        rs = []
        for m, c in cand:
            w = _rational_root(c / c0, 2)
            if w is None:
                break
            rs.append(_fixmono(tuple((a, e / 2) for a, e in m), w))
        if len(rs) != k:
            continue
        for sg in itertools.product((1, -1), repeat=k - 1):
            r = rs[0]
            for s, x in zip(sg, rs[1:]):
                r = add(r, x if s > 0 else neg(x))
            if mul(num(c0), mul(r, r)) is p:
                return mul(r, power(num(c0), HALF))
    return None


def _fracpow(p, q):
    """p^q, q not an integer; p is taken to be >= 0 (definedness of the real root)"""
    if q.denominator == 2 and len(p.t) in (3, 6):
        r = _square_root(p)
        if r is not None:
            return power(fn('abs', r), q * 2)
    c, mono_g, prim = _content(p) if len(p.t) > 1 else (p.t[0][1], p.t[0][0], ONE)
    if c < 0:
        if len(p.t) > 1:
            prim = neg(prim); c = -c
        else:
            return of_atom(_pb(p), q)
    out = ONE
    rest = []
    for a, e in mono_g:
        if nonneg_atom(a) or (e.denominator != 1):
            # a >= 0: (a^e)^q = a^(eq)
            if a.kind == 'pb' or (e * q).denominator == 1:
                out = mul(out, of_atom(a, e * q))
            else:
                out = mul(out, of_atom(_pb(of_atom(a)), e * q))
        elif e.denominator == 1 and e % 2 == 0:
            b = fn('abs', of_atom(a))
            eq = e * q
            if eq.denominator == 1:
                out = mul(out, power(b, eq))
            else:
                out = mul(out, of_atom(_pb(b), eq))
        else:
            rest.append((a, e))
    base = _mkpoly({tuple(rest): F1})
    if prim is not ONE:
        if rest:
            base = mul(base, prim)
        else:
            base = prim
    base_c = base.const
    if c != 1:
        out = mul(out, _constpow(c, q))
    if base_c is not None:
        if base_c != 1:
            raise AssertionError
        return out
    if len(base.t) == 1 and len(base.t[0][0]) == 1 and base.t[0][0][0][1] == 1 and base.t[0][0][0][0].kind == 'pb':
        return mul(out, of_atom(base.t[0][0][0][0], q))
    return mul(out, of_atom(_pb(base), q))


def sqrt(p):
    return power(lift(p), HALF)


# ------------------------------------------------------------------ sign analysis (syntactic)
def nonneg_atom(a):
    if a._nn is not None:
        return a._nn
    k = a.kind
    r = False
    if k == 'ind':
        r = True
    elif k == 'var':
        r = a.a[0] in NONNEG_EL or a.a[0] in POS_EL or (a.a[1] == 'I' and a.a[0] in VARDIM)
    elif k == 'el':
        r = a.a[0] in NONNEG_EL or a.a[0] in POS_EL
    elif k == 'fn':
        n = a.a[0]
        if n in ('abs', 'exp', 'normcdf'):
            r = True
        elif n in ('max2',):
            r = any(nonneg(x) for x in a.a[1])
        elif n in ('min2',):
            r = all(nonneg(x) for x in a.a[1])
        elif n in ('floor', 'ceil', 'round'):
            r = nonneg(a.a[1][0])
        elif n == 'tanh':
            r = nonneg(a.a[1][0])
    elif k == 'sum':
        r = _nonneg_mono(a.a[2])
    elif k == 'agg':
        r = nonneg(a.a[4])
    elif k == 'ite':
        r = nonneg(a.a[1]) and nonneg(a.a[2])
    elif k == 'pb':
        r = nonneg(a.a[0])
    a._nn = r
    return r


def _nonneg_mono(m):
    negs = 0
    for a, e in m:
        if e.denominator == 1 and e % 2 == 0:
            continue
        if e.denominator % 2 == 0:
            continue
        if nonneg_atom(a):
            continue
        return False
    return True


def nonneg(p):
    return all(c >= 0 and _nonneg_mono(m) for m, c in p.t)


def pos(p):
    """syntactically strictly positive"""
    return bool(p.t) and all(c > 0 and all(pos_atom(a) for a, e in m) for m, c in p.t)


def pos_atom(a):
    if a.kind in ('var', 'el'):
        return a.a[0] in POS_EL
    if a.kind == 'fn' and a.a[0] == 'exp':
        return True
    if a.kind == 'pb':
        return pos(a.a[0])
    return False


# ------------------------------------------------------------------ atoms
def var(name, sort='R', dim=None, pos_=False, nn=False):
    if dim is not None:
        VARDIM[name] = lift(dim)
    if pos_:
        POS_EL.add(name)
    if nn:
        NONNEG_EL.add(name)
    return of_atom(_atom('var', (name, sort), 'v:%s:%s' % (name, sort), frozenset((name,)), 0, sort == 'I'))


def fresh_index(dim, hint='i'):
    name = '%s~%d' % (hint, next(_fresh))
    return var(name, 'I', dim)


def fresh_name(hint='t'):
    return '%s~%d' % (hint, next(_fresh))


def vname(p):
    (m, c), = p.t
    (a, e), = m
    assert a.kind == 'var' and c == 1 and e == 1
    return a.a[0]


def is_var(p):
    return len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1 and p.t[0][0][0][0].kind == 'var'


def el(name, idx, sort='R'):
    idx = tuple(lift(i) for i in idx)
    if name in SYM_EL and len(idx) == 2 and idx[1].key < idx[0].key:
        idx = (idx[1], idx[0])
    fv = EMPTY
    h = 0
    for i in idx:
        fv |= i.fv
        h = max(h, i.height)
    return of_atom(_atom('el', (name, idx, sort), 'e:%s[%s]' % (name, ','.join(i.key for i in idx)), fv, h, sort == 'I'))


def fn(name, *args):
    args = tuple(lift(a) for a in args)
    c = [a.const for a in args]
    a0 = args[0]
    if name == 'abs':
        if c[0] is not None:
            return num(abs(c[0]))
        if nonneg(a0):
            return a0
        if nonneg(neg(a0)):
            return neg(a0)
        if len(a0.t) == 1:
            m, k = a0.t[0]
            out = num(abs(k))
            rest = []
            for a, e in m:
                if nonneg_atom(a) or (e.denominator == 1 and e % 2 == 0) or e.denominator % 2 == 0:
                    out = mul(out, of_atom(a, e))
                elif e.denominator == 1:
                    out = mul(out, of_atom(_absatom(of_atom(a)), e))
                else:
                    rest.append((a, e))
            if rest:
                out = mul(out, of_atom(_absatom(_mkpoly({tuple(rest): F1}))))
            return out
        # canonical sign
        k, g, prim = _content(a0)
        out = fn('abs', _mkpoly({g: k})) if g or k != 1 else ONE
        return mul(out, of_atom(_absatom(prim)))
    if name in ('floor', 'ceil', 'round') and c[0] is not None:
        import math
        return num({'floor': math.floor, 'ceil': math.ceil, 'round': round}[name](c[0]))
    if name in ('floor', 'ceil', 'round', 'trunc') and a0.integral:
        return a0
    if name == 'trunc':
        if c[0] is not None:
            return num(int(c[0]))
        if nonneg(a0):
            return fn('floor', a0)
    if name == 'sign' and c[0] is not None:
        return num((c[0] > 0) - (c[0] < 0))
    if name in ('max2', 'min2'):
        if c[0] is not None and c[1] is not None:
            return num((max if name == 'max2' else min)(c[0], c[1]))
        if args[0] is args[1]:
            return args[0]
        args = tuple(sorted(args, key=lambda p: p.key))
    if name in FOLD and c[0] is not None:
        return fold(name, c[0])
    if name in ('sin', 'tanh', 'arcsin') and c[0] == 0:
        return ZERO
    if name in ('cos', 'exp') and c[0] == 0:
        return ONE
    if name in ('tanh', 'sin', 'arcsin', 'sign', 'erf') and len(a0.t) >= 1 and a0.t[0][1] < 0:
        return neg(fn(name, neg(a0)))
    if name == 'cos' and a0.t and a0.t[0][1] < 0:
        return fn(name, neg(a0))
    fv = EMPTY
    h = 0
    for x in args:
        fv |= x.fv
        h = max(h, x.height)
    integral = name in ('floor', 'ceil', 'round', 'trunc', 'sign', 'mod', 'idiv') or \
        (name in ('abs', 'max2', 'min2') and all(x.integral for x in args))
    return of_atom(_atom('fn', (name, args), 'f:%s(%s)' % (name, ','.join(x.key for x in args)), fv, h, integral))


def fold(name, x):
    import math
    return num(Fraction(round({'cos': math.cos, 'sin': math.sin, 'arcsin': math.asin, 'arccos': math.acos}[name](float(x)) * 10**9), 10**9))


def _absatom(p):
    return _atom('fn', ('abs', (p,)), 'f:abs(%s)' % p.key, p.fv, p.height, p.integral)


def ind(b):
    if b is TRUE: return ONE
    if b is FALSE: return ZERO
    if b.kind == 'not':
        return add(ONE, neg(ind(b.a[0])))
    if b.kind == 'or' and len(b.a) <= 3:
        r = ONE
        for x in b.a:
            r = mul(r, add(ONE, neg(ind(x))))
        return add(ONE, neg(r))
    if b.kind == 'and' and all(x.kind == 'bel' or (x.kind == 'not' and x.a[0].kind == 'bel') for x in b.a):
        r = ONE
        for x in b.a:
            r = mul(r, ind(x))
        return r
    return of_atom(_atom('ind', (b,), 'I{%s}' % b.key, b.fv, b.height, True))


def ite(c, a, b):
    a, b = lift(a), lift(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.kind == 'not':
        return ite(c.a[0], b, a)
    if c.kind == 'cmp' and c.a[0] == '<':
        c, a, b = not_(c), b, a          # one orientation
        if c.kind == 'not':
            c, a, b = c.a[0], b, a
    # Ite(x==y, x, y) and friends: keep
    # nested same-condition
    a = _assume(a, c, True)
    b = _assume(b, c, False)
    if a is b: return a
    if c.kind == 'ex' and c.a[2].kind == 'bel':
        # where no element has the mark, a and b may be the same
        z = Mapper(_unmarked(c))
        b = z.poly(b)
        if z.poly(a) is b: return a
    ca, cb = a.const, b.const
    if ca == 1 and cb == 0: return ind(c)
    if ca == 0 and cb == 1: return add(ONE, neg(ind(c)))
    if 'ite' in FOLD and (ca == 0 or cb == 0):
        return mul(ind(c), a) if cb == 0 else mul(ind(not_(c)), b)
    fv = c.fv | a.fv | b.fv
    h = max(c.height, a.height, b.height)
    return of_atom(_atom('ite', (c, a, b), 'ite(%s;%s;%s)' % (c.key, a.key, b.key), fv, h, a.integral and b.integral))


def _unmarked(c):
    """given that no index has the mark, the mark is false at every instance"""
    dim, nme, body = c.a

    def f(q):
        if q.kind != 'bel' or q.a[0] != body.a[0] or len(q.a[1]) != len(body.a[1]):
            return None
        for x, y in zip(q.a[1], body.a[1]):
            if x is y: continue
            if not (is_var(y) and vname(y) == nme and is_var(x) and VARDIM.get(vname(x)) is dim): return None
        return FALSE
    return f


def _assume(p, c, val):
    """simplify p knowing c (shallow: top-level atoms only)"""
    hit = False
    for m, k in p.t:
        for at, e in m:
            if (at.kind == 'ite' and at.a[0] is c) or (at.kind == 'ind' and at.a[0] is c):
                hit = True
    if not hit:
        return p
    acc = ZERO
    for m, k in p.t:
        t = num(k)
        for at, e in m:
            if at.kind == 'ite' and at.a[0] is c:
                t = mul(t, power(at.a[1] if val else at.a[2], e))
            elif at.kind == 'ind' and at.a[0] is c:
                t = mul(t, ONE if val else (ZERO if e > 0 else of_atom(at, e)))
            else:
                t = mul(t, of_atom(at, e))
        acc = add(acc, t)
    return acc


# ------------------------------------------------------------------ sums
def mk_sum(v, dim, body, guard=None):
    """sum over v in [0,dim) of body (where guard)"""
    dim = lift(dim)
    if guard is not None and guard is not TRUE:
        body = mul(body, ind(guard))
    dc = dim.const
    return sumn(((vname(v), dim),), body)


EXPAND_LIMIT = 12


def sumn(binders, poly):
    acc = ZERO
    for m, c in poly.t:
        acc = add(acc, scale(_sum_mono(list(binders), m), c))
    return acc


def _opened(atom):
    dims, names, mono = atom.a
    ren = {}
    bs = []
    for d, nme in zip(dims, names):
        f = fresh_index(d, 'b')
        ren[nme] = f
        bs.append((vname(f), d))
    # dims may not depend on bound names (kept rectangular)
    body = subst_mono(mono, ren)
    return bs, body


def _sum_mono(binders, m):
    """sum over binders of monomial m -> Poly"""
    bnames = {b[0] for b in binders}
    # flatten nested sums that depend on a binder
    for i, (a, e) in enumerate(m):
        if a.kind == 'sum' and e > 0 and e.denominator == 1 and (a.fv & bnames):
            rest = m[:i] + m[i + 1:]
            bs = []
            body = _mkpoly({rest: F1})
            for _ in range(int(e)):
                b2, bd = _opened(a)
                bs += b2
                body = mul(body, bd)
            return sumn(tuple(binders + bs), body)
    # conjunction indicators are split so that deltas are visible
    for i, (a, e) in enumerate(m):
        if a.kind == 'ind' and e > 0 and a.a[0].kind == 'and' and (a.fv & bnames):
            body = _mkpoly({m[:i] + m[i + 1:]: F1})
            for x in a.a[0].a:
                body = mul(body, ind(x))
            return sumn(tuple(binders), body)
    # delta elimination
    for i, (a, e) in enumerate(m):
        if a.kind == 'ind' and e > 0 and a.a[0].kind == 'cmp' and a.a[0].a[0] == '==':
            r = _solve_delta(a.a[0].a[1], binders)
            if r is not None:
                nme, expr = r
                rest = m[:i] + m[i + 1:]
                nb = [b for b in binders if b[0] != nme]
                body = subst(_mkpoly({rest: F1}), {nme: expr})
                if DELTA:
                    body = mul(body, ind(and_(le(ZERO, expr), lt(expr, dict(binders)[nme]))))
                return sumn(tuple(nb), body) if nb else body
    # contraction rules
    for rule in CONTRACTIONS:
        r = rule(binders, m)
        if r is not None:
            nb, body = r
            return sumn(tuple(nb), body) if nb else body
    # split factors
    free = [(a, e) for a, e in m if not (a.fv & bnames)]
    dep = [(a, e) for a, e in m if (a.fv & bnames)]
    out = _mkpoly({tuple(free): F1})
    # connected components
    comps = []
    left = list(dep)
    seen = set()
    for b, d in binders:
        if b in seen:
            continue
        comp_b = {b}
        fs = []
        changed = True
        while changed:
            changed = False
            for f in left:
                if f not in fs and (f[0].fv & comp_b):
                    fs.append(f)
                    nb = (f[0].fv & bnames) - comp_b
                    if nb:
                        comp_b |= nb
                    changed = True
        seen |= comp_b
        bs = [x for x in binders if x[0] in comp_b]
        if not fs:
            out = mul(out, bs[0][1])       # sum of 1 over the range
            continue
        out = mul(out, _canon_sum(bs, fs))
    return out


def _solve_delta(p, binders):
    """p == 0 solved for a binder with the same range: (name, expr) or None"""
    names = {b[0]: b[1] for b in binders}
    if DELTA:
        for m, c in p.t:
            if len(m) == 1 and m[0][0].kind == 'var' and m[0][1] == 1 and m[0][0].a[0] in names and c in (1, -1):
                nme = m[0][0].a[0]
                expr = scale(add(p, neg(scale(of_atom(m[0][0]), c))), -c)
                if nme not in expr.fv and expr.integral:
                    return nme, expr
        return None
    if len(p.t) > 2:
        return None
    lin = []
    for m, c in p.t:
        if len(m) == 1 and m[0][0].kind == 'var' and m[0][1] == 1:
            lin.append((m[0][0].a[0], c))
        elif m == ():
            lin.append((None, c))
        else:
            return None
    for nme, c in lin:
        if nme in names:
            others = [(n2, c2) for n2, c2 in lin if n2 != nme]
            if not others:
                expr = ZERO
            else:
                n2, c2 = others[0]
                if n2 is None:
                    expr = num(-c2 / c)
                else:
                    if -c2 / c != 1:
                        continue
                    expr = var(n2, 'I')
            # range must be known to contain expr
            if expr.const is not None:
                dc = names[nme].const
                if expr.const == 0 or (dc is not None and 0 <= expr.const < dc) or \
                        (expr.const.denominator == 1 and 0 <= expr.const and names[nme].key in MINDIM and expr.const < MINDIM[names[nme].key]):
                    return nme, expr
                if dc is not None:
                    return None
                continue
            d2 = VARDIM.get(vname(expr))
            if d2 is not None and d2 is names[nme]:
                return nme, expr
    return None


DELTA = []      # nonempty: a delta is eliminated whatever its value, with the range as an indicator
MINDIM = {}    # dim key -> known lower bound (contract preconditions)


def _canon_sum(bs, fs):
    h = max(a.height for a, e in fs) + 1
    n = len(bs)
    best = None
    groups = {}
    names = ['$%d.%d' % (h, i) for i in range(n)]
    base = sorted(bs, key=lambda b: (b[1].key, _binder_sig(b[0], fs)))
    # permute only within equal signatures
    sigs = [(b[1].key, _binder_sig(b[0], fs)) for b in base]
    blocks = []
    for b, s in zip(base, sigs):
        if blocks and blocks[-1][0] == s:
            blocks[-1][1].append(b)
        else:
            blocks.append((s, [b]))
    tot = 1
    for s, bl in blocks:
        for k in range(2, len(bl) + 1):
            tot *= k
    perms = itertools.product(*[itertools.permutations(bl) for s, bl in blocks]) if tot <= 720 else [[bl for s, bl in blocks]]
    for pr in perms:
        order = [b for bl in pr for b in bl]
        ren = {}
        for nme, b in zip(names, order):
            VARDIM[nme + '|' + b[1].key] = b[1]
            ren[b[0]] = var(nme + '|' + b[1].key, 'I')
        body = subst_mono(tuple(fs), ren)
        if len(body.t) != 1 or body.t[0][1] != 1 :
            # substitution changed the shape (should not): sum it generically
            if best is None:
                best = (None, order, body)
            continue
        m = body.t[0][0]
        k = _monokey(m)
        if best is None or best[0] is None or k < best[0]:
            best = (k, order, m)
    k, order, m = best
    dims = tuple(b[1] for b in order)
    nms = tuple('$%d.%d|%s' % (h, i, order[i][1].key) for i in range(n))
    if k is None:
        raise AssertionError('sum canonicalisation')
    fv = EMPTY
    for a, e in m:
        fv |= a.fv
    for d in dims:
        fv |= d.fv
    fv = fv - frozenset(nms)
    integral = all(a.integral and e.denominator == 1 and e > 0 for a, e in m)
    return of_atom(_atom('sum', (dims, nms, m), 'S(%s){%s}' % (','.join(d.key for d in dims), k), fv, h, integral))


def _binder_sig(b, fs):
    """renaming-invariant signature of a binder inside the factors"""
    s = []
    for a, e in fs:
        if b in a.fv:
            s.append((a.kind, str(a.a[0]) if a.kind == 'el' else '', str(e)))
    s.sort()
    return repr(s)


def mk_prod(v, dim, body):
    """product over v"""
    return mk_agg('prod', v, dim, TRUE, body)


# ------------------------------------------------------------------ aggregates
EQUIV_SIGNED = {'median', 'trimmean'}     # agg(c*x) = c*agg(x) for every real c, agg(x+c)=agg(x)+c
EQUIV_POS = {'sorted', 'max', 'min'}


def mk_agg(kind, v, dim, guard, body, params=()):
    return mk_aggn(kind, (v,), (dim,), guard, body, params)


def mk_agg2(kind, vs, dims, guard, body, params=()):
    return mk_aggn(kind, tuple(vs), tuple(dims), guard, body, params)


def mk_aggn(kind, vs, dims, guard, body, params=()):
    dims, body = tuple(lift(d) for d in dims), lift(body)
    params = tuple(lift(p) for p in params)
    vns = frozenset(vname(v) for v in vs)
    if kind in EQUIV_SIGNED or kind in EQUIV_POS:
        indep = ZERO
        dep = ZERO
        for m, c in body.t:
            t = _mkpoly({m: c})
            if vns & t.fv:
                dep = add(dep, t)
            else:
                indep = add(indep, t)
        if not dep.t:
            return indep
        # common factor
        if len(dep.t) == 1:
            m, c = dep.t[0]
            g = tuple((a, e) for a, e in m if not (vns & a.fv))
            if kind in EQUIV_POS:
                g = tuple((a, e) for a, e in g if nonneg_atom(a))
            fac = _mkpoly({g: (c if kind in EQUIV_SIGNED else abs(c))})
            core = _mkpoly({tuple(x for x in m if x not in g): F1 if kind in EQUIV_SIGNED else (F1 if c > 0 else -F1)})
        else:
            c, g0, prim = _content(dep)
            g = tuple((a, e) for a, e in g0 if not (vns & a.fv))
            if kind in EQUIV_POS:
                g = tuple((a, e) for a, e in g if nonneg_atom(a))
            rest = tuple(x for x in g0 if x not in g)
            core = mul(_mkpoly({rest: F1}), prim)
            if kind in EQUIV_POS and c < 0:
                core = neg(core)
                c = -c
            fac = _mkpoly({g: c})
        if fac is not ONE or indep.t:
            return add(indep, mul(fac, mk_aggn(kind, vs, dims, guard, core, params)))
    h = max(body.height, guard.height) + 1
    names = tuple('$%d.a%d|%s' % (h, i, d.key) for i, d in enumerate(dims))
    r = {}
    for v, nme, d in zip(vs, names, dims):
        VARDIM[nme] = d
        r[vname(v)] = var(nme, 'I')
    body2 = subst(body, r)
    guard2 = substb(guard, r)
    k = F1
    if (kind in EQUIV_SIGNED or kind in EQUIV_POS) and body2.t:
        # the leading coefficient depends on the names of the bound variables
        k = body2.t[0][1] if kind in EQUIV_SIGNED else abs(body2.t[0][1])
        body2 = scale(body2, 1 / k)
    fv = body2.fv | guard2.fv
    for d in dims:
        fv = fv | d.fv
    fv = fv - frozenset(names)
    for p in params:
        fv |= p.fv
        h = max(h, p.height)
    key = 'A:%s(%s|%s|%s|%s)' % (kind, ','.join(d.key for d in dims), guard2.key, body2.key, ','.join(p.key for p in params))
    integral = body2.integral and kind in ('sorted', 'max', 'min', 'prod')
    return scale(of_atom(_atom('agg', (kind, dims, names, guard2, body2, params), key, fv, h, integral)), k)


# ------------------------------------------------------------------ booleans
class B:
    __slots__ = ('kind', 'a', 'key', 'fv', 'height')

    def __repr__(self):
        return showb(self)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o

    def __and__(self, o): return and_(self, liftb(o))
    def __rand__(self, o): return and_(liftb(o), self)
    def __or__(self, o): return or_(self, liftb(o))
    def __ror__(self, o): return or_(liftb(o), self)
    def __invert__(self): return not_(self)


def _b(kind, a, keystr, fv, height):
    key = _k(keystr)
    x = _bools.get(key)
    if x is None:
        x = B()
        x.kind, x.a, x.key, x.fv, x.height = kind, a, key, fv, height
        _bools[key] = x
    return x


TRUE = B(); TRUE.kind, TRUE.a, TRUE.key, TRUE.fv, TRUE.height = 'true', (), 'T', EMPTY, 0
FALSE = B(); FALSE.kind, FALSE.a, FALSE.key, FALSE.fv, FALSE.height = 'false', (), 'F', EMPTY, 0


def liftb(x):
    if isinstance(x, B):
        return x
    if isinstance(x, Poly):
        return ne(x, ZERO)
    return TRUE if bool(x) else FALSE


def _ind_cmp(op, p):
    """comparison of a polynomial in indicators only: Shannon expansion into a formula over their conditions"""
    ats = []
    for m, c in p.t:
        for a, e in m:
            if a.kind != 'ind' or e != 1:
                return None
            if a not in ats:
                ats.append(a)
                if len(ats) > 3:
                    return None
    if any(a.a[0].kind not in ('bel', 'bvar') for a in ats):
        return None

    def go(val, rest):
        if not rest:
            x = F0
            for m, c in p.t:
                if all(val[a] for a, e in m):
                    x += c
            return TRUE if {'<': x < 0, '<=': x <= 0, '==': x == 0}[op] else FALSE
        a = rest[0]
        t, f = go({**val, a: True}, rest[1:]), go({**val, a: False}, rest[1:])
        if t is f:
            return t
        b = a.a[0]
        if t is TRUE: return or_(b, f) if f is not FALSE else b
        if t is FALSE: return and_(not_(b), f) if f is not TRUE else not_(b)
        if f is TRUE: return or_(not_(b), t)
        if f is FALSE: return and_(b, t)
        return or_(and_(b, t), and_(not_(b), f))
    return go({}, ats)


OPAQUE = {}            # name of a library result -> function(evaluation environment) giving the array
FOLD = set()           # cos, sin, ..: of numeric constants are evaluated, to 9 decimals; ite: conditionals with a zero branch become products
ASCENDING = set()      # names of vectors in non-decreasing order (eigenvalues)


def _cmp(op, p):
    c = p.const
    if c is not None:
        return TRUE if {'<': c < 0, '<=': c <= 0, '==': c == 0}[op] else FALSE
    r = _ind_cmp(op, p)
    if r is not None:
        return r
    # normalise by positive content / sign for ==
    com = [(a, e) for a, e in p.t[0][0] if a.kind == 'pb' and a.a[0].const is not None and a.a[0].const > 0
           and all((a, e) in m for m, _ in p.t)]
    if com:
        p = _mkpoly({tuple(x for x in m if x not in com): k for m, k in p.t})
        return _cmp(op, p)
    if op == '==' and len(p.t) > 1:
        # (P/P) == 0 never holds: what is divided by is not zero
        for a, e in p.t[0][0]:
            if a.kind == 'pb' and e < 0 and e.denominator == 1 and len(a.a[0].t) == len(p.t) and all((a, e) in m for m, _ in p.t):
                rest = _mkpoly({tuple(x for x in m if x != (a, e)): k for m, k in p.t})
                if _proportional(rest, a.a[0]) is not None: return FALSE
    lead = p.t[0][1]
    if op == '==':
        p = scale(p, 1 / lead)
        if len(p.t) == 1 and len(p.t[0][0]) == 1:
            a = p.t[0][0][0][0]
            if a.kind == 'fn' and a.a[0] == 'abs' and p.t[0][0][0][1] == 1:
                return _cmp('==', a.a[1][0])
    else:
        p = scale(p, 1 / abs(lead))
        # syntactic signs
        if op == '<=' and nonneg(neg(p)):
            return TRUE
        if op == '<' and nonneg(p):
            return FALSE
        if op == '<' and pos(neg(p)):
            return TRUE
        if op == '<=' and pos(p):
            return FALSE
    if op == '==' and (pos(p) or pos(neg(p))):
        return FALSE
    return _b('cmp', (op, p), '%s0 %s' % (op, p.key), p.fv, p.height)


def clear_denominators(p, rounds=8, limit=6000):
    """p times the (non-zero, by definedness) sums it is divided by"""
    for _ in range(rounds):
        den = {}
        for m, c in p.t:
            for a, e in m:
                if a.kind == 'pb' and e < 0 and len(a.a[0].t) > 1:
                    k = -e if e.denominator == 1 else -e + HALF
                    den[a] = max(den.get(a, F0), k)
        if not den or p is ZERO:
            return p
        a = max(den, key=lambda a: (len(a.a[0].t), a.key))
        k = den[a]
        if len(p.t) * len(a.a[0].t) ** int(k) > limit:
            return None
        full = power(a.a[0], k)
        pw = {F0: full}
        r = ZERO
        for m, c in p.t:
            e = dict(m).get(a, F0)
            if e not in pw:
                pw[e] = power(a.a[0], e + k) if (e + k).denominator == 1 else of_atom(a, e + k)
            r = add(r, mul(_mkpoly({tuple(x for x in m if x[0] is not a): c}), pw[e]))
        p = r
    return p


def lt(a, b): return _cmp('<', lift(a) - lift(b))
def le(a, b): return _cmp('<=', lift(a) - lift(b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b): return _cmp('==', lift(a) - lift(b))
def ne(a, b): return not_(eq(a, b))


def not_(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b.kind == 'not': return b.a[0]
    if b.kind == 'cmp':
        op, p = b.a
        if op == '<': return _cmp('<=', neg(p))
        if op == '<=': return _cmp('<', neg(p))
    return _b('not', (b,), '!(%s)' % b.key, b.fv, b.height)


def and_(*bs):
    return _nary('and', bs, TRUE, FALSE)


def or_(*bs):
    return _nary('or', bs, FALSE, TRUE)


def _nary(kind, bs, unit, zero):
    out = {}
    for b in bs:
        b = liftb(b)
        if b is unit: continue
        if b is zero: return zero
        if b.kind == kind:
            for x in b.a:
                out[x.key] = x
        else:
            out[b.key] = b
    for k, x in out.items():
        n = not_(x)
        if n.key in out:
            return zero
    if not out:
        return unit
    xs = [out[k] for k in sorted(out)]
    if len(xs) == 1:
        return xs[0]
    fv = EMPTY
    h = 0
    for x in xs:
        fv |= x.fv
        h = max(h, x.height)
    return _b(kind, tuple(xs), '%s(%s)' % (kind, ','.join(x.key for x in xs)), fv, h)


def implies(a, b): return or_(not_(liftb(a)), liftb(b))
def iff(a, b):
    a, b = liftb(a), liftb(b)
    return and_(implies(a, b), implies(b, a))


def bvar(name):
    return _b('bvar', (name,), 'bv:' + name, frozenset((name,)), 0)


def bel(name, idx):
    idx = tuple(lift(i) for i in idx)
    fv = EMPTY
    h = 0
    for i in idx:
        fv |= i.fv
        h = max(h, i.height)
    return _b('bel', (name, idx), 'be:%s[%s]' % (name, ','.join(i.key for i in idx)), fv, h)


def exists(v, dim, body):
    dim = lift(dim)
    vn = vname(v)
    if body is TRUE:
        return gt(dim, 0)
    if body is FALSE:
        return FALSE
    if vn not in body.fv:
        return and_(body, gt(dim, 0))
    if dim.const is not None and dim.const <= EXPAND_LIMIT:
        return or_(*[substb(body, {vn: num(i)}) for i in range(int(dim.const))])
    h = body.height + 1
    nme = '$%d.x|%s' % (h, dim.key)
    VARDIM[nme] = dim
    b2 = substb(body, {vn: var(nme, 'I')})
    fv = (b2.fv | dim.fv) - {nme}
    return _b('ex', (dim, nme, b2), 'EX(%s|%s)' % (dim.key, b2.key), fv, h)


def forall(v, dim, body):
    return not_(exists(v, dim, not_(body)))


# ------------------------------------------------------------------ substitution
_subst_cache = {}


def subst(p, s):
    s = {k: v for k, v in s.items() if k in p.fv}
    if not s:
        return p
    ck = (p, tuple(sorted((k, v.key) for k, v in s.items())))
    r = _subst_cache.get(ck)
    if r is None:
        r = ZERO
        for m, c in p.t:
            r = add(r, scale(subst_mono(m, s), c))
        _subst_cache[ck] = r
    return r


def subst_mono(m, s):
    names = set(s)
    keep = []
    t = ONE
    for a, e in m:
        if a.fv & names:
            t = mul(t, _pow_atom(subst_atom(a, s), e))
        else:
            keep.append((a, e))
    if keep:
        t = mul(_mkpoly({tuple(keep): F1}), t)
    return t


def _pow_atom(p, e):
    return p if e == 1 else power(p, e)


def subst_atom(a, s):
    k = a.kind
    if k == 'var':
        return s.get(a.a[0]) if a.a[0] in s else of_atom(a)
    if k == 'el':
        return el(a.a[0], tuple(subst(i, s) for i in a.a[1]), a.a[2])
    if k == 'fn':
        if a.a[0] == 'abs':
            return fn('abs', subst(a.a[1][0], s))
        return fn(a.a[0], *[subst(x, s) for x in a.a[1]])
    if k == 'ind':
        return ind(substb(a.a[0], s))
    if k == 'ite':
        return ite(substb(a.a[0], s), subst(a.a[1], s), subst(a.a[2], s))
    if k == 'pb':
        return subst(a.a[0], s)       # caller applies the exponent through power()
    if k == 'sum':
        dims, names, mono = a.a
        bs = []
        ren = {}
        for d, nme in zip(dims, names):
            d2 = subst(d, s)
            f = fresh_index(d2, 'b')
            ren[nme] = f
            bs.append((vname(f), d2))
        body = subst(subst_mono(mono, ren), s)
        return sumn(tuple(bs), body)
    if k == 'agg':
        kind, dims, names, guard, body, params = a.a
        d2 = tuple(subst(d, s) for d in dims)
        fs = tuple(fresh_index(d, 'b') for d in d2)
        ren = dict(zip(names, fs))
        b2 = subst(subst(body, ren), s)
        g2 = substb(substb(guard, ren), s)
        return mk_aggn(kind, fs, d2, g2, b2, tuple(subst(x, s) for x in params))
    raise AssertionError(k)


def substb(b, s):
    s = {k: v for k, v in s.items() if k in b.fv}
    if not s:
        return b
    k = b.kind
    if k == 'cmp':
        return _cmp(b.a[0], subst(b.a[1], s))
    if k == 'not':
        return not_(substb(b.a[0], s))
    if k == 'and':
        return and_(*[substb(x, s) for x in b.a])
    if k == 'or':
        return or_(*[substb(x, s) for x in b.a])
    if k == 'bel':
        return bel(b.a[0], tuple(subst(i, s) for i in b.a[1]))
    if k == 'bvar':
        return b
    if k == 'ex':
        dim, nme, body = b.a
        d2 = subst(dim, s)
        f = fresh_index(d2, 'b')
        return exists(f, d2, substb(substb(body, {nme: f}), s))
    raise AssertionError(k)


ZERO = num(0)
ONE = num(1)


class Mapper:
    """rebuild a term, replacing sub-formulas for which f returns something"""

    def __init__(self, f):
        self.f = f
        self.mp, self.mb = {}, {}

    def poly(self, p):
        r = self.mp.get(p)
        if r is None:
            r = ZERO
            for m, c in p.t:
                r = add(r, scale(self.mono(m), c))
            self.mp[p] = r
        return r

    def mono(self, m):
        t = ONE
        for a, e in m:
            t = mul(t, _pow_atom(self.atom(a), e))
        return t

    def atom(self, a):
        k = a.kind
        if k == 'var':
            return of_atom(a)
        if k == 'el':
            return el(a.a[0], tuple(self.poly(i) for i in a.a[1]), a.a[2])
        if k == 'fn':
            return fn(a.a[0], *[self.poly(x) for x in a.a[1]])
        if k == 'ind':
            return ind(self.bool(a.a[0]))
        if k == 'ite':
            return ite(self.bool(a.a[0]), self.poly(a.a[1]), self.poly(a.a[2]))
        if k == 'pb':
            return self.poly(a.a[0])
        if k == 'sum':
            dims, names, mono = a.a
            ren = {nme: fresh_index(d, 'b') for d, nme in zip(dims, names)}
            body = self.poly(subst_mono(mono, ren))
            return sumn(tuple((vname(ren[nme]), d) for d, nme in zip(dims, names)), body)
        if k == 'agg':
            kind, dims, names, guard, body, params = a.a
            fs = tuple(fresh_index(d, 'b') for d in dims)
            ren = dict(zip(names, fs))
            return mk_aggn(kind, fs, dims, self.bool(substb(guard, ren)), self.poly(subst(body, ren)), tuple(self.poly(x) for x in params))
        raise AssertionError(k)

    def bool(self, b):
        r = self.mb.get(b)
        if r is None:
            r = self.mb[b] = self._bool(b)
        return r

    def _bool(self, b):
        r = self.f(b)
        if r is not None:
            return r
        k = b.kind
        if k == 'cmp': return _cmp(b.a[0], self.poly(b.a[1]))
        if k == 'not': return not_(self.bool(b.a[0]))
        if k == 'and': return and_(*[self.bool(x) for x in b.a])
        if k == 'or': return or_(*[self.bool(x) for x in b.a])
        if k == 'ex':
            dim, nme, body = b.a
            f = fresh_index(dim, 'b')
            return exists(f, dim, self.bool(substb(body, {nme: f})))
        return b


# ------------------------------------------------------------------ printing
def show(p):
    if not p.t:
        return '0'
    out = []
    for m, c in p.t:
        s = '*'.join(show_atom(a) if e == 1 else '%s^%s' % (show_atom(a), e) for a, e in m)
        if not m:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append('%s*%s' % (c, s))
    return ' + '.join(out) if len(out) < 40 else ' + '.join(out[:40]) + ' + ...'


def show_atom(a):
    k = a.kind
    if k == 'var': return a.a[0].split('|')[0]
    if k == 'el': return '%s[%s]' % (a.a[0], ','.join(show(i) for i in a.a[1]))
    if k == 'fn': return '%s(%s)' % (a.a[0], ', '.join(show(x) for x in a.a[1]))
    if k == 'ind': return '[%s]' % showb(a.a[0])
    if k == 'ite': return 'ite(%s, %s, %s)' % (showb(a.a[0]), show(a.a[1]), show(a.a[2]))
    if k == 'pb': return '(%s)' % show(a.a[0])
    if k == 'sum':
        return 'SUM{%s}(%s)' % (','.join('%s<%s' % (n.split('|')[0], show(d)) for n, d in zip(a.a[1], a.a[0])),
                               '*'.join(show_atom(x) if e == 1 else '%s^%s' % (show_atom(x), e) for x, e in a.a[2]))
    if k == 'agg':
        kind, dims, names, g, body, params = a.a
        return '%s{%s%s}(%s%s)' % (kind.upper(), ','.join('%s<%s' % (n.split('|')[0], show(d)) for n, d in zip(names, dims)),
                                   '' if g is TRUE else ' | ' + showb(g), show(body), ''.join('; ' + show(p) for p in params))
    return k


def showb(b):
    k = b.kind
    if k in ('true', 'false'): return k
    if k == 'cmp': return '%s %s 0' % (show(b.a[1]), b.a[0])
    if k == 'not': return '!(%s)' % showb(b.a[0])
    if k in ('and', 'or'): return '(' + (' & ' if k == 'and' else ' | ').join(showb(x) for x in b.a) + ')'
    if k == 'bvar': return b.a[0]
    if k == 'bel': return '%s[%s]' % (b.a[0], ','.join(show(i) for i in b.a[1]))
    if k == 'ex': return 'exists %s<%s. %s' % (b.a[1].split('|')[0], show(b.a[0]), showb(b.a[2]))
    return k


class Simplifier(Mapper):
    """rebuild a term knowing which of its conditions are decided; ites that select a single index
    become indicators, so that sums over them collapse"""

    def __init__(self, decide):
        Mapper.__init__(self, lambda b: None)
        self.decide = decide

    def bool(self, b):
        r = self.mb.get(b)
        if r is None:
            r = self._bool(b)
            if r.kind in ('cmp', 'bel', 'and', 'or') and r is not TRUE and r is not FALSE:
                d = self.decide(r)
                if d is not None:
                    r = TRUE if d else FALSE
            self.mb[b] = r
        return r

    def atom(self, a):
        if a.kind == 'ite':
            c, x, y = self.bool(a.a[0]), self.poly(a.a[1]), self.poly(a.a[2])
            if c is TRUE: return x
            if c is FALSE: return y
            eqs = [q for q in (c.a if c.kind == 'and' else (c,)) if q.kind == 'cmp' and q.a[0] == '==']
            if eqs or x is ZERO or y is ZERO:
                return add(y, mul(ind(c), add(x, neg(y))))
            return ite(c, x, y)
        return Mapper.atom(self, a)
