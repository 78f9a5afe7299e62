"""Discharging obligations: translation of terms to SMT (z3 in-process; the query can be dumped
to SMT-LIB for cvc5).  Opaque atoms become constants named by their canonical key; the facts
that define them (inverse, root, order statistics, bounds) are added per occurrence."""
import sys, time, os, itertools
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3
from . import term as T
from fractions import Fraction

STATS = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'syntactic': 0}
z3.set_param('smt.random_seed', 1)


class Tr:
    def __init__(self):
        self.memo = {}
        self.bmemo = {}
        self.facts = []
        self.done = set()
        self.idxvars = {}      # name -> (z3 Int, dim Poly)
        self.atoms = {}        # key -> (Atom, z3 expr)
        self.pending = []
        self.nonlin = False

    # -- polynomials
    def poly(self, p):
        """real or int z3 term (int when p is integral)"""
        r = self.memo.get(p)
        if r is not None:
            return r
        if p.integral:
            r = self._sum(p, True)
        else:
            r = self._sum(p, False)
        self.memo[p] = r
        return r

    def real(self, p):
        r = self.poly(p)
        return z3.ToReal(r) if r.is_int() else r

    def int(self, p):
        r = self.poly(p)
        if not r.is_int():
            raise ValueError('not integral: %s' % T.show(p))
        return r

    def _sum(self, p, isint):
        ts = []
        for m, c in p.t:
            f = []
            for a, e in m:
                f.append(self.atompow(a, e, isint))
            if isint:
                k = z3.IntVal(int(c))
            else:
                k = z3.RealVal(str(c))
            if not f:
                ts.append(k)
            else:
                if len(f) > 1:
                    self.nonlin = True
                x = f[0]
                for y in f[1:]:
                    x = x * y
                ts.append(x if c == 1 else k * x)
        if not ts:
            return z3.IntVal(0) if isint else z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def atompow(self, a, e, isint):
        if e.denominator == 1:
            x = self.atom(a)
            if e > 0:
                if not isint and x.is_int():
                    x = z3.ToReal(x)
                if e == 1:
                    return x
                self.nonlin = True
                r = x
                for _ in range(int(e) - 1):
                    r = r * x
                return r
            if x.is_int():
                x = z3.ToReal(x)
            iv = z3.Real('inv!' + a.key)
            k = ('inv', a.key)
            if k not in self.done:
                self.done.add(k)
                self.nonlin = True
                self.facts.append(z3.Implies(x != 0, iv * x == 1))
                self.facts.append(z3.Implies(x > 0, iv > 0))
                self.facts.append(z3.Implies(x < 0, iv < 0))
            r = iv
            for _ in range(int(-e) - 1):
                r = r * iv
            return r
        # fractional
        d = e.denominator
        x = self.atom(a)
        if x.is_int():
            x = z3.ToReal(x)
        rt = z3.Real('root%d!%s' % (d, a.key))
        k = ('root', d, a.key)
        if k not in self.done:
            self.done.add(k)
            self.nonlin = True
            pw = rt
            for _ in range(d - 1):
                pw = pw * rt
            self.facts.append(z3.Implies(x >= 0, z3.And(rt >= 0, pw == x)))
            self.facts.append(z3.Implies(x > 0, rt > 0))
            self.roots.append((d, x, rt)) if hasattr(self, 'roots') else None
        n = e.numerator
        if n > 0:
            r = rt
            for _ in range(n - 1):
                r = r * rt
            return r
        iv = z3.Real('invroot%d!%s' % (d, a.key))
        k = ('invroot', d, a.key)
        if k not in self.done:
            self.done.add(k)
            self.facts.append(z3.Implies(rt != 0, iv * rt == 1))
            self.facts.append(z3.Implies(rt > 0, iv > 0))
        r = iv
        for _ in range(-n - 1):
            r = r * iv
        return r

    # -- atoms
    def atom(self, a):
        r = self.atoms.get(a.key)
        if r is not None:
            return r[1]
        x = self._atom(a)
        self.atoms[a.key] = (a, x)
        self.pending.append(a)
        return x

    def _atom(self, a):
        k = a.kind
        if k == 'var':
            name, sort = a.a
            if sort == 'I':
                x = z3.Int(name)
                d = T.VARDIM.get(name)
                if d is not None:
                    self.idxvars[name] = (x, d)
            else:
                x = z3.Real(name)
            return x
        if k == 'el':
            name, idx, sort = a.a
            if not idx:
                return z3.Int(name) if sort == 'I' else z3.Real(name)
            f = z3.Function(name, *([z3.IntSort()] * len(idx)), z3.IntSort() if sort == 'I' else z3.RealSort())
            return f(*[self.int(i) for i in idx])
        if k == 'ind':
            c = self.bool(a.a[0])
            return z3.If(c, z3.IntVal(1), z3.IntVal(0))
        if k == 'ite':
            c = self.bool(a.a[0])
            if a.integral:
                return z3.If(c, self.int(a.a[1]), self.int(a.a[2]))
            return z3.If(c, self.real(a.a[1]), self.real(a.a[2]))
        if k == 'pb':
            return self.poly(a.a[0])
        if k == 'fn':
            n, args = a.a
            if n == 'abs':
                x = self.poly(args[0])
                return z3.If(x >= 0, x, -x)
            if n in ('max2', 'min2'):
                x, y = self.poly(args[0]), self.poly(args[1])
                if x.is_int() != y.is_int():
                    x, y = self.real(args[0]), self.real(args[1])
                return z3.If(x >= y, x, y) if n == 'max2' else z3.If(x <= y, x, y)
            if n == 'floor':
                return z3.ToInt(self.real(args[0]))
            if n == 'ceil':
                return -z3.ToInt(-self.real(args[0]))
            if n == 'trunc':
                x = self.real(args[0])
                return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            if n == 'sign':
                x = self.poly(args[0])
                return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))
            if n == 'idiv':
                return self.int(args[0]) / self.int(args[1])
            if n == 'mod':
                return self.int(args[0]) % self.int(args[1])
            if n == 'round':
                x = self.real(args[0])
                r = z3.Int('round!' + a.key)
                self.facts.append(z3.And(z3.ToReal(r) - x <= z3.RealVal('1/2'), x - z3.ToReal(r) <= z3.RealVal('1/2')))
                return r
            f = z3.Function('f!' + n, *([z3.RealSort()] * len(args)), z3.RealSort())
            ax = [self.real(x) for x in args]
            y = f(*ax)
            if n == 'tanh':
                self.facts.append(z3.And(y > -1, y < 1, z3.Implies(ax[0] > 0, y > 0), z3.Implies(ax[0] < 0, y < 0),
                                         z3.Implies(ax[0] >= 0, y <= ax[0])))
            elif n == 'exp':
                self.facts.append(y > 0)
            elif n in ('sin', 'cos'):
                self.facts.append(z3.And(y >= -1, y <= 1))
            elif n == 'normcdf':
                self.facts.append(z3.And(y > 0, y < 1))
            return y
        # opaque: sum, agg
        x = (z3.Int if a.integral else z3.Real)('%s!%s' % (k, a.key))
        return x

    # -- booleans
    def bool(self, b):
        r = self.bmemo.get(b.key)
        if r is not None:
            return r
        r = self._bool(b)
        self.bmemo[b.key] = r
        return r

    def _bool(self, b):
        k = b.kind
        if k == 'true': return z3.BoolVal(True)
        if k == 'false': return z3.BoolVal(False)
        if k == 'cmp':
            op, p = b.a
            # separate the sides for readability
            x = self.poly(p)
            return {'<': x < 0, '<=': x <= 0, '==': x == 0}[op]
        if k == 'not': return z3.Not(self.bool(b.a[0]))
        if k == 'and': return z3.And(*[self.bool(x) for x in b.a])
        if k == 'or': return z3.Or(*[self.bool(x) for x in b.a])
        if k == 'bvar': return z3.Bool(b.a[0])
        if k == 'bel':
            f = z3.Function('b!' + b.a[0], *([z3.IntSort()] * len(b.a[1])), z3.BoolSort()) if b.a[1] else None
            return f(*[self.int(i) for i in b.a[1]]) if f is not None else z3.Bool('b!' + b.a[0])
        if k == 'ex':
            x = z3.Bool('ex!' + b.key)
            self.pending.append(b)
            return x
        raise AssertionError(k)

    # -- facts about opaque atoms
    def saturate(self, rounds=2):
        aggs = {}
        insts = set()
        for _ in range(rounds):
            work, self.pending = self.pending, []
            allv = dict(self.idxvars)
            for a in work:
                if isinstance(a, T.B):
                    dim, nme, body = a.a
                    x = self.bool(a)
                    sk = 'sk~' + a.key
                    T.VARDIM[sk] = dim
                    v = T.var(sk, 'I')
                    bz = self.bool(T.substb(body, {nme: v}))
                    z = z3.Int(sk)
                    self.facts.append(z3.Implies(x, z3.And(z >= 0, z < self.int(dim), bz)))
                    self.exs = getattr(self, 'exs', [])
                    self.exs.append(a)
                elif a.kind == 'agg':
                    aggs.setdefault((a.a[0], tuple(d.key for d in a.a[1]), a.a[3].key, a.a[4].key), []).append(a)
                    x = self.atoms[a.key][1]
                    if T.nonneg(a.a[4]):
                        self.facts.append(x >= 0)
                elif a.kind == 'sum':
                    if T.nonneg_atom(a):
                        self.facts.append(self.atoms[a.key][1] >= 0)
                elif a.kind in ('el', 'var'):
                    nm = a.a[0]
                    x = self.atoms[a.key][1]
                    if nm in T.POS_EL:
                        self.facts.append(x > 0)
                    elif nm in T.NONNEG_EL:
                        self.facts.append(x >= 0)
                    if a.kind == 'el' and nm in ELFACTS:
                        self.facts.extend(ELFACTS[nm](self, x, a))
            # instantiations
            for a in list(getattr(self, 'exs', [])):
                dim, nme, body = a.a
                for vn, (z, d) in allv.items():
                    if d is dim and (a.key, vn) not in insts:
                        insts.add((a.key, vn))
                        bz = self.bool(T.substb(body, {nme: T.var(vn, 'I')}))
                        self.facts.append(z3.Implies(z3.And(z >= 0, z < self.int(d), bz), self.bool(a)))
            for key, lst in aggs.items():
                kind = key[0]
                for a in lst:
                    x = self.atoms[a.key][1]
                    if len(a.a[1]) > 1:
                        continue
                    dim, nme, guard, body = a.a[1][0], a.a[2][0], a.a[3], a.a[4]
                    if kind in ('max', 'min'):
                        sk = 'wit~' + a.key
                        if ('wit', a.key) not in insts:
                            insts.add(('wit', a.key))
                            T.VARDIM[sk] = dim
                            v = T.var(sk, 'I')
                            z = z3.Int(sk)
                            self.facts.append(z3.Implies(self.int(dim) > 0 if guard is T.TRUE else z3.BoolVal(False), z3.And(z >= 0, z < self.int(dim), self.poly(T.subst(body, {nme: v})) == x)))
                        for vn, (z, d) in allv.items():
                            if d is dim and (a.key, vn) not in insts:
                                insts.add((a.key, vn))
                                v = T.var(vn, 'I')
                                bz = self.poly(T.subst(body, {nme: v}))
                                g = self.bool(T.substb(guard, {nme: v}))
                                pre = z3.And(z >= 0, z < self.int(d), g)
                                self.facts.append(z3.Implies(pre, bz <= x if kind == 'max' else bz >= x))
                for a, b in itertools.combinations(lst, 2):
                    if kind == 'sorted' and (a.key, b.key) not in insts:
                        insts.add((a.key, b.key))
                        ka, kb = self.poly(a.a[5][0]), self.poly(b.a[5][0])
                        x, y = self.atoms[a.key][1], self.atoms[b.key][1]
                        self.facts.append(z3.Implies(ka <= kb, x <= y))
                        self.facts.append(z3.Implies(kb <= ka, y <= x))
            # nonneg sums bound each of their terms
            for key, (a, x) in list(self.atoms.items()):
                if a.kind == 'sum' and len(a.a[0]) == 1 and T.nonneg_atom(a):
                    for vn, (z, d) in allv.items():
                        if d is a.a[0][0] and (a.key, vn) not in insts and vn not in a.a[1]:
                            insts.add((a.key, vn))
                            t = T.subst_mono(a.a[2], {a.a[1][0]: T.var(vn, 'I')})
                            self.facts.append(z3.Implies(z3.And(z >= 0, z < self.int(d)), self.poly(t) <= x))
        for vn, (z, d) in list(self.idxvars.items()):
            if vn.startswith(('sk~', 'wit~')):
                continue        # witnesses are constrained only under their own condition
            try:
                self.facts.append(z3.And(z >= 0, z < self.int(d)))
            except ValueError:
                self.facts.append(z >= 0)


ELFACTS = {}


def query(assumptions, goal=None, timeout=10000, want_model=True):
    """('unsat'|'sat'|'unknown', model or None): satisfiability of assumptions & not goal"""
    t0 = time.time()
    tr = Tr()
    fs = [tr.bool(a) for a in assumptions]
    if goal is not None:
        fs.append(z3.Not(tr.bool(goal)))
    tr.saturate()
    out = None
    STATS['queries'] += 1
    for tactic in ('default', 'nlsat'):
        if tactic == 'default':
            s = z3.Solver()
        else:
            if not tr.nonlin:
                break
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'qfnra-nlsat').solver() if False else z3.SolverFor('QF_NRA')
        s.set('timeout', timeout if tactic == 'default' else timeout)
        for f in fs:
            s.add(f)
        for f in tr.facts:
            s.add(f)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            out = ('unsat', None, tr, s); break
        if r == z3.sat:
            out = ('sat', s.model(), tr, s); break
        out = ('unknown', None, tr, s)
    STATS['time'] += time.time() - t0
    STATS[out[0]] += 1
    return out


_dcache = {}


def entails(pc, b, timeout=4000):
    """True if pc |- b, False if refuted (sat), None if unknown"""
    if b is T.TRUE: return True
    if b is T.FALSE: b = T.FALSE
    key = (tuple(x.key for x in pc), b.key)
    if key in _dcache:
        return _dcache[key]
    if any(x is b for x in pc):
        r = True
    else:
        st = query(pc, b, timeout)[0]
        r = {'unsat': True, 'sat': False, 'unknown': None}[st]
    _dcache[key] = r
    return r


def model_env(tr, m, limit=60):
    """readable assignment of the atoms in a z3 model"""
    out = {}
    for key, (a, x) in tr.atoms.items():
        if a.kind in ('var', 'el') or a.kind in ('sum', 'agg'):
            try:
                out[T.show_atom(a)[:120]] = str(m.eval(x, model_completion=True))
            except Exception:
                pass
        if len(out) >= limit:
            break
    return out
