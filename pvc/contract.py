"""Contracts and the verification-condition driver.

A contract is a python function that builds symbolic arguments satisfying a precondition, runs
the real function on them over all feasible paths, and states postconditions; every postcondition
on every path is an obligation."""
import re, time, json, os, sys, random, traceback
import numpy as np
from . import term as T
from . import arr as R
from . import path as P
from . import prove
from . import loader
from . import snp
from .arr import A, Space, asarray, dsize, const_int
from .evalt import Env, Undefined, Precise, Slow
from .path import Unsupported

REGISTRY = []
PID = None         # property under check: contracts with `select` are judged on its obligations only


def contract(props, name, functions, **opts):
    def deco(f):
        REGISTRY.append((list(props) if isinstance(props, (list, tuple)) else [props], name, functions, f, opts))
        return f
    return deco


def frames(pid, pattern):
    """the frame obligations of every contract that states any also count for property pid"""
    import inspect
    for props, name, functions, f, opts in REGISTRY:
        if pid not in props and 'v.unchanged(' in inspect.getsource(f) and 'another number of columns' not in name:
            props.append(pid)
            opts['select'] = dict(opts.get('select') or {}, **{pid: ('only', pattern)})


class Refuted(Exception):
    pass


class Skip(Exception):
    """raised by a conformance call: the instance is decided by rounding"""


def real_modules():
    src = os.environ.get('PVC_SRC_ROOT', '/repo/src')
    if src not in sys.path:
        sys.path.insert(0, src)


class V:
    """one contract under verification"""

    only = None

    def __init__(self, name, tier='quick', timeout=10000):
        T.reset()
        prove._dcache.clear()
        prove.ELFACTS.clear()
        P.ASSUMPTIONS_USED.clear()
        loader.WHILE = None
        R.SPLIT[0] = False
        del R.ABSTRACT[:], snp.COV_ABSTRACT[:]
        snp.CALLS.clear()
        self.name, self.tier, self.timeout = name, tier, timeout
        self.obls = []
        self.pre = []
        self.arrays = {}
        self.dims_ = {}
        self.real_elems = {}
        self.conform = []
        self.conf_stats = [0, 0]
        self.loader = None
        self.stubs = []
        self.paths = 0
        self.mindims = {}

    # ---- symbolic inputs
    def dim(self, name, lo=1):
        d = T.var(name, 'I', nn=True)
        if lo >= 1:
            T.POS_EL.add(name)
        self.pre.append(T.ge(d, lo))
        T.MINDIM[d.key] = lo
        self.mindims[name] = lo
        self.dims_[name] = d
        return d

    def int(self, d):
        return R.pyint(d)

    def array(self, name, *shape, nan=False, kind='f', pos=False, nonneg=False, gen=None):
        if pos: T.POS_EL.add(name)
        if nonneg: T.NONNEG_EL.add(name)
        a = A(shape, lambda i: T.el(name, loader._flat(i), 'I' if kind == 'i' else 'R'), kind,
              (lambda i: T.bel(name + '.nan', loader._flat(i))) if nan else None, name=name)
        self.arrays[name] = dict(shape=[T.lift(s) for s in shape], nan=nan, kind=kind, pos=pos, nonneg=nonneg, gen=gen, a=a)
        return a

    def mask(self, name, *shape, gen=None):
        a = A(shape, lambda i: T.bel(name, loader._flat(i)), 'b', name=name)
        self.arrays[name] = dict(shape=[T.lift(s) for s in shape], nan=False, kind='b', pos=False, nonneg=False, gen=gen, a=a)
        return a

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None, gen=None):
        x = T.var(name, 'R', pos_=pos, nn=nonneg)
        if pos: self.pre.append(T.gt(x, 0))
        if nonneg: self.pre.append(T.ge(x, 0))
        if lo is not None: self.pre.append(T.ge(x, lo))
        if hi is not None: self.pre.append(T.le(x, hi))
        self.real_elems[name] = dict(pos=pos, nonneg=nonneg, lo=lo, hi=hi, gen=gen)
        return A((), lambda i: x, 'f')

    def p(self, x):
        return R.scalar(x)

    def requires(self, *bs):
        for b in bs:
            if isinstance(b, A):
                b = b.at()
            self.pre.append(T.liftb(b))

    def forall(self, dims, f):
        """universally quantified goal: generic indices"""
        vs = [T.fresh_index(d, 'q') for d in dims]
        return f(*vs)

    # ---- code
    def mod(self, dotted):
        if self.loader is None:
            self.loader = loader.Loader()
        return self.loader.module(dotted)

    def stub(self, dotted, fname, g):
        """callee replaced by its contract"""
        m = self.mod(dotted)
        f = getattr(m, fname)
        self.loader.rebind(f, g)
        self.stubs.append('%s.%s' % (dotted, fname))

    def restub(self):
        pass

    def run(self, thunk, extra=(), max_paths=96):
        # vacuity: the precondition must be satisfiable
        r = prove.query(list(self.pre) + list(extra), None, 10000)
        if r[0] == 'unsat':
            raise AssertionError('vacuous precondition in contract %s' % self.name)
        snaps = {k: (v['a'].buf.get, v['a'].buf.nan) for k, v in self.arrays.items()}

        def wrapped():
            for k, v in self.arrays.items():
                if k not in snaps: continue
                b = v['a'].buf
                b.get, b.nan = snaps[k]
                b.memo, b.nmemo, b.ver = {}, {}, 0
            snp.CALLS.clear()
            val = thunk()
            return val, {k: (v['a'].buf.ver, v['a'].buf.get) for k, v in self.arrays.items() if k in snaps}
        outs = P.explore(wrapped, list(self.pre) + list(extra), max_paths)
        if not outs:
            raise AssertionError('no feasible path in contract %s' % self.name)
        res = []
        for o in outs:
            if o.exc is None:
                o.value, o.frame = o.value
            else:
                o.frame = {}
            self.paths += 1
            res.append(o)
        for o in res:
            for pc, what, g in o.obls:
                q = P.Outcome(P.Ctx(pc))
                self.prove(q, what, g)
        return res

    def loops(self, inv=None, entry=None):
        """invariant (and entry condition) for the while statements met from here on; both map the
        local variables of the function to a list of (name, formula)"""
        def declare(nm, shp, kind):
            if shp is None:
                self.real_elems.setdefault(nm, dict(pos=False, nonneg=False, lo=None, hi=None, gen=None))
            else:
                self.arrays.setdefault(nm, dict(shape=[T.lift(d) for d in shp], nan=False, kind='f', pos=False, nonneg=False, gen=None, ghost=True,
                                                a=A(shp, lambda i: T.el(nm, loader._flat(i)), 'f')))
        loader.WHILE = loader.WhileRule(inv, entry, None, declare)
        return loader.WHILE

    # ---- obligations
    def prove(self, o, what, goal, hyps=()):
        if self.only is not None and not self.only.search(what):
            return True
        goal = T.liftb(goal)
        pc = list(o.pc if o is not None else self.pre) + list(hyps)
        t0 = time.time()
        if goal is not T.TRUE:
            goal = path_simplify(goal, pc)
        cleared = False
        if goal is not T.TRUE and goal.kind == 'cmp' and goal.a[0] == '==':
            q = T.clear_denominators(goal.a[1])
            if q is T.ZERO:
                goal, cleared = T.TRUE, True
        rec = {'name': '%s: %s' % (self.name, what), 'status': None, 'backend': None}
        if goal is T.TRUE:
            rec.update(status='proved', backend='normalisation, denominators cleared' if cleared else 'normalisation')
            prove.STATS['syntactic'] += 1
        else:
            st, model, tr, s = prove.query(pc, goal, self.timeout if not conds(goal) else min(self.timeout, 2500))
            rec['backend'] = 'z3'
            if st != 'unsat':
                g2 = deep_simplify(goal, pc)
                if g2 is not None and g2 is not goal:
                    if g2 is T.TRUE:
                        st, s = 'unsat', None
                        rec['backend'] = 'normalisation under the path condition'
                    elif g2 is not T.FALSE:
                        st2, m2, tr2, s2 = prove.query(pc, g2, 2500)
                        if st2 == 'unsat':
                            st, s = st2, s2
            if st == 'unknown' and conds(goal):
                if case_split(pc, goal, 7, time.time() + 60):
                    st, s = 'unsat', None
                    rec['backend'] = 'z3, by cases'
            if st == 'unsat':
                rec['status'] = 'proved'
                if s is not None: rec['solver'] = s
            else:
                rec['status'] = 'refuted' if st == 'sat' else 'unknown'
                if model is not None:
                    rec['model'] = prove.model_env(tr, model)
                w = self.falsify(pc, goal)
                rec['goal'] = T.showb(goal)[:600]
                rec['path'] = [T.showb(x)[:200] for x in pc[len(self.pre):]][:12]
                rec['sampled'] = self.last_sampled
                if w is not None:
                    rec['status'] = 'refuted'
                    rec['witness'] = w
                    rec['_env'] = self.last_env
                    rec['_out'] = o
                else:
                    rec['status'] = 'unproved'
        rec['time'] = time.time() - t0
        self.obls.append(rec)
        return rec['status'] == 'proved'

    def fail(self, o, what, detail):
        """an obligation that fails outright (e.g. an exception on a feasible path)"""
        if self.only is not None and not self.only.search(what) and 'terminates' not in what:
            return
        rec = {'name': '%s: %s' % (self.name, what), 'status': 'refuted', 'backend': 'path exploration', 'goal': detail,
               'path': [T.showb(x)[:200] for x in o.pc[len(self.pre):]][:12] if o is not None else [], 'time': 0.0}
        # is the path really feasible?  look for a numeric instance
        w = self.falsify(o.pc, T.FALSE) if o is not None else None
        if w is None and o is not None:
            rec['status'] = 'unproved'
        if w is not None:
            rec['_env'], rec['_out'] = self.last_env, o
        rec['witness'] = w
        self.obls.append(rec)

    def check(self, o, what, ok, detail=''):
        """a postcondition decided on the symbolic state itself (identity of objects, settings)"""
        if not ok:
            return self.fail(o, what, detail)
        if self.only is None or self.only.search(what):
            self.obls.append({'name': '%s: %s' % (self.name, what), 'status': 'proved', 'backend': 'evaluation', 'time': 0.0})

    def normal(self, outs, what='terminates normally'):
        """obligation: no exception on any feasible path; returns the normal outcomes"""
        good = []
        for o in outs:
            if o.exc is not None:
                tb = traceback.extract_tb(o.exc.__traceback__)
                where = [f for f in tb if 'direpack' in f.filename][-1:]
                self.fail(o, what, '%s: %s at %s' % (type(o.exc).__name__, str(o.exc)[:200], ['%s:%s' % (os.path.basename(w.filename), w.lineno) for w in where]))
            else:
                self.obls.append({'name': '%s: %s' % (self.name, what), 'status': 'proved', 'backend': 'path exploration', 'time': 0.0})
                good.append(o)
        return good

    def raises(self, outs, exc, what):
        for o in outs:
            ok = o.exc is not None and isinstance(o.exc, exc)
            if ok:
                self.obls.append({'name': '%s: %s' % (self.name, what), 'status': 'proved', 'backend': 'path exploration', 'time': 0.0})
            else:
                self.fail(o, what, 'expected %s, got %s' % (exc, repr(o.exc) if o.exc else 'normal return'))

    def shape(self, o, a, dims, what='shape of the result'):
        if not isinstance(a, A):
            a = asarray(a)
        if len(a.shp) != len(dims):
            return self.fail(o, what, 'rank %d, expected %d' % (len(a.shp), len(dims))) or False
        g = T.and_(*[T.eq(dsize(x), T.lift(y)) for x, y in zip(a.shp, dims)])
        return self.prove(o, what, g)

    def equal(self, o, a, spec, dims=None, what='result equals its specification', nan=None, hyps=()):
        """array a equals spec(i,j,...) at every index"""
        if not isinstance(a, A):
            a = asarray(a)
        if dims is not None:
            if not self.shape(o, a, dims, what + ' (shape)'):
                return False
        idx = []
        h = list(hyps)
        for d in a.shp:
            if isinstance(d, Space):
                vs = tuple(T.fresh_index(e, 'q') for e in d.dims)
                h.append(d.gd(vs))
                idx.append(vs)
            elif d is T.ONE:
                idx.append(T.ZERO)
            elif const_int(d) is not None and const_int(d) <= 8:
                idx.append(None)
            else:
                idx.append(T.fresh_index(d, 'q'))
        ok = True
        import itertools
        free = [k for k, i in enumerate(idx) if i is None]
        for combo in itertools.product(*[range(const_int(a.shp[k])) for k in free]):
            ix = list(idx)
            for k, v in zip(free, combo):
                ix[k] = T.num(v)
            lhs = a.at(*ix)
            rhs = spec(*ix)
            if isinstance(lhs, T.B) or isinstance(rhs, T.B):
                g = T.iff(lhs, rhs)
            else:
                g = T.eq(lhs, rhs)
            hh = list(h)
            if a.maynan:
                nn = a.nanat(*ix)
                want = nan(*ix) if nan else T.FALSE
                ok = self.prove(o, what + ' (missing pattern)', T.iff(nn, want), hh) and ok
                hh.append(T.not_(want))
            ok = self.prove(o, what, g, hh) and ok
        return ok

    def each(self, o, a, pred, what, hyps=()):
        """pred(element, idx) holds at every index"""
        a = asarray(a)
        h = list(hyps)
        idx = []
        for d in a.shp:
            if isinstance(d, Space):
                vs = tuple(T.fresh_index(e, 'q') for e in d.dims)
                h.append(d.gd(vs))
                idx.append(vs)
            else:
                idx.append(T.ZERO if d is T.ONE else T.fresh_index(d, 'q'))
        return self.prove(o, what, pred(a.at(*idx), tuple(idx)), h)

    def unchanged(self, o, *names):
        """frame condition: the caller's arrays are not written"""
        for nm in names or [q for q in self.arrays if not self.arrays[q].get('ghost')]:
            ver, get = o.frame.get(nm, (0, None))
            what = 'argument %s is not modified' % nm
            if ver == 0:
                self.obls.append({'name': '%s: %s' % (self.name, what), 'status': 'proved', 'backend': 'frame', 'time': 0.0})
                continue
            sh = self.arrays[nm]['shape']
            idx = tuple(T.fresh_index(d, 'q') for d in sh)
            v = get(idx)
            self.prove(o, what, T.eq(T.lift(v), T.el(nm, idx, 'I' if self.arrays[nm]['kind'] == 'i' else 'R')))

    # ---- numeric instances
    def sample_env(self, rng, consts=()):
        """a random instance of the inputs; consts: numbers compared with in the condition at hand,
        around which part of the inputs is drawn"""
        dims = {}
        hi = 7
        ints = [int(c) for c in consts if c == int(c) and 0 < c <= 40]
        for nm in self.dims_:
            lo = self.mindims.get(nm, 1)
            dims[nm] = rng.randint(lo, max(lo, hi if nm.startswith('n') else 4))
            if ints and rng.random() < 0.4:
                dims[nm] = max(lo, rng.choice(ints) + rng.choice([-1, 0, 1, 2]))
        for nm, s in self.real_elems.items():
            if s['gen']:
                dims[nm] = s['gen'](rng)
            else:
                v = rng.choice([rng.gauss(0, 2), rng.uniform(0, 3), 1.0, 2.0, 0.5])
                if s['pos'] or s['nonneg']: v = abs(v) + (1e-3 if s['pos'] else 0)
                if s["lo"] is not None and s["hi"] is not None: v = rng.uniform(_fl(s["lo"]), _fl(s["hi"]))
                elif s['lo'] is not None: v = _fl(s["lo"]) + abs(v)
                elif s['hi'] is not None: v = _fl(s["hi"]) - abs(v)
                if consts and rng.random() < 0.4:
                    w = float(rng.choice(consts)) * rng.choice([1.0, 0.5, 0.9, 1.1, 2.0])
                    if not (s['pos'] and w <= 0) and not (s['nonneg'] and w < 0) and (s['lo'] is None or w >= _fl(s['lo'])) and (s['hi'] is None or w <= _fl(s['hi'])):
                        v = w
                dims[nm] = v
        env = Env(dims, {}, rng.random())
        for nm, s in self.arrays.items():
            shp = tuple(int(env.poly(d)) for d in s['shape'])
            if s['gen']:
                x = np.asarray(s['gen'](rng, shp), dtype=float)
                if consts and x.size and rng.random() < 0.5:
                    f = abs(float(rng.choice(consts))) * rng.choice([0.1, 0.5, 1.0, 2.0])
                    x = x * (f if rng.random() < 0.5 else f / max(np.abs(x).max(), 1e-300))
            else:
                nr = np.random.RandomState(rng.randrange(2 ** 31))
                st = rng.randrange(4)
                if st == 0: x = nr.randn(*shp)
                elif st == 1: x = nr.randint(-2, 3, size=shp).astype(float)
                elif st == 2: x = nr.standard_cauchy(size=shp)
                else: x = np.round(nr.randn(*shp) * 2, 1)
                x = np.asarray(x)
                if s['pos']: x = np.asarray(np.abs(x) + 0.1)
                if s['nonneg']: x = np.abs(x)
                if consts and x.size and rng.random() < 0.6:
                    f = abs(float(rng.choice(consts))) * rng.choice([0.1, 0.5, 1.0, 2.0])
                    m = rng.randrange(4)
                    if m == 0: x = np.asarray(x * f)
                    elif m == 1: x = np.asarray(x * f / max(np.abs(x).max(), 1e-300))
                    elif m == 2 and x.ndim: x[..., rng.randrange(x.shape[-1])] *= f
                    elif m == 3: x.reshape(-1)[rng.randrange(x.size)] = f
            if s['kind'] == 'i':
                x = np.round(x).astype(int)
            if s['kind'] == 'b':
                x = np.random.RandomState(rng.randrange(2 ** 31)).rand(*shp) < rng.choice([0.3, 0.5, 0.7])
            env.arrays[nm] = x
            if s['nan']:
                nr = np.random.RandomState(rng.randrange(2 ** 31))
                mk = nr.rand(*shp) < rng.choice([0.0, 0.2, 0.4])
                env.arrays[nm + '.nan'] = mk
        return env

    def falsify(self, pc, goal, tries=400, tol=1e-7):
        """a numeric instance of the path on which the goal fails by a clear margin"""
        rng = random.Random(12345)
        t0 = time.time()
        self.last_sampled, self.last_env = 0, None
        consts = threshold_constants([goal] + list(pc))
        for k in range(tries):
            if time.time() - t0 > 15:
                break
            env = self.sample_env(rng, consts if k % 2 else ())
            try:
                if not all(env.boole(x) for x in pc):
                    continue
                self.last_env = env
                if goal is T.FALSE:
                    return self.witness(env)
                t, m = env.slack(goal)
                self.last_sampled += 1
                if not t and m < -tol and self.confirmed(env, pc, goal, tol):
                    return self.witness(env)
            except (Undefined, OverflowError, ZeroDivisionError, ValueError):
                continue
        return None

    def confirmed(self, env, pc, goal, tol):
        """the failure is not one of rounding: it remains with sixty digits (or these take too long)"""
        try:
            hp = Precise(env)
            for x in pc:
                t, m = hp.slack(x)
                if not t and m < -tol:
                    return False
            t, m = hp.slack(goal)
            return not t and m < -tol
        except (Slow, ImportError):
            return True
        except (Undefined, OverflowError, ZeroDivisionError, ValueError, TypeError):
            return True

    def witness(self, env):
        w = {k: (int(v) if isinstance(v, (int, np.integer)) else float(v)) for k, v in env.dims.items() if k in self.dims_ or k in self.real_elems}
        for nm in self.arrays:
            x = env.arrays[nm]
            if nm + '.nan' in env.arrays:
                x = np.asarray(x, dtype=float).copy()
                x[env.arrays[nm + '.nan']] = np.nan
            w[nm] = np.asarray(x).tolist()
        return w

    def conformance(self, outs, call, extract=lambda v: v, trials=12, tol=1e-7):
        """CPython conformance: the symbolic result, evaluated at random instances, equals what the
        real function returns there; the witnesses of refuted obligations are replayed the same way"""
        real_modules()
        ids = {id(o) for o in outs}
        for r in self.obls:
            if r['status'] == 'refuted' and r.get('_env') is not None and id(r.get('_out')) in ids:
                st, info = self._conform(r['_env'], r['_out'], call, extract, tol)
                if st == 'ok':
                    r['replayed'] = 'the real function, run on the witness, gives %s' % info
        rng = random.Random(4711)
        done = 0
        tries = 0
        t0 = time.time()
        while done < trials and tries < trials * 40 and time.time() - t0 < 40:
            tries += 1
            env = self.sample_env(rng)
            o = None
            try:
                for c in outs:
                    if all(env.boole(x) for x in c.pc):
                        o = c
                        break
            except (Undefined, OverflowError, ZeroDivisionError, ValueError):
                continue
            if o is None:
                continue
            st, info = self._conform(env, o, call, extract, tol)
            if st == 'bad' and o.exc is None:
                try:
                    st, info = self._conform(Precise(env), o, call, extract, tol)
                except (Slow, ImportError, TypeError):
                    pass
            if st == 'skip':
                continue
            if st == 'bad':
                raise Mismatch('%s at %s' % (info, self.witness(env)))
            done += 1
        self.conf_stats[0] += done
        self.conf_stats[1] += tries

    def _conform(self, env, o, call, extract, tol):
        args = {}
        for nm in self.arrays:
            x = env.arrays[nm].copy()
            if self.arrays[nm]['nan']:
                x = x.astype(float)
                x[env.arrays[nm + '.nan']] = np.nan
            args[nm] = x
        import warnings, io, contextlib
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter('ignore')
                got = call({k: (v if isinstance(v, (int, np.integer, float, bool)) else float(v)) for k, v in env.dims.items()}, args)
            gexc = None
        except Skip:
            return 'skip', ''
        except Exception as e:
            got, gexc = None, e
        if o.exc is not None:
            if gexc is None or type(gexc).__name__ != type(o.exc).__name__:
                return 'bad', 'symbolic path raises %r, CPython %s' % (o.exc, repr(gexc) if gexc else 'returns')
            return 'ok', repr(gexc)
        if gexc is not None:
            return 'bad', 'CPython raises %r where the symbolic run returns' % (gexc,)
        sym = extract(o.value)
        try:
            if isinstance(sym, (A,)):
                val = eval_array(env, sym)
            elif isinstance(sym, (tuple, list)):
                val = [eval_array(env, asarray(s)) for s in sym]
            else:
                val = sym
        except (Undefined, OverflowError, ZeroDivisionError, ValueError):
            return 'skip', ''
        gl = list(got) if isinstance(val, list) else [got]
        vl = val if isinstance(val, list) else [val]
        if len(gl) != len(vl):
            return 'bad', 'different number of results'
        for g, v in zip(gl, vl):
            g = np.asarray(g, dtype=float)
            v = np.asarray(v, dtype=float)
            if g.shape == v.shape and not np.isfinite(g).all() and np.isfinite(v).all():
                return 'skip', ''
            if g.shape != v.shape or not np.allclose(g, v, rtol=1e-6, atol=tol, equal_nan=True):
                return 'bad', 'CPython gives %s, the symbolic run %s' % (g.tolist(), v.tolist())
        return 'ok', [np.asarray(g, dtype=float).tolist() for g in gl]


def path_simplify(goal, pc):
    """facts of the form 'no element of a boolean array is set' (no missing value on this path)
    are used as rewrite rules"""
    none = set()
    for c in pc:
        if c.kind != 'not':
            continue
        b = c.a[0]
        bound = set()
        while b.kind == 'ex':
            bound.add(b.a[1])
            b = b.a[2]
        if b.kind == 'bel' and bound and all(T.is_var(i) and T.vname(i) in bound for i in b.a[1]) and len(set(b.a[1])) == len(b.a[1]):
            none.add(b.a[0])
    if not none:
        return goal
    return T.Mapper(lambda b: T.FALSE if b.kind == 'bel' and b.a[0] in none else None).bool(goal)



def threshold_constants(bs, limit=40):
    """numbers appearing in comparisons of the formulas (sampling guidance only)"""
    out, seen = [], set()

    def pol(q):
        if q.key in seen: return
        seen.add(q.key)
        for m, c in q.t:
            if len(out) < limit and c not in (1, -1, 0): out.append(abs(float(c)))
            for a, e in m: at(a)

    def bo(b):
        if b.key in seen: return
        seen.add(b.key)
        if b.kind == 'cmp':
            cs = sorted({abs(float(c)) for m, c in b.a[1].t})[:5]
            for x in cs:
                for y in cs:
                    if len(out) < limit and x != y: out.append(x / y)
            pol(b.a[1])
        elif b.kind in ('not', 'and', 'or'):
            for x in b.a: bo(x)
        elif b.kind == 'ex': bo(b.a[2])

    def at(a):
        for x in a.a:
            if isinstance(x, T.Poly): pol(x)
            elif isinstance(x, T.B): bo(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T.Poly): pol(y)
                    elif isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], T.Atom): at(y[0])
    for b in bs:
        bo(b)
    return sorted(set(out))


def deep_simplify(goal, pc, budget=20.0):
    t0 = time.time()

    def decide(b):
        if time.time() - t0 > budget:
            return None
        if prove.entails(pc, b, 300): return True
        if prove.entails(pc, T.not_(b), 300): return False
        return None
    T.DELTA.append(1)
    try:
        g = goal
        for _ in range(2):
            g2 = T.Simplifier(decide).bool(g)
            if g2 is g: break
            g = g2
        return g
    except (AssertionError, RecursionError):
        return None
    finally:
        T.DELTA.pop()


def conds(goal):
    """conditions of the conditionals in a formula, innermost first"""
    out, seen = [], set()

    def pol(q):
        if q.key in seen: return
        seen.add(q.key)
        for m, c in q.t:
            for a, e in m:
                at(a)

    def bo(b):
        if b.key in seen: return
        seen.add(b.key)
        if b.kind == 'cmp': pol(b.a[1])
        elif b.kind in ('not', 'and', 'or'):
            for x in b.a: bo(x)

    def at(a):
        if a.kind in ('ite', 'ind'):
            bo(a.a[0])
            for x in a.a[1:]:
                if isinstance(x, T.Poly): pol(x)
            cs = a.a[0].a if a.a[0].kind in ('and', 'or') else (a.a[0],)
            for c in cs:
                c = c.a[0] if c.kind == 'not' else c
                if c not in out: out.append(c)
        elif a.kind == 'fn':
            for x in a.a[1]: pol(x)
        elif a.kind == 'pb':
            pol(a.a[0])
    bo(goal)
    return out


def case_split(pc, goal, depth, deadline):
    if goal is T.TRUE:
        return True
    cs = conds(goal)
    if not cs or depth == 0:
        return prove.query(pc, goal, 8000)[0] == 'unsat'
    if time.time() > deadline:
        return False
    c = cs[0]
    nc = T.not_(c)
    for h, sub in ((c, {c.key: T.TRUE, nc.key: T.FALSE}), (nc, {c.key: T.FALSE, nc.key: T.TRUE})):
        p2 = pc + [h]
        if prove.query(p2, None, 2000)[0] == 'unsat':
            continue
        g = T.Mapper(lambda b: sub.get(b.key)).bool(goal)
        if not case_split(p2, g, depth - 1, deadline):
            return False
    return True


class Mismatch(Exception):
    pass


def eval_array(env, a):
    shp = []
    sel = []
    for d in a.shp:
        if isinstance(d, Space):
            import itertools
            rs = [range(int(env.poly(e))) for e in d.dims]
            pts = []
            for t in itertools.product(*rs):
                tt = tuple(T.num(x) for x in t)
                if env.boole(d.gd(tt)):
                    pts.append(tt)
            sel.append(pts)
        else:
            sel.append([T.num(i) for i in range(int(env.poly(d)))])
    out = np.empty(tuple(len(s) for s in sel), dtype=float)
    import itertools
    for pos in itertools.product(*[range(len(s)) for s in sel]):
        ix = [s[q] for s, q in zip(sel, pos)]
        if a.maynan and env.boole(a.nanat(*ix)):
            out[pos] = np.nan
            continue
        v = a.at(*ix)
        out[pos] = env.boole(v) if isinstance(v, T.B) else env.poly(v)
    return out


def _mine(r, sel):
    what = r['name'].split(': ')[-1]
    return bool(re.search(sel, what)) or 'terminates' in what


def run_contract(entry, tier):
    props, name, functions, f, opts = entry
    t0 = time.time()
    res = {'contract': name, 'functions': functions, 'obligations': [], 'status': None, 'trusted': [], 'notes': []}
    v = V(name, tier)
    sel = (opts.get('select') or {}).get(PID)
    if isinstance(sel, tuple):
        v.only = re.compile(sel[1])
        sel = sel[1]
    q0, s0 = prove.STATS['queries'], prove.STATS['time']
    try:
        f(v)
        if not v.obls:
            raise AssertionError('no obligation generated by %s' % name)
        if sel:
            rest = [r for r in v.obls if not _mine(r, sel)]
            v.obls[:] = [r for r in v.obls if _mine(r, sel)]
            if not v.obls: raise AssertionError('no obligation of this property in %s' % name)
            if any(r['status'] != 'proved' for r in rest) and all(r['status'] == 'proved' for r in v.obls):
                raise Unsupported('an obligation of another property, on which these may rest, is not discharged')
        bad = [r for r in v.obls if r['status'] == 'refuted']
        und = [r for r in v.obls if r['status'] not in ('proved', 'refuted')]
        res['status'] = 'refuted' if bad else ('unproved' if und else 'proved')
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        w = [x for x in tb if 'direpack' in x.filename][-1:]
        res['status'] = 'outside-subset'
        res['detail'] = '%s (%s)' % (e, ['%s:%s' % (os.path.basename(x.filename), x.lineno) for x in w])
    except Mismatch as e:
        res['status'] = 'model-mismatch'
        res['detail'] = str(e)[:1500]
    except (AttributeError, ImportError, SyntaxError, KeyError, TypeError, AssertionError, IndexError, ValueError, RecursionError) as e:
        res['status'] = 'error'
        res['detail'] = ''.join(traceback.format_exception(e))[-1500:]
    res['obligations'] = [{k: x for k, x in r.items() if k != 'solver' and not k.startswith('_')} for r in v.obls]
    if tier == 'thorough':
        res['crosscheck'] = crosscheck([r for r in v.obls if r.get('solver') is not None])
    res['paths'] = v.paths
    res['conformance'] = v.conf_stats[0]
    res['trusted'] = sorted(P.ASSUMPTIONS_USED) + ['callee contract used at call sites: ' + s for s in v.stubs]
    res['opts'] = opts
    res['queries'] = prove.STATS['queries'] - q0
    res['solver_s'] = round(prove.STATS['time'] - s0, 3)
    res['wall'] = round(time.time() - t0, 3)
    return res


def crosscheck(recs, limit=400):
    """re-discharge with cvc5"""
    import subprocess, tempfile
    ok = bad = unk = 0
    for r in recs[:limit]:
        smt = '(set-logic ALL)\n' + r['solver'].to_smt2()
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=True) as f:
                f.write(smt)
                f.flush()
                out = subprocess.run(['cvc5', '--tlimit=5000', f.name], capture_output=True, text=True, timeout=12).stdout
        except Exception:
            out = ''
        if out.startswith('unsat'): ok += 1
        elif out.startswith('sat'): bad += 1
        else: unk += 1
    return {'cvc5_unsat': ok, 'cvc5_sat': bad, 'cvc5_unknown': unk}


def _fl(x):
    return float(x.const) if isinstance(x, T.Poly) else float(x)
