"""Path exploration: the real functions are executed by CPython on symbolic arrays; a branch on
an undetermined condition is resolved by re-execution, once per feasible outcome."""
from . import term as T
from . import prove


class Unsupported(BaseException):
    """construct or library call outside the verifier's subset"""


class Infeasible(BaseException):
    pass


class Ctx:
    def __init__(self, assumptions=(), prefix=()):
        self.pc = list(assumptions)
        self.trace = list(prefix)
        self.pos = 0
        self.alternatives = []
        self.assumed = []         # definedness assumptions recorded along the path
        self.parent = None        # enclosing context, for the body of a symbolic comprehension
        self.local = None         # its generic index: branches on it are merged, not forked
        self.obls = []            # obligations met on the way (loop invariants): (facts, name, formula)
        self.forbid = []          # generic indices of enclosing symbolic for statements


CTX = None
ASSUMPTIONS_USED = set()


def note(s):
    """record a trusted-base entry (assumed contract on a dependency, definedness assumption)"""
    ASSUMPTIONS_USED.add(s)


def assume(b):
    b = T.liftb(b)
    if b is T.TRUE:
        return
    if CTX is not None:
        CTX.pc.append(b)


def decide(b):
    global CTX
    b = T.liftb(b)
    if b is T.TRUE: return True
    if b is T.FALSE: return False
    c = CTX
    if c is None:
        raise Unsupported('branch on a symbolic condition outside a path: %s' % T.showb(b)[:200])
    for g in c.forbid:
        if g in b.fv:
            if entailed(b): return True
            if entailed(T.not_(b)): return False
            raise Unsupported('branch on the index of a symbolic loop')
    nb = T.not_(b)
    for x in c.pc:
        if x is b: return True
        if x is nb: return False
    if c.parent is not None and c.local not in b.fv:
        CTX = c.parent
        try:
            v = decide(b)
        finally:
            CTX = c
        c.pc.append(b if v else nb)
        return v
    if c.pos < len(c.trace):
        v = c.trace[c.pos]
        c.pos += 1
        if v is not None and v[1]:
            c.pc.append(b if v[0] else nb)
        return v[0]
    t = prove.entails(c.pc, b)
    if t is True:
        v = (True, False)
    else:
        f = prove.entails(c.pc, nb)
        if f is True:
            v = (False, False)
        else:
            v = (True, True)
            c.alternatives.append(list(c.trace) + [(False, True)])
    c.trace.append(v)
    c.pos += 1
    if v[1]:
        c.pc.append(b)
    return v[0]


def entailed(b):
    """is b known on this path (no fork)?"""
    b = T.liftb(b)
    if b is T.TRUE: return True
    if b is T.FALSE: return False
    if CTX is None: return False
    return prove.entails(CTX.pc, b) is True


class Outcome:
    def __init__(self, ctx, value=None, exc=None):
        self.pc = ctx.pc
        self.obls = ctx.obls
        self.value, self.exc = value, exc


def explore(thunk, assumptions=(), max_paths=128):
    """all feasible paths of thunk(); yields Outcome objects"""
    global CTX
    stack = [[]]
    outs = []
    while stack:
        pre = stack.pop()
        CTX = Ctx(assumptions, pre)
        try:
            try:
                v = thunk()
                outs.append(Outcome(CTX, v))
            except (Unsupported, KeyboardInterrupt, MemoryError):
                raise
            except Infeasible:
                pass
            except RecursionError as e:
                raise Unsupported('recursion: %s' % e)
            except Exception as e:
                outs.append(Outcome(CTX, None, e))
            stack.extend(CTX.alternatives)
        finally:
            CTX = None
        if len(outs) > max_paths:
            raise Unsupported('more than %d paths' % max_paths)
    return outs


def local_paths(thunk, local, max_paths=32):
    """paths of thunk() that differ only in conditions on the generic index `local`;
    returns [(local facts, value)].  Other branches belong to the enclosing path."""
    global CTX
    outer = CTX
    if outer is None:
        raise Unsupported('comprehension outside a path')
    stack = [[]]
    res = []
    while stack:
        pre = stack.pop()
        c = Ctx(outer.pc, pre)
        c.parent, c.local, c.forbid = outer, local, list(outer.forbid)
        CTX = c
        try:
            try:
                v, exc = thunk(), None
            except Infeasible:
                v, exc = None, 'infeasible'
            except Exception as e:
                v, exc = None, e
        finally:
            CTX = outer
        facts = [x for x in c.pc[len(outer.pc):] if local in x.fv]
        for x in c.pc:
            if local not in x.fv and not any(x is y for y in outer.pc):
                outer.pc.append(x)
        if exc != 'infeasible':
            res.append((facts, v, exc))
        stack.extend(c.alternatives)
        if len(res) > max_paths:
            raise Unsupported('more than %d paths in a comprehension' % max_paths)
    if not res:
        raise Infeasible()
    if len(res) == 1 and res[0][2] is not None:
        raise res[0][2]
    if any(e is not None for f, v, e in res):
        raise Unsupported('comprehension that raises for some elements only')
    return [(f, v) for f, v, e in res]
