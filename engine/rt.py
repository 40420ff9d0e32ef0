"""Path exploration: contexts, frames, branching by re-execution with decision prefixes."""
import z3

from . import terms as T
from .terms import Sym, Unsupported
from . import solver as SV


class Signal(BaseException):
    """Control transfer used while a loop body is explored; never visible to the code under test."""

    def __init__(self, loop, kind):
        self.loop, self.kind = loop, kind


class Infeasible(BaseException):
    """The current path contradicts its assumptions."""


class CarriedUse(BaseException):
    """A loop-carried location was read before being written in this iteration."""

    def __init__(self, loc):
        self.loc = loc


class NeedSym(BaseException):
    """A while condition is symbolic: the loop has to be summarised."""


class PathLimit(Unsupported):
    pass


class PoisonRead(BaseException):
    """State left over from an earlier use was read."""

    def __init__(self, what):
        self.what = what


class Frame:
    def __init__(self, prefix=(), parent=None):
        self.prefix = list(prefix)
        self.dec = []           # (bool, flippable, not implied)
        self.path = []          # z3 conditions added in this frame
        self.tags = []          # parallel: 'c' condition / 'first' first-exit assumption
        self.skolems = []
        self.memo = {}
        self.abstract = False
        self.lastsplit = None   # index in path after which nothing but an inner loop exit happened
        self.notes = []

    def alternatives(self):
        out = []
        n0 = len(self.prefix)
        for i in range(len(self.dec) - 1, n0 - 1, -1):
            v, flip, _ = self.dec[i]
            if flip:
                out.append([(d, fork) for d, _, fork in self.dec[:i]] + [(not v, True)])
        return out


class Ctx:
    MAX_DEC = 400

    def __init__(self, max_paths=400, deadline=None):
        self.frames = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 250)
        self.max_paths = max_paths
        self.deadline = deadline
        self.nofork = 0
        self.used = set()        # names of code objects executed (functions under verification)
        self.assumptions = set()
        self.names = {}
        self.subs = []           # substitutions under which code is being evaluated (innermost last)

    def _sub(self, c):
        for pairs in reversed(self.subs):
            c = z3.substitute(c, *pairs)
        return c

    # -- frames
    @property
    def top(self):
        return self.frames[-1]

    def push(self, prefix=()):
        f = Frame(prefix)
        self.frames.append(f)
        self.solver.push()
        return f

    def pop(self):
        self.solver.pop()
        return self.frames.pop()

    def hyps(self):
        return [c for f in self.frames for c in f.path]

    @property
    def abstract(self):
        return any(f.abstract for f in self.frames)

    def assume(self, c, tag='c', tell=True):
        if isinstance(c, Sym):
            c = c.e
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        if tag == 'b':               # a branch condition, already substituted
            tag = 'c'
        elif self.subs:
            c = self._sub(c)
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return
        if z3.is_false(cs):
            raise Infeasible()
        f = self.top
        f.path.append(c)
        f.tags.append(tag)
        f.memo[cs.get_id()] = (cs, True)
        if tell:                     # (otherwise for the obligations only)
            self.solver.add(c)

    def _known(self, c):
        for f in reversed(self.frames):
            r = f.memo.get(c.get_id())
            if r is not None:
                return r[1]
        return None

    def implied_all(self, ks, c):
        """implied for all values of the fresh constants ks (they occur nowhere else)."""
        return self.implied(c)

    def _ask(self, c):
        """is c implied?  (True/False/None unknown)"""
        SV.STATS['queries'] += 1
        self.tick()
        r = self.solver.check(z3.Not(c))
        return r == z3.unsat, r == z3.unknown

    def tick(self):
        import time
        if self.deadline and time.time() > self.deadline:
            raise Timeout()

    def implied(self, c):
        """Sound query recorded in the decision list so that re-execution is deterministic."""
        if isinstance(c, Sym):
            c = c.e
        if isinstance(c, bool):
            return c
        if self.subs:
            c = self._sub(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = self._known(c)
        if k is not None:
            return k
        f = self.top
        i = len(f.dec)
        if i < len(f.prefix):
            d = f.prefix[i][0]
        else:
            d = self._ask(c)[0]
        f.dec.append((d, False, False))
        if d:
            f.memo[c.get_id()] = (c, True)
        return d

    def branch(self, c):
        if isinstance(c, Sym):
            c = c.e
        if self.subs:
            c = self._sub(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = self._known(c)
        if k is not None:
            return k
        nc = z3.simplify(z3.Not(c))
        k = self._known(nc)
        if k is not None:
            return not k
        f = self.top
        i = len(f.dec)
        if i < len(f.prefix):
            d, fork = f.prefix[i]
            f.dec.append((d, False, fork))
            if fork:
                self.assume(c if d else nc, 'b')
            else:                    # it followed from what is assumed already
                x = c if d else nc
                f.memo[x.get_id()] = (x, True)
            return d
        if i > self.MAX_DEC:
            raise PathLimit('too many decisions on one path')
        if self._ask(c)[0]:
            f.dec.append((True, False, False))
            f.memo[c.get_id()] = (c, True)
            return True
        if self._ask(nc)[0]:
            f.dec.append((False, False, False))
            f.memo[nc.get_id()] = (nc, True)
            return False
        if self.nofork:
            raise NeedSym()
        f.dec.append((True, True, True))
        self.assume(c, 'b')
        return True

    def choose(self, n, name='choice'):
        """Unconstrained fork over n alternatives."""
        for i in range(n - 1):
            f = self.top
            k = len(f.dec)
            if k < len(f.prefix):
                d = f.prefix[k][0]
                f.dec.append((d, False, True))
            else:
                if self.nofork:
                    raise NeedSym()
                d = True
                f.dec.append((True, True, True))
            if d:
                return i
        return n - 1

    def fresh(self, name, sort=None):
        c = z3.Const(f'{name}!{next(T._fresh)}', sort if sort is not None else T.Z)
        if self.frames:
            self.top.skolems.append(c)
        return c


class Timeout(BaseException):
    pass


def explore(ctx, fn, on_path=None):
    """Run fn() on every feasible path. fn's outcome is handed to on_path while the frame is still open."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > ctx.max_paths:
            raise PathLimit(f'more than {ctx.max_paths} paths')
        ctx.tick()
        f = ctx.push(prefix)
        base = len(ctx.frames)
        try:
            try:
                out = fn()
                if on_path:
                    on_path(out)
            except Infeasible:
                pass
            while len(ctx.frames) > base:
                ctx.pop()
            stack.extend(f.alternatives())
        finally:
            while len(ctx.frames) > base - 1:
                ctx.pop()
    return n
