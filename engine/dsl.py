"""Contracts: functions over an S object that is either symbolic (obligations are proved on the instrumented real source)
or concrete (the same contract is evaluated on the installed package with given inputs)."""
import builtins
import importlib
import math
import random as _random
import sys
import time
import traceback
import types

import numpy as np

CONTRACTS = []


class Contract:
    def __init__(self, prop, fn, name, fns, text, trials, sym, budget, abstract_ok, hoare=None):
        self.prop, self.fn, self.name, self.fns, self.text = prop, fn, name, fns, text
        self.trials, self.sym, self.budget = trials, sym, budget
        self.abstract_ok = abstract_ok
        self.hoare = hoare


def contract(prop, *fns, trials=60, sym=True, budget=25, name=None, abstract_ok=False, hoare=None):
    """sym=False: the function lies outside the verifier's reach and is only evaluated (bounded). hoare=(module, contracts): the
    functions are verified with loop invariants by engine/hoare.py; fn is then the whole-behaviour statement evaluated on the real code."""
    def deco(fn):
        props = prop if isinstance(prop, (tuple, builtins.list)) else (prop,)
        for p in props:
            CONTRACTS.append(Contract(p, fn, name or fn.__name__, fns, (fn.__doc__ or '').strip(), trials, sym, budget, abstract_ok, hoare))
        return fn
    return deco


class Skip(BaseException):
    pass


class Failed(Exception):
    def __init__(self, ob, detail=''):
        self.ob, self.detail = ob, detail


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


class Base:
    """API shared by both modes."""
    def mod(self, path):
        return importlib.import_module(self.pkg + ('.' + path if path else ''))

    @property
    def Matrix(self):
        return self.mod('core.matrix').Matrix

    @property
    def factory(self):
        return self.mod('core.matrix.factory')

    @property
    def helper(self):
        return self.mod('core.matrix.helper')

    def cls(self, spec):
        m, c = spec.rsplit('.', 1)
        return getattr(self.mod(m), c)

    def shape(self, name, M, r, c):
        self.check(name + ' rows', self.eqi(M.num_rows(), r))
        self.check(name + ' columns', self.eqi(M.num_columns(), c))

    def is_matrix(self, name, M, r, c, f, tol=1e-7, exact=False):
        """M is an r x c matrix with cell (i,j) = f(i,j)."""
        self.check(name + ' is a matrix', isinstance(M, self.Matrix))
        self.shape(name, M, r, c)
        self.forall(name + ' cells', (r, c), lambda i, j: self.same(self.at(M, i, j), f(i, j)) if exact else self.eq(self.at(M, i, j), f(i, j), tol))

    def same_matrix(self, name, M, N, tol=1e-7, exact=False):
        self.is_matrix(name, M, N.num_rows(), N.num_columns(), lambda i, j: self.at(N, i, j), tol, exact)

    def raises(self, fn, *a, **k):
        """The exception fn raises, or None."""
        try:
            fn(*a, **k)
        except Exception as e:
            return e
        return None

    def rejects(self, name, fn, *a, **k):
        self.check(name + ' raises an exception', self.raises(fn, *a, **k) is not None)

    def accepts(self, name, fn, *a, **k):
        r = []
        try:
            r.append(fn(*a, **k))
        except Exception as e:
            self.check(name + ' does not raise', False, repr(e))
            raise Skip()
        return r[0]


# =============================================================================================== concrete

class Concrete(Base):
    pkg = 'wai.ma'
    symbolic = False

    def __init__(self, seed, given=None, style=0):
        self.rng = _random.Random(seed)
        self.given = given or {}
        self.used = {}
        self.style = style
        self.snaps = {}
        self.given_matrices = {}
        self.failures = []
        self.checks = 0
        self.tolscale = 1.0

    # inputs
    def dim(self, name, lo=1, hi=7):
        if name in self.given:
            v = int(self.given[name])
        else:
            r = self.rng
            if hi == 7 and r.random() < .04:
                hi = 24
            v = lo + (r.choice([0, 0, 1, 1, 2, 3, 4, 5]) if r.random() < .8 and hi != 24 else r.randint(0, max(0, hi - lo)))
            v = min(v, hi) if hi is not None else v
        self.used[name] = v
        return v

    def int(self, name, lo=-10, hi=10):
        v = int(self.given[name]) if name in self.given else self.rng.randint(lo, hi)
        self.used[name] = v
        return v

    def _val(self):
        r = self.rng
        st = self.style
        if st == 0:
            return float(r.choice([-3, -2, -1, 0, 0, 1, 1, 2, 3, 5]))
        if st == 1:
            return r.gauss(0, 1)
        if st == 2:
            return r.gauss(0, 1) * 10 ** r.randint(-3, 3)
        return r.uniform(0.1, 3)

    def real(self, name, positive=False, nonzero=False, lo=None, hi=None):
        if name in self.given:
            v = float(self.given[name])
        elif lo is not None or hi is not None:
            v = self.rng.uniform(lo if lo is not None else -10, hi if hi is not None else 10)
        else:
            v = self._val()
            if positive:
                v = abs(v)
            if (positive or nonzero) and v == 0:
                v = 1.5
        self.used[name] = v
        return np.float64(v)

    def bool(self, name):
        v = bool(self.given[name]) if name in self.given else self.rng.random() < .5
        self.used[name] = v
        return v

    def choice(self, name, opts):
        opts = list(opts)
        i = int(self.given[name]) if name in self.given else self.rng.randrange(len(opts))
        self.used[name] = i
        return opts[i]

    def matrix(self, name, r, c, gen=None, positive=False):
        if name in self.given:
            d = np.array(self.given[name], dtype=float).reshape(r, c)
        else:
            st = self.style
            if gen is not None:
                d = np.array([[gen(i, j) for j in range(c)] for i in range(r)], dtype=float).reshape(r, c)
            else:
                d = np.array([[abs(self._val()) + .1 if positive else self._val() for j in range(c)] for i in range(r)], dtype=float).reshape(r, c)
                if self.rng.random() < .15 and c > 0 and not positive:
                    d[:, self.rng.randrange(c)] = d[0, 0] if r else 0   # constant column
        self.used[name] = d.tolist()
        M = self.Matrix(d)
        self.snaps[id(M)] = (M, d.copy(), M.data)
        self.given_matrices[name] = M
        return M

    def inputs_matrix(self, name):
        """The matrix made by matrix(name, ...)."""
        return self.given_matrices[name]

    def build(self, r, c, f):
        """An r x c matrix with cell (i, j) = f(i, j)."""
        return self.Matrix(np.array([[f(i, j) for j in range(c)] for i in range(r)], dtype=float).reshape(r, c))

    def carray(self, name, r, c):
        """Complex r x c array."""
        if name in self.given:
            d = np.array([[complex(*x) for x in row] for row in self.given[name]]).reshape(r, c)
        else:
            d = np.array([[complex(self._val(), self._val()) for j in range(c)] for i in range(r)]).reshape(r, c)
        self.used[name] = [[[x.real, x.imag] for x in row] for row in d.tolist()]
        return d

    def opaque(self, on=True):
        """From here on the contents of matrices built by the code are named instead of expanded (determinism arguments)."""

    def undecided(self, why):
        raise Skip()

    def cell(self, a, i, j): return a[i, j]
    def re(self, x): return x.real
    def im(self, x): return x.imag
    def atan2(self, y, x): return math.atan2(y, x)
    def cos(self, x): return math.cos(x)
    def sin(self, x): return math.sin(x)

    def list(self, name, n, elem):
        v = [elem(i) for i in range(n)]
        self.used[name] = [float(x) if isinstance(x, (float, np.floating)) else x for x in v]
        return v

    def intlist(self, name, n, lo, hi):
        """List of n ints in [lo, hi)."""
        v = [int(x) for x in self.given[name]] if name in self.given else [self.rng.randrange(lo, hi) for _ in range(n)]
        self.used[name] = v
        return v

    def indexset(self, name, n, limit):
        """A set of n indices below limit, and its ascending list."""
        l = sorted(set(self.intlist(name, n, 0, limit)))
        return set(l), l

    def reallist(self, name, n):
        v = [np.float64(x) for x in self.given[name]] if name in self.given else [np.float64(self._val()) for _ in range(n)]
        self.used[name] = [float(x) for x in v]
        return v

    # text
    def textfile(self, named=False, lines=()):
        import io
        import os
        import tempfile
        if not named:
            return io.StringIO(''.join(lines))
        if not hasattr(self, '_dir'):
            self._dir, self._files = tempfile.TemporaryDirectory(), 0
        self._files += 1
        p = os.path.join(self._dir.name, f'{self._files}.txt')
        if lines:
            with open(p, 'w') as f:
                f.write(''.join(lines))
        return p

    def rewound(self, f):
        if not isinstance(f, str):
            f.seek(0)
        return f

    def filelines(self, f):
        if isinstance(f, str):
            with open(f) as g:
                return g.read().splitlines(True)
        return f.getvalue().splitlines(True)

    def number(self, t): return float(t)
    def half_unit(self, d): return .5 * 10.0 ** -d * (1 + 1e-9)
    def relative_unit(self, d): return 10.0 ** -d

    def decimals(self, name, t, d):
        t = t.strip()
        self.check(name, (len(t.split('.')[1]) if '.' in t else 0) == d, t)

    def counted_text(self, name, t, head, i):
        self.check(name, t == head + str(i), t)

    def join(self, sep, it): return sep.join(it)

    def finite(self, A):
        self.assume(bool(np.isfinite(A.data).all()))

    def recorder(self):
        import io
        return io.BytesIO()

    def written(self, name, rec, parts):
        """The stream holds exactly the parts, in order: a number or a matrix (row count, column count, cells in row order)."""
        import struct
        b = rec.getvalue()
        pos = 0

        def take(fmt, k):
            nonlocal pos
            self.check(name + ': enough bytes', pos + k <= builtins.len(b))
            v = struct.unpack(fmt, b[pos:pos + k])[0]
            pos += k
            return v
        for q, p in enumerate(parts):
            if isinstance(p, self.Matrix):
                self.check(f'{name}: part {q} rows', take('<i', 4) == p.num_rows())
                self.check(f'{name}: part {q} columns', take('<i', 4) == p.num_columns())
                for i in range(p.num_rows()):
                    for j in range(p.num_columns()):
                        self.check(f'{name}: part {q} cells', self.same(take('<d', 8), p.data[i, j]), f'at {(i, j)}')
            elif isinstance(p, int):
                self.check(f'{name}: part {q}', take('<i', 4) == p)
            elif isinstance(p, tuple):           # a computed number: up to rounding
                v = take('<d', 8)
                self.check(f'{name}: part {q}', abs(v - p[0]) <= 1e-13 * abs(p[0]))
            else:
                self.check(f'{name}: part {q}', self.same(take('<d', 8), p))
        self.check(name + ': nothing else is written', pos == builtins.len(b))

    # observation
    def at(self, M, i, j):
        return M.data[i, j]

    def cells(self, M):
        """Frozen copy of the contents as a function (i,j)->value."""
        d = np.array(M.data, copy=True)
        return lambda i, j: d[i, j]

    def len(self, l):
        return builtins.len(l)

    def item(self, l, i):
        return l[i]

    def unchanged(self, name, M):
        _, d, ref = self.snaps[id(M)]
        self.check(name + ' unchanged', M.data.shape == d.shape and _same_arr(M.data, d))

    def fresh(self, name, M, *others):
        for o in others:
            self.check(name + ' shares no storage with its inputs', M is not o and not np.shares_memory(M.data, o.data if hasattr(o, 'data') else o))

    # logic
    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, name, c, detail=''):
        self.checks += 1
        try:
            ok = builtins.bool(c)
        except ValueError:
            ok = False
        if not ok:
            raise Failed(name, detail)

    def forall(self, name, dims, fn):
        for idx in np.ndindex(*[int(d) for d in dims]):
            self.check(name, fn(*[int(i) for i in idx]), f'at {tuple(int(i) for i in idx)}')

    def exists(self, dims, fn):
        return any(fn(*[int(i) for i in idx]) for idx in np.ndindex(*[int(d) for d in dims]))

    def every(self, dims, fn):
        return all(fn(*[int(i) for i in idx]) for idx in np.ndindex(*[int(d) for d in dims]))

    def eq(self, a, b, tol=1e-7):
        try:
            if isinstance(a, complex) or isinstance(b, complex) or np.iscomplexobj(a) or np.iscomplexobj(b):
                return abs(a - b) <= tol * (1 + abs(a) + abs(b))
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (1 + max(abs(a), abs(b))) * self.tolscale

    def same(self, a, b):
        try:
            return a == b or (a != a and b != b)
        except Exception:
            return False

    def eqi(self, a, b):
        return a == b

    def sum(self, n, f):
        return math.fsum(float(f(k)) for k in range(int(n)))

    def pow(self, a, b): return float(a) ** int(b)
    def power(self, a, b): return float(a) ** float(b)

    def order(self, n, key):
        """The positions 0..n-1 by increasing key, ties in their order, as a function of the place."""
        return sorted(range(int(n)), key=key).__getitem__

    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float('nan')
    def exp(self, x): return math.exp(x) if x < 709 else float('inf')
    def log(self, x): return math.log(x) if x > 0 else float('nan')
    def ite(self, c, a, b): return a if c else b
    def div(self, a, b):
        with np.errstate(all='ignore'):
            return np.float64(a) / np.float64(b)
    def min(self, a, b): return builtins.min(a, b)
    def max(self, a, b): return builtins.max(a, b)
    def and_(self, *a): return all(a)
    def or_(self, *a): return any(a)
    def not_(self, a): return not a
    def implies(self, a, b): return (not a) or b
    def selection(self, n, pred):
        """The numbers below n that satisfy the predicate, in order."""
        return [q for q in range(n) if pred(q)]

    def member(self, l, x):
        return x in l

    def lists(self, l, x, at):
        """The list has the element x (at is the number of the candidate, for the prover)."""
        return x in l
    def iff(self, a, b): return builtins.bool(a) == builtins.bool(b)
    def isnan(self, a): return a != a
    def floordiv(self, a, b): return a // b
    def rest(self, a, b): return a % b


def _same_arr(a, b):
    return bool(np.all((a == b) | ((a != a) & (b != b))))


# =============================================================================================== symbolic

def make_symbolic():
    from . import terms as T, rt, arr, pyb, solver, vf as V, loops
    from .terms import Sym, ex, compare, arith, ite, land, lor, lnot, isconc, Unsupported
    import z3

    class Symbolic(Base):
        pkg = 'symwai.ma'
        symbolic = True

        def __init__(self, ctx, deadline, report):
            self.ctx = ctx
            ctx.files = {}
            self.deadline = deadline
            self.report = report
            self.inputs = {}
            self.snaps = {}
            self.given_matrices = {}
            self.names = {}

        def opaque(self, on=True):
            self.ctx.opaque = on

        def _nm(self, name):
            return name

        def _const(self, name, sort):
            c = z3.Const('in_' + name, sort)
            return c

        def dim(self, name, lo=1, hi=None):
            c = self._const(name, T.Z)
            self.inputs[name] = ('int', c)
            self.ctx.assume(c >= lo)
            return Sym(c, int)

        def int(self, name, lo=None, hi=None):
            c = self._const(name, T.Z)
            self.inputs[name] = ('int', c)
            return Sym(c, int)

        def real(self, name, positive=False, nonzero=False, lo=None, hi=None):
            c = self._const(name, T.R)
            self.inputs[name] = ('real', c)
            if positive: self.ctx.assume(c > 0)
            elif nonzero: self.ctx.assume(c != 0)
            if lo is not None: self.ctx.assume(c >= T.ex(lo, T.R))
            if hi is not None: self.ctx.assume(c <= T.ex(hi, T.R))
            return Sym(c, np.float64)

        def bool(self, name):
            c = self._const(name, T.B)
            self.inputs[name] = ('bool', c)
            return self.ctx.branch(c)

        def choice(self, name, opts):
            opts = builtins.list(opts)
            i = self.ctx.choose(builtins.len(opts))
            self.inputs[name] = ('fixed', i)
            return opts[i]

        def matrix(self, name, r, c, gen=None, positive=False):
            f = T.uf('in_' + name, T.Z, T.Z, T.R)
            self.inputs[name] = ('matrix', f, r, c)
            a = arr.SArr.new((r, c), lambda idx: Sym(f(ex(idx[0], T.Z), ex(idx[1], T.Z)), np.float64), 'f', name)
            if positive:
                i, j = z3.Int('!pi'), z3.Int('!pj')
                self.ctx.assume(z3.ForAll([i, j], f(i, j) > 0, patterns=[f(i, j)]), 'def')
            M = self.Matrix(a)
            self.snaps[id(M)] = (M, a.frozen(), (r, c), a.store)
            self.given_matrices[name] = M
            return M

        def inputs_matrix(self, name):
            return self.given_matrices[name]

        def build(self, r, c, f):
            return self.Matrix(arr.SArr.new((r, c), lambda idx: f(idx[0], idx[1]), 'f', 'built'))

        def carray(self, name, r, c):
            f, g = T.uf('in_' + name + '_re', T.Z, T.Z, T.R), T.uf('in_' + name + '_im', T.Z, T.Z, T.R)
            self.inputs[name] = ('carray', f, g, r, c)
            z = lambda idx: (ex(idx[0], T.Z), ex(idx[1], T.Z))
            return arr.SArr.new((r, c), lambda idx: T.CPair(Sym(f(*z(idx)), np.float64), Sym(g(*z(idx)), np.float64)), 'c', name)

        def undecided(self, why):
            raise Unsupported(why)

        def cell(self, a, i, j): return a.at(i, j)
        def re(self, x): return T.cpair(x).re
        def im(self, x): return T.cpair(x).im
        def atan2(self, y, x): return T.atan2_(y, x)
        def cos(self, x): return T.cos_(x)
        def sin(self, x): return T.sin_(x)

        def intlist(self, name, n, lo, hi):
            f = T.uf('inl_' + name, T.Z, T.Z)
            self.inputs[name] = ('intlist', f, n)
            k = z3.Int('!lk')
            self.ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ex(n, T.Z)), z3.And(f(k) >= ex(lo, T.Z), f(k) < ex(hi, T.Z))), patterns=[f(k)]), 'def')
            if isconc(n):
                return pyb.SList.of([Sym(f(z3.IntVal(q)), int) for q in range(n)])

            def item(q):
                q = ex(q, T.Z)
                v = f(q)
                self.ctx.assume(z3.Implies(z3.And(q >= 0, q < ex(n, T.Z)), z3.And(v >= ex(lo, T.Z), v < ex(hi, T.Z))), 'def')
                return Sym(v, int)
            return pyb.SList.tmpl(n, item)

        def indexset(self, name, n, limit):
            l = self.intlist(name, n, 0, limit)
            return pyb.IndexSet(name, l), l

        def reallist(self, name, n):
            f = T.uf('inr_' + name, T.Z, T.R)
            self.inputs[name] = ('reallist', f, n)
            if isconc(n):
                return pyb.SList.of([Sym(f(z3.IntVal(q)), np.float64) for q in range(n)])
            return pyb.SList.tmpl(n, lambda q: Sym(f(ex(q, T.Z)), np.float64))

        # text
        def textfile(self, named=False, lines=()):
            """An empty text file (by name) or stream; both are what helper.write and helper.read take."""
            from . import text
            if named:
                n = '/model/%d' % builtins.len(self.ctx.files)
                if lines:
                    self.ctx.files[n] = text.TextFile(lines)
                return n
            return text.TextFile(lines)

        def rewound(self, f):
            if not isinstance(f, str):
                f.seek(0)
            return f

        def finite(self, A):
            self.assume(self.every(A.data.shape, lambda i, j: lnot(arr.fisnan(A.data.at(i, j)))))

        def filelines(self, f):
            return (self.ctx.files[f] if isinstance(f, str) else f).lines()

        def number(self, t):
            from . import text
            return text.parse(t)

        def half_unit(self, d):
            from . import text
            return text.half_unit(d)

        def relative_unit(self, d):
            from . import text
            return text.relative_unit(d)

        def decimals(self, name, t, d):
            """t is the text of a number with exactly d decimals."""
            from . import text
            if type(t) is text.Text:
                t = t.strip()
            if type(t) is not text.Text or builtins.len(t.parts) != 1 or type(t.parts[0]) is not text.Num or t.parts[0].mode != 'fixed':
                self.check(name, False)
            else:
                self.check(name, land(t.parts[0].trim == 'k', compare('==', t.parts[0].d, d)))

        def counted_text(self, name, t, head, i):
            """t is head followed by the number i."""
            from . import text
            ps = text.parts_of(t)
            ok = builtins.len(ps) == 2 and type(ps[0]) is text.Lit and type(ps[1]) is text.Num and ps[0].s == head and ps[1].mode == 'int'
            self.check(name, compare('==', ps[1].v, i) if ok else False)

        def join(self, sep, it):
            from . import text
            return text.join(sep, it)

        def recorder(self):
            from . import textio
            return textio.Recorder()

        def written(self, name, rec, parts):
            items = rec.items
            pos = 0

            def item(q, fmt, v):
                c = items[q]
                f, _, x = c
                if f != fmt:
                    return False
                return pyb.compare_any(x, v)
            for q, p in enumerate(parts):
                if isinstance(p, tuple):
                    p = p[0]
                if isinstance(p, self.Matrix):
                    self.check(f'{name}: part {q} rows', item(pos, '<i', p.num_rows()))
                    self.check(f'{name}: part {q} columns', item(arith('+', pos, 1), '<i', p.num_columns()))
                    base = arith('+', pos, 2)
                    m = p.num_columns()
                    self.forall(f'{name}: part {q} cells', (p.num_rows(), m), lambda i, j: item(arith('+', base, arith('+', arith('*', i, m), j)), '<d', p.data.at(i, j)))
                    pos = arith('+', base, arith('*', p.num_rows(), m))
                else:
                    self.check(f'{name}: part {q}', item(pos, '<i' if isinstance(p, int) or (isinstance(p, Sym) and p.kind() == 'i') else '<d', p))
                    pos = arith('+', pos, 1)
            self.check(name + ': nothing else is written', compare('==', pyb.v_len(items), pos))

        # observation
        def at(self, M, i, j):
            return M.data.at(i, j)

        def cells(self, M):
            return M.data.frozen()

        def len(self, l):
            return pyb.v_len(l)

        def item(self, l, i):
            """l[i] for an index the contract knows to be in range (no bounds check)."""
            segs = l.segs
            if builtins.len(segs) == 1 and segs[0].kind == 'tmpl':
                return segs[0].fn(i)
            return l[i]

        def unchanged(self, name, M):
            _, g, shp, st = self.snaps[id(M)]
            self.check(name + ' keeps its shape', land(*[compare('==', a, b) for a, b in zip(M.data.shape, shp)]))
            self.forall(name + ' unchanged', shp, lambda i, j: self.same(M.data.at(i, j), g(i, j)))

        def fresh(self, name, M, *others):
            for o in others:
                a, b = M.data, (o.data if hasattr(o, 'data') and not isinstance(o, arr.SArr) else o)
                self.check(name + ' shares no storage with its inputs', M is not o and a.store is not b.store)

        # logic
        def assume(self, c):
            if isinstance(c, Sym):
                self.ctx.assume(ex(c, T.B))
                # contradictory assumptions end the path
                r = self.ctx.solver.check()
                if r == z3.unsat:
                    raise rt.Infeasible()
            elif not c:
                raise rt.Infeasible()

        def check(self, name, c, detail=''):
            self.report(self, name, c, detail)

        def forall(self, name, dims, fn):
            if any(isconc(d) and d <= 0 for d in dims):
                return

            def body():
                ks = []
                for d in dims:
                    if isconc(d) and d == 1:
                        ks.append(0)
                        continue
                    k = T.fresh_int('i')
                    self.ctx.assume(k >= 0)
                    self.ctx.assume(k < ex(d, T.Z))
                    ks.append(Sym(k, int))
                return fn(*ks)
            rt.explore(self.ctx, body, lambda r: self.check(name, r))

        def exists(self, dims, fn):
            def rec(ds, pre):
                if not ds:
                    return fn(*pre)
                return pyb.exists(ds[0], lambda k: rec(ds[1:], pre + [k]))
            return rec(builtins.list(dims), [])

        def every(self, dims, fn):
            def rec(ds, pre):
                if not ds:
                    return fn(*pre)
                return pyb.forall(ds[0], lambda k: rec(ds[1:], pre + [k]))
            return rec(builtins.list(dims), [])

        def eq(self, a, b, tol=None): return pyb.compare_any(a, b)
        def same(self, a, b): return pyb.compare_any(a, b)
        def eqi(self, a, b): return compare('==', a, b)
        def sum(self, n, f): return T.mk_sum(n, f)
        def pow(self, a, b): return T.power(a, b)
        def power(self, a, b): return T.power(a, b)
        def order(self, n, key): return pyb.sort_perm(n, key, False)
        def sqrt(self, x): return T.sqrt_(x)
        def exp(self, x): return T.exp_(x)
        def log(self, x): return T.log_(x)
        def ite(self, c, a, b): return ite(c, a, b)
        def div(self, a, b): return arith('/', a, b)
        def min(self, a, b): return pyb.smin(a, b)
        def max(self, a, b): return arith('-', 0, pyb.smin(arith('-', 0, a), arith('-', 0, b)))
        def and_(self, *a): return land(*a)
        def or_(self, *a): return lor(*a)
        def not_(self, a): return lnot(a)
        def implies(self, a, b): return lor(lnot(a), b)

        def selection(self, n, pred):
            l = pyb.SList()
            l.segs = (pyb.Seg('filt', n, lambda q: q, pred),)
            return l

        def member(self, l, x):
            return l.contains(x)

        def lists(self, l, x, at):
            segs = pyb.fixed(l.segs)
            if builtins.all(g.kind == 'items' for g in segs):
                return lor(*[pyb.compare_any(y, x) for g in segs for y in g.items]) if segs else False
            if len(segs) != 1 or segs[0].kind != 'filt':
                raise Unsupported('not a selection')
            s = segs[0]
            return land(compare('>=', at, 0), compare('<', at, s.n), s.pred(at), pyb.compare_any(s.fn(at), x))
        def iff(self, a, b): return compare('==', a, b)
        def isnan(self, a): return arr.fisnan(a)
        def floordiv(self, a, b): return arith('//', a, b)
        def rest(self, a, b): return arith('%', a, b)

    return Symbolic
