"""Symbolic numpy arrays and the numpy functions the code under verification uses."""
import builtins
import math
import types

import numpy as np
import z3

from . import terms as T
from .terms import Sym, CPair, Unsupported, ex, val, ctx, compare, arith, ite, land, lor, lnot, isconc, mk_sum, cpair
from . import pyb, text
from .pyb import SList, norm_index, slice_bounds, intval, poke, seq_of
from .rt import CarriedUse

_ids = iter(range(10 ** 12))


class Store:
    """Backing storage: contents as a function of the index tuple."""
    __slots__ = ('shape', 'fn', 'dt', 'id', 'wlog', 'name', 'memo')

    def __init__(self, shape, fn, dt='f', name=None):
        self.shape, self.fn, self.dt = tuple(shape), fn, dt
        self.id = next(_ids)
        self.wlog = []
        self.name = name
        self.memo = {}

    def get(self, idx):
        key = tuple(i if isconc(i) else ('s', i.e.get_id()) for i in idx)
        m = self.memo.get(key)
        if m is None:
            v = self.fn(idx)
            m = self.memo[key] = (v, idx)
        return m[0]

    def setfn(self, fn):
        self.fn = fn
        self.memo = {}

    def write(self, hit, value):
        """value(idx) stored at every idx with hit(idx)."""
        old = self.fn
        dt = self.dt

        def fn(idx, old=old, hit=hit, value=value):
            h = hit(idx)
            if h is False:
                return old(idx)
            v = value(idx)
            v = convert(v, dt)
            if h is True:
                return v
            return ite(h, v, old(idx))
        self.wlog.append((hit, lambda idx: convert(value(idx), dt)))
        self.setfn(fn)


def convert(v, dt):
    if dt == 'f':
        if isinstance(v, CPair):
            if isconc(v.im) and v.im == 0:
                return convert(v.re, 'f')
            raise Unsupported('complex stored in a real array')
        if isinstance(v, Sym):
            return v if v.e.sort() == T.R and v.t is np.float64 else Sym(ex(v, T.R), np.float64)
        if isinstance(v, (int, float, np.integer, np.floating, np.bool_)):
            return np.float64(v)
        if hasattr(v, '_scalar'):
            return convert(v._scalar(), dt)
        if isinstance(v, str):
            return np.float64(v)
        if v is None:
            raise TypeError('float() argument must be a string or a real number, not NoneType')
        raise Unsupported(f'cannot store {type(v).__name__} in a float array')
    if dt == 'i':
        if isinstance(v, Sym):
            if v.e.sort() == T.Z: return Sym(v.e, np.int64)
            return pyb.v_int(v)
        return int(v)
    if dt == 'c':
        return cpair(v)
    if dt == 'b':
        if isinstance(v, Sym):
            return Sym(ex(v, T.B), bool)
        return bool(v)
    return v


def dt_of_val(v):
    if isinstance(v, (bool, np.bool_)) or (isinstance(v, Sym) and v.kind() == 'b'): return 'b'
    if isinstance(v, (int, np.integer)) or (isinstance(v, Sym) and v.kind() == 'i'): return 'i'
    if isinstance(v, (CPair, complex, np.complexfloating)): return 'c'
    if isinstance(v, Sym) and v.t is np.int64: return 'f'
    return 'f'


def join_dt(a, b):
    order = 'bifc'
    if a not in order or b not in order:
        return 'o'
    return order[builtins.max(order.index(a), order.index(b))]


def dt_of(d):
    if d is None: return None
    if d is Float64 or d is float or d is pyb.v_float or d in (np.float64, 'float64', 'd', 'f8', 'float'): return 'f'
    if d is int or d is pyb.v_int or d in (np.int64, 'int', np.int32): return 'i'
    if d is bool or d is pyb.v_bool or d is np.bool_: return 'b'
    if d is complex or d is np.complex128 or d is Complex128: return 'c'
    if isinstance(d, _DT): return d.k
    raise Unsupported(f'dtype {d}')


class _DT:
    def __init__(self, k): self.k = k
    def __eq__(self, o):
        try:
            return dt_of(o) == self.k
        except Unsupported:
            return False
    def __ne__(self, o): return not self == o
    __hash__ = None
    @property
    def kind(self): return self.k
    @property
    def name(self): return {'f': 'float64', 'i': 'int64', 'b': 'bool', 'c': 'complex128'}[self.k]
    @property
    def type(self): return {'f': Float64, 'i': np.int64, 'b': np.bool_, 'c': np.complex128}[self.k]


class _F64Meta(type):
    def __instancecheck__(cls, o):
        return pyb.v_isinstance(o, np.float64)

    def __call__(cls, v=0.0):
        poke(v)
        if isinstance(v, Sym):
            return Sym(ex(v, T.R), np.float64)
        if isinstance(v, SArr):
            if v.ndim == 0:
                return Float64(v._scalar())
            return v.astype(Float64)
        if isinstance(v, CPair):
            if isconc(v.im) and v.im == 0:
                return Float64(v.re)
            raise Unsupported('real() of a complex value')
        if isinstance(v, T.Fraction):
            return v
        if type(v) is SList:
            return asarray(v, 'f')
        if type(v) is text.Text or isinstance(v, str):
            return text.parse(v)
        return np.float64(v)


class Float64(metaclass=_F64Meta):
    pass


class Complex128:
    pass


pyb.SHIMCLS[Float64] = np.float64
pyb.SHIMCLS[pyb.v_float] = float
pyb.SHIMCLS[pyb.v_int] = int
pyb.SHIMCLS[pyb.v_bool] = bool
pyb.SHIMCLS[pyb.v_str] = str
pyb.SHIMCLS[pyb.v_tuple] = tuple
pyb.SHIMCLS[pyb.v_set] = set


def prod(dims):
    r = 1
    for d in dims:
        r = arith('*', r, d)
    return r


def same(a, b):
    """Syntactic equality of dims."""
    if isconc(a) and isconc(b):
        return a == b
    if isconc(a) or isconc(b):
        return False
    return z3.is_true(z3.simplify(a.e == b.e))


def dim_eq(a, b):
    if same(a, b):
        return True
    if isconc(a) and isconc(b):
        return False
    return ctx().branch(ex(a, T.Z) == ex(b, T.Z))


class SArr:
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, store, shape=None, imap=None):
        self.store = store
        self.shape = tuple(store.shape if shape is None else shape)
        self.imap = imap      # view index -> store index; None = identity

    # --- construction
    @staticmethod
    def new(shape, fn, dt='f', name=None):
        return SArr(Store(shape, fn, dt, name))

    def at(self, *idx):
        return self.store.get(idx if self.imap is None else self.imap(idx))

    def frozen(self):
        """Snapshot element function."""
        fn, im = self.store.fn, self.imap
        memo = {}

        def get(*idx):
            key = tuple(i if isconc(i) else ('s', i.e.get_id()) for i in idx)
            m = memo.get(key)
            if m is None:
                m = memo[key] = (fn(idx if im is None else im(idx)), idx)
            return m[0]
        return get

    @property
    def ndim(self): return len(self.shape)

    @property
    def size(self): return prod(self.shape)

    @property
    def dtype(self): return _DT(self.store.dt)

    @property
    def T(self): return self.transpose()

    @property
    def base(self): return None

    @property
    def real(self): return np_real(self)

    @property
    def imag(self): return np_imag(self)

    @property
    def flat(self):
        return self.ravel()

    def _len(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __len__(self):
        n = self._len()
        if isconc(n): return n
        raise Unsupported('native len of symbolic array')

    def _seq(self):
        if not self.shape:
            raise TypeError('iteration over a 0-d array')
        return self.shape[0], lambda k: self._row(k)

    def _row(self, k):
        if self.ndim == 1:
            return self.at(k)
        im = self.imap
        return SArr(self.store, self.shape[1:], (lambda idx: (k,) + tuple(idx)) if im is None else (lambda idx: im((k,) + tuple(idx))))

    def __iter__(self):
        n = self._len()
        if isconc(n):
            return iter([self._row(k) for k in range(n)])
        raise Unsupported('native iteration over symbolic array')

    def _scalar(self):
        if all(isconc(d) and d == 1 for d in self.shape):
            return self.at(*([0] * self.ndim))
        if self.ndim == 0:
            return self.at()
        for d in self.shape:
            if not dim_eq(d, 1):
                raise TypeError('only length-1 arrays can be converted to Python scalars')
        return self.at(*([0] * self.ndim))

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return self._scalar()

    def __float__(self): raise Unsupported('native float of array')

    def __bool__(self):
        return bool(self._scalar())

    def _as_index(self):
        return intval(self._scalar())

    # --- views
    def transpose(self, *axes):
        if axes:
            if len(axes) == 1 and isinstance(axes[0], (tuple, list)): axes = tuple(axes[0])
            if axes != tuple(reversed(range(self.ndim))):
                if axes == tuple(range(self.ndim)):
                    return SArr(self.store, self.shape, self.imap)
                raise Unsupported('general transpose')
        im = self.imap
        return SArr(self.store, self.shape[::-1],
                    (lambda idx: tuple(idx)[::-1]) if im is None else (lambda idx: im(tuple(idx)[::-1])))

    def view(self, *a):
        return SArr(self.store, self.shape, self.imap)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SList)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self): return reshape(self, (-1,))

    def flatten(self): return np_copy(reshape(self, (-1,)))

    def squeeze(self, axis=None):
        keep = []
        for i, d in enumerate(self.shape):
            if axis is not None and i != axis:
                keep.append(i); continue
            if not dim_eq(d, 1):
                if axis is not None:
                    raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
                keep.append(i)
        im = self.imap
        nd = self.ndim

        def m(idx):
            full = [0] * nd
            for q, i in zip(idx, keep):
                full[i] = q
            return tuple(full) if im is None else im(tuple(full))
        return SArr(self.store, [self.shape[i] for i in keep], m)

    def copy(self, order=None): return np_copy(self)

    def astype(self, d, copy=True):
        k = dt_of(d)
        g = self.frozen()
        return SArr.new(self.shape, lambda idx: convert(g(*idx), k), k)

    def tolist(self):
        g = self.frozen()
        return _tolist(g, self.shape, ())

    # --- reductions etc.
    def sum(self, axis=None, dtype=None, keepdims=False, **kw): return np_sum(self, axis, dtype, keepdims=keepdims)
    def mean(self, axis=None, dtype=None, keepdims=False, **kw): return np_mean(self, axis, dtype, keepdims=keepdims)
    def std(self, axis=None, dtype=None, ddof=0, keepdims=False, **kw): return np_std(self, axis, dtype, ddof=ddof, keepdims=keepdims)
    def max(self, axis=None, **kw): return np_amax(self, axis)
    def min(self, axis=None, **kw): return np_amin(self, axis)
    def any(self, axis=None): return np_any(self, axis)
    def all(self, axis=None): return np_all(self, axis)
    def dot(self, o): return np_dot(self, o)

    def fill(self, v):
        self.store_write_all(lambda idx: v)

    def sort(self, axis=-1):
        ax = axis + self.ndim if axis < 0 else axis
        g = self.frozen()
        n = self.shape[ax]
        if self.ndim == 1:
            perm = sort_fn(n, lambda k: g(k))
            self.store_write_all(lambda idx: g(perm(idx[0])))
            return
        if self.ndim != 2:
            raise Unsupported('sort')
        if ax == 0:
            if isconc(self.shape[1]) or True:
                self.store_write_all(lambda idx: g(sort_fn(n, lambda k: g(k, idx[1]))(idx[0]), idx[1]))
        else:
            self.store_write_all(lambda idx: g(idx[0], sort_fn(n, lambda k: g(idx[0], k))(idx[1])))

    # --- indexing
    def __getitem__(self, key):
        kind, v = index(self, key)
        if kind == 'elem':
            return self.at(*v)
        if kind == 'view':
            return v
        shape, f = v
        g = self.frozen()
        return SArr.new(shape, lambda idx: g(*f(idx)), self.store.dt)

    def __setitem__(self, key, value):
        poke(value)
        kind, v = index(self, key)
        if kind == 'elem':
            if isinstance(value, SArr):
                value = value._scalar() if value.ndim == 0 else elem_from_array(value)
            if type(value) is SList:
                raise ValueError('setting an array element with a sequence.')
            vv = convert(value, self.store.dt)
            tgt = v if self.imap is None else self.imap(v)
            self.store.write(lambda idx: land(*[compare('==', a, b) for a, b in zip(idx, tgt)]), lambda idx: vv)
            return
        if kind == 'view':
            v.assign(value)
            return
        shape, f = v
        src = broadcast_to(asarray(value), shape)
        g = src.frozen()
        # scatter: only injective fancy indexing with at most small concrete extents
        if all(isconc(d) for d in shape) and int(np.prod([int(d) for d in shape])) <= 64:
            for idx in np.ndindex(*[int(d) for d in shape]):
                tgt = f(idx)
                tgt = tuple(tgt) if self.imap is None else self.imap(tuple(tgt))
                vv = g(*idx)
                self.store.write(lambda i, tgt=tgt: land(*[compare('==', a, b) for a, b in zip(i, tgt)]), lambda i, vv=vv: vv)
            return
        raise Unsupported('assignment through an index array')

    def assign(self, value):
        """In-place overwrite of the whole (view of the) array."""
        src = asarray(value)
        if src.ndim > self.ndim:
            # numpy allows leading ones
            while src.ndim > self.ndim:
                if not dim_eq(src.shape[0], 1):
                    raise ValueError('could not broadcast input array')
                src = src._row(0)
        src = broadcast_to(src, self.shape, 'could not broadcast input array')
        g = src.frozen()
        self.store_write_all(lambda idx: g(*idx))

    def store_write_all(self, value):
        """Write value(view idx) to every cell of this view."""
        if self.imap is None:
            shape = self.shape
            self.store.write(lambda idx: True, value)
            return
        vs = [T.fresh_int('w') for _ in self.shape]
        tgt = self.imap(tuple(Sym(v, int) for v in vs))
        inv = invert(tgt, vs)
        if inv is None:
            raise Unsupported('write through a non-invertible view')
        sols, conds = inv
        shape = self.shape

        def vidx(idx):
            return tuple(lin_apply(s, idx) for s in sols)

        def hit(idx):
            cs = [c(idx) for c in conds]
            vi = vidx(idx)
            for q, d in zip(vi, shape):
                cs.append(compare('>=', q, 0))
                cs.append(compare('<', q, d))
            return land(*cs)
        self.store.write(hit, lambda idx: value(vidx(idx)))

    # --- operators
    def _b(self, op, o, sw=False):
        poke(o)
        if o is None or isinstance(o, str):
            raise TypeError(f'unsupported operand type(s) for {op}')
        if not (T.is_num(o) or isinstance(o, (SArr, CPair, SList, list, complex, tuple))):
            return NotImplemented
        a, b = (asarray(o), self) if sw else (self, asarray(o))
        return elementwise(lambda x, y: OPS[op](x, y), a, b)

    def _sym_binop(self, op, o, swapped): return self._b(op, o, True)
    def _sym_cmp(self, op, o): return elementwise(lambda x, y: compare(op, x, y), self, asarray(o))
    def __add__(self, o): return self._b('+', o)
    def __radd__(self, o): return self._b('+', o, True)
    def __sub__(self, o): return self._b('-', o)
    def __rsub__(self, o): return self._b('-', o, True)
    def __mul__(self, o): return self._b('*', o)
    def __rmul__(self, o): return self._b('*', o, True)
    def __truediv__(self, o): return self._b('/', o)
    def __rtruediv__(self, o): return self._b('/', o, True)
    def __floordiv__(self, o): return self._b('//', o)
    def __mod__(self, o): return self._b('%', o)
    def __pow__(self, o): return self._b('**', o)
    def __rpow__(self, o): return self._b('**', o, True)
    def __neg__(self): return elementwise(lambda x: arith('-', 0, x), self)
    def __pos__(self): return np_copy(self)
    def __abs__(self): return np_abs(self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(asarray(o), self)
    def __lt__(self, o): return self._sym_cmp('<', o)
    def __le__(self, o): return self._sym_cmp('<=', o)
    def __gt__(self, o): return self._sym_cmp('>', o)
    def __ge__(self, o): return self._sym_cmp('>=', o)
    def __eq__(self, o):
        if o is None or isinstance(o, str): return False
        return self._sym_cmp('==', o)
    def __ne__(self, o):
        if o is None or isinstance(o, str): return True
        return self._sym_cmp('!=', o)
    __hash__ = None
    def __invert__(self): return elementwise(lambda x: lnot(x), self)
    def __and__(self, o): return elementwise(lambda x, y: land(x, y), self, asarray(o))
    def __or__(self, o): return elementwise(lambda x, y: lor(x, y), self, asarray(o))

    def _inplace(self, op, o):
        r = self._b(op, o)
        if r is NotImplemented:
            raise TypeError('in-place operand')
        if r.ndim != self.ndim or not all(dim_eq(a, b) for a, b in zip(r.shape, self.shape)):
            raise ValueError('non-broadcastable output operand')
        self.assign(r)
        return self
    def __iadd__(self, o): return self._inplace('+', o)
    def __isub__(self, o): return self._inplace('-', o)
    def __imul__(self, o): return self._inplace('*', o)
    def __itruediv__(self, o): return self._inplace('/', o)
    def __ipow__(self, o): return self._inplace('**', o)

    def __repr__(self): return f'SArr(shape={self.shape}, store={self.store.id})'
    def __str__(self): return '<array>'
    def __contains__(self, v): return bool(np_any(elementwise(lambda x: compare('==', x, v), self)))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'ndarray.{n}')


OPS = {'+': lambda x, y: arith('+', x, y), '-': lambda x, y: arith('-', x, y), '*': lambda x, y: arith('*', x, y),
       '/': lambda x, y: np_div(x, y), '//': lambda x, y: arith('//', x, y), '%': lambda x, y: arith('%', x, y),
       '**': lambda x, y: T.power(x, y)}


def np_div(x, y):
    if isconc(x) and isconc(y):
        with np.errstate(all='ignore'):
            return np.float64(x) / np.float64(y)
    return arith('/', x, y)


def elem_from_array(a):
    raise ValueError('setting an array element with a sequence.')


def _tolist(g, shape, pre):
    n = shape[0]
    if len(shape) == 1:
        if isconc(n):
            return SList.of([g(*(pre + (i,))) for i in range(n)])
        return SList.tmpl(n, lambda k: g(*(pre + (k,))))
    if isconc(n):
        return SList.of([_tolist(g, shape[1:], pre + (i,)) for i in range(n)])
    return SList.tmpl(n, lambda k: _tolist(g, shape[1:], pre + (k,)))


def lin_apply(s, idx):
    return s(idx)


def invert(tgt, vs):
    """tgt: store index terms over view variables vs (each target mentions at most one variable, coefficient +-1 or const step).
    Returns (solutions: per view var, a function of the store index; side conditions)."""
    sols = [None] * len(vs)
    conds = []
    for p, t in enumerate(tgt):
        if isconc(t):
            conds.append(lambda idx, p=p, t=t: compare('==', idx[p], t))
            continue
        e = z3.simplify(t.e, som=True)
        fc = T.free_consts(e)
        used = [q for q, v in enumerate(vs) if v.get_id() in fc]
        if not used:
            conds.append(lambda idx, p=p, t=t: compare('==', idx[p], t))
            continue
        if len(used) > 1:
            return None
        q = used[0]
        coef, rest = T.linear_in(e, vs[q])
        if coef is None or coef == 0:
            return None
        restv = val(z3.simplify(rest), int)
        if coef in (1, -1):
            sol = (lambda idx, p=p, r=restv: arith('-', idx[p], r)) if coef == 1 else (lambda idx, p=p, r=restv: arith('-', r, idx[p]))
        elif coef > 1:
            sol = lambda idx, p=p, r=restv, c=coef: arith('//', arith('-', idx[p], r), c)
            conds.append(lambda idx, p=p, r=restv, c=coef: compare('==', arith('%', arith('-', idx[p], r), c), 0))
        else:
            return None
        if sols[q] is None:
            sols[q] = sol
        else:
            conds.append(lambda idx, a=sols[q], b=sol: compare('==', a(idx), b(idx)))
    if any(s is None for s in sols):
        return None
    return sols, conds


# ------------------------------------------------------------------------------- indexing

def index(a, key):
    """('elem', idx) | ('view', SArr) | ('copy', (shape, f))"""
    if not isinstance(key, tuple):
        key = (key,)
    key = tuple(poke(k) for k in key)
    n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key = key[:i] + (slice(None),) * (a.ndim - n_real) + key[i + 1:]
    else:
        key = key + (slice(None),) * (a.ndim - n_real)
    n_real = sum(1 for k in key if k is not None)
    if n_real > a.ndim:
        raise IndexError('too many indices for array')
    adv = any(isinstance(k, (SList, SArr, list)) and not (isinstance(k, SArr) and k.ndim == 0) for k in key)
    if adv:
        return adv_index(a, key)
    # basic: build map
    shape, parts, ax = [], [], 0
    for k in key:
        if k is None:
            shape.append(1)
            parts.append(('new',))
        elif isinstance(k, slice):
            n = a.shape[ax]
            st, ln, step = slice_bounds(k, n)
            shape.append(ln)
            parts.append(('slice', st, step))
            ax += 1
        else:
            i = norm_index(k, a.shape[ax], 'index out of bounds')
            parts.append(('int', i))
            ax += 1
    if not shape:
        return 'elem', tuple(p[1] for p in parts)
    im = a.imap

    def m(idx):
        out, q = [], 0
        for p in parts:
            if p[0] == 'new':
                q += 1
            elif p[0] == 'slice':
                v = idx[q]
                if not (isconc(p[2]) and p[2] == 1):
                    v = arith('*', v, p[2])
                out.append(arith('+', v, p[1]))
                q += 1
            else:
                out.append(p[1])
        return tuple(out) if im is None else im(tuple(out))
    return 'view', SArr(a.store, shape, m)


def adv_index(a, key):
    arrs = {}
    ax = 0
    shape_parts = []
    axes = []
    for k in key:
        if k is None:
            raise Unsupported('newaxis with index arrays')
        if isinstance(k, (SList, list, SArr)):
            ka = asarray(k)
            if ka.store.dt == 'b':
                return bool_index(a, key, ka, ax)
            if ka.store.dt != 'i':
                if ka.ndim == 1 and isconc(ka.shape[0]) and ka.shape[0] == 0:
                    ka = SArr.new((0,), lambda idx: 0, 'i')
                else:
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
            arrs[ax] = ka
            axes.append(('arr', ax))
        elif isinstance(k, slice):
            axes.append(('slice', ax) + slice_bounds(k, a.shape[ax]))
        else:
            arrs[ax] = SArr.new((), lambda idx, k=intval(k): k, 'i')
            axes.append(('arr', ax))
        ax += 1
    # broadcast the index arrays
    al = list(arrs.items())
    bshape = al[0][1].shape
    for _, x in al[1:]:
        bshape = bcast_shape(bshape, x.shape, 'shape mismatch: indexing arrays could not be broadcast')
    gs = {i: broadcast_to(x, bshape).frozen() for i, x in al}
    # bounds
    norm = {}
    for i, g in gs.items():
        norm[i] = bound_check(g, bshape, a.shape[i])
    pos = [j for j, p in enumerate(axes) if p[0] == 'arr']
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    first = pos[0] if contiguous else 0
    shape, order = [], []
    done = False
    for j, p in enumerate(axes):
        if p[0] == 'arr':
            if contiguous and not done:
                shape += list(bshape); order.append(('b', len(bshape))); done = True
        else:
            shape.append(p[3]); order.append(('s', p[1], p[2], p[4]))
    if not contiguous:
        shape = list(bshape) + shape
        order = [('b', len(bshape))] + order
    nd = a.ndim

    def f(idx):
        out = [None] * nd
        q = 0
        for o in order:
            if o[0] == 'b':
                bi = idx[q:q + o[1]]
                q += o[1]
                for i in norm:
                    out[i] = norm[i](bi)
            else:
                v = idx[q]
                if not (isconc(o[3]) and o[3] == 1):
                    v = arith('*', v, o[3])
                out[o[1]] = arith('+', v, o[2])
                q += 1
        return tuple(out)
    return 'copy', (shape, f)


def bound_check(g, bshape, n):
    """All entries of an index array lie in [-n, n): raises IndexError otherwise. Returns normalised index function."""
    c = ctx()
    if all(isconc(d) for d in bshape) and int(np.prod([int(d) for d in bshape])) <= 32:
        vals = {}
        for idx in np.ndindex(*[int(d) for d in bshape]):
            vals[idx] = norm_index(g(*idx), n, 'index out of bounds')
        if all(isconc(d) and d == 1 for d in bshape):
            only = vals[tuple([0] * len(bshape))]
            return lambda bi: only

        def look(bi):
            if all(isconc(x) for x in bi):
                return vals[tuple(bi)]
            r = None
            for idx, v in vals.items():
                cnd = land(*[compare('==', a, b) for a, b in zip(bi, idx)])
                r = v if r is None else ite(cnd, v, r)
            return r
        return look
    ks = [c.fresh('bi') for _ in bshape]
    c.top.skolems = [s for s in c.top.skolems if all(not s.eq(k) for k in ks)]
    v = g(*[Sym(k, int) for k in ks])
    rng = z3.And(*([k >= 0 for k in ks] + [k < ex(d, T.Z) for k, d in zip(ks, bshape)]))
    nn = ex(n, T.Z)
    nonneg = z3.Implies(rng, ex(v, T.Z) >= 0)
    inb = z3.Implies(rng, z3.And(ex(v, T.Z) >= -nn, ex(v, T.Z) < nn))
    if c.implied_all(ks, inb):
        if c.implied_all(ks, nonneg):
            return lambda bi: g(*bi)
        return lambda bi: wrapneg(g(*bi), n)
    b = c.fresh('oob', T.B)
    if c.branch(b):
        sk = [c.fresh('bx') for _ in bshape]
        c.assume(z3.substitute(z3.And(rng, z3.Not(z3.And(ex(v, T.Z) >= -nn, ex(v, T.Z) < nn))), *zip(ks, sk)))
        if c._ask(z3.BoolVal(False))[0]:
            from .rt import Infeasible
            raise Infeasible()
        raise IndexError('index out of bounds')
    c.assume(z3.ForAll(ks, inb))
    return lambda bi: wrapneg(g(*bi), n)


def wrapneg(v, n):
    return ite(compare('<', v, 0), arith('+', v, n), v)


def bool_index(a, key, ka, ax):
    if a.ndim == 1 and ka.ndim == 1:
        g, h = a.frozen(), ka.frozen()
        if not dim_eq(a.shape[0], ka.shape[0]):
            raise IndexError('boolean index did not match')
        s = pyb.Seg('filt', a.shape[0], lambda k: g(k), lambda k: h(k))
        n = pyb.filt_len(s)
        return 'copy', ((n,), lambda idx: (pyb.filt_sel(s, idx[0]),))
    raise Unsupported('boolean index')


def bcast_shape(s1, s2, msg='operands could not be broadcast together'):
    n = max(len(s1), len(s2))
    a = (1,) * (n - len(s1)) + tuple(s1)
    b = (1,) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if same(x, y):
            out.append(x)
        elif isconc(x) and x == 1:
            out.append(y)
        elif isconc(y) and y == 1:
            out.append(x)
        elif dim_eq(x, y):
            out.append(x if isconc(x) or not isconc(y) else y)
        elif dim_eq(x, 1):
            out.append(y)
        elif dim_eq(y, 1):
            out.append(x)
        else:
            raise ValueError(msg)
    return tuple(out)


def broadcast_to(a, shape, msg='operands could not be broadcast'):
    if len(a.shape) == len(shape) and all(same(x, y) for x, y in zip(a.shape, shape)):
        return a
    if a.ndim > len(shape):
        raise ValueError(msg)
    off = len(shape) - a.ndim
    one = []
    for x, y in zip(a.shape, shape[off:]):
        if same(x, y):
            one.append(False)
        elif isconc(x) and x == 1:
            one.append(True)
        elif dim_eq(x, y):
            one.append(False)
        elif dim_eq(x, 1):
            one.append(True)
        else:
            raise ValueError(msg)
    g, dt = a.frozen(), a.store.dt
    return SArr.new(shape, lambda idx: g(*[0 if o else i for o, i in zip(one, idx[off:])]), dt)


def bcast2(a, b):
    """Common shape and per-operand index maps (dims decided via broadcasting branches)."""
    shape = bcast_shape(a.shape, b.shape)
    return shape, broadcast_to(a, shape), broadcast_to(b, shape)


def elementwise(f, *arrs, dt=None):
    arrs = [asarray(a) for a in arrs]
    if len(arrs) == 1:
        shape = arrs[0].shape
        gs = [arrs[0].frozen()]
    else:
        shape, x, y = bcast2(*arrs)
        gs = [x.frozen(), y.frozen()]
    if not shape:
        return f(*[g() for g in gs])
    if dt is None:
        probe = tuple(Sym(T.fresh_int('e'), int) for _ in shape)
        dt = dt_of_val(f(*[g(*probe) for g in gs]))
    return SArr.new(shape, lambda idx: f(*[g(*idx) for g in gs]), dt)


# ------------------------------------------------------------------------------- conversion

def deep_list(v):
    if type(v) in (list, tuple):
        return [SList(deep_list(x)) if type(x) in (list, tuple) else x for x in v]
    return v


def asarray(v, dt=None):
    poke(v)
    if isinstance(v, SArr):
        if dt is None or v.store.dt == dt:
            return v
        g = v.frozen()
        return SArr.new(v.shape, lambda idx: convert(g(*idx), dt), dt)
    if isinstance(v, np.ndarray):
        d = {'f': 'f', 'i': 'i', 'b': 'b', 'c': 'c'}.get(v.dtype.kind, 'o')
        vv = v.copy()
        return SArr.new(v.shape, lambda idx: _np_at(vv, idx), dt or d)
    if T.is_num(v) or isinstance(v, (CPair, complex)):
        d = dt or dt_of_val(v)
        vc = convert(v, d)
        return SArr.new((), lambda idx: vc, d)
    if isinstance(v, (SList, list, tuple)) or isinstance(v, (pyb.SRange, pyb.SIter, range)):
        l = v if type(v) is SList else SList(deep_list(v))
        return from_list(l, dt)
    if v is None:
        raise TypeError('float() argument must be a string or a real number, not NoneType')
    if hasattr(type(v), '__dict__') and not isinstance(v, str):
        # numpy would build an object array
        return SArr.new((), lambda idx: v, 'o')
    raise Unsupported(f'array from {type(v).__name__}')


def _np_at(vv, idx):
    if all(isconc(i) for i in idx):
        x = vv[tuple(int(i) for i in idx)]
        return x.item() if isinstance(x, (np.bool_, np.integer)) else x
    if vv.size > 64:
        raise Unsupported('symbolic index into a large concrete array')
    r = None
    for q in np.ndindex(*vv.shape):
        x = vv[q]
        c = land(*[compare('==', a, int(b)) for a, b in zip(idx, q)])
        r = x if r is None else ite(c, x, r)
    return r


def from_list(l, dt):
    if l.concrete():
        its = l.items()
        if not its:
            return SArr.new((0,), lambda idx: np.float64(0), dt or 'f')
        subs = [asarray(x, dt) for x in its]
        nd = subs[0].ndim
        shp = subs[0].shape
        d = dt or subs[0].store.dt
        for s in subs[1:]:
            if s.ndim != nd or not all(dim_eq(a, b) for a, b in zip(s.shape, shp)):
                raise ValueError('setting an array element with a sequence. inhomogeneous shape')
            if dt is None:
                d = join_dt(d, s.store.dt)
        gs = [s.frozen() for s in subs]
        n = len(gs)

        def fn(idx):
            k = idx[0]
            if isconc(k):
                return convert(gs[int(k)](*idx[1:]), d)
            r = convert(gs[-1](*idx[1:]), d)
            for q in range(n - 2, -1, -1):
                r = ite(compare('==', k, q), convert(gs[q](*idx[1:]), d), r)
            return r
        return SArr.new((n,) + tuple(shp), fn, d)
    n = l.length()
    if not ctx().branch(ex(n, T.Z) > 0):
        return SArr.new((0,), lambda idx: np.float64(0), dt or 'f')
    src = l.frozen()
    k = T.fresh_int('l')
    e0 = asarray(src.at(Sym(k, int)), dt)
    for d_ in e0.shape:
        if isinstance(d_, Sym) and T.contains(d_.e, {k.get_id()}):
            raise Unsupported('ragged symbolic list')
    d = dt or e0.store.dt
    return SArr.new((n,) + tuple(e0.shape), lambda idx: convert(asarray(src.at(idx[0]), dt).at(*idx[1:]), d), d)


def reshape(a, shape):
    shape = tuple(intval(s) for s in shape)
    if any(isconc(s) and s == -1 for s in shape):
        others = [s for s in shape if not (isconc(s) and s == -1)]
        if all(isconc(s) and s == 1 for s in others):
            m = a.size
        elif all(isconc(s) for s in others) and all(isconc(d) for d in a.shape):
            m = int(np.prod(a.shape)) // int(np.prod(others))
        else:
            q = [d for d in a.shape]
            for s in others:
                for i, d in enumerate(q):
                    if same(d, s):
                        del q[i]
                        break
                else:
                    if not (isconc(s) and s == 1):
                        raise Unsupported('reshape with symbolic -1')
            m = prod(q)
        shape = tuple(m if isconc(s) and s == -1 else s for s in shape)
    sq = [d for d in shape if not (isconc(d) and d == 1)]
    aq = [d for d in a.shape if not (isconc(d) and d == 1)]
    ai = [i for i, d in enumerate(a.shape) if not (isconc(d) and d == 1)]
    si = [i for i, d in enumerate(shape) if not (isconc(d) and d == 1)]
    im = a.imap
    if len(sq) == len(aq) and all(same(x, y) for x, y in zip(sq, aq)):
        nd = a.ndim

        def m(idx):
            full = [0] * nd
            for i, j in zip(ai, si):
                full[i] = idx[j]
            return tuple(full) if im is None else im(tuple(full))
        return SArr(a.store, shape, m)
    if a.ndim == 2 and len(shape) == 1:
        if not dim_eq(prod(a.shape), shape[0]):
            raise ValueError('cannot reshape array')
        c = a.shape[1]
        return SArr(a.store, shape, lambda idx: _mapim(im, (arith('//', idx[0], c), arith('%', idx[0], c))))
    if a.ndim == 1 and len(shape) == 2:
        if not dim_eq(prod(shape), a.shape[0]):
            raise ValueError('cannot reshape array')
        c = shape[1]
        return SArr(a.store, shape, lambda idx: _mapim(im, (arith('+', arith('*', idx[0], c), idx[1]),)))
    raise Unsupported('reshape')


def _mapim(im, idx):
    return idx if im is None else im(idx)


# ------------------------------------------------------------------------------- numpy API

def np_array(obj, dtype=None, copy=True, ndmin=0, **kw):
    d = dt_of(dtype)
    poke(obj)
    if isinstance(obj, SArr):
        if not copy and (d is None or d == obj.store.dt):
            return obj
        g = obj.frozen()
        k = d or obj.store.dt
        return SArr.new(obj.shape, (lambda idx: convert(g(*idx), k)) if k != obj.store.dt else (lambda idx: g(*idx)), k)
    r = asarray(obj, d)
    if isinstance(obj, np.ndarray):
        return r
    # building from nested sequences always copies
    if isinstance(obj, (SList, list, tuple)):
        g = r.frozen()
        return SArr.new(r.shape, lambda idx: g(*idx), r.store.dt)
    return r


def np_copy(a, order=None, **kw):
    a = asarray(a)
    g = a.frozen()
    return SArr.new(a.shape, lambda idx: g(*idx), a.store.dt)


def np_full(shape, v, dtype=None):
    shape = tuple(intval(s) for s in (shape if isinstance(shape, (tuple, list, SList)) else (shape,)))
    check_dims(shape)
    d = dt_of(dtype) or dt_of_val(v)
    if isinstance(v, SArr):
        raise Unsupported('full with array value')
    vc = convert(v, d)
    return SArr.new(shape, lambda idx: vc, d)


def check_dims(shape):
    for s in shape:
        if isconc(s):
            if s < 0:
                raise ValueError('negative dimensions are not allowed')
        elif ctx().branch(ex(s) < 0):
            raise ValueError('negative dimensions are not allowed')


def np_zeros(shape, dtype=Float64): return np_full(shape, 0, dtype)
def np_ones(shape, dtype=Float64): return np_full(shape, 1, dtype)
def np_empty(shape, dtype=Float64):
    shape = tuple(intval(s) for s in (shape if isinstance(shape, (tuple, list, SList)) else (shape,)))
    check_dims(shape)
    f = z3.Function(f'empty!{next(T._fresh)}', *([T.Z] * len(shape) + [T.R]))
    return SArr.new(shape, lambda idx: Sym(f(*[ex(i, T.Z) for i in idx]), np.float64), dt_of(dtype))


def np_zeros_like(a, dtype=None):
    a = asarray(a)
    return np_full(a.shape, convert(0, dt_of(dtype) or a.store.dt), {'f': Float64, 'i': int, 'b': bool, 'c': complex}[dt_of(dtype) or a.store.dt])


def np_ones_like(a, dtype=None):
    a = asarray(a)
    return np_full(a.shape, 1, {'f': Float64, 'i': int, 'b': bool, 'c': complex}[dt_of(dtype) or a.store.dt])


def np_full_like(a, v, dtype=None):
    a = asarray(a)
    return np_full(a.shape, v, {'f': Float64, 'i': int, 'b': bool, 'c': complex}[dt_of(dtype) or a.store.dt])


def np_eye(n, m=None, k=0, dtype=Float64):
    n = intval(n)
    m = n if m is None else intval(m)
    check_dims((n, m))
    d = dt_of(dtype)
    return SArr.new((n, m), lambda idx: ite(compare('==', idx[1], arith('+', idx[0], k)), convert(1, d), convert(0, d)), d)


def np_diag(a, k=0):
    a = asarray(a)
    g = a.frozen()
    if a.ndim == 1:
        z = convert(0, a.store.dt)
        return SArr.new((a.shape[0], a.shape[0]), lambda idx: ite(compare('==', idx[0], idx[1]), g(idx[0]), z), a.store.dt)
    n = pyb.smin(a.shape[0], a.shape[1])
    return SArr(a.store, (n,), (lambda idx: _mapim(a.imap, (idx[0], idx[0]))))


def np_arange(*a, dtype=None):
    r = pyb.v_range(*a)
    return asarray(r, dt_of(dtype) or 'i')


def np_stack(arrs, axis=0):
    arrs = SList(arrs)
    if not arrs.concrete():
        n = arrs.length()
        if n <= 0:
            raise ValueError('need at least one array to stack')
        src = arrs.frozen()
        e0, cplx = None, False
        for x, k in arrs.probes():
            x = asarray(x)
            cplx = cplx or x.store.dt == 'c'
            if k is not None and any(isinstance(d_, Sym) and T.contains(d_.e, {k.get_id()}) for d_ in x.shape):
                raise Unsupported('stack of differently shaped arrays')
            if e0 is not None and (x.ndim != e0.ndim or not all(dim_eq(p, q) for p, q in zip(x.shape, e0.shape))):
                raise ValueError('all input arrays must have the same shape')
            e0 = e0 if e0 is not None else x
        nd = e0.ndim + 1
        ax = axis + nd if axis < 0 else axis
        shape = list(e0.shape)
        shape.insert(ax, n)

        def fn(idx):
            rest = idx[:ax] + idx[ax + 1:]
            return asarray(src.at(idx[ax])).at(*rest)
        return SArr.new(shape, fn, 'c' if cplx else e0.store.dt)
    its = [asarray(x) for x in arrs.items()]
    if not its:
        raise ValueError('need at least one array to stack')
    for x in its[1:]:
        if x.ndim != its[0].ndim or not all(dim_eq(a, b) for a, b in zip(x.shape, its[0].shape)):
            raise ValueError('all input arrays must have the same shape')
    nd = its[0].ndim + 1
    ax = axis + nd if axis < 0 else axis
    shape = list(its[0].shape)
    shape.insert(ax, len(its))
    gs = [x.frozen() for x in its]
    dt = its[0].store.dt
    for x in its: dt = join_dt(dt, x.store.dt)

    def fn(idx):
        rest = idx[:ax] + idx[ax + 1:]
        k = idx[ax]
        if isconc(k):
            return gs[int(k)](*rest)
        r = gs[-1](*rest)
        for q in range(len(gs) - 2, -1, -1):
            r = ite(compare('==', k, q), gs[q](*rest), r)
        return r
    return SArr.new(shape, fn, dt)


def np_concatenate(arrs, axis=0):
    l = SList(arrs)
    if not l.concrete():
        n = l.length()
        if n <= 0:
            raise ValueError('need at least one array to concatenate')
        src = l.frozen()
        k = T.fresh_int('l')
        e0 = asarray(src.at(Sym(k, int)))
        if e0.ndim == 2 and isconc(e0.shape[axis]) and e0.shape[axis] == 1:
            oth = e0.shape[1 - axis]
            if isinstance(oth, Sym) and T.contains(oth.e, {k.get_id()}):
                raise Unsupported('concatenate of differently shaped arrays')
            if axis == 1:
                return SArr.new((oth, n), lambda idx: asarray(src.at(idx[1])).at(idx[0], 0), e0.store.dt)
            return SArr.new((n, oth), lambda idx: asarray(src.at(idx[0])).at(0, idx[1]), e0.store.dt)
        raise Unsupported('concatenate over a symbolic number of arrays')
    its = [asarray(x) for x in l.items()]
    if not its:
        raise ValueError('need at least one array to concatenate')
    nd = its[0].ndim
    ax = poke(axis)
    if isinstance(ax, Sym):
        raise Unsupported('symbolic axis')
    if not -nd <= ax < nd:
        raise ValueError('axis out of bounds')
    if ax < 0: ax += nd
    for x in its[1:]:
        if x.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for i in range(nd):
            if i != ax and not dim_eq(x.shape[i], its[0].shape[i]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    total = 0
    offs = []
    for x in its:
        offs.append(total)
        total = arith('+', total, x.shape[ax])
    shape = list(its[0].shape)
    shape[ax] = total
    gs = [x.frozen() for x in its]
    dt = its[0].store.dt
    for x in its: dt = join_dt(dt, x.store.dt)

    def fn(idx):
        k = idx[ax]
        # segments the index can lie in, first to last
        cand = []
        for q, (g, o) in enumerate(zip(gs, offs)):
            below = compare('<', k, offs[q + 1]) if q + 1 < len(gs) else True
            if isconc(below) and not below:
                continue
            cand.append((below, g, o))
            if isconc(below):
                break
        r = None
        for below, g, o in reversed(cand):
            v = g(*(idx[:ax] + (arith('-', k, o),) + idx[ax + 1:]))
            r = v if r is None else ite(below, v, r)
        return r
    return SArr.new(shape, fn, dt)


def np_vstack(arrs): return np_concatenate(arrs, 0)
def np_hstack(arrs): return np_concatenate(arrs, 1)


# --- sums

def red_axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, Sym):
        raise Unsupported('symbolic axis')
    axs = axis if isinstance(axis, tuple) else (axis,)
    out = []
    for x in axs:
        if not isinstance(x, (int, np.integer)):
            raise TypeError('axis')
        if not -a.ndim <= x < a.ndim:
            raise np.exceptions.AxisError('axis out of bounds')
        out.append(x % a.ndim)
    return out


def reduce_sum(a, axis, keepdims=False, f=lambda x: x):
    axs = red_axes(a, axis)
    g = a.frozen()
    nd = a.ndim
    keep = [i for i in range(nd) if i not in axs]
    shape = [a.shape[i] if i in keep else 1 for i in range(nd) if keepdims or i in keep]
    isint = a.store.dt in 'bi'

    def fn(idx):
        full = [None] * nd
        if keepdims:
            for i in keep: full[i] = idx[i]
        else:
            for i, q in zip(keep, idx): full[i] = q

        def rec(rest, cur):
            if not rest:
                return f(g(*cur))
            ax = rest[0]

            def body(k):
                c2 = list(cur)
                c2[ax] = k
                return rec(rest[1:], c2)
            return sum_any(a.shape[ax], body)
        return rec(axs, full)
    if not shape:
        return fn(())
    return SArr.new(shape, fn, 'c' if a.store.dt == 'c' else 'f')


def sum_any(n, body):
    """Sum; complex handled componentwise."""
    probe = body(Sym(T.fresh_int('e'), int)) if not (isconc(n) and n <= 4) else None
    if isinstance(probe, CPair):
        return CPair(mk_sum(n, lambda k: cpair(body(k)).re), mk_sum(n, lambda k: cpair(body(k)).im))
    return mk_sum(n, body)


def np_sum(a, axis=None, dtype=None, keepdims=False, **kw):
    return reduce_sum(asarray(a), axis, keepdims)


def count(a, axis):
    n = 1
    for i in red_axes(a, axis):
        n = arith('*', n, a.shape[i])
    return n


def np_mean(a, axis=None, dtype=None, keepdims=False, **kw):
    a = asarray(a)
    n = count(a, axis)
    s = reduce_sum(a, axis, keepdims)
    d = lambda x: x if not isinstance(x, SArr) else x
    if isinstance(s, SArr):
        return elementwise(lambda x: np_div(x, n), s)
    return np_div(s, n)


def np_var(a, axis=None, dtype=None, ddof=0, keepdims=False, **kw):
    a = asarray(a)
    n = count(a, axis)
    m = np_mean(a, axis, keepdims=True)
    if not isinstance(m, SArr):
        m = asarray(m)
    d = elementwise(lambda x, y: arith('-', x, y), a, m)
    s = reduce_sum(d, axis, keepdims, lambda x: arith('*', x, x))
    den = arith('-', n, ddof)

    def fin(x):
        if isinstance(x, Sym):
            ctx().assume(x.e >= 0, 'def')        # a sum of squares of reals
        return np_div(x, den)
    if isinstance(s, SArr):
        return elementwise(fin, s)
    return fin(s)


def np_std(a, axis=None, dtype=None, ddof=0, keepdims=False, **kw):
    v = np_var(a, axis, dtype, ddof, keepdims)
    if isinstance(v, SArr):
        return elementwise(T.sqrt_, v)
    return T.sqrt_(v)


def np_amax(a, axis=None, **kw): return extremum('max', asarray(a), axis)
def np_amin(a, axis=None, **kw): return extremum('min', asarray(a), axis)


def extremum(op, a, axis):
    if axis is not None:
        raise Unsupported('max along an axis')
    g = a.frozen()
    c = ctx()
    for d in a.shape:
        if (isconc(d) and d == 0) or (not isconc(d) and c.branch(ex(d) <= 0)):
            raise ValueError('zero-size array to reduction operation')
    if all(isconc(d) and d == 1 for d in a.shape):
        return g(*([0] * a.ndim))
    vs = [T.fresh_int('e') for _ in a.shape]
    body = ex(g(*[Sym(v, int) for v in vs]), T.R)
    ext = [ex(d, T.Z) for d in a.shape]
    m = T.mk_binder('arr' + op, vs, [body], ext, T.R)
    key = ('ext', m.get_id())
    if c.top.memo.get(key) is None:
        c.top.memo[key] = (m, True)
        rng = z3.And(*([v >= 0 for v in vs] + [v < e for v, e in zip(vs, ext)]))
        c.assume(z3.ForAll(vs, z3.Implies(rng, body <= m if op == 'max' else body >= m)), 'def')
        w = [z3.Const(f'!w{op}{m.decl().name()}_{i}', T.Z) if m.num_args() == 0 else
             T.mk_binder(f'arg{op}{i}', vs, [body], ext, T.Z) for i in range(len(vs))]
        c.assume(z3.substitute(z3.And(rng, body == m), *zip(vs, w)), 'def')
    return Sym(m, np.float64)


def sort_fn(n, key):
    return pyb.sort_perm(n, key, False)


def np_any(a, axis=None):
    a = asarray(a)
    if a.ndim == 0:
        return truth(a.at())
    if axis is not None: raise Unsupported('any with axis')
    g = a.frozen()
    def rec(dims, pre):
        if not dims:
            return truth(g(*pre))
        if isconc(dims[0]) and dims[0] <= 4:
            return lor(*[rec(dims[1:], pre + (i,)) for i in range(dims[0])])
        return pyb.exists(dims[0], lambda k: rec(dims[1:], pre + (k,)))
    return rec(list(a.shape), ())


def np_all(a, axis=None):
    a = asarray(a)
    if axis is not None: raise Unsupported('all with axis')
    g = a.frozen()
    def rec(dims, pre):
        if not dims:
            return truth(g(*pre))
        if isconc(dims[0]) and dims[0] <= 4:
            return land(*[rec(dims[1:], pre + (i,)) for i in range(dims[0])])
        return pyb.forall(dims[0], lambda k: rec(dims[1:], pre + (k,)))
    return rec(list(a.shape), ())


def truth(v):
    if isinstance(v, (bool, np.bool_)): return bool(v)
    if isinstance(v, Sym) and v.kind() == 'b': return v
    return compare('!=', v, 0)


# --- products

def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 2 and b.ndim == 2:
        if not dim_eq(a.shape[1], b.shape[0]):
            raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
        n = a.shape[1]
        g, h = a.frozen(), b.frozen()
        return SArr.new((a.shape[0], b.shape[1]), lambda idx: sum_any(n, lambda k: arith('*', g(idx[0], k), h(k, idx[1]))),
                        join_dt(join_dt(a.store.dt, b.store.dt), 'f'))
    if a.ndim == 1 and b.ndim == 1:
        if not dim_eq(a.shape[0], b.shape[0]):
            raise ValueError('shapes not aligned')
        g, h = a.frozen(), b.frozen()
        return sum_any(a.shape[0], lambda k: arith('*', g(k), h(k)))
    if a.ndim == 2 and b.ndim == 1:
        if not dim_eq(a.shape[1], b.shape[0]):
            raise ValueError('shapes not aligned')
        g, h = a.frozen(), b.frozen()
        return SArr.new((a.shape[0],), lambda idx: sum_any(a.shape[1], lambda k: arith('*', g(idx[0], k), h(k))))
    if a.ndim == 1 and b.ndim == 2:
        if not dim_eq(a.shape[0], b.shape[0]):
            raise ValueError('shapes not aligned')
        g, h = a.frozen(), b.frozen()
        return SArr.new((b.shape[1],), lambda idx: sum_any(a.shape[0], lambda k: arith('*', g(k), h(k, idx[0]))))
    raise ValueError('matmul dims')


def np_dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return np_multiply(a, b)
    return matmul(a, b)


def np_outer(a, b):
    a, b = reshape(asarray(a), (-1,)), reshape(asarray(b), (-1,))
    g, h = a.frozen(), b.frozen()
    return SArr.new((a.shape[0], b.shape[0]), lambda idx: arith('*', g(idx[0]), h(idx[1])))


def np_trace(a):
    return np_sum(np_diag(a))


# --- ufuncs

class UFunc:
    def __init__(self, name, f, nin):
        self.name, self.f, self.nin = name, f, nin
        self.__name__ = name

    def __call__(self, *a, out=None, dtype=None, **kw):
        a = [poke(x) for x in a]
        if len(a) == self.nin + 1:
            out = a.pop()
        if kw:
            raise Unsupported(f'keywords of {self.name}')
        for x in a:
            if x is None or isinstance(x, str):
                raise TypeError(f'ufunc {self.name} not supported for the input types')
        for x in a:
            if not (T.is_num(x) or isinstance(x, (SArr, SList, list, tuple, CPair, complex, np.ndarray))):
                raise TypeError(f'ufunc {self.name} not supported for the input types')
        r = elementwise(self.f, *a)
        if out is not None:
            if isinstance(out, tuple): out = out[0]
            out.assign(r)
            return out
        return r

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **kw):
        a = asarray(a)
        if a.ndim == 0:
            return a.at()
        if self.name == 'add':
            return reduce_sum(a, axis, keepdims)
        if self.name == 'maximum': return np_amax(a, axis)
        raise Unsupported(f'{self.name}.reduce')

    def at(self, a, idx, b=None):
        kind, v = index(a, idx)
        if kind == 'view':
            v.assign(elementwise(self.f, v, asarray(b)) if b is not None else elementwise(self.f, v))
            return
        if kind == 'elem':
            x = a.at(*v)
            a[idx] = self.f(x, asarray(b)._scalar()) if b is not None else self.f(x)
            return
        raise Unsupported('ufunc.at with index arrays')

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        g, h, n = a.frozen(), b.frozen(), a.ndim
        return SArr.new(tuple(a.shape) + tuple(b.shape), lambda idx: self.f(g(*idx[:n]), h(*idx[n:])))


def U1(name, f): return UFunc(name, f, 1)
def U2(name, f): return UFunc(name, f, 2)


def fabs(x):
    if isinstance(x, (CPair, complex)):
        x = cpair(x)
        return T.sqrt_(arith('+', arith('*', x.re, x.re), arith('*', x.im, x.im)))
    return abs(x) if isconc(x) else x.__abs__()


def fangle(x):
    x = cpair(x)
    return T.atan2_(x.im, x.re)


ISNAN = z3.Function('isnan', T.R, T.B)


def fisnan(x):
    if isconc(x):
        return bool(np.isnan(x))
    if isinstance(x, Sym) and x.e.sort() == T.R:
        return Sym(ISNAN(x.e), np.bool_)
    return False


def fsign(x):
    return ite(compare('<', x, 0), np.float64(-1), ite(compare('>', x, 0), np.float64(1), np.float64(0)))


np_add = U2('add', OPS['+'])
np_subtract = U2('subtract', OPS['-'])
np_multiply = U2('multiply', OPS['*'])
np_divide = U2('divide', OPS['/'])
np_power = U2('power', lambda x, y: T.np_power(x, y))
np_maximum = U2('maximum', lambda x, y: ite(compare('>=', x, y), x, y))
np_minimum = U2('minimum', lambda x, y: ite(compare('<=', x, y), x, y))
np_sqrt = U1('sqrt', T.sqrt_)
np_exp = U1('exp', T.exp_)
np_log = U1('log', T.log_)
np_tanh = U1('tanh', T.tanh_)
np_sin = U1('sin', T.sin_)
np_cos = U1('cos', T.cos_)
np_abs = U1('absolute', fabs)
np_isnan = U1('isnan', fisnan)
np_sign = U1('sign', fsign)
np_negative = U1('negative', lambda x: arith('-', 0, x))
np_square = U1('square', lambda x: arith('*', x, x))
np_arctan2 = U2('arctan2', T.atan2_)
np_isfinite = U1('isfinite', lambda x: bool(np.isfinite(x)) if isconc(x) else True)
np_isinf = U1('isinf', lambda x: bool(np.isinf(x)) if isconc(x) else False)
for _n, _o in (('less', '<'), ('less_equal', '<='), ('greater', '>'), ('greater_equal', '>='), ('equal', '=='), ('not_equal', '!=')):
    globals()['np_' + _n] = U2(_n, lambda x, y, o=_o: compare(o, x, y))


def np_angle(a): return elementwise(fangle, asarray(a), dt='f') if isinstance(a, SArr) else fangle(a)


def np_real(a):
    if isinstance(a, SArr):
        if a.store.dt != 'c':
            return a
        # a view of the real parts: modelled as a copy (never written through in the verified code)
        return elementwise(lambda x: cpair(x).re, a, dt='f')
    return cpair(a).re


def np_imag(a):
    if isinstance(a, SArr):
        return elementwise(lambda x: cpair(x).im, a, dt='f')
    return cpair(a).im


def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported('where with one argument')
    c, a, b = asarray(c), asarray(a), asarray(b)
    shape = bcast_shape(bcast_shape(c.shape, a.shape), b.shape)
    gc, ga, gb = [broadcast_to(x, shape).frozen() for x in (c, a, b)]
    dt = join_dt(a.store.dt, b.store.dt)
    if not shape:
        return ite(truth(gc()), ga(), gb())
    return SArr.new(shape, lambda idx: ite(truth(gc(*idx)), convert(ga(*idx), dt), convert(gb(*idx), dt)), dt)


def np_clip(a, lo, hi):
    def f(x):
        r = x
        if lo is not None: r = ite(compare('<', r, lo), lo, r)
        if hi is not None: r = ite(compare('>', r, hi), hi, r)
        return r
    return elementwise(f, asarray(a), dt='f')


def np_flip(a, axis=None):
    a = asarray(a)
    axs = red_axes(a, axis)
    im = a.imap
    shape = a.shape

    def m(idx):
        out = tuple(arith('-', arith('-', shape[i], 1), q) if i in axs else q for i, q in enumerate(idx))
        return _mapim(im, out)
    return SArr(a.store, shape, m)


def np_argsort(a, axis=-1, kind=None):
    a = asarray(a)
    if a.ndim != 1:
        if a.ndim == 2:
            g = a.frozen()
            ax = axis % 2
            n = a.shape[ax]
            if ax == 1:
                return SArr.new(a.shape, lambda idx: sort_fn(n, lambda k: g(idx[0], k))(idx[1]), 'i')
            return SArr.new(a.shape, lambda idx: sort_fn(n, lambda k: g(k, idx[1]))(idx[0]), 'i')
        raise Unsupported('argsort')
    g = a.frozen()
    perm = sort_fn(a.shape[0], lambda k: g(k))
    return SArr.new(a.shape, lambda idx: perm(idx[0]), 'i')


def np_sort(a, axis=-1):
    r = np_copy(a)
    r.sort(axis)
    return r


def np_median(a, axis=None):
    return functional('median', a, ())


def np_roll(a, shift, axis=None):
    a = asarray(a)
    if axis is None:
        raise Unsupported('roll flat')
    g = a.frozen()
    n = a.shape[axis]

    def fn(idx):
        i = list(idx)
        i[axis] = arith('%', arith('-', idx[axis], shift), n)
        return g(*i)
    return SArr.new(a.shape, fn, a.store.dt)


# --- opaque functionals of whole arrays

def arr_key(a):
    """(bound variables, bodies, extents) describing an array's contents canonically."""
    a = asarray(a)
    vs = [T.fresh_int('a') for _ in a.shape]
    v = a.at(*[Sym(x, int) for x in vs])
    ns = [ex(d, T.Z) for d in a.shape]
    can = lambda e: T.pterm(T.pnorm(T.simplify_ranges(e, vs, ns)))
    if a.store.dt == 'c':
        v = cpair(v)
        bodies = [can(ex(v.re, T.R)), can(ex(v.im, T.R))]
    else:
        bodies = [can(ex(v, T.R))]
    return vs, bodies, ns


def _bigger(e, limit):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > limit:
            return True
        st.extend(x.children())
    return False


def opacify(a, limit=14):
    """Name the contents of a freshly built array: its cells become applications of a function symbol identified by the canonical
    cell term (two arrays computed the same way get the same symbol). Loses algebraic facts, keeps determinism."""
    st = a.store
    if a.imap is not None or st.dt != 'f' or len(st.shape) == 0:
        return
    if all(isconc(d) and d <= 1 for d in st.shape):
        return
    try:
        vs, bodies, ns = arr_key(a)
    except Unsupported:
        return
    body = bodies[0]
    if T.contains_quantifier(body):
        return
    if not _bigger(body, limit):
        st.setfn(lambda idx: Sym(z3.simplify(z3.substitute(body, *[(v, ex(i, T.Z)) for v, i in zip(vs, idx)])), np.float64))
        return
    used = T.free_consts(body)
    mine = [v for v in vs if v.get_id() in used]
    pos = [i for i, v in enumerate(vs) if v.get_id() in used]
    make = T.binder_maker('cell', mine, [body], [T.Z] * len(pos), T.R)
    st.setfn(lambda idx: Sym(make([ex(idx[i], T.Z) for i in pos]), np.float64))


def functional(name, arrs, out_shape, extra=(), dt='f'):
    """An uninterpreted function of the complete contents of arrs; out_shape () = scalar."""
    arrs = arrs if isinstance(arrs, (tuple, list)) else (arrs,)
    bound, bodies, exts = [], [], []
    for a in arrs:
        vs, bs, es = arr_key(a)
        bound += vs
        bodies += bs
        exts += es
    ctx().assumptions.add(f'numpy {name}: result is a function of the argument contents (uninterpreted)')

    makers = {}

    def mk(idx, tag=''):
        args = exts + [ex(e) for e in extra] + [ex(i, T.Z) for i in idx]
        key = (tag, len(idx))
        if key not in makers:
            makers[key] = T.binder_maker('arr_' + name + tag, bound, bodies, [x.sort() for x in args], T.R)
        return makers[key](args)
    if out_shape == ():
        return Sym(mk(()), np.float64)
    if dt == 'c':
        return SArr.new(out_shape, lambda idx: CPair(Sym(mk(idx, 'r'), np.float64), Sym(mk(idx, 'i'), np.float64)), 'c')
    return SArr.new(out_shape, lambda idx: Sym(mk(idx), np.float64))


class _Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{self.__name__}.{n}')


linalg = _Mod('numpy.linalg')


class LinAlgError(ValueError):
    pass


linalg.LinAlgError = np.linalg.LinAlgError


def la_norm(a, ord=None, axis=None, keepdims=False):
    a = asarray(a)
    sq = lambda x: arith('*', x, x) if not isinstance(x, CPair) else arith('+', arith('*', x.re, x.re), arith('*', x.im, x.im))
    if axis is None:
        if ord is None or (isinstance(ord, str) and ord == 'fro') or (a.ndim == 1 and ord == 2):
            r = T.sqrt_(reduce_sum(a, None, False, sq))
            return r
        if a.ndim == 1 and ord == 1:
            return reduce_sum(a, None, False, fabs)
        if a.ndim == 1 and isinstance(ord, float) and ord == np.inf:
            return np_amax(np_abs(a))
        return functional(f'norm_{ord}', a, ())
    if ord in (None, 2):
        r = reduce_sum(a, axis, keepdims, sq)
        return elementwise(T.sqrt_, r) if isinstance(r, SArr) else T.sqrt_(r)
    if ord == 1:
        return reduce_sum(a, axis, keepdims, fabs)
    raise Unsupported('norm order')


def _square(a):
    if a.ndim != 2:
        raise np.linalg.LinAlgError('must be 2-dimensional')
    if not dim_eq(a.shape[0], a.shape[1]):
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')


SINGULAR = 'singular'


def _numerals(a):
    """Contents as exact fractions when every cell is a numeral, else None."""
    from fractions import Fraction
    if not all(isconc(d) for d in a.shape) or a.ndim > 2:
        return None
    n = 1
    for d in a.shape:
        n *= d
    if n > 400 or a.store.dt == 'c':
        return None
    out = {}
    for idx in np.ndindex(*a.shape):
        e = z3.simplify(ex(a.at(*[int(i) for i in idx]), T.R))
        if not z3.is_rational_value(e):
            return None
        out[idx] = Fraction(e.numerator_as_long(), e.denominator_as_long())
    return out


def _exact_solve(a, b):
    """Exact Gaussian elimination for numeral systems; None if not numeral; raises LinAlgError when singular."""
    A, B = _numerals(a), _numerals(b)
    if A is None or B is None:
        return None
    n = a.shape[0]
    m = b.shape[1] if b.ndim == 2 else 1
    M = [[A[(i, j)] for j in range(n)] + [B[(i, j)] if b.ndim == 2 else B[(i,)] for j in range(m)] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    rows = [[Sym(z3.Q(x.numerator, x.denominator), np.float64) for x in M[i][n:]] for i in range(n)]
    ctx().assumptions.add('numpy solve/inv on constant systems: exact rational solution')

    def fn(idx):
        i, j = idx[0], (idx[1] if b.ndim == 2 else 0)
        r = rows[-1][-1]
        if isconc(i) and isconc(j):
            return rows[int(i)][int(j)]
        for p in range(n):
            for q in range(m):
                r = ite(land(compare('==', i, p), compare('==', j, q)), rows[p][q], r)
        return r
    return SArr.new(b.shape, fn, 'f')


def la_inv(a):
    a = asarray(a)
    _square(a)
    if isconc(a.shape[0]):
        r = _exact_solve(a, np_eye(a.shape[0]))
        if r is not None:
            return r
    vs, bs, es = arr_key(a)
    d = _diagonal(vs, bs, es)
    if d is not None:           # a diagonal matrix: the reciprocals, unless one of the elements is zero
        if ctx().branch(ex(pyb.exists(a.shape[0], lambda i: compare('==', d(i), 0)), T.B)):
            raise np.linalg.LinAlgError('Singular matrix')
        return SArr.new(a.shape, lambda idx: ite(compare('==', idx[0], idx[1]), arith('/', np.float64(1), d(idx[0])), np.float64(0)), 'f')
    ok = T.mk_binder('arr_invertible', vs, bs, es, T.B)
    if not ctx().branch(ok):
        raise np.linalg.LinAlgError('Singular matrix')
    return functional('inv', a, a.shape)


def _diagonal(vs, bs, es):
    """The element on the diagonal as a function of the position, when everything else is zero; None otherwise."""
    if len(vs) != 2 or len(bs) != 1 or _bigger(bs[0], 400):
        return None
    i, j = vs
    off = z3.simplify(z3.substitute(bs[0], (i == j, z3.BoolVal(False)), (j == i, z3.BoolVal(False))))
    zero = z3.RealVal(0)
    off = z3.simplify(z3.substitute(off, *((f(zero), zero) for f in (T.F_SQRT, T.F_ABS, T.F_TANH, T.F_SIN))))
    c = T.const_of(off)
    if c is None or c != 0:
        return None
    on = z3.simplify(z3.substitute(bs[0], (j, i)))
    return lambda q: Sym(z3.substitute(on, (i, ex(q, T.Z))), np.float64)


def la_solve(a, b):
    a, b = asarray(a), asarray(b)
    _square(a)
    if not dim_eq(a.shape[0], b.shape[0]):
        raise ValueError('solve: mismatch')
    r = _exact_solve(a, b)
    if r is not None:
        return r
    vs, bs, es = arr_key(a)
    ok = T.mk_binder('arr_invertible', vs, bs, es, T.B)
    if not ctx().branch(ok):
        raise np.linalg.LinAlgError('Singular matrix')
    return functional('solve', (a, b), b.shape)


def la_pinv(a, *x, **k):
    a = asarray(a)
    return functional('pinv', a, a.shape[::-1])


def la_lstsq(a, b, rcond=None):
    a, b = asarray(a), asarray(b)
    if not dim_eq(a.shape[0], b.shape[0]):
        raise np.linalg.LinAlgError('Incompatible dimensions')
    return (functional('lstsq', (a, b), (a.shape[1],) + tuple(b.shape[1:])), None, None, None)


def la_eig(a):
    """Eigen-decomposition modelled as real-valued (symmetric use in the code base); contents uninterpreted."""
    a = asarray(a)
    _square(a)
    n = a.shape[0]
    return functional('eigval', a, (n,)), functional('eigvec', a, (n, n))


def la_svd(a, full_matrices=True, compute_uv=True, **k):
    a = asarray(a)
    m, n = a.shape
    r = pyb.smin(m, n)
    fm = bool(full_matrices)
    if not compute_uv:
        return functional('svd_s', a, (r,))
    return (functional('svd_u' + ('f' if fm else ''), a, (m, m) if fm else (m, r)), functional('svd_s', a, (r,)),
            functional('svd_vh' + ('f' if fm else ''), a, (n, n) if fm else (r, n)))


def la_det(a):
    a = asarray(a)
    _square(a)
    return functional('det', a, ())


for _n in 'norm inv solve pinv lstsq eig svd det'.split():
    setattr(linalg, _n, globals()['la_' + _n])

fft = _Mod('numpy.fft')


def ff(name, sign):
    def f(a, n=None, axis=-1, norm=None):
        a = asarray(a)
        if norm not in (None, 'ortho', 'backward'):
            raise Unsupported('fft norm')
        nm = name + ('_ortho' if norm == 'ortho' else '')
        ax = axis % a.ndim
        if ax != a.ndim - 1:
            raise Unsupported('fft axis')
        if n is not None and not same(n, a.shape[ax]):
            raise Unsupported('padded fft')
        g = a.frozen()
        N = a.shape[ax]

        def fn(idx):
            # row-wise functional
            row = SArr.new((N,), lambda i: g(*(idx[:-1] + (i[0],))), a.store.dt)
            return functional(nm, row, (N,), dt='c').at(idx[-1])
        return SArr.new(a.shape, fn, 'c')
    return f


fft.fft = ff('fft', -1)
fft.ifft = ff('ifft', 1)


def fft_shift(a, axes=None):
    a = asarray(a)
    axs = red_axes(a, axes)
    for i in axs:
        a = np_roll(a, arith('//', a.shape[i], 2), i)
    return a


def fft_ishift(a, axes=None):
    a = asarray(a)
    axs = red_axes(a, axes)
    for i in axs:
        a = np_roll(a, arith('-', 0, arith('//', a.shape[i], 2)), i)
    return a


fft.fftshift = fft_shift
fft.ifftshift = fft_ishift

ma = _Mod('numpy.ma')
ma.sqrt = np_sqrt

random = _Mod('numpy.random')
_RS = [None]


def r_seed(s):
    ctx().rng = (ex(s, T.Z), 0)


def r_rand(*shape):
    st = getattr(ctx(), 'rng', None)
    shape = tuple(intval(x) for x in shape)
    check_dims(shape)
    if st is None:
        base = [z3.Const('!rngstate', T.Z), z3.IntVal(0)]
        ctx().rng = (base[0], 1)
        seed, cnt = base
    else:
        seed, cnt = st[0], z3.IntVal(st[1])
        ctx().rng = (st[0], st[1] + 1)
    dims = [ex(d, T.Z) for d in shape]
    f = T.uf('rand%d' % len(shape), *([T.Z] * (2 + 2 * len(shape)) + [T.R]))

    def fn(idx):
        e = f(seed, cnt, *dims, *[ex(i, T.Z) for i in idx])
        return Sym(e, np.float64)
    qs = [z3.Int(f'!r{i}') for i in range(len(shape))]
    e = f(seed, cnt, *dims, *qs)
    ctx().assume(z3.ForAll(qs, z3.And(e >= 0, e < 1)) if qs else z3.And(e >= 0, e < 1), 'def')
    ctx().assumptions.add('numpy.random.rand: determined by seed, draw number and shape, values in [0,1)')
    if not shape:
        return fn(())
    return SArr.new(shape, fn)


random.seed = r_seed
random.rand = r_rand


def build_numpy():
    m = _Mod('numpy')
    m.ndarray = SArr
    m.format_float_positional, m.format_float_scientific = text.positional, text.scientific
    m.ufunc = UFunc
    m.float64 = Float64
    m.complex128 = complex
    m.int64 = np.int64
    m.bool_ = np.bool_
    m.inf, m.e, m.pi, m.nan, m.newaxis = np.inf, np.e, np.pi, np.nan, None
    m.linalg, m.fft, m.ma, m.random = linalg, fft, ma, random
    for n, f in list(globals().items()):
        if n.startswith('np_'):
            setattr(m, n[3:], f)
    m.matmul = matmul
    m.asarray = lambda a, dtype=None: asarray(a, dt_of(dtype))
    m.atleast_2d = lambda a: asarray(a) if asarray(a).ndim >= 2 else reshape(asarray(a), (1, -1))
    m.true_divide = np_divide
    m.absolute = np_abs
    m.fabs = np_abs
    m.max, m.min = np_amax, np_amin
    m.reshape = lambda a, s: asarray(a).reshape(s)
    m.transpose = lambda a: asarray(a).transpose()
    m.ravel = lambda a: asarray(a).ravel()
    m.squeeze = lambda a, axis=None: asarray(a).squeeze(axis)
    m.expand_dims = lambda a, axis: asarray(a)[(slice(None),) * axis + (None,)]
    m.errstate = lambda **k: _Null()
    m.dtype = _DT
    m.broadcast_to = lambda a, s: broadcast_to(asarray(a), tuple(s))
    m.delete = np_delete
    m.shape = lambda a: asarray(a).shape
    m.array_equal = lambda a, b: bool(arr_equal(a, b))
    return m


def arr_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim or not all(dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    return np_all(elementwise(lambda x, y: compare('==', x, y), a, b))


def np_delete(a, obj, axis=None):
    raise Unsupported('np.delete')


class _Null:
    def __enter__(self): return self
    def __exit__(self, *a): return False


NUMPY = build_numpy()
