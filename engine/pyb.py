"""Python builtins and lists for the instrumented code."""
import builtins
import math

import numpy as np
import z3

from . import terms as T
from .terms import Sym, CPair, Unsupported, ex, val, ctx, compare, arith, ite, land, lor, lnot, isconc
from .rt import CarriedUse, PoisonRead

CDIV = z3.Function('cdiv', T.Z, T.Z, T.Z)


class Carried:
    """Placeholder for a loop-carried location at the start of a generic iteration."""
    def __init__(self, loc):
        object.__setattr__(self, '_loc', loc)

    def _t(self, *a, **k):
        raise CarriedUse(object.__getattribute__(self, '_loc'))

    def __getattribute__(self, n):
        if n == '__class__':
            return Carried
        raise CarriedUse(object.__getattribute__(self, '_loc'))
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _t
    __floordiv__ = __mod__ = __pow__ = __neg__ = __abs__ = __lt__ = __le__ = __gt__ = __ge__ = _t
    __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __getitem__ = __setitem__ = __call__ = _t
    __contains__ = __float__ = __int__ = __index__ = __hash__ = __str__ = __format__ = __iadd__ = _t
    __setattr__ = _t


class Poison:
    """Left-over state of an earlier use: any read of it is a history dependence."""
    def __init__(self, what):
        object.__setattr__(self, '_what', what)

    def _t(self, *a, **k):
        raise PoisonRead(object.__getattribute__(self, '_what'))

    def __getattribute__(self, n):
        if n == '__class__':
            return Poison
        raise PoisonRead(object.__getattribute__(self, '_what'))
    for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv mod pow neg abs lt le gt ge eq ne bool len iter '
               'getitem setitem call contains float int index hash str format iadd isub imul matmul and or invert').split():
        locals()['__' + _n + '__'] = _t
    __setattr__ = _t


def poke(v):
    """Touch a possibly carried / poisoned value."""
    if type(v) is Carried:
        raise CarriedUse(object.__getattribute__(v, '_loc'))
    if type(v) is Poison:
        raise PoisonRead(object.__getattribute__(v, '_what'))
    return v


def intval(v):
    """Normalise an index-like value to int or int Sym."""
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, Sym) and v.e.sort() == T.Z:
        return val(z3.simplify(v.e), int)
    if hasattr(v, '_as_index'):
        return v._as_index()
    raise TypeError('integer expected')


def smin(a, b):
    if isconc(a) and isconc(b):
        return a if a <= b else b
    return ite(compare('<=', a, b), a, b)


def norm_index(i, n, what='list index out of range'):
    """Python index semantics with bounds: returns the non-negative index or raises IndexError."""
    i = intval(i)
    c = ctx()
    if isconc(i) and isconc(n):
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError(what)
        return i
    if isconc(i):
        if i >= 0:
            if c.branch(ex(n) > i):
                return i
        else:
            if c.branch(ex(n) >= -i):
                return arith('+', n, i)
        raise IndexError(what)
    if c.branch(ex(i) >= 0):
        if c.branch(ex(i) < ex(n, T.Z)):
            return i
        raise IndexError(what)
    if c.branch(ex(i) + ex(n, T.Z) >= 0):
        return arith('+', i, n)
    raise IndexError(what)


def slice_bounds(s, n):
    """(start, length, step) of a slice over length n with step +1/-1/const."""
    step = 1 if s.step is None else intval(s.step)
    if not isconc(step):
        # symbolic positive step
        if not ctx().branch(ex(step) > 0):
            raise Unsupported('slice with non-positive symbolic step')
    elif step == 0:
        raise ValueError('slice step cannot be zero')

    def clip(v, lo, hi, dflt):
        if v is None:
            return dflt
        v = intval(v)
        c = ctx()
        if isconc(v) and isconc(n):
            if v < 0: v += n
            return builtins.min(builtins.max(v, lo), hi)
        if c.branch(ex(v) < 0):
            v = arith('+', v, n)
            if c.branch(ex(v, T.Z) < ex(lo, T.Z)):
                return lo
            return v
        if c.branch(ex(v) > ex(hi, T.Z)):
            return hi
        return v
    if isconc(step) and step < 0:
        start = clip(s.start, -1, arith('-', n, 1), arith('-', n, 1))
        stop = clip(s.stop, -1, arith('-', n, 1), -1)
        ln = arith('-', start, stop)
        if not (ln > 0):
            return start, 0, step
        return start, cdiv(ln, -step), step
    start = clip(s.start, 0, n, 0)
    stop = clip(s.stop, 0, n, n)
    ln = arith('-', stop, start)
    if not (compare('>', ln, 0)):
        return start, 0, step
    return start, cdiv(ln, step), step


def cdiv(a, b):
    """ceil(a/b) for a >= 0, b > 0."""
    if isconc(a) and isconc(b):
        return -(-a // b)
    if isconc(b) and b == 1:
        return a
    if isconc(b):
        return val(z3.simplify((ex(a) + (b - 1)) / b), int)
    ea, eb = ex(a, T.Z), ex(b, T.Z)
    q = z3.simplify(ea, som=True)
    # a == m*b syntactically
    ch = q.children() if z3.is_mul(q) else [q]
    for i, x in enumerate(ch):
        if x.eq(eb):
            rest = ch[:i] + ch[i + 1:]
            if not rest:
                return 1
            return val(rest[0] if len(rest) == 1 else z3.Product(*rest), int)
    r = CDIV(z3.simplify(ea, som=True), eb)
    c = ctx()
    c.assume(z3.And((r - 1) * eb < ea, ea <= r * eb, z3.Implies(ea > 0, r >= 1), r <= ea), 'def')
    return Sym(r, int)


class Seg:
    __slots__ = ('kind', 'n', 'fn', 'pred', 'items', 'loc', 'arr')

    def __init__(self, kind, n=None, fn=None, pred=None, items=None, loc=None, arr=None):
        self.kind, self.n, self.fn, self.pred, self.items, self.loc, self.arr = kind, n, fn, pred, items, loc, arr


def fixed(segs):
    """Segments with their present contents (segments backed by an array change with it)."""
    if all_(s.arr is None for s in segs):
        return segs
    return tuple(s if s.arr is None else Seg(s.kind, s.n, lambda k, f=s.arr.store.fn: f((k,))) for s in segs)


class _ListMeta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or (cls is SList and builtins.isinstance(o, builtins.list))


class SList(metaclass=_ListMeta):
    """A list: concrete items and symbolic-length segments."""
    __array_ufunc__ = None

    def __init__(self, it=()):
        self.segs = ()
        self.ver = 0
        if not (builtins.isinstance(it, tuple) and not it):
            it = once(poke(it))
            if type(it) is SList:
                self.segs = fixed(tuple(it.segs))
            else:
                sq = seq_of(it)
                if sq is None:
                    self._set_items(builtins.list(it))
                else:
                    n, f = sq
                    if isconc(n):
                        self._set_items([f(i) for i in builtins.range(n)])
                    else:
                        self.segs = (Seg('tmpl', n, f),)

    def _set_items(self, items):
        self.segs = (Seg('items', items=tuple(items)),) if items else ()

    @staticmethod
    def of(items):
        l = SList()
        l._set_items(builtins.list(items))
        return l

    @staticmethod
    def tmpl(n, fn):
        l = SList()
        l.segs = (Seg('tmpl', n, fn),)
        return l

    # -- helpers
    def concrete(self):
        return all_(s.kind == 'items' for s in self.segs)

    def items(self):
        out = []
        for s in self.segs:
            if s.kind == 'carried':
                raise CarriedUse(s.loc)
            if s.kind != 'items':
                raise Unsupported('symbolic-length list used as a concrete one')
            out.extend(s.items)
        return out

    def length(self):
        n = 0
        for s in self.segs:
            if s.kind == 'carried':
                raise CarriedUse(s.loc)
            if s.kind == 'items':
                n = arith('+', n, len(s.items))
            elif s.kind == 'tmpl':
                n = arith('+', n, s.n)
            else:
                n = arith('+', n, filt_len(s))
        return n

    def at(self, i):
        """Element at a valid non-negative index."""
        off = 0
        segs = self.segs
        if len(segs) == 1 and segs[0].kind == 'tmpl':
            return segs[0].fn(i)
        if len(segs) == 1 and segs[0].kind == 'filt':
            return segs[0].fn(filt_sel(segs[0], i))
        for s in segs:
            if s.kind == 'carried':
                raise CarriedUse(s.loc)
            if s.kind == 'items':
                if isconc(i) and isconc(off):
                    if i - off < len(s.items):
                        return s.items[i - off]
                else:
                    rel = arith('-', i, off)
                    vals = s.items
                    if len(segs) == 1 and all_(T.is_num(v) for v in vals) and len(vals) > 0:
                        r = vals[-1]
                        for q in builtins.range(len(vals) - 2, -1, -1):
                            r = ite(compare('==', rel, q), vals[q], r)
                        return r
                    last = s is segs[-1]
                    for q, v in enumerate_(vals):
                        if (last and q == len(vals) - 1) or compare('==', rel, q):
                            return v
                off = arith('+', off, len(s.items))
            else:
                ln = s.n if s.kind == 'tmpl' else filt_len(s)
                rel = arith('-', i, off)
                if s is segs[-1] or compare('<', rel, ln):
                    return s.fn(rel) if s.kind == 'tmpl' else s.fn(filt_sel(s, rel))
                off = arith('+', off, ln)
        raise IndexError('list index out of range')

    def probes(self):
        """Representative elements, one per segment (generic index in templates)."""
        out = []
        for s in self.segs:
            if s.kind == 'carried':
                raise CarriedUse(s.loc)
            if s.kind == 'items':
                out.extend((x, None) for x in s.items)
            else:
                k = T.fresh_int('l')
                out.append((s.fn(Sym(k, int)), k))
        return out

    def _seq(self):
        if self.concrete():
            return None
        n = self.length()
        return n, self.at

    def __getitem__(self, i):
        if builtins.isinstance(i, slice):
            if self.concrete() and all_(x is None or isconc(x) for x in (i.start, i.stop, i.step)):
                return SList.of(self.items()[i])
            if i.stop is None and (i.step is None or isconc(i.step) and i.step == 1) and i.start is not None and isconc(i.start) and i.start >= 0 \
                    and self.segs and self.segs[0].kind == 'items' and i.start <= len(self.segs[0].items):
                src = self.frozen()
                rest = src.segs[0].items[i.start:]
                r = SList()
                r.segs = ((Seg('items', items=rest),) if rest else ()) + src.segs[1:]
                return r
            n = self.length()
            st, ln, step = slice_bounds(i, n)
            src = self.frozen()
            if isconc(ln):
                return SList.of([src.at(arith('+', st, k * step)) for k in builtins.range(ln)])
            return SList.tmpl(ln, lambda k: src.at(arith('+', st, arith('*', k, step))))
        n = self.length()
        return self.at(norm_index(i, n))

    def frozen(self):
        l = SList()
        l.segs = fixed(self.segs)
        return l

    def __setitem__(self, i, v):
        if builtins.isinstance(i, slice):
            raise Unsupported('slice assignment to a list')
        if self.segs and self.segs[0].kind == 'carried' and all_(s.kind == 'set' for s in self.segs[1:]):
            # the content comes from earlier iterations of a loop; assignments leave the length as it was before the loop
            loc = self.segs[0].loc
            base = SList()
            base.segs = loc[0].snap.saved[loc[2]]
            i = norm_index(i, base.length(), 'list assignment index out of range')
            self.segs = self.segs + (Seg('set', i, items=(v,)),)
            return
        n = self.length()
        i = norm_index(i, n, 'list assignment index out of range')
        if len(self.segs) == 1 and self.segs[0].arr is not None:
            a = self.segs[0].arr
            if T.is_num(v) and not builtins.isinstance(v, CPair) and (a.store.dt == 'f' or builtins.isinstance(v, (int, np.integer)) or (builtins.isinstance(v, Sym) and v.e.sort() == T.Z)):
                a[i] = v
                return
            self.segs = fixed(self.segs)
        if self.concrete():
            it = self.items()
            if isconc(i):
                it[i] = v
                self._set_items(it)
                return
        old = self.frozen()
        if isconc(n):
            if not (T.is_num(v) and all_(T.is_num(x) for x in self.items())):
                for q in builtins.range(n):
                    if compare('==', i, q):
                        it = self.items()
                        it[q] = v
                        self._set_items(it)
                        return
            self._set_items([ite(compare('==', i, q), v, x) for q, x in enumerate_(self.items())])
            return
        self.segs = (Seg('tmpl', n, lambda k: ite_obj(compare('==', k, i), v, lambda: old.at(k))),)

    def append(self, v):
        s = self.segs
        if s and s[-1].kind == 'items':
            self.segs = s[:-1] + (Seg('items', items=s[-1].items + (v,)),)
        else:
            self.segs = s + (Seg('items', items=(v,)),)

    def extend(self, o):
        o = o if builtins.isinstance(o, SList) else SList(o)
        self.segs = self.segs + fixed(o.segs)

    def __delitem__(self, i):
        if self.concrete() and (isconc(i) or builtins.isinstance(i, slice) and all_(x is None or isconc(x) for x in (i.start, i.stop, i.step))):
            it = self.items()
            del it[i]
            self._set_items(it)
            return
        if isconc(i) and i >= 0 and self.segs and self.segs[0].kind == 'items' and i < len(self.segs[0].items):
            s = self.frozen().segs
            its = s[0].items[:i] + s[0].items[i + 1:]
            self.segs = ((Seg('items', items=its),) if its else ()) + s[1:]
            return
        raise T.Unsupported('deletion from a symbolic list')

    def insert(self, i, v):
        it = self.items()
        it.insert(i, v)
        self._set_items(it)

    def pop(self, i=-1):
        if not self.concrete() and isconc(i) and i >= 0 and self.segs[0].kind == 'items' and i < len(self.segs[0].items):
            v = self.segs[0].items[i]
            del self[i]
            return v
        it = self.items()
        v = it.pop(i)
        self._set_items(it)
        return v

    def remove(self, v):
        it = self.items()
        for q, x in enumerate_(it):
            if compare_any(x, v):
                del it[q]
                self._set_items(it)
                return
        raise ValueError('list.remove(x): x not in list')

    def clear(self):
        self.segs = ()

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise T.Unsupported('list.' + n)

    def copy(self):
        return self.frozen()

    def reverse(self):
        if self.concrete():
            self._set_items(self.items()[::-1])
        else:
            src, n = self.frozen(), self.length()
            self.segs = (Seg('tmpl', n, lambda k: src.at(arith('-', arith('-', n, 1), k))),)

    def index(self, v):
        segs = fixed(self.segs)
        if len(segs) == 1 and segs[0].kind == 'tmpl':
            if not self.contains(v):
                raise ValueError('not in list')
            k = T.fresh_int('x')
            same = ex(compare_any(segs[0].fn(Sym(k, int)), v), T.B)
            if T.contains_quantifier(same):
                raise Unsupported('index of an element')
            n = z3.simplify(ex(segs[0].n, T.Z), som=True)
            k0 = T.mk_binder('first', [k], [T.renorm(same)], [n], T.Z)
            ctx().assume(z3.And(k0 >= 0, k0 < n, T.subst(same, [(k, k0)])), 'c')
            return Sym(k0, int)
        for q, x in enumerate_(self.items()):
            if compare_any(x, v):
                return q
        raise ValueError('not in list')

    def count(self, v):
        return sum_([1 for x in self.items() if compare_any(x, v)])

    def sort(self, key=None, reverse=False):
        if self.concrete() and len(self.items()) <= 1:
            return
        its = self.items() if self.concrete() else None
        if its is not None:
            ks = [key(x) if key else x for x in its]
            if all_(isconc(k) for k in ks):
                order = sorted_(builtins.range(len(ks)), key=lambda q: ks[q], reverse=reverse)
                self._set_items([its[q] for q in order])
                return
        src, n = self.frozen(), self.length()
        if builtins.isinstance(reverse, Sym):
            reverse = builtins.bool(reverse)
        perm = sort_perm(n, lambda k: (key(src.at(k)) if key else src.at(k)), reverse, key is not None)
        self.segs = (Seg('tmpl', n, lambda k: src.at(perm(k))),)

    def contains(self, v):
        """Membership as a term."""
        rs = []
        for s in self.segs:
            if s.kind == 'carried':
                raise CarriedUse(s.loc)
            if s.kind == 'items':
                rs += [compare_any(x, v) for x in s.items]
            else:
                k = Sym(T.fresh_int('m'), int)
                b = compare_any(s.fn(k), v)
                if s.kind == 'filt':
                    b = land(s.pred(k), b)
                rs.append(exists(s.n, lambda q, b=b, k=k: T.subst_val(b, [(k.e, ex(q, T.Z))])))
        return lor(*rs)

    def __contains__(self, v):
        return builtins.bool(self.contains(v))

    def __iter__(self):
        return iter(self.items())

    def __len__(self):
        n = self.length()
        if isconc(n):
            return n
        raise Unsupported('native len of a symbolic list')

    def __bool__(self):
        return builtins.bool(compare('>', self.length(), 0))

    def __add__(self, o):
        if not builtins.isinstance(o, SList):
            raise TypeError('can only concatenate list')
        r = SList()
        o = o if type(o) is SList else SList(o)
        r.segs = fixed(self.segs + o.segs)
        return r

    def __radd__(self, o):
        return SList(o) + self

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, n):
        n = intval(n)
        if isconc(n):
            r = SList()
            r.segs = fixed(self.segs) * builtins.max(n, 0)
            return r
        its = self.items()
        if len(its) != 1:
            raise Unsupported('repetition of a longer list')
        if not ctx().branch(ex(n) > 0):
            return SList()
        x = its[0]
        if T.is_num(x) and not builtins.isinstance(x, (bool, np.bool_, CPair)) and not (builtins.isinstance(x, Sym) and x.kind() == 'b'):
            from .arr import SArr
            a = SArr.new((n,), lambda idx: x, 'i' if builtins.isinstance(x, (int, np.integer)) or (builtins.isinstance(x, Sym) and x.e.sort() == T.Z) else 'f')
            r = SList()
            r.segs = (Seg('tmpl', n, lambda k: a.store.get((k,)), arr=a),)
            return r
        return SList.tmpl(n, lambda k: x)
    __rmul__ = __mul__

    def _sym_binop(self, op, o, swapped):
        if op == '*':
            return self * o
        raise TypeError('unsupported operand')

    def __eq__(self, o):
        if not builtins.isinstance(o, SList):
            return False
        a, b = self.items(), (o.items() if type(o) is SList else builtins.list(o))
        if len(a) != len(b):
            return False
        return land(*[compare_any(x, y) for x, y in zip(a, b)])
    __hash__ = None

    def __repr__(self):
        return f'SList({self.segs})'

    def __str__(self):
        return '<list>'


all_, any_, enumerate_, sum_, sorted_ = builtins.all, builtins.any, builtins.enumerate, builtins.sum, builtins.sorted


def ite_obj(c, a, bthunk):
    if c is True:
        return a
    if c is False:
        return bthunk()
    return ite(c, a, bthunk())


def compare_any(a, b):
    poke(a); poke(b)
    if T.is_num(a) and T.is_num(b) or builtins.isinstance(a, CPair) or builtins.isinstance(b, CPair):
        return compare('==', a, b)
    if builtins.isinstance(a, tuple) and builtins.isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return land(*[compare_any(x, y) for x, y in zip(a, b)])
    r = a == b
    return r


_Q = z3.Int('!Q')          # every quantifier of this kind names its variable the same: equal statements are equal terms


def exists(n, f):
    """exists k in [0,n): f(k), as a term."""
    k = z3.Int(f'!q{next(T._fresh)}')
    b = f(Sym(k, int))
    if isconc(b):
        return land(b, compare('>', n, 0))
    return Sym(z3.Exists([_Q], z3.substitute(z3.And(k >= 0, k < ex(n, T.Z), ex(b, T.B)), (k, _Q))), bool)


def forall(n, f):
    k = z3.Int(f'!q{next(T._fresh)}')
    b = f(Sym(k, int))
    if isconc(b):
        return True if b else compare('<=', n, 0)
    return Sym(z3.ForAll([_Q], z3.substitute(z3.Implies(z3.And(k >= 0, k < ex(n, T.Z)), ex(b, T.B)), (k, _Q))), bool)


# -- filtered selections
def _filt_binders(s):
    k = T.fresh_int('f')
    p = ex(s.pred(Sym(k, int)), T.B)
    n = ex(s.n, T.Z)
    ln = T.mk_binder('filtlen', [k], [p], [n], T.Z)
    return k, p, n, ln


def filt_len(s):
    k, p, n, ln = _filt_binders(s)
    c = ctx()
    sel = lambda j: T.mk_binder('filtsel', [k], [p], [n, j], T.Z)
    rank = lambda j: T.mk_binder('filtrank', [k], [p], [n, j], T.Z)
    key = ('filt', ln.get_id())
    done = getattr(c, '_filtdone', None)
    if done is None:
        done = c._filtdone = {}
    if ctx().top.memo.get(key) is None:
        ctx().top.memo[key] = (ln, True)
        j, j2, q = z3.Int('!fj'), z3.Int('!fj2'), z3.Int('!fq')
        pp = lambda x: z3.substitute(p, (k, x))
        c.assume(z3.And(ln >= 0, ln <= n), 'def')
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), z3.And(sel(j) >= 0, sel(j) < n, pp(sel(j)), rank(sel(j)) == j)), patterns=[sel(j)]), 'def')
        c.assume(z3.ForAll([j, j2], z3.Implies(z3.And(j >= 0, j < j2, j2 < ln), sel(j) < sel(j2)), patterns=[z3.MultiPattern(sel(j), sel(j2))]), 'def')
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n, pp(q)), z3.And(rank(q) >= 0, rank(q) < ln, sel(rank(q)) == q)), patterns=[rank(q)]), 'def')
        # the position of a kept element is the number of kept ones before it
        try:
            cnt = lambda x: T.sum_expr(x, k, z3.If(p, z3.RealVal(1), z3.RealVal(0)))
            cn, cq = cnt(n), cnt(q)
            if not any(T.binder_of(x) is not None for x in _subterms(cq)):
                c.assume(z3.ToReal(ln) == cn, 'def')
                c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n, pp(q)), z3.ToReal(rank(q)) == cq), patterns=[rank(q)]), 'def')
                c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln), z3.ToReal(j) == z3.substitute(cq, (q, sel(j)))), patterns=[sel(j)]), 'def')
        except Unsupported:
            pass
    return val(ln, int)


def _subterms(e):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        st.extend(x.children())
    return out


def filt_sel(s, j):
    filt_len(s)
    k, p, n, ln = _filt_binders(s)
    return Sym(T.mk_binder('filtsel', [k], [p], [n, ex(j, T.Z)], T.Z), int)


def sort_perm(n, keyf, reverse, bounded=False):
    """Stable sorting permutation as an uninterpreted function of the key sequence."""
    k = T.fresh_int('f')
    if bounded:             # the key is asked for positions of the list only
        if not compare('>', n, 0):
            return lambda q: q
        ctx().assume(z3.And(k >= 0, k < ex(n, T.Z)), 'def')
    kv = keyf(Sym(k, int))
    if builtins.isinstance(kv, CPair):
        bodies = [ex(kv.re, T.R), ex(kv.im, T.R)]
    elif T.is_num(kv):
        bodies = [ex(kv, T.R)]
    else:
        raise Unsupported('sort by non-numeric key')
    op = 'sortperm_r' if reverse else 'sortperm'
    nn = ex(n, T.Z)
    perm = lambda j: T.mk_binder(op, [k], bodies, [nn, ex(j, T.Z)], T.Z)
    c = ctx()
    j, j2 = z3.Int('!fj'), z3.Int('!fj2')
    inv = lambda q: T.mk_binder(op + 'inv', [k], bodies, [nn, ex(q, T.Z)], T.Z)
    p0 = perm(j)
    c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nn), z3.And(p0 >= 0, p0 < nn, inv(p0) == j)), patterns=[p0]), 'def')
    c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nn), z3.And(inv(j) >= 0, inv(j) < nn, perm(inv(j)) == j)), patterns=[inv(j)]), 'def')
    if len(bodies) == 1:
        kk = lambda x: z3.substitute(bodies[0], (k, x))
        rel = kk(perm(j)) >= kk(perm(j2)) if reverse else kk(perm(j)) <= kk(perm(j2))
        c.assume(z3.ForAll([j, j2], z3.Implies(z3.And(j >= 0, j < j2, j2 < nn), rel), patterns=[z3.MultiPattern(perm(j), perm(j2))]), 'def')
    return lambda q: Sym(perm(q), int)


class SRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def _seq(self):
        st, sp, step = self.start, self.stop, self.step
        if isconc(step):
            if step == 0:
                raise ValueError('range() arg 3 must not be zero')
            if step < 0:
                ln = arith('-', st, sp)
                if not compare('>', ln, 0):
                    return 0, None
                n = cdiv(ln, -step)
                return n, lambda k: arith('+', st, arith('*', k, step))
        else:
            if compare('==', step, 0):
                raise ValueError('range() arg 3 must not be zero')
            if compare('<', step, 0):
                raise Unsupported('range with negative symbolic step')
        ln = arith('-', sp, st)
        if not compare('>', ln, 0):
            return 0, None
        n = cdiv(ln, step)
        return n, lambda k: arith('+', st, arith('*', k, step))

    def __len__(self):
        n = self._seq()[0]
        if isconc(n):
            return n
        raise Unsupported('native len of symbolic range')

    def __iter__(self):
        n, f = self._seq()
        if isconc(n):
            return iter([f(k) for k in builtins.range(n)])
        raise Unsupported('native iteration over a symbolic range')

    def __contains__(self, v):
        if isconc(self.step) and self.step == 1:
            return builtins.bool(land(compare('>=', v, self.start), compare('<', v, self.stop)))
        raise Unsupported('membership in a stepped symbolic range')


class SIter:
    """Lazy symbolic sequence (enumerate, zip, reversed, map over symbolic sequences)."""
    def __init__(self, n, f):
        self.n, self.f = n, f

    def _seq(self):
        return self.n, self.f

    def __iter__(self):
        if isconc(self.n):
            return iter([self.f(k) for k in builtins.range(self.n)])
        raise Unsupported('native iteration over a symbolic sequence')


def once(o):
    """What an object that can be iterated once (a file) yields."""
    f = getattr(o, '_once', None)
    return o if f is None else f()


def seq_of(o):
    """(n, item) when o is a symbolic-length sequence, else None (iterate natively)."""
    poke(o)
    f = getattr(o, '_seq', None)
    if f is None:
        if builtins.isinstance(o, (builtins.list, builtins.tuple, builtins.range, str, bytes, dict, builtins.set, builtins.zip, builtins.enumerate, builtins.map, builtins.filter)):
            return None
        return None
    r = f()
    if r is None:
        return None
    n, it = r
    if isconc(n):
        return builtins.int(n), it
    return n, it


def v_range(*a):
    a = [intval(poke(x)) for x in a]
    if all_(isconc(x) for x in a):
        return builtins.range(*a)
    if len(a) == 1: return SRange(0, a[0], 1)
    if len(a) == 2: return SRange(a[0], a[1], 1)
    return SRange(*a)


def v_len(o):
    poke(o)
    if builtins.isinstance(o, SList) and type(o) is SList:
        return o.length()
    if hasattr(o, '_len'):
        return o._len()
    if builtins.isinstance(o, (SRange, SIter)):
        return o._seq()[0]
    return builtins.len(o)


SHIMCLS = {}   # shim class -> real classes it stands for


def _real_cls(c):
    return SHIMCLS.get(c, c)


def v_isinstance(o, cls):
    if type(o) is Carried or type(o) is Poison:
        poke(o)
    cs = cls if builtins.isinstance(cls, tuple) else (cls,)
    if builtins.isinstance(o, Sym):
        return any_(builtins.isinstance(_real_cls(c), type) and issubclass(o.t, _real_cls(c)) for c in cs)
    if builtins.isinstance(o, CPair):
        return any_(issubclass(np.complex128, _real_cls(c)) for c in cs if builtins.isinstance(_real_cls(c), type))
    for c in cs:
        if c is builtins.list or c is SList:
            if builtins.isinstance(o, SList):
                return True
        elif c in (builtins.str, v_str) and type(o).__name__ == 'Text':
            return True
        elif builtins.isinstance(o, _real_cls(c)):
            return True
    return False


def v_int(v=0, *a):
    poke(v)
    if a:
        return builtins.int(v, *a)
    if builtins.isinstance(v, Sym):
        if v.e.sort() == T.Z: return Sym(v.e, int)
        if v.e.sort() == T.B: return val(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)), int)
        # truncation toward zero
        fl = z3.ToInt(v.e)
        return val(z3.simplify(z3.If(v.e >= 0, fl, -z3.ToInt(-v.e))), int)
    if hasattr(v, '_scalar'):
        return v_int(v._scalar())
    return builtins.int(v)


def v_float(v=0.0):
    poke(v)
    if builtins.isinstance(v, Sym):
        return Sym(ex(v, T.R), float)
    if hasattr(v, '_scalar'):
        return v_float(v._scalar())
    if builtins.isinstance(v, CPair):
        raise TypeError('float() argument must not be complex')
    from . import text
    if type(v) is text.Text:
        return text.parse(v)
    return builtins.float(v)


def v_bool(v=False):
    poke(v)
    return builtins.bool(v)


def v_abs(v):
    poke(v)
    return builtins.abs(v)


def v_str(v=''):
    poke(v)
    from . import text
    if builtins.isinstance(v, Sym):
        return text.number_text(v)
    if type(v) is text.Text:
        return v
    return builtins.str(v)


def v_repr(v):
    poke(v)
    if builtins.isinstance(v, Sym):
        from . import text
        return text.opaque()
    return builtins.repr(v)


def v_pow(a, b, *m):
    if m:
        return builtins.pow(a, b, *m)
    return a ** b


def v_round(v, nd=None):
    if builtins.isinstance(v, Sym):
        raise Unsupported('round of a symbolic value')
    return builtins.round(v, nd) if nd is not None else builtins.round(v)


def _minmax(op, a, kw):
    if len(a) == 1:
        it = a[0]
        sq = seq_of(it)
        if sq is not None and not isconc(sq[0]):
            raise Unsupported('min/max over a symbolic-length sequence')
        xs = builtins.list(it) if sq is None else [sq[1](i) for i in builtins.range(sq[0])]
        if not xs:
            if 'default' in kw:
                return kw['default']
            raise ValueError('arg is an empty sequence')
    else:
        xs = builtins.list(a)
    if 'key' in kw and kw['key'] is not None:
        raise Unsupported('min/max with key')
    r = poke(xs[0])
    for x in xs[1:]:
        poke(x)
        r = ite(compare('<' if op == 'min' else '>', x, r), x, r) if T.is_num(x) and T.is_num(r) else (x if (x < r if op == 'min' else x > r) else r)
    return r


def v_min(*a, **kw): return _minmax('min', a, kw)
def v_max(*a, **kw): return _minmax('max', a, kw)


def v_enumerate(o, start=0):
    sq = seq_of(o)
    if sq is None:
        return builtins.enumerate(o, start)
    n, f = sq
    return SIter(n, lambda k: (arith('+', k, start), f(k)))


def v_zip(*os):
    sqs = [seq_of(o) for o in os]
    if all_(s is None for s in sqs):
        return builtins.zip(*os)
    fs, ns = [], []
    for o, s in zip(os, sqs):
        if s is None:
            its = builtins.list(o)
            l = SList.of(its)
            fs.append(l.at); ns.append(len(its))
        else:
            fs.append(s[1]); ns.append(s[0])
    n = ns[0]
    for m in ns[1:]:
        if isconc(n) and isconc(m):
            n = builtins.min(n, m)
        elif not compare('==', n, m):
            n = n if compare('<', n, m) else m
    return SIter(n, lambda k: tuple(f(k) for f in fs))


def v_reversed(o):
    sq = seq_of(o)
    if sq is None:
        return builtins.reversed(builtins.list(o))
    n, f = sq
    return SIter(n, lambda k: f(arith('-', arith('-', n, 1), k)))


def v_map(fn, *os):
    if len(os) == 1:
        sq = seq_of(os[0])
        if sq is not None:
            return SIter(sq[0], lambda k: fn(sq[1](k)))
    return builtins.map(fn, *os)


def v_sorted(o, key=None, reverse=False):
    if hasattr(o, '_sorted') and key is None and not reverse:
        return o._sorted()
    l = SList(o)
    l.sort(key=key, reverse=reverse)
    return l


def v_tuple(o=()):
    sq = seq_of(o)
    if sq is None:
        return builtins.tuple(o)
    n, f = sq
    if isconc(n):
        return builtins.tuple(f(i) for i in builtins.range(n))
    raise Unsupported('tuple of symbolic length')


def v_set(o=()):
    sq = seq_of(o)
    if sq is None and not any_(builtins.isinstance(x, Sym) and x.kind() != 'b' for x in (o if builtins.isinstance(o, (tuple, builtins.list)) else ())):
        if builtins.isinstance(o, SList) and type(o) is SList:
            its = o.items()
            if any_(builtins.isinstance(x, Sym) for x in its):
                return SSet(o)
        return builtins.set(o)
    return SSet(SList(o))


class SSet:
    """Set of symbolic numbers: membership only."""
    def __init__(self, l):
        self.l = l.frozen()

    def contains(self, v):
        return self.l.contains(v)

    def __contains__(self, v):
        return builtins.bool(self.l.contains(v))

    def add(self, v):
        self.l = self.l + SList.of([v])


class IndexSet:
    """A set of n numbers known by their ascending list; iterating goes through them in an arbitrary order."""
    def __init__(self, name, ascending):
        self.l = ascending
        self.name = name

    def _len(self):
        return self.l.length()

    def _sorted(self):
        return SList(self.l)

    def _seq(self):
        n = self.l.length()
        f = T.uf('order_' + self.name, T.Z, T.Z)
        k = z3.Int('!sk')
        ctx().assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ex(n, T.Z)), z3.And(f(k) >= 0, f(k) < ex(n, T.Z))), patterns=[f(k)]), 'def')
        return n, lambda q: self.l.at(Sym(f(ex(q, T.Z)), int))

    def contains(self, v):
        return self.l.contains(v)

    def __contains__(self, v):
        return builtins.bool(self.l.contains(v))


def v_print(*a, **k):
    pass


def v_type(o, *rest):
    if rest:
        return type(o, *rest)
    if builtins.isinstance(o, Sym):
        return o.t
    poke(o)
    return type(o)


def is_(a, b):
    if type(a) is Carried or type(a) is Poison:
        poke(a)
    if type(b) is Carried or type(b) is Poison:
        poke(b)
    return a is b


def in_(a, b):
    """`a in b` as a native bool."""
    poke(a); poke(b)
    if builtins.isinstance(b, (builtins.list, tuple)) and type(b) is not SList:
        return builtins.any(x is a or builtins.bool(compare_any(x, a)) for x in b)
    return a in b
