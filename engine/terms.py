"""Symbolic scalar terms: z3 expressions with Python type tags, a polynomial normal form, and
hash-consed binder terms (finite sums and other functionals of whole arrays).

Numbers are mathematical: int -> Z, every floating point value -> R (stated in the evidence)."""
import itertools
import math
from fractions import Fraction

import numpy as np
import z3

Z, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(BaseException):
    """The construct lies outside the verified subset: the obligation stays undecided."""


# ---------------------------------------------------------------------------------------------
# Context hook (set by interp): lets Sym.__bool__ fork the path.
CTX = [None]


def ctx():
    return CTX[0]


class Sym:
    __slots__ = ('e', 't')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, e, t=None):
        self.e = e
        if t is None:
            s = e.sort()
            t = bool if s == B else int if s == Z else np.float64
        self.t = t

    def kind(self):
        s = self.e.sort()
        return 'b' if s == B else 'i' if s == Z else 'f'

    def __repr__(self):
        return f'Sym({self.e})'

    def __bool__(self):
        c = self.e if self.kind() == 'b' else self.e != 0
        return ctx().branch(c)

    def __hash__(self):
        if self.kind() == 'b':
            return hash(bool(self))
        raise Unsupported('hash of a symbolic value')

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'

    def __float__(self):
        raise Unsupported('native float() of a symbolic value')

    def __int__(self):
        raise Unsupported('native int() of a symbolic value')

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from . import textio
        if self.kind() != 'i':
            raise Unsupported('to_bytes')
        return textio.to_bytes(self, length, byteorder, signed=signed)

    def item(self):
        return Sym(self.e, float if self.e.sort() == R else int)

    @property
    def ndim(self):
        if self.t in (np.float64, np.int64, np.bool_) or self.t is None:
            return 0
        raise AttributeError('ndim')

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def __getattr__(self, name):
        raise Unsupported(f'attribute {name} of a symbolic number')

    def __index__(self):
        v = const_of(self.e)
        if isinstance(v, int):
            return v
        raise Unsupported('symbolic value used as a concrete index')

    def __add__(self, o): return arith('+', self, o)
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o)
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __floordiv__(self, o): return arith('//', self, o)
    def __rfloordiv__(self, o): return arith('//', o, self)
    def __mod__(self, o): return arith('%', self, o)
    def __rmod__(self, o): return arith('%', o, self)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __neg__(self): return arith('-', 0, self)
    def __pos__(self): return self
    def __abs__(self):
        if self.kind() == 'f':
            return Sym(pterm(pabs(pnorm(self.e))), self.t)
        return ite(compare('<', self, 0), arith('-', 0, self), self)
    def __lt__(self, o): return compare('<', self, o)
    def __le__(self, o): return compare('<=', self, o)
    def __gt__(self, o): return compare('>', self, o)
    def __ge__(self, o): return compare('>=', self, o)
    def __eq__(self, o): return compare('==', self, o)
    def __ne__(self, o): return compare('!=', self, o)
    def __and__(self, o): return land(self, o)
    def __rand__(self, o): return land(o, self)
    def __or__(self, o): return lor(self, o)
    def __ror__(self, o): return lor(o, self)
    def __invert__(self): return lnot(self)


class CPair:
    """A complex number with symbolic parts."""
    __slots__ = ('re', 'im')
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return f'CPair({self.re},{self.im})'


def cpair(v):
    if isinstance(v, CPair):
        return v
    if isinstance(v, complex) or isinstance(v, np.complexfloating):
        return CPair(float(v.real), float(v.imag))
    return CPair(v, 0)


def is_num(v):
    return isinstance(v, (Sym, int, float, np.floating, np.integer, bool, np.bool_, Fraction))


def isconc(v):
    return isinstance(v, (int, float, np.floating, np.integer, bool, np.bool_, Fraction))


def const_of(e):
    """Python value of a z3 numeral (int or Fraction) or bool literal, else None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def ex(v, sort=None):
    """z3 expression of a value."""
    if isinstance(v, Sym):
        e = v.e
    elif isinstance(v, z3.ExprRef):
        e = v
    elif isinstance(v, (bool, np.bool_)):
        e = z3.BoolVal(bool(v))
    elif isinstance(v, (int, np.integer)):
        e = z3.IntVal(int(v))
    elif isinstance(v, (float, np.floating)):
        f = float(v)
        if math.isnan(f) or math.isinf(f):
            raise Unsupported('non-finite constant in real arithmetic')
        e = z3.RealVal(str(Fraction(f)))
    elif isinstance(v, Fraction):
        e = z3.RealVal(str(v))
    else:
        raise Unsupported(f'no scalar term for {type(v).__name__}')
    if sort is not None and e.sort() != sort:
        if sort == R and e.sort() == Z:
            return toreal(e)
        if sort == R and e.sort() == B:
            return z3.If(e, z3.RealVal(1), z3.RealVal(0))
        if sort == Z and e.sort() == B:
            return z3.If(e, z3.IntVal(1), z3.IntVal(0))
        if sort == B:
            return e != 0
        raise Unsupported(f'sort mismatch {e.sort()} -> {sort}')
    return e


def toreal(e):
    if e.sort() == R:
        return e
    c = const_of(e)
    if c is not None:
        return z3.RealVal(c)
    return z3.ToReal(e)


def val(e, t=None):
    """Wrap a z3 expr, folding numerals back to Python numbers."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        if Fraction(float(f)) == f:
            return np.float64(float(f))
    return Sym(e, t)


def _isfloatlike(v):
    return isinstance(v, (float, np.floating, Fraction)) or (isinstance(v, Sym) and v.e.sort() == R)


def _isinf(v):
    return isinstance(v, (float, np.floating)) and math.isinf(v)


def _isnan(v):
    return isinstance(v, (float, np.floating)) and math.isnan(v)


def arith(op, a, b):
    if isinstance(a, CPair) or isinstance(b, CPair) or isinstance(a, complex) or isinstance(b, complex):
        return carith(op, cpair(a), cpair(b))
    if isconc(a) and isconc(b):
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '/': return a / b
        if op == '//': return a // b
        if op == '%': return a % b
    if not is_num(a) or not is_num(b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise TypeError(f'unsupported operand type(s) for {op}')
        if isinstance(a, Sym) and hasattr(type(b), '_sym_binop'):
            return b._sym_binop(op, a, True)
        raise Unsupported(f'arithmetic {op} on {type(a).__name__},{type(b).__name__}')
    # light folding
    if op == '+':
        if isconc(a) and a == 0 and not (_isfloatlike(a) and not _isfloatlike(b)): return b
        if isconc(b) and b == 0 and not (_isfloatlike(b) and not _isfloatlike(a)): return a
    elif op == '-':
        if isconc(b) and b == 0 and not (_isfloatlike(b) and not _isfloatlike(a)): return a
    elif op == '*':
        if isconc(a) and a == 1 and not (_isfloatlike(a) and not _isfloatlike(b)): return b
        if isconc(b) and b == 1 and not (_isfloatlike(b) and not _isfloatlike(a)): return a
        if isconc(a) and a == 0 and not _isfloatlike(b): return a
        if isconc(b) and b == 0 and not _isfloatlike(a): return b
        if isconc(a) and a == 0: return np.float64(0)
        if isconc(b) and b == 0: return np.float64(0)
    elif op == '/':
        if isconc(b) and b == 1 and _isfloatlike(a): return a
        if isconc(a) and a == 0: return np.float64(0)
    fl = _isfloatlike(a) or _isfloatlike(b) or op == '/'
    tag = None
    if fl:
        tag = np.float64 if any((isinstance(x, Sym) and x.t is np.float64) or isinstance(x, np.floating) for x in (a, b)) else float
        x, y = ex(a, R), ex(b, R)
        if op == '+': r = x + y
        elif op == '-': r = x - y
        elif op == '*': r = x * y
        elif op == '/':
            c = const_of(y)
            if c is not None and c != 0:
                r = x * z3.RealVal(str(1 / Fraction(c)))
            else:
                r = x / y
        elif op == '//': r = z3.ToReal(z3.ToInt(x / y))
        else: raise Unsupported('real modulo')
        return Sym(r, tag)
    x, y = ex(a, Z), ex(b, Z)
    if op == '+': r = x + y
    elif op == '-': r = x - y
    elif op == '*': r = x * y
    elif op in ('//', '%'):
        # z3 div/mod agree with Python for positive divisors
        if isconc(b):
            if b <= 0: raise Unsupported('division by non-positive constant')
        elif not ctx().implied(y > 0):
            if ctx().branch(y == 0):
                raise_exc(ZeroDivisionError('integer division or modulo by zero'))
            if not ctx().branch(y > 0):
                raise Unsupported('division by negative symbolic integer')
        sp = div_split(x, y)
        if sp is not None:
            return val(sp[0] if op == '//' else sp[1], int)
        if not isconc(b):
            q, r = sym_quotient(x, y)
            return val(q if op == '//' else r, int)
        r = x / y if op == '//' else x % y
    r = z3.simplify(r)
    return val(r, int)


F_IDIV = z3.Function('idiv', Z, Z, Z)
F_IMOD = z3.Function('imod', Z, Z, Z)


def quotient_facts(x, y, q, r):
    """Linear consequences of x = y q + r, 0 <= r < y that the solvers do not find by themselves."""
    fs = [r >= 0, r < y]
    if const_of(z3.simplify(x)) == 0:
        return fs + [q == 0, r == 0]
    if z3.is_true(z3.simplify(x == y, som=True)):
        return fs + [q == 1, r == 0]
    for a, k in int_factors(x):
        # a k <= a y, so the quotient is at most a, and equals a only without remainder
        fs.append(z3.Implies(z3.And(a >= 0, k >= 0, k <= y), z3.And(q <= a, z3.Implies(q == a, r == 0))))
        fs.append(z3.Implies(z3.And(a >= 0, k >= 0), q >= 0))
        fs.append(z3.Implies(k == 0, z3.And(q == 0, r == 0)))
        fs.append(z3.Implies(k == y, z3.And(q == a, r == 0)))
        fs.append(z3.Implies(a == y, z3.And(q == k, r == 0)))
    fs.append(z3.Implies(x >= 0, q >= 0))
    return fs


def int_factors(x):
    """Factorisations x = a k with k a constant or linear difference occurring in every monomial."""
    x = z3.simplify(x)
    out = []
    if z3.is_mul(x) and x.num_args() == 2 and const_of(x.arg(0)) is None:
        return [(x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))]
    d = z3.simplify(x, som=True)
    ts = d.children() if z3.is_add(d) else [d]
    mons = [list(t.children()) if z3.is_mul(t) else [t] for t in ts]
    for k in mons[0]:
        if const_of(k) is not None:
            continue
        rest = []
        for m in mons:
            hit = [i for i, f in enumerate(m) if f.eq(k)]
            if not hit:
                rest = None
                break
            o = m[:hit[0]] + m[hit[0] + 1:]
            rest.append(z3.IntVal(1) if not o else o[0] if len(o) == 1 else z3.Product(*o))
        if rest:
            a = z3.simplify(z3.Sum(*rest)) if len(rest) > 1 else rest[0]
            if const_of(a) is None:
                out += [(a, k), (k, a)]
    return out


def sym_quotient(x, y):
    """(floor(x / y), x mod y) for y > 0 as function symbols with their defining facts (nonlinear div confuses the solvers)."""
    xc, yc = z3.simplify(x, som=True), z3.simplify(y, som=True)
    q, r = F_IDIV(xc, yc), F_IMOD(xc, yc)
    c = ctx()
    key = ('idiv', q.get_id())
    if any(key in f.memo for f in c.frames):
        return q, r
    c.top.memo[key] = (q, True)
    fs = quotient_facts(x, y, q, r)
    c.assume(z3.And(*fs), 'def')
    c.assume(x == y * q + r, 'def', False)
    return q, r


def div_split(x, y):
    """(quotient, remainder) when x = q*y + r syntactically and 0 <= r < y is implied."""
    d = z3.simplify(x, som=True)
    ts = d.children() if z3.is_add(d) else [d]
    q, r = [], []
    cy = const_of(y)
    for t in ts:
        fs = t.children() if z3.is_mul(t) else [t]
        for i, f in enumerate(fs):
            if f.eq(y):
                rest = fs[:i] + fs[i + 1:]
                q.append(z3.IntVal(1) if not rest else rest[0] if len(rest) == 1 else z3.Product(*rest))
                break
            c = const_of(f)
            if cy is not None and isinstance(c, int) and c % cy == 0 and (len(fs) > 1 or True):
                rest = fs[:i] + fs[i + 1:]
                q.append(z3.IntVal(c // cy) if not rest else z3.Product(z3.IntVal(c // cy), *rest))
                break
        else:
            r.append(t)
    if not q:
        return None
    rr = z3.IntVal(0) if not r else r[0] if len(r) == 1 else z3.Sum(*r)
    if ctx().implied(z3.And(rr >= 0, rr < y)):
        return z3.simplify(q[0] if len(q) == 1 else z3.Sum(*q)), z3.simplify(rr)
    return None


def raise_exc(e):
    raise e


def carith(op, a, b):
    if op == '+': return CPair(arith('+', a.re, b.re), arith('+', a.im, b.im))
    if op == '-': return CPair(arith('-', a.re, b.re), arith('-', a.im, b.im))
    if op == '*':
        return CPair(arith('-', arith('*', a.re, b.re), arith('*', a.im, b.im)),
                     arith('+', arith('*', a.re, b.im), arith('*', a.im, b.re)))
    if op == '/' and isconc(b.im) and b.im == 0:
        return CPair(arith('/', a.re, b.re), arith('/', a.im, b.re))
    raise Unsupported('complex ' + op)


def compare(op, a, b):
    if isinstance(a, CPair) or isinstance(b, CPair):
        a, b = cpair(a), cpair(b)
        r = land(compare('==', a.re, b.re), compare('==', a.im, b.im))
        if op == '==': return r
        if op == '!=': return lnot(r)
        raise Unsupported('complex comparison')
    if isconc(a) and isconc(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if not is_num(a) or not is_num(b):
        if isinstance(a, Sym) and hasattr(type(b), '_sym_cmp'):
            return b._sym_cmp({'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), a)
        if op == '==': return False
        if op == '!=': return True
        raise Unsupported(f'comparison of {type(a).__name__} and {type(b).__name__}')
    if _isnan(a) or _isnan(b):
        return op == '!='
    if _isinf(b):
        if op in ('==',): return False
        if op in ('!=',): return True
        return (op in ('<', '<=')) == (b > 0)
    if _isinf(a):
        if op in ('==',): return False
        if op in ('!=',): return True
        return (op in ('>', '>=')) == (a > 0)
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)) or (isinstance(a, Sym) and a.kind() == 'b') or (isinstance(b, Sym) and b.kind() == 'b'):
        sa = ex(a).sort(); sb = ex(b).sort()
        if sa == B and sb == B:
            if op == '==': return boolval(ex(a) == ex(b))
            if op == '!=': return boolval(ex(a) != ex(b))
        s = R if R in (sa, sb) else Z
        x, y = ex(a, s), ex(b, s)
    else:
        s = R if _isfloatlike(a) or _isfloatlike(b) else Z
        x, y = ex(a, s), ex(b, s)
    if op == '<': r = x < y
    elif op == '<=': r = x <= y
    elif op == '>': r = x > y
    elif op == '>=': r = x >= y
    elif op == '==': r = x == y
    else: r = x != y
    return boolval(r)


def boolval(e):
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return Sym(e, bool)


def land(*xs):
    out = []
    for x in xs:
        if isconc(x):
            if not x: return False
        else:
            out.append(ex(x, B))
    if not out: return True
    return boolval(z3.And(*out)) if len(out) > 1 else Sym(out[0], bool)


def lor(*xs):
    out = []
    for x in xs:
        if isconc(x):
            if x: return True
        else:
            out.append(ex(x, B))
    if not out: return False
    return boolval(z3.Or(*out)) if len(out) > 1 else Sym(out[0], bool)


def lnot(x):
    if isconc(x): return not x
    return boolval(z3.Not(ex(x, B)))


def ite(c, a, b):
    if isconc(c):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, CPair) or isinstance(b, CPair):
        a, b = cpair(a), cpair(b)
        return CPair(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) or \
            (isinstance(a, Sym) and a.kind() == 'b') or (isinstance(b, Sym) and b.kind() == 'b'):
        x, y = ex(a, B), ex(b, B)
        return boolval(z3.If(ex(c, B), x, y))
    if not is_num(a) or not is_num(b):
        raise Unsupported(f'cannot merge {type(a).__name__} and {type(b).__name__}')
    s = R if _isfloatlike(a) or _isfloatlike(b) else Z
    x, y = ex(a, s), ex(b, s)
    if x.eq(y):
        return a
    t = None
    for v in (a, b):
        if isinstance(v, Sym): t = v.t
    return Sym(z3.If(ex(c, B), x, y), t if s == R else int)


# ---------------------------------------------------------------------------------------------
# Uninterpreted real functions with axioms
_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


F_SQRT = uf('f_sqrt', R, R)
F_ABS = uf('f_abs', R, R)
F_EXP = uf('f_exp', R, R)
F_LOG = uf('f_log', R, R)
F_TANH = uf('f_tanh', R, R)
F_COS = uf('f_cos', R, R)
F_SIN = uf('f_sin', R, R)
F_ATAN2 = uf('f_atan2', R, R, R)
F_POW = uf('f_pow', R, R, R)


def fun1(name, pyfun, f):
    def g(x):
        if isconc(x) and not isinstance(x, Fraction):
            return np.float64(pyfun(x))
        return Sym(f(ex(x, R)), np.float64)
    g.__name__ = name
    return g


sqrt_ = fun1('sqrt', np.sqrt, F_SQRT)
exp_ = fun1('exp', np.exp, F_EXP)
log_ = fun1('log', np.log, F_LOG)
tanh_ = fun1('tanh', np.tanh, F_TANH)
cos_ = fun1('cos', np.cos, F_COS)
sin_ = fun1('sin', np.sin, F_SIN)


def atan2_(y, x):
    if isconc(x) and isconc(y):
        return np.float64(math.atan2(float(y), float(x)))
    return Sym(F_ATAN2(ex(y, R), ex(x, R)), np.float64)


F_WRAP = z3.Function('wrap64', R, R)


def np_power(a, b):
    """numpy.power: a power of machine integers wraps (an unknown value here, numpy's own answer for known arguments); one of floats does not."""
    if not _isfloatlike(a) and not _isfloatlike(b) and not isinstance(a, complex):
        if isconc(a) and isconc(b):
            return np.power(a, b)
        return Sym(F_WRAP(ex(power(a, b), R)), np.int64)
    return power(a, b)


def power(a, b):
    if isconc(a) and isconc(b):
        return a ** b
    if isinstance(b, (float, np.floating)) and float(b).is_integer() and abs(b) < 1e6:
        bi = int(b)
    elif isinstance(b, (int, np.integer)) and not isinstance(b, bool):
        bi = int(b)
    else:
        bi = None
    if bi is not None and 0 <= bi <= 6:
        if bi == 0:
            return 1 if not _isfloatlike(a) and not _isfloatlike(b) else np.float64(1)
        r = a
        for _ in range(bi - 1):
            r = arith('*', r, a)
        if _isfloatlike(b) and not _isfloatlike(r):
            r = arith('*', np.float64(1), r)
        return r
    if isinstance(b, (float, np.floating)) and b == 0.5:
        return sqrt_(a)
    if bi is not None and -6 <= bi < 0:
        return arith('/', 1.0, power(a, -bi))
    # general power: uninterpreted, with recurrence axioms instantiated by the prover
    t = np.float64 if (_isfloatlike(a) or _isfloatlike(b)) else int
    r = F_POW(ex(a, R), ex(b, R))
    if t is int:
        # integer power of integers: value kept as a real-sorted term (numpy ints behave as reals here)
        return Sym(r, np.int64)
    return Sym(r, np.float64)


# ---------------------------------------------------------------------------------------------
# Free constants / substitution

_FC = {}


def free_consts(e):
    """Uninterpreted constants {ast id: constant} in deterministic first-occurrence order."""
    got = _FC.get(e.get_id())
    if got is not None:
        return got[1]
    if z3.is_quantifier(e):
        r = free_consts(e.body())
    elif not z3.is_app(e):
        r = {}
    else:
        ch = e.children()
        if not ch:
            r = {e.get_id(): e} if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else {}
        else:
            r = free_consts(ch[0])
            own = False
            for x in ch[1:]:
                f = free_consts(x)
                if f is r or not f:
                    continue
                if not r:
                    r, own = f, False
                    continue
                for i, c in f.items():
                    if i not in r:
                        if not own:
                            r, own = dict(r), True
                        r[i] = c
    _FC[e.get_id()] = (e, r)
    return r


_DN = {}
_NONE = frozenset()


def decl_names(e):
    """Names of the uninterpreted symbols e mentions, also inside binder bodies."""
    got = _DN.get(e.get_id())
    if got is not None:
        return got[1]
    if z3.is_quantifier(e):
        r = decl_names(e.body())
    elif not z3.is_app(e):
        r = _NONE
    else:
        r = _NONE
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = frozenset((e.decl().name(),))
            bd = _BY_DECL.get(e.decl().name())
            if bd is not None:
                for b in bd.bodies:
                    r = r | decl_names(b)
        for x in e.children():
            f = decl_names(x)
            if not f <= r:
                r = r | f
    _DN[e.get_id()] = (e, r)
    return r


_KIDS = {}
_kids = z3.ExprRef.children


def _cached_children(self):
    i = self.get_id()
    got = _KIDS.get(i)
    if got is None:
        got = _KIDS[i] = (self, _kids(self))
    return got[1]


z3.ExprRef.children = _cached_children


def contains(e, consts):
    """Does e contain any constant of the given id set?"""
    fc = free_consts(e)
    return any(c in fc for c in consts)


def subst(e, pairs):
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    if not pairs:
        return e
    return z3.substitute(e, *pairs)


def subst_val(v, pairs):
    if isinstance(v, Sym):
        r = z3.simplify(subst(v.e, pairs)) if v.kind() != 'f' else subst(v.e, pairs)
        if r.sort() == R:
            return Sym(r, v.t) if const_of(r) is None else val(r, v.t)
        return val(r, v.t)
    if isinstance(v, CPair):
        return CPair(subst_val(v.re, pairs), subst_val(v.im, pairs))
    return v


# ---------------------------------------------------------------------------------------------
# Binders: op over bound integer variables; hash-consed declarations parameterised by free constants

class Binder:
    __slots__ = ('op', 'bound', 'bodies', 'params', 'decl', 'nextra')


_BY_KEY = {}
_BY_DECL = {}
_BV = {}
_PV = {}
_KEEP = []


def bvar(i):
    if i not in _BV:
        _BV[i] = z3.Int(f'!b{i}')
    return _BV[i]


def pvar(i, sort):
    k = (i, str(sort))
    if k not in _PV:
        _PV[k] = z3.Const(f'!p{i}{str(sort)[0]}', sort)
    return _PV[k]


_CO = {}
_SX = {}


def _sx(e):
    i = e.get_id()
    got = _SX.get(i)
    if got is None:
        got = _SX[i] = (e, e.sexpr())
    return got[1]


def canon_order(e):
    """Same term with the arguments of commutative operators in an order that depends on their structure only."""
    i = e.get_id()
    got = _CO.get(i)
    if got is not None:
        return got[1]
    r = e
    if z3.is_app(e) and e.num_args():
        ch = [canon_order(x) for x in e.children()]
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR):
            ch.sort(key=_sx)
            f = {z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product, z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or}[k]
            r = f(*ch)
        elif any(a.get_id() != b.get_id() for a, b in zip(ch, e.children())):
            r = e.decl()(*ch)
    _CO[i] = (e, r)
    return r


OPS = set()         # operations named since the set was last cleared


def unknown_ops(es):
    """The operations without a definition (iterations without closed form, library routines) in the expressions."""
    out, seen, st = set(), set(), list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        bd = binder_of(x)
        if bd is not None:
            if bd.op.startswith(('arr_', 'iter')):
                out.add(bd.op)
            st.extend(bd.bodies)
        st.extend(x.children())
    return out


def binder_maker(op, bound, bodies, extra_sorts, sort):
    """The binder op[bound. bodies] as a function of its extra arguments."""
    OPS.add(op)
    bodies = [b for b in bodies]
    if op != 'sum' and bound:
        nb = [z3.Int(f'!kb{i}') for i in range(len(bound))]       # not bvar: sums inside would capture them
        pb = list(zip(bound, nb))
        bodies = [z3.substitute(b, *pb) for b in bodies]
        bodies = [canon_order(pterm(pnorm(b)) if b.sort() == R else z3.simplify(b)) for b in bodies]
        bound = nb
    bids = {b.get_id() for b in bound}
    # canonical bound variables. Avoid capture: nested binders never expose bound variables (closed via params)
    acc = {}
    for b in bodies:
        for i, c in free_consts(b).items():
            acc.setdefault(i, c)
    frees = [c for i, c in acc.items() if i not in bids]
    # order deterministically by first occurrence
    pairs = [(b, bvar(i)) for i, b in enumerate(bound)]
    pvs = [pvar(i, c.sort()) for i, c in enumerate(frees)]
    pairs2 = list(zip(frees, pvs))
    can = [z3.simplify(z3.substitute(b, *(pairs + pairs2))) if (pairs or pairs2) else b for b in bodies]
    if op != 'sum':
        can = [canon_order(b) for b in can]
    key = (op, len(bound), tuple(c.get_id() for c in can), tuple(str(c.sort()) for c in frees),
           tuple(str(x) for x in extra_sorts), str(sort))
    bd = _BY_KEY.get(key)
    if bd is None:
        bd = Binder()
        bd.op, bd.bound, bd.bodies, bd.params = op, [bvar(i) for i in range(len(bound))], can, pvs
        bd.nextra = len(extra_sorts)
        n = len(_BY_KEY)
        bd.decl = z3.Function(f'{op}#{n}', *([c.sort() for c in frees] + list(extra_sorts) + [sort]))
        _BY_KEY[key] = bd
        _BY_DECL[bd.decl.name()] = bd
        _KEEP.append(can)
    def make(extra):
        args = frees + list(extra)
        return bd.decl(*args) if args else z3.Const(bd.decl.name(), sort)
    return make


def mk_binder(op, bound, bodies, extra, sort):
    return binder_maker(op, bound, bodies, [x.sort() for x in extra], sort)(extra)


def binder_of(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return _BY_DECL.get(e.decl().name())
    return None


def binder_parts(e):
    """(binder, instantiated bodies, extra args) of a binder application."""
    bd = binder_of(e)
    ch = e.children()
    np_ = len(bd.params)
    pairs = list(zip(bd.params, ch[:np_]))
    bodies = [z3.substitute(b, *pairs) if pairs else b for b in bd.bodies]
    return bd, bodies, ch[np_:]


def contains_quantifier(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


_LEVEL = {}


def state_level(e):
    """Highest nesting level of the iteration-state symbols in e, binder bodies included."""
    r = _LEVEL.get(e.get_id())
    if r is not None and r[0].eq(e):
        return r[1]
    m = 0
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if n.startswith('!st'):
                m = int(n[3:].split('_')[0])
            bd = binder_of(e)
            if bd is not None:
                m = max([m] + [state_level(b) for b in bd.bodies])
        m = max([m] + [state_level(x) for x in e.children()])
    _LEVEL[e.get_id()] = (e, m)
    return m


def rename_funs(e, names):
    """Replace applications of the named function symbols, inside binder bodies too."""
    memo = {}
    nm = frozenset(names)
    men = lambda x: not decl_names(x).isdisjoint(nm)
    mentions = lambda bd: any(men(b) for b in bd.bodies)

    def go(x):
        r = memo.get(x.get_id())
        if r is not None:
            return r[1]
        if z3.is_quantifier(x):
            if men(x.body()):
                raise Unsupported('quantifier over iteration state')
            y = x
        elif not z3.is_app(x):
            y = x
        else:
            ch = [go(a) for a in x.children()]
            f = names.get(x.decl().name()) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            bd = binder_of(x)
            if f is not None:
                y = f(ch)
            elif bd is not None and mentions(bd):
                _, bodies, _ = binder_parts(x)
                vs = [z3.Int(f'!rn{next(_fresh)}') for _ in bd.bound]
                bs = [go(z3.substitute(b, *list(zip(bd.bound, vs)))) for b in bodies]
                y = mk_binder(bd.op, vs, bs, ch[len(bd.params):], x.sort())
            elif all(a.eq(b) for a, b in zip(ch, x.children())):
                y = x
            else:
                y = x.decl()(*ch)
        memo[x.get_id()] = (x, y)
        return y
    return go(e)


# ---------------------------------------------------------------------------------------------
# Polynomial normal form of real terms
# poly: dict  mono -> Fraction ; mono: tuple of (atom_id, exponent) sorted ; atoms kept in _ATOM

_ATOM = {}
_CANON = {}          # sums as built by msum (kept alive: identified by ast id)


class Decide:
    """Callback deciding integer comparisons from the hypotheses (set by the prover): True, False or None."""
    fn = None


_RD = {}


def range_decide(cond, k, n):
    """Truth value of an integer comparison for all 0 <= k < n, if it is constant there."""
    key = (cond.get_id(), k.get_id(), n.get_id(), Decide.fn is not None)
    got = _RD.get(key)
    if got is not None:
        return got[0]
    if Decide.fn is not None:
        r = Decide.fn(cond, [k >= 0, k < n])
    else:
        r = None
        s = z3.Solver()
        s.set('timeout', 100)
        s.add(k >= 0, k < n)
        s.push()
        s.add(cond)
        if s.check() == z3.unsat:
            r = False
        else:
            s.pop()
            s.add(z3.Not(cond))
            if s.check() == z3.unsat:
                r = True
    _RD[key] = (r, cond, k, n)
    return r


_ICMP = None


def simplify_ranges(e, vs, ns):
    """Replace integer comparisons that are constant for all 0 <= v < n (all bound variables together)."""
    ids = {v.get_id() for v in vs}
    found, seen = {}, set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen or not z3.is_app(x):
            continue
        seen.add(i)
        if int_cmp(x):
            if i not in found and contains(x, ids):
                found[i] = x
            continue
        st.extend(x.children())
    if not found:
        return e
    s = z3.Solver()
    s.set('timeout', 100)
    for v, n in zip(vs, ns):
        s.add(v >= 0, v < n)
    rep = []
    for x in found.values():
        for t, g in ((True, z3.Not(x)), (False, x)):
            s.push()
            s.add(g)
            r = s.check()
            s.pop()
            if r == z3.unsat:
                rep.append((x, z3.BoolVal(t)))
                break
    return z3.substitute(e, *rep) if rep else e


def int_cmp(c):
    global _ICMP
    if _ICMP is None:
        _ICMP = {z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT}
    return z3.is_app(c) and c.decl().kind() in _ICMP and c.arg(0).sort() == Z


def has_int_iverson(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if _is_iverson(x) and int_cmp(x.arg(0)):
            return True
        st.extend(x.children())
    return False


class Nonzero:
    """Callback deciding whether a term is known to be nonzero (set by the prover)."""
    fn = None


def _atom(e):
    i = e.get_id()
    _ATOM[i] = e
    return {((i, 1),): Fraction(1)}


def padd(p, q, f=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * f
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _is_iverson(e):
    return z3.is_app_of(e, z3.Z3_OP_ITE) and e.sort() == R and const_of(e.arg(1)) == 1 and const_of(e.arg(2)) == 0


def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for i, k in b:
        d[i] = d.get(i, 0) + k
    out = []
    for i, k in d.items():
        if k == 0:
            continue
        if k > 1 and _is_iverson(_ATOM[i]):
            k = 1
        out.append((i, k))
    return tuple(sorted(out))


def pmul(p, q):
    if len(p) * len(q) > 4000:
        raise Unsupported('polynomial too large')
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def pconst(c):
    return {(): Fraction(c)} if c else {}


_NCACHE = {}


def clear_norm_cache():
    _NCACHE.clear()


def pnorm(e):
    i = e.get_id()
    got = _NCACHE.get(i)
    if got is not None:
        return got[1]
    p = _pnorm(e)
    _NCACHE[i] = (e, p)
    return p


def _pnorm(e):
    c = const_of(e)
    if c is not None:
        return pconst(c)
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD:
        r = {}
        for x in e.children():
            r = padd(r, pnorm(x))
        return r
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        r = pnorm(ch[0])
        for x in ch[1:]:
            r = padd(r, pnorm(x), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, pnorm(e.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        ch = e.children()
        r = pnorm(ch[0])
        for x in ch[1:]:
            r = pmul(r, pnorm(x))
        return r
    if k == z3.Z3_OP_DIV:
        num, den = pnorm(e.arg(0)), pnorm(e.arg(1))
        return pmul(num, pinv(den))
    if k == z3.Z3_OP_POWER:
        ec = const_of(e.arg(1))
        if ec is not None and ec == int(ec) and 0 <= ec <= 8:
            r = pconst(1)
            b = pnorm(e.arg(0))
            for _ in range(int(ec)):
                r = pmul(r, b)
            return r
    if k == z3.Z3_OP_TO_REAL:
        x = z3.simplify(e.arg(0), som=True)
        kk = x.decl().kind()
        if kk == z3.Z3_OP_ADD:
            r = {}
            for y in x.children():
                r = padd(r, pnorm(toreal(y)))
            return r
        if kk == z3.Z3_OP_MUL:
            r = pconst(1)
            for y in x.children():
                r = pmul(r, pnorm(toreal(y)))
            return r
        if kk == z3.Z3_OP_UMINUS:
            return padd({}, pnorm(toreal(x.arg(0))), -1)
        if kk == z3.Z3_OP_SUB:
            r = pnorm(toreal(x.arg(0)))
            for y in x.children()[1:]:
                r = padd(r, pnorm(toreal(y)), -1)
            return r
        if kk == z3.Z3_OP_ITE:
            return pnorm(z3.If(x.arg(0), toreal(x.arg(1)), toreal(x.arg(2))))
        fl = filtered(x)
        if fl is not None:
            kk = fresh_int('fl')
            return psum(fl[1], kk, pnorm_iverson(renorm(z3.simplify(fl[0](kk)))))
        return _atom(toreal(x))
    if k == z3.Z3_OP_ITE:
        return _pite(e)
    if k == z3.Z3_OP_UNINTERPRETED and e.decl().eq(F_ABS):
        return pabs(pnorm(e.arg(0)))
    # atom: normalise arguments
    e = rebuild_args(e)
    bd = binder_of(e)
    if bd is not None and bd.op == 'sum':
        r = _resum(e, bd)
        if r is not None:
            return r
        if e.get_id() not in _CANON and len(bd.bodies) == 1:
            # parameters were substituted: bring the instantiated body back into canonical form
            _, bodies, ext = binder_parts(e)
            if len(ext) == len(bd.bound):
                vs = [fresh_int('ri') for _ in bd.bound]
                q = pnorm(subst(bodies[0], list(zip(bd.bound, vs))))
                for v, x in reversed(list(zip(vs, ext))):
                    q = psum(x, v, q)
                return q
        if Decide.fn is not None and len(bd.bound) <= 2:
            _, bodies, ext = binder_parts(e)
            if len(bodies) == 1 and len(ext) == len(bd.bound) and has_int_iverson(bodies[0]):
                vs = [fresh_int('rd') for _ in bd.bound]
                q = pnorm(subst(bodies[0], list(zip(bd.bound, vs))))
                for v, x in reversed(list(zip(vs, ext))):
                    q = psum(x, v, q)
                return q
    return _atom(e)


def _pite(e):
    cnd = z3.simplify(e.arg(0))
    if z3.is_true(cnd): return pnorm(e.arg(1))
    if z3.is_false(cnd): return pnorm(e.arg(2))
    p, q = pnorm(e.arg(1)), pnorm(e.arg(2))
    if p == q:
        return p
    cnd = renorm(cnd)
    if p and not padd(p, q):
        a = _as_abs(cnd, p)
        if a is not None:
            return a
    one = pnorm_iverson(cnd)
    # [c]*(p-q) + q
    d = padd(p, q, -1)
    return padd(pmul(one, d), q)


def pnorm_iverson(cnd):
    """Iverson bracket polynomial of a boolean term: conjunctions become products."""
    if z3.is_true(cnd): return pconst(1)
    if z3.is_false(cnd): return {}
    if z3.is_and(cnd):
        r = pconst(1)
        for x in cnd.children():
            r = pmul(r, pnorm_iverson(x))
        return r
    if z3.is_not(cnd):
        return padd(pconst(1), pnorm_iverson(cnd.arg(0)), -1)
    if z3.is_or(cnd):
        r = pconst(1)
        for x in cnd.children():
            r = pmul(r, padd(pconst(1), pnorm_iverson(x), -1))
        return padd(pconst(1), r, -1)
    if not z3.is_app(cnd):
        return _iv(cnd)
    k = cnd.decl().kind()
    if k in _CMP and cnd.arg(0).sort() == R:
        d = padd(pnorm(cnd.arg(0)), pnorm(cnd.arg(1)), -1)
        if not d:
            return pconst(1 if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE) else 0)
        d, sg = plead(d)
        if set(d) == {()}:
            v = sg
            return pconst(1 if {z3.Z3_OP_EQ: v == 0, z3.Z3_OP_DISTINCT: v != 0, z3.Z3_OP_LE: v <= 0, z3.Z3_OP_GE: v >= 0, z3.Z3_OP_LT: v < 0, z3.Z3_OP_GT: v > 0}[k] else 0)
        z = _iv(pterm(d) == 0)
        if k == z3.Z3_OP_EQ: return z
        if k == z3.Z3_OP_DISTINCT: return padd(pconst(1), z, -1)
        neg = _iv(pterm(d) < 0)
        if sg < 0:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}[k]
        if k == z3.Z3_OP_LT: return neg
        if k == z3.Z3_OP_GE: return padd(pconst(1), neg, -1)
        le = padd(neg, z)
        return le if k == z3.Z3_OP_LE else padd(pconst(1), le, -1)
    return _iv(cnd)


def _iv(cnd):
    if Decide.fn is not None:
        d = Decide.fn(cnd, [])
        if d is not None:
            return pconst(1 if d else 0)
    return _atom(z3.If(cnd, z3.RealVal(1), z3.RealVal(0)))


_CMP = {z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT}


def plead(d):
    """(d scaled so that its leading coefficient is 1, sign of that coefficient)."""
    lead = min(d.items(), key=lambda mc: tuple((_akey(i), k) for i, k in mc[0]) or (('~', 0),))[1]
    return {m: c / lead for m, c in d.items()}, (1 if lead > 0 else -1)


def _plead_abs(d):
    lead = min(d.items(), key=lambda mc: tuple((_akey(i), k) for i, k in mc[0]) or (('~', 0),))[1]
    return lead


def atom_nonneg(e):
    if _is_iverson(e):
        return True
    if not z3.is_app(e):
        return False
    d = e.decl()
    if d.eq(F_SQRT) or d.eq(F_EXP) or d.eq(F_ABS):
        return True
    if d.kind() == z3.Z3_OP_TO_REAL and z3.is_app(e.arg(0)) and e.arg(0).num_args() == 0:
        return str(e.arg(0)).startswith('in_') and Nonneg.ints(e.arg(0))
    if d.kind() == z3.Z3_OP_DIV:
        return pnonneg(pnorm(e.arg(0))) and pnonneg(pnorm(e.arg(1)))
    bd = binder_of(e)
    if bd is not None and bd.op == 'sum' and len(bd.bodies) == 1:
        _, bodies, _ = binder_parts(e)
        return pnonneg(pnorm(bodies[0]))
    return False


class Nonneg:
    @staticmethod
    def ints(c):
        return False


def pnonneg(p):
    for m, c in p.items():
        if c < 0:
            return False
        for i, k in m:
            if k % 2 and not atom_nonneg(_ATOM[i]):
                return False
    return True


def pabs(p):
    if not p:
        return p
    if pnonneg(p):
        return p
    q = padd({}, p, -1)
    if pnonneg(q):
        return q
    lead = _plead_abs(p)
    d = {m: c / lead for m, c in p.items()}
    # factors common to all monomials could be split off; not needed so far
    return pmul(pconst(abs(lead)), _atom(F_ABS(pterm(d))))


def _as_abs(cnd, p):
    neg = False
    if z3.is_not(cnd):
        neg, cnd = True, cnd.arg(0)
    k = cnd.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or cnd.arg(0).sort() != R:
        return None
    d = padd(pnorm(cnd.arg(0)), pnorm(cnd.arg(1)), -1)
    if not d:
        return None
    if set(d) != set(p):
        return None
    dl, pl = _plead_abs(d), _plead_abs(p)
    if {m: c / dl for m, c in d.items()} != {m: c / pl for m, c in p.items()}:
        return None
    pos = (dl > 0) == (pl > 0)           # p has the sign of d
    up = k in (z3.Z3_OP_GE, z3.Z3_OP_GT)  # condition says d is positive
    if neg:
        up = not up
    r = pabs(p)
    return r if pos == up else padd({}, r, -1)


def _resum(e, bd):
    """A sum one of whose extents has become a small constant."""
    _, bodies, ext = binder_parts(e)
    if len(bodies) != 1 or len(ext) != len(bd.bound):
        return None
    cs = [const_of(x) for x in ext]
    if not any(c is not None and c <= 16 for c in cs):
        return None
    vs = [fresh_int('rs') for _ in bd.bound]
    p = pnorm(subst(bodies[0], list(zip(bd.bound, vs))))
    for v, c, x in reversed(list(zip(vs, cs, ext))):
        if c is not None and c <= 16:
            t = pterm(p)
            p = {}
            for q in range(int(c)):
                p = padd(p, pnorm(subst(t, [(v, z3.IntVal(q))])))
        else:
            p = psum(x, v, p)
    return p


def rebuild_args(e):
    if not z3.is_app(e) or e.num_args() == 0:
        return e
    new = []
    ch = False
    for x in e.children():
        if x.sort() == R:
            y = pterm(pnorm(x))
        elif x.sort() == Z:
            y = z3.simplify(x, som=True)
        elif x.sort() == B:
            y = renorm(x)
        else:
            y = x
        ch = ch or not y.eq(x)
        new.append(y)
    return e.decl()(*new) if ch else e


def pinv(den):
    """Polynomial for 1/den."""
    if not den:
        return _atom(z3.RealVal(1) / z3.RealVal(0))
    if len(den) == 1:
        (m, c), = den.items()
        r = {tuple(): Fraction(1) / c}
        for (i, k) in m:
            a = _ATOM[i]
            if Nonzero.fn is not None and Nonzero.fn(a):
                r = pmul(r, {((i, -k),): Fraction(1)})
            else:
                inv = z3.RealVal(1) / a
                _ATOM[inv.get_id()] = inv
                r = pmul(r, {((inv.get_id(), k),): Fraction(1)})
        return r
    # content-normalise: make leading coefficient 1
    lead = min(den.items(), key=lambda mc: tuple((_akey(i), k) for i, k in mc[0]))[1]
    d = {m: c / lead for m, c in den.items()}
    t = pterm(d)
    inv = z3.RealVal(1) / t
    _ATOM[inv.get_id()] = inv
    return {((inv.get_id(), 1),): Fraction(1) / lead}


_AK = {}


def _akey(i):
    k = _AK.get(i)
    if k is None:
        k = _AK[i] = _ATOM[i].sexpr()
        _KEEP.append(_ATOM[i])
    return k


def pterm(p):
    """z3 term of a polynomial (deterministic order)."""
    if not p:
        return z3.RealVal(0)
    items = sorted(p.items(), key=lambda mc: tuple((_akey(i), k) for i, k in mc[0]))
    ts = []
    for m, c in items:
        fs = []
        if c != 1 or not m:
            fs.append(z3.RealVal(str(c)))
        for i, k in sorted(m, key=lambda ik: (_akey(ik[0]), ik[1])):
            a = _ATOM[i]
            if k > 0:
                fs.extend([a] * k)
            else:
                fs.extend([z3.RealVal(1) / a] * (-k))
        ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


_RN = {}


def renorm(f):
    """Normalise arithmetic inside a formula."""
    i = f.get_id()
    got = _RN.get(i)
    if got is not None:
        return got[1]
    r = _renorm(f)
    _RN[i] = (f, r)
    return r


def _renorm(f):
    if z3.is_quantifier(f):
        return f
    if f.sort() == R:
        return pterm(pnorm(f))
    if f.sort() == Z:
        return z3.simplify(f, som=True) if not _has_real(f) else f
    if z3.is_app(f) and f.num_args() > 0:
        k = f.decl().kind()
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT) and f.arg(0).sort() == R:
            d = padd(pnorm(f.arg(0)), pnorm(f.arg(1)), -1)
            if not d:
                return z3.BoolVal(k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE))
            l = pterm({m: c for m, c in d.items() if c > 0})
            r = pterm({m: -c for m, c in d.items() if c < 0})
            if k == z3.Z3_OP_EQ: return l == r
            if k == z3.Z3_OP_DISTINCT: return l != r
            if k == z3.Z3_OP_LE: return l <= r
            if k == z3.Z3_OP_GE: return l >= r
            if k == z3.Z3_OP_LT: return l < r
            return l > r
        ch = [renorm(x) if x.sort() in (B, R, Z) else x for x in f.children()]
        if any(not a.eq(b) for a, b in zip(ch, f.children())):
            return f.decl()(*ch)
    return f


def _has_real(f):
    return False


# ---------------------------------------------------------------------------------------------
# Sums

_fresh = itertools.count()


def mk_sum(n, body_fn, tag=np.float64):
    """Sum_{k=0}^{n-1} body_fn(k) as a value. n: int or Sym int."""
    n = n if not isinstance(n, Sym) else val(z3.simplify(n.e))
    if isinstance(n, (int, np.integer)) and n <= 16:
        r = 0
        for k in range(int(n)):
            r = arith('+', r, body_fn(k))
        if not _isfloatlike(r) and tag is np.float64 and not isinstance(r, CPair):
            r = Sym(ex(r, R), tag) if isinstance(r, Sym) else np.float64(r)
        return r
    k = z3.Int(f'!s{next(_fresh)}')
    b = body_fn(Sym(k, int))
    if isinstance(b, CPair):
        raise Unsupported('complex sum')
    if getattr(ctx(), 'opaque', False):
        return Sym(mk_binder('osum', [k], [ex(b, R)], [z3.simplify(ex(n, Z), som=True)], R), tag)
    e = sum_expr(ex(n, Z), k, ex(b, R))
    return Sym(e, tag)


def sum_expr(n, k, body):
    return pterm(psum(n, k, pnorm(body)))


def filtered(n):
    """(predicate, extent) when n is the length of a filtered sequence."""
    n = z3.simplify(n)
    bd = binder_of(n)
    if bd is None or bd.op != 'filtlen':
        return None
    _, bodies, ext = binder_parts(n)
    return (lambda x: z3.substitute(bodies[0], (bd.bound[0], x))), ext[0]


def psum(n, k, p):
    """Polynomial of Sum_{k<n} p (n >= 0)."""
    kid = k.get_id()
    fl = filtered(n)
    if fl is not None:
        # a sum over the selected elements of a filtered sequence is the sum over all elements that satisfy the filter
        pred, ext = fl
        kk = fresh_int('fl')
        pk = pred(kk)
        sel = mk_binder('filtsel', [kk], [pk], [ext, k], Z)
        t = z3.substitute(pterm(p), (sel, kk))
        if not contains(t, {kid}):
            return psum(ext, kk, pmul(pnorm(t), pnorm_iverson(renorm(z3.simplify(pk)))))
    out = {}
    for m, c in p.items():
        freef, depf = [], []
        zero = False
        for (i, e_) in m:
            a = _ATOM[i]
            if kid not in free_consts(a):
                freef.append((i, e_))
                continue
            if _is_iverson(a) and int_cmp(a.arg(0)) and a.arg(0).decl().kind() != z3.Z3_OP_EQ:
                d = range_decide(a.arg(0), k, n)
                if d is True:
                    continue
                if d is False:
                    zero = True
                    break
            depf.append((i, e_))
        if zero:
            continue
        base = {tuple(sorted(freef)): c}
        if not depf:
            out = padd(out, pmul(base, pnorm(toreal(n))))
            continue
        # Kronecker delta elimination
        done = False
        for (i, e_) in depf:
            a = _ATOM[i]
            if _is_iverson(a):
                x = solve_eq(a.arg(0), k)
                if x is not None:
                    rest = [f for f in depf if f[0] != i]
                    q = pconst(1)
                    for (j, ej) in rest:
                        t = subst(_ATOM[j], [(k, x)])
                        pt = pnorm(t)
                        if ej < 0:
                            pt = pinv(pt); ej = -ej
                        for _ in range(ej):
                            q = pmul(q, pt)
                    rng = pnorm_iverson(renorm(z3.simplify(z3.And(x >= 0, x < n))))
                    out = padd(out, pmul(pmul(base, rng), q))
                    done = True
                    break
        if done:
            continue
        out = padd(out, pmul(base, msum([(k, n)], depf)))
    return out


def solve_eq(cond, k):
    """If cond is an equality that determines integer k uniquely (k == x, x free of k), return x."""
    if not z3.is_eq(cond) or cond.arg(0).sort() != Z:
        return None
    d = z3.simplify(cond.arg(0) - cond.arg(1), som=True)
    coef, rest = linear_in(d, k)
    if coef is None:
        return None
    if coef == 1:
        return z3.simplify(-rest)
    if coef == -1:
        return z3.simplify(rest)
    return None


def linear_in(d, k):
    """d = coef*k + rest with integer coef and rest free of k, else (None,None)."""
    kid = k.get_id()
    terms = d.children() if z3.is_add(d) else [d]
    coef, rest = 0, []
    for t in terms:
        if t.get_id() == kid or t.eq(k):
            coef += 1
        elif z3.is_mul(t) and t.num_args() == 2 and const_of(t.arg(0)) is not None and t.arg(1).eq(k):
            coef += const_of(t.arg(0))
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS) and t.arg(0).eq(k):
            coef -= 1
        elif kid in free_consts(t):
            return None, None
        else:
            rest.append(t)
    r = z3.IntVal(0) if not rest else (rest[0] if len(rest) == 1 else z3.Sum(*rest))
    return coef, r


def msum(bounds, factors):
    """Multi-index sum of a product of atoms; bounds: [(var, extent)]; returns polynomial."""
    bounds = list(bounds)
    factors = list(factors)
    # flatten nested sums (single occurrence, extent independent of the bound variables)
    i = 0
    while i < len(factors):
        a, e_ = factors[i]
        t = _ATOM[a]
        bd = binder_of(t)
        if bd is not None and bd.op == 'sum' and e_ == 1:
            _, bodies, extra = binder_parts(t)
            vs = [z3.Int(f'!m{next(_fresh)}') for _ in bd.bound]
            bids = {v.get_id() for v, _ in bounds}
            if not any(contains(x, bids) for x in extra):
                body = z3.substitute(bodies[0], *list(zip(bd.bound, vs)))
                q = pnorm(body)
                if len(q) == 1:
                    (m, c), = q.items()
                    newf = factors[:i] + factors[i + 1:]
                    d = {}
                    for (j, ej) in newf + list(m):
                        d[j] = d.get(j, 0) + ej
                    r = msum(bounds + list(zip(vs, extra)), [(j, ej) for j, ej in d.items() if ej])
                    return {mm: cc * c for mm, cc in r.items()}
        i += 1
    # pull out factors free of all bound variables
    ids = {v.get_id(): v for v, _ in bounds}
    dep = []
    pre = {(): Fraction(1)}
    for (i, e_) in factors:
        fc = free_consts(_ATOM[i])
        s = frozenset(x for x in ids if x in fc)
        if s:
            dep.append((i, e_, s))
        else:
            pre = pmul(pre, {((i, e_),): Fraction(1)})
    # connected components
    remaining = list(bounds)
    res = pre
    used = set()
    while remaining:
        v, n = remaining[0]
        comp = {v.get_id()}
        fs = []
        changed = True
        while changed:
            changed = False
            for f in dep:
                if f not in fs and f[2] & comp:
                    fs.append(f)
                    if not f[2] <= comp:
                        comp |= f[2]
                    changed = True
        bs = [b for b in remaining if b[0].get_id() in comp]
        remaining = [b for b in remaining if b[0].get_id() not in comp]
        dep = [f for f in dep if f not in fs]
        if not fs:
            res = pmul(res, pnorm(toreal(n)))
            continue
        body = pterm({tuple(sorted((i, e_) for i, e_, _ in fs)): Fraction(1)})
        best = None
        perms = itertools.permutations(bs) if len(bs) <= 4 else [tuple(bs)]
        for perm in perms:
            t = _sum_node(perm, body)
            key = t.sexpr()
            bd = binder_of(t)
            key = (bd.bodies[0].sexpr() if bd else "", key)
            if best is None or key < best[0]:
                best = (key, t)
        if best[1].get_id() not in _CANON:
            _CANON[best[1].get_id()] = best[1]
        res = pmul(res, _atom(best[1]))
    return res


def _sum_node(bs, body):
    body = _reorder(body, [v for v, _ in bs])
    return mk_binder('sum', [v for v, _ in bs], [body], [z3.simplify(n, som=True) for _, n in bs], R)


def _reorder(body, vs):
    """Deterministic factor order after renaming the bound variables canonically."""
    pairs = [(v, bvar(i)) for i, v in enumerate(vs)]
    back = [(bvar(i), v) for i, v in enumerate(vs)]
    b2 = z3.substitute(body, *pairs)
    if z3.is_mul(b2):
        fs = sorted(b2.children(), key=lambda x: x.sexpr())
        b2 = z3.Product(*fs)
    return z3.substitute(b2, *back)


def fresh_int(name='k'):
    return z3.Int(f'{name}!{next(_fresh)}')
