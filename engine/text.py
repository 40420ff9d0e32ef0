"""Text with symbolic content: literals, formatted numbers and separated sequences of symbolic length; text files.

Trusted (documented CPython/numpy behaviour, cross-checked by the same contracts on the real code):
  str(float64), repr digits, 17 significant digits   parse back to the same number
  d fixed decimals (correctly rounded)                parse back to a number within half a unit of the d-th decimal
  scientific notation with d decimals                 parses back to a number within a relative 10^-d
  the text of a finite number is made of digits, '+', '-', '.', 'e' only; surrounding white space is ignored by float()
  a text file yields, line by line, what was written to it"""
import builtins

import numpy as np
import z3

from . import terms as T
from . import pyb
from .terms import Sym, Unsupported, ex, ctx, compare, arith, isconc, land
from .pyb import SList, poke, seq_of

NUMERIC = frozenset('0123456789+-.eE')
SPACE = ' \t\n\r\f\v'
HALF = z3.Function('half_unit', z3.IntSort(), z3.RealSort())
REL = z3.Function('relative_unit', z3.IntSort(), z3.RealSort())
FIXED = z3.Function('fixed_decimals', z3.IntSort(), z3.RealSort(), z3.RealSort())
SCI = z3.Function('scientific', z3.IntSort(), z3.RealSort(), z3.RealSort())


class Lit:
    __slots__ = ('s',)

    def __init__(self, s):
        if '<sym>' in s:
            raise Unsupported('text of a symbolic value')
        self.s = s


class Num:
    """The text of a number."""
    __slots__ = ('mode', 'd', 'v', 'trim')

    def __init__(self, mode, v, d=None, trim=None):
        self.mode, self.d, self.v, self.trim = mode, d, v, trim


class Seq:
    """f(0) sep f(1) sep ... f(n-1)"""
    __slots__ = ('sep', 'n', 'f')

    def __init__(self, sep, n, f):
        self.sep, self.n, self.f = sep, n, f


class Tail:
    """White space that is present under a condition."""
    __slots__ = ('c', 's')

    def __init__(self, c, s):
        self.c, self.s = c, s


class Opaque:
    """Text of unknown content."""
    __slots__ = ()


def parts_of(t):
    if type(t) is Text:
        return t.parts
    if isinstance(t, str):
        return (Lit(t),) if t else ()
    raise TypeError('can only concatenate str')


def joined(parts):
    out = []
    for p in parts:
        if out and type(p) is Lit and type(out[-1]) is Lit:
            out[-1] = Lit(out[-1].s + p.s)
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1 and type(out[0]) is Lit:
        return out[0].s
    t = Text()
    t.parts = tuple(out)
    return t


class Text:
    """Immutable."""
    __slots__ = ('parts',)

    def __add__(self, o): return joined(self.parts + parts_of(o))
    def __radd__(self, o): return joined(parts_of(o) + self.parts)
    def __str__(self): return '<sym>'
    __repr__ = __str__
    def __format__(self, spec): return '<sym>'
    __hash__ = None

    def __bool__(self):
        return compare('>', 1, 0) if self._nonempty() else self._unknown('truth of a text')

    def _unknown(self, what):
        raise Unsupported(what)

    def _nonempty(self):
        return any(type(p) is Num or type(p) is Lit and p.s for p in self.parts) or \
            any(type(p) is Seq and ctx().implied(ex(p.n, T.Z) > 0) and Text._filled(p.f(0)) for p in self.parts)

    @staticmethod
    def _filled(t):
        return bool(t) if isinstance(t, str) else t._nonempty()

    def __eq__(self, o):
        if isinstance(o, str) and not o and self._nonempty():
            return False
        if o is self:
            return True
        if o is None or T.is_num(o):
            return False
        raise Unsupported('comparison of texts')

    def __ne__(self, o):
        return not self == o

    def _len(self):
        raise Unsupported('length of a text')

    def __len__(self):
        raise Unsupported('length of a text')

    def __iter__(self):
        raise Unsupported('characters of a text')

    def __getitem__(self, i):
        raise Unsupported('characters of a text')

    def __contains__(self, s):
        raise Unsupported('search in a text')

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise Unsupported('str.' + n)

    def __mod__(self, o):
        raise Unsupported('text formatting')

    # ---- white space
    def _ends_filled(self, side):
        p = self.parts[side]
        if type(p) is Num:
            return True
        if type(p) is Seq and ctx().implied(ex(p.n, T.Z) > 0):
            t = p.f(0 if side == 0 else arith('-', p.n, 1))
            return not isinstance(t, str) and type(t.parts[side]) is Num or isinstance(t, str) and bool(t.strip()) and t == t.strip()
        return False

    def _strip(self, chars, left, right):
        cs = SPACE if chars is None else chars
        if not set(cs) <= set(SPACE):
            raise Unsupported('strip of other than white space')
        ps = list(self.parts)
        for on, side in ((left, 0), (right, -1)):
            while on and ps:
                p = ps[side]
                if type(p) is Tail and set(p.s) <= set(cs):
                    del ps[side]
                elif type(p) is Lit:
                    s = p.s.lstrip(cs) if side == 0 else p.s.rstrip(cs)
                    if s:
                        ps[side] = Lit(s)
                        break
                    del ps[side]
                elif joined(ps)._ends_filled(side):
                    break
                else:
                    raise Unsupported('strip')
        return joined(ps)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def endswith(self, s):
        p = self.parts[-1]
        if type(p) is Lit and len(p.s) >= len(s):
            return p.s.endswith(s)
        if s and type(p) is not Tail and self._ends_filled(-1) and s[-1] not in NUMERIC and type(p) is not Lit:
            return False
        raise Unsupported('endswith')

    def removesuffix(self, s):
        if not self.endswith(s):
            return self
        return joined(self.parts[:-1] + (Lit(self.parts[-1].s[:len(self.parts[-1].s) - len(s)]),))

    # ---- separators
    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or not sep or maxsplit != -1:
            raise Unsupported('split')
        if set(sep) & NUMERIC or '\n' in sep:
            raise Unsupported('separator that may occur in a number')
        ctx().assumptions.add('the text of a finite number contains digits, sign, point and exponent only')
        cells = [[]]         # each a list of parts; a Seq that is to be taken apart stands alone
        for p in self.parts:
            if type(p) is Lit:
                xs = p.s.split(sep)
                cells[-1].append(Lit(xs[0]))
                cells += [[Lit(x)] for x in xs[1:]]
            elif type(p) is Num:
                cells[-1].append(p)
            elif type(p) is Tail:
                if set(p.s) & set(sep):
                    raise Unsupported('split')
                cells[-1].append(p)
            elif type(p) is Seq:
                if p.sep != sep:
                    raise Unsupported('split of a text with other separators')
                probe = p.f(Sym(T.fresh_int('x'), int))
                for q in parts_of(probe):
                    if type(q) is Lit and set(q.s) & set(sep) or type(q) not in (Lit, Num):
                        raise Unsupported('split')
                cells[-1].append(p)
            else:
                raise Unsupported('split')
        out = SList()
        for c in cells:
            qs = [i for i, p in enumerate(c) if type(p) is Seq]
            if not qs:
                t = joined(c)
                out.append(t)
                continue
            if len(qs) > 1:
                raise Unsupported('split')
            i = qs[0]
            pre, s, post = c[:i], c[i], c[i + 1:]
            if not ctx().branch(ex(s.n, T.Z) > 0):
                out.append(joined(pre + post))
                continue

            def cell(k, pre=pre, s=s, post=post):
                ps = list(parts_of(s.f(k)))
                if pre:
                    if compare('==', k, 0):
                        ps = pre + ps
                if post:
                    if isconc(k) and isconc(s.n):
                        ps = ps + post if k == s.n - 1 else ps
                    elif all(type(p) is Lit and not p.s.strip(SPACE) for p in post):
                        ps = ps + [Tail(compare('==', k, arith('-', s.n, 1)), ''.join(p.s for p in post))]
                    elif compare('==', k, arith('-', s.n, 1)):
                        ps = ps + post
                return joined(ps)
            out.extend(SList.tmpl(s.n, cell))
        return out

    def join(self, it):
        raise Unsupported('symbolic separator')


def opaque():
    t = Text()
    t.parts = (Opaque(),)
    return t


def num(mode, v, d=None, trim=None):
    t = Text()
    t.parts = (Num(mode, v, d, trim),)
    return t


def number_text(v):
    """str(v)"""
    if isinstance(v, Sym):
        if v.kind() == 'b':
            return opaque()
        return num('int' if v.kind() == 'i' else 'full', v)
    return opaque()


def formatted(v, spec):
    """format(v, spec)"""
    if spec == '':
        return v if type(v) is Text else number_text(v)
    if isinstance(v, Sym) and len(spec) >= 3 and spec[0] == '.' and spec[-1] in 'fFeE' and spec[1:-1].isdigit():
        d = int(spec[1:-1])
        if spec[-1] in 'fF':
            return num('fixed', Sym(ex(v, T.R), np.float64), d, 'k')
        return num('sci', Sym(ex(v, T.R), np.float64), d)
    return opaque()


def positional(x, precision=None, unique=True, fractional=True, trim='k', sign=False, pad_left=None, pad_right=None, min_digits=None):
    """numpy.format_float_positional"""
    if isconc(x) and (precision is None or isconc(precision)):
        return np.format_float_positional(x, precision=precision, unique=unique, fractional=fractional, trim=trim, sign=sign, pad_left=pad_left, pad_right=pad_right, min_digits=min_digits)
    if sign or pad_left is not None or pad_right is not None or min_digits is not None:
        raise Unsupported('format_float_positional')
    x = Sym(ex(x, T.R), np.float64)
    if precision is None:
        return num('full', x) if unique else opaque()
    if unique or not fractional:
        raise Unsupported('format_float_positional')
    if not isconc(precision) and not ctx().branch(ex(precision, T.Z) >= 0) or isconc(precision) and precision < 0:
        raise Unsupported('negative precision')
    return num('fixed', x, precision, trim)


def scientific(x, precision=None, unique=True, trim='k', sign=False, pad_left=None, exp_digits=None, min_digits=None):
    """numpy.format_float_scientific"""
    if isconc(x) and (precision is None or isconc(precision)):
        return np.format_float_scientific(x, precision=precision, unique=unique, trim=trim, sign=sign, pad_left=pad_left, exp_digits=exp_digits, min_digits=min_digits)
    if sign or pad_left is not None or min_digits is not None:
        raise Unsupported('format_float_scientific')
    x = Sym(ex(x, T.R), np.float64)
    if precision is None or isconc(precision) and precision >= 17:
        return num('full', x) if unique or precision is not None else opaque()
    if not isconc(precision) and not ctx().branch(ex(precision, T.Z) >= 0) or isconc(precision) and precision < 0:
        raise Unsupported('negative precision')
    return num('sci', x, precision)


def half_unit(d):
    return Sym(HALF(ex(d, T.Z)), float)


def relative_unit(d):
    return Sym(REL(ex(d, T.Z)), float)


def axioms():
    d, v = z3.Int('!td'), z3.Real('!tv')
    c = ctx()
    ab = lambda x: z3.If(x >= 0, x, -x)
    for r, b in ((FIXED, HALF(d)), (SCI, REL(d) * ab(v))):
        c.assume(z3.ForAll([d, v], z3.And(r(d, v) - v <= b, v - r(d, v) <= b), patterns=[r(d, v)]), 'def')


def parse(t):
    """float(t)"""
    if isinstance(t, str):
        if '<sym>' in t:
            raise Unsupported('text of a symbolic value')
        return np.float64(t)
    c = ctx()
    ps = [p for p in t.strip().parts] if not isinstance(t.strip(), str) else None
    if ps is None:
        return np.float64(t.strip())
    if len(ps) == 1 and type(ps[0]) is Num:
        p = ps[0]
        v = ex(p.v, T.R)
        if p.mode in ('full', 'int'):
            c.assumptions.add('the shortest text of a float parses back to that float (CPython, numpy)')
            return Sym(v, np.float64)
        c.assumptions.add('fixed decimals are correctly rounded: within half a unit of the last one; scientific text is within a relative 10^-decimals (numpy)')
        d = ex(p.d, T.Z)
        f, b = (FIXED, HALF(d)) if p.mode == 'fixed' else (SCI, REL(d) * z3.If(v >= 0, v, -v))
        r = f(d, v)
        c.assume(z3.And(r - v <= b, v - r <= b), 'def')
        return Sym(r, np.float64)
    if len(ps) == 1 and type(ps[0]) is Seq:
        s = ps[0]
        if c.branch(ex(s.n, T.Z) == 1):
            return parse(s.f(0))
        if s.sep.strip(SPACE) and not set(s.sep) & set('0123456789+-.eEinfaINFAtyTY_'):
            raise ValueError('could not convert string to float')
        raise Unsupported('number in a text')
    if any(type(p) is Lit and set(p.s) - set('0123456789+-.eEinfaINFAtyTY_ \t\n\r\f\v') for p in ps):
        raise ValueError('could not convert string to float')
    raise Unsupported('number in a text')


def join(sep, it):
    """sep.join(it)"""
    it = poke(it)
    sq = seq_of(it)
    if sq is None or isconc(sq[0]):
        xs = builtins.list(it) if sq is None else [sq[1](i) for i in builtins.range(sq[0])]
        for x in xs:
            if not isinstance(x, str) and type(x) is not Text:
                raise TypeError('sequence item: expected str instance')
        if all(isinstance(x, str) for x in xs):
            return sep.join(xs)
        if type(sep) is Text:
            raise Unsupported('symbolic separator')
        ps = []
        for i, x in enumerate(xs):
            ps += ([Lit(sep)] if i and sep else []) + list(parts_of(x))
        return joined(ps)
    if type(sep) is Text:
        raise Unsupported('symbolic separator')
    n, f = sq
    if type(it) is SList:
        it = it.frozen()
        if len(it.segs) > 1:
            ps = []
            for s in it.segs:
                one = SList()
                one.segs = (s,)
                if s.kind != 'items' and not ctx().branch(ex(one.length(), T.Z) > 0):
                    continue
                ps += ([Lit(sep)] if ps and sep else []) + list(parts_of(join(sep, one)))
            return joined(ps)
        f = it.at
    t = Text()
    t.parts = (Seq(sep, n, f),)
    return t


# ------------------------------------------------------------------------------------------------ hooks of the loop engine
def terms_of(t, vterms):
    out = []
    for p in t.parts:
        if type(p) is Num:
            out += vterms(p.v) + (vterms(p.d) if p.d is not None else [])
        elif type(p) is Seq:
            out += vterms(p.n) if isinstance(p.n, Sym) else []
            x = p.f(Sym(T.fresh_int('x'), int))
            out += vterms(x)
        elif type(p) is Tail:
            out += vterms(p.c)
    return out


def subst(t, pairs, sub, gsub):
    ps = []
    for p in t.parts:
        if type(p) is Num:
            ps.append(Num(p.mode, sub(p.v, pairs), sub(p.d, pairs), p.trim))
        elif type(p) is Seq:
            ps.append(Seq(p.sep, sub(p.n, pairs), lambda k, f=p.f: gsub(f, k, pairs)))
        elif type(p) is Tail:
            ps.append(Tail(sub(p.c, pairs), p.s))
        else:
            ps.append(p)
    r = Text()
    r.parts = tuple(ps)
    return r


def merged(alts, merge):
    """alts: [(condition, Text)]; the merged text, or None when the texts are built differently."""
    ts = [t for _, t in alts]
    if any(len(t.parts) != len(ts[0].parts) for t in ts):
        return None
    ps = []
    for col in zip(*[t.parts for t in ts]):
        p = col[0]
        if any(type(q) is not type(p) for q in col):
            return None
        if all(q is p for q in col):
            ps.append(p)
        elif type(p) is Lit:
            if any(q.s != p.s for q in col):
                return None
            ps.append(p)
        elif type(p) is Num:
            if any((q.mode, q.trim) != (p.mode, p.trim) or (q.d is None) != (p.d is None) for q in col):
                return None
            g = lambda a: merge([(c, getattr(q, a)) for (c, _), q in zip(alts, col)])
            ps.append(Num(p.mode, g('v'), None if p.d is None else g('d'), p.trim))
        else:
            return None
    r = Text()
    r.parts = tuple(ps)
    return r


# ------------------------------------------------------------------------------------------------ files
class TextFile:
    """A text file or stream: the lines it holds. Opened for writing, what is written is added."""
    _vf_inst = True

    def __init__(self, chunks=()):
        self.chunks = SList.of(builtins.list(chunks))
        self.pos = 0
        self.closed = False

    # writing
    def write(self, s):
        if not isinstance(s, str) and type(s) is not Text:
            raise TypeError('write() argument must be str')
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        self.chunks.append(s)

    def writelines(self, it):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        self.chunks.extend(SList(it))

    def flush(self): pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    # reading
    def lines(self):
        """What was written, as lines: every chunk but the last has to be a single line (or lines joined by newlines) ending in a newline."""
        out = SList()
        segs = pyb.fixed(self.chunks.segs)
        for q, s in enumerate(segs):
            if s.kind == 'items':
                for i, x in enumerate(s.items):
                    if i == len(s.items) - 1 and q == len(segs) - 1 and not self._ended(x):
                        l = self._lines_of(x + '\n')
                        if l.segs[-1].kind != 'items':
                            raise Unsupported('unfinished line')
                        last = l.segs[-1].items[-1]
                        cut = SList()
                        cut.segs = l.segs[:-1] + (pyb.Seg('items', items=l.segs[-1].items[:-1] + (last[:-1] if isinstance(last, str) else last.removesuffix('\n'),)),)
                        out.extend(cut)
                        continue
                    out.extend(self._lines_of(x))
            elif s.kind == 'tmpl':
                x = s.fn(Sym(T.fresh_int('x'), int))
                if self._single(x):
                    out.extend(SList.tmpl(s.n, s.fn))
                else:
                    raise Unsupported('lines of a text')
            else:
                raise Unsupported('lines of a text')
        return out

    @staticmethod
    def _ended(x):
        if isinstance(x, str):
            return not x or x.endswith('\n')
        p = x.parts[-1]
        return type(p) is Lit and p.s.endswith('\n')

    @staticmethod
    def _plain(p):
        """no line break inside"""
        if type(p) is Lit:
            return '\n' not in p.s
        if type(p) is Num:
            return True
        if type(p) is Seq:
            return '\n' not in p.sep and all(TextFile._plain(q) for q in parts_of(p.f(Sym(T.fresh_int('x'), int))))
        return False

    @classmethod
    def _single(cls, x):
        ps = parts_of(x)
        if not ps or type(ps[-1]) is not Lit or not ps[-1].s.endswith('\n'):
            return False
        return all(cls._plain(p) for p in ps[:-1] + ((Lit(ps[-1].s[:-1]),) if ps[-1].s[:-1] else ()))

    @classmethod
    def _lines_of(cls, x):
        if isinstance(x, str):
            if x and not x.endswith('\n'):
                raise Unsupported('unfinished line')
            return SList.of(x.splitlines(True))
        if cls._single(x):
            return SList.of([x])
        ps = x.parts
        # single line per literal newline
        cur, out = [], SList()
        for p in ps:
            if type(p) is Lit:
                bits = p.s.split('\n')
                for b in bits[:-1]:
                    cur.append(Lit(b + '\n'))
                    out.append(joined(cur))
                    cur = []
                if bits[-1]:
                    cur.append(Lit(bits[-1]))
            elif type(p) is Seq and p.sep == '\n' and not cur and ps[-1] is not p:
                nxt = ps[ps.index(p) + 1]
                if type(nxt) is not Lit or not nxt.s.startswith('\n') or not ctx().implied(ex(p.n, T.Z) > 0):
                    raise Unsupported('lines of a text')
                y = p.f(Sym(T.fresh_int('x'), int))
                if not all(cls._plain(q) for q in parts_of(y)):
                    raise Unsupported('lines of a text')
                f, n = p.f, p.n
                out.extend(SList.tmpl(arith('-', n, 1), lambda k: f(k) + '\n'))
                cur = list(parts_of(f(arith('-', n, 1))))
            elif cls._plain(p):
                cur.append(p)
            else:
                raise Unsupported('lines of a text')
        if cur:
            raise Unsupported('unfinished line')
        return out

    def _rest(self):
        l = self.lines()
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        p = self.pos
        self.pos = None
        if p == 0:
            return l
        if p is None:
            return SList()
        return l[p:]

    def readlines(self):
        return self._rest()

    def __iter__(self):
        return iter(self._rest())

    def _once(self):
        return self._rest()

    def readline(self):
        if self.pos is None:
            return ''
        l = self.lines()
        if not compare('<', self.pos, l.length()):
            return ''
        x = l.at(self.pos)
        self.pos += 1
        return x

    def read(self):
        raise Unsupported('whole text of a file')

    def seek(self, p, whence=0):
        if p != 0 or whence != 0:
            raise Unsupported('seek')
        self.pos = 0
        return 0


def v_open(name, mode='r', *a, **k):
    files = getattr(ctx(), 'files', None)
    if files is None or not isinstance(name, str):
        raise Unsupported('files')
    if mode in ('w', 'wt'):
        if k.get('newline') not in (None, '', '\n'):
            raise Unsupported('newline')
        files[name] = TextFile()
        return files[name]
    if mode in ('r', 'rt'):
        if name not in files:
            raise FileNotFoundError(name)
        f = TextFile()
        f.chunks = files[name].chunks.frozen()
        return f
    raise Unsupported('file mode ' + mode)
