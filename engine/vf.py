"""The runtime handed to instrumented code as vf__, and the shims of the modules it imports."""
import builtins
import enum
import io
import math
import os
import struct
import sys
import types

import numpy as np
import z3

from . import terms as T
from .terms import Sym, CPair, Unsupported, ex, val, ctx, compare, arith, ite, land, lor, lnot, isconc, mk_sum
from . import pyb, arr, loops, instr, text
from .pyb import SList, poke, seq_of
from .arr import SArr, _Mod


def v_any(it):
    poke(it)
    sq = seq_of(it)
    if sq is None or isconc(sq[0]):
        xs = builtins.list(it) if sq is None else [sq[1](i) for i in builtins.range(sq[0])]
        return lor(*[arr.truth(x) if T.is_num(x) else builtins.bool(x) for x in xs])
    n, f = sq
    return pyb.exists(n, lambda k: arr.truth(f(k)))


def v_all(it):
    poke(it)
    sq = seq_of(it)
    if sq is None or isconc(sq[0]):
        xs = builtins.list(it) if sq is None else [sq[1](i) for i in builtins.range(sq[0])]
        return land(*[arr.truth(x) if T.is_num(x) else builtins.bool(x) for x in xs])
    n, f = sq
    return pyb.forall(n, lambda k: arr.truth(f(k)))


class MathShim(_Mod):
    pass


def _m1(name, sf, pf):
    def f(x):
        poke(x)
        if hasattr(x, '_scalar'):
            x = x._scalar()
        if isinstance(x, Sym):
            if name in ('sqrt', 'log'):
                if compare('<', x, 0) if name == 'sqrt' else compare('<=', x, 0):
                    raise ValueError('math domain error')
            return Sym(sf(x).e, float)
        return pf(x)
    return f


def build_math():
    m = MathShim('math')
    for n, s in (('sqrt', T.sqrt_), ('exp', T.exp_), ('log', T.log_), ('tanh', T.tanh_), ('cos', T.cos_), ('sin', T.sin_)):
        setattr(m, n, _m1(n, s, getattr(math, n)))

    def pow_(a, b):
        if isconc(a) and isconc(b):
            return math.pow(a, b)
        r = T.power(a, b)
        return Sym(ex(r, T.R), float) if isinstance(r, Sym) else builtins.float(r)
    m.pow = pow_
    m.pi, m.e, m.inf, m.nan = math.pi, math.e, math.inf, math.nan

    def floor(x):
        if isinstance(x, Sym):
            return val(z3.ToInt(ex(x, T.R)), int)
        return math.floor(x)

    def ceil(x):
        if isinstance(x, Sym):
            return val(-z3.ToInt(-ex(x, T.R)), int)
        return math.ceil(x)
    m.floor, m.ceil = floor, ceil
    m.isnan = lambda x: arr.fisnan(x)
    m.fabs = lambda x: builtins.abs(x)

    def factorial(n):
        if isconc(n):
            return math.factorial(n)
        raise Unsupported('factorial of a symbolic number')
    m.factorial = factorial
    return m


class Transformer:
    """sklearn preprocessing transformer: fitting and mapping are uninterpreted functions of parameters and data."""
    kind = '?'

    def __init__(self, **params):
        self.params = params
        self.fitted = None

    def _vf_state(self):
        return (dict(self.params), self.fitted)

    def _vf_restore(self, s):
        self.params, self.fitted = dict(s[0]), s[1]

    def _tag(self):
        return self.kind + repr(sorted((k, v) for k, v in self.params.items()))

    def set_params(self, **p):
        self.params.update(p)
        return self

    def fit(self, x, y=None):
        self.fitted = arr.np_copy(x)
        return self

    def transform(self, x):
        return self._apply('fwd', x)

    def inverse_transform(self, x):
        return self._apply('inv', x)

    def fit_transform(self, x, y=None):
        return self.fit(x).transform(x)

    def _apply(self, d, x):
        if self.fitted is None:
            raise ValueError('not fitted')
        x = arr.asarray(x)
        if x.ndim != 2 or not arr.dim_eq(x.shape[1], self.fitted.shape[1]):
            raise ValueError('X has a different number of features')
        ctx().assumptions.add('sklearn %s: transform maps each cell by a function of (parameters, fitted data, column, value); inverse_transform is its inverse on data' % self.kind)
        g = x.frozen()
        tag = self._tag()
        fv, fb, fe = arr.arr_key(self.fitted)

        def cell(dirn, v, col):
            return T.mk_binder('arr_sk_' + dirn + tag, fv, fb, fe + [ex(col, T.Z), ex(v, T.R)], T.R)

        def fn(idx):
            e = ex(g(*idx), T.R)
            other = 'inv' if d == 'fwd' else 'fwd'
            r = cell(d, e, idx[1])
            if d == 'inv':
                # inverse o forward is the identity on transformed values
                bd = T.binder_of(e)
                if bd is not None and bd.op == 'arr_sk_' + other + tag:
                    _, _, extra = T.binder_parts(e)
                    back = cell(other, extra[-1], idx[1])
                    if z3.is_true(z3.simplify(back == e)):
                        return Sym(extra[-1], np.float64)
            return Sym(r, np.float64)
        return SArr.new(x.shape, fn)


def _transformer(name):
    return type(name, (Transformer,), {'kind': name})


class StarPack:
    """A symbolic number of positional arguments."""
    def __init__(self, seq):
        self.seq = seq


class VF:
    def __init__(self):
        self.ran_log = {}
        self.math = build_math()
        self.mods = {'numpy': arr.NUMPY, 'math': self.math, 'numpy.random': arr.random, 'numpy.linalg': arr.linalg}
        b = _Mod('builtins')
        self.BUILTINS = dict(len=pyb.v_len, range=pyb.v_range, isinstance=pyb.v_isinstance, list=SList, min=pyb.v_min,
                             max=pyb.v_max, abs=pyb.v_abs, int=pyb.v_int, float=pyb.v_float, bool=pyb.v_bool, str=pyb.v_str, repr=pyb.v_repr, open=text.v_open,
                             any=v_any, all=v_all, sum=self.v_sum, enumerate=pyb.v_enumerate, zip=pyb.v_zip, sorted=pyb.v_sorted,
                             reversed=pyb.v_reversed, set=pyb.v_set, tuple=pyb.v_tuple, type=pyb.v_type, print=pyb.v_print,
                             round=pyb.v_round, pow=pyb.v_pow, map=pyb.v_map, divmod=lambda a, b: (a // b, a % b))
        for k in dir(builtins):
            setattr(b, k, getattr(builtins, k))
        for k, v in self.BUILTINS.items():
            setattr(b, k, v)
        self.mods['builtins'] = b
        sk = _Mod('sklearn.preprocessing')
        for n in ('PowerTransformer', 'QuantileTransformer', 'RobustScaler'):
            setattr(sk, n, _transformer(n))
        self.mods['sklearn.preprocessing'] = sk
        self.prelude = None

    # modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in ('struct', 'os', 'sys', 'io'):
            from . import textio
            return textio.module(name)
        raise Unsupported(f'module {name}')

    def modattr(self, mod, a):
        return getattr(self.module(mod), a)

    # hooks
    def ran(self, q, line):
        self.ran_log[q] = line

    def loop(self, it, names, where):
        it = pyb.once(poke(it))
        return loops.Loop(it, names, where)

    def wloop(self, names, where):
        return loops.Loop(None, names, where, True)

    def mklist(self, l):
        return SList.of(l)

    def mkset(self, t):
        return pyb.v_set(t)

    def mkdict(self, t):
        return {k: v for k, v in t}

    def star(self, x):
        x = poke(x)
        if isinstance(x, SList) and not x.concrete():
            return (StarPack(SList(x)),)
        return x

    def varargs(self, t):
        if any(isinstance(x, StarPack) for x in t):
            out = SList()
            for x in t:
                out = out + (x.seq if isinstance(x, StarPack) else SList.of([x]))
            return out
        return t

    def unpack(self, t, n):
        t = poke(t)
        xs = builtins.tuple(t)
        if len(xs) != n:
            raise ValueError('unpack')
        return xs

    def join(self, obj, arg):
        if isinstance(obj, (str, text.Text)):
            return text.join(obj, arg)
        return obj.join(arg)

    def fstr(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
                continue
            v, conv, spec = p
            poke(v)
            if isinstance(v, Sym) or type(v) is text.Text:
                out.append(text.formatted(v, spec) if conv in (-1, 115) and isinstance(spec, str) else text.opaque())
            elif not isinstance(spec, str):
                out.append(text.opaque())
            else:
                v = {115: str, 114: repr, 97: ascii}.get(conv, lambda x: x)(v)
                out.append(format(v, spec))
        return text.join('', out)

    is_ = staticmethod(pyb.is_)
    in_ = staticmethod(pyb.in_)

    def comp(self, it, f, c):
        it = pyb.once(it)
        sq = seq_of(it)
        if sq is None or isconc(sq[0]):
            xs = it if sq is None else [sq[1](i) for i in builtins.range(sq[0])]
            return SList.of([f(x) for x in xs if c is None or builtins.bool(c(x))])
        if type(it) is SList and len(it.segs) > 1:
            # part by part
            r = SList()
            for s in it.frozen().segs:
                one = SList()
                one.segs = (s,)
                r.extend(self.comp(one, f, c))
            return r
        return self.prelude['comp'](it, f, c)

    def compflat(self, it, f, c):
        it = pyb.once(it)
        sq = seq_of(it)
        if sq is None or isconc(sq[0]):
            xs = it if sq is None else [sq[1](i) for i in builtins.range(sq[0])]
            r = SList()
            for x in xs:
                if c is None or builtins.bool(c(x)):
                    r.extend(f(x))
            return r
        return self.prelude['compflat'](it, f, c)

    def v_sum(self, it, start=0):
        poke(it)
        sq = seq_of(it)
        if sq is None or isconc(sq[0]):
            r = start
            for x in (it if sq is None else [sq[1](i) for i in builtins.range(sq[0])]):
                r = r + x
            return r
        n, f = sq
        if T.is_num(start) and T.is_num(f(Sym(T.fresh_int('fs'), int))):
            return arith('+', start, mk_sum(n, f))
        return self.prelude['fold'](it, start)

    def load_prelude(self):
        p = os.path.join(os.path.dirname(__file__), 'prelude.py')
        d = {'vf__': self, '__name__': 'symwai.__prelude'}
        d.update(self.BUILTINS)
        exec(instr.transform(p, 'prelude'), d)
        self.prelude = d


def boot():
    vf = VF()
    instr.install(vf)
    vf.load_prelude()
    return vf
