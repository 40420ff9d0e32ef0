"""Loops with symbolic trip counts: body explored once for a generic iteration, closed forms derived for every
location the body changes, exits turned into first-exit case splits. Anything without a closed form becomes an
arbitrary value (the path is then marked abstract: a failed obligation on it is 'undecided', never a violation)."""
import builtins
import functools
import math
import types

import numpy as np

import z3

from . import terms as T
from .terms import Sym, CPair, Unsupported, ex, val, ctx, compare, arith, ite, land, lor, lnot, isconc, mk_sum
from . import pyb
from .pyb import SList, Seg, Carried, Poison, poke, seq_of
from .arr import SArr, Store, same
from . import text
from .text import Text
from .rt import Signal, Infeasible, CarriedUse, NeedSym, PoisonRead, Timeout

PKG = 'symwai'
MATRIX_ATTRS = {'data', 'eigenvalue_decomposition', 'singular_value_decomposition', 'qr_decomposition', 't'}


class Undef:
    """Unmergeable / unbound value: harmless unless used."""
    def __init__(self, why):
        object.__setattr__(self, '_why', why)

    def _t(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, '_why'))

    def __getattribute__(self, n):
        if n == '__class__':
            return Undef
        raise Unsupported(object.__getattribute__(self, '_why'))
    for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv mod pow neg abs lt le gt ge eq ne bool len iter '
               'getitem setitem call contains float int index hash str format iadd isub imul').split():
        locals()['__' + _n + '__'] = _t
    __setattr__ = _t


UNBOUND = object()
HINTS = {}


def is_inst(o):
    return ((getattr(type(o), '__module__', '') or '').startswith(PKG) or getattr(type(o), '_vf_inst', False)) and hasattr(o, '__dict__') and not isinstance(o, type)


def is_matrix(o):
    return is_inst(o) and type(o).__name__ == 'Matrix' and 'data' in o.__dict__


def clone_matrix(m, data):
    return type(m)(data)


def reach(values):
    """Mutable objects reachable from the given values."""
    out, seen = {}, set()
    stack = list(values)
    while stack:
        v = stack.pop()
        tv = type(v)
        if tv in (Carried, Poison, Undef, Sym, CPair, int, float, str, bool, builtins.bytes, types.NoneType, np.float64):
            continue
        i = id(v)
        if i in seen:
            continue
        seen.add(i)
        if tv is SArr:
            out[id(v.store)] = v.store
            seen.add(id(v.store))
        elif tv is Store:
            out[i] = v
        elif tv is SList:
            out[i] = v
            for s in v.segs:
                if s.kind == 'items':
                    stack.extend(s.items)
                elif s.arr is not None:
                    stack.append(s.arr)
        elif tv is tuple:
            stack.extend(v)
        elif tv in (list, set):
            out[i] = v
            stack.extend(v)
        elif tv is dict:
            out[i] = v
            stack.extend(v.values())
        elif is_inst(v):
            out[i] = v
            stack.extend(v.__dict__.values())
        elif tv is types.MethodType:
            stack.append(v.__self__)
        elif tv is types.FunctionType:
            for c in v.__closure__ or ():
                try:
                    stack.append(c.cell_contents)
                except ValueError:
                    pass
        elif tv is functools.partial:
            stack.extend([v.func] + list(v.args) + list(v.keywords.values()))
        elif hasattr(v, '_vf_state'):
            out[i] = v
    return out


class Snap:
    def __init__(self, objs):
        self.objs = objs
        self.saved = {}
        for i, o in objs.items():
            t = type(o)
            if t is Store: self.saved[i] = (o.fn, list(o.wlog))
            elif t is SList: self.saved[i] = o.segs
            elif t in (list, set): self.saved[i] = t(o)
            elif t is dict: self.saved[i] = dict(o)
            elif hasattr(o, '_vf_state'): self.saved[i] = o._vf_state()
            else: self.saved[i] = dict(o.__dict__)

    def restore(self):
        for i, o in self.objs.items():
            t, s = type(o), self.saved[i]
            if t is Store:
                o.setfn(s[0])
                o.wlog = list(s[1])
            elif t is SList: o.segs = s
            elif t is list: o[:] = s
            elif t is set: o.clear(); o.update(s)
            elif t is dict: o.clear(); o.update(s)
            elif hasattr(o, '_vf_state'): o._vf_restore(s)
            else:
                o.__dict__.clear()
                o.__dict__.update(s)

    def unrestored_wlog(self, i):
        return self.saved[i][1]


def sigma_in(e, names, memo=None):
    """Does e mention (also inside binder bodies) a symbol whose name is in names?"""
    return not T.decl_names(e).isdisjoint(names)


def find_apps(e, fname):
    """Applications of the function fname in e; None when some occur inside binder bodies or under quantifiers."""
    out, seen, stack = [], set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if sigma_in(x, {fname}):
                return None
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.decl().name() == fname:
                    out.append(x)
                bd = T.binder_of(x)
                if bd is not None:
                    for b, ins in zip(bd.bodies, T.binder_parts(x)[1]):
                        if sigma_in(b, {fname}):
                            return None
            stack.extend(x.children())
    return out


def vterms(v):
    """z3 terms making up a scalar value."""
    if isinstance(v, Sym): return [v.e]
    if isinstance(v, CPair): return vterms(v.re) + vterms(v.im)
    if type(v) is tuple: return [t for x in v for t in vterms(x)]
    if type(v) is Text: return text.terms_of(v, vterms)
    return []


def under(pairs, f, *a):
    """f(*a) with branch conditions read under the substitution that is applied to its result."""
    c = ctx()
    c.subs.append(list(pairs))
    try:
        return f(*a)
    finally:
        c.subs.pop()


def gsub(f, idx, pairs):
    """f(idx) with pairs substituted in f's own text but not in idx."""
    if not pairs:
        return f(idx)
    keys = {a.get_id() for a, _ in pairs}
    if not any(isinstance(i, Sym) and T.contains(i.e, keys) for i in idx):
        return T.subst_val(under(pairs, f, idx), pairs)
    vs, ii = [], []
    for i in idx:
        if isinstance(i, Sym) and T.contains(i.e, keys):
            v = T.fresh_int('g')
            vs.append((v, i.e))
            ii.append(Sym(v, int))
        else:
            ii.append(i)
    return T.subst_val(under(list(pairs) + vs, f, tuple(ii)), list(pairs) + vs)


def gsub_obj(f, q, pairs):
    """As gsub for a list-element function of one index returning an object."""
    keys = {a.get_id() for a, _ in pairs}
    if not (isinstance(q, Sym) and T.contains(q.e, keys)):
        return subst_obj(under(pairs, f, q), pairs)
    v = T.fresh_int('g')
    ps = list(pairs) + [(v, q.e)]
    return subst_obj(under(ps, f, Sym(v, int)), ps)


def subst_obj(v, pairs):
    """Copy of a value with constants substituted."""
    if not pairs:
        return v
    if isinstance(v, (Sym, CPair)):
        return T.subst_val(v, pairs)
    t = type(v)
    if t is SArr:
        g = v.frozen()
        return SArr.new([T.subst_val(d, pairs) for d in v.shape], lambda idx: gsub(lambda i: g(*i), idx, pairs), v.store.dt)
    if t is tuple:
        return tuple(subst_obj(x, pairs) for x in v)
    if t is Text:
        return text.subst(v, pairs, subst_obj, gsub_obj)
    if t is SList:
        r = SList()
        segs = []
        for s in pyb.fixed(v.segs):
            if s.kind == 'items':
                segs.append(Seg('items', items=tuple(subst_obj(x, pairs) for x in s.items)))
            elif s.kind == 'set':
                segs.append(Seg('set', T.subst_val(s.n, pairs), items=tuple(subst_obj(x, pairs) for x in s.items)))
            elif s.kind == 'carried':
                raise CarriedUse(s.loc)
            else:
                segs.append(Seg(s.kind, T.subst_val(s.n, pairs), (lambda k, f=s.fn: gsub_obj(f, k, pairs)),
                                (lambda k, f=s.pred: gsub(lambda i: f(i[0]), (k,), pairs)) if s.pred else None))
        r.segs = tuple(segs)
        return r
    if is_matrix(v):
        if v.data is None or type(v.data) is not SArr:
            return v
        return clone_matrix(v, subst_obj(v.data, pairs))
    return v


def name_cond(c):
    """A 0/1 number standing for a condition, identified by its conjuncts (contracts that ask for opaque contents only)."""
    if isconc(c):
        return 1 if c else 0
    parts = flatten(ex(c))
    body = T.pterm(functools.reduce(T.padd, [T.pnorm_iverson(T.renorm(x)) for x in parts])) if len(parts) > 1 else z3.If(parts[0], z3.RealVal(1), z3.RealVal(0))
    if len(parts) == 1:
        return Sym(body, np.float64)
    return Sym(T.mk_binder('cond', [], [body], [], T.R), np.float64)


def merge_vals(alts):
    """alts: [(cond or None, value)], exclusive; value of the last one is the default."""
    vs = [v for _, v in alts]
    if getattr(ctx(), 'opaque', False) and len(vs) > 2:
        named = []

        def pick(xs):
            if all(isinstance(x, Sym) and x.e.sort() == T.R or isinstance(x, (float, np.floating)) for x in xs):
                if not named:
                    named.extend(name_cond(c) for c, _ in alts[:-1])
                r = xs[-1]
                for w, x in zip(named, xs[:-1]):
                    if not (x is xs[-1] or same(x, xs[-1])):
                        r = arith('+', r, arith('*', w, arith('-', x, xs[-1])))
                return r
            r = xs[-1]
            for (c, _), x in reversed(list(zip(alts[:-1], xs[:-1]))):
                r = ite(c, x, r)
            return r
        if all(type(v) is SArr and v.store.dt == 'f' for v in vs) and all(len(v.shape) == len(vs[0].shape) and all(same(a, b) for a, b in zip(v.shape, vs[0].shape)) for v in vs):
            gs = [v.frozen() for v in vs]
            return SArr.new(vs[0].shape, lambda idx: pick([g(*idx) for g in gs]), 'f')
        if all(isinstance(x, Sym) and x.e.sort() == T.R for x in vs):
            return pick(vs)
    if all(v is vs[0] for v in vs):
        return vs[0]
    if any(type(v) in (Carried, Undef, Poison) for v in vs):
        return Undef('value differs between paths of a loop body')
    if all(T.is_num(v) or isinstance(v, CPair) for v in vs):
        r = vs[-1]
        for c, v in reversed(alts[:-1]):
            r = ite(c, v, r)
        return r
    if all(type(v) is SArr for v in vs):
        if all(len(v.shape) == len(vs[0].shape) and all(same(a, b) for a, b in zip(v.shape, vs[0].shape)) for v in vs):
            gs = [v.frozen() for v in vs]
            cs = [c for c, _ in alts]

            def fn(idx):
                r = gs[-1](*idx)
                for c, g in reversed(list(zip(cs[:-1], gs[:-1]))):
                    r = ite(c, g(*idx), r)
                return r
            return SArr.new(vs[0].shape, fn, vs[0].store.dt)
    if all(is_matrix(v) for v in vs):
        d = merge_vals([(c, v.data) for c, v in alts])
        if type(d) is SArr:
            return clone_matrix(vs[0], d)
    if all(type(v) is tuple and len(v) == len(vs[0]) for v in vs):
        return tuple(merge_vals([(c, v[i]) for c, v in alts]) for i in range(len(vs[0])))
    if all(type(v) is SList and v.concrete() for v in vs) and len({len(v.items()) for v in vs}) == 1:
        its = [v.items() for v in vs]
        return SList.of([merge_vals([(c, it[i]) for (c, _), it in zip(alts, its)]) for i in range(len(its[0]))])
    if all(type(v) is SList and len(v.segs) == 1 and v.segs[0].kind == 'tmpl' and same(v.segs[0].n, vs[0].segs[0].n) for v in vs):
        fs = [pyb.fixed(v.segs)[0].fn for v in vs]
        cs = [c for c, _ in alts]
        return SList.tmpl(vs[0].segs[0].n, lambda k: merge_vals([(c, f(k)) for c, f in zip(cs, fs)]))
    if all(type(v) is Text for v in vs):
        r = text.merged(alts, merge_vals)
        if r is not None:
            return r
    if all(isinstance(v, (str, type(None))) for v in vs) and all(v == vs[0] for v in vs):
        return vs[0]
    return Undef('value differs between paths of a loop body')


class Result:
    pass


def _every(p, k):
    """(c, off) when the condition holds exactly for the numbers off, off + c, off + 2c, ... (0 <= off < c)."""
    c, st = 1, [p]
    while st:
        e = st.pop()
        if e.eq(k):
            return None
        if z3.is_app_of(e, z3.Z3_OP_MOD):
            a, b = e.children()
            if not z3.is_int_value(b) or not 0 < b.as_long() <= 12 or any(not (x.eq(k) or z3.is_int_value(x)) for x in (a.children() if z3.is_add(a) else [a])):
                return None
            c = c * b.as_long() // math.gcd(c, b.as_long())
            continue
        if not (z3.is_bool(e) or z3.is_int_value(e)) or z3.is_quantifier(e) or z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return None
        st.extend(e.children())
    if not 1 < c <= 24:
        return None
    at = [z3.simplify(z3.substitute(p, (k, z3.IntVal(v)))) for v in range(c)]
    if any(not (z3.is_true(v) or z3.is_false(v)) for v in at) or sum(z3.is_true(v) for v in at) != 1:
        return None
    return c, [z3.is_true(v) for v in at].index(True)


FIRST = True


class Loop:
    def __init__(self, it, names, where, is_while=False):
        self.names, self.where, self.is_while = names, where, is_while
        self.mode = None
        self.native = None
        self.widen = {}
        self.peeled = self.lead = 0
        if is_while:
            self.sym = True
            self.n = None
            return
        sq = seq_of(it)
        if sq is None:
            self.sym = False
            self.native = it
            return
        n, f = sq
        if isconc(n):
            self.sym = False
            self.native = (f(i) for i in range(n))
            return
        if not ctx().branch(ex(n, T.Z) > 0):
            self.sym = False
            self.native = ()
            return
        self.sym = True
        if type(it) is SList and len(it.segs) > 1 and it.segs[0].kind == 'items':
            self.lead = min(len(it.segs[0].items), 8)        # plain items in front: one iteration each
        self.n, self.item = n, f

    # ---------------------------------------------------------------- hooks called by instrumented code
    def enter(self, loc):
        if self.mode == 'probe':
            self.L0 = {x: loc.get(x, UNBOUND) for x in self.names}
            self.env = [v for k, v in loc.items() if not k.startswith('vf__')]
            raise Signal(self, 'probe')
        if self.mode == 'unroll':
            self.cur = {x: loc.get(x, UNBOUND) for x in self.names}
            return tuple(self.cur[x] if self.cur[x] is not UNBOUND else Undef(f'unbound local {x}') for x in self.names)
        if self.mode == 'peel':
            return tuple(self.L0[x] if self.L0[x] is not UNBOUND else Undef(f'unbound local {x}') for x in self.names)
        vals = self.setup()
        return tuple(vals[x] for x in self.names)

    def leave(self, loc):
        if self.mode in ('unroll', 'peel'):
            return
        if self.mode == 'explore':
            self.record('next', loc)
            return
        raise Infeasible()

    def caught(self, e, loc):
        if self.mode == 'probe':
            return isinstance(e, Signal) and e.loop is self
        if self.mode == 'unroll':
            if isinstance(e, NeedSym) and self.in_cond:
                self.in_cond = False
                ctx().nofork -= 1
                self.switch = True
                return True
            if self.in_cond:
                self.in_cond = False
                ctx().nofork -= 1
            return False
        if self.mode != 'explore':
            return False
        if isinstance(e, Signal):
            if e.loop is not self:
                return False
            self.record(e.kind, loc)
            return True
        if isinstance(e, Infeasible):
            self.result = None
            return True
        if isinstance(e, CarriedUse):
            if e.loc[0] is not self:
                return False
            self.need = e.loc
            self.result = None
            return True
        if isinstance(e, (Unsupported, NeedSym, PoisonRead, Timeout, GeneratorExit, KeyboardInterrupt)):
            return False
        if isinstance(e, Exception):
            self.record('raise', loc)
            self.result.exc = e
            return True
        return False

    def brk(self):
        if self.mode == 'explore':
            raise Signal(self, 'break')

    def cont(self):
        if self.mode == 'explore':
            raise Signal(self, 'next')
        if self.mode == 'live':
            raise Infeasible()

    def ret(self):
        if self.mode == 'explore':
            raise Signal(self, 'return')

    def cond_begin(self):
        if self.mode == 'unroll':
            self.in_cond = True
            ctx().nofork += 1

    def cond_end(self, v, const=False):
        b = bool(v)
        if const and self.mode == 'unroll' and self.in_cond:
            raise NeedSym()         # 'while True': nothing to be learnt from its condition
        if self.mode == 'unroll' and self.in_cond:
            self.in_cond = False
            ctx().nofork -= 1
        return b

    def final(self):
        if self.mode == 'unroll' or self.mode == 'live':
            return tuple(self.cur[x] if self.cur.get(x, UNBOUND) is not UNBOUND else Undef(f'unbound local {x}') for x in self.names)
        return tuple(self.fin[x] for x in self.names)

    # ---------------------------------------------------------------- iteration
    def __iter__(self):
        if not self.sym:
            yield from self.native
            return
        c = ctx()
        if self.is_while:
            self.mode = 'unroll'
            self.switch = False
            self.in_cond = False
            cnt = 0
            while not self.switch:
                cnt += 1
                if cnt > 60:
                    raise Unsupported('while loop unrolled too often')
                yield None
        yield from self._run()

    def _peel(self):
        """Run the first iteration on its own and analyse the remaining ones."""
        self.snap.restore()
        self.peeled += 1
        self.mode = 'peel'
        it, n = (None, None) if self.is_while else (self.item, self.n)
        yield (it(0) if it else None)
        if not self.is_while:
            self.n = arith('-', n, 1)
            self.item = lambda k: it(arith('+', k, 1))
            if not ctx().branch(ex(self.n, T.Z) > 0):
                self.mode = 'probe'
                yield None
                self.cur = self.L0
                self.mode = 'unroll'
                return
        yield from self._run()

    def _run(self):
        c = ctx()
        self.mode = 'probe'
        yield None
        self.snap = Snap(reach(self.env + [v for v in self.L0.values() if v is not UNBOUND]))
        self.k = T.fresh_int('k')
        self.K = Sym(self.k, int)
        self.known = {}        # loc -> fn(kval) value at the start of iteration k
        self.carried = set()   # locations read before written
        self.mod = set()       # heap locations modified
        self.freshread = set()  # stores whose reads only touch cells not yet written
        self.cands = {}
        self.opaque = set()
        self.sig = {}
        self.signames = set()
        self.region = {}
        if self.lead:
            self.lead -= 1
            self.peeled -= 1
            yield from self._peel()
            return
        self._use_hints()
        for _ in range(40):
            self.need = None
            rs = yield from self._explore()
            if self.need is not None:
                if self.need in self.carried:
                    raise Unsupported('loop-carried value of unsupported kind: ' + str(self.need[1:]))
                self.carried.add(self.need)
                continue
            new = set()
            for r in rs:
                new |= set(r.attrs) | set(r.stores) | set(r.lists) | set(r.others)
            if not new <= self.mod:
                self.mod |= new
                continue
            if self._solve(rs):
                continue
            if self.opaque and self.nexts:
                if self.peeled < 1 and any(len(self.cands.get(l, ())) > 1 for l in self.opaque):
                    yield from self._peel()
                    return
                if self._iterate():
                    continue
            break
        else:
            raise Unsupported('loop analysis did not converge')
        self._keep_hints()
        self.rs = rs
        self.nexts = [r for r in rs if r.kind == 'next']
        exits = [r for r in rs if r.kind != 'next']
        if self.opaque:
            c.top.abstract = True
            c.top.notes.append(f'{self.where}: ' + ', '.join(sorted(str(l[1:]) for l in self.opaque)))
        # definitional facts
        self._export_defs(rs)
        if exits:
            m = len(exits) + (0 if self.is_while else 1)
            w = c.choose(m)
            if w < len(exits):
                yield from self._exit_at(exits, w)
                return
            k0 = None if self.is_while else self._first_exit(exits)
            if k0 is not None and T.binder_of(k0) is not None:
                c.assume(z3.Not(k0 < ex(self.n, T.Z)), 'c')
            self._no_exit(exits, ex(self.n, T.Z), [])
            if c._ask(z3.BoolVal(False))[0]:
                raise Infeasible()
        elif self.is_while:
            c.top.notes.append(f'{self.where}: loop never exits')
            raise Infeasible()
        if not self.nexts:
            raise Infeasible()
        self._finish(self.n, first=False)
        self.fin = self.outvals
        self.mode = 'done'

    # what an earlier analysis of the same loop found to be read or modified: saves discovering it again (a superset is harmless)
    def _describe(self, loc):
        if loc[1] == 'local':
            return ('local', loc[2], type(self.L0.get(loc[2], UNBOUND)).__name__)
        ids = list(self.snap.objs)
        o = self.snap.objs[loc[2]]
        v = self.snap.saved[loc[2]].get(loc[3], UNBOUND) if loc[1] == 'attr' else None
        return (loc[1], ids.index(loc[2]), len(ids), type(o).__name__, type(v).__name__) + tuple(loc[3:])

    def _use_hints(self):
        h = HINTS.get(self.where)
        if h is None:
            return
        ids = list(self.snap.objs)
        for what, into in zip(h, (self.carried, self.mod)):
            for d in what:
                if d[0] == 'local':
                    if d[1] in self.names and type(self.L0[d[1]]).__name__ == d[2]:
                        into.add((self, 'local', d[1]))
                elif d[2] == len(ids):
                    loc = (self, d[0], ids[d[1]]) + tuple(d[5:])
                    if self._describe(loc) == d:
                        into.add(loc)

    def _keep_hints(self):
        if len(self.snap.objs) < 400:
            HINTS[self.where] = (frozenset(self._describe(l) for l in self.carried), frozenset(self._describe(l) for l in self.mod))

    # ---------------------------------------------------------------- exploration of the generic iteration
    def _explore(self):
        c = ctx()
        stack, out = [[]], []
        cnt = 0
        while stack:
            prefix = stack.pop()
            cnt += 1
            if cnt > 64:
                raise Unsupported('too many paths through a loop body')
            f = c.push(prefix)
            depth = len(c.frames)
            c.assume(self.k >= 0)
            if not self.is_while:
                c.assume(self.k < ex(self.n, T.Z))
            self.mode = 'explore'
            self.result = None
            self.at = self.K
            yield (self.item(self.K) if not self.is_while else None)
            while len(c.frames) > depth:
                c.pop()
            if self.need is not None:
                c.pop()
                self.snap.restore()
                return []
            if self.result is not None:
                out.append(self.result)
            stack.extend(f.alternatives())
            c.pop()
            self.snap.restore()
        return out

    def setup(self):
        """Bring heap and locals to the state at the start of iteration self.at."""
        at = self.at
        self.snap.restore()
        for loc in self.mod:
            kind = loc[1]
            o = self.snap.objs[loc[2]]
            if kind == 'store':
                if loc in self.known:
                    o.setfn(lambda idx, f=self.known[loc], at=at: f(at, idx))
                elif loc in self.freshread:
                    pass
                else:
                    o.setfn(self._sig_store(loc, o))
                o.wlog = []
            elif kind == 'list':
                if loc in self.known:
                    o.segs = self.known[loc](at)
                else:
                    o.segs = (Seg('carried', loc=loc),)
            elif kind == 'attr':
                o.__dict__[loc[3]] = self._value(loc, self.snap.saved[loc[2]].get(loc[3], UNBOUND))
            else:
                raise Unsupported('loop modifies a native container')
        vals = {}
        for x in self.names:
            loc = (self, 'local', x)
            vals[x] = self._value(loc, self.L0[x])
        self.entry = vals
        self.base_lists = {i: o.segs for i, o in self.snap.objs.items() if type(o) is SList}
        self.base_attrs = {i: dict(o.__dict__) for i, o in self.snap.objs.items() if is_inst(o)}
        self.base_other = {i: (list(o) if not isinstance(o, dict) else dict(o)) for i, o in self.snap.objs.items() if type(o) in (list, set, dict)}
        for o in self.snap.objs.values():
            if type(o) is Store:
                o.wlog = []
        return vals

    def _value(self, loc, init):
        if loc in self.known:
            return self.known[loc](self.at)
        if loc in self.carried:
            return self._generic(loc, init)
        return Carried(loc)

    def _sig_store(self, loc, o):
        key = (loc, 'store')
        if key not in self.sig:
            nm = f'!sg{next(T._fresh)}'
            self.signames.add(nm)
            n = len(o.shape)
            if o.dt == 'c':
                f1 = z3.Function(nm, *([T.Z] * n + [T.R]))
                nm2 = nm + 'i'
                self.signames.add(nm2)
                f2 = z3.Function(nm2, *([T.Z] * n + [T.R]))
                self.sig[key] = lambda idx: CPair(Sym(f1(*[ex(i, T.Z) for i in idx]), np.float64), Sym(f2(*[ex(i, T.Z) for i in idx]), np.float64))
            else:
                s = {'f': T.R, 'i': T.Z, 'b': T.B}[o.dt]
                f1 = z3.Function(nm, *([T.Z] * n + [s]))
                self.sig[key] = lambda idx: Sym(f1(*[ex(i, T.Z) for i in idx]))
            self.sig[(loc, 'name')] = nm
        return self.sig[key]

    def _tsig(self, v):
        """Type signature groups for generic values."""
        if v is UNBOUND: return ('unbound',)
        if v is None: return ('none',)
        if isinstance(v, (bool, np.bool_)) or (isinstance(v, Sym) and v.kind() == 'b'): return ('bool',)
        if T.is_num(v): return ('num',)
        if is_matrix(v) and type(v.data) is SArr: return ('matrix', len(v.data.shape))
        if type(v) is SArr: return ('arr', len(v.shape))
        if type(v) is SList: return ('list', id(v))
        if isinstance(v, str): return ('str', v)
        if type(v) is tuple: return ('tuple',) + tuple(self._tsig(x) for x in v)
        return ('obj', id(v))

    def _generic(self, loc, init):
        cs = self.cands.setdefault(loc, {})
        if init is not UNBOUND:
            cs.setdefault(self._tsig(init), [init])
        sigs = [s for s in cs]
        if not sigs:
            raise Unsupported('read of an unbound loop variable ' + str(loc[1:]))
        w = ctx().choose(len(sigs)) if len(sigs) > 1 else 0
        return self._gen_of(loc, sigs[w], cs[sigs[w]])

    def _gen_of(self, loc, sig, samples):
        key = (loc, sig)
        if sig[0] == 'none': return None
        if sig[0] in ('str', 'obj', 'list'):
            return samples[0]
        if sig[0] == 'tuple':
            return tuple(self._gen_of((loc, i), s, [x[i] for x in samples]) for i, s in enumerate(sig[1:]))
        if sig[0] == 'bool':
            if key not in self.sig:
                nm = f'!sg{next(T._fresh)}'
                self.signames.add(nm)
                self.sig[key] = z3.Const(nm, T.B)
            return Sym(self.sig[key], bool)
        if sig[0] == 'num':
            real = any(isinstance(s, (float, np.floating)) or (isinstance(s, Sym) and s.e.sort() == T.R) for s in samples)
            key = (loc, sig, real)
            if key not in self.sig:
                nm = f'!sg{next(T._fresh)}'
                self.signames.add(nm)
                self.sig[key] = z3.Const(nm, T.R if real else T.Z)
            tags = {s.t if isinstance(s, Sym) else type(s) for s in samples}
            return Sym(self.sig[key], (np.float64 if np.float64 in tags or not tags <= {float} else float) if real else int)
        # arrays
        arrs = [s.data if is_matrix(s) else s for s in samples]
        shape = []
        for d in range(len(arrs[0].shape)):
            d0 = arrs[0].shape[d]
            if all(same(a.shape[d], d0) or (not self.widen.get((loc, d)) and self._same_dim(a.shape[d], d0)) for a in arrs) and not self.widen.get((loc, d)):
                shape.append(d0)
            else:
                self.widen[(loc, d)] = True
                kd = (loc, sig, 'dim', d)
                if kd not in self.sig:
                    nm = f'!sg{next(T._fresh)}'
                    self.signames.add(nm)
                    self.sig[kd] = z3.Const(nm, T.Z)
                ctx().assume(self.sig[kd] >= 0)
                shape.append(Sym(self.sig[kd], int))
        dt = 'c' if any(a.store.dt == 'c' for a in arrs) else arrs[0].store.dt
        kf = (loc, sig, 'fn', dt)
        if kf not in self.sig:
            nm = f'!sg{next(T._fresh)}'
            self.signames |= {nm, nm + 'i'}
            n = len(shape)
            s = {'f': T.R, 'i': T.Z, 'b': T.B, 'c': T.R}[dt]
            f1 = z3.Function(nm, *([T.Z] * n + [s]))
            f2 = z3.Function(nm + 'i', *([T.Z] * n + [s]))
            if dt == 'c':
                self.sig[kf] = lambda idx: CPair(Sym(f1(*[ex(i, T.Z) for i in idx])), Sym(f2(*[ex(i, T.Z) for i in idx])))
            else:
                self.sig[kf] = lambda idx: Sym(f1(*[ex(i, T.Z) for i in idx]))
            self.sig[(loc, 'name')] = nm
        a = SArr.new(shape, self.sig[kf], dt)
        return clone_matrix(samples[0], a) if is_matrix(samples[0]) else a

    def _same_dim(self, a, b):
        if isinstance(a, Sym) and sigma_in(a.e, self.signames):
            return False
        if isinstance(a, Sym) and T.contains(a.e, {self.k.get_id()}):
            return False
        return ctx().implied(ex(a, T.Z) == ex(b, T.Z))

    def record(self, kind, loc):
        f = ctx().top
        r = Result()
        r.kind = kind
        r.exc = None
        r.conds = [c for c, t in zip(f.path, f.tags) if t in ('c', 'first')]
        r.tags = [t for t in f.tags if t in ('c', 'first')]
        r.defs = [c for c, t in zip(f.path, f.tags) if t == 'def']
        r.skolems = list(f.skolems)
        r.abstract = f.abstract
        r.notes = f.notes
        if f.abstract:
            ctx().frames[-2].abstract = True
            ctx().frames[-2].notes.extend(f.notes)
        r.locals = {x: loc.get(x, UNBOUND) for x in self.names}
        r.attrs, r.stores, r.lists, r.others = {}, {}, {}, {}
        for i, o in self.snap.objs.items():
            t = type(o)
            if t is Store:
                if o.wlog:
                    r.stores[(self, 'store', i)] = list(o.wlog)
            elif t is SList:
                if o.segs is not self.base_lists[i]:
                    r.lists[(self, 'list', i)] = o.segs
            elif t in (list, set, dict):
                b = self.base_other[i]
                cur = list(o) if t is not dict else dict(o)
                if len(cur) != len(b) or any((x is not y) for x, y in (zip(cur, b) if t is not dict else zip(cur.values(), b.values()))):
                    r.others[(self, 'other', i)] = True
            elif hasattr(o, '_vf_state'):
                pass
            else:
                b = self.base_attrs[i]
                for kk in set(o.__dict__) | set(b):
                    if o.__dict__.get(kk, UNBOUND) is not b.get(kk, UNBOUND):
                        r.attrs[(self, 'attr', i, kk)] = o.__dict__.get(kk, UNBOUND)
        self._skolemise(r)
        self.result = r

    def _skolemise(self, r):
        """Fresh constants created in the body become functions of the iteration number."""
        used = [s for s in r.skolems if not s.eq(self.k)]
        if not used:
            r.pairs = []
            return
        pairs = []
        for s in used:
            f = z3.Function(f'{s.decl().name()}_f', T.Z, s.sort())
            pairs.append((s, f(self.k)))
        r.pairs = pairs
        r.conds = [z3.substitute(c, *pairs) for c in r.conds]
        r.defs = [z3.substitute(c, *pairs) for c in r.defs]
        r.skfuns = pairs
        r.locals = {x: self._sub(v, pairs) for x, v in r.locals.items()}
        r.attrs = {x: self._sub(v, pairs) for x, v in r.attrs.items()}
        for l, w in r.stores.items():
            r.stores[l] = [((lambda idx, h=h: gsub(h, idx, pairs)), (lambda idx, v=v: gsub(v, idx, pairs))) for h, v in w]
        for l, segs in r.lists.items():
            tmp = SList()
            tmp.segs = tuple(s for s in segs if s.kind != 'carried')
            r.lists[l] = tuple(s for s in segs if s.kind == 'carried') + subst_obj(tmp, pairs).segs

    def _sub(self, v, pairs):
        if v is UNBOUND or type(v) in (Carried, Undef, Poison):
            return v
        return subst_obj(v, pairs)

    # ---------------------------------------------------------------- closed forms
    def _cond(self, r):
        # leading conditions are the range facts
        cs = [c for c in r.conds if not self._is_range(c)]
        if any(r is q for q in self.nexts):
            # which way a completed iteration went is told by what distinguishes the ways
            t = self._told()
            if t is not None:
                cs = t[[q is r for q in self.nexts].index(True)]
        return boolterm(cs)

    def _told(self):
        """Per way of completing an iteration the conditions whose opposites hold on another way, if they tell all ways apart."""
        if getattr(self, '_told_for', None) is not self.nexts:
            self._told_for = self.nexts
            neg = lambda c: c.arg(0) if z3.is_not(c) else z3.Not(c)
            free = [[c for c in r.conds if not self._is_range(c)] for r in self.nexts]
            ids = [{neg(c).get_id() for c in f} for f in free]
            self._negs = [[neg(c) for c in f] for f in free]
            best = None
            for carried in (False, True):
                cand = [[c for c in f if carried or not sigma_in(c, self.signames)] for f in free]
                keep = [[c for c in f if any(c.get_id() in d for j, d in enumerate(ids) if j != i)] for i, f in enumerate(cand)]
                if all(any(c.get_id() in ids[j] for c in keep[i]) for i in range(len(free)) for j in range(len(free)) if i != j):
                    best = keep
                    break
            self._told_is = best
        return self._told_is

    def _is_range(self, c):
        return c.eq(self.k >= 0) or (not self.is_while and c.eq(self.k < ex(self.n, T.Z)))

    def _merged(self, rs, get):
        alts = [(self._cond(r), get(r)) for r in rs]
        return merge_vals(alts)

    def _has(self, v):
        return any(sigma_in(t, self.signames) for t in vterms(v))

    def _solve(self, rs):
        """Find closed forms; True when something new was learned (re-explore)."""
        nexts = [r for r in rs if r.kind == 'next']
        self.nexts = nexts
        self.allrs = rs
        if not nexts:
            for loc in self.carried | self.mod:
                if loc not in self.known and loc not in self.opaque:
                    self._init_known(loc)
                    return True
            return False
        locs = [l for l in self.carried if l not in self.known] + [l for l in self.mod if l not in self.known and l not in self.carried]
        learned = False
        nfr = len(self.freshread)
        for loc in locs:
            if loc in self.opaque:
                # check the generic shape still covers the results
                if self._extend_cands(loc, nexts):
                    learned = True
                elif not learned and loc in self.carried:
                    r = self._solve_growth(loc, nexts)
                    if r is not None:
                        self.known[loc] = r
                        self.opaque.discard(loc)
                        learned = True
                continue
            r = self._solve_loc(loc, nexts)
            if r is not None:
                self.known[loc] = r
                learned = True
        if learned or len(self.freshread) != nfr:
            return True
        # nothing left to learn: remaining carried scalars / arrays become opaque
        for loc in locs:
            if loc in self.opaque:
                continue
            kind = loc[1]
            if kind == 'store':
                self.opaque.add(loc)
                self._sig_store(loc, self.snap.objs[loc[2]])
                return True
            if kind == 'list':
                raise Unsupported('loop builds a list in an unsupported way')
            if loc in self.carried:
                if self._extend_cands(loc, nexts):
                    return True
                self.opaque.add(loc)
                return True
        return False

    def _components(self, loc):
        """State components of a location: [(generic symbol name, rank, sort, initial term, next term per result)], and
        how to build its value from component terms at an iteration; None when its kind changes between iterations."""
        kind = loc[1]
        z = lambda idx: [ex(i, T.Z) for i in idx]
        if kind == 'store':
            o = self.snap.objs[loc[2]]
            if o.dt == 'c':
                return None
            sort = {'f': T.R, 'i': T.Z, 'b': T.B}[o.dt]
            init = self.snap.saved[loc[2]][0]
            cur = self._sig_store(loc, o)

            def nxt(r, idx):
                x = cur(idx)
                for h, v in r.stores.get(loc, []):
                    x = ite(h(idx), v(idx), x)
                return ex(x, sort)
            return ([(self.sig[(loc, 'name')], len(o.shape), sort, lambda idx: ex(init(idx), sort), nxt)],
                    lambda F: (lambda at, idx: val(F[0](at, idx), o.dt if False else None) if not (isconc(at) and at == 0) else init(idx)))
        if kind in ('list', 'other'):
            return None
        get, init = self._getter(loc)
        cs = self.cands.get(loc, {})
        if len(cs) != 1 or init is UNBOUND:
            return None
        sig, samples = next(iter(cs.items()))
        here = lambda v: self._is_unchanged(loc, v)
        if sig[0] in ('bool', 'num'):
            keys = [k for k in self.sig if k[0] == loc and k[1] == sig and isinstance(self.sig[k], z3.ExprRef)]
            if sig[0] == 'num':
                real = any(isinstance(s, (float, np.floating)) or (isinstance(s, Sym) and s.e.sort() == T.R) for s in samples)
                keys = [k for k in keys if k[2] == real]
            if len(keys) != 1:
                return None
            g = self.sig[keys[0]]
            sort = g.sort()
            tmpl = self._gen_of(loc, sig, samples)
            return ([(g.decl().name(), 0, sort, lambda idx: ex(init, sort), lambda r, idx: g if here(get(r)) else ex(get(r), sort))],
                    lambda F: (lambda at: Sym(F[0](at, ()), tmpl.t)))
        if sig[0] not in ('matrix', 'arr'):
            return None
        gen = self._gen_of(loc, sig, samples)
        ga = gen.data if is_matrix(gen) else gen
        if ga.store.dt == 'c':
            return None
        arr = lambda v: v.data if is_matrix(v) else v
        sort = {'f': T.R, 'i': T.Z, 'b': T.B}[ga.store.dt]
        comps = [(self.sig[(loc, 'name')], len(ga.shape), sort, lambda idx: ex(arr(init).at(*idx), sort),
                  lambda r, idx: ex(ga.at(*idx) if here(get(r)) else arr(get(r)).at(*idx), sort))]
        dims = []
        for d, x in enumerate(ga.shape):
            kd = (loc, sig, 'dim', d)
            if self.widen.get((loc, d)):
                if kd not in self.sig:
                    return None
                dims.append(len(comps))
                comps.append((self.sig[kd].decl().name(), 0, T.Z, lambda idx, d=d: ex(arr(init).shape[d], T.Z),
                              lambda r, idx, d=d: ex(ga.shape[d] if here(get(r)) else arr(get(r)).shape[d], T.Z)))
            else:
                dims.append(None)

        def build(F):
            def at_(at):
                shape = [x if q is None else Sym(F[q](at, ()), int) for x, q in zip(ga.shape, dims)]
                for x, q in zip(shape, dims):
                    if q is not None:
                        ctx().assume(x.e >= 0, 'def')
                a = SArr.new(shape, lambda idx: Sym(F[0](at, idx)), ga.store.dt)
                return clone_matrix(init, a) if is_matrix(init) else a
            return at_
        return comps, build

    def _iterate(self):
        """No closed form: describe the remaining state by uninterpreted functions that are determined by the recurrence
        (initial and next state). Two runs of the same recurrence get the same functions."""
        info = {}
        for loc in self.opaque:
            if loc in self.known:
                continue
            try:
                ci = self._components(loc)
            except Unsupported:
                ci = None
            if ci is not None:
                info[loc] = ci
        if not info:
            return False
        # terms
        R = max(max(c[1] for c in ci[0]) for ci in info.values())
        vs = [T.fresh_int('c') for _ in range(R)]
        terms, deps, owner = {}, {}, {}
        for loc, (comps, _) in info.items():
            for c in comps:
                owner[c[0]] = loc
        for loc, (comps, _) in list(info.items()):
            tt = []
            bad = False
            for nm, rank, sort, ini, nxt in comps:
                idx = tuple(Sym(v, int) for v in vs[:rank])
                try:
                    i0 = ini(idx)
                    vals = [(self._cond(r), nxt(r, idx)) for r in self.nexts]
                except Unsupported:
                    bad = True
                    break
                e = vals[-1][1]
                for cd, v in reversed(vals[:-1]):
                    e = z3.If(ex(cd, T.B), v, e)
                if any(T.contains_quantifier(x) for x in (i0, e)):
                    bad = True
                    break
                tt.append((i0, e))
            if bad:
                del info[loc]
                continue
            terms[loc] = tt
        for loc in info:
            d = set()
            ok = True
            for i0, e in terms[loc]:
                for nm in self.signames:
                    if sigma_in(e, {nm}):
                        o = owner.get(nm, owner.get(nm[:-1] if nm.endswith('i') else nm))
                        if o is None or o not in info:
                            ok = False
                        else:
                            d.add(o)
            deps[loc] = d if ok else None
        # smallest closed set of locations
        best = None
        for loc in info:
            cl, st, ok = set(), [loc], True
            while st:
                x = st.pop()
                if x in cl:
                    continue
                cl.add(x)
                if deps.get(x) is None:
                    ok = False
                    break
                st.extend(deps[x])
            if ok and (best is None or len(cl) < len(best)):
                best = cl
        if not best:
            return False
        order = [l for l in self._loc_order() if l in best]
        if len(order) != len(best):
            return False
        level = 1 + max([0] + [T.state_level(e) for l in order for t in terms[l] for e in t])
        names, flat = {}, []
        for l in order:
            for (nm, rank, sort, _, _), t in zip(info[l][0], terms[l]):
                f = z3.Function(f'!st{level}_{len(flat)}_{rank}_{sort}', *([T.Z] * max(rank, 1) + [sort]))
                names[nm] = (lambda ch, f=f, rank=rank: f(*(ch if rank else [z3.IntVal(0)])))
                flat.append((l, nm, rank, sort, t))
        try:
            bodies = []
            for l, nm, rank, sort, (i0, e) in flat:
                for x in (i0, T.rename_funs(e, names)):
                    bodies.append(T.pterm(T.pnorm(x)) if sort == T.R else T.renorm(x) if sort == T.B else z3.simplify(x, som=True))
        except Unsupported:
            return False
        bound = [self.k] + vs

        def fun(i, sort):
            makers = {}

            def F(at, idx):
                if len(idx) not in makers:
                    makers[len(idx)] = T.binder_maker(f'iter{i}', bound, bodies, [T.Z] * (1 + len(idx)), sort)
                return makers[len(idx)]([z3.simplify(ex(at, T.Z), som=True)] + [ex(x, T.Z) for x in idx])
            return F
        pos = 0
        for l in order:
            comps, build = info[l]
            F = []
            for c in comps:
                F.append(self._with_init(fun(pos, c[2]), c))
                pos += 1
            self.known[l] = build(F)
            self.iterated = True
        # the others may have closed forms now
        self.opaque = {l for l in self.opaque if l not in self.known and False}
        for l in list(self.cands):
            if l not in self.known:
                pass
        return True

    def _with_init(self, F, comp):
        ini = comp[3]

        def G(at, idx):
            if isconc(at):
                if at == 0:
                    return ini(tuple(idx))
                return F(at, idx)
            return F(at, idx)
        return G

    def _loc_order(self):
        out = [(self, 'local', x) for x in self.names]
        for i, o in self.snap.objs.items():
            t = type(o)
            if t is Store:
                out.append((self, 'store', i))
            elif t is SList:
                out.append((self, 'list', i))
            elif is_inst(o):
                ks = sorted({l[3] for l in self.opaque if l[1] == 'attr' and l[2] == i})
                out += [(self, 'attr', i, k) for k in ks]
        return out

    def _init_known(self, loc):
        kind = loc[1]
        if kind == 'store':
            f = self.snap.saved[loc[2]][0]
            self.known[loc] = lambda at, idx: f(idx)
        elif kind == 'list':
            s = self.snap.saved[loc[2]]
            self.known[loc] = lambda at: s
        elif kind == 'attr':
            v = self.snap.saved[loc[2]].get(loc[3], UNBOUND)
            self.known[loc] = lambda at: v
        else:
            v = self.L0[loc[2]]
            self.known[loc] = lambda at: v if v is not UNBOUND else Undef('unbound')

    def _getter(self, loc):
        if loc[1] == 'local':
            return (lambda r: r.locals[loc[2]]), self.L0[loc[2]]
        init = self.snap.saved[loc[2]].get(loc[3], UNBOUND)
        return (lambda r: r.attrs[loc] if loc in r.attrs else Carried(loc)), init

    def _is_unchanged(self, loc, v):
        return type(v) is Carried and object.__getattribute__(v, '_loc') == loc

    def _extend_cands(self, loc, nexts):
        if loc[1] in ('store', 'list'):
            return False
        get, init = self._getter(loc)
        cs = self.cands.setdefault(loc, {})
        grew = False
        for r in nexts:
            v = get(r)
            if type(v) in (Carried, Undef) or v is UNBOUND:
                continue
            s = self._tsig(v)
            if s[0] == 'obj' and s not in cs and not isinstance(v, (str, type(None))) and not _enumlike(v):
                if is_inst(v):
                    raise Unsupported('loop-carried object ' + str(loc[1:]))
            old = cs.get(s)
            if old is None:
                cs[s] = [v]
                grew = True
                continue
            if s[0] in ('matrix', 'arr'):
                a = v.data if is_matrix(v) else v
                b = old[0].data if is_matrix(old[0]) else old[0]
                for d, (x, y) in enumerate(zip(a.shape, b.shape)):
                    if self.widen.get((loc, d)):
                        continue
                    if not same(x, y) and not self._dim_inv(r, x, y):
                        self.widen[(loc, d)] = True
                        grew = True
                if a.store.dt == 'c' and b.store.dt != 'c':
                    cs[s].append(v)
                    grew = True
            elif s[0] == 'num':
                ra = isinstance(v, (float, np.floating)) or (isinstance(v, Sym) and v.e.sort() == T.R)
                rb = any(isinstance(o, (float, np.floating)) or (isinstance(o, Sym) and o.e.sort() == T.R) for o in old)
                if ra and not rb:
                    cs[s].append(v)
                    grew = True
        return grew

    def _dim_inv(self, r, x, y):
        s = z3.Solver()
        s.set('timeout', 500)
        for h in ctx().hyps() + r.conds + r.defs:
            s.add(h)
        s.add(ex(x, T.Z) != ex(y, T.Z))
        return s.check() == z3.unsat

    def _solve_loc(self, loc, nexts):
        kind = loc[1]
        if kind == 'store':
            return self._solve_store(loc, nexts)
        if kind == 'list':
            return self._solve_list(loc, nexts)
        if kind == 'other':
            raise Unsupported('loop modifies a native container')
        get, init = self._getter(loc)
        if loc not in self.carried:
            return None
        vals = [get(r) for r in nexts]
        if any(type(v) is Undef or v is UNBOUND for v in vals):
            return None
        if all(self._entry_same(loc, v) for v in vals):
            return (lambda at: init)
        if init is UNBOUND:
            return None
        if all(T.is_num(v) for v in vals) and T.is_num(init):
            alts = [(self._cond(r), get(r)) for r in nexts]
            if any(self._has(c) for c, _ in alts if not isconc(c)) and len(alts) > 1:
                m = merge_vals(alts)
            else:
                m = merge_vals(alts)
            if type(m) is Undef:
                return None
            sg = None
            for key, s in self.sig.items():
                if key[0] == loc and isinstance(s, z3.ExprRef):
                    sg = s
            if not self._has(m):
                k1 = lambda at: [(self.k, z3.simplify(ex(at, T.Z) - 1))]
                return lambda at: ite(compare('==', at, 0), init, T.subst_val(m, k1(at)))
            if sg is None:
                return None
            if sigma_in(ex(m), {sg.decl().name()}) and not T.contains(ex(m), {self.k.get_id()}) and not self._other_sigmas(ex(m), sg):
                # settled after one iteration, as a running maximum over a constant
                step = lambda v: T.subst_val(m, [(sg, ex(v, sg.sort()))])
                one = step(init)
                if sg.sort() == ex(one).sort() and ctx().implied(ex(step(one)) == ex(one)):
                    return lambda at: ite(compare('==', at, 0), init, one)
            isint = not (isinstance(m, Sym) and m.e.sort() == T.R or isinstance(init, (float, np.floating)) or (isinstance(init, Sym) and init.e.sort() == T.R))
            if isint:
                d = val(z3.simplify(ex(m, T.Z) - (sg if sg.sort() == T.Z else z3.ToInt(sg)), som=True), int)
                if isconc(d) or not sigma_in(d.e, self.signames) and not T.contains(d.e, {self.k.get_id()}):
                    return lambda at: arith('+', init, arith('*', at, d))
                return None
            if sg.sort() != T.R:
                return None
            d = T.pterm(T.pnorm(ex(m, T.R) - sg))
            if not sigma_in(d, self.signames):
                dv = Sym(d, np.float64)
                fl = (lambda v: v if isinstance(v, (float, np.floating)) or (isinstance(v, Sym) and v.e.sort() == T.R) else (np.float64(v) if isconc(v) else Sym(ex(v, T.R))))
                return lambda at: arith('+', fl(init), mk_sum(at, lambda j: T.subst_val(dv, [(self.k, ex(j, T.Z))])))
            return None
        # arrays and matrices
        if all(is_matrix(v) or type(v) is SArr for v in vals) and (is_matrix(init) or type(init) is SArr):
            m = merge_vals([(self._cond(r), get(r)) for r in nexts])
            if type(m) is Undef:
                return None
            a = m.data if is_matrix(m) else m
            b = init.data if is_matrix(init) else init
            if type(a) is not SArr or len(a.shape) != len(b.shape):
                return None
            if any(isinstance(d, Sym) and (sigma_in(d.e, self.signames) or T.contains(d.e, {self.k.get_id()})) for d in a.shape):
                return None
            if not all(same(x, y) or self._dim_inv(nexts[0], x, y) for x, y in zip(a.shape, b.shape)):
                return None
            vs = [T.fresh_int('e') for _ in a.shape]
            av = a.at(*[Sym(v, int) for v in vs])
            if isinstance(av, CPair):
                return None
            if not self._has(av):
                g0, g1 = b.frozen(), a.frozen()
                wrap = (lambda s: clone_matrix(init, s)) if is_matrix(init) else (lambda s: s)
                return lambda at: wrap(SArr.new(b.shape, lambda idx: ite(compare('==', at, 0), g0(*idx), gsub(lambda i: g1(*i), idx, [(self.k, z3.simplify(ex(at, T.Z) - 1))])), a.store.dt))
            nm = self.sig.get((loc, 'name'))
            if nm is None:
                return None
            f = z3.Function(nm, *([T.Z] * len(vs) + [T.R]))
            d = T.pterm(T.pnorm(ex(av, T.R) - f(*vs)))
            if sigma_in(d, self.signames):
                return None
            g0 = b.frozen()

            def content(at, idx):
                s = mk_sum(at, lambda j: Sym(z3.substitute(d, *([(v, ex(i, T.Z)) for v, i in zip(vs, idx)] + [(self.k, ex(j, T.Z))])), np.float64))
                return arith('+', g0(*idx), s)
            wrap = (lambda s: clone_matrix(init, s)) if is_matrix(init) else (lambda s: s)
            return lambda at: wrap(SArr.new(b.shape, lambda idx: content(at, idx)))
        return None

    def _solve_growth(self, loc, nexts):
        """An array that keeps what it has and gets c more slices along one axis in every iteration."""
        get, init = self._getter(loc)
        axes = [d for d in range(4) if self.widen.get((loc, d))]
        cs = self.cands.get(loc, {})
        if init is UNBOUND or len(axes) != 1 or len(cs) != 1:
            return None
        vals = [get(r) for r in nexts]
        if not all(is_matrix(v) or type(v) is SArr for v in vals) or not (is_matrix(init) or type(init) is SArr):
            return None
        ax, sig = axes[0], next(iter(cs))
        D = self.sig.get((loc, sig, 'dim', ax))
        nm = self.sig.get((loc, 'name'))
        if D is None or nm is None:
            return None
        m = merge_vals([(self._cond(r), get(r)) for r in nexts])
        if type(m) is Undef:
            return None
        a = m.data if is_matrix(m) else m
        b = init.data if is_matrix(init) else init
        if type(a) is not SArr or len(a.shape) != len(b.shape) or a.store.dt not in 'fi' or a.store.dt != b.store.dt:
            return None
        c = z3.simplify(ex(a.shape[ax], T.Z) - D, som=True)
        if not z3.is_int_value(c) or c.as_long() < 1:
            return None
        c = c.as_long()
        for d, (x, y) in enumerate(zip(a.shape, b.shape)):
            if d != ax and not (same(x, y) or self._dim_inv(nexts[0], x, y)):
                return None
        sort = T.R if a.store.dt == 'f' else T.Z
        vs = [T.fresh_int('e') for _ in a.shape]
        at_ = lambda idx: ex(a.at(*[Sym(v, int) for v in idx]), sort)
        rng = z3.And(*[z3.And(v >= 0, v < ex(x, T.Z)) for d, (v, x) in enumerate(zip(vs, b.shape)) if d != ax])
        old = z3.Function(nm, *([T.Z] * len(vs) + [sort]))(*vs)
        s = z3.Solver()
        s.set('timeout', 1000)
        for h in ctx().hyps() + nexts[0].defs:
            if not T.contains_quantifier(h):
                s.add(h)
        s.add(self.k >= 0, rng, vs[ax] >= 0, vs[ax] < D, at_(vs) != old)
        if s.check() != z3.unsat:
            return None
        news = []
        for q in range(c):
            t = at_([D + q if d == ax else v for d, v in enumerate(vs)])
            t = z3.simplify(t, som=True)
            if sigma_in(t, self.signames):
                return None
            news.append(Sym(t, np.float64 if sort == T.R else int))
        n0, g0 = b.shape[ax], b.frozen()

        def cell(idx):
            off = arith('-', idx[ax], n0)
            j, r = (off, 0) if c == 1 else (arith('//', off, c), arith('%', off, c))
            pick = [T.subst_val(x, [(v, ex(i, T.Z)) for d, (v, i) in enumerate(zip(vs, idx)) if d != ax] + [(self.k, ex(j, T.Z))]) for x in news]
            x = pick[-1]
            for q in range(c - 2, -1, -1):
                x = ite(compare('==', r, q), pick[q], x)
            return ite(compare('<', idx[ax], n0), g0(*idx), x)
        wrap = (lambda y: clone_matrix(init, y)) if is_matrix(init) else (lambda y: y)
        return lambda at: wrap(SArr.new([arith('+', n0, arith('*', at, c)) if d == ax else x for d, x in enumerate(b.shape)], cell, a.store.dt))

    def _entry_same(self, loc, v):
        if self._is_unchanged(loc, v):
            return True
        for (key, s) in self.sig.items():
            if key[0] == loc and isinstance(s, z3.ExprRef) and isinstance(v, Sym) and v.e.eq(s):
                return True
        return False

    def _solve_list_sets(self, loc, nexts):
        """Every iteration assigns the element with its own number (and nothing else)."""
        init = self.snap.saved[loc[2]]
        vs = []
        for r in nexts:
            segs = r.lists.get(loc)
            if not segs or segs[0].kind != 'carried' or len(segs) != 2 or segs[1].kind != 'set':
                return None
            if not same(segs[1].n, Sym(self.k, int)):
                return None
            vs.append((self._cond(r), segs[1].items[0]))
        m = merge_vals(vs)
        if type(m) is Undef or self._has(m) or (len(vs) > 1 and any(self._has(c) for c, _ in vs if not isconc(c))):
            return None
        base = SList()
        base.segs = pyb.fixed(init)
        n = base.length()
        return lambda at: (Seg('tmpl', at, lambda j: subst_obj(m, [(self.k, ex(j, T.Z))])),
                           Seg('tmpl', arith('-', n, at), lambda j: base.at(arith('+', at, j))))

    def _solve_list(self, loc, nexts):
        init = self.snap.saved[loc[2]]
        if any(len(r.lists.get(loc, ())) > 1 and r.lists[loc][1].kind == 'set' for r in nexts):
            return self._solve_list_sets(loc, nexts)
        apps = []
        for r in nexts:
            segs = r.lists.get(loc)
            if segs is None:
                apps.append([])
                continue
            if not segs or segs[0].kind != 'carried':
                return None
            rest = segs[1:]
            if len(rest) > 1 or any(s.kind != 'items' for s in rest):
                if len(rest) == 1 and rest[0].kind in ('tmpl', 'filt') and len(nexts) == 1 and isinstance(rest[0].n, Sym) \
                        and not T.contains(rest[0].n.e, {self.k.get_id()}) and not sigma_in(rest[0].n.e, self.signames):
                    m, fn = rest[0].n, rest[0].fn
                    if not ctx().implied(ex(m, T.Z) > 0):
                        return None
                    q0 = Sym(T.fresh_int('q'), int)
                    if self._has(fn(q0)):
                        return None
                    if rest[0].kind == 'filt':
                        # what each iteration keeps of its m candidates, one after the other: a selection among all candidates
                        pred = rest[0].pred
                        if self._has(pred(q0)):
                            return None
                        both = lambda f: lambda q: gsub_obj(f, arith('%', q, m), [(self.k, ex(arith('//', q, m), T.Z))])
                        return lambda at: init + (Seg('filt', arith('*', at, m), both(fn), both(pred)),)
                    return lambda at: init + (Seg('tmpl', arith('*', at, m), lambda q: gsub_obj(fn, arith('%', q, m), [(self.k, ex(arith('//', q, m), T.Z))])),)
                return None
            apps.append(list(rest[0].items) if rest else [])
        cnts = {len(a) for a in apps}
        conds = [self._cond(r) for r in nexts]
        if any(self._has(c) for c in conds if not isconc(c)) and len(conds) > 1:
            return None
        sub = lambda v, j: subst_obj(v, [(self.k, ex(j, T.Z))])
        if len(cnts) == 1:
            c = cnts.pop()
            if c == 0:
                return lambda at: init
            ms = [merge_vals([(cd, a[q]) for cd, a in zip(conds, apps)]) for q in range(c)]
            if any(type(m) is Undef for m in ms):
                return None
            if any(self._has(m) for m in ms):
                return None
            if c == 1:
                return lambda at: init + (Seg('tmpl', at, lambda j: sub(ms[0], j)),)

            def item(q):
                j, r = arith('//', q, c), arith('%', q, c)
                vs = [sub(m, j) for m in ms]
                if isconc(r):
                    return vs[r]
                return merge_vals([(compare('==', r, i), v) for i, v in enumerate(vs)])
            return lambda at: init + (Seg('tmpl', arith('*', at, c), item),)
        if cnts == {0, 1}:
            yes = [(cd, a[0]) for cd, a in zip(conds, apps) if a]
            m = merge_vals(yes)
            p = lor(*[cd for cd, a in zip(conds, apps) if a])
            if type(m) is Undef:
                return None
            step = _every(ex(p, T.B), self.k)
            if step is not None:
                c, off = step
                count = lambda at: arith('//', arith('+', at, c - 1 - off), c)
                return lambda at: init + (Seg('tmpl', count(at), lambda j: sub(m, arith('+', arith('*', j, c), off))),)
            return lambda at: init + (Seg('filt', at, lambda j: sub(m, j), lambda j: T.subst_val(p, [(self.k, ex(j, T.Z))])),)
        return None

    def _solve_store(self, loc, nexts):
        o = self.snap.objs[loc[2]]
        init = self.snap.saved[loc[2]][0]
        nd = len(o.shape)
        vs = [T.fresh_int('c') for _ in range(nd)]
        svs = tuple(Sym(v, int) for v in vs)
        writes = []
        for r in nexts:
            cd = self._cond(r)
            for h, v in r.stores.get(loc, []):
                writes.append((cd, h, v, r))
        if not writes:
            self.region[loc] = (lambda at, idx: False), None
            return lambda at, idx: init(idx)
        nm = self.sig.get((loc, 'name'))
        dep = False
        for cd, h, v, r in writes:
            ts = vterms(cd) + vterms(h(svs)) + vterms(v(svs))
            if any(sigma_in(t, self.signames) for t in ts):
                dep = True
        if dep:
            if nm is None or loc in self.freshread:
                return None
            if self._other_sigma(writes, svs, nm):
                return None
            # (b) reads only touch cells that no earlier iteration wrote?
            if self._fresh_reads(loc, nexts, writes, nm, svs, vs):
                self.freshread.add(loc)
                return None
            # (a) accumulation
            cur = z3.Function(nm, *([T.Z] * nd + [T.R]))(*vs)
            if o.dt != 'f':
                return None
            new = Sym(cur, np.float64)
            # sequential composition of the writes per path
            alts = []
            for r in nexts:
                x = Sym(cur, np.float64)
                for h, v in r.stores.get(loc, []):
                    x = ite(h(svs), v(svs), x)
                alts.append((self._cond(r), x))
            m = merge_vals(alts)
            d = T.pterm(T.pnorm(ex(m, T.R) - cur))
            if sigma_in(d, self.signames):
                return None
            return lambda at, idx: arith('+', init(idx), mk_sum(at, lambda j: Sym(z3.substitute(d, *([(v, ex(i, T.Z)) for v, i in zip(vs, idx)] + [(self.k, ex(j, T.Z))])), np.float64)))
        # no dependence on earlier iterations: last writer wins
        for cd, h, v, r in writes:
            if self._writers(cd, h(svs)) is None:
                return None

        def scan(at, idx):
            """(written?, value if written)"""
            hit, bestv, bestk = False, None, None
            for cd, h, v, r in writes:
                bad = any(isinstance(i, Sym) and T.contains(i.e, {self.k.get_id()}) for i in idx)
                gi = tuple(Sym(T.fresh_int('g'), int) for _ in idx) if bad else idx
                back = [(g.e, ex(i, T.Z)) for g, i in zip(gi, idx)] if bad else []
                hh = h(gi)
                if hh is False:
                    continue
                ws = self._writers(cd, hh)
                if ws is None:
                    raise Unsupported('writer iteration not determined')
                for only, kw in ws:
                    kt = arith('-', at, 1) if isinstance(kw, str) else T.subst_val(val(kw, int), back)
                    pr = [(self.k, ex(kt, T.Z))] + back
                    valid = land(compare('>=', kt, 0), compare('<', kt, at), T.subst_val(hh, pr), T.subst_val(cd, pr), T.subst_val(only, pr))
                    if valid is False:
                        continue
                    vv = T.subst_val(v(gi), pr)
                    if bestv is None:
                        hit, bestv, bestk = valid, vv, ite(valid, kt, -1)
                    else:
                        take = land(valid, compare('>=', kt, bestk))
                        hit, bestv, bestk = lor(hit, valid), ite(take, vv, bestv), ite(take, kt, bestk)
            return hit, bestv

        def content(at, idx):
            hit, v = scan(at, idx)
            return init(idx) if v is None else ite(hit, v, init(idx))
        self.region[loc] = (lambda at, idx: scan(at, idx)[0]), (lambda at, idx: scan(at, idx)[1])
        return content

    def _other_sigmas(self, e, sg):
        return sigma_in(e, self.signames - {sg.decl().name()})

    def _other_sigma(self, writes, svs, nm):
        others = self.signames - {nm, nm + 'i'}
        for cd, h, v, r in writes:
            if any(sigma_in(t, others) for t in vterms(cd) + vterms(h(svs)) + vterms(v(svs))):
                return True
        return False

    def _fresh_reads(self, loc, nexts, writes, nm, svs, vs):
        apps = {}

        def add(t, cd, hit, r):
            a = find_apps(t, nm)
            a2 = find_apps(t, nm + 'i')
            if a is None or a2 is None:
                return False
            for x in a + a2:
                apps[(x.get_id(), id(r), id(hit))] = (x, cd, hit, r)
            return True
        for cd, h, v, r in writes:
            hs = h(svs)
            for t in vterms(cd) + vterms(hs) + vterms(v(svs)):
                if not add(t, cd, hs, r):
                    return False
        for r in self.allrs:
            for t in r.conds + r.defs:
                if not add(t, True, True, r):
                    return False
            vals = [v for v in r.locals.values()] + list(r.attrs.values())
            for l, w in r.stores.items():
                if l == loc:
                    continue
                o2 = self.snap.objs[l[2]]
                q = tuple(Sym(T.fresh_int('c'), int) for _ in o2.shape)
                for h, v in w:
                    hq = h(q)
                    if hq is False:
                        continue
                    for t in vterms(hq) + vterms(v(q)):
                        if not add(t, True, hq, r):
                            return False
            for l, segs in r.lists.items():
                for sg in segs:
                    if sg.kind == 'items':
                        vals += list(sg.items)
                    elif sg.kind != 'carried':
                        return False
            for v in vals:
                if is_matrix(v):
                    v = v.data
                if type(v) in (Carried, Undef, Poison) or v is UNBOUND or v is None or isinstance(v, (str, tuple)):
                    continue
                if type(v) is SArr:
                    q = tuple(Sym(T.fresh_int('c'), int) for _ in v.shape)
                    hq = land(*[land(compare('>=', x, 0), compare('<', x, d)) for x, d in zip(q, v.shape)])
                    for t in vterms(v.at(*q)):
                        if not add(t, True, hq, r):
                            return False
                for t in vterms(v):
                    if not add(t, True, True, r):
                        return False
        j = T.fresh_int('j')
        for x, cd, hit, r in apps.values():
            tgt = tuple(val(c, int) for c in x.children())
            for cd2, h2, v2, r2 in writes:
                hj = h2(svs)
                s = z3.Solver()
                s.set('timeout', 1500)
                for q in ctx().hyps() + r.conds + r.defs:
                    s.add(q)
                if isinstance(hit, Sym): s.add(hit.e)
                elif not hit: continue
                s.add(j >= 0, j < self.k)
                if isinstance(hj, Sym):
                    s.add(T.subst(hj.e, [(self.k, j)] + [(a, ex(b, T.Z)) for a, b in zip(vs, tgt)]))
                elif not hj:
                    continue
                if isinstance(cd2, Sym):
                    s.add(T.subst(cd2.e, [(self.k, j)]))
                if s.check() != z3.unsat:
                    return False
        return True

    def _writers(self, cd, hit):
        """[(condition, iteration)]: under the condition the cell is written by that iteration; None if not determined."""
        w = self._writer(cd, hit)
        if w is not None:
            return [(True, w)]
        conj = []
        for t in (hit, cd):
            if isinstance(t, Sym):
                conj += flatten(t.e)
        for c in conj:
            if z3.is_or(c) and c.num_args() <= 6:
                xs = [self._det(flatten(d)) for d in c.children()]
                if all(x is not None for x in xs):
                    return [(Sym(d, bool), x) for d, x in zip(c.children(), xs)]
        return None

    def _writer(self, cd, hit):
        """Iteration that performs a write of the given cell: z3 term, 'last', or None."""
        conj = []
        for t in (hit, cd):
            if isinstance(t, Sym):
                conj += flatten(t.e)
        x = self._det(conj)
        if x is not None:
            return x
        if not any(T.contains(c, {self.k.get_id()}) for c in conj):
            return 'last'
        return None

    def _det(self, conj):
        for c in conj:
            x = T.solve_eq(c, self.k)
            if x is not None:
                return x
        for c in conj:
            if z3.is_or(c):
                xs = [self._det(flatten(d)) for d in c.children()]
                if all(x is not None and x.eq(xs[0]) for x in xs) and xs:
                    return xs[0]
        return None

    # ---------------------------------------------------------------- after the loop
    def _export_defs(self, rs):
        c = ctx()
        seen = set()
        for r in rs:
            has_sk = bool(r.pairs)
            for d in r.defs:
                if d.get_id() in seen:
                    continue
                seen.add(d.get_id())
                if T.contains(d, {self.k.get_id()}):
                    if sigma_in(d, self.signames):
                        continue
                    rng = z3.And(self.k >= 0, self.k < ex(self.n, T.Z)) if not self.is_while else self.k >= 0
                    cd = boolterm([x for x in r.conds if not self._is_range(x)])
                    if isinstance(cd, Sym) and sigma_in(cd.e, self.signames):
                        continue
                    body = z3.Implies(z3.And(rng, ex(cd, T.B)), d) if not isconc(cd) else z3.Implies(rng, d)
                    c.assume(z3.ForAll([self.k], body), 'def')
                elif not sigma_in(d, self.signames):
                    c.assume(d, 'def')

    def _exitcond(self, r, drop_first=False):
        cs = [(x, t) for x, t in zip(r.conds, r.tags) if not self._is_range(x)]
        if drop_first and cs and cs[-1][1] == 'first':
            cs = cs[:-1]
        return [x for x, _ in cs]

    def _no_exit(self, exits, upto, insts, tag='c'):
        c = ctx()
        for r in exits:
            cs = self._exitcond(r, True)
            if any(sigma_in(x, self.signames) for x in cs):
                c.top.abstract = True
                continue
            body = z3.And(*cs) if cs else z3.BoolVal(True)
            qs = [self.k]
            # skolem functions at j become universally quantified
            back = []
            for s, f in r.pairs:
                if T.contains(body, set()) or f.decl().name() in _names(body):
                    q = z3.Const(s.decl().name() + '_q', s.sort())
                    qs.append(q)
                    back.append((f, q))
            nb = z3.Not(z3.substitute(body, *back) if back else body)
            rng = z3.And(self.k >= 0, self.k < upto)
            c.assume(z3.ForAll(qs, z3.Implies(rng, nb)), tag)
            if not back:
                for t in [z3.IntVal(0), z3.simplify(upto - 1)]:
                    c.assume(z3.Implies(upto > 0, z3.substitute(nb, (self.k, t))), 'def')

    def _needs_zero(self, r):
        """Does the state at an exit differ between the first and a later iteration in a way no closed form covers?"""
        for loc in self.mod:
            if loc[1] == 'attr' and loc not in self.known:
                return True
        for x in self.names:
            loc = (self, 'local', x)
            if loc in self.known:
                continue
            get, init = self._getter(loc)
            vals = [get(q) for q in self.nexts]
            if all(self._is_unchanged(loc, v) for v in vals) and loc not in self.opaque:
                continue
            if loc in self.cands or loc in self.opaque:
                return True
            v = get(r)
            if r.kind != 'return' and self._is_unchanged(loc, v):
                return True
            if type(v) is Carried or any(type(v) is Carried for v in vals):
                return True
        return False

    def _first_exit(self, exits):
        """The number of the first iteration that leaves the loop, as a function of what the exit conditions depend on."""
        bodies = []
        for r in exits:
            cs = self._exitcond(r, True)
            bodies.append(z3.And(*cs) if cs else z3.BoolVal(True))
        if any(sigma_in(b, self.signames) or T.contains_quantifier(b) for b in bodies):
            return ctx().fresh('x')
        bodies = [T.renorm(b) for b in bodies]
        if FIRST:
            return T.mk_binder('first', [self.k], bodies, [] if self.is_while else [z3.simplify(ex(self.n, T.Z), som=True)], T.Z)
        x = ctx().fresh('x')
        ctx().assume(x == T.mk_binder('first', [self.k], bodies, [] if self.is_while else [z3.simplify(ex(self.n, T.Z), som=True)], T.Z), 'def')
        return x

    def _exit_at(self, exits, w):
        c = ctx()
        r = exits[w]
        k0 = self._first_exit(exits)
        c.assume(k0 >= 0)
        if not self.is_while:
            c.assume(k0 < ex(self.n, T.Z), 'c')
        for x in self._exitcond(r) + r.defs:
            # skolem functions at k0: fresh constants, unless the body will recreate them
            if r.pairs and any(f.decl().name() in _names(x) for _, f in r.pairs):
                continue
            c.assume(z3.substitute(x, (self.k, k0)))
        self._no_exit(exits, k0, [], 'first')
        if c._ask(z3.BoolVal(False))[0]:
            raise Infeasible()
        at = Sym(k0, int)
        if self.nexts:
            if self.is_while or self._needs_zero(r):
                zero = c.branch(k0 == 0)
            else:
                zero = False
        else:
            zero = True
            c.assume(k0 == 0)
        self._finish(at, first=zero, live=True)
        self.cur = dict(self.outvals)
        self.live_vals = self.outvals
        self.mode = 'live'
        self.at = at
        self.setup = lambda: self.live_vals
        yield (self.item(at) if not self.is_while else None)

    def _finish(self, at, first, live=False):
        """Heap and locals as they are before iteration `at` (after `at` complete iterations)."""
        self.snap.restore()
        prev = val(z3.simplify(ex(at, T.Z) - 1), int)
        sub = [(self.k, ex(prev, T.Z))]
        out = {}

        def last(loc, get, init, cur):
            if first:
                return init
            if loc in self.known:
                return self.known[loc](at)
            vals = [get(r) for r in self.nexts]
            if all(self._is_unchanged(loc, v) for v in vals) and loc not in self.opaque:
                return init
            m = merge_vals([(self._cond(r), v) for r, v in zip(self.nexts, vals)])
            if type(m) is Undef or m is UNBOUND or type(m) is Carried:
                if loc in self.cands:
                    return self._generic(loc, init)
                # different kinds on different paths: pick one
                w = ctx().choose(len(vals))
                m = vals[w]
                if type(m) in (Undef,) or m is UNBOUND:
                    return Undef('value differs between paths of a loop body')
                if type(m) is Carried:
                    ctx().top.abstract = True
                    return init if init is not UNBOUND else Undef('unbound')
                cd = self._cond(self.nexts[w])
                if isinstance(cd, Sym):
                    ctx().assume(T.subst(cd.e, sub))
            return subst_obj(m, sub)
        for loc in self.mod:
            kind, o = loc[1], self.snap.objs[loc[2]]
            if kind == 'store':
                if first:
                    continue
                if loc in self.known:
                    o.setfn(lambda idx, f=self.known[loc]: f(at, idx))
                elif loc in self.opaque:
                    nm = f'!op{next(T._fresh)}'
                    o.setfn(_opaque_fn(o, nm))
                else:
                    raise Unsupported('array state after loop')
                rg = self.region.get(loc) if loc in self.known else None
                if rg is None:
                    ent = [((lambda idx: True), (lambda idx, f=o.fn: f(idx)))]
                elif rg[1] is None:
                    ent = []
                else:
                    ent = [((lambda idx, f=rg[0]: f(at, idx)), (lambda idx, f=rg[1]: f(at, idx)))]
                o.wlog = self.snap.saved[loc[2]][1] + ent
            elif kind == 'list':
                if not first:
                    if loc not in self.known:
                        raise Unsupported('list state after loop')
                    o.segs = self.known[loc](at)
            elif kind == 'attr':
                get, init = self._getter(loc)
                v = last(loc, get, init, None)
                if v is UNBOUND:
                    o.__dict__.pop(loc[3], None)
                else:
                    o.__dict__[loc[3]] = v
        for x in self.names:
            loc = (self, 'local', x)
            get, init = self._getter(loc)
            v = last(loc, get, init, None)
            out[x] = v if v is not UNBOUND else Undef(f'unbound local {x}')
        self.outvals = out
        # a store written in the loop counts as written in the surrounding iteration, too
        return out


def _enumlike(v):
    import enum
    return isinstance(v, (enum.Enum, int, float))


def _names(e):
    return {x.decl().name() for x in _apps(e)}


def _apps(e):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body()); continue
        if z3.is_app(x):
            out.append(x)
            st.extend(x.children())
    return out


def _opaque_fn(o, nm):
    n = len(o.shape)
    if o.dt == 'c':
        f1 = z3.Function(nm, *([T.Z] * n + [T.R])); f2 = z3.Function(nm + 'i', *([T.Z] * n + [T.R]))
        return lambda idx: CPair(Sym(f1(*[ex(i, T.Z) for i in idx])), Sym(f2(*[ex(i, T.Z) for i in idx])))
    s = {'f': T.R, 'i': T.Z, 'b': T.B}[o.dt]
    f1 = z3.Function(nm, *([T.Z] * n + [s]))
    return lambda idx: Sym(f1(*[ex(i, T.Z) for i in idx]))


def boolterm(cs):
    if not cs:
        return True
    return Sym(z3.And(*cs) if len(cs) > 1 else cs[0], bool)


def flatten(e):
    if z3.is_and(e):
        return [y for x in e.children() for y in flatten(x)]
    return [e]
