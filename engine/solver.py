"""Discharging obligations: normaliser, z3, binder extensionality, cvc5 as second opinion."""
import subprocess
import tempfile
import time
import os

import z3
from . import terms as T

STATS = {'z3': 0, 'cvc5': 0, 'normaliser': 0, 'z3_time': 0.0, 'cvc5_time': 0.0, 'queries': 0}


def collect_apps(es):
    """All distinct subterms of interest in a list of expressions."""
    seen, out = set(), []
    stack = list(es)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args():
                out.append(x)
                stack.extend(x.children())
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
    return out


_HV = {}


def has_var(e):
    i = e.get_id()
    got = _HV.get(i)
    if got is not None:
        return got[0]
    r = z3.is_var(e) or (not z3.is_quantifier(e) and any(has_var(c) for c in e.children())) or (z3.is_quantifier(e) and has_var(e.body()))
    if len(_HV) > 300000:
        _HV.clear()
    _HV[i] = (r, e)
    return r


def axioms(es):
    """Instances of the trusted facts about the real functions occurring in es."""
    ax = []
    apps = collect_apps(es)
    pows = []
    consts = [x for x in apps if x.num_args() == 0 and x.sort() == T.Z]
    for x in apps:
        d = x.decl()
        if x.num_args() == 0 or has_var(x):
            continue
        if d.eq(T.F_IDIV) or d.eq(T.F_IMOD):
            a, b = x.arg(0), x.arg(1)
            if not (has_var(a) or has_var(b)):
                q, r = T.F_IDIV(a, b), T.F_IMOD(a, b)
                ax.append(z3.Implies(b > 0, z3.And(a == b * q + r, *T.quotient_facts(a, b, q, r))))
        elif d.eq(T.F_SQRT):
            a = x.arg(0)
            ax += [x >= 0, z3.Implies(a >= 0, x * x == a), z3.Implies(a > 0, x > 0)]
        elif d.eq(T.F_ABS):
            a = x.arg(0)
            ax += [x == z3.If(a < 0, -a, a)]
        elif d.eq(T.F_EXP):
            a = x.arg(0)
            ax += [x > 0, T.F_LOG(x) == a]
        elif d.eq(T.F_LOG):
            a = x.arg(0)
            ax += [z3.Implies(a > 0, T.F_EXP(x) == a), z3.Implies(z3.And(a > 0, a != 1), x != 0)]
        elif d.eq(T.F_TANH):
            ax += [x > -1, x < 1]
        elif d.eq(T.F_COS):
            s = T.F_SIN(x.arg(0))
            ax += [x * x + s * s == 1]
        elif d.eq(T.F_SIN):
            s = T.F_COS(x.arg(0))
            ax += [x * x + s * s == 1]
        elif d.eq(T.F_ATAN2):
            y_, x_ = x.arg(0), x.arg(1)
            r = T.F_SQRT(z3.simplify(x_ * x_ + y_ * y_))
            r = T.F_SQRT(T.pterm(T.pnorm(x_ * x_ + y_ * y_)))
            ax += [r * T.F_COS(x) == x_, r * T.F_SIN(x) == y_]
        elif d.eq(T.F_POW):
            pows.append(x)
        else:
            bd = T.binder_of(x)
            if bd is not None:
                if bd.op == 'sum' and x.sort() == T.R and len(bd.bound) == 1 and T.atom_nonneg(x):
                    _, bodies, ext = T.binder_parts(x)
                    ax.append(x >= 0)
                    for c in consts[:8]:
                        ax.append(z3.Implies(z3.And(c >= 0, c < ext[0]), x >= T.subst(bodies[0], [(bd.bound[0], c)])))
    ax += sum_steps(apps)
    for x in pows:
        b, e = x.arg(0), x.arg(1)
        ax += [z3.Implies(e == 0, x == 1), z3.Implies(e == 1, x == b), z3.Implies(b == 1, x == 1)]
    return ax


def first_facts(fs):
    """The first index below the extent with one of the conditions, the extent if there is none."""
    out, general = [], set()
    for x in collect_apps(fs):
        if x.num_args() == 0:
            continue
        bd = T.binder_of(x)
        if bd is None or bd.op != 'first' or len(bd.bound) != 1:
            continue
        free = []
        if has_var(x):
            # inside a quantifier: the definition for all arguments
            if x.decl().name() in general:
                continue
            general.add(x.decl().name())
            free = [z3.FreshConst(y.sort(), 'a') for y in x.children()]
            x = x.decl()(*free)
        _, bodies, ext = T.binder_parts(x)
        if len(ext) != 1:
            continue
        k = bd.bound[0]
        some = z3.Or(*bodies) if len(bodies) > 1 else bodies[0]
        new = [z3.Implies(ext[0] >= 0, z3.And(x >= 0, x <= ext[0])), z3.Implies(z3.And(x >= 0, x < ext[0]), T.subst(some, [(k, x)])),
               z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < x, k < ext[0]), z3.Not(some)))]
        out += [z3.ForAll(free, f, patterns=[x]) for f in new] if free else new
    return out


def sum_steps(apps):
    """A sum over one more element is the sum plus that element."""
    byd, out = {}, []
    for x in apps:
        if x.num_args() and x.sort() == T.R and not has_var(x):
            bd = T.binder_of(x)
            if bd is not None and bd.op == 'sum' and len(bd.bound) == 1:
                byd.setdefault(x.decl().name(), (bd, []))[1].append(x)
    for bd, xs in byd.values():
        if len(xs) > 12:
            continue
        for x in list(xs):
            _, bx, e = T.binder_parts(x)
            one = z3.simplify(e[0] - 1)
            if z3.is_add(e[0]) and not any(T.binder_parts(y)[2][0].eq(one) for y in xs) and not (z3.is_add(one) and any(z3.is_int_value(c) for c in one.children())):
                xs.append(x.decl()(*x.children()[:-1], one))
        parts = [T.binder_parts(x)[1:] for x in xs]
        for x, (bx, ex_) in zip(xs, parts):
            for y, (by, ey) in zip(xs, parts):
                if x is y or not z3.is_int_value(d := z3.simplify(ey[0] - ex_[0])) or d.as_long() != 1:
                    continue
                if all(a.eq(b) for a, b in zip(bx, by)):
                    out.append(z3.Implies(ex_[0] >= 0, y == x + T.subst(bx[0], [(bd.bound[0], ex_[0])])))
    return out


def _solver(timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout))
    return s


def check_sat(fs, timeout=2000, opts=None):
    """'sat'/'unsat'/'unknown' with model."""
    STATS['queries'] += 1
    s = _solver(timeout)
    for k, v in (opts or {}).items():
        s.set(k, v)
    for f in fs:
        s.add(f)
    t = time.time()
    r = s.check()
    STATS['z3_time'] += time.time() - t
    STATS['z3'] += 1
    if r == z3.sat:
        return 'sat', s.model()
    if r == z3.unsat:
        return 'unsat', None
    return 'unknown', None


def cvc5_check(fs, timeout=5):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt.replace('|', '|'))
        p = f.name
    t = time.time()
    try:
        r = subprocess.run(['cvc5', f'--tlimit={int(timeout*1000)}', p], capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split('\n')[0]
    except Exception:
        o = 'unknown'
    finally:
        os.unlink(p)
        STATS['cvc5'] += 1
        STATS['cvc5_time'] += time.time() - t
    return o if o in ('sat', 'unsat') else 'unknown'


def divfree(fs):
    """Quotients and remainders by positive constants written with one quotient constant per dividend class:
    (rewritten formulas, defining facts)."""
    facts, table, memo = [], {}, {}

    def quotient(t, c):
        t = z3.simplify(t, som=True)
        parts = list(t.children()) if z3.is_add(t) else [t]
        out, rest, low = [], [], 0
        for x in parts:
            k = T.const_of(x)
            if k is not None:
                q, low = divmod(int(k), c)
                out.append(z3.IntVal(q))
                continue
            co, y = 1, x
            if z3.is_mul(x) and x.num_args() >= 2 and T.const_of(x.arg(0)) is not None:
                co = int(T.const_of(x.arg(0)))
                ch = x.children()[1:]
                y = ch[0] if len(ch) == 1 else z3.Product(*ch)
            q, r = divmod(co, c)
            if q:
                out.append(q * y)
            if r:
                rest.append(r * y if r != 1 else y)
        if rest:
            t2 = z3.simplify(z3.Sum(*(rest + [z3.IntVal(low)])), som=True)
            key = (t2.get_id(), c)
            if key not in table:
                v = T.fresh_int('quo')
                table[key] = (t2, v)
                facts.extend([c * v <= t2, t2 < c * v + c])
            out.append(table[key][1])
        return z3.Sum(*out) if len(out) > 1 else out[0] if out else z3.IntVal(0)

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i][0]
        r = e
        if z3.is_app(e) and e.num_args() > 0:
            ch = [go(x) for x in e.children()]
            k = e.decl().kind()
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                c = T.const_of(ch[1])
                if c is not None and c > 0 and not has_var(ch[0]):
                    q = quotient(ch[0], int(c))
                    r = q if k == z3.Z3_OP_IDIV else ch[0] - int(c) * q
                else:
                    r = e.decl()(*ch)
            elif any(not a.eq(b) for a, b in zip(ch, e.children())):
                r = e.decl()(*ch)
        memo[i] = (r, e)
        return r
    out = [go(f) for f in fs]
    return out, facts


def has_div(f):
    seen, st = set(), [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen or z3.is_quantifier(x):
            continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            return True
        st.extend(x.children())
    return False


def index_comparisons(e):
    """Equations between two integer constants in the expression."""
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and all(z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.sort() == z3.IntSort() for y in x.children()):
            a, b = x.children()
            if z3.is_const(b) and not T.contains(a, {b.get_id()}):
                yield x, a, b
            elif z3.is_const(a) and not T.contains(b, {a.get_id()}):
                yield x, b, a
        st.extend(x.children())


def chosen_numbers(e):
    """Conditions choosing between two whole numbers inside arguments of uninterpreted functions (the extent of a sum, say)."""
    seen, out, st = set(), [], [(e, False)]
    while st:
        x, inside = st.pop()
        if (x.get_id(), inside) in seen or z3.is_quantifier(x):
            continue
        seen.add((x.get_id(), inside))
        if inside and z3.is_app_of(x, z3.Z3_OP_ITE) and x.sort() == z3.IntSort():
            out.append(x.arg(0))
        app = z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0
        st.extend((y, inside or app) for y in x.children())
    return sorted(out, key=lambda c: len(c.sexpr()))


class Prover:
    def __init__(self, hyps, timeout=6000, use_cvc5=True):
        self.hyps = list(hyps)
        self.timeout = timeout
        self.use_cvc5 = use_cvc5
        self._nz = {}
        self._dec = {}
        self._isolver = None
        self._lits = None
        self._busy = False

    def fixed(self):
        """Integer constants the hypotheses equate with a numeral."""
        out = []
        for h in self.hyps:
            if z3.is_eq(h) and h.arg(0).sort() == T.Z:
                for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                    if z3.is_const(a) and T.const_of(a) is None and T.const_of(b) is not None:
                        out.append((a, b))
                        break
        return out

    def nonzero(self, a):
        i = a.get_id()
        if i not in self._nz:
            self._nz[i] = (a, False)  # guard recursion
            fs = self.hyps + [a == 0]
            try:
                r, _ = check_sat(fs + axioms(fs), 400)
            except z3.Z3Exception:
                r = 'unknown'
            self._nz[i] = (a, r == 'unsat')
        return self._nz[i][1]

    def literals(self):
        """Iverson atoms whose value the hypotheses fix syntactically: atom id -> 0/1."""
        if self._lits is None:
            self._lits = {}
            for h in self.hyps:
                neg = z3.is_not(h)
                c = h.arg(0) if neg else h
                if z3.is_app(c) and c.decl().kind() in T._CMP and c.num_args() == 2 and c.arg(0).sort() == T.R:
                    p = T.pnorm_iverson(c)
                    v = 0 if neg else 1
                    if len(p) == 1:
                        (m, k), = p.items()
                        if k == 1 and len(m) == 1:
                            self._lits[m[0][0]] = (v, T._ATOM[m[0][0]])
                    elif len(p) == 2 and p.get(()) == 1:
                        m, k = [(m, k) for m, k in p.items() if m != ()][0]
                        if k == -1 and len(m) == 1:
                            self._lits[m[0][0]] = (1 - v, T._ATOM[m[0][0]])
        return self._lits

    def decide(self, cond, extra):
        if not T.int_cmp(cond):
            if self._lits is None and not self._busy:
                self._busy = True
                self.literals()
                self._busy = False
                T.clear_norm_cache()
            got = (self._lits or {}).get(z3.If(cond, z3.RealVal(1), z3.RealVal(0)).get_id())
            return None if got is None else bool(got[0])
        key = (cond.get_id(),) + tuple(x.get_id() for x in extra)
        got = self._dec.get(key)
        if got is not None:
            return got[0]
        if self._isolver is None:
            self._isolver = z3.Solver()
            self._isolver.set('timeout', 150)
            for h in self.hyps:
                if _int_only(h):
                    self._isolver.add(h)
        s = self._isolver
        r = None
        s.push()
        for x in extra:
            s.add(x)
        s.push()
        s.add(cond)
        a = s.check()
        s.pop()
        if a == z3.unsat:
            r = False
        else:
            s.add(z3.Not(cond))
            if s.check() == z3.unsat:
                r = True
        s.pop()
        self._dec[key] = (r, cond, extra)
        return r

    def prove(self, goal, depth=2, splits=3):
        """('proved', backend) | ('refuted', model) | ('unknown', reason)"""
        if splits == 3:
            known = {h.get_id() for h in self.hyps}
            self.hyps += [f for f in first_facts(self.hyps + [goal]) if f.get_id() not in known]
            goal = self.settled(goal)
        r = self._prove_whole(goal, depth)
        if r[0] == 'proved' or splits == 0:
            return r
        # two positions compared inside the goal (the diagonal of a matrix): equal and different positions apart, because sums
        # over equal positions are the same only once one is written for the other
        for c, a, b in index_comparisons(goal):
            one = Prover([z3.substitute(h, (b, a)) for h in self.hyps], self.timeout, self.use_cvc5).prove(z3.substitute(goal, (b, a)), depth, splits - 1)
            if one[0] != 'proved':
                return r
            no = z3.BoolVal(False)
            two = Prover(self.hyps + [a != b], self.timeout, self.use_cvc5).prove(z3.substitute(goal, (c, no), (b == a, no)), depth, splits - 1)
            return ('proved', two[1] if one[1] == 'normaliser' else one[1]) if two[0] == 'proved' else r
        cs = chosen_numbers(goal)
        known = [(c, z3.BoolVal(v)) for c in cs for v in [self.decide(c, ())] if v is not None]
        if known:
            goal = z3.simplify(z3.substitute(goal, *known))
            one = self.prove(goal, depth, splits - 1)
            return one if one[0] == 'proved' else r
        for c in cs[:1]:
            for v in (True, False):
                pr = [(c, z3.BoolVal(v))]
                one = Prover([z3.simplify(z3.substitute(h, *pr)) for h in self.hyps] + [c if v else z3.Not(c)], self.timeout, self.use_cvc5) \
                    .prove(z3.simplify(z3.substitute(goal, *pr)), depth, splits - 1)
                if one[0] != 'proved':
                    return r
            return 'proved', one[1]
        return r

    def settled(self, goal):
        """The goal without the choices the hypotheses settle by linear reasoning."""
        cs, seen, st = [], set(), [goal]
        while st and len(cs) < 16:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE) and not T.contains_quantifier(x.arg(0)) and not has_var(x.arg(0)):
                cs.append(x.arg(0))
            st.extend(x.children())
        if not cs:
            return goal
        s = _solver(300)
        s.add(*[h for h in self.hyps if not T.contains_quantifier(h)])
        pr = []
        for c in {c.get_id(): c for c in cs}.values():
            if s.check(z3.Not(c)) == z3.unsat:
                pr.append((c, z3.BoolVal(True)))
            elif s.check(c) == z3.unsat:
                pr.append((c, z3.BoolVal(False)))
        return z3.simplify(z3.substitute(goal, *pr)) if pr else goal

    def _prove_whole(self, goal, depth):
        if any(has_div(f) for f in self.hyps + [goal]):
            fs, facts = divfree(self.hyps + [goal])
            if facts:
                p = Prover(fs[:-1] + facts, self.timeout, self.use_cvc5)
                r = p.prove(fs[-1], depth)
                if r[0] != 'unknown':
                    return r
        return self._prove0(goal, depth)

    def _prove0(self, goal, depth):
        T.clear_norm_cache()
        T._RN.clear()
        old = T.Nonzero.fn
        T.Nonzero.fn = self.nonzero
        oldd = T.Decide.fn
        T.Decide.fn = self.decide
        T._RD.clear()
        try:
            return self._prove(goal, depth)
        except T.Unsupported as e:
            return 'unknown', str(e)
        except z3.Z3Exception as e:
            return 'unknown', 'z3: ' + str(e)[:200]
        finally:
            T.Nonzero.fn = old
            T.Decide.fn = oldd
            T._RD.clear()
            T.clear_norm_cache()
            T._RN.clear()

    def _prove(self, goal, depth):
        g = z3.simplify(goal)
        if z3.is_true(g):
            STATS['normaliser'] += 1
            return 'proved', 'normaliser'
        # conjunctions
        if z3.is_and(g):
            back = 'normaliser'
            for c in g.children():
                r = self._prove(c, depth)
                if r[0] != 'proved':
                    return r
                if r[1] != 'normaliser':
                    back = r[1]
            return 'proved', back
        if z3.is_or(g) and depth > 0:
            # prove one disjunct from the negation of the others
            ch = sorted(g.children(), key=lambda c: (not (z3.is_eq(c) and c.arg(0).sort() == T.R), -len(str(c)) if len(ch_str(c)) < 20000 else 0))
            if z3.is_eq(ch[0]) and ch[0].arg(0).sort() == T.R:
                p = Prover(self.hyps + [z3.Not(c) for c in ch[1:]], self.timeout, self.use_cvc5)
                r = p.prove(ch[0], depth - 1)
                T.Nonzero.fn, T.Decide.fn = self.nonzero, self.decide
                if r[0] == 'proved':
                    return r
        gn = T.renorm(goal)
        gn = z3.simplify(gn)
        if z3.is_true(gn):
            STATS['normaliser'] += 1
            return 'proved', 'normaliser'
        sub = self.fixed()
        if sub:
            goal = T.subst(goal, sub)
            gn = T.renorm(goal)
            if z3.is_true(z3.simplify(gn)):
                STATS['normaliser'] += 1
                return 'proved', 'normaliser'
        gn = T.renorm(goal)
        hy = [T.renorm(T.subst(h, sub)) if sub else T.renorm(h) for h in self.hyps] + [a == b for a, b in sub]
        rf = [T.renorm(r) for r in map(_real_form, self.hyps) if r is not None]
        if rf:
            hy += rf
            if check_sat([h for h in hy if not _quant(h)], 500)[0] == 'unsat':
                return 'proved', 'z3'
        return self._solve(hy, gn, goal, depth)

    def _solve(self, hy, gn, goal, depth):
        base = [_noabs(f) for f in hy + [z3.Not(gn)]]
        ax = axioms(base)
        ax = ax + axioms(ax)
        r, m = check_sat(base + ax, self.timeout)
        if r == 'unsat':
            return 'proved', 'z3'
        # binder extensionality
        ext = []
        if depth > 0:
            ext = self.extensionality(base, depth)
            if ext:
                r2, m2 = check_sat(base + ax + ext, self.timeout)
                if r2 == 'unsat':
                    return 'proved', 'z3'
                r, m = (r2, m2) if r2 != 'unknown' else (r, m)
        if r == 'unknown' and self.use_cvc5:
            o = cvc5_check(base + ax + ext, 4)
            if o == 'unsat':
                return 'proved', 'cvc5'
            if o == 'sat':
                # a candidate model exists; ask z3 without the quantified hypotheses for values
                r3, m3 = check_sat([f for f in base + ax + ext if not _quant(f)], 2000)
                if r3 == 'sat':
                    return 'refuted', m3
        if r == 'sat':
            return 'refuted', m
        if r == 'unknown' and depth > 1:
            for opts in (dict(random_seed=7), {'random_seed': 23, 'arith.solver': 2}):
                r3, m3 = check_sat(base + ax + ext, self.timeout, opts)
                if r3 == 'unsat':
                    return 'proved', 'z3'
                if r3 == 'sat':
                    return 'refuted', m3
        return 'unknown', 'solver gave no answer'

    def extensionality(self, fs, depth):
        apps = [x for x in collect_apps(fs) if T.binder_of(x) is not None and not has_var(x)]
        out = []
        n = 0
        for i in range(len(apps)):
            for j in range(i + 1, len(apps)):
                a, b = apps[i], apps[j]
                ba, bb = T.binder_of(a), T.binder_of(b)
                if ba.op != bb.op or len(ba.bound) != len(bb.bound) or len(ba.bodies) != len(bb.bodies):
                    continue
                if n >= (24 if depth > 1 else 6):
                    return out
                _, xa, ea = T.binder_parts(a)
                _, xb, eb = T.binder_parts(b)
                if len(ea) != len(eb) or any(p.sort() != q.sort() for p, q in zip(ea, eb)):
                    continue
                n += 1
                vs = [T.fresh_int('x') for _ in ba.bound]
                pa = list(zip(ba.bound, vs))
                conds = [p == q for p, q in zip(ea, eb)]
                sub = []
                for p, q in zip(xa, xb):
                    if p.sort() != q.sort():
                        sub = None
                        break
                    sub.append(T.subst(p, pa) == T.subst(q, pa))
                if sub is None:
                    continue
                dom = [v >= 0 for v in vs]
                if ba.op == 'sum':
                    dom += [v < e for v, e in zip(vs, ea)]
                elif ba.op.startswith('arr'):
                    # extents are the leading extra arguments
                    dom += [v < e for v, e in zip(vs, ea)]
                pr = Prover(self.hyps + conds + dom, min(self.timeout, 1500), False)
                pr._nz = {}
                ok = True
                for s in sub:
                    if pr._prove(s, depth - 1)[0] != 'proved':
                        ok = False
                        break
                if ok:
                    out.append(z3.Implies(z3.And(*conds) if conds else z3.BoolVal(True), a == b))
        return out


_IO = {}


def _int_only(f):
    """Quantifier-free formula over integers without nonlinear or uninterpreted real parts."""
    i = f.get_id()
    got = _IO.get(i)
    if got is not None:
        return got[0]
    r = True
    if z3.is_quantifier(f) or f.sort() == T.R:
        r = False
    else:
        r = all(_int_only(c) for c in f.children())
    if len(_IO) > 200000:
        _IO.clear()
    _IO[i] = (r, f)
    return r


def _real_form(h):
    """The literal over reals, when it compares the length of a filtered sequence (the normaliser knows it as a sum)."""
    neg = z3.is_not(h)
    c = h.arg(0) if neg else h
    if not (z3.is_app(c) and c.decl().kind() in T._CMP and c.num_args() == 2 and c.arg(0).sort() == T.Z):
        return None
    if not any(T.filtered(x) is not None for x in c.children()):
        return None
    a, b = T.toreal(c.arg(0)), T.toreal(c.arg(1))
    k = c.decl().kind()
    r = {z3.Z3_OP_EQ: a == b, z3.Z3_OP_LE: a <= b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GT: a > b, z3.Z3_OP_DISTINCT: a != b}[k]
    return z3.Not(r) if neg else r


def ch_str(c):
    return c.sexpr()


def _noabs(f):
    if not _quant(f):
        return f
    v = z3.Var(0, T.R)
    return z3.substitute_funs(f, (T.F_ABS, z3.If(v < 0, -v, v)))


def _quant(f):
    seen, st = set(), [f]
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False
