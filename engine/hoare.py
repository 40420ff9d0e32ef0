"""Verification conditions for small imperative functions over integers and lists, from contracts and loop invariants.

The statements verified are the ones in the source file, read and parsed on every run; nothing is rewritten. Supported: integer, real
and boolean variables, lists (read, written and appended to by index), if / while / for over range or a list, return, break, continue,
calls. A call of a function with a contract is replaced by that contract (its precondition becomes an obligation); a function without
one is executed in place, if it has no loop. Anything else raises Unsupported: the function is then undecided, never assumed.

Obligations are discharged by z3 with quantifiers over array theory. Python's negative indices are excluded by proving every index to
be in range. Numbers: integers are mathematical (as in Python), reals are exact and not NaN."""
import ast
import hashlib
import time

import z3

from .terms import Unsupported


class Fn:
    """Contract of a function: requires(s), ensures(old, s, result), variant(s); loops by order of appearance; which lists it writes."""

    def __init__(self, params, requires=None, ensures=None, variant=None, loops=(), modifies=(), ghosts=(), calls=None, result=None):
        self.params, self.requires, self.ensures, self.variant = params, requires or (lambda s: []), ensures or (lambda o, s, r: []), variant
        self.loops, self.modifies, self.ghosts, self.calls, self.result = list(loops), tuple(modifies), tuple(ghosts), calls or {}, result


class Loop:
    def __init__(self, inv, variant=None, i='i'):
        self.inv, self.variant, self.i = inv, variant, i


class LRef:
    def __init__(self, key, sort):
        self.key, self.sort = key, sort


class LView:
    def __init__(self, arr, n):
        self.arr, self.n = arr, n

    def __getitem__(self, i):
        return self.arr[i]


class View:
    """What a contract sees of a state: its variables by name, lists as views, and the state the function started from (old)."""

    def __init__(self, env, heap, old=None, ghost=None, extra=None):
        self.__dict__['_e'], self.__dict__['_h'], self.__dict__['old'], self.__dict__['ghost'] = env, heap, old, ghost or {}
        self.__dict__.update(extra or {})

    def __getattr__(self, n):
        if n not in self._e:
            raise Unsupported(f'the contract names the variable {n}, which the code does not have there')
        v = self._e[n]
        if isinstance(v, LRef):
            return LView(*self._h[v.key])
        if v is None or isinstance(v, Never):
            raise Unsupported(f'{n} has no value there')
        return v


class Never:
    """A variable assigned nowhere yet, or a loop variable after a loop that may not have run."""


class State:
    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), list(self.pc))


def forall(lo, hi, f, hint='q'):
    """For all integers lo <= i <= hi: f(i)."""
    i = z3.Int(f'{hint}!{forall.n}')
    forall.n += 1
    return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i <= hi), f(i)))


forall.n = 0


def exists(lo, hi, f, hint='x'):
    i = z3.Int(f'{hint}!{forall.n}')
    forall.n += 1
    return z3.Exists([i], z3.And(lo <= i, i <= hi, f(i)))


SORTS = {'int': z3.IntSort, 'real': z3.RealSort, 'bool': z3.BoolSort}


class Verifier:
    def __init__(self, path, module, specs, deadline, timeout=8000):
        self.module, self.specs, self.deadline, self.timeout = module, specs, deadline, timeout
        tree = ast.parse(open(path, encoding='utf-8').read())
        self.funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        self.consts = {}
        self.obl = {}
        self.used, self.done = set(), []
        self.n = 0
        self.checks = 0
        self.solver_s = 0.0

    # ------------------------------------------------------------------------------------------ obligations
    def fresh(self, name, sort):
        self.n += 1
        return z3.Const(f'{name}#{self.n}', sort)

    def oblige(self, name, st, goal):
        rec = self.obl.setdefault(name, dict(paths=0, proved=0, backends={}, refuted=[], unknown=[]))
        rec['paths'] += 1
        if z3.is_true(z3.simplify(goal)) if not isinstance(goal, bool) else goal:
            rec['proved'] += 1
            rec['backends']['normaliser'] = rec['backends'].get('normaliser', 0) + 1
            return
        left = self.deadline - time.time()
        if left < .2:
            raise Unsupported('time budget used up')
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int(min(self.timeout, 1000 * left)))
        s.add(*st.pc)
        s.add(z3.Not(goal))
        r = s.check()
        self.checks += 1
        self.solver_s += time.time() - t0
        if r == z3.unsat:
            rec['proved'] += 1
            rec['backends']['z3'] = rec['backends'].get('z3', 0) + 1
        else:
            rec['unknown'].append(str(r) + ': ' + str(goal)[:300])

    def feasible(self, st):
        s = z3.Solver()
        s.set('timeout', 400)
        s.add(*[p for p in st.pc if not _quantified(p)])
        return s.check() != z3.unsat

    # ------------------------------------------------------------------------------------------ functions
    def param(self, name, kind, st):
        if kind in ('ints', 'reals'):
            sort = z3.IntSort() if kind == 'ints' else z3.RealSort()
            a, n = self.fresh(name, z3.ArraySort(z3.IntSort(), sort)), self.fresh('len_' + name, z3.IntSort())
            st.pc.append(n >= 0)
            st.heap[name] = (a, n)
            return LRef(name, sort)
        return self.fresh(name, SORTS[kind]())

    def verify(self, name):
        if name not in self.funcs:
            raise Unsupported(f'{name} is not a function of {self.module}')
        fn, spec = self.funcs[name], self.specs[name]
        self.name = name
        a = fn.args
        names = [x.arg for x in a.args]
        if a.vararg or a.kwarg or a.kwonlyargs or set(names) != set(spec.params) or fn.decorator_list:
            raise Unsupported(f'{name} takes other parameters than its contract names')
        st = State({}, {}, [])
        for p in names:
            st.env[p] = self.param(p, spec.params[p], st)
        self.ghost = {g: z3.Function(f'ghost_{name}_{g}', z3.IntSort(), z3.BoolSort()) for g in spec.ghosts}
        old = self.old = View(dict(st.env), dict(st.heap), ghost=self.ghost)
        st.pc += spec.requires(old)
        self.loop_no = {id(l): k for k, l in enumerate(x for x in ast.walk(fn) if isinstance(x, (ast.While, ast.For)))}
        loops = sorted((x for x in ast.walk(fn) if isinstance(x, (ast.While, ast.For))), key=lambda x: (x.lineno, x.col_offset))
        self.loop_no = {id(l): k for k, l in enumerate(loops)}
        if len(loops) != len(spec.loops):
            raise Unsupported(f'{name} has {len(loops)} loops, its contract describes {len(spec.loops)}')
        ends = 0
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*st.pc)
        if s.check() == z3.unsat:
            raise Unsupported(f'{name}: the precondition contradicts itself')
        for e, kind, v in self.block(fn.body, st, 0):
            if kind == 'fall':
                v = None
            elif kind != 'ret':
                raise Unsupported('loop control outside a loop')
            ends += 1
            new = View(dict(self.old._e), e.heap, self.old, self.ghost)
            if spec.result is not None and v is None:
                self.oblige(f'{name}: returns a value', e, z3.BoolVal(False))
                continue
            res = v
            if isinstance(v, LRef):
                res = LView(*e.heap[v.key])
            for k, g in enumerate(spec.ensures(self.old, new, res)):
                lab, g = g if isinstance(g, tuple) else (f'postcondition {k + 1}', g)
                self.oblige(f'{name}: {lab}', e, g)
            for p in names:
                if isinstance(st.env[p], LRef) and p not in spec.modifies:
                    self.oblige(f'{name}: {p} left as it is', e, z3.And(e.heap[p][0] == self.old._h[p][0], e.heap[p][1] == self.old._h[p][1]))
        self.oblige(f'{name}: contract evaluated to the end on every path', State({}, {}, []), z3.BoolVal(ends > 0))
        self.done.append(name)

    # ------------------------------------------------------------------------------------------ statements
    def block(self, body, st, depth):
        """Yields (state, 'fall' | 'ret' | 'brk' | 'cont', value) for every path."""
        if not body:
            yield st, 'fall', None
            return
        for e, kind, v in self.stmt(body[0], st, depth):
            if kind == 'fall':
                yield from self.block(body[1:], e, depth)
            else:
                yield e, kind, v

    def stmt(self, n, st, depth):
        if time.time() > self.deadline:
            raise Unsupported('time budget used up')
        if isinstance(n, ast.Pass) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            yield st, 'fall', None
        elif isinstance(n, ast.Expr):
            for e, v in self.value(n.value, st, depth):
                yield e, 'fall', None
        elif isinstance(n, ast.AnnAssign) and n.value is None:
            yield st, 'fall', None
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            targets = n.targets if isinstance(n, ast.Assign) else [n.target]
            if len(targets) != 1:
                raise Unsupported('chained assignment')
            t = targets[0]
            if isinstance(t, ast.Tuple):
                if not isinstance(n.value, ast.Tuple) or len(n.value.elts) != len(t.elts):
                    raise Unsupported('unpacking')
                vs = [self.pure(x, st) for x in n.value.elts]
                e = st.copy()
                for x, v in zip(t.elts, vs):
                    self.assign(x, v, e)
                yield e, 'fall', None
                return
            for e, v in self.value(n.value, st, depth):
                e = e.copy()
                self.assign(t, v, e)
                yield e, 'fall', None
        elif isinstance(n, ast.AugAssign):
            load = ast.copy_location(ast.BinOp(_load(n.target), n.op, n.value), n)
            e = st.copy()
            self.assign(n.target, self.pure(load, st), e)
            yield e, 'fall', None
        elif isinstance(n, ast.Return):
            if n.value is None:
                yield st, 'ret', None
            else:
                for e, v in self.value(n.value, st, depth):
                    yield e, 'ret', v
        elif isinstance(n, ast.If):
            c = self.truth(self.pure(n.test, st), st)
            for cond, body in ((c, n.body), (z3.Not(c), n.orelse)):
                e = st.copy()
                e.pc.append(cond)
                if z3.is_false(z3.simplify(cond)) or not self.feasible(e):
                    continue
                yield from self.block(body, e, depth)
        elif isinstance(n, ast.Break):
            yield st, 'brk', None
        elif isinstance(n, ast.Continue):
            yield st, 'cont', None
        elif isinstance(n, (ast.While, ast.For)):
            yield from self.loop(n, st, depth)
        else:
            raise Unsupported('statement ' + type(n).__name__)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Subscript):
            l = self.pure(t.value, st)
            i = self.pure(t.slice, st)
            if not isinstance(l, LRef):
                raise Unsupported('assignment to an element of something other than a list')
            a, m = st.heap[l.key]
            self.oblige(f'{self.name}: every index is in range', st, z3.And(0 <= i, i < m))
            st.heap[l.key] = (z3.Store(a, i, _coerce(v, l.sort)), m)
        else:
            raise Unsupported('assignment target ' + type(t).__name__)

    def havoc(self, n, st):
        """Fresh values for everything the loop may change."""
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                v = st.env.get(x.id, Never())
                if isinstance(v, z3.ExprRef):
                    st.env[x.id] = self.fresh(x.id, v.sort())
                elif isinstance(v, LRef):
                    raise Unsupported('a list variable assigned in a loop')
                elif v is None:
                    raise Unsupported('None carried round a loop')
                else:
                    st.env[x.id] = Never()
        for k in self.writes(n, st):
            a, m = st.heap[k]
            grow = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' for x in ast.walk(n))
            st.heap[k] = (self.fresh(k, a.sort()), self.fresh('len_' + k, z3.IntSort()) if grow else m)
            if grow:
                st.pc.append(st.heap[k][1] >= 0)

    def writes(self, n, st):
        """Keys of the lists written in n (directly, or by a function called with them)."""
        out = set()
        for x in ast.walk(n):
            names = []
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                names = [x.value]
            elif isinstance(x, ast.Call):
                names = list(x.args) + [k.value for k in x.keywords] + ([x.func.value] if isinstance(x.func, ast.Attribute) else [])
                if isinstance(x.func, ast.Name) and x.func.id not in self.funcs:
                    names = []
            for y in names:
                if isinstance(y, ast.Name) and isinstance(st.env.get(y.id), LRef):
                    key = st.env[y.id].key
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and not self.may_write(x, y):
                        continue
                    out.add(key)
                elif not isinstance(y, ast.Name) and isinstance(x, ast.Subscript):
                    raise Unsupported('nested list')
        return out

    def may_write(self, call, arg, seen=()):
        f = call.func.id
        if f in self.specs:
            fn = self.funcs[f]
            for p, a in zip(fn.args.args, call.args):
                if a is arg:
                    return p.arg in self.specs[f].modifies
            return True
        fn = self.funcs[f]
        if f in seen:
            return True
        for p, a in zip(fn.args.args, call.args):
            if a is arg:
                for x in ast.walk(fn):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == p.arg:
                        return True
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in self.funcs:
                        for y in x.args:
                            if isinstance(y, ast.Name) and y.id == p.arg and self.may_write(x, y, seen + (f,)):
                                return True
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                        return True
                return False
        return True

    def loop(self, n, st, depth):
        if n.orelse:
            raise Unsupported('else of a loop')
        if depth:
            raise Unsupported('a loop in a function without contract')
        k = self.loop_no[id(n)]
        spec = self.specs[self.name].loops[k]
        lab = f'{self.name}: loop {k + 1}'
        st = st.copy()
        is_for = isinstance(n, ast.For)
        lo = hi = seq = None
        if is_for:
            if not isinstance(n.target, ast.Name):
                raise Unsupported('loop target')
            it = n.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) <= 2 and not it.keywords:
                b = [self.pure(x, st) for x in it.args]
                lo, hi = (z3.IntVal(0), b[0]) if len(b) == 1 else b
            else:
                seq = self.pure(it, st)
                if not isinstance(seq, LRef):
                    raise Unsupported('loop over something other than a range or a list')
                if seq.key in self.writes(n, st):
                    raise Unsupported('a list changed while it is looped over')
                lo, hi = z3.IntVal(0), st.heap[seq.key][1]
            hi = z3.If(hi < lo, lo, hi)
        entry = View(dict(st.env), dict(st.heap), self.old, self.ghost)

        def view(e, i=None):
            env = dict(e.env)
            return View(env, e.heap, self.old, self.ghost, dict(i=i, entry=entry) if is_for else dict(entry=entry))

        def check(e, i, what):
            for j, g in enumerate(spec.inv(view(e, i))):
                gl, g = g if isinstance(g, tuple) else (f'invariant {j + 1}', g)
                self.oblige(f'{lab} {gl} {what}', e, g)

        def plain(gs):
            return [g[1] if isinstance(g, tuple) else g for g in gs]
        check(st, lo, 'on entry')
        head = st.copy()
        self.havoc(n, head)
        i = None
        if is_for:
            i = self.fresh('i', z3.IntSort())
            head.pc += [lo <= i, i <= hi]
        head.pc += plain(spec.inv(view(head, i)))
        v0 = spec.variant(view(head, i)) if spec.variant else None
        # one iteration
        e = head.copy()
        if is_for:
            cond = i < hi
        else:
            cond = self.truth(self.pure(n.test, e), e)
        b = e.copy()
        b.pc.append(cond)
        exits = []
        if not z3.is_false(z3.simplify(cond)):
            if is_for:
                b.env[n.target.id] = i if seq is None else b.heap[seq.key][0][i]
            if v0 is not None:
                self.oblige(f'{lab} terminates', b, v0 >= 0)
            elif not is_for:
                raise Unsupported('a while loop without variant')
            for x, kind, v in self.block(n.body, b, depth):
                if kind in ('fall', 'cont'):
                    check(x, None if i is None else i + 1, 'kept')
                    if v0 is not None:
                        self.oblige(f'{lab} terminates', x, spec.variant(view(x, None if i is None else i + 1)) < v0)
                elif kind == 'brk':
                    exits.append((x, 'fall', None))
                else:
                    exits.append((x, kind, v))
        yield from exits
        out = e.copy()
        out.pc.append(z3.Not(cond))
        if not z3.is_false(z3.simplify(z3.Not(cond))):
            if is_for:
                out.env[n.target.id] = Never()
            yield out, 'fall', None

    # ------------------------------------------------------------------------------------------ expressions
    def value(self, n, st, depth):
        """Value of an expression that may be a call of a function of the module: yields (state, value)."""
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and len(n.args) == 1:
            l = self.pure(n.func.value, st)
            if not isinstance(l, LRef):
                raise Unsupported('append')
            v = self.pure(n.args[0], st)
            e = st.copy()
            a, m = e.heap[l.key]
            e.heap[l.key] = (z3.Store(a, m, _coerce(v, l.sort)), m + 1)
            yield e, None
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.funcs:
            yield from self.call(n, st, depth)
            return
        e = st.copy()
        v = self.pure(n, e)
        yield e, v

    def call(self, n, st, depth):
        f = n.func.id
        fn = self.funcs[f]
        names = [a.arg for a in fn.args.args]
        given = dict(zip(names, n.args))
        for k in n.keywords:
            given[k.arg] = k.value
        defaults = dict(zip(names[len(names) - len(fn.args.defaults):], fn.args.defaults))
        vals = {}
        for p in names:
            if p in given:
                vals[p] = self.pure(given[p], st)
            elif p in defaults:
                vals[p] = self.pure(defaults[p], st)
            else:
                raise Unsupported('missing argument')
        spec = self.specs.get(f)
        self.used.add(f)
        if spec is None:
            if depth > 8 or any(isinstance(x, (ast.While, ast.For)) for x in ast.walk(fn)):
                raise Unsupported(f'{f} has no contract')
            inner = State(dict(vals), dict(st.heap), list(st.pc))
            for e, kind, v in self.block(fn.body, inner, depth + 1):
                yield State(dict(st.env), e.heap, e.pc), (v if kind == 'ret' else None)
            return
        pre = View(vals, dict(st.heap), ghost={})
        for k, g in enumerate(spec.requires(_Quiet(pre))):
            self.oblige(f'{self.name}: precondition {k + 1} of {f}', st, g)
        if f == self.name and spec.variant:
            self.oblige(f'{self.name}: recursion terminates', st, z3.And(spec.variant(pre) >= 0, spec.variant(pre) < spec.variant(self.old)))
        e = st.copy()
        for p in spec.modifies:
            key = vals[p].key
            if sum(1 for x in vals.values() if isinstance(x, LRef) and x.key == key) > 1:
                raise Unsupported('one list passed twice')
            a, m = e.heap[key]
            e.heap[key] = (self.fresh(key, a.sort()), m)
        post = View(vals, e.heap, pre)
        res = self.result_of(spec, f, e)
        here = View(dict(st.env), dict(st.heap), self.old, self.ghost)
        insts = [dict()] if not spec.ghosts else [{g: p for g in spec.ghosts} for p in [lambda x: z3.BoolVal(True)] + list(self.ghost.values()) + [q(here) for q in self.specs[self.name].calls.get(f, [])]]
        for inst in insts:
            pre.__dict__['ghost'] = inst
            if inst:
                e.pc.append(z3.Implies(z3.And(*spec.requires(pre)), z3.And(*[g[1] if isinstance(g, tuple) else g for g in spec.ensures(pre, post, self._res(res, e))])))
            else:
                e.pc += [g[1] if isinstance(g, tuple) else g for g in spec.ensures(pre, post, self._res(res, e))]
        yield e, res

    def _res(self, res, e):
        return LView(*e.heap[res.key]) if isinstance(res, LRef) else res

    def result_of(self, spec, f, e):
        if spec.result is None:
            return None
        if spec.result in ('ints', 'reals'):
            key = f'{f}#{self.n}'
            self.n += 1
            ref = self.param(key, spec.result, e)
            return ref
        return self.fresh(f, SORTS[spec.result]())

    def truth(self, v, st):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, LRef):
            return st.heap[v.key][1] > 0
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.ArithRef):
            return v != 0
        raise Unsupported('truth of ' + repr(v))

    def pure(self, n, st):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                return z3.BoolVal(n.value)
            if isinstance(n.value, int):
                return z3.IntVal(n.value)
            if isinstance(n.value, float):
                return z3.RealVal(repr(n.value))
            if n.value is None:
                return None
            raise Unsupported('constant ' + repr(n.value))
        if isinstance(n, ast.Name):
            v = st.env.get(n.id, Never())
            if isinstance(v, Never):
                raise Unsupported(f'{n.id} may have no value here')
            return v
        if isinstance(n, ast.Subscript):
            l, i = self.pure(n.value, st), self.pure(n.slice, st)
            if not isinstance(l, LRef):
                raise Unsupported('element of something other than a list')
            if not isinstance(i, z3.ArithRef) or i.sort() != z3.IntSort():
                raise Unsupported('index that is not an integer')
            a, m = st.heap[l.key]
            if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() < 0:
                i = m + i
            self.oblige(f'{self.name}: every index is in range', st, z3.And(0 <= i, i < m))
            return a[i]
        if isinstance(n, ast.UnaryOp):
            v = self.pure(n.operand, st)
            if isinstance(n.op, ast.Not):
                return z3.Not(self.truth(v, st))
            if isinstance(n.op, ast.USub):
                return -v
            raise Unsupported('operator')
        if isinstance(n, ast.BinOp):
            a, b = self.pure(n.left, st), self.pure(n.right, st)
            if not isinstance(a, z3.ArithRef) or not isinstance(b, z3.ArithRef):
                raise Unsupported('operands')
            if isinstance(n.op, ast.Add): return a + b
            if isinstance(n.op, ast.Sub): return a - b
            if isinstance(n.op, ast.Mult): return a * b
            if isinstance(n.op, (ast.FloorDiv, ast.Mod)) and z3.is_int_value(b) and b.as_long() > 0 and a.sort() == z3.IntSort():
                return a / b if isinstance(n.op, ast.FloorDiv) else a % b        # z3's integer division rounds down for positive divisors
            if isinstance(n.op, ast.RShift) and z3.is_int_value(b) and b.as_long() >= 0:
                return a / z3.IntVal(2 ** b.as_long())
            raise Unsupported('operator ' + type(n.op).__name__)
        if isinstance(n, ast.BoolOp):
            vs = []
            guard = st.copy()
            for x in n.values:
                v = self.truth(self.pure(x, guard), guard)
                vs.append(v)
                guard.pc.append(v if isinstance(n.op, ast.And) else z3.Not(v))
            return z3.And(*vs) if isinstance(n.op, ast.And) else z3.Or(*vs)
        if isinstance(n, ast.Compare):
            out, left = [], self.pure(n.left, st)
            for op, c in zip(n.ops, n.comparators):
                right = self.pure(c, st)
                if isinstance(op, (ast.Is, ast.IsNot)) and (left is None or right is None):
                    r = z3.BoolVal((left is None and right is None) == isinstance(op, ast.Is))
                else:
                    if not isinstance(left, z3.ExprRef) or not isinstance(right, z3.ExprRef):
                        raise Unsupported('comparison')
                    r = {ast.Lt: lambda: left < right, ast.LtE: lambda: left <= right, ast.Gt: lambda: left > right, ast.GtE: lambda: left >= right,
                         ast.Eq: lambda: left == right, ast.NotEq: lambda: left != right}.get(type(op), _unsupported)()
                out.append(r)
                left = right
            return z3.And(*out) if len(out) > 1 else out[0]
        if isinstance(n, ast.IfExp):
            c = self.truth(self.pure(n.test, st), st)
            a, b = st.copy(), st.copy()
            a.pc.append(c)
            b.pc.append(z3.Not(c))
            return z3.If(c, self.pure(n.body, a), self.pure(n.orelse, b))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            f = n.func.id
            if f == 'len' and len(n.args) == 1:
                l = self.pure(n.args[0], st)
                if isinstance(l, LRef):
                    return st.heap[l.key][1]
            if f in ('real', 'float') and len(n.args) == 1:
                v = self.pure(n.args[0], st)
                if isinstance(v, z3.ArithRef):
                    return v if v.sort() == z3.RealSort() else z3.ToReal(v)
            if f == 'int' and len(n.args) == 1:
                v = self.pure(n.args[0], st)
                if isinstance(v, z3.ArithRef) and v.sort() == z3.IntSort():
                    return v
            if f == 'isinstance' and len(n.args) == 2 and isinstance(n.args[1], ast.Name) and n.args[1].id == 'real':
                v = self.pure(n.args[0], st)
                if isinstance(v, z3.ArithRef):
                    return z3.BoolVal(v.sort() == z3.RealSort())
            if f in ('min', 'max') and len(n.args) == 2:
                a, b = [self.pure(x, st) for x in n.args]
                return z3.If(a <= b, a, b) if f == 'min' else z3.If(a >= b, a, b)
            if f == 'list' and len(n.args) == 1:
                return self.listing(n.args[0], None, n.args[0], st)
            raise Unsupported(f'call of {f} inside an expression')
        if isinstance(n, ast.List) and not n.elts:
            raise Unsupported('a list of unknown element type')
        if isinstance(n, ast.ListComp) and len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name):
            g = n.generators[0]
            return self.listing(n.elt, g.target.id, g.iter, st)
        raise Unsupported('expression ' + type(n).__name__)

    def listing(self, elt, var, it, st):
        """[elt for var in it] over a range or a list."""
        i = z3.Int(f'c!{self.n}')
        self.n += 1
        inner = st.copy()
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1:
            m = self.pure(it.args[0], st)
            m = z3.If(m < 0, z3.IntVal(0), m)
            v = i
        else:
            l = self.pure(it, st)
            if not isinstance(l, LRef):
                raise Unsupported('comprehension over something other than a range or a list')
            m, v = st.heap[l.key][1], st.heap[l.key][0][i]
        if var is not None:
            inner.env[var] = v
            inner.pc += [0 <= i, i < m]
            v = self.pure(elt, inner)
        if not isinstance(v, z3.ArithRef):
            raise Unsupported('comprehension')
        key = f'list#{self.n}'
        self.n += 1
        a = self.fresh(key, z3.ArraySort(z3.IntSort(), v.sort()))
        st.heap[key] = (a, m)
        st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), a[i] == v), patterns=[a[i]]))
        return LRef(key, v.sort())


    def skeleton(self, names):
        """The statements of the functions without their expressions: invariants are written for this arrangement. When the code is
        arranged differently, an invariant that no longer fits says nothing about the code."""
        def st(n):
            kids = [st(x) for f in ('body', 'orelse') for x in (getattr(n, f, None) or []) if isinstance(x, ast.stmt)]
            stores = sorted(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)) if not kids else []
            return [type(n).__name__, *stores, *kids]

        def code(b):
            return [x for x in b if not isinstance(x, ast.Pass) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        return hashlib.sha256(repr([(f, [a.arg for a in self.funcs[f].args.args], [st(x) for x in code(self.funcs[f].body)]) for f in sorted(names) if f in self.funcs]).encode()).hexdigest()[:16]


class _Quiet:
    """The view of a precondition at a call, without the ghost facts (they are premises of the postcondition, not obligations)."""

    def __init__(self, v):
        self.__dict__['_v'] = v

    def __getattr__(self, n):
        if n == 'ghost':
            return None
        return getattr(self._v, n)


def _unsupported():
    raise Unsupported('comparison operator')


def _load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(t.value, t.slice, ast.Load())
    raise Unsupported('augmented assignment target')


def _coerce(v, sort):
    if v.sort() == sort:
        return v
    if sort == z3.RealSort() and v.sort() == z3.IntSort():
        return z3.ToReal(v)
    raise Unsupported('element of another type')


def _quantified(e):
    seen = set()

    def go(x):
        if x.get_id() in seen:
            return False
        seen.add(x.get_id())
        return z3.is_quantifier(x) or any(go(c) for c in x.children())
    return go(e)


def prove(path, module, specs, budget, patience=1):
    """Verify every function with a contract; result in the form of run.run_symbolic."""
    t0 = time.time()
    res = dict(obligations={}, paths=0, status='done', reason='', functions=[], assumptions=[], notes=[], solver_s=0.0)
    v = Verifier(path, module, specs, t0 + budget, 8000 * patience)
    try:
        for f in specs:
            v.verify(f)
    except Unsupported as e:
        res['status'], res['reason'] = 'undecided', f'Unsupported: {e}'
    except (z3.Z3Exception, RecursionError) as e:
        res['status'], res['reason'] = 'undecided', 'verifier: ' + repr(e)[:200]
    res['obligations'] = v.obl
    res['paths'] = sum(o['paths'] for o in v.obl.values())
    res['functions'] = sorted(f'{module}:{f}' for f in set(v.done) | v.used)
    res['wall'] = time.time() - t0
    res['stats'] = dict(z3=v.checks, z3_time=v.solver_s)
    res['skeleton'] = v.skeleton(set(specs) | v.used)
    return res
