"""Mechanical instrumentation of the real source: every run parses the files under /repo/src/wai/ma afresh,
rewrites loops / comprehensions / list displays / identity tests so that symbolic trip counts can be summarised,
replaces numpy (and builtins) by their symbolic models, and executes the result natively under CPython.

Dropped by the rewriting: annotations (never evaluated by the code) and print output. Nothing else."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys
import types

SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
PKG = 'symwai'


class Assigned(ast.NodeVisitor):
    """Local names bound in a statement list (not entering nested functions)."""
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n): self.add(n.name)
    def visit_ClassDef(self, n): self.add(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names: self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name: self.add(n.name)
        self.generic_visit(n)

    def visit_NamedExpr(self, n):
        self.add(n.target.id)
        self.generic_visit(n)


def assigned(stmts, target=None):
    a = Assigned()
    if target is not None: a.visit(target)
    for s in stmts: a.visit(s)
    return [n for n in a.names if not n.startswith('vf__')]


def call(fn, *args):
    return ast.Call(ast.Attribute(ast.Name('vf__', ast.Load()), fn, ast.Load()), list(args), [])


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.loops = []      # enclosing loop variables in the current function
        self.depth = 0       # function nesting
        self.n = 0
        self.globals = set()
        self.qual = []
        self.ord = [0]

    # ---- imports
    def visit_Import(self, n):
        out = []
        for a in n.names:
            top = a.name.split('.')[0]
            if a.name == 'wai.ma' or a.name.startswith('wai.ma.'):
                out.append(ast.Import([ast.alias(PKG + a.name[3:], a.asname)]))
            elif top in ('numpy', 'builtins', 'math', 'struct', 'os', 'sys', 'io', 'sklearn', 'scipy'):
                tgt = a.asname or top
                out.append(ast.Assign([name(tgt, True)], call('module', ast.Constant(a.name if a.asname else top))))
            else:
                out.append(ast.Import([a]))
        return out

    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module:
            if n.module == 'wai.ma' or n.module.startswith('wai.ma.'):
                n.module = PKG + n.module[3:]
                return n
            if n.module.split('.')[0] in ('numpy', 'builtins', 'math', 'struct', 'os', 'sys', 'io', 'sklearn', 'scipy'):
                return [ast.Assign([name(a.asname or a.name, True)],
                                   call('modattr', ast.Constant(n.module), ast.Constant(a.name))) for a in n.names]
        return n

    # ---- functions
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        save = (self.loops, self.globals, self.ord)
        self.loops, self.globals, self.ord = [], set(), [0]
        self.depth += 1
        self.qual.append(n.name)
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r] if r is not None else [])
        mark = ast.Expr(call('ran', ast.Constant(self.mod + ':' + '.'.join(self.qual)), ast.Constant(n.lineno)))
        if n.args.vararg:
            v = n.args.vararg.arg
            body = [ast.Assign([name(v, True)], call('varargs', name(v)))] + body
        n.body = [mark] + body
        self.qual.pop()
        self.depth -= 1
        self.loops, self.globals, self.ord = save
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        save = (self.loops, self.depth)
        self.loops, self.depth = [], 0
        n.body = sum([(lambda r: r if isinstance(r, list) else [r] if r is not None else [])(self.visit(s)) for s in n.body], [])
        if not n.body:
            n.body = [ast.Pass()]
        self.loops, self.depth = save
        self.qual.pop()
        return n

    def visit_Lambda(self, n):
        self.depth += 1
        save = self.loops
        self.loops = []
        n.body = self.visit(n.body)
        self.loops = save
        self.depth -= 1
        return n

    def visit_Global(self, n):
        self.globals |= set(n.names)
        return n
    visit_Nonlocal = visit_Global

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass()
        return self.visit(ast.Assign([n.target], n.value))

    # ---- expressions
    def visit_Call(self, n):
        self.generic_visit(n)
        if self.depth:
            for a in n.args:
                if isinstance(a, ast.Starred):
                    a.value = call('star', a.value)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                return call('join', n.func.value, n.args[0])
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if not self.depth:
            return n
        parts = [v if isinstance(v, ast.Constant) else ast.Tuple([v.value, ast.Constant(v.conversion), v.format_spec or ast.Constant('')], ast.Load())
                 for v in n.values]
        return call('fstr', *parts)

    def visit_List(self, n):
        self.generic_visit(n)
        if self.depth and isinstance(n.ctx, ast.Load):
            return call('mklist', n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        if self.depth:
            return call('mkset', ast.Tuple(n.elts, ast.Load()))
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if not self.depth or len(n.ops) != 1:
            return n
        op = n.ops[0]
        a, b = n.left, n.comparators[0]
        if isinstance(op, ast.Is): return call('is_', a, b)
        if isinstance(op, ast.IsNot): return ast.UnaryOp(ast.Not(), call('is_', a, b))
        if isinstance(op, ast.In): return call('in_', a, b)
        if isinstance(op, ast.NotIn): return ast.UnaryOp(ast.Not(), call('in_', a, b))
        return n

    def _comp(self, n, kind):
        if not self.depth:
            self.generic_visit(n)
            return n
        gens = n.generators

        def lam(target, body):
            if isinstance(target, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(target.id)], None, [], [], None, []), body)
            if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts):
                inner = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in target.elts], None, [], [], None, []), body)
                return ast.Lambda(ast.arguments([], [ast.arg('vf__t')], None, [], [], None, []),
                                  ast.Call(inner, [ast.Starred(call('unpack', name('vf__t'), ast.Constant(len(target.elts))), ast.Load())], []))
            if isinstance(target, (ast.Tuple, ast.List)):
                # nested targets: bind one level at a time
                names = ['vf__t%d' % i for i in range(len(target.elts))]
                b = body
                for nm, e in reversed(list(zip(names, target.elts))):
                    b = ast.Call(lam(e, b), [name(nm)], [])
                inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), b)
                return ast.Lambda(ast.arguments([], [ast.arg('vf__t')], None, [], [], None, []),
                                  ast.Call(inner, [ast.Starred(call('unpack', name('vf__t'), ast.Constant(len(names))), ast.Load())], []))
            raise SyntaxError('comprehension target')
        save = self.loops
        self.loops = []
        elt = ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load()) if kind == 'dict' else self.visit(n.elt)
        expr = None
        for i in range(len(gens) - 1, -1, -1):
            g = gens[i]
            it = self.visit(g.iter)
            conds = [self.visit(c) for c in g.ifs]
            cond = None if not conds else conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
            body = elt if i == len(gens) - 1 else expr
            fn = 'comp' if i == len(gens) - 1 else 'compflat'
            expr = call(fn, it, lam(g.target, body), ast.Constant(None) if cond is None else lam(g.target, cond))
        self.loops = save
        if kind == 'set': return call('mkset', expr)
        if kind == 'dict': return call('mkdict', expr)
        return expr

    def visit_ListComp(self, n): return self._comp(n, 'list')
    def visit_GeneratorExp(self, n): return self._comp(n, 'gen')
    def visit_SetComp(self, n): return self._comp(n, 'set')
    def visit_DictComp(self, n): return self._comp(n, 'dict')

    # ---- loops
    def _names_tuple(self, names, store):
        return ast.Tuple([name(x, store) for x in names], ast.Store() if store else ast.Load())

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r] if r is not None else [])
        return out

    def _loop(self, n, ctor, names, pre, bodystmts, orelse):
        self.n += 1
        L, it, e = f'vf__L{self.n}', f'vf__i{self.n}', f'vf__e{self.n}'
        names = [x for x in names if x not in self.globals]
        self.loops.append(L)
        body = pre(L, it) + self._body(bodystmts)
        self.loops.pop()
        loc = ast.Call(name('locals'), [], [])
        enter = [ast.If(ast.Attribute(name(L), 'sym', ast.Load()),
                        [ast.Assign([self._names_tuple(names, True)], ast.Call(ast.Attribute(name(L), 'enter', ast.Load()), [loc], []))]
                        if names else [ast.Expr(ast.Call(ast.Attribute(name(L), 'enter', ast.Load()), [loc], []))], [])]
        leave = ast.If(ast.Attribute(name(L), 'sym', ast.Load()),
                       [ast.Expr(ast.Call(ast.Attribute(name(L), 'leave', ast.Load()), [loc], []))], [])
        handler = ast.ExceptHandler(name('BaseException'), e,
                                    [ast.If(ast.UnaryOp(ast.Not(), ast.Call(ast.Attribute(name(L), 'caught', ast.Load()), [name(e), loc], [])),
                                            [ast.Raise()], [])])
        tr = ast.Try(enter + body + [leave], [handler], [], [])
        final = [ast.If(ast.Attribute(name(L), 'sym', ast.Load()),
                        [ast.Assign([self._names_tuple(names, True)], ast.Call(ast.Attribute(name(L), 'final', ast.Load()), [], []))]
                        if names else [ast.Pass()], [])]
        oe = self._body(orelse)
        return [ast.Assign([name(L, True)], ctor),
                ast.For(name(it, True), name(L), [tr], final + oe)]

    def visit_For(self, n):
        if not self.depth:
            self.generic_visit(n)
            return n
        o = self.ord[0]
        self.ord[0] += 1
        it = self.visit(n.iter)
        names = assigned(n.body, n.target)
        qn = self.mod + ':' + '.'.join(self.qual)
        ctor = call('loop', it, ast.Constant(tuple(names)), ast.Constant(f'{qn}#{o}'))

        def pre(L, i):
            return [ast.Assign([n.target], name(i))]
        return self._loop(n, ctor, names, pre, n.body, n.orelse)

    def visit_While(self, n):
        if not self.depth:
            self.generic_visit(n)
            return n
        o = self.ord[0]
        self.ord[0] += 1
        names = assigned(n.body + [ast.Expr(n.test)])
        qn = self.mod + ':' + '.'.join(self.qual)
        ctor = call('wloop', ast.Constant(tuple(names)), ast.Constant(f'{qn}#{o}'))
        test = self.visit(n.test)

        def pre(L, i):
            return [ast.Expr(ast.Call(ast.Attribute(name(L), 'cond_begin', ast.Load()), [], [])),
                    ast.If(ast.UnaryOp(ast.Not(), ast.Call(ast.Attribute(name(L), 'cond_end', ast.Load()), [test] + ([ast.Constant(True)] if isinstance(test, ast.Constant) else []), [])),
                           [ast.Expr(ast.Call(ast.Attribute(name(L), 'brk', ast.Load()), [], [])), ast.Break()], [])]
        if n.orelse:
            raise SyntaxError('while-else')
        return self._loop(n, ctor, names, pre, n.body, [])

    def visit_Break(self, n):
        if not self.loops:
            return n
        return [ast.Expr(ast.Call(ast.Attribute(name(self.loops[-1]), 'brk', ast.Load()), [], [])), n]

    def visit_Continue(self, n):
        if not self.loops:
            return n
        return [ast.Expr(ast.Call(ast.Attribute(name(self.loops[-1]), 'cont', ast.Load()), [], [])), n]

    def visit_Return(self, n):
        self.generic_visit(n)
        if not self.loops:
            return n
        v = n.value if n.value is not None else ast.Constant(None)
        out = [ast.Assign([name('vf__r', True)], v)]
        for L in reversed(self.loops):
            out.append(ast.Expr(ast.Call(ast.Attribute(name(L), 'ret', ast.Load()), [], [])))
        out.append(ast.Return(name('vf__r')))
        return out


def transform(path, modname):
    with open(path) as f:
        src = f.read()
    tree = ast.parse(src, path)
    tree = Tx(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, vf):
        self.vf = vf

    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'):
            return None
        rel = fullname.split('.')[1:]
        base = os.path.join(SRC, 'wai', *rel)
        if fullname == PKG:
            s = importlib.machinery.ModuleSpec(fullname, self, is_package=True)
            s.submodule_search_locations = [os.path.join(SRC, 'wai')]
            return s
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            s = importlib.machinery.ModuleSpec(fullname, self, origin=p, is_package=True)
            s.submodule_search_locations = [base]
            return s
        if os.path.isfile(base + '.py'):
            return importlib.machinery.ModuleSpec(fullname, self, origin=base + '.py')
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        p = mod.__spec__.origin
        d = mod.__dict__
        d['vf__'] = self.vf
        for k, v in self.vf.BUILTINS.items():
            d[k] = v
        if p and os.path.isfile(p):
            exec(transform(p, mod.__name__), d)


def install(vf):
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]:
        del sys.modules[k]
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, Finder)]
    sys.meta_path.insert(0, Finder(vf))
