"""Running one contract: symbolic proof, replay of refutations, concrete evaluation."""
import contextlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

import numpy as np

from . import dsl

_SYM = {}


def sym_boot():
    if not _SYM:
        from . import vf as V
        _SYM['vf'] = V.boot()
        _SYM['cls'] = dsl.make_symbolic()
        _name_results()
    return _SYM


def _name_results():
    """In contracts that ask for it (S.opaque()), every matrix built by the code under verification gets named contents."""
    import importlib
    from . import arr, terms
    M = importlib.import_module('symwai.ma.core.matrix._Matrix').Matrix
    init = M.__init__

    def __init__(self, data):
        init(self, data)
        if getattr(terms.ctx(), 'opaque', False) and type(self.data) is arr.SArr:
            arr.opacify(self.data)
    M.__init__ = __init__


class ConcreteTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise ConcreteTimeout()


def run_concrete(c, seed, given=None, style=0, limit=40):
    """('ok'|'skip'|'fail', detail dict)"""
    S = dsl.Concrete(seed, given, style)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
                c.fn(S)
        return 'ok', dict(checks=S.checks)
    except dsl.Skip:
        return 'skip', dict(checks=S.checks)
    except dsl.Failed as e:
        return 'fail', dict(obligation=e.ob, detail=str(e.detail), inputs=S.used, seed=seed, style=style, trace=traceback.format_exc(limit=-6))
    except (ConcreteTimeout, MemoryError) as e:
        if any(isinstance(v, int) and v > 60 for v in S.used.values()):     # a replay with a size read off a model
            return 'skip', dict(checks=S.checks)
        return 'fail', dict(obligation='terminates', detail=f'no result within {limit} s' if isinstance(e, ConcreteTimeout) else 'no result within the memory', inputs=S.used, seed=seed, style=style, trace='')
    except Exception as e:
        if getattr(S, 'forged', False) and isinstance(e, (AttributeError, TypeError)) and 'NoneType' in str(e):
            return 'skip', dict(checks=S.checks)    # the code reads trained state which the contract leaves out
        return 'fail', dict(obligation='no unexpected exception', detail=repr(e), inputs=S.used, seed=seed, style=style, trace=traceback.format_exc(limit=-8))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def concrete_trials(c, seed, n, budget):
    t0 = time.time()
    ok = skip = checks = 0
    for i in range(n):
        if time.time() - t0 > budget and ok > 3:
            break
        r, d = run_concrete(c, (seed * 1000003 + i) ^ 0x5bd1, None, i % 4)
        if r == 'ok':
            ok += 1
            checks += d['checks']
        elif r == 'skip':
            skip += 1
        else:
            return dict(ok=ok, skip=skip, checks=checks, fail=d)
    return dict(ok=ok, skip=skip, checks=checks, fail=None)


def model_inputs(S, m, ob):
    """Concrete values of the contract's inputs in a z3 model."""
    import z3
    from . import terms as T

    def num(e):
        v = m.eval(e, model_completion=True)
        c = T.const_of(v)
        if c is None:
            if z3.is_algebraic_value(v):
                v = v.approx(20)
                return float(v.numerator_as_long()) / float(v.denominator_as_long())
            return 0
        return c
    out = {}
    for n, d in S.inputs.items():
        if d[0] == 'fixed':
            out[n] = d[1]
        elif d[0] in ('int',):
            out[n] = int(num(d[1]))
        elif d[0] == 'real':
            out[n] = float(num(d[1]))
        elif d[0] == 'bool':
            out[n] = z3.is_true(m.eval(d[1], model_completion=True))
    def ev(v):
        if isinstance(v, T.Sym):
            return int(num(v.e))
        return int(v)
    for n, d in S.inputs.items():
        if d[0] == 'matrix':
            r, c = ev(d[2]), ev(d[3])
            if r * c > 400:         # contents too many to read off the model: the shapes stay, random contents
                if r * c > 4000000:
                    return None
                continue
            out[n] = [[float(num(d[1](z3.IntVal(i), z3.IntVal(j)))) for j in range(c)] for i in range(r)]
        elif d[0] in ('intlist', 'reallist'):
            k = ev(d[2])
            if k > 200:
                return None
            out[n] = [float(num(d[1](z3.IntVal(i)))) if d[0] == 'reallist' else int(num(d[1](z3.IntVal(i)))) for i in range(k)]
    return out


def raised_by_code(e):
    """Does the exception come from a raise statement of the repository (not from an operation on a model object)?"""
    import linecache
    from . import instr
    tb = e.__traceback__
    if tb is None:
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename
    return os.path.abspath(f).startswith(os.path.abspath(instr.SRC)) and linecache.getline(f, tb.tb_lineno).strip().startswith('raise')


class Obl:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.proved = 0
        self.backends = {}
        self.refuted = []
        self.unknown = []
        self.ops = set()        # operations without a definition an undischarged goal is about


def run_symbolic(c, budget, verbose=False, patience=1):
    """Prove every obligation of contract c for all inputs."""
    if c.hoare:
        from . import hoare
        import os
        import wai.ma
        return hoare.prove(os.path.join(list(wai.ma.__path__)[0], *c.hoare[0].split('.')) + '.py', 'wai.ma.' + c.hoare[0], c.hoare[1], budget, patience)
    import z3
    from . import terms as T, rt, solver, pyb, loops
    boot = sym_boot()
    vf = boot['vf']
    vf.ran_log.clear()
    T.OPS.clear()
    t0 = time.time()
    res = dict(obligations={}, paths=0, status='done', reason='', functions=[], assumptions=[], notes=[], solver_s=0.0)
    ctx = rt.Ctx(max_paths=400, deadline=t0 + budget)
    T.CTX[0] = ctx
    obls = {}
    st0 = dict(solver.STATS)
    import sys as _s

    def report(S, name, cnd, detail):
        o = obls.setdefault(name, Obl(name))
        o.paths += 1
        if isinstance(cnd, T.Sym):
            goal = T.ex(cnd, T.B)
        elif bool(cnd):
            o.proved += 1
            o.backends['normaliser'] = o.backends.get('normaliser', 0) + 1
            return
        else:
            goal = z3.BoolVal(False)
        rem = ctx.deadline - time.time()
        if rem < 0.2:
            raise rt.Timeout()
        pr = solver.Prover(ctx.hyps(), timeout=int(min(6000 * patience, 1000 * rem)))
        r = pr.prove(goal)
        if verbose and r[0] != 'proved':
            print('   ', name, r[0], z3.simplify(goal), file=_s.stderr)
            for h in ctx.hyps():
                print('        hyp', h, file=_s.stderr)
        if r[0] == 'proved':
            o.proved += 1
            o.backends[r[1]] = o.backends.get(r[1], 0) + 1
            return
        o.ops |= T.unknown_ops([goal] + (ctx.hyps() if z3.is_false(goal) else []))
        if r[0] == 'refuted' and not ctx.abstract:
            # a small model, if there is one
            inp = None
            small = [d[1] <= 4 for n, d in S.inputs.items() if d[0] == 'int'] + [d[1] >= -6 for n, d in S.inputs.items() if d[0] == 'int']
            base = ctx.hyps() + [z3.Not(goal)]
            q, m = solver.check_sat(base + solver.axioms(base) + small, 2000)
            try:
                inp = model_inputs(S, m if q == 'sat' else r[1], name)
            except Exception:
                inp = None
            o.refuted.append(dict(inputs=inp, detail=str(detail), fixed={n: d[1] for n, d in S.inputs.items() if d[0] == 'fixed'}, goal=str(z3.simplify(goal))[:800]))
        else:
            o.unknown.append('abstract path' if ctx.abstract else str(r[1])[:200])

    def scenario():
        S = boot['cls'](ctx, ctx.deadline, report)
        res['paths'] += 1
        try:
            for k in ('rng',):
                if hasattr(ctx, k):
                    delattr(ctx, k)
            c.fn(S)
        except dsl.Skip:
            pass
        except rt.Infeasible:
            raise
        except rt.PoisonRead as e:
            obls.setdefault('reads no state of an earlier use', Obl('reads no state of an earlier use'))
            o = obls['reads no state of an earlier use']
            o.paths += 1
            o.unknown.append('reads ' + str(e.what))
        except Exception as e:
            # an exception the contract does not allow: refuted if the path is feasible
            if verbose:
                traceback.print_exc(limit=-12)
            if isinstance(e, MemoryError) or isinstance(e, (TypeError, AttributeError)) and not raised_by_code(e):
                raise T.Unsupported('an operation the models do not have: ' + repr(e)[:200])
            report(S, 'no unexpected exception', False, repr(e))
        report(S, 'contract evaluated to the end on every path', True, '')

    def late(sig, frm):
        raise rt.Timeout()
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, budget * 1.25 + 2, 5)
    try:
        try:
            rt.explore(ctx, scenario)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    except rt.Timeout:
        res['status'], res['reason'] = 'undecided', 'time budget used up'
    except T.Unsupported as e:
        res['status'], res['reason'] = 'undecided', f'{type(e).__name__}: {e}'
        if verbose:
            traceback.print_exc(limit=-14)
    except (rt.Signal, rt.CarriedUse, rt.NeedSym, rt.PoisonRead) as e:
        res['status'], res['reason'] = 'undecided', f'{type(e).__name__}'
        if verbose:
            traceback.print_exc(limit=-14)
    except RecursionError:
        res['status'], res['reason'] = 'undecided', 'recursion limit'
    except z3.Z3Exception as e:
        res['status'], res['reason'] = 'undecided', 'z3: ' + str(e)[:200]
        if verbose:
            traceback.print_exc(limit=-14)
    except Exception as e:
        res['status'], res['reason'] = 'undecided', 'engine: ' + repr(e)[:300]
        if verbose:
            traceback.print_exc(limit=-14)
    for o in obls.values():
        res['obligations'][o.name] = dict(paths=o.paths, proved=o.proved, backends=o.backends, refuted=o.refuted[:5], unknown=o.unknown[:5], ops=sorted(o.ops))
    res['ops'] = sorted(x for x in T.OPS if x.startswith(('arr_', 'iter')))
    res['functions'] = sorted(q for q in vf.ran_log if not q.startswith('prelude'))
    res['assumptions'] = sorted(ctx.assumptions)
    res['wall'] = time.time() - t0
    for k in solver.STATS:
        res.setdefault('stats', {})[k] = solver.STATS[k] - st0[k]
    return res
