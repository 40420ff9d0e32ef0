"""C18: training depends on parameters and data only; predicting and transforming leave a trained model alone."""
import numpy as np

from engine.dsl import contract, Skip
from .c17 import make, enum, MODELS
from .forge import STATE, known_state, trained

TOL = 1e-6
SINGLE_RESPONSE = ('PLS1', 'VCPLS', 'OPLS', 'PRM', 'SparsePLS', 'DIPLS', 'YGradientGLSW', 'YGradientEPO')


def train(S, name, m, X, Y, split=None):
    """Train; numerical failure (singular matrices, no convergence) ends the scenario: there is no model to compare."""
    with np.errstate(all='ignore'):
        try:
            if name == 'DIPLS':
                r = adapt(m, X, Y, split)
            else:
                r = m.initialize(X, Y)
        except (ArithmeticError, np.linalg.LinAlgError, FloatingPointError):
            raise Skip()
    return r


class Split(int):
    """Number of source rows; strategy; number of rows with a response."""
    strategy, labelled = 'unsupervised', None


def adapt(m, X, Y, s):
    n, rows, resp = X.num_rows(), X.get_rows, Y.get_rows
    kind = getattr(s, 'strategy', 'unsupervised')
    if kind == 'supervised':
        return m.initialize_supervised(rows((0, s)), rows((s, n)), resp((0, s)), resp((s, n)))
    if kind == 'semisupervised':
        return m.initialize_semisupervised(rows((0, s)), rows((s, 2 * s)), rows((2 * s, n)), resp((0, s)), resp((s, 2 * s)))
    return m.initialize_unsupervised(rows((0, s)), rows((s, n)), resp((0, s)))


def settings(S, name, p):
    """Values of the other parameters: a function setting them (to values of its own) on any object of the class. Only in concrete runs."""
    if S.symbolic:
        return lambda x: None
    mod = S.mod('algorithm.pls')
    if S.choice('parameters', ['defaults', 'others']) == 'defaults':
        return lambda x: None
    v = {}
    if name in ('NIPALS', 'CCARegression'):
        v['norm_Y_weights'] = S.bool('normalised')
        if name == 'NIPALS':
            d = S.choice('deflation', ['CANONICAL', 'REGRESSION'])
            v['deflation_mode'] = lambda: enum(S, d)
    if name in ('NIPALS', 'CCARegression', 'KernelPLS', 'SparsePLS', 'PRM'):
        v['max_iter'] = S.choice('iterations', [1, 2, 5, 500])
        v['tol'] = S.choice('tolerance', [1e-2, 1e-6, 1e-9])
    if name == 'KernelPLS':
        k = S.choice('kernel', ['LinearKernel', 'PolyKernel', 'RBFKernel'])
        v['kernel'] = lambda: getattr(S.mod('transformation.kernel'), k)()
    if name == 'SparsePLS':
        v['lambda_'] = S.choice('lambda', [0.0, .1, .5, .8, 1.2])
    if name == 'DIPLS':
        v['lambda_'] = S.choice('lambda', [1e-3, .1, 1.0, 5.0])
    if name == 'VCPLS':
        v['lambda_'] = S.choice('lambda', [0.0, .1, 1.0])
    if name == 'PRM':
        v['C'] = S.choice('C', [.5, 4.0, 100.0])
        v['num_SIMPLS_coefficients'] = S.choice('coefficients', [-1, 1, 3])
    if name == 'SIMPLS':
        v['num_coefficients'] = S.choice('coefficients', [0, 1, 3])
    if name == 'OPLS' and p >= 4:
        b, c = S.choice('base', ['PLS1', 'SIMPLS', 'NIPALS']), S.dim('base components', 1, 2)

        def base():
            x = getattr(mod, b)()
            x.num_components = c
            return x
        v['base_PLS'] = base

    def apply(x):
        for k, w in v.items():
            setattr(x, k, w() if callable(w) else w)
    return apply


def params(S, name, pre=True):
    """Symbolic parameters: a function applying the same values to any object of the class."""
    s = {}
    if name in ('CCAFilter',):
        s['kcca'] = S.int('kcca', 1, 2)
        S.assume(s['kcca'] >= 1)
        s['lambda_X'], s['lambda_Y'] = S.real('lambda X', positive=True), S.real('lambda Y', positive=True)
    elif name in ('GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO'):
        s['alpha'] = S.real('alpha', positive=True)
        if name.endswith('EPO'):
            s['N'] = S.int('N', 1, 4)
            S.assume(s['N'] >= 1)
    else:
        s['num_components'] = S.dim('components', 1, 3)
        if pre:
            s['preprocessing_type'] = enum(S, S.choice('preprocessing', ['NONE', 'CENTER', 'STANDARDIZE']))

    def apply(m):
        for k, v in s.items():
            setattr(m, k, v)
        return m
    return apply


def training_data(S, name, tag):
    if S.symbolic:
        n, p = S.dim('rows ' + tag, 2), S.dim('cols ' + tag, 2)
    else:
        n0, n1, p0, p1 = S.choice('shape ' + tag, [(6, 9, 2, 4)] * 4 + [(5, 7, 8, 11), (12, 16, 9, 11)])
        n, p = S.dim('rows ' + tag, n0, n1), S.dim('cols ' + tag, p0, p1)
    q = 1 if name in SINGLE_RESPONSE or name == 'SIMPLS' else p if name in ('GLSW', 'EPO') else S.dim('responses ' + tag, 1, (2 if name == 'CCAFilter' else 3) if not S.symbolic else None)
    if name == 'CCAFilter':
        S.assume(q <= p)
    split = None
    if name == 'DIPLS':
        split = S.dim('source rows ' + tag, 2, 3 if not S.symbolic else None)
        S.assume(split < n)
        if not S.symbolic:
            split = Split(split)
            split.strategy = S.choice('strategy ' + tag, ['unsupervised', 'supervised', 'semisupervised'])
            if split.strategy == 'semisupervised':
                S.assume(2 * split < n)
            split.labelled = dict(unsupervised=split, supervised=n, semisupervised=2 * split)[split.strategy]
    return S.matrix('X ' + tag, n, p), S.matrix('Y ' + tag, n, q), p, q, split


def answers(S, name, m, N):
    """What the trained model answers for N, and what it exposes."""
    out = {}
    with np.errstate(all='ignore'):
        out['transform'] = _answer(S, m.transform, N)
        if name not in ('CCAFilter', 'GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO'):
            if m.can_predict():
                out['predict'] = _answer(S, m.predict, N)
    return out


def _answer(S, f, N):
    if S.symbolic:
        return f(N)
    try:
        return f(N)
    except (ValueError, ArithmeticError, np.linalg.LinAlgError) as e:      # degenerate training data (a model that selected nothing)
        return repr(e)


def compare(S, what, a, b, tol=TOL):
    S.check(what + ': same kinds of answers', set(a) == set(b))
    for k in a:
        if isinstance(a[k], str) or isinstance(b[k], str):
            S.check(f'{what}: {k} shape', a[k] is b[k] or (isinstance(a[k], str) and isinstance(b[k], str) and a[k] == b[k]))
        else:
            S.same_matrix(f'{what}: {k}', a[k], b[k], tol)


def retrain(S, name, pre=True, new_centres=False):
    S.opaque()
    apply = params(S, name, pre)
    XA, YA, pA, qA, sA = training_data(S, name, 'A')
    XB, YB, pB, qB, sB = training_data(S, name, 'B')
    N = S.matrix('N', S.dim('k'), pB)
    m, u = apply(make(S, name)), apply(make(S, name))
    more = settings(S, name, min(pA, pB))
    more(m), more(u)
    train(S, name, m, XA, YA, sA)
    if new_centres:
        for k in DIPLS_CENTRES:
            setattr(m, k, S.mod('transformation').Center())
    r = train(S, name, m, XB, YB, sB)
    q = train(S, name, u, XB, YB, sB)
    S.check('same outcome', (r is None) == (q is None))
    if r is None:
        compare(S, 'retrained as fresh', answers(S, name, m, N), answers(S, name, u, N))


def pure(S, name, pre=True):
    if S.symbolic:      # any trained state, not only those training leads to
        m, p = trained(S, name)
        N, N2 = S.matrix('N', S.dim('k'), p), S.matrix('other', S.dim('k2'), p)
        before = {k: v for k, v in vars(m).items()}
        cells = {k: S.cells(v) for k, v in before.items() if isinstance(v, S.Matrix)}
        first = answers(S, name, m, N)
        answers(S, name, m, N2)
        compare(S, 'answers stay', answers(S, name, m, N), first)
        S.check('still trained', m.is_initialised())
        for k, c in cells.items():
            v = getattr(m, k)
            S.is_matrix(f'trained {k} unchanged', v, before[k].num_rows(), before[k].num_columns(), c, exact=True)
        S.unchanged('N', N)
        return
    S.opaque()
    apply = params(S, name, pre)
    XA, YA, pA, qA, sA = training_data(S, name, 'A')
    N, N2 = S.matrix('N', S.dim('k'), pA), S.matrix('other', S.dim('k2'), pA)
    m = apply(make(S, name))
    settings(S, name, pA)(m)
    if train(S, name, m, XA, YA, sA) is not None:
        raise Skip()
    first = answers(S, name, m, N)
    answers(S, name, m, N2)
    compare(S, 'answers stay', answers(S, name, m, N), first)
    S.check('still trained', m.is_initialised())


# ------------------------------------------------------------------------------------------------ what training starts from
def alike(S, a, b):
    """Two objects in the same state: numbers, texts and None equal, matrices cell by cell, other objects attribute by attribute."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, S.Matrix):
        return False
    if hasattr(a, '__dict__'):
        return set(vars(a)) == set(vars(b)) and all(alike(S, vars(a)[k], vars(b)[k]) for k in vars(a) if k != 'logger')
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(S, x, y) for x, y in zip(a, b))
    return bool(S.same(a, b))


class Anything:
    """The value an attribute may have from earlier use."""


def start(S, name):
    """Whatever the object was used for before, training starts from the state of a new object with the same parameters; what training
    does from there is a function of that state and the data."""
    m, u = make(S, name), make(S, name)
    if not S.symbolic:
        raise Skip()        # a matter of the state, not of behaviour: retrain_* tests the behaviour
    else:
        known_state(S, name, m)
        n, p, q = S.dim('rows'), S.dim('cols'), 1 if name in SINGLE_RESPONSE or name == 'SIMPLS' else S.dim('q')
        if name in ('GLSW', 'EPO'):
            q = p
        X, Y = S.matrix('X', n, p), S.matrix('Y', n, q)
        for k in STATE[name].split():
            if k not in MODELS[name] and k not in PARAMETERS:
                setattr(m, k, Anything())
    seen = []

    def capture(x):
        def fit(predictors, response):
            seen.append({k: v for k, v in vars(x).items() if k != 'do_initialize'})
            return None
        x.do_initialize = fit
    capture(m), capture(u)
    r = [x.initialize(X, Y) if name != 'DIPLS' else x.initialize_unsupervised(X, X, Y) for x in (m, u)]
    S.check('same outcome', (r[0] is None) == (r[1] is None))
    if len(seen) < 2:
        S.check('neither trains', not seen)
        raise Skip()
    a, b = seen
    for k in sorted(set(a) | set(b)):
        if k not in ('logger', 'do_initialize', 'base_PLS') and not (name == 'DIPLS' and k in DIPLS_CENTRES):
            S.check(f'{k} as in a new object', k in a and k in b and alike(S, a[k], b[k]))


DIPLS_CENTRES = ('X_center', 'X_s_center', 'X_t_center')      # known finding: retrain_DIPLS
PARAMETERS = ('debug', 'logger', 'deflation_mode', 'model_adaption_strategy', 'ns', 'nt')


NAMES = ['PLS1', 'VCPLS', 'SIMPLS', 'KernelPLS', 'NIPALS', 'CCARegression', 'OPLS', 'PRM', 'SparsePLS', 'DIPLS', 'CCAFilter', 'GLSW',
         'EPO', 'YGradientGLSW', 'YGradientEPO']


def _mk(kind, name):
    f = {'retrain': retrain, 'pure': pure, 'start': start}[kind]

    def run(S):
        f(S, name)
    run.__name__ = f'{kind}_{name}'
    run.__doc__ = {'retrain': f'{name}: a model trained before answers as a fresh one trained on the same data.',
                   'pure': f'{name}: answers do not change by answering.',
                   'start': f'{name}: training starts from the state of a new object.'}[kind]
    return run


for _n in NAMES:
    # the proof: start_* (and determinism); the behaviour of whole trainings: bounded
    contract('C18', f'{_n}.initialize', f'{_n}.reset', f'{_n}.do_perform_initialization', f'{_n}.transform', trials=24, sym=False)(_mk('retrain', _n))
    contract('C18', f'{_n}.transform', f'{_n}.predict', f'{_n}.do_perform_predictions', f'{_n}.do_transform', trials=24, budget=60,
             )(_mk('pure', _n))
    contract('C18', f'{_n}.initialize', f'{_n}.reset', trials=2, budget=60)(_mk('start', _n))


@contract('C18', 'DIPLS.initialize', 'DIPLS.reset', trials=40, sym=False)
def retrain_DIPLS_but_for_the_centres(S):
    """DIPLS: apart from the centring objects (known finding), a model trained before answers as a fresh one trained on the same data."""
    retrain(S, 'DIPLS', new_centres=True)


# ------------------------------------------------------------------------------------------------ PCA, FastICA: every transformation trains anew
UNSUPERVISED = {
    'PCA': 'center correlation debug eigenvalues eigenvectors initialised keep_cols loadings logger max_columns num_cols num_input_cols num_rows '
           'scores sorted_eigens sum_of_eigenvalues train transformation variance',
    'FastICA': 'algorithm center components debug fun initialised logger max_iter mixing num_components sources tol whiten whitening'}
OVERWRITTEN = {'PCA': ('keep_cols', 'num_cols', 'num_input_cols', 'num_rows', 'train'), 'FastICA': ('sources',)}     # configure assigns them first


def _unsupervised(name):
    def transform_again(S):
        p, n = S.dim('cols', 2, 4), S.dim('rows', 6, 9)
        p2, n2 = S.dim('cols2', 2, 4), S.dim('rows2', 6, 9)
        A, B = S.matrix('A', n, p), S.matrix('B', n2, p2)
        m, u = make(S, name), make(S, name)
        if name == 'PCA':
            v, c, x = S.real('variance', lo=.2, hi=.99), S.bool('center'), S.choice('max columns', [-1, 1, 2])
            conf = dict(variance=v, center=c, max_columns=x)
        else:
            conf = dict(num_components=S.dim('components', 1, 3), whiten=S.bool('whiten'), max_iter=S.dim('iterations', 3, 12),
                        algorithm=enum(S, S.choice('algorithm', ['PARALLEL', 'DEFLATION'])))
        for x in (m, u):
            for k, v in conf.items():
                setattr(x, k, v)
        outs = []
        with np.errstate(all='ignore'):
            try:
                m.transform(A)
                m.transform(A)
            except (ArithmeticError, ValueError, np.linalg.LinAlgError):
                pass
            for x in (m, u):
                try:
                    outs.append(x.transform(B))
                except (ArithmeticError, ValueError, np.linalg.LinAlgError) as e:
                    outs.append(repr(e))
            if name == 'FastICA' and not isinstance(outs[0], str) and np.abs(outs[0].data.imag).max() > 0:
                raise Skip()
        compare(S, 'transformed as by a fresh one', dict(t=outs[0]), dict(t=outs[1]))
        S.unchanged('B', B)
    transform_again.__name__ = f'retrain_{name}'
    transform_again.__doc__ = f'{name}: transforming after other data equals transforming with a fresh object.'
    contract('C18', f'{name}.transform', f'{name}.reset', f'{name}.configure', trials=30, sym=False)(transform_again)

    def state(S):
        if not S.symbolic:
            raise Skip()
        m, u = make(S, name), make(S, name)
        if {k for k in vars(m) if not k.startswith('_')} != set(UNSUPERVISED[name].split()):
            S.undecided(f'{name} keeps other state than the contract knows')
        X = S.matrix('X', S.dim('rows'), S.dim('cols'))
        for k in UNSUPERVISED[name].split():
            if k not in MODELS[name] and k not in PARAMETERS:
                setattr(m, k, Anything())
        m.do_transform = u.do_transform = lambda data: data
        m.extract_loadings = u.extract_loadings = lambda: None
        seen = []

        def capture(x):
            def fit(data):
                seen.append(dict(vars(x)))
                S.check('trained on the data', data is X)
            x.configure = fit
        capture(m), capture(u)
        m.transform(X), u.transform(X)
        S.check('both train', len(seen) == 2)
        a, b = seen
        for k in sorted(set(a) | set(b)):
            if k not in ('logger', 'do_transform', 'configure', 'extract_loadings') + OVERWRITTEN[name]:
                S.check(f'{k} as in a new object', k in a and k in b and alike(S, a[k], b[k]))
    state.__name__ = f'start_{name}'
    state.__doc__ = f'{name}: training starts from the state of a new object.'
    contract('C18', f'{name}.transform', f'{name}.reset', trials=2, budget=60)(state)


for _n in UNSUPERVISED:
    _unsupervised(_n)
