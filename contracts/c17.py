"""C17: models refuse use before training and after any parameter change; refused values change nothing; a failing training
leaves the model untrained."""
import numpy as np

from engine.dsl import contract

ANY = lambda v: True
# parameter -> (kind of value, which values are acceptable); kinds: int, real, bool or a list of expressions over the package
PLS = dict(num_components=('int', None), preprocessing_type=(['CENTER', 'STANDARDIZE', 'NONE'], None))
MODELS = {
    'PLS1': dict(PLS),
    'VCPLS': dict(PLS, lambda_=('real', None)),
    'SIMPLS': dict(PLS, num_coefficients=('int', None)),
    'KernelPLS': dict(PLS, kernel=(['kernel'], None), max_iter=('int', 'v >= 0'), tol=('real', 'v >= 0')),
    'NIPALS': dict(PLS, norm_Y_weights=('bool', None), deflation_mode=(['CANONICAL', 'REGRESSION'], None), max_iter=('int', 'v >= 0'),
                   tol=('real', 'v >= 0')),
    'CCARegression': dict(PLS, norm_Y_weights=('bool', None), max_iter=('int', 'v >= 0'), tol=('real', 'v >= 0')),
    'OPLS': dict(PLS, base_PLS=(['PLS1'], None)),
    'PRM': dict(PLS, num_SIMPLS_coefficients=('int', None), max_iter=('int', 'v >= 0'), tol=('real', 'v >= 0'),
                C=('real', 'abs(v) >= 1e-10')),
    'SparsePLS': dict(PLS, max_iter=('int', 'v >= 0'), tol=('real', 'v >= 0'), lambda_=('real', 'v >= 0')),
    'DIPLS': dict(PLS, lambda_=('real', 'abs(v) >= 1e-8')),
    'CCAFilter': dict(kcca=('int', 'v > 0'), lambda_X=('real', None), lambda_Y=('real', None)),
    'GLSW': dict(alpha=('real', 'v > 0')),
    'EPO': dict(alpha=('real', 'v > 0'), N=('int', 'v > 0')),
    'YGradientGLSW': dict(alpha=('real', 'v > 0')),
    'YGradientEPO': dict(alpha=('real', 'v > 0'), N=('int', 'v > 0')),
    'PCA': dict(variance=('real', '0 < v < 1'), max_columns=('int', 'v == -1 or v > 0'), center=('bool', None)),
    'FastICA': dict(num_components=('int', 'v >= 1'), whiten=('bool', None), max_iter=('int', 'v >= 0'), tol=('real', 'v >= 0'),
                    fun=(['Cube'], None), algorithm=(['PARALLEL', 'DEFLATION'], None)),
}
WHERE = dict(CCAFilter='algorithm', PCA='algorithm', FastICA='algorithm.ica', GLSW='algorithm.glsw', EPO='algorithm.glsw',
             YGradientGLSW='algorithm.glsw', YGradientEPO='algorithm.glsw')
SUPERVISED = [k for k in MODELS if k not in ('PCA', 'FastICA')]
NO_PREDICT = ('CCAFilter', 'GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO')


def make(S, name):
    w = WHERE.get(name, 'algorithm.pls')
    if name == 'FastICA':
        return S.cls('algorithm.ica._FastICA.FastICA')()
    return getattr(S.mod(w), name)()


def enum(S, s):
    if s == 'kernel':
        return S.mod('transformation.kernel').LinearKernel()
    if s == 'PLS1':
        return S.mod('algorithm.pls').PLS1()
    if s == 'Cube':
        return S.cls('algorithm.ica.approxfun._Cube.Cube')()
    if s in ('CENTER', 'STANDARDIZE', 'NONE'):
        return getattr(S.mod('core').PreprocessingType, s)
    if s in ('PARALLEL', 'DEFLATION'):
        return getattr(S.cls('algorithm.ica._FastICA.Algorithm'), s)
    return getattr(S.mod('algorithm.pls').DeflationMode, s)


def data(S, name):
    n, m = (S.dim('rows', 4, 8), S.dim('cols', 1, 4)) if not S.symbolic else (S.dim('rows', 1), S.dim('cols', 1))
    return S.matrix('X', n, m), S.matrix('Y', n, m if name in ('GLSW', 'EPO') else 1)


def refuses_use(S, name, m, what):
    X = S.matrix('probe', S.dim('k'), S.dim('m'))
    S.check(what + ': is_initialised', not m.is_initialised())
    if name in ('PCA', 'FastICA'):
        return
    S.check(what + ': transform raises', isinstance(S.raises(m.transform, X), RuntimeError))
    if name == 'CCAFilter':
        S.check(what + ': transform_response raises', isinstance(S.raises(m.transform_response, X), RuntimeError))
    if name not in NO_PREDICT:
        S.check(what + ': predict raises', isinstance(S.raises(m.predict, X), RuntimeError))


def trained(S, name):
    """A trained model. For the proof any state with the trained mark will do: what the other attributes hold does not matter."""
    m = make(S, name)
    if S.symbolic or name == 'PCA':
        m.initialised = True
        return m
    X, Y = data(S, name)
    with np.errstate(all='ignore'):
        try:
            if name == 'FastICA':
                m.transform(X)
                r = None
            elif name == 'DIPLS':
                h = X.num_rows() // 2
                r = m.initialize_unsupervised(X.get_rows((0, h)), X.get_rows((h, X.num_rows())), Y.get_rows((0, h)))
            else:
                if name == 'SIMPLS' or name == 'KernelPLS' or name in ('NIPALS', 'CCARegression', 'PLS1'):
                    m.num_components = 1
                r = m.initialize(X, Y)
        except Exception:
            r = 'numerical'
    if r is not None:
        m = make(S, name)
        m.initialised = True
    return m


def probe_value(S, kind):
    if kind == 'int':
        return S.int('v', -3, 20)
    if kind == 'real':
        return S.real('v')
    if kind == 'bool':
        return S.bool('v')
    return enum(S, S.choice('v', kind))


def _valid(S, cond, v):
    if cond is None: return True
    if cond == '0 < v < 1': return S.and_(v > 0, v < 1)
    if cond == 'v == -1 or v > 0': return S.or_(S.eqi(v, -1), v > 0)
    if cond.startswith('abs(v) >= '):
        e = float(cond.split()[-1])
        return S.or_(v >= e, v <= -e)
    op, c = cond.split()[1:]
    return v > float(c) if op == '>' else v >= float(c)


def _snapshot(m):
    return dict(m.__dict__)


def parameter_change(name):
    def run(S):
        m = trained(S, name)
        p = S.choice('parameter', sorted(MODELS[name]))
        kind, cond = MODELS[name][p]
        v = probe_value(S, kind)
        if cond is not None and not _valid(S, cond, v):
            before = _snapshot(m)
            S.check('refused with an error', isinstance(S.raises(setattr, m, p, v), ValueError))
            after = _snapshot(m)
            S.check('no state appears or disappears', set(before) == set(after))
            for k in before:
                S.check('state unchanged: ' + k, before[k] is after[k] or (not S.symbolic and S.same(before[k], after[k])))
            S.check('still trained', m.is_initialised())
            return
        r = S.raises(setattr, m, p, v)
        S.check('accepted', r is None)
        S.check('parameter has the new value', getattr(m, p) is v or S.eq(getattr(m, p), v))
        refuses_use(S, name, m, 'after setting a parameter')
    run.__name__ = 'set_parameter_' + name
    run.__doc__ = f'{name}: setting a parameter makes the model untrained; a refused value changes nothing.'
    return run


def untrained(name):
    def run(S):
        m = make(S, name)
        refuses_use(S, name, m, 'fresh')
        t = trained(S, name)
        t.reset()
        refuses_use(S, name, t, 'after reset')
    run.__name__ = 'untrained_' + name
    run.__doc__ = f'{name}: a fresh or reset model is untrained and refuses use.'
    return run


for _n in sorted(MODELS):
    contract('C17', f'{_n}.__setattr__', f'{_n}.reset', 'LoggingObject.__setattr__', trials=24)(parameter_change(_n))
    contract('C17', f'{_n}.reset', f'{_n}.predict', f'{_n}.transform', trials=6)(untrained(_n))


def _fails(S, name, m, X, Y):
    r = m.initialize(X, Y)
    S.check('the training call reports an error', isinstance(r, str) or S.symbolic and type(r).__name__ == 'Text')
    refuses_use(S, name, m, 'after failed training')


SINGLE = ['PLS1', 'VCPLS', 'OPLS', 'PRM', 'SparsePLS', 'DIPLS']


@contract('C17', 'AbstractSingleResponsePLS.check', 'AbstractPLS.initialize', *[n + '.check' for n in SINGLE], trials=60)
def single_response_refuses_several_columns(S):
    """Single-response models report an error for any other number of response columns, and are untrained afterwards."""
    name = S.choice('model', SINGLE)
    m = trained(S, name)
    n, p, q = S.dim('n'), S.dim('p'), S.dim('q', 2)
    X, Y = S.matrix('A', n, p), S.matrix('B', n, q)
    if name == 'DIPLS':
        m.ns, m.nt = 1, 1
    _fails(S, name, m, X, Y)


@contract('C17', 'DIPLS.check', 'AbstractPLS.initialize')
def dipls_refuses_empty_domains(S):
    """DIPLS reports an error when a domain is empty, and is untrained afterwards."""
    m = trained(S, 'DIPLS')
    n, p = S.dim('n'), S.dim('p')
    X, Y = S.matrix('A', n, p), S.matrix('B', n, 1)
    m.ns, m.nt = S.int('ns', 0, 3), S.int('nt', 0, 3)
    S.assume(S.and_(m.ns >= 0, m.nt >= 0, S.or_(S.eqi(m.ns, 0), S.eqi(m.nt, 0))))
    _fails(S, 'DIPLS', m, X, Y)


@contract('C17', 'GLSW.check', 'GLSW.initialize', 'EPO.initialize')
def weighting_refuses_shape_mismatch(S):
    """GLSW and EPO report an error for training matrices of different shapes, and are untrained afterwards."""
    name = S.choice('model', ['GLSW', 'EPO'])
    m = trained(S, name)
    n, p, k, q = S.dim('n'), S.dim('p'), S.dim('k1'), S.dim('q')
    X, Y = S.matrix('A', n, p), S.matrix('B', k, q)
    S.assume(S.or_(S.not_(S.eqi(n, k)), S.not_(S.eqi(p, q))))
    _fails(S, name, m, X, Y)


@contract('C17', 'YGradientGLSW.check', 'GLSW.initialize', 'YGradientEPO.initialize')
def gradient_weighting_refuses_row_mismatch(S):
    """YGradientGLSW and YGradientEPO report an error for different numbers of rows, and are untrained afterwards."""
    name = S.choice('model', ['YGradientGLSW', 'YGradientEPO'])
    m = trained(S, name)
    n, p, k = S.dim('n'), S.dim('p'), S.dim('k1')
    X, Y = S.matrix('A', n, p), S.matrix('B', k, 1)
    S.assume(S.not_(S.eqi(n, k)))
    _fails(S, name, m, X, Y)


@contract('C17', 'CCAFilter.do_initialize', 'CCAFilter.initialize')
def cca_refuses_too_many_components(S):
    """CCAFilter reports an error when more components are asked for than either matrix has columns."""
    m = make(S, 'CCAFilter')
    k = S.int('kcca', 1, 6)
    S.assume(k >= 1)
    m.kcca = k
    m.initialised = True
    n, p, q = S.dim('n'), S.dim('p'), S.dim('q')
    X, Y = S.matrix('A', n, p), S.matrix('B', n, q)
    S.assume(S.or_(k > p, k > q))
    _fails(S, 'CCAFilter', m, X, Y)


@contract('C17', 'AbstractPLS.initialize', 'GLSW.initialize', 'CCAFilter.initialize', trials=40)
def exception_during_training(S):
    """A training call that fails with an exception leaves the model untrained."""
    name = S.choice('model', SUPERVISED)
    m = trained(S, name)
    n, p = S.dim('n', 2), S.dim('p')
    X, Y = S.matrix('A', n, p), S.matrix('B', n, p if name in ('GLSW', 'EPO') else 1)
    if name == 'DIPLS':
        m.ns, m.nt = 1, 1

    def boom(*a):
        raise ArithmeticError('no convergence')
    m.do_initialize = boom
    S.check('the exception reaches the caller', isinstance(S.raises(m.initialize, X, Y), ArithmeticError))
    refuses_use(S, name, m, 'after training raised')


@contract('C17', 'AbstractPLS.initialize', 'GLSW.initialize', 'CCAFilter.initialize', trials=40)
def trained_exactly_when_no_error(S):
    """Training marks the model trained exactly when it reports no error; nothing but the training hook decides."""
    name = S.choice('model', SUPERVISED)
    m = trained(S, name)
    n, p = S.dim('n', 2), S.dim('p')
    X, Y = S.matrix('A', n, p), S.matrix('B', n, p if name in ('GLSW', 'EPO') else 1)
    if name == 'DIPLS':
        m.ns, m.nt = 1, 1
    bad = S.bool('hook reports an error')
    m.do_initialize = lambda *a: 'no convergence' if bad else None
    r = m.initialize(X, Y)
    S.check('result is the hook\'s', (r == 'no convergence') if bad else (r is None))
    if bad:
        refuses_use(S, name, m, 'after reported error')
    else:
        S.check('trained', m.is_initialised())
