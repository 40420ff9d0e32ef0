"""C20: projection filters map data to (centred) data times the matrices they were trained with; how those matrices come about."""
import math

import numpy as np

from engine.dsl import contract, Skip
from .c17 import make, enum
from .c18 import train, training_data, params, settings
from .c19 import mean, tame
from .forge import trained, forged, known_state, PRE, WEIGHTING, Columnwise

TOL = 1e-6
LINEAR = ['SIMPLS', 'PRM', 'OPLS', 'NIPALS', 'CCARegression', 'DIPLS', 'CCAFilter', 'GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO']


# model -> what it projects with: method -> (matrices, centring object, does the projection remove from the data?)
PROJECTION = {
    'SIMPLS': {'transform': ('W', None)}, 'PRM': {'transform': ('projection', None)}, 'OPLS': {'transform': ('W_orth P_orth', None)},
    'NIPALS': {'transform': ('X_rotations', 'standardize_X'), 'do_transform_response': ('Y_rotations', 'standardize_Y')},
    'CCARegression': {'transform': ('X_rotations', 'standardize_X'), 'do_transform_response': ('Y_rotations', 'standardize_Y')},
    'DIPLS': {'transform': ('W_di', 'X_center')},
    'CCAFilter': {'transform': ('proj_X', 'center_X'), 'transform_response': ('proj_Y', 'center_Y')},
    'GLSW': {'transform': ('G', None)}, 'EPO': {'transform': ('G', None)}, 'YGradientGLSW': {'transform': ('G', None)},
    'YGradientEPO': {'transform': ('G', None)},
}


def get(S, m, path):
    for a in path.split('.'):
        if not hasattr(m, a):
            S.undecided(f'no attribute {path}')
        m = getattr(m, a)
    return m


def projector(S, name):
    """A trained object: with arbitrary trained matrices in the proof, a really trained one in the bounded runs."""
    return trained(S, name)[0] if S.symbolic else trained_model(S, name)[0]


def projects(name):
    def run(S):
        m = projector(S, name)
        k = S.dim('k')
        for method, (mats, centre) in PROJECTION[name].items():
            Ms = [get(S, m, x) for x in mats.split()]
            p = Ms[0].num_rows()
            N = S.matrix('N ' + method, k, p)
            D = N if centre is None else get(S, m, centre).transform(N)      # centring and standardising by definition: C12
            R = getattr(m, method)(N)
            if len(Ms) == 2:
                W, P = Ms
                a = W.num_columns()
                f = lambda i, j: S.at(N, i, j) - S.sum(a, lambda c: S.sum(p, lambda z: S.at(N, i, z) * S.at(W, z, c)) * S.at(P, j, c))
                S.is_matrix(method, R, k, p, f, 1e-5)
            else:
                M = Ms[0]
                S.is_matrix(method, R, k, M.num_columns(), lambda i, j: S.sum(p, lambda z: S.at(D, i, z) * S.at(M, z, j)), 1e-5)
            S.unchanged('N', N)
    run.__name__ = 'projects_' + name
    run.__doc__ = f'{name}: projections are the (centred) data times the trained matrix, for any data.'
    return run


def regresses(name):
    def run(S):
        if S.symbolic:
            m, p, q = forged(S, name, ['NONE'])
        else:
            m, p, q = trained_model(S, name, ['NONE'])[0], None, None
        k = S.dim('k')
        if S.symbolic and name == 'SparsePLS':
            k = S.choice('rows asked', [1, S.dim('k', 2)])
        B = get(S, m, COEFFICIENTS[name][0])
        scaled, back = COEFFICIENTS[name][1:]
        if p is None:
            p, q = (get(S, m, 'X').num_columns() if name == 'KernelPLS' else B.num_rows()), B.num_columns()
        N = S.matrix('N', k, p)
        if name == 'DIPLS':
            scaled = 'X_t_center' if m.model_adaption_strategy.name == 'UNSUPERVISED' else 'X_center'
        if name == 'KernelPLS':
            D = m.transform(N)                # what the projection is: affine_* and rows_independent_*
        else:
            D = N if scaled is None else get(S, m, scaled).transform(N)
        c = D.num_columns()
        if S.symbolic and name == 'SparsePLS':
            l = m.A.l
            v = lambda i, j: S.sum(S.len(l), lambda z: S.at(D, i, S.item(l, z)) * S.at(B, S.item(l, z), j))
        else:
            v = lambda i, j: S.sum(c, lambda z: S.at(D, i, z) * S.at(B, z, j))
        if name == 'DIPLS':
            w = lambda i, j: v(i, j) + get(S, m, 'b_0')
        elif back is None:
            w = v
        elif name in ('NIPALS', 'CCARegression'):
            w = lambda i, j: v(i, j) + S.at(get(S, m, back).get_means(), 0, j)        # its coefficients answer in the units of the response
        elif name == 'KernelPLS':
            I = get(S, m, back).inverse_transform(S.build(k, q, v))
            w = lambda i, j: S.at(I, i, j)
        else:
            st = get(S, m, back)
            w = lambda i, j: v(i, j) * S.at(st.get_std_devs(), 0, j) + S.at(st.get_means(), 0, j)
        with np.errstate(all='ignore'):
            R = m.predict(N)
        if not S.symbolic and not (np.isfinite(R.data).all() and np.abs(R.data).max() < 1e7 and np.abs(B.data).max() < 1e7):
            raise Skip()
        S.is_matrix('prediction', R, k, q, w, 1e-5)
        S.unchanged('N', N)
    run.__name__ = 'regresses_' + name
    run.__doc__ = f'{name}: predictions are the (centred, standardised) data times the trained coefficients, in the units of the response.'
    return run


# model -> trained coefficients, what the data goes through first, what the answer comes back through
COEFFICIENTS = {
    'SIMPLS': ('B', None, None), 'PRM': ('final_regression_coefficients', None, None), 'SparsePLS': ('B_pls', 'standardize_X', 'standardize_Y'),
    'NIPALS': ('coef', 'standardize_X', 'standardize_Y'), 'CCARegression': ('coef', 'standardize_X', 'standardize_Y'),
    'KernelPLS': ('B_RHS', None, 'center_Y'), 'DIPLS': ('b_di', None, None),
}


def trained_model(S, name, kinds=PRE):
    X, Y, p, q, split = training_data(S, name, 'A')
    m = make(S, name)
    tame(S, name, m, p)
    settings(S, name, p)(m)
    if name in ('CCAFilter',) or name in WEIGHTING:
        params(S, name)(m)
    else:
        m.num_components = S.dim('components', 1, 2)
        m.preprocessing_type = enum(S, S.choice('preprocessing', kinds))
    if train(S, name, m, X, Y, split) is not None:
        raise Skip()
    return m, X, Y, p, q, split


CENTRED = {'CCAFilter', 'NIPALS', 'CCARegression', 'DIPLS'}


def affine(name):
    """On the real models: the projection is affine in the data, row by row, vanishes at the training mean where the filter centres and at zero elsewhere."""
    def run(S):
        m, X, Y, p, q, split = trained_model(S, name)
        k = S.dim('k', 1, 6)
        todo = [(m.transform, X, p)] + ([(m.transform_response, Y, q)] if name == 'CCAFilter' else [])
        for f, D, w in todo:
            N = S.matrix(f'N{w}', k, w)
            with np.errstate(all='ignore'):
                R = f(N)
                z = f(S.Matrix(np.zeros((1, w))))
                B = f(S.Matrix(np.eye(w)))
            if not np.isfinite(B.data).all() or not np.isfinite(R.data).all() or np.abs(B.data).max() > 1e7:
                raise Skip()
            M = B.data - z.data
            S.is_matrix('affine in the data', R, k, z.num_columns(), lambda i, j: float(z.data[0, j] + N.data[i] @ M[:, j]), 1e-5)
            if name not in CENTRED:
                S.is_matrix('zero stays zero', z, 1, z.num_columns(), lambda i, j: 0.0, 1e-9)
            elif getattr(m, 'preprocessing_type', None) is None or m.preprocessing_type is enum(S, 'NONE'):
                c = D.data[:split.labelled] if name == 'DIPLS' else D.data
                g = f(S.Matrix(c.mean(axis=0).reshape(1, -1)))
                S.is_matrix('training mean is the origin', g, 1, z.num_columns(), lambda i, j: 0.0, 1e-5)
    run.__name__ = 'affine_' + name
    run.__doc__ = f'{name}: the projection of a trained object is one fixed affine map applied to every row.'
    return run


for _n in LINEAR:
    contract('C20', f'{_n}.transform', f'{_n}.do_transform', trials=10, budget=60)(projects(_n))
    contract('C20', f'{_n}.transform', f'{_n}.initialize', trials=20, sym=False)(affine(_n))


for _n in COEFFICIENTS:
    contract('C20', f'{_n}.predict', f'{_n}.do_perform_predictions', trials=20, budget=60)(regresses(_n))


# ------------------------------------------------------------------------------------------------ the weighting matrices
def difference_covariance(S, X1, X2):
    n, p = X1.num_rows(), X1.num_columns()
    d = lambda i, j: (S.at(X2, i, j) - mean(S, X2, j)) - (S.at(X1, i, j) - mean(S, X1, j))
    return S.build(p, p, lambda a, b: S.sum(n, lambda i: d(i, a) * d(i, b)))


@contract('C20', 'GLSW.get_covariance_matrix', 'EPO.get_covariance_matrix', budget=60)
def weighting_covariance(S):
    """GLSW, EPO: the covariance of the difference of the centred training matrices."""
    name = S.choice('model', ['GLSW', 'EPO'])
    n, p = S.dim('n'), S.dim('p')
    X1, X2 = S.matrix('X1', n, p), S.matrix('X2', n, p)
    m = make(S, name)
    C = difference_covariance(S, X1, X2)
    S.is_matrix('covariance', m.get_covariance_matrix(X1, X2), p, p, lambda a, b: S.at(C, a, b), TOL)
    S.unchanged('X1', X1)
    S.unchanged('X2', X2)


def distinct(w):
    w = np.sort(w)
    return len(w) < 2 or np.diff(w).min() > 1e-6 * (1 + abs(w).max())


def glsw_matrix(S, C, alpha):
    """V D^-1 V^T for the eigenvectors V and the weights D = sqrt(S^2 / alpha + 1) of the covariance C."""
    V = C.get_eigenvalue_decomposition_V()
    D = C.svd_S().pow_elementwise(2).div(alpha)
    D = D.add(S.factory.eye_like(D)).sqrt().inverse()
    return V.mul(D).mul(V.transpose())


def epo_matrix(S, C, N):
    V = C.get_eigenvectors(True)
    V = V.get_sub_matrix((0, V.num_rows()), (0, min(V.num_columns(), N)))
    return V.mul(S.factory.eye(V.num_columns()).inverse()).mul(V.transpose())


@contract('C20', 'GLSW.get_weight_matrix', 'Matrix.svd_S', 'YGradientGLSW.get_weight_matrix', budget=60)
def glsw_weights(S):
    """GLSW: the weights are sqrt(s^2 / alpha + 1) for the singular values s of the covariance."""
    p = S.dim('p', 1, 5)
    C = S.matrix('C', p, p)
    m = make(S, S.choice('model', ['GLSW', 'YGradientGLSW']))
    alpha = S.real('alpha', positive=True)
    m.alpha = alpha
    s = C.get_singular_values()
    S.is_matrix('weights', m.get_weight_matrix(C), p, p,
                lambda i, j: S.ite(S.eqi(i, j), S.sqrt(S.at(s, i, 0) * S.at(s, i, 0) / alpha + 1), 0), TOL)
    S.unchanged('C', C)


@contract('C20', 'GLSW.do_initialize', 'GLSW.initialize', 'EPO.initialize', 'YGradientGLSW.initialize', 'YGradientEPO.initialize', 'GLSW.transform', budget=60)
def weighting_composed(S):
    """GLSW and its variants: training composes the covariance of the two training matrices, its eigenvectors V and weights D into
    V D^-1 V^T, and the trained object multiplies by that."""
    name = S.choice('model', WEIGHTING)
    n, p, r, k = S.dim('n', 2, 5), S.dim('p', 1, 4), S.dim('r', 1, 4), S.dim('k', 1, 4)
    X1, X2, N = S.matrix('X1', n, p), S.matrix('X2', n, 1 if name.startswith('Y') else p), S.matrix('N', k, p)
    C, V, D = S.matrix('C', p, p), S.matrix('V', p, r), S.matrix('D', r, r)
    if S.raises(D.inverse) is not None:
        raise Skip()
    m = make(S, name)
    seen = {}

    def cov(a, b):
        seen['a'], seen['b'] = a, b
        return C

    def vec(c):
        seen['v'] = c
        return V

    def weights(c):
        seen['w'] = c
        return D
    m.get_covariance_matrix, m.get_eigenvector_matrix, m.get_weight_matrix = cov, vec, weights
    S.check('trained', m.initialize(X1, X2) is None)
    S.same_matrix('covariance of the first training matrix', seen['a'], X1)
    S.same_matrix('covariance of the second training matrix', seen['b'], X2)
    S.check('eigenvectors of that covariance', seen['v'] is C)
    S.check('weights of that covariance', seen['w'] is C)
    S.same_matrix('weighting', m.transform(N), N.mul(V.mul(D.inverse()).mul(V.transpose())), 1e-5)
    S.unchanged('X1', X1)
    S.unchanged('X2', X2)
    S.unchanged('N', N)


@contract('C20', 'GLSW.get_eigenvector_matrix', 'YGradientGLSW.get_eigenvector_matrix', budget=60)
def glsw_eigenvectors(S):
    """GLSW: the eigenvectors are those of the covariance."""
    p = S.dim('p', 1, 5)
    C = S.matrix('C', p, p)
    m = make(S, S.choice('model', ['GLSW', 'YGradientGLSW']))
    S.same_matrix('eigenvectors', m.get_eigenvector_matrix(C), C.get_eigenvectors())
    S.unchanged('C', C)


@contract('C20', 'GLSW.do_initialize', 'GLSW.get_weight_matrix', 'GLSW.get_eigenvector_matrix', 'GLSW.transform', sym=False)
def glsw_training(S):
    """GLSW: trained on two matrices, it multiplies by the weighting matrix of their difference covariance."""
    n, p, k = S.dim('n', 2, 6), S.dim('p', 1, 4), S.dim('k', 1, 5)
    X1, X2, N = S.matrix('X1', n, p), S.matrix('X2', n, p), S.matrix('N', k, p)
    m = make(S, 'GLSW')
    alpha = S.real('alpha', positive=True)
    m.alpha = alpha
    S.check('trained', m.initialize(X1, X2) is None)
    C = difference_covariance(S, X1, X2)
    if not distinct(np.linalg.eigvalsh(C.data)) or abs(C.data).max() > 1e8:
        raise Skip()        # the eigenvectors are not unique
    G = glsw_matrix(S, C, alpha)
    S.same_matrix('weighting', m.transform(N), N.mul(G), 1e-5)
    S.unchanged('X1', X1)
    S.unchanged('X2', X2)


@contract('C20', 'EPO.do_initialize', 'EPO.get_weight_matrix', 'EPO.get_eigenvector_matrix', 'EPO.transform', sym=False)
def epo_training(S):
    """EPO: trained on two matrices, it multiplies by the projection on the dominant eigenvectors of their difference covariance."""
    n, p, k = S.dim('n', 3, 7), S.dim('p', 1, 4), S.dim('k', 1, 5)
    X1, X2, N = S.matrix('X1', n, p), S.matrix('X2', n, p), S.matrix('N', k, p)
    m = make(S, 'EPO')
    c = S.int('N', 1, 6)
    m.N = c
    S.check('trained', m.initialize(X1, X2) is None)
    D = (X2.data - X2.data.mean(0)) - (X1.data - X1.data.mean(0))
    w, V = np.linalg.eigh(D.T @ D)
    o = np.argsort(-w)
    c = min(c, p)
    if not distinct(w[o[:c + 1]]):
        raise Skip()        # the dominant eigenvectors are not unique
    G = V[:, o[:c]] @ V[:, o[:c]].T
    S.is_matrix('projection', m.transform(N), k, p, lambda i, j: float(N.data[i] @ G[:, j]), 1e-5)


def gradient(rows):
    e = np.vstack([rows[0], rows[0], rows, rows[-1], rows[-1]])
    c = [.2, .1, 0, -.1, -.2]       # the five-point derivative, with the sign the package uses
    return np.array([sum(c[t] * e[i + t] for t in range(5)) for i in range(len(rows))])


@contract('C20', 'SavitzkyGolayFilter.transform', 'SavitzkyGolayFilter.do_transform', 'SavitzkyGolayFilter.extend_matrix', 'SavitzkyGolayFilter.smooth_row',
          'SavitzkyGolayFilter.shrink_matrix', budget=60)
def gradient_filter(S):
    """The gradient the Y-gradient filters use: five-point differences along the rows, the first and last row repeated outside."""
    n, p = S.dim('n'), S.dim('p')
    X = S.matrix('X', n, p)
    f = S.cls('algorithm.glsw._YGradientGLSW.SavitzkyGolayFilter')()

    def row(i):
        return S.max(0, S.min(i, n - 1))
    S.is_matrix('gradient', f.transform(X), n, p,
                lambda i, j: (S.at(X, row(i - 2), j) - S.at(X, row(i + 2), j)) * .2 + (S.at(X, row(i - 1), j) - S.at(X, row(i + 1), j)) * .1, TOL)
    S.unchanged('X', X)


def gradient_covariance(X, y):
    o = np.argsort(y[:, 0], kind='stable')
    gx, gy = gradient(X[o]), gradient(y[o])[:, 0]
    syd = math.sqrt(((gy - gy.mean()) ** 2).sum() / (len(gy) - 1))
    with np.errstate(all='ignore'):
        w = np.power(2.0, -gy / syd)
    return gx.T @ np.diag(w ** 2) @ gx


@contract('C20', 'YGradientGLSW.get_covariance_matrix', 'YGradientEPO.get_covariance_matrix', sym=False)
def gradient_covariance_matrix(S):
    """YGradientGLSW/-EPO: the covariance of the row gradients, ordered by and weighted with the response gradient."""
    name = S.choice('model', ['YGradientGLSW', 'YGradientEPO'])
    n, p = S.dim('n', 3, 8), S.dim('p', 1, 4)
    X, y = S.matrix('X', n, p), S.matrix('y', n, 1)
    if np.ptp(gradient(np.sort(y.data, axis=0))) < 1e-9:
        raise Skip()
    C = gradient_covariance(X.data, y.data)
    if not np.isfinite(C).all():
        raise Skip()
    S.is_matrix('covariance', make(S, name).get_covariance_matrix(X, y), p, p, lambda a, b: float(C[a, b]), 1e-6)
    S.unchanged('X', X)
    S.unchanged('y', y)


@contract('C20', 'YGradientGLSW.get_covariance_matrix', 'YGradientEPO.get_covariance_matrix', budget=120)
def gradient_covariance_composed(S):
    """YGradientGLSW/-EPO: the rows of both training matrices go to the gradient filter ordered by the response (ties in their order);
    whatever gradients it answers, the covariance is that of the predictor gradients, weighted with 2 to the power of the negative
    response gradient over its standard deviation. The filter itself: gradient_filter."""
    name = S.choice('model', ['YGradientGLSW', 'YGradientEPO'])
    n, p = S.dim('n', 2, 6), S.dim('p', 2, 4)
    X, y = S.matrix('X', n, p), S.matrix('y', n, 1)
    GX, gy = S.matrix('GX', n, p), S.matrix('gy', n, 1)
    o = S.order(n, lambda i: S.at(y, i, 0))
    mean = S.sum(n, lambda i: S.at(gy, i, 0)) / n
    syd = S.sqrt(S.sum(n, lambda i: (S.at(gy, i, 0) - mean) * (S.at(gy, i, 0) - mean)) / (n - 1))
    S.assume(syd > 1e-9)
    if not S.symbolic and np.abs(gy.data / syd).max() > 20:
        raise Skip()
    f = S.cls('algorithm.glsw._YGradientGLSW.SavitzkyGolayFilter')
    seen = []

    def answer(self, M):
        seen.append(M)
        return gy if M.num_columns() == 1 else GX
    whole, f.transform = f.transform, answer
    try:
        C = make(S, name).get_covariance_matrix(X, y)
    finally:
        f.transform = whole
    if len(seen) != 2:
        S.undecided('the gradient filter is not used once per training matrix')
    a, b = seen if seen[1].num_columns() == 1 else seen[::-1]
    S.is_matrix('rows given to the filter', a, n, p, lambda i, j: S.at(X, o(i), j))
    S.is_matrix('responses given to the filter', b, n, 1, lambda i, j: S.at(y, o(i), 0))

    def weight(i):
        return S.power(2.0, -1 * S.at(gy, i, 0) / syd)
    S.is_matrix('covariance', C, p, p, lambda a, b: S.sum(n, lambda i: S.at(GX, i, a) * (weight(i) * weight(i)) * S.at(GX, i, b)), 1e-6)
    S.unchanged('X', X)
    S.unchanged('y', y)


@contract('C20', 'YGradientGLSW.initialize', 'YGradientEPO.initialize', 'YGradientGLSW.transform', 'YGradientEPO.transform', sym=False)
def gradient_weighting_training(S):
    """YGradientGLSW/-EPO: trained objects multiply by the weighting matrix of the gradient covariance."""
    name = S.choice('model', ['YGradientGLSW', 'YGradientEPO'])
    n, p, k = S.dim('n', 4, 8), S.dim('p', 1, 4), S.dim('k', 1, 5)
    X, y, N = S.matrix('X', n, p), S.matrix('y', n, 1), S.matrix('N', k, p)
    if np.ptp(gradient(np.sort(y.data, axis=0))) < 1e-9:
        raise Skip()
    C = gradient_covariance(X.data, y.data)
    if not np.isfinite(C).all() or np.abs(C).max() > 1e8:
        raise Skip()
    m = make(S, name)
    w, V = np.linalg.eigh(C)
    o = np.argsort(-w)
    if name == 'YGradientEPO':
        c = S.int('N', 1, 6)
        m.N = c
        c = min(c, p)
        if not distinct(w[o[:c + 1]]):
            raise Skip()
        G = V[:, o[:c]] @ V[:, o[:c]].T
    else:
        m.alpha = S.real('alpha', positive=True)
        G = glsw_matrix(S, S.Matrix(C), m.alpha).data
        Z = np.random.RandomState(3).uniform(-1, 1, C.shape)
        big = np.abs(C).max()
        near = [C + f * big * (Z + Z.T) for f in (1e-13, -1e-13, 1e-11, -1e-11)] + [np.where(np.abs(C) < 1e-12 * big, 0, C)]
        near = [glsw_matrix(S, S.Matrix(x), m.alpha).data for x in near]
        if not distinct(w) or not all(np.abs(G - x).max() < 1e-7 for x in near):
            raise Skip()        # the order of the eigenvectors depends on the last digits
    S.check('trained', m.initialize(X, y) is None)
    S.is_matrix('weighting', m.transform(N), k, p, lambda i, j: float(N.data[i] @ G[:, j]), 1e-4)


# ------------------------------------------------------------------------------------------------ canonical correlation
@contract('C20', 'CCAFilter.do_initialize', 'CCAFilter.pow_minus_half', 'CCAFilter.transform', 'CCAFilter.transform_response', sym=False, trials=60)
def cca_training(S):
    """CCAFilter: projections of the training data are the regularised canonical variates, strongest first."""
    q = S.dim('q', 1, 3)
    n, p = S.dim('n', 5, 9), q + S.dim('extra', 0, 2)
    X, Y = S.matrix('X', n, p), S.matrix('Y', n, q)
    m = make(S, 'CCAFilter')
    kc = min(S.int('kcca', 1, 3), q)
    m.kcca = kc
    lx, ly = S.real('lx', lo=.05, hi=2), S.real('ly', lo=.05, hi=2)
    m.lambda_X, m.lambda_Y = lx, ly
    S.check('trained', m.initialize(X, Y) is None)
    a, b = X.data - X.data.mean(0), Y.data - Y.data.mean(0)

    def half(A):
        w, V = np.linalg.eigh(A)
        return V @ np.diag(w ** -.5) @ V.T
    hx, hy = half(a.T @ a + lx * np.eye(p)), half(b.T @ b + ly * np.eye(q))
    U, s, Vt = np.linalg.svd(hx @ (a.T @ b) @ hy)
    if np.abs(a).max() > 1e3 or np.abs(b).max() > 1e3 or (len(s) > 1 and np.abs(np.diff(s)).min() < 1e-4) or s.min() < 1e-4:
        raise Skip()
    P = hx @ U[:, :kc]
    R = m.transform(X)
    S.shape('projection', R, n, kc)
    for c in range(kc):
        e, g = a @ P[:, c], R.data[:, c]
        sg = 1 if e @ g >= 0 else -1
        S.forall('canonical variate', (n,), lambda i: S.eq(g[i], sg * e[i], 1e-4))
    T = m.transform_response(Y)
    S.shape('response projection', T, n, kc)


@contract('C20', 'CCAFilter.do_initialize', 'CCAFilter.initialize', budget=120, trials=200)
def cca_composed(S):
    """CCAFilter: with the inverse square roots of the regularised covariances of the centred training data, whatever they are, the
    predictor projection is the inverse root times the leading left singular vectors of the whitened cross covariance."""
    n, q = S.dim('n', 2, 8), S.dim('q', 1, 3)
    p = q + S.dim('extra', 1, 3)
    X, Y, HX, HY = S.matrix('X', n, p), S.matrix('Y', n, q), S.matrix('HX', p, p), S.matrix('HY', q, q)
    m = make(S, 'CCAFilter')
    kc, lx, ly = S.int('kcca', 1, 3), S.real('lx', positive=True), S.real('ly', positive=True)
    S.assume(S.and_(kc >= 1, kc <= q))
    m.kcca, m.lambda_X, m.lambda_Y = kc, lx, ly
    seen = []

    def root(A):
        seen.append(A)
        return HX if A.num_rows() == p else HY
    m.pow_minus_half = root
    S.check('trained', m.initialize(X, Y) is None)
    if len(seen) != 2:
        S.undecided('the inverse root is not taken once per covariance')
    a, b = seen if seen[0].num_rows() == p else seen[::-1]

    def centred(M, w):
        return S.build(n, w, lambda i, j: S.at(M, i, j) - mean(S, M, j))

    def regularised(M, w, lam):
        c = centred(M, w)
        return lambda i, j: S.sum(n, lambda k: S.at(c, k, i) * S.at(c, k, j)) + S.ite(S.eqi(i, j), lam, 0)
    S.is_matrix('predictor covariance', a, p, p, regularised(X, p, lx), 1e-6)
    S.is_matrix('response covariance', b, q, q, regularised(Y, q, ly), 1e-6)
    cross = centred(X, p).transpose().mul(centred(Y, q))
    omega = HX.mul(cross).mul(HY)
    if not S.symbolic:
        w = np.linalg.svd(omega.data)[1]
        if not distinct(w / w.max()) or w.min() < 1e-4 * w.max():
            raise Skip()        # the singular vectors are not unique
        flat = [a.data for a in (X, Y, HX, HY)]
        if any(np.abs(a).max() > 100 or np.linalg.svd(a - (a.mean(0) if k < 2 else 0))[1].min() < 1e-2 for k, a in enumerate(flat)):
            raise Skip()        # differences of large numbers leave noise
    U = omega.svd_U().normalized(0)
    P = HX.mul(U.get_sub_matrix((0, p), (0, kc)))
    if not S.symbolic:          # singular vectors are unique up to their sign
        P = S.build(p, kc, lambda i, j: P.data[i, j] * (-1 if m.proj_X.data.shape == P.data.shape and m.proj_X.data[:, j] @ P.data[:, j] < 0 else 1))
    S.same_matrix('projection', m.proj_X, P, 1e-5)
    S.unchanged('X', X)
    S.unchanged('Y', Y)


@contract('C20', 'CCAFilter.pow_minus_half', budget=60)
def cca_root(S):
    """The inverse root is V diag(w)^-1/2 V^T for the eigenvalues w and eigenvectors V the matrix answers, strongest first."""
    p = S.dim('p', 1, 5)
    A, w, V = S.matrix('A', p, p), S.matrix('w', p, 1, positive=True), S.matrix('V', p, p)
    asked = set()

    def answer(what, M):
        def ask(*a, **k):
            asked.add((what, *a, *k.values()))
            return M
        return ask
    A.get_eigenvalues_sorted_descending = answer('values', w)
    A.get_eigenvectors = answer('vectors', V)
    A.get_eigenvectors_sorted_descending = answer('vectors', V)
    D = S.factory.diag(w).sqrt()
    if S.raises(D.inverse) is not None:
        raise Skip()
    R = make(S, 'CCAFilter').pow_minus_half(A)
    if len(asked) != 2 or ('vectors', False) in asked:
        S.undecided('the decomposition is asked in another way')
    S.same_matrix('root', R, V.mul(D.inverse()).mul(V.transpose()), 1e-5)


# ------------------------------------------------------------------------------------------------ principal components
@contract('C20', 'PCA.fill_correlation', budget=60)
def pca_covariance(S):
    """The covariance matrix PCA diagonalises."""
    n, p = S.dim('n', 2), S.dim('p')
    M = S.matrix('M', n, p)
    m = make(S, 'PCA')
    m.train, m.num_cols = M, p
    m.fill_correlation()
    S.is_matrix('covariance', m.correlation, p, p, lambda a, b: S.sum(n, lambda i: S.at(M, i, a) * S.at(M, i, b)) / (n - 1), TOL)
    S.unchanged('M', M)


@contract('C20', 'PCA.transform', 'PCA.configure', 'PCA.do_transform', 'PCA.get_coefficients', 'PCA.extract_loadings', sym=False, trials=120)
def pca_scores(S):
    """Scores are the projections on the covariance eigenvectors in order of decreasing eigenvalue, as many as variance target and
    column limit demand; the loadings list the same eigenvectors over all input columns."""
    n0, n1, p0, p1 = S.choice('size', [(3, 9, 1, 5)] * 3 + [(10, 40, 6, 16)])
    n, p = S.dim('n', n0, n1), S.dim('p', p0, p1)
    kind = S.choice('data', ['any', 'varies only in the last rows', 'nearly collinear', 'one column on a small scale'])
    big = S.dim('k', 1, S.choice('of', [4, 12]))
    if kind == 'any':
        X = S.matrix('X', n, p)
    else:
        Z = S.matrix('Z', n, p).data
        if kind == 'one column on a small scale':
            D = Z * np.array([1e-9 if j == min(big, p) - 1 else 1.0 for j in range(p)])
        elif kind == 'nearly collinear':
            D = np.array([[Z[i, 0] + 10.0 ** -(j % 3 + 1) * (Z[i, j] if j else 0) for j in range(p)] for i in range(n)])
        else:
            D = np.array([[Z[i, j] if j != big - 1 or i >= n - 2 else 0.5 for j in range(p)] for i in range(n)])
        X = S.build(n, p, lambda i, j: D[i, j])
    before = X.data.copy()
    m = make(S, 'PCA')
    cen = S.bool('center')
    m.center = cen
    target = S.real('variance', lo=.05, hi=.999)
    near = S.choice('target', ['any', 'just reached', 'just missed'])
    mx = S.choice('max columns', [-1, 1, 2, 3, 6, 10])
    m.max_columns = mx
    keep = [j for j in range(p) if len(set(X.data[:, j])) > 1]
    if not keep:
        raise Skip()
    D = X.data[:, keep] - X.data[:, keep].mean(0)
    if not cen:
        D = D / D.std(0, ddof=1)
    w, V = np.linalg.eigh(D.T @ D / (n - 1))
    w = np.maximum(w, 0)
    o = np.argsort(-w, kind='stable')
    w, V = w[o], V[:, o]
    cum = np.cumsum(w) / w.sum()
    lim = len(keep) if mx < 0 else min(mx, len(keep))
    if near != 'any':
        # next to the share of variance some number of components explains
        z = cum[min(big, len(keep)) - 1]
        target = z - 1e-6 if near == 'just reached' else z + 1e-6
        if not 0 < target < 1:
            raise Skip()
    m.variance = target
    c = next((i + 1 for i in range(lim) if cum[i] >= target), lim)
    if any(abs(cum[i] - target) < 1e-9 for i in range(lim)):
        raise Skip()
    R = m.transform(X)
    S.shape('as many components as demanded', R, n, c)
    L = m.loadings
    S.shape('loadings', L, p, c + 1)
    for i in range(c):
        gap = min([abs(w[i] - w[z]) for z in range(len(w)) if z != i] or [1])
        if gap < 1e-6 * (1 + w[0]):
            continue
        e, g = D @ V[:, i], R.data[:, i]
        sg = 1 if e @ g >= 0 else -1
        S.forall('component %d' % i, (n,), lambda r: S.eq(g[r], sg * e[r], 1e-5))
        S.forall('loading %d' % i, (p,), lambda j: S.eq(L.data[j, i], sg * V[keep.index(j), i] if j in keep else 0.0, 1e-5) or (w[i] < 1e-9))
    S.forall('index column', (p,), lambda j: S.eq(L.data[j, c], j + 1))
    S.check('X unchanged', (X.data == before).all())


def fitted_pca(S):
    """A PCA in any state configure can leave it in: eigenvectors, non-negative eigenvalues and their ascending order arbitrary."""
    p, mx = S.dim('p', 2), S.choice('max columns', ['off', 'set'])
    m = make(S, 'PCA')
    known_state(S, 'PCA', m)
    m.num_cols, m.num_input_cols = p, p
    m.keep_cols = S.intlist('kept', p, 0, p)      # as long as the data is wide: nothing to remove
    m.max_columns = -1 if mx == 'off' else S.dim('max')
    m.variance = S.real('variance', lo=.05, hi=.95)
    m.eigenvectors, m.eigenvalues = S.matrix('E', p, p), S.matrix('eigenvalues', p, 1, positive=True)
    m.sorted_eigens = S.intlist('order', p, 0, p)
    if not S.symbolic:
        m.sorted_eigens = np.array(m.sorted_eigens)
    m.sum_of_eigenvalues = S.sum(p, lambda i: S.at(m.eigenvalues, i, 0)) if not S.symbolic else S.real('sum', positive=True)
    limit = p if mx == 'off' else S.min(p, m.max_columns)
    return m, p, limit


def components_demanded(S, m, p, limit, c):
    """c is the least number of leading components that explain the variance asked for, at most the limit."""
    value = lambda i: S.at(m.eigenvalues, S.item(m.sorted_eigens, p - 1 - i), 0)
    share = lambda k: S.sum(k, value) / m.sum_of_eigenvalues
    S.check('at least one component, at most the limit', S.and_(c >= 1, c <= limit))
    S.forall('no fewer components explain enough', (c - 1,), lambda k: S.not_(share(k + 1) >= m.variance))
    S.check('the components explain enough', S.or_(S.eqi(c, limit), share(c) >= m.variance))


def reduced_pca(S):
    """A PCA which keeps the listed columns of its input: (model, number of input columns, kept ones in ascending order)."""
    q, p = S.dim('columns', 1, 6), S.dim('kept columns', 1, 6)
    S.assume(p <= q)
    m = make(S, 'PCA')
    known_state(S, 'PCA', m)
    keep = S.intlist('kept', p, 0, q)
    if not S.symbolic:
        keep = sorted(S.rng.sample(range(q), p))
    S.assume(S.every((p, p), lambda a, b: S.implies(a < b, S.item(keep, a) < S.item(keep, b))))
    m.keep_cols, m.num_cols, m.num_input_cols = keep, p, q
    return m, q, p, keep


@contract('C20', 'PCA.remove_columns')
def pca_remove_columns(S):
    """Exactly the kept columns remain, in order."""
    m, q, p, keep = reduced_pca(S)
    n = S.dim('n')
    X = S.matrix('X', n, q)
    S.assume(p < q)
    S.is_matrix('kept', m.remove_columns(X), n, p, lambda i, j: S.at(X, i, S.item(keep, j)), exact=True)
    S.unchanged('X', X)


@contract('C20', 'PCA.extract_loadings', budget=60)
def pca_loadings(S):
    """The loadings have one row per input column: the coefficients for the kept ones, zero for the others, and the column number."""
    m, q, p, keep = reduced_pca(S)
    c = S.dim('components', 1, 4)
    C = S.matrix('coefficients', c, p)
    m.get_coefficients = lambda: C.to_raw_copy_2D()
    L = m.extract_loadings()
    S.shape('loadings', L, q, c + 1)
    S.forall('column number', (q,), lambda j: S.eq(S.at(L, j, c), j + 1))
    S.forall('kept columns', (p, c), lambda z, i: S.eq(S.at(L, S.item(keep, z), i), S.at(C, i, z)))
    S.forall('removed columns', (q, c), lambda j, i: S.implies(S.not_(S.member(keep, j)), S.eq(S.at(L, j, i), 0)))


@contract('C20', 'PCA.do_transform', budget=120)
def pca_projects(S):
    """Scores = (fitted) data times the eigenvectors in descending order, as many as the variance target and the limit demand."""
    pca_projection(S, *fitted_pca(S))


def pca_projection(S, m, p, limit):
    m.transformation = Columnwise(S, 'X', p, False)
    n = S.dim('n')
    X = S.matrix('X', n, p)
    R = m.do_transform(X)
    c = R.num_columns()
    D = m.transformation.transform(X)
    S.check('rows', S.eqi(R.num_rows(), n))
    components_demanded(S, m, p, limit, c)
    S.forall('scores', (n, c), lambda r, i: S.eq(S.at(R, r, i), S.sum(p, lambda j: S.at(m.eigenvectors, j, S.item(m.sorted_eigens, p - 1 - i)) * S.at(D, r, j)), 1e-6))
    S.unchanged('X', X)


@contract('C20', 'PCA.get_coefficients', budget=90)
def pca_coefficients(S):
    """The coefficients of the principal components: the same eigenvectors, as many."""
    m, p, limit = fitted_pca(S)
    L = m.get_coefficients()
    c = S.len(L)
    components_demanded(S, m, p, limit, c)
    S.forall('coefficients', (c, p), lambda i, j: S.eq(S.item(S.item(L, i), j), S.at(m.eigenvectors, j, S.item(m.sorted_eigens, p - 1 - i)), 1e-9))
