"""C01, beyond the matrix operations: transformations, filters, kernels, training and prediction leave what they are given alone."""
import numpy as np

from engine.dsl import contract, Skip
from .c11 import make as transformation, WRAPPED
from .c15 import filt
from .c16 import kern
from .c17 import make, MODELS, SUPERVISED
from .c18 import train, training_data, answers
from .forge import trained, known_state


def _transforming(name):
    def run(S):
        lo = 4 if name in ('PowerTransformer', 'QuantileTransformer') else 2
        n, k = S.dim('n', lo), S.dim('k', lo)
        m = S.dim('m', 5 if name.startswith('SavitzkyGolay') else 2)
        if name == 'MultiplicativeScatterCorrection':
            k = n
        pos = name == 'Log'
        rows = S.dim('rows of C') if name not in ('RowNorm', 'MultiplicativeScatterCorrection') else k
        A, B, C = [S.matrix(x, r, m, positive=pos) for x, r in (('A', n), ('B', k), ('C', rows))]
        t = transformation(S, name)
        if name.startswith('SavitzkyGolay'):
            if name == 'SavitzkyGolay2':
                t.num_points = 2
            else:
                t.num_points_left, t.num_points_right = 2, 1
        with np.errstate(all='ignore'):
            for M in (A, B):
                try:
                    t.transform(M)
                except ValueError:
                    if name not in WRAPPED or S.symbolic:
                        raise           # sklearn refuses what overflows on the way
            try:
                t.inverse_transform(C)
            except Exception:
                pass
        for x, M in (('A', A), ('B', B), ('C', C)):
            S.unchanged(x, M)
    run.__name__ = 'transformation_' + name
    run.__doc__ = f'{name}: fitting, transforming and inverting change no matrix given to them.'
    return run


for _n in ('Center', 'Standardize', 'RowNorm', 'Log', 'PassThrough', 'RobustScaler', 'PowerTransformer', 'QuantileTransformer', 'SavitzkyGolay',
           'SavitzkyGolay2', 'MultiplicativeScatterCorrection', 'FFT'):
    contract('C01', f'{_n}.transform', f'{_n}.configure', f'{_n}.do_transform', f'{_n}.inverse_transform', trials=16, budget=30)(_transforming(_n))


@contract('C01', 'Downsample.transform', 'Equidistance.transform', 'MultiFilter.transform', trials=30, budget=30)
def filters(S):
    """Filters and chains of filters change no matrix given to them."""
    n, m = S.dim('n'), S.dim('m', 3)
    A = S.matrix('A', n, m)
    ds = filt(S, 'Downsample')
    ds.step = S.choice('step', [1, 2, 3])
    eq = filt(S, 'Equidistance', S.choice('samples', [2, 3]))
    f = S.choice('filter', [ds, eq, S.mod('core').MultiFilter([ds, eq]), S.mod('core').MultiFilter([eq, S.mod('transformation').Center()])])
    f.transform(A)
    S.unchanged('A', A)


@contract('C01', 'AbstractKernel.apply_matrix', 'LinearKernel.apply_vector', 'PolyKernel.apply_vector', 'RBFKernel.apply_vector', trials=30, budget=30)
def kernels(S):
    """Kernels change neither of their matrices."""
    n, k, m = S.dim('n'), S.dim('k'), S.dim('m')
    X, Y = S.matrix('X', n, m), S.matrix('Y', k, m)
    K = kern(S, S.choice('kernel', ['LinearKernel', 'PolyKernel', 'RBFKernel']))
    one = S.bool('one matrix')
    R = K.apply_matrix(X, X if one else Y)
    S.unchanged('X', X)
    S.unchanged('Y', Y)
    S.fresh('kernel matrix', R, X, Y)


def _training(name):
    def run(S):
        if S.symbolic:
            m = make(S, name)
            n, p = S.dim('rows'), S.dim('cols')
            q = 1 if name not in ('KernelPLS', 'NIPALS', 'CCARegression', 'CCAFilter', 'GLSW', 'EPO') else p if name in ('GLSW', 'EPO') else S.dim('q')
            X, Y = S.matrix('X', n, p), S.matrix('Y', n, q)
            given = []

            def fit(predictors, response):
                given.append((predictors, response))
                return None
            m.do_initialize = fit
            if name == 'DIPLS':
                m.initialize_unsupervised(X, X, Y)
            else:
                m.initialize(X, Y)
            for P, R in given:      # whatever training does to these, the caller's matrices are out of its reach
                S.fresh('what training works on', P, X, Y)
                S.fresh('what training works on', R, X, Y)
        else:
            X, Y, p, q, split = training_data(S, name, 'A')
            m = make(S, name)
            m_ = S.dim('components', 1, 3)
            if hasattr(m, 'num_components'):
                m.num_components = m_
                m.preprocessing_type = S.choice('preprocessing', list(S.mod('core').PreprocessingType))
            try:
                train(S, name, m, X, Y, split)
            except Skip:
                pass
        S.unchanged('X', X)
        S.unchanged('Y', Y)
    run.__name__ = 'training_' + name
    run.__doc__ = f'{name}: training changes no matrix given to it.'
    return run


def _answering(name):
    def run(S):
        if S.symbolic:
            m, p = trained(S, name)
        else:
            X, Y, p, q, split = training_data(S, name, 'A')
            m = make(S, name)
            if hasattr(m, 'num_components'):
                m.num_components = S.dim('components', 1, 3)
                m.preprocessing_type = S.choice('preprocessing', list(S.mod('core').PreprocessingType))
            if train(S, name, m, X, Y, split) is not None:
                raise Skip()
        N = S.matrix('N', S.dim('k'), p)
        answers(S, name, m, N)
        S.unchanged('N', N)
        if not S.symbolic:
            S.unchanged('X', X)
            S.unchanged('Y', Y)
    run.__name__ = 'answering_' + name
    run.__doc__ = f'{name}: transforming and predicting change no matrix given to them.'
    return run


for _n in SUPERVISED:
    contract('C01', f'{_n}.initialize', f'{_n}.do_initialize', trials=12, budget=30)(_training(_n))
    contract('C01', f'{_n}.transform', f'{_n}.predict', trials=12, budget=60)(_answering(_n))


@contract('C01', 'PCA.transform', 'PCA.configure', 'FastICA.transform', 'FastICA.configure', trials=30, sym=False)
def unsupervised(S):
    """PCA, FastICA: transforming changes no matrix given to it."""
    X = S.matrix('X', S.dim('rows', 5, 9), S.dim('cols', 2, 4))
    m = make(S, S.choice('model', ['PCA', 'FastICA']))
    with np.errstate(all='ignore'):
        for _ in range(2):
            try:
                m.transform(X)
            except (ArithmeticError, ValueError, np.linalg.LinAlgError):
                pass
    S.unchanged('X', X)
