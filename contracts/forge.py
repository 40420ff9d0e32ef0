"""Arbitrary trained objects: the state training leaves behind, with any contents."""
from .c17 import make, enum

SINGLE = ['PLS1', 'VCPLS', 'SIMPLS', 'OPLS', 'PRM', 'SparsePLS', 'DIPLS']
MULTI = ['KernelPLS', 'NIPALS', 'CCARegression']
NAMES = SINGLE + MULTI
PRE = ['NONE', 'CENTER', 'STANDARDIZE']
WEIGHTING = ['GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO']


class Columnwise:
    """A configured Center or Standardize as its own contract (C12) describes it: (x - m_j) / s_j for some m, and some s > 0 (1 if it only centres)."""

    def __init__(self, S, tag, p, scaling):
        self.S = S
        self.m = S.matrix('trained means ' + tag, 1, p)
        self.s = S.matrix('trained scales ' + tag, 1, p, positive=True) if scaling else None
        self.configured = True

    def transform(self, data):
        S = self.S
        if self.s is None:
            return S.build(data.num_rows(), data.num_columns(), lambda i, j: S.at(data, i, j) - S.at(self.m, 0, j))
        return S.build(data.num_rows(), data.num_columns(), lambda i, j: (S.at(data, i, j) - S.at(self.m, 0, j)) / S.at(self.s, 0, j))

    def inverse_transform(self, data):
        S = self.S
        if self.s is None:
            return S.build(data.num_rows(), data.num_columns(), lambda i, j: S.at(data, i, j) + S.at(self.m, 0, j))
        return S.build(data.num_rows(), data.num_columns(), lambda i, j: S.at(data, i, j) * S.at(self.s, 0, j) + S.at(self.m, 0, j))

    def get_means(self):
        return self.m

    def get_std_devs(self):
        return self.s


_PLS = 'class_mean class_std_dev debug initialised logger num_components preprocessing_type trans_predictors trans_response '
STATE = {
    'PLS1': _PLS + 'P W b_hat r_hat',
    'VCPLS': _PLS + 'P W b_hat r_hat lambda_',
    'SIMPLS': _PLS + 'B Q W num_coefficients',
    'KernelPLS': _PLS + 'B_RHS K_deflated K_orig P Q T U X center_X center_Y kernel max_iter tol',
    'NIPALS': _PLS + 'X X_loadings X_rotations X_scores X_weights Y_loadings Y_rotations Y_scores Y_weights coef deflation_mode max_iter '
                     'norm_Y_weights standardize_X standardize_Y tol',
    'CCARegression': _PLS + 'X X_loadings X_rotations X_scores X_weights Y_loadings Y_rotations Y_scores Y_weights coef max_iter '
                            'norm_Y_weights standardize_X standardize_Y tol',
    'OPLS': _PLS + 'P_orth T_orth W_orth X_osc base_PLS',
    'PRM': _PLS + 'C T W_r W_x final_regression_coefficients gamma max_iter num_SIMPLS_coefficients projection simpls tol',
    'SparsePLS': _PLS + 'A B_pls W lambda_ max_iter standardize_X standardize_Y tol',
    'DIPLS': _PLS + 'P P_s P_t T T_s T_t W_di X_center X_s_center X_t_center b_0 b_di lambda_ model_adaption_strategy ns nt',
    'CCAFilter': 'center_X center_Y debug initialised kcca lambda_X lambda_Y logger proj_X proj_Y',
    'PCA': 'center correlation debug eigenvalues eigenvectors initialised keep_cols loadings logger max_columns num_cols num_input_cols num_rows '
           'scores sorted_eigens sum_of_eigenvalues train transformation variance',
    'GLSW': 'G alpha debug initialised logger', 'EPO': 'G N alpha debug initialised logger',
    'YGradientGLSW': 'G alpha debug initialised logger', 'YGradientEPO': 'G N alpha debug initialised logger',
}


def known_state(S, name, m):
    """An arbitrary trained object can only be written down while the class keeps the state it keeps now."""
    if {k for k in vars(m) if not k.startswith('_')} != set(STATE[name].split()):
        S.undecided(f'{name} keeps other state than the contract knows')
    S.forged = True


def forged(S, name, kinds=PRE):
    """A trained model with arbitrary trained matrices: (model, columns of the data, responses)."""
    m = make(S, name)
    known_state(S, name, m)
    p, a = S.dim('p'), S.dim('a')
    q = 1 if name in SINGLE else S.dim('q')
    M = lambda s, r, c: S.matrix('trained ' + s, r, c)
    m.num_components = a
    if name in ('PLS1', 'VCPLS'):
        m.W, m.P, m.b_hat = M('W', p, a), M('P', p, a), M('b', a, 1)
    elif name == 'SIMPLS':
        m.W, m.B = M('W', p, a), M('B', p, q)
    elif name == 'KernelPLS':
        n = S.dim('n', 2)
        m.X, m.U, m.K_orig, m.B_RHS = M('X', n, p), M('U', n, a), M('K', n, n), M('B', a, q)
        m.kernel = getattr(S.mod('transformation.kernel'), S.choice('kernel', ['LinearKernel', 'PolyKernel', 'RBFKernel']))()
        m.X, m.U, m.K_orig, m.B_RHS = M('X', n, p), M('U', n, a), M('K', n, n), M('B', a, q)        # setting the kernel resets
        m.center_X, m.center_Y = Columnwise(S, 'Xc', p, False), Columnwise(S, 'Yc', q, False)
    elif name in ('NIPALS', 'CCARegression'):
        m.coef, m.X_rotations, m.Y_rotations = M('coef', p, q), M('R', p, a), M('RY', q, a)
        m.standardize_X, m.standardize_Y = Columnwise(S, 'Xc', p, True), Columnwise(S, 'Yc', q, True)
    elif name == 'OPLS':
        b = make(S, 'SIMPLS')
        known_state(S, 'SIMPLS', b)
        b.W, b.B = M('W2', p, a), M('B2', p, 1)
        m.base_PLS = b
        b.initialised = True
        m.W_orth, m.P_orth = M('W', p, a), M('P', p, a)        # setting the base model resets
    elif name == 'PRM':
        m.final_regression_coefficients, m.projection = M('B', p, 1), M('W', p, a)
    elif name == 'SparsePLS':
        m.A = S.indexset('selected', S.dim('s'), p)[0]
        m.B_pls, m.W = M('B', p, 1), M('W', p, a)
        m.standardize_X, m.standardize_Y = Columnwise(S, 'Xc', p, True), Columnwise(S, 'Yc', q, True)
    elif name == 'DIPLS':
        st = S.cls('algorithm.pls._DIPLS.ModelAdaptionStrategy')
        m.model_adaption_strategy = S.choice('strategy', [st.UNSUPERVISED, st.SUPERVISED, st.SEMISUPERVISED])
        m.X_center, m.X_t_center, m.X_s_center = [Columnwise(S, t, p, False) for t in ('Xc', 'Xtc', 'Xsc')]
        m.b_di, m.b_0, m.W_di = M('b', p, 1), S.real('b0'), M('W', p, a)
    kind = S.choice('preprocessing', kinds)
    if kind != 'NONE':
        m.trans_predictors, m.trans_response = Columnwise(S, 'Xp', p, kind == 'STANDARDIZE'), Columnwise(S, 'Yp', q, kind == 'STANDARDIZE')
        if name in SINGLE:
            m.class_mean, m.class_std_dev = S.real('cm'), S.real('cs')
        else:
            m.class_mean, m.class_std_dev = S.reallist('cm', q), S.reallist('cs', q)
    m.initialised = True
    return m, p, q


def trained_filter(S, name):
    """An arbitrary trained filter."""
    m, p = make(S, name), S.dim('p')
    known_state(S, name, m)
    if name == 'CCAFilter':
        q, a = S.dim('q'), S.dim('a')
        m.center_X, m.center_Y = Columnwise(S, 'X', p, False), Columnwise(S, 'Y', q, False)
        m.proj_X, m.proj_Y = S.matrix('trained px', p, a), S.matrix('trained py', q, a)
    else:
        m.G = S.matrix('trained G', p, p)
    m.initialised = True
    return m, p


def trained(S, name):
    """An arbitrary trained object: (object, columns of the data it takes)."""
    return trained_filter(S, name) if name in WEIGHTING + ['CCAFilter'] else forged(S, name)[:2]
