"""C11: transformations fit once, stay fitted, refit after a parameter change or reset; invalid parameters are refused."""
import functools

from engine.dsl import contract, Skip

WRAPPED = ('RobustScaler', 'PowerTransformer', 'QuantileTransformer')


def make(S, name):
    T = S.mod('transformation')
    if name == 'YGradientGLSWSavitzkyGolayFilter':
        return S.cls('transformation._YGradientGLSWSavitzkyGolayFilter.YGradientGLSWSavitzkyGolayFilter')()
    t = getattr(T, name)()
    if name == 'QuantileTransformer':
        t.n_quantiles = 4
        t.random_state = 1
    return t


def fit_once(S, name, n, k, p, m, tol=1e-9):
    """transform(A), transform(X), transform(N): the last equals what a twin fitted on A alone gives."""
    A, X, N = S.matrix('A', n, m), S.matrix('X', k, m), S.matrix('N', p, m)
    t, u = make(S, name), make(S, name)
    t.transform(A)
    t.transform(X)
    if S.bool('inverse between') and name in ('Center', 'Standardize', 'PassThrough', 'RobustScaler'):
        t.inverse_transform(X)
    u.transform(A)
    r1, r2 = t.transform(N), u.transform(N)
    S.same_matrix('later data does not change the fit', r1, r2, tol)
    for M, nm in ((A, 'A'), (X, 'X'), (N, 'N')):
        S.unchanged(nm, M)
    return t


def refit(S, name, n, k, p, m, tol=1e-9):
    """After reset the next matrix is fitted as by a fresh object."""
    A, X, N = S.matrix('A', n, m), S.matrix('X', k, m), S.matrix('N', p, m)
    t, u = make(S, name), make(S, name)
    t.transform(A)
    t.reset()
    S.same_matrix('after reset: first transform', t.transform(X), u.transform(X), tol)
    S.same_matrix('after reset: later transform', t.transform(N), u.transform(N), tol)


def _dims(S, lo=2, later=1):
    return S.dim('n', lo), S.dim('k', later), S.dim('p', 1), S.dim('m')


def overflowing(run):
    """sklearn refuses data whose powers are not finite: nothing to compare then."""
    @functools.wraps(run)
    def inner(S):
        try:
            return run(S)
        except ValueError as e:
            if not S.symbolic and 'infinity or a value too large' in str(e):
                raise Skip()
            raise
    return inner


@contract('C11', 'AbstractTransformation.transform', 'Center.configure', 'Center.do_transform')
def center_fits_once(S):
    """Center keeps the statistics of the first matrix."""
    fit_once(S, 'Center', *_dims(S))


@contract('C11', 'AbstractTransformation.transform', 'Standardize.configure', 'Standardize.do_transform')
def standardize_fits_once(S):
    """Standardize keeps the statistics of the first matrix."""
    fit_once(S, 'Standardize', *_dims(S))


@contract('C11', 'RobustScaler.configure', 'RobustScaler.do_transform')
def robust_scaler_fits_once(S):
    """RobustScaler keeps the fit of the first matrix."""
    fit_once(S, 'RobustScaler', *_dims(S))


@contract('C11', 'PassThrough.do_transform', 'Log.do_transform', 'MultiplicativeScatterCorrection.configure', trials=60)
def stateless_and_msc_fit_once(S):
    """PassThrough, FFT-free transformations and scatter correction (average spectrum) keep the first fit."""
    n, k, p, m = _dims(S)
    if S.bool('msc'):
        A, X, N = S.matrix('A', n, m + 1), S.matrix('X', n, m + 1), S.matrix('N', n, m + 1)
        t, u = make(S, 'MultiplicativeScatterCorrection'), make(S, 'MultiplicativeScatterCorrection')
        t.configure(A)
        t.transform(X)
        t.transform(N)
        u.configure(A)
        S.same_matrix('average spectrum', t.average, u.average)
    else:
        fit_once(S, 'PassThrough', n, k, p, m)


@contract('C11', 'PowerTransformer.configure', 'QuantileTransformer.configure', trials=60)
@overflowing
def sklearn_fits_once(S):
    """PowerTransformer and QuantileTransformer keep the fit of the first matrix."""
    fit_once(S, S.choice('which', ['PowerTransformer', 'QuantileTransformer']), *_dims(S, 4))


FITTED = {
    'PassThrough': 'configured', 'Center': 'configured means', 'Standardize': 'configured means std_devs', 'Log': 'configured base offset',
    'RobustScaler': 'configured with_centering with_scaling quantile_range _intern',
    'PowerTransformer': 'configured method standardise _intern',
    'QuantileTransformer': 'configured n_quantiles output_distribution ignore_implicit_zeroes subsample random_state _intern',
}
INVERTIBLE = ('PassThrough', 'Center', 'Standardize', 'RobustScaler', 'Log')


def stays(S, name, lo=2, tol=1e-9):
    """One use of a fitted object, whatever the data, leaves every fitted attribute as it is: hence any sequence of uses does."""
    n, k, p, m = _dims(S, lo)
    pos = name == 'Log'
    A, X, N = S.matrix('A', n, m, positive=pos), S.matrix('X', k, m, positive=pos), S.matrix('N', p, m, positive=pos)
    t = make(S, name)
    t.transform(A)
    before = dict(vars(t))
    cells = {a: S.cells(v) for a, v in before.items() if isinstance(v, S.Matrix)}
    first = t.transform(N)
    if name in INVERTIBLE and S.bool('inverse'):
        t.inverse_transform(X)
    else:
        t.transform(X)
    S.same_matrix('the same answer', t.transform(N), first, tol)
    if not S.symbolic:
        return
    if set(before) != set(FITTED[name].split()):
        S.undecided('the fitted state of ' + name + ' is kept in other attributes than those this contract knows')
    for a, v in before.items():
        w = getattr(t, a)
        if a in cells:
            S.is_matrix(a + ' unchanged', w, v.num_rows(), v.num_columns(), cells[a], exact=True)
        else:
            S.check(a + ' unchanged', w is v or w == v)


@contract('C11', 'AbstractTransformation.transform', 'AbstractTransformation.inverse_transform', 'Center.do_transform', 'Center.do_inverse_transform')
def center_stays_fitted(S):
    """Using a fitted Center changes nothing it has fitted."""
    stays(S, 'Center')


@contract('C11', 'AbstractTransformation.transform', 'AbstractTransformation.inverse_transform', 'Standardize.do_transform', 'Standardize.do_inverse_transform')
def standardize_stays_fitted(S):
    """Using a fitted Standardize changes nothing it has fitted."""
    stays(S, 'Standardize')


@contract('C11', 'RobustScaler.do_transform', 'RobustScaler.do_inverse_transform')
def robust_scaler_stays_fitted(S):
    """Using a fitted RobustScaler changes nothing it has fitted."""
    stays(S, 'RobustScaler')


@contract('C11', 'PowerTransformer.do_transform', 'QuantileTransformer.do_transform', trials=60)
@overflowing
def sklearn_stays_fitted(S):
    """Using a fitted PowerTransformer or QuantileTransformer changes nothing it has fitted."""
    stays(S, S.choice('which', ['PowerTransformer', 'QuantileTransformer']), 4)


@contract('C11', 'PassThrough.do_transform', 'Log.do_transform', 'Log.do_inverse_transform')
def passthrough_log_stay(S):
    """PassThrough and Log keep their parameters."""
    stays(S, S.choice('which', ['PassThrough', 'Log']))


@contract('C11', 'Center.reset', 'Standardize.reset', 'AbstractTransformation.reset')
def center_standardize_refit(S):
    """After reset Center and Standardize fit the next matrix like a fresh object."""
    refit(S, S.choice('which', ['Center', 'Standardize']), *_dims(S, 2, 2))


@contract('C11', 'RobustScaler.reset')
def robust_scaler_refit(S):
    """After reset RobustScaler fits the next matrix like a fresh object."""
    refit(S, 'RobustScaler', *_dims(S, 2, 2))


@contract('C11', 'PowerTransformer.reset', 'QuantileTransformer.reset', trials=40)
@overflowing
def sklearn_refit(S):
    """After reset the sklearn wrappers fit the next matrix like a fresh object."""
    refit(S, S.choice('which', ['PowerTransformer', 'QuantileTransformer']), *_dims(S, 4, 4))


# -------------------------------------------------------------------------------- parameters

SETTINGS = {
    'RobustScaler': [('with_centering', False, None), ('with_scaling', False, None), ('quantile_range', (10.0, 80.0), (60.0, 40.0)), ('quantile_range', (5.0, 50.0), (0.0, 50.0)), ('quantile_range', (5.0, 50.0), (20.0, 100.0))],
    'PowerTransformer': [('standardise', False, None), ('method', 'yeo-johnson', 'nope')],
    'QuantileTransformer': [('n_quantiles', 3, None), ('output_distribution', 'normal', 'nope'), ('subsample', 50000, None), ('random_state', 5, None), ('ignore_implicit_zeroes', False, None)],
    'SavitzkyGolay': [('polynomial_order', 3, 1), ('derivative_order', 2, -1), ('num_points_left', 4, -1), ('num_points_right', 2, -1), ('derivative_order', 0, -2), ('polynomial_order', 2, 0)],
    'SavitzkyGolay2': [('polynomial_order', 3, 1), ('derivative_order', 2, -1), ('num_points', 2, -1), ('num_points', 4, -3)],
    'Log': [('base', 2.0, 1.0), ('base', 10.0, 0.0), ('base', 3.0, -2.0), ('offset', 2.0, None)],
}


def _set_then_fit(S, name, tol=1e-8):
    attr, good, bad = S.choice('setting', SETTINGS[name])
    n, k, m = S.dim('n', 4), S.dim('k', 4), (S.dim('m') if not name.startswith('Sav') else S.dim('m', 10, 14))
    pos = name == 'Log'
    A, X = S.matrix('A', n, m, positive=pos), S.matrix('X', k, m, positive=pos)
    t, u = make(S, name), make(S, name)
    t.transform(A)
    setattr(t, attr, good)
    S.check('the parameter takes the new value', getattr(t, attr) == good)
    setattr(u, attr, good)
    S.same_matrix('next use fits as a fresh object with that parameter', t.transform(X), u.transform(X), tol)
    S.same_matrix('and stays fitted', t.transform(A), u.transform(A), tol)


def _refuse(S, name, tol=1e-9):
    attr, good, bad = S.choice('setting', [s for s in SETTINGS[name] if s[2] is not None])
    n, k, m = S.dim('n', 4), S.dim('k', 4), (S.dim('m') if not name.startswith('Sav') else S.dim('m', 10, 14))
    pos = name == 'Log'
    A, X = S.matrix('A', n, m, positive=pos), S.matrix('X', k, m, positive=pos)
    t, u = make(S, name), make(S, name)
    t.transform(A)
    u.transform(A)
    old = getattr(t, attr)
    S.rejects('the invalid value', setattr, t, attr, bad)
    S.check('the parameter keeps its value', getattr(t, attr) == old)
    S.same_matrix('the fit is kept', t.transform(X), u.transform(X), tol)
    v = make(S, name)
    old = getattr(v, attr)
    S.rejects('the invalid value on an unfitted object', setattr, v, attr, bad)
    S.check('the parameter keeps its value when unfitted', getattr(v, attr) == old)


@contract('C11', 'RobustScaler.__setattr__', 'RobustScaler.validate_quantile_range')
def robust_scaler_parameters(S):
    """Setting any RobustScaler parameter discards the fit."""
    _set_then_fit(S, 'RobustScaler')


@contract('C11', 'RobustScaler.__setattr__', 'RobustScaler.validate_quantile_range')
def robust_scaler_refuses(S):
    """Invalid RobustScaler parameters are refused and change nothing."""
    _refuse(S, 'RobustScaler')


@contract('C11', 'PowerTransformer.__setattr__', 'QuantileTransformer.__setattr__', trials=80)
@overflowing
def sklearn_parameters(S):
    """Setting any parameter of the sklearn wrappers discards the fit."""
    _set_then_fit(S, S.choice('which', ['PowerTransformer', 'QuantileTransformer']))


@contract('C11', 'PowerTransformer.__setattr__', 'QuantileTransformer.__setattr__', trials=30)
@overflowing
def sklearn_refuses(S):
    """Invalid parameters of the sklearn wrappers are refused and change nothing."""
    _refuse(S, S.choice('which', ['PowerTransformer', 'QuantileTransformer']))


@contract('C11', 'Log.__setattr__', 'Log.validate_base')
def log_parameters(S):
    """Setting base or offset of Log takes effect on the next use."""
    _set_then_fit(S, 'Log')


@contract('C11', 'Log.__setattr__', 'Log.validate_base')
def log_refuses(S):
    """Base 1, 0 or negative is refused and changes nothing."""
    _refuse(S, 'Log')


@contract('C11', 'Log.validate_base')
def log_base_domain(S):
    """Exactly the positive bases other than 1 are accepted."""
    t = S.mod('transformation').Log()
    b = S.real('b')
    e = S.raises(setattr, t, 'base', b)
    S.check('accepted iff positive and not 1', S.iff(e is None, S.and_(b > 0, b != 1)))
    if e is None:
        S.check('value taken', S.eqi(t.base, b))


@contract('C11', 'SavitzkyGolay.__setattr__', 'SavitzkyGolay.configure', 'SavitzkyGolay.reset', budget=40)
def savitzky_golay_parameters(S):
    """Setting any Savitzky-Golay parameter discards the coefficients."""
    _set_then_fit(S, S.choice('which', ['SavitzkyGolay', 'SavitzkyGolay2']), 1e-6)


@contract('C11', 'SavitzkyGolay.__setattr__', 'SavitzkyGolay2.__setattr__', budget=40)
def savitzky_golay_refuses(S):
    """Invalid Savitzky-Golay parameters are refused and change nothing."""
    _refuse(S, S.choice('which', ['SavitzkyGolay', 'SavitzkyGolay2']), 1e-6)


@contract('C11', 'SavitzkyGolay.validate_polynomial_order', 'SavitzkyGolay.validate_derivative_order', 'SavitzkyGolay.validate_num_points_left', 'SavitzkyGolay.validate_num_points_right', 'SavitzkyGolay2.validate_num_points')
def savitzky_golay_domains(S):
    """Exactly the documented ranges are accepted, for every value."""
    v = S.int('v', -4, 6)
    name, attr, lo = S.choice('param', [('SavitzkyGolay', 'polynomial_order', 2), ('SavitzkyGolay', 'derivative_order', 0), ('SavitzkyGolay', 'num_points_left', 0), ('SavitzkyGolay', 'num_points_right', 0),
                                        ('SavitzkyGolay2', 'num_points', 0), ('SavitzkyGolay2', 'polynomial_order', 2), ('SavitzkyGolay2', 'derivative_order', 0)])
    t = make(S, name)
    old = getattr(t, attr)
    e = S.raises(setattr, t, attr, v)
    S.check('accepted iff in range', S.iff(e is None, v >= lo))
    S.check('value', S.eqi(getattr(t, attr), v if e is None else old))
    S.check('configured flag false', t.configured is False)


@contract('C11', 'FFT.__setattr__', trials=30)
def fft_mode_domain(S):
    """The output mode can be set by number; a number without a mode is refused and leaves the mode as it was."""
    T = S.mod('transformation')
    t = T.FFT()
    q = S.choice('q', [1, 2, 3, 4, 8, 12])
    t.output_mode = q
    S.check('mode', t.output_mode is T.OutputMode(q))
    S.rejects('unknown number', setattr, t, 'output_mode', S.choice('bad', [0, 5, 6, 7, 9, 16, -1]))
    S.check('mode kept', t.output_mode is T.OutputMode(q))
