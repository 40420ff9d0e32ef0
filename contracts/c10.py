"""C10: inverse transformation undoes transformation; transformations without inverse refuse."""
from engine.dsl import contract


def tr(S, name):
    return getattr(S.mod('transformation'), name)()


def roundtrip(S, t, A, tol=1e-7):
    B = t.transform(A)
    C = t.inverse_transform(B)
    S.unchanged('A', A)
    return B, C


@contract('C10', 'Center.do_transform', 'Center.do_inverse_transform', 'AbstractTransformation.transform', 'AbstractTransformation.inverse_transform')
def center_inverse(S):
    """Center: inverse(transform(A)) = A, also for data the transformation was not fitted on."""
    n, k, m = S.dim('n'), S.dim('k'), S.dim('m')
    A, N = S.matrix('A', n, m), S.matrix('N', k, m)
    t = tr(S, 'Center')
    B, C = roundtrip(S, t, A)
    S.same_matrix('fitted data', C, A)
    B, C = roundtrip(S, t, N)
    S.same_matrix('new data', C, N)
    D = t.transform(t.inverse_transform(N))
    S.same_matrix('transform after inverse', D, N)


@contract('C10', 'Standardize.do_transform', 'Standardize.do_inverse_transform')
def standardize_inverse(S):
    """Standardize: inverse(transform(A)) = A for fitted and new data, also with constant columns."""
    n, k, m = S.dim('n', 2), S.dim('k'), S.dim('m')
    A, N = S.matrix('A', n, m), S.matrix('N', k, m)
    t = tr(S, 'Standardize')
    B, C = roundtrip(S, t, A)
    S.same_matrix('fitted data', C, A, 1e-6)
    B, C = roundtrip(S, t, N)
    S.same_matrix('new data', C, N, 1e-6)


@contract('C10', 'RowNorm.do_transform', 'RowNorm.do_inverse_transform')
def row_norm_inverse(S):
    """RowNorm with the statistics it used: do_inverse_transform(do_transform(A)) = A."""
    n, m = S.dim('n'), S.dim('m', 2)
    A = S.matrix('A', n, m)
    t = tr(S, 'RowNorm')
    t.configure(A)
    B = t.do_transform(A)
    C = t.do_inverse_transform(B)
    S.same_matrix('restored', C, A, 1e-6)
    S.unchanged('A', A)


@contract('C10', 'Log.do_transform', 'Log.do_inverse_transform')
def log_inverse(S):
    """Log: inverse(transform(A)) = A for every base and offset with positive shifted data."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m, positive=True)
    t = tr(S, 'Log')
    if S.bool('custom'):
        b, o = S.real('base', positive=True), S.real('offset', positive=True)
        S.assume(S.and_(b > 0, b != 1, o >= 0))
        if not S.symbolic:
            S.assume(abs(b - 1) > 1e-3 and 1e-3 < b < 1e4)
        t.base, t.offset = b, o
    B, C = roundtrip(S, t, A)
    S.is_matrix('restored', C, n, m, lambda i, j: S.at(A, i, j), 1e-6)


@contract('C10', 'Log.do_transform')
def log_values(S):
    """Log maps each cell to log_base(cell + offset); undefined values are refused."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    t = tr(S, 'Log')
    o = S.real('offset')
    t.offset = o
    custom = S.bool('custom')
    b = None
    if custom:
        b = S.real('base', positive=True)
        S.assume(S.and_(b > 0, b != 1))
        import math
        S.assume(b != math.e)
        t.base = b
    e, B = None, None
    try:
        B = t.transform(A)
    except ValueError as x:
        e = x
    bad = S.exists((n, m), lambda i, j: S.at(A, i, j) + o <= 0)
    S.check('refused iff some shifted cell is not positive', S.iff(e is not None, bad))
    S.unchanged('A', A)
    if B is not None:
        f = (lambda x: S.div(S.log(x), S.log(b))) if custom else S.log
        S.is_matrix('log', B, n, m, lambda i, j: f(S.at(A, i, j) + o), 1e-6)


@contract('C10', 'PassThrough.do_transform', 'PassThrough.do_inverse_transform')
def pass_through(S):
    """PassThrough is the identity in both directions."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    t = tr(S, 'PassThrough')
    B, C = roundtrip(S, t, A)
    S.same_matrix('transform', B, A, exact=True)
    S.same_matrix('inverse', C, A, exact=True)


@contract('C10', 'FFT.do_transform', 'FFT.do_inverse_transform', trials=120, sym=False)
def fft_inverse(S):
    """FFT in the two paired output modes: inverse(transform(A)) = A for even and odd widths, one or many rows, with and without orthonormalisation."""
    n, m = S.dim('n'), S.dim('m', *S.choice('size', [(1, 12)] * 3 + [(13, 70)]))
    A = S.matrix('A', n, m)
    T = S.mod('transformation')
    t = T.FFT()
    t.output_mode = S.choice('mode', [T.OutputMode.REAL_AND_IMAG_PAIRS, T.OutputMode.AMPL_ANGLE_PAIRS, 3, 12])
    t.orthonormalisation = S.bool('ortho')
    B, C = roundtrip(S, t, A)
    S.shape('transformed', B, n, m)
    S.same_matrix('restored', C, A, 1e-6)


@contract('C10', 'SavitzkyGolay.do_inverse_transform', 'SavitzkyGolay2.do_inverse_transform', 'MultiplicativeScatterCorrection.do_inverse_transform', 'FFT.inverse_format_output', trials=60)
def no_inverse(S):
    """Transformations without an inverse raise, fitted or not."""
    n = S.dim('n')
    name = S.choice('which', ['SavitzkyGolay', 'SavitzkyGolay2', 'fft1', 'fft2', 'fft4', 'fft8', 'msc', 'ygsg'])
    T = S.mod('transformation')
    A = S.matrix('A', n, 9)
    if name.startswith('fft'):
        t = T.FFT()
        t.output_mode = T.OutputMode(int(name[3:]))
    elif name == 'msc':
        t = T.MultiplicativeScatterCorrection()
    elif name == 'ygsg':
        t = S.cls('transformation._YGradientGLSWSavitzkyGolayFilter.YGradientGLSWSavitzkyGolayFilter')()
    else:
        t = getattr(T, name)()
    S.rejects('inverse before use', t.inverse_transform, A)
    if name in ('SavitzkyGolay', 'SavitzkyGolay2') or name.startswith('fft'):
        try:
            t.transform(A)
        except Exception as e:
            S.assume(type(e).__name__ == 'LinAlgError' and S.symbolic)
            return
        S.rejects('inverse after use', t.inverse_transform, A)


def _wrapped(S, kind, A):
    T = S.mod('transformation')
    t = getattr(T, kind)()
    if kind == 'QuantileTransformer':
        t.n_quantiles = 10
    return t


@contract('C10', 'RobustScaler.do_transform', 'RobustScaler.do_inverse_transform')
def robust_scaler_inverse(S):
    """RobustScaler: inverse(transform(A)) = A (given that sklearn's inverse_transform inverts its transform)."""
    n, k, m = S.dim('n', 2), S.dim('k'), S.dim('m')
    A, N = S.matrix('A', n, m), S.matrix('N', k, m)
    t = _wrapped(S, 'RobustScaler', A)
    B, C = roundtrip(S, t, A)
    S.same_matrix('fitted data', C, A, 1e-6)
    B, C = roundtrip(S, t, N)
    S.same_matrix('new data', C, N, 1e-6)
