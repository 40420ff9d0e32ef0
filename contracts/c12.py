"""C12: statistics after centering, standardising, row normalising."""
from engine.dsl import contract


def tr(S, name):
    return getattr(S.mod('transformation'), name)()


def colsum(S, n, f):
    return S.sum(n, f)


@contract('C12', 'Center.configure', 'Center.do_transform', 'helper.column_means')
def center_mean_zero(S):
    """Centering: each column of the transformed fitted data has mean zero; each cell is shifted by its column mean."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    B = tr(S, 'Center').transform(A)
    mu = lambda j: S.div(S.sum(n, lambda q: S.at(A, q, j)), n)
    S.is_matrix('cells', B, n, m, lambda i, j: S.at(A, i, j) - mu(j), 1e-6)
    S.forall('column sums', (m,), lambda j: S.eq(S.sum(n, lambda q: S.at(B, q, j)), 0, 1e-6 * (1 + _mx(S, A))))


def _mx(S, A):
    return 0 if S.symbolic else float(abs(A.data).max())


def stats(S, A, n, m, by_row):
    """(mean of line l, sample variance of line l) of A, lines are columns or rows."""
    cnt = m if by_row else n
    at = (lambda l, q: S.at(A, l, q)) if by_row else (lambda l, q: S.at(A, q, l))
    mean = lambda l: S.div(S.sum(cnt, lambda q: at(l, q)), cnt)

    def var(l):
        mu = mean(l)
        return S.div(S.sum(cnt, lambda q: (at(l, q) - mu) * (at(l, q) - mu)), cnt - 1)
    return mean, var


def near_constant(S, A, by_row):
    """Concrete data whose spread is dominated by rounding is left out (bounded evaluation only)."""
    if S.symbolic:
        return False
    import numpy as np
    d = A.data if by_row else A.data.T
    for r in d:
        sd = np.std(r, ddof=1)
        if sd != 0 and sd < 1e-9 * (abs(r).max() + 1e-300):
            return True
    return False


def scaled(S, name, A, B, n, m, by_row):
    mean, var = stats(S, A, n, m, by_row)
    ln = (lambda i, j: i) if by_row else (lambda i, j: j)
    S.is_matrix(name + ' cells', B, n, m, lambda i, j: S.ite(S.eqi(S.sqrt(var(ln(i, j))), 0), S.at(A, i, j) - mean(ln(i, j)),
                                                            S.div(S.at(A, i, j) - mean(ln(i, j)), S.sqrt(var(ln(i, j))))), 1e-5)
    mb, vb = stats(S, B, n, m, by_row)
    lines = n if by_row else m
    S.forall(name + ' mean zero', (lines,), lambda l: S.eq(mb(l), 0, 1e-6))
    if S.symbolic:
        S.forall(name + ' variance one', (lines,), lambda l: S.or_(S.eqi(S.sqrt(var(l)), 0), S.eq(vb(l), 1)))
    else:
        S.forall(name + ' variance one', (lines,), lambda l: var(l) == 0 or abs(vb(l) - 1) < 1e-5 or var(l) < 1e-18 * (1 + mean(l) ** 2))


def sized(S, n, m):
    """Any matrix; in the bounded runs also with very small and very large numbers (scaled by a power of two: no rounding)."""
    if S.symbolic:
        return S.matrix('A', n, m)
    q = S.choice('size', [0, 0, -40, -100, 60])
    return S.matrix('A', n, m, gen=lambda i, j: S._val() * 2.0 ** q)


@contract('C12', 'Standardize.configure', 'Standardize.do_transform', 'helper.column_stdevs')
def standardize_statistics(S):
    """Standardising: columns of mean zero and sample standard deviation one."""
    n, m = S.dim('n', 2), S.dim('m')
    A = sized(S, n, m)
    S.assume(not near_constant(S, A, False))
    scaled(S, 'standardized', A, tr(S, 'Standardize').transform(A), n, m, False)
    S.unchanged('A', A)


@contract('C12', 'RowNorm.configure', 'RowNorm.do_transform', 'helper.row_stdevs')
def row_norm_statistics(S):
    """Row normalising: rows of mean zero and sample standard deviation one."""
    n, m = S.dim('n'), S.dim('m', 2)
    A = sized(S, n, m)
    S.assume(not near_constant(S, A, True))
    scaled(S, 'normalized', A, tr(S, 'RowNorm').transform(A), n, m, True)
    S.unchanged('A', A)


@contract('C12', 'Standardize.configure', 'Standardize.do_transform', trials=120)
def standardize_constant(S):
    """A column without variation comes out as zeros (any column, any constant)."""
    n, m = S.dim('n', 2), S.dim('m')
    q = S.int('q', 0, m - 1)
    S.assume(S.and_(q >= 0, q < m))
    x = S.real('x')
    if not S.symbolic:
        x = round(x * 4) / 4           # means of such constants are exact; otherwise the deviation is rounding noise
    A = S.matrix('A', n, m)
    A.set_column(q, S.factory.filled(n, 1, x))
    B = tr(S, 'Standardize').transform(A)
    S.forall('zeros', (n,), lambda i: S.eq(S.at(B, i, q), 0, 1e-9))


@contract('C12', 'RowNorm.configure', 'RowNorm.do_transform', trials=120)
def row_norm_constant(S):
    """A row without variation comes out as zeros."""
    n, m = S.dim('n'), S.dim('m', 2)
    q = S.int('q', 0, n - 1)
    S.assume(S.and_(q >= 0, q < n))
    x = S.real('x')
    if not S.symbolic:
        x = round(x * 4) / 4           # means of such constants are exact; otherwise the deviation is rounding noise
    A = S.matrix('A', n, m)
    A.set_row(q, S.factory.filled(1, m, x))
    B = tr(S, 'RowNorm').transform(A)
    S.forall('zeros', (m,), lambda j: S.eq(S.at(B, q, j), 0, 1e-9))


@contract('C12', 'Center.do_transform', 'Standardize.do_transform')
def new_data(S):
    """New data is shifted (and scaled) by the statistics of the fitted data."""
    n, k, m = S.dim('n', 2), S.dim('k'), S.dim('m')
    A, N = S.matrix('A', n, m), S.matrix('N', k, m)
    S.assume(not near_constant(S, A, False))
    mean, var = stats(S, A, n, m, False)
    c = tr(S, 'Center')
    c.transform(A)
    S.is_matrix('centered', c.transform(N), k, m, lambda i, j: S.at(N, i, j) - mean(j), 1e-6)
    s = tr(S, 'Standardize')
    s.transform(A)
    S.is_matrix('standardized', s.transform(N), k, m, lambda i, j: S.ite(S.eqi(S.sqrt(var(j)), 0), S.at(N, i, j) - mean(j), S.div(S.at(N, i, j) - mean(j), S.sqrt(var(j)))), 1e-5)


@contract('C12', 'Standardize.get_means', 'Standardize.get_std_devs')
def reported_statistics(S):
    """The reported means and standard deviations are those of the fitted data (1 for constant columns)."""
    n, m = S.dim('n', 2), S.dim('m')
    A = sized(S, n, m)
    S.assume(not near_constant(S, A, False))
    mean, var = stats(S, A, n, m, False)
    t = tr(S, 'Standardize')
    t.transform(A)
    S.is_matrix('means', t.get_means(), 1, m, lambda i, j: mean(j), 1e-6)
    S.is_matrix('std_devs', t.get_std_devs(), 1, m, lambda i, j: S.ite(S.eqi(S.sqrt(var(j)), 0), 1, S.sqrt(var(j))), 1e-5)


@contract('C12', 'transformation.center', 'transformation.standardize', 'transformation.row_norm', 'AbstractTransformation.quick_apply')
def quick_apply(S):
    """The shortcut functions equal fitting and transforming with a new object."""
    n, m = S.dim('n', 2), S.dim('m', 2)
    A = S.matrix('A', n, m)
    T = S.mod('transformation')
    S.same_matrix('center', T.center(A), T.Center().transform(A), exact=True)
    S.same_matrix('standardize', T.standardize(A), T.Standardize().transform(A), exact=True)
    S.same_matrix('row_norm', T.row_norm(A), T.RowNorm().transform(A), exact=True)
    S.unchanged('A', A)
