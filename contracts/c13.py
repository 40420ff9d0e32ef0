"""C13: Savitzky-Golay filters."""
import numpy as np

from engine.dsl import contract, Skip


ALL = [(l, r, p, d) for l in range(7) for r in range(7) for p in range(2, 7) if p <= l + r for d in range(p + 1)]


def window(S, T, two=False):
    """A filter with a chosen configuration: (filter, left, right, order, derivative)."""
    if not S.symbolic and S.bool('any configuration'):
        l, r, p, d = S.choice('any config', [c for c in ALL if not two or c[0] == c[1]])
    else:
        l, r, p, d = S.choice('config', [(3, 3, 2, 1), (3, 3, 2, 0), (2, 2, 2, 0), (2, 4, 3, 1), (4, 2, 3, 2), (0, 5, 2, 1), (5, 0, 2, 2), (4, 4, 4, 3), (3, 3, 5, 0), (1, 2, 2, 1), (2, 2, 4, 4), (6, 6, 3, 0)]
                              if not two else [(3, 3, 2, 1), (2, 2, 2, 0), (4, 4, 3, 2), (3, 3, 4, 1), (1, 1, 2, 0), (5, 5, 2, 2)])
    t = T.SavitzkyGolay2() if two else T.SavitzkyGolay()
    t.polynomial_order, t.derivative_order = p, d
    if two:
        t.num_points = l
    else:
        t.num_points_left, t.num_points_right = l, r
    return t, l, r, p, d


def _weights(S, two):
    T = S.mod('transformation')
    t, l, r, p, d = window(S, T, two)
    A = S.matrix('A', 1, l + r + 1)
    t.configure(A)
    w = t.coefficients
    S.shape('weights', w, 1, l + r + 1)
    for i in range(p + 1):
        S.check(f'moment {i} of the weights', S.eq(sum(S.at(w, 0, k + l) * (k ** i) for k in range(-l, r + 1)), 1 if i == d else 0, 1e-5 * max(l, r) ** i))
    # the weights are a polynomial of the configured order in the position (they lie in the span of the regressors): differences of order p+1 vanish
    c = [1]
    for q in range(p + 1):
        c = [(c[k] if k < len(c) else 0) - (c[k - 1] if k > 0 else 0) for k in range(len(c) + 1)]
    for s in range(l + r + 1 - (p + 1)):
        S.check('weights are a polynomial in the position', S.eq(sum(S.at(w, 0, s + k) * c[k] for k in range(p + 2)), 0, 1e-5))


@contract('C13', 'savitzky_golay.determine_coefficients', 'SavitzkyGolay.configure', budget=60)
def weights_solve_normal_equations(S):
    """The weights reproduce the derivative's monomial (moment d is 1, other moments up to the order are 0) and lie in the polynomial span: the unique least-squares weights."""
    _weights(S, False)


@contract('C13', 'SavitzkyGolay2.configure', 'SavitzkyGolay2.__getattribute__', budget=60)
def weights_symmetric_window(S):
    """The same for the symmetric-window variant."""
    _weights(S, True)


@contract('C13', 'SavitzkyGolay.do_transform', budget=60)
def sliding_window(S):
    """Output cell (i, j) is the weighted sum of input cells (i, j..j+window-1) with position-independent weights; one column per complete window."""
    T = S.mod('transformation')
    t, l, r, p, d = window(S, T, S.bool('two'))
    w = l + r + 1
    n, m = S.dim('n'), S.dim('m', w, w + 6)
    A = S.matrix('A', n, m)
    B = t.transform(A)
    c = t.coefficients
    S.is_matrix('filtered', B, n, m - w + 1, lambda i, j: sum(S.at(c, 0, k) * S.at(A, i, j + k) for k in range(w)), 1e-6)
    S.unchanged('A', A)


@contract('C13', 'SavitzkyGolay.do_transform')
def sliding_window_any_weights(S):
    """The same for weights of every width (not only those the solver produces)."""
    T = S.mod('transformation')
    w, e, n = S.dim('w'), S.dim('e', 0, 4), S.dim('n')
    m = w + e
    A = S.matrix('A', n, m)
    c = S.matrix('c', 1, w)
    t = T.SavitzkyGolay()
    t.coefficients, t.configured = c, True
    B = t.transform(A)
    S.is_matrix('filtered', B, n, e + 1, lambda i, j: S.sum(w, lambda k: S.at(c, 0, k) * S.at(A, i, j + k)), 1e-6)
    S.unchanged('A', A)
    S.unchanged('weights', c)


@contract('C13', 'SavitzkyGolay.transform', trials=80, budget=60)
def reproduces_polynomials(S):
    """A polynomial up to the configured order comes out as its configured-order coefficient around the window centre, exactly."""
    T = S.mod('transformation')
    t, l, r, p, d = window(S, T, S.bool('two'))
    w = l + r + 1
    n = S.dim('n')
    a = S.matrix('a', n, p + 1)
    m = w + 3
    A = S.factory.zeros(n, m)
    for j in range(m):
        col = None
        for q in range(p + 1):
            term = a.get_column(q).mul(float((j - l) ** q))
            col = term if col is None else col.add(term)
        A.set_column(j, col)
    B = t.transform(A)
    from math import comb
    S.is_matrix('polynomial', B, n, m - w + 1, lambda i, j: sum(S.at(a, i, q) * (comb(q, d) * j ** (q - d)) for q in range(d, p + 1)) if not S.symbolic
                else _pick(S, j, m - w + 1, lambda jj: sum(S.at(a, i, q) * (comb(q, d) * jj ** (q - d)) for q in range(d, p + 1))), 2e-5 * (m ** p))


def _pick(S, j, n, f):
    r = f(n - 1)
    for q in range(n - 1):
        r = S.ite(S.eqi(j, q), f(q), r)
    return r


@contract('C13', 'YGradientGLSWSavitzkyGolayFilter.do_transform', 'YGradientGLSWSavitzkyGolayFilter.extend_matrix', 'YGradientGLSWSavitzkyGolayFilter.smooth_row', 'YGradientGLSWSavitzkyGolayFilter.shrink_matrix')
def five_point_gradient(S):
    """Row i of the output is (-2 a(i-2) - a(i-1) + a(i+1) + 2 a(i+2)) / 10, up to the fixed orientation, with the first and last row repeated."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    t = S.cls('transformation._YGradientGLSWSavitzkyGolayFilter.YGradientGLSWSavitzkyGolayFilter')()
    B = t.transform(A)

    def at(i, j):
        return S.ite(i < 0, S.at(A, 0, j), S.ite(i > n - 1, S.at(A, n - 1, j), S.at(A, i, j))) if S.symbolic else A.data[min(max(i, 0), n - 1), j]
    S.is_matrix('gradient', B, n, m, lambda i, j: (at(i - 2, j) - at(i + 2, j)) * 0.2 + (at(i - 1, j) - at(i + 1, j)) * 0.1, 1e-6)
    S.unchanged('A', A)


@contract('C13', 'savitzky_golay.determine_coefficients', 'SavitzkyGolay.configure', 'SavitzkyGolay2.configure', 'helper.solve', budget=60)
def weights_any_window(S):
    """For every window, order and derivative: the weights are the polynomial whose coefficients solve the normal equations of the window positions for the configured derivative."""
    two = S.bool('symmetric variant')
    l = S.int('left', 0, 6)
    r = l if two else S.int('right', 0, 6)
    p = S.int('order', 2, 6)
    d = S.int('derivative', 0, 6)
    S.assume(S.and_(l >= 0, r >= 0, p >= 2, d >= 0, d <= p, p <= l + r))
    w = l + r + 1
    N = S.build(p + 1, p + 1, lambda i, j: S.sum(w, lambda k: S.pow(k - l, i + j)))
    b = S.build(p + 1, 1, lambda i, j: S.ite(S.eqi(i, d), 1.0, 0.0))
    if S.symbolic:
        try:
            s = S.helper.solve(N, b)
        except np.linalg.LinAlgError:       # never: the positions are distinct and at least as many as the coefficients
            raise Skip()
    else:
        s = S.helper.solve(N, b)
    t = S.mod('transformation').SavitzkyGolay2() if two else S.mod('transformation').SavitzkyGolay()
    t.polynomial_order, t.derivative_order = p, d
    if two:
        t.num_points = l
    else:
        t.num_points_left, t.num_points_right = l, r
    t.configure(S.matrix('data', 1, 1))
    S.is_matrix('weights', t.coefficients, 1, w, lambda i, q: S.sum(p + 1, lambda j: S.at(s, j, 0) * S.pow(q - l, j)), 1e-4)


@contract('C13', 'savitzky_golay.determine_coefficients', 'SavitzkyGolay.configure', 'SavitzkyGolay2.configure', trials=40, sym=False)
def weights_wide_window(S):
    """Wide windows and high orders, where the sums of powers leave the range of machine integers: the weights are the exact solution of the normal equations up to rounding (bounded: these windows)."""
    from fractions import Fraction as F
    two = S.bool('symmetric variant')
    l, r, p = S.choice('wide', [(40, 40, 6), (20, 20, 8), (25, 25, 7), (45, 45, 6), (30, 30, 7), (10, 10, 8), (60, 60, 4)] if two else
                       [(40, 40, 6), (41, 39, 6), (60, 20, 6), (20, 20, 8), (30, 30, 7), (24, 26, 7), (15, 12, 6), (0, 50, 3), (60, 60, 4)])
    d = S.int('derivative', 0, min(p, 3))
    xs = range(-l, r + 1)
    n = p + 1
    M = [[F(sum(x ** (i + j) for x in xs)) for j in range(n)] + [F(int(i == d))] for i in range(n)]
    for c in range(n):
        q = next(i for i in range(c, n) if M[i][c] != 0)
        M[c], M[q] = M[q], M[c]
        M[c] = [v / M[c][c] for v in M[c]]
        for i in range(n):
            if i != c and M[i][c] != 0:
                M[i] = [a - M[i][c] * b for a, b in zip(M[i], M[c])]
    want = [float(sum(M[j][n] * x ** j for j in range(n))) for x in xs]
    size = max(abs(v) for v in want)
    t = S.mod('transformation').SavitzkyGolay2() if two else S.mod('transformation').SavitzkyGolay()
    t.polynomial_order, t.derivative_order = p, d
    if two:
        t.num_points = l
    else:
        t.num_points_left, t.num_points_right = l, r
    t.configure(S.matrix('data', 1, 1))
    S.shape('weights', t.coefficients, 1, l + r + 1)
    for k, v in enumerate(want):
        S.check('weights of a wide window', abs(float(S.at(t.coefficients, 0, k)) - v) <= 1e-5 * size)
