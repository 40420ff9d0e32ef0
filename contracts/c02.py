"""C02: matrix arithmetic and shape rejection."""
from engine.dsl import contract

UNARY = {
    'sqrt': lambda S, a: S.sqrt(a),
    'exp': lambda S, a: S.exp(a),
    'abs': lambda S, a: S.ite(a < 0, -a, a),
    'sign': lambda S, a: S.ite(a < 0, -1.0, S.ite(a > 0, 1.0, 0.0)),
}

for _op, _f in UNARY.items():
    def _c(S, op=_op, f=_f):
        n, m = S.dim('n'), S.dim('m')
        A = S.matrix('A', n, m, positive=(op == 'sqrt'))
        S.is_matrix(op, getattr(A, op)(), n, m, lambda i, j: f(S, S.at(A, i, j)))
        S.unchanged('A', A)
    _c.__doc__ = f'A.{_op}() applies {_op} to every cell.'
    contract('C02', f'Matrix.{_op}', name='elementwise_' + _op)(_c)


@contract('C02', 'Matrix.tanh')
def elementwise_tanh(S):
    """A.tanh() is, cell by cell, odd, strictly between -1 and 1 and a function of that cell only."""
    import math
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    T = A.tanh()
    if S.symbolic:
        from engine import terms as E
        S.is_matrix('tanh', T, n, m, lambda i, j: E.tanh_(S.at(A, i, j)))
    else:
        S.is_matrix('tanh', T, n, m, lambda i, j: math.tanh(S.at(A, i, j)))


BIN = {
    'add': lambda S, a, b: a + b,
    'sub': lambda S, a, b: a - b,
    'mul_elementwise': lambda S, a, b: a * b,
    'div_elementwise': lambda S, a, b: S.div(a, b),
}

for _op, _f in BIN.items():
    def _c(S, op=_op, f=_f):
        n, m = S.dim('n'), S.dim('m')
        A, B = S.matrix('A', n, m), S.matrix('B', n, m)
        R = getattr(A, op)(B)
        S.is_matrix(op, R, n, m, lambda i, j: f(S, S.at(A, i, j), S.at(B, i, j)))
    _c.__doc__ = f'A.{_op}(B) combines cells of equal position.'
    contract('C02', f'Matrix.{_op}', name='matrix_' + _op)(_c)

    def _d(S, op=_op):
        n, m, k, l = S.dim('n'), S.dim('m'), S.dim('k'), S.dim('l')
        S.assume(S.or_(n != k, m != l))
        A, B = S.matrix('A', n, m), S.matrix('B', k, l)
        S.rejects(op + ' of different shapes', getattr(A, op), B)
    _d.__doc__ = f'A.{_op}(B) raises for every pair of different shapes.'
    contract('C02', f'Matrix.{_op}', name='reject_' + _op)(_d)

SCAL = {
    'add': lambda S, a, b: a + b,
    'sub': lambda S, a, b: a - b,
    'mul': lambda S, a, b: a * b,
    'div': lambda S, a, b: S.div(a, b),
}
for _op, _f in SCAL.items():
    def _c(S, op=_op, f=_f):
        n, m = S.dim('n'), S.dim('m')
        A = S.matrix('A', n, m)
        x = S.real('x')
        R = getattr(A, op)(x)
        S.is_matrix(op, R, n, m, lambda i, j: f(S, S.at(A, i, j), x))
    _c.__doc__ = f'A.{_op}(x) combines every cell with the scalar.'
    contract('C02', f'Matrix.{_op}', name='scalar_' + _op)(_c)

    def _ci(S, op=_op, f=_f):
        n, m = S.dim('n'), S.dim('m')
        A = S.matrix('A', n, m)
        x = S.int('x')
        R = getattr(A, op)(x)
        S.is_matrix(op, R, n, m, lambda i, j: f(S, S.at(A, i, j), x))
    _ci.__doc__ = f'A.{_op}(x) for integer scalars.'
    contract('C02', f'Matrix.{_op}', name='int_scalar_' + _op, trials=30)(_ci)


@contract('C02', 'Matrix.mul', 'Matrix.is_multiplicable_with')
def mul_matrix(S):
    """A.mul(B) is the matrix product."""
    n, k, m = S.dim('n'), S.dim('k'), S.dim('m')
    A, B = S.matrix('A', n, k), S.matrix('B', k, m)
    C = A.mul(B)
    S.is_matrix('product', C, n, m, lambda i, j: S.sum(k, lambda q: S.at(A, i, q) * S.at(B, q, j)))
    S.check('is_multiplicable_with', A.is_multiplicable_with(B))


@contract('C02', 'Matrix.mul', 'Matrix.is_multiplicable_with')
def mul_mismatch(S):
    """Products with different inner dimensions raise."""
    n, k, l, m = S.dim('n'), S.dim('k'), S.dim('l'), S.dim('m')
    S.assume(k != l)
    A, B = S.matrix('A', n, k), S.matrix('B', l, m)
    S.check('not multiplicable', S.not_(A.is_multiplicable_with(B)))
    S.rejects('product of incompatible shapes', A.mul, B)


@contract('C02', 'Matrix.pow_elementwise')
def pow_matrix(S):
    """A.pow_elementwise(e) raises every cell to the power e (small integer exponents)."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    e = S.choice('e', [1, 2, 3])

    def p(a):
        r = a
        for _ in range(e - 1):
            r = r * a
        return r
    S.is_matrix('power', A.pow_elementwise(e), n, m, lambda i, j: p(S.at(A, i, j)))


@contract('C02', 'Matrix.pow_elementwise')
def pow_any(S):
    """A.pow_elementwise(e) for positive cells and any exponent, fractions and negative ones included."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m, positive=True)
    e = S.real('e') if S.symbolic else S.choice('exponent', [S.real('e', lo=-3, hi=3), -.5, -2, -1.5, .25])
    S.is_matrix('power', A.pow_elementwise(e), n, m, lambda i, j: S.power(S.at(A, i, j), e))


@contract('C02', 'Matrix.pow_elementwise')
def pow_half(S):
    """A.pow_elementwise(0.5) is the square root and (-1) the reciprocal."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m, positive=True)
    S.is_matrix('power 1/2', A.pow_elementwise(0.5), n, m, lambda i, j: S.sqrt(S.at(A, i, j)))
    S.is_matrix('power -1', A.pow_elementwise(-1), n, m, lambda i, j: S.div(1.0, S.at(A, i, j)))


def clipped(S, a, lo, hi):
    r = a
    if hi is not None:
        r = S.ite(a > hi, hi, r)
    if lo is not None:
        r = S.ite(a < lo, lo, r)
    return r


@contract('C02', 'Matrix.clip', 'Matrix.apply_elementwise')
def clip_matrix(S):
    """A.clip(lo, hi) limits every cell to [lo, hi]."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    lo, hi = S.real('lo'), S.real('hi')
    S.assume(lo <= hi)
    S.is_matrix('clip', A.clip(lo, hi), n, m, lambda i, j: clipped(S, S.at(A, i, j), lo, hi))


@contract('C02', 'Matrix.clip_lower', 'Matrix.clip_upper')
def clip_one_sided(S):
    """clip_lower / clip_upper limit one side only."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    x = S.real('x')
    S.is_matrix('clip_lower', A.clip_lower(x), n, m, lambda i, j: clipped(S, S.at(A, i, j), x, None))
    S.is_matrix('clip_upper', A.clip_upper(x), n, m, lambda i, j: clipped(S, S.at(A, i, j), None, x))


@contract('C02', 'Matrix.clip')
def clip_invalid(S):
    """clip rejects a lower bound above the upper bound."""
    A = S.matrix('A', S.dim('n'), S.dim('m'))
    lo, hi = S.real('lo'), S.real('hi')
    S.assume(lo > hi)
    S.rejects('inverted bounds', A.clip, lo, hi)


@contract('C02', 'Matrix.apply_elementwise')
def apply_fn(S):
    """apply_elementwise(f) holds f(cell) in every cell, for an affine f with arbitrary coefficients."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    p, q = S.real('p'), S.real('q')
    S.is_matrix('apply', A.apply_elementwise(lambda x: p * x * x + q), n, m, lambda i, j: p * S.at(A, i, j) * S.at(A, i, j) + q)
    S.unchanged('A', A)


VEC = {'add': lambda S, a, b: a + b, 'sub': lambda S, a, b: a - b, 'mul': lambda S, a, b: a * b, 'div': lambda S, a, b: S.div(a, b)}
for _op, _f in VEC.items():
    for _row in (True, False):
        def _c(S, op=_op, f=_f, row=_row):
            n, m = S.dim('n'), S.dim('m')
            A = S.matrix('A', n, m)
            V = S.matrix('V', 1, m) if row else S.matrix('V', n, 1)
            S.assume(S.or_(n > 1, m == 1) if not row else True)
            a0 = S.cells(A)
            want = (lambda i, j: f(S, a0(i, j), S.at(V, 0, j))) if row else (lambda i, j: f(S, a0(i, j), S.at(V, i, 0)))
            if op != 'div':
                R = getattr(A, op + '_by_vector')(V)
                S.is_matrix('result', R, n, m, want)
                S.unchanged('A', A)
            getattr(A, op + '_by_vector_modify')(V)
            S.is_matrix('modified', A, n, m, want)
            S.unchanged('V', V)
        _c.__doc__ = f'{_op}_by_vector(_modify) broadcasts a {"row" if _row else "column"} vector.'
        contract('C02', f'Matrix.{_op}_by_vector', 'Matrix.vector_op_modify', name=f'{_op}_by_{"row" if _row else "column"}')(_c)

    def _r(S, op=_op):
        n, m, k, l = S.dim('n'), S.dim('m'), S.dim('k'), S.dim('l')
        S.assume(S.not_(S.or_(S.and_(k == 1, l == m), S.and_(l == 1, k == n))))
        A, V = S.matrix('A', n, m), S.matrix('V', k, l)
        if op != 'div':
            S.rejects(op + '_by_vector with unfitting vector', getattr(A, op + '_by_vector'), V)
        S.rejects(op + '_by_vector_modify with unfitting vector', getattr(A, op + '_by_vector_modify'), V)
        S.unchanged('A', A)
    _r.__doc__ = f'{_op}_by_vector(_modify) rejects non-vectors and vectors of the wrong length, leaving the matrix alone.'
    contract('C02', f'Matrix.{_op}_by_vector', 'Matrix.ensure_vector_size_matches', name=f'{_op}_by_vector_reject')(_r)


@contract('C02', 'Matrix.scale_by_row_vector')
def scale_rows(S):
    """scale_by_row_vector multiplies column j by v[j]; scale_by_column_vector multiplies row i by v[i]."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    V, W = S.matrix('V', m, 1), S.matrix('W', n, 1)
    S.is_matrix('row scaled', A.scale_by_row_vector(V), n, m, lambda i, j: S.at(A, i, j) * S.at(V, j, 0))
    S.assume(S.or_(n > 1, m == 1))
    S.is_matrix('column scaled', A.scale_by_column_vector(W), n, m, lambda i, j: S.at(A, i, j) * S.at(W, i, 0))


@contract('C02', 'Matrix.scale_by_row_vector', 'Matrix.scale_by_column_vector')
def scale_reject(S):
    """The scaling operations reject anything but a column vector of the right length."""
    n, m, k, l = S.dim('n'), S.dim('m'), S.dim('k'), S.dim('l')
    A, V = S.matrix('A', n, m), S.matrix('V', k, l)
    if S.choice('which', [0, 1]) == 0:
        S.assume(S.or_(l != 1, k != m))
        S.rejects('scale_by_row_vector', A.scale_by_row_vector, V)
    else:
        S.assume(S.or_(l != 1, k != n))
        S.rejects('scale_by_column_vector', A.scale_by_column_vector, V)


@contract('C02', 'Matrix.normalized')
def normalized(S):
    """normalized(axis) divides every column (row) by its Euclidean norm."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    ax = S.choice('axis', [0, 1])
    sq = lambda x: x * x
    if ax == 0:
        S.is_matrix('normalized', A.normalized(0), n, m, lambda i, j: S.div(S.at(A, i, j), S.sqrt(S.sum(n, lambda q: sq(S.at(A, q, j))))))
    else:
        S.is_matrix('normalized', A.normalized(1), n, m, lambda i, j: S.div(S.at(A, i, j), S.sqrt(S.sum(m, lambda q: sq(S.at(A, i, q))))))


@contract('C02', 'Matrix.vector_dot')
def vector_dot_reject(S):
    """vector_dot rejects non-vectors and vectors of different length."""
    n, m, k, l = S.dim('n'), S.dim('m'), S.dim('k'), S.dim('l')
    S.assume(S.or_(S.and_(n != 1, m != 1), S.and_(k != 1, l != 1), n * m != k * l))
    A, B = S.matrix('A', n, m), S.matrix('B', k, l)
    S.rejects('vector_dot', A.vector_dot, B)


@contract('C02', 'Matrix.as_real')
def as_real(S):
    """as_real gives the only element, and rejects anything but 1x1."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    S.assume(S.or_(n != 1, m != 1))
    S.rejects('as_real', A.as_real)
    B = S.matrix('B', 1, 1)
    S.check('as_real value', S.same(B.as_real(), S.at(B, 0, 0)))


@contract('C02', 'Matrix.inverse')
def inverse_scale(S):
    """inverse of a regular square matrix: A * inverse(A) = identity (numpy's solver is assumed to invert)."""
    n = S.dim('n', hi=4)
    A = S.matrix('A', n, n)
    if not S.symbolic:
        import numpy as np
        S.assume(abs(np.linalg.det(A.data)) > 1e-3)
        I = A.mul(A.inverse())
        S.is_matrix('A*inv(A)', I, n, n, lambda i, j: 1.0 if i == j else 0.0, 1e-5)
    else:
        e = S.raises(A.inverse)
        S.assume(e is None)
        S.shape('inverse', A.inverse(), n, n)
    S.unchanged('A', A)
