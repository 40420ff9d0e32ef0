"""C06: factories."""
from engine.dsl import contract


def own(S, name, M, n, m, f):
    S.is_matrix(name, M, n, m, f, exact=True)
    if not S.symbolic:
        S.check(name + ' element type', M.data.dtype == 'float64')


@contract('C06', 'factory.zeros', 'factory.eye', 'factory.filled')
def constant_shapes(S):
    """zeros, eye, filled: every cell for every shape; a missing column count means square."""
    n, m = S.dim('n'), S.dim('m')
    x = S.real('x')
    F = S.factory
    own(S, 'zeros(n,m)', F.zeros(n, m), n, m, lambda i, j: 0)
    own(S, 'zeros(n)', F.zeros(n), n, n, lambda i, j: 0)
    own(S, 'eye(n,m)', F.eye(n, m), n, m, lambda i, j: S.ite(S.eqi(i, j), 1, 0))
    own(S, 'eye(n)', F.eye(n), n, n, lambda i, j: S.ite(S.eqi(i, j), 1, 0))
    own(S, 'filled', F.filled(n, m, x), n, m, lambda i, j: x)


@contract('C06', 'factory.zeros', 'factory.eye', 'factory.filled', trials=20)
def no_rows_or_columns(S):
    """The requested shape is kept when there are no rows, or no columns."""
    n, x = S.dim('n'), S.real('x')
    F = S.factory
    r, c = (0, n) if S.choice('no', ['rows', 'columns']) == 'rows' else (n, 0)
    for nm, M in (('zeros', F.zeros(r, c)), ('filled', F.filled(r, c, x)), ('eye', F.eye(r, c))):
        S.shape(nm, M, r, c)
    S.shape('zeros_like', F.zeros_like(F.eye(r, c)), r, c)


@contract('C06', 'factory.zeros_like', 'factory.eye_like', 'factory.filled_like', 'factory.rand_like', 'factory.randn_like')
def like_variants(S):
    """The -like variants take exactly the shape of the model and the content of the plain variant."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    x = S.real('x')
    seed = S.int('seed', 0, 50)
    S.assume(seed >= 0)
    F = S.factory
    own(S, 'zeros_like', F.zeros_like(A), n, m, lambda i, j: 0)
    own(S, 'eye_like', F.eye_like(A), n, m, lambda i, j: S.ite(S.eqi(i, j), 1, 0))
    own(S, 'filled_like', F.filled_like(A, x), n, m, lambda i, j: x)
    S.same_matrix('rand_like', F.rand_like(A, seed), F.rand(n, m, seed), exact=True)
    S.same_matrix('randn_like', F.randn_like(A, seed), F.randn(n, m, seed), exact=True)
    S.unchanged('model', A)


@contract('C06', 'factory.range')
def ranged(S):
    """range counts up along the columns, row by row, from the start value."""
    n, m = S.dim('n'), S.dim('m')
    s = S.int('start', -20, 20) * (1 if S.symbolic else S.choice('scale', [1, 1, 10 ** 7 + 1, 10 ** 12 + 1]))
    own(S, 'range', S.factory.range(n, m, s), n, m, lambda i, j: s + i * m + j)


@contract('C06', 'factory.diag')
def diagonal(S):
    """diag puts the column vector on the diagonal of a square zero matrix."""
    n = S.dim('n')
    V = S.matrix('V', n, 1)
    own(S, 'diag', S.factory.diag(V), n, n, lambda i, j: S.ite(S.eqi(i, j), S.at(V, i, 0), 0))
    S.unchanged('V', V)


@contract('C06', 'factory.from_row', 'factory.from_column', 'factory.create_spectrum')
def from_lists(S):
    """Row, column and spectrum constructions take the listed values in order."""
    n = S.dim('n')
    u, v = S.reallist('u', n), S.reallist('v', n)
    own(S, 'from_row', S.factory.from_row(u), 1, n, lambda i, j: S.item(u, j))
    own(S, 'from_column', S.factory.from_column(u), n, 1, lambda i, j: S.item(u, i))
    own(S, 'create_spectrum', S.factory.create_spectrum(u, v), n, 2, lambda i, j: S.ite(S.eqi(j, 0), S.item(u, i), S.item(v, i)))


@contract('C06', 'factory.create_spectrum')
def spectrum_lengths(S):
    """Lists of different length are rejected."""
    n, m = S.dim('n'), S.dim('m')
    S.assume(n != m)
    u, v = S.reallist('u', n), S.reallist('v', m)
    S.rejects('create_spectrum', S.factory.create_spectrum, u, v)


@contract('C06', 'factory.create', 'factory.from_raw')
def literal(S):
    """create/from_raw copy the given values cell by cell, from nested lists and arrays."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    raw = A.to_raw_copy_2D()
    own(S, 'create(list)', S.factory.create(raw), n, m, lambda i, j: S.at(A, i, j))
    own(S, 'from_raw(list)', S.factory.from_raw(raw), n, m, lambda i, j: S.at(A, i, j))
    C = S.factory.create(A.data)
    own(S, 'create(array)', C, n, m, lambda i, j: S.at(A, i, j))
    C.set(0, 0, 99.0)
    S.unchanged('source', A)


@contract('C06', 'factory.create', trials=30)
def literal_numbers(S):
    """Integer literals become reals."""
    a, b = S.int('a', -9, 9), S.int('b', -9, 9)
    x = S.real('x')
    own(S, 'create', S.factory.create([[a, b, x], [b, x, a]]), 2, 3, lambda i, j: S.ite(S.eqi(i, 0), S.ite(S.eqi(j, 0), a, S.ite(S.eqi(j, 1), b, x)), S.ite(S.eqi(j, 0), b, S.ite(S.eqi(j, 1), x, a))))


def _advance(S):
    """Some other use of the generator in between."""
    S.factory.rand(3, 2, S.int('other', 0, 50))


@contract('C06', 'factory.rand', 'factory.randn')
def random_depends_on_shape_and_seed(S):
    """rand/randn: requested shape, unit interval, same result for same shape and seed whatever was generated before, and the default seed is fixed."""
    n, m = S.dim('n'), S.dim('m')
    seed, other = S.int('seed', 0, 50), S.int('other', 0, 50)
    S.assume(S.and_(seed >= 0, other >= 0))
    F = S.factory
    for nm in ('rand', 'randn'):
        f = getattr(F, nm)
        A = f(n, m, seed)
        F.rand(3, 2, other)
        F.randn(n, m, other)
        B = f(n, m, seed)
        S.shape(nm, A, n, m)
        S.same_matrix(nm + ' again', B, A, exact=True)
        S.fresh(nm + ' again', B, A)
        S.forall(nm + ' in [0,1)', (n, m), lambda i, j: S.and_(S.at(A, i, j) >= 0, S.at(A, i, j) < 1))
        D = f(n, m)
        F.rand(2, 2, other)
        S.same_matrix(nm + ' default seed', f(n, m), D, exact=True)
        S.same_matrix(nm + ' default seed is 1', f(n, m, 1), D, exact=True)


@contract('C06', 'factory.rand', trials=60, sym=False)
def seeds_differ(S):
    """Different seeds give different matrices (the seed is really used)."""
    n, m = S.dim('n'), S.dim('m')
    s = S.int('s', 0, 1000)
    t = S.choice('apart', [S.int('t', 0, 1000), s + 1000 * S.int('thousands', 1, 9), s + 2 ** S.int('bit', 0, 31), 2 ** 32 - 1 - s])
    S.assume(s != t)
    S.check('rand', not bool((S.factory.rand(n, m, s).data == S.factory.rand(n, m, t).data).all()))
    S.check('randn', not bool((S.factory.randn(n, m, s).data == S.factory.randn(n, m, t).data).all()))
    import numpy as np
    np.random.seed(s)
    S.is_matrix('rand is the seeded uniform generator', S.factory.rand(n, m, s), n, m, (lambda d: lambda i, j: d[i, j])(np.random.RandomState(s).rand(n, m)), exact=True)
