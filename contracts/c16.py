"""C16: kernels."""
from engine.dsl import contract


def kern(S, name):
    return getattr(S.mod('transformation.kernel'), name)()


def dot(S, X, i, Y, j, m):
    return S.sum(m, lambda q: S.at(X, i, q) * S.at(Y, j, q))


@contract('C16', 'LinearKernel.apply_vector', 'LinearKernel.apply_matrix')
def linear(S):
    """Linear kernel: dot products of rows; one argument means the matrix with itself."""
    n, p, m = S.dim('n'), S.dim('p'), S.dim('m')
    X, Y = S.matrix('X', n, m), S.matrix('Y', p, m)
    k = kern(S, 'LinearKernel')
    S.is_matrix('pairs', k.apply_matrix(X, Y), n, p, lambda i, j: dot(S, X, i, Y, j, m), 1e-7)
    S.is_matrix('self', k.apply_matrix(X), n, n, lambda i, j: dot(S, X, i, X, j, m), 1e-7)
    i, j = S.int('i', 0, 4), S.int('j', 0, 4)
    S.assume(S.and_(i >= 0, i < n, j >= 0, j < p))
    S.check('vector form', S.eq(k.apply_vector(X.get_row(i), Y.get_row(j)), dot(S, X, i, Y, j, m), 1e-7))
    S.unchanged('X', X)
    S.unchanged('Y', Y)


@contract('C16', 'LinearKernel.apply_vector')
def linear_vectors(S):
    """Row and column vectors of equal length are accepted in any combination, others are refused."""
    m = S.dim('m')
    x, y = S.matrix('x', 1, m), S.matrix('y', m, 1)
    k = kern(S, 'LinearKernel')
    d = S.sum(m, lambda q: S.at(x, 0, q) * S.at(y, q, 0))
    S.check('row, column', S.eq(k.apply_vector(x, y), d, 1e-7))
    S.check('column, row', S.eq(k.apply_vector(y, x), d, 1e-7))
    z = S.matrix('z', 1, m + 1)
    S.rejects('lengths differ', k.apply_vector, x, z)


def settings(S, k):
    """gamma default or set; offset; degree."""
    k.degree = S.choice('degree', [1, 2, 3, 4])
    off = S.real('coef')
    k.coef_0 = off
    g = None
    if S.choice('gamma', ['default', 'set']) == 'set':
        g = S.real('g')
        k.gamma = g
    return k.degree, off, g


def power(S, b, d):
    r = b
    for _ in range(d - 1):
        r = r * b
    return r


@contract('C16', 'PolyKernel.apply_matrix', 'PolyKernel.apply_vector')
def poly(S):
    """Polynomial kernel: (gamma dot + offset)^degree, gamma by default one over the number of columns."""
    n, p, m = S.dim('n'), S.dim('p'), S.dim('m')
    X, Y = S.matrix('X', n, m), S.matrix('Y', p, m)
    k = kern(S, 'PolyKernel')
    d, off, g = settings(S, k)
    ga = S.div(1, m) if g is None else g
    f = lambda A, i, B, j: power(S, ga * dot(S, A, i, B, j, m) + off, d)
    S.is_matrix('pairs', k.apply_matrix(X, Y), n, p, lambda i, j: f(X, i, Y, j), 1e-6)
    S.is_matrix('self', k.apply_matrix(X), n, n, lambda i, j: f(X, i, X, j), 1e-6)
    i, j = S.int('i', 0, 4), S.int('j', 0, 4)
    S.assume(S.and_(i >= 0, i < n, j >= 0, j < p))
    S.check('vector form', S.eq(k.apply_vector(X.get_row(i), Y.get_row(j)), f(X, i, Y, j), 1e-6))
    S.unchanged('X', X)
    S.unchanged('Y', Y)


@contract('C16', 'PolyKernel.apply_matrix', 'PolyKernel.apply_vector')
def poly_default_follows_data(S):
    """The default gamma follows the data at hand, whatever the kernel was used on before."""
    n, m, w = S.dim('n'), S.dim('m'), S.dim('w')
    X, Z = S.matrix('X', n, m), S.matrix('Z', n, w)
    k = kern(S, 'PolyKernel')
    d = k.degree
    S.check('degree', d == 3)
    if S.choice('first', ['matrix', 'vector']) == 'matrix':
        k.apply_matrix(Z)
    else:
        k.apply_vector(Z.get_row(0), Z.get_row(0))
    f = lambda i, j: power(S, S.div(1, m) * dot(S, X, i, X, j, m), 3)
    S.is_matrix('later data', k.apply_matrix(X), n, n, f, 1e-6)
    S.check('later vectors', S.eq(k.apply_vector(X.get_row(0), X.get_row(0)), f(0, 0), 1e-6))


def dist(S, X, i, Y, j, m):
    return S.sqrt(S.sum(m, lambda q: (S.at(X, i, q) - S.at(Y, j, q)) * (S.at(X, i, q) - S.at(Y, j, q))))


@contract('C16', 'RBFKernel.apply_vector', 'AbstractKernel.apply_matrix', budget=60)
def rbf(S):
    """Radial kernel: every cell is the kernel value of its two rows, exp(-gamma distance)."""
    n, p, m = S.dim('n'), S.dim('p'), S.dim('m')
    X, Y = S.matrix('X', n, m), S.matrix('Y', p, m)
    k = kern(S, 'RBFKernel')
    g = S.real('g', positive=True)
    k.gamma = g
    f = lambda A, i, B, j: S.exp(-g * dist(S, A, i, B, j, m))
    S.is_matrix('pairs', k.apply_matrix(X, Y), n, p, lambda i, j: f(X, i, Y, j), 1e-7)
    i, j = S.int('i', 0, 4), S.int('j', 0, 4)
    S.assume(S.and_(i >= 0, i < n, j >= 0, j < p))
    S.check('vector form', S.eq(k.apply_vector(X.get_row(i), Y.get_row(j)), f(X, i, Y, j), 1e-7))
    S.unchanged('X', X)
    S.unchanged('Y', Y)


@contract('C16', 'RBFKernel.apply_vector', 'AbstractKernel.apply_matrix', budget=60)
def rbf_self(S):
    """One argument: the same as the matrix with itself, and symmetric."""
    n, m = S.dim('n'), S.dim('m')
    X = S.matrix('X', n, m)
    k = kern(S, 'RBFKernel')
    g = S.real('g', positive=True)
    k.gamma = g
    K = k.apply_matrix(X)
    f = lambda i, j: S.exp(-g * dist(S, X, i, X, j, m))
    S.is_matrix('self', K, n, n, f, 1e-7)
    S.forall('symmetric', (n, n), lambda i, j: S.eq(S.at(K, i, j), S.at(K, j, i), 1e-9))
    S.unchanged('X', X)


def custom(S):
    """A kernel of the user's own, defined by its vector form only: not symmetric unless asked for."""
    base = S.mod('transformation.kernel').AbstractKernel
    w = S.real('w')

    class Own(base):
        def apply_vector(self, x, y):
            return x.get(0, 0) * y.get(0, 0) + w * (x.get(0, 0) + y.get(0, 0))

    return Own(), w


@contract('C16', 'AbstractKernel.apply_matrix')
def own_kernel(S):
    """The matrix form built from any vector form holds the kernel value of every pair, in the order of the arguments."""
    n, p, m = S.dim('n'), S.dim('p'), S.dim('m')
    X, Y = S.matrix('X', n, m), S.matrix('Y', p, m)
    k, w = custom(S)
    f = lambda A, i, B, j: S.at(A, i, 0) * S.at(B, j, 0) + w * (S.at(A, i, 0) + S.at(B, j, 0))
    S.is_matrix('pairs', k.apply_matrix(X, Y), n, p, lambda i, j: f(X, i, Y, j), 1e-7)
    S.is_matrix('self', k.apply_matrix(X), n, n, lambda i, j: f(X, i, X, j), 1e-7)


@contract('C16', 'LinearKernel.apply_matrix', 'PolyKernel.apply_matrix', 'AbstractKernel.apply_matrix')
def widths_must_agree(S):
    """Rows of different length have no kernel value: refused."""
    n, p, m = S.dim('n'), S.dim('p'), S.dim('m')
    w = S.dim('w')
    S.assume(S.not_(S.eqi(w, m)))
    X, Y = S.matrix('X', n, m), S.matrix('Y', p, w)
    k = kern(S, S.choice('kernel', ['LinearKernel', 'PolyKernel', 'RBFKernel']))
    S.rejects('widths differ', k.apply_matrix, X, Y)
