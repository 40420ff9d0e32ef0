"""C04: reductions, norms, predicates, equality."""
from engine.dsl import contract


def A_(S, name='A'):
    n, m = S.dim('n'), S.dim('m')
    return n, m, S.matrix(name, n, m)


def colsum(S, A, n, j):
    return S.sum(n, lambda q: S.at(A, q, j))


def rowsum(S, A, m, i):
    return S.sum(m, lambda q: S.at(A, i, q))


def total(S, A, n, m, f=lambda x: x):
    return S.sum(n, lambda i: S.sum(m, lambda j: f(S.at(A, i, j))))


@contract('C04', 'Matrix.sum')
def sums(S):
    """sum() over everything, axis 0 (row vector of column sums), axis 1 (column vector of row sums), -1 (1x1)."""
    n, m, A = A_(S)
    S.check('sum()', S.eq(A.sum(), total(S, A, n, m)))
    S.is_matrix('sum(0)', A.sum(0), 1, m, lambda i, j: colsum(S, A, n, j))
    S.is_matrix('sum(1)', A.sum(1), n, 1, lambda i, j: rowsum(S, A, m, i))
    S.is_matrix('sum(-1)', A.sum(-1), 1, 1, lambda i, j: total(S, A, n, m))


@contract('C04', 'Matrix.mean')
def means(S):
    """mean() over everything, per column, per row, and as 1x1 matrix."""
    n, m, A = A_(S)
    S.check('mean()', S.eq(A.mean(), S.div(total(S, A, n, m), n * m)))
    S.is_matrix('mean(0)', A.mean(0), 1, m, lambda i, j: S.div(colsum(S, A, n, j), n))
    S.is_matrix('mean(1)', A.mean(1), n, 1, lambda i, j: S.div(rowsum(S, A, m, i), m))
    S.is_matrix('mean(-1)', A.mean(-1), 1, 1, lambda i, j: S.div(total(S, A, n, m), n * m))


@contract('C04', 'Matrix.sum', 'Matrix.mean', trials=40)
def bad_axis(S):
    """Any other axis is rejected."""
    n, m, A = A_(S)
    ax = S.int('axis', -6, 6)
    S.assume(S.and_(ax != -1, ax != 0, ax != 1))
    S.rejects('sum', A.sum, ax)
    S.rejects('mean', A.mean, ax)


@contract('C04', 'helper.column_means', 'helper.row_means', 'helper.column_mean', 'helper.row_mean', 'helper.mean')
def helper_means(S):
    """helper means: per column as row vector, per row as column vector, single values by index."""
    n, m, A = A_(S)
    S.is_matrix('column_means', S.helper.column_means(A), 1, m, lambda i, j: S.div(colsum(S, A, n, j), n))
    S.is_matrix('row_means', S.helper.row_means(A), n, 1, lambda i, j: S.div(rowsum(S, A, m, i), m))
    S.forall('column_mean', (m,), lambda j: S.eq(S.helper.column_mean(A, j), S.div(colsum(S, A, n, j), n)))
    S.forall('row_mean', (n,), lambda i: S.eq(S.helper.row_mean(A, i), S.div(rowsum(S, A, m, i), m)))
    S.forall('mean(column)', (m,), lambda j: S.eq(S.helper.mean(A, j), S.div(colsum(S, A, n, j), n)))
    S.forall('mean(row)', (n,), lambda i: S.eq(S.helper.mean(A, i, False), S.div(rowsum(S, A, m, i), m)))


def colstd(S, A, n, j):
    mu = S.div(colsum(S, A, n, j), n)
    return S.sqrt(S.div(S.sum(n, lambda q: (S.at(A, q, j) - mu) * (S.at(A, q, j) - mu)), n - 1))


def rowstd(S, A, m, i):
    mu = S.div(rowsum(S, A, m, i), m)
    return S.sqrt(S.div(S.sum(m, lambda q: (S.at(A, i, q) - mu) * (S.at(A, i, q) - mu)), m - 1))


@contract('C04', 'helper.column_stdevs', 'helper.row_stdevs', 'helper.stdev')
def helper_stdevs(S):
    """Sample standard deviations with denominator count-1."""
    n, m = S.dim('n', 2), S.dim('m', 2)
    A = S.matrix('A', n, m)
    S.is_matrix('column_stdevs', S.helper.column_stdevs(A), 1, m, lambda i, j: colstd(S, A, n, j))
    S.is_matrix('row_stdevs', S.helper.row_stdevs(A), n, 1, lambda i, j: rowstd(S, A, m, i))
    S.forall('column_stdev', (m,), lambda j: S.eq(S.helper.column_stdev(A, j), colstd(S, A, n, j)))
    S.forall('row_stdev', (n,), lambda i: S.eq(S.helper.row_stdev(A, i), rowstd(S, A, m, i)))
    S.forall('stdev(column)', (m,), lambda j: S.eq(S.helper.stdev(A, j), colstd(S, A, n, j)))
    S.forall('stdev(row)', (n,), lambda i: S.eq(S.helper.stdev(A, i, False), rowstd(S, A, m, i)))


@contract('C04', 'Matrix.norm1')
def norm1(S):
    """norm1 is the sum of absolute values over all cells."""
    n, m, A = A_(S)
    ab = lambda x: S.ite(x < 0, -x, x)
    S.check('norm1', S.eq(A.norm1(), S.sum(m, lambda j: S.sum(n, lambda i: ab(S.at(A, i, j))))))


@contract('C04', 'Matrix.norm2', 'Matrix.norm2_squared')
def norm2_vector(S):
    """norm2 of a row or column vector is its Euclidean length; norm2_squared its square."""
    n = S.dim('n')
    sq = lambda x: x * x
    if S.choice('orient', [0, 1]) == 0:
        V = S.matrix('V', 1, n)
        s = S.sum(n, lambda q: sq(S.at(V, 0, q)))
    else:
        V = S.matrix('V', n, 1)
        s = S.sum(n, lambda q: sq(S.at(V, q, 0)))
    S.check('norm2', S.eq(V.norm2(), S.sqrt(s)))
    S.check('norm2_squared', S.eq(V.norm2_squared(), S.sqrt(s) * S.sqrt(s)))


@contract('C04', 'Matrix.norm2')
def norm2_matrix(S):
    """norm2 of a proper matrix is the Frobenius norm over the root of the smaller dimension."""
    n, m = S.dim('n', 2), S.dim('m', 2)
    A = S.matrix('A', n, m)
    s = total(S, A, n, m, lambda x: x * x)
    S.check('norm2', S.eq(A.norm2(), S.div(S.sqrt(s), S.sqrt(S.min(n, m)))))


@contract('C04', 'Matrix.trace', 'Matrix.diag')
def trace(S):
    """trace is the sum of the diagonal."""
    n, m, A = A_(S)
    S.check('trace', S.eq(A.trace(), S.sum(S.min(n, m), lambda i: S.at(A, i, i))))


@contract('C04', 'Matrix.vector_dot')
def vector_dot(S):
    """vector_dot is the dot product, whatever the orientation of either vector."""
    n = S.dim('n')
    a, b = S.choice('a', [0, 1]), S.choice('b', [0, 1])
    V = S.matrix('V', n, 1) if a else S.matrix('V', 1, n)
    W = S.matrix('W', n, 1) if b else S.matrix('W', 1, n)
    v = (lambda q: S.at(V, q, 0)) if a else (lambda q: S.at(V, 0, q))
    w = (lambda q: S.at(W, q, 0)) if b else (lambda q: S.at(W, 0, q))
    S.check('dot', S.eq(V.vector_dot(W), S.sum(n, lambda q: v(q) * w(q))))


@contract('C04', 'Matrix.max')
def maximum(S):
    """max is an upper bound of all cells and is one of them."""
    n, m, A = A_(S)
    x = A.max()
    S.forall('upper bound', (n, m), lambda i, j: x >= S.at(A, i, j))
    S.check('attained', S.exists((n, m), lambda i, j: S.same(x, S.at(A, i, j))))


@contract('C04', 'Matrix.median', sym=False)
def median(S):
    """median is the middle value (mean of the two middle values) of all cells."""
    import statistics
    n, m, A = A_(S)
    S.check('median', S.eq(A.median(), statistics.median([float(S.at(A, i, j)) for i in range(n) for j in range(m)])))


def preds(S):
    t = S.real('t')
    return {'gt': lambda v: v > t, 'eq': lambda v: v == t, 'ge': lambda v: v >= t}[S.choice('pred', ['gt', 'eq', 'ge'])]


@contract('C04', 'Matrix.any')
def any_(S):
    """any(f) is true exactly if some cell satisfies f."""
    n, m, A = A_(S)
    f = preds(S)
    S.check('any', S.iff(A.any(f), S.exists((n, m), lambda i, j: f(S.at(A, i, j)))))


@contract('C04', 'Matrix.all')
def all_(S):
    """all(f) is true exactly if every cell satisfies f."""
    n, m, A = A_(S)
    f = preds(S)
    S.check('all', S.iff(A.all(f), S.every((n, m), lambda i, j: f(S.at(A, i, j)))))


@contract('C04', 'Matrix.contains_NaN')
def contains_nan(S):
    """contains_NaN is true exactly if some cell is NaN."""
    n, m = S.dim('n'), S.dim('m')
    if S.symbolic:
        A = S.matrix('A', n, m)
    else:
        k = S.rng.random()
        A = S.matrix('A', n, m, gen=lambda i, j: float('nan') if S.rng.random() < (0.15 if k < .6 else 0) else S._val())
        if k > .9:
            A.data[n - 1, m - 1] = float('nan')
    S.check('contains_NaN', S.iff(A.contains_NaN(), S.exists((n, m), lambda i, j: S.isnan(S.at(A, i, j)))))


@contract('C04', 'Matrix.which', budget=40)
def which(S):
    """which(f) lists exactly the positions satisfying f, row by row."""
    n, m, A = A_(S)
    f = preds(S)
    L = A.which(f)
    if not S.symbolic:
        S.check('positions', L == [(i, j) for i in range(n) for j in range(m) if f(S.at(A, i, j))])
        return
    k = S.len(L)
    S.forall('listed positions satisfy the predicate and lie inside', (k,), lambda q: S.and_(L[q][0] >= 0, L[q][0] < n, L[q][1] >= 0, L[q][1] < m, f(S.at(A, L[q][0], L[q][1]))))
    S.forall('positions row by row', (k - 1,), lambda q: S.or_(L[q][0] < L[q + 1][0], S.and_(L[q][0] == L[q + 1][0], L[q][1] < L[q + 1][1])))
    S.forall('nothing is left out', (n, m), lambda i, j: S.implies(f(S.at(A, i, j)), S.lists(L, (i, j), i * m + j)))


@contract('C04', 'Matrix.where_vector', budget=40)
def where_vector(S):
    """where_vector(f) lists exactly the indices satisfying f in increasing order."""
    n = S.dim('n')
    t = S.real('t')
    row = S.choice('orient', [True, False])
    V = S.matrix('V', 1, n) if row else S.matrix('V', n, 1)
    v = (lambda q: S.at(V, 0, q)) if row else (lambda q: S.at(V, q, 0))
    L = V.where_vector(lambda x: x > t)
    if not S.symbolic:
        S.check('indices', L == [q for q in range(n) if v(q) > t])
        return
    k = S.len(L)
    S.forall('listed indices satisfy the predicate', (k,), lambda q: S.and_(L[q] >= 0, L[q] < n, v(L[q]) > t))
    S.forall('indices increase', (k - 1,), lambda q: L[q] < L[q + 1])
    S.forall('nothing is left out', (n,), lambda i: S.implies(v(i) > t, S.lists(L, i, i)))


@contract('C04', 'Matrix.where_vector', trials=20)
def where_vector_reject(S):
    """where_vector rejects a non-vector."""
    A = S.matrix('A', S.dim('n', 2), S.dim('m', 2))
    S.rejects('where_vector', A.where_vector, lambda v: True)


def shuffled(S, A, B, n, m):
    """Sometimes B is A but for two cells, whose differences cancel or which have changed places."""
    how = S.choice('two cells', ['independent', 'independent', 'cancel', 'swapped'])
    if how == 'independent':
        return
    i, j, k, l = S.int('i', 0, n - 1), S.int('j', 0, m - 1), S.int('k', 0, n - 1), S.int('l', 0, m - 1)
    B.data[:] = A.data
    if how == 'cancel':
        B.data[i, j] += .5
        B.data[k, l] -= .5
    else:
        B.data[i, j], B.data[k, l] = A.data[k, l], A.data[i, j]


@contract('C04', 'helper.equal')
def equal_tol(S):
    """equal(A, B, eps) holds exactly if shapes agree and no cell differs by more than eps."""
    n, m, A = A_(S)
    B = S.matrix('B', n, m) if S.symbolic or S.rng.random() < .5 else S.matrix('B', n, m, gen=lambda i, j: S.at(A, i, j) + S.rng.choice([0, 0, 0, 0.25, -0.25]))
    if not S.symbolic:
        shuffled(S, A, B, n, m)
    eps = S.real('eps', lo=0, hi=1)
    ab = lambda x: S.ite(x < 0, -x, x)
    S.check('equal', S.iff(S.helper.equal(A, B, eps), S.every((n, m), lambda i, j: ab(S.at(A, i, j) - S.at(B, i, j)) <= eps)))
    S.check('equal exact', S.iff(S.helper.equal(A, B), S.every((n, m), lambda i, j: S.same(S.at(A, i, j), S.at(B, i, j)))))


@contract('C04', 'helper.equal', 'Matrix.__eq__')
def equal_shapes(S):
    """Matrices of different shapes are never equal."""
    n, m, k, l = S.dim('n'), S.dim('m'), S.dim('k'), S.dim('l')
    S.assume(S.or_(n != k, m != l))
    A, B = S.matrix('A', n, m), S.matrix('B', k, l)
    S.check('equal', S.not_(S.helper.equal(A, B, 1000.0)))
    S.check('==', S.not_(A == B))


@contract('C04', 'Matrix.__eq__')
def equal_exact(S):
    """A == B holds exactly if every cell agrees; a matrix never equals None or another type."""
    n, m, A = A_(S)
    B = S.matrix('B', n, m) if S.symbolic or S.rng.random() < .3 else S.matrix('B', n, m, gen=lambda i, j: S.at(A, i, j) + (S.rng.random() < .08))
    if not S.symbolic:
        shuffled(S, A, B, n, m)
    S.check('==', S.iff(A == B, S.every((n, m), lambda i, j: S.same(S.at(A, i, j), S.at(B, i, j)))))
    S.check('== self', A == A)
    S.check('== None', S.not_(A == None))
    S.check('== number', S.not_(A == 1))
    C = A.copy()
    S.check('== copy', A == C)


@contract('C04', 'Matrix.sum', 'Matrix.mean', 'Matrix.max', 'Matrix.norm1', 'Matrix.norm2', sym=False, trials=60)
def reductions_nonfinite(S):
    """A cell that is infinite or NaN takes part in every reduction: nothing leaves it out."""
    import numpy as np
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    i, j = S.int('i', 0, n - 1), S.int('j', 0, m - 1)
    x = S.choice('cell', [float('inf'), float('-inf'), float('nan')])
    A.data[i, j] = x
    like = (lambda v: v != v) if x != x else (lambda v: v == x)
    for r in (A.sum(), A.mean(), A.sum(-1).get(0, 0), A.mean(-1).get(0, 0), A.sum(0).get(0, j), A.mean(0).get(0, j), A.sum(1).get(i, 0), A.mean(1).get(i, 0)):
        S.check('sum or mean', like(r))
    S.check('norm1', A.norm1() == abs(x) if x == x else np.isnan(A.norm1()))
    if x == x:
        S.check('max', A.max() == (x if x > 0 else np.max(A.data)))
    fine = lambda v: bool(np.isfinite(v))
    S.forall('other columns', (m,), lambda l: l == j or fine(A.sum(0).get(0, l)) and fine(A.mean(0).get(0, l)))
    S.forall('other rows', (n,), lambda k: k == i or fine(A.sum(1).get(k, 0)) and fine(A.mean(1).get(k, 0)))
