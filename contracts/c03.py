"""C03: selecting, joining and replacing parts of a matrix."""
from engine.dsl import contract


def A_(S, name='A'):
    n, m = S.dim('n'), S.dim('m')
    return n, m, S.matrix(name, n, m)


def index(S, name, n):
    """an index in 0..n-1"""
    i = S.int(name, 0, 20)
    if not S.symbolic:
        i = i % n
        S.used[name] = i
    else:
        S.assume(S.and_(i >= 0, i < n))
    return i


@contract('C03', 'Matrix.get', 'Matrix.set')
def get_set(S):
    """get(i,j) is cell (i,j); set changes exactly that cell."""
    n, m, A = A_(S)
    i, j = index(S, 'i', n), index(S, 'j', m)
    S.check('get', S.same(A.get(i, j), S.at(A, i, j)))
    a0 = S.cells(A)
    x = S.real('x')
    A.set(i, j, x)
    S.is_matrix('set', A, n, m, lambda p, q: S.ite(S.and_(S.eqi(p, i), S.eqi(q, j)), x, a0(p, q)), exact=True)
    S.check('get after set', S.same(A.get(i, j), x))


@contract('C03', 'Matrix.set')
def set_int(S):
    """set with an integer stores that number."""
    n, m, A = A_(S)
    i, j, x = index(S, 'i', n), index(S, 'j', m), S.int('x')
    A.set(i, j, x)
    S.check('stored', S.eq(A.get(i, j), x))


@contract('C03', 'Matrix.get_row')
def get_row(S):
    """get_row(i) is row i as a row vector."""
    n, m, A = A_(S)
    i = index(S, 'i', n)
    S.is_matrix('row', A.get_row(i), 1, m, lambda p, q: S.at(A, i, q), exact=True)
    S.is_matrix('row_as_vector', S.helper.row_as_vector(A, i), 1, m, lambda p, q: S.at(A, i, q), exact=True)


@contract('C03', 'Matrix.get_column')
def get_column(S):
    """get_column(j) is column j as a column vector."""
    n, m, A = A_(S)
    j = index(S, 'j', m)
    S.is_matrix('column', A.get_column(j), n, 1, lambda p, q: S.at(A, p, j), exact=True)
    S.is_matrix('column_as_vector', S.helper.column_as_vector(A, j), n, 1, lambda p, q: S.at(A, p, j), exact=True)


@contract('C03', 'Matrix.transpose')
def transpose(S):
    """transpose()[i,j] = A[j,i], also through the alias t."""
    n, m, A = A_(S)
    S.is_matrix('transpose', A.transpose(), m, n, lambda i, j: S.at(A, j, i), exact=True)
    S.is_matrix('t', A.t(), m, n, lambda i, j: S.at(A, j, i), exact=True)


@contract('C03', 'Matrix.copy')
def copy(S):
    """copy() equals the matrix."""
    n, m, A = A_(S)
    S.is_matrix('copy', A.copy(), n, m, lambda i, j: S.at(A, i, j), exact=True)


@contract('C03', 'Matrix.get_sub_matrix')
def sub_matrix_lists(S):
    """get_sub_matrix(rows, columns) holds A[rows[i], columns[j]]."""
    n, m, A = A_(S)
    k, l = S.dim('k'), S.dim('l')
    rows, cols = S.intlist('rows', k, 0, n), S.intlist('cols', l, 0, m)
    S.is_matrix('sub-matrix', A.get_sub_matrix(rows, cols), k, l, lambda i, j: S.at(A, rows[i], cols[j]), exact=True)
    S.unchanged('A', A)


def bounds(S, name, n):
    a, b = index(S, name + '0', n), index(S, name + '1', n)
    if S.symbolic:
        S.assume(a <= b)
    else:
        a, b = min(a, b), max(a, b)
        S.used[name + '0'], S.used[name + '1'] = a, b
    return a, b + 1


@contract('C03', 'Matrix.get_sub_matrix', 'Matrix.get_rows', 'Matrix.get_columns')
def sub_matrix_ranges(S):
    """Tuples designate half-open ranges."""
    n, m, A = A_(S)
    a, b = bounds(S, 'r', n)
    c, d = bounds(S, 'c', m)
    S.is_matrix('sub-matrix', A.get_sub_matrix((a, b), (c, d)), b - a, d - c, lambda i, j: S.at(A, a + i, c + j), exact=True)
    S.is_matrix('get_rows', A.get_rows((a, b)), b - a, m, lambda i, j: S.at(A, a + i, j), exact=True)
    S.is_matrix('get_columns', A.get_columns((c, d)), n, d - c, lambda i, j: S.at(A, i, c + j), exact=True)


@contract('C03', 'Matrix.get_rows', 'Matrix.get_columns')
def rows_columns_lists(S):
    """get_rows / get_columns with index lists."""
    n, m, A = A_(S)
    k, l = S.dim('k'), S.dim('l')
    rows, cols = S.intlist('rows', k, 0, n), S.intlist('cols', l, 0, m)
    S.is_matrix('get_rows', A.get_rows(rows), k, m, lambda i, j: S.at(A, rows[i], j), exact=True)
    S.is_matrix('get_columns', A.get_columns(cols), n, l, lambda i, j: S.at(A, i, cols[j]), exact=True)


@contract('C03', 'Matrix.head')
def head(S):
    """head(h) is the first min(h, rows) rows; five by default."""
    n, m, A = A_(S)
    h = S.dim('h')
    S.is_matrix('head', A.head(h), S.min(h, n), m, lambda i, j: S.at(A, i, j), exact=True)
    S.is_matrix('head default', A.head(), S.min(5, n), m, lambda i, j: S.at(A, i, j), exact=True)


@contract('C03', 'Matrix.diag')
def diag(S):
    """diag() is the column of the first min(n,m) diagonal cells."""
    n, m, A = A_(S)
    S.is_matrix('diag', A.diag(), S.min(n, m), 1, lambda i, j: S.at(A, i, i), exact=True)


@contract('C03', 'Matrix.concat_along_rows', 'Matrix.concat_along_columns', 'Matrix.concat')
def concat(S):
    """Concatenation stacks the cells of both matrices in order."""
    n, m, A = A_(S)
    k, l = S.dim('k'), S.dim('l')
    B, C = S.matrix('B', k, m), S.matrix('C', n, l)
    rowcat = lambda i, j: S.ite(i < n, cell(S, A, i, j, i < n), cell(S, B, i - n, j, i >= n))
    colcat = lambda i, j: S.ite(j < m, cell(S, A, i, j, j < m), cell(S, C, i, j - m, j >= m))
    S.is_matrix('along rows', A.concat_along_rows(B), n + k, m, rowcat, exact=True)
    S.is_matrix('along columns', A.concat_along_columns(C), n, m + l, colcat, exact=True)
    S.is_matrix('axis 0', A.concat(B, 0), n + k, m, rowcat, exact=True)
    S.is_matrix('axis 1', A.concat(C, 1), n, m + l, colcat, exact=True)


def cell(S, M, i, j, ok):
    if S.symbolic or ok:
        return S.at(M, i, j)
    return 0.0


@contract('C03', 'Matrix.concat', trials=30)
def concat_reject(S):
    """Concatenating matrices that do not fit raises."""
    n, m, k, l = S.dim('n'), S.dim('m'), S.dim('k'), S.dim('l')
    A, B = S.matrix('A', n, m), S.matrix('B', k, l)
    if S.choice('axis', [0, 1]) == 0:
        S.assume(m != l)
        S.rejects('along rows', A.concat_along_rows, B)
    else:
        S.assume(n != k)
        S.rejects('along columns', A.concat_along_columns, B)


@contract('C03', 'helper.multi_concat')
def multi_concat(S):
    """multi_concat joins any of its matrices in order."""
    n = S.dim('n')
    a, b, c = S.dim('a'), S.dim('b'), S.dim('c')
    A, B, C = S.matrix('A', n, a), S.matrix('B', n, b), S.matrix('C', n, c)
    R = S.helper.multi_concat(1, A, B, C)
    S.is_matrix('columns', R, n, a + b + c, lambda i, j: S.ite(j < a, cell(S, A, i, j, j < a), S.ite(j < a + b, cell(S, B, i, j - a, a <= j < a + b if not S.symbolic else True), cell(S, C, i, j - a - b, j >= a + b))), exact=True)


@contract('C03', 'Matrix.to_raw_copy_1D')
def raw_1d(S):
    """to_raw_copy_1D lists the cells column by column."""
    n, m, A = A_(S)
    L = A.to_raw_copy_1D()
    S.check('length', S.eqi(S.len(L), n * m))
    S.forall('elements', (m, n), lambda c, r: S.same(L[c * n + r], S.at(A, r, c)))


@contract('C03', 'Matrix.to_raw_copy_2D')
def raw_2d(S):
    """to_raw_copy_2D lists the cells row by row."""
    n, m, A = A_(S)
    L = A.to_raw_copy_2D()
    S.check('rows', S.eqi(S.len(L), n))
    S.forall('row lengths', (n,), lambda r: S.eqi(S.len(L[r]), m))
    S.forall('elements', (n, m), lambda r, c: S.same(L[r][c], S.at(A, r, c)))


@contract('C03', 'Matrix.set_row')
def set_row(S):
    """set_row replaces the first min(len, columns) cells of that row only, from either orientation of vector."""
    n, m, A = A_(S)
    l, i = S.dim('l'), index(S, 'i', n)
    row = S.choice('orient', [True, False])
    V = S.matrix('V', 1, l) if row else S.matrix('V', l, 1)
    v = (lambda q: S.at(V, 0, q)) if row else (lambda q: S.at(V, q, 0))
    a0 = S.cells(A)
    A.set_row(i, V)
    S.is_matrix('set_row', A, n, m, lambda p, q: S.ite(S.and_(S.eqi(p, i), q < l), v(q) if S.symbolic or q < l else 0, a0(p, q)), exact=True)


@contract('C03', 'Matrix.set_column')
def set_column(S):
    """set_column replaces the first min(len, rows) cells of that column only."""
    n, m, A = A_(S)
    l, j = S.dim('l'), index(S, 'j', m)
    row = S.choice('orient', [True, False])
    V = S.matrix('V', 1, l) if row else S.matrix('V', l, 1)
    v = (lambda q: S.at(V, 0, q)) if row else (lambda q: S.at(V, q, 0))
    a0 = S.cells(A)
    A.set_column(j, V)
    S.is_matrix('set_column', A, n, m, lambda p, q: S.ite(S.and_(S.eqi(q, j), p < l), v(p) if S.symbolic or p < l else 0, a0(p, q)), exact=True)


@contract('C03', 'Matrix.set_row', 'Matrix.set_column', trials=30)
def set_vector_reject(S):
    """set_row / set_column reject a non-vector and leave the matrix alone."""
    n, m, A = A_(S)
    k, l = S.dim('k', 2), S.dim('l', 2)
    B = S.matrix('B', k, l)
    S.rejects('set_row', A.set_row, 0, B)
    S.rejects('set_column', A.set_column, 0, B)
    S.unchanged('A', A)


@contract('C03', 'helper.fill_diagonal')
def fill_diagonal(S):
    """fill_diagonal sets exactly the diagonal cells."""
    n, m, A = A_(S)
    x = S.real('x')
    a0 = S.cells(A)
    S.helper.fill_diagonal(A, x)
    S.is_matrix('fill_diagonal', A, n, m, lambda i, j: S.ite(S.eqi(i, j), x, a0(i, j)), exact=True)


@contract('C03', 'Matrix.get_from_vector')
def get_from_vector(S):
    """get_from_vector(i) is element i of a row or column vector."""
    n = S.dim('n')
    i = index(S, 'i', n)
    V, W = S.matrix('V', 1, n), S.matrix('W', n, 1)
    S.check('row vector', S.same(V.get_from_vector(i), S.at(V, 0, i)))
    S.check('column vector', S.same(W.get_from_vector(i), S.at(W, i, 0)))
    B = S.matrix('B', S.dim('k', 2), S.dim('l', 2))
    S.rejects('non-vector', B.get_from_vector, 0)


@contract('C03', 'Matrix.vector_to_diagonal')
def vector_to_diagonal(S):
    """vector_to_diagonal puts element i at (i,i) and zero elsewhere."""
    n = S.dim('n')
    row = S.choice('orient', [True, False])
    V = S.matrix('V', 1, n) if row else S.matrix('V', n, 1)
    S.is_matrix('diagonal matrix', V.vector_to_diagonal(), n, n, lambda i, j: S.ite(S.eqi(i, j), S.at(V, 0, i) if row else S.at(V, i, 0), 0.0), exact=True)
    B = S.matrix('B', S.dim('k', 2), S.dim('l', 2))
    S.rejects('non-vector', B.vector_to_diagonal)


@contract('C03', 'helper.delete_col', 'helper.delete_cols')
def delete_col(S):
    """delete_col removes exactly that column and keeps the order of the others."""
    n, m = S.dim('n'), S.dim('m', 2)
    A = S.matrix('A', n, m)
    j = index(S, 'j', m)
    R = S.helper.delete_col(A, j)
    S.is_matrix('delete_col', R, n, m - 1, lambda p, q: S.ite(q < j, S.at(A, p, q), S.at(A, p, q + 1)), exact=True)
    S.unchanged('A', A)


@contract('C03', 'helper.delete_cols')
def delete_cols(S):
    """delete_cols keeps exactly the columns not listed, in order, whatever the order or repetition of the list."""
    n, m = S.dim('n'), S.dim('m', 3)
    A = S.matrix('A', n, m)
    cols = S.intlist('cols', 2, 0, m)
    R = S.helper.delete_cols(A, cols)
    if not S.symbolic:
        keep = [q for q in range(m) if q not in cols]
        S.is_matrix('delete_cols', R, n, len(keep), lambda p, q: S.at(A, p, keep[q]), exact=True)
    else:
        lo, hi = S.min(cols[0], cols[1]), S.max(cols[0], cols[1])
        S.assume(lo != hi)
        S.is_matrix('delete_cols', R, n, m - 2, lambda p, q: S.ite(q < lo, S.at(A, p, q), S.ite(q + 1 < hi, S.at(A, p, q + 1), S.at(A, p, q + 2))), exact=True)


@contract('C03', 'helper.delete_cols', trials=120)
def delete_many_cols(S):
    """The same for lists of any length."""
    n, m = S.dim('n'), S.dim('m', 2, 12)
    A = S.matrix('A', n, m)
    k = S.dim('how many', 1, 13)
    cols = S.intlist('cols', k, 0, m)
    keep = S.selection(m, lambda q: S.not_(S.member(cols, q)))
    S.assume(S.len(keep) > 0)
    S.is_matrix('delete_cols', S.helper.delete_cols(A, cols), n, S.len(keep), lambda p, q: S.at(A, p, keep[q]), exact=True)
    S.unchanged('A', A)


@contract('C03', 'Matrix.num_elements', 'Matrix.same_shape_as', 'Matrix.is_vector')
def shape_queries(S):
    """Shape queries answer for the actual shape."""
    n, m, A = A_(S)
    k, l = S.dim('k'), S.dim('l')
    B = S.matrix('B', k, l)
    S.check('num_rows', S.eqi(A.num_rows(), n))
    S.check('num_columns', S.eqi(A.num_columns(), m))
    S.check('num_elements', S.eqi(A.num_elements(), n * m))
    S.check('same_shape_as', S.iff(A.same_shape_as(B), S.and_(n == k, m == l)))
    S.check('is_vector', S.iff(A.is_vector(), S.or_(n == 1, m == 1)))
    S.check('is_row_vector', S.iff(A.is_row_vector(), S.eqi(n, 1)))
    S.check('is_column_vector', S.iff(A.is_column_vector(), S.eqi(m, 1)))
    S.check('is_square', S.iff(A.is_square(), S.eqi(n, m)))


@contract('C03', 'Matrix.__init__', trials=30)
def construct(S):
    """A matrix built from a one-dimensional array is a row vector; three dimensions are refused."""
    n, m, A = A_(S)
    V = S.Matrix(A.data[0])
    S.is_matrix('row vector', V, 1, m, lambda i, j: S.at(A, 0, j), exact=True)
