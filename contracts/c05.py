"""C05: decompositions answer for the current contents; what they return is the caller's."""
from engine.dsl import contract

EIG = ['get_eigenvalues', 'get_eigenvectors', 'get_eigenvalue_decomposition_V', 'get_eigenvalue_decomposition_D',
       'get_eigenvalues_sorted_descending', 'get_eigenvalues_sorted_ascending']
EIG_SORTED = ['get_eigenvectors_sorted_descending', 'get_eigenvectors_sorted_ascending', 'get_dominant_eigenvector']
SVD = ['svd_U', 'svd_V', 'svd_S', 'get_singular_values']
ALL = EIG + EIG_SORTED + SVD


def symmetric(S, n):
    if S.symbolic:
        return S.matrix('A', n, n)
    import numpy as np
    d = np.array([[S._val() + 3 * (i == j) * (i + 1) for j in range(n)] for i in range(n)]).reshape(n, n)
    d = d + d.T
    return S.matrix('A', n, n, gen=lambda a, b: d[a, b])


def vec(S, name, r, c):
    return S.matrix(name, r, c)


def m_set(S, A, n, m):
    i, j = S.int('i', 0, n - 1), S.int('j', 0, m - 1)
    S.assume(S.and_(i >= 0, j >= 0, i < n, j < m))
    A.set(i, j, S.real('x'))


def m_set_row(S, A, n, m):
    A.set_row(n - 1, vec(S, 'V', 1, m))


def m_set_column(S, A, n, m):
    A.set_column(0, vec(S, 'V', n, 1))


def m_set_column_short(S, A, n, m):
    A.set_column(m - 1, vec(S, 'V', 1, 1))


def m_modify(op, orient):
    def f(S, A, n, m):
        S.assume(S.or_(orient == 'row', n > 1, m == 1))        # a single number counts as a row
        V = vec(S, 'V', 1, m) if orient == 'row' else vec(S, 'V', n, 1)
        getattr(A, op + '_by_vector_modify')(V)
    return f


def m_fill(S, A, n, m):
    S.helper.fill_diagonal(A, S.real('x'))


def m_reset(S, A, n, m):
    A.reset_cache()


MUT = {'set': m_set, 'set_row': m_set_row, 'set_column': m_set_column, 'set_column_short': m_set_column_short, 'fill_diagonal': m_fill, 'reset_cache': m_reset}
for _op in ('add', 'sub', 'mul', 'div'):
    for _o in ('row', 'column'):
        MUT[f'{_op}_by_vector_modify_{_o}'] = m_modify(_op, _o)


def ask(S, A, q):
    """Answer or None when the decomposition does not converge / is complex on a non-symmetric matrix."""
    try:
        return getattr(A, q)()
    except Exception as e:
        if type(e).__name__ == 'LinAlgError':
            return None
        raise


def compare(S, what, A, B, queries):
    for q in queries:
        x, y = ask(S, A, q), ask(S, B, q)
        S.check(f'{q} {what}: answers like a fresh matrix', (x is None) == (y is None))
        if x is not None:
            S.same_matrix(f'{q} {what}', x, y, exact=True)


def finite(S, A):
    if not S.symbolic:
        import numpy as np
        S.assume(bool(np.all(np.isfinite(A.data))))


def clone(S, A):
    return A.copy()


def _mk(mname, mut, queries, tag, budget=30):
    def c(S):
        n = m = S.dim('n', hi=5)
        if tag == 'svd':
            m = S.dim('m', hi=5)
            A = S.matrix('A', n, m)
        else:
            A = symmetric(S, n)
        for q in queries:
            ask(S, A, q)
        mut(S, A, n, m)
        finite(S, A)
        B = S.factory.create(A.data)
        compare(S, 'after ' + mname, A, B, queries)
        S.same_matrix('contents after the queries', A, B, exact=True)
        # and once more: a second change after the caches were filled again
        mut(S, A, n, m)
        finite(S, A)
        B = S.factory.create(A.data)
        compare(S, 'after a second ' + mname, A, B, queries)
    c.__doc__ = f'Filled caches, {mname}, then every query equals the query on a fresh equal matrix (twice in a row).'
    contract('C05', f'Matrix.{mname}', 'Matrix.reset_cache', 'Matrix.make_eigenvalue_decomposition', 'Matrix.make_singular_value_decomposition',
             name=f'coherent_{mname}_{tag}', trials=24, budget=budget)(c)


for _m, _f in MUT.items():
    _mk(_m, _f, EIG, 'eig')
    _mk(_m, _f, SVD, 'svd')
    _mk(_m, _f, EIG_SORTED, 'sorted', budget=100)


def _own(q, group, tag, budget=30):
    def c(S):
        n = S.dim('n', hi=5)
        A = S.matrix('A', n, S.dim('m', hi=5)) if tag == 'svd' else symmetric(S, n)
        B = S.factory.create(A.data)
        R = getattr(A, q)()
        R.set(0, 0, 4711.0)
        S.helper.fill_diagonal(R, 815.0)
        S.unchanged('matrix after changing the answer', A)
        compare(S, f'after changing the answer of {q}', A, B, group)
        R2 = getattr(A, q)()
        S.fresh('second answer', R2, R)
    c.__doc__ = f'Changing what {q} returned changes neither the matrix nor later answers.'
    contract('C05', f'Matrix.{q}', name=f'own_{q}', trials=16, budget=budget)(c)


for _q in EIG:
    _own(_q, EIG, 'eig')
for _q in EIG_SORTED:
    _own(_q, EIG, 'sorted')
for _q in SVD:
    _own(_q, SVD, 'svd')


@contract('C05', 'Matrix.svd_U', 'Matrix.svd_V', 'Matrix.svd_S', trials=40, sym=False)
def svd_reassembles(S):
    """U * S * V gives the matrix back; singular values are non-negative and descending."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    S.same_matrix('U S V', A.svd_U().mul(A.svd_S()).mul(A.svd_V()), A)
    s = A.get_singular_values()
    k = min(n, m)
    S.shape('singular values', s, k, 1)
    S.forall('descending, non-negative', (k,), lambda i: s.get(i, 0) >= 0 and (i == 0 or s.get(i - 1, 0) >= s.get(i, 0)))


@contract('C05', 'Matrix.get_eigenvalues', 'Matrix.get_eigenvectors', trials=40, sym=False)
def eig_defining_equation(S):
    """A V = V D, sorted variants are sorted, and D has the eigenvalues on its diagonal."""
    n = S.dim('n', hi=5)
    A = symmetric(S, n)
    scale = float(abs(A.data).max()) + 1
    V, D = A.get_eigenvalue_decomposition_V(), A.get_eigenvalue_decomposition_D()
    L, Rr = A.mul(V), V.mul(D)
    S.forall('A V = V D', (n, n), lambda i, j: abs(S.at(L, i, j) - S.at(Rr, i, j)) <= 1e-8 * scale)
    ev = A.get_eigenvalues()
    S.shape('eigenvalues', ev, n, 1)
    S.forall('diagonal of D', (n, n), lambda i, j: S.eq(S.at(D, i, j), ev.get(i, 0) if i == j else 0))
    de, asc = A.get_eigenvalues_sorted_descending(), A.get_eigenvalues_sorted_ascending()
    S.forall('sorted', (n - 1,), lambda i: de.get(i, 0) >= de.get(i + 1, 0) and asc.get(i, 0) <= asc.get(i + 1, 0))
    for W, vals in ((A.get_eigenvectors_sorted_descending(), de), (A.get_eigenvectors_sorted_ascending(), asc), (A.get_eigenvectors(True), de)):
        L = A.mul(W)
        S.forall('sorted eigenvectors', (n, n), lambda i, j: abs(S.at(L, i, j) - vals.get(j, 0) * S.at(W, i, j)) <= 1e-7 * scale)
    d = A.get_dominant_eigenvector()
    L = A.mul(d)
    S.forall('dominant eigenvector', (n,), lambda i: abs(S.at(L, i, 0) - de.get(0, 0) * d.get(i, 0)) <= 1e-7 * scale)
