"""C01: no operation modifies or aliases its operands; in-place operations change only their target."""
from engine.dsl import contract


def nm(S):
    return S.dim('n'), S.dim('m')


# name -> (operand shapes given n, m, k ; call(S, operands...) -> result or None)
OPS = {
    'add': (lambda n, m, k: [(n, m), (n, m)], lambda S, A, B: A.add(B)),
    'sub': (lambda n, m, k: [(n, m), (n, m)], lambda S, A, B: A.sub(B)),
    'mul': (lambda n, m, k: [(n, m), (m, k)], lambda S, A, B: A.mul(B)),
    'mul_elementwise': (lambda n, m, k: [(n, m), (n, m)], lambda S, A, B: A.mul_elementwise(B)),
    'div_elementwise': (lambda n, m, k: [(n, m), (n, m)], lambda S, A, B: A.div_elementwise(B)),
    'add_by_vector_row': (lambda n, m, k: [(n, m), (1, m)], lambda S, A, B: A.add_by_vector(B)),
    'sub_by_vector_row': (lambda n, m, k: [(n, m), (1, m)], lambda S, A, B: A.sub_by_vector(B)),
    'mul_by_vector_row': (lambda n, m, k: [(n, m), (1, m)], lambda S, A, B: A.mul_by_vector(B)),
    'scale_by_row_vector': (lambda n, m, k: [(n, m), (m, 1)], lambda S, A, B: A.scale_by_row_vector(B)),
    'scale_by_column_vector': (lambda n, m, k: [(n + 1, m), (n + 1, 1)], lambda S, A, B: A.scale_by_column_vector(B)),
    'vector_op': (lambda n, m, k: [(n, m), (1, m)], lambda S, A, B: A.vector_op(B, _np(S).add)),
    'concat_rows': (lambda n, m, k: [(n, m), (k, m)], lambda S, A, B: A.concat_along_rows(B)),
    'concat_columns': (lambda n, m, k: [(n, m), (n, k)], lambda S, A, B: A.concat_along_columns(B)),
    'multi_concat': (lambda n, m, k: [(n, m), (n, k), (n, m)], lambda S, A, B, C: S.helper.multi_concat(1, A, B, C)),
    'multi_concat_one': (lambda n, m, k: [(n, m)], lambda S, A: S.helper.multi_concat(0, A)),
    'add_scalar': (lambda n, m, k: [(n, m)], lambda S, A: A.add(S.real('x'))),
    'sub_scalar': (lambda n, m, k: [(n, m)], lambda S, A: A.sub(S.real('x'))),
    'mul_scalar': (lambda n, m, k: [(n, m)], lambda S, A: A.mul(S.real('x'))),
    'div_scalar': (lambda n, m, k: [(n, m)], lambda S, A: A.div(S.real('x', nonzero=True))),
    'pow_elementwise': (lambda n, m, k: [(n, m)], lambda S, A: A.pow_elementwise(2)),
    'pow_one': (lambda n, m, k: [(n, m)], lambda S, A: A.pow_elementwise(1)),
    'exp': (lambda n, m, k: [(n, m)], lambda S, A: A.exp()),
    'tanh': (lambda n, m, k: [(n, m)], lambda S, A: A.tanh()),
    'sqrt': (lambda n, m, k: [(n, m)], lambda S, A: A.sqrt()),
    'abs': (lambda n, m, k: [(n, m)], lambda S, A: A.abs()),
    'sign': (lambda n, m, k: [(n, m)], lambda S, A: A.sign()),
    'clip': (lambda n, m, k: [(n, m)], lambda S, A: A.clip(-1.0, 1.0)),
    'clip_lower': (lambda n, m, k: [(n, m)], lambda S, A: A.clip_lower(0.5)),
    'clip_upper': (lambda n, m, k: [(n, m)], lambda S, A: A.clip_upper(0.5)),
    'apply_elementwise': (lambda n, m, k: [(n, m)], lambda S, A: A.apply_elementwise(lambda v: v + 1)),
    'transpose': (lambda n, m, k: [(n, m)], lambda S, A: A.transpose()),
    't': (lambda n, m, k: [(n, m)], lambda S, A: A.t()),
    'copy': (lambda n, m, k: [(n, m)], lambda S, A: A.copy()),
    'head': (lambda n, m, k: [(n, m)], lambda S, A: A.head(S.dim('h'))),
    'head_all': (lambda n, m, k: [(n, m)], lambda S, A: A.head(n_of(A))),
    'diag': (lambda n, m, k: [(n, m)], lambda S, A: A.diag()),
    'get_row': (lambda n, m, k: [(n, m)], lambda S, A: A.get_row(0)),
    'get_last_row': (lambda n, m, k: [(n, m)], lambda S, A: A.get_row(A.num_rows() - 1)),
    'get_column': (lambda n, m, k: [(n, m)], lambda S, A: A.get_column(0)),
    'get_column_of_column_vector': (lambda n, m, k: [(n, 1)], lambda S, A: A.get_column(0)),
    'get_row_of_row_vector': (lambda n, m, k: [(1, m)], lambda S, A: A.get_row(0)),
    'get_rows_range': (lambda n, m, k: [(n, m)], lambda S, A: A.get_rows((0, A.num_rows()))),
    'get_columns_range': (lambda n, m, k: [(n, m)], lambda S, A: A.get_columns((0, A.num_columns()))),
    'get_sub_matrix': (lambda n, m, k: [(n, m)], lambda S, A: A.get_sub_matrix((0, A.num_rows()), (0, A.num_columns()))),
    'normalized0': (lambda n, m, k: [(n, m)], lambda S, A: A.normalized(0)),
    'normalized1': (lambda n, m, k: [(n, m)], lambda S, A: A.normalized(1)),
    'sum0': (lambda n, m, k: [(n, m)], lambda S, A: A.sum(0)),
    'sum1': (lambda n, m, k: [(n, m)], lambda S, A: A.sum(1)),
    'sum_all': (lambda n, m, k: [(n, m)], lambda S, A: A.sum(-1)),
    'mean0': (lambda n, m, k: [(n, m)], lambda S, A: A.mean(0)),
    'mean1': (lambda n, m, k: [(n, m)], lambda S, A: A.mean(1)),
    'mean_all': (lambda n, m, k: [(n, m)], lambda S, A: A.mean(-1)),
    'vector_to_diagonal': (lambda n, m, k: [(n, 1)], lambda S, A: A.vector_to_diagonal()),
    'inverse': (lambda n, m, k: [(n, n)], lambda S, A: A.inverse()),
    'inverse_rect': (lambda n, m, k: [(n, m)], lambda S, A: A.inverse()),
    'pseudo_inverse': (lambda n, m, k: [(n, m)], lambda S, A: A.pseudo_inverse()),
    'delete_col': (lambda n, m, k: [(n, m + 1)], lambda S, A: S.helper.delete_col(A, 0)),
    'delete_cols_none': (lambda n, m, k: [(n, m)], lambda S, A: S.helper.delete_cols(A, [])),
    'row_as_vector': (lambda n, m, k: [(n, m)], lambda S, A: S.helper.row_as_vector(A, 0)),
    'column_as_vector': (lambda n, m, k: [(n, m)], lambda S, A: S.helper.column_as_vector(A, 0)),
    'row_means': (lambda n, m, k: [(n, m)], lambda S, A: S.helper.row_means(A)),
    'column_means': (lambda n, m, k: [(n, m)], lambda S, A: S.helper.column_means(A)),
    'row_stdevs': (lambda n, m, k: [(n, m + 1)], lambda S, A: S.helper.row_stdevs(A)),
    'column_stdevs': (lambda n, m, k: [(n + 1, m)], lambda S, A: S.helper.column_stdevs(A)),
    'helper_inverse': (lambda n, m, k: [(n, n)], lambda S, A: S.helper.inverse(A)),
    'helper_solve': (lambda n, m, k: [(n, n), (n, m)], lambda S, A, B: S.helper.solve(A, B)),
    'factory_create': (lambda n, m, k: [(n, m)], lambda S, A: S.factory.create(A.data)),
    'factory_diag': (lambda n, m, k: [(n, 1)], lambda S, A: S.factory.diag(A)),
    'zeros_like': (lambda n, m, k: [(n, m)], lambda S, A: S.factory.zeros_like(A)),
    'eye_like': (lambda n, m, k: [(n, m)], lambda S, A: S.factory.eye_like(A)),
    'filled_like': (lambda n, m, k: [(n, m)], lambda S, A: S.factory.filled_like(A, 2.0)),
    'rand_like': (lambda n, m, k: [(n, m)], lambda S, A: S.factory.rand_like(A, 3)),
    'randn_like': (lambda n, m, k: [(n, m)], lambda S, A: S.factory.randn_like(A, 3)),
    'get_eigenvectors': (lambda n, m, k: [(n, n)], lambda S, A: A.get_eigenvectors()),
    'get_eigenvectors_sorted': (lambda n, m, k: [(n, n)], lambda S, A: A.get_eigenvectors(True)),
    'get_eigenvalues': (lambda n, m, k: [(n, n)], lambda S, A: A.get_eigenvalues()),
    'get_eigenvalues_desc': (lambda n, m, k: [(n, n)], lambda S, A: A.get_eigenvalues_sorted_descending()),
    'get_eigenvalue_decomposition_D': (lambda n, m, k: [(n, n)], lambda S, A: A.get_eigenvalue_decomposition_D()),
    'svd_U': (lambda n, m, k: [(n, m)], lambda S, A: A.svd_U()),
    'svd_V': (lambda n, m, k: [(n, m)], lambda S, A: A.svd_V()),
    'svd_S': (lambda n, m, k: [(n, m)], lambda S, A: A.svd_S()),
    'get_singular_values': (lambda n, m, k: [(n, m)], lambda S, A: A.get_singular_values()),
}

SYMMETRIC = {'get_eigenvectors', 'get_eigenvectors_sorted', 'get_eigenvalues', 'get_eigenvalues_desc', 'get_eigenvalue_decomposition_D'}
MAY_FAIL = {'inverse', 'inverse_rect', 'helper_inverse', 'helper_solve', 'pseudo_inverse'}   # singular matrices have no result
REGULAR = {'inverse', 'helper_inverse', 'helper_solve'}


def n_of(A):
    return A.num_rows()


def _np(S):
    if S.symbolic:
        return S.mod('core.matrix._Matrix').np
    import numpy
    return numpy


def operands(S, shapes, name=''):
    out = []
    for i, (r, c) in enumerate(shapes):
        if not S.symbolic and name in SYMMETRIC:
            import numpy as np
            d = np.array([[S._val() for _ in range(c)] for _ in range(r)]).reshape(r, c)
            d = d + d.T
            out.append(S.matrix('ABCD'[i], r, c, gen=lambda a, b: d[a, b]))
        elif not S.symbolic and name in REGULAR and i == 0:
            out.append(S.matrix('ABCD'[i], r, c, gen=lambda a, b: S._val() + (17.0 * (1 + abs(S._val())) if a == b else 0)))
        else:
            out.append(S.matrix('ABCD'[i], r, c))
    return out


for _name, (_sh, _call) in OPS.items():
    def _c(S, name=_name, sh=_sh, call=_call):
        n, m, k = S.dim('n', hi=5), S.dim('m', hi=5), S.dim('k', hi=5)
        ops = operands(S, sh(n, m, k), name)
        try:
            R = call(S, *ops)
        except _np(S).linalg.LinAlgError:
            R = None
            S.assume(name in MAY_FAIL)
        except Exception as e:
            if type(e).__name__ != 'MatrixInversionError' or name not in MAY_FAIL:
                raise
            R = None
        for i, A in enumerate(ops):
            S.unchanged('operand ' + 'ABCD'[i], A)
        if R is None:
            return
        S.fresh('result', R, *ops)
        # a later change of the result does not show in the operands (and the other way round)
        if S.symbolic:
            r0 = S.cells(R)
            rr, rc = R.num_rows(), R.num_columns()
        else:
            r0 = S.cells(R)
            rr, rc = R.num_rows(), R.num_columns()
        if not _empty(S, rr, rc):
            R.set(0, 0, 12345.0)
            for i, A in enumerate(ops):
                S.unchanged('operand after changing the result ' + 'ABCD'[i], A)
            ops[0].set(0, 0, 54321.0)
            S.check('result after changing the operand', S.same(S.at(R, 0, 0), 12345.0))
            S.forall('other result cells after changing the operand', (rr, rc), lambda i, j: S.or_(S.and_(S.eqi(i, 0), S.eqi(j, 0)), S.same(S.at(R, i, j), r0(i, j))))
    _c.__doc__ = f'{_name}: operands keep every cell, result owns its storage.'
    contract('C01', f'{_name}', name='pure_' + _name, trials=24)(_c)


def _empty(S, r, c):
    if S.symbolic:
        from engine import terms as T
        import z3
        q = S.or_(r < 1, c < 1)
        if isinstance(q, bool):
            return q
        return S.ctx.branch(T.ex(q, T.B))
    return r < 1 or c < 1


READS = {
    'scalars': lambda S, A: (A.sum(), A.mean(), A.norm1(), A.norm2(), A.norm2_squared(), A.trace(), A.max()),
    'median': lambda S, A: A.median(),
    'predicates': lambda S, A: (A.any(lambda v: v > 1), A.all(lambda v: v > 1), A.contains_NaN(), A.is_vector(), A.is_row_vector(), A.is_column_vector(), A.is_square()),
    'which': lambda S, A: A.which(lambda v: v > 0),
    'raw copies': lambda S, A: (A.to_raw_copy_1D(), A.to_raw_copy_2D()),
    'get': lambda S, A: A.get(0, 0),
    'num_elements': lambda S, A: (A.num_elements(), A.num_rows(), A.num_columns(), A.shape_string()),
}
for _name, _call in READS.items():
    def _c(S, name=_name, call=_call):
        n, m = nm(S)
        A = S.matrix('A', n, m)
        call(S, A)
        S.unchanged('A', A)
    _c.__doc__ = f'Reading ({_name}) changes nothing.'
    contract('C01', _name, name='read_' + _name.replace(' ', '_'), trials=24)(_c)


@contract('C01', 'Matrix.vector_dot', 'Matrix.__eq__', 'helper.equal', trials=24)
def binary_reads(S):
    """Dot product, equality and tolerance equality leave both matrices alone."""
    n = S.dim('n')
    A, B = S.matrix('A', n, 1), S.matrix('B', n, 1)
    A.vector_dot(B)
    A == B
    S.helper.equal(A, B, 0.5)
    A.same_shape_as(B)
    A.is_multiplicable_with(B)
    A.vector_size_matches(B)
    S.unchanged('A', A)
    S.unchanged('B', B)


@contract('C01', 'Matrix.where_vector', 'Matrix.get_from_vector', trials=24)
def vector_reads(S):
    """Vector queries leave the vector alone."""
    n = S.dim('n')
    A = S.matrix('A', n, 1)
    A.where_vector(lambda v: v > 0)
    A.get_from_vector(0)
    S.unchanged('A', A)


@contract('C01', 'Matrix.set_row', 'Matrix.set_column', trials=30)
def setters_argument(S):
    """set_row / set_column leave their argument alone and do not alias it."""
    n, m, l = S.dim('n'), S.dim('m'), S.dim('l')
    A = S.matrix('A', n, m)
    which = S.choice('which', ['row', 'column'])
    orient = S.choice('orient', ['row', 'column'])
    V = S.matrix('V', 1, l) if orient == 'row' else S.matrix('V', l, 1)
    if which == 'row':
        A.set_row(n - 1, V)
    else:
        A.set_column(m - 1, V)
    S.unchanged('V', V)
    S.fresh('A', A, V)


@contract('C01', 'Matrix.vector_op_modify', trials=30)
def modify_argument(S):
    """The _modify operations leave the vector alone, whichever orientation it has."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    op = S.choice('op', ['add', 'sub', 'mul', 'div'])
    if S.choice('orient', ['row', 'column']) == 'row':
        V = S.matrix('V', 1, m)
    else:
        V = S.matrix('V', n, 1)
        S.assume(S.or_(n > 1, m == 1))
    getattr(A, op + '_by_vector_modify')(V)
    S.unchanged('V', V)
    S.fresh('A', A, V)
