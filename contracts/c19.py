"""C19: predictions treat rows independently, have the right shape, and honour the preprocessing."""
import numpy as np

from engine.dsl import contract, Skip
from .c17 import make, enum
from .c18 import train, training_data, settings
from .forge import forged, SINGLE, MULTI, NAMES, PRE

TOL = 1e-6

# ------------------------------------------------------------------------------------------------ preprocessing, by definition
def mean(S, M, j):
    n = M.num_rows()
    return S.sum(n, lambda i: S.at(M, i, j)) / n


def stdev(S, M, j):
    n = M.num_rows()
    m = mean(S, M, j)
    return S.sqrt(S.sum(n, lambda i: (S.at(M, i, j) - m) * (S.at(M, i, j) - m)) / (n - 1))


def scale(S, M, j):
    """What standardising divides by: the sample standard deviation, 1 for a column without variation."""
    s = stdev(S, M, j)
    if S.symbolic:
        return S.ite(S.eq(s, 0), 1, s)
    m = mean(S, M, j)
    if s < 1e-9 * abs(m) or (s == 0 and m * 4 != round(m * 4)):
        raise Skip()        # constant up to rounding of the mean: not decided by exact arithmetic
    if s == 0:
        return 1.0
    return s


def pre(S, kind, M, v, j):
    """Value v of column j, preprocessed with the statistics of M."""
    if kind == 'NONE':
        return v
    v = v - mean(S, M, j)
    return S.div(v, scale(S, M, j)) if kind == 'STANDARDIZE' else v


def undo(S, kind, M, v, j):
    if kind == 'NONE':
        return v
    if kind == 'STANDARDIZE':
        scale(S, M, j)
        v = v * stdev(S, M, j)
    return v + mean(S, M, j)


# ------------------------------------------------------------------------------------------------ the template around every model
def template(name):
    def run(S):
        kind = S.choice('preprocessing', PRE)
        if S.symbolic:
            n, p, k = S.dim('rows', 2), S.dim('cols'), S.dim('k')
        else:
            n, p, k = S.dim('rows', 3, 6), S.dim('cols', 1, 4), S.dim('k', 1, 4)
        q = 1 if name in SINGLE else S.dim('responses', 1, 3 if not S.symbolic else None)
        X, Y, N = S.matrix('X', n, p), S.matrix('Y', n, q), S.matrix('N', k, p)
        F = S.matrix('answer of the underlying model', k, q)
        m = make(S, name)
        m.preprocessing_type = enum(S, kind)
        if name == 'DIPLS':
            m.ns, m.nt = 1, 1
        seen = {}

        def fit(predictors, response):
            seen['X'], seen['Y'] = predictors, response
            return None

        def answer(predictors):
            seen['N'] = predictors
            return F.copy()
        m.do_perform_initialization, m.do_perform_predictions = fit, answer
        S.check('training succeeds', m.initialize(X, Y) is None)
        S.is_matrix('underlying model trained on preprocessed predictors', seen['X'], n, p, lambda i, j: pre(S, kind, X, S.at(X, i, j), j), TOL)
        S.is_matrix('underlying model trained on preprocessed response', seen['Y'], n, q, lambda i, j: pre(S, kind, Y, S.at(Y, i, j), j), TOL)
        R = m.predict(N)
        S.is_matrix('underlying model asked about preprocessed data', seen['N'], k, p, lambda i, j: pre(S, kind, X, S.at(N, i, j), j), TOL)
        S.is_matrix('answer mapped back', R, k, q, lambda i, j: undo(S, kind, Y, S.at(F, i, j), j), TOL)
        S.unchanged('N', N)
        S.unchanged('X', X)
        S.unchanged('Y', Y)
        # a second request gives the same answer
        S.is_matrix('again', m.predict(N), k, q, lambda i, j: undo(S, kind, Y, S.at(F, i, j), j), TOL)
    run.__name__ = 'preprocessing_around_' + name
    run.__doc__ = f'{name}: preprocessing of predictors and response around an arbitrary underlying model, and back.'
    return run


for _n in NAMES:
    contract('C19', f'{_n}.initialize', f'{_n}.predict', f'{_n}.do_initialize', f'{_n}.do_predict', trials=24, budget=60)(template(_n))


# ------------------------------------------------------------------------------------------------ the real models
def tame(S, name, m, p):
    """Keep the sampled models well conditioned: no more components than the data has directions."""
    if name == 'OPLS':
        if p < 4:
            raise Skip()
        b = S.mod('algorithm.pls').PLS1()
        b.num_components = 1
        m.base_PLS = b


def whole(name):
    def run(S):
        kind = S.choice('preprocessing', PRE)
        X, Y, p, q, split = training_data(S, name, 'A')
        N = S.matrix('N', S.dim('k', 1, 4), p)
        a = S.dim('components', 1, 2)
        m, u = make(S, name), make(S, name)
        more = settings(S, name, p)
        for x in (m, u):
            tame(S, name, x, p)
            more(x)
            x.num_components = a
        m.preprocessing_type, u.preprocessing_type = enum(S, kind), enum(S, 'NONE')
        conv = lambda M, D: S.Matrix(np.array([[pre(S, kind, D, S.at(M, i, j), j) for j in range(M.num_columns())] for i in range(M.num_rows())], dtype=float))
        if not (np.ptp(Y.data, axis=0) > 1e-9).all() or not (np.ptp(X.data, axis=0) > 1e-9).all():
            raise Skip()
        if train(S, name, m, X, Y, split) is not None:
            raise Skip()
        if name == 'DIPLS':
            # both domains are preprocessed together, and the response with its own (source) statistics
            Ys = Y.get_rows((0, split.labelled))
            u.ns, u.nt, u.model_adaption_strategy = m.ns, m.nt, m.model_adaption_strategy
            try:
                r = u.initialize(conv(X, X), conv(Ys, Ys))
            except (ArithmeticError, np.linalg.LinAlgError):
                raise Skip()
            Y = Ys
        else:
            r = train(S, name, u, conv(X, X), conv(Y, Y), split)
        if r is not None:
            raise Skip()
        with np.errstate(all='ignore'):
            try:
                E = u.predict(conv(N, X))
            except (ValueError, ArithmeticError, np.linalg.LinAlgError):
                raise Skip()
            if not np.isfinite(E.data).all() or np.abs(E.data).max() > 1e8:
                raise Skip()
            # numerically meaningful? the same training on data differing in the tenth digit
            v, rs = make(S, name), np.random.RandomState(7)
            tame(S, name, v, p)
            more(v)
            v.num_components, v.preprocessing_type = a, enum(S, 'NONE')
            near = lambda M: S.Matrix(M.data * (1 + 1e-9 * rs.uniform(-1, 1, M.data.shape)))
            try:
                if name == 'DIPLS':
                    v.ns, v.nt, v.model_adaption_strategy = m.ns, m.nt, m.model_adaption_strategy
                    v.initialize(near(conv(X, X)), near(conv(Y, Y)))
                else:
                    train(S, name, v, near(conv(X, X)), near(conv(Y, Y)), split)
                if not np.abs(v.predict(conv(N, X)).data - E.data).max() < 1e-6 * (1 + np.abs(E.data).max()):
                    raise Skip()
            except (ValueError, ArithmeticError, np.linalg.LinAlgError):
                raise Skip()
            P = m.predict(N)
        S.is_matrix('model on preprocessed data, mapped back', P, N.num_rows(), q, lambda i, j: undo(S, kind, Y, S.at(E, i, j), j), 1e-4)
    run.__name__ = 'preprocessing_equals_' + name
    run.__doc__ = f'{name}: a model with preprocessing equals the plain model on preprocessed data, mapped back.'
    return run


for _n in NAMES:
    contract('C19', f'{_n}.initialize', f'{_n}.predict', f'{_n}.do_perform_predictions', trials=16, sym=False)(whole(_n))


# ------------------------------------------------------------------------------------------------ rows
def rows(name):
    def run(S):
        if S.symbolic:
            m, p, q = forged(S, name)
            k = S.dim('k')
            if name == 'SparsePLS':
                k = S.choice('rows asked', [1, S.dim('k', 2)])      # one row or more, separately
            N = S.matrix('N', k, p)
        else:
            X, Y, p, q, split = training_data(S, name, 'A')
            m = make(S, name)
            tame(S, name, m, p)
            settings(S, name, p)(m)
            m.num_components = S.dim('components', 1, 2)
            m.preprocessing_type = enum(S, S.choice('preprocessing', PRE))
            if train(S, name, m, X, Y, split) is not None:
                raise Skip()
            k = S.dim('k', 1, 6)
            N = S.matrix('N', k, p)
        i = S.int('i', 0, 5) if S.symbolic else S.int('i', 0, k - 1)
        S.assume(S.and_(i >= 0, i < k))
        with np.errstate(all='ignore'):
            try:
                R = m.predict(N)
            except (ValueError, ArithmeticError, np.linalg.LinAlgError):
                if S.symbolic:
                    raise
                if not np.isfinite(np.ptp(Y.data, axis=0)).all() or ((np.ptp(Y.data, axis=0) < 1e-9).any() and name != 'SparsePLS'):
                    raise Skip()        # a constant response: nothing was learnt
                raise
            S.shape('one row per input row, one column per response', R, k, q)
            S.unchanged('N', N)
            if not S.symbolic and isinstance(R, S.Matrix) and R.data.shape == (k, q):
                # numerically meaningful? the same rows differing in the eleventh digit
                noise = 1 + 1e-11 * np.random.RandomState(5).uniform(-1, 1, N.data.shape)
                if not np.abs(m.predict(S.Matrix(N.data * noise)).data - R.data).max() < 1e-8 * (1 + np.abs(R.data).max()):
                    raise Skip()
            one = m.predict(N.get_row(i))
            S.is_matrix('row on its own', one, 1, q, lambda z, j: S.at(R, i, j), TOL)
            if not S.symbolic:
                perm = np.random.RandomState(k).permutation(k)
                S.is_matrix('rows in another order', m.predict(S.Matrix(N.data[perm])), k, q, lambda r, j: S.at(R, int(perm[r]), j), TOL)
                two = S.Matrix(np.vstack([N.data, N.data * 3 + 1]))
                S.is_matrix('further rows added', m.predict(two).get_rows((0, k)), k, q, lambda r, j: S.at(R, r, j), TOL)
    run.__name__ = 'rows_independent_' + name
    run.__doc__ = f'{name}: predictions have one row per input row and one column per response, each determined by its own row.'
    return run


for _n in NAMES:
    contract('C19', f'{_n}.predict', f'{_n}.do_perform_predictions', trials=24, budget=60)(rows(_n))
