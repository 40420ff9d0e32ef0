"""C09: indirect sorting, maximum search, line fitting."""
from engine.dsl import contract
from . import c09_sort as proofs


@contract('C09', 'utils.max_index', hoare=(proofs.MODULE, proofs.MAX))
def max_index(S):
    """max_index: the first position holding the largest value."""
    n = S.dim('n')
    l = S.reallist('l', n)
    k = S.mod('core.utils').max_index(l)
    S.check('in range', S.and_(k >= 0, k < n))
    S.forall('largest', (n,), lambda i: S.item(l, i) <= S.item(l, k))
    S.forall('first', (n,), lambda i: S.or_(i >= k, S.item(l, i) < S.item(l, k)))


@contract('C09', 'utils.linear_regression', 'utils.sum_of_squares')
def line_fit(S):
    """The fitted line satisfies the least-squares normal equations."""
    n = S.dim('n', 2)
    x, y = S.reallist('x', n), S.reallist('y', n)
    sx, sy = S.sum(n, lambda i: S.item(x, i)), S.sum(n, lambda i: S.item(y, i))
    sxx, sxy = S.sum(n, lambda i: S.item(x, i) * S.item(x, i)), S.sum(n, lambda i: S.item(x, i) * S.item(y, i))
    den = n * sxx - sx * sx
    if S.symbolic:
        S.assume(den != 0)
    else:
        S.assume(den > 1e-6 * n * sxx)
    a, b = S.mod('core.utils').linear_regression(x, y)
    S.check('residuals sum to zero', S.eq(n * a + b * sx, sy, 1e-5))
    S.check('residuals are orthogonal to x', S.eq(a * sx + b * sxx, sxy, 1e-5))


@contract('C09', 'utils.linear_regression', trials=40)
def line_through_two_points(S):
    """For points on a line the line itself is returned (intercept first, then slope)."""
    n = S.dim('n', 2)
    x = S.reallist('x', n)
    a, b = S.real('a'), S.real('b')
    if S.symbolic:
        from engine import pyb
        y = pyb.SList.tmpl(n, lambda q: a + b * S.item(x, q))
        S.assume(n * S.sum(n, lambda i: S.item(x, i) * S.item(x, i)) - S.sum(n, lambda i: S.item(x, i)) * S.sum(n, lambda i: S.item(x, i)) != 0)
    else:
        y = [a + b * x[i] for i in range(n)]
        S.assume(max(x) - min(x) > 1e-2 * (1 + max(abs(v) for v in x)))
    p, q = S.mod('core.utils').linear_regression(x, y)
    S.check('intercept', S.eq(p, a, 1e-4))
    S.check('slope', S.eq(q, b, 1e-4))


@contract('C09', 'utils.initial_index', 'utils.to_real_array', 'utils.sum_of_squares')
def small_helpers(S):
    """initial_index counts from 0, to_real_array keeps values and order, sum_of_squares is the sum of squares."""
    n = S.dim('n')
    l = S.reallist('l', n)
    u = S.mod('core.utils')
    ix = u.initial_index(n)
    S.check('length', S.eqi(S.len(ix), n))
    S.forall('identity', (n,), lambda i: S.eqi(S.item(ix, i), i))
    r = u.to_real_array(l)
    S.check('same length', S.eqi(S.len(r), n))
    S.forall('same values', (n,), lambda i: S.same(S.item(r, i), S.item(l, i)))
    S.check('sum of squares', S.eq(u.sum_of_squares(l), S.sum(n, lambda i: S.item(l, i) * S.item(l, i))))


def _sort_case(S, n):
    import numpy as np
    k = S.choice('pattern', ['random', 'ties', 'sorted', 'reversed', 'constant', 'two', 'sawtooth', 'organ', 'style'])
    r = S.rng
    if k == 'random': v = [r.gauss(0, 1) for _ in range(n)]
    elif k == 'ties': v = [float(r.randint(0, 3)) for _ in range(n)]
    elif k == 'sorted': v = sorted(r.gauss(0, 1) for _ in range(n))
    elif k == 'reversed': v = sorted((float(r.randint(0, n)) for _ in range(n)), reverse=True)
    elif k == 'constant': v = [2.5] * n
    elif k == 'two': v = [float(r.random() < .5) for _ in range(n)]
    elif k == 'sawtooth': v = [float(i % 4) for i in range(n)]
    elif k == 'organ': v = [float(min(i, n - i)) for i in range(n)]
    else: v = [S._val() for _ in range(n)]
    return [np.float64(x) for x in v]


@contract('C09', 'utils.sort', 'utils.quick_sort', 'utils.partition', 'utils.sort_left_right_and_center', 'utils.conditional_swap', 'utils.swap', trials=500, budget=60, hoare=(proofs.MODULE, proofs.SORT))
def sort_list(S):
    """sort: a permutation of all positions under which the values are non-decreasing; the list is left alone."""
    n = S.int('n', 0, 40)
    l = S.given_list('l') if hasattr(S, 'given_list') else _sort_case(S, n)
    S.used['l'] = [float(x) for x in l]
    before = list(l)
    ix = S.mod('core.utils').sort(l)
    S.check('permutation', sorted(ix) == list(range(len(l))), str(ix))
    S.check('non-decreasing', all(l[ix[i]] <= l[ix[i + 1]] for i in range(len(l) - 1)), str(ix))
    S.check('list unchanged', len(l) == len(before) and all(a is b for a, b in zip(l, before)))


@contract('C09', 'utils.sort', 'utils.quick_sort', sym=False, trials=1)
def sort_small_exhaustive(S):
    """Every weak ordering of up to 6 elements (all tie patterns)."""
    import itertools
    import numpy as np
    u = S.mod('core.utils')
    for n in range(0, 7):
        for t in itertools.product(range(min(n, 4) if n > 5 else n), repeat=n):
            l = [np.float64(x) for x in t]
            ix = u.sort(l)
            if sorted(ix) != list(range(n)) or any(l[ix[i]] > l[ix[i + 1]] for i in range(n - 1)):
                S.used['l'] = list(map(float, t))
                S.check('sorted permutation', False, str(ix))


@contract('C09', 'utils.sort', sym=False, trials=200)
def sort_plain_numbers(S):
    """Plain Python numbers (int, float) are sorted like numpy reals."""
    n = S.int('n', 0, 25)
    l = [S.rng.randint(-5, 5) if S.style % 2 else S.rng.gauss(0, 1) for _ in range(n)]
    S.used['l'] = l
    ix = S.mod('core.utils').sort(list(l))
    S.check('permutation', sorted(ix) == list(range(n)))
    S.check('non-decreasing', all(l[ix[i]] <= l[ix[i + 1]] for i in range(n - 1)))
