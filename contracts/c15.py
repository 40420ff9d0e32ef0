"""C15: resampling, chaining and scatter-correction filters."""
from engine.dsl import contract


def filt(S, name, *a):
    return getattr(S.mod('filter'), name)(*a)


@contract('C15', 'Downsample.transform', 'Matrix.get_columns')
def downsample(S):
    """Exactly the columns start, start + step, ... below the width, in order."""
    n, m = S.dim('n'), S.dim('m')
    st, k = S.int('start', 0, 8), S.int('step', 1, 6)
    S.assume(S.and_(st >= 0, k >= 1, st < m))
    A = S.matrix('A', n, m)
    f = filt(S, 'Downsample')
    f.start_index, f.step = st, k
    B = f.transform(A)
    w = S.floordiv(m - st - 1, k) + 1
    S.is_matrix('kept columns', B, n, w, lambda i, j: S.at(A, i, st + j * k), exact=True)
    S.unchanged('A', A)
    S.fresh('result', B, A)


@contract('C15', 'Downsample.transform')
def downsample_default(S):
    """Without settings every column is kept."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    B = filt(S, 'Downsample').transform(A)
    S.is_matrix('all columns', B, n, m, lambda i, j: S.at(A, i, j), exact=True)


def interpolation(S, A, s, m):
    def f(i, k):
        x = (m - 1) * k
        q, r = S.floordiv(x, s - 1), S.rest(x, s - 1)
        t = S.div(r, s - 1)
        nxt = S.min(q + 1, m - 1)
        return S.ite(S.eqi(r, 0), S.at(A, i, q), S.at(A, i, q) * (1 - t) + S.at(A, i, nxt) * t)
    return f


@contract('C15', 'Equidistance.transform', budget=160)
def equidistance(S):
    """Sample k lies at k (m - 1) / (s - 1) on the axis of the original columns and is the linear interpolation of its neighbours; the ends are the original ends."""
    n, m = S.dim('n'), S.dim('m')
    s = S.dim('s', 2)
    A = S.matrix('A', n, m)
    B = filt(S, 'Equidistance', s).transform(A)
    S.is_matrix('interpolated', B, n, s, interpolation(S, A, s, m), 1e-9)
    S.forall('first column', (n,), lambda i: S.same(S.at(B, i, 0), S.at(A, i, 0)))
    S.forall('last column', (n,), lambda i: S.same(S.at(B, i, s - 1), S.at(A, i, m - 1)))
    S.unchanged('A', A)
    S.fresh('result', B, A)


@contract('C15', 'Equidistance.transform', budget=60)
def equidistance_fixed_count(S):
    """The same for each small number of samples and matrices of any width."""
    n, m = S.dim('n'), S.dim('m')
    s = S.choice('s', [2, 3, 4, 5, 6, 7])
    A = S.matrix('A', n, m)
    B = filt(S, 'Equidistance', s).transform(A)
    S.shape('result', B, n, s)
    f = interpolation(S, A, s, m)
    for k in range(s):
        S.forall(f'sample {k} of {s}', (n,), lambda i: S.eq(S.at(B, i, k), f(i, k), 1e-9))
    S.forall('first column', (n,), lambda i: S.same(S.at(B, i, 0), S.at(A, i, 0)))
    S.forall('last column', (n,), lambda i: S.same(S.at(B, i, s - 1), S.at(A, i, m - 1)))


@contract('C15', 'Equidistance.__setattr__')
def equidistance_refuses(S):
    """Fewer than two samples are refused, at construction and later, and leave the setting alone."""
    s = S.int('s', -5, 1)
    S.assume(s < 2)
    S.rejects('constructor', lambda: filt(S, 'Equidistance', s))
    g = S.int('g', 2, 9)
    S.assume(g >= 2)
    f = filt(S, 'Equidistance', g)

    def put():
        f.num_samples = s
    S.rejects('setter', put)
    S.check('setting kept', S.eqi(f.num_samples, g))


@contract('C15', 'Equidistance.transform')
def equidistance_same_width(S):
    """Resampling to the width the matrix already has is the identity."""
    n, m = S.dim('n'), S.dim('m', 2)
    A = S.matrix('A', n, m)
    B = filt(S, 'Equidistance', m).transform(A)
    S.is_matrix('identity', B, n, m, lambda i, j: S.at(A, i, j), exact=True)


class _Probe:
    pass


def chain_members(S, n, m):
    """Filters whose order matters: width changing, value changing."""
    ds = filt(S, 'Downsample')
    ds.step = S.choice('step', [1, 2])
    eq = filt(S, 'Equidistance', S.choice('samples', [2, 3]))
    ce = S.mod('transformation').Center()
    lg = S.mod('transformation').Standardize()
    return ds, eq, ce, lg


@contract('C15', 'MultiFilter.transform', trials=40)
def chain_is_composition(S):
    """A chain equals its members applied one after the other."""
    n, m = S.dim('n', 2), S.dim('m', 3)
    A = S.matrix('A', n, m)
    ds, eq, ce, st = chain_members(S, n, m)
    which = S.choice('order', [0, 1, 2, 3, 4])
    members = [[ds, eq], [eq, ds], [ce, ds, eq], [ds, ce, ce], [eq]][which]
    MF = S.mod('core').MultiFilter
    B = MF(members).transform(A)
    C = A
    for f in members:
        C = f.transform(C)
    S.same_matrix('composition', B, C)
    S.unchanged('A', A)


@contract('C15', 'MultiFilter.transform')
def empty_chain(S):
    """A chain without members returns the matrix as it is."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    B = S.mod('core').MultiFilter([]).transform(A)
    S.is_matrix('identity', B, n, m, lambda i, j: S.at(A, i, j), exact=True)


@contract('C15', 'MultiFilter.transform')
def nested_chains(S):
    """Chains of chains flatten."""
    n, m = S.dim('n'), S.dim('m', 3)
    A = S.matrix('A', n, m)
    MF = S.mod('core').MultiFilter
    a, b, c = filt(S, 'Downsample'), filt(S, 'Equidistance', 3), filt(S, 'Downsample')
    a.step, c.start_index = 2, 1
    S.same_matrix('flattened', MF([MF([a, b]), c]).transform(A), MF([a, b, c]).transform(A))


@contract('C15', 'MultiplicativeScatterCorrection.configure')
def msc_average(S):
    """The fitted average spectrum: wave numbers and the row means of all amplitude columns; nothing is corrected without ranges."""
    n, k = S.dim('n'), S.dim('k')
    A = S.matrix('A', n, k + 1)
    t = S.mod('transformation').MultiplicativeScatterCorrection()
    t.configure(A)
    S.is_matrix('average', t.average, n, 2, lambda i, j: S.ite(S.eqi(j, 0), S.at(A, i, 0), S.div(S.sum(k, lambda q: S.at(A, i, q + 1)), k)), 1e-9)
    D = S.matrix('D', n, 2)
    R = t.transform(D)
    S.is_matrix('no ranges', R, n, 2, lambda i, j: S.at(D, i, j), exact=True)
    S.unchanged('A', A)
    S.fresh('result', R, D)
    S.fresh('average', t.average, A)


def correction(S, av, D, n, lo, hi):
    """(intercept, slope, determinant) of the least-squares line of the data amplitudes against the average within [lo, hi]"""
    inn = lambda i: S.and_(S.at(D, i, 0) >= lo, S.at(D, i, 0) <= hi)
    w = lambda f: S.sum(n, lambda i: S.ite(inn(i), f(i), 0))
    x, y = (lambda i: av(i)), (lambda i: S.at(D, i, 1))
    c, sx, sy, sxx, sxy = w(lambda i: 1), w(x), w(y), w(lambda i: x(i) * x(i)), w(lambda i: x(i) * y(i))
    det = c * sxx - sx * sx
    return (sy * sxx - sx * sxy), (c * sxy - sx * sy), det, inn


@contract('C15', 'RangeBased.correct', 'utils.linear_regression', 'MultiplicativeScatterCorrection.do_transform', budget=60)
def msc_one_range(S):
    """Within the (inclusive) range each amplitude becomes (amplitude - intercept) / slope; all other cells stay."""
    n = S.dim('n', 4)
    A = S.matrix('A', n, 2)
    D = S.matrix('D', n, 2, gen=lambda i, j: float(i) if j == 0 else S._val())
    lo, hi = S.real('lo'), S.real('hi')
    if not S.symbolic:
        lo, hi = float(S.rng.randint(0, n // 2)), float(S.rng.randint(n // 2 + 1, n))
    t = S.mod('transformation').MultiplicativeScatterCorrection()
    t.configure(A)
    t.correction.ranges = [(lo, hi)]
    av = lambda i: S.at(A, i, 1)
    inum, snum, det, inn = correction(S, av, D, n, lo, hi)
    if not S.symbolic and (abs(det) < 1e-6 or abs(snum) < 1e-6 * abs(det)):
        S.assume(False)
    S.assume(S.sum(n, lambda i: S.ite(inn(i), 1, 0)) >= 2)
    S.assume(S.not_(S.eqi(det, 0)))
    S.assume(S.not_(S.eqi(snum, 0)))
    R = t.transform(D)
    S.shape('R', R, n, 2)
    S.forall('wave numbers', (n,), lambda i: S.same(S.at(R, i, 0), S.at(D, i, 0)))
    S.forall('amplitudes', (n,), lambda i: S.eq(S.at(R, i, 1), S.ite(inn(i), S.div(S.at(D, i, 1) - S.div(inum, det), S.div(snum, det)), S.at(D, i, 1)), 1e-5))
    S.unchanged('D', D)
    S.unchanged('A', A)


@contract('C15', 'RangeBased.correct', 'utils.linear_regression', budget=200)
def msc_two_ranges(S):
    """Two ranges without a common wave number, the lower one first: each is corrected by the line of its own data, the rest stays."""
    two_ranges(S, True)


@contract('C15', 'RangeBased.correct', 'utils.linear_regression', budget=200)
def msc_two_ranges_reversed(S):
    """The same with the upper one first."""
    two_ranges(S, False)


def two_ranges(S, up):
    n = S.dim('n', 6)
    A = S.matrix('A', n, 2)
    D = S.matrix('D', n, 2, gen=lambda i, j: float(i) if j == 0 else S._val())
    lo, hi, lo2, hi2 = S.real('lo'), S.real('hi'), S.real('lo2'), S.real('hi2')
    if not S.symbolic:
        c = S.rng.randint(2, n - 3)
        lo, hi, lo2, hi2 = (0., c - 1., float(c), n - 1.) if up else (float(c), n - 1., 0., c - 1.)
    S.assume(hi < lo2 if up else hi2 < lo)
    t = S.mod('transformation').MultiplicativeScatterCorrection()
    t.configure(A)
    t.correction.ranges = [(lo, hi), (lo2, hi2)]
    av = lambda i: S.at(A, i, 1)
    parts = []
    for l, h in ((lo, hi), (lo2, hi2)):
        inum, snum, det, inn = correction(S, av, D, n, l, h)
        if not S.symbolic and (abs(det) < 1e-6 or abs(snum) < 1e-6 * abs(det)):
            S.assume(False)
        S.assume(S.sum(n, lambda i: S.ite(inn(i), 1, 0)) >= 2)
        S.assume(S.not_(S.eqi(det, 0)))
        S.assume(S.not_(S.eqi(snum, 0)))
        parts.append((inn, S.div(inum, det), S.div(snum, det)))
    R = t.transform(D)
    S.shape('R', R, n, 2)
    S.forall('wave numbers', (n,), lambda i: S.same(S.at(R, i, 0), S.at(D, i, 0)))
    (in1, a1, b1), (in2, a2, b2) = parts
    y = lambda i: S.at(D, i, 1)

    def want(i):
        if in1(i):
            return S.div(y(i) - a1, b1)
        if in2(i):
            return S.div(y(i) - a2, b2)
        return y(i)
    S.forall('amplitudes', (n,), lambda i: S.eq(S.at(R, i, 1), want(i), 1e-5))
    S.unchanged('D', D)
    S.unchanged('A', A)


@contract('C15', 'RangeBased.correct', sym=False, trials=120)
def msc_several_ranges(S):
    """Several disjoint ranges: each is corrected by its own line, the rest stays."""
    import numpy as np
    r = S.rng
    k = S.choice('ranges', [2, 2, 3, 4])
    n = S.int('n', 4 * k, 12 * k)
    A, D = S.matrix('A', n, S.int('k', 1, 4) + 1), S.matrix('D', n, 2)
    for X in (A, D):
        X.data[:, 0] = np.arange(n)
    c = n // k
    rs = [(float(q * c), float(q * c + c - 2)) for q in range(k - 1)] + [(float((k - 1) * c), float(n - 1))]
    if r.random() < .5:
        r.shuffle(rs)
    t = S.mod('transformation').MultiplicativeScatterCorrection()
    t.configure(A)
    t.correction.ranges = rs
    R = t.transform(D)
    av = A.data[:, 1:].mean(1)
    want = D.data.copy()
    for lo, hi in rs:
        s = (D.data[:, 0] >= lo) & (D.data[:, 0] <= hi)
        M = np.c_[np.ones(s.sum()), av[s]]
        if np.linalg.cond(M) > 1e4:
            S.assume(False)
        (a, b), *_ = np.linalg.lstsq(M, D.data[s, 1], rcond=None)
        if abs(b) < 1e-3:
            S.assume(False)
        want[s, 1] = (D.data[s, 1] - a) / b
    S.check('corrected', np.allclose(R.data, want, rtol=1e-5, atol=1e-6), str(R.data - want))


@contract('C15', 'MultiplicativeScatterCorrection.create_configuration_matrix', 'helper.multi_concat')
def msc_configuration_matrix(S):
    """The configuration matrix: wave numbers of the first spectrum, then the amplitudes of every spectrum in order; none is refused."""
    n = S.dim('n')
    k = S.choice('k', [1, 2, 3])
    sp = [S.matrix(f's{q}', n, 2) for q in range(k)]
    MSC = S.mod('transformation').MultiplicativeScatterCorrection
    R = MSC.create_configuration_matrix(sp)
    S.shape('R', R, n, k + 1)
    S.forall('wave numbers', (n,), lambda i: S.same(S.at(R, i, 0), S.at(sp[0], i, 0)))
    for q in range(k):
        S.forall(f'spectrum {q}', (n,), lambda i: S.same(S.at(R, i, q + 1), S.at(sp[q], i, 1)))
        S.fresh(f'spectrum {q}', R, sp[q])
    S.rejects('no spectra', MSC.create_configuration_matrix, [])
