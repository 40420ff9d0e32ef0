"""C14: Fourier packing and output modes."""
from engine.dsl import contract


def FFT(S):
    return S.mod('transformation').FFT


def parity(S):
    """A width of chosen parity: (m, number of complete pairs h, even)."""
    h = S.dim('h', 0, 5)
    if S.bool('even'):
        return 2 * h + 2, h, True
    return 2 * h + 1, h, False


def packed(S, name, m, h, even, re0, rep, imp, ny):
    """f(i, j) for the packed layout given the components."""
    def f(i, j):
        if not S.symbolic:
            return re0(i) if j == 0 else ny(i) if even and j == m - 1 else rep(i, (j + 1) // 2) if j % 2 == 1 else imp(i, j // 2)
        odd = S.eqi(j % 2, 1)
        mid = S.ite(odd, rep(i, S.floordiv(j + 1, 2)), imp(i, S.floordiv(j, 2)))
        if even:
            mid = S.ite(S.eqi(j, m - 1), ny(i), mid)
        return S.ite(S.eqi(j, 0), re0(i), mid)
    return f


@contract('C14', 'FFT.internal_format')
def packing(S):
    """internal_format of a centred spectrum: zero-frequency real part, then real and imaginary part of each positive frequency, then (even width) the Nyquist real part."""
    n = S.dim('n')
    m, h, even = parity(S)
    F = S.carray('F', n, m)
    P = FFT(S).internal_format(F)
    c = S.floordiv(m, 2)
    f = packed(S, 'packed', m, h, even, lambda i: S.re(S.cell(F, i, c)), lambda i, k: S.re(S.cell(F, i, c + k)), lambda i, k: S.im(S.cell(F, i, c + k)), lambda i: S.re(S.cell(F, i, 0)))
    S.check('rows', S.eqi(P.shape[0], n))
    S.check('columns', S.eqi(P.shape[1], m))
    S.forall('packed', (n, m), lambda i, j: S.same(S.cell(P, i, j), f(i, j)))


@contract('C14', 'FFT.internal_unformat', budget=60)
def unpacking(S):
    """internal_unformat restores the centred conjugate-symmetric spectrum."""
    n = S.dim('n')
    m, h, even = parity(S)
    P = S.matrix('P', n, m)
    F = FFT(S).internal_unformat(P.data)
    c = S.floordiv(m, 2)
    S.check('rows', S.eqi(F.shape[0], n))
    S.check('columns', S.eqi(F.shape[1], m))
    S.forall('zero frequency', (n,), lambda i: S.and_(S.eq(S.re(S.cell(F, i, c)), S.at(P, i, 0)), S.eq(S.im(S.cell(F, i, c)), 0)))
    S.forall('positive frequencies', (n, h), lambda i, k: S.and_(S.eq(S.re(S.cell(F, i, c + 1 + k)), S.at(P, i, 2 * k + 1)), S.eq(S.im(S.cell(F, i, c + 1 + k)), S.at(P, i, 2 * k + 2))))
    S.forall('negative frequencies are conjugate', (n, h), lambda i, k: S.and_(S.eq(S.re(S.cell(F, i, c - 1 - k)), S.at(P, i, 2 * k + 1)), S.eq(S.im(S.cell(F, i, c - 1 - k)), 0 - S.at(P, i, 2 * k + 2))))
    if even:
        S.forall('Nyquist', (n,), lambda i: S.and_(S.eq(S.re(S.cell(F, i, 0)), S.at(P, i, m - 1)), S.eq(S.im(S.cell(F, i, 0)), 0)))
    S.unchanged('P', P)


def _fmt(S, name):
    return getattr(S.mod('transformation._FFT'), name)


def comps(S, P, m, h, even):
    """re(i,k), im(i,k) for frequency k = 0 .. K-1 of a packed matrix, K."""
    K = h + 2 if even else h + 1

    def re(i, k):
        if not S.symbolic:
            return P.data[i, 0] if k == 0 else P.data[i, 2 * k - 1]
        return S.ite(S.eqi(k, 0), S.at(P, i, 0), S.at(P, i, 2 * k - 1))

    def im(i, k):
        if not S.symbolic:
            return 0.0 if k == 0 or (even and k == K - 1) else P.data[i, 2 * k]
        z = S.eqi(k, 0) if not even else S.or_(S.eqi(k, 0), S.eqi(k, K - 1))
        return S.ite(z, 0, S.at(P, i, 2 * k))
    return re, im, K


@contract('C14', 'fft.format_real_component_only', 'fft.format_imag_component_only', 'FFT.format_output')
def real_and_imag_modes(S):
    """Real-only and imaginary-only output: the components of each non-negative frequency in order."""
    n = S.dim('n')
    m, h, even = parity(S)
    P = S.matrix('P', n, m)
    re, im, K = comps(S, P, m, h, even)
    t = FFT(S)()
    which = S.choice('mode', [1, 2])
    t.output_mode = which
    R = S.Matrix(t.format_output(P.data))
    S.is_matrix('mode', R, n, K, re if which == 1 else im, exact=True)
    S.unchanged('P', P)


@contract('C14', 'fft.format_amplitude_only', 'fft.format_phase_angle_only', 'FFT.format_output')
def ampl_and_angle_modes(S):
    """Amplitude-only and angle-only output: modulus and argument of each non-negative frequency in order."""
    n = S.dim('n')
    m, h, even = parity(S)
    P = S.matrix('P', n, m)
    re, im, K = comps(S, P, m, h, even)
    t = FFT(S)()
    which = S.choice('mode', [4, 8])
    t.output_mode = which
    R = S.Matrix(t.format_output(P.data))
    if which == 4:
        S.is_matrix('amplitude', R, n, K, lambda i, k: S.sqrt(re(i, k) * re(i, k) + im(i, k) * im(i, k)))
    else:
        S.is_matrix('angle', R, n, K, lambda i, k: S.atan2(im(i, k), re(i, k)))
    S.unchanged('P', P)


@contract('C14', 'fft.format_real_and_imag_pairs', 'fft.format_ampl_angle_pairs', 'FFT.format_output')
def pair_modes(S):
    """Pair modes keep the packed width: (real, imaginary) or (amplitude, angle) pairs between the zero-frequency and (even width) the Nyquist real part."""
    n = S.dim('n')
    m, h, even = parity(S)
    P = S.matrix('P', n, m)
    t = FFT(S)()
    which = S.choice('mode', [3, 12])
    t.output_mode = which
    R = S.Matrix(t.format_output(P.data))
    if which == 3:
        S.same_matrix('pairs', R, P, exact=True)
    else:
        re, im = (lambda i, k: S.at(P, i, 2 * k - 1)), (lambda i, k: S.at(P, i, 2 * k))
        f = packed(S, 'p', m, h, even, lambda i: S.at(P, i, 0), lambda i, k: S.sqrt(re(i, k) * re(i, k) + im(i, k) * im(i, k)), lambda i, k: S.atan2(im(i, k), re(i, k)), lambda i: S.at(P, i, m - 1))
        S.is_matrix('amplitude angle pairs', R, n, m, f)
    S.unchanged('P', P)


@contract('C14', 'FFT.inverse_format_output', 'fft.inverse_format_ampl_angle_pairs')
def pair_modes_invert(S):
    """The pair modes lose nothing: undoing the output format gives the packed spectrum back."""
    n = S.dim('n')
    m, h, even = parity(S)
    P = S.matrix('P', n, m)
    t = FFT(S)()
    t.output_mode = S.choice('mode', [3, 12])
    R = S.Matrix(t.inverse_format_output(t.format_output(P.data)))
    S.is_matrix('restored', R, n, m, lambda i, j: S.at(P, i, j), 1e-7)


@contract('C14', 'FFT.transform', trials=120)
def modes_agree(S):
    """End to end, the output modes present the components of one and the same packed spectrum."""
    n = S.dim('n')
    m, h, even = parity(S)
    A = S.matrix('A', n, m)
    o = S.bool('ortho')

    def run(mode):
        t = FFT(S)()
        t.orthonormalisation = o
        t.output_mode = mode
        return t.transform(A)
    P = run(3)
    S.shape('packed', P, n, m)
    re, im, K = comps(S, P, m, h, even)
    which = S.choice('mode', [1, 2, 4, 8])
    R = run(which)
    if which == 8 and not S.symbolic:
        S.forall('angle', (n, K), lambda i, k: abs(re(i, k)) + abs(im(i, k)) < 1e-9 or abs(complex(re(i, k), im(i, k)) / abs(complex(re(i, k), im(i, k))) - complex(S.cos(R.data[i, k]), S.sin(R.data[i, k]))) < 1e-6)
    else:
        S.is_matrix('mode', R, n, K, {1: re, 2: im, 4: lambda i, k: S.sqrt(re(i, k) * re(i, k) + im(i, k) * im(i, k)), 8: lambda i, k: S.atan2(im(i, k), re(i, k))}[which], 1e-6)
    S.unchanged('A', A)


@contract('C14', 'FFT.fft', 'FFT.transform', sym=False, trials=80)
def spectrum_is_the_dft(S):
    """For a single row the packed form holds the discrete Fourier sums of that row (scaled by 1/sqrt(width) when orthonormal)."""
    import math
    m, h, even = parity(S)
    A = S.matrix('A', 1, m)
    t = FFT(S)()
    t.output_mode = 3
    t.orthonormalisation = S.bool('ortho')
    P = t.transform(A)
    sc = 1 / math.sqrt(m) if t.orthonormalisation else 1.0
    re, im, K = comps(S, P, m, h, even)
    for k in range(K):
        S.check('real part', S.eq(re(0, k), sc * math.fsum(A.data[0, q] * math.cos(2 * math.pi * k * q / m) for q in range(m)), 1e-6))
        if k and not (even and k == K - 1):
            S.check('imaginary part', S.eq(im(0, k), -sc * math.fsum(A.data[0, q] * math.sin(2 * math.pi * k * q / m) for q in range(m)), 1e-6))
