"""C08: text export and import, over the text model of engine/text.py; the edge values of formatting are also run on the real code."""
import io
import os
import tempfile

import numpy as np


from engine.dsl import contract

SEPS = [',', '\t', ';', ' ', '|', '::']


def nasty(S, i, j):
    r = S.rng
    k = r.randrange(12)
    if k == 0: return 0.0
    if k == 1: return -0.0
    if k == 2: return r.uniform(-1, 1) * 10 ** r.randint(-300, 300)
    if k == 3: return float(r.randint(-10 ** 15, 10 ** 15))
    if k == 4: return r.choice([5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 1 / 3, 1e16, 1e22, 123456789.125])
    if k == 5: return float(r.randint(-9, 9))
    return r.gauss(0, 1) * 10 ** r.randint(-5, 5)


# ------------------------------------------------------------------------------------------------ over every matrix
def written(S, A, header, sep, num_dec, sci=False):
    """Write by name or to a stream; what to read back from."""
    f = S.textfile(S.bool('by name'))
    S.helper.write(A, f, header, sep, num_dec, sci)
    return f


@contract('C08', 'helper.write', 'helper.read', 'helper.to_lines', 'helper.data_to_string', budget=60)
def text_roundtrip(S):
    """Full precision text (num_dec -1) read back gives the identical matrix, for files and streams, with and without header."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m, gen=lambda i, j: nasty(S, i, j))
    S.finite(A)
    header, sep = S.bool('header'), S.choice('sep', SEPS)
    f = written(S, A, header, sep, -1)
    S.same_matrix('read back', S.helper.read(S.rewound(f), header, sep), A, exact=True)
    S.unchanged('A', A)


@contract('C08', 'helper.write', 'helper.read', 'helper.to_lines', 'helper.data_to_string', 'utils.real_to_string_fixed', budget=60)
def text_roundtrip_decimals(S):
    """With d decimals, any d, every cell comes back within half a unit of the last decimal."""
    n, m = S.dim('n'), S.dim('m')
    d = S.int('d', 0, 9)
    S.assume(d >= 0)
    A = S.matrix('A', n, m, gen=lambda i, j: S.rng.choice([S.rng.gauss(0, 10), S.rng.gauss(0, 1e-3), float(S.rng.randint(-999, 999)), S.rng.randint(-9999, 9999) / 8, 0.0]))
    S.finite(A)
    header, sep = S.bool('header'), S.choice('sep', SEPS)
    f = written(S, A, header, sep, d)
    B = S.helper.read(S.rewound(f), header, sep)
    S.shape('read back', B, n, m)
    S.forall('within half a unit', (n, m), lambda i, j: close(S, S.at(B, i, j), S.at(A, i, j), S.half_unit(d)))


def close(S, x, a, bound):
    if not S.symbolic:
        bound = bound + 1e-12 * abs(a)
    return S.and_(x - a <= bound, a - x <= bound)


@contract('C08', 'helper.write', 'helper.read', 'helper.data_to_string', budget=60)
def text_roundtrip_scientific(S):
    """Scientific notation with d decimals comes back within a relative 10^-d."""
    n, m = S.dim('n'), S.dim('m')
    d = S.int('d', 0, 15)
    S.assume(d >= 0)
    A = S.matrix('A', n, m)
    S.finite(A)
    header, sep = S.bool('header'), S.choice('sep', SEPS)
    f = written(S, A, header, sep, d, True)
    B = S.helper.read(S.rewound(f), header, sep)
    S.shape('read back', B, n, m)
    S.forall('relative error', (n, m), lambda i, j: close(S, S.at(B, i, j), S.at(A, i, j), S.relative_unit(d) * S.ite(S.at(A, i, j) >= 0, S.at(A, i, j), -S.at(A, i, j))))


@contract('C08', 'helper.to_lines', 'helper.data_to_string', budget=60)
def text_lines(S):
    """to_lines: header col1..colm if asked for, then one line per row with the cells in column order."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    S.finite(A)
    sep = S.choice('sep', SEPS)
    h = 1 if S.bool('header') else 0
    L = S.helper.to_lines(A, h == 1, sep, -1)
    S.check('one line per row and header', S.eqi(S.len(L), n + h))
    if h:
        S.check('one name per column', S.eqi(S.len(L[0].split(sep)), m))
        S.forall('column names', (m,), lambda j: S.counted_text('column name', L[0].split(sep)[j], 'col', j + 1) or True)
    S.forall('cells of a row', (n,), lambda i: S.eqi(S.len(L[i + h].split(sep)), m))
    S.forall('row text', (n, m), lambda i, j: S.same(S.number(L[i + h].split(sep)[j]), S.at(A, i, j)))
    S.unchanged('A', A)


@contract('C08', 'helper.to_lines', 'utils.real_to_string_fixed', budget=60)
def text_decimals(S):
    """Every cell is written with exactly the requested number of decimals."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    S.finite(A)
    d = S.int('d', 0, 9)
    S.assume(d >= 0)
    sep = S.choice('sep', SEPS)
    L = S.helper.to_lines(A, False, sep, d)
    S.check('one line per row', S.eqi(S.len(L), n))
    S.forall('decimals', (n, m), lambda i, j: S.decimals('exactly d decimals', L[i].split(sep)[j], d) or True)


@contract('C08', 'helper.to_string', 'helper.to_lines', 'helper.read', budget=60)
def text_string(S):
    """to_string is the lines joined by newlines: read as a file it gives the matrix, also without a final newline."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m, gen=lambda i, j: nasty(S, i, j))
    S.finite(A)
    sep, h = S.choice('sep', SEPS), S.bool('header')
    f = S.textfile(S.bool('by name'), [S.helper.to_string(A, h, sep, -1) + S.choice('end', ['\n', ''])])
    S.same_matrix('read back', S.helper.read(f, h, sep), A, exact=True)


@contract('C08', 'helper.write', budget=60)
def text_file_lines(S):
    """What is written is the lines of to_lines, each ended by a newline, for files and streams."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    S.finite(A)
    sep, h = S.choice('sep', SEPS), 1 if S.bool('header') else 0
    f = written(S, A, h == 1, sep, -1)
    L = S.filelines(f)
    S.check('lines', S.eqi(S.len(L), n + h))
    S.forall('ended by a newline', (n,), lambda i: L[i + h].endswith('\n'))
    S.forall('cells', (n, m), lambda i, j: S.same(S.number(L[i + h].rstrip('\n').split(sep)[j]), S.at(A, i, j)))


@contract('C08', 'utils.real_to_string_fixed', trials=200)
def text_of_a_number(S):
    """real_to_string_fixed: d decimals, within half a unit; all decimals when d is negative."""
    u = S.mod('core.utils')
    A = S.matrix('x', 1, 1)
    S.finite(A)
    x = A.get(0, 0)
    d = S.int('d', -3, 9)
    t = u.real_to_string_fixed(x, d)
    if d < 0:
        S.check('the same number', S.same(S.number(t), x))
    else:
        S.check('within half a unit', close(S, S.number(t), x, S.half_unit(d)))
        S.decimals('decimals', t, d)


@contract('C08', 'helper.read', budget=40)
def text_without_rows(S):
    """A file without data rows is rejected with an error, named file or stream."""
    H = S.helper
    m = S.dim('m')
    header, named = S.bool('header'), S.bool('by name')
    if header and S.bool('only a header'):
        lines = [H.to_lines(S.matrix('A', 1, m), True, ',', -1)[0] + '\n']
    else:
        lines = []
    f = S.textfile(named, lines)
    if named and not lines:
        if S.bool('missing'):
            S.rejects('missing file', H.read, f, header, ',')
            return
        f = S.textfile(True, [''])
    S.check('error says rows are missing', isinstance(S.raises(H.read, f, header, ','), RuntimeError))


# ------------------------------------------------------------------------------------------------ edge values, on the real code
def roundtrip(S, A, kind, header, sep, num_dec, sci=False):
    H = S.helper
    if kind == 'file':
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'm.csv')
            H.write(A, p, header, sep, num_dec, sci)
            return H.read(p, header, sep)
    if kind == 'stream':
        f = io.StringIO()
        H.write(A, f, header, sep, num_dec, sci)
        f.seek(0)
        return H.read(f, header, sep)
    with tempfile.TemporaryDirectory() as d:   # written by name, read from an open file, and the other way round
        p = os.path.join(d, 'm.csv')
        if kind == 'mixed1':
            H.write(A, p, header, sep, num_dec, sci)
            with open(p) as f:
                return H.read(f, header, sep)
        with open(p, 'w') as f:
            H.write(A, f, header, sep, num_dec, sci)
        return H.read(p, header, sep)


@contract('C08', 'helper.write', 'helper.read', 'helper.to_lines', 'helper.data_to_string', sym=False, trials=240)
def full_precision(S):
    """Full precision text (num_dec -1) read back gives the identical matrix, for files and streams, with and without header."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m, gen=lambda i, j: nasty(S, i, j))
    kind = S.choice('kind', ['stream', 'file', 'mixed1', 'mixed2', 'stream'])
    header = S.bool('header')
    sep = S.choice('sep', SEPS)
    B = roundtrip(S, A, kind, header, sep, -1)
    S.same_matrix('read back', B, A, exact=True)
    S.unchanged('A', A)


@contract('C08', 'helper.write', 'helper.read', 'helper.to_lines', sym=False, trials=4)
def many_lines(S):
    """The same for a text of some hundred kilobytes."""
    n, m = 9000, 2
    A = S.Matrix(np.random.RandomState(S.int('seed', 0, 1000)).randn(n, m))
    B = roundtrip(S, A, S.choice('kind', ['stream', 'file']), S.bool('header'), ',', -1)
    S.shape('read back', B, n, m)
    S.check('read back', bool((B.data == A.data).all()))


@contract('C08', 'helper.write', 'helper.read', 'utils.real_to_string_fixed', sym=False, trials=240)
def fixed_decimals(S):
    """With d decimals every cell comes back within half a unit of the last decimal."""
    n, m = S.dim('n'), S.dim('m')
    d = S.choice('decimals', [0, 1, 2, 3, 6, 9])
    A = S.matrix('A', n, m, gen=lambda i, j: S.rng.choice([S.rng.gauss(0, 10), S.rng.gauss(0, 1e-3), float(S.rng.randint(-999, 999)), S.rng.randint(-9999, 9999) / 8, 0.0]))
    header = S.bool('header')
    sep = S.choice('sep', SEPS)
    B = roundtrip(S, A, S.choice('kind', ['stream', 'file']), header, sep, d)
    S.shape('read back', B, n, m)
    S.forall('within half a unit', (n, m), lambda i, j: abs(S.at(B, i, j) - S.at(A, i, j)) <= .5 * 10.0 ** -d * (1 + 1e-9) + 1e-12 * abs(S.at(A, i, j)))
    lines = S.helper.to_lines(A, header, sep, d)
    S.check('one line per row and header', len(lines) == n + (1 if header else 0))
    for l in lines[1 if header else 0:]:
        for c in l.split(sep):
            S.check('exactly d decimals', (len(c.split('.')[1]) if '.' in c else 0) == d, c)


@contract('C08', 'helper.write', 'helper.read', sym=False, trials=120)
def scientific(S):
    """Scientific notation with enough digits reads back to the identical value, with few digits to that relative accuracy."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m, gen=lambda i, j: nasty(S, i, j))
    d = S.choice('digits', [17, 3, 8])
    S.assume(d == 17 or float(abs(A.data).max()) < 1e300)   # rounding up may overflow
    B = roundtrip(S, A, 'stream', S.bool('header'), S.choice('sep', SEPS), d, True)
    S.shape('read back', B, n, m)
    S.forall('cells', (n, m), lambda i, j: S.same(S.at(A, i, j), S.at(B, i, j)) if d == 17 else abs(S.at(A, i, j) - S.at(B, i, j)) <= abs(S.at(A, i, j)) * 10.0 ** -d)


@contract('C08', 'helper.to_lines', 'helper.to_string', sym=False, trials=80)
def line_layout(S):
    """to_lines: header col1..colm, then one line per row with the cells in column order; to_string joins them with newlines."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    sep = S.choice('sep', SEPS)
    L = S.helper.to_lines(A, True, sep, -1)
    S.check('header', L[0] == sep.join('col' + str(j + 1) for j in range(m)))
    for i in range(n):
        S.check('row text', [float(c) for c in L[i + 1].split(sep)] == [float(x) for x in A.data[i]])
    S.check('without header', S.helper.to_lines(A, False, sep, -1) == L[1:])
    d = S.choice('decimals', [0, 2, 6])
    for h in (True, False):
        S.check('to_string', S.helper.to_string(A, h, sep, d) == '\n'.join(S.helper.to_lines(A, h, sep, d)))
    S.unchanged('A', A)


@contract('C08', 'helper.read', sym=False, trials=60)
def no_data_rows(S):
    """A file without data rows is rejected with an error, named file or stream."""
    H = S.helper
    header = S.bool('header')
    text = S.choice('text', ['', 'col1,col2\n']) if header else ''
    S.rejects('stream', H.read, io.StringIO(text), header, ',')
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'm.csv')
        with open(p, 'w') as f:
            f.write(text)
        S.rejects('file', H.read, p, header, ',')
    e = S.raises(H.read, io.StringIO(text), header, ',')
    S.check('error says rows are missing', isinstance(e, RuntimeError))
    S.rejects('missing file', H.read, '/nonexistent/dir/m.csv', header, ',')


@contract('C08', 'helper.read', sym=False, trials=80)
def last_line_without_newline(S):
    """The last line counts whether or not it ends in a newline; written data has one line per row."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m, gen=lambda i, j: nasty(S, i, j))
    sep = S.choice('sep', SEPS)
    h = S.bool('header')
    text = S.helper.to_string(A, h, sep, -1)
    S.same_matrix('text without final newline', S.helper.read(io.StringIO(text), h, sep), A, exact=True)
    f = io.StringIO()
    S.helper.write(A, f, h, sep, -1)
    S.check('written text', f.getvalue() == text + '\n')


@contract('C08', 'utils.real_to_string_fixed', sym=False, trials=300)
def fixed_strings(S):
    """real_to_string_fixed: NaN and infinities by name, otherwise the requested number of decimals, correctly rounded."""
    u = S.mod('core.utils')
    import numpy as np
    x = np.float64(nasty(S, 0, 0))
    S.assume(abs(x) < 1e17)
    S.used['x'] = float(x)
    d = S.int('d', 0, 9)
    s = u.real_to_string_fixed(x, d)
    S.check('value', abs(float(s) - x) <= .5 * 10.0 ** -d * (1 + 1e-9) + 1e-12 * abs(x), s)
    S.check('NaN', u.real_to_string_fixed(np.float64('nan'), d) == 'NaN')
    S.check('inf', float(u.real_to_string_fixed(np.float64('inf'), d)) == float('inf'))
    S.check('-inf', float(u.real_to_string_fixed(np.float64('-inf'), d)) == float('-inf'))
    S.check('all decimals', float(u.real_to_string_fixed(x, -1)) == x)


@contract('C08', 'helper.read', 'helper.write', sym=False, trials=40)
def special_values(S):
    """NaN and infinities survive the round trip at full precision and with fixed decimals."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m, gen=lambda i, j: S.rng.choice([float('nan'), float('inf'), float('-inf'), 1.5, -2.25]))
    for d in (-1, 3):
        S.same_matrix(f'{d} decimals', roundtrip(S, A, 'stream', S.bool('header'), S.choice('sep', SEPS), d), A, exact=True)
