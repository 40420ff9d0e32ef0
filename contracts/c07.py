"""C07: binary serialisation."""
import struct

from contracts.forge import trained
from engine.dsl import contract


@contract('C07', 'Matrix.serialise_state', 'Serialisable.serialise_to_bytes')
def matrix_layout(S):
    """A matrix is written as row count, column count (32-bit little-endian) and every element in row order (64-bit little-endian)."""
    n, m = S.dim('n'), S.dim('m')
    S.assume(S.and_(n < 2 ** 31, m < 2 ** 31))
    A = S.matrix('A', n, m)
    rec = S.recorder()
    A.serialise_state(rec)
    S.written('matrix', rec, [A])
    S.unchanged('A', A)


@contract('C07', 'Serialisable.serialise_to_bytes')
def scalar_layout(S):
    """An int becomes 4 bytes, a float 8 bytes, little-endian; an int outside 32 bits is refused."""
    M = S.matrix('A', 1, 1)
    rec = S.recorder()
    i = S.int('i', -2 ** 31, 2 ** 31 - 1)
    x = S.real('x')
    S.assume(S.and_(i >= -2 ** 31, i < 2 ** 31))
    rec.write(M.serialise_to_bytes(i))
    rec.write(M.serialise_to_bytes(x))
    S.written('scalars', rec, [i, x])


@contract('C07', 'Serialisable.serialise_to_bytes')
def int_range(S):
    """Integers that do not fit into 32 bits are refused, never truncated."""
    M = S.matrix('A', 1, 1)
    i = S.int('i', -2 ** 40, 2 ** 40)
    S.assume(S.or_(i < -2 ** 31, i >= 2 ** 31))
    S.rejects('int outside 32 bits', M.serialise_to_bytes, i)


@contract('C07', 'Standardize.serialise_state', budget=40)
def standardize_state(S):
    """Standardize writes its means, then its standard deviations; refuses before it was configured or after a reset."""
    n, m = S.dim('n', 2), S.dim('m')
    S.assume(S.and_(n < 2 ** 31, m < 2 ** 31))
    A = S.matrix('A', n, m)
    t = S.mod('transformation').Standardize()
    S.rejects('unconfigured', t.serialise_state, S.recorder())
    t.configure(A)
    rec = S.recorder()
    t.serialise_state(rec)
    S.written('state', rec, [t.get_means(), t.get_std_devs()])
    t.reset()
    rec = S.recorder()
    S.rejects('after reset', t.serialise_state, rec)
    S.written('nothing after reset', rec, [])


@contract('C07', 'SavitzkyGolay.serialise_state')
def savitzky_golay_state(S):
    """Savitzky-Golay writes its coefficients; refuses before it was configured and after a parameter change."""
    t = S.mod('transformation').SavitzkyGolay()
    S.rejects('unconfigured', t.serialise_state, S.recorder())
    t.num_points_left = S.choice('left', [1, 2, 3])
    t.num_points_right = S.choice('right', [1, 2])
    n = S.dim('n')
    A = S.matrix('A', n, 7)
    try:
        t.transform(A)
    except Exception as e:
        S.assume(S.symbolic and type(e).__name__ == 'LinAlgError')   # solver failure is outside the model
        return
    rec = S.recorder()
    t.serialise_state(rec)
    S.written('state', rec, [t.coefficients])
    t.num_points_left = 4
    rec = S.recorder()
    S.rejects('after a parameter change', t.serialise_state, rec)
    S.written('nothing after a parameter change', rec, [])


@contract('C07', 'Log.serialise_state')
def log_state(S):
    """Log writes base, conversion factor 1/ln(base) and offset."""
    t = S.mod('transformation').Log()
    b, o = S.real('base', positive=True), S.real('offset')
    S.assume(S.and_(b > 0, b != 1))
    t.base = b
    t.offset = o
    rec = S.recorder()
    t.serialise_state(rec)
    import math
    S.assume(b != math.e)
    S.written('state', rec, [b, (S.div(1, S.log(b)),), o])
    t = S.mod('transformation').Log()
    rec = S.recorder()
    t.serialise_state(rec)
    S.written('default state', rec, [math.e, 1.0, 1.0])


@contract('C07', 'SIMPLS.serialise_state', sym=False, trials=60)
def simpls_state(S):
    """SIMPLS writes its weight matrix; refuses before training, after a reset and after a parameter change."""
    n, m, k = S.dim('n', 4), S.dim('m', 2), S.dim('k', 1, 2)
    X, Y = S.matrix('X', n, m), S.matrix('Y', n, k)
    a = S.mod('algorithm.pls').SIMPLS()
    S.rejects('untrained', a.serialise_state, S.recorder())
    a.num_components = 2
    a.num_coefficients = S.choice('coefficients kept', [0, 0, 1, 2])
    try:
        S.assume(a.initialize(X, Y) is None)
    except Exception as e:
        S.assume(type(e).__name__ != 'LinAlgError')     # degenerate data: the numerical routine gives up, nothing trained
        raise
    rec = S.recorder()
    a.serialise_state(rec)
    S.written('state', rec, [a.W])
    a.num_components = 1
    rec = S.recorder()
    S.rejects('after a parameter change', a.serialise_state, rec)
    S.written('nothing written', rec, [])


@contract('C07', 'SIMPLS.serialise_state')
def simpls_any_state(S):
    """A trained SIMPLS writes its weight matrix, whatever training found and however many coefficients are kept."""
    a, _ = trained(S, 'SIMPLS')
    S.assume(S.and_(a.W.num_rows() < 2 ** 31, a.W.num_columns() < 2 ** 31))
    W, B = a.W, a.B
    a.num_coefficients = S.choice('coefficients kept', [0, 1, 3])
    a.W, a.B, a.initialised = W, B, True        # setting the parameter resets
    rec = S.recorder()
    a.serialise_state(rec)
    S.written('state', rec, [a.W])


def _decode_int(b):
    return int.from_bytes(b, 'little', signed=True)


@contract('C07', 'Serialisable.serialise_to_bytes', sym=False, trials=300)
def text_roundtrip(S):
    """Text: byte length prefix then UTF-8, decodable and self-delimiting for every string."""
    M = S.matrix('A', 1, 1)
    n = S.int('len', 0, 12)
    s = ''.join(chr(S.rng.choice([S.rng.randrange(32, 127), S.rng.randrange(0x80, 0x800), S.rng.randrange(0x1000, 0xd000), S.rng.randrange(0x10000, 0x10ffff), 0])) for _ in range(n))
    S.used['text'] = s
    b = M.serialise_to_bytes(s) + b'\x07rest'
    k = _decode_int(b[:4])
    S.check('decodes to the same text', b[4:4 + k].decode('utf-8') == s)
    S.check('self-delimiting', b[4 + k:] == b'\x07rest')


@contract('C07', 'Serialisable.serialise_big_int', sym=False, trials=600)
def big_int_roundtrip(S):
    """Big integers: byte count prefix then two's complement, decodable for every integer including powers of two and their neighbours."""
    M = S.matrix('A', 1, 1)
    e = S.int('bits', 0, 140)
    d = S.choice('delta', [-2, -1, 0, 1, 2])
    sg = S.choice('sign', [1, -1])
    v = sg * ((1 << e) + d) if S.bool('power') else sg * S.rng.randrange(0, 1 << (e + 1))
    S.used['value'] = str(v)
    b = M.serialise_big_int(v) + b'tail'
    k = _decode_int(b[:4])
    S.check('decodes to the same integer', _decode_int(b[4:4 + k]) == v)
    S.check('self-delimiting', b[4 + k:] == b'tail')
    S.check('no longer than needed by more than one byte', k <= v.bit_length() // 8 + 1)


@contract('C07', 'Serialisable.serialise_to_bytes', sym=False, trials=400)
def scalar_roundtrip(S):
    """int and float decode to the identical value (all bit patterns, infinities, NaN, signed zero, subnormals)."""
    M = S.matrix('A', 1, 1)
    i = S.choice('i', [0, 1, -1, 2 ** 31 - 1, -2 ** 31, 255, 256, -256, 65535, 8388608]) if S.bool('edge') else S.int('iv', -2 ** 31, 2 ** 31 - 1)
    S.check('int', struct.unpack('<i', M.serialise_to_bytes(i))[0] == i)
    bits = S.rng.choice([S.rng.getrandbits(64), S.rng.getrandbits(64)] + [0, 1 << 63, 1, (1 << 63) + 1, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, (1 << 52) - 1, (0x7ff << 52) - 1, 0x3ff << 52])
    x = struct.unpack('<d', struct.pack('<Q', bits))[0]
    S.used['float_bits'] = hex(bits)
    b = M.serialise_to_bytes(x)
    S.check('float', len(b) == 8 and (b == struct.pack('<d', x)))
    import numpy as np
    S.check('numpy float', M.serialise_to_bytes(np.float64(x)) == b)
    S.rejects('other types', M.serialise_to_bytes, S.choice('bad', [None, b'x', [1], (1,), {}]))


@contract('C07', 'Matrix.serialise_state', sym=False, trials=80)
def injective(S):
    """Matrices that differ in shape or in any cell have different forms."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)

    def form(X):
        r = S.recorder()
        X.serialise_state(r)
        return r.getvalue()
    fa = form(A)
    S.check('equal matrices have equal forms', form(A.copy()) == fa)
    B = A.copy()
    i, j = S.rng.randrange(n), S.rng.randrange(m)
    B.set(i, j, A.get(i, j) + S.choice('d', [1e-9, 1.0, -3.5, 1e-14]) * (1 + abs(A.get(i, j))))
    S.check('a changed cell shows', form(B) != fa)
    if n != m:
        S.check('the shape shows', form(S.Matrix(A.data.reshape(m, n))) != fa)


@contract('C07', 'Serialisable.save_state', sym=False, trials=12)
def save_to_file(S):
    """save_state writes exactly the serialised form, creating missing directories, for plain and nested names."""
    import os
    import tempfile
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    r = S.recorder()
    A.serialise_state(r)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        try:
            os.chdir(d)
            for name in ('plain.bin', os.path.join(d, 'abs.bin'), os.path.join('a', 'b', 'c.bin')):
                A.save_state(name)
                with open(name, 'rb') as f:
                    S.check('file content ' + os.path.basename(name), f.read() == r.getvalue())
                A.save_state(name)
                with open(name, 'rb') as f:
                    S.check('overwritten, not appended ' + os.path.basename(name), f.read() == r.getvalue())
        finally:
            os.chdir(cwd)


@contract('C07', 'Serialisable.get_serialised_state', sym=False, trials=6)
def serialised_state_as_bytes(S):
    """get_serialised_state returns the serialised form."""
    n, m = S.dim('n'), S.dim('m')
    A = S.matrix('A', n, m)
    r = S.recorder()
    A.serialise_state(r)
    S.check('equals what serialise_state writes', A.get_serialised_state() == r.getvalue())
