"""struct / os / sys / io for the instrumented code; byte strings with symbolic content."""
import io
import os
import struct
import sys
import types

from .terms import Sym, Unsupported, compare, land


class SBytes:
    """A byte string: a sequence of encoded values (format, size, value)."""
    def __init__(self, chunks):
        self.chunks = tuple(chunks)

    def __add__(self, o):
        return SBytes(self.chunks + chunks_of(o))

    def __radd__(self, o):
        return SBytes(chunks_of(o) + self.chunks)

    def __len__(self):
        return sum(c[1] for c in self.chunks)


def chunks_of(b):
    if isinstance(b, SBytes):
        return b.chunks
    if isinstance(b, (bytes, bytearray)):
        b = bytes(b)
        if len(b) == 4:
            return (('<i', 4, struct.unpack('<i', b)[0]),)
        if len(b) == 8:
            return (('<d', 8, struct.unpack('<d', b)[0]),)
        return (('raw', len(b), b),)
    raise TypeError('a bytes-like object is required')


def to_bytes(v, length=1, byteorder='big', *, signed=False):
    """int.to_bytes: two's complement, OverflowError when it does not fit (trusted: CPython)."""
    lo, hi = (-(1 << (8 * length - 1)), 1 << (8 * length - 1)) if signed else (0, 1 << (8 * length))
    if not land(compare('>=', v, lo), compare('<', v, hi)):
        raise OverflowError('int too big to convert')
    f = {(4, 'little', True): '<i', (4, 'big', True): '>i', (8, 'little', True): '<q', (8, 'big', True): '>q'}.get((length, byteorder, signed))
    return SBytes([(f or f'int{length}{byteorder}{signed}', length, v)])


class StructShim:
    error = struct.error

    @staticmethod
    def pack(fmt, *vs):
        if not any(isinstance(v, Sym) for v in vs):
            return struct.pack(fmt, *vs)
        out = []
        order = fmt[0] if fmt[0] in '<>!=@' else ''
        body = fmt[len(order):]
        if len(body) != len(vs) or any(c not in 'dfiq' for c in body):
            raise Unsupported('struct format ' + fmt)
        for c, v in zip(body, vs):
            if c in 'iq':
                if not isinstance(v, int) and not (isinstance(v, Sym) and v.t is int):
                    raise Unsupported('struct.pack of this value as an integer')
                bits = 31 if c == 'i' else 63
                if not land(compare('>=', v, -(1 << bits)), compare('<', v, 1 << bits)):
                    raise struct.error('argument out of range')
            out.append((order + c, {'d': 8, 'f': 4, 'i': 4, 'q': 8}[c], v))
        return SBytes(out)

    unpack = staticmethod(struct.unpack)
    calcsize = staticmethod(struct.calcsize)


class Recorder:
    """Binary output stream: the encoded values in the order they were written."""
    _vf_inst = True

    def __init__(self):
        from .pyb import SList
        self.items = SList()

    def write(self, b):
        for ch in chunks_of(b):
            self.items.append(ch)


def module(name):
    return {'struct': StructShim, 'os': os, 'sys': sys, 'io': io}[name]
