"""Where each bit of an abstract value comes from."""
from engine import *


def bit(t, k):
    """bit k of a term: 0, 1, ('b', source, j), or None when it is not one bit of one source"""
    if isinstance(t, int):
        return (t >> k) & 1
    o = t[0]
    if o == 'zx':
        return bit(t[2], k) if k < t[1] else 0
    if o == 'sx':
        return bit(t[2], min(k, t[1] - 1))
    if o == 'tr':
        return bit(t[2], k)
    if o == 'bits':
        return bit(t[1], t[2] + k) if k < t[3] else 0
    if o == 'bfw':
        for kk, w, v in t[2]:
            if kk <= k < kk + w:
                return bit(v, k - kk)
        return bit(t[1], k)
    if o == 'op':
        _, op, w, a, b = t
        if k >= w:
            return None
        if op == 'shl' and isinstance(b, int):
            return bit(a, k - b) if k >= b else 0
        if op == 'lshr' and isinstance(b, int):
            return bit(a, k + b) if k + b < w else 0
        if op == 'ashr' and isinstance(b, int):
            return bit(a, min(k + b, w - 1))
        if op == 'mul' and isinstance(b, int) and b > 0 and not b & (b - 1):
            s = b.bit_length() - 1
            return bit(a, k - s) if k >= s else 0
        if op == 'udiv' and isinstance(b, int) and b > 0 and not b & (b - 1):
            s = b.bit_length() - 1
            return bit(a, k + s) if k + s < w else 0
        if op == 'urem' and isinstance(b, int) and b > 0 and not b & (b - 1):
            return bit(a, k) if k < b.bit_length() - 1 else 0
        if op in ('or', 'and', 'xor'):
            x, y = bit(a, k), bit(b, k)
            return combine(op, x, y)
        if op == 'add':
            # no carries when the operands share no bit position
            for j in range(k + 1):
                x, y = bit(a, j), bit(b, j)
                if x != 0 and y != 0:
                    # (the low bits of a sum do not depend on its width)
                    return ('b', ('sum',) + tuple(sorted(addends(t), key=repr)), k)
            return combine('or', bit(a, k), bit(b, k))
        return None
    if o in ('cmp', 'not', 'boolop'):
        return ('b', t, 0) if k == 0 else 0
    return ('b', t, k)


def addends(t):
    if isinstance(t, tuple) and t[0] == 'op' and t[1] == 'add':
        return addends(t[3]) + addends(t[4])
    return [t]


def combine(op, x, y):
    if x is None or y is None:
        return None
    if op == 'or':
        if x == 0:
            return y
        if y == 0 or x == y or x == 1:
            return x
        return 1 if y == 1 else None
    if op == 'and':
        if x == 0 or y == 0:
            return 0
        if x == 1:
            return y
        return x if y == 1 or x == y else None
    if x == 0:
        return y
    if y == 0:
        return x
    if x == y:
        return 0
    return None


def byte_of(t, i):
    """the bits of byte i"""
    return [bit(t, 8 * i + j) for j in range(8)]


def memsrc(b):
    """('b', load term, j) -> ('m', base, byte offset, bit) ; loads of any width name the same byte"""
    if isinstance(b, tuple) and b[0] == 'b' and isinstance(b[1], tuple) and b[1][0] == 'ld':
        base, o, ix = split(b[1][1])
        return ('m', base, o + b[2] // 8, b[2] % 8, ix)
    return b


class Bytes:
    """records what a run stores, byte by byte"""

    def __init__(self):
        self.b = {}

    def store(self, addr, val, bits):
        base, o, ix = split(addr)
        for i in range(bits // 8):
            self.b[(base, o + i, ix)] = byte_of(val, i)
