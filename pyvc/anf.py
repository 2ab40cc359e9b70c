"""Integers as lists of Boolean functions in a canonical XOR/AND form.

A bit is an integer used as a bit set: bit 0 = the constant 1, bit k = atom k; the value is the XOR of the set
atoms.  Atoms are input bits or AND nodes; an AND node is identified by its two operands' canonical forms (kept as
a 128-bit digest).  Complement is XOR with 1 and distributes over AND, so ~b & c, c ^ (b & c), ... coincide.
Two values with equal normal forms are equal as functions of the inputs.
"""
import hashlib


class Space:
    def __init__(self):
        self.n = 1
        self.names = ["1"]
        self.ands = {}

    def atom(self, name):
        i = self.n
        self.n += 1
        return 1 << i

    def and_(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        if a == b:
            return a
        # pull out complements: (1^x)&y = y ^ x&y
        r = 0
        ca, cb = a & 1, b & 1
        x, y = a & ~1, b & ~1
        if ca and cb:
            r = 1 ^ x ^ y
        elif ca:
            r = y
        elif cb:
            r = x
        if x == y:
            return r ^ x
        dx, dy = dg(x), dg(y)
        k = (dx, dy) if dx < dy else (dy, dx)
        v = self.ands.get(k)
        if v is None:
            v = self.ands[k] = self.atom(None)
        return r ^ v


def dg(x):
    return hashlib.blake2b(x.to_bytes((x.bit_length() + 7) // 8, "little"), digest_size=16).digest()


SP = Space()


def reset():
    """forget all atoms (values created before must not be used afterwards)"""
    SP.__init__()


class BV:
    """infinite two's complement integer: bits[i], then `ext` (0 or 1) forever"""
    __slots__ = ("b", "ext")
    __vc_byte__ = True

    def __init__(self, b, ext=0):
        b = list(b)
        while b and b[-1] == ext:
            b.pop()
        self.b, self.ext = b, ext

    @staticmethod
    def fresh(n):
        return BV([SP.atom(None) for _ in range(n)])

    @staticmethod
    def of(x):
        if isinstance(x, BV):
            return x
        if x >= 0:
            return BV([(x >> i) & 1 for i in range(x.bit_length())])
        return BV([(x >> i) & 1 for i in range(x.bit_length() + 1)], 1)

    def bit(self, i):
        return self.b[i] if i < len(self.b) else self.ext

    def _z(self, o, f, fe):
        if not isinstance(o, (int, BV)):
            return NotImplemented
        o = BV.of(o)
        n = max(len(self.b), len(o.b))
        return norm(BV([f(self.bit(i), o.bit(i)) for i in range(n)], fe(self.ext, o.ext)))

    def __xor__(self, o):
        return self._z(o, lambda a, b: a ^ b, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __and__(self, o):
        return self._z(o, SP.and_, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._z(o, lambda a, b: a ^ b ^ SP.and_(a, b), lambda a, b: a | b)

    __ror__ = __or__

    def __invert__(self):
        return norm(BV([x ^ 1 for x in self.b], self.ext ^ 1))

    def __lshift__(self, k):
        return norm(BV([0] * k + self.b, self.ext))

    def __rshift__(self, k):
        return norm(BV(self.b[k:], self.ext))

    def __add__(self, o):
        # only carry-free additions
        o = BV.of(o)
        if any(SP.and_(self.bit(i), o.bit(i)) for i in range(max(len(self.b), len(o.b)))) or self.ext or o.ext:
            from .core import Undecided
            raise Undecided("addition with carries in the XOR/AND domain")
        return self ^ o

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self << (o.bit_length() - 1)
        from .core import Undecided
        raise Undecided("multiplication in the XOR/AND domain")

    __rmul__ = __mul__

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        from .core import Undecided
        raise Undecided("modulo in the XOR/AND domain")

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        from .core import Undecided
        raise Undecided("division in the XOR/AND domain")

    def key(self):
        return (tuple(self.b), self.ext)

    def __eq__(self, o):
        if not isinstance(o, (int, BV)):
            return False
        return BV.of(o).key() == self.key()

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.key())

    def __lt__(self, o):
        if isinstance(o, int) and not self.ext and len(self.b) <= o.bit_length() - 1:
            return True
        from .core import Undecided
        raise Undecided("comparison in the XOR/AND domain")

    def __bool__(self):
        from .core import Undecided
        if self.ext or any(x & 1 and x == 1 for x in self.b):
            return True
        raise Undecided("branch in the XOR/AND domain")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def to_bytes(self, n, order="big", signed=False):
        from .vbytes import VBytes
        e = [(self >> (8 * i)) & 0xFF for i in range(n)]
        return VBytes(e if order == "little" else e[::-1])

    def __repr__(self):
        return "BV<%d bits>" % len(self.b)


def norm(x):
    """a constant becomes a Python int"""
    if all(v in (0, 1) for v in x.b):
        r = sum(v << i for i, v in enumerate(x.b))
        return r - (1 << len(x.b)) if x.ext else r
    return x


class UF:
    """uninterpreted function on tuples of BV: fresh bits per distinct argument"""
    def __init__(self, nout, width):
        self.nout, self.w, self.t = nout, width, {}

    def __call__(self, args):
        k = tuple(BV.of(a).key() for a in args)
        r = self.t.get(k)
        if r is None:
            r = self.t[k] = [BV.fresh(self.w) for _ in range(self.nout)]
        return list(r)
