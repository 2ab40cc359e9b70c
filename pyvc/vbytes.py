"""Byte sequences whose elements may be symbolic.

Element kinds: int (0..255); SInt in 0..255; XB = const XOR of opaque atoms (bytes of hashes, encodings, ciphertexts).
"""
import binascii

from .core import SBool, SInt, Undecided, bvwidth, ctx, mkbool, fresh_bv
import z3


class Term:
    """an opaque byte string of known length, identified by a canonical key"""
    __slots__ = ("kind", "key", "n", "payload", "_h")
    table = {}

    def __new__(cls, kind, key, n, payload=None):
        k = (kind, key, n)
        t = cls.table.get(k)
        if t is None:
            t = object.__new__(cls)
            t.kind, t.key, t.n, t.payload = kind, key, n, payload
            t._h = hash(k)
            cls.table[k] = t
        return t

    def bytes(self):
        return VBytes([XB((self, i)) for i in range(self.n)])

    def __repr__(self):
        return "<%s:%s>" % (self.kind, str(self.key)[:60])

    def __deepcopy__(self, memo):
        return self


class XB:
    """c ^ a1 ^ a2 ... with atoms a = (Term, index) or ('s', z3 term id-holder)"""
    __slots__ = ("c", "atoms")

    def __init__(self, atom=None, c=0, atoms=None):
        self.c = c
        self.atoms = frozenset([atom]) if atoms is None else atoms

    def single(self):
        if self.c == 0 and len(self.atoms) == 1:
            (a,) = self.atoms
            return a
        return None

    def key(self):
        s = self.single()
        if s is not None:
            return s
        return ("xor", self.c, self.atoms)

    def __xor__(self, o):
        if isinstance(o, int):
            return XB(c=self.c ^ o, atoms=self.atoms)
        if isinstance(o, XB):
            at = self.atoms ^ o.atoms
            return norm_xb(XB(c=self.c ^ o.c, atoms=at))
        if isinstance(o, SInt):
            return norm_xb(XB(c=self.c, atoms=self.atoms ^ frozenset([SAtom(o)])))
        return NotImplemented

    __rxor__ = __xor__

    def __and__(self, o):
        if o == 0xFF:
            return self
        if o == 0:
            return 0
        return OpaqueBits(self, o)

    __rand__ = __and__

    def __rshift__(self, o):
        if isinstance(o, int) and o >= 8:
            return 0
        if o == 0:
            return self
        raise Undecided("bits of an opaque byte")

    def __lt__(self, o):
        if isinstance(o, int) and not 0 <= o <= 255:
            return o > 255
        if isinstance(o, int) and o == 0:
            return False
        raise Undecided("order of an opaque byte")

    def __ge__(self, o):
        return not self.__lt__(o)

    def __eq__(self, o):
        if isinstance(o, XB):
            if self.c == o.c and self.atoms == o.atoms:
                return True
            if self.atoms == o.atoms:
                return False
        elif isinstance(o, (int,)) and not (0 <= o <= 255):
            return False
        return generic_differs(self.key(), o.key() if isinstance(o, XB) else ("const", o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash((self.c, self.atoms))

    def __index__(self):
        raise Undecided("opaque byte used as an integer")

    def __bool__(self):
        return not (self == 0)

    def __repr__(self):
        return "XB(%r)" % (self.key(),)

    def __deepcopy__(self, memo):
        return self


class OpaqueBits:
    """byte & mask for an opaque byte; only truth-tested"""
    def __init__(self, b, mask):
        self.b, self.mask = b, mask

    def __bool__(self):
        raise Undecided("branch on bits of an opaque byte")


class SAtom:
    __slots__ = ("s", "k")

    def __init__(self, s):
        self.s = s
        self.k = s.t.get_id()

    def __eq__(self, o):
        return isinstance(o, SAtom) and o.k == self.k

    def __hash__(self):
        return hash(self.k)


def norm_xb(x):
    if not x.atoms:
        return x.c
    s = x.single()
    if isinstance(s, SAtom):
        return s.s
    return x


def generic_differs(a, b):
    """two different canonical opaque values: taken as different (collision freedom / non-degeneracy), recorded"""
    ctx().assumptions.add("distinct canonical terms denote distinct byte values (collision freedom of hashes and "
                          "encodings; opaque values do not coincide with constants)")
    return False


def char_eq(x, y):
    """equality of two bytes; entries of one table of different values are equal where their positions are"""
    if isinstance(x, SInt) or isinstance(y, SInt):
        m = ctx().memo
        a = m.get(("tl", x.t.get_id())) if isinstance(x, SInt) else None
        b = m.get(("tl", y.t.get_id())) if isinstance(y, SInt) else None
        if a is not None and b is not None and a[0] == b[0] and len(set(a[0])) == len(a[0]):
            return a[1] == b[1]
        for t, o in ((a, y), (b, x)):
            if t is not None and isinstance(o, int) and len(set(t[0])) == len(t[0]):
                return t[1] == t[0].index(o) if o in t[0] else False
    return x == y


def elem_eq(a, b):
    if isinstance(a, XB) or isinstance(b, XB):
        return a.__eq__(b) if isinstance(a, XB) else b.__eq__(a)
    return a == b


def ekey(e):
    """canonical hashable key of an element"""
    if isinstance(e, int):
        return e
    if isinstance(e, XB):
        return e.key()
    if isinstance(e, SInt):
        return ("s", e.kind, e.t.get_id(), SKEEP.setdefault(e.t.get_id(), e.t) is None)
    return e


SKEEP = {}


def canon(elems):
    """canonical key of an element list: runs of whole terms are compressed"""
    out = []
    i, n = 0, len(elems)
    buf = bytearray()
    while i < n:
        e = elems[i]
        if isinstance(e, int):
            buf.append(e)
            i += 1
            continue
        if buf:
            out.append(bytes(buf))
            buf = bytearray()
        if isinstance(e, XB):
            s = e.single()
            if s is not None and not isinstance(s, SAtom) and s[1] == 0:
                t = s[0]
                m = t.n
                if i + m <= n and all(isinstance(elems[i + j], XB) and elems[i + j].single() == (t, j) for j in range(1, m)):
                    out.append(t)
                    i += m
                    continue
            out.append(e.key())
        else:
            out.append(ekey(e))
        i += 1
    if buf:
        out.append(bytes(buf))
    return tuple(out)


def whole_term(elems):
    """the Term these elements are, if they are exactly one whole term"""
    if not elems or not isinstance(elems[0], XB):
        return None
    s = elems[0].single()
    if s is None or isinstance(s, SAtom) or s[1] != 0 or s[0].n != len(elems):
        return None
    t = s[0]
    for j in range(1, t.n):
        e = elems[j]
        if not isinstance(e, XB) or e.single() != (t, j):
            return None
    return t


def to_elems(x):
    if isinstance(x, VBytes):
        return x._e()
    if isinstance(x, (bytes, bytearray, memoryview)):
        return list(bytes(x))
    if isinstance(x, VMem):
        return x._e()
    if isinstance(x, (list, tuple)):
        return list(x)
    if hasattr(x, "__vbytes__"):
        return x.__vbytes__()._e()
    raise TypeError("not a byte string: %r" % type(x))


def _chk_byte(v):
    if isinstance(v, SInt):
        if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi <= 255:
            return v
        if not bool((v >= 0) & (v <= 255)):
            raise ValueError("byte must be in range(0, 256)")
        if v.kind == "b":
            from .core import _fitw
            return _fitw(v.t, 0, 255)
        return SInt("i", v.t, 0, 255)
    if isinstance(v, SBool):
        from .core import _as_int
        return _as_int(v)
    if isinstance(v, XB) or hasattr(v, "__vc_byte__"):
        return v
    if hasattr(v, "__index__"):
        v = v.__index__()
    if not isinstance(v, int):
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
    if not 0 <= v <= 255:
        raise ValueError("byte must be in range(0, 256)")
    return v


def opaque_rank(x):
    """position of an opaque byte in an arbitrary total order; different bytes have different positions"""
    from . import core
    c = core.ctx()
    k = ekey(x)
    reg = c.memo.setdefault("opaque rank", {})
    if k not in reg:
        r = core.fresh_int("order", 0, 2 ** 32)
        for o in reg.values():
            c.assume(r != o)
        reg[k] = r
    return reg[k]


class VBytes:
    __slots__ = ("e",)
    mutable = False

    def __init__(self, e=()):
        self.e = e if type(e) is list else list(e)

    def _e(self):
        return self.e

    def _new(self, e):
        return VBytes(e) if type(self) is VMem else type(self)(e)

    def __len__(self):
        return len(self._e())

    def __iter__(self):
        return iter(list(self._e()))

    def __reversed__(self):
        return iter(self._e()[::-1])

    def __getitem__(self, i):
        e = self._e()
        if isinstance(i, slice):
            return self._new(e[conc_slice(i)])
        if isinstance(i, SInt):
            if all(isinstance(x, int) for x in e):
                from .core import table_lookup
                return table_lookup(e, i)
            i = int(i)
        return e[i]

    def __add__(self, o):
        try:
            oe = to_elems(o) if not isinstance(o, (list, tuple)) else None
        except TypeError:
            oe = None
        if oe is None:
            raise TypeError("can't concat %s to bytes" % type(o).__name__)
        return self._new(self._e() + oe)

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            oe = list(o)
            return (VBytearray if isinstance(o, bytearray) else VBytes)(oe + self._e())
        return NotImplemented

    def __mul__(self, n):
        return self._new(self._e() * int(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (VBytes, bytes, bytearray, memoryview, VMem)):
            return False
        a, b = self._e(), to_elems(o)
        if len(a) != len(b):
            return False
        ts = []
        opq = False
        a, b = list(a), list(b)
        for i, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, XB) or isinstance(y, XB):
                opq = True
                continue
            if isinstance(x, SInt) or isinstance(y, SInt):
                a[i] = b[i] = 0
            r = char_eq(x, y)
            if r is False:
                return False
            if r is not True:
                ts.append(r.t)
        if opq:
            ca, cb = canon(a), canon(b)
            if ca != cb:
                if len(ca) != len(cb):
                    return generic_differs(ca, cb)
                for x, y in zip(ca, cb):
                    if x == y:
                        continue
                    if isinstance(x, Term) and isinstance(y, Term) and x.kind == y.kind == "natbe" and x.n == y.n:
                        r = x.payload == y.payload
                        if r is False:
                            return False
                        if r is not True:
                            ts.append(r.t)
                        continue
                    return generic_differs(ca, cb)
        if not ts:
            return True
        return mkbool(z3.And(*ts))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def _lex(self, o, strict):
        a, b = self._e(), to_elems(o)
        for x, y in zip(a, b):
            if isinstance(x, XB) or isinstance(y, XB):
                if x == y:
                    continue
                if isinstance(x, XB) and isinstance(y, XB):
                    return opaque_rank(x) < opaque_rank(y)
                raise Undecided("order of opaque bytes")
            if x == y:
                continue
            return x < y
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return bool(self._lex(o, True))

    def __le__(self, o):
        return bool(self._lex(o, False))

    def __gt__(self, o):
        return not bool(self._lex(o, False))

    def __ge__(self, o):
        return not bool(self._lex(o, True))

    def __hash__(self):
        e = self._e()
        if all(isinstance(x, int) for x in e):
            return hash(bytes(e))
        return hash(canon(e))

    def concrete(self):
        e = self._e()
        if all(isinstance(x, int) for x in e):
            return bytes(e)
        return None

    def __bytes__(self):
        c = self.concrete()
        if c is None:
            raise Undecided("bytes() of symbolic data reached native code")
        return c

    def __buffer__(self, flags):
        return memoryview(self.__bytes__())

    def __bool__(self):
        return len(self._e()) > 0

    def __contains__(self, x):
        if isinstance(x, (VBytes, bytes, bytearray)):
            return self.find(x) >= 0
        return any(bool(elem_eq(y, x)) for y in self._e())

    def _as_bytes_fn(self, name, *a):
        return getattr(self.__bytes__(), name)(*a)

    def hex(self):
        return self.__bytes__().hex()

    def decode(self, *a):
        if self.concrete() is None:
            from .text import VStr
            return VStr(list(self._e()))
        return self.__bytes__().decode(*a)

    def lower(self):
        from .text import HEX
        out = []
        for c in self._e():
            if isinstance(c, int):
                out.append(c + 32 if 65 <= c <= 90 else c)
            elif isinstance(c, XB):
                a = c.single()
                if a is None or isinstance(a, SAtom) or a[0].kind != "hexd":
                    raise Undecided("lower case of opaque text")
                out.append(c)
            else:
                pv = ctx().memo.get(("tl", c.t.get_id()))
                if not (pv is not None and pv[0] == tuple(HEX)) and bool((c >= 65) & (c <= 90)):
                    c = c + 32
                out.append(c)
        return self._new(out)

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        pe = to_elems(p)
        return len(pe) <= len(self) and bool(VBytes(self._e()[: len(pe)]) == VBytes(pe))

    def endswith(self, p):
        pe = to_elems(p)
        return len(pe) <= len(self) and bool(VBytes(self._e()[len(self) - len(pe):]) == VBytes(pe))

    def find(self, sub, start=0, end=None):
        e = self._e()
        if isinstance(sub, (int, SInt)):
            sub = [sub]
        se = to_elems(sub)
        end = len(e) if end is None else min(end, len(e))
        for i in range(start, end - len(se) + 1):
            if bool(VBytes(e[i: i + len(se)]) == VBytes(se)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, x):
        if isinstance(x, (bytes, VBytes)) and len(x) == 1:
            x = x[0]
        return sum(1 for y in self._e() if bool(elem_eq(y, x)))

    def rjust(self, n, f=b" "):
        return self._new([f[0]] * max(0, n - len(self)) + self._e())

    def ljust(self, n, f=b" "):
        return self._new(self._e() + [f[0]] * max(0, n - len(self)))

    def _strip(self, chars, left, right):
        e = list(self._e())
        cs = list(chars) if chars is not None else list(b" \t\n\r\x0b\x0c")
        while left and e and any(bool(elem_eq(e[0], c)) for c in cs):
            e = e[1:]
        while right and e and any(bool(elem_eq(e[-1], c)) for c in cs):
            e = e[:-1]
        return self._new(e)

    def lstrip(self, c=None):
        return self._strip(c, True, False)

    def rstrip(self, c=None):
        return self._strip(c, False, True)

    def strip(self, c=None):
        return self._strip(c, True, True)

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if i:
                out += self._e()
            out += to_elems(x)
        return VBytes(out)

    def __repr__(self):
        c = self.concrete()
        return "V" + repr(c) if c is not None else "VBytes%s" % (canon(self._e()),)

    def __deepcopy__(self, memo):
        return type(self)(list(self._e()))

    def __copy__(self):
        return type(self)(list(self._e()))

    def __mod__(self, o):
        raise Undecided("bytes formatting")


class VBytearray(VBytes):
    __slots__ = ()
    mutable = True
    __hash__ = None

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            s = conc_slice(i)
            new = to_elems(v) if not isinstance(v, (list, tuple)) else [_chk_byte(x) for x in v]
            self.e[s] = new
            return
        if isinstance(i, SInt):
            i = int(i)
        if not -len(self.e) <= i < len(self.e):
            raise IndexError("bytearray index out of range")
        self.e[i] = _chk_byte(v)

    def __delitem__(self, i):
        del self.e[conc_slice(i) if isinstance(i, slice) else i]

    def append(self, v):
        self.e.append(_chk_byte(v))

    def extend(self, v):
        self.e.extend(to_elems(v) if not isinstance(v, (list, tuple)) and not hasattr(v, "__next__") else [_chk_byte(x) for x in v])

    def __iadd__(self, v):
        self.e.extend(to_elems(v))
        return self

    def pop(self, i=-1):
        return self.e.pop(i)

    def insert(self, i, v):
        self.e.insert(i, _chk_byte(v))

    def clear(self):
        self.e.clear()

    def copy(self):
        return VBytearray(list(self.e))

    def reverse(self):
        self.e.reverse()

    def __buffer__(self, flags):
        c = self.concrete()
        if c is None:
            raise Undecided("buffer of symbolic data reached native code")
        return memoryview(c)


class VMem(VBytes):
    """memoryview over a VBytearray / VBytes / native buffer"""
    __slots__ = ("base", "off", "n")

    def __init__(self, base, off=0, n=None):
        if isinstance(base, VMem):
            self.base, self.off = base.base, base.off + off
            self.n = base.n - off if n is None else n
        else:
            self.base, self.off = base, off
            self.n = len(base) - off if n is None else n

    def _e(self):
        if isinstance(self.base, VBytes):
            return self.base._e()[self.off: self.off + self.n]
        return list(bytes(self.base)[self.off: self.off + self.n])

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, st = conc_slice(i).indices(self.n)
            if st != 1:
                return VBytes(self._e()[conc_slice(i)])
            return VMem(self, a, max(0, b - a))
        if isinstance(i, SInt):
            i = int(i)
        if not -self.n <= i < self.n:
            raise IndexError("index out of bounds")
        return self.base[self.off + (i + self.n if i < 0 else i)]

    def __setitem__(self, i, v):
        if not (getattr(self.base, "mutable", False) or isinstance(self.base, bytearray)):
            raise TypeError("cannot modify read-only memory")
        if isinstance(i, slice):
            a, b, st = conc_slice(i).indices(self.n)
            ve = to_elems(v)
            if len(ve) != max(0, b - a) or st != 1:
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
            self.base[self.off + a: self.off + b] = ve if isinstance(self.base, VBytes) else bytes(ve)
            return
        if not -self.n <= i < self.n:
            raise IndexError("index out of bounds")
        self.base[self.off + (i + self.n if i < 0 else i)] = v

    def __hash__(self):
        return VBytes.__hash__(VBytes(self._e()))

    def tobytes(self):
        return VBytes(self._e())

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    @property
    def nbytes(self):
        return self.n


def conc_slice(s):
    def c(x):
        return int(x) if isinstance(x, SInt) else x
    return slice(c(s.start), c(s.stop), c(s.step))


# -- shadow constructors -------------------------------------------------------
class _BytesMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._insts)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._insts)


_NOARG = object()


def _mk(x, enc, errors, cls):
    if x is _NOARG:
        return cls([])
    if x is None:
        raise TypeError("cannot convert 'NoneType' object to bytes")
    if isinstance(x, str):
        if enc is None:
            raise TypeError("string argument without an encoding")
        return cls(list(x.encode(enc or "utf8", errors or "strict")))
    if isinstance(x, SInt):
        x = int(x)
    if isinstance(x, (bool, int)):
        if x < 0:
            raise ValueError("negative count")
        return cls([0] * x)
    if isinstance(x, VBytes):
        return cls(list(x._e()))
    if isinstance(x, (bytes, bytearray, memoryview)):
        return cls(list(bytes(x)))
    if hasattr(x, "__bytes__"):
        r = x.__bytes__()
        return cls(list(to_elems(r)))
    if hasattr(x, "__iter__"):
        return cls([_chk_byte(v) for v in x])
    raise TypeError("cannot convert '%s' object to bytes" % type(x).__name__)


class bytes_(bytes, metaclass=_BytesMeta):
    _insts = (bytes, VBytes)

    def __new__(cls, x=_NOARG, enc=None, errors=None):
        return _mk(x, enc, errors, VBytes)

    @staticmethod
    def fromhex(s):
        return VBytes(list(bytes.fromhex(s)))

    maketrans = staticmethod(bytes.maketrans)


class bytearray_(bytearray, metaclass=_BytesMeta):
    _insts = (bytearray, VBytearray)

    def __new__(cls, x=_NOARG, enc=None, errors=None):
        return _mk(x, enc, errors, VBytearray)

    @staticmethod
    def fromhex(s):
        return VBytearray(list(bytes.fromhex(s)))


class memoryview_(metaclass=_BytesMeta):
    _insts = (memoryview, VMem)

    def __new__(cls, x):
        if isinstance(x, (VBytes,)):
            return VMem(x)
        if isinstance(x, bytearray):
            return VMem(x)
        return VMem(VBytes(list(bytes(x))))


def bytes_isinstance_fix(o, c):
    """immutable check: VBytearray/VMem are not `bytes`"""
    if c is bytes_ or c is bytes:
        return isinstance(o, bytes) or (type(o) is VBytes)
    if c is bytearray_ or c is bytearray:
        return isinstance(o, bytearray) or type(o) is VBytearray
    if c is memoryview_ or c is memoryview:
        return isinstance(o, memoryview) or type(o) is VMem
    return None


def from_bytes(b, byteorder="big", *, signed=False):
    e = to_elems(b)
    if byteorder == "big":
        e = e[::-1]
    if all(isinstance(x, int) for x in e):
        return int.from_bytes(bytes(e), "little", signed=signed)
    t = None
    # the bytes of one integer value, possibly zero padded
    j = len(e)
    while j > 0 and isinstance(e[j - 1], int) and e[j - 1] == 0:
        j -= 1
    for k in range(j, len(e) + 1):
        t = whole_term(e[:k])
        if t is not None and t.kind == "int":
            return t.payload
    if any(isinstance(x, XB) for x in e):
        from . import alg
        return alg.opaque_int(e)
    r = 0
    for i, x in enumerate(e):
        r = r + x * (1 << (8 * i)) if isinstance(x, SInt) else r + (x << (8 * i))
    if isinstance(r, SInt) and r.kind == "b":
        # concatenation form: exact
        w = 8 * len(e)
        parts = [x.at(8) if isinstance(x, SInt) and x.t.size() <= 8 else (z3.Extract(7, 0, x.t) if isinstance(x, SInt) else z3.BitVecVal(x, 8)) for x in e[::-1]]
        from .core import _fitw
        r = _fitw(z3.Concat(*parts) if len(parts) > 1 else parts[0], 0, (1 << w) - 1)
    if signed:
        half = 1 << (8 * len(e) - 1)
        if bool(r >= half):
            r = r - (1 << (8 * len(e)))
    return r


def sym_bytes(name, n):
    """n fully symbolic bytes (bit-vector elements)"""
    c = ctx()
    nm = c.fresh(name)
    ts = [z3.BitVec("%s[%d]" % (nm, i), 8) for i in range(n)]
    c.inputs[nm] = lambda m, ts=ts: bytes(m.eval(t, model_completion=True).as_long() for t in ts).hex()
    return VBytes([SInt("b", t, 0, 255) for t in ts])


def sym_bytes_i(name, n):
    """n fully symbolic bytes (mathematical-integer elements)"""
    c = ctx()
    nm = c.fresh(name)
    ts = [z3.Int("%s[%d]" % (nm, i)) for i in range(n)]
    for t in ts:
        c.assume(SBool(z3.And(t >= 0, t <= 255)))
        c.memo[("bounds", t.get_id())] = (t, 0, 255)
    c.inputs[nm] = lambda m, ts=ts: bytes(m.eval(t, model_completion=True).as_long() for t in ts).hex()
    return VBytes([SInt("i", t, 0, 255) for t in ts])


def hexlify(b, *a):
    e = to_elems(b)
    if all(isinstance(x, int) for x in e):
        return binascii.hexlify(bytes(e))
    out = []
    from .text import hexdigit
    for x in e:
        if isinstance(x, int):
            out += list(b"%02x" % x)
        elif isinstance(x, XB):
            out += Term("hexd", x.key(), 2, x).bytes().e
        else:
            out += [hexdigit(x >> 4), hexdigit(x & 15)]
    return VBytes(out)


def unhexlify(b):
    if isinstance(b, str):
        return VBytes(list(binascii.unhexlify(b)))
    if hasattr(b, "hexbytes"):
        return VBytes(b.hexbytes())
    e = to_elems(b)
    if all(isinstance(x, int) for x in e):
        return VBytes(list(binascii.unhexlify(bytes(e))))
    if len(e) % 2:
        raise binascii.Error("Odd-length string")
    out = []
    for a, b in zip(e[::2], e[1::2]):
        if isinstance(a, int) and isinstance(b, int):
            out += list(binascii.unhexlify(bytes([a, b])))
            continue
        if not isinstance(a, XB) and not isinstance(b, XB):
            from .text import hexvalue
            out.append(hexvalue(a) * 16 + hexvalue(b))
            continue
        k, j = (x.single() if isinstance(x, XB) else None for x in (a, b))
        if k is None or j is None or k[0].kind != "hexd" or k[0] is not j[0] or (k[1], j[1]) != (0, 1):
            raise Undecided("unhexlify of symbolic data")
        out.append(k[0].payload)
    return VBytes(out)
