"""Algebraic theory: scalars are Laurent polynomials over Z/l in atoms, group elements are Z/l-linear
combinations of independent base points, hashes are uninterpreted.  Equality is equality of normal forms."""
import z3

from .core import SBool, SInt, Undecided, ctx
from .vbytes import Term, VBytes, VBytearray, XB, canon, to_elems, whole_term

L = 2 ** 252 + 27742317777372353535851937790883648493
Q = 2 ** 255 - 19


class Atom:
    __slots__ = ("id", "name", "boolean", "payload")
    by_key = {}
    all = []

    @classmethod
    def get(cls, key, boolean=False, payload=None):
        a = cls.by_key.get(key)
        if a is None:
            a = object.__new__(cls)
            a.id = len(cls.all)
            a.name = key
            a.boolean = boolean
            a.payload = payload
            cls.all.append(a)
            cls.by_key[key] = a
        return a


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) == 1 and len(b) == 1:
        (x, i), (y, j) = a[0], b[0]
        if x < y:
            return (a[0], b[0])
        if x > y:
            return (b[0], a[0])
        if Atom.all[x].boolean:
            return ((x, 1),)
        return ((x, i + j),) if i + j else ()
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n == 0:
            del d[x]
        elif n > 1 and Atom.all[x].boolean:
            d[x] = 1
        else:
            d[x] = n
    return tuple(sorted(d.items()))


HI = {}          # atom id: upper bound of its value, from 0


class Zl:
    __slots__ = ("m", "_k")

    def __init__(self, m):
        self.m = m
        self._k = None

    @staticmethod
    def const(c):
        c %= L
        return Zl({(): c} if c else {})

    @staticmethod
    def atom(key, boolean=False, payload=None):
        return Zl({((Atom.get(key, boolean, payload).id, 1),): 1})

    @staticmethod
    def of(x):
        if isinstance(x, Zl):
            return x
        if isinstance(x, bool):
            return Zl.const(int(x))
        if isinstance(x, int):
            return Zl.const(x)
        if isinstance(x, SInt):
            r = lin(x.as_i().t)
            if x.lo is not None and x.lo >= 0 and x.hi is not None and len(r.m) == 1:
                ((k, v),) = r.m.items()
                if v == 1 and len(k) == 1 and k[0][1] == 1:
                    HI[k[0][0]] = max(x.hi, HI.get(k[0][0], 0))
            return r
        if isinstance(x, SBool):
            return lin(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
        raise TypeError("not a scalar: %r" % type(x))

    def key(self):
        if self._k is None:
            self._k = frozenset(self.m.items())
        return self._k

    def is_const(self):
        if not self.m:
            return 0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def __add__(self, o):
        if not isinstance(o, (Zl, int, SInt, SBool)):
            return NotImplemented
        o = Zl.of(o)
        a, b = (self.m, o.m) if len(self.m) >= len(o.m) else (o.m, self.m)
        r = dict(a)
        for k, v in b.items():
            n = (r.get(k, 0) + v) % L
            if n:
                r[k] = n
            else:
                del r[k]
        return Zl(r)

    __radd__ = __add__

    def __neg__(self):
        return Zl({k: L - v for k, v in self.m.items()})

    def __sub__(self, o):
        if not isinstance(o, (Zl, int, SInt, SBool)):
            return NotImplemented
        return self + (-Zl.of(o))

    def __rsub__(self, o):
        return Zl.of(o) + (-self)

    def __mul__(self, o):
        if not isinstance(o, (Zl, int, SInt, SBool)):
            return NotImplemented
        o = Zl.of(o)
        r = {}
        a, b = self.m, o.m
        if len(a) < len(b):
            a, b = b, a
        for kb, vb in b.items():
            for ka, va in a.items():
                k = mmul(ka, kb)
                r[k] = (r.get(k, 0) + va * vb) % L
        return Zl({k: v for k, v in r.items() if v})

    __rmul__ = __mul__

    def __pow__(self, e, m=None):
        if m is not None and m != L:
            raise Undecided("power modulo something else")
        if e == L - 2:
            return self.inverse()
        if isinstance(e, int) and e < 0:
            return self.inverse() ** (-e)
        if not isinstance(e, int) or e > 4096:
            raise Undecided("large symbolic power")
        r = Zl.const(1)
        b = self
        while e:
            if e & 1:
                r = r * b
            b = b * b
            e >>= 1
        return r

    def inverse(self):
        c = self.is_const()
        if c is not None:
            return Zl.const(pow(c, L - 2, L))
        if len(self.m) == 1:
            ((k, v),) = self.m.items()
            if not any(Atom.all[x].boolean for x, _ in k):
                ctx().assumptions.add("inverted scalars are non-zero")
                return Zl({tuple((x, -e) for x, e in k): pow(v, L - 2, L)})
        raise Undecided("inverse of a non-monomial scalar")

    def __mod__(self, m):
        if m == L:
            return self
        if m == 0xFFFFFFFFFFFFFFFF + 1:
            return self
        raise Undecided("scalar modulo %r" % (m,))

    def __eq__(self, o):
        if not isinstance(o, (Zl, int, SInt, SBool)):
            return False
        d = self - o
        c = d.is_const()
        if c is not None:
            return c == 0
        return zgeneric(d)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return not (self == 0)

    def bound(self):
        """an upper bound of the value as an integer from 0, when it is a sum of small non-negative terms"""
        s = 0
        for k, v in self.m.items():
            for x, e in k:
                a = Atom.all[x]
                h = HI.get(x)
                if h is None:
                    h = 1 if a.boolean else 256 ** len(a.payload[1]) - 1 if isinstance(a.payload, tuple) and a.payload[0] == "bytes" else None
                if h is None or e < 1:
                    return L - 1
                v *= h ** e
            s += v
            if s >= L:
                return L - 1
        return s

    def _cmp(self, o):
        raise Undecided("order comparison of scalars")

    def __ge__(self, o):
        c = self.is_const()
        if c is not None and isinstance(o, int):
            return c >= o
        if isinstance(o, int) and o > self.bound():
            return False
        if isinstance(o, int) and o <= 0:
            return True
        self._cmp(o)

    def __lt__(self, o):
        return not self.__ge__(o)

    def __le__(self, o):
        c = self.is_const()
        if c is not None and isinstance(o, int):
            return c <= o
        if isinstance(o, int) and o >= self.bound():
            return True
        self._cmp(o)

    def __gt__(self, o):
        return not self.__le__(o)

    def __int__(self):
        c = self.is_const()
        if c is None:
            raise Undecided("int() of a symbolic scalar")
        return c

    __index__ = __int__

    def to_bytes(self, length, byteorder="big", *, signed=False):
        e = enc_scalar(self)._e()
        if length > 32:
            e = e + [0] * (length - 32)
        elif length < 32:
            raise Undecided("short scalar encoding")
        return VBytes(e if byteorder == "little" else e[::-1])

    def __repr__(self):
        def nm(k):
            return "*".join("%s%s" % (Atom.all[x].name if isinstance(Atom.all[x].name, str) else "a%d" % x, "^%d" % e if e != 1 else "") for x, e in k) or "1"
        it = sorted(self.m.items(), key=lambda kv: str(kv[0]))[:6]
        return "Zl(" + " + ".join("%s%s" % ("" if v == 1 else ("-" if v == L - 1 else "%d*" % (v if v < L // 2 else v - L)), nm(k)) for k, v in it) + (" + ...%d" % len(self.m) if len(self.m) > 6 else "") + ")"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def zgeneric(d):
    ctx().assumptions.add("scalars with different normal forms are different (non-degenerate values; an algebraic "
                          "coincidence has probability about degree/l)")
    return False


def pgeneric(d):
    ctx().assumptions.add("group elements with different normal forms are different (independent base points)")
    return False


def lin(t):
    """linear normal form of a z3 integer term"""
    if z3.is_int_value(t):
        return Zl.const(t.as_long())
    if z3.is_add(t):
        r = Zl({})
        for c in t.children():
            r = r + lin(c)
        return r
    if z3.is_sub(t):
        ch = t.children()
        r = lin(ch[0])
        for c in ch[1:]:
            r = r - lin(c)
        return r
    if z3.is_mul(t):
        r = Zl.const(1)
        for c in t.children():
            r = r * lin(c)
        return r
    if t.decl().kind() == z3.Z3_OP_UMINUS:
        return -lin(t.children()[0])
    return Zl.atom("z:" + t.sexpr())


class Pt:
    """sum of scalar * base point"""
    __slots__ = ("m", "_k")

    def __init__(self, m):
        self.m = m
        self._k = None

    @staticmethod
    def atom(key):
        return Pt({Atom.get(("pt", key)).id: Zl.const(1)})

    def key(self):
        if self._k is None:
            self._k = frozenset((a, z.key()) for a, z in self.m.items())
        return self._k

    def is_id(self):
        return not self.m

    def __add__(self, o):
        if not isinstance(o, Pt):
            return NotImplemented
        r = dict(self.m)
        for a, z in o.m.items():
            n = r[a] + z if a in r else z
            if n.m:
                r[a] = n
            else:
                del r[a]
        return Pt(r)

    def __neg__(self):
        return Pt({a: -z for a, z in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, s):
        s = Zl.of(s)
        if not s.m:
            return Pt({})
        r = {}
        for a, z in self.m.items():
            p = z * s
            if p.m:
                r[a] = p
        return Pt(r)

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, Pt):
            return False
        if self.key() == o.key():
            return True
        return pgeneric(None)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "Pt(" + " + ".join("%r*%s" % (z, Atom.all[a].name[1]) for a, z in list(self.m.items())[:5]) + ("..." if len(self.m) > 5 else "") + ")"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self
        raise Undecided("coordinates of an abstract point")

    def __iter__(self):
        raise Undecided("coordinates of an abstract point")


G = Pt.atom("G")
H = Pt.atom("H")
H_BYTES = bytes.fromhex("8b655970153799af2aeadc9ff1add0ea6c7251d54154cfa92c173a0dd39c1f94")
ID_BYTES = b"\x01" + bytes(31)
G_BYTES = b"\x58" + b"\x66" * 31


def enc_scalar(z):
    if isinstance(z, SInt) and z.lo is not None and z.lo >= 0 and z.hi is not None and z.hi < 2 ** 64 and z.lo != z.hi:
        return VBytes(int_bytes(z, 8) + [0] * 24)
    z = Zl.of(z)
    c = z.is_const()
    if c is not None:
        return VBytes(list(c.to_bytes(32, "little")))
    if len(z.m) == 1:
        ((k, v),) = z.m.items()
        if v == 1 and len(k) == 1 and k[0][1] == 1:
            pl = Atom.all[k[0][0]].payload
            if isinstance(pl, tuple) and pl[0] == "bytes" and len(pl[1]) <= 31:
                return VBytes(list(pl[1]) + [0] * (32 - len(pl[1])))
    return Term("sc", z.key(), 32, z).bytes()


def dec_scalar(b):
    """little-endian integer of up to 32 bytes as a scalar (reduced)"""
    e = to_elems(b)[:32]
    if all(isinstance(x, int) for x in e):
        return Zl.const(int.from_bytes(bytes(e), "little"))
    t = whole_term(e)
    if t is not None and t.kind == "sc":
        return t.payload
    j = len(e)
    while j > 0 and isinstance(e[j - 1], int) and e[j - 1] == 0:
        j -= 1
    for k in range(j, len(e) + 1):
        t = whole_term(e[:k])
        if t is not None and t.kind == "int":
            return Zl.of(t.payload)
    return opaque_int(e)


def dec_scalar32(b):
    """scalar written in the first 32 bytes"""
    if len(to_elems(b)) < 32:
        raise IndexError("index out of range")
    return dec_scalar(b)


def opaque_int(e):
    e = list(e)
    while e and isinstance(e[-1], int) and e[-1] == 0:
        e.pop()
    t = whole_term(e)
    if t is not None and t.kind == "sc":
        return t.payload
    if all(isinstance(x, SInt) for x in e):
        from .vbytes import from_bytes
        return Zl.of(from_bytes(VBytes(e), "little"))
    return Zl.atom(("int", canon(e)), payload=("bytes", tuple(e)))


def enc_point(p):
    if p.is_id():
        return VBytes(list(ID_BYTES))
    k = p.key()
    if k == H.key():
        return VBytes(list(H_BYTES))
    if k == G.key():
        return VBytes(list(G_BYTES))
    return Term("pt", k, 32, p).bytes()


def dec_point(b):
    e = to_elems(b)[:32]
    if len(e) < 32:
        raise ValueError("short point")
    if all(isinstance(x, int) for x in e):
        bb = bytes(e)
        if bb == ID_BYTES:
            return Pt({})
        if bb == H_BYTES:
            return H
        if bb == G_BYTES:
            return G
        if bb == bytes(32):
            # y = 0: a point of order 4, outside the prime-order subgroup; kept as an opaque base point
            return Pt.atom("enc:" + bb.hex())
        return Pt.atom("enc:" + bb.hex())
    t = whole_term(e)
    if t is not None and t.kind == "pt":
        return t.payload
    ctx().assumptions.add("opaque byte strings decoded as points are taken to be points of the prime-order subgroup")
    return Pt({Atom.get(("pt", ("dec", canon(e)))).id: Zl.const(1)})


HASHED = {}


def hash_point(h):
    """the point a 32-byte hash value is mapped to; computed where the hash is a known value"""
    if all(isinstance(x, int) for x in h):
        h = bytes(h)
        if h not in HASHED:
            from .ref import map_to_ec
            HASHED[h] = map_to_ec(h).enc()
        return dec_point(VBytes(list(HASHED[h])))
    return Pt.atom(("Hp", canon(h)))


def int_bytes(x, n):
    """the n little-endian bytes of an integer value (identified by its linear normal form)"""
    z = Zl.of(x)
    c = z.is_const()
    if c is not None:
        return list(c.to_bytes(n, "little"))
    return Term("int", z.key(), n, x).bytes()._e()
