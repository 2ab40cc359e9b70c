"""stand-ins for the ecdsa dependency: the group of secp256k1 as multiples k*G of the generator, k modulo its prime order.

Trusted facts: the group has prime order n (every point is k*G for exactly one k below n), the two coordinates of a point
are numbers below p, a point and its negative share the first coordinate and have second coordinates y and p - y, and
equal coordinates mean equal points.
"""
import types

import z3

from . import core
from .core import SBool, SInt, Undecided, ctx
from .vbytes import Term, VBytes, canon, to_elems, whole_term

P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


def must(c):
    """the condition holds on this path"""
    if isinstance(c, bool):
        return c
    return ctx()._check(z3.Not(core.as_z3bool(c))) == z3.unsat


def same(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isinstance(x, SInt) and isinstance(y, SInt) and x.t.get_id() == y.t.get_id():
        return True
    q = x == y
    return q if isinstance(q, bool) else must(q)


def canonical(x):
    """the first number of this path that equals x"""
    reg = ctx().memo.setdefault("numbers", [])
    for y in reg:
        if same(x, y):
            return y
    reg.append(x)
    return x


def nat(e):
    """the number written by these big-endian bytes"""
    e = list(e)
    if all(isinstance(b, int) for b in e):
        return int.from_bytes(bytes(e), "big")
    t = whole_term(e)
    if t is not None and t.kind == "natbe":
        return t.payload
    if all(isinstance(b, (int, SInt)) for b in e):
        r = 0
        for b in e:
            r = r * 256 + b
        return r
    c = ctx()
    k = ("nat", canon(e))
    r = c.memo.get(k)
    if r is None:
        r = c.memo[k] = core.fresh_int("number", 0, 256 ** len(e) - 1)
        c.memo[("natbytes", r.t.get_id(), len(e))] = (r, e)
        reg = c.memo.setdefault("numbers", [])
        reg.append(r)
    return r


def nat_bytes(x, n):
    """the n big-endian bytes of a number below 256^n"""
    if isinstance(x, int):
        return list(x.to_bytes(n, "big"))
    h = ctx().memo.get(("natbytes", x.t.get_id(), n))
    if h is None:
        x = canonical(x)
        if isinstance(x, int):
            return list(x.to_bytes(n, "big"))
        h = ctx().memo.get(("natbytes", x.t.get_id(), n))
    if h is None:
        h = (x, Term("natbe", ("s", x.t.get_id()), n, x).bytes()._e())
        ctx().memo[("natbytes", x.t.get_id(), n)] = h
    return list(h[1])


class Cube:
    """x^3 + 7 for the first coordinate x of a point"""
    def __init__(self, y):
        self.y = y

    def __add__(self, o):
        return self

    __radd__ = __add__

    def __mod__(self, m):
        return self


class _Inf:
    def x(self):
        return None

    y = x

    def __eq__(self, o):
        return self is o or (isinstance(o, Point) and o == self)

    def __hash__(self):
        return 7


INFINITY = _Inf()


def coords(e):
    """coordinates of e*G, e not 0"""
    c = ctx()
    reg = c.memo.setdefault("secp points", [])
    for f, x, y in reg:
        if same(e, f):
            return x, y
        if must((e + f) % N == 0):
            return x, P - y
    if isinstance(e, int):
        from ecdsa import SECP256k1
        pt = (SECP256k1.generator * e).to_affine()
        x, y = int(pt.x()), int(pt.y())
    else:
        x, y = core.fresh_int("x", 0, P - 1), core.fresh_int("y", 1, P - 1)
        c.memo[("powhook", x.t.get_id())] = lambda k, m, y=y: Cube(y)
    for f, u, v in reg:
        if isinstance(x, int) and isinstance(u, int):
            continue
        q = core.zb(x == u)
        c.assume(SBool(z3.Implies(q, z3.Or(core.zb(e == f), core.zb((e + f) % N == 0)))))
        c.assume(SBool(z3.Implies(z3.And(q, core.zb(y == v)), core.zb(e == f))))
        c.assume(SBool(z3.Implies(core.zb(e == f), z3.And(q, core.zb(y == v)))))
    reg.append((e, x, y))
    c.assumptions.add("secp256k1: points are k*G for one k below the prime order; coordinates determine the point (ecdsa dependency)")
    return x, y


class Point:
    """e*G; the constructor takes coordinates"""
    def __init__(self, curve, x, y, order=None):
        if x is None:
            raise AssertionError("no point")
        for e, u, v in ctx().memo.get("secp points", []):
            if same(x, u):
                if same(y, v):
                    self.e = e
                    return
                if same(y + v, P):
                    self.e = (-e) % N
                    return
        raise Undecided("coordinates of no known point")

    @staticmethod
    def of(e):
        p = object.__new__(Point)
        p.e = e % N
        return p

    def _nz(self):
        return bool(self.e != 0)

    def x(self):
        return coords(self.e)[0] if self._nz() else None

    def y(self):
        return coords(self.e)[1] if self._nz() else None

    def scale(self):
        return self

    to_affine = scale

    def __add__(self, o):
        if o is INFINITY:
            return self
        return Point.of(self.e + o.e)

    def __mul__(self, k):
        if isinstance(self.e, int):
            return Point.of(self.e * k)
        if isinstance(k, int):
            return Point.of(self.e * k)
        raise Undecided("product of two unknown numbers")

    __rmul__ = __mul__

    def __neg__(self):
        return Point.of(-self.e)

    def __eq__(self, o):
        if o is INFINITY:
            return not self._nz()
        if not isinstance(o, Point):
            return NotImplemented
        return self.e == o.e

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Undecided("hash of a point")


class MalformedPointError(AssertionError):
    pass


class Curve:
    name, baselen, order, verifying_key_length = "SECP256k1", 32, N, 64

    class curve:
        @staticmethod
        def p():
            return P

        @staticmethod
        def a():
            return 0

        @staticmethod
        def b():
            return 7

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return 1


SECP256k1 = Curve()


class Pub:
    def __init__(self, generator, point, verify=True):
        if point is INFINITY or not point._nz():
            raise TypeError("'<=' not supported between instances of 'int' and 'NoneType'")
        self.point, self.generator, self.order = point, generator, N


class VerifyingKey:
    @classmethod
    def from_public_point(cls, point, curve=None, hashfunc=None, validate_point=True):
        if curve is not SECP256k1:
            raise Undecided("curve")
        v = cls()
        v.curve, v.pubkey = curve, Pub(SECP256k1.generator, point)
        return v

    def to_string(self, encoding="raw"):
        x, y = coords(self.pubkey.point.e)
        if encoding == "compressed":
            return VBytes([2 + (y & 1)] + nat_bytes(x, 32))
        if encoding == "uncompressed":
            return VBytes([4] + nat_bytes(x, 32) + nat_bytes(y, 32))
        return VBytes(nat_bytes(x, 32) + nat_bytes(y, 32))

    def __eq__(self, o):
        return isinstance(o, VerifyingKey) and self.pubkey.point == o.pubkey.point


class SigningKey:
    @classmethod
    def from_secret_exponent(cls, secexp, curve=None, hashfunc=None):
        if curve is not SECP256k1:
            raise Undecided("curve")
        if not bool((secexp >= 1) & (secexp < N)):
            raise MalformedPointError("Invalid value for secexp")
        s = cls()
        s.curve = curve
        s.privkey = types.SimpleNamespace(secret_multiplier=secexp, order=N)
        s.verifying_key = VerifyingKey.from_public_point(Point.of(secexp), curve)
        return s

    def get_verifying_key(self):
        return self.verifying_key

    def to_string(self):
        return VBytes(nat_bytes(self.privkey.secret_multiplier, 32))


def square_root_mod_prime(a, p):
    if isinstance(a, Cube):
        return core.ite(core.fresh_bool("root"), a.y, P - a.y)
    from ecdsa.numbertheory import square_root_mod_prime as f
    return f(a, p)


SECP256k1.generator = Point.of(1)


def install():
    from .load import FAKES
    m = types.ModuleType("ecdsa")
    m.SECP256k1, m.SigningKey, m.VerifyingKey = SECP256k1, SigningKey, VerifyingKey
    FAKES["ecdsa"] = m
    m = types.ModuleType("ecdsa.ecdsa")
    m.Public_key = Pub
    FAKES["ecdsa.ecdsa"] = m
    m = types.ModuleType("ecdsa.ellipticcurve")
    m.INFINITY, m.Point, m.PointJacobi = INFINITY, Point, Point
    FAKES["ecdsa.ellipticcurve"] = m
    m = types.ModuleType("ecdsa.numbertheory")
    m.square_root_mod_prime = square_root_mod_prime
    FAKES["ecdsa.numbertheory"] = m
