"""Rational functions over GF(q) in atoms, modulo the curve equation of each symbolic point.

Elements are num/den with polynomials in normal form: monomials divisible by x_i^2*y_i^2 are rewritten with
    d*x^2*y^2 = y^2 - x^2 - 1,
so equal normal forms of cross products mean equality on the curve.  A comparison that the normal form does not
decide is a case split (both outcomes are explored), remembered per path."""
from .core import SInt, Undecided, ctx, fresh_bool

Q = 2 ** 255 - 19
D = (-121665 * pow(121666, Q - 2, Q)) % Q
QUART = (Q - 1) // 4

NAMES = []
CURVE = {}        # atom id of x -> atom id of y
CHI = {}        # atom id -> value of atom^((q-1)/4): a fourth root of unity
DINV = pow(D, Q - 2, Q)


HINTS = []        # values whose large powers are taken of an equal monomial


def reset():
    HINTS.clear()
    NAMES.clear()
    CURVE.clear()
    CHI.clear()


def mono_mul(a, b):
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted((v, e) for v, e in d.items() if e))


class Poly:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    @staticmethod
    def const(c):
        c %= Q
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(name):
        NAMES.append(name)
        return Poly({((len(NAMES) - 1, 1),): 1})

    def aid(self):
        ((k, v),) = self.m.items()
        return k[0][0]

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            n = (r.get(k, 0) + v) % Q
            if n:
                r[k] = n
            else:
                r.pop(k, None)
        return Poly(r)

    def __neg__(self):
        return Poly({k: Q - v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for ka, va in self.m.items():
            for kb, vb in o.m.items():
                k = mono_mul(ka, kb)
                r[k] = (r.get(k, 0) + va * vb) % Q
        return Poly({k: v for k, v in r.items() if v}).reduce()

    def reduce(self):
        todo = dict(self.m)
        out = {}
        again = True
        while todo:
            k, v = todo.popitem()
            d = dict(k)
            # exponents of atoms with a known quadratic character
            changed = False
            for x in list(d):
                if x in CHI and d[x] >= QUART:
                    n, r = divmod(d[x], QUART)
                    v = v * pow(CHI[x], n, Q) % Q
                    d[x] = r
                    if not r:
                        del d[x]
                    changed = True
            for x, y in CURVE.items():
                if d.get(x, 0) >= 2 and d.get(y, 0) >= 2:
                    b = dict(d)
                    b[x] -= 2
                    b[y] -= 2
                    for dx, dy, c in ((0, 2, 1), (2, 0, -1), (0, 0, -1)):
                        e = dict(b)
                        e[x] += dx
                        e[y] += dy
                        kk = tuple(sorted((a, n) for a, n in e.items() if n))
                        nv = (todo.get(kk, 0) + v * c * DINV) % Q
                        if nv:
                            todo[kk] = nv
                        else:
                            todo.pop(kk, None)
                    break
            else:
                kk = tuple(sorted((a, n) for a, n in d.items() if n))
                nv = (out.get(kk, 0) + v) % Q
                if nv:
                    out[kk] = nv
                else:
                    out.pop(kk, None)
        return Poly(out)

    def is_zero(self):
        return not self.m

    def is_const(self):
        if not self.m:
            return 0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def key(self):
        """up to a constant factor"""
        if not self.m:
            return frozenset()
        k0 = min(self.m)
        c = pow(self.m[k0], Q - 2, Q)
        return frozenset((k, v * c % Q) for k, v in self.m.items())

    def __pow__(self, e):
        if len(self.m) == 1:
            ((k, v),) = self.m.items()
            return Poly({tuple((a, n * e) for a, n in k) if e else (): pow(v, e, Q)}).reduce()
        if e > 64:
            raise Undecided("large power of a polynomial")
        r = Poly.const(1)
        for _ in range(e):
            r = r * self
        return r


ONE = Poly.const(1)


def decide_zero(p):
    """is the polynomial zero? undecided ones are a case split"""
    if p.is_zero():
        return True
    if p.is_const() is not None:
        return False
    c = ctx()
    k = ("fq", p.key())
    if k in NONZERO:
        return False
    if k not in c.memo:
        c.memo[k] = bool(fresh_bool("zero?%d" % len(c.memo)))
    return c.memo[k]


NONZERO = set()


def nonzero(x):
    """state that a value is not zero (precondition)"""
    NONZERO.add(("fq", Fr.of(x).n.key()))


class Fr:
    """a value of GF(q)"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=ONE):
        self.n, self.d = n, d

    @staticmethod
    def atom(name):
        return Fr(Poly.atom(name))

    @staticmethod
    def of(x):
        if isinstance(x, Fr):
            return x
        if isinstance(x, int):
            return Fr(Poly.const(x))
        raise TypeError("unsupported operand for Fr: %r" % type(x))

    def __add__(self, o):
        o = Fr.of(o)
        if self.d is ONE and o.d is ONE:
            return Fr(self.n + o.n)
        return Fr(self.n * o.d + o.n * self.d, self.d * o.d)

    __radd__ = __add__

    def __neg__(self):
        return Fr(-self.n, self.d)

    def __sub__(self, o):
        return self + (-Fr.of(o))

    def __rsub__(self, o):
        return Fr.of(o) + (-self)

    def __mul__(self, o):
        o = Fr.of(o)
        return Fr(self.n * o.n, ONE if self.d is ONE and o.d is ONE else self.d * o.d)

    __rmul__ = __mul__

    def inverse(self):
        # the code's inverse of zero is zero
        if decide_zero(self.n):
            return Fr(Poly.const(0))
        return Fr(self.d, self.n)

    def __pow__(self, e, m=None):
        if m not in (None, Q):
            raise Undecided("power modulo something else")
        if not isinstance(e, int) or e < 0:
            raise Undecided("power")
        if e == Q - 2 and len(self.n.m) > 1:
            return self.inverse()
        if e > 64:
            for h in HINTS:
                if self.same(h):
                    return Fr(h.n ** e)
        return Fr(self.n ** e, ONE if self.d is ONE else self.d ** e)

    def __vc_pow__(self, e, m):
        return self.__pow__(e, m)

    def __mod__(self, m):
        if m == Q:
            return self
        if m == 2:
            return self.parity()
        raise Undecided("field element modulo %r" % (m,))

    def parity(self):
        raise Undecided("parity of a field element")

    def __and__(self, m):
        if m == 1:
            return self.parity()
        raise Undecided("bits of a field element")

    def __eq__(self, o):
        if not isinstance(o, (Fr, int)):
            return False
        o = Fr.of(o)
        return decide_zero(self.n * o.d - o.n * self.d)

    def __ne__(self, o):
        return not self.__eq__(o)

    def same(self, o):
        """proved equal (no case split)"""
        o = Fr.of(o)
        return (self.n * o.d - o.n * self.d).is_zero()

    def __bool__(self):
        return not self.__eq__(0)

    __hash__ = None

    def __repr__(self):
        return "Fr(%d/%d terms)" % (len(self.n.m), len(self.d.m))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Point:
    """an arbitrary point of the curve in extended coordinates with an arbitrary non-zero Z"""
    def __init__(self, name, z=True):
        x, y = Poly.atom(name + ".x"), Poly.atom(name + ".y")
        CURVE[x.aid()] = y.aid()
        self.x, self.y = Fr(x), Fr(y)
        self.Z = Fr.atom(name + ".Z") if z else Fr(ONE)
        if z:
            nonzero(self.Z)

    def ext(self):
        return self.x * self.Z, self.y * self.Z, self.Z, self.x * self.y * self.Z
