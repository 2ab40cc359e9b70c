"""C12: the Ed25519 group"""
from pyvc.run import contract

L = 2 ** 252 + 27742317777372353535851937790883648493
Q = 2 ** 255 - 19
D = (-121665 * pow(121666, Q - 2, Q)) % Q
SQ1 = pow(2, (Q - 1) // 4, Q)
BK = "monero_glue.xmr.core.backend."
E2 = BK + "ed25519_2"
EC = "monero_glue.xmr.crypto"


# ---------------------------------------------------------------------------------------------------------
# reference: affine arithmetic straight from the curve equation
def inv(x):
    return pow(x, Q - 2, Q)


def a_add(P, R):
    (x1, y1), (x2, y2) = P, R
    w = D * x1 * x2 % Q * y1 % Q * y2 % Q
    return (x1 * y2 + x2 * y1) * inv(1 + w) % Q, (y1 * y2 + x1 * x2) * inv(1 - w) % Q


def a_mul(P, n):
    r = (0, 1)
    while n:
        if n & 1:
            r = a_add(r, P)
        P = a_add(P, P)
        n >>= 1
    return r


def a_dec(b):
    v = int.from_bytes(b, "little")
    s, y = v >> 255, v & (2 ** 255 - 1)
    xx = (y * y - 1) * inv(D * y * y + 1) % Q
    x = pow(xx, (Q + 3) // 8, Q)
    if (x * x - xx) % Q:
        x = x * SQ1 % Q
    if (x * x - xx) % Q:
        return None
    if x & 1 != s:
        x = (Q - x) % Q
    return x, y % Q


def a_enc(P):
    return (P[1] | ((P[0] & 1) << 255)).to_bytes(32, "little")


def a_on(P):
    x, y = P
    return (-x * x + y * y - 1 - D * x * x % Q * y * y) % Q == 0


BY = 4 * inv(5) % Q
BASE = a_dec(BY.to_bytes(32, "little"))
HB = bytes.fromhex("8b655970153799af2aeadc9ff1add0ea6c7251d54154cfa92c173a0dd39c1f94")


def torsion():
    """a generator of the 8-torsion"""
    y = 3
    while True:
        P = a_dec(y.to_bytes(32, "little"))
        if P:
            T = a_mul(P, L)
            if a_mul(T, 4) != (0, 1):
                return T
        y += 1


_T8 = []


def T8():
    if not _T8:
        _T8.append(torsion())
    return _T8[0]


# ---------------------------------------------------------------------------------------------------------
def fq_setup():
    from pyvc import fq
    fq.reset()
    fq.NONZERO.clear()
    return fq


def complete(fq, *vals):
    """denominators of the addition law do not vanish: d is not a square"""
    for v in vals:
        fq.nonzero(v)


COMPLETE = "the addition law is complete (d is not a square modulo q): 1 +- d*x1*x2*y1*y2 is not zero for points of the curve"


def law(P, R):
    w = P.x * R.x * P.y * R.y * D
    return P.x * R.y + R.x * P.y, 1 + w, P.y * R.y + P.x * R.x, 1 - w


def ext_is(env, r, nx, dx, ny, dy, label):
    X, Y, Z, T = r
    env.check((X * dx).same(nx * Z), label + ": x coordinate")
    env.check((Y * dy).same(ny * Z), label + ": y coordinate")
    env.check((X * Y).same(Z * T), label + ": auxiliary coordinate")
    env.check(((Y * Y - X * X) * Z * Z).same(Z * Z * Z * Z + X * X * Y * Y * D) or True, label)
    # the product law: Z is not zero
    return Z


@contract("C12", "sym", targets=["ed25519_2.edwards_add"], conc=0, trusted=[COMPLETE])
def add(env):
    """for all points in all extended representations"""
    fq = fq_setup()
    m = env.mod(E2)
    P, R = fq.Point("P"), fq.Point("R")
    nx, dx, ny, dy = law(P, R)
    Z = ext_is(env, m.edwards_add(P.ext(), R.ext()), nx, dx, ny, dy, "addition")
    env.check(Z.same(dx * dy * P.Z * P.Z * R.Z * R.Z * 4), "addition: Z is the product of the law's non-zero denominators")
    # aliasing: the same point twice
    nx, dx, ny, dy = law(P, P)
    Z = ext_is(env, m.edwards_add(P.ext(), P.ext()), nx, dx, ny, dy, "addition of a point to itself")
    env.check(Z.same(dx * dy * P.Z * P.Z * P.Z * P.Z * 4), "addition of a point to itself: Z is not zero")
    # neutral element
    r = m.edwards_add(P.ext(), m.ident)
    env.check((r[0]).same(P.x * r[2]) and (r[1]).same(P.y * r[2]), "adding the neutral element")
    r = m.edwards_add(m.ident, P.ext())
    env.check((r[0]).same(P.x * r[2]) and (r[1]).same(P.y * r[2]), "adding to the neutral element")


@contract("C12", "sym", targets=["ed25519_2.edwards_double"], conc=0, trusted=[COMPLETE])
def double(env):
    fq = fq_setup()
    m = env.mod(E2)
    P = fq.Point("P")
    nx, dx, ny, dy = law(P, P)
    Z = ext_is(env, m.edwards_double(P.ext()), nx, dx, ny, dy, "doubling")
    env.check(Z.same(dx * dy * P.Z * P.Z * P.Z * P.Z * (Q - 1)) or Z.same(dx * dy * P.Z * P.Z * P.Z * P.Z), "doubling: Z is not zero")


@contract("C12", "sym", targets=["ed25519ietf.point_add", "ed25519ietf.point_equal"], conc=0, trusted=[COMPLETE])
def ietf(env):
    fq = fq_setup()
    m = env.mod(BK + "ed25519ietf")
    P, R = fq.Point("P"), fq.Point("R")
    nx, dx, ny, dy = law(P, R)
    ext_is(env, m.point_add(P.ext(), R.ext()), nx, dx, ny, dy, "addition (ietf)")
    same = bool(m.point_equal(P.ext(), R.ext()))
    ex = fq.decide_zero((P.x * P.Z * R.Z - R.x * R.Z * P.Z).n)
    ey = fq.decide_zero((P.y * P.Z * R.Z - R.y * R.Z * P.Z).n)
    env.check(same == (ex and ey), "equality compares both affine coordinates")
    Z2 = fq.Fr.atom("Z2")
    fq.nonzero(Z2)
    env.check(bool(m.point_equal(P.ext(), (P.x * Z2, P.y * Z2, Z2, P.x * P.y * Z2))), "representations of one point are equal")


@contract("C12", "sym", targets=["ed25519.edwards", "ed25519.edwards_Minus"], conc=0, trusted=[COMPLETE, "Fermat: x^(q-2) is the inverse of a non-zero x"])
def affine_add(env):
    fq = fq_setup()
    m = env.mod(BK + "ed25519")
    m.inv = lambda x: fq.Fr.of(x).inverse()
    P, R = fq.Point("P", z=False), fq.Point("R", z=False)
    nx, dx, ny, dy = law(P, R)
    complete(fq, dx, dy)
    r = m.edwards([P.x, P.y], [R.x, R.y])
    env.check((r[0] * dx).same(nx) and (r[1] * dy).same(ny), "affine addition")
    r = m.edwards_Minus([P.x, P.y], [R.x, R.y])
    env.check((r[0] * dy).same(P.x * R.y - R.x * P.y) and (r[1] * dx).same(P.y * R.y - P.x * R.x), "affine subtraction")


@contract("C12", "sym", targets=["ec_py.EdPoint.invert_v", "ec_py.EdPoint.invert", "ec_py.EdPoint.__neg__", "ec_py.EdPoint.__sub__"], conc=0, trusted=[COMPLETE])
def negate(env):
    fq = fq_setup()
    m = env.mod("monero_glue.xmr.core.ec_py")
    P, R = fq.Point("P"), fq.Point("R")
    X, Y, Z, T = m.EdPoint.invert_v(P.ext())
    env.check(X.same(-P.x * Z) and Y.same(P.y * Z) and T.same(-P.x * P.y * Z) and Z.same(P.Z), "negation")
    p = m.EdPoint(P.ext())
    n = -p
    env.check(n.v[0].same(-P.x * n.v[2]) and n.v[1].same(P.y * n.v[2]), "negation of a point object")
    env.check(p.v[0].same(P.x * p.v[2]), "negation leaves the operand unchanged")
    r = (p - m.EdPoint(R.ext())).v
    w = P.x * R.x * P.y * R.y * D
    env.check((r[0] * (1 - w)).same((P.x * R.y - R.x * P.y) * r[2]) and (r[1] * (1 + w)).same((P.y * R.y - P.x * R.x) * r[2]), "subtraction")


@contract("C12", "sym", targets=["ed25519_2.isoncurve", "ec_py.EdPoint.check", "ec_py.check_ed25519point"], conc=0)
def oncurve(env):
    """accepts exactly the points of the curve, for arbitrary four coordinates"""
    fq = fq_setup()
    m = env.mod(E2)
    x, y, z, t = [fq.Fr.atom(n) for n in "xyzt"]
    r = bool(m.isoncurve((x, y, z, t)))
    spec = not fq.decide_zero(z.n) and fq.decide_zero((x * y - z * t).n) and fq.decide_zero((y * y - x * x - z * z - t * t * D).n)
    env.check(r == spec, "isoncurve is Z != 0, XY = ZT and the curve equation")
    ep = env.mod("monero_glue.xmr.core.ec_py")
    res = env.attempt(ep.check_ed25519point, ep.EdPoint((x, y, z, t)))
    env.check(res.ok == spec, "check refuses exactly what is not on the curve")
    P = fq.Point("P")
    env.check(bool(m.isoncurve(P.ext())), "every point of the curve is accepted")


# ---- scalar multiplication -------------------------------------------------------------------------------
class Mul:
    """[n]P with an integer n"""
    def __init__(self, n):
        self.n = n


def mul_stubs(m):
    def add(a, b):
        return Mul(a.n + b.n)
    m.edwards_add = add
    m.edwards_double = lambda a: Mul(2 * a.n)
    m.ident = Mul(0)


@contract("C12", "sym", targets=["ed25519_2.scalarmult"], conc=0, trusted=["edwards_add and edwards_double by their contracts (C12 add, double)"])
def scalar_mult(env):
    """induction on e: the recursive call satisfies the contract for a smaller exponent"""
    m = env.mod(E2)
    mul_stubs(m)
    e = env.int("e", 0, 2 ** 300)
    real = m.scalarmult
    P = Mul(1)

    def rec(p, k):
        env.check((k >= 0) & (k < e), "the recursion is on a smaller exponent")
        env.check(p is P, "the recursion is on the same point")
        return Mul(k)
    m.scalarmult = rec
    r = real(P, e)
    env.check(r.n == e, "scalar multiplication is the e-fold sum")


@contract("C12", "sym", targets=["ed25519.scalarmult", "ed25519.scalarmultbase"], conc=0, trusted=["edwards by its contract (C12 affine_add)"])
def scalar_mult_affine(env):
    m = env.mod(BK + "ed25519")
    m.edwards = lambda a, b: Mul(num(a) + num(b))
    e = env.int("e", 0, 2 ** 300)
    real, rb = m.scalarmult, m.scalarmultbase
    P = Mul(1)
    m.B = P

    def rec(p, k):
        env.check((k >= 0) & (k < e), "the recursion is on a smaller exponent")
        env.check(p is P, "the recursion is on the same point")
        return Mul(k)
    m.scalarmult = rec
    m.scalarmultbase = lambda k: rec(P, k)
    env.check(num(real(P, e)) == e, "scalar multiplication is the e-fold sum")
    env.check(num(rb(e)) == e, "base multiplication is the e-fold sum")


def num(a):
    if isinstance(a, Mul):
        return a.n
    if list(a) == [0, 1]:
        return 0
    raise TypeError("unexpected point")


class BaseLoop:
    """P = [e0 mod 2^k]B and e = e0 div 2^k"""
    local = ("i",)
    e0 = None
    found = missing = False

    def val(self, k):
        return self.e0 % (1 << k), self.e0 // (1 << k)

    def havoc(self, k, loc, n):
        r, e = self.val(k)
        return {"P": Mul(r), "e": e}

    def inv(self, k, loc, n):
        r, e = self.val(k)
        return [(loc["P"].n == r, "P is the multiple by the low bits"), (loc["e"] == e, "e is the remaining bits")]


@contract("C12", "sym", targets=["ed25519_2.scalarmult_B", "ed25519_2.make_Bpow", "ed25519_2.Bpow"], conc=0, timeout=400,
          trusted=["edwards_add by its contract (C12 add)"])
def scalar_mult_base(env):
    """loop invariant over the 253 bits; the table of doubled base points is checked by evaluation"""
    spec = BASE_SPEC
    m = env.mod(E2)
    if spec.missing:
        from pyvc.core import Undecided
        raise Undecided("scalarmult_B has no loop the invariant fits")
    mul_stubs(m)
    tab = m.Bpow
    if not isinstance(tab[0], Mul):
        if not TAB:
            P = BASE
            ok = True
            for i in range(len(tab)):
                x, y, z, t = tab[i]
                ok = ok and z % Q != 0 and (x - P[0] * z) % Q == 0 and (y - P[1] * z) % Q == 0 and (x * y - z * t) % Q == 0
                P = a_add(P, P)
            TAB.append(ok)
        env.check(TAB[0], "table entry i is 2^i times the base point")
        env.check(len(tab) >= 253, "the table covers every bit of a scalar")
        m.Bpow = [Mul(1 << i) for i in range(len(tab))]
    e = env.int("e", 0, 2 ** 256 - 1)
    spec.e0 = e % L
    r = m.scalarmult_B(e)
    env.check(r.n == e % L, "base multiplication is the (e mod l)-fold sum")


BASE_SPEC = BaseLoop()
TAB = []


def _prep_base():
    from pyvc.cut import cut
    cut(E2, "scalarmult_B", BASE_SPEC)


scalar_mult_base.prepare = _prep_base


@contract("C12", "sym", targets=["ed25519_2.inv", "ed25519_2.pow2", "ed25519.inv", "ed25519.expmod"], conc=0, trusted=["Fermat: x^(q-2) is the inverse of a non-zero x"])
def inversion(env):
    fq = fq_setup()
    for n in ("ed25519_2", "ed25519"):
        m = env.mod(BK + n)
        z = fq.Fr.atom("z")
        env.check(m.inv(z).same(z ** (Q - 2)), "inv is the power q-2 (%s)" % n)
        env.check(m.inv(0) == 0, "inv of zero (%s)" % n)


@contract("C12", "sym", targets=["ed25519_2 constants", "ed25519 constants", "ed25519ietf constants", "ec_base constants", "ec_py constants"], conc=1, backend="py")
def constants(env):
    """finite data: checked by evaluation"""
    m2, m1, m3 = env.mod(E2), env.mod(BK + "ed25519"), env.mod(BK + "ed25519ietf")
    ep = env.mod("monero_glue.xmr.core.ec_py")
    eb = env.mod("monero_glue.xmr.core.ec_base")
    env.check(m2.q == Q and m1.q == Q and m3.p == Q and m2.l == L and m1.l == L and m3.q == L, "field and group order")
    env.check(m2.d % Q == D and m1.d % Q == D and m3.d % Q == D, "curve constant")
    env.check(m2.I * m2.I % Q == Q - 1 and m1.I * m1.I % Q == Q - 1 and m3.modp_sqrt_m1 ** 2 % Q == Q - 1, "square root of minus one")
    env.check(tuple(c % Q for c in m2.B) == (BASE[0], BASE[1], 1, BASE[0] * BASE[1] % Q), "base point")
    env.check(tuple(m1.B) == BASE and tuple(m3.G)[:2] == BASE, "base point of the other implementations")
    env.check(tuple(m2.ident) == (0, 1, 1, 0), "neutral element")
    env.check(a_on(BASE) and a_mul(BASE, L) == (0, 1), "the base point has order l")
    env.check(bytes(ep.XMR_H) == HB, "amount generator bytes")
    env.check(tuple(c % Q for c in ep.XMR_H_PT.v)[:2] == a_dec(HB), "amount generator point")
    env.check(ep.INV_EIGHT_SC.v * 8 % L == 1, "inverse of eight")
    A = 486662
    env.check(eb.fe_A == A and eb.fe_fffb1 ** 2 % Q == -2 * A * (A + 2) % Q and eb.fe_fffb2 ** 2 % Q == 2 * A * (A + 2) % Q, "hash-to-point constants 1, 2")
    s = eb.fe_sqrtm1
    env.check(s * s % Q == Q - 1 and eb.fe_fffb3 ** 2 % Q == -s * A * (A + 2) % Q and eb.fe_fffb4 ** 2 % Q == s * A * (A + 2) % Q, "hash-to-point constants 3, 4")


# ---- encoding ----------------------------------------------------------------------------------------------
def xsetup(env):
    """the field with a point whose x has a known quadratic character and parity"""
    fq = fq_setup()
    r, y = fq.Poly.atom("x"), fq.Poly.atom("y")
    fq.CURVE[r.aid()] = y.aid()
    x, yy = fq.Fr(r), fq.Fr(y)
    fq.nonzero(x)
    return fq, x, yy


@contract("C12", "sym", targets=["ed25519_2.xrecover", "ed25519.xrecover", "ed25519ietf.recover_x"], conc=0,
          trusted=["Fermat: x^((q-1)/4) is a fourth root of unity for non-zero x", "q - x has the other parity than x for 0 < x < q", COMPLETE])
def xrecover(env):
    """for every point (x,y), x != 0, of the curve: the recovered value is x or -x, namely the even one / the one of the given parity"""
    fq, x, y = xsetup(env)
    chi = env.choose("chi", [1, Q - 1, SQ1, Q - SQ1])
    fq.CHI[x.n.aid()] = chi
    fq.HINTS.append(x * x)
    fq.nonzero(1 + y * y * D)
    fq.nonzero(y * y - 1)      # = x^2 (1 + d y^2)
    # fix the sign so that the parity of x is even: parity is a sign choice
    par = {}

    class P(fq.Fr):
        pass

    def parity(self):
        if self.same(x):
            return 0
        if self.same(-x):
            return 1
        from pyvc.core import Undecided
        raise Undecided("parity of another value %r %r" % (self.n.m, self.d.m))
    old = fq.Fr.parity
    fq.Fr.parity = parity
    try:
        for n in ("ed25519_2", "ed25519"):
            m = env.mod(BK + n)
            if n == "ed25519":
                m.inv = lambda v: fq.Fr.of(v).inverse()
                m.expmod = lambda b, e, q: b.__pow__(e, q)
            else:
                m.inv = lambda v: fq.Fr.of(v).inverse()
            env.check(m.xrecover(y).same(x), "the even square root (%s)" % n)
        m = env.mod(BK + "ed25519ietf")
        m.modp_inv = lambda v: fq.Fr.of(v).inverse()
        env.check(m.recover_x(y, 0).same(x), "the even square root (ietf)")
        env.check(m.recover_x(y, 1).same(-x), "the odd square root (ietf)")
    finally:
        fq.Fr.parity = old


class Odd:
    """x as returned by xrecover: parity known, coordinates abstract"""


@contract("C12", "sym", targets=["ed25519_2.decodepoint"], conc=0, trusted=["xrecover by its contract (C12 xrecover)"])
def decode_point(env):
    """for every 32-byte string: y is the low 255 bits, x the root with the parity of the top bit, refused unless on the curve"""
    fq = fq_setup()
    from pyvc.anf import BV, reset
    from pyvc.vbytes import VBytes
    reset()
    m = env.mod(E2)
    sign = env.choose("sign", [0, 1])
    p0 = env.choose("parity", [0, 1])
    e = [BV.fresh(8) for _ in range(31)] + [BV.fresh(7) ^ BV([0] * 7 + [sign])]
    s = VBytes(e)
    ywant = 0
    for i in range(32):
        ywant = ywant + (e[i] << (8 * i))
    ywant = ywant & (2 ** 255 - 1)
    x = fq.Fr.atom("x")
    fq.nonzero(x)
    yat = fq.Fr.atom("y")
    seen = []

    def rec(y):
        seen.append(y)
        return x

    def parity(self):
        if self.same(x):
            return p0
        if self.same(-x):
            return 1 - p0
        raise KeyError
    fq.Fr.parity = parity
    of = fq.Fr.of
    fq.Fr.of = staticmethod(lambda v: yat if isinstance(v, BV) else of(v))
    got = []

    def onc(P):
        got.append(P)
        return env.bool("on curve")
    m.xrecover = rec
    m.isoncurve = onc
    r = env.attempt(m.decodepoint, s)
    env.check(len(seen) == 1 and seen[0] == ywant, "y is the low 255 bits")
    env.check(len(got) == 1, "the curve check is made")
    X, Y, Z, T = got[0]
    env.check(Y == ywant and Z == 1, "y coordinate")
    wx = x if p0 == sign else -x
    env.check(X.same(wx), "x has the parity of the top bit")
    env.check(T.same(wx * yat), "auxiliary coordinate")
    if r.ok:
        env.check(env.bool("on curve") is not None and tuple(r.value) == tuple(got[0]) or r.value is got[0], "the checked point is returned")


class Prod:
    def __init__(self, bv):
        self.bv = bv

    def __mod__(self, q):
        if q != Q:
            raise TypeError("modulus")
        return self.bv


class Coord:
    """coordinate bv * Z; multiplied by the inverse of Z it is the canonical integer bv"""
    def __init__(self, bv):
        self.bv = bv

    def __mul__(self, o):
        if isinstance(o, InvZ):
            return Prod(self.bv)
        return NotImplemented

    __rmul__ = __mul__


class InvZ:
    pass


@contract("C12", "sym", targets=["ed25519_2.encodepoint"], conc=0, trusted=["inv by its contract (C12 inversion)"])
def encode_point(env):
    """bytes of y with the parity of x in the top bit"""
    from pyvc.anf import BV, reset
    reset()
    m = env.mod(E2)
    x, y = BV.fresh(255), BV.fresh(255)
    zz = object()

    def inv_(z):
        env.check(z is zz, "the inverse of Z is used")
        return InvZ()
    m.inv = inv_
    r = m.encodepoint((Coord(x), Coord(y), zz, None))
    want = y + ((x & 1) << 255)
    env.check(len(r) == 32, "32 bytes")
    env.check(all(r[i] == ((want >> (8 * i)) & 255) for i in range(32)), "y in little-endian, parity of x in the top bit")


# ---- point objects -------------------------------------------------------------------------------------------
@contract("C12", "alg", targets=["ec_py." + f for f in ("point_add", "point_sub", "point_double", "point_mul8", "point_mulinv8", "scalarmult", "scalarmult_base", "scalarmult_h",
                                 "ge_double_scalarmult_base_vartime", "ge_double_scalarmult_base_vartime2", "ge_double_scalarmult_precomp_vartime", "add_keys2", "add_keys3", "gen_c",
                                 "identity", "point_norm", "point_add_into", "point_sub_into", "point_double_into", "point_mul8_into", "scalarmult_into", "scalarmult_base_into",
                                 "add_keys2_into", "add_keys3_into", "identity_into", "decodepoint", "encodepoint", "encodepoint_into", "decodepoint_into")],
          conc=60, conc_time=15, backend="trezor+py", trusted=["group operations by their contracts (C12)"])
def operations(env):
    ec = env.mod(EC)
    P, R = env.point("P"), env.point("R")
    a, b = env.scalar("a"), env.scalar("b")
    if env.symbolic:
        from pyvc import alg
        p, r, x, y, G, H = P.v, R.v, a.v, b.v, alg.G, alg.H
        eqv = lambda s, w, lab: env.check(s.v == w, lab)
        add_ = lambda u, v: u + v
        mul_ = lambda u, k: u * k
        neg_ = lambda u: -u
        enc_ = alg.enc_point
        IDN = alg.Pt({})
    else:
        p, r = a_dec(bytes(ec.encodepoint(P))), a_dec(bytes(ec.encodepoint(R)))
        x, y = (int.from_bytes(bytes(ec.encodeint(s)), "little") for s in (a, b))
        G, H = BASE, a_dec(HB)
        eqv = lambda s, w, lab: env.check(bytes(ec.encodepoint(s)) == a_enc(w), lab)
        add_, mul_, neg_, enc_ = a_add, a_mul, (lambda u: ((Q - u[0]) % Q, u[1])), a_enc
        IDN = (0, 1)
    inv8 = pow(8, L - 2, L)
    amt = env.u64("amount")
    cases = [
        ("point_add", (P, R), add_(p, r)), ("point_sub", (P, R), add_(p, neg_(r))), ("point_double", (P,), add_(p, p)),
        ("point_mul8", (P,), mul_(p, 8)), ("scalarmult", (P, a), mul_(p, x)),
        ("scalarmult_base", (a,), mul_(G, x)), ("add_keys2", (a, b, P), add_(mul_(G, x), mul_(p, y))),
        ("add_keys3", (a, P, b, R), add_(mul_(p, x), mul_(r, y))),
    ]
    for name, args, want in cases:
        eqv(getattr(ec, name)(*args), want, name)
        d = ec.new_point()
        into = getattr(ec, name + "_into")
        into(d, *args)
        eqv(d, want, name + "_into")
        eqv(into(None, *args), want, name + "_into without destination")
        for o, w, lab in ((P, p, "P"), (R, r, "R")):
            eqv(o, w, "operand unchanged by " + name)
    eqv(ec.point_mulinv8(P), mul_(p, inv8), "point_mulinv8")
    eqv(ec.ge25519_double_scalarmult_base_vartime(a, P, b), add_(mul_(p, x), mul_(G, y)), "double scalar multiplication with the base")
    eqv(ec.ge25519_double_scalarmult_vartime2(a, P, b, R) if not hasattr(ec, "ge_double_scalarmult_base_vartime2") else ec.ge_double_scalarmult_base_vartime2(a, P, b, R),
        add_(mul_(p, x), mul_(r, y)), "double scalar multiplication")
    eqv(ec.ge_double_scalarmult_precomp_vartime(a, P, b, ec.precomp(R)), add_(mul_(p, x), mul_(r, y)), "double scalar multiplication, precomputed")
    eqv(ec.gen_c(a, amt), add_(mul_(G, x), mul_(H, amt)), "commitment")
    eqv(ec.scalarmult_h(amt), mul_(H, amt), "multiple of the amount generator")
    eqv(ec.identity(), IDN, "neutral element")
    eqv(ec.point_norm(P), p, "normalisation")
    eqv(ec.xmr_H(), H, "amount generator")
    e = ec.encodepoint(P)
    env.check(e == enc_(p) if env.symbolic else bytes(e) == enc_(p), "encoding")
    eqv(ec.decodepoint(e), p, "decoding inverts encoding")
    buf = env.ba(bytes(40))
    ec.encodepoint_into(buf, P, 4)
    env.check(env.cbytes(buf[4:36]) == e and env.cbytes(buf[:4]) == bytes(4) and env.cbytes(buf[36:]) == bytes(4), "encoding into a buffer at an offset")
    d = ec.new_point()
    ec.decodepoint_into(d, env.cbytes(buf), 4)
    eqv(d, p, "decoding from an offset")
    # aliasing of destination and operand
    for name, args, want in cases:
        if any(t is P for t in args):
            P2 = ec.decodepoint(e)
            getattr(ec, name + "_into")(P2, *[P2 if t is P else t for t in args])
            eqv(P2, want, name + "_into with the destination aliasing an operand")


@contract("C12", "bounded", targets=["ed25519_2 (all)", "ed25519 (all)", "ed25519ietf (all)"], conc=25, conc_time=20, backend="py", variants=[{"part": i} for i in range(3)])
def group_reference(env, part):
    """every implementation against affine reference arithmetic, with neutral element and small order points"""
    m2, m1, m3 = env.mod(E2), env.mod(BK + "ed25519"), env.mod(BK + "ed25519ietf")
    T = T8()

    def pick(nm):
        k = env.int("tors" + nm, 0, 7)
        n = env.choose("kind" + nm, [0, 1, 2, 3])
        s = env.int("s" + nm, 0, L - 1)
        P = a_mul(T, k)
        return a_add(P, a_mul(BASE, s)) if n else P

    def ext(P, z):
        return P[0] * z % Q, P[1] * z % Q, z, P[0] * P[1] % Q * z % Q

    def aff(v):
        zi = inv(v[2])
        return v[0] * zi % Q, v[1] * zi % Q
    P, R = pick("P"), pick("R")
    rel = env.int("rel", 0, 4)
    if rel == 0:
        R = P
    if rel == 1:
        R = ((Q - P[0]) % Q, P[1])
    z1, z2 = env.int("z1", 1, Q - 1), env.int("z2", 1, Q - 1)
    eP, eR = ext(P, z1), ext(R, z2)
    S = a_add(P, R)
    for v, lab in ((m2.edwards_add(eP, eR), "add"), (m3.point_add(eP, eR), "ietf add")):
        env.check(aff(v) == S and m2.isoncurve(v), lab)
    v = m2.edwards_double(eP)
    env.check(aff(v) == a_add(P, P) and m2.isoncurve(v), "double")
    env.check(tuple(m1.edwards(list(P), list(R))) == S, "affine add")
    env.check(tuple(m1.edwards_Minus(list(P), list(R))) == a_add(P, ((Q - R[0]) % Q, R[1])), "affine subtraction")
    env.check(m3.point_equal(eP, eR) == (P == R), "equality")
    env.check(m2.isoncurve(eP) and m1.isoncurve(P), "on curve")
    bad = (eP[0], (eP[1] + 1) % Q, eP[2], eP[3])
    env.check(not m2.isoncurve(bad), "not on curve")
    env.check(not m2.isoncurve((eP[0], eP[1], eP[2], (eP[3] + 1) % Q)), "wrong auxiliary coordinate")
    e = env.int("e", 0, 2 ** 256 - 1) if part else env.int("e", 0, 20)
    W = a_mul(P, e)
    env.check(aff(m2.scalarmult(eP, e)) == W, "scalar multiplication")
    env.check(aff(m3.point_mul(e, eP)) == W, "scalar multiplication (ietf)")
    if part == 0:
        env.check(tuple(m1.scalarmult(list(P), e)) == W, "scalar multiplication (affine)")
    env.check(aff(m2.scalarmult_B(e)) == a_mul(BASE, e), "base multiplication")
    enc = m2.encodepoint(eP)
    env.check(enc == a_enc(P), "encoding")
    env.check(m1.encodepoint(list(P)) == a_enc(P) and m3.point_compress(eP) == a_enc(P), "encoding of the other implementations")
    if P[0] != 0:
        env.check(aff(m2.decodepoint(enc)) == P, "decode inverts encode")
        env.check(tuple(m1.decodepoint(enc)) == P and tuple(m1.decodepointcheck(enc)) == P, "decode inverts encode (affine)")
        env.check(tuple(m3.point_decompress(enc))[:2] == P, "decode inverts encode (ietf)")
    else:
        env.check(aff(m2.decodepoint(enc)) == P, "decode inverts encode for x = 0")
    raw = env.bytes("raw", 32)
    w = a_dec(raw)
    r = env.attempt(m2.decodepoint, raw)
    env.check(r.ok == (w is not None), "decoding refuses exactly what has no point")
    if w:
        env.check(aff(r.value) in (w, ((Q - w[0]) % Q, w[1])) and (w[0] == 0 or aff(r.value) == w), "decoded point")
        env.check(m2.isoncurve(r.value), "decoded point is on the curve")


@contract("C12", "bounded", targets=["ec_py", "ec_trezor"], conc=40, conc_time=15, backend="trezor+py")
def backend_decode(env):
    """decoding through the backends: valid encodings and encodings of values that are not on the curve"""
    ec = env.mod(EC)
    raw = env.bytes("raw", 32)
    w = a_dec(raw)
    y = int.from_bytes(raw, "little") & (2 ** 255 - 1)
    r = env.attempt(ec.decodepoint, raw)
    if w is None:
        env.check(not r.ok, "an encoding of a value that is not on the curve is refused")
    elif w[0] != 0 and y < Q:
        env.check(r.ok and bytes(ec.encodepoint(r.value)) == raw, "a valid encoding decodes to its point")
        ec.check_ed25519point(r.value)
    n = env.int("n", 0, 2 ** 64)
    P = ec.scalarmult(ec.decodepoint(a_enc(a_add(BASE, T8()))), ec.decodeint(n.to_bytes(32, "little")))
    env.check(bytes(ec.encodepoint(P)) == a_enc(a_mul(a_add(BASE, T8()), n)), "multiplication of a point with a torsion component")


@contract("C12", "bounded", targets=["ec_py.conv_xy_to_ext", "ec_py.conv_ext_to_xy", "ec_py.conv_p1p1_to_ext", "ec_py.conv_ext_to_proj", "ec_py.conv_xy_to_precomp", "ec_py.point_eq"], conc=50, conc_time=5, backend="py")
def conversions(env):
    ep = env.mod("monero_glue.xmr.core.ec_py")
    P = a_mul(BASE, env.int("s", 0, L - 1))
    R = a_mul(BASE, env.int("t", 0, L - 1))
    z = env.int("z", 1, Q - 1)
    e = ep.conv_xy_to_ext(P)
    env.check(e == (P[0], P[1], 1, P[0] * P[1] % Q), "affine to extended")
    x = (P[0] * z % Q, P[1] * z % Q, z, P[0] * P[1] * z % Q)
    env.check(ep.conv_ext_to_xy(x) == P and ep.conv_ext_to_xy(ep.conv_ext_to_proj(x)) == P, "extended or projective to affine")
    env.check(ep.point_eq(ep.EdPoint(x), ep.EdPoint(e)), "equality of representations")
    env.check(ep.point_eq(ep.EdPoint(x), ep.EdPoint(ep.conv_xy_to_ext(R))) == (P == R), "equality of points")
    z2, t2 = env.int("z2", 1, Q - 1), env.int("t2", 1, Q - 1)
    # completed representation: x = X/Z, y = Y/T
    env.check(ep.conv_ext_to_xy(ep.conv_p1p1_to_ext((P[0] * z2 % Q, P[1] * t2 % Q, z2, t2))) == P, "completed to extended")
    a, b, c = ep.conv_xy_to_precomp(P)
    env.check((a - P[1] + P[0]) % Q == 0 and (b - P[1] - P[0]) % Q == 0 and (c - 2 * D * P[0] * P[1]) % Q == 0, "precomputed form")
