"""Reference values for contracts, usable in every mode.

In algebra mode scalars are alg.Zl, points alg.Pt and hashes uninterpreted; in concrete mode they are residues,
Edwards points and Keccak-256 written here from the definitions, independent of the repository.
"""
from .spec_keccak import keccak256

L = 2 ** 252 + 27742317777372353535851937790883648493
Q = 2 ** 255 - 19
D = (-121665 * pow(121666, Q - 2, Q)) % Q
SQ1 = pow(2, (Q - 1) // 4, Q)
A = 486662
HB = bytes.fromhex("8b655970153799af2aeadc9ff1add0ea6c7251d54154cfa92c173a0dd39c1f94")


def _inv(x):
    return pow(x, Q - 2, Q)


class Sc:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = int(v) % L

    @staticmethod
    def of(x):
        return x if isinstance(x, Sc) else Sc(x)

    def __add__(self, o):
        return Sc(self.v + Sc.of(o).v)

    __radd__ = __add__

    def __sub__(self, o):
        return Sc(self.v - Sc.of(o).v)

    def __rsub__(self, o):
        return Sc(Sc.of(o).v - self.v)

    def __neg__(self):
        return Sc(-self.v)

    def __mul__(self, o):
        if isinstance(o, Ep):
            return o * self
        return Sc(self.v * Sc.of(o).v)

    __rmul__ = __mul__

    def __pow__(self, e):
        return Sc(pow(self.v, e, L))

    def inverse(self):
        return Sc(pow(self.v, L - 2, L))

    def __eq__(self, o):
        return self.v == Sc.of(o).v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "Sc(%d)" % self.v


class Ep:
    """point of the twisted Edwards curve, extended coordinates"""
    __slots__ = ("X", "Y", "Z", "T")

    def __init__(self, x, y, z=1, t=None):
        self.X, self.Y, self.Z = x % Q, y % Q, z % Q
        self.T = x * y % Q if t is None else t % Q

    def __add__(self, o):
        a = (self.Y - self.X) * (o.Y - o.X) % Q
        b = (self.Y + self.X) * (o.Y + o.X) % Q
        c = 2 * D * self.T * o.T % Q
        d = 2 * self.Z * o.Z % Q
        e, f, g, h = b - a, d - c, d + c, b + a
        return Ep(e * f, g * h, f * g, e * h)

    def __neg__(self):
        return Ep(-self.X, self.Y, self.Z, -self.T)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, n):
        n = n.v if isinstance(n, Sc) else int(n)
        if n < 0:
            return (-self) * (-n)
        r, p = Ep(0, 1), self
        while n:
            if n & 1:
                r = r + p
            p = p + p
            n >>= 1
        return r

    __rmul__ = __mul__

    def aff(self):
        i = _inv(self.Z)
        return self.X * i % Q, self.Y * i % Q

    def __eq__(self, o):
        return (self.X * o.Z - o.X * self.Z) % Q == 0 and (self.Y * o.Z - o.Y * self.Z) % Q == 0

    def __hash__(self):
        return hash(self.aff())

    def enc(self):
        x, y = self.aff()
        return (y | ((x & 1) << 255)).to_bytes(32, "little")

    def __repr__(self):
        return "Ep(%s)" % self.enc().hex()


def xrec(y, s):
    xx = (y * y - 1) * _inv(D * y * y + 1) % Q
    x = pow(xx, (Q + 3) // 8, Q)
    if (x * x - xx) % Q:
        x = x * SQ1 % Q
    if (x * x - xx) % Q:
        return None
    if x & 1 != s:
        x = (Q - x) % Q
    return x


def ep_dec(b):
    b = bytes(b)
    if len(b) != 32:
        raise ValueError("not a point: %r" % (b,))
    v = int.from_bytes(b, "little")
    y = (v & (2 ** 255 - 1)) % Q
    x = xrec(y, v >> 255)
    if x is None:
        raise ValueError("not a point: %s" % b.hex())
    return Ep(x, y)


BASE = Ep(xrec(4 * _inv(5) % Q, 0), 4 * _inv(5))
HPT = ep_dec(HB)


def hash_to_ec(buf):
    """8 * the Elligator-like map of Keccak(buf)"""
    return map_to_ec(keccak256(bytes(buf)))


def map_to_ec(h):
    u = int.from_bytes(h, "little") % Q
    w = (2 * u * u + 1) % Q
    x = (w * w - 2 * A * A * u * u) % Q
    if pow(w * x % Q, (Q - 1) // 2, Q) in (0, 1):
        z, s = -2 * A * u * u, 0
    else:
        z, s = -A, 1
    y = (z - w) * _inv((z + w) % Q) % Q
    return Ep(xrec(y, s), y) * 8


class ConcRef:
    alg = False
    L = L
    G, H, O = BASE, HPT, Ep(0, 1)

    def __init__(self, env):
        self.env = env

    def cr(self):
        return self.env.mod("monero_glue.xmr.crypto")

    def sc(self, x):
        """value of a repository scalar, which has to be canonical"""
        if isinstance(x, (bytes, bytearray, memoryview)):
            b = bytes(x)
        else:
            b = bytes(self.cr().encodeint(x))
        v = int.from_bytes(b, "little")
        if len(b) != 32 or v >= L:
            raise ValueError("not a canonical scalar %s" % b.hex())
        return Sc(v)

    def pt(self, P):
        if isinstance(P, (bytes, bytearray, memoryview)):
            return ep_dec(P)
        return ep_dec(bytes(self.cr().encodepoint(P)))

    def S(self, x):
        return Sc(x)

    def dec_sc(self, b):
        return Sc(int.from_bytes(bytes(b), "little"))

    def keccak(self, *parts):
        return keccak256(self.cat(*parts))

    def Hs(self, *parts):
        return self.dec_sc(self.keccak(*parts))

    def Hp(self, *parts):
        return hash_to_ec(self.cat(*parts))

    def cat(self, *parts):
        return b"".join(bytes(p) for p in parts)

    def enc(self, P):
        return P.enc()

    def encs(self, s):
        return Sc.of(s).v.to_bytes(32, "little")

    def le(self, x, n):
        return int(x).to_bytes(n, "little")

    def varint(self, x):
        out = []
        while x >= 0x80:
            out.append((x & 0x7F) | 0x80)
            x >>= 7
        out.append(x)
        return bytes(out)

    def scalar(self, s):
        """repository scalar of a reference value"""
        return self.cr().decodeint(self.encs(s))

    def point(self, P):
        return self.cr().decodepoint(self.enc(P))

    def xor(self, a, b):
        return bytes(x ^ y for x, y in zip(a, b))


class AlgRef:
    alg = True
    L = L

    def __init__(self, env):
        from . import alg, load, vbytes
        self.env, self.a, self.load, self.vb = env, alg, load, vbytes
        self.G, self.H, self.O = alg.G, alg.H, alg.Pt({})

    def cr(self):
        return self.env.mod("monero_glue.xmr.crypto")

    def sc(self, x):
        if isinstance(x, self.a.Zl):
            return x
        if isinstance(x, (bytes, bytearray, self.vb.VBytes, self.vb.VBytearray, self.vb.VMem)):
            return self.a.dec_scalar(x)
        return self.a.dec_scalar(self.cr().encodeint(x))

    def pt(self, P):
        if isinstance(P, self.a.Pt):
            return P
        if isinstance(P, (bytes, bytearray, self.vb.VBytes, self.vb.VBytearray, self.vb.VMem)):
            return self.a.dec_point(P)
        return self.a.dec_point(self.cr().encodepoint(P))

    def S(self, x):
        return self.a.Zl.of(x)

    def dec_sc(self, b):
        return self.a.dec_scalar(b)

    def keccak(self, *parts):
        return self.load.khash(self.vb.to_elems(self.cat(*parts)))

    def Hs(self, *parts):
        return self.dec_sc(self.keccak(*parts))

    def Hp(self, *parts):
        return self.a.hash_point(self.vb.to_elems(self.keccak(*parts)))

    def cat(self, *parts):
        out = []
        for p in parts:
            out += self.vb.to_elems(p)
        return self.vb.VBytes(out)

    def enc(self, P):
        return self.a.enc_point(P)

    def encs(self, s):
        return self.a.enc_scalar(s)

    def le(self, x, n):
        return x.to_bytes(n, "little")

    def varint(self, x):
        out = []
        while x >= 0x80:
            out.append((x & 0x7F) | 0x80)
            x = x >> 7
        out.append(x)
        return self.vb.VBytes(out)

    def scalar(self, s):
        return self.env.mod("monero_glue.xmr.core.ec_py").EdScalar(self.a.Zl.of(s))

    def point(self, P):
        return self.env.mod("monero_glue.xmr.core.ec_py").EdPoint(P)

    def xor(self, a, b):
        return self.vb.VBytes([x ^ y for x, y in zip(self.vb.to_elems(a), self.vb.to_elems(b))])
