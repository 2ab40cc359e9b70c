"""C13: scalar arithmetic modulo the group order"""
from pyvc.run import contract

L = 2 ** 252 + 27742317777372353535851937790883648493
Q = 2 ** 255 - 19
EC = "monero_glue.xmr.crypto"


def val(env, s):
    """integer value of a scalar object"""
    if env.symbolic:
        return s.v
    ec = env.mod(EC)
    return int.from_bytes(bytes(ec.encodeint(s)), "little")


def mk(env, name, lo=0):
    """a scalar object with an arbitrary canonical value, and that value"""
    ec = env.mod(EC)
    if env.symbolic:
        v = env.int(name, lo, L - 1)
        s = ec.new_scalar()
        s.v = v
        return s, v
    v = env.int(name, lo, L - 1)
    return ec.decodeint(v.to_bytes(32, "little")), v


def expect(env, s, v, label):
    r = val(env, s)
    env.check(r == v % L, label)
    env.check((r >= 0) & (r < L), label + ": canonical")


OPS = ["sc_add", "sc_sub", "sc_mul", "sc_mulsub", "sc_muladd"]


def apply_op(ec, op, into, a, b, c):
    ar = [a, b] + ([c] if op in ("sc_mulsub", "sc_muladd") else [])
    return getattr(ec, op + "_into")(into, *ar) if into is not False else getattr(ec, op)(*ar)


def spec_op(op, a, b, c):
    return {"sc_add": lambda: a + b, "sc_sub": lambda: a - b, "sc_mul": lambda: a * b, "sc_mulsub": lambda: c - a * b,
            "sc_muladd": lambda: c + a * b}[op]()


@contract("C13", "sym", targets=["ec_py.%s%s" % (o, s) for o in OPS for s in ("", "_into")] + ["ec_py.EdScalar.__add__", "ec_py.EdScalar.__sub__", "ec_py.EdScalar.__mul__", "ec_py.EdScalar.init"],
          variants=[{"op": o} for o in OPS], conc=300, conc_time=8, backend="trezor+py")
def arithmetic(env, op):
    ec = env.mod(EC)
    (a, av), (b, bv), (c, cv) = mk(env, "a"), mk(env, "b"), mk(env, "c")
    want = spec_op(op, av, bv, cv)
    expect(env, apply_op(ec, op, False, a, b, c), want, "result is the residue")
    env.check(val(env, a) == av, "first operand unchanged")
    env.check(val(env, b) == bv, "second operand unchanged")
    env.check(val(env, c) == cv, "third operand unchanged")
    r = ec.new_scalar()
    x = apply_op(ec, op, r, a, b, c)
    expect(env, r, want, "in-place variant writes the residue")
    expect(env, x, want, "in-place variant returns the residue")
    expect(env, apply_op(ec, op, None, a, b, c), want, "in-place variant without destination")
    for k in range(3 if op in ("sc_mulsub", "sc_muladd") else 2):
        ops = [mk2(env, x) for x in (av, bv, cv)]
        apply_op(ec, op, ops[k], *ops)
        expect(env, ops[k], want, "destination aliasing operand %d" % k)
        for j in range(3):
            if j != k:
                env.check(val(env, ops[j]) == (av, bv, cv)[j], "other operands unchanged under aliasing")


def mk2(env, v):
    ec = env.mod(EC)
    if env.symbolic:
        s = ec.new_scalar()
        s.v = v
        return s
    return ec.decodeint(v.to_bytes(32, "little"))


@contract("C13", "sym", targets=["ec_py.EdScalar.__neg__", "ec_py.sc_eq", "ec_py.sc_isnonzero", "ec_py.sc_check", "ec_py.check_sc", "ec_py.sc_copy", "ec_py.sc_0", "ec_py.sc_init", "ec_py.sc_get64",
                                 "ec_py.sc_init_into", "ec_py.sc_0_into"], conc=300, conc_time=8, backend="trezor+py")
def predicates(env):
    ec = env.mod(EC)
    (a, av), (b, bv) = mk(env, "a"), mk(env, "b")
    if env.bool("same"):
        b, bv = mk2(env, av), av
    env.check(iff(env, ec.sc_eq(a, b), av == bv), "sc_eq is equality of values")
    env.check(iff(env, ec.sc_isnonzero(a), av != 0), "sc_isnonzero")
    r = env.attempt(ec.check_sc, a)
    env.check(iff(env, r.ok, av != 0), "check_sc accepts exactly non-zero canonical scalars")
    env.check(iff(env, ec.sc_check(a) == 0, av != 0), "sc_check accepts exactly non-zero canonical scalars")
    expect(env, ec.sc_0(), 0, "zero")
    d = mk2(env, av)
    ec.sc_0_into(d)
    expect(env, d, 0, "zero in place")
    e = ec.new_scalar()
    ec.sc_copy(e, a)
    expect(env, e, av, "copy")
    ec.sc_add_into(e, e, b)
    env.check(val(env, a) == av, "a copy does not alias the original")
    u = env.u64("u")
    i = ec.sc_init(u)
    expect(env, i, u, "initialisation from a 64-bit integer")
    env.check(ec.sc_get64(i) == u, "sc_get64 inverts sc_init")
    f = mk2(env, av)
    ec.sc_init_into(f, u)
    expect(env, f, u, "initialisation in place")
    big = env.int("big", 2 ** 64, 2 ** 70)
    env.refuses("initialisation refuses more than 64 bits", ec.sc_init, big)


def iff(env, a, b):
    if isinstance(a, int) and not isinstance(a, bool):
        a = bool(a)
    return bool(a) == bool(b)


@contract("C13", "sym", targets=["ec_py.EdScalar.__neg__"], conc=0)
def negation(env):
    (a, av) = mk(env, "a")
    n = -a
    env.check((n.v + av) % L == 0, "negation")
    env.check((n.v >= 0) & (n.v < L), "negation: canonical")


@contract("C13", "alg", targets=["ec_py.sc_inv", "ec_py.sc_inv_into", "ec_py.EdScalar.modinv", "ec_py.sc_inv_eight"], conc=100, conc_time=5, backend="trezor+py",
          trusted=["Fermat: x^(l-2) is the inverse of a non-zero x modulo the prime l"])
def inverse(env):
    ec = env.mod(EC)
    a = env.scalar("a")
    b = env.copy(a) if env.symbolic else ec.decodeint(ec.encodeint(a))
    one = ec.sc_init(1)
    i = ec.sc_inv(a)
    env.check(ec.sc_eq(ec.sc_mul(a, i), one), "inverse times value is one")
    env.check(ec.sc_eq(a, b), "the operand is unchanged")
    r = ec.new_scalar()
    ec.sc_inv_into(r, a)
    env.check(ec.sc_eq(r, i), "in-place variant")
    env.check(ec.sc_eq(a, b), "the operand is unchanged by the in-place variant")
    ec.sc_inv_into(b, b)
    env.check(ec.sc_eq(b, i), "in-place variant with aliasing")
    env.check(ec.sc_eq(ec.sc_mul(ec.sc_inv_eight(), ec.sc_init(8)), one), "the stored inverse of eight")


@contract("C13", "sym", targets=["ed25519.encodeint", "ed25519_2.encodeint", "ec_py.encodeint", "ec_py.encodeint_into", "ec_py.decodeint", "ec_py.decodeint_into"],
          conc=300, conc_time=8, backend="trezor+py", timeout=500, solver_ms=200000)
def encoding(env):
    """the 32 bytes of every canonical value"""
    ec = env.mod(EC)
    if env.symbolic:
        v = env.bv("v", 253, L - 1)
        s = ec.new_scalar()
        s.v = v
    else:
        v = env.int("v", 0, L - 1)
        s = mk2(env, v)
    e = ec.encodeint(s)
    env.check(len(e) == 32, "32 bytes")
    env.check(env.all([e[i] == ((v >> (8 * i)) & 0xFF) for i in range(32)]), "little-endian bytes of the value")
    b = env.ba(bytes(36))
    ec.encodeint_into(b, s, 3)
    env.check(env.cbytes(b[3:35]) == e, "in-place encoding at an offset")
    env.check(env.cbytes(b[:3]) == bytes(3) and env.cbytes(b[35:]) == b"\0", "in-place encoding writes nothing else")


@contract("C13", "sym", targets=["ed25519.decodeint", "ed25519_2.decodeint"], conc=50, conc_time=8, backend="py")
def decoding_bits(env):
    """the unreduced little-endian integer of every 32-byte string"""
    if env.symbolic:
        from pyvc.anf import BV, reset
        from pyvc.vbytes import VBytes
        reset()
        e = [BV.fresh(8) for _ in range(32)]
        d = VBytes(e)
        v = 0
        for i in range(32):
            v = v + (e[i] << (8 * i))
    else:
        d = env.bytes("d", 32)
        v = int.from_bytes(d, "little")
    for name in ("ed25519", "ed25519_2"):
        m = env.mod("monero_glue.xmr.core.backend." + name)
        env.check(m.decodeint(d) == v, "little-endian value of the bytes (%s)" % name)


@contract("C13", "sym", targets=["ec_py.EdScalar.init", "ec_py.decodeint", "ec_py.decodeint_into", "ec_py.decodeint_into_noreduce", "ec_py._offset"], conc=300, conc_time=8,
          backend="trezor+py", trusted=["ed25519.decodeint by its contract (C13 decoding_bits)"])
def decoding(env):
    """every 32-byte string decodes to its value modulo the order"""
    ec = env.mod(EC)
    if env.symbolic:
        ep = env.mod("monero_glue.xmr.core.ec_py")
        v = env.int("raw", 0, 2 ** 256 - 1)
        d = env.bytes("d", 32)
        pre = 0
        args = []

        def stub(x):
            args.append(x)
            return v
        ep._decodeint = stub
        buf = env.bytes("x", 3) + d + env.bytes("y", 2)
        s = ec.decodeint(buf, 3)
        s1 = ec.decodeint(d)
        r = ec.new_scalar()
        ec.decodeint_into(r, d)
        r2 = ec.decodeint_into(None, buf, 3)
        u = ec.decodeint_into_noreduce(None, d)
        env.check(u.v == v, "unreduced decoding keeps the value")
        env.check(env.all([a[:32] == d for a in args]), "the bytes decoded are those at the offset")
        expect(env, s1, v, "decoded value is the residue")
        expect(env, r2, v, "in-place decoding without destination")
    else:
        pre = env.int("pre", 0, 2)
        d = env.bytes("d", 32)
        v = int.from_bytes(d, "little")
        buf = bytes(pre) + d
        s = ec.decodeint(buf, pre) if pre else ec.decodeint(buf)
        r = ec.new_scalar()
        ec.decodeint_into(r, d)
    expect(env, s, v, "decoded value is the residue")
    expect(env, r, v, "in-place decoding")


@contract("C13", "sym", targets=["ec_base.encode_modm", "ec_base.decode_modm"], conc=200, conc_time=5, backend="py", solver_ms=120000)
def limbs_modm(env):
    m = env.mod("monero_glue.xmr.core.ec_base")
    v = env.bv("v", 253, L - 1) if env.symbolic else env.int("v", 0, L - 1)
    lm = m.encode_modm(v)
    env.check(len(lm) == 9, "nine limbs")
    env.check(env.all([(x >= 0) & (x < 2 ** 30) for x in lm]), "limbs are below 2^30")
    env.check(m.decode_modm(lm) == v, "limbs decode to the value")


BITS = [26, 25, 26, 25, 26, 25, 26, 25, 26, 25]


@contract("C13", "sym", targets=["ec_base.encode_ed25519", "ec_base.decode_ed25519"], conc=200, conc_time=5, backend="py", solver_ms=120000)
def limbs_field(env):
    m = env.mod("monero_glue.xmr.core.ec_base")
    v = env.bv("v", 255, Q - 1) if env.symbolic else env.int("v", 0, Q - 1)
    lm = m.encode_ed25519(v)
    env.check(len(lm) == 10, "ten limbs")
    env.check(env.all([(x >= 0) & (x < 2 ** b) for x, b in zip(lm, BITS)]), "limbs are in range")
    env.check(m.decode_ed25519(lm) == v, "limbs decode to the value")


@contract("C13", "sym", targets=["ec_base.encode_ed25519_sign"], conc=300, conc_time=5, backend="py", solver_ms=120000)
def limbs_signed(env):
    m = env.mod("monero_glue.xmr.core.ec_base")
    v = env.int("v", 0, Q - 1)
    lm = m.encode_ed25519_sign(v)
    sh = 0
    t = 0
    for x, b in zip(lm, BITS):
        t = t + x * (1 << sh)
        sh += b
    env.check((t - v) % Q == 0, "signed limbs represent the value modulo q")
    env.check(env.all([(x >= -(1 << (b - 1))) & (x <= (1 << (b - 1))) for x, b in zip(lm, BITS)]), "signed limbs are in range")


@contract("C13", "bounded", targets=["ec_py.modinv", "ec_py.sc_reduce32", "crypto.b16_to_scalar"], conc=300, conc_time=5, backend="py")
def misc(env):
    ec = env.mod(EC)
    ep = env.mod("monero_glue.xmr.core.ec_py")
    v = env.int("v", 1, L - 1)
    env.check(ep.modinv(v, L) * v % L == 1, "extended-gcd inverse")
    w = env.int("w", 0, 2 ** 256 - 1)
    env.check(ep.sc_reduce32(w) == w % L, "sc_reduce32")
    import binascii
    b = w.to_bytes(32, "little")
    env.check(val(env, ec.b16_to_scalar(binascii.hexlify(b))) == w % L, "b16_to_scalar")


@contract("C13", "bounded", targets=["ec_py.sc_check", "ec_trezor.sc_check"], conc=300, conc_time=6, backend="trezor+py")
def unreduced_refused(env):
    """unreduced scalars are recognised"""
    ec = env.mod(EC)
    w = env.int("w", 0, 2 ** 255)
    a = ec.decodeint_into_noreduce(None, w.to_bytes(32, "little"))
    if ec.sc_check(a) == 0:
        env.check(w < L and w != 0, "sc_check refuses unreduced values")


@contract("C13", "bounded", targets=["ec_py.random_scalar", "ec_py.random_scalar_into"], conc=60, conc_time=5, backend="trezor+py")
def random_scalars(env):
    ec = env.mod(EC)
    s = [ec.random_scalar() for _ in range(3)]
    r = ec.new_scalar()
    ec.random_scalar_into(r)
    s.append(r)
    v = [val(env, x) for x in s]
    env.check(all(0 <= x < L for x in v), "random scalars are canonical")
    env.check(len(set(v)) == 4 and 0 not in v, "random scalars differ")
