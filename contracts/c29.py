"""C29: the native and the pure-Python backend compute the same functions"""
from pyvc.run import contract

from pyvc.tcry import NOALIAS

PY = "monero_glue.xmr.core.ec_py"
TR = "monero_glue.xmr.core.ec_trezor"
L = 2 ** 252 + 27742317777372353535851937790883648493
Q = 2 ** 255 - 19
LIB = "functions of the native library by their contracts (pyvc/tcry.py, tested against the library in C29 native)"
GRP = "group operations of the pure-Python backend by their contracts (C12, C13, C14)"


def _prep():
    from pyvc import tcry
    tcry.install()


def alg(**kw):
    def deco(fn):
        fn.prepare = _prep
        return contract("C29", "alg", **kw)(fn)
    return deco


class Two:
    """the two backends"""
    def __init__(self, env):
        self.env = env
        self.p, self.t = env.mod(PY), env.mod(TR)

    def point(self, name, kind="any"):
        """the same point for both; kind: any, zero or another pair's negative"""
        env = self.env
        if env.symbolic:
            from pyvc import tcry, alg as A
            v = A.Pt({}) if kind == "zero" else env.load.fresh_point(name)
            return self.p.EdPoint(v), tcry.Ge(v)
        from contracts.c12 import a_mul, a_add, a_enc, BASE, T8
        P = (0, 1) if kind == "zero" else a_add(a_mul(BASE, env.int(name, 1, L - 1)), a_mul(T8(), env.int(name + "t", 0, 7) if env.bool(name + "T") else 0))
        b = a_enc(P)
        return self.p.decodepoint(b), self.t.decodepoint(b)

    def neg(self, pr):
        if self.env.symbolic:
            from pyvc import tcry
            return self.p.EdPoint(-pr[0].v), tcry.Ge(-pr[1].v)
        b = self.p.encodepoint(-pr[0])
        return self.p.decodepoint(b), self.t.decodepoint(b)

    def scalar(self, name, v=None):
        env = self.env
        if env.symbolic:
            from pyvc import tcry, alg as A
            x = A.Zl.const(v) if v is not None else env.load.fresh_scalar(name)
            return self.p.EdScalar(x), tcry.Sc(x)
        b = (env.int(name, 1, L - 1) if v is None else v % L).to_bytes(32, "little")
        return self.p.decodeint(b), self.t.decodeint(b)

    def view(self, m, x):
        """the abstract value of an object of backend m (0 python, 1 native)"""
        mod = (self.p, self.t)[m]
        if isinstance(x, mod.Ge25519):
            return x.v if self.env.symbolic else ("point", bytes(mod.encodepoint(x)))
        if isinstance(x, mod.Sc25519):
            return self.env.A.Zl.of(x.v) if self.env.symbolic else ("scalar", bytes(mod.encodeint(x)))
        return x

    def call(self, name, args):
        """both backends on the same arguments (pairs of objects or plain values): (both succeed?, value, value)"""
        env = self.env
        out = []
        for m in (0, 1):
            a = [x[m] if isinstance(x, tuple) else x for x in args]
            out.append(env.attempt(getattr((self.p, self.t)[m], name), *a))
        env.check(out[0].ok == out[1].ok, "both or none refuse: " + name)
        return out

    def same(self, name, args, conv=None):
        """equal results and untouched operands"""
        env = self.env
        before = [(self.view(0, x[0]), self.view(1, x[1])) for x in args if isinstance(x, tuple)]
        r = self.call(name, args)
        if r[0].ok and r[1].ok:
            x, y = (self.view(m, r[m].value) for m in (0, 1))
            if conv:
                x, y = conv(x), conv(y)
            env.check(x == y, "equal results: " + name)
        now = [(self.view(0, x[0]), self.view(1, x[1])) for x in args if isinstance(x, tuple)]
        env.check(env.all([a == c for b, n in zip(before, now) for a, c in zip(b, n)]), "operands unchanged: " + name)
        return r

    def into(self, name, args, res):
        """the in-place variant: the result of the plain one, in the given destination or a new object, other operands untouched"""
        env = self.env
        plain = self.call(name, args)
        if not (plain[0].ok and plain[1].ok):
            return
        want = self.view(0, plain[0].value)
        fresh = (lambda: (self.p.new_point(), self.t.new_point())) if res == "P" else (lambda: (self.p.new_scalar(), self.t.new_scalar()))
        other = self.point("d") if res == "P" else self.scalar("d")
        cls = lambda m: (self.p, self.t)[m].Ge25519 if res == "P" else (self.p, self.t)[m].Sc25519
        dests = [("none", None), ("new", fresh()), ("used", other)]
        for i, a in enumerate(args):
            if isinstance(a, tuple) and isinstance(a[0], cls(0)):
                dests.append(("operand %d" % i, i))
        for lab, d in dests:
            for m in (0, 1):
                mod = (self.p, self.t)[m]
                ops = [self.clone(m, x[m]) if isinstance(x, tuple) else x for x in args]
                if isinstance(d, int):
                    for j, x in enumerate(args):        # the same object in several places stays the same object
                        if x is args[d]:
                            ops[j] = ops[d]
                    dest = ops[d]
                else:
                    dest = None if d is None else d[m]
                before = [self.view(m, x) for x in ops]
                r = env.attempt(getattr(mod, name + "_into"), dest, *ops)
                env.check(r.ok, "in place, destination %s: %s" % (lab, name))
                if not r.ok:
                    continue
                v = dest if dest is not None else r.value
                env.check(self.view(m, v) == want, "in place like plain, destination %s: %s" % (lab, name))
                if dest is not None and r.value is not None:
                    env.check(self.view(m, r.value) == want, "in place returns the result: " + name)
                env.check(env.all([self.view(m, x) == b for x, b in zip(ops, before) if x is not dest]), "in place leaves the operands: " + name)

    def clone(self, m, x):
        mod = (self.p, self.t)[m]
        if self.env.symbolic:
            if isinstance(x, mod.Ge25519) or isinstance(x, mod.Sc25519):
                return type(x)(x.v)
            return x
        if isinstance(x, mod.Ge25519):
            return mod.decodepoint(mod.encodepoint(x))
        if isinstance(x, mod.Sc25519):
            return mod.decodeint(mod.encodeint(x))
        return x


# operations: kinds of arguments, result; the ones with an in-place variant
OPS = {"point_add": ("PP", "P"), "point_sub": ("PP", "P"), "point_double": ("P", "P"), "point_mul8": ("P", "P"), "scalarmult": ("Ps", "P"), "scalarmult_base": ("s", "P"),
       "add_keys2": ("ssP", "P"), "add_keys3": ("sPsP", "P"), "identity": ("", "P"),
       "sc_add": ("ss", "s"), "sc_sub": ("ss", "s"), "sc_mul": ("ss", "s"), "sc_muladd": ("sss", "s"), "sc_mulsub": ("sss", "s"), "sc_inv": ("n", "s"), "sc_0": ("", "s")}
PLAIN = {"point_mulinv8": ("P", "P"), "point_norm": ("P", "P"), "point_eq": ("PP", "b"), "ge_double_scalarmult_base_vartime": ("sPs", "P"),
         "ge25519_double_scalarmult_base_vartime": ("sPs", "P"), "ge_double_scalarmult_base_vartime2": ("sPsP", "P"), "ge_double_scalarmult_precomp_vartime": ("sPsP", "P"),
         "ge_double_scalarmult_precomp_vartime2": ("sPsP", "P"), "precomp": ("P", "P"), "ge_dsm_precomp": ("P", "P"), "ge_frombytes_vartime": ("P", "P"),
         "encodepoint": ("P", "B"), "encodeint": ("s", "B"), "sc_eq": ("ss", "b"), "sc_isnonzero": ("s", "b"), "sc_check": ("s", "b"), "check_sc": ("s", "b"),
         "check_ed25519point": ("P", "b"), "ge_frombytes_vartime_check": ("P", "b"), "xmr_H": ("", "P"), "sc_inv_eight": ("", "s"), "new_point": ("", "P"), "new_scalar": ("", "s"),
         "scalarmult_h": ("s", "P"), "gen_c": ("su", "P"), "generate_key_derivation": ("Ps", "P"), "derive_secret_key": ("Pis", "s"), "derive_public_key": ("PiP", "P"),
         "derivation_to_scalar": ("Pi", "s")}


def assignments(env, two, kinds):
    """operands of every kind: generic ones, neutral and opposite points, the same object twice, small scalars"""
    P, S = [two.point("P"), two.point("R")], [two.scalar("a"), two.scalar("b"), two.scalar("c")]
    O = two.point("O", "zero")
    zero, one, last = two.scalar("", 0), two.scalar("", 1), two.scalar("", L - 1)
    u = env.u64("u")
    idx = env.choose("idx", [0, 1, 127, 128, 16383, 16384, 2 ** 21 - 1, 2 ** 28, 2 ** 32 - 1]) if "i" in kinds else 0
    sets = [(P, S), ([P[0], P[0]], [S[0]] * 3), ([P[0], two.neg(P[0])], [zero, S[0], S[1]]), ([O, P[0]], [S[0], zero, one]), ([P[0], O], [one, last, zero]),
            ([O, O], [last, one, S[0]]), (P, [zero] * 3), (P, [one, one, last])]
    for p, s in sets:
        p, s = list(p), list(s)
        a = []
        for k in kinds:
            a.append(p.pop(0) if k == "P" else s.pop(0) if k == "s" else S[0] if k == "n" else u if k == "u" else idx)
        yield a
        if not kinds.strip("ui"):
            return


truth = {"b": bool, "B": None}


@alg(targets=["ec_py.%s%s" % (n, x) for n in OPS for x in ("", "_into")] + ["ec_trezor.%s%s" % (n, x) for n in OPS for x in ("", "_into")],
     variants=[{"op": n} for n in OPS], trusted=[LIB, GRP], conc=12, conc_time=2)
def in_place(env, op):
    """every operation with an in-place variant, on all operands: equal results, destinations of every kind, operands untouched"""
    two = Two(env)
    kinds, res = OPS[op]
    for a in assignments(env, two, kinds):
        two.same(op, a)
        two.into(op, a, res)


@alg(targets=["ec_py." + n for n in PLAIN] + ["ec_trezor." + n for n in PLAIN], variants=[{"op": n} for n in PLAIN], trusted=[LIB, GRP], conc=20, conc_time=2)
def plain(env, op):
    """every other operation on points and scalars"""
    two = Two(env)
    kinds, res = PLAIN[op]
    for a in assignments(env, two, kinds):
        conv = None
        if op == "sc_check" or op == "ge_frombytes_vartime_check":
            conv = lambda x: x != 0
        elif op in ("check_sc", "check_ed25519point"):
            conv = lambda x: True           # refusing is the result
        elif res == "b":
            conv = bool
        elif res == "B":
            conv = env.cbytes
        two.same(op, a, conv)


@alg(targets=["ec_py." + n for n in ("decodepoint", "decodepoint_into", "decodeint", "decodeint_into", "decodeint_into_noreduce", "encodepoint_into", "encodeint_into", "_offset")] +
     ["ec_trezor." + n for n in ("decodepoint", "decodepoint_into", "decodeint", "decodeint_into", "decodeint_into_noreduce", "encodepoint_into", "encodeint_into", "_offset", "_key_buff")],
     variants=[{"o": o} for o in (0, 1, 32)], trusted=[LIB, GRP], conc=30, conc_time=3)
def coded(env, o):
    """every 32 byte string at every offset, followed by anything: decoded alike; encodings written in place alike; short buffers refused"""
    two = Two(env)
    s, P = two.scalar("s"), two.point("P")
    raw, pre, post = env.bytes("raw", 32), env.bytes("pre", o), env.bytes("post", 5)
    enc = env.cbytes(two.p.encodepoint(P[0]))

    def cat(*x):
        r = env.ba(b"")
        for y in x:
            r += y
        return r
    for b, names in ((raw, ("decodeint", "decodepoint")), (enc, ("decodepoint", "decodeint"))):
        for tail in (post, b""):
            buf = env.cbytes(cat(pre, b, tail))
            for n in names:
                args = [buf, o] if o else [buf]
                r = two.same(n, args)
                if r[0].ok and b is enc and n == "decodepoint":
                    env.check(two.view(0, r[0].value) == two.view(0, P[0]), "the encoded point")
                for into in ((n + "_into", "decodeint_into_noreduce") if n == "decodeint" and env.symbolic else (n + "_into",)):
                    for d in (None, two.point("d") if n == "decodepoint" else two.scalar("d")):
                        q = two.call(into, [d] + args)
                        if r[0].ok and r[1].ok and q[0].ok and q[1].ok:
                            for m in (0, 1):
                                env.check(two.view(m, q[m].value) == two.view(m, r[m].value), "in place like plain: " + into)
                                env.check(d is None or two.view(m, d[m]) == two.view(m, r[m].value), "written to the destination: " + into)
                        env.check(q[0].ok == r[0].ok, "refused like plain: " + into)
    for n in (0, 1, 31):
        for f in ("decodepoint", "decodeint"):
            r = two.call(f, [env.cbytes(cat(pre, env.bytes("short", n))), o])
            env.check(not r[0].ok and not r[1].ok, "less than 32 bytes are refused: " + f)
    # in-place encodings
    for f, x in (("encodepoint", P), ("encodeint", s)):
        for tail in (5, 0):
            bufs = [env.ba(env.cbytes(cat(pre, env.bytes("old", 32), env.bytes("rest", tail))))] * 2
            bufs = [env.ba(env.cbytes(bufs[0])), env.ba(env.cbytes(bufs[0]))]
            old = env.cbytes(bufs[0])
            for m in (0, 1):
                r = env.attempt(getattr((two.p, two.t)[m], f + "_into"), bufs[m], x[m], o)
                env.check(r.ok, f + "_into")
                if r.ok:
                    env.check(env.cbytes(bufs[m]) == env.cbytes(cat(old[:o], env.cbytes(getattr((two.p, two.t)[m], f)(x[m])), old[o + 32:])), "only the encoding is written: %s_into" % f)
                    env.check(env.cbytes(r.value) == env.cbytes(bufs[m]), "the buffer is returned: %s_into" % f)
        for m in (0, 1):
            env.check(not env.attempt(getattr((two.p, two.t)[m], f + "_into"), env.ba(bytes(o + 31)), x[m], o).ok, "a short buffer is refused: %s_into" % f)


@alg(targets=["%s.%s" % (m, n) for m in ("ec_py", "ec_trezor") for n in ("sc_init", "sc_init_into", "sc_copy", "sc_get64", "scalarmult_h", "gen_c", "derivation_to_scalar", "derive_secret_key",
                                                                        "derive_public_key", "get_subaddress_secret_key", "identity_into", "sc_0_into")], trusted=[LIB, GRP], conc=60, conc_time=4)
def numbers(env):
    """integers of every size: 64 bit values and 32 bit indices are taken alike, larger and negative ones refused or alike"""
    two = Two(env)
    x, s, P = env.u64("x"), two.scalar("s"), two.point("P")
    two.same("sc_init", [x])
    two.into("sc_init", [x], "s")
    two.same("scalarmult_h", [x])
    two.same("gen_c", [s, x])
    big = env.choose("big", [2 ** 64, 2 ** 64 + 1, 2 ** 65 - 1, 2 ** 70, 2 ** 252, 2 ** 256, -1, -2 ** 63])
    for f, a in (("sc_init", [big]), ("scalarmult_h", [big]), ("gen_c", [s, big])):
        r = two.same(f, a)
        env.check(not r[0].ok, "values that do not fit 64 bits are refused: " + f)
    r = two.call("sc_init_into", [two.scalar("d"), big])
    env.check(not r[0].ok, "values that do not fit 64 bits are refused: sc_init_into")
    for v in (0, 1, 2 ** 32, 2 ** 64 - 1, 2 ** 64, L - 1):
        two.same("sc_get64", [two.scalar("", v)])
    for d in (None, two.scalar("d")):
        r = two.call("sc_copy", [d, s])
        for m in (0, 1):
            if r[m].ok:
                env.check(two.view(m, r[m].value) == two.view(m, s[m]) and (d is None or two.view(m, d[m]) == two.view(m, s[m])), "copy")
                env.check(r[m].value is not s[m], "a copy is another object")
    maj, mnr = env.int("major", 0, 2 ** 32 - 1), env.int("minor", 0, 2 ** 32 - 1)
    two.same("get_subaddress_secret_key", [s, maj, mnr])
    i = env.int("index", 0, 2 ** 32 - 1)
    two.same("derivation_to_scalar", [P, i])
    two.same("derive_secret_key", [P, i, s])
    two.same("derive_public_key", [P, i, P])
    for m, n in ((2 ** 32, 0), (0, 2 ** 32), (-1, 0), (0, -1), (2 ** 64, 1)):
        r = two.same("get_subaddress_secret_key", [s, m, n])
        env.check(not r[0].ok, "an index beyond 32 bits is refused")


@alg(targets=["%s.%s" % (m, n) for m in ("ec_py", "ec_trezor") for n in ("keccak_hash", "keccak_hash_into", "keccak_2hash", "cn_fast_hash", "hash_to_scalar", "hash_to_scalar_into", "hash_to_point",
                                                                        "hash_to_point_into", "get_keccak", "get_hmac", "compute_hmac", "pbkdf2")],
     variants=[{"n": n} for n in (0, 1, 31, 32, 33, 64, 135, 136, 137)], trusted=[LIB, GRP], conc=20, conc_time=3)
def hashes(env, n):
    """every input of n bytes, as bytes and buffers, with every length limit; in-place variants; hash objects under updates, copies and resets"""
    two = Two(env)
    data = env.bytes("data", n)
    B = env.cbytes
    for f in ("keccak_hash", "cn_fast_hash", "keccak_2hash"):
        two.same(f, [data], B)
        two.same(f, [env.ba(data)], B)
    two.same("hash_to_point", [data])
    two.into("hash_to_point", [data], "P")
    two.same("hash_to_scalar", [data])
    two.into("hash_to_scalar", [data], "s")
    for k in (None, 0, 1, n - 1, n, n + 1, n + 40):
        if k is not None and k < 0:
            continue
        two.same("hash_to_scalar", [data, k])
        two.into("hash_to_scalar", [data, k], "s")
        r = two.same("keccak_hash", [data, k], B)
        for m in (0, 1):
            d = env.ba(bytes(32))
            q = env.attempt((two.p, two.t)[m].keccak_hash_into, d, data, k)
            env.check(q.ok and B(d) == B(r[0].value) and B(q.value) == B(r[0].value), "in place like plain: keccak_hash_into")
    # objects
    cut = env.int("cut", 0, n) if not env.symbolic else n // 2
    out = []
    for m in (0, 1):
        mod = (two.p, two.t)[m]
        h = mod.get_keccak()
        h.update(data[:cut])
        d1 = B(h.digest())
        c = h.copy()
        h.update(data[cut:])
        d2 = B(h.digest())
        d3 = B(c.digest())
        c.update(b"x")
        d4, d5 = B(c.digest()), B(h.digest())
        h.reset()
        d6 = B(h.digest())
        h.update(data)
        d7 = h.hexdigest()
        env.check(env.symbolic or isinstance(d7, str), "hexadecimal text")
        d7 = B(d7.encode() if hasattr(d7, "encode") else d7)
        d8 = B(mod.get_keccak(data).digest())
        env.check(d2 == d5 and d1 == d3, "copies and digests do not disturb")
        out.append((d1, d2, d3, d4, d5, d6, d7, d8))
        env.check((h.digest_size, h.block_size) == (32, 136), "sizes")
    for a, b in zip(*out):
        env.check(a == b, "hash objects agree")
    key = env.bytes("key", 32)
    two.same("compute_hmac", [key, data], B)
    env.check(B(two.p.get_hmac(key, data).digest()) == B(two.t.get_hmac(key, data).digest()), "keyed hash objects agree")
    if not env.symbolic:
        env.check(two.p.pbkdf2(data, key, 40, 3) == two.t.pbkdf2(data, key, 40, 3), "password derivation agrees")


@alg(targets=["%s.%s" % (m, n) for m in ("ec_py", "ec_trezor") for n in ("random_scalar", "random_scalar_into", "random_bytes")], trusted=[LIB, GRP], conc=30, conc_time=2)
def fresh(env):
    """random values: right kind, size and range, new every time, written to the destination"""
    two = Two(env)
    for m in (0, 1):
        mod = (two.p, two.t)[m]
        a, b, d = mod.random_scalar(), mod.random_scalar(), two.scalar("d")[m]
        env.check(isinstance(a, mod.Sc25519) and isinstance(b, mod.Sc25519), "scalars")
        r = mod.random_scalar_into(d)
        e = mod.random_scalar_into(None)
        v = [two.view(m, x) for x in (a, b, d, e)]
        env.check(all(not (x == y) for i, x in enumerate(v) for y in v[:i]), "new every time")
        env.check(two.view(m, r) == two.view(m, d), "the destination is returned")
        for n in (0, 1, 32, 33):
            env.check(len(mod.random_bytes(n)) == n, "random bytes")
        env.check(not (env.cbytes(mod.random_bytes(32)) == env.cbytes(mod.random_bytes(32))), "new bytes every time")


def lib_spec():
    """the functions of the native library by affine reference arithmetic: (kinds of arguments, result, value)"""
    from contracts.c12 import a_mul, a_add, a_enc, BASE, HB, a_dec
    from pyvc.spec_keccak import keccak256
    H = a_dec(HB)
    neg = lambda p: ((Q - p[0]) % Q, p[1])
    hs = lambda b: int.from_bytes(keccak256(b), "little") % L

    def varint(x):
        r = b""
        while x >= 128:
            r += bytes([x % 128 + 128])
            x //= 128
        return r + bytes([x])
    d2s = lambda p, i: hs(a_enc(p) + varint(i))
    add, mul = a_add, a_mul
    G = BASE
    return {
        "ge25519_add": ("PPi", "P", lambda p, q, n: add(p, neg(q) if n else q)), "ge25519_double": ("P", "P", lambda p: add(p, p)), "ge25519_mul8": ("P", "P", lambda p: mul(p, 8)),
        "ge25519_norm": ("P", "P", lambda p: p), "ge25519_scalarmult": ("Ps", "P", mul), "ge25519_scalarmult_base_wrapper": ("s", "P", lambda s: mul(G, s)),
        "ge25519_double_scalarmult_vartime": ("Pss", "P", lambda p, a, b: add(mul(p, a), mul(G, b))),
        "ge25519_double_scalarmult_vartime2": ("PsPs", "P", lambda p, a, q, b: add(mul(p, a), mul(q, b))),
        "ge25519_set_neutral": ("", "P", lambda: (0, 1)), "ge25519_set_xmr_h": ("", "P", lambda: H),
        "xmr_add_keys2_vartime": ("ssP", "P", lambda a, b, p: add(mul(G, a), mul(p, b))), "xmr_add_keys3_vartime": ("sPsP", "P", lambda a, p, b, q: add(mul(p, a), mul(q, b))),
        "xmr_add_keys3": ("sPsP", "P", lambda a, p, b, q: add(mul(p, a), mul(q, b))), "xmr_gen_c": ("su", "P", lambda a, u: add(mul(G, a), mul(H, u))),
        "xmr_generate_key_derivation": ("Ps", "P", lambda p, s: mul(mul(p, s), 8)), "xmr_derive_public_key": ("PiP", "P", lambda d, i, b: add(b, mul(G, d2s(d, i)))),
        "add256_modm": ("ss", "s", lambda a, b: a + b), "sub256_modm": ("ss", "s", lambda a, b: a - b), "mul256_modm": ("ss", "s", lambda a, b: a * b),
        "muladd256_modm": ("sss", "s", lambda a, b, c: c + a * b), "mulsub256_modm": ("sss", "s", lambda a, b, c: c - a * b),
        "xmr_derivation_to_scalar": ("Pi", "s", d2s), "xmr_derive_private_key": ("Pis", "s", lambda d, i, b: b + d2s(d, i)),
        "xmr_get_subaddress_secret_key": ("iis", "s", lambda a, i, m: hs(b"SubAddr\0" + m.to_bytes(32, "little") + a.to_bytes(4, "little") + i.to_bytes(4, "little"))),
    }


LIBNAMES = ["ge25519_add", "ge25519_double", "ge25519_mul8", "ge25519_norm", "ge25519_scalarmult", "ge25519_scalarmult_base_wrapper", "ge25519_double_scalarmult_vartime",
            "ge25519_double_scalarmult_vartime2", "ge25519_set_neutral", "ge25519_set_xmr_h", "xmr_add_keys2_vartime", "xmr_add_keys3_vartime", "xmr_add_keys3", "xmr_gen_c",
            "xmr_generate_key_derivation", "xmr_derive_public_key", "add256_modm", "sub256_modm", "mul256_modm", "muladd256_modm", "mulsub256_modm", "xmr_derivation_to_scalar",
            "xmr_derive_private_key", "xmr_get_subaddress_secret_key"]


@contract("C29", "bounded", targets=["(dependency) trezor_cfunc." + n for n in LIBNAMES], variants=[{"part": i} for i in range(4)], conc=12, conc_time=4, backend="trezor", aux=True)
def native(env, part):
    """the native library meets the contracts assumed of it, also when destination and operands are the same object"""
    from contracts.c12 import a_mul, a_add, a_enc, BASE, T8
    t = env.mod("trezor_crypto.trezor_cfunc")
    tr = env.mod(TR)
    spec = lib_spec()
    pts = [(0, 1), a_mul(T8(), env.int("tors", 0, 7)), a_mul(BASE, env.int("p", 1, L - 1))]
    pts += [a_add(pts[2], pts[1]), ((Q - pts[2][0]) % Q, pts[2][1])]
    # bases with a small order component only where the library does not reduce the scalar's representation
    scs = [0, 1, L - 1, env.int("a", 0, L - 1), env.int("b", 0, L - 1)]

    def pick(k, j):
        if k == "P":
            return env.choose("P%d" % j, pts)
        if k == "s":
            return env.choose("s%d" % j, scs)
        return env.u64("u%d" % j) if k == "u" else env.int("i%d" % j, 0, 2 ** 32 - 1)

    def obj(k, v):
        if k == "P":
            x = t.ge25519_unpack_vartime_r(t.KEY_BUFF(*a_enc(v)))
            return x
        if k == "s":
            return t.expand256_modm_r(t.KEY_BUFF(*v.to_bytes(32, "little")))
        return v

    def val(x):
        if isinstance(x, t.ge25519):
            return ("P", bytes(t.ge25519_pack_r(x)))
        return ("s", bytes(t.contract256_modm_r(x)))

    def want(res, v):
        return ("P", a_enc(v)) if res == "P" else ("s", (v % L).to_bytes(32, "little"))
    for name in LIBNAMES[part::4]:
        kinds, res, f = spec[name]
        v = [pick(k, j) for j, k in enumerate(kinds)]
        if name == "ge25519_add":
            v[2] = v[2] % 2
        w = want(res, f(*v))
        ops = [obj(k, x) for k, x in zip(kinds, v)]
        before = [val(o) if not isinstance(o, int) else o for o in ops]
        env.check(val(getattr(t, name + "_r")(*ops)) == w, "%s_r" % name)
        env.check([val(o) if not isinstance(o, int) else o for o in ops] == before, "%s_r leaves the operands" % name)
        d = obj(res, pts[3] if res == "P" else scs[3])
        getattr(t, name)(d, *ops)
        env.check(val(d) == w, name)
        env.check([val(o) if not isinstance(o, int) else o for o in ops] == before, "%s leaves the operands" % name)
        for i, k in enumerate(kinds):
            if k != res or name in NOALIAS:
                continue
            o = [obj(q, x) for q, x in zip(kinds, v)]
            getattr(t, name)(o[i], *o)
            env.check(val(o[i]) == w, "%s into operand %d" % (name, i))
            # the same object as every operand of its kind
            sv = [v[i] if q == k else x for q, x in zip(kinds, v)]
            o = [obj(q, x) for q, x in zip(kinds, sv)]
            o = [o[i] if q == k else x for q, x in zip(kinds, o)]
            getattr(t, name)(o[i], *o)
            env.check(val(o[i]) == want(res, f(*sv)), "%s with one object everywhere" % name)
    s, p = env.choose("s", scs), env.choose("P", pts)
    S, P = obj("s", s), obj("P", p)
    env.check(bool(t.iszero256_modm(S)) == (s == 0) and bool(t.check256_modm(S)) == (s != 0), "predicates of scalars")
    s2, p2 = env.choose("s'", scs), env.choose("P'", pts)
    env.check(bool(t.eq256_modm(S, obj("s", s2))) == (s == s2) and bool(t.ge25519_eq(P, obj("P", p2))) == (p == p2), "equality")
    env.check(t.ge25519_check(P) == 1, "points are on the curve")
    raw = env.bytes("raw", 32)
    env.check(bytes(t.contract256_modm_r(t.expand256_modm_r(t.KEY_BUFF(*raw)))) == (int.from_bytes(raw, "little") % L).to_bytes(32, "little"), "reduction of 32 bytes")
    u = env.u64("u")
    env.check(t.get256_modm_r(t.init256_modm_r(u)) == u and val(t.init256_modm_r(u)) == want("s", u), "64 bit values")


@contract("C29", "bounded", targets=["ec_py", "ec_trezor"], conc=120, conc_time=12, backend="trezor")
def edges(env):
    """what the abstract group leaves out: strings that encode no point, several encodings of one, unreduced scalars, points off the curve, inversion of zero"""
    two = Two(env)
    kind = env.choose("kind", ["any", "small", "y"])
    sign = env.bool("sign")
    y = int.from_bytes(env.bytes("raw", 32), "little") % 2 ** 255
    if kind == "small":
        y = env.choose("small", [0, 1, 2, Q - 2, Q - 1, Q, Q + 1, Q + 2, 2 ** 255 - 1, env.int("low", 0, 40), Q - env.int("high", 0, 40)])
    raw = (y + (2 ** 255 if sign else 0)).to_bytes(32, "little")
    two.same("decodepoint", [raw])
    r = two.call("decodepoint_into", [None, raw])
    if r[0].ok and r[1].ok:
        env.check(two.view(0, r[0].value) == two.view(1, r[1].value), "equal results: decodepoint_into")
    v = env.choose("v", [0, 1, L - 1, L, L + 1, 2 * L, 2 ** 252, 2 ** 253, 2 ** 255, 2 ** 256 - 1, int.from_bytes(env.bytes("s", 32), "little")])
    b = v.to_bytes(32, "little")
    x = two.p.decodeint_into_noreduce(None, b), two.t.decodeint_into_noreduce(None, b)
    for f in ("sc_check", "check_sc"):
        two.same(f, [x], (lambda c: c != 0) if f == "sc_check" else (lambda c: True))
    env.check(bytes(two.p.encodeint(x[0])) == bytes(two.t.encodeint(x[1])) == b or v >= 2 ** 255, "unreduced scalars are kept as they are")
    two.same("decodeint", [b])
    P = two.point("P")
    two.same("generate_key_derivation", [P, x])
    two.same("derive_secret_key", [P, env.int("i", 0, 2 ** 32 - 1), x])
    zero = two.scalar("", 0)
    two.same("sc_inv", [zero])
    # memory that is no point
    bad_t = two.t.tcry.ge25519()
    bad_p = two.p.EdPoint((1, 1, 1, 1))
    two.same("check_ed25519point", [(bad_p, bad_t)], lambda c: True)
    for f, a in (("generate_key_derivation", [(bad_p, bad_t), two.scalar("k")]), ("derivation_to_scalar", [(bad_p, bad_t), 1]), ("derive_public_key", [P, 0, (bad_p, bad_t)])):
        q = [env.attempt(getattr(m, f), *[z[j] if isinstance(z, tuple) else z for z in a]) for j, m in ((0, two.p), (1, two.t))]
        env.check(not q[0].ok and not q[1].ok, "a point off the curve is refused: " + f)
