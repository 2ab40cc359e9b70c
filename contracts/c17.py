"""C17: encryption helpers invert exactly, tampering is detected"""
from pyvc.run import contract
from contracts import txlib as T

E = "monero_glue.xmr.enc."
LENS = [0, 1, 15, 16, 17, 31, 32, 63, 64, 65, 100, 200]
L = 2 ** 252 + 27742317777372353535851937790883648493


def flip(env, d, lo, hi):
    """d with one byte in [lo, hi) changed by any non-zero difference"""
    ref = env.ref
    n = hi - lo
    pos = lo + env.choose("pos", sorted({0, 1 % n, n // 2, n - 1}))
    x = env.int("d", 1, 255)
    return ref.cat(d[:pos], ref.xor(d[pos:pos + 1], ref.le(x, 1)), d[pos + 1:])


def other(env, name, k):
    o = env.key(name)
    env.assume(not bool(o == k))
    return o


# ---- stream cipher -------------------------------------------------------------------------------------------
@contract("C17", "alg", targets=["chacha.encrypt", "chacha.decrypt"], variants=[{"n": n} for n in LENS], conc=10, conc_time=2)
def stream(env, n):
    """every key, nonce and plaintext: back to the plaintext; nonce first; every encryption has its own nonce"""
    ch, ref = env.mod(E + "chacha"), env.ref
    k, pt = env.key("k"), env.bytes("pt", n)
    ct = env.cbytes(ch.encrypt(k, pt))
    env.check(len(ct) == n + 8, "nonce and as many bytes")
    env.check(env.cbytes(ch.decrypt(k, ct)) == pt, "back")
    env.check(env.cbytes(ch.decrypt(k, ref.cat(ct, env.bytes("more", 3))))[:n] == pt, "byte by byte")
    ct2 = env.cbytes(ch.encrypt(k, pt))
    env.check(not bool(ct[:8] == ct2[:8]), "fresh nonce")
    env.check(env.cbytes(ch.decrypt(k, ct2)) == pt, "back")
    env.check(env.cbytes(ch.encrypt(k, env.bytes("pt2", n)))[:8] != ct[:8], "fresh nonce for another plaintext")
    if n >= 16:
        env.check(not bool(ct[8:] == pt), "the plaintext is not sent")
        env.check(not bool(env.cbytes(ch.decrypt(other(env, "k2", k), ct)) == pt), "another key does not open")
    for short in range(8):
        env.refuses("input without a nonce is refused", ch.decrypt, k, ct[:short])
    env.refuses("short key is refused", ch.encrypt, k[:31], pt)


@contract("C17", "alg", targets=["chacha.encrypt_xmr", "chacha.decrypt_xmr", "chacha.generate_key"], variants=[{"n": n, "auth": a} for n in LENS for a in (0, 1)], conc=3, conc_time=2)
def wallet_blob(env, n, auth):
    """every private key and plaintext: the blob opens to the plaintext"""
    ch, cr, ref = env.mod(E + "chacha"), env.mod("monero_glue.xmr.crypto"), env.ref
    x, pt = env.scalar("x"), env.bytes("pt", n)
    s = ref.sc(x)
    b = env.cbytes(ch.encrypt_xmr(x, pt, bool(auth)) if not auth or env.choose("given", [0, 1]) else ch.encrypt_xmr(x, pt))
    env.check(len(b) == 8 + n + (64 if auth else 0), "length")
    env.check(env.cbytes(ch.decrypt_xmr(x, b, bool(auth))) == pt, "back")
    env.check(env.cbytes(ch.decrypt_xmr(x, env.ba(b), bool(auth))) == pt, "back from a bytearray")
    key = ch.generate_key(cr.encodeint(x))
    env.check(env.cbytes(ch.decrypt(key, b[:8 + n])) == pt, "stream cipher under the key derived from the private key")
    if auth:
        env.check(env.cbytes(ch.decrypt_xmr(x, b[:-64], False)) == pt, "signature last")
        c, r = ref.dec_sc(b[-64:-32]), ref.dec_sc(b[-32:])
        env.check(ref.encs(c) == b[-64:-32] and ref.encs(r) == b[-32:], "reduced scalars")
        env.check(c == ref.Hs(ref.keccak(b[:-64]), ref.enc(ref.G * s), ref.enc(ref.G * r + ref.G * s * c)), "signature of nonce and ciphertext by the private key")
        b2 = env.cbytes(ch.encrypt_xmr(x, pt))
        env.check(not bool(b2[:8] == b[:8]), "fresh nonce")
    env.check(ref.sc(x) == s, "private key untouched")


@contract("C17", "alg", targets=["chacha.decrypt_xmr"], variants=[{"n": n, "what": w} for n in (0, 1, 40) for w in
          ("nonce", "ct", "c", "r", "c0", "r0", "swap", "cut", "more", "key", "foreign", "plain", "negated", "short") if n or w != "ct"], conc=4, conc_time=2)
def wallet_tampered(env, n, what):
    """any change of nonce, ciphertext, signature or key, any truncation or extension: refused"""
    ch, cr, ref = env.mod(E + "chacha"), env.mod("monero_glue.xmr.crypto"), env.ref
    x, pt = env.scalar("x"), env.bytes("pt", n)
    b = env.cbytes(ch.encrypt_xmr(x, pt))
    y = env.scalar("y")
    env.assume(not bool(ref.sc(y) == ref.sc(x)))
    bad, k = b, x
    if what == "nonce":
        bad = flip(env, b, 0, 8)
    elif what == "ct":
        bad = flip(env, b, 8, 8 + n)
    elif what in ("c", "r"):
        at = len(b) - (64 if what == "c" else 32)
        o = cr.encodeint(y)
        env.assume(not bool(o == b[at:at + 32]))
        bad = ref.cat(b[:at], o, b[at + 32:])
    elif what in ("c0", "r0"):
        at = len(b) - (64 if what == "c0" else 32)
        bad = ref.cat(b[:at], bytes(32), b[at + 32:])
    elif what == "negated":
        c, r = ref.dec_sc(b[-64:-32]), ref.dec_sc(b[-32:])
        env.assume(not bool(r == ref.S(0)))
        bad = ref.cat(b[:-32], ref.encs(ref.S(0) - r))
    elif what == "swap":
        bad = ref.cat(b[:-64], b[-32:], b[-64:-32])
    elif what == "cut":
        at = env.choose("cut", [0, 1, 7, 8 + n, len(b) - 33])
        bad = ref.cat(b[:at], b[at + 1:])
    elif what == "more":
        at = env.choose("more", [0, 8, 8 + n, 8 + n + 32, len(b)])
        bad = ref.cat(b[:at], env.bytes("m", 1), b[at:])
        if not env.symbolic:
            env.assume(bad[:len(b)] != b)
    elif what == "key":
        k = y
    elif what == "foreign":
        bad = env.cbytes(ch.encrypt_xmr(y, pt))
    elif what == "plain":
        bad = env.cbytes(ch.encrypt_xmr(x, pt, False))
    else:
        for m in sorted({0, 1, 8, 31, 32, 63, 64, 65, 71, len(b) - 32, len(b) - 1}):
            if m < len(b):
                env.refuses("truncated blob is refused", ch.decrypt_xmr, x, b[:m])
        return
    env.refuses("modified blob is refused", ch.decrypt_xmr, k, bad)


@contract("C17", "bounded", targets=["chacha.decrypt_xmr"], conc=12, conc_time=6, backend="trezor+py")
def wallet_not_reduced(env):
    """signature scalars not reduced (the same signature in other bytes), and every single bit of the signature changed: refused"""
    ch = env.mod(E + "chacha")
    x, pt = env.scalar("x"), env.bytes("pt", 20)
    b = bytes(ch.encrypt_xmr(x, pt))
    env.check(ch.decrypt_xmr(x, b) == pt, "back")
    for at in (len(b) - 64, len(b) - 32):
        v = int.from_bytes(b[at:at + 32], "little")
        for k in (1, 2, 7, 15):
            if v + k * L < 2 ** 256:
                env.refuses("not reduced scalar is refused", ch.decrypt_xmr, x, b[:at] + (v + k * L).to_bytes(32, "little") + b[at + 32:])
        for bit in (0, 100, 251, 252, 253, 254, 255):
            env.refuses("flipped bit is refused", ch.decrypt_xmr, x, b[:at] + (v ^ (1 << bit)).to_bytes(32, "little") + b[at + 32:])


# ---- authenticated ciphers --------------------------------------------------------------------------------------
AD = [None, 0, 1, 40]


@contract("C17", "alg", targets=["chacha_poly.encrypt", "chacha_poly.decrypt", "chacha_poly.encrypt_pack", "chacha_poly.decrypt_pack"],
          variants=[{"n": n, "ad": a} for n in LENS for a in AD], conc=4, conc_time=2)
def aead(env, n, ad):
    """every key, plaintext and associated data: back, fresh nonce; the packed form is the concatenation"""
    cp, ref = env.mod(E + "chacha_poly"), env.ref
    k, pt = env.key("k"), env.bytes("pt", n)
    a = None if ad is None else env.bytes("ad", ad)
    for p in (pt, env.ba(pt)):
        iv, ct, tag = cp.encrypt(k, p, a)
        env.check(len(iv) == 12 and len(ct) + len(tag) == n + 16, "lengths")
        env.check(env.cbytes(cp.decrypt(k, iv, env.cbytes(ct) + env.cbytes(tag), a)) == pt, "back")
    b = env.cbytes(cp.encrypt_pack(k, pt, a))
    env.check(len(b) == n + 28, "packed length")
    env.check(env.cbytes(cp.decrypt_pack(k, b, a)) == pt, "packed back")
    env.check(env.cbytes(cp.decrypt_pack(k, env.ba(b), a)) == pt, "packed back from a bytearray")
    env.check(env.cbytes(cp.decrypt(k, b[:12], b[12:], a)) == pt, "packed form")
    env.check(not bool(env.cbytes(cp.encrypt_pack(k, pt, a))[:12] == b[:12]) and not bool(b[:12] == env.cbytes(iv)), "fresh nonce")


@contract("C17", "alg", targets=["aesgcm.encrypt", "aesgcm.decrypt"], variants=[{"n": n, "ad": a, "ks": s} for n in LENS for a in AD for s in (16, 32)], conc=4, conc_time=2)
def gcm(env, n, ad, ks):
    """AES-GCM: every key, plaintext and associated data: back, fresh nonce"""
    g = env.mod(E + "aesgcm")
    k, pt = env.key("k")[:ks], env.bytes("pt", n)
    a = None if ad is None else env.bytes("ad", ad)
    iv, ct, tag = g.encrypt(k, pt, a)
    env.check(len(ct) == n and len(tag) == 16 and len(iv) >= 12, "lengths")
    env.check(env.cbytes(g.decrypt(k, iv, ct, tag, a)) == pt, "back")
    iv2 = g.encrypt(k, pt, a)[0]
    env.check(not bool(env.cbytes(iv2) == env.cbytes(iv)), "fresh nonce")


@contract("C17", "alg", targets=["chacha_poly.decrypt", "chacha_poly.decrypt_pack", "aesgcm.decrypt"],
          variants=[{"mod": m, "n": n, "what": w} for m in ("poly", "pack", "gcm") for n in (0, 1, 40) for w in
                    ("iv", "ct", "tag", "key", "ad", "noad", "addad", "cut", "more", "mix", "short") if n or w not in ("ct", "cut")], conc=6, conc_time=2)
def aead_tampered(env, mod, n, what):
    """any change of key, nonce, ciphertext, tag or associated data: refused, nothing returned"""
    cp, g, ref = env.mod(E + "chacha_poly"), env.mod(E + "aesgcm"), env.ref
    k, pt, ad = env.key("k"), env.bytes("pt", n), env.key("ad")

    def enc(k, pt, a):
        """nonce, ciphertext, tag"""
        if mod == "gcm":
            return [env.cbytes(x) for x in g.encrypt(k, pt, a)]
        if mod == "pack":
            b = env.cbytes(cp.encrypt_pack(k, pt, a))
            return [b[:12], b[12:-16], b[-16:]]
        iv, ct, tag = cp.encrypt(k, pt, a)
        ct = env.cbytes(ct) + env.cbytes(tag)
        return [env.cbytes(iv), ct[:-16], ct[-16:]]

    def dec(k, x, a):
        if mod == "gcm":
            return g.decrypt(k, x[0], x[1], x[2], a)
        if mod == "pack":
            return cp.decrypt_pack(k, ref.cat(*x), a)
        return cp.decrypt(k, x[0], ref.cat(x[1], x[2]), a)
    e = enc(k, pt, None if what == "addad" else ad)
    env.check(env.cbytes(dec(k, e, None if what == "addad" else ad)) == pt, "genuine")
    x, kk, a = list(e), k, ad
    if what == "iv":
        x[0] = flip(env, e[0], 0, len(e[0]))
    elif what == "ct":
        x[1] = flip(env, e[1], 0, n)
    elif what == "tag":
        x[2] = flip(env, e[2], 0, 16)
    elif what == "key":
        kk = other(env, "k2", k)
    elif what == "ad":
        a = other(env, "ad2", ad)
    elif what == "noad":
        a = None
    elif what == "cut":
        x[1] = e[1][:-1] if env.choose("end", [0, 1]) else e[1][1:]
    elif what == "more":
        m = env.bytes("m", 1)
        if not env.symbolic:
            env.assume(e[1] != b"" and m != e[1][:1] and m != e[2][:1])
        x[1] = ref.cat(m, e[1]) if env.choose("end", [0, 1]) else ref.cat(e[1], m)
    elif what == "mix":
        p2 = env.key("p2")[:n]
        o = enc(k, p2, ad)
        x = [e[0], o[1], o[2]] if n == 0 or env.choose("mix", [0, 1]) else [o[0], e[1], o[2]]
        if not env.symbolic:
            env.assume(x != e and x != o)
    elif what == "short":
        for m in range(16):
            r = env.attempt(dec, k, [e[0], b"", e[2][:m]], a)
            env.check(not r.ok, "truncated input is refused")
        return
    r = env.attempt(dec, kk, x, a)
    env.check(not r.ok, "modified input is refused")


# ---- CBC --------------------------------------------------------------------------------------------------------------
@contract("C17", "alg", targets=["aescbc.encrypt", "aescbc.decrypt"], variants=[{"n": n, "ks": s} for n in (0, 16, 32, 48, 160) for s in (16, 32)], conc=10, conc_time=2)
def cbc(env, n, ks):
    """every key, caller's initialisation vector and whole blocks: back; all of the vector and of the earlier blocks count"""
    c, ref = env.mod(E + "aescbc"), env.ref
    k, iv, pt = env.key("k")[:ks], env.key("iv")[:16], env.bytes("pt", n)
    ct = env.cbytes(c.encrypt(k, pt, iv))
    env.check(len(ct) == n, "length")
    env.check(env.cbytes(c.decrypt(k, ct, iv)) == pt, "back")
    env.check(env.cbytes(c.encrypt(k, pt, iv)) == ct, "function of key, vector and plaintext")
    env.refuses("partial block is refused", c.encrypt, k, ref.cat(pt, b"x"), iv)
    env.refuses("partial block is refused", c.decrypt, k, ref.cat(ct, b"x"), iv)
    if n:
        iv2 = env.key("iv2")[:16]
        env.assume(not bool(iv2 == iv))
        env.check(not bool(env.cbytes(c.encrypt(k, pt, iv2))[:16] == ct[:16]), "the vector counts")
        if n > 16:
            p2 = ref.cat(flip(env, pt[:16], 0, 16), pt[16:])
            e2 = env.cbytes(c.encrypt(k, p2, iv))
            env.check(not bool(e2[:16] == ct[:16]) and not bool(e2[16:32] == ct[16:32]), "blocks are chained")
