"""C11: bit-wise range proofs, key-image (ring) signatures, plain secret-knowledge signatures"""
from pyvc.run import contract

RC = "monero_glue.xmr.ring_ct"
CR = "monero_glue.xmr.crypto"


# ---- plain signature ---------------------------------------------------------------------------------------------
@contract("C11", "alg", targets=["crypto.generate_signature", "crypto.check_signature"], variants=[{"n": n} for n in (0, 1, 32, 77)], conc=20, conc_time=4,
          backend="trezor+py")
def plain_signature(env, n):
    """for all secrets and messages"""
    cr, ref = env.mod(CR), env.ref
    x, data = env.scalar("x"), env.bytes("data", n)
    c, r, pub = cr.generate_signature(data, x)
    P = ref.G * ref.sc(x)
    env.check(ref.pt(pub) == P, "public key of the secret")
    env.check(ref.Hs(data, ref.enc(P), ref.enc(P * ref.sc(c) + ref.G * ref.sc(r))) == ref.sc(c), "defining equation")

    def ver(data=data, c=c, r=r, pub=pub):
        return bool(cr.check_signature(data, c, r, pub))
    env.check(ver(), "an honest signature is accepted")
    y = env.scalar("y")
    env.assume(not (ref.sc(y) == ref.sc(x)) and not (ref.sc(y) == ref.sc(c)) and not (ref.sc(y) == ref.sc(r)))
    env.check(not ver(c=y), "another challenge")
    env.check(not ver(r=y), "another response")
    env.check(not ver(pub=ref.point(ref.G * ref.sc(y))), "another key")
    env.check(not ver(data=ref.cat(data, b"\\0")), "a longer message")
    if n:
        env.check(not ver(data=ref.xor(data, bytes(n - 1) + b"\\1")), "another message")
        env.check(not ver(data=data[:-1]), "a shorter message")
    c2, r2, _ = cr.generate_signature(data, x)
    env.check(not (ref.G * (ref.sc(r) + ref.sc(c) * ref.sc(x)) == ref.G * (ref.sc(r2) + ref.sc(c2) * ref.sc(x))), "fresh nonce per signature")


@contract("C11", "bounded", targets=["crypto.check_signature", "ring_ct.check_ring_singature"], conc=20, conc_time=4, backend="py")
def reduced(env):
    """scalars that are not reduced are refused"""
    cr, ref, rc = env.mod(CR), env.ref, env.mod(RC)
    x, data = env.scalar("x"), env.bytes("data", 32)
    c, r, pub = cr.generate_signature(data, x)
    for what in ("c", "r"):
        cc, rr = env.copy(c), env.copy(r)
        (cc if what == "c" else rr).v += ref.L
        res = env.attempt(cr.check_signature, data, cc, rr, pub)
        env.check(not (res.ok and res.value), "challenge or response not reduced")
    P = cr.scalarmult_base(x)
    ki = cr.scalarmult(cr.hash_to_point(cr.encodepoint(P)), x)
    sig = rc.generate_ring_signature(data, ki, [P], x, 0)
    env.check(rc.check_ring_singature(data, ki, [P], sig), "accepted")
    for j in (0, 1):
        s2 = [[env.copy(a), env.copy(b)] for a, b in sig]
        s2[0][j].v += ref.L
        res = env.attempt(rc.check_ring_singature, data, ki, [P], s2)
        env.check(not (res.ok and res.value), "ring signature scalar not reduced")


# ---- ring signature ------------------------------------------------------------------------------------------------
@contract("C11", "alg", targets=["ring_ct.generate_ring_signature", "ring_ct.check_ring_singature"],
          variants=[{"n": n, "idx": i} for n in (1, 2, 3, 5) for i in range(n)], thorough=[{"n": n, "idx": i} for n in (4, 7, 11) for i in range(n)],
          conc=4, conc_time=5, backend="trezor+py")
def ring_signature(env, n, idx):
    """for all secrets, messages and rings, at every position"""
    cr, ref, rc = env.mod(CR), env.ref, env.mod(RC)
    x, msg = env.scalar("x"), env.bytes("msg", 32)
    pubs = [ref.G * ref.sc(x) if i == idx else ref.pt(env.point("P%d" % i)) for i in range(n)]
    I = ref.Hp(ref.enc(pubs[idx])) * ref.sc(x)
    rp = [ref.point(P) for P in pubs]
    sig = rc.generate_ring_signature(msg, ref.point(I), rp, x, idx, env.choose("test", [False, True]))
    env.check(len(sig) == n and all(len(s) == 2 for s in sig), "one pair per member")
    cs = [(ref.sc(a), ref.sc(b)) for a, b in sig]
    parts = [msg]
    for P, (c, r) in zip(pubs, cs):
        parts += [ref.enc(ref.G * r + P * c), ref.enc(ref.Hp(ref.enc(P)) * r + I * c)]
    env.check(ref.Hs(*parts) == sum((c for c, _ in cs), ref.S(0)), "defining equation")

    def ver(msg=msg, I=I, pubs=pubs, sig=sig):
        return bool(rc.check_ring_singature(msg, ref.point(I), [ref.point(P) for P in pubs], sig))
    env.check(ver(), "an honest signature is accepted")
    y = env.scalar("y")
    env.check(not ver(msg=ref.xor(msg, b"\\1" + bytes(31))), "another message")
    env.check(not ver(I=ref.pt(env.point("J"))), "another key image")
    for i in range(n):
        p2 = list(pubs)
        p2[i] = ref.pt(env.point("X"))
        env.check(not ver(pubs=p2), "another ring member")
        for j in (0, 1):
            s2 = [list(s) for s in sig]
            s2[i][j] = y
            env.check(not ver(sig=s2), "another scalar")
    if n > 1:
        env.check(not ver(pubs=pubs[1:] + pubs[:1]), "reordered ring")
    # tests of the arguments
    if n > 1:
        env.refuses("secret of another member", rc.generate_ring_signature, msg, ref.point(I), rp, x, (idx + 1) % n, True)
    env.refuses("image of another key", rc.generate_ring_signature, msg, ref.point(ref.pt(env.point("J2"))), rp, x, idx, True)


@contract("C11", "alg", targets=["ring_ct.export_key_image", "monero.generate_key_image_helper"], variants=[{"sub": s, "k": k} for s in ((0, 0), (0, 1), (3, 2)) for k in (0, 2)],
          conc=6, conc_time=5)
def export_image(env, sub, k):
    """the exported image belongs to the output, with a proof that the exporter knows its secret"""
    from contracts import txlib as T
    cr, ref, rc, mo = env.mod(CR), env.ref, env.mod(RC), env.mod("monero_glue.xmr.monero")
    a, b, r = env.scalar("a"), env.scalar("b"), env.scalar("r")
    creds = T.creds_of(env, a, b)
    D, C = mo.generate_sub_address_keys(a, creds.spend_key_public, *sub)
    subs = mo.compute_subaddresses(creds, sub[0], [sub[1], sub[1] + 1])
    pub = cr.scalarmult_base(r) if sub == (0, 0) else cr.scalarmult(D, r)
    der = cr.generate_key_derivation(C, r)
    P = cr.derive_public_key(der, k, D)
    ki, sig = rc.export_key_image(creds, subs, P, pub, [], k, env.choose("test", [True, False]), env.choose("verify", [True, False]))
    I = ref.pt(ki)
    d = ref.pt(P)
    c, s = ref.sc(sig[0][0]), ref.sc(sig[0][1])
    env.check(len(sig) == 1, "ring of one")
    env.check(ref.Hs(ref.enc(I), ref.enc(ref.G * s + d * c), ref.enc(ref.Hp(ref.enc(d)) * s + I * c)) == c, "defining equation over the image")
    m = (ref.sc(mo.get_subaddress_secret_key(a, major=sub[0], minor=sub[1])) if sub != (0, 0) else ref.S(0))
    x = ref.Hs(ref.enc(ref.pt(der)), ref.varint(k)) + ref.sc(b) + m
    env.check(I == ref.Hp(ref.enc(d)) * x, "key image of the output secret")
    env.refuses("an output of someone else", rc.export_key_image, creds, subs, env.point("X"), pub, [], k)


# ---- range proofs -------------------------------------------------------------------------------------------------
PAT = [0, 1, 2 ** 64 - 1, 2 ** 63, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA, 1234567890123, 2 ** 64 - 2 ** 31]


def borromean_ok(env, C, R, amount, a, decoded):
    """the defining equations of the proof, over the reference group"""
    ref = env.ref
    s0 = [ref.sc(x) for x in R.asig.s0]
    s1 = [ref.sc(x) for x in R.asig.s1]
    ee = ref.sc(R.asig.ee)
    Ci = [ref.pt(x) for x in R.Ci]
    n = len(Ci)
    env.check(len(s0) == n and len(s1) == n, "shape of the proof")
    env.check(ref.pt(C) == ref.G * ref.sc(a) + ref.H * amount, "commitment opens to the amount and the mask")
    env.check(sum(Ci, ref.O) == ref.pt(C), "bit commitments sum to the commitment")
    parts = []
    for i in range(n):
        ch = ref.Hs(ref.enc(ref.G * s0[i] + Ci[i] * ee))
        parts.append(ref.enc(ref.G * s1[i] + (Ci[i] - ref.H * (1 << i)) * ch))
    env.check(ref.Hs(*parts) == ee, "the challenges close")


@contract("C11", "alg", targets=["ring_ct.prove_range", "ring_ct.prove_range_mem", "ring_ct.prove_range_orig", "mlsag2.gen_borromean", "ring_ct.ver_range",
                                 "mlsag2.ver_borromean", "sub.recode_ext.recode_rangesig", "sub.recode_ext.flatten_rsig", "sub.recode_ext.inflate_rsig"],
          variants=[{"amount": p, "mem": m} for p in PAT for m in (True, False)],
          thorough=[{"amount": 1 << k, "mem": m} for k in range(64) for m in (True, False)] + [{"amount": 2 ** 64 - 1 - (1 << k), "mem": True} for k in range(64)],
          conc=1, conc_time=10, timeout=600, backend="trezor")
def range_proof(env, amount, mem):
    """for all masks and nonces, at the listed amounts"""
    cr, ref, rc, mo = env.mod(CR), env.ref, env.mod(RC), env.mod("monero_glue.xmr.monero")
    last = env.scalar("mask") if env.choose("given mask", [True, False]) else None
    form = env.choose("form", ["decoded", "encoded", "flat"]) if amount == PAT[6] else "decoded"
    C, a, R = rc.prove_range(amount, last, mem_opt=mem, decode=form == "decoded", byte_enc=form == "flat")
    if last is not None:
        env.check(ref.sc(a) == ref.sc(last), "the requested mask is used")
    if form == "flat":
        env.check(len(R) == 64 * 3 * 32 + 32, "size of the flat form")
        R = mo.inflate_rsig(R)
    borromean_ok(env, C, R, amount, a, form == "decoded")
    ok = rc.ver_range(C, R, decode=form != "decoded")
    env.check(bool(ok), "an honest proof is accepted")
    if form == "decoded":
        env.check(not rc.ver_range(env.point("X"), R, decode=False), "for another commitment it is refused")
        for i in (0, 1, 63):
            for part, lst in (("s0", R.asig.s0), ("s1", R.asig.s1), ("Ci", R.Ci)):
                old = lst[i]
                lst[i] = env.point("Y") if part == "Ci" else env.scalar("y")
                env.check(not rc.ver_range(C, R, decode=False), "changed %s is refused" % part)
                env.check(not rc.ver_range(None, R, decode=False), "changed %s is refused whatever the commitment" % part)
                lst[i] = old
        old = R.asig.ee
        R.asig.ee = env.scalar("e")
        env.check(not rc.ver_range(C, R, decode=False), "changed challenge is refused")
        R.asig.ee = old
        env.check(bool(rc.ver_range(C, R, decode=False)), "the restored proof is accepted")


@contract("C11", "alg", targets=["ring_ct.prove_range_chunked", "ring_ct.ver_range"], variants=[{"amount": p} for p in PAT],
          thorough=[{"amount": 1 << k} for k in range(64)], conc=2, conc_time=8, timeout=600)
def range_chunked(env, amount):
    """the buffer-based prover gives the same kind of proof"""
    ref, rc, mo = env.ref, env.mod(RC), env.mod("monero_glue.xmr.monero")
    last = env.scalar("mask") if env.choose("given mask", [True, False]) else None
    C, a, (s0, s1, ee, ci) = rc.prove_range_chunked(amount, last)
    if last is not None:
        env.check(ref.sc(a) == ref.sc(last), "the requested mask is used")
    R = mo.inflate_rsig(ref.cat(s0, s1, ee, ci))
    borromean_ok(env, C, R, amount, a, False)
    env.check(bool(rc.ver_range(C, R, decode=True)), "an honest proof is accepted")


@contract("C11", "bounded", targets=["ring_ct.prove_range", "ring_ct.ver_range", "ec_trezor.prove_range"], conc=24, conc_time=20)
def range_random(env):
    """random amounts, every output form and back end"""
    ref, rc, mo = env.ref, env.mod(RC), env.mod("monero_glue.xmr.monero")
    amount = env.u64("amount")
    last = env.scalar("mask") if env.choose("given mask", [True, False]) else None
    form = env.choose("form", ["decoded", "encoded", "flat"])
    be, mem = env.choose("backend", [True, False]), env.choose("mem", [True, False])
    C, a, R = rc.prove_range(amount, last, mem_opt=mem, backend_impl=be, decode=form == "decoded", byte_enc=form == "flat")
    if last is not None:
        env.check(ref.sc(a) == ref.sc(last), "the requested mask is used")
    if form == "flat":
        R = mo.inflate_rsig(R)
    borromean_ok(env, C, R, amount, a, form == "decoded")
    env.check(bool(rc.ver_range(C, R, decode=form != "decoded")), "an honest proof is accepted")


@contract("C11", "sym", targets=["ring_ct.d2b"], conc=50, conc_time=3)
def bits(env):
    """digits of an amount"""
    rc = env.mod(RC)
    x = env.bv("x", 12)
    d = rc.d2b(x, 12)
    v = 0
    for i, b in enumerate(d):
        env.check(env.all([b >= 0, b <= 1]), "digit")
        v = v + (b << i)
    env.check(len(d) == 12 and v == x, "digits give the amount")
