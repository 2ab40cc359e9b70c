"""C05: recognising, opening and spending outputs"""
from pyvc.run import contract
from contracts import txlib as T

MO = "monero_glue.xmr.monero"
U64 = 2 ** 64 - 1


def deriv(ref, s, P):
    return P * (s * 8)


def hs_idx(env, ref, D, i):
    return ref.Hs(ref.enc(D), ref.varint(i))


@contract("C05", "alg", targets=["crypto.generate_key_derivation", "crypto.derivation_to_scalar", "crypto.derive_public_key", "crypto.derive_secret_key",
                                 "monero.derive_subaddress_public_key"], conc=60, backend="trezor+py")
def primitives(env):
    """for all keys and output indices"""
    cr, mo, ref = env.mod("monero_glue.xmr.crypto"), env.mod(MO), env.ref
    a, b, r = env.scalar("a"), env.scalar("b"), env.scalar("r")
    i = env.int("i", 0, 2 ** 21)
    ra, rb, rr = ref.sc(a), ref.sc(b), ref.sc(r)
    A, B, R = ref.point(ref.G * ra), ref.point(ref.G * rb), ref.point(ref.G * rr)
    d1 = cr.generate_key_derivation(A, r)
    d2 = cr.generate_key_derivation(R, a)
    env.check(ref.pt(d1) == ref.G * (ra * rr * 8), "derivation is eight times the shared point")
    env.check(ref.pt(d1) == ref.pt(d2), "both sides derive the same point")
    h = ref.Hs(ref.enc(ref.G * (ra * rr * 8)), ref.varint(i))
    env.check(ref.sc(cr.derivation_to_scalar(d1, i)) == h, "derivation scalar")
    P = cr.derive_public_key(d1, i, B)
    x = cr.derive_secret_key(d2, i, b)
    env.check(ref.pt(P) == ref.G * (h + rb), "one-time public key")
    env.check(ref.sc(x) == h + rb, "one-time secret key")
    env.check(ref.pt(mo.derive_subaddress_public_key(P, d2, i)) == ref.G * rb, "spend key is recovered from the one-time key")
    env.check(env.all([ref.sc(a) == ra, ref.sc(b) == rb, ref.sc(r) == rr, ref.pt(A) == ref.G * ra, ref.pt(B) == ref.G * rb, ref.pt(R) == ref.G * rr]),
              "arguments are not modified")


@contract("C05", "alg", targets=["monero.is_out_to_acc_precomp", "monero.generate_key_image_helper", "monero.generate_key_image_helper_precomp",
                                 "monero.generate_key_image"],
          variants=[{"sub": s, "via": v, "n": n} for s in ((0, 0), (0, 1), (1, 0), (2, 7)) for v in ("main", "additional") for n in (1, 3)],
          conc=4, conc_time=8)
def receive(env, sub, via, n):
    """the recipient finds the right index, the right derivation, and the secret of the output"""
    cr, mo, ref = env.mod("monero_glue.xmr.crypto"), env.mod(MO), env.ref
    a, b, r, r2 = env.scalar("a"), env.scalar("b"), env.scalar("r"), env.scalar("r2")
    ra, rb, rr, rs = ref.sc(a), ref.sc(b), ref.sc(r), ref.sc(r2)
    creds = T.creds_of(env, a, b)
    idx = env.int("i", 0, n - 1)
    idx = int(idx)
    D, C = mo.generate_sub_address_keys(a, creds.spend_key_public, *sub)
    subs = {}
    for M, m in ((0, 0), (0, 1), (1, 0), (2, 7), (0, 2), (1, 1)):
        mo.compute_subaddresses(creds, M, [m], subs)
    s = r2 if via == "additional" else r
    if sub == (0, 0):
        pub = cr.scalarmult_base(s)
    else:
        pub = cr.scalarmult(D, s)
    main = pub if via == "main" else cr.scalarmult_base(r)
    adds = []
    if via == "additional":
        adds = [cr.scalarmult_base(x) for x in env.scalars("o", n)]
        adds[idx] = pub
    elif n > 1 and env.choose("extra keys", [0, 1]):
        adds = [cr.scalarmult_base(x) for x in env.scalars("o", n)]
    der = cr.generate_key_derivation(C, s)
    P = cr.derive_public_key(der, idx, D)
    ders = [cr.generate_key_derivation(x, a) for x in adds]
    got = mo.is_out_to_acc_precomp(subs, P, cr.generate_key_derivation(main, a), ders, idx)
    env.check(got is not None and tuple(got[0]) == sub, "attributed to the right index")
    env.check(ref.pt(got[1]) == ref.pt(der), "with the right derivation")
    x, ki, rd = mo.generate_key_image_helper(creds, subs, P, main, adds, idx)
    env.check(ref.G * ref.sc(x) == ref.pt(P), "secret is the logarithm of the output key")
    env.check(ref.pt(ki) == ref.Hp(ref.enc(ref.pt(P))) * ref.sc(x), "key image")
    env.check(ref.pt(rd) == ref.pt(main) * (ra * 8), "derivation of the main key is returned")
    other = cr.derive_public_key(der, idx + 1, D)
    env.check(mo.is_out_to_acc_precomp(subs, other, cr.generate_key_derivation(main, a), ders, idx) is None, "output with another position is not ours")
    env.refuses("helper refuses outputs that are not ours", mo.generate_key_image_helper, creds, subs, other, main, adds, idx)
    env.refuses("helper refuses a wrong index", mo.generate_key_image_helper_precomp, creds, P, der, idx, (5, 5))
    del subs[cr.encodepoint(D)]
    env.check(mo.is_out_to_acc_precomp(subs, P, cr.generate_key_derivation(main, a), ders, idx) is None, "unknown subaddress is not matched")


@contract("C05", "alg", targets=["monero.is_out_to_acc_precomp"], variants=[{"n": n} for n in (1, 2, 3)], conc=10, conc_time=6)
def additional_count(env, n):
    """too few additional keys are an error, not a wrong attribution"""
    cr, mo, ref = env.mod("monero_glue.xmr.crypto"), env.mod(MO), env.ref
    a, b = env.scalar("a"), env.scalar("b")
    creds = T.creds_of(env, a, b)
    subs = mo.compute_subaddresses(creds, 0, [0, 1])
    P = cr.scalarmult_base(env.scalar("p"))
    ders = [cr.scalarmult_base(x) for x in env.scalars("d", n)]
    env.refuses("too few additional keys", mo.is_out_to_acc_precomp, subs, P, cr.scalarmult_base(env.scalar("q")), ders, n)
    for k in range(n):
        env.check(mo.is_out_to_acc_precomp(subs, P, cr.scalarmult_base(env.scalar("q")), ders, k) is None, "foreign output")


@contract("C05", "alg", targets=["monero.generate_key_image_helper_precomp"], conc=10, conc_time=6)
def watch_only(env):
    """without a spend secret, or for a key that does not match, nothing is produced"""
    cr, mo, ref = env.mod("monero_glue.xmr.crypto"), env.mod(MO), env.ref
    a, b, p = env.scalar("a"), env.scalar("b"), env.scalar("p")
    creds = T.creds_of(env, a, b)
    D = cr.scalarmult_base(env.scalar("d"))
    i = env.int("i", 0, 300)
    env.refuses("mismatched output key", mo.generate_key_image_helper_precomp, creds, cr.scalarmult_base(p), D, i, (0, 0))
    creds.spend_key_private = cr.sc_0()
    P = cr.derive_public_key(D, i, creds.spend_key_public)
    env.refuses("watch-only", mo.generate_key_image_helper_precomp, creds, P, D, i, (0, 0))


class Rv:
    pass


@contract("C05", "alg", targets=["ring_ct.ecdh_encode", "ring_ct.ecdh_decode", "ring_ct.ecdh_encdec", "monero.commitment_mask", "monero.ecdh_hash",
                                 "monero.ecdh_decode_rv", "monero.ecdh_decode_simple", "TTransactionBuilder._s6_ecdh_encode",
                                 "TTransactionBuilder._s6_serialize_ecdh", "TTransactionBuilder._s6_get_ecdh_info_and_out_pk"],
          variants=[{"v2": v, "enc": e} for v in (False, True) for e in ("host", "device")], conc=20, conc_time=8, backend="trezor+py")
def amounts(env, v2, enc):
    """recipient recovers amount and mask, for all amounts, masks and shared secrets"""
    cr, mo, ref = env.mod("monero_glue.xmr.crypto"), env.mod(MO), env.ref
    rc = env.mod("monero_glue.xmr.ring_ct")
    xt = env.mod("monero_serialize.xmrtypes")
    d = env.point("D")
    i = env.int("i", 0, 200)
    amount = env.u64("amount")
    key = cr.derivation_to_scalar(d, i)
    kb = ref.encs(ref.sc(key))
    mref = ref.Hs(b"commitment_mask", kb) if v2 else None
    mask = mo.commitment_mask(cr.encodeint(key)) if v2 else env.scalar("mask")
    if v2:
        env.check(ref.sc(mask) == mref, "commitment mask of the shared secret")
    mk = ref.sc(mask)
    C = ref.G * mk + ref.H * ref.S(amount)
    if enc == "host":
        t = rc.ecdh_encode(xt.EcdhTuple(mask=cr.sc_init_copy(mask) if hasattr(cr, "sc_init_copy") else mask, amount=cr.sc_init(amount)),
                           derivation=cr.encodeint(key), v2=v2)
        wm, wa = cr.encodeint(t.mask), cr.encodeint(t.amount)
    else:
        b = T.builder(env, None)
        b.bp_version = 2 if v2 else 1
        b.sumout = cr.sc_0()
        P = env.point("P")
        dst, com, raw = b._s6_get_ecdh_info_and_out_pk(P, amount, mask, key)
        env.check(ref.pt(com) == C, "commitment to amount and mask")
        env.check(dst == cr.encodepoint(P), "one-time key is published")
        env.check(ref.sc(b.sumout) == mk, "mask is accumulated")
        env.check(ref.sc(mask) == mk, "mask is not modified")
        env.check(len(raw) == (8 if v2 else 64), "length of the encrypted amount")
        if v2:
            wm, wa = bytes(32), ref.cat(raw, bytes(24))
        else:
            wm, wa = raw[:32], raw[32:]
    if v2:
        x = ref.xor(ref.le(amount, 8), ref.keccak(b"amount", kb)[:8])
        env.check(wa[:8] == x, "amount is masked with the hash of the shared secret")
    else:
        h1 = ref.Hs(kb)
        env.check(env.all([ref.dec_sc(wm) == mk + h1, ref.dec_sc(wa) == ref.S(amount) + ref.Hs(ref.encs(h1))]), "masking of mask and amount")
    rv = Rv()
    rv.type = xt.RctType.Bulletproof2 if v2 else env.choose("type", [xt.RctType.Bulletproof, xt.RctType.Simple, xt.RctType.Full])
    rv.ecdhInfo = [xt.EcdhTuple(mask=wm, amount=wa)]
    rv.outPk = [xt.CtKey(dest=b"", mask=ref.enc(C))]
    sk = cr.derivation_to_scalar(d, i)
    ga, gm = mo.ecdh_decode_simple(rv, sk, 0, v2=v2)
    env.check(cr.sc_get64(ga) == amount, "amount is recovered")
    env.check(ref.sc(gm) == mk, "mask is recovered")
    rv.ecdhInfo = [xt.EcdhTuple(mask=wm, amount=wa)]
    r = env.attempt(mo.ecdh_decode_rv, rv, d, i)
    if env.symbolic:
        if bool(i == 0):
            env.check(r.ok, "dispatch on the type")
    elif i == 0:
        env.check(r.ok and cr.sc_get64(r.value[0]) == amount, "dispatch on the type")
    rv.ecdhInfo = [xt.EcdhTuple(mask=wm, amount=wa)]
    rv.outPk = [xt.CtKey(dest=b"", mask=ref.enc(C + ref.G))]
    env.refuses("another commitment is refused", mo.ecdh_decode_simple, rv, sk, 0, v2=v2)
    rv.ecdhInfo = [xt.EcdhTuple(mask=wm, amount=wa)]
    rv.outPk = [xt.CtKey(dest=b"", mask=ref.enc(C))]
    env.refuses("another shared secret is refused", mo.ecdh_decode_simple, rv, cr.sc_add(sk, cr.sc_init(1)), 0, v2=v2)


KINDS = {
    "std": [("A", (0, 0))],
    "std+change": [("A", (0, 0)), ("me", "change")],
    "sub+change": [("A", (0, 5)), ("me", "change")],
    "sub": [("A", (3, 1))],
    "sub,sub+change": [("A", (0, 5)), ("B", (1, 0)), ("me", "change")],
    "std,sub+change": [("A", (0, 0)), ("B", (1, 2)), ("me", "change")],
    "change,sub,std": [("me", "change"), ("A", (0, 1)), ("B", (0, 0))],
    "sub twice+change": [("A", (0, 5)), ("A", (0, 5)), ("me", "change")],
    "std,std": [("A", (0, 0)), ("B", (0, 0))],
    "own sub+change": [("me", (0, 4)), ("me", "change")],
}


@contract("C05", "alg", targets=["TTransactionBuilder.init_transaction", "TTransactionBuilder._s6_compute_tx_keys", "TTransactionBuilder._s6_set_out_derivation",
                                 "TTransactionBuilder._s6_set_out_additional_keys", "sub.addr.classify_subaddresses", "TTransactionBuilder.check_change",
                                 "TTransactionBuilder.all_out1_set_tx_extra"],
          variants=[{"kind": k, "account": a, "bp": bp} for k in KINDS for a in (0, 2) for bp in (1, 2)], conc=2, conc_time=8)
def device_outputs(env, kind, account, bp):
    """the keys the device publishes let every recipient recognise and spend its output"""
    cr, mo, ref = env.mod("monero_glue.xmr.crypto"), env.mod(MO), env.ref
    tx = env.mod("monero_glue.xmr.sub.tsx_helper")
    who = {}
    for n in ("me", "A", "B"):
        who[n] = T.creds_of(env, env.scalar("a" + n), env.scalar("b" + n))
    outs, change = [], None
    own = []
    for w, s in KINDS[kind]:
        isch = s == "change"
        if isch:
            s = (account, 0)
        d = T.dest(env, who[w], s[0], s[1], env.int("amount", 1, 127))
        if isch:
            change = T.same_dest(env, d)
        outs.append(d)
        own.append((w, s))
    b = T.builder(env, who["me"])
    td = T.tsx_data(env, outs, change, account=account, bp=bp)
    env.run(b.init_transaction(td))
    r = ref.sc(b.r)
    keys = []
    for i, d in enumerate(outs):
        b.out_idx = i
        if bp == 1:
            b.output_last_mask = env.scalar("lm")
        P, ak = b._s6_compute_tx_keys(d)
        keys.append((P, ak, b.output_masks[-1]))
    pub = b.r_pub
    adds = list(b.additional_tx_public_keys)
    env.check(len(adds) in (0, len(outs)), "no additional keys or one per output")
    env.run(b.all_out1_set_tx_extra())
    ex = env.run(tx.parse_extra_fields(b.tx.extra))
    xt = env.mod("monero_serialize.xmrtypes")
    f = tx.find_tx_extra_field_by_type(ex, xt.TxExtraPubKey)
    env.check(f.pub_key == cr.encodepoint(pub), "transaction key is published")
    fa = tx.find_tx_extra_field_by_type(ex, xt.TxExtraAdditionalPubKeys)
    env.check((fa is None) == (not adds), "additional keys are published exactly if there are any")
    if adds:
        env.check(env.all([x == y for x, y in zip(fa.data, adds)]) and len(fa.data) == len(adds), "additional keys in order")
    for i, (w, s) in enumerate(own):
        c = who[w]
        subs = {}
        for M, m in {(0, 0), (account, 0), (0, 5), (3, 1), (1, 0), (1, 2), (0, 1), (0, 4)}:
            mo.compute_subaddresses(c, M, [m], subs)
        P, ak, mask = keys[i]
        main = cr.generate_key_derivation(cr.decodepoint(f.pub_key), c.view_key_private)
        ders = [cr.generate_key_derivation(cr.decodepoint(x), c.view_key_private) for x in (fa.data if fa else [])]
        got = mo.is_out_to_acc_precomp(subs, P, main, ders, i)
        env.check(got is not None and tuple(got[0]) == tuple(s), "recipient recognises the output under the right index")
        x, ki, _ = mo.generate_key_image_helper(c, subs, P, cr.decodepoint(f.pub_key), [cr.decodepoint(y) for y in (fa.data if fa else [])], i)
        env.check(ref.G * ref.sc(x) == ref.pt(P), "recipient's secret opens the output key")
        env.check(ref.sc(cr.derivation_to_scalar(got[1], i)) == ref.sc(ak), "amount key is shared with the recipient")
        env.check(ref.sc(mask) == ref.Hs(b"commitment_mask", ref.encs(ref.sc(ak))), "mask follows from the amount key")
        for n2 in who:
            if n2 == w:
                continue
            c2 = who[n2]
            sub2 = {}
            for M, m in {(0, 0), (account, 0), (0, 5), (1, 0)}:
                mo.compute_subaddresses(c2, M, [m], sub2)
            main2 = cr.generate_key_derivation(cr.decodepoint(f.pub_key), c2.view_key_private)
            ders2 = [cr.generate_key_derivation(cr.decodepoint(y), c2.view_key_private) for y in (fa.data if fa else [])]
            env.check(mo.is_out_to_acc_precomp(sub2, P, main2, ders2, i) is None, "nobody else recognises it")
    env.check(env.all([bool(not (ref.pt(keys[i][0]) == ref.pt(keys[j][0]))) for i in range(len(keys)) for j in range(i)]), "one-time keys are distinct")
