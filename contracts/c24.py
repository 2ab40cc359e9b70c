"""C24: hashing the transaction while it streams through equals hashing the finished transaction"""
import itertools
from pyvc.run import contract
from contracts import txlib as T

BIG = 2 ** 20
XT = "monero_serialize.xmrtypes"
MH = "monero_glue.xmr.sub.mlsag_hasher"
KH = "monero_glue.xmr.sub.keccak_hasher"
MO = "monero_glue.xmr.monero"


# ---- the accumulator of the signed message -------------------------------------------------------------------
def proof(env, ty, n_lr):
    xt = env.mod(XT)
    k = env.key
    if ty in (3, 4):
        p = xt.Bulletproof(V=[], A=k("A"), S=k("S"), T1=k("T1"), T2=k("T2"), taux=k("taux"), mu=k("mu"), L=[k("L%d" % i) for i in range(n_lr)],
                           R=[k("R%d" % i) for i in range(n_lr)], a=k("a"), b=k("b"), t=k("t"))
        return p, [p.A, p.S, p.T1, p.T2, p.taux, p.mu] + list(p.L) + list(p.R) + [p.a, p.b, p.t]
    p = xt.RangeSig(asig=xt.BoroSig(s0=[k("s0") for _ in range(64)], s1=[k("s1") for _ in range(64)], ee=k("ee")), Ci=[k("Ci") for _ in range(64)])
    return p, list(p.asig.s0) + list(p.asig.s1) + [p.asig.ee] + list(p.Ci)


def rct(env, ty, n_in, n_out, n_p, n_lr):
    """a complete signature and the message a verifier computes for it"""
    xt, ref = env.mod(XT), env.ref
    fee = env.int("fee", 0, 2 ** 64 - 1)
    msg = env.key("prefix")
    pseudo = [env.key("po%d" % i) for i in range(n_in)]
    ecdh, outpk = [], []
    for i in range(n_out):
        if ty == 4:
            ecdh.append(xt.EcdhTuple(mask=env.key("mz"), amount=ref.cat(env.bytes("am%d" % i, 8), bytes(24))))
        else:
            ecdh.append(xt.EcdhTuple(mask=env.key("mk%d" % i), amount=env.key("am%d" % i)))
        outpk.append(xt.CtKey(dest=env.key("d%d" % i), mask=env.key("c%d" % i)))
    ps = [proof(env, ty, n_lr) for _ in range(n_p)]
    rv = xt.RctSig(type=ty, txnFee=fee, message=msg, ecdhInfo=ecdh, outPk=outpk, pseudoOuts=pseudo if ty == 2 else [])
    rv.p = xt.RctSigPrunable(rangeSigs=[p for p, _ in ps] if ty < 3 else [], bulletproofs=[p for p, _ in ps] if ty >= 3 else [], MGs=[],
                             pseudoOuts=pseudo if ty >= 3 else [])
    base = [ref.le(ty, 1), ref.varint(fee)]
    if ty == 2:
        base += pseudo
    for e in ecdh:
        base += [e.amount[:8]] if ty == 4 else [e.mask, e.amount]
    base += [o.mask for o in outpk]
    want = ref.keccak(msg, ref.keccak(*base), ref.keccak(*[x for _, q in ps for x in q]))
    return rv, [p for p, _ in ps], pseudo, want


SHAPES = [{"ty": ty, "n_in": a, "n_out": b, "n_p": c, "n_lr": l} for ty in (3, 4) for a, b, c, l in
          [(1, 1, 1, 6), (1, 2, 1, 7), (2, 3, 2, 7), (3, 4, 3, 1), (2, 16, 1, 10)]] + \
         [{"ty": ty, "n_in": a, "n_out": b, "n_p": b, "n_lr": 0} for ty, a, b in [(1, 1, 1), (1, 1, 2), (2, 1, 1), (2, 2, 3), (2, 3, 2)]]


@contract("C24", "alg", targets=["PreMlsagHasher.init", "PreMlsagHasher.set_type_fee", "PreMlsagHasher.set_pseudo_out", "PreMlsagHasher.set_ecdh", "PreMlsagHasher.set_out_pk",
                                 "PreMlsagHasher.rctsig_base_done", "PreMlsagHasher.rsig_val", "PreMlsagHasher.set_message", "PreMlsagHasher.get_digest", "mlsag_hasher.get_pre_mlsag_hash"],
          variants=SHAPES, conc=2, conc_time=4)
def accumulated(env, ty, n_in, n_out, n_p, n_lr):
    """for every signature type: accumulating piece by piece, hashing at once and the definition give the same message; proofs may arrive at any point"""
    mh, xt = env.mod(MH), env.mod(XT)
    rv, ps, pseudo, want = rct(env, ty, n_in, n_out, n_p, n_lr)
    env.check(env.run(mh.get_pre_mlsag_hash(rv)) == want, "message hash of the complete transaction")
    h = mh.PreMlsagHasher()
    h.init(ty != 1)
    env.run(h.set_type_fee(ty, rv.txnFee))
    early = env.choose("when proofs arrive", ["with outputs", "before", "after"])
    raw = env.choose("raw", [True, False])
    store = env.choose("stored in between", [False, True])

    def val(p):
        if raw and ty >= 3:
            env.run(h.rsig_val([p.A, p.S, p.T1, p.T2, p.taux, p.mu], True, raw=True))
            env.run(h.rsig_val(env.ref.cat(*(list(p.L) + list(p.R) + [p.a, p.b, p.t])), True, raw=True))
        else:
            env.run(h.rsig_val(p, ty >= 3, raw=False))
    if early == "before":
        for p in ps:
            val(p)
    if ty == 2:
        for x in pseudo:
            env.run(h.set_pseudo_out(x))
    left = list(ps)
    for e in rv.ecdhInfo:
        if ty == 4:
            env.run(h.set_ecdh(e.amount[:8]))
        elif raw:
            env.run(h.set_ecdh(env.ref.cat(e.mask, e.amount)))
        else:
            env.run(h.set_ecdh(e, raw=False))
        if early == "with outputs" and left:
            val(left.pop(0))
        if store:
            s = h.state_save()
            h = mh.PreMlsagHasher(state=s)
    if early == "with outputs":
        while left:
            val(left.pop(0))
    if env.choose("message first", [True, False]):
        env.run(h.set_message(rv.message))
        set_ = True
    else:
        set_ = False
    for o in rv.outPk:
        env.run(h.set_out_pk(o.mask) if not raw else h.set_out_pk(None, mask=o.mask))
        if store:
            h2 = mh.PreMlsagHasher()
            h2.state_load(h.state_save())
            h = h2
    if not set_:
        env.run(h.set_message(rv.message))
    env.run(h.rctsig_base_done())
    if early == "after":
        for p in ps:
            val(p)
    env.check(env.run(h.get_digest()) == want, "accumulated message hash")


OPS = ("init", "fee", "pseudo", "ecdh", "outpk", "done", "digest", "rsig")
NEXT = {"init": {0: 1}, "fee": {1: 2}, "pseudo": {2: 3, 3: 3}, "ecdh": {2: 4, 3: 4, 4: 4}, "outpk": {4: 5, 5: 5}, "done": {5: 6}, "digest": {6: 8},
        "rsig": {i: i for i in range(7)}}


@contract("C24", "alg", targets=["PreMlsagHasher.init", "PreMlsagHasher.set_type_fee", "PreMlsagHasher.set_pseudo_out", "PreMlsagHasher.set_ecdh", "PreMlsagHasher.set_out_pk",
                                 "PreMlsagHasher.rctsig_base_done", "PreMlsagHasher.rsig_val", "PreMlsagHasher.get_digest"],
          variants=[{"op": o, "at": s} for o in OPS for s in (0, 1, 2, 3, 4, 5, 6, 8)], conc=1, conc_time=1)
def order(env, op, at):
    """every step from every state with arbitrary contents: accepted exactly in the order of the definition, and then appends exactly its bytes"""
    mh, ref = env.mod(MH), env.ref
    cr, kh = env.mod("monero_glue.xmr.crypto"), env.mod(KH)
    h = mh.PreMlsagHasher()
    m0, b0, p0 = env.key("m0"), env.key("b0"), env.key("p0")
    h.kc_master.update(m0)
    h.rsig_hasher.update(p0)
    h.rtcsig_hasher.kwriter.write(b0)
    h.state = at
    if at:
        h.is_simple = True
    if at >= 6:
        h.rtcsig_hasher = None
    if at >= 8:
        h.rsig_hasher = None
    x = env.key("x")
    fee = env.int("fee", 0, 2 ** 64 - 1)
    p, parts = proof(env, 4, 2)
    call = {"init": lambda: h.init(True), "fee": lambda: env.run(h.set_type_fee(4, fee)), "pseudo": lambda: env.run(h.set_pseudo_out(x)),
            "ecdh": lambda: env.run(h.set_ecdh(x)), "outpk": lambda: env.run(h.set_out_pk(x)), "done": lambda: env.run(h.rctsig_base_done()),
            "digest": lambda: env.run(h.get_digest()), "rsig": lambda: env.run(h.rsig_val(p, True))}[op]
    r = env.attempt(call)
    if at not in NEXT[op]:
        env.check(r.exc is not None, "a step out of order is refused: " + op)
        return
    env.check(r.exc is None, "a step in order is accepted: " + op)
    if r.exc is not None:
        return
    env.check(h.state == NEXT[op][at], "state after the step: " + op)
    if op == "digest":
        env.check(r.value == ref.keccak(m0, ref.keccak(p0)), "digest")
        return
    b, pp, mm = [b0], [p0], [m0]
    if op == "fee":
        b += [ref.le(4, 1), ref.varint(fee)]
    elif op in ("pseudo", "ecdh", "outpk"):
        b.append(x)
    elif op == "rsig":
        pp += parts
    elif op == "done":
        mm.append(ref.keccak(b0))
        b = None
    if at < 6 and b is not None:
        env.check(h.rtcsig_hasher.get_digest() == ref.keccak(*b), "what was hashed of the base")
    env.check(h.rsig_hasher.digest() == ref.keccak(*pp), "what was hashed of the proofs")
    env.check(h.kc_master.digest() == ref.keccak(*mm), "what was hashed of the message")


# ---- the streaming hasher ------------------------------------------------------------------------------------
@contract("C24", "alg", targets=["KeccakXmrArchive.buffer", "KeccakXmrArchive.uvarint", "KeccakXmrArchive.uint", "KeccakXmrArchive.field", "KeccakXmrArchive.message_field",
                                 "KeccakXmrArchive.container_size", "KeccakXmrArchive.refresh", "KeccakXmrArchive.keep", "KeccakXmrArchive.release", "KeccakArchive.refresh"],
          variants=[{"op": o} for o in ("buffer", "uvarint", "uint", "key", "hash8", "ecdh", "member", "size", "blob", "archive")], conc=3, conc_time=2)
def stream(env, op):
    """each operation of the streaming hasher, on arbitrary earlier content, appends exactly the serialization of its argument, kept or fresh, moved to another object or not"""
    kh, ref, xt = env.mod(KH), env.ref, env.mod(XT)
    from monero_serialize.core.message_types import BlobType
    a = kh.KeccakXmrArchive()
    pre = env.key("pre")
    env.run(a.buffer(pre))
    how = env.choose("how", ["plain", "kept", "kept before", "refreshed", "moved"])
    if how.startswith("kept"):
        a.keep()
    parts = [pre]
    if how == "kept before":
        env.run(a.uvarint(300))
        parts.append(ref.varint(300))
        a.release()
    if how == "refreshed":
        a.refresh()
    if how == "moved":
        a = kh.KeccakXmrArchive(a.ctx())
    n = env.int("n", 0, 2 ** 64 - 1)
    k = env.key("k")
    if op == "buffer":
        env.run(a.buffer(k))
        parts.append(k)
    elif op == "uvarint":
        env.run(a.uvarint(n))
        parts.append(ref.varint(n))
    elif op == "uint":
        w = env.choose("width", [1, 2, 4, 8])
        v = env.choose("value", [0, 1, 0x7F, 0x80, 0xFF, 2 ** (8 * w - 1), 2 ** (8 * w) - 1])
        env.run(a.uint(v, w))
        parts.append(v.to_bytes(w, "little"))
    elif op == "key":
        env.run(a.field(k, xt.KeyV.ELEM_TYPE))
        parts.append(k)
    elif op == "hash8":
        v = env.bytes("v", 8)
        env.run(a.field(v, xt.Hash8))
        parts.append(v)
    elif op == "ecdh":
        k2 = env.key("k2")
        env.run(a.field(xt.EcdhTuple(mask=k, amount=k2), xt.EcdhInfo.ELEM_TYPE))
        parts += [k, k2]
    elif op == "member":
        f = xt.RctSigBase.f_specs()
        env.run(a.message_field(None, field=f[0], fvalue=4))
        env.run(a.message_field(None, field=f[1], fvalue=n))
        parts += [ref.le(4, 1), ref.varint(n)]
    elif op == "size":
        env.run(a.container_size(n))
        parts.append(ref.varint(n))
    elif op == "blob":
        ln = env.choose("len", [0, 1, 44, 200])
        tx = xt.TransactionPrefix(extra=env.bytes("ex", ln) if ln else b"")
        env.run(a.message_field(tx, ("extra", BlobType)))
        parts += [ref.varint(ln), tx.extra]
    elif op == "archive":
        q = kh.KeccakArchive(a.ctx())
        env.run(q.ar.uvarint(n))
        q2 = kh.KeccakArchive(q.ctx())
        q2.refresh()
        env.run(q2.ar.field(k, xt.ECKey))
        env.check(q2.kwriter.get_digest() == ref.keccak(*parts, ref.varint(n), k), "archive on a given hasher")
        return
    env.check(a.get_digest() == ref.keccak(*parts), "what was hashed")
    env.check(a.get_digest() == ref.keccak(*parts), "reading the digest does not disturb")


# ---- prefix of the finished transaction --------------------------------------------------------------------------
@contract("C24", "alg", targets=["monero.get_transaction_prefix_hash"],
          variants=[{"n_in": a, "n_out": b, "ring": r, "ext": e} for a, b, r, e in [(1, 1, 1, 0), (1, 2, 2, 44), (2, 3, 1, 33), (3, 1, 2, 130), (0, 0, 1, 1)]], conc=3, conc_time=3)
def prefix(env, n_in, n_out, ring, ext):
    """one-step hash of a prefix is the hash of its serialization, for every version, unlock time, offset, key"""
    xt, ref, mo = env.mod(XT), env.ref, env.mod(MO)
    wide = env.choose("which number is wide", [0, 1, 2, 3, 4]) if env.symbolic else None

    def num(name, w):
        return env.int(name, 0, 2 ** 64 - 1) if wide in (None, w) else env.int(name, 1, 127)
    vin = [xt.TxinToKey(amount=num("a%d" % i, 4 if i == 0 else 9), key_offsets=[num("o%d" % j, 0 if i + j == 0 else 1 if i == 0 and j == 1 else 9) for j in range(ring)], k_image=env.key("ki")) for i in range(n_in)]
    vout = [xt.TxOut(amount=num("oa%d" % i, 2 if i == 0 else 9), target=xt.TxoutToKey(key=env.key("ok"))) for i in range(n_out)]
    ex = env.bytes("ex", ext) if ext else b""
    tx = xt.TransactionPrefixExtraBlob(version=env.choose("version", [1, 2]), unlock_time=num("unlock", 3), vin=vin, vout=vout, extra=ex)
    p = [ref.varint(tx.version), ref.varint(tx.unlock_time), ref.varint(n_in)]
    for v in vin:
        p += [b"\x02", ref.varint(v.amount), ref.varint(ring)] + [ref.varint(o) for o in v.key_offsets] + [v.k_image]
    p.append(ref.varint(n_out))
    for o in vout:
        p += [ref.varint(o.amount), b"\x02", o.target.key]
    p += [ref.varint(ext), ex]
    env.check(env.run(mo.get_transaction_prefix_hash(tx)) == ref.keccak(*p), "prefix hash")


# ---- device steps on arbitrary accumulated content -----------------------------------------------------------
def load_hashers(env, b, out_state):
    """arbitrary earlier content of the streaming hashers"""
    k = [env.key("c%d" % i) for i in range(4)]
    kh, mh = env.mod(KH), env.mod(MH)
    b.tx_prefix_hasher = kh.KeccakXmrArchive()
    env.run(b.tx_prefix_hasher.buffer(k[0]))
    h = mh.PreMlsagHasher()
    h.is_simple, h.state = True, out_state
    h.kc_master.update(k[1]) if False else None
    h.rtcsig_hasher.kwriter.write(k[2])
    h.rsig_hasher.update(k[3])
    b.full_message_hasher = h
    return k


def digests(env, st):
    """(prefix, base, proofs) digests of a stored session"""
    h = st.full_message_hasher
    return st.tx_prefix_hasher.copy().digest(), h[4].copy().digest(), h[3].copy().digest()


@contract("C24", "alg", targets=["TTransactionBuilder.input_vini"], variants=[{"phase": p} for p in ("INPUT_PERM", "INPUT_VINS")], conc=2, conc_time=2)
def vini_step(env, phase):
    """pinning an input appends exactly its serialization to the prefix and nothing to the message"""
    ref = env.ref
    first = phase == "INPUT_PERM"
    n = env.int("n", 1 if first else 2, BIG if env.symbolic else 12)
    inp = env.int("inp", -1 if first else 0, -1 if first else BIG if env.symbolic else n - 2)
    env.assume(inp + 1 < n)
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    with T.BpStub(env):
        mid = T.Mid(env, s, phase, n, 2, inp, -1)
        b = mid.b
        b.last_ki = None if first else env.key("lastki")
        k = load_hashers(env, b, 2)
        mid.tok.tsx_state = b.state_save()
        m = mid.msg("vini")
        if not first:
            env.assume(ref.enc(s.key_image(0)) < b.last_ki)
        r, failed, st = mid.send(m)
        env.check(not failed, "pinned")
        if failed:
            return
        p, q, w = digests(env, st)
        env.check(p == ref.keccak(k[0], m.vini), "prefix gets the input")
        env.check(q == ref.keccak(k[2]) and w == ref.keccak(k[3]), "message is untouched")


@contract("C24", "alg", targets=["TTransactionBuilder.set_output", "TTransactionBuilder._s6_set_out_tx_out", "TTransactionBuilder._s6_serialize_ecdh", "TTransactionBuilder._s6_rsig_bp",
                                 "TTransactionBuilder._s6_rsig_process_bp"],
          variants=[{"phase": p, "client": c, "mode": mo} for p in ("INPUT_ALL_DONE", "OUTPUT") for c in (1, 0) for mo in ("batch", "inside", "offload") if c or mo != "offload"], conc=2, conc_time=2)
def output_step(env, phase, client, mode):
    """an output, at any position of any number: prefix gets the count (first) and the output, message the encrypted amount, proofs the range proof if one is due"""
    ms, ref, mi, xt = env.mod("monero_glue.messages"), env.ref, env.mod("monero_glue.hwtoken.misc"), env.mod(XT)
    first = phase == "INPUT_ALL_DONE"
    m = env.int("m", 1 if first else 2, BIG if env.symbolic else 12)
    out = env.int("out", -1 if first else 0, -1 if first else BIG if env.symbolic else m - 2)
    env.assume(out + 1 < m)
    if mode == "inside":
        env.assume(out + 2 < m)
    else:
        env.assume(env.all([out + 2 == m]))
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    with T.BpStub(env) as bp:
        off = mode == "offload"
        mid = T.Mid(env, s, phase, 1, m, 0, out, bp=2 if client else 1, client=client, npk=2, offload=off)
        b = mid.b
        if not client:
            b.output_last_mask = env.scalar("lastmask")
        k = load_hashers(env, b, 2 if first else 4)
        mid.tok.tsx_state = b.state_save()
        d = T.dest(env, s.who["A"], 0, 0, s.out_amounts[0])
        rq = ms.MoneroTransactionSetOutputRequest(dst_entr=d, dst_entr_hmac=env.run(b.gen_hmac_tsxdest(d, out + 1)))
        pr = None
        r, failed, st = mid.send(rq)
        env.check(not failed, "processed")
        if failed:
            return
        p, q, w = digests(env, st)
        env.check(p == ref.keccak(k[0], *([ref.varint(m)] if first else []), r.tx_out), "prefix gets the output")
        env.check(q == ref.keccak(k[2], r.ecdh_info), "message gets the encrypted amount that was answered")
        if bp.made:
            pr = bp.made[-1][0]
        env.check(w == ref.keccak(k[3], *(pr or [])), "proofs get the proof that was made")
        env.check((pr is not None) == (mode == "batch"), "a proof is made at the end of a batch that is not offloaded")
        if off:
            r, failed, st = mid.send(ms.MoneroTransactionSetOutputRequest(dst_entr=d, dst_entr_hmac=env.run(b.gen_hmac_tsxdest(d, out + 1)), is_offloaded_bp=True,
                                     rsig_data=ms.MoneroTransactionRsigData(rsig=env.run(mi.dump_msg(env.run(env.mod("monero_glue.xmr.ring_ct").prove_range_bp_batch(
                                         list(st.output_amounts), list(st.output_masks))))))))
            env.check(not failed, "offloaded proof is taken")
            if failed:
                return
            p2, q2, w2 = digests(env, st)
            env.check(p2 == p and q2 == q, "prefix and amounts are untouched by the proof")
            env.check(w2 == ref.keccak(k[3], *bp.made[-1][0]), "proofs get the offloaded proof")


@contract("C24", "alg", targets=["TTransactionBuilder.all_out1_set", "TTransactionBuilder.all_out1_set_tx_prefix", "TTransactionBuilder.all_out1_set_tx_extra", "TTransactionBuilder.tsx_mlsag_out_pk"],
          variants=[{"m": m, "add": a, "nonce": n, "client": c} for m, a, n, c in [(1, 0, 0, 1), (2, 0, 9, 1), (3, 3, 0, 1), (4, 4, 33, 1), (8, 8, 9, 1), (16, 16, 9, 1), (2, 2, 9, 0), (3, 0, 33, 0)]], conc=2, conc_time=2)
def close_step(env, m, add, nonce, client):
    """closing the outputs: extra is appended to the prefix and answered, prefix hash, base with all commitments in order and proofs make up the message"""
    ref = env.ref
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    with T.BpStub(env):
        mid = T.Mid(env, s, "OUTPUT", 1, m, 0, m - 1, bp=2 if client else 1, client=client, npk=m, fee_ok=True)
        b = mid.b
        k = load_hashers(env, b, 4)
        b.need_additional_txkeys = bool(add)
        b.additional_tx_public_keys = [env.key("add%d" % i) for i in range(add)]
        ex0 = b""
        if nonce:
            ex0 = env.ref.cat(bytes([2, nonce, 1 if nonce == 9 else 0]), env.bytes("nonce", nonce - 1))
        b.tx.extra = ex0
        R = ref.enc(ref.pt(b.r_pub))
        adds, pk = list(b.additional_tx_public_keys), list(b.output_pk)
        mid.tok.tsx_state = b.state_save()
        r, failed, st = mid.send(mid.msg("allout"))
        env.check(not failed, "closed")
        if failed:
            return
        ex = ref.cat(ex0, b"\1", R, *([b"\4", ref.varint(add)] + adds if add else []))
        n = (nonce + 2 if nonce else 0) + 33 + (1 + 1 + 32 * add if add else 0)
        env.check(env.cbytes(r.extra) == ex, "extra is the nonce, the key and the additional keys")
        ph = ref.keccak(k[0], ref.varint(n), ex)
        env.check(r.tx_prefix_hash == ph, "prefix hash")
        want = ref.keccak(ph, ref.keccak(k[2], *pk), ref.keccak(k[3]))
        env.check(r.full_message_hash == want and st.full_message == want, "message that is answered and will be signed")


# ---- whole sessions ----------------------------------------------------------------------------------------------
SESS = [{"n_in": a, "outs": o, "pid": p, "hf": h, "client": c} for a, o, p, h, c in [
    (1, [("A", (0, 0)), ("me", "change")], 8, 10, 1),
    (2, [("A", (0, 1)), ("me", "change")], 32, 10, 1),
    (1, [("A", (0, 0)), ("B", (0, 2)), ("me", "change")], 32, 10, 1),
    (2, [("A", (0, 0)), ("B", (0, 0)), ("me", "change")], 0, 10, 1),
    (1, [("A", (0, 1)), ("B", (1, 1)), ("A", (0, 0)), ("me", "change")], 0, 9, 1),
    (1, [("A", (0, 0)), ("me", "change")], 8, 9, 0),
    (3, [("A", (0, 0)), ("me", "change")], 0, 10, 1),
]]


@contract("C24", "alg", targets=["TTransactionBuilder.all_out1_set", "TTransactionBuilder.init_transaction", "TTransactionBuilder.process_payment_id", "TTransactionBuilder._tprefix_update"],
          variants=SESS, conc=1, conc_time=3)
def sessions(env, n_in, outs, pid, hf, client):
    """whole sessions of the real host and device: both hashes of the device are those of the transaction the host ends up with"""
    th, ref, mo = env.mod("monero_glue.xmr.sub.tsx_helper"), env.ref, env.mod(MO)
    s = T.Session(env, n_in=n_in, outs=outs)
    extra = b""
    if pid == 8:
        extra = th.add_extra_nonce_to_tx_extra(b"", th.set_encrypted_payment_id_to_tx_extra_nonce(env.bytes("pid", 8)))
    elif pid == 32:
        extra = th.add_extra_nonce_to_tx_extra(b"", th.set_payment_id_to_tx_extra_nonce(env.bytes("pid", 32)))
    unlock = env.int("unlock", 0, 2 ** 14 - 1 if env.symbolic else 2 ** 60)
    with T.BpStub(env):
        tok = s.token()
        got = {}

        def after(tap, m, r):
            if T.kind(m) == "allout":
                got["h"] = (r.tx_prefix_hash, r.full_message_hash)
        tap = T.Tap(env, tok, after=after)
        s.sign(hf=hf, client=client, extra=extra, unlock=unlock, agent=s.agent(tap, hf, client), token=tok)
        tx = s.agent_obj.ct.tx
        env.check("h" in got, "outputs were closed")
        if "h" not in got:
            return
        ph, fh = got["h"]
        env.check(ref.keccak(s.prefix_bytes(tx)) == ph, "prefix hash of the finished transaction")
        env.check(s.message(tx) == fh, "message of the finished transaction")
        env.check(tx.unlock_time == unlock, "unlock time")
        R, adds, nonce = s.extra(tx)
        env.check(nonce is not None if pid or len(outs) <= 2 else nonce is None, "payment id is in the transaction")
        s.check_signatures(tx)
