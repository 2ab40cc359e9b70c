"""C26: the transaction keys the device seals are opened by the host, and with nothing else"""
from pyvc.run import contract
from contracts import txlib as T

MISC = "monero_glue.hwtoken.misc"
CP = "monero_glue.xmr.enc.chacha_poly"
SHAPES = [(1, [("A", (0, 0)), ("me", "change")], 10), (2, [("A", (0, 3)), ("me", "change")], 9), (1, [("A", (0, 0)), ("B", (0, 2)), ("me", "change")], 10),
          (1, [("A", (0, 1)), ("B", (2, 3)), ("me", "change")], 10), (1, [("A", (0, 1)), ("B", (2, 3)), ("C", (0, 0)), ("A", (5, 6)), ("me", "change")], 9)]
NS = [0, 1, 2, 3, 16]


def want_key(env, k, prefix, salt, mult=None):
    """the derivation: HMAC under the salt of the twice hashed (key plus multiplier, prefix hash)"""
    cr, ref = env.mod("monero_glue.xmr.crypto"), env.ref
    s = ref.sc(k) if mult is None else ref.sc(k) + ref.dec_sc(mult)
    return cr.compute_hmac(salt, ref.keccak(ref.keccak(ref.encs(s), prefix)))


@contract("C26", "alg", targets=["misc.compute_tx_key"], variants=[{"given": g} for g in ("none", "salt", "mult", "both")], conc=6, conc_time=2)
def derivation(env, given):
    """for every key, prefix hash, salt and multiplier: the sealing key is the defined one, and what is returned reproduces it"""
    ms, ref, cr = env.mod(MISC), env.ref, env.mod("monero_glue.xmr.crypto")
    k, prefix = env.scalar("k"), env.key("prefix")
    s0 = ref.sc(k)
    salt = env.key("salt") if given in ("salt", "both") else None
    mult = cr.encodeint(env.scalar("mult")) if given in ("mult", "both") else None
    key, s, m = ms.compute_tx_key(k, prefix, salt=salt, rand_mult=mult)
    env.check(len(key) == 32 and len(s) == 32 and len(m) == 32, "sizes")
    if salt is not None:
        env.check(s == salt, "given salt is used")
    if mult is not None:
        env.check(m == mult, "given multiplier is used")
    env.check(env.cbytes(key) == want_key(env, k, prefix, s, m), "sealing key is the defined one")
    env.check(ref.sc(k) == s0, "spend key untouched")
    again = ms.compute_tx_key(k, prefix, salt=s, rand_mult=m)
    env.check(again[0] == key and again[1] == s and again[2] == m, "the same inputs give the same key")


@contract("C26", "alg", targets=["misc.compute_tx_key"], variants=[{"what": w} for w in ("salt", "mult", "prefix", "key", "view")], conc=10, conc_time=2)
def separated(env, what):
    """another salt, multiplier, prefix hash or key gives another sealing key; salt and multiplier are fresh"""
    ms, ref, cr = env.mod(MISC), env.ref, env.mod("monero_glue.xmr.crypto")
    k, prefix, salt, mult = env.scalar("k"), env.key("prefix"), env.key("salt"), cr.encodeint(env.scalar("mult"))
    a = ms.compute_tx_key(k, prefix, salt=salt, rand_mult=mult)[0]
    if what == "salt":
        x = env.key("salt2")
        env.assume(not bool(x == salt))
        b = ms.compute_tx_key(k, prefix, salt=x, rand_mult=mult)[0]
        f1, f2 = ms.compute_tx_key(k, prefix, rand_mult=mult), ms.compute_tx_key(k, prefix, rand_mult=mult)
        env.check(not bool(f1[1] == f2[1]) and not bool(f1[0] == f2[0]), "fresh salt")
    elif what == "mult":
        x = env.scalar("mult2")
        env.assume(not bool(cr.encodeint(x) == mult))
        b = ms.compute_tx_key(k, prefix, salt=salt, rand_mult=cr.encodeint(x))[0]
        f1, f2 = ms.compute_tx_key(k, prefix, salt=salt), ms.compute_tx_key(k, prefix, salt=salt)
        env.check(not bool(f1[2] == f2[2]) and not bool(f1[0] == f2[0]), "fresh multiplier")
    elif what == "prefix":
        for n in (0, 1, 31):
            o = env.key("prefix2")
            x = ref.cat(prefix[:n], o[n:])
            env.assume(not bool(x == prefix))
            env.check(not bool(ms.compute_tx_key(k, x, salt=salt, rand_mult=mult)[0] == a), "all of the prefix hash counts")
        b = ms.compute_tx_key(k, o, salt=salt, rand_mult=mult)[0]
    elif what == "key":
        x = env.scalar("k2")
        env.assume(not bool(cr.encodeint(x) == cr.encodeint(k)))
        b = ms.compute_tx_key(x, prefix, salt=salt, rand_mult=mult)[0]
    else:
        ag = env.mod("monero_glue.agent.agent_lite").Agent
        b = ag._compute_tx_key_host(k, prefix, salt)
        env.assume(not bool(ref.dec_sc(mult) == ref.S(0)))
    env.check(not bool(a == b), "another sealing key")


@contract("C26", "alg", targets=["Agent._compute_tx_key_host", "Agent._compute_ki_enc_key_host"], variants=[{"f": f} for f in ("_compute_tx_key_host", "_compute_ki_enc_key_host")],
          conc=10, conc_time=2)
def host_key(env, f):
    """the view-key based key is the defined one and depends on key, prefix and salt"""
    ag, ref = env.mod("monero_glue.agent.agent_lite").Agent, env.ref
    f = getattr(ag, f)
    k, prefix, salt = env.scalar("k"), env.key("prefix"), env.key("salt")
    a = f(k, prefix, salt)
    env.check(env.cbytes(a) == want_key(env, k, prefix, salt), "defined key")
    k2, p2, s2 = env.scalar("k2"), env.key("p2"), env.key("s2")
    env.assume(not bool(ref.sc(k2) == ref.sc(k)))
    env.assume(not bool(p2 == prefix))
    env.assume(not bool(s2 == salt))
    env.check(not bool(f(k2, prefix, salt) == a), "depends on the key")
    env.check(not bool(f(k, p2, salt) == a), "depends on the prefix")
    env.check(not bool(f(k, prefix, s2) == a), "depends on the salt")


@contract("C26", "alg", targets=["TTransactionBuilder.final_msg", "misc.compute_tx_key", "chacha_poly.encrypt_pack", "chacha_poly.decrypt_pack"],
          variants=[{"n": n} for n in NS], conc=3, conc_time=2)
def sealed(env, n):
    """the final message of a device in the signed phase: opens with spend key, prefix hash, salt and multiplier to exactly the ephemeral keys, and with nothing else"""
    ms, cp, ref, cr = env.mod(MISC), env.mod(CP), env.ref, env.mod("monero_glue.xmr.crypto")
    a, b = env.scalar("a"), env.scalar("b")
    bld = T.builder(env, T.creds_of(env, a, b))
    st = env.mod("monero_glue.protocol.tsx_sign_state").TState
    bld.state.s = st.SIGNATURE_DONE
    bld.tx_prefix_hash = env.key("prefix")
    bld.r = env.scalar("r")
    adds = [env.scalar("r%d" % i) for i in range(n)]
    bld.additional_tx_private_keys = list(adds)
    want = [ref.sc(x) for x in [bld.r] + adds]
    f = env.run(bld.final_msg())
    env.check(bld.state.s == st.FINAL, "final phase")
    env.check(not f.cout_key, "no multisig key")
    salt, mult, blob = f.salt, f.rand_mult, f.tx_enc_keys
    k = ms.compute_tx_key(b, bld.tx_prefix_hash, salt=salt, rand_mult=mult)[0]
    p = env.cbytes(cp.decrypt_pack(k, blob))
    env.check(len(p) == 32 * (n + 1), "number of keys")
    for i, w in enumerate(want):
        env.check(ref.dec_sc(p[32 * i:32 * i + 32]) == w, "key %s recovered" % ("r" if i == 0 else "additional"))
        env.check(p[32 * i:32 * i + 32] == ref.encs(w), "canonical encoding")

    def closed(label, key, data=None):
        env.refuses(label, lambda: cp.decrypt_pack(key, blob if data is None else data))
    o = env.key("o")
    env.assume(not bool(o == bld.tx_prefix_hash))
    closed("other prefix hash does not open", ms.compute_tx_key(b, o, salt=salt, rand_mult=mult)[0])
    env.assume(not bool(o == env.cbytes(salt)))
    closed("other salt does not open", ms.compute_tx_key(b, bld.tx_prefix_hash, salt=o, rand_mult=mult)[0])
    x = env.scalar("x")
    env.assume(not bool(cr.encodeint(x) == env.cbytes(mult)))
    closed("other multiplier does not open", ms.compute_tx_key(b, bld.tx_prefix_hash, salt=salt, rand_mult=cr.encodeint(x))[0])
    env.assume(not bool(ref.sc(x) == ref.sc(b)))
    closed("other spend key does not open", ms.compute_tx_key(x, bld.tx_prefix_hash, salt=salt, rand_mult=mult)[0])
    closed("view key does not open", env.mod("monero_glue.agent.agent_lite").Agent._compute_tx_key_host(a, bld.tx_prefix_hash, salt))
    pos = env.choose("pos", [0, 11, 12, 40, len(blob) - 17, len(blob) - 1])
    d = env.int("d", 1, 255)
    bb = env.cbytes(blob)
    bad = ref.cat(bb[:pos], ref.xor(bb[pos:pos + 1], ref.le(d, 1)), bb[pos + 1:])
    closed("modified blob does not open", k, bad)
    # sealing once more draws fresh randomness
    bld.state.s = st.SIGNATURE_DONE
    g = env.run(bld.final_msg())
    env.check(not bool(env.cbytes(g.salt) == env.cbytes(salt)) and not bool(env.cbytes(g.rand_mult) == env.cbytes(mult)), "fresh salt and multiplier")


@contract("C26", "alg", targets=["TTransactionBuilder.final_msg", "Agent.sign_transaction_data", "Agent.sign_final"],
          variants=[{"n_in": a, "outs": o, "hf": h} for a, o, h in SHAPES], conc=1, conc_time=6)
def whole(env, n_in, outs, hf):
    """whole sessions: what the host keeps from the final message opens, with the spend key and the hash of the transaction prefix, to the secrets of the published keys"""
    ms, cp, ref = env.mod(MISC), env.mod(CP), env.ref
    with T.BpStub(env):
        s = T.Session(env, n_in=n_in, outs=outs)
        tx = s.sign(hf=hf)
        ct = s.agent_obj.ct
        prefix = ref.keccak(s.prefix_bytes(tx))
        env.check(prefix == env.cbytes(ct.tx_prefix_hash), "prefix hash kept by the host")
        k = ms.compute_tx_key(s.creds.spend_key_private, prefix, salt=ct.enc_salt1, rand_mult=ct.enc_salt2)[0]
        p = env.cbytes(cp.decrypt_pack(k, ct.enc_keys))
        R, adds, _ = s.extra(tx)
        env.check(len(p) == 32 * (1 + len(adds)), "one secret per published key")
        keys = [ref.dec_sc(p[i:i + 32]) for i in range(0, len(p), 32)]
        for n, x in enumerate(keys):
            d = s.dests[n - 1] if n else s.dests[0]
            X = ref.pt(R if n == 0 else adds[n - 1])
            sub = [e for e in s.dests if e.is_subaddress] if n == 0 and not adds else [d] if n and d.is_subaddress else []
            B = [ref.pt(e.addr.m_spend_public_key) for e in sub] or [ref.G]
            env.check(any(bool(q * x == X) for q in B), "recovered secret belongs to the published key")


# ---- export to the host ----------------------------------------------------------------------------------------
class Device:
    """answers with the given keys sealed under the view key; records what was asked"""
    def __init__(self, env, view, parts, spoil=None, fail=False):
        self.env, self.view, self.parts, self.spoil, self.fail = env, view, parts, spoil, fail
        self.log = []

    async def get_tx_key(self, msg, *a, **k):
        env = self.env
        ms, cp, ref = env.mod("monero_glue.messages"), env.mod(CP), env.ref
        self.log.append(msg)
        if self.fail:
            return ms.Failure(code=1, message="no")
        salt = env.key("salt")
        key = want_key(env, self.view, msg.tx_prefix_hash, salt)
        blob = cp.encrypt_pack(key, ref.cat(*self.parts))
        if self.spoil:
            blob, salt = self.spoil(env.cbytes(blob), salt)
        ack = env.mod("monero_glue.messages.MoneroGetTxKeyAck").MoneroGetTxKeyAck(salt=salt)
        if msg.reason:
            ack.tx_derivations = blob
        else:
            ack.tx_keys = blob
        return ack


@contract("C26", "alg", targets=["Agent.get_tx_key", "Agent.get_tx_deriv", "Agent._get_tx_key_intern", "Agent._compute_tx_key_host"],
          variants=[{"n": n, "what": w} for n in [1, 2, 3, 17] for w in ("keys", "derivations")], conc=2, conc_time=2)
def exported(env, n, what):
    """for every number of keys: the host asks for the sealed keys of this transaction and gets back exactly them, in order; nothing else opens"""
    cr, ref = env.mod("monero_glue.xmr.crypto"), env.ref
    ag = env.mod("monero_glue.agent.agent_lite")
    view = env.scalar("view")
    keys = [env.scalar("k%d" % i) for i in range(n)] if what == "keys" else [env.point("p%d" % i) for i in range(n)]
    parts = [cr.encodeint(x) if what == "keys" else cr.encodepoint(x) for x in keys]
    s1, s2, prefix, vpub, enc = env.key("s1"), env.key("s2"), env.key("prefix"), env.key("vpub"), env.key("enc")

    def ask(v=view, px=prefix, **k):
        d = Device(env, view, parts, **k)
        a = ag.Agent(d, network_type=0)
        if what == "keys":
            return d, env.run(a.get_tx_key(s1, s2, enc, px, v))
        return d, env.run(a.get_tx_deriv(s1, s2, enc, px, v, vpub))
    d, res = ask()
    m = d.log[0]
    env.check(len(d.log) == 1 and m.salt1 == s1 and m.salt2 == s2 and m.tx_enc_keys == enc and m.tx_prefix_hash == prefix, "the request names the sealed keys")
    env.check(m.reason == (0 if what == "keys" else 1) and (m.view_public_key is None if what == "keys" else m.view_public_key == vpub), "the request names what is wanted")
    env.check(m.network_type == 0, "network")
    env.check(len(res) == n, "number of keys")
    for x, y in zip(res, keys):
        env.check(ref.sc(x) == ref.sc(y) if what == "keys" else ref.pt(x) == ref.pt(y), "key restored, in order")
    o = env.key("o")
    x = env.scalar("x")
    env.assume(not bool(ref.sc(x) == ref.sc(view)))
    env.refuses("other view key does not open", lambda: ask(v=x))
    env.refuses("other salt does not open", lambda: ask(spoil=lambda b, s: (b, o)))
    pos = env.choose("pos", [0, 11, 12, 43, 12 + 32 * n, 12 + 32 * n + 15])
    dl = env.int("d", 1, 255)
    env.refuses("modified blob does not open", lambda: ask(spoil=lambda b, s: (ref.cat(b[:pos], ref.xor(b[pos:pos + 1], ref.le(dl, 1)), b[pos + 1:]), s)))
    env.refuses("failure is reported", lambda: ask(fail=True))
    parts.append(env.key("z")[:env.choose("rest", [1, 31])])
    env.refuses("keys of a wrong length are refused", ask)


@contract("C26", "alg", targets=["Agent.live_refresh", "Agent.live_refresh_start", "Agent.live_refresh_final", "Agent._compute_ki_enc_key_host"],
          variants=[{"case": c} for c in ("good", "other image", "other key", "other salt", "other view", "spoiled", "sig", "failure")], conc=4, conc_time=2)
def refreshed(env, case):
    """a key image of a single output: opened with the view key, accepted exactly with a valid signature by that output"""
    cr, ref, cp, rc = env.mod("monero_glue.xmr.crypto"), env.ref, env.mod(CP), env.mod("monero_glue.xmr.ring_ct")
    ms = env.mod("monero_glue.messages")
    ag = env.mod("monero_glue.agent.agent_lite")
    view, x = env.scalar("view"), env.scalar("x")
    env.assume(not bool(ref.sc(x) == ref.S(0)))
    P = cr.scalarmult_base(x)
    out = cr.encodepoint(P)
    ki = ref.Hp(out) * ref.sc(x)
    deriv = env.key("deriv")
    idx, M, m = env.int("idx", 0, 2 ** 32), env.int("M", 0, 2 ** 32 - 1), env.int("m", 0, 2 ** 32 - 1)
    log = []
    o = env.key("o")
    y = env.scalar("y")
    env.assume(not bool(ref.sc(y) == ref.sc(x)))
    env.assume(not bool(ref.sc(y) == ref.sc(view)))

    class Dev:
        async def live_refresh(self, msg, *a, **k):
            log.append(msg)
            if case == "failure":
                return ms.Failure(code=1, message="no")
            if type(msg).__name__ != "MoneroLiveRefreshStepRequest":
                return ms.MoneroLiveRefreshStartAck() if "Start" in type(msg).__name__ else ms.MoneroLiveRefreshFinalAck()
            kie = ref.enc(ki) if case != "other image" else ref.enc(ref.Hp(out) * ref.sc(y))
            pub = P if case != "other key" else cr.scalarmult_base(y)
            sig = rc.generate_ring_signature(kie, ref.point(ref.pt(kie)) if case != "other image" else ref.point(ki), [pub], x if case != "other key" else y, 0)
            c, r = sig[0]
            if case == "sig":
                r = cr.sc_add(r, y) if not bool(ref.sc(y) == ref.S(0)) else cr.sc_add(r, cr.sc_init(1))
            salt = env.key("salt")
            blob = cp.encrypt_pack(want_key(env, view if case != "other view" else y, msg.out_key, salt), ref.cat(kie, cr.encodeint(c), cr.encodeint(r)))
            if case == "spoiled":
                b = env.cbytes(blob)
                pos = env.choose("pos", [0, 12, 70, len(b) - 1])
                blob = ref.cat(b[:pos], ref.xor(b[pos:pos + 1], ref.le(env.int("d", 1, 255), 1)), b[pos + 1:])
            return ms.MoneroLiveRefreshStepAck(salt=salt if case != "other salt" else o, key_image=blob)
    a = ag.Agent(Dev(), network_type=0)

    def go():
        return env.run(a.live_refresh(view, out, deriv, idx, M, m))
    if case != "good":
        env.refuses("refused: " + case, go)
        if case == "failure":
            env.refuses("failure at start", lambda: env.run(a.live_refresh_start()))
            env.refuses("failure at the end", lambda: env.run(a.live_refresh_final()))
        return
    env.run(a.live_refresh_start())
    r = go()
    env.run(a.live_refresh_final())
    env.check(ref.pt(r) == ki, "key image of the output")
    q = log[1]
    env.check(len(log) == 3 and q.out_key == out and q.recv_deriv == deriv and bool(q.real_out_idx == idx) and bool(q.sub_addr_major == M) and bool(q.sub_addr_minor == m), "the request names the output")
