"""C18: key images leave the device readable only for the announced list of outputs"""
import itertools
from pyvc.run import contract
from contracts import txlib as T

KI = "monero_glue.xmr.key_image"
KS = "monero_glue.protocol.key_image_sync"
CP = "monero_glue.xmr.enc.chacha_poly"
XT = "monero_serialize.xmrtypes"
BIG = 2 ** 32


class KIface(T.Iface):
    async def confirm_ki_sync(self, msg, ctx=None):
        self.log.append(("confirm_ki", msg))
        return self.confirm

    async def ki_error(self, e, ctx=None):
        self.log.append(("ki_error", e))

    async def ki_step(self, i, ctx=None):
        pass

    async def ki_finished(self, ctx=None):
        pass


class Wallet:
    """a wallet and outputs it received; kinds: (major, minor, position, additional keys)"""
    def __init__(self, env, kinds):
        T.use_repo(env)
        self.env, ref = env, env.ref
        cr, mo, ms, xt = env.mod("monero_glue.xmr.crypto"), env.mod("monero_glue.xmr.monero"), env.mod("monero_glue.messages"), env.mod(XT)
        a, b = env.scalar("a"), env.scalar("b")
        self.creds = T.creds_of(env, a, b)
        self.recs, self.tds, self.secrets, self.images, self.subs = [], [], [], [], []
        for n, (M, m, pos, adds) in enumerate(kinds):
            D, C = mo.generate_sub_address_keys(a, self.creds.spend_key_public, M, m)
            r = env.scalar("r%d" % n)
            R = cr.scalarmult_base(r) if (M, m) == (0, 0) else cr.scalarmult(D, r)
            der = cr.generate_key_derivation(C, r)
            P = cr.derive_public_key(der, pos, D)
            x = ref.Hs(ref.enc(ref.pt(C) * (ref.sc(r) * 8)), ref.varint(pos)) + ref.sc(b)
            if (M, m) != (0, 0):
                x = x + ref.Hs(b"SubAddr\0", ref.encs(ref.sc(a)), ref.le(M, 4), ref.le(m, 4))
            keys = [env.point("o%d_%d" % (n, i)) for i in range(max(adds, pos + 1) if adds else 0)]
            main = R
            if adds == 2:
                main = env.point("main%d" % n)
                keys[pos] = R
            self.recs.append(ms.MoneroTransferDetails(out_key=cr.encodepoint(P), tx_pub_key=cr.encodepoint(main), additional_tx_pub_keys=[cr.encodepoint(k) for k in keys],
                                                      internal_output_index=pos))
            self.secrets.append(x)
            self.images.append(ref.enc(ref.Hp(ref.enc(ref.G * x)) * x))
            self.subs.append((M, m))
            extra = [1] + list(cr.encodepoint(main))
            if keys:
                extra += [4, len(keys)]
                for k in keys:
                    extra += list(cr.encodepoint(k))
            vout = [xt.TxOut(amount=0, target=xt.TxoutToKey(key=env.key("other%d_%d" % (n, i)))) for i in range(pos)] + \
                   [xt.TxOut(amount=0, target=xt.TxoutToKey(key=cr.encodepoint(P)))]
            self.tds.append(xt.TransferDetails(m_tx=xt.TransactionPrefix(version=2, unlock_time=0, vin=[], vout=vout, extra=extra),
                                               m_internal_output_index=pos, m_subaddr_index=xt.SubaddressIndex(major=M, minor=m)))

    def table(self):
        mo, t = self.env.mod("monero_glue.xmr.monero"), {}
        for M, m in self.subs:
            mo.compute_subaddresses(self.creds, M, [m], t)
        return t

    def token(self, confirm=True):
        env = self.env
        tk = env.mod("monero_glue.hwtoken.token")
        t = tk.TokenLite()
        t.debug = False
        t.creds = self.creds
        t.iface = KIface(confirm)
        old = t.ki_exc_handler

        async def handler(e):
            env.internal(e)
            return await old(e)
        t.ki_exc_handler = handler
        return t


def rec_hash(env, rec):
    """hash of one record"""
    ref = env.ref
    return ref.keccak(rec.out_key, rec.tx_pub_key, *(list(rec.additional_tx_pub_keys) + [ref.varint(rec.internal_output_index)]))


def is_image(env, w, i, plain):
    """plain text of a record is the key image of output i and a signature of it"""
    ref = env.ref
    plain = env.cbytes(plain)
    env.check(len(plain) == 96, "length of an exported record")
    env.check(plain[:32] == w.images[i], "key image of its output")
    c, r = ref.dec_sc(plain[32:64]), ref.dec_sc(plain[64:])
    env.check(ref.encs(c) == plain[32:64] and ref.encs(r) == plain[64:], "canonical signature")
    P, I = ref.G * w.secrets[i], ref.Hp(ref.enc(ref.G * w.secrets[i])) * w.secrets[i]
    a = ref.G * r + P * c
    b = ref.Hp(ref.enc(P)) * r + I * c
    env.check(c == ref.Hs(w.images[i], ref.enc(a), ref.enc(b)), "signature verifies")


KINDS = {"primary": (0, 0, 0, 0), "sub": (0, 1, 1, 0), "other account": (2, 7, 0, 0), "additional": (1, 3, 2, 2), "unused additional": (0, 0, 1, 1), "later": (0, 2, 3, 0)}


def failed(r):
    return type(r).__name__ == "Failure"


# ---- one message to a device in an arbitrary state --------------------------------------------------------------
@contract("C18", "alg", targets=["TokenLite.key_image_sync", "KeyImageSync.sync", "key_image.compute_hash", "key_image.export_key_image", "ring_ct.export_key_image"],
          variants=[{"kinds": k} for k in [["primary"], ["sub"], ["other account"], ["additional"], ["unused additional"], ["primary", "additional", "later"], []]] +
                   [{"kinds": ["primary", "sub"], "bad": b} for b in ("foreign", "position", "no subaddress", "tx key")], conc=2, conc_time=3)
def step(env, kinds, bad=None):
    """any number announced, any number done, any hash state: the records are counted and hashed in order and their images come back sealed; or all is refused and dropped"""
    ms, ks, cp, ref, cr = env.mod("monero_glue.messages"), env.mod(KS), env.mod(CP), env.ref, env.mod("monero_glue.xmr.crypto")
    w = Wallet(env, [KINDS[k] for k in kinds])
    tok = w.token()
    n = len(kinds)
    k = ks.KeyImageSync(ctx=tok, iface=tok.iface, creds=w.creds)
    k.num = env.int("num", 0, BIG)
    done = env.int("done", 0, BIG)
    env.assume(done <= k.num)
    k.c_idx = done - 1
    before, h = env.key("before"), env.key("hash")
    k.hasher.update(before)
    k.hash = h
    ek = env.key("enckey")
    k.enc_key = ek
    k.subaddresses = w.table()
    tok.ki_sync = k
    fits = bool(done + n <= k.num)
    if bad == "foreign":
        w.recs[-1].out_key = cr.encodepoint(env.point("q"))
    elif bad == "position":
        w.recs[-1].internal_output_index = w.recs[-1].internal_output_index + 1
    elif bad == "no subaddress":
        k.subaddresses = {key: v for key, v in k.subaddresses.items() if v == (0, 0)}
    elif bad == "tx key":
        w.recs[-1].tx_pub_key = cr.encodepoint(env.point("q"))
    r = env.run(tok.key_image_sync(ms.MoneroKeyImageSyncStepRequest(tdis=list(w.recs))))
    if not fits or bad or n == 0:
        env.check(failed(r), "refused")
        env.check(tok.ki_sync is None, "object dropped")
        return
    env.cover("accepted")
    env.check(not failed(r) and type(r).__name__ == "MoneroKeyImageSyncStepAck", "records of the list are processed")
    if failed(r):
        return
    env.check(tok.ki_sync is k and bool(k.c_idx + 1 == done + n), "counted")
    env.check(k.hasher.digest() == ref.keccak(before, *[rec_hash(env, x) for x in w.recs]), "hashed in order")
    env.check(bool(k.hash == h) and bool(k.enc_key == ek), "announcement and key stay")
    env.check(len(r.kis) == n, "one answer per record")
    env.check(set(vars(r)) == {"kis"} and all(set(vars(x)) == {"iv", "blob"} for x in r.kis), "nothing but sealed records")
    for i, x in enumerate(r.kis):
        is_image(env, w, i, cp.decrypt(ek, x.iv, x.blob))
        other = env.key("other")
        env.assume(not bool(other == ek))
        env.refuses("another key does not open", lambda: cp.decrypt(other, x.iv, x.blob))
        b = env.cbytes(x.blob)
        pos = env.choose("pos", [0, 40, 96, 111])
        bb = ref.cat(b[:pos], ref.xor(b[pos:pos + 1], ref.le(env.int("d", 1, 255), 1)), b[pos + 1:])
        env.refuses("modified record does not open", lambda: cp.decrypt(ek, x.iv, bb))
        env.refuses("another nonce does not open", lambda: cp.decrypt(ek, ref.cat(ref.xor(x.iv[:1], b"\1"), x.iv[1:]), x.blob))
        for y in r.kis[:i]:
            env.check(not bool(env.cbytes(y.iv) == env.cbytes(x.iv)), "fresh nonce")


@contract("C18", "alg", targets=["TokenLite.key_image_sync", "KeyImageSync.final"], variants=[{"match": m, "open": o} for m in ("hash", "other", "part", "none") for o in (True, False)], conc=8, conc_time=2)
def final(env, match, open):
    """any number announced and done, any hash state: the key is disclosed exactly if all were done and the hash is the announced one"""
    ms, ks, ref = env.mod("monero_glue.messages"), env.mod(KS), env.ref
    w = Wallet(env, [])
    tok = w.token()
    ek = env.key("enckey")
    num, done = env.int("num", 0, BIG if env.symbolic else 3), env.int("done", 0, BIG if env.symbolic else 3)
    before = env.key("before")
    if open:
        k = ks.KeyImageSync(ctx=tok, iface=tok.iface, creds=w.creds)
        k.num, k.c_idx = num, done - 1
        k.hasher.update(before)
        good = ref.keccak(before)
        other = env.key("other")
        env.assume(not bool(other == good))
        k.hash = {"hash": good, "other": other, "part": good[:31], "none": None}[match]
        k.enc_key = ek
        tok.ki_sync = k
    r = env.run(tok.key_image_sync(ms.MoneroKeyImageSyncFinalRequest()))
    env.check(tok.ki_sync is None, "object dropped")
    if open and match == "hash" and bool(num == done):
        env.cover("disclosed")
        env.check(not failed(r) and bool(env.cbytes(r.enc_key) == ek), "key disclosed")
    else:
        env.check(failed(r), "nothing disclosed")
        if failed(r):
            env.check(all(type(v) in (str, int, type(None)) for v in vars(r).values()), "bare failure")


@contract("C18", "alg", targets=["TokenLite.key_image_sync", "KeyImageSync.init", "KeyImageSync.derive_creds"], variants=[{"state": s, "confirm": c} for s in ("none", "busy") for c in (True, False)],
          conc=4, conc_time=2)
def init(env, state, confirm):
    """an announcement starts from nothing, with a fresh key, the announced number and hash, after the user agreed"""
    ms, ks, ref, kio = env.mod("monero_glue.messages"), env.mod(KS), env.ref, env.mod(KI)
    w = Wallet(env, [KINDS["primary"], KINDS["sub"]])
    tok = w.token(confirm)
    old = env.key("oldkey")
    if state == "busy":
        k = ks.KeyImageSync(ctx=tok, iface=tok.iface, creds=w.creds)
        k.num, k.c_idx, k.enc_key, k.hash = env.int("onum", 0, BIG), env.int("odone", 0, BIG) - 1, old, env.key("ohash")
        k.hasher.update(env.key("before"))
        k.subaddresses = w.table()
        tok.ki_sync = k
    num, h = env.int("num", 0, BIG), env.key("hash")
    msg = ms.MoneroKeyImageExportInitRequest(num=num, hash=h, subs=[ms.MoneroSubAddressIndicesList(account=0, minor_indices=[0, 1]), ms.MoneroSubAddressIndicesList(account=3, minor_indices=[2])])
    r = env.run(tok.key_image_sync(msg))
    env.check(("confirm_ki", msg) in tok.iface.log, "user was asked")
    if not confirm:
        env.check(failed(r), "refused by the user")
        r = env.run(tok.key_image_sync(ms.MoneroKeyImageSyncStepRequest(tdis=[w.recs[0]])))
        env.check(failed(r), "no records without consent")
        tok.iface.confirm = False
        env.run(tok.key_image_sync(msg))
        r = env.run(tok.key_image_sync(ms.MoneroKeyImageSyncFinalRequest()))
        env.check(failed(r), "no key without consent")
        return
    env.check(not failed(r) and not any(v is not None for v in vars(r).values()), "empty acknowledgement")
    k = tok.ki_sync
    env.check(bool(k.num == num) and bool(k.c_idx == -1) and bool(k.hash == h), "announced number and hash, nothing done")
    env.check(k.hasher.digest() == ref.keccak(b""), "hash starts empty")
    e1 = env.cbytes(k.enc_key)
    env.check(len(e1) == 32 and not bool(e1 == old), "fresh key")
    t = env.mod("monero_glue.xmr.monero")
    want = {}
    t.compute_subaddresses(w.creds, 0, [0, 1], want)
    t.compute_subaddresses(w.creds, 3, [2], want)
    env.check({env.cbytes(x): v for x, v in k.subaddresses.items()} == {env.cbytes(x): v for x, v in want.items()}, "exactly the named subaddresses")
    env.run(tok.key_image_sync(msg))
    env.check(not bool(env.cbytes(tok.ki_sync.enc_key) == e1), "every announcement draws a fresh key")


@contract("C18", "alg", targets=["key_image.compute_hash"], variants=[{"a": a, "b": b} for a in range(4) for b in range(a, 4)], conc=6, conc_time=2)
def record_hash(env, a, b):
    """for all records with any number of additional keys: equal hash only for an equal record"""
    ms, kio, ref = env.mod("monero_glue.messages"), env.mod(KI), env.ref
    i, j = env.int("i", 0, 2 ** 32 - 1), env.int("j", 0, 2 ** 32 - 1)
    x = ms.MoneroTransferDetails(out_key=env.key("o"), tx_pub_key=env.key("t"), additional_tx_pub_keys=[env.key("k%d" % n) for n in range(a)], internal_output_index=i)
    h = kio.compute_hash(x)
    env.check(h == rec_hash(env, x), "defined hash")
    y = ms.MoneroTransferDetails(out_key=env.key("o2"), tx_pub_key=env.key("t2"), additional_tx_pub_keys=[env.key("m%d" % n) for n in range(b)], internal_output_index=j)
    parts = [("out_key", None), ("tx_pub_key", None)] + [("add", n) for n in range(a if a == b else 0)]
    for f, n in parts + [("internal_output_index", None)]:
        z = ms.MoneroTransferDetails(out_key=x.out_key, tx_pub_key=x.tx_pub_key, additional_tx_pub_keys=list(x.additional_tx_pub_keys), internal_output_index=i)
        if f == "add":
            z.additional_tx_pub_keys[n] = y.additional_tx_pub_keys[n]
            env.assume(not bool(y.additional_tx_pub_keys[n] == x.additional_tx_pub_keys[n]))
        else:
            env.assume(not bool(getattr(y, f) == getattr(x, f)))
            setattr(z, f, getattr(y, f))
        env.check(not bool(kio.compute_hash(z) == h), "every field counts")
    if a != b:
        z = ms.MoneroTransferDetails(out_key=x.out_key, tx_pub_key=x.tx_pub_key, additional_tx_pub_keys=(list(x.additional_tx_pub_keys) + [env.key("e%d" % n) for n in range(b)])[:b],
                                     internal_output_index=i)
        env.check(not bool(kio.compute_hash(z) == h), "number of additional keys counts")


@contract("C18", "alg", targets=["key_image.compute_hash", "key_image.export_key_image", "KeyImageSync.sync"], variants=[{"shift": s} for s in (-2, -1, 1, 32)], conc=4, conc_time=2)
def field_bounds(env, shift):
    """bytes moved between the fields of a record (same hashed bytes): never exported as a record of the announced list"""
    ms, ks, ref, kio = env.mod("monero_glue.messages"), env.mod(KS), env.ref, env.mod(KI)
    w = Wallet(env, [KINDS["additional"]])
    tok = w.token()
    x = w.recs[0]
    o, t, ad = env.cbytes(x.out_key), env.cbytes(x.tx_pub_key), [env.cbytes(q) for q in x.additional_tx_pub_keys]
    al = ref.cat(o, t)
    y = ms.MoneroTransferDetails(out_key=al[:32 + shift], tx_pub_key=al[32 + shift:], additional_tx_pub_keys=ad, internal_output_index=x.internal_output_index)
    al = ref.cat(t, *ad)
    z = ms.MoneroTransferDetails(out_key=o, tx_pub_key=al[:32 + shift], additional_tx_pub_keys=[al[32 + shift:]], internal_output_index=x.internal_output_index)
    for q in (y, z):
        k = ks.KeyImageSync(ctx=tok, iface=tok.iface, creds=w.creds)
        k.num, k.enc_key, k.subaddresses, k.hash = 1, env.key("ek"), w.table(), env.key("h")
        tok.ki_sync = k
        r = env.run(tok.key_image_sync(ms.MoneroKeyImageSyncStepRequest(tdis=[q])))
        env.check(failed(r) and tok.ki_sync is None, "keys of another length are refused")


# ---- histories -----------------------------------------------------------------------------------------------------
@contract("C18", "alg", targets=["TokenLite.key_image_sync", "KeyImageSync.init", "KeyImageSync.sync", "KeyImageSync.final"],
          variants=[{"seq": "".join(s)} for n in (3, 4) for s in itertools.product("IABFX", repeat=n) if s[0] == "I" and "F" in s and s.count("I") < 3], conc=1, conc_time=1)
def histories(env, seq):
    """sequences of announcement (I: outputs A then B), records, final and an unknown message: the key comes exactly after I A B F"""
    ms, ref = env.mod("monero_glue.messages"), env.ref
    w = Wallet(env, [KINDS["primary"], KINDS["sub"]])
    tok = w.token()
    h = ref.keccak(rec_hash(env, w.recs[0]), rec_hash(env, w.recs[1]))
    st = None
    for c in seq:
        m = {"I": lambda: ms.MoneroKeyImageExportInitRequest(num=2, hash=h, subs=[ms.MoneroSubAddressIndicesList(account=0, minor_indices=[0, 1])]),
             "A": lambda: ms.MoneroKeyImageSyncStepRequest(tdis=[w.recs[0]]), "B": lambda: ms.MoneroKeyImageSyncStepRequest(tdis=[w.recs[1]]),
             "F": lambda: ms.MoneroKeyImageSyncFinalRequest(), "X": lambda: ms.MoneroLiveRefreshFinalRequest()}[c]()
        r = env.run(tok.key_image_sync(m))
        ok = False
        if c == "I":
            st, ok = "", True
        elif c in "AB" and st is not None and len(st) < 2:
            st, ok = st + c, True
        elif c == "F" and st == "AB":
            st, ok = None, True
            env.check(getattr(r, "enc_key", None) is not None, "key disclosed")
        else:
            st = None
        env.check(failed(r) == (not ok), "accepted exactly in order")
        if not (c == "F" and ok):
            env.check(getattr(r, "enc_key", None) is None, "key kept")
        env.check((tok.ki_sync is None) == (st is None), "object dropped exactly after a refusal or the end")


# ---- host side ---------------------------------------------------------------------------------------------------------
def kinds_for(n):
    names = list(KINDS)
    return [KINDS[names[i % len(names)]] for i in range(n)]


@contract("C18", "alg", targets=["Agent.import_outputs", "key_image.yield_key_image_data", "key_image.generate_commitment", "common.chunk", "monero.get_tx_pub_key_from_received_outs"],
          variants=[{"n": n} for n in (0, 1, 2, 6, 9, 10, 11, 20, 23)], conc=1, conc_time=4)
def listed(env, n):
    """whole exports with the real device: for every output of the list, in order, its key image and a valid signature"""
    ag, ref = env.mod("monero_glue.agent.agent_lite"), env.ref
    w = Wallet(env, kinds_for(n))
    tok = w.token()
    a = ag.Agent(tok, network_type=0)
    res = env.run(a.import_outputs(list(w.tds)))
    env.check(len(res) == n, "one record per output")
    for i, (ki, (c, r)) in enumerate(res):
        is_image(env, w, i, ref.cat(ki, c, r))
    env.check(tok.ki_sync is None and tok.err_ctr == 0, "device is done")
    m = [x for k, x in tok.iface.log if k == "confirm_ki"]
    env.check(len(m) == 1 and m[0].num == n, "user agreed to the number of outputs")


@contract("C18", "alg", targets=["Agent.import_outputs"], variants=[{"case": c} for c in ("foreign", "reorder", "drop", "double", "swap", "init fails", "final fails", "wrong key")], conc=2, conc_time=2)
def disturbed(env, case):
    """a disturbed export ends with an error on the host"""
    ag, ref, cr, ms = env.mod("monero_glue.agent.agent_lite"), env.ref, env.mod("monero_glue.xmr.crypto"), env.mod("monero_glue.messages")
    w = Wallet(env, kinds_for(3))
    tok = w.token()
    if case == "foreign":
        w.tds[1].m_tx.vout[w.tds[1].m_internal_output_index].target.key = cr.encodepoint(env.point("q"))
    o = env.key("o")

    class Wire:
        async def key_image_sync(self, m):
            k = type(m).__name__
            if k == "MoneroKeyImageSyncStepRequest":
                t = list(m.tdis)
                t = {"reorder": t[::-1], "drop": t[:-1], "double": t + [t[0]], "swap": [t[0], t[0], t[2]]}.get(case, t)
                m = ms.MoneroKeyImageSyncStepRequest(tdis=t)
            if (k == "MoneroKeyImageExportInitRequest" and case == "init fails") or (k == "MoneroKeyImageSyncFinalRequest" and case == "final fails"):
                return ms.Failure(code=1, message="no")
            r = await tok.key_image_sync(m)
            if k == "MoneroKeyImageSyncFinalRequest" and case == "wrong key":
                env.assume(not bool(env.cbytes(r.enc_key) == o))
                r.enc_key = o
            return r
    a = ag.Agent(Wire(), network_type=0)
    env.refuses("refused: " + case, lambda: env.run(a.import_outputs(list(w.tds))))
    if case in ("init fails", "wrong key"):
        return
    env.check(tok.ki_sync is None or case == "final fails", "device dropped the session")


@contract("C18", "alg", targets=["key_image.generate_commitment", "key_image.yield_key_image_data"], variants=[{"n": n} for n in (1, 4, 7)], conc=1, conc_time=2)
def commitment(env, n):
    """the announcement names the number, the hash of the list and every subaddress that occurs; ambiguous transactions are refused"""
    kio, ref, xt, cr = env.mod(KI), env.ref, env.mod(XT), env.mod("monero_glue.xmr.crypto")
    w = Wallet(env, kinds_for(n))
    r = env.run(kio.generate_commitment(w.tds))
    env.check(r.num == n, "number")
    env.check(r.hash == ref.keccak(*[rec_hash(env, x) for x in w.recs]), "hash of the list")
    env.check(sorted((s.account, m) for s in r.subs for m in s.minor_indices) == sorted(set(w.subs)), "subaddresses")
    it = env.run(kio.yield_key_image_data(w.tds))
    env.check(len(it) == n, "one record per output")
    for x, y in zip(it, w.recs):
        env.check(env.cbytes(x.out_key) == env.cbytes(y.out_key) and env.cbytes(x.tx_pub_key) == env.cbytes(y.tx_pub_key) and
                  len(x.additional_tx_pub_keys) == len(y.additional_tx_pub_keys) and
                  all(env.cbytes(p) == env.cbytes(q) for p, q in zip(x.additional_tx_pub_keys, y.additional_tx_pub_keys)) and
                  x.internal_output_index == y.internal_output_index, "record of the output")
    t = w.tds[n - 1]
    old = list(t.m_tx.extra)
    t.m_tx.extra = old[:33] + old
    env.refuses("two transaction keys are refused", lambda: env.run(kio.generate_commitment(w.tds)))
    t.m_tx.extra = old
    t.m_tx.vout = []
    env.refuses("transaction without outputs is refused", lambda: env.run(kio.generate_commitment(w.tds)))
