"""C31: stored wallet and exchange files open to what was stored"""
import datetime
from fractions import Fraction

from pyvc.run import contract
from contracts import txlib as T

WL = "monero_glue.xmr.wallet"
XT = "monero_serialize.xmrtypes"
XS = "monero_serialize.xmrserialize"
NUM = [0, 1, 127, 255, 256, 65535, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1]


class Gen:
    """messages of every shape: every blob arbitrary, numbers from the edges of their range"""
    def __init__(self, env, size=1, salt=0):
        self.env, self.n, self.i = env, size, salt
        self.xt, self.xs = env.mod(XT), env.mod(XS)

    def num(self, lim):
        self.i += 1
        v = NUM[self.i * 7 % len(NUM)]
        return v % lim

    def value(self, ty, params=()):
        env, xs, xt = self.env, self.xs, self.xt
        if ty is xs.ContainerType:
            return [self.value(params[0], params[1:]) for _ in range(self.n)]
        if issubclass(ty, xs.MessageType):
            return self.message(ty)
        if issubclass(ty, xs.VariantType):
            return self.value({xt.TxInV: xt.TxinToKey, xt.TxoutTargetV: xt.TxoutToKey}[ty])
        if issubclass(ty, xs.TupleType):
            return tuple(self.value(t) for t in ty.f_specs())
        if issubclass(ty, xs.ContainerType):
            return [self.value(ty.ELEM_TYPE) for _ in range(getattr(ty, "SIZE", 0) if getattr(ty, "FIX_SIZE", 0) else self.n)]
        if issubclass(ty, xs.BlobType):
            return env.bytes("blob", ty.SIZE if getattr(ty, "FIX_SIZE", 0) else 5)
        if issubclass(ty, xs.UnicodeType):
            self.i += 1
            return ["", "original address", "4" * 95][self.i % 3]
        if issubclass(ty, xs.BoolType):
            self.i += 1
            return self.i % 2 == 0
        w = {xs.UInt8: 8, xs.UInt16: 16, xs.UInt32: 32}.get(ty, 64)
        return self.num(2 ** w)

    def message(self, ty, **over):
        m = ty()
        for f in ty.f_specs():
            setattr(m, f[0], over[f[0]] if f[0] in over else self.value(f[1], f[2:]))
        if ty in (self.xt.Bulletproof, self.xt.BulletproofPlus):
            m.V = self.value(self.xt.KeyV)
        return m


def same(env, gen, ty, params, a, b, skip=(), conds=None):
    """conditions for b to be the stored a"""
    xs, xt = gen.xs, gen.xt
    top = conds is None
    conds = [] if top else conds
    if ty is xs.ContainerType or issubclass(ty, xs.ContainerType) and not issubclass(ty, xs.BlobType):
        el, rest = (params[0], params[1:]) if params else (ty.ELEM_TYPE, ())
        conds.append(len(a) == len(b))
        if len(a) == len(b):
            for x, y in zip(a, b):
                same(env, gen, el, rest, x, y, skip, conds)
    elif issubclass(ty, xs.MessageType):
        for f in ty.f_specs():
            if (ty.__name__, f[0]) not in skip:
                conds.append(hasattr(b, f[0]))
                if hasattr(b, f[0]):
                    same(env, gen, f[1], f[2:], getattr(a, f[0]), getattr(b, f[0]), skip, conds)
    elif issubclass(ty, xs.VariantType):
        conds.append(type(a).__name__ == type(b).__name__)
        same(env, gen, type(a), (), a, b, skip, conds)
    elif issubclass(ty, xs.TupleType):
        conds.append(len(a) == len(b))
        for t, x, y in zip(ty.f_specs(), a, b):
            same(env, gen, t, (), x, y, skip, conds)
    elif issubclass(ty, xs.BlobType):
        conds.append(env.cbytes(b) == a)
    elif issubclass(ty, xs.UnicodeType):
        conds.append((b.decode("utf8") if hasattr(b, "decode") else b) == a)
    else:
        conds.append(b == a)
    return env.all(conds) if top else None


def flips(env, d, lo, hi, k=4):
    for pos in sorted({lo, (lo + hi) // 2, hi - 1} | {lo + (hi - lo) * j // k for j in range(k)}):
        yield pos, env.ref.cat(d[:pos], env.ref.xor(d[pos:pos + 1], b"\x01"), d[pos + 1:])


def altered(env, load, key, d, hl):
    """every change of header or body, every truncation and another key are refused; hl: header length"""
    ref = env.ref
    for pos in range(hl):
        env.refuses("changed header byte %d" % pos, load, key, ref.cat(d[:pos], bytes([(int(d[pos]) + 1) % 256]), d[pos + 1:]))
    for pos, x in flips(env, d, hl, len(d)):
        env.refuses("changed byte", load, key, x)
    for n in sorted({0, 1, hl - 1, hl, hl + 8, hl + 63, hl + 72, (hl + len(d)) // 2, len(d) - 1}):
        env.refuses("truncated file", load, key, d[:n])
    env.refuses("extended file", load, key, ref.cat(d, b"\0"))
    k2 = env.scalar("k2")
    env.assume(not bool(ref.sc(k2) == ref.sc(key)))
    env.refuses("another key", load, k2, d)
    return k2


# ---- exported outputs --------------------------------------------------------------------------------------------
@contract("C31", "alg", targets=["wallet.save_exported_outputs", "wallet.load_exported_outputs"], variants=[{"n": n, "m": m} for n in (0, 1, 2, 5) for m in (0, 1, 2) if n or not m], conc=4, conc_time=4)
def outputs(env, n, m):
    """n exported outputs with m elements per list: keys and every field come back; anything else is refused"""
    wl, cr, ref = env.mod(WL), env.mod("monero_glue.xmr.crypto"), env.ref
    g = Gen(env, m, 3 * n + m)
    b, a = env.scalar("b"), env.scalar("a")
    tds = [g.message(g.xt.TransferDetails) for _ in range(n)]
    d = env.cbytes(env.run(wl.save_exported_outputs(b, a, tds)))

    def load(k, x):
        return env.run(wl.load_exported_outputs(k, x))
    env.check(d[:21] == b"Monero output export\x03", "header")
    o = load(a, d)
    env.check(env.cbytes(o.m_spend_public_key) == ref.enc(ref.G * ref.sc(b)) and env.cbytes(o.m_view_public_key) == ref.enc(ref.G * ref.sc(a)), "public keys of the account")
    env.check(len(o.tds) == n, "number of outputs")
    for x, y in zip(tds, o.tds):
        env.check(same(env, g, g.xt.TransferDetails, (), x, y), "every field as stored")
    env.check(env.all([same(env, g, g.xt.TransferDetails, (), x, y) for x, y in zip(tds, load(a, env.ba(d)).tds)]), "also from a bytearray")
    k2 = altered(env, load, a, d, 21)
    pt = env.cbytes(env.mod("monero_glue.xmr.enc.chacha").decrypt_xmr(a, d[21:]))
    env.check(pt[:64] == ref.cat(ref.enc(ref.G * ref.sc(b)), ref.enc(ref.G * ref.sc(a))), "the body starts with the public keys")
    env.check(ref.G * ref.sc(k2) != ref.G * ref.sc(a), "nothing else")


@contract("C31", "alg", targets=["wallet.load_exported_outputs"], variants=[{"n": n} for n in (0, 1, 3)], conc=4, conc_time=4)
def outputs_v4(env, n):
    """version 4 of the file (offset and outputs): read as stored, other offsets refused"""
    wl, ref = env.mod(WL), env.ref
    g = Gen(env, 1, n)
    a, S, V = env.scalar("a"), env.key("S"), env.key("V")
    tds = [g.message(g.xt.TransferDetails) for _ in range(n)]
    for off in (0, 1, 2 ** 40):
        xb = env.mod("monero_serialize.xmrboost")
        w = g.xs.MemoryReaderWriter()
        ar = xb.Archive(w, True)
        env.run(ar.root())
        env.run(ar.tuple((off, tds), elem_type=wl.ExportedOutputsV4))
        d = ref.cat(b"Monero output export\x04", env.mod("monero_glue.xmr.enc.chacha").encrypt_xmr(a, ref.cat(S, V, env.cbytes(w.get_buffer()))))
        r = env.attempt(lambda: env.run(wl.load_exported_outputs(a, d)))
        if off:
            env.check(not r.ok, "other offsets are refused")
            continue
        env.check(r.ok and env.cbytes(r.value.m_spend_public_key) == S and env.cbytes(r.value.m_view_public_key) == V, "public keys")
        env.check(r.ok and len(r.value.tds) == n and env.all([same(env, g, g.xt.TransferDetails, (), x, y) for x, y in zip(tds, r.value.tds)]), "outputs")
        for v in (0, 1, 2, 3, 5, 255):
            env.refuses("contents of another version", lambda: env.run(wl.load_exported_outputs(a, ref.cat(d[:20], bytes([v]), d[21:]))))


# ---- transaction sets ------------------------------------------------------------------------------------------
V9 = {("TxDestinationEntry", "original"), ("TxDestinationEntry", "is_integrated"), ("TxConstructionData", "use_bulletproofs"), ("TxConstructionData", "rct_config"),
      ("TransferDetails", "m_key_image_requested"), ("TransferDetails", "m_uses")}
V10 = {("TxConstructionData", "rct_config"), ("TransferDetails", "m_uses")}


@contract("C31", "alg", targets=["wallet.dump_unsigned_tx", "wallet.load_unsigned_tx"], variants=[{"n": n, "m": m, "hf": h} for n in (0, 1, 2) for m in (0, 1, 2) for h in (9, 10) if n or not m],
          conc=4, conc_time=4)
def unsigned(env, n, m, hf):
    """n transactions and transfers: everything comes back; anything else is refused"""
    wl, ref = env.mod(WL), env.ref
    g = Gen(env, m, 5 * n + m)
    a = env.scalar("a")
    s = g.xt.UnsignedTxSet(txes=[g.message(g.xt.TxConstructionData) for _ in range(n)], transfers=[g.message(g.xt.TransferDetails) for _ in range(n)])
    keep = env.copy(s)
    kw = {"hf": hf} if hf != 9 or n == 1 else {}
    d = env.cbytes(env.run(wl.dump_unsigned_tx(a, s, **kw)))
    env.check(d[:23] == b"Monero unsigned tx set\x04", "header")

    def load(k, x):
        return env.run(wl.load_unsigned_tx(k, x, **kw))
    o = load(a, d)
    skip = V9 if hf == 9 else V10
    env.check(same(env, g, g.xt.UnsignedTxSet, (), keep, o, skip), "every field as stored")
    env.check(same(env, g, g.xt.UnsignedTxSet, (), keep, load(a, env.ba(d)), skip), "also from a bytearray")
    altered(env, load, a, d, 23)


@contract("C31", "alg", targets=["wallet.dump_signed_tx", "wallet.construct_pending_tsx"], variants=[{"n": n, "m": m} for n in (0, 1, 2) for m in (0, 1, 2) if n or not m], conc=4, conc_time=4)
def signed(env, n, m):
    """signed sets: opened by the wallet they contain the transactions, the construction data and the key images"""
    wl, ref, cr = env.mod(WL), env.ref, env.mod("monero_glue.xmr.crypto")
    g = Gen(env, m, n + m)
    a = env.scalar("a")
    ptx = []
    for i in range(n):
        cd = g.message(g.xt.TxConstructionData)
        tx = g.message(g.xt.TransactionPrefix)
        tx = g.xt.Transaction(**{f[0]: getattr(tx, f[0]) for f in g.xt.TransactionPrefix.f_specs()})
        tx.version, tx.signatures = 2, []
        r = g.message(g.xt.RctSigBase, type=(0, 3, 4)[i + m if i + m < 3 else 2])
        tx.rct_signatures = g.xt.RctSig(**{f[0]: getattr(r, f[0]) for f in g.xt.RctSigBase.f_specs()})
        tx.rct_signatures.p = g.message(g.xt.RctSigPrunable, rangeSigs=[])
        p = wl.construct_pending_tsx(tx, cd)
        env.check(p.tx is tx and p.construction_data is cd and p.change_dts is cd.change_dts and p.dests is cd.dests and p.selected_transfers is cd.selected_transfers, "record of the transaction")
        env.check(env.cbytes(p.tx_key) == env.cbytes(cr.encodepoint(cr.identity())) and p.additional_tx_keys == [] and p.multisig_sigs == [], "no transaction key is given away")
        ptx.append(p)
    s = g.xt.SignedTxSet(ptx=ptx, key_images=[g.value(g.xt.KeyImage) for _ in range(m)])
    d = env.cbytes(env.run(wl.dump_signed_tx(a, s)))
    hl = len(b"Monero signed tx set\x04")
    env.check(d[:hl] == b"Monero signed tx set\x04", "header")

    def load(k, x):
        xb = env.mod("monero_serialize.xmrboost")
        ar = xb.Archive(g.xs.MemoryReaderWriter(env.ba(env.mod("monero_glue.xmr.enc.chacha").decrypt_xmr(k, x[hl:], authenticated=True))), False)
        o = g.xt.SignedTxSet()
        env.run(ar.root())
        env.run(ar.message(o))
        return o
    o = load(a, d)
    # not part of the format: fields of the ring signature that follow from the transaction
    skip = {("TxConstructionData", "use_bulletproofs"), ("TxConstructionData", "rct_config"), ("RctSig", "message"), ("RctSig", "mixRing"), ("RctSig", "pseudoOuts"), ("CtKey", "dest"),
            ("RctSigPrunable", "CLSAGs"), ("RctSigPrunable", "bulletproofs_plus"), ("Transaction", "signatures")} | ({("RctSig", "p")} if any(p.tx.rct_signatures.type == 0 for p in ptx) else set())
    env.check(same(env, g, g.xt.SignedTxSet, (), s, o, skip), "everything as stored")
    for pos, x in flips(env, d, hl, len(d)):
        env.refuses("changed byte", load, a, x)


# ---- wallet key files ------------------------------------------------------------------------------------------
HARD = [b'",' * 16, b'"\\,' * 10 + b"\\\\", b"\\" * 32, b'\\",' * 10 + b'"\\', b'"key_data":"xyz",' + b"\0" * 15, bytes(range(32)), bytes(range(224, 256)), b"\n" * 32, b"/" * 16 + b'"}' * 8,
        b'\\u0041' * 5 + b"\\u", b"\r\n" * 16, b"\x7f\x80" * 16]


@contract("C31", "bounded", targets=["wallet.gen_keys_file", "wallet.load_keys_data", "wallet.save_keys_file", "wallet.load_keys_file", "wallet.WalletKeyFile", "wallet.WalletKeyData"], conc=60, conc_time=20)
def key_file(env):
    """key data of every kind of bytes: keys and settings come back; another password and broken files are refused"""
    import os
    import tempfile
    wl, xt = env.mod(WL), env.mod(XT)

    def key(nm):
        return env.choose(nm, HARD + [None] * 12) or env.key(nm)
    ks = [key("k%d" % i) for i in range(4)]
    kd = wl.WalletKeyData(m_creation_timestamp=env.choose("t", NUM), m_keys=xt.AccountKeys(
        m_account_address=xt.AccountPublicAddress(m_spend_public_key=ks[0], m_view_public_key=ks[1]), m_spend_secret_key=ks[2], m_view_secret_key=ks[3]))
    lang = env.choose("lang", ["English", 'x"key_data":"y",z', "Espa\u00f1ol", "a\\b\"\n,"])
    f = wl.WalletKeyFile(seed_language=lang, refresh_height=env.choose("h", NUM), testnet=env.choose("net", [True, False, 0, 1]), key_data=kd)
    f.watch_only, f.default_mixin = env.choose("w", [0, 1]), env.choose("mx", [7, 10])
    keep = dict(vars(f))
    pw = env.choose("pw", [b"", b"pw", b"\x00\xff long password of forty bytes and more...", env.bytes("pw", 12)])
    d = env.run(wl.gen_keys_file(pw, f))
    env.check(vars(f) == keep, "the wallet data stays as it is")

    def right(r):
        k = r["key_data"]["m_keys"]
        env.check([bytes(k["m_account_address"]["m_spend_public_key"]), bytes(k["m_account_address"]["m_view_public_key"]), bytes(k["m_spend_secret_key"]), bytes(k["m_view_secret_key"])] == ks, "keys as stored")
        env.check(r["key_data"]["m_creation_timestamp"] == kd.m_creation_timestamp, "time as stored")
        for name, v in keep.items():
            if name != "key_data":
                env.check(r[name] == v and type(r[name]) is type(v), "setting as stored: " + name)
        env.check(set(r) == set(keep), "no other setting")
    right(env.run(wl.load_keys_data(d, pw)))
    fd, path = tempfile.mkstemp(prefix="c31-")
    os.close(fd)
    try:
        env.run(wl.save_keys_file(path, pw, f))
        right(env.run(wl.load_keys_file(path, pw)))
    finally:
        os.unlink(path)
    d2 = env.run(wl.gen_keys_file(pw, f))
    env.check(d2[:8] != d[:8] and d2 != d, "fresh nonce")
    env.refuses("another password", lambda: env.run(wl.load_keys_data(d, pw + b"x")))
    for n in (0, 5, 8, 9, len(d) // 2, len(d) - 1):
        env.refuses("truncated file", lambda: env.run(wl.load_keys_data(d[:n], pw)))
    env.refuses("changed nonce", lambda: env.run(wl.load_keys_data(bytes([d[0] ^ 1]) + d[1:], pw)))


# ---- amounts ---------------------------------------------------------------------------------------------------
@contract("C31", "bounded", targets=["wallet.conv_disp_amount"], conc=3000, conc_time=6)
def amounts(env):
    """every 64 bit amount: divided by 10^12, to double precision"""
    wl = env.mod(WL)
    a = env.choose("a", [0, 1, 10 ** 12, 10 ** 12 - 1, 123456789012345678, 2 ** 53, 2 ** 64 - 1, None, None, None, None])
    if a is None:
        a = env.u64("v") >> env.choose("sh", range(0, 60, 4))
    r = wl.conv_disp_amount(a)
    env.check(abs(Fraction(r) - Fraction(a, 10 ** 12)) <= Fraction(a, 10 ** 12) / 2 ** 51, "atomic amount divided by 10^12")
