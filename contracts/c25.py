"""C25: the compact (APDU style) device protocol"""
import hashlib
import sys
import types

from pyvc.run import contract
from contracts import txlib as T

LT = "monero_glue.protocol_lite.lite"
CS = "monero_glue.protocol_lite.consts"
NEED = "LiteProtocol."


def cat(env, *parts):
    r = env.cbytes(b"")
    for p in parts:
        r = r + env.cbytes(p)
    return r


def new(env):
    p = env.mod(LT).LiteProtocol()
    p._state_init()
    return p


def reader(env, data, off=0):
    p = new(env)
    p.c_msg, p.c_offset = env.cbytes(data), off
    return p


def out(env, p, start=0):
    return env.cbytes(p.r_msg[start:p.r_len])


# ---- numbers, tags, lengths, buffers --------------------------------------------------------------------------
@contract("C25", "sym", targets=[NEED + x for x in ("_insert_u8", "_insert_u16", "_insert_u32", "_fetch_u8", "_fetch_u16", "_fetch_u32", "_fetch", "_insert")],
          variants=[{"w": w, "o": o} for w in (1, 2, 4) for o in (0, 3)], conc=60, conc_time=2)
def numbers(env, w, o):
    """every number of w bytes at every place: big endian, read back, truncated refused"""
    T.use_repo(env)
    x = env.int("x", 0, 256 ** w - 1)
    p = new(env)
    pre, post = env.bytes("pre", o), env.bytes("post", 2)
    p._insert(pre)
    {1: p._insert_u8, 2: p._insert_u16, 4: p._insert_u32}[w](x)
    p._insert(post)
    d = out(env, p)
    env.check(len(d) == o + w + 2, "w bytes are written")
    env.check(d[:o] == pre and d[o + w:] == post, "nothing else is written")
    for i in range(w):
        env.check(d[o + i] == (x >> (8 * (w - 1 - i))) & 0xff, "byte %d" % i)

    def fetch(q):
        return {1: q._fetch_u8, 2: q._fetch_u16, 4: q._fetch_u32}[w]()
    q = reader(env, d, o)
    env.check(fetch(q) == x, "read back")
    env.check(q.c_offset == o + w, "reads exactly its bytes")
    env.check(env.cbytes(q._fetch(2)) == post, "and what follows")
    for n in range(o, o + w):
        env.refuses("truncated number is refused", fetch, reader(env, d[:n], o))
    env.refuses("nothing to read is refused", fetch, reader(env, d, len(d)))


@contract("C25", "sym", targets=[NEED + x for x in ("_insert_t", "_insert_tl", "_fetch_t", "_fetch_l")],
          variants=[{"t": t, "l": l} for t in (1, 2) for l in (1, 2, 3)], conc=60, conc_time=2)
def tag_length(env, t, l):
    """every tag of one or two bytes and every length below 65536: read back as written, in the shortest form"""
    T.use_repo(env)
    p = new(env)
    if t == 1:
        tag = env.int("tag", 0, 255)
        env.assume((tag & 0x1f) != 0x1f)
    else:
        tag = (env.choose("hi", [0x1f, 0x3f, 0x5f, 0x7f, 0x9f, 0xbf, 0xdf, 0xff]) << 8) + env.int("lo", 0, 255)
    ln = env.int("len", *{1: (0, 127), 2: (128, 255), 3: (256, 65535)}[l])
    p._insert_tl(tag, ln)
    d = out(env, p)
    env.check(len(d) == t + l, "shortest form")
    if l == 2:
        env.check(d[t] == 0x81, "one length byte follows")
    if l == 3:
        env.check(d[t] == 0x82, "two length bytes follow")
    q = reader(env, cat(env, d, b"\x55"))
    env.check(q._fetch_t() == tag, "tag")
    env.check(q.c_offset == t, "reads exactly the tag")
    env.check(q._fetch_l() == ln, "length")
    env.check(q.c_offset == t + l, "reads exactly its bytes")
    for n in range(t + l):
        def both():
            q = reader(env, d[:n])
            q._fetch_t()
            return q._fetch_l()
        env.refuses("truncated tag and length are refused", both)


@contract("C25", "sym", targets=[NEED + "_fetch_l", NEED + "_fetch_t"], variants=[{"n": n} for n in range(0, 5)], conc=60, conc_time=2)
def length_input(env, n):
    """every input of n bytes: the length it states, or no length at all"""
    T.use_repo(env)
    d = env.bytes("d", n)
    q = reader(env, d)
    r = env.attempt(q._fetch_l)
    if n == 0:
        return env.check(not r.ok, "nothing to read is refused")
    f = d[0]
    if bool(f < 0x80):
        env.check(r.ok and r.value == f and q.c_offset == 1, "short form")
    elif bool(f == 0x81):
        env.check(r.ok == (n >= 2), "one length byte is needed")
        if r.ok:
            env.check(r.value == d[1] and q.c_offset == 2, "one length byte")
    elif bool(f == 0x82):
        env.check(r.ok == (n >= 3), "two length bytes are needed")
        if r.ok:
            env.check(r.value == d[1] * 256 + d[2] and q.c_offset == 3, "two length bytes")
    else:
        env.check(not r.ok or r.value < 0, "no other length is accepted")


SIZES = [0, 1, 8, 31, 32, 33, 255]


@contract("C25", "sym", targets=[NEED + "_insert", NEED + "_fetch", NEED + "_fetch_view", NEED + "_assert_available", "lite.memcpy"],
          variants=[{"n": n, "o": o} for n in SIZES for o in (0, 5)], conc=30, conc_time=2)
def buffers(env, n, o):
    """every buffer of n bytes at an offset: written and read as it is; overrun refused"""
    T.use_repo(env)
    m = env.mod(LT)
    b, pre, post = env.bytes("b", n), env.bytes("pre", o), env.bytes("post", 3)
    p = new(env)
    for part in (pre, b, post):
        p._insert(part)
    d = out(env, p)
    env.check(d == cat(env, pre, b, post), "in order")
    env.check(env.all([x == 0 for x in p.r_msg[p.r_len:p.r_len + 8]]), "nothing behind")
    q = reader(env, d, o)
    env.check(env.cbytes(q._fetch(n, shift=False)) == b and q.c_offset == o, "peek does not advance")
    env.check(env.cbytes(q._fetch_view()) == cat(env, b, post), "view of the rest")
    q._assert_available(n + 3)
    env.refuses("more than available", q._assert_available, n + 4)
    if n == 32:
        env.check(env.cbytes(q._fetch()) == b and q.c_offset == o + n, "32 bytes by default")
    else:
        env.check(env.cbytes(q._fetch(n)) == b and q.c_offset == o + n, "read back")
    env.refuses("reading beyond the command is refused", q._fetch, 4)
    env.check(env.cbytes(q._fetch(3)) == post, "a refused read consumes nothing")
    env.refuses("end of the command", q._fetch, 1)
    if n:
        for k in sorted({0, n // 2, n - 1}):
            env.refuses("truncated buffer is refused", reader(env, d[:o + k], o)._fetch, n)
        p = new(env)
        p._insert(b, n - 1)
        env.check(out(env, p) == b[:-1], "stated length is respected")
        env.refuses("stated length beyond the buffer", p._insert, b, n + 1)
    p = new(env)
    room = len(p.r_msg)
    p.r_len = room - n
    p._insert(b)
    env.check(p.r_len == room and len(p.r_msg) == room and env.cbytes(p.r_msg[room - n:]) == b, "fills the response")
    env.refuses("response overrun is refused", p._insert, b"\x01")
    env.refuses("response overrun is refused", p._insert_u8, 1)
    p.r_len = room - n
    env.refuses("response overrun is refused", p._insert, cat(env, b, b"\x00"))
    env.check(len(p.r_msg) == room, "the response does not grow")


# ---- commands --------------------------------------------------------------------------------------------------
class Iface:
    def __init__(self):
        self.shown = []

    async def confirm_out(self, o, is_change=False, creds=None, ctx=None):
        self.shown.append((o, is_change, creds, ctx))


def apps(env, creds, iface):
    """the firmware modules the protocol is written against: account keys and user interface"""
    async def monero_get_creds(ctx, address_n=None, network_type=None):
        return creds
    pk, pm, pc = types.ModuleType("apps"), types.ModuleType("apps.monero"), types.ModuleType("apps.monero.controller")
    pc.wrapper, pc.iface = types.SimpleNamespace(monero_get_creds=monero_get_creds), types.SimpleNamespace(get_iface=lambda ctx=None: iface)
    pk.__path__, pm.__path__, pc.__path__ = [], [], []
    pk.monero, pm.controller = pm, pc
    sys.modules.update({"apps": pk, "apps.monero": pm, "apps.monero.controller": pc})


class Dev:
    def __init__(self, env):
        self.env, self.ref = env, env.ref
        self.cr, self.c = env.mod("monero_glue.xmr.crypto"), env.mod(CS)
        self.aes = env.mod("monero_glue.xmr.enc.aescbc")
        self.iface = Iface()
        a, b = env.scalar("a"), env.scalar("b")
        self.a, self.b = env.ref.sc(a), env.ref.sc(b)
        self.A, self.B = env.ref.G * self.a, env.ref.G * self.b
        self.creds = T.creds_of(env, a, b)
        self.creds.address = env.bytes("address", 95)
        apps(env, self.creds, self.iface)
        self.p = env.mod(LT).LiteProtocol()
        self.ctx = object()
        env.run(self.p.init(self.ctx, types.SimpleNamespace(address_n=None, network_type=0)))

    def E(self, x):
        return self.env.cbytes(self.aes.encrypt(self.p.key_enc, x, bytes(16)))

    def D(self, x):
        return self.env.cbytes(self.aes.decrypt(self.p.key_enc, x, bytes(16)))

    def call(self, ins, *parts, p1=0, p2=0, opt=0):
        msg = cat(self.env, bytes([opt]), *parts)
        return self.env.attempt(lambda: self.env.run(self.p.dispatch(self.ctx, getattr(self.c, ins), p1, p2, msg)))

    def ok(self, ins, *parts, **k):
        r = self.call(ins, *parts, **k)
        self.env.check(r.ok, "accepted")
        if not r.ok:
            return None
        sw, d = r.value
        self.env.check(sw == self.c.SW_OK, "status")
        return self.env.cbytes(d)


@contract("C25", "alg", targets=[NEED + "init", NEED + "get_key", NEED + "put_key", NEED + "chacha8_prekey", NEED + "verify_key", NEED + "dispatch", NEED + "_sub_dispatch"], conc=6, conc_time=4)
def keys(env):
    """account keys of the device"""
    d = Dev(env)
    p, ref, cr = d.p, env.ref, d.cr
    env.check(len(p.key_enc) == 32 and p.ctx is d.ctx, "session key")
    d2 = Dev(env)
    env.check(not bool(d2.p.key_enc == p.key_enc), "every session has its own key")
    env.check(d.ok("INS_GET_KEY", p1=1) == cat(env, ref.enc(d.A), ref.enc(d.B), d.creds.address), "public keys and address")
    env.check(d.ok("INS_GET_KEY", p1=2) == ref.encs(d.a), "view key for a watch-only wallet")
    for w in (0, 3, 255):
        r = d.call("INS_GET_KEY", p1=w)
        env.check(not r.ok or r.value[0] == d.c.SW_WRONG_P1P2 and len(r.value[1]) == 0, "no other key is given away")
    k = ref.keccak(ref.encs(d.a), ref.encs(d.b), b"\x8c")
    env.check(d.ok("INS_GET_CHACHA8_PREKEY") == cat(env, k, k, k, k, k, k, k[:8]), "wallet cipher prekey")
    x, P = env.scalar("x"), env.point("P")
    X, xe = ref.sc(x), cr.encodeint(x)
    Pe = cr.encodepoint(P)
    own = {"view": (b"\0" * 32, d.a), "spend": (b"\xff" * 32, d.b), "other": (d.E(xe), X)}
    for name, (blob, s) in sorted(own.items()):
        for p1, pub in ((0, ref.pt(P)), (0, ref.G * s), (1, ref.pt(P)), (2, ref.pt(P))):
            want = bool(ref.G * s == {0: pub, 1: d.A, 2: d.B}[p1])
            r = d.ok("INS_VERIFY_KEY", blob, ref.enc(pub), p1=p1)
            env.check(r is not None and r == cat(env, (1 if want else 0).to_bytes(4, "big"), d.creds.address), "key pair is verified: %s %d" % (name, p1))
    r = d.call("INS_VERIFY_KEY", own["view"][0], Pe, p1=3)
    env.check(not r.ok or r.value[0] != d.c.SW_OK, "no other comparison")
    y = env.scalar("y")
    Y, ye = ref.sc(y), cr.encodeint(y)
    good = [xe, ref.enc(ref.G * X), ye, ref.enc(ref.G * Y)]
    for n in range(0, 128, 31):
        r = d.call("INS_PUT_KEY", cat(env, *good)[:n])
        env.check(not r.ok or r.value[0] != d.c.SW_OK, "truncated keys are refused")
    d = Dev(env)
    env.assume(not bool(ref.G * X == ref.pt(P)) and not bool(ref.G * Y == ref.pt(P)))
    for i in (1, 3):
        bad = list(good)
        bad[i] = Pe
        r = d.call("INS_PUT_KEY", *bad)
        env.check(not r.ok or r.value[0] == d.c.SW_WRONG_DATA, "public key of another secret is refused")
        env.check(ref_same(env, d), "refused keys change nothing")
    d = Dev(env)
    env.check(len(d.ok("INS_PUT_KEY", *good)) == 0, "no response data")
    env.check(ref.sc(d.p.a) == X and ref.sc(d.p.b) == Y, "keys as given")
    env.check(d.ok("INS_GET_KEY", p1=1)[:64] == cat(env, good[1], good[3]), "public keys as given")


def table(env, d):
    """command: (arguments, number of them that are optional, response)"""
    ref, cr, aes = env.ref, d.cr, d.aes
    x, y, P, Q = env.scalar("x"), env.scalar("y"), env.point("P"), env.point("Q")
    X, Y, PP, QQ = ref.sc(x), ref.sc(y), ref.pt(P), ref.pt(Q)
    xe, ye, Pe, Qe = cr.encodeint(x), cr.encodeint(y), cr.encodepoint(P), cr.encodepoint(Q)

    def key():
        return {"view": (b"\0" * 32, d.a), "spend": (b"\xff" * 32, d.b), "other": (d.E(xe), X)}[env.choose("key", ["other", "view", "spend"])]

    def idx():
        i = env.choose("i", [None, 0, 1, 127, 128, 300, 2 ** 31, 2 ** 32 - 1])
        if i is None:
            bs = [env.int("index%d" % k, 0, 255) for k in range(4)]
            return env.cbytes(bs), ref.Hs(Qe, ref.varint((bs[0] << 24) | (bs[1] << 16) | (bs[2] << 8) | bs[3]))
        return i.to_bytes(4, "big"), ref.Hs(Qe, ref.varint(i))

    def sub():
        M, m = env.choose("sub", [(0, 0), (0, 1), (1, 0), (7, 2 ** 32 - 1), (2 ** 24 + 3, 256)])
        h = 0 if (M, m) == (0, 0) else ref.Hs(b"SubAddr\0", ref.encs(d.a), M.to_bytes(4, "little"), m.to_bytes(4, "little"))
        hx = X if (M, m) == (0, 0) else ref.Hs(b"SubAddr\0", xe, M.to_bytes(4, "little"), m.to_bytes(4, "little"))
        S = d.B if (M, m) == (0, 0) else d.B + ref.G * h
        V = d.A if (M, m) == (0, 0) else S * d.a
        return M.to_bytes(4, "little") + m.to_bytes(4, "little"), S, V, hx

    def f(name):
        if name in ("INS_SECRET_KEY_TO_PUBLIC_KEY", "INS_SECRET_SCAL_MUL_BASE"):
            return [d.E(xe)], [ref.enc(ref.G * X)]
        if name == "INS_SECRET_SCAL_MUL_KEY":
            return [Pe, d.E(xe)], [ref.enc(PP * X)]
        if name == "INS_GEN_KEY_DERIVATION":
            k, s = key()
            return [Pe, k], [d.E(ref.enc(PP * s * 8))]
        if name == "INS_DERIVATION_TO_SCALAR":
            i, h = idx()
            return [d.E(Qe), i], [d.E(ref.encs(h))]
        if name == "INS_DERIVE_PUBLIC_KEY":
            i, h = idx()
            return [d.E(Qe), i, Pe], [ref.enc(PP + ref.G * h)]
        if name == "INS_DERIVE_SECRET_KEY":
            i, h = idx()
            k, s = key()
            return [d.E(Qe), i, k], [d.E(ref.encs(h + s))]
        if name == "INS_GEN_KEY_IMAGE":
            return [Pe, d.E(xe)], [ref.enc(ref.Hp(Pe) * X)]
        if name == "INS_SECRET_KEY_ADD":
            return [xe, ye], [ref.encs(X + Y)]
        if name == "INS_SECRET_KEY_SUB":
            return [xe, ye], [ref.encs(X - Y)]
        if name == "INS_DERIVE_SUBADDRESS_PUBLIC_KEY":
            i, h = idx()
            return [Pe, d.E(Qe), i], [ref.enc(PP - ref.G * h)]
        if name == "INS_GET_SUBADDRESS":
            b, S, V, hx = sub()
            return [b], [ref.enc(V), ref.enc(S)]
        if name == "INS_GET_SUBADDRESS_SPEND_PUBLIC_KEY":
            b, S, V, hx = sub()
            return [b], [ref.enc(S)]
        if name == "INS_GET_SUBADDRESS_SECRET_KEY":
            b, S, V, hx = sub()
            return [d.E(xe), b], [d.E(ref.encs(hx))]
        if name == "INS_STEALTH":
            k, s = key()
            pid = env.bytes("pid", 8)
            return [Pe, k, pid], [ref.xor(pid, ref.keccak(ref.enc(PP * s * 8), b"\x8d")[:8])]
        h1 = ref.Hs(Qe)
        h2 = ref.Hs(ref.encs(h1))
        if name == "INS_BLIND":
            return [d.E(Qe), xe, ye], [ref.encs(Y + h2), ref.encs(X + h1)]
        if name == "INS_UNBLIND":
            return [d.E(Qe), xe, ye], [ref.encs(Y - h2), ref.encs(X - h1)]
    return f


NAMES = ["INS_SECRET_KEY_TO_PUBLIC_KEY", "INS_SECRET_SCAL_MUL_BASE", "INS_SECRET_SCAL_MUL_KEY", "INS_GEN_KEY_DERIVATION", "INS_DERIVATION_TO_SCALAR",
         "INS_DERIVE_PUBLIC_KEY", "INS_DERIVE_SECRET_KEY", "INS_GEN_KEY_IMAGE", "INS_SECRET_KEY_ADD", "INS_SECRET_KEY_SUB",
         "INS_DERIVE_SUBADDRESS_PUBLIC_KEY", "INS_GET_SUBADDRESS", "INS_GET_SUBADDRESS_SPEND_PUBLIC_KEY", "INS_GET_SUBADDRESS_SECRET_KEY",
         "INS_STEALTH", "INS_BLIND", "INS_UNBLIND"]
FN = {"INS_SECRET_KEY_TO_PUBLIC_KEY": "secret_key_to_public_key", "INS_SECRET_SCAL_MUL_BASE": "scal_mul_base", "INS_SECRET_SCAL_MUL_KEY": "scal_mul_key",
      "INS_GEN_KEY_DERIVATION": "generate_key_derivation", "INS_GEN_KEY_IMAGE": "generate_key_image", "INS_SECRET_KEY_ADD": "sc_add", "INS_SECRET_KEY_SUB": "sc_sub"}


@contract("C25", "alg", targets=[NEED + FN.get(n, n[4:].lower()) for n in NAMES] + [NEED + x for x in ("_fetch_decrypt", "_fetch_decrypt_key", "_insert_encrypt", "_idx_parse", "unblind_int", "dispatch", "_sub_dispatch")],
          variants=[{"name": n} for n in NAMES], conc=12, conc_time=3)
def command(env, name):
    """every command on all arguments: the response is the defined function of them, secrets encrypted; truncated or foreign input refused"""
    d = Dev(env)
    args, want = table(env, d)(name)
    msg = cat(env, *args)
    whole = cat(env, *want)
    r = d.ok(name, msg, opt=env.choose("opt", [0, 0x80]))
    env.check(r is not None and r == whole, "response")
    r = d.ok(name, msg)
    env.check(r is not None and r == whole, "the response does not depend on earlier commands")
    for n in sorted({0, 1, len(msg) - 1} | {k for k in (31, 32, 63, 64, 95) if k < len(msg)}):
        r = d.call(name, msg[:n])
        env.check(not r.ok or r.value[0] != d.c.SW_OK, "truncated command is refused")
    r = env.attempt(lambda: env.run(d.p.dispatch(d.ctx, getattr(d.c, name), 0, 0, env.cbytes(b""))))
    env.check(not r.ok, "empty command is refused")
    env.check(ref_same(env, d), "keys of the device untouched")


def ref_same(env, d):
    ref = env.ref
    return env.all([ref.sc(d.p.a) == d.a, ref.sc(d.p.b) == d.b, ref.pt(d.p.A) == d.A, ref.pt(d.p.B) == d.B])


@contract("C25", "alg", targets=[NEED + "blind", NEED + "unblind", NEED + "unblind_int"], conc=20, conc_time=3)
def blinding(env):
    """blind then unblind: every amount and mask comes back; nothing else opens it"""
    d = Dev(env)
    ref, cr = env.ref, d.cr
    k, v, Q = env.scalar("k"), env.scalar("v"), env.point("Q")
    ke, ve, Qe = cr.encodeint(k), cr.encodeint(v), cr.encodepoint(Q)
    r = d.ok("INS_BLIND", d.E(Qe), ke, ve)
    env.check(r is not None and len(r) == 64, "amount and mask")
    bv, bk = r[:32], r[32:]
    r = d.ok("INS_UNBLIND", d.E(Qe), bk, bv)
    env.check(r is not None and r == cat(env, ve, ke), "restored")
    env.check(not bool(bk == ke) and not bool(bv == ve), "blinded values leave the device")
    d2 = Dev(env)
    r = d2.call("INS_UNBLIND", d.E(Qe), bk, bv)
    env.check(not r.ok or not bool(env.cbytes(r.value[1]) == cat(env, ve, ke)), "a key of another session does not open it")


@contract("C25", "alg", targets=[NEED + "generate_keypair", NEED + "open_tx", NEED + "abort_tx", NEED + "set_signature_mode"], conc=10, conc_time=3)
def session(env):
    """key pairs and transaction keys: public part in clear, secret part encrypted, fresh every time"""
    d = Dev(env)
    ref, cr, c = env.ref, d.cr, d.c
    seen = []
    acc = env.choose("acc", [0, 1, 2 ** 32 - 1])
    for ins, args in (("INS_GENERATE_KEYPAIR", b""), ("INS_OPEN_TX", acc.to_bytes(4, "big")), ("INS_GENERATE_KEYPAIR", b""), ("INS_OPEN_TX", acc.to_bytes(4, "big"))):
        r = d.ok(ins, args)
        env.check(r is not None and len(r) == 64, "public and encrypted secret key")
        s = d.D(r[32:])
        x = ref.dec_sc(s)
        env.check(ref.encs(x) == s and ref.enc(ref.G * x) == r[:32], "of one pair")
        env.check(not bool(s == r[32:]), "the secret is encrypted")
        for y in seen:
            env.check(not bool(x == y), "fresh")
        seen.append(x)
        if ins == "INS_OPEN_TX":
            env.check(d.p.account == acc and ref.sc(d.p.r) == x and ref.pt(d.p.R) == ref.G * x, "kept for the transaction")
            env.check(env.cbytes(d.p.ctx_amount.digest()) == hashlib.sha256().digest(), "amount chain starts anew")
    for n in range(4):
        env.check(not d.call("INS_OPEN_TX", acc.to_bytes(4, "big")[:n]).ok, "truncated account is refused")
    for m in range(0, 6):
        r = d.call("INS_SET_SIGNATURE_MODE", bytes([m]))
        if m in (c.TRANSACTION_CREATE_REAL, c.TRANSACTION_CREATE_FAKE):
            env.check(r.ok and r.value[0] == c.SW_OK and env.cbytes(r.value[1]) == m.to_bytes(4, "big") and d.p.sig_mode == m, "mode is set and reported")
        else:
            env.check(not r.ok and d.p.sig_mode == c.TRANSACTION_CREATE_FAKE, "other modes are refused and leave the fake mode")
    env.check(not d.call("INS_SET_SIGNATURE_MODE").ok, "missing mode is refused")
    env.run(d.p.abort_tx())
    env.check(d.p.r is None and d.p.R is None, "transaction keys forgotten")


# ---- one transaction ---------------------------------------------------------------------------------------------
@contract("C25", "alg", targets=[NEED + x for x in ("mlsag_prehash_init", "mlsag_prehash_update", "mlsag_prehash_finalize", "mlsag_prepare", "mlsag_hash", "mlsag_sign", "_req_dst", "blind")],
          variants=[{"outs": n, "mode": m, "bad": b} for n in (1, 2, 3) for m in (1, 2) for b in ("", "amount", "mask", "commit", "order", "less", "finalC", "dest") if not (b == "order" and n == 1) and not (b == "less" and n == 1)
                    and (m == 1 or b in ("", "amount"))], conc=4, conc_time=3)
def transaction(env, outs, mode, bad):
    """outputs shown, hashed and signed are the ones blinded and committed to; any difference is refused"""
    d = Dev(env)
    ref, cr, c = env.ref, d.cr, d.c
    d.ok("INS_OPEN_TX", b"\0\0\0\0")
    d.ok("INS_SET_SIGNATURE_MODE", bytes([mode]))
    O = []
    for i in range(outs):
        k, v, Q = env.scalar("k%d" % i), env.scalar("v%d" % i), env.point("Q%d" % i)
        own = env.choose("own%d" % i, [False, True]) if i == 0 else False
        A, B = (d.A, d.B) if own else (ref.pt(env.point("A%d" % i)), ref.pt(env.point("B%d" % i)))
        r = d.ok("INS_BLIND", d.E(cr.encodepoint(Q)), cr.encodeint(k), cr.encodeint(v))
        C = ref.enc(ref.G * ref.sc(k) + ref.H * ref.sc(v))
        O.append(dict(own=own, A=ref.enc(A), B=ref.enc(B), Q=cr.encodepoint(Q), v=ref.sc(v), k=ref.sc(k), bv=r[:32], bk=r[32:], C=C, sub=env.choose("sub%d" % i, [0, 1])))
    pre = env.bytes("pre", 40)
    fee = b"\x80\x01"
    r = d.ok("INS_VALIDATE", b"\x02", fee, pre, p1=1, p2=1)
    hashed = [b"\x02", fee, pre]
    more = env.bytes("more", 20)
    d.ok("INS_VALIDATE", more, p1=1, p2=2)
    hashed.append(more)

    y, z = env.scalar("y"), env.key("z")
    if bad == "amount":
        env.assume(not bool(ref.sc(y) == ref.dec_sc(O[-1]["bv"])))
        O[-1]["bv"] = cr.encodeint(y)
    if bad == "mask":
        env.assume(not bool(ref.sc(y) == ref.dec_sc(O[-1]["bk"])))
        O[-1]["bk"] = cr.encodeint(y)
    if bad == "commit":
        env.assume(not bool(ref.enc(ref.G * ref.sc(y)) == O[-1]["C"]))
        O[-1]["C"] = ref.enc(ref.G * ref.sc(y))
    if bad == "dest":
        O[0]["A"] = env.bytes("cut", 31)
    if bad == "order":
        env.assume(not bool(O[0]["bv"] == O[1]["bv"]) and not bool(O[0]["C"] == O[1]["C"]) and not bool(O[0]["Q"] == O[1]["Q"]))
        O[0], O[1] = O[1], O[0]
    if bad == "less":
        O = O[:-1]
    failed = False
    for i, o in enumerate(O):
        last = i == len(O) - 1
        r = d.call("INS_VALIDATE", bytes([o["sub"]]), o["A"], o["B"], d.E(o["Q"]), o["C"], o["bk"], o["bv"], p1=2, opt=0 if last else 0x80)
        if not r.ok or r.value[0] != c.SW_OK:
            failed = True
            break
        hashed += [o["bk"], o["bv"]]
    if bad and bad != "finalC":
        return env.check(failed, "an output that differs from what was blinded or committed to is refused: " + bad)
    env.check(not failed, "honest outputs are accepted")
    if failed:
        return
    shown = [o for o in O if not o["own"]] if mode == c.TRANSACTION_CREATE_REAL else []
    env.check(len(d.iface.shown) == len(shown), "every foreign destination is shown to the user")
    for (so, chg, cred, ctx), o in zip(d.iface.shown, shown):
        env.check(ref.enc(ref.pt(so.addr.view_public_key)) == o["A"] and ref.enc(ref.pt(so.addr.spend_public_key)) == o["B"] and ref.sc(so.amount) == o["v"]
                  and bool(so.is_subaddress) == bool(o["sub"]) and not chg and ctx is d.ctx, "destination and amount shown")
    for i, o in enumerate(O):
        d.ok("INS_VALIDATE", env.key("otherC") if bad == "finalC" and i == len(O) - 1 else o["C"], p1=3, opt=0x80)
        hashed.append(o["C"])
    msg, proof = env.key("msg"), env.key("proof")
    if bad == "finalC":
        r = d.call("INS_VALIDATE", msg, proof, p1=3)
        return env.check(not r.ok, "commitments that differ from the checked ones are refused")
    want = ref.keccak(msg, ref.keccak(*hashed), proof)
    r = d.ok("INS_VALIDATE", msg, proof, p1=3)
    env.check(r is not None and r == want, "message to sign")

    # signature
    x, Hi = env.scalar("x"), env.point("Hi")
    r = d.ok("INS_MLSAG", p1=1)
    env.check(r is not None and len(r) == 64, "one nonce")
    al0 = ref.dec_sc(d.D(r[:32]))
    env.check(ref.enc(ref.G * al0) == r[32:], "nonce times base")
    r = d.ok("INS_MLSAG", cr.encodepoint(Hi), d.E(cr.encodeint(x)), p1=1)
    al = ref.dec_sc(d.D(r[:32]))
    env.check(not bool(al == al0), "fresh nonce")
    env.check(r[32:] == cat(env, ref.enc(ref.G * al), ref.enc(ref.pt(Hi) * al), ref.enc(ref.pt(Hi) * ref.sc(x))), "nonce times base and hash point, key image")
    eal = r[:32]
    r = d.ok("INS_MLSAG", cr.encodepoint(Hi), cr.encodeint(x), p1=1, opt=0x40)
    env.check(r is not None and r[96:] == ref.enc(ref.pt(Hi) * ref.sc(x)), "secret in clear where the host has it")
    m1, m2 = env.key("m1"), env.key("m2")
    env.check(len(d.ok("INS_MLSAG", p1=2, p2=1, opt=0x80)) == 0, "hash starts with the message")
    env.check(len(d.ok("INS_MLSAG", m1, p1=2, p2=2, opt=0x80)) == 0, "no challenge before the end")
    ch = ref.Hs(want, m1, m2)
    env.check(d.ok("INS_MLSAG", m2, p1=2, p2=3) == ref.encs(ch), "challenge")
    f = (lambda b: b) if mode == c.TRANSACTION_CREATE_FAKE else d.E
    r = d.ok("INS_MLSAG", f(cr.encodeint(x)), eal if mode != c.TRANSACTION_CREATE_FAKE else ref.encs(al), p1=3)
    env.check(r is not None and r == cat(env, ref.encs(al - ch * ref.sc(x)), mode.to_bytes(4, "big")), "response of the signature")
    r = d.call("INS_MLSAG", f(cr.encodeint(x)), ref.encs(al)[:31], p1=3)
    env.check(not r.ok, "truncated command is refused")
    for p1 in (0, 4):
        env.check(not d.call("INS_MLSAG", p1=p1).ok and not d.call("INS_VALIDATE", p1=p1).ok, "other subcommands are refused")
    d.p.sig_mode = 0
    env.check(not d.call("INS_MLSAG", f(cr.encodeint(x)), eal, p1=3).ok, "no signature without a mode")


@contract("C25", "alg", targets=[NEED + "_sub_dispatch", NEED + "dispatch"], conc=2, conc_time=4)
def foreign(env):
    """unknown commands: no success and no data"""
    d = Dev(env)
    c = d.c
    known = {v for k, v in vars(c).items() if k.startswith("INS_")}
    for ins in list(range(256)):
        if ins in known and ins not in (c.INS_NONE, c.INS_RESET, c.INS_GET_RESPONSE):
            continue
        r = env.attempt(lambda: env.run(d.p.dispatch(d.ctx, ins, 0, 0, env.cbytes(b"\0" * 100))))
        env.check(not r.ok or (r.value[0] != c.SW_OK and len(r.value[1]) == 0), "unknown command")
