"""C20: tx extra, payment ids, ring offsets"""
import itertools

from pyvc.run import contract

TH = "monero_glue.xmr.sub.tsx_helper"
XT = "monero_serialize.xmrtypes"

FIELDS = ["pub", "add", "npid8", "npid32"]
ORDERS = [list(p) for k in range(0, 4) for p in itertools.permutations(["pub", "add", "nonce"], k)]


def build(env, th, order, nadd, nkind):
    """returns extra bytes and the list of (kind, value) written"""
    ref = env.ref
    extra = b""
    wrote = []
    for f in order:
        if f == "pub":
            P = env.point("R")
            extra = th.add_tx_pub_key_to_extra(extra, P)
            wrote.append(("pub", ref.enc(ref.pt(P))))
        elif f == "add":
            Ps = [env.point("A%d" % i) for i in range(nadd)]
            if env.choose("encoded", [False, True]):
                extra = env.run(th.add_additional_tx_pub_keys_to_extra(extra, pub_enc=[ref.enc(ref.pt(P)) for P in Ps]))
            else:
                extra = env.run(th.add_additional_tx_pub_keys_to_extra(extra, Ps))
            wrote.append(("add", [ref.enc(ref.pt(P)) for P in Ps]))
        elif f == "nonce":
            if nkind == 8:
                pid = env.bytes("pid", 8)
                n = th.set_encrypted_payment_id_to_tx_extra_nonce(pid)
            elif nkind == 32:
                pid = env.bytes("pid", 32)
                n = th.set_payment_id_to_tx_extra_nonce(pid)
            else:
                pid = None
                n = env.bytes("nonce", -nkind)
            extra = th.add_extra_nonce_to_tx_extra(extra, n)
            wrote.append(("nonce", (n, pid)))
    return extra, wrote


@contract("C20", "alg", targets=["tsx_helper.add_tx_pub_key_to_extra", "tsx_helper.add_additional_tx_pub_keys_to_extra", "tsx_helper.add_extra_nonce_to_tx_extra",
                                 "tsx_helper.parse_extra_fields", "tsx_helper.find_tx_extra_field_by_type"],
          variants=[{"order": o, "nadd": n, "nkind": k} for o in ORDERS for n in ((1, 2, 16) if "add" in o else (1,)) for k in ((8, 32, -7, -127) if "nonce" in o else (8,))],
          conc=3, conc_time=3)
def extra_roundtrip(env, order, nadd, nkind):
    th, xt = env.mod(TH), env.mod(XT)
    extra, wrote = build(env, th, order, nadd, nkind)
    fields = env.run(th.parse_extra_fields(extra if env.choose("aslist", [False, True]) is False else list(extra)))
    env.check(len(fields) == len(wrote), "as many fields are read as were written")
    types = {"pub": xt.TxExtraPubKey, "add": xt.TxExtraAdditionalPubKeys, "nonce": xt.TxExtraNonce}
    for k in types:
        f = th.find_tx_extra_field_by_type(fields, types[k])
        w = [v for a, v in wrote if a == k]
        env.check((f is None) == (not w), "a field is found exactly if it was written: " + k)
        if not w:
            continue
        v = w[0]
        if k == "pub":
            env.check(f.pub_key == v, "transaction public key is read back")
        elif k == "add":
            env.check(len(f.data) == len(v), "number of additional keys")
            env.check(env.all([a == b for a, b in zip(f.data, v)]), "additional keys are read back in order")
        else:
            env.check(f.nonce == v[0], "nonce is read back")
            if nkind == 8:
                env.check(bool(th.has_encrypted_payment_id(f.nonce)) and not th.has_payment_id(f.nonce), "recognised as encrypted payment id")
                env.check(th.get_encrypted_payment_id_from_tx_extra_nonce(f.nonce) == v[1], "encrypted payment id is read back")
                env.refuses("not readable as plain payment id", th.get_payment_id_from_tx_extra_nonce, f.nonce)
            elif nkind == 32:
                env.check(bool(th.has_payment_id(f.nonce)) and not th.has_encrypted_payment_id(f.nonce), "recognised as payment id")
                env.check(th.get_payment_id_from_tx_extra_nonce(f.nonce) == v[1], "payment id is read back")
                env.refuses("not readable as encrypted payment id", th.get_encrypted_payment_id_from_tx_extra_nonce, f.nonce)
        env.check(th.find_tx_extra_field_by_type(fields, types[k], 1) is None, "there is no second field")


@contract("C20", "alg", targets=["tsx_helper.find_tx_extra_field_by_type"], conc=5)
def find_nth(env):
    """the idx-th field of a type, counted among fields of that type only"""
    th, xt = env.mod(TH), env.mod(XT)
    keys = [env.key("k%d" % i) for i in range(3)]
    fs = [xt.TxExtraPubKey(pub_key=keys[0]), xt.TxExtraNonce(nonce=b"\x01"), xt.TxExtraPubKey(pub_key=keys[1]), xt.TxExtraPubKey(pub_key=keys[2])]
    for i in range(3):
        env.check(th.find_tx_extra_field_by_type(fs, xt.TxExtraPubKey, i).pub_key == keys[i], "index %d" % i)
    env.check(th.find_tx_extra_field_by_type(fs, xt.TxExtraPubKey, 3) is None, "past the end")
    env.check(th.find_tx_extra_field_by_type(fs, xt.TxExtraNonce, 0) is fs[1], "other type")
    env.check(th.find_tx_extra_field_by_type([], xt.TxExtraNonce) is None, "empty")


@contract("C20", "alg", targets=["tsx_helper.remove_field_from_tx_extra"], variants=[{"order": o, "rm": r} for o in ORDERS for r in ("pub", "add", "nonce")],
          conc=2, conc_time=3)
def remove_field(env, order, rm):
    th, xt = env.mod(TH), env.mod(XT)
    types = {"pub": xt.TxExtraPubKey, "add": xt.TxExtraAdditionalPubKeys, "nonce": xt.TxExtraNonce}
    extra, wrote = build(env, th, order, 2, 8)
    out = env.run(th.remove_field_from_tx_extra(extra, types[rm]))
    fields = env.run(th.parse_extra_fields(out))
    keep = [(k, v) for k, v in wrote if k != rm]
    env.check(len(fields) == len(keep), "the other fields remain")
    for f, (k, v) in zip(fields, keep):
        env.check(isinstance(f, types[k]), "order of the other fields is kept")
        if k == "pub":
            env.check(f.pub_key == v, "public key is kept")
        elif k == "add":
            env.check(len(f.data) == 2 and env.all([a == b for a, b in zip(f.data, v)]), "additional keys are kept")
        else:
            env.check(f.nonce == v[0], "nonce is kept")


@contract("C20", "sym", targets=["tsx_helper.has_payment_id", "tsx_helper.has_encrypted_payment_id", "tsx_helper.get_payment_id_from_tx_extra_nonce",
                                 "tsx_helper.get_encrypted_payment_id_from_tx_extra_nonce"],
          variants=[{"n": n} for n in (1, 8, 9, 10, 32, 33, 34)], conc=30)
def nonce_classes(env, n):
    """for every nonce content: classified and read exactly by length and tag"""
    th = env.mod(TH)
    b = env.bytes("nonce", n)
    e8 = (b[0] == 1) if n == 9 else False
    e32 = (b[0] == 0) if n == 33 else False
    env.check(bool(th.has_encrypted_payment_id(b)) == bool(e8), "encrypted id: nine bytes with tag one")
    env.check(bool(th.has_payment_id(b)) == bool(e32), "plain id: 33 bytes with tag zero")
    r = env.attempt(th.get_encrypted_payment_id_from_tx_extra_nonce, b)
    env.check(r.ok == bool(e8), "encrypted id is read exactly from such a nonce")
    if r.ok:
        env.check(r.value == b[1:], "value of the encrypted id")
    r = env.attempt(th.get_payment_id_from_tx_extra_nonce, b)
    env.check(r.ok == bool(e32), "plain id is read exactly from such a nonce")
    if r.ok:
        env.check(r.value == b[1:], "value of the plain id")


@contract("C20", "alg", targets=["tsx_helper.add_extra_nonce_to_tx_extra"], variants=[{"n": n} for n in (256, 257, 1000)], conc=1)
def long_nonce(env, n):
    th = env.mod(TH)
    env.refuses("a nonce that does not fit is refused", th.add_extra_nonce_to_tx_extra, b"", env.bytes("nonce", n))


@contract("C20", "alg", targets=["tsx_helper.encrypt_payment_id"], conc=30, backend="trezor+py")
def payment_id_crypt(env):
    """sender and recipient sides agree and encrypting twice restores the id"""
    th, ref = env.mod(TH), env.ref
    a, r = env.scalar("a"), env.scalar("r")
    ra, rr = ref.sc(a), ref.sc(r)
    A, R = ref.point(ref.G * ra), ref.point(ref.G * rr)
    pid = env.bytes("pid", 8)
    e = th.encrypt_payment_id(pid, A, r)
    pad = ref.keccak(ref.enc(ref.G * (ra * rr * 8)), b"\x8d")[:8]
    env.check(len(e) == 8, "eight bytes")
    env.check(e == ref.xor(pid, pad), "masked with the derivation hash")
    env.check(th.encrypt_payment_id(e, A, r) == pid, "encrypting twice restores the id")
    env.check(th.encrypt_payment_id(e, R, a) == pid, "the recipient restores the id")


@contract("C20", "sym", targets=["tsx_helper.absolute_output_offsets_to_relative"], variants=[{"n": n} for n in range(0, 5)], thorough=[{"n": 5}], conc=40,
          conc_variants=[{"n": n} for n in list(range(0, 5)) + [11, 16, 64]])
def offsets(env, n):
    """for all offsets in any order"""
    th = env.mod(TH)
    off = env.ints("o", n, 0, 2 ** 64 - 1)
    before = list(off)
    rel = th.absolute_output_offsets_to_relative(off)
    env.check(len(rel) == n, "as many offsets")
    env.check(env.all([x >= 0 for x in rel]), "relative offsets are not negative")
    env.check(env.all([a == b for a, b in zip(off, before)]) and len(off) == n, "the input is not modified")
    acc = 0
    back = []
    for x in rel:
        acc = acc + x
        back.append(acc)
    env.check(env.all([back[i] <= back[i + 1] for i in range(n - 1)]), "restored offsets ascend")
    # same multiset: every value occurs as often
    for v in before:
        c1 = sum([(x == v) * 1 for x in before]) if n else 0
        c2 = sum([(x == v) * 1 for x in back]) if n else 0
        env.check(c1 == c2, "the running sums are the absolute offsets")


class Ad:
    def __init__(self, s, v):
        self.spend_public_key, self.view_public_key = s, v


class Dst:
    def __init__(self, a, addr):
        self.amount, self.addr = a, addr


@contract("C20", "alg", targets=["tsx_helper.get_destination_view_key_pub", "sub.addr.addr_eq"], variants=[{"n": n} for n in range(0, 4)], conc=60)
def dest_view_key(env, n):
    """view key of the only recipient other than change, zero key if there is none or several"""
    th = env.mod(TH)
    pool = [Ad(env.key("s%d" % i), env.key("v%d" % i)) for i in range(2)] 
    pool.append(Ad(pool[0].spend_public_key, env.key("v2")))
    chg = env.choose("change", [None, 0, 1])
    dests = []
    for i in range(n):
        w = env.choose("who%d" % i, [0, 1, 2])
        am = env.choose("am%d" % i, [0, 5])
        dests.append((am, w))
    got = th.get_destination_view_key_pub([Dst(a, Ad(pool[w].spend_public_key, pool[w].view_public_key)) for a, w in dests], None if chg is None else pool[chg])
    rec = []
    for a, w in dests:
        if a and w != chg and w not in rec:
            rec.append(w)
    if len(rec) == 1:
        env.check(got == pool[rec[0]].view_public_key, "the recipient's view key")
    else:
        env.check(got == bytes(32), "no unique recipient")
