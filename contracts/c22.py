"""C22: hierarchical derivation depends on parent, index and kind only; private and public derivation agree; nodes survive serialization"""
import hashlib
import hmac

from pyvc.run import contract

BIP = "monero_glue.misc.bip.bip32"
KEYS = "monero_glue.misc.bip.keys"
UT = "monero_glue.misc.bip.utils"
B58 = "monero_glue.misc.b58"
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
HARD = 2 ** 31
NETS = ["monero", "bitcoin", "bitcoin_testnet", "dogecoin", "dogecoin_testnet", "litecoin", "litecoin_testnet", "bitcoin_cash", "bitcoin_gold", "dash", "dash_testnet"]
W = "bip32.Wallet."


def _prep():
    from pyvc import secp
    secp.install()


def alg(**kw):
    """contract over the abstract group of the ecdsa dependency"""
    def deco(fn):
        fn.prepare = _prep
        return contract("C22", "alg", **kw)(fn)
    return deco


def mods(env):
    """bip32, with the callee contracts of is_hex_string (contract texts), memoize (contract cached) and b58 (contract b58_check)"""
    m = env.mod(BIP)
    k = env.mod(KEYS)
    if env.symbolic:
        from pyvc.vbytes import XB, to_elems

        def is_hex(s):
            e = to_elems(s.encode()) if not isinstance(s, (bytes, env.vb.VBytes)) else to_elems(s)
            ok = len(e) > 0
            for c in e:
                if isinstance(c, XB):
                    a = c.single()
                    ok = ok and a is not None and getattr(a[0], "kind", "") == "hexd"
                elif isinstance(c, int):
                    ok = ok and chr(c) in "0123456789abcdefABCDEF"
                else:
                    ok = ok and bool(((c >= 48) & (c <= 57)) | ((c >= 97) & (c <= 102)) | ((c >= 65) & (c <= 70)))
            return ok
        m.is_hex_string = k.is_hex_string = is_hex
        for cls, n in ((m.Wallet, "get_child"), (k.PrivateKey, "get_public_key"), (k.PublicKey, "create_point")):
            f = cls.__dict__[n]
            if hasattr(f, "__wrapped__"):
                setattr(cls, n, f.__wrapped__)

        class b58:
            class Text:
                def __init__(self, v):
                    self.v = v

                def __len__(self):
                    return 111

            @staticmethod
            def b58encode_check(v):
                return b58.Text(v)

            @staticmethod
            def b58decode_check(t):
                return t.v
        m.base58 = k.base58 = b58
        es = m.ensure_str
        m.ensure_str = k.ensure_str = lambda d: d if isinstance(d, b58.Text) else es(d)
        eb = m.ensure_bytes
        m.ensure_bytes = k.ensure_bytes = lambda d: d if isinstance(d, b58.Text) else eb(d)
    return m


def hm512(env, key, msg):
    if env.symbolic:
        return env.load.FakeHmac(key, msg, env.load.FAKES["hashlib"].sha512).digest()
    return hmac.new(bytes(key), bytes(msg), hashlib.sha512).digest()


def hash160(env, b):
    if env.symbolic:
        h = env.load.FakeHash
        return h("ripemd160", h("sha256", b).digest()).digest()
    return hashlib.new("ripemd160", hashlib.sha256(bytes(b)).digest()).digest()


def nat(env, b):
    if env.symbolic:
        from pyvc import secp
        return secp.nat(b._e())
    return int.from_bytes(b, "big")


def be(env, x, n):
    """n big-endian bytes of a number"""
    if env.symbolic:
        from pyvc import secp
        return env.vb.VBytes(secp.nat_bytes(x, n))
    return int(x).to_bytes(n, "big")


def pub(env, k):
    """compressed point k*G"""
    if env.symbolic:
        from pyvc import secp
        x, y = secp.coords(k)
        return env.vb.VBytes([2 + (y & 1)] + secp.nat_bytes(x, 32))
    from ecdsa import SECP256k1, SigningKey
    return SigningKey.from_secret_exponent(int(k), SECP256k1).get_verifying_key().to_string("compressed")


def cat(env, *p):
    if env.symbolic:
        r = env.vb.VBytes([])
        for x in p:
            r = r + x
        return r
    return b"".join(bytes(x) for x in p)


def ser32(env, i):
    """four big-endian bytes of an index (symbolically: of its hexadecimal text, contract texts_any)"""
    if env.symbolic and getattr(env, "alg", False) and not isinstance(i, int):
        from pyvc.text import fmt_hex
        return env.vb.VBytes(fmt_hex(i, 8).hexbytes())
    return env.cbytes([i // 2 ** 24, i // 65536 % 256, i // 256 % 256, i % 256]) if not isinstance(i, int) else i.to_bytes(4, "big")


def hexl(m, b):
    return m.hexlify(b)


def node(env, m, net, name="w", private=True):
    """any node"""
    k = env.int(name + "k", 1, N - 1)
    cc = env.key(name + "cc")
    d, fp, num = env.int(name + "d", 0, 254), env.int(name + "fp", 0, 2 ** 32 - 1), env.int(name + "num", 0, 2 ** 32 - 1)
    kw = dict(chain_code=hexl(m, cc), depth=d, parent_fingerprint=fp, child_number=num, network=net)
    w = m.Wallet(private_exponent=k, **kw)
    if not private:
        w = w.public_copy()
    return w, k, cc


def fields(env, w):
    """observable contents of a node"""
    return [w.chain_code, w.depth, w.parent_fingerprint, w.child_number, w.private_key.get_key() if w.private_key else None,
            w.get_public_key_hex(), w.network]


def same(env, a, b, label):
    for n, x, y in zip(("chain code", "depth", "parent fingerprint", "child number", "private key", "public key", "network"), fields(env, a), fields(env, b)):
        env.check(x == y, "%s: %s" % (label, n))
    env.check(bool(a == b) and bool(b == a) and not bool(a != b), label + ": equal")


def index(env):
    return env.int("i", 0, HARD - 1) if env.symbolic or env.choose("any", [0, 1]) else env.choose("edge", [0, 1, HARD - 1, 255, 256])


@alg(targets=[W + "get_child"], variants=[{"net": n, "hard": h} for n in ("monero", "bitcoin") for h in (False, True)], conc=30, conc_time=4)
def defined(env, net, hard):
    """a child of a private node is the one BIP32 defines, whatever the other attributes of the parent are"""
    m = mods(env)
    w, k, cc = node(env, m, net)
    i = index(env)
    form = env.choose("form", ["flag", "keyword", "sign", "public"])
    a = (i, hard)
    if form == "sign":
        if hard:
            env.assume(i >= 1)
        a = (-i if hard else i,)
    r = env.attempt(w.get_child, a[0], is_prime=hard) if form == "keyword" else (
        env.attempt(w.get_child, i, hard, False) if form == "public" else env.attempt(w.get_child, *a))
    data = cat(env, b"\0" + be(env, k, 32) if hard else pub(env, k), ser32(env, i + HARD if hard else i))
    I = hm512(env, cc, data)
    il = nat(env, I[:32])
    e = (il + k) % N
    valid = env.all([il < N, e != 0])
    if not r.ok:
        env.check(not bool(valid), "only impossible keys are refused")
        return
    c = r.value
    env.check(valid, "impossible keys are refused")
    if form == "public":
        env.check(c.private_key is None, "public copy has no private key")
    else:
        env.check(m.unhexlify(c.private_key.get_key()) == be(env, e, 32), "private key")
    env.check(m.unhexlify(c.get_public_key_hex()) == pub(env, e), "public key")
    env.check(m.unhexlify(c.chain_code) == I[32:], "chain code")
    env.check(c.depth == w.depth + 1, "depth")
    env.check(c.child_number == (i + HARD if hard else i), "child number")
    env.check(c.parent_fingerprint == b"0x" + hexl(m, hash160(env, pub(env, k))[:4]), "fingerprint of the parent")
    env.check(c.network is m.Wallet.get_network(net) and c.public_key.network is c.network, "network")
    env.check(c.private_key is None or c.private_key.network is c.network, "network of the private key")
    env.check(c.use_ed25519 is False, "curve")


@alg(targets=[W + "get_child", W + "public_copy", W + "__eq__"], variants=[{"net": n} for n in NETS], conc=30, conc_time=3)
def agree(env, net):
    """the child of the public node is the public copy of the privately derived child"""
    m = mods(env)
    w, k, cc = node(env, m, net)
    i = index(env)
    p = w.public_copy()
    env.check(p.private_key is None, "public copy has no private key")
    il = nat(env, hm512(env, cc, cat(env, pub(env, k), ser32(env, i)))[:32])
    env.assume(il != 0)
    a = env.attempt(w.get_child, i, False)
    b = env.attempt(p.get_child, i, False, env.choose("as_private", [True, False]))
    if a.ok != b.ok:
        env.check(False, "both or none")
        return
    env.check(True, "both or none")
    if not a.ok:
        return
    env.check(b.value.private_key is None, "no private key")
    same(env, b.value, a.value.public_copy(), "public child")
    env.check(b.value.serialize(private=False) == a.value.serialize(private=False), "public serialization")
    h = env.attempt(p.get_child, i, True)
    env.check(not h.ok, "no hardened child of a public node")


@alg(targets=[W + "public_copy", W + "get_child"], variants=[{"net": n} for n in ("monero", "bitcoin")], conc=15, conc_time=2)
def twice(env, net):
    """two children of one parent and a grandchild: every request gives what it gives alone; the parent stays as it was"""
    m = mods(env)
    w, k, cc = node(env, m, net)
    before = fields(env, w)
    i, j = index(env), env.int("j", 0, HARD - 1)
    hi, hj = env.choose("hi", [False, True]), env.choose("hj", [False, True])
    a = env.attempt(w.get_child, i, hi)
    b = env.attempt(w.get_child, j, hj)
    for x, y in zip(before, fields(env, w)):
        env.check(x == y, "parent unchanged")
    v = m.Wallet(chain_code=hexl(m, cc), depth=w.depth, parent_fingerprint=int(0) + nat(env, m.unhexlify(w.parent_fingerprint[2:])) if not env.symbolic else w.parent_fingerprint,
                 child_number=w.child_number, private_exponent=k, network=net)
    env.check(bool(v == w), "the same node built again")
    b2 = env.attempt(v.get_child, j, hj)
    env.check(b.ok == b2.ok, "as alone: refused or not")
    if b.ok and b2.ok:
        same(env, b.value, b2.value, "as alone")
    if a.ok and b.ok and hi == hj and bool(i == j):
        same(env, a.value, b.value, "same index")


@alg(targets=[W + "serialize", W + "deserialize", W + "serialize_b58", W + "__init__", "keys.PublicKey.from_hex_key", "keys.PublicKey.get_key"],
     variants=[{"net": n, "private": p} for n in NETS for p in (True, False)], conc=20, conc_time=2)
def serialized(env, net, private):
    """a serialized node deserializes to an equal node, from hex, bytes and base58 text; other networks' keys are refused"""
    m = mods(env)
    w, k, cc = node(env, m, net, private=private or env.choose("drop", [0, 1]) == 0)
    d = env.int("depth", 0, 255)
    w.depth = d
    s = w.serialize(private)
    env.check(len(s) == 156, "length")
    nw = m.Wallet.get_network(net)
    v = nw.EXT_SECRET_KEY if private else nw.EXT_PUBLIC_KEY
    body = cat(env, v.to_bytes(4, "big"), env.cbytes([d]), m.unhexlify(w.parent_fingerprint[2:]), ser32(env, w.child_number), cc,
               b"\0" + be(env, k, 32) if private else pub(env, k))
    env.check(m.unhexlify(s) == body, "contents")
    form = env.choose("form", ["hex", "bytes", "b58"])
    t = s if form == "hex" else (m.unhexlify(s) if form == "bytes" else w.serialize_b58(private))
    env.check(len(t) == {"hex": 156, "bytes": 78, "b58": 111}[form], "length of the form")
    x = m.Wallet.deserialize(t, net)
    same(env, x, w if private or w.private_key is None else w.public_copy(), "read back")
    if w.private_key is None:
        env.refuses("no private serialization of a public node", w.serialize, True)
    other = env.choose("other", [n for n in ("monero", "bitcoin", "dogecoin", "dash_testnet") if m.Wallet.get_network(n).EXT_SECRET_KEY != nw.EXT_SECRET_KEY])
    env.refuses("keys of other networks", m.Wallet.deserialize, t, other)


@alg(targets=[W + "crack_private_key", "keys.PrivateKey.__sub__"], variants=[{"net": n} for n in ("monero", "bitcoin")], conc=20, conc_time=2)
def cracked(env, net):
    """a public parent and a private non-hardened child determine the private parent, as documented; other children are refused"""
    m = mods(env)
    w, k, cc = node(env, m, net)
    i = index(env)
    hard = env.choose("hard", [False, True])
    il = nat(env, hm512(env, cc, cat(env, pub(env, k), ser32(env, i)))[:32])
    env.assume(env.all([il != 0, il < N]))
    c = env.attempt(w.get_child, i, hard)
    if not c.ok:
        env.check(True, "refused")
        return
    r = env.attempt(w.public_copy().crack_private_key, c.value)
    if hard:
        env.check(not r.ok, "hardened children reveal nothing")
        return
    env.check(r.ok, "parent found")
    same(env, r.value, w, "parent")
    env.refuses("nothing to crack", w.crack_private_key, c.value)


@alg(targets=[W + "from_master_secret"], variants=[{"n": n, "ed": e} for n in (16, 32, 64) for e in (False, True)], conc=20, conc_time=2)
def master(env, n, ed):
    """master node of a seed"""
    m = mods(env)
    seed = env.bytes("seed", n)
    net = env.choose("net", ["monero", "bitcoin_testnet"])
    r = env.attempt(m.Wallet.from_master_secret, seed, net, ed)
    I = hm512(env, b"ed25519 seed" if ed else b"Bitcoin seed", seed)
    il = nat(env, I[:32])
    valid = env.all([il >= 1, il < N])
    if not r.ok:
        env.check(not bool(valid), "only impossible keys are refused")
        return
    w = r.value
    env.check(valid, "impossible keys are refused")
    env.check(m.unhexlify(w.private_key.get_key()) == I[:32], "private key")
    env.check(m.unhexlify(w.chain_code) == I[32:], "chain code")
    env.check(w.depth == 0 and w.child_number == 0 and w.parent_fingerprint == b"0x00000000", "root")
    env.check(w.network is m.Wallet.get_network(net) and w.seed_secret == seed and w.use_ed25519 is ed, "attributes")


@alg(targets=[W + "get_child", "keys.Ed25519PrivateKey.from_hex_key", W + "public_copy"], variants=[{"steps": s} for s in (1, 2, 3)], conc=15, conc_time=2)
def slip10(env, steps):
    """ed25519 nodes: SLIP-10 chain of hardened children; nothing else is derived"""
    m = mods(env)
    seed = env.bytes("seed", 32)
    r = env.attempt(m.Wallet.from_master_secret, seed, "monero", True)
    I = hm512(env, b"ed25519 seed", seed)
    if not r.ok:
        env.check(True, "refused")
        return
    w = r.value
    for s in range(steps):
        i = env.int("i%d" % s, 0, HARD - 1)
        q = env.attempt(w.get_child, i, False)
        env.check(not q.ok, "no public derivation")
        c = w.get_child(i, True)
        I = hm512(env, I[32:], cat(env, b"\0" + I[:32], ser32(env, i + HARD)))
        env.check(m.unhexlify(c.private_key.get_key()) == I[:32] and m.unhexlify(c.chain_code) == I[32:], "key and chain code")
        env.check(c.depth == s + 1 and c.child_number == i + HARD and c.use_ed25519 is True, "attributes")
        p = c.public_copy()
        env.check(p.private_key is None and p.get_public_key_hex() == c.get_public_key_hex() and p.use_ed25519 is True, "public copy")
        env.refuses("public nodes derive nothing", p.get_child, i, True)
        w = c


@alg(targets=["keys.PublicKey.from_hex_key", "keys.PublicKey.get_key", "keys.PublicKey.__eq__", "keys.PrivateKey.from_hex_key", "keys.PrivateKey.get_public_key"],
     variants=[{"net": n} for n in ("monero", "bitcoin")], conc=20, conc_time=2)
def keys(env, net):
    """key texts: compressed and uncompressed public keys and private keys are read back equal"""
    m = mods(env)
    kk = env.mod(KEYS)
    nw = m.Wallet.get_network(net)
    k = env.int("k", 1, N - 1)
    s = kk.PrivateKey(k, network=nw)
    q = s.get_public_key()
    env.check(m.unhexlify(s.get_key()) == be(env, k, 32), "private text")
    env.check(bool(kk.PrivateKey.from_hex_key(s.get_key(), nw) == s), "private key back")
    env.check(bool(kk.PrivateKey.from_hex_key(m.unhexlify(s.get_key()), nw) == s), "private key back from bytes")
    for c in (True, False):
        t = q.get_key(c)
        env.check(len(t) == (66 if c else 130), "length")
        for x in (t, m.unhexlify(t)):
            y = kk.PublicKey.from_hex_key(x, nw)
            env.check(bool(y == q) and y.compressed is c, "public key back")
            env.check(bool(y.x == q.x) and bool(y.y == q.y), "coordinates")
    env.check(m.unhexlify(q.get_key(True)) == pub(env, k), "compressed text")
    k2 = env.int("k2", 1, N - 1)
    s2 = kk.PrivateKey(k2, network=nw)
    env.check(bool(s == s2) == bool(k == k2), "private keys differ as their numbers")
    env.check(bool(s2.get_public_key() == q) == bool(k == k2), "public keys differ as their numbers")
    on = m.Wallet.get_network("dash")
    env.check(not bool(kk.PrivateKey(k, network=on) == s), "network counts")
    env.check(not bool(kk.PrivateKey(k, network=on).get_public_key() == q), "network counts for public keys")
    d = s - s2 if bool(k != k2) else None
    if d is not None:
        env.check(m.unhexlify(d.get_key()) == be(env, (k - k2) % N, 32), "difference")


@alg(targets=["keys.PrivateKey.export_to_wif", "keys.PrivateKey.from_wif", W + "export_to_wif", W + "to_address", "keys.PublicKey.to_address"],
     variants=[{"net": n, "comp": c} for n in ("monero", "bitcoin", "dash_testnet") for c in (False, True)], conc=20, conc_time=2)
def wif(env, net, comp):
    """exported private keys are read back equal; keys of other networks are refused; addresses are the defined ones"""
    m = mods(env)
    kk = env.mod(KEYS)
    nw = m.Wallet.get_network(net)
    k = env.int("k", 1, N - 1)
    s = kk.PrivateKey(k, network=nw, compressed=comp)
    how = env.choose("how", ["flag", "own"])
    t = s.export_to_wif(comp) if how == "flag" else s.export_to_wif()
    raw = m.base58.b58decode_check(t)
    env.check(raw == cat(env, bytes([nw.SECRET_KEY]), be(env, k, 32), b"\1" if comp else b""), "contents")
    b = kk.PrivateKey.from_wif(t, nw)
    env.check(bool(b == s) and b.compressed is comp, "read back")
    on = m.Wallet.get_network("litecoin")
    env.refuses("other network", kk.PrivateKey.from_wif, t, on)
    w = m.Wallet(chain_code=hexl(m, env.key("cc")), private_exponent=k, network=net)
    env.check(m.base58.b58decode_check(w.export_to_wif()) == cat(env, bytes([nw.SECRET_KEY]), be(env, k, 32), b"\1"), "wallet form")
    env.check(m.base58.b58decode_check(w.to_address()) == cat(env, bytes([nw.PUBKEY_ADDRESS]), hash160(env, pub(env, k))), "address")
    env.check(m.base58.b58decode_check(w.public_key.to_address(True)) == m.base58.b58decode_check(w.to_address()), "address of the public key")


@contract("C22", "sym", targets=[W + "bytes_to_indices", W + "indices_to_bytes"], variants=[{"n": n, "bits": 11} for n in list(range(1, 41)) + [64, 65]] + [{"n": n, "bits": b} for b in (8, 9, 10, 12, 13, 16) for n in (1, 5, 16, 33)],
          thorough=[{"n": n, "bits": b} for b in range(8, 17) for n in range(1, 70)], conc=20, conc_time=1)
def packed(env, n, bits):
    """n seed bytes, any values: the word indices are the bits in order, padded with zeros; unpacking gives the bytes again"""
    m = env.mod(BIP)
    b = env.bytes("b", n)
    r = m.Wallet.bytes_to_indices(b, bits)
    k = -(-8 * n // bits)
    env.check(len(r) == k, "number of words")

    def bit(i):
        return (b[i // 8] >> (7 - i % 8)) & 1 if i < 8 * n else 0
    for j in range(k):
        v = 0
        for i in range(bits):
            v = v * 2 + bit(bits * j + i)
        env.check(r[j] == v, "bits of a word")
    s = m.Wallet.indices_to_bytes(r, bits)
    env.check(len(s) == bits * k // 8 and s[:n] == b, "bytes back")
    env.check(s[n:] == bytes(len(s) - n), "padding")


@contract("C22", "sym", targets=[W + "indices_to_bytes"], variants=[{"k": k} for k in (1, 2, 3, 8, 12, 15, 16, 18, 21, 24)], conc=20, conc_time=1)
def unpacked(env, k):
    """k word indices, any values: their bits in order; where they fill whole bytes packing gives the indices again"""
    m = env.mod(BIP)
    idx = [env.bv("i%d" % j, 11) for j in range(k)]
    s = m.Wallet.indices_to_bytes(list(idx))
    env.check(len(s) == 11 * k // 8, "length")
    for j in range(len(s)):
        v = 0
        for i in range(8 * j, 8 * j + 8):
            v = v * 2 + ((idx[i // 11] >> (10 - i % 11)) & 1)
        env.check(s[j] == v, "bits of a byte")
    if 11 * k % 8 == 0:
        r = m.Wallet.bytes_to_indices(s)
        env.check(len(r) == k and env.all([x == y for x, y in zip(r, idx)]), "indices back")


@contract("C22", "bounded", targets=[W + "to_seed_words"], variants=[{"n": n} for n in (16, 20, 24, 28, 32, 64)], conc=20, conc_time=1)
def words(env, n):
    """seed words: seed and first checksum byte, packed"""
    m = env.mod(BIP)
    s = env.bytes("s", n)
    w = m.Wallet.from_master_secret(s)
    ws, idx = w.to_seed_words()
    full = s + hashlib.sha256(s).digest()[:1]
    env.check(m.Wallet.indices_to_bytes(idx)[:n + 1] == full, "seed and checksum")
    el = m.bip39.english_words
    env.check(ws == [el[i] for i in idx] and len(set(el)) == len(el) == 2048, "words of the indices")
    env.check(w.get_child(1).to_seed_words() is None, "children have no seed")


def value(b):
    r = 0
    for x in b:
        r = r * 256 + x
    return r


@contract("C22", "sym", targets=["b58.b58encode", "b58.b58decode", "b58.b58encode_int", "b58.b58decode_int"], variants=[{"n": n, "z": z} for n in (0, 1, 2, 3, 4, 6, 8) for z in (0, 1, 3)],
          thorough=[{"n": n, "z": z} for n in range(13) for z in (0, 1, 3)],
          conc=60, conc_time=2)
def b58_text(env, n, z):
    """z zero bytes and n bytes of any value: the text is the number in base 58 with a leading 1 for every leading zero byte; decoding gives the bytes again"""
    m = env.mod(B58)
    b = env.bytes("b", n, kind="i")
    v = bytes(z) + b
    t = m.b58encode(v)
    lead = 0
    while lead < len(v) and bool(v[lead] == 0):
        lead += 1
    env.check(env.all([c == m.alphabet[0] for c in t[:lead]]) if lead else True, "leading zeros")
    env.check(len(t) == lead or not bool(t[lead] == m.alphabet[0]), "leading ones only for zeros")
    val = 0
    for c in t[lead:]:
        if env.symbolic:
            d = env.load.vc_index(m.alphabet, c)
        else:
            d = m.alphabet.index(c)
        val = val * 58 + d
    env.check(val == value(v), "value in base 58")
    d = m.b58decode(t)
    env.check(len(d) == len(v) and d == v, "decoded")


@contract("C22", "bounded", targets=["b58.b58encode_check", "b58.b58decode_check"], variants=[{"n": n} for n in (0, 1, 2, 21, 25, 33, 34, 37, 38, 74, 78)], conc=150, conc_time=2)
def b58_check(env, n):
    """checked text: decoded to the bytes; altered texts are refused"""
    m = env.mod(B58)
    b = env.bytes("b", n)
    t = m.b58encode_check(b)
    env.check(m.b58decode_check(t) == b and m.b58decode_check(t.decode()) == b, "decoded")
    raw = m.b58decode(t)
    env.check(raw == b + hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4], "contents")
    env.check(int.from_bytes(raw, "big") == sum(m.alphabet.index(c) * 58 ** i for i, c in enumerate(reversed(t))), "number")
    p = env.int("p", 0, len(t) - 1)
    c = env.int("c", 0, 57)
    u = t[:p] + bytes([m.alphabet[c]]) + t[p + 1:]
    r = env.attempt(m.b58decode_check, u)
    env.check(r.ok == (u == t), "altered text")
    env.refuses("other characters", m.b58decode_check, t[:p] + b"0" + t[p + 1:])
    env.refuses("truncated", m.b58decode_check, t[:p])


@contract("C22", "sym", targets=["utils.long_to_hex"], variants=[{"w": w, "n": n} for w, n in ((8, 2 ** 32), (2, 256), (8, HARD), (64, 2 ** 40))], conc=20, conc_time=1)
def texts_any(env, w, n):
    """the hexadecimal text of every number below n in w digits: its big-endian bytes"""
    m, b = env.mod(UT), env.mod(BIP)
    x = env.int("x", 0, n - 1)
    t = m.long_to_hex(x, w)
    env.check(len(t) == w, "digits")
    r = b.unhexlify(t)
    env.check(len(r) == w // 2 and value(r) == x, "bytes of the number")
    env.check(env.all([c >= 0 for c in r] + [c < 256 for c in r]), "bytes")


@contract("C22", "bounded", targets=["utils.is_hex_string", "utils.long_to_hex", "utils.ensure_bytes", "utils.ensure_str", "utils.hash160", "utils.chr_py2"], conc=300, conc_time=3)
def texts(env):
    """helpers: hexadecimal texts are recognised as a whole, numbers are padded, bytes and text convert"""
    m = env.mod(UT)
    n = env.int("n", 0, 40)
    s = bytes(env.choose("h%d" % i, list(b"0123456789abcdefABCDEF")) for i in range(n))
    env.check(m.is_hex_string(s) is (n > 0) and m.is_hex_string(s.decode()) is (n > 0), "hexadecimal")
    p, c = env.int("p", 0, n), env.int("c", 0, 255)
    t = s[:p] + bytes([c]) + s[p:]
    ok = bytes([c]) in b"0123456789abcdefABCDEF"
    env.check(m.is_hex_string(t) is ok and m.is_hex_string(t.decode("latin1")) is ok, "one other character")
    x, w = env.int("x", 0, 2 ** 256), env.choose("w", [2, 8, 64, 66])
    r = m.long_to_hex(x, w)
    env.check(int(r, 16) == x and isinstance(r, bytes) and len(r) == max(w, len("%x" % x)) and r == r.lower(), "number")
    env.check(m.ensure_bytes(s) == s and m.ensure_bytes(s.decode()) == s and m.ensure_str(s) == s.decode() == m.ensure_str(s.decode()), "conversions")
    env.refuses("numbers are no text", m.ensure_str, 5)
    env.check(m.chr_py2(c) == bytes([c]), "byte")
    env.check(m.hash160(t) == hashlib.new("ripemd160", hashlib.sha256(t).digest()).digest(), "hash160")


@contract("C22", "sym", targets=["utils.memoize"], conc=200, conc_time=2)
def cached(env):
    """a memoized function returns, for every sequence of calls, what the function returns for these arguments"""
    m = env.mod(UT)

    def shape(n):
        a = (env.choose(n + "x", [0, 1, 7]),)
        kind = env.choose(n + "kind", [0, 1, 2, 3, 4, 5])
        f, p = env.choose(n + "f", [None, True, False]), env.choose(n + "p", [True, False])
        return [(a, {}), (a + (f,), {}), (a + (f, p), {}), (a, {"is_prime": f}), (a + (f,), {"as_private": p}), (a, {"as_private": p, "is_prime": f})][kind]
    calls = [shape("c%d" % i) for i in range(1 if env.symbolic else 4)]
    if env.symbolic:
        # every two calls on one function
        calls = [(a, {}) for a in [(0,), (1,)]]
        calls = [(a + p, k) for a, k in calls for p in [(), (None,), (True,), (False,), (False, False), (True, True), (None, False)]]
        calls += [((x,), dict(k)) for x in (0, 1) for k in ({"is_prime": True}, {"is_prime": False}, {"is_prime": None}, {"as_private": False}, {"as_private": True},
                  {"is_prime": True, "as_private": False}, {"as_private": True, "is_prime": False})]
        calls = [env.choose("first", calls)] + calls + calls[::-1]
    for impl in (m.memoize,):
        n = []

        def f(x, is_prime=None, as_private=True):
            n.append(1)
            return (x, is_prime, as_private)
        g = impl(f)
        for a, k in calls:
            env.check(g(*a, **k) == f(*a, **k), "result of the call")
        env.check(g.__name__ == "f", "name")


@contract("C22", "bounded", targets=[W + "get_child", W + "get_child_for_path", "utils.memoize"], conc=40, conc_time=5)
def histories(env):
    """any sequence of requests on one wallet gives what each request gives on a fresh one; paths are sequences of requests"""
    m = env.mod(BIP)
    seed = env.bytes("seed", 32)
    net = env.choose("net", ["monero", "bitcoin"])
    shared = m.Wallet.from_master_secret(seed, net)
    pubw = shared.public_copy()
    for s in range(env.int("len", 1, 6)):
        src = env.choose("src%d" % s, ["private", "private", "public"])
        i = env.choose("i%d" % s, [0, 1, 2, HARD - 1])
        hard = env.choose("h%d" % s, [None, False, True]) if src == "private" else False
        form = env.choose("form%d" % s, ["pos", "kw", "neg", "aspub", "aspubkw", "path"])
        w = shared if src == "private" else pubw

        def req(w):
            if form == "pos":
                return w.get_child(i, hard)
            if form == "kw":
                return w.get_child(child_number=i, is_prime=hard)
            if form == "neg":
                return w.get_child(-i if hard else i)
            if form == "aspub":
                return w.get_child(i, hard, False)
            if form == "aspubkw":
                return w.get_child(i, as_private=False, is_prime=hard)
            return w.get_child_for_path("m/%d%s" % (i, "'" if hard else ""))
        got = req(w)
        fresh = m.Wallet.from_master_secret(seed, net)
        want = req(fresh if src == "private" else fresh.public_copy())
        env.check(bool(got == want) and got.child_number == want.child_number and (got.private_key is None) == (want.private_key is None), "as on a fresh wallet")
        strip = form in ("aspub", "aspubkw") or src == "public"
        env.check((got.private_key is None) == strip, "private key only where asked for")
        h = bool(hard) if form != "neg" else bool(hard and i)
        env.check(got.child_number == i + (HARD if h else 0), "the requested child")


@contract("C22", "bounded", targets=[W + "get_child_for_path"], conc=60, conc_time=4)
def paths(env):
    """a path is the sequence of its steps, in every spelling; what is not a path is refused"""
    m = env.mod(BIP)
    w = m.Wallet.from_master_secret(env.bytes("seed", 32), "bitcoin")
    n = env.int("n", 0, 4)
    steps = [(env.choose("i%d" % k, [0, 1, 44, 128, HARD - 1]), env.choose("h%d" % k, [False, True])) for k in range(n)]
    want = w
    for i, h in steps:
        want = want.get_child(i, h)
    mark = env.choose("mark", ["'", "p"])
    body = "".join("/%d%s" % (i, mark if h else "") for i, h in steps)
    env.check(bool(w.get_child_for_path("m" + body) == want), "private path")
    env.check(bool(w.get_child_for_path(("m" + body).encode()) == want), "path as bytes")
    for p in ("M" + body, "m" + body + ".pub", "M" + body + ".pub"):
        r = w.get_child_for_path(p)
        env.check(bool(r == want.public_copy()) and r.private_key is None, "public path")
    if n:
        env.check(bool(w.get_child_for_path(body[1:]) == want), "path without root")
    for bad in ("", "m/x", "m/1/y'", "m//1", "m/%d" % HARD, "m/-%d" % HARD, "m/%d'" % HARD, "m/0x1"):
        env.refuses("no path: %s" % bad, w.get_child_for_path, bad)
    for bad in (HARD, -HARD, HARD + 1):
        env.refuses("index out of range", w.get_child, bad)
    env.refuses("negative hardened index", w.get_child, -1, True)


@contract("C22", "bounded", targets=[W + "new_random_wallet", W + "from_master_secret_slow", W + "create_new_address_for_user", W + "__init__"], conc=6, conc_time=4)
def wallets(env):
    """other constructors: entropy is mixed in, contradicting or incomplete key data are refused"""
    m = env.mod(BIP)
    kk = env.mod(KEYS)
    net = env.choose("net", ["monero", "bitcoin"])
    rnd = env.bytes("rnd", 64)
    m.crypto.random_bytes, old = (lambda n: rnd[:n]), m.crypto.random_bytes
    try:
        for e, tail in ((None, b""), ("x1", b"x1"), (77, b"77")):
            env.check(bool(m.Wallet.new_random_wallet(e, net) == m.Wallet.from_master_secret(rnd + tail, net)), "random wallet")
    finally:
        m.crypto.random_bytes = old
    w = m.Wallet.from_master_secret(rnd, net)
    u = env.choose("u", [0, 1, 5, HARD - 1])
    a = w.create_new_address_for_user(u)
    env.check(a.private_key is None and bool(a == w.get_child(u, False).public_copy()), "child of a user")
    env.refuses("no such user", w.create_new_address_for_user, -1)
    k1, k2 = env.int("k1", 1, N - 1), env.int("k2", 1, N - 1)
    env.assume(k1 != k2)
    cc = b"ab" * 32
    nw = m.Wallet.get_network(net)
    p2 = kk.PrivateKey(k2, network=nw).get_public_key()
    env.refuses("public key of another private key", m.Wallet, cc, private_exponent=k1, public_key=p2, network=net)
    env.refuses("pair of another private key", m.Wallet, cc, private_exponent=k1, public_pair=p2.to_public_pair(), network=net)
    env.refuses("no key", m.Wallet, cc, network=net)
    for bad in (b"zz" * 32, b"ab" * 31, "ab" * 31 + "a-", 5.0):
        env.refuses("chain code", m.Wallet, bad, private_exponent=k1, network=net)
    env.refuses("exponent", m.Wallet, cc, private_exponent=N, network=net)
    env.check(bool(m.Wallet(cc, public_pair=p2.to_public_pair(), network=net) == m.Wallet(cc, private_exponent=k2, network=net).public_copy()), "public node")
