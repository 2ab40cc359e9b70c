"""C21: seed words encode the seed faithfully, a wrong checksum word is refused, keys are the defined ones"""
import hashlib
import hmac
import zlib

from pyvc.run import contract
from pyvc.spec_keccak import keccak256

MN = "monero_glue.xmr.core.mnemonic"
SEED = "monero_glue.xmr.sub.seed"
N = 1626
L = 2 ** 252 + 27742317777372353535851937790883648493


def mnem(env):
    m = env.mod(MN)
    if env.symbolic:
        m.len = lambda x: x.length() if isinstance(x, env.load.SChoice) else len(x)
    return m


def word(env, m, i):
    """the i-th word"""
    return env.load.SChoice(m.words, i) if env.symbolic and not isinstance(i, int) else m.words[i]


def index(env, m, w):
    return w.idx if env.symbolic and not isinstance(w, str) else m.words.index(w)


@contract("C21", "sym", targets=["mnemonic.mn_words", "mnemonic.mn_len"], conc=1)
def table(env):
    """the word list: 1626 different words, different in their first three letters already"""
    m = env.mod(MN)
    env.check(m.mn_len() == N and m.mn_words() is m.words and len(m.words) == N, "size")
    env.check(len({w[:3] for w in m.words}) == N and all(len(w) >= 3 and w == w.lower() and w.isalpha() for w in m.words), "distinct prefixes")
    env.check(m.UNIQUE_PREFIX_LEN == 3, "prefix")
    env.check(hashlib.sha256(" ".join(m.words).encode()).hexdigest() == "3c381ebb6defd69ab7c1998641c8a047a1488fcebc393c5ef44828ca9128003b", "the English list")


@contract("C21", "sym", targets=["mnemonic.mn_encode", "mnemonic.mn_swap_endian_4byte"], variants=[{"n": n} for n in (0, 4, 8, 12, 16, 24, 32)], conc=60, conc_time=2)
def coded(env, n):
    """every byte string: three words per four bytes, as defined, and these words have the value of the bytes"""
    m = mnem(env)
    b = env.bytes("b", n, kind="i")
    w = m.mn_encode(b)
    env.check(len(w) == n // 4 * 3, "number of words")
    for i in range(n // 4):
        x = b[4 * i] + b[4 * i + 1] * 256 + b[4 * i + 2] * 65536 + b[4 * i + 3] * 2 ** 24
        i1, i2, i3 = [index(env, m, q) for q in w[3 * i:3 * i + 3]]
        q1 = x // N
        env.check(i1 == x % N, "first word")
        env.check(i2 == (q1 + i1) % N, "second word")
        env.check(i3 == (q1 // N + i2) % N, "third word")
    if not env.symbolic:
        keep = list(w)
        env.check(bytes.fromhex(m.mn_decode(w)) == b, "back")
        env.check(w == keep, "word list untouched")


@contract("C21", "sym", targets=["mnemonic.mn_encode", "mnemonic.mn_decode"], conc=100, conc_time=2)
def inverse(env):
    """lemma: the words of x (contract coded) have the value x (contract decoded); four bytes are determined by their value"""
    x = env.int("x", 0, 2 ** 32 - 1)
    i1 = x % N
    i2 = (x // N + i1) % N
    i3 = (x // N // N + i2) % N
    env.check(value(i1, i2, i3) == x, "value of the words")
    b, c = [[env.int("%s%d" % (n, i), 0, 255) for i in range(4)] for n in "bc"]
    vb, vc = [q[0] + 256 * q[1] + 65536 * q[2] + 2 ** 24 * q[3] for q in (b, c)]
    env.check(env.all([p == q for p, q in zip(b, c)]) == (vb == vc) if not env.symbolic else ~env.all([vb == vc]) | env.all([p == q for p, q in zip(b, c)]), "bytes of the value")


def value(a, b, c):
    return a + N * ((b - a) % N) + N * N * ((c - b) % N)


@contract("C21", "sym", targets=["mnemonic.mn_decode", "mnemonic.mn_encode"], variants=[{"k": k} for k in (1, 2, 4, 8)], conc=100, conc_time=2)
def decoded(env, k):
    """every 3k words: refused, or 4k bytes with the values of these words"""
    m = mnem(env)
    idx = [env.int("w%d" % i, 0, N - 1) for i in range(3 * k)]
    w = [word(env, m, x) for x in idx]
    r = env.attempt(m.mn_decode, w)
    v = [value(*idx[3 * i:3 * i + 3]) for i in range(k)]
    env.check(len(w) == 3 * k and all(x is y for x, y in zip(w, list(w))), "word list untouched")
    if not r.ok:
        env.check(not bool(env.all([x < 2 ** 32 for x in v])), "only words of no value are refused")
        return
    b = env.cbytes(m.binascii.unhexlify(r.value))
    env.check(len(b) == 4 * k, "four bytes each")
    for i in range(k):
        env.check(v[i] < 2 ** 32, "words of no value are refused")
        env.check(b[4 * i] + 256 * b[4 * i + 1] + 65536 * b[4 * i + 2] + 2 ** 24 * b[4 * i + 3] == v[i], "value of the words")
    if k == 1:
        e = m.mn_encode(b)
        env.check(env.all([index(env, m, x) == y for x, y in zip(e, idx)]), "the words again")


@contract("C21", "sym", targets=["mnemonic.checksum_test", "mnemonic.checksum_create"], variants=[{"k": k} for k in (1, 3, 12, 24)], conc=60, conc_time=2)
def checksum(env, k):
    """k words and any further word: right exactly if it is the word at the position of the checksum"""
    m = mnem(env)
    w = [word(env, m, env.int("w%d" % i, 0, N - 1)) for i in range(k)]
    pos = m.checksum_create(list(w))
    if not env.symbolic:
        env.check(pos == zlib.crc32("".join(x[:3] for x in w).encode()) % len(w), "position of the checksum word")
    env.check(env.all([pos >= 0, pos < k]), "position")
    last = env.int("last", 0, N - 1) if env.symbolic or env.choose("arbitrary", [0, 1]) else index(env, m, w[pos])
    full = w + [word(env, m, last)]
    keep = list(full)
    r = m.checksum_test(full)
    env.check(len(full) == k + 1 and all(x is y for x, y in zip(full, keep)), "word list untouched")
    p = 0
    while p < k - 1 and not bool(pos == p):
        p += 1
    env.check(bool(r) == bool(last == index(env, m, w[p])), "right exactly for the checksum word")


@contract("C21", "sym", targets=["mnemonic.mn_decode"], variants=[{"k": k} for k in (1, 2, 4, 6, 8)], conc=40, conc_time=2)
def checked(env, k):
    """words of any (listed) seed and any further word: accepted exactly if that is the checksum word"""
    m = mnem(env)
    import random
    rnd = random.Random(k)
    b = bytes(rnd.randrange(256) for _ in range(4 * k)) if env.symbolic else env.bytes("b", 4 * k)
    w = m.mn_encode(b)
    good = zlib.crc32("".join(x[:3] for x in w).encode()) % len(w)
    last = env.int("last", 0, N - 1)
    full = w + [word(env, m, last)]
    r = env.attempt(m.mn_decode, full)
    env.check(r.ok == bool(last == m.words.index(w[good])), "accepted exactly with the checksum word")
    env.check(full[:-1] == w, "word list untouched")
    if r.ok:
        env.check(r.value == b.hex(), "seed")
    env.check(m.mn_encode(b, True) == w + [w[good]], "checksum word is appended")
    env.check(m.mn_decode(w + [w[good]]) == b.hex(), "back")


@contract("C21", "sym", targets=["mnemonic.mn_encode"], variants=[{"k": k} for k in (1, 3, 8)], conc=30, conc_time=2)
def appended(env, k):
    """encoding with checksum appends the checksum word, for every seed"""
    m = mnem(env)
    b = env.bytes("b", 4 * k, kind="i")
    w = m.mn_encode(b)
    pos = m.checksum_create(list(w))
    p = 0
    while p < 3 * k - 1 and not bool(pos == p):
        p += 1
    c = m.mn_encode(b, True)
    env.check(len(c) == 3 * k + 1 and env.all([index(env, m, x) == index(env, m, y) for x, y in zip(w, c)]), "words first")
    env.check(index(env, m, c[-1]) == index(env, m, w[p]), "checksum word last")


@contract("C21", "sym", targets=["mnemonic.mn_decode", "seed.SeedDerivation.clean_input"], conc=20, conc_time=2)
def malformed(env):
    """a wrong number of words, unknown and lone words are refused"""
    m = mnem(env)
    b = bytes(range(32))
    w = m.mn_encode(b)
    for n in list(range(1, 25)):
        r = env.attempt(m.mn_decode, list(w[:n]))
        if n % 3 == 2 or n == 1:
            env.check(not r.ok, "wrong number of words is refused")
        elif n % 3 == 0:
            env.check(r.ok and len(r.value) == 8 * (n // 3) and r.value == b[:n // 3 * 4].hex(), "words")
        else:
            env.check(r.ok == (w[zlib.crc32("".join(x[:3] for x in w[:n - 1]).encode()) % (n - 1)] == w[n - 1]), "taken for a checksum word")
    for i in range(24):
        for x in ("zzz", "", w[i][:3], w[i].upper(), w[i] + " "):
            env.refuses("unknown word is refused", m.mn_decode, w[:i] + [x] + w[i + 1:])


# ---- keys -----------------------------------------------------------------------------------------------------------
def keys_of(env, sd, seed):
    ref = env.ref
    s = ref.dec_sc(seed)
    v = ref.dec_sc(ref.keccak(ref.encs(s)))
    env.check(ref.sc(sd.spend_sec) == s, "spend secret")
    env.check(ref.sc(sd.view_sec) == v, "view secret is the hash of the spend secret")
    env.check(ref.pt(sd.spend_pub) == ref.G * s and ref.pt(sd.view_pub) == ref.G * v, "public keys")
    for net in (0, 1, 2):
        c = sd.creds(network_type=net)
        env.check(ref.sc(c.spend_key_private) == s and ref.sc(c.view_key_private) == v and ref.pt(c.spend_key_public) == ref.G * s
                  and ref.pt(c.view_key_public) == ref.G * v and c.network_type == net, "account")
        dec = env.mod("monero_glue.xmr.sub.addr").decode_addr(c.address)
        env.check(dec.net_type == net and not dec.is_sub_address and not dec.is_integrated and env.cbytes(dec.spend_key) == ref.enc(ref.G * s) and env.cbytes(dec.view_key) == ref.enc(ref.G * v), "address")
    return s, v


@contract("C21", "alg", targets=["monero.generate_monero_keys", "SeedDerivation.from_monero_seed", "SeedDerivation.creds", "AccountCreds.new_wallet"],
          variants=[{"form": f} for f in ("reduced", "hash")], conc=8, conc_time=2, trusted=["mn_encode by its contracts (C21 coded, appended)", "encode_addr, decode_addr by C15"])
def keys(env, form):
    """every seed, reduced or not: the keys the scheme defines"""
    cr, ref, sm = env.mod("monero_glue.xmr.crypto"), env.ref, env.mod(SEED)
    if env.symbolic:
        sm.mnemonic = type("W", (), {"mn_encode": staticmethod(lambda b, c=False: ["w"] * 25)})
        ad, cm = env.mod("monero_glue.xmr.sub.addr"), env.mod("monero_glue.xmr.sub.creds")
        cm.encode_addr = lambda v, s, w, p=None: (v, s, w)
        ad.decode_addr = lambda a: type("A", (), {"net_type": {18: 0, 53: 1, 24: 2}.get(a[0][0] if not isinstance(a[0], int) else a[0]), "is_sub_address": False, "is_integrated": False, "spend_key": a[1], "view_key": a[2]})
    seed = cr.encodeint(env.scalar("s")) if form == "reduced" else env.key("seed")
    sd = sm.SeedDerivation.from_monero_seed(seed)
    keys_of(env, sd, seed)
    env.check(env.cbytes(sd.monero_master) == env.cbytes(seed), "seed kept")
    k = env.mod("monero_glue.xmr.monero").generate_monero_keys(seed)
    env.check(ref.sc(k[0]) == ref.dec_sc(seed) and ref.pt(k[1]) == ref.G * ref.dec_sc(seed), "keys")
    if not env.symbolic:
        mn = env.mod(MN)
        w = mn.mn_encode(bytes(seed), True)
        env.check(sd.electrum_words == " ".join(w), "words of the seed")
        for given in (w, [" ".join(w)], " ".join(w), "  ".join(w).upper() + " ", [x.upper() for x in w], w[:24], [" ".join(w[:12]), " ".join(w[12:])]):
            again = sm.SeedDerivation.from_monero_mnemonics(given)
            env.check(cr.encodeint(again.spend_sec) == cr.encodeint(sd.spend_sec) and bytes(again.monero_master) == bytes(seed), "words give the seed")
        bad = list(w)
        i = env.choose("i", list(range(25)))
        bad[i] = mn.words[(mn.words.index(w[i]) + 1 + env.choose("by", [0, 1, 5, 1000])) % N]
        if zlib.crc32("".join(x[:3] for x in bad[:24]).encode()) % 24 is not None and bad[zlib.crc32("".join(x[:3] for x in bad[:24]).encode()) % 24] != bad[24]:
            env.refuses("changed word is detected", sm.SeedDerivation.from_monero_mnemonics, bad)


# ---- keys from a master seed (bounded: the curve of the hierarchical wallets is not ours) ----------------------------------
P = 2 ** 256 - 2 ** 32 - 977
NS = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GS = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def sadd(a, b):
    if a is None or b is None:
        return a or b
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P)
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P)
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


def smul(n, a=GS):
    r = None
    while n:
        if n & 1:
            r = sadd(r, a)
        a = sadd(a, a)
        n >>= 1
    return r


def bip32_key(seed, path):
    i = hmac.new(b"Bitcoin seed", seed, hashlib.sha512).digest()
    k, c = int.from_bytes(i[:32], "big"), i[32:]
    for n in path:
        if n >> 31:
            d = b"\0" + k.to_bytes(32, "big")
        else:
            x, y = smul(k)
            d = bytes([2 + y % 2]) + x.to_bytes(32, "big")
        i = hmac.new(c, d + n.to_bytes(4, "big"), hashlib.sha512).digest()
        k, c = (k + int.from_bytes(i[:32], "big")) % NS, i[32:]
    return k.to_bytes(32, "big")


def slip_key(seed, path):
    i = hmac.new(b"ed25519 seed", seed, hashlib.sha512).digest()
    for n in path:
        i = hmac.new(i[32:], b"\0" + i[:32] + n.to_bytes(4, "big"), hashlib.sha512).digest()
    return i[:32]


H = 2 ** 31


@contract("C21", "bounded", targets=["SeedDerivation.set_seed", "SeedDerivation.from_master_seed", "SeedDerivation.from_mnemonics", "bip39_deriv.mnemonics_to_seed"], conc=8, conc_time=12)
def master(env):
    """keys from a master seed and from words: the defined derivation"""
    cr, sm = env.mod("monero_glue.xmr.crypto"), env.mod(SEED)
    seed = env.bytes("seed", env.choose("n", [16, 32, 64]))
    sd = sm.SeedDerivation.from_master_seed(seed)
    k = bip32_key(seed, [44 + H, 128 + H, H, 0, 0])
    env.check(bytes(sd.monero_master) == keccak256(k), "seed from the path")
    keys_of(env, sd, keccak256(k))
    sd = sm.SeedDerivation.from_master_seed(seed, slip0010=True)
    k = slip_key(seed, [44 + H, 128 + H, H])
    env.check(int.from_bytes(bytes(sd.monero_master), "little") == int.from_bytes(k, "little") % L, "seed from the hardened path")
    keys_of(env, sd, k)
    words = env.mod("monero_glue.misc.bip.bip39").english_words
    w = [words[env.int("w%d" % i, 0, 2047)] for i in range(env.choose("m", [12, 24]))]
    pw = env.bytes("pw", env.choose("k", [0, 5]))
    want = hashlib.pbkdf2_hmac("sha512", " ".join(w).encode(), b"mnemonic" + pw, 2048)
    for given in (w, [" ".join(w).upper()]):
        sd = sm.SeedDerivation.from_mnemonics(given, passphrase=pw)
        env.check(bytes(sd.master_seed) == want, "master seed of the words and passphrase")
    keys_of(env, sd, keccak256(bip32_key(want, [44 + H, 128 + H, H, 0, 0])))
