"""C15: base58 and addresses"""
from pyvc.ref import keccak256

ALPH = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
SZ = [0, 2, 3, 5, 6, 7, 9, 10, 11]


def ref_b58_encode(b):
    out = ""
    for i in range(0, len(b), 8):
        blk = b[i:i + 8]
        n = int.from_bytes(blk, "big")
        s = ""
        for _ in range(SZ[len(blk)]):
            n, r = divmod(n, 58)
            s = ALPH[r] + s
        out += s
    return out


def ref_b58_decode(t):
    """bytes, or None if the text is not an encoding"""
    if isinstance(t, (bytes, bytearray)):
        t = bytes(t).decode("latin1")
    out = b""
    for i in range(0, len(t), 11):
        blk = t[i:i + 11]
        if len(blk) not in SZ or any(c not in ALPH for c in blk):
            return None
        n = 0
        for c in blk:
            n = n * 58 + ALPH.index(c)
        k = SZ.index(len(blk))
        if n >= 256 ** k:
            return None
        out += n.to_bytes(k, "big")
    return out


def ref_decode(t):
    """payload (version first) of an address text with a right checksum, else None"""
    d = ref_b58_decode(t)
    if d is None or len(d) < 5 or keccak256(d[:-4])[:4] != d[-4:]:
        return None
    return d[:-4]


# -----------------------------------------------------------------------------------------------------------
from pyvc.run import contract  # noqa: E402

M58 = "monero_glue.misc.b58_mnr"


@contract("C15", "sym", targets=["b58_mnr.b58encode", "b58_mnr.encode_block", "b58_mnr.b58decode", "b58_mnr.decode_block"],
          variants=[{"n": n} for n in list(range(1, 9)) + [9, 11, 13]], conc=40, thorough=[{"n": 16}, {"n": 17}],
          conc_variants=[{"n": n} for n in list(range(0, 81)) + [137]], conc_time=3, max_paths=400)
def roundtrip(env, n):
    """decode(encode(x)) = x for every byte string of the length"""
    m = env.mod(M58)
    x = env.bytes("x", n, kind="i")
    t = m.b58encode(data_bin=x)
    env.check(len(t) == (n // 8) * 11 + SZ[n % 8], "length of the text")
    if not env.symbolic:
        env.check(bytes(t).decode() == ref_b58_encode(x), "text is the Monero base58 form")
        env.check(m.b58encode(x.hex()) == t, "hexadecimal input gives the same text")
        env.check(m.b58decode(bytes(t).decode()) == x if n else True, "textual input is decoded alike")
    else:
        for c in t:
            env.check(env.all([c >= 49, c <= 122]), "characters of the alphabet")
    y = m.b58decode(data_bin=t)
    env.check(len(y) == n and y == x, "decoding returns the bytes")


@contract("C15", "alg", targets=["b58_mnr.b58encode", "b58_mnr.b58decode"], variants=[{"n": n} for n in list(range(1, 82)) + [137]], conc=0)
def blocks(env, n):
    """against the contracts of the two block functions: every byte is in exactly one block, blocks stay in order"""
    m = env.mod(M58)
    vb = env.vb
    seen = []

    def enc(data, buf, index):
        e = vb.to_elems(data)
        seen.append(len(e))
        buf[index:index + SZ[len(e)]] = vb.Term("b58", tuple(x.key() for x in e), SZ[len(e)], e).bytes().e
        return buf

    def dec(data, buf, index):
        e = vb.to_elems(data)
        t = [x.single() for x in e]
        if any(a is None or a[0].kind != "b58" or a[0] is not t[0][0] or a[1] != i for i, a in enumerate(t)) or len(t) != t[0][0].n:
            raise ValueError("not one encoded block")
        p = t[0][0].payload
        buf[index:index + len(p)] = p
        return buf
    m.encode_block, m.decode_block = enc, dec
    x = env.bytes("x", n)
    t = m.b58encode(data_bin=x)
    env.check(seen == [8] * (n // 8) + ([n % 8] if n % 8 else []), "blocks of eight bytes and one rest")
    env.check(len(t) == (n // 8) * 11 + SZ[n % 8], "length of the text")
    r = env.attempt(m.b58decode, data_bin=t)
    env.check(r.ok and len(r.value) == n and r.value == x, "decoding returns the bytes")


@contract("C15", "sym", targets=["b58_mnr.b58decode", "b58_mnr.decode_block"], variants=[{"k": k} for k in range(1, 9)], conc=120, conc_time=4,
          conc_variants=[{"k": k} for k in range(1, 9)])
def decode_block_value(env, k):
    """a block is accepted exactly if its value fits, and then gives that value: distinct texts, distinct bytes"""
    m = env.mod(M58)
    al = [ord(c) for c in ALPH]
    d = [env.int("d%d" % i, 0, 57) for i in range(SZ[k])]
    V = 0
    for x in d:
        V = V * 58 + x
    if not env.symbolic:
        w = env.choose("near the limit", [0, 1, 2, 3])
        if w:
            V = 256 ** k + w - 2
            d = []
            v = V
            for _ in range(SZ[k]):
                d.insert(0, v % 58)
                v //= 58
            env.assume(v == 0)
        t = bytes(al[x] for x in d)
    else:
        t = env.ba([0] * len(d))
        L = env.load
        for i, x in enumerate(d):
            t[i] = L.vc_gi(al, x)
    r = env.attempt(m.b58decode, data_bin=t)
    if bool(V < 256 ** k):
        env.check(r.ok, "a fitting value is accepted")
        if r.ok:
            got = 0
            for b in r.value:
                got = got * 256 + b
            env.check(len(r.value) == k, "block length")
            env.check(got == V, "bytes are the value of the digits")
    else:
        env.check(not r.ok, "a value that does not fit is refused")


@contract("C15", "sym", targets=["b58_mnr.b58decode"], variants=[{"n": n, "p": p} for n in (2, 3, 5, 6, 7, 9, 10, 11) for p in (0, n - 1)],
          conc=40, conc_time=3, conc_variants=[{"n": n, "p": p} for n in (2, 7, 11, 13, 22, 24, 95) for p in sorted({0, n // 2, n - 1})])
def foreign(env, n, p):
    """a character outside the alphabet is refused"""
    m = env.mod(M58)
    t = env.ba(b"1" * n)
    c = env.int("c", 0, 255)
    for a in ALPH:
        env.assume(c != ord(a))
    t[p] = c
    env.refuses("foreign character is refused", m.b58decode, data_bin=env.cbytes(t))


@contract("C15", "bounded", targets=["b58_mnr.b58decode"], conc=300, conc_time=5)
def lengths(env):
    """texts of impossible length are refused, whatever they contain"""
    m = env.mod(M58)
    n = env.choose("n", [k for k in range(1, 120) if (k % 11) in (1, 4, 8)])
    t = bytes(ord(ALPH[env.int("c", 0, 57) if i < 20 else 0]) for i in range(n))
    env.refuses("impossible length", m.b58decode, data_bin=t)
    env.refuses("impossible length as text", m.b58decode, t.decode())


@contract("C15", "bounded", targets=["b58_mnr.b58decode"], conc=400, conc_time=6)
def texts(env):
    """arbitrary texts: refused or inverse of encoding, agreeing with the definition"""
    m = env.mod(M58)
    n = env.choose("n", list(range(1, 40)) + [95, 106])
    hi = env.choose("alphabet", [3, 40, 57, 57])
    t = "".join(ALPH[env.int("c", 0, hi) if i % 11 else env.choose("f", [0, 10, 17, 18, 19, 57])] for i in range(n))
    r = env.attempt(m.b58decode, data_bin=t.encode())
    e = ref_b58_decode(t)
    env.check((r.ok and bytes(r.value) == e) if e is not None else not r.ok, "decodes to the defined value or is refused")
    if r.ok:
        env.check(m.b58encode(data_bin=r.value) == t.encode(), "only one text per byte string")


PREF = {0: (18, 19, 42), 1: (53, 54, 63), 2: (24, 25, 36)}


def stub_base58(env):
    """callee contract of base58 (proved above): an injective text form"""
    m = env.mod(M58)
    if env.symbolic:
        vb = env.vb

        def enc(data_hex=None, data_bin=None):
            b = data_bin if data_bin is not None else vb.unhexlify(data_hex)
            return vb.VBytes(list(b"~") + vb.to_elems(b))

        def dec(data_hex=None, data_bin=None):
            e = vb.to_elems(data_bin)
            if not e or e[0] != 0x7e:
                raise ValueError("not a text")
            return vb.VBytes(e[1:])
        m.b58encode, m.b58decode = enc, dec
    return m


def payload(env, t):
    if env.symbolic:
        return env.vb.VBytes(env.vb.to_elems(t)[1:])
    return ref_b58_decode(t)


def text(env, body):
    if env.symbolic:
        return env.vb.VBytes(list(b"~") + env.vb.to_elems(body))
    return ref_b58_encode(body).encode()


KIND = [{"net": n, "kind": k} for n in (0, 1, 2) for k in ("std", "int", "sub")]


@contract("C15", "alg", targets=["sub.addr.encode_addr", "sub.addr.decode_addr", "sub.addr.public_addr_encode", "crypto.xmr_base58_addr_encode_check",
                                 "crypto.xmr_base58_addr_decode_check", "sub.addr.AddrInfo.set_addr", "sub.addr.AddrInfo.recompute_addr", "sub.xmr_net.net_version",
                                 "sub.addr.get_addr_type", "sub.addr.is_integrated", "sub.addr.is_subaddress"],
          variants=KIND, conc=15, conc_time=4)
def address(env, net, kind):
    """for all keys and payment ids"""
    ad, ref = env.mod("monero_glue.xmr.sub.addr"), env.ref
    stub_base58(env)
    sk, vk = env.key("spend"), env.key("view")
    pid = env.bytes("pid", 8) if kind == "int" else None
    t = ad.public_addr_encode(ad.build_address(sk, vk), kind == "sub", net, pid)
    ver = PREF[net][("std", "int", "sub").index(kind)]
    body = ref.cat(bytes([ver]), sk, vk, pid if pid else b"")
    env.check(payload(env, t) == ref.cat(body, ref.keccak(body)[:4]), "address is version, keys, payment id and checksum")
    ai = ad.decode_addr(t)
    env.check(ai.spend_key == sk, "spend key")
    env.check(ai.view_key == vk, "view key")
    env.check(ai.net_type == net, "network")
    env.check(bool(ai.is_sub_address) == (kind == "sub") and bool(ai.is_integrated) == (kind == "int"), "kind")
    env.check(ai.payment_id == pid if pid is not None else ai.payment_id is None, "payment id")
    env.check(ai.addr == t, "text of the decoded address")
    b2 = ref.cat(bytes([PREF[net][2 if kind == "sub" else 0]]), sk, vk)
    env.check(payload(env, ai.base_addr) == ref.cat(b2, ref.keccak(b2)[:4]), "base address has no payment id")
    # wrong checksums
    env.refuses("another checksum is refused", ad.decode_addr, text(env, ref.cat(body, ref.xor(ref.keccak(body)[:4], b"\x00\x00\x00\x01"))))
    env.refuses("checksum of another version is refused", ad.decode_addr, text(env, ref.cat(bytes([ver ^ 1]), body[1:], ref.keccak(body)[:4])))
    env.refuses("checksum of other keys is refused", ad.decode_addr, text(env, ref.cat(bytes([ver]), vk, sk, body[65:], ref.keccak(body)[:4])))
    for i in (1, 40, 64):
        flip = bytes(i) + b"\x10" + bytes(len(body) - i - 1)
        env.refuses("any modified byte is refused", ad.decode_addr, text(env, ref.cat(ref.xor(body, flip), ref.keccak(body)[:4])))


@contract("C15", "alg", targets=["sub.addr.decode_addr", "sub.addr.get_addr_type", "sub.xmr_net.net_version", "sub.addr.public_addr_encode"], conc=60, conc_time=5)
def kinds(env):
    ad, ref = env.mod("monero_glue.xmr.sub.addr"), env.ref
    nt = env.mod("monero_glue.xmr.sub.xmr_net")
    stub_base58(env)
    sk, vk = env.key("spend"), env.key("view")
    v = env.choose("version", list(range(0, 70)) + [128, 255])
    body = ref.cat(bytes([v]), sk, vk, env.bytes("pid", 8) if v in (19, 54, 25) else b"")
    r = env.attempt(ad.decode_addr, text(env, ref.cat(body, ref.keccak(body)[:4])))
    hit = [(n, i) for n, p in PREF.items() for i, x in enumerate(p) if x == v]
    env.check(r.ok == bool(hit), "only the defined version bytes are accepted")
    if r.ok:
        env.check((r.value.net_type, bool(r.value.is_integrated), bool(r.value.is_sub_address)) == (hit[0][0], hit[0][1] == 1, hit[0][1] == 2),
                  "kind of the version byte")
    env.refuses("integrated subaddress", nt.net_version, 0, True, True)
    env.refuses("unknown network", nt.net_version, env.choose("net", [3, 4, 77]), False, False)
    env.refuses("payment id of a wrong size", ad.public_addr_encode, ad.build_address(sk, vk), False, 0, env.bytes("p", env.choose("n", [1, 7, 9, 32])))
