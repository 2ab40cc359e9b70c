"""C14: Keccak-256"""
from pyvc.run import contract
from pyvc import spec_keccak as S

KM = "monero_glue.xmr.core.backend.keccak2"


def spec_blocks(rate, msg):
    """padded message as a list of byte elements"""
    p = list(msg) + [0] * (rate - len(msg) % rate)
    p[len(msg)] = 1
    p[-1] = p[-1] ^ 0x80
    return p


def spec_hash(msg, perm, rate=136):
    """sponge over an arbitrary permutation on lane matrices A[x][y] of the given byte elements"""
    p = spec_blocks(rate, msg)
    A = [[0] * 5 for _ in range(5)]
    for o in range(0, len(p), rate):
        A = spec_absorb(A, p[o:o + rate])
        A = perm(A)
    out = []
    for i in range(4):
        v = A[i % 5][i // 5]
        out += [(v >> (8 * j)) & 0xFF for j in range(8)]
    return out


def spec_absorb(A, block):
    A = [list(r) for r in A]
    for i in range(len(block) // 8):
        v = 0
        for j in range(8):
            v = v | (block[8 * i + j] << (8 * j))
        A[i % 5][i // 5] = A[i % 5][i // 5] ^ v
    return A


@contract("C14", "sym", targets=["keccak2.keccak_f", "keccak2.rol", "keccak2.Masks", "keccak2.RoundConstants", "keccak2.RotationConstants"],
          conc=30, conc_time=8, backend="py")
def permutation(env):
    """keccak_f on an arbitrary 1600-bit state equals Keccak-f[1600] of the specification"""
    m = env.mod(KM)
    st = m.KeccakState(1088, 1600)
    if env.symbolic:
        from pyvc.anf import BV
        A = [[BV.fresh(64) for _ in range(5)] for _ in range(5)]
    else:
        A = [[env.int("lane", 0, 2 ** 64 - 1) for _ in range(5)] for _ in range(5)]
    st.s = [list(r) for r in A]
    m.keccak_f(st)
    want = S.f1600(A)
    for x in range(5):
        for y in range(5):
            env.check(st.s[x][y] == want[x][y], "lane of the permuted state")


def install_uf(env):
    m = env.mod(KM)
    if not env.symbolic:
        def perm(A):
            return S.f1600(A)
        return m, perm
    from pyvc.anf import UF, reset
    cur = [UF(25, 64)]

    def restart():
        reset()
        cur[0] = UF(25, 64)
    m.vc_restart = restart

    def perm(A):
        r = cur[0]([A[x][y] for x in range(5) for y in range(5)])
        return [[r[5 * x + y] for y in range(5)] for x in range(5)]

    def stub(state):
        state.s = perm(state.s)
    m.keccak_f = stub
    return m, perm


def msg(env, n):
    if env.symbolic:
        from pyvc.anf import BV
        from pyvc.vbytes import VBytes
        return VBytes([BV.fresh(8) for _ in range(n)])
    return env.bytes("m", n)


def elems(b):
    return list(b._e()) if hasattr(b, "_e") else list(b)


RNG = [range(a, b) for a, b in ((0, 40), (40, 80), (80, 110), (110, 137))]


@contract("C14", "sym", targets=["keccak2.KeccakHash.update", "keccak2.KeccakHash.digest", "keccak2.KeccakSponge.absorb", "keccak2.KeccakSponge.absorb_final",
                                 "keccak2.KeccakSponge.squeeze", "keccak2.KeccakState.absorb", "keccak2.KeccakState.get_bytes",
                                 "keccak2.multirate_padding"],
          variants=[{"lo": r, "hi": r + 46} for r in range(0, 276, 46)], thorough=[{"lo": r, "hi": r + 46} for r in range(276, 920, 46)],
          conc=1, backend="py", conc_time=20, trusted=["keccak_f as an uninterpreted permutation (its contract: C14 permutation)"])
def whole_message(env, lo, hi):
    """digest(update(m)) for every message length in [lo,hi)"""
    m, perm = install_uf(env)
    ns = range(lo, hi) if env.symbolic else [lo, hi - 1, env.int("n", lo, hi - 1)]
    for n in ns:
        if env.symbolic:
            m.vc_restart()
        k = m.Keccak256()
        d = msg(env, n)
        k.update(d)
        dig = elems(k.digest())
        want = spec_hash(elems(d), perm)
        env.check(len(dig) == 32 and all(a == b for a, b in zip(dig, want)), "digest equals the sponge over the padded message")
        dig2 = elems(k.digest())
        env.check(dig2 == dig, "reading the digest twice gives the same value")


@contract("C14", "sym", targets=["keccak2.KeccakSponge.absorb"], variants=[{"r": r} for r in range(0, 136, 17)],
          thorough=[{"r": r} for r in range(0, 136) if r % 17], conc=0,
          trusted=["keccak_f as an uninterpreted permutation"])
def absorb_step(env, r):
    """one update from an arbitrary state with r..r+16 pending bytes: afterwards state and pending bytes are those of the concatenation.
    By induction every way of splitting a message into pieces gives the state of the whole message."""
    m, perm = install_uf(env)
    from pyvc.anf import BV
    for rr in range(r, min(r + 17, 136)):
        for n in list(range(0, 3)) + [135 - rr, 136 - rr, 137 - rr, 136, 272 - rr, 273 - rr, 300]:
            if n < 0:
                continue
            m.vc_restart()
            k = m.Keccak256()
            A = [[BV.fresh(64) for _ in range(5)] for _ in range(5)]
            k.sponge.state.s = [list(x) for x in A]
            pend = elems(msg(env, rr))
            k.sponge.buffer = list(pend)
            d = msg(env, n)
            k.update(d)
            allb = pend + elems(d)
            W = [list(x) for x in A]
            while len(allb) >= 136:
                W = perm(spec_absorb(W, allb[:136]))
                allb = allb[136:]
            env.check(k.sponge.state.s == W, "state after the update is the state of the concatenation")
            env.check(list(k.sponge.buffer) == allb, "pending bytes after the update are the rest of the concatenation")


@contract("C14", "sym", targets=["keccak2.KeccakHash.digest", "keccak2.KeccakHash.copy", "keccak2.KeccakHash.reset"],
          variants=[{"r": r} for r in (0, 1, 64, 135)], conc=0, trusted=["keccak_f as an uninterpreted permutation"])
def digest_frame(env, r):
    """from an arbitrary state: digest changes nothing, copies are independent, reset restores the initial state"""
    m, perm = install_uf(env)
    from pyvc.anf import BV
    k = m.Keccak256()
    A = [[BV.fresh(64) for _ in range(5)] for _ in range(5)]
    k.sponge.state.s = [list(x) for x in A]
    pend = elems(msg(env, r))
    k.sponge.buffer = list(pend)
    d0 = elems(k.digest())
    env.check(k.sponge.state.s == A and list(k.sponge.buffer) == pend, "digest leaves the object unchanged")
    c = k.copy()
    env.check(c.sponge.state.s == A and list(c.sponge.buffer) == pend, "a copy has the same state")
    x = msg(env, 140)
    c.update(x)
    env.check(k.sponge.state.s == A and list(k.sponge.buffer) == pend, "updating a copy leaves the original unchanged")
    env.check(elems(k.digest()) == d0, "digest after a copy was updated")
    c2 = k.copy()
    k.update(msg(env, 137))
    env.check(c2.sponge.state.s == A and list(c2.sponge.buffer) == pend, "updating the original leaves the copy unchanged")
    k.reset()
    f = m.Keccak256()
    env.check(k.sponge.state.s == f.sponge.state.s and list(k.sponge.buffer) == list(f.sponge.buffer), "reset gives the initial state")
    y = msg(env, 150)
    k.update(y)
    f.update(y)
    env.check(elems(k.digest()) == elems(f.digest()), "a reset object hashes like a new one")


@contract("C14", "bounded", targets=["crypto.cn_fast_hash", "crypto.keccak_hash", "crypto.get_keccak", "crypto.keccak_2hash", "crypto.compute_hmac",
                                     "crypto.get_hmac", "crypto.keccak_hash_into"], conc=60, conc_time=25, backend="py+trezor")
def interface(env):
    """both backends against the reference: all entry points, random lengths and splits"""
    import hashlib
    c = env.mod("monero_glue.xmr.crypto")
    n = env.int("n", 0, 420)
    d = env.bytes("d", n)
    want = S.keccak256(d)
    env.check(bytes(c.cn_fast_hash(d)) == want, "cn_fast_hash")
    env.check(bytes(c.keccak_hash(d)) == want, "keccak_hash")
    env.check(bytes(c.keccak_hash(bytearray(d))) == want, "keccak_hash of a bytearray")
    env.check(bytes(c.keccak_2hash(d)) == S.keccak256(want), "keccak_2hash")
    b = bytearray(32)
    c.keccak_hash_into(b, d)
    env.check(bytes(b) == want, "keccak_hash_into")
    if n:
        k = env.int("size", 1, n)
        b = bytearray(32)
        c.keccak_hash_into(b, d, k)
        env.check(bytes(b) == S.keccak256(d[:k]), "keccak_hash_into with a size")
    env.check(bytes(c.get_keccak(d).digest()) == want, "get_keccak with initial data")
    h = c.get_keccak()
    i = 0
    while i < n:
        j = env.int("cut", 0, n - i)
        h.update(d[i:i + j])
        i += j
        if env.bool("copy"):
            g = h.copy()
            g.update(b"x" * env.int("cp", 0, 200))
            if env.bool("use"):
                g.digest()
        if env.bool("stop") and i < n:
            h.update(d[i:])
            i = n
    env.check(bytes(h.copy().digest()) == want, "pieces, digest of a copy")
    env.check(bytes(h.digest()) == want, "pieces")
    key = env.bytes("key", env.int("kl", 0, 200))
    kk = S.keccak256(key) if len(key) > 136 else key
    kk = kk + bytes(136 - len(kk))
    mac = S.keccak256(bytes(x ^ 0x5C for x in kk) + S.keccak256(bytes(x ^ 0x36 for x in kk) + d))
    env.check(bytes(c.compute_hmac(key, d)) == mac, "compute_hmac")
    hm = c.get_hmac(key)
    hm.update(d[:n // 2])
    hm.update(d[n // 2:])
    env.check(bytes(hm.digest()) == mac, "get_hmac incremental")
    hm = c.get_hmac(key, d)
    env.check(bytes(hm.digest()) == mac, "get_hmac with message")


@contract("C14", "bounded", targets=["keccak_hasher.KeccakXmrArchive", "keccak_hasher.HashWrapper", "common.HashWrapper"], conc=30, conc_time=10, backend="py+trezor")
def writers(env):
    """the hashing writers hash exactly the bytes written"""
    import asyncio
    c = env.mod("monero_glue.xmr.crypto")
    kh = env.mod("monero_glue.xmr.sub.keccak_hasher")
    cm = env.mod("monero_glue.xmr.common")
    parts = [env.bytes("p", env.int("pl", 0, 150)) for _ in range(env.int("np", 0, 5))]
    w = kh.KeccakXmrArchive()
    w2 = cm.AHashWriter(cm.HashWrapper(c.get_keccak()))

    async def run():
        out = b""
        for p in parts:
            k = env.int("kind", 0, 2)
            if k == 0:
                await w.buffer(p)
                await w2.awrite(p)
                out += p
            elif k == 1:
                v = env.int("vi", 0, 2 ** 63)
                await w.uvarint(v)
                e = bytearray()
                while v >= 0x80:
                    e.append(v & 0x7F | 0x80)
                    v >>= 7
                e.append(v)
                await w2.awrite(e)
                out += bytes(e)
            else:
                v = env.int("ui", 0, 2 ** 32 - 1)
                await w.uint(v, 4)
                await w2.awrite(v.to_bytes(4, "little"))
                out += v.to_bytes(4, "little")
            if env.bool("refresh"):
                w.refresh()
        return out
    out = asyncio.run(run())
    want = S.keccak256(out)
    env.check(bytes(w.get_digest()) == want, "archive digest is the hash of the bytes written")
    env.check(bytes(w2.get_digest()) == want, "hash writer digest is the hash of the bytes written")


@contract("C14", "bounded", targets=["crypto.get_keccak", "KeccakWrapper.digest", "KeccakWrapper.copy", "KeccakWrapper.hexdigest", "KeccakHash.hexdigest", "crypto.get_hmac"],
          conc=40, conc_time=15, backend="py+trezor")
def histories(env):
    """any interleaving of update, copy, digest, hexdigest and reset on several hash objects of both backends"""
    c = env.mod("monero_glue.xmr.crypto")
    objs = [[c.get_keccak(), b""]]
    for _ in range(env.int("steps", 1, 14)):
        o = objs[env.int("obj", 0, len(objs) - 1)]
        op = env.int("op", 0, 5)
        if op <= 1:
            d = env.bytes("d", env.int("n", 0, 300))
            o[0].update(d)
            o[1] += d
        elif op == 2:
            objs.append([o[0].copy(), o[1]])
        elif op == 3:
            env.check(bytes(o[0].digest()) == S.keccak256(o[1]), "digest in the middle")
        elif op == 4:
            env.check(o[0].hexdigest() == S.keccak256(o[1]).hex(), "hexadecimal digest in the middle")
        elif env.bool("really"):
            o[0].reset()
            o[1] = b""
    for h, d in objs:
        env.check(bytes(h.digest()) == S.keccak256(d), "digest at the end")
