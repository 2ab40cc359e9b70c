"""C19: subaddress keys"""
import itertools

from pyvc.run import contract

MO = "monero_glue.xmr.monero"
U32 = 2 ** 32 - 1


def creds_of(env, a, b):
    """account credentials with secret view key a and secret spend key b"""
    from_ = env.mod("monero_glue.xmr.sub.creds")
    cr = env.mod("monero_glue.xmr.crypto")
    return from_.AccountCreds(view_key_private=a, spend_key_private=b, view_key_public=cr.scalarmult_base(a),
                              spend_key_public=cr.scalarmult_base(b))


def sub_m(env, ref, a, M, m):
    """m(M, m) of the scheme, as reference value"""
    return ref.Hs(b"SubAddr\x00", ref.encs(a), ref.le(M, 4), ref.le(m, 4))


@contract("C19", "alg", targets=["monero.generate_sub_address_keys", "monero.get_subaddress_secret_key", "monero.get_subaddress_spend_public_key",
                                 "ec_py.get_subaddress_secret_key"], conc=60, backend="trezor+py")
def sub_keys(env):
    """for all view and spend secrets and all 32-bit indices"""
    mo, ref = env.mod(MO), env.ref
    a, b = env.scalar("a"), env.scalar("b")
    M, m = env.int("major", 0, U32), env.int("minor", 0, U32)
    ra, rb = ref.sc(a), ref.sc(b)
    B = ref.point(ref.G * rb)
    D, C = mo.generate_sub_address_keys(a, B, M, m)
    D2 = mo.get_subaddress_spend_public_key(a, B, M, m)
    zero = bool(env.all([M == 0, m == 0]))
    env.check(ref.pt(D) == ref.pt(D2), "both public derivations agree")
    if zero:
        env.check(ref.pt(D) == ref.G * rb, "index (0,0) has the primary spend key")
        env.check(ref.pt(C) == ref.G * ra, "index (0,0) has the primary view key")
    else:
        s = mo.get_subaddress_secret_key(a, major=M, minor=m)
        env.check(ref.sc(s) == sub_m(env, ref, ra, M, m), "the subaddress secret is the hash of view secret and index")
        d = ref.sc(s) + rb
        env.check(ref.pt(D) == ref.G * d, "public spend key is the secret spend key times the generator")
        env.check(ref.pt(C) == ref.G * (d * ra), "public view key is the secret view key times the public spend key")
    env.check(ref.sc(a) == ra, "the view secret is not modified")
    env.check(ref.pt(B) == ref.G * rb, "the spend key is not modified")


@contract("C19", "alg", targets=["monero.get_subaddress_secret_key"], conc=10)
def sub_secret_index_object(env):
    """the index given as an object is the index given as numbers"""
    mo = env.mod(MO)
    ref = env.ref

    class Idx:
        pass
    i = Idx()
    i.major, i.minor = env.int("major", 1, U32), env.int("minor", 0, U32)
    a = env.scalar("a")
    env.check(ref.sc(mo.get_subaddress_secret_key(a, index=i)) == sub_m(env, ref, ref.sc(a), i.major, i.minor), "index object")


@contract("C19", "alg", targets=["ec_py.get_subaddress_secret_key"], conc=40, backend="trezor+py")
def sub_secret_injective(env):
    """distinct indices give distinct subaddress secrets (distinct inputs of the hash)"""
    ref = env.ref
    mo = env.mod(MO)
    a = env.scalar("a")
    i1, j1, i2, j2 = (env.int(n, 0, U32) for n in ("i1", "j1", "i2", "j2"))
    kind = env.choose("pair", ["major", "minor", "swap", "shift"])
    if kind == "major":
        env.assume(env.all([i1 != i2, i1 > 0, i2 > 0]))
        j2 = j1
    elif kind == "minor":
        env.assume(env.all([j1 != j2, i1 > 0]))
        i2 = i1
    elif kind == "swap":
        env.assume(i1 != j1)
        i2, j2 = j1, i1
    else:
        env.assume(env.all([j1 < 2 ** 24, i1 < 2 ** 24, i1 > 0]))
        i2, j2 = i1 * 256, j1 * 256
        env.assume(i2 != i1)
    s1 = mo.get_subaddress_secret_key(a, major=i1, minor=j1)
    s2 = mo.get_subaddress_secret_key(a, major=i2, minor=j2)
    if kind == "swap" or kind == "major":
        env.assume(env.all([i1 + j1 > 0, i2 + j2 > 0]))
    env.check(bool(ref.sc(s1) == ref.sc(s2)) is False, "distinct indices, distinct secrets")


@contract("C19", "alg", targets=["monero.compute_subaddresses"],
          variants=[{"account": A, "idx": i, "given": g} for A in (0, 1, 7, U32) for i in ((), (0,), (0, 1), (2, 0, 5), (3, 3), (1, 2, 3, 4)) for g in (False, True)],
          conc=3, conc_time=5)
def table(env, account, idx, given):
    """the lookup table maps each key to exactly its own index"""
    mo, ref = env.mod(MO), env.ref
    a, b = env.scalar("a"), env.scalar("b")
    cr = creds_of(env, a, b)
    ra, rb = ref.sc(a), ref.sc(b)
    start = None
    other = env.key("other")
    if given:
        start = {other: (9, 9)}
    got = mo.compute_subaddresses(cr, account, list(idx), start)
    exp = {}
    for i in idx:
        P = ref.G * rb
        if (account, i) != (0, 0):
            P = P + ref.G * sub_m(env, ref, ra, account, i)
        exp[i] = ref.enc(P)
    env.check(len(got) == len(set(idx)) + (1 if given else 0), "one entry per index")
    for i in set(idx):
        hit = [v for k, v in got.items() if bool(k == exp[i])]
        env.check(len(hit) == 1 and tuple(hit[0]) == (account, i), "key of an index maps to that index")
    if given:
        env.check(start is got and got.get(other) == (9, 9), "earlier entries are kept")


@contract("C19", "alg", targets=["monero.compute_subaddresses"], variants=[{}], conc=10)
def table_symbolic(env):
    """arbitrary account and index"""
    mo, ref = env.mod(MO), env.ref
    a, b = env.scalar("a"), env.scalar("b")
    cr = creds_of(env, a, b)
    A, i = env.int("account", 0, U32), env.int("index", 0, U32)
    got = mo.compute_subaddresses(cr, A, [i])
    P = ref.G * ref.sc(b)
    if not env.all([A == 0, i == 0]):
        P = P + ref.G * sub_m(env, ref, ref.sc(a), A, i)
    env.check(len(got) == 1, "one entry")
    (k, v), = got.items()
    env.check(k == ref.enc(P), "keyed by the public spend key")
    env.check(env.all([v[0] == A, v[1] == i]), "maps to the index")


PREF = {0: (18, 19, 42), 1: (53, 54, 63), 2: (24, 25, 36)}


def stub_text(env):
    """the text form is the subject of C15: here an address text is (version, keys, payment id)"""
    ad = env.mod("monero_glue.xmr.sub.addr")
    if env.symbolic:
        def enc(version, spend_pub, view_pub, payment_id=None):
            return ("ADDR", bytes(version)[0], spend_pub, view_pub, payment_id)
        ad.encode_addr = enc
    return ad


def read_text(env, t):
    """(version, spend, view, payment id)"""
    if env.symbolic:
        return t[1:]
    from contracts.c15 import ref_decode
    d = ref_decode(t)
    return d[0], d[1:33], d[33:65], (d[65:] or None)


@contract("C19", "alg", targets=["monero.build_address_info", "sub.addr.AddrInfo.recompute_addr", "sub.addr.public_addr_encode", "sub.xmr_net.net_version"],
          variants=[{"net": n, "sub": s} for n in (0, 1, 2) for s in (None, (0, 0), (0, 1), (1, 0), (3, 9))], conc=4, conc_time=5)
def address_info(env, net, sub):
    mo, ref = env.mod(MO), env.ref
    ad = stub_text(env)
    a, b = env.scalar("a"), env.scalar("b")
    cr = creds_of(env, a, b)
    ra, rb = ref.sc(a), ref.sc(b)
    pid = env.choose("pid", [False, True]) if sub in (None, (0, 0)) else False
    pidv = env.bytes("payment_id", 8) if pid else None
    ai = mo.build_address_info(cr, sub, pidv, net)
    d = rb
    issub = sub is not None and sub != (0, 0)
    if issub:
        d = rb + sub_m(env, ref, ra, *sub)
    v = d * ra if issub else ra
    env.check(ref.pt(ai.spend_key) == ref.G * d, "spend key of the index")
    env.check(ref.pt(ai.view_key) == ref.G * v, "view key of the index")
    env.check(bool(ai.is_sub_address) == issub, "marked as subaddress exactly if it is one")
    ver, sk, vk, p = read_text(env, ai.addr)
    env.check(ver == PREF[net][2 if issub else 1 if pid else 0], "text has the prefix of the kind and network")
    env.check(env.all([sk == ai.spend_key, vk == ai.view_key]), "text carries the keys")
    env.check((p is None) if not pid else p == pidv, "text carries the payment id")
    ver, sk, vk, p = read_text(env, ai.base_addr)
    env.check(env.all([ver == PREF[net][2 if issub else 0], sk == ai.spend_key, vk == ai.view_key, p is None]), "base text")


@contract("C19", "alg", targets=["sub.addr.AddrInfo.recompute_sub"], conc=20)
def recompute_sub(env):
    mo, ref = env.mod(MO), env.ref
    ad = stub_text(env)
    a, b = env.scalar("a"), env.scalar("b")
    cr = creds_of(env, a, b)
    ra, rb = ref.sc(a), ref.sc(b)
    ai = mo.build_address_info(cr, None, None, 0)
    M, m = env.choose("major", [0, 1, 5]), env.choose("minor", [0, 1, 200])
    D, C = mo.generate_sub_address_keys(a, cr.spend_key_public, M, m)
    c = env.mod("monero_glue.xmr.crypto")
    ai.recompute_sub(c.encodepoint(D), c.encodepoint(C), M, m)
    ver, sk, vk, p = read_text(env, ai.addr)
    env.check(ver == (42 if (M, m) != (0, 0) else 18), "address kind follows the index")
    env.check(env.all([sk == ref.enc(ref.pt(D)), vk == ref.enc(ref.pt(C))]), "address keys follow the index")


@contract("C19", "alg", targets=["monero.generate_monero_keys", "monero.generate_keys", "sub.creds.AccountCreds.new_wallet"], conc=20)
def account_keys(env):
    """public account keys are the secret ones times the generator"""
    ref = env.ref
    ad = stub_text(env)
    cm = env.mod("monero_glue.xmr.sub.creds")
    if env.symbolic:
        cm.encode_addr = ad.encode_addr
    a, b = env.scalar("a"), env.scalar("b")
    w = cm.AccountCreds.new_wallet(a, b, env.choose("net", [0, 1, 2]))
    env.check(ref.pt(w.view_key_public) == ref.G * ref.sc(a), "view key")
    env.check(ref.pt(w.spend_key_public) == ref.G * ref.sc(b), "spend key")
    env.check(env.all([ref.sc(w.view_key_private) == ref.sc(a), ref.sc(w.spend_key_private) == ref.sc(b)]), "secrets are kept")
    ver, sk, vk, p = read_text(env, w.address)
    env.check(env.all([ver == PREF[w.network_type][0], sk == ref.enc(ref.G * ref.sc(b)), vk == ref.enc(ref.G * ref.sc(a))]), "address of the keys")
