"""C06: one key per purpose and index, all of them from a fresh session secret"""
import itertools
from pyvc.run import contract
from contracts import txlib as T

BIG = 2 ** 20
KEYS = ["hmac_key_txin", "hmac_key_txin_comm", "hmac_key_txdst", "hmac_key_txout", "hmac_key_txout_asig", "enc_key_txin_alpha", "enc_key_spend", "enc_key_cout", "det_comm_masks"]


def key(env, b, p, i):
    """key material as a byte string"""
    r = getattr(b, p)(i)
    if p == "det_comm_masks":
        return env.mod("monero_glue.xmr.crypto").encodeint(r)
    return env.cbytes(r)


def secret_builder(env):
    b = T.builder(env, None)
    b.key_master, b.key_hmac, b.key_enc = env.key("km"), env.key("kh"), env.key("ke")
    if env.symbolic:
        env.assume(not bool(b.key_hmac == b.key_enc))
    return b


@contract("C06", "alg", targets=["TTransactionBuilder._build_key"] + ["TTransactionBuilder." + k for k in KEYS],
          variants=[{"p": p, "q": q} for p, q in itertools.combinations_with_replacement(KEYS, 2)], conc=15, conc_time=2)
def distinct(env, p, q):
    """for all pairs of indices up to 2^32: keys of different purposes differ, keys of one purpose are equal exactly for equal indices"""
    b = secret_builder(env)
    i, j = env.int("i", 0, 2 ** 32), env.int("j", 0, 2 ** 32)
    if p == q:
        same = bool(i == j)
        a, c = key(env, b, p, i), key(env, b, q, j)
        env.check(bool(a == c) == same, "equal exactly for equal indices")
        env.check(bool(key(env, b, p, i) == a), "same key again")
    else:
        env.check(not bool(key(env, b, p, i) == key(env, b, q, j)), "different purposes give different keys")
        if q == "enc_key_cout":
            env.check(not bool(key(env, b, p, i) == env.cbytes(b.enc_key_cout())), "different from the key without index")


@contract("C06", "alg", targets=["TTransactionBuilder._build_key"] + ["TTransactionBuilder." + k for k in KEYS], variants=[{"p": p} for p in KEYS], conc=5, conc_time=2)
def secret(env, p):
    """every key depends on the session secret and on nothing else of the session"""
    b, c = secret_builder(env), secret_builder(env)
    i = env.int("i", 0, 2 ** 32)
    if not env.symbolic and (b.key_hmac == c.key_hmac or b.key_enc == c.key_enc):
        return
    env.assume(not bool(b.key_hmac == c.key_hmac))
    env.assume(not bool(b.key_enc == c.key_enc))
    env.check(not bool(key(env, b, p, i) == key(env, c, p, i)), "another session has another key")
    for n in (1, 31):
        d = T.builder(env, None)
        d.key_master = b.key_master
        d.key_hmac = env.ref.cat(b.key_hmac[:n], c.key_hmac[n:])
        d.key_enc = env.ref.cat(b.key_enc[:n], c.key_enc[n:])
        env.assume(not bool(d.key_hmac == b.key_hmac))
        env.assume(not bool(d.key_enc == b.key_enc))
        env.check(not bool(key(env, b, p, i) == key(env, d, p, i)), "all of the secret counts")
    c.key_hmac, c.key_enc = b.key_hmac, b.key_enc
    c.out_idx = c.inp_idx = 3
    env.check(bool(key(env, b, p, i) == key(env, c, p, i)), "same secret, same key")


@contract("C06", "alg", targets=["TTransactionBuilder.compute_sec_keys", "TTransactionBuilder.gen_r"], variants=[{"what": w} for w in ("fresh", "r", "data", "purposes")], conc=4, conc_time=2)
def session(env, what):
    """the session secret: fresh randomness, the ephemeral key and the transaction data all enter; authentication and encryption secrets differ"""
    cr = env.mod("monero_glue.xmr.crypto")
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    A = s.who["A"]
    fee = env.int("fee", 1, 60)

    def td(f):
        d = T.dest(env, A, 0, 0, 5)
        return T.tsx_data(env, [d], T.same_dest(env, d), fee=f, payment_id=b"")
    rnd = []
    old = cr.random_scalar

    def rs(*a, **k):
        rnd.append(old(*a, **k))
        return rnd[-1]

    def make(r, data, given=None):
        b = T.builder(env, s.creds)
        b.r = r
        it = iter(given or [])
        rnd.clear()

        def again(*a, **k):
            try:
                x = next(it)
            except StopIteration:
                x = old(*a, **k)
            rnd.append(x)
            return x
        cr.random_scalar = again
        try:
            env.run(b.compute_sec_keys(data))
        finally:
            cr.random_scalar = old
        return b, list(rnd)
    r = env.scalar("r")
    a, used = make(r, td(fee))
    env.check(len(used) >= 1, "fresh randomness is drawn")
    keys = [env.cbytes(x) for x in (a.key_master, a.key_hmac, a.key_enc)]
    env.check(all(len(k) == 32 for k in keys), "32 bytes")
    if what == "purposes":
        env.check(not bool(keys[1] == keys[2]) and not bool(keys[0] == keys[1]) and not bool(keys[0] == keys[2]), "authentication, encryption and master secrets differ")
        b, _ = make(r, td(fee), used)
        env.check(all(bool(env.cbytes(x) == y) for x, y in zip((b.key_master, b.key_hmac, b.key_enc), keys)), "determined by data, ephemeral key and randomness")
        return
    if what == "fresh":
        b, u2 = make(r, td(fee))
        env.assume(not bool(env.ref.sc(u2[0]) == env.ref.sc(used[0])))
    elif what == "r":
        r2 = env.scalar("r2")
        env.assume(not bool(env.ref.sc(r2) == env.ref.sc(r)))
        b, _ = make(r2, td(fee), used)
    elif what == "data":
        b, _ = make(r, td(fee + 1), used)
    other = [env.cbytes(x) for x in (b.key_master, b.key_hmac, b.key_enc)]
    for x, y, n in zip(keys, other, ("master", "authentication", "encryption")):
        env.check(not bool(x == y), "another session has another secret: " + n)


# ---- what was issued for one purpose or position is not accepted for another --------------------------------------
TAGS = ["hmac_key_txin", "hmac_key_txin_comm", "hmac_key_txdst", "hmac_key_txout", "hmac_key_txout_asig"]
SEALS = ["enc_key_txin_alpha", "enc_key_spend", "enc_key_cout"]
USE = [("vini", "vini_hmac", "hmac_key_txin"), ("sign", "vini_hmac", "hmac_key_txin"), ("sign", "pseudo_out_hmac", "hmac_key_txin_comm"),
       ("output", "dst_entr_hmac", "hmac_key_txdst"), ("sign", "pseudo_out_alpha", "enc_key_txin_alpha"), ("sign", "spend_key", "enc_key_spend")]


def digest_vini(env, src, vini):
    kh, pb = env.mod("monero_glue.xmr.sub.keccak_hasher"), env.mod("monero_glue.protobuf")
    w = kh.get_keccak_writer()
    env.run(pb.dump_message(w, src))
    if vini is not None:
        env.run(w.awrite(vini))
    return w.get_digest()


@contract("C06", "alg", targets=["TTransactionBuilder.input_vini", "TTransactionBuilder.sign_input", "TTransactionBuilder.set_output", "TTransactionBuilder.set_input",
                                 "TTransactionBuilder.gen_hmac_vini", "TTransactionBuilder.gen_hmac_tsxdest", "TTransactionBuilder.gen_hmac_vouti"],
          variants=[{"use": u, "made": p} for u, (k, f, own) in enumerate(USE) for p in (TAGS if own in TAGS else SEALS)], conc=2, conc_time=2)
def exchanged(env, use, made):
    """tags and ciphertexts over the right content, made under the key of every purpose and every index: accepted exactly for the own purpose and the due position"""
    cr, cp, ref = env.mod("monero_glue.xmr.crypto"), env.mod("monero_glue.xmr.enc.chacha_poly"), env.ref
    k, field, own = USE[use]
    phase = {"vini": "INPUT_VINS", "sign": "SIGNATURE", "output": "OUTPUT"}[k]
    with T.BpStub(env):
        n = env.int("n", 2, BIG if env.symbolic else 12)
        pos = env.int("pos", 0, BIG if env.symbolic else n - 2)
        env.assume(pos + 1 < n)
        s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
        if k == "output":
            mid = T.Mid(env, s, phase, 1, n, 0, pos, npk=2)
            due = pos + 1
        else:
            mid = T.Mid(env, s, phase, n, 2, pos, 1 if k == "sign" else -1, sums_ok=True)
            due = mid.perm_at(pos + 1)
        b = mid.b
        j = env.int("j", 0, BIG if env.symbolic else n - 1)
        env.assume(j < n)
        if k == "sign" and field == "pseudo_out_hmac" and bool(due + 1 == n):
            return
        m = mid.msg(k)
        if k == "vini":
            env.assume(ref.enc(s.key_image(0)) < mid.tok.tsx_state.last_ki)
        mk = getattr(b, made)(j)
        if field == "vini_hmac":
            x = cr.compute_hmac(mk, digest_vini(env, m.src_entr, m.vini))
        elif field == "pseudo_out_hmac":
            x = cr.compute_hmac(mk, m.pseudo_out)
        elif field == "dst_entr_hmac":
            x = cr.compute_hmac(mk, digest_vini(env, m.dst_entr, None))
        elif field == "pseudo_out_alpha":
            if bool(due + 1 == n):
                return
            x = cp.encrypt_pack(mk, cp.decrypt_pack(b.enc_key_txin_alpha(due), m.pseudo_out_alpha))
        else:
            x = cp.encrypt_pack(mk, ref.encs(s.secret(0)))
        setattr(m, field, x)
        r, failed, st = mid.send(m)
        good = made == own and bool(j == due)
        env.check(failed == (not good), "accepted exactly with the key of its purpose and position")
        if good:
            env.cover("accepted")
