"""C08: ring signatures (CLSAG, MLSAG) - completeness, binding, and agreement with the defining equations"""
from pyvc.run import contract

ML = "monero_glue.xmr.mlsag2"


def dom(s):
    return s + bytes(32 - len(s))


def clsag_chain(env, msg, P, C, off, ss, c1, I, D):
    """closing challenge of the defining equations; P, C lists of encodings, off, I, D points (D not divided by eight)"""
    ref = env.ref
    D8 = ref.enc(D * ref.S(8).inverse())
    agg = [*P, *C, ref.enc(I), D8, ref.enc(off)]
    mp = ref.Hs(dom(b"CLSAG_agg_0"), *agg)
    mc = ref.Hs(dom(b"CLSAG_agg_1"), *agg)
    c = c1
    cs = []
    for i in range(len(P)):
        cs.append(c)
        hp = ref.Hp(P[i])
        Lp = ref.G * ss[i] + ref.pt(P[i]) * (c * mp) + (ref.pt(C[i]) - off) * (c * mc)
        Rp = hp * ss[i] + I * (c * mp) + D * (c * mc)
        c = ref.Hs(dom(b"CLSAG_round"), *P, *C, ref.enc(off), msg, ref.enc(Lp), ref.enc(Rp))
    return c, cs


def other(env, msg):
    return env.ref.xor(msg, bytes(31) + b"\x01")


class Ct:
    def __init__(self, dest, mask):
        self.dest, self.mask = dest, mask


def ring(env, n, index, p, zin, amount):
    ms, cr, ref = env.mod("monero_glue.messages"), env.mod("monero_glue.xmr.crypto"), env.ref
    out = []
    for i in range(n):
        if i == index:
            P, C = ref.G * ref.sc(p), ref.G * ref.sc(zin) + ref.H * amount
        else:
            P, C = ref.pt(env.point("P%d" % i)), ref.pt(env.point("C%d" % i))
        out.append(ms.MoneroRctKeyPublic(dest=ref.enc(P), commitment=ref.enc(C)))
    return out


def ring_copy(env, pubs):
    ms = env.mod("monero_glue.messages")
    return [ms.MoneroRctKeyPublic(dest=k.dest, commitment=k.commitment) for k in pubs]


ALL = [(n, i) for n in (2, 3, 4) for i in range(n)] + [(11, 0), (11, 5), (11, 10), (16, 9)]
RINGS = [{"n": n, "index": i} for n, i in ALL]
MORE = [{"n": n, "index": i} for n in (5, 6, 7, 11, 16) for i in range(n) if (n, i) not in ALL]


def clsag_make(env, n, index):
    ml, cr, ref = env.mod(ML), env.mod("monero_glue.xmr.crypto"), env.ref
    p, zin, a = env.scalar("p"), env.scalar("zin"), env.scalar("a")
    amount = env.u64("amount")
    msg = env.bytes("msg", 32)
    pubs = ring(env, n, index, p, zin, amount)
    off = ref.G * ref.sc(a) + ref.H * amount
    P, C = [k.dest for k in pubs], [k.commitment for k in pubs]
    buf = []
    r = ml.generate_clsag_simple(msg, ring_copy(env, pubs), Ct(p, zin), a, ref.point(off), index, buf)
    return ml, cr, ref, p, zin, a, msg, pubs, off, P, C, buf, r


@contract("C08", "alg", targets=["mlsag2.generate_clsag_simple", "mlsag2._generate_clsag"], variants=RINGS, thorough=MORE, conc=3, conc_time=10, backend="trezor+py")
def clsag_sign(env, n, index):
    """for all keys, masks, amounts, messages and decoys"""
    ml, cr, ref, p, zin, a, msg, pubs, off, P, C, buf, r = clsag_make(env, n, index)
    env.check(len(buf) == n + 3, "signature is a count, the responses, the challenge and the auxiliary image")
    env.check(buf[0] == bytes([n]), "count of the responses")
    ss = [ref.sc(x) for x in buf[1:n + 1]]
    c1 = ref.sc(buf[n + 1])
    D8 = ref.pt(buf[n + 2])
    z = ref.sc(zin) - ref.sc(a)
    hp = ref.Hp(P[index])
    env.check(D8 * 8 == hp * z, "auxiliary image is the mask difference times the hash point")
    I, D = hp * ref.sc(p), hp * z
    c, cs = clsag_chain(env, msg, P, C, off, ss, c1, I, D)
    env.check(c == c1, "the challenges close the ring")
    for i in range(n):
        for j in range(i):
            env.check(not (ss[i] == ss[j]), "responses are independent")
    env.check(env.all([ref.sc(p) == ref.sc(p), pubs[index].dest == P[index]]), "arguments are kept")


@contract("C08", "alg", targets=["mlsag2.verify_clsag", "mlsag2.generate_clsag_simple"], variants=RINGS[:9] + [{"n": 11, "index": 5}], thorough=MORE,
          conc=2, conc_time=10, backend="trezor+py")
def clsag_verify(env, n, index):
    """the verifier accepts every honest signature and refuses every changed component"""
    ml, cr, ref, p, zin, a, msg, pubs, off, P, C, buf, r = clsag_make(env, n, index)
    ms = env.mod("monero_glue.messages")
    I = ref.point(ref.Hp(P[index]) * ref.sc(p))
    ss = [cr.decodeint(x) for x in buf[1:n + 1]]
    c1, D = cr.decodeint(buf[n + 1]), cr.decodepoint(buf[n + 2])

    def ver(msg=msg, ss=ss, c1=c1, I=I, D=D, pubs=pubs, off=off):
        ml.verify_clsag(msg, list(ss), c1, I, D, ring_copy(env, pubs), ref.point(off))
    env.check(env.attempt(ver).ok, "an honest signature is accepted")
    env.refuses("another message", ver, msg=other(env, msg))
    for i in range(n) if n < 5 else (0, index, n - 1):
        s2 = list(ss)
        s2[i] = env.scalar("s2")
        env.refuses("another response", ver, ss=s2)
        p2 = ring_copy(env, pubs)
        p2[i].dest = ref.enc(ref.pt(env.point("P2")))
        env.refuses("another ring key", ver, pubs=p2)
        p2 = ring_copy(env, pubs)
        p2[i].commitment = ref.enc(ref.pt(env.point("C2")))
        env.refuses("another ring commitment", ver, pubs=p2)
    env.refuses("another challenge", ver, c1=env.scalar("c2"))
    env.refuses("another key image", ver, I=env.point("I2"))
    env.refuses("another auxiliary image", ver, D=env.point("D2"))
    env.refuses("another output commitment", ver, off=ref.pt(env.point("O2")))
    sw = ring_copy(env, pubs)
    sw[0], sw[1] = sw[1], sw[0]
    env.refuses("reordered ring", ver, pubs=sw)


@contract("C08", "alg", targets=["mlsag2.generate_clsag_simple", "mlsag2.verify_clsag"], variants=[{"n": n, "index": i} for n in (2, 3) for i in range(n)],
          conc=3, conc_time=8)
def clsag_wrong_secret(env, n, index):
    """a signature made without the secrets of a ring member does not verify"""
    ml, cr, ref = env.mod(ML), env.mod("monero_glue.xmr.crypto"), env.ref
    p, zin, a, q = env.scalar("p"), env.scalar("zin"), env.scalar("a"), env.scalar("q")
    amount, am2 = env.u64("amount"), env.u64("other")
    env.assume(amount != am2)
    msg = env.bytes("msg", 32)
    env.assume(not (ref.sc(q) == ref.sc(p)) and not (ref.sc(q) == ref.sc(zin)))
    pubs = ring(env, n, index, p, zin, amount)
    which = env.choose("wrong", ["key", "mask", "amount", "index"])
    off = ref.G * ref.sc(a) + ref.H * (am2 if which == "amount" else amount)
    sk = Ct(q if which == "key" else p, q if which == "mask" else zin)
    ix = (index + 1) % n if which == "index" else index
    buf = []
    r = env.attempt(ml.generate_clsag_simple, msg, ring_copy(env, pubs), sk, a, ref.point(off), ix, buf)
    if r.ok:
        I = ref.point(ref.Hp(pubs[ix].dest) * ref.sc(sk.dest))
        env.refuses("signature without the %s" % which, ml.verify_clsag, msg, [cr.decodeint(x) for x in buf[1:n + 1]], cr.decodeint(buf[n + 1]), I,
                    cr.decodepoint(buf[n + 2]), pubs, ref.point(off))


# ---- MLSAG --------------------------------------------------------------------------------------------------------
def mlsag_chain(env, msg, M, ss, cc, II, ds):
    """closing challenge; M columns of points"""
    ref = env.ref
    c = cc
    for i in range(len(M)):
        parts = [msg]
        for j in range(len(M[0])):
            Lp = ref.G * ss[i][j] + M[i][j] * c
            parts += [ref.enc(M[i][j]), ref.enc(Lp)]
            if j < ds:
                parts.append(ref.enc(ref.Hp(ref.enc(M[i][j])) * ss[i][j] + II[j] * c))
        c = ref.Hs(*parts)
    return c


@contract("C08", "alg", targets=["mlsag2.prove_rct_mg_simple", "mlsag2.gen_mlsag_ext", "mlsag2.gen_mlsag_rows", "mlsag2.gen_mlsag_assert",
                                 "mlsag2.ver_rct_mg_simple", "mlsag2.ver_mlsag_ext", "mlsag2.ver_mlsag_assert"], variants=RINGS, thorough=MORE,
          conc=2, conc_time=10, backend="trezor+py")
def mlsag_simple(env, n, index):
    """for all keys, masks, amounts, messages and decoys"""
    ml, cr, ref = env.mod(ML), env.mod("monero_glue.xmr.crypto"), env.ref
    p, zin, a = env.scalar("p"), env.scalar("zin"), env.scalar("a")
    amount = env.u64("amount")
    msg = env.bytes("msg", 32)
    pubs = ring(env, n, index, p, zin, amount)
    off = ref.G * ref.sc(a) + ref.H * amount
    mg, c = ml.prove_rct_mg_simple(msg, pubs, Ct(p, zin), a, ref.point(off), None, None, index)
    M = [[ref.pt(k.dest), ref.pt(k.commitment) - off] for k in pubs]
    ss = [[ref.sc(x) for x in col] for col in mg.ss]
    II = [ref.pt(x) for x in mg.II]
    env.check(len(ss) == n and all(len(x) == 2 for x in ss) and len(II) == 1, "shape of the signature")
    env.check(II[0] == ref.Hp(pubs[index].dest) * ref.sc(p), "key image")
    env.check(mlsag_chain(env, msg, M, ss, ref.sc(mg.cc), II, 1) == ref.sc(mg.cc), "the challenges close the ring")

    def ver(msg=msg, pubs=pubs, off=off):
        return bool(ml.ver_rct_mg_simple(msg, mg, pubs, ref.point(off)))
    env.check(ver(), "an honest signature is accepted")
    env.check(not ver(msg=other(env, msg)), "another message")
    env.check(not ver(off=ref.pt(env.point("O2"))), "another pseudo output")
    for i in range(n) if n < 5 else (0, index, n - 1):
        for f in ("dest", "commitment"):
            p2 = ring_copy(env, pubs)
            setattr(p2[i], f, ref.enc(ref.pt(env.point("X"))))
            env.check(not ver(pubs=p2), "another ring %s" % f)
        for j in (0, 1):
            old = mg.ss[i][j]
            mg.ss[i][j] = env.scalar("s2")
            env.check(not ver(), "another response")
            mg.ss[i][j] = old
    old = mg.cc
    mg.cc = env.scalar("c2")
    env.check(not ver(), "another challenge")
    mg.cc = old
    old = mg.II[0]
    mg.II[0] = env.point("I2")
    env.check(not ver(), "another key image")
    mg.II[0] = old
    env.check(ver(), "the restored signature is accepted")


@contract("C08", "alg", targets=["mlsag2.prove_rct_mg", "mlsag2.ver_rct_mg", "mlsag2.gen_mlsag_ext", "mlsag2.ver_mlsag_ext"],
          variants=[{"n": n, "index": i, "rows": r, "outs": o} for n, i, r, o in ((2, 0, 1, 1), (2, 1, 2, 2), (3, 1, 1, 2), (3, 2, 3, 1), (4, 0, 2, 3))],
          conc=2, conc_time=8)
def mlsag_full(env, n, index, rows, outs):
    """several inputs signed at once: the last row proves the balance with the fee"""
    ml, cr, ref = env.mod(ML), env.mod("monero_glue.xmr.crypto"), env.ref
    ms = env.mod("monero_glue.messages")
    sk, mask = env.scalars("p", rows), env.scalars("z", rows)
    om = env.scalars("o", outs)
    am = env.ints("am", rows, 0, 2 ** 62)
    oa = env.ints("oa", outs, 0, 2 ** 30)
    # what the inputs hold is what the outputs and the fee take
    fee = sum(am) - sum(oa)
    env.assume(fee >= 0)
    msg = env.bytes("msg", 32)
    pubs = []
    for i in range(n):
        col = []
        for j in range(rows):
            P = ref.G * ref.sc(sk[j]) if i == index else ref.pt(env.point("P"))
            C = ref.G * ref.sc(mask[j]) + ref.H * am[j] if i == index else ref.pt(env.point("C"))
            col.append(ms.MoneroRctKeyPublic(dest=ref.enc(P), commitment=ref.enc(C)))
        pubs.append(col)
    in_sk = [Ct(sk[j], mask[j]) for j in range(rows)]
    out_sk = [Ct(None, om[j]) for j in range(outs)]
    out_pk = [Ct(None, ref.enc(ref.G * ref.sc(om[j]) + ref.H * oa[j])) for j in range(outs)]
    feek = ref.H * fee
    mg, c = ml.prove_rct_mg(msg, pubs, in_sk, out_sk, out_pk, None, None, index, ref.point(feek))
    bal = [sum((ref.pt(k.commitment) for k in col), ref.O) - sum((ref.pt(o.mask) for o in out_pk), ref.O) - feek for col in pubs]
    M = [[ref.pt(k.dest) for k in col] + [b] for col, b in zip(pubs, bal)]
    ss = [[ref.sc(x) for x in col] for col in mg.ss]
    II = [ref.pt(x) for x in mg.II]
    env.check(len(II) == rows and all(len(x) == rows + 1 for x in ss), "shape of the signature")
    env.check(env.all([II[j] == ref.Hp(pubs[index][j].dest) * ref.sc(sk[j]) for j in range(rows)]), "key images")
    env.check(mlsag_chain(env, msg, M, ss, ref.sc(mg.cc), II, rows) == ref.sc(mg.cc), "the challenges close the ring")

    def ver(msg=msg, pubs=pubs, out=out_pk, fee=feek):
        return bool(ml.ver_rct_mg(mg, pubs, out, ref.point(fee), msg))
    env.check(ver(), "an honest signature is accepted")
    env.check(not ver(msg=other(env, msg)), "another message")
    env.check(not ver(fee=ref.H * (fee + 1)), "another fee")
    env.check(not ver(out=out_pk[:-1]), "an output left out")
    env.check(not ver(out=[Ct(None, ref.enc(ref.pt(env.point("X"))))] + out_pk[1:]), "another output commitment")
    env.refuses("a ring that is not rectangular", ver, pubs=pubs[:-1] + [pubs[-1] + [pubs[-1][0]]])


@contract("C08", "bounded", targets=["mlsag2.gen_mlsag_assert", "mlsag2.ver_mlsag_assert", "mlsag2.prove_rct_mg_simple", "mlsag2.ver_rct_mg_simple",
                                     "mlsag2.generate_clsag_simple"], conc=40, conc_time=6)
def shapes(env):
    """ill-shaped requests are refused"""
    ml, cr, ref = env.mod(ML), env.mod("monero_glue.xmr.crypto"), env.ref
    p, z, a = env.scalar("p"), env.scalar("z"), env.scalar("a")
    n = env.choose("n", [2, 3, 5])
    msg = env.bytes("msg", 32)
    pubs = ring(env, n, 0, p, z, 5)
    off = ref.point(ref.G * ref.sc(a) + ref.H * 5)
    env.refuses("index outside the ring", ml.prove_rct_mg_simple, msg, pubs, Ct(p, z), a, off, None, None, n + env.choose("over", [0, 1, 7]))
    env.refuses("ring of one", ml.prove_rct_mg_simple, msg, pubs[:1], Ct(p, z), a, off, None, None, 0)
    env.refuses("empty ring", ml.prove_rct_mg_simple, msg, [], Ct(p, z), a, off, None, None, 0)
    env.refuses("empty CLSAG ring", ml.generate_clsag_simple, msg, [], Ct(p, z), a, off, 0, [])
    env.refuses("CLSAG index outside the ring", ml.generate_clsag_simple, msg, ring_copy(env, pubs), Ct(p, z), a, off, n, [])
    mg, _ = ml.prove_rct_mg_simple(msg, pubs, Ct(p, z), a, off, None, None, 0)
    env.refuses("verification over a shorter ring", ml.ver_rct_mg_simple, msg, mg, pubs[:-1], off)
    mg.II.append(mg.II[0])
    env.refuses("extra key image", ml.ver_rct_mg_simple, msg, mg, pubs, off)
    mg.II.pop()
    mg.ss[n - 1] = mg.ss[n - 1][:1]
    env.refuses("short response column", ml.ver_rct_mg_simple, msg, mg, pubs, off)


@contract("C08", "alg", targets=["mlsag2.gen_mlsag_assert"], conc=20, conc_time=5)
def gen_assert(env):
    """shapes of a signing request, decided before any secret is used"""
    ml, cr = env.mod(ML), env.mod("monero_glue.xmr.crypto")
    cols = env.choose("cols", [0, 1, 2, 3])
    rows = env.choose("rows", [0, 1, 2])
    pk = [[env.point("P") for _ in range(rows)] for _ in range(cols)]
    nx = env.choose("secrets", [0, 1, 2, 3])
    xx = env.scalars("x", nx)
    idx, ds = env.int("index", 0, 6), env.int("ds", 0, 4)
    if cols >= 2 and rows >= 1 and env.choose("ragged", [0, 1]):
        pk[env.choose("at", list(range(cols)))].append(env.point("X"))
        env.refuses("not rectangular", ml.gen_mlsag_assert, pk, xx, None, None, idx, ds)
        return
    r = env.attempt(ml.gen_mlsag_assert, pk, xx, None, None, idx, ds)
    good = cols >= 2 and rows >= 1 and nx == rows
    env.check(r.ok == bool(good and bool(idx < cols) and bool(ds <= rows)), "accepted exactly if well shaped")
