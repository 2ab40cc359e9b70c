"""C09: bulletproof range proofs: the verifier decides the equations, the prover satisfies them"""
from pyvc.run import contract
from contracts import bpref as R

BP = "monero_glue.xmr.bulletproof"
CR = "monero_glue.xmr.crypto"
RC = "monero_glue.xmr.ring_ct"


class Fresh:
    """proof made of arbitrary elements; A and T1 may be set later to any group element"""
    def __init__(self, env, tag, m):
        ref = env.ref
        self.env = env
        from pyvc.vbytes import Term
        fp = lambda nm: ref.enc(ref.pt(env.point(tag + nm)))
        fs = lambda nm: ref.encs(ref.sc(env.scalar(tag + nm)))
        k = R.log2ceil(m) + 6
        self.V = [fp("V%d" % i) for i in range(m)]
        self.S, self.T2 = fp("S"), fp("T2")
        self.taux, self.mu, self.a, self.b, self.t = (fs(x) for x in ("taux", "mu", "a", "b", "t"))
        self.L, self.R = [fp("L%d" % i) for i in range(k)], [fp("R%d" % i) for i in range(k)]
        self._A, self._T1 = (Term("pt", ("arbitrary", env.ctx.fresh(tag + x)), 32, ref.O) for x in ("A", "T1"))
        self.A, self.T1 = self._A.bytes(), self._T1.bytes()
        self.e1, self.e2, self.c = R.equations(ref, self)

    def solve(self, d1, d2):
        """choose A and T1 such that the equations evaluate to d1 and d2"""
        S = self.env.ref.S
        i8 = S(8).inverse()
        self._T1.payload = (d1 - self.e1) * (i8 * self.c.x.inverse())
        self._A.payload = (d2 - self.e2) * i8


def accepted(env, proofs, **kw):
    b = env.mod(BP).BulletProofBuilder()
    b.gc_fnc = None
    r = env.attempt(b.verify_batch, proofs, **kw)
    if not r.ok:
        env.internal(r.exc)
    return bool(r.ok and r.value)


def conc_proof(env, tag, m, shift=(0, 0)):
    ref = env.ref
    vals = [env.int(tag + "v%d" % i, 0, 2 ** 64 - 1) for i in range(m)]
    masks = [ref.sc(env.scalar(tag + "m%d" % i)) for i in range(m)]
    return R.prove(ref, vals, masks, lambda: ref.sc(env.scalar(tag + "r")), shift), vals, masks


VER = ["bulletproof.BulletProofBuilder.verify_batch", "bulletproof.BulletProofBuilder.verify", "bulletproof._hash_vct_to_scalar", "bulletproof._hash_cache_mash", "bulletproof._hash_to_scalar", "bulletproof._vector_powers",
       "bulletproof._vector_power_sum", "bulletproof.MultiExpSequential", "bulletproof._sc_*", "bulletproof._add_keys", "bulletproof._sub_keys", "bulletproof._scalarmult_key", "bulletproof._get_exponent", "bulletproof.KeyV*",
       "bulletproof._is_reduced", "bulletproof._invert"]


@contract("C09", "alg", targets=VER, variants=[{"m": 1, "single": True}, {"m": 1, "single": False}, {"m": 2, "single": True}, {"m": 3, "single": False}, {"m": 16, "single": False}, {"m": 9, "single": True}],
          thorough=[{"m": 2, "single": False}, {"m": 4, "single": True}, {"m": 4, "single": False}, {"m": 5, "single": True}, {"m": 8, "single": False}], conc=1, conc_time=4, backend="trezor")
def decides(env, m, single):
    """for every proof: accepted when both equations hold, refused when one of them (or a combination) does not"""
    ref = env.ref
    if not env.symbolic:
        if m > 3:
            return
        p, _, _ = conc_proof(env, "", m)
        env.check(accepted(env, [p], single_optim=single), "a proof that satisfies the equations is accepted")
        for f in R.FIELDS:
            q = clone(p)
            setattr(q, f, ref.encs(ref.sc(getattr(p, f)) + ref.S(1)) if f in ("taux", "mu", "a", "b", "t") else ref.enc(ref.pt(getattr(p, f)) + ref.G))
            env.check(not accepted(env, [q], single_optim=single), "an altered proof is refused: " + f)
        if m == 1:
            for s in ((1, 0), (0, 1), (5, -5), (5, 5)):
                env.check(not accepted(env, [conc_proof(env, "s", m, s)[0]], single_optim=single), "refused unless both equations hold")
        return
    p = Fresh(env, "p", m)
    p.solve(ref.O, ref.O)
    env.check(accepted(env, [p], single_optim=single), "a proof that satisfies the equations is accepted")
    D = ref.pt(env.point("D"))
    for nm, d1, d2 in (("first", D, ref.O), ("second", ref.O, D), ("both", D, -D), ("both", D, D)):
        p.solve(d1, d2)
        env.check(not accepted(env, [p], single_optim=single), "refused unless the equations hold: " + nm)


def clone(p):
    q = R.Obj()
    for f in R.FIELDS:
        setattr(q, f, getattr(p, f))
    for f in "VLR":
        setattr(q, f, list(getattr(p, f)))
    return q


# ---- several proofs in one call -----------------------------------------------------------------------------------
@contract("C09", "alg", targets=VER, variants=[{"ms": [1, 1]}, {"ms": [1, 2]}, {"ms": [2, 1]}], thorough=[{"ms": [1, 1, 1]}, {"ms": [2, 2, 1]}, {"ms": [1, 4]}, {"ms": [4, 2, 1, 1]}], conc=1, conc_time=4, backend="trezor")
def batch(env, ms):
    """all equations of all proofs; violations of different equations do not cancel"""
    ref = env.ref
    if not env.symbolic:
        ps = [conc_proof(env, "p%d" % i, m)[0] for i, m in enumerate(ms)]
        env.check(accepted(env, ps), "valid proofs are accepted")
        for i in range(len(ms)):
            q = clone(ps[i])
            q.t = ref.encs(ref.sc(q.t) + ref.S(1))
            env.check(not accepted(env, ps[:i] + [q] + ps[i + 1:]), "a batch with an altered proof is refused")
        if ms == [1, 1]:
            for s, t in (((3, 0), (-3, 0)), ((0, 3), (0, -3)), ((3, 0), (0, -3)), ((0, 3), (-3, 0))):
                env.check(not accepted(env, [conc_proof(env, "s", 1, s)[0], conc_proof(env, "t", 1, t)[0]]), "violations in two proofs do not cancel")
        return
    ps = [Fresh(env, "p%d" % i, m) for i, m in enumerate(ms)]
    for p in ps:
        p.solve(ref.O, ref.O)
    env.check(accepted(env, ps), "valid proofs are accepted")
    D = ref.pt(env.point("D"))
    eqs = [(i, j) for i in range(len(ms)) for j in (0, 1)]

    def with_(off):
        for i, p in enumerate(ps):
            p.solve(off.get((i, 0), ref.O), off.get((i, 1), ref.O))
        return accepted(env, ps)
    for e in eqs:
        env.check(not with_({e: D}), "one equation of one proof violated")
    for k, e in enumerate(eqs):
        for f in eqs[k + 1:]:
            for s in (D, -D):
                env.check(not with_({e: D, f: s}), "two equations violated")


# ---- malformed proofs ---------------------------------------------------------------------------------------------
@contract("C09", "alg", targets=VER, variants=[{"what": w} for w in ("taux", "mu", "a", "b", "t")] + [{"what": w} for w in ("no V", "no L", "L", "R", "LR", "long LR", "V")], conc=1, conc_time=4, backend="trezor")
def malformed(env, what):
    """scalars that are not reduced and lists of other lengths are refused, alone and in a batch, whatever the equations say"""
    ref = env.ref
    le = lambda v: env.cbytes(v.to_bytes(32, "little"))
    m = 2 if what == "V" else 1
    if env.symbolic:
        p = Fresh(env, "p", m)
    else:
        p = conc_proof(env, "p", m)[0]
    if what in R.FIELDS:
        v = 12345 + ref.L
        if env.symbolic:
            setattr(p, what, le(v))
            p.e1, p.e2, p.c = R.equations(ref, p)
        else:
            setattr(p, what, le(ref.sc(getattr(p, what)).v + ref.L))
    elif what == "no V":
        p.V = []
    elif what == "no L":
        p.L = p.R = []
    elif what in ("L", "R"):
        setattr(p, what, getattr(p, what)[:-1])
    elif what == "LR":
        p.L, p.R = p.L[:-1], p.R[:-1]
    elif what == "long LR":
        p.L, p.R = p.L + [p.L[0]], p.R + [p.R[0]]
    else:
        p.V = p.V[:1]
    if env.symbolic and what in R.FIELDS:
        p.solve(ref.O, ref.O)
    env.check(not accepted(env, [p]), "refused: " + what)
    if env.symbolic:
        g = Fresh(env, "g", 1)
        g.solve(ref.O, ref.O)
    else:
        g = conc_proof(env, "g", 1)[0]
    env.check(accepted(env, [g]), "the sound proof alone")
    env.check(not accepted(env, [g, p]), "refused in a batch: " + what)
    env.check(not accepted(env, [p, g]), "refused in a batch: " + what)


# ---- the prover ---------------------------------------------------------------------------------------------------
def symbolic_randomness(env, m):
    """the outputs of the generators are arbitrary values, one per seed and position"""
    ec = env.mod("monero_glue.xmr.core.ec")
    from pyvc.vbytes import Term, canon, to_elems
    cls = getattr(ec, "PRNG", None)
    if cls is None or not hasattr(cls, "_gen"):
        return

    def gen(self):
        self.ctr += 1
        return Term("prng", (canon(to_elems(self.state)), self.ctr), 32).bytes()
    cls._gen = gen
    m.set_prng(env.mod(CR).prng(b"seed of this proof"))


def bit_amounts(env, m, n):
    """n arbitrary 64-bit amounts as sums of arbitrary bits; the bit selection of the vectors follows its contract (see bits)"""
    from pyvc.alg import Zl, enc_scalar
    amounts = [[Zl.atom(env.ctx.fresh("b%d_" % j), boolean=True) for _ in range(64)] for j in range(n)]

    def e_xL(sv, idx, d=None, is_a=True):
        j, i = idx // 64, idx % 64
        b = amounts[j][i] if j < n else Zl.const(0)
        r = enc_scalar(b if is_a else b - Zl.const(1))
        if d:
            for k in range(32):
                d[k] = r[k]
            return d
        return r
    m._e_xL = e_xL
    S = env.ref.S
    return [sum((b * S(1 << i) for i, b in enumerate(bs)), S(0)) for bs in amounts]


def check_commitments(env, V, vals, masks, label="commitment to the amount"):
    ref = env.ref
    env.check(len(V) == len(vals), "one commitment per amount")
    for i, (v, k) in enumerate(zip(vals, masks)):
        env.check(ref.pt(elem(V, i)) * ref.S(8) == ref.G * ref.sc(k) + ref.H * v, label)


def elem(V, i):
    return V.to(i) if hasattr(V, "to") else V[i]


def as_proof(p):
    q = R.Obj()
    for f in R.FIELDS:
        setattr(q, f, getattr(p, f))
    for f in "VLR":
        v = getattr(p, f)
        setattr(q, f, [bytes_of(elem(v, i)) for i in range(len(v))])
    return q


def bytes_of(x):
    from pyvc.vbytes import VBytes, to_elems
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x)
    return VBytes(list(to_elems(x)))


EDGE = [0, 1, 2 ** 64 - 1, 2 ** 63, 2 ** 63 - 1, 0x0123456789abcdef, 0xffffffff, 1 << 32]


def setup_prover(env, n, amounts):
    ref, m, cr = env.ref, env.mod(BP), env.mod(CR)
    if env.symbolic:
        symbolic_randomness(env, m)
        masks = [env.scalar("m%d" % i) for i in range(n)]
        vals = bit_amounts(env, m, n) if amounts == "all" else [ref.S(EDGE[(i + n) % len(EDGE)]) for i in range(n)]
        sv = [ref.scalar(v) for v in vals]
    else:
        masks = [env.scalar("m%d" % i) for i in range(n)]
        raw = [env.int("v%d" % i, 0, 2 ** 64 - 1) for i in range(n)]
        vals, sv = [ref.S(v) for v in raw], [ref.scalar(ref.S(v)) for v in raw]
    b = m.BulletProofBuilder()
    b.gc_fnc = None
    return m, b, sv, masks, vals


PROVE = ["bulletproof.BulletProofBuilder.prove_batch", "bulletproof.BulletProofBuilder.prove", "bulletproof.BulletProofBuilder.prove_setup", "bulletproof.BulletProofBuilder._prove_batch_main", "bulletproof.BulletProofBuilder._prove_phase1",
         "bulletproof.BulletProofBuilder._phase1_fulllr", "bulletproof.BulletProofBuilder._phase1_post", "bulletproof.BulletProofBuilder._prove_loop", "bulletproof.BulletProofBuilder._phase2_loop_body", "bulletproof.BulletProofBuilder._comp_V",
         "bulletproof.BulletProofBuilder._comp_l0l1r0r1", "bulletproof._cross_inner_product", "bulletproof._hadamard_fold", "bulletproof._scalar_fold", "bulletproof._inner_product", "bulletproof._vector_exponent_custom",
         "bulletproof.KeyR0", "bulletproof.KeyVPowers", "bulletproof.KeyVPrngMask", "bulletproof.KeyVEval", "bulletproof.KeyVPrecomp"]


def check_proof(env, p, vals, masks):
    ref = env.ref
    q = as_proof(p)
    check_commitments(env, q.V, vals, masks)
    e1, e2, _ = R.equations(ref, q)
    env.check(e1 == ref.O, "the polynomial equation holds")
    env.check(e2 == ref.O, "the inner-product equation holds")
    for f in ("taux", "mu", "t", "a", "b"):
        env.check(ref.encs(ref.sc(getattr(q, f))) == getattr(q, f), "scalars of the proof are reduced")


@contract("C09", "alg", targets=PROVE, variants=[{"n": 1, "amounts": "all"}, {"n": 1, "amounts": "some", "det": False}, {"n": 2, "amounts": "some"}, {"n": 1, "amounts": "all", "first": True}],
          thorough=[{"n": 2, "amounts": "all"}, {"n": 2, "amounts": "some", "first": True}], conc=1, conc_time=6, backend="trezor")
def proves(env, n, amounts, det=True, first=False):
    """for all amounts, masks and randomness the proof satisfies the equations and is accepted"""
    m, b, sv, masks, vals = setup_prover(env, n, amounts)
    b.use_det_masks = det
    prove = b.prove_batch_ if first and hasattr(b, "prove_batch_") else b.prove_batch
    p = b.prove(sv[0], masks[0]) if n == 1 and det and not first else prove(sv, masks)
    check_proof(env, p, vals, masks)
    env.check(accepted(env, [p]), "accepted by the verifier")
    env.check(accepted(env, [as_proof(p)], single_optim=False), "accepted by the verifier")


# ---- larger aggregates, in two parts: up to the inner-product argument, and its rounds ----------------------------
def known(o, *names):
    from pyvc.core import Undecided
    for x in names:
        if not hasattr(o, x):
            raise Undecided("%s is not there" % x)


@contract("C09", "alg", targets=["bulletproof.BulletProofBuilder._prove_phase1", "bulletproof.BulletProofBuilder._phase1_fulllr", "bulletproof.BulletProofBuilder._phase1_post", "bulletproof.BulletProofBuilder.prove_setup",
                                 "bulletproof.BulletProofBuilder.aX_vcts", "bulletproof._cross_inner_product", "bulletproof.KeyR0", "bulletproof.KeyVPowers"],
          variants=[{"n": n, "amounts": "all"} for n in (2, 3, 4, 6, 8, 16)], thorough=[{"n": n, "amounts": "all"} for n in (5, 7, 9, 12)], aux=True)
def head(env, n, amounts):
    """what is handed to the inner-product argument is the statement the proof makes: t = <l, r>, and A, S, mu open to l and r"""
    if not env.symbolic:
        return
    ref = env.ref
    m, b, sv, masks, vals = setup_prover(env, n, amounts)
    known(b, "_prove_loop", "prove_batch")
    got = []

    def stub(MN, logMN, l, r, y, x_ip, hash_cache, Gprec, Hprec):
        f = Fresh(env, "stub", MN // 64)
        got.append(([ref.sc(l.to(i)) for i in range(MN)], [ref.sc(r.to(i)) for i in range(MN)], ref.sc(y), ref.sc(x_ip), ref.sc(hash_cache), [ref.pt(Gprec.to(i)) for i in range(MN)], [ref.pt(Hprec.to(i)) for i in range(MN)], logMN))
        return f.L, f.R, f.a, f.b
    b._prove_loop = stub
    p = b.prove_batch(sv, masks)
    l, r, y, xip, hc, Gp, Hp, logMN = got[0]
    q = as_proof(p)
    check_commitments(env, q.V, vals, masks)
    nn = len(l)
    env.check(nn == 64 << R.log2ceil(n) and 1 << logMN == nn, "size of the vectors")
    Gi, Hi = R.gens(ref, nn)
    for i in range(nn):
        env.check(Gp[i] == Gi[i] and Hp[i] == Hi[i], "generators")
    e1, e2, c = R.equations(ref, q)
    env.check(y == c.y and xip == c.xip and hc == c.xip, "challenges")
    env.check(e1 == ref.O, "the polynomial equation holds")
    env.check(ref.sc(q.t) == sum((u * v for u, v in zip(l, r)), ref.S(0)), "t is the inner product")
    # what remains of the second equation without the rounds is the opening of l and r
    q.L = q.R = []
    q.a = q.b = ref.encs(ref.S(0))
    yi = R.powers(ref, c.y.inverse(), nn)
    _, e2, _ = R.equations(ref, q)
    want = ref.H * (ref.sc(q.t) * c.xip)
    for i in range(nn):
        want = want + Gi[i] * l[i] + Hi[i] * (r[i] * yi[i])
    env.check(e2 == want, "the vectors open the commitments of the proof")


@contract("C09", "alg", targets=["bulletproof.BulletProofBuilder._prove_loop", "bulletproof.BulletProofBuilder._phase2_loop_body", "bulletproof.BulletProofBuilder._phase2_loop_body_r0init",
                                 "bulletproof._hadamard_fold", "bulletproof._scalar_fold", "bulletproof._inner_product", "bulletproof._vector_exponent_custom", "bulletproof.KeyV.resize", "bulletproof.KeyVSliced"],
          variants=[{"M": M} for M in (1, 2, 4, 8, 16)], aux=True)
def rounds(env, M):
    """loop invariant of the inner-product argument: <a,G> + <b,H> + x<a,b>H changes by 8(w^2 L + w^-2 R) in each round, for arbitrary
    vectors at the start of every round; the size halves, the last scalars are returned"""
    if not env.symbolic:
        return
    from pyvc.alg import enc_point, enc_scalar
    ref, m, cr = env.ref, env.mod(BP), env.mod(CR)
    b = m.BulletProofBuilder()
    b.gc_fnc = None
    known(b, "_prove_loop", "_phase2_loop_body", "aprime", "bprime", "Gprime", "Hprime", "round")
    n = b.MN = 64 * M
    logn = R.log2ceil(n)
    fs = lambda nm: ref.sc(env.scalar(nm))
    fp = lambda nm: ref.pt(env.point(nm))
    l, r, y, xip = [fs("l") for _ in range(n)], [fs("r") for _ in range(n)], fs("y"), fs("x")
    hc0 = fs("h")

    def vec(xs, enc):
        v = m.KeyV(len(xs))
        for i, x in enumerate(xs):
            v.read(i, enc(x))
        return v
    Gi, Hi = R.gens(ref, n)
    yi = R.powers(ref, y.inverse(), n)
    st = {"a": l, "b": r, "G": Gi, "H": [P * yi[i] for i, P in enumerate(Hi)], "h": hc0, "k": 0}
    body = b._phase2_loop_body
    hcb = env.ba(bytes(32))
    hcb[0:32] = enc_scalar(hc0)
    dot = lambda u, v: sum((s * t for s, t in zip(u, v)), ref.S(0))
    comb = lambda u, g: sum((P * s for P, s in zip(g, u)), ref.O)

    def P(a, bb, G, H):
        return comb(a, G) + comb(bb, H) + ref.H * (dot(a, bb) * xip)

    def wrapped(*ar):
        body(*ar)
        k, i = len(st["a"]) // 2, st["k"]
        rd = lambda v, f: [f(v.to(j)) for j in range(k)]
        env.check([len(v) for v in (b.aprime, b.bprime, b.Gprime, b.Hprime)] == [k] * 4, "the vectors halve")
        L, Rr = ref.pt(b.L.to(i)), ref.pt(b.R.to(i))
        w = ref.Hs(ref.encs(st["h"]), b.L.to(i), b.R.to(i))
        wi = w.inverse()
        a2, b2, G2, H2 = rd(b.aprime, ref.sc), rd(b.bprime, ref.sc), rd(b.Gprime, ref.pt), rd(b.Hprime, ref.pt)
        for j in range(k):
            env.check(G2[j] == st["G"][j] * wi + st["G"][k + j] * w and H2[j] == st["H"][j] * w + st["H"][k + j] * wi, "generators folded")
        left = P(st["a"], st["b"], st["G"], st["H"]) + (L * (w * w) + Rr * (wi * wi)) * ref.S(8)
        env.check(left == P(a2, b2, G2, H2), "invariant of the round")
        # the next round starts from arbitrary vectors of this size
        st["a"], st["b"] = [fs("a") for _ in range(k)], [fs("b") for _ in range(k)]
        st["G"], st["H"] = [fp("G") for _ in range(k)], [fp("H") for _ in range(k)]
        for v, x, e in ((b.aprime, "a", enc_scalar), (b.bprime, "b", enc_scalar), (b.Gprime, "G", enc_point), (b.Hprime, "H", enc_point)):
            for j in range(k):
                v.read(j, e(st[x][j]))
        st["h"], st["k"] = w, i + 1
    b._phase2_loop_body = wrapped
    L, Rr, a, bb = b._prove_loop(n, logn, vec(l, enc_scalar), vec(r, enc_scalar), enc_scalar(y), enc_scalar(xip), hcb, b._gprec_aux(n), b._hprec_aux(n))
    env.check(st["k"] == logn and len(L) == logn and len(Rr) == logn, "number of rounds")
    env.check(ref.sc(a) == st["a"][0] and ref.sc(bb) == st["b"][0], "the last scalars are returned")


@contract("C09", "sym", targets=["bulletproof._e_xL", "bulletproof.BulletProofBuilder.aX_vcts", "bulletproof.KeyVEval"], variants=[{"n": n, "MN": k} for n, k in ((1, 64), (2, 128), (3, 256), (16, 1024))], conc=4, conc_time=4, backend="trezor")
def bits(env, n, MN):
    """for all amounts: the vectors of the proof are the bits of the amounts and the bits less one; nothing beyond the last amount"""
    m = env.mod(BP)
    b = m.BulletProofBuilder()
    raw = [[env.int("v%d" % j, 0, 255) for _ in range(8)] for j in range(n)]
    sv = [env.cbytes(x + [0] * 24) if env.symbolic else bytes(x + [0] * 24) for x in raw]
    aL, aR = b.aX_vcts(sv, MN)
    env.check(len(aL) == MN and len(aR) == MN, "one entry per bit")
    one, zero, minus = (bytes_le(v) for v in (1, 0, 2 ** 252 + 27742317777372353535851937790883648493 - 1))
    buf = env.ba(bytes(32))
    i = env.choose("i", range(MN) if n < 3 else [64 * j + i for j in range(MN // 64) for i in (0, 7, 8, 31, 63)])
    bit = ((raw[i // 64][(i % 64) // 8] >> (i % 8)) & 1) == 1 if i // 64 < n else False
    on = bool(bit)
    env.check(same(aL.to(i), one if on else zero), "bit of the amount")
    env.check(same(aR.to(i), zero if on else minus), "bit of the amount less one")
    aL.to(i, buf)
    env.check(same(buf, one if on else zero), "bit of the amount")


def bytes_le(v):
    return v.to_bytes(32, "little")


def same(x, b):
    x = list(x)
    return len(x) == 32 and all(u == v for u, v in zip(x, b))


# ---- the real backend, and the functions the rest of the code calls -----------------------------------------------
@contract("C09", "bounded", targets=PROVE + VER, variants=[{"n": n} for n in (1, 2, 3, 4, 5, 8, 16)], thorough=[{"n": n} for n in (6, 7, 9, 15)], conc=1, conc_time=60, backend="trezor")
def whole(env, n):
    """the compiled backend, real generators: edge amounts, proof checked by the reference equations and by the verifier"""
    ref, m = env.ref, env.mod(BP)
    off = env.int("o", 0, len(EDGE) - 1)
    raw = [EDGE[(i + off) % len(EDGE)] if i % 3 != 2 else env.int("v%d" % i, 0, 2 ** 64 - 1) for i in range(n)]
    masks = [env.scalar("m%d" % i) for i in range(n)]
    b = m.BulletProofBuilder()
    b.gc_fnc = None
    p = b.prove_batch([ref.scalar(ref.S(v)) for v in raw], masks)
    vals = [ref.S(v) for v in raw]
    check_proof(env, p, vals, masks)
    env.check(accepted(env, [p]), "accepted by the verifier")
    q = as_proof(p)
    env.check(accepted(env, [q], single_optim=False), "accepted by the verifier")
    w = clone(q)
    j = env.int("j", 0, n - 1)
    w.V[j] = ref.enc(ref.pt(w.V[j]) + ref.H * ref.S(8).inverse())
    env.check(not accepted(env, [w]), "not for another amount")
    w = clone(q)
    j = env.int("k", 0, len(q.L) - 1)
    w.L[j], w.R[j] = w.R[j], w.L[j]
    env.check(not accepted(env, [w]), "not with altered rounds")
    if n == 2:
        r = conc_proof(env, "r", 1)[0]
        env.check(accepted(env, [q, r, q]), "a batch of proofs of different sizes")
        env.check(not accepted(env, [w, r]) and not accepted(env, [r, w]), "a batch with an altered proof")


@contract("C09", "alg", targets=["ring_ct.prove_range_bp", "ring_ct.prove_range_bp_batch", "ring_ct.verify_bp", "ring_ct.ver_range", "ring_ct.bp_comm_to_v"], variants=[{"n": 1}, {"n": 2}], conc=2, conc_time=10, backend="trezor")
def wrappers(env, n):
    """the entry points used by the agent and the host: the commitment, its mask, and the amounts the verification is for"""
    ref, rc, m = env.ref, env.mod(RC), env.mod(BP)
    if env.symbolic:
        symbolic_randomness(env, m)
    raw = [EDGE[(i * 3 + 2) % len(EDGE)] for i in range(n)] if env.symbolic else [env.int("v%d" % i, 0, 2 ** 64 - 1) for i in range(n)]
    masks = [env.scalar("m%d" % i) for i in range(n)]
    com = lambda v, k: ref.G * ref.sc(k) + ref.H * ref.S(v)
    if n == 1:
        C, mask, p = env.run(rc.prove_range_bp(raw[0], masks[0]))
        env.check(ref.pt(C) == com(raw[0], masks[0]), "the commitment that is returned")
        env.check(ref.sc(mask) == ref.sc(masks[0]), "its mask")
        C2, mask2, p2 = env.run(rc.prove_range_bp(raw[0]))
        env.check(ref.pt(C2) == com(raw[0], mask2), "commitment under a fresh mask")
        check_proof(env, p2, [ref.S(raw[0])], [mask2])
    else:
        p = env.run(rc.prove_range_bp_batch(raw, masks))
    check_proof(env, p, [ref.S(v) for v in raw], masks)
    if env.symbolic and n > 1:
        # the verifier follows its contract (see decides); what it is asked to verify
        seen = []
        m.BulletProofBuilder.verify = lambda self, q: seen.append(([ref.pt(x) for x in q.V], q)) or True
        env.check(env.run(rc.verify_bp(p)) is True and env.run(rc.verify_bp(p, raw, masks)) is True, "accepted")
        i8 = ref.S(8).inverse()
        want = [com(v, k) * i8 for v, k in zip(raw, masks)]
        env.check(len(seen) == 2 and seen[0][0] == want and seen[1][0] == want and all(x[1] is p for x in seen), "the proof with the commitments to these amounts is verified")
        return
    env.check(env.run(rc.verify_bp(p)) is True, "accepted")
    env.check(rc.ver_range(None, p, use_bulletproof=True) is True, "accepted")
    env.check(env.run(rc.verify_bp(p, raw, masks)) is True, "accepted for these amounts and masks")
    other = list(raw)
    other[-1] = (other[-1] + 1) % 2 ** 64
    r = env.attempt(lambda: env.run(rc.verify_bp(p, other, masks)))
    env.check(not (r.ok and r.value), "refused for other amounts")
    r = env.attempt(lambda: env.run(rc.verify_bp(p, raw, masks[:-1] + [ref.scalar(ref.sc(masks[-1]) + ref.S(1))])))
    env.check(not (r.ok and r.value), "refused for other masks")
    P = env.point("C")
    env.check(ref.pt(rc.bp_comm_to_v(P)) * ref.S(8) == ref.pt(P), "commitment as the proof carries it")
