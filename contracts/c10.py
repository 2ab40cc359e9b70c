"""C10: range proving in steps with masked vectors held by the host"""
from pyvc.run import contract
from contracts import c09
from contracts import bpref as R

BP, CL, CR, TM = c09.BP, "monero_glue.xmr.bulletproof_cl", c09.CR, "monero_glue.hwtoken.misc"
FIELDS = R.FIELDS
STEPS = ["bulletproof.BulletProofBuilder." + x for x in ("prove_batch_off", "prove_batch_off_step", "prove_setup", "_prove_phase1", "_phase1_lr", "_phase1_post", "_phase2_loop0_clcr", "_phase2_loop_offdot", "_compute_folding_consts",
                                                         "_phase2_loop_r0foldGH", "_phase2_loop_ufold", "_phase2_loop_fold", "_phase2_loop_full", "_phase2_final", "_new_blinds", "_swap_blinds", "dump_state", "load_state",
                                                         "dump_xbuffs", "load_xbuffs", "_phase2_loop_body_r0*")] + ["bulletproof_cl.BulletproofClient.*", "bulletproof_cl.comp_*", "bulletproof_cl.dechunk_res"]
DIRECT = "the direct prover meets its contract (C09)"


class Device:
    """the device: one builder per step, its state kept between the steps as dump_state gives it (or the builder itself)"""
    def __init__(self, env, sv, masks, dump, hook=None):
        self.env, self.sv, self.masks, self.dump, self.hook = env, sv, masks, dump, hook
        self.m, self.cl, self.tm = env.mod(BP), env.mod(CL), env.mod(TM)
        self.steps, self.state, self.b, self.first = 0, None, None, None

    def builder(self):
        b = self.m.BulletProofBuilder()
        b.gc_fnc = None
        return b

    def dumped(self):
        """is the state dumped after this step"""
        return {"all": True, "none": False, "even": self.steps % 2 == 0, "odd": self.steps % 2 == 1, "third": self.steps % 3 == 1}.get(self.dump) if isinstance(self.dump, str) else bool(self.dump >> (self.steps % 64) & 1)

    async def step(self, p1=0, p2=2, params=None, buffers=None):
        m = self.m
        if p1 == 0:
            reset_prng(self.env, m)
            b = self.builder()
            b.off_method, b.nprime_thresh, b.off2_thresh, b.batching = params
            res = b.prove_batch_off(self.sv, self.masks, buffers if self.first is None else self.first)
        else:
            b = self.b
            if b is None:
                b = self.builder()
                b.load_state(self.state)
            res = b.prove_batch_off_step(buffers)
        if self.dumped():
            self.state, self.b = b.dump_state(), None
        else:
            self.b = b
        self.steps += 1
        if isinstance(res, tuple) and res[0] == 1:
            full = self.cl.BulletproofFull()
            for f in ("V", "L", "R") + FIELDS:
                setattr(full, f, getattr(res[1], f))
            res = await self.tm.dump_msg(full)
        elif self.hook is not None:
            self.hook(buffers, res)
        return (res if isinstance(res, (list, tuple)) else [res]) if res else None


def reset_prng(env, m):
    m.set_prng(env.mod(CR).prng(b"seed of this proof"))


def offloaded(env, sv, masks, n, method, batching, thresh, dump, hook=None, first=None):
    dev = Device(env, sv, masks, dump, hook)
    dev.first = first
    c = env.mod(CL).BulletproofClient(n, messenger=dev.step)
    c.off_method, c.batching = method, batching
    c.nprime_thresh, c.off2_thresh = thresh
    return env.run(c.compute_bp()), dev


def same_proof(env, p, q, label):
    p, q = c09.as_proof(p), c09.as_proof(q)
    for f in FIELDS:
        env.check(getattr(p, f) == getattr(q, f), label)
    for f in "VLR":
        env.check(len(getattr(p, f)) == len(getattr(q, f)), label)
        for x, y in zip(getattr(p, f), getattr(q, f)):
            env.check(x == y, label)


# ---- what the host gets to see ------------------------------------------------------------------------------------
class Masks:
    """every element handed out is a sum of terms each of which has a mask that the data handed in with the same request does not have"""
    def __init__(self, env):
        from pyvc.alg import Zl
        self.env, self.ids = env, set()
        cr = env.mod(CR)
        self.n = 0

        def scalar(*a):
            z = Zl.atom(env.ctx.fresh("blind"))
            self.ids.add(next(iter(z.m))[0][0])
            return env.ref.scalar(z)

        def into(r=None, *a):
            x = scalar()
            return cr.sc_copy(r, x) if r is not None else x
        cr.random_scalar = lambda r=None: scalar() if r is None else into(r)
        cr.random_scalar_into = into
        self.y = None

    def elems(self, x, out):
        if x is None:
            return out
        if isinstance(x, (list, tuple)):
            for y in x:
                self.elems(y, out)
            return out
        from pyvc.vbytes import to_elems
        es = list(to_elems(x))
        for i in range(0, len(es), 32):
            out.append(es[i:i + 32])
        return out

    def terms(self, e):
        """monomials of a scalar, or of the coefficients of a point"""
        from pyvc.vbytes import whole_term
        from pyvc.core import Undecided
        if all(isinstance(x, int) for x in e):
            return [] if bytes(e) in (bytes(32), bytes([1]) + bytes(31)) else [()]
        t = whole_term(e)
        if t is None or t.kind not in ("sc", "pt"):
            raise Undecided("element handed to the host is not a scalar or point")
        return list(t.payload.m) if t.kind == "sc" else [mo for z in t.payload.m.values() for mo in z.m]

    def atoms(self, monos):
        return {a for mo in monos for a, _ in mo} & self.ids

    def __call__(self, request, answer):
        env = self.env
        asked = set()
        for e in self.elems(request, []):
            for mo in self.terms(e):
                asked |= {a for a, _ in mo}
        got = self.elems(answer, [])
        if len(got) == 1 and self.y is None and not asked:
            self.y = got[0]          # the public challenge y ends the first phase
            env.check(not self.atoms(self.terms(got[0])), "only the challenge is handed out as it is")
            return
        for e in got:
            self.n += 1
            env.check(all({a for a, _ in mo} & (self.ids - asked) for mo in self.terms(e)), "what the host is given is masked")


# ---- contracts ----------------------------------------------------------------------------------------------------
def small(method, batching, thresh, dump, n=1, amounts="all"):
    return {"n": n, "method": method, "batching": batching, "thresh": thresh, "dump": dump, "amounts": amounts}


QUICK = [small(0, 32, (32, 32), "all"), small(0, 64, (8, 8), "all"), small(1, 16, (16, 16), "all"), small(1, 64, (64, 64), "all"), small(2, 32, (16, 8), "all"), small(2, 64, (64, 32), "all"),
         small(3, 32, (64, 32), "all"), small(3, 16, (16, 8), "all"), small(0, 16, (2, 2), "none"), small(3, 64, (1, 1), "none")] + \
        [small(me, 16, (16, 8) if me > 1 else (8, 8), d) for me in range(4) for d in ("none", "even", "odd", "third")] + \
        [small(me, 32, (32, 16) if me > 1 else (16, 16), "all", n=2) for me in range(4)]
THOROUGH = [small(me, ba, th, du, amounts=am) for me in range(4) for ba, th in ((8, (8, 8)), (32, (64, 16)), (64, (2, 1)), (1, (256, 128)), (16, (32, 4)), (16, (4, 4)), (2, (32, 32))) for du, am in (("all", "all"), ("even", "some"))
            if not (me < 2 and th[0] != th[1])] + \
           [small(me, 64, (32, 32), d, n=2) for me in range(4) for d in ("all", "odd")] + [small(me, 128, (4, 4), "all", n=2) for me in range(4)] + [small(me, 64, (64, 64), "all", n=4, amounts="some") for me in range(4)]


@contract("C10", "alg", targets=STEPS, variants=QUICK, thorough=THOROUGH, conc=1, conc_time=10, backend="trezor", trusted=[DIRECT])
def stepwise(env, n, method, batching, thresh, dump, amounts):
    """for all amounts, masks, randomness and blinds: the proof put together in steps equals the direct one; what the host is given is masked"""
    if env.symbolic:
        m, b, sv, masks, vals = c09.setup_prover(env, n, amounts)
        blinds = Masks(env)
    else:
        m, b, sv, masks, vals = c09.setup_prover(env, n, "all")
        blinds = Seen()
    reset_prng(env, m)
    direct = b.prove_batch(sv, masks)
    p, dev = offloaded(env, sv, masks, n, method, batching, thresh, dump, blinds)
    same_proof(env, p, direct, "the proof equals the one computed directly")
    c09.check_commitments(env, c09.as_proof(p).V, vals, masks)
    if env.symbolic:
        env.check(blinds.n > 128, "masked vectors were handed out")
    else:
        env.check(c09.accepted(env, [p]), "accepted by the verifier")
        again = Seen()
        offloaded(env, sv, masks, n, method, batching, thresh, dump, again)
        env.check(again.unlike(blinds), "what the host is given is masked")


class Seen:
    """two runs of the same proof: what the host is given differs, but for the challenge and elements that are zero"""
    def __init__(self):
        self.out = []

    def __call__(self, request, answer):
        self.out.append(self.elems(answer))

    def elems(self, x):
        if x is None:
            return []
        if isinstance(x, (list, tuple)):
            return [e for y in x for e in self.elems(y)]
        x = bytes(x)
        return [x[i:i + 32] for i in range(0, len(x), 32)]

    def unlike(self, o):
        zero = (bytes(32), bytes([1]) + bytes(31))
        y = next((i for i, x in enumerate(self.out) if len(x) == 1), None)
        same = [i for i, (a, b) in enumerate(zip(self.out, o.out)) if len(a) != len(b) or any(u == v and u not in zero for u, v in zip(a, b))]
        return len(self.out) == len(o.out) and set(same) <= {y}


@contract("C10", "bounded", targets=STEPS, variants=[{"n": n, "method": me} for n in (1, 2, 4) for me in range(4)], thorough=[{"n": n, "method": me} for n in (3, 5, 8, 16) for me in range(4)], conc=2, conc_time=20, backend="trezor")
def configurations(env, n, method):
    """the compiled backend with random configurations and dumps at random places"""
    m, b, sv, masks, vals = c09.setup_prover(env, n, "all")
    M = 1 << R.log2ceil(n)
    pick = lambda nm, hi: 1 << env.int(nm, 0, hi)
    batching = pick("batching", 6 + R.log2ceil(n))
    th = pick("nprime", 8)
    th = (th, min(th, pick("off2", 8)) if method > 1 else th)
    reset_prng(env, m)
    direct = b.prove_batch(sv, masks)
    p, dev = offloaded(env, sv, masks, M, method, batching, th, env.int("dumps", 0, 2 ** 64 - 1))
    same_proof(env, p, direct, "the proof equals the one computed directly")
    env.check(c09.accepted(env, [p]), "accepted by the verifier")


@contract("C10", "bounded", targets=["bulletproof_cl.BulletproofMPCRunner.step", "bulletproof_cl.BulletproofClient.compute_bp"], variants=[{"n": n, "method": me} for n in (1, 2) for me in range(4)], thorough=[{"n": n, "method": me} for n in (4, 8) for me in range(4)],
          conc=1, conc_time=20, backend="trezor")
def runner(env, n, method):
    """the runner that comes with the client"""
    ref, cl = env.ref, env.mod(CL)
    c = cl.BulletproofClient(n, messenger=cl.BulletproofMPCRunner().step)
    c.off_method, c.batching = method, 1 << env.int("batching", 0, 6)
    c.nprime_thresh = c.off2_thresh = 1 << env.int("nprime", 0, 7)
    p = env.run(c.compute_bp())
    c09.check_proof(env, p, [ref.S(137 * i) for i in range(n)], [ref.scalar(ref.S(991 * i)) for i in range(n)])
    env.check(c09.accepted(env, [p]), "accepted by the verifier")


@contract("C10", "alg", targets=["bulletproof.BulletProofBuilder.prove_batch_off", "bulletproof.BulletProofBuilder._prove_phase1"], variants=[{"n": 1}], conc=1, conc_time=10, backend="trezor", trusted=[DIRECT])
def first_sum(env, n):
    """the first commitment may come from the host: the sum over the bits that the host computed is used in its place"""
    m, b, sv, masks, vals = c09.setup_prover(env, n, "all")
    reset_prng(env, m)
    direct = b.prove_batch(sv, masks)
    ref = env.ref
    Gi, Hi = R.gens(ref, 64 * n)
    aL, aR = b.aX_vcts([env.mod(CR).encodeint(x) for x in sv], 64 * n)
    A = ref.O
    for i in range(64 * n):
        A = A + Gi[i] * ref.sc(aL.to(i)) + Hi[i] * ref.sc(aR.to(i))
    buf = env.ba(bytes(32))
    buf[0:32] = ref.enc(A)
    p, _ = offloaded(env, sv, masks, n, 2, 32, (32, 32), "all", first=[buf])
    same_proof(env, p, direct, "the proof equals the one computed directly")
