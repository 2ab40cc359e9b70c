"""C23: range proof groups cover every output exactly once, host and device agree"""
from pyvc.run import contract
from contracts import txlib as T

AG = "monero_glue.agent.agent_lite"
BLD = T.BLD
MANY = 2 ** 40


# ---- sizes the host generates -----------------------------------------------------------------------------------
class Groups(list):
    """a list of group sizes of which only the sum is known, and what is appended"""
    def __init__(self, total):
        list.__init__(self)
        self.total, self.new = total, []

    def append(self, x):
        self.new.append(x)
        self.total = self.total + x

    def __iadd__(self, o):
        for x in o:
            self.append(x)
        return self

    extend = __iadd__


class SizeLoop:
    objects = ("batches",)
    local = ("batch_size",)
    found = missing = entered = False
    env = None

    def inv(self, loc):
        b = loc["batches"]
        done = b.total if isinstance(b, Groups) else sum(b)
        r = [(loc["amount_batched"] == done, "counted outputs are the outputs of the groups"), (done <= loc["num_outputs"], "no output is covered twice")]
        for x in b.new if isinstance(b, Groups) else b:
            r += [(x >= 1, "groups are not empty"), (x <= 16, "groups are at most 16 outputs")]
            if loc["rsig_type"] == 2:
                r.append((self.power(x), "group sizes are powers of two"))
            if loc["rsig_type"] in (0, 1):
                r.append((x == 1, "single output groups"))
            if loc["rsig_type"] == 3:
                r.append((x == loc["num_outputs"], "one group"))
        return r

    def power(self, x):
        return any(bool(x == 1 << i) for i in range(5))

    def havoc(self, loc):
        done = self.env.int("done", 0, MANY)
        self.env.assume(done <= loc["num_outputs"])
        if loc["rsig_type"] == 3:
            self.env.assume((done == 0) | (done == loc["num_outputs"]))
        return {"amount_batched": done, "batches": Groups(done)}

    def measure(self, loc):
        return loc["num_outputs"] - loc["amount_batched"]


SIZE = SizeLoop()


@contract("C23", "sym", targets=["agent_lite.generate_rsig_batch_sizes"], variants=[{"t": t} for t in (0, 1, 2, 3)], conc=0, aux=True)
def sizes_any(env, t):
    """any number of outputs (up to 2^40): loop invariant and termination; the groups sum to the number of outputs"""
    T.use_repo(env)
    SIZE.env = env
    m = env.mod(AG)
    if SIZE.missing:
        from pyvc.core import Undecided
        raise Undecided("generate_rsig_batch_sizes has no loop the invariant fits")
    n = env.int("n", 0, MANY)
    r = env.attempt(m.generate_rsig_batch_sizes, t, n)
    if r.exc is not None:
        env.check(t == 3 and bool(n > 16), "refused only if more than 16 outputs are asked for in one proof")
        return
    env.check(r.value.total == n, "groups cover all outputs")
    env.check(not r.value.new, "nothing is added after the loop")


def _prep():
    from pyvc.cut import cut_while
    cut_while(AG, "generate_rsig_batch_sizes", SIZE)


sizes_any.prepare = _prep


@contract("C23", "sym", targets=["agent_lite.generate_rsig_batch_sizes", "agent_lite.get_rsig_type"], variants=[{"lo": lo} for lo in range(0, 640, 80)], conc=1, conc_time=1)
def sizes(env, lo):
    """every number of outputs below 640 (far above what fits a transaction), every type, by evaluation of the real functions"""
    T.use_repo(env)
    m = env.mod(AG)
    for n in range(lo, lo + 80):
        for bp in (False, True):
            t = m.get_rsig_type(bp, n)
            g = m.generate_rsig_batch_sizes(t, n)
            env.check((t == 0) == (not bp), "legacy proofs exactly without bulletproofs")
            env.check(sum(g) == n and all(1 <= x <= 16 for x in g), "consecutive groups cover each output once")
            if not bp:
                env.check(g == [1] * n, "legacy proofs are single")
            elif n > 16:
                env.check(t == 2 and all(x & (x - 1) == 0 for x in g) and g == sorted(g, reverse=True) and g[0] == 16, "largest powers of two first")
            elif n:
                env.check(g == [n], "one proof up to 16 outputs")
        env.check(m.generate_rsig_batch_sizes(1, n) == [1] * n, "one proof per output")
        g = m.generate_rsig_batch_sizes(2, n)
        env.check(sum(g) == n and all(x in (1, 2, 4, 8, 16) for x in g) and g == sorted(g, reverse=True) and len(g) == n // 16 + bin(n % 16).count("1"), "largest powers of two first, for any number")
        if n > 16:
            env.refuses("more than 16 outputs in one proof", m.generate_rsig_batch_sizes, 3, n)
        for bad in (4, -1, 7):
            if n:
                env.refuses("unknown type", m.generate_rsig_batch_sizes, bad, n)


@contract("C23", "sym", targets=["agent_lite.get_rsig_type"], variants=[{"bp": b} for b in (False, True)], conc=5, conc_time=1)
def kind(env, bp):
    """any number of outputs: the chosen type admits it"""
    T.use_repo(env)
    m = env.mod(AG)
    n = env.int("n", 1, MANY)
    t = m.get_rsig_type(bp, n)
    env.check((t == 0) == (not bp), "legacy proofs exactly without bulletproofs")
    if bp:
        env.check(t in (2, 3), "aggregated proofs")
        env.check((t == 3) == bool(n <= 16), "one padded proof exactly up to 16 outputs")


# ---- position of an output in the groups, device side -------------------------------------------------------------
class Sum:
    """slice of the first r groups: only its sum is known"""
    def __init__(self, v):
        self.v = v

    def __iter__(self):
        return iter([self.v])


class AnyGroups(list):
    """any number k of positive group sizes; P(r) = sum of the first r"""
    def __init__(self, env, k):
        list.__init__(self)
        self.env, self.k = env, k
        self.pts = [(0, 0)]

    def P(self, r):
        env = self.env
        for x, v in self.pts:
            if x is r or bool(x == r):
                return v
        v = env.int("P", 0, MANY)
        for x, w in self.pts:
            # strictly increasing, at least one per group
            if bool(x < r):
                env.assume(v - w >= r - x)
            else:
                env.assume(w - v >= x - r)
        self.pts.append((r, v))
        return v

    def __len__(self):
        raise TypeError("length of a symbolic list")

    def __getitem__(self, r):
        env = self.env
        if isinstance(r, slice):
            assert r.start is None and r.step is None
            return Sum(self.P(r.stop))
        if not bool(r < self.k) or bool(r < 0):
            raise IndexError("list index out of range")
        a = self.P(r)
        return self.P(r + 1) - a


class PosLoop:
    local = ()
    found = missing = False
    env = grp = idx = None

    def inv(self, loc):
        r, c = loc["r"], loc["c"]
        before = self.grp.P(r - 1) if bool(r > 0) else -1
        return [(c == self.grp.P(r), "c is the sum of the first r groups"), (before <= self.idx, "no group is skipped"), (r <= self.grp.k, "inside the list")]

    def havoc(self, loc):
        r = self.env.int("r", 0, MANY)
        self.env.assume(r <= self.grp.k)
        c = self.grp.P(r)
        if bool(r > 0):
            self.env.assume(self.grp.P(r - 1) <= self.idx)
        return {"r": r, "c": c}

    def measure(self, loc):
        return self.grp.k - loc["r"]


POS = PosLoop()


@contract("C23", "sym", targets=["TTransactionBuilder._get_rsig_batch", "TTransactionBuilder._is_last_in_batch"], conc=0, aux=True)
def position_any(env):
    """any number of groups of any sizes, any output covered by them: the group found contains the output; it closes the group exactly if it is its last"""
    T.use_repo(env)
    env.mod(BLD)
    if POS.missing:
        from pyvc.core import Undecided
        raise Undecided("_get_rsig_batch has no loop the invariant fits")
    k = env.int("k", 1, MANY)
    g = AnyGroups(env, k)
    total = g.P(k)
    idx = env.int("idx", 0, MANY)
    env.assume(idx < total)
    POS.env, POS.grp, POS.idx = env, g, idx
    b = T.builder(env, None)
    b.rsig_grp = g
    r = b._get_rsig_batch(idx)
    env.check(env.all([r >= 0, r < k]), "a group of the list")
    env.check(env.all([g.P(r) <= idx, idx < g.P(r + 1)]), "the group contains the output")
    env.check(bool(b._is_last_in_batch(idx, r)) == bool(idx + 1 == g.P(r + 1)), "closes the group exactly if it is its last output")


def _prep2():
    from pyvc.cut import cut_while
    cut_while(BLD, "_get_rsig_batch", POS)


position_any.prepare = _prep2


@contract("C23", "sym", targets=["TTransactionBuilder._get_rsig_batch", "TTransactionBuilder._is_last_in_batch"], variants=[{"k": k} for k in range(1, 7)], conc=30, conc_time=2)
def position(env, k):
    """arbitrary sizes of up to six groups"""
    T.use_repo(env)
    g = [env.int("g%d" % i, 1, 2 ** 20 if env.symbolic else 20) for i in range(k)]
    tot = 0
    for x in g:
        tot = tot + x
    idx = env.int("idx", 0, 2 ** 24 if env.symbolic else sum(g) - 1)
    env.assume(idx < tot)
    b = T.builder(env, None)
    b.rsig_grp = list(g)
    r = b._get_rsig_batch(idx)
    lo = 0
    for x in g[:r]:
        lo = lo + x
    env.check(0 <= r < k and env.all([lo <= idx, idx < lo + g[r]]), "the group contains the output")
    env.check(bool(b._is_last_in_batch(idx)) == bool(idx + 1 == lo + g[r]), "closes the group exactly if it is its last output")
    env.check(bool(b._is_last_in_batch(idx, r)) == bool(idx + 1 == lo + g[r]), "same with the group given")


@contract("C23", "sym", targets=["TTransactionBuilder.check_grouping"], variants=[{"k": k} for k in range(0, 6)], conc=30, conc_time=2)
def accepted(env, k):
    """the device takes a list of integers exactly if it covers the outputs: positive sizes that sum to their number"""
    T.use_repo(env)
    g = [env.int("g%d" % i, -2 ** 31, 2 ** 31) for i in range(k)] if env.symbolic else [env.int("g%d" % i, -1, 5) for i in range(k)]
    n = env.int("n", 1, 2 ** 31 if env.symbolic else 9)
    b = T.builder(env, None)
    b.use_bulletproof, b.rsig_grp, b.output_count = True, list(g), n
    r = env.attempt(b.check_grouping)
    tot = 0
    for x in g:
        tot = tot + x
    good = all([bool(x > 0) for x in g]) and bool(tot == n)
    env.check((r.exc is None) == good, "accepted exactly if every output is covered once")


# ---- host and device walk the groups in step ------------------------------------------------------------------------
def gens():
    r = [(3, n) for n in (1, 2, 3, 4, 5, 8, 15, 16)] + [(2, n) for n in (1, 2, 3, 5, 7, 11, 16, 17, 19, 31, 32, 33, 40, 47)] + [(1, 1), (1, 2), (1, 5)]
    return r


class Pt:
    pass


@contract("C23", "alg", targets=["Agent._step_set_outputs", "Agent._v0_offloading", "Agent._v1_offloading", "Agent._rct_offload", "Agent._on_set_outputs_ack", "Agent._out_proc_range_proof",
                                 "TTransactionBuilder._get_rsig_batch", "TTransactionBuilder._is_last_in_batch"],
          variants=[{"t": t, "n": n, "mode": m} for t, n in gens() for m in ("v0", "v1", "device")], conc=1, conc_time=2)
def walk(env, t, n, mode):
    """symbolic amounts and masks: at every output the host treats the group as closed exactly if the device does, and the proof is over exactly the outputs of the group"""
    T.use_repo(env)
    ag, ms, xt, cr = env.mod(AG), env.mod("monero_glue.messages"), env.mod("monero_serialize.xmrtypes"), env.mod("monero_glue.xmr.crypto")
    rc, mi = env.mod("monero_glue.xmr.ring_ct"), env.mod("monero_glue.hwtoken.misc")
    ref = env.ref
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    grp = ag.generate_rsig_batch_sizes(t, n)
    b = T.builder(env, s.creds)
    b.rsig_grp, b.output_count = list(grp), n
    sent = []
    with T.BpStub(env) as bp:
        class Dev:
            async def tsx_sign(self, m):
                sent.append(m)
                return ms.MoneroTransactionSetOutputAck()
        a = ag.Agent(Dev(), network_type=0)
        a.hf, a.client_version = 10, 0 if mode == "v0" else 1
        a.ct = ag.TData()
        ct = a.ct
        ct.rsig_type, ct.rsig_batches = t, list(grp)
        ct.rsig_param = ms.MoneroTransactionRsigData(offload_type=0 if mode == "device" else 1)
        amounts = [env.int("a%d" % i, 1, 2 ** 62) for i in range(n)]
        masks = [env.scalar("m%d" % i) for i in range(n)]
        d0 = s.dests[0]
        dsts = [xt.TxDestinationEntry(original=b"", amount=x, is_subaddress=False, is_integrated=False, addr=d0.addr) for x in amounts]
        ct.tx_data = type("D", (), {"splitted_dsts": dsts})()
        ct.tsx_data = type("D", (), {"outputs": dsts})()
        ct.tx_out_entr_hmacs = [env.key("h") for _ in range(n)]
        if mode == "v0":
            ct.rsig_gamma = [cr.encodeint(x) for x in masks]
        outs = [cr.encodepoint(cr.gen_c(masks[i], amounts[i])) for i in range(n)]
        start = 0
        for idx in range(n):
            last = b._is_last_in_batch(idx)
            before = len(bp.made)
            m = env.run(a._step_set_outputs(idx, dsts[idx]))
            env.check(m.dst_entr_hmac == ct.tx_out_entr_hmacs[idx] and bool(m.dst_entr.amount == amounts[idx]), "output and tag of the position")
            if mode == "v0":
                env.check((m.rsig_data is not None) == last, "proof is sent exactly with the closing output")
            rsig = None
            if mode == "device" and last:
                q = env.run(rc.prove_range_bp_batch(amounts[start:idx + 1], masks[start:idx + 1]))
                rsig = env.run(mi.dump_msg(q))
            ack = ms.MoneroTransactionSetOutputAck(tx_out=ref.cat(b"\0\2", env.key("P")), vouti_hmac=env.key("vh"), out_pk=ref.cat(env.key("d"), outs[idx]), ecdh_info=env.bytes("e", 8))
            if mode == "device" and rsig is not None:
                ack.rsig_data = ms.MoneroTransactionRsigData(rsig=rsig)
            if mode == "v1":
                ack.rsig_data = ms.MoneroTransactionRsigData(mask=cr.encodeint(masks[idx]))
            ns = len(sent)
            env.run(a._on_set_outputs_ack(idx, dsts[idx], ack))
            if mode == "v1":
                env.check((len(sent) > ns) == last, "proof is sent exactly after the closing output")
            if last:
                V = bp.made[-1][1]
                env.check(len(bp.made) == before + 1 and len(V) == idx + 1 - start and all(bool(ref.pt(v) * 8 == ref.pt(o)) for v, o in zip(V, outs[start:idx + 1])),
                          "the proof is over the outputs of the group")
                start = idx + 1
            else:
                env.check(len(bp.made) == before, "no proof inside a group")
            k = b._get_rsig_batch(idx) + (1 if last else 0)
            env.check(ct.cur_batch_idx == k, "host counts the groups like the device")
        env.check(start == n and len(ct.tx_out_rsigs) == len(grp), "one proof per group")
