"""C27: the host assembles exactly what the device authorised"""
from pyvc.run import contract
from contracts import txlib as T

HC = ((9, 0), (9, 1), (10, 1))
OUTS = [("A", (0, 0)), ("me", "change"), ("B", (0, 1)), ("A", (0, 2)), ("B", (0, 0)), ("A", (1, 1)), ("A", (0, 0))]


class Grouped:
    """the host splits the outputs as it does for more than sixteen of them"""
    def __init__(self, env, on=True):
        self.ag, self.on = env.mod("monero_glue.agent.agent_lite"), on

    def __enter__(self):
        self.old = self.ag.get_rsig_type
        if self.on:
            self.ag.get_rsig_type = lambda bp, n: 2

    def __exit__(self, *a):
        self.ag.get_rsig_type = self.old


def whole(env, s, tx, bp, hf, client):
    s.check_structure(tx)
    s.check_inputs(tx)
    s.check_signatures(tx)
    s.check_balance(tx)
    s.check_outputs(tx, det=not (hf == 9 and client == 0))
    s.check_ranges(tx, bp)


@contract("C27", "alg", targets=["agent_lite.Agent.sign_transaction_data"],
          variants=[{"n_in": n, "n_out": m, "hf": h, "client": c} for n in (1, 2) for m in (2, 3) for h, c in HC] + [{"n_in": 3, "n_out": 2, "hf": 10, "client": 1}], conc=2, conc_time=8)
def honest(env, n_in, n_out, hf, client):
    s = T.Session(env, n_in=n_in, outs=OUTS[:n_out])
    with T.BpStub(env) as bp:
        whole(env, s, s.sign(hf, client), bp, hf, client)


@contract("C27", "alg", targets=["agent_lite.Agent._rct_offload", "agent_lite.Agent._v0_offloading", "agent_lite.Agent._v1_offloading",
                                 "agent_lite.Agent._on_set_outputs_ack", "agent_lite.Agent._out_proc_range_proof"],
          variants=[{"n_out": m, "hf": h, "client": c} for m in (2, 3, 5, 6, 7) for h, c in HC], conc=1, conc_time=8)
def groups(env, n_out, hf, client):
    """several groups of range proofs"""
    s = T.Session(env, n_in=1, outs=OUTS[:n_out])
    with T.BpStub(env) as bp, Grouped(env):
        tx = s.sign(hf, client)
        whole(env, s, tx, bp, hf, client)
        env.check([len(q.V) for q in tx.rct_signatures.p.bulletproofs] == {2: [2], 3: [2, 1], 5: [4, 1], 6: [4, 2], 7: [4, 2, 1]}[n_out], "one proof per group, in order")


GROUPS = [[1, 1], [2, 1], [1, 2], [3], [1, 1, 1], [2, 2], [1, 3], [3, 1], [2, 1, 1], [1, 1, 2]]


@contract("C27", "alg", targets=["agent_lite.Agent._on_set_outputs_ack", "agent_lite.Agent._out_proc_range_proof", "agent_lite.Agent._rct_offload"],
          variants=[{"g": g, "hf": h, "client": c, "off": o} for g in GROUPS for h, c in HC for o in (0, 1)], conc=1, conc_time=4)
def any_groups(env, g, hf, client, off):
    """host side alone, any grouping, proofs by the device or by the host: every proof speaks of the commitments of its own group"""
    n = sum(g)
    s = T.Session(env, n_in=1, outs=[OUTS[i] for i in range(n)])
    al, ms, cr, xt = env.mod("monero_glue.agent.agent_lite"), env.mod("monero_glue.messages"), env.mod("monero_glue.xmr.crypto"), env.mod("monero_serialize.xmrtypes")
    mi = env.mod("monero_glue.hwtoken.misc")
    ref = env.ref
    masks = [env.scalar("m%d" % i) for i in range(n)]
    amounts = s.out_amounts
    got = []

    class Dev:
        async def tsx_sign(self, msg):
            got.append(msg)
            return ms.MoneroTransactionSetOutputAck()
    with T.BpStub(env) as bp:
        a = al.Agent(Dev(), network_type=0)
        a.hf, a.client_version = hf, client
        a.ct = al.TData()
        a.ct.tx_data = s.construction()
        a.ct.rsig_type, a.ct.rsig_batches = 2, list(g)
        a.ct.rsig_param = ms.MoneroTransactionRsigData(offload_type=off)
        a.ct.tx_out_entr_hmacs = [env.key("h") for _ in range(n)]
        if client == 0 and off:
            env.run(a._on_all_input_set(ms.MoneroTransactionAllInputsSetAck(rsig_data=ms.MoneroTransactionRsigData(mask=ref.cat(*[cr.encodeint(x) for x in masks])))))
        P, proofs = [], []
        end = [sum(g[:i + 1]) - 1 for i in range(len(g))]
        for i, d in enumerate(s.dests):
            msg = env.run(a._step_set_outputs(i, d))
            if msg.rsig_data is not None:
                got.append(msg)
            pk = env.key("pk%d" % i)
            com = cr.encodepoint(cr.gen_c(masks[i], amounts[i]))
            P.append((pk, com))
            rs = ms.MoneroTransactionRsigData()
            if off and client:
                rs.mask = cr.encodeint(masks[i])
            if not off and i in end:
                lo = i + 1 - g[end.index(i)]
                q = env.run(env.mod("monero_glue.xmr.ring_ct").prove_range_bp_batch(amounts[lo:i + 1], masks[lo:i + 1]))
                proofs.append(q)
                rs.rsig = mi.dump_rsig_bp(q)
            ecdh = env.bytes("ecdh%d" % i, 8 if hf == 10 else 64)
            ack = ms.MoneroTransactionSetOutputAck(tx_out=ref.cat(b"\x00\x02", pk), vouti_hmac=b"", rsig_data=rs, out_pk=ref.cat(pk, com), ecdh_info=ecdh)
            env.run(a._on_set_outputs_ack(i, d, ack))
        sent = [m for m in got if m.rsig_data is not None]
        env.check(len(sent) == (len(g) if off else 0), "one offloaded proof per group")
        bps = a.ct.tx_out_rsigs
        env.check(len(bps) == len(g), "one proof per group")
        V = [v for q in bps for v in q.V]
        env.check(len(V) == n and env.all([ref.pt(v) * 8 == ref.pt(c) for v, (k, c) in zip(V, P)]), "proofs speak of the commitments of their group")
        env.check([len(q.V) for q in bps] == list(g), "sizes of the groups")
        env.check(all(bp.good(q) for q in bps), "proofs are valid")
        env.check(env.all([o.target.key == k for o, (k, c) in zip(a.ct.tx.vout, P)] + [o.mask == c for o, (k, c) in zip(a.ct.tx_out_pk, P)]), "outputs in the order of the answers")


def steps(n_in, n_out):
    return 1 + n_in + 1 + n_in + 1 + n_out + (1 if n_out > 2 else 0) + 1 + n_in + 1


@contract("C27", "alg", targets=["agent_lite.Agent.sign_transaction_data", "agent_lite.Agent.handle_error", "agent_lite.Agent._v1_offloading"],
          variants=[{"n_in": n, "n_out": m, "what": w} for n, m in ((1, 2), (2, 2), (1, 3)) for w in ("failure", "error", "raises", "device")], conc=1, conc_time=6)
def failure(env, n_in, n_out, what):
    """a failure at any step ends the process: no further message, no transaction"""
    s = T.Session(env, n_in=n_in, outs=OUTS[:n_out])
    ms = env.mod("monero_glue.messages")
    tm = env.mod("monero_glue.messages.Failure")
    src = list(s.sources)
    for k in range(steps(n_in, n_out)):
        s.sources = list(src)
        tok = s.token()
        with T.BpStub(env):
            class Stop(Exception):
                pass

            def before(tap, msg):
                if tap.n == k and what == "raises":
                    raise Stop()
                if tap.n == k and what == "device":
                    tok.tsx_state = None

            def after(tap, msg, r):
                if tap.n == k and what == "failure":
                    return tm.Failure(message="no")
                if tap.n == k and what == "error":
                    return env.mod("monero_glue.hwtoken.misc").TError(exc=ValueError("no"))
            tap = T.Tap(env, tok, before=before, after=after)
            if what == "device" and k == 0:
                continue
            a = s.agent(tap)
            r = env.attempt(lambda: s.sign(token=tap, agent=a))
        env.check(not r.ok, "no transaction after a failure")
        env.check(tap.n == k, "no further message after a failure")


TAMPER = {
    "vini": ("MoneroTransactionSetInputAck", "vini"), "txout": ("MoneroTransactionSetOutputAck", "tx_out"), "outpk": ("MoneroTransactionSetOutputAck", "out_pk"),
    "ecdh": ("MoneroTransactionSetOutputAck", "ecdh_info"), "extra": ("MoneroTransactionAllOutSetAck", "extra"),
    "phash": ("MoneroTransactionAllOutSetAck", "tx_prefix_hash"), "mhash": ("MoneroTransactionAllOutSetAck", "full_message_hash"),
    "fee": ("MoneroTransactionAllOutSetAck", "rv"), "type": ("MoneroTransactionAllOutSetAck", "rv"), "message": ("MoneroTransactionAllOutSetAck", "rv"),
    "rsig": ("MoneroTransactionSetOutputAck", "rsig_data"), "dup": ("MoneroTransactionSetOutputAck", None),
}


@contract("C27", "alg", targets=["agent_lite.Agent.sign_transaction_data", "monero.get_transaction_prefix_hash", "monero.get_pre_mlsag_hash"],
          variants=[{"what": w, "hf": h} for w in TAMPER for h in (9, 10)], conc=2, conc_time=6)
def tampered(env, what, hf):
    """answers of the device that do not fit together are refused before anything is signed"""
    cls, field = TAMPER[what]
    s = T.Session(env, n_in=1, outs=OUTS[:2])
    ref = env.ref
    hit = []
    first = []

    def flip(b, pos):
        """another value at that place"""
        other = env.key("other")
        n = len(b)
        if pos < 0:
            pos += n
        w = min(32, n - pos)
        env.assume(not bool(env.cbytes(b[pos:pos + w]) == other[:w]))
        return ref.cat(env.cbytes(b[:pos]), other[:w], env.cbytes(b[pos + w:]))
    which = env.choose("which", [0, 1])

    def after(tap, msg, r):
        if type(r).__name__ != cls:
            return
        hit.append(1)
        if what == "dup":
            first.append(r)
            if len(hit) == 2:
                return first[0]
            return
        if cls == "MoneroTransactionSetOutputAck" and len(hit) != which + 1 and what != "rsig":
            return
        if what == "vini":
            r.vini = flip(r.vini, -32)
        elif what == "txout":
            r.tx_out = flip(r.tx_out, 2)
        elif what == "outpk":
            r.out_pk = flip(r.out_pk, 32)
        elif what == "ecdh":
            r.ecdh_info = flip(r.ecdh_info, 0)
        elif what == "extra":
            r.extra = flip(r.extra, -32)
        elif what == "phash":
            r.tx_prefix_hash = flip(r.tx_prefix_hash, 0)
        elif what == "mhash":
            r.full_message_hash = flip(r.full_message_hash, 0)
        elif what == "fee":
            r.rv.txn_fee = r.rv.txn_fee + 1
        elif what == "message":
            r.rv.message = flip(r.rv.message, 0)
        elif what == "type":
            r.rv.rv_type = 7 - r.rv.rv_type
        elif what == "rsig":
            if r.rsig_data and r.rsig_data.rsig:
                r.rsig_data.rsig = flip(r.rsig_data.rsig, 32 * env.choose("field", [0, 1, 2, 3, 4, 5]))
    with T.BpStub(env):
        tap = T.Tap(env, s.token(), after=after)
        r = env.attempt(lambda: s.sign(hf, 1, token=tap, agent=s.agent(tap, hf, 1)))
    env.check(bool(hit), "the answer is given")
    env.check(not r.ok, "inconsistent answers are refused")
    if what != "vini":
        env.check(not any(T.kind(m) == "sign" for m in tap.msgs), "no signature is asked for")


@contract("C27", "alg", targets=["agent_lite.Agent.serialize_tx", "agent_lite.Agent.sign_tx"],
          variants=[{"n_in": n, "n_out": m, "hf": h, "client": c} for n, m in ((1, 2), (2, 2), (1, 3)) for h, c in HC], conc=1, conc_time=8)
def serialized(env, n_in, n_out, hf, client):
    """the bytes given out are the canonical serialization"""
    s = T.Session(env, n_in=n_in, outs=OUTS[:n_out])
    ref = env.ref
    with T.BpStub(env):
        tok = s.token()
        s.all_sources = list(s.sources)
        a = s.agent(tok, hf, client)
        blobs = env.run(a.sign_tx(s.construction()))
    tx = a.ct.tx
    rv = tx.rct_signatures
    env.check(len(blobs) == 1, "one transaction")
    p = [s.prefix_bytes(tx), ref.varint(rv.type), ref.varint(rv.txnFee)]
    for e in rv.ecdhInfo:
        p += [env.cbytes(e.amount[:8])] if rv.type == 4 else [e.mask, e.amount]
    p += [o.mask for o in rv.outPk]
    nb = len(rv.p.bulletproofs)
    p.append(ref.varint(nb) if rv.type == 4 else ref.le(nb, 4))
    for q in rv.p.bulletproofs:
        p += [q.A, q.S, q.T1, q.T2, q.taux, q.mu, ref.varint(len(q.L))] + list(q.L) + [ref.varint(len(q.R))] + list(q.R) + [q.a, q.b, q.t]
    for mg in rv.p.MGs:
        for row in mg.ss:
            p += list(row)
        p.append(mg.cc)
    p += list(rv.p.pseudoOuts)
    env.check(env.cbytes(blobs[0]) == ref.cat(*[env.cbytes(x) for x in p]), "serialized transaction")
