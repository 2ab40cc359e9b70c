"""C03: the fee is inputs minus outputs, commitments balance"""
from pyvc.run import contract
from contracts import txlib as T

BIG = 2 ** 20
U64 = 2 ** 64 - 1


def load_state(env, mid, **kw):
    for k, v in kw.items():
        setattr(mid.b, k, v)
    mid.tok.tsx_state = mid.b.state_save()


@contract("C03", "alg", targets=["TTransactionBuilder.set_input", "TTransactionBuilder._gen_commitment"],
          variants=[{"phase": p, "sub": list(s), "client": c} for p in ("INP_CNT", "INPUT") for s in ((0, 0), (0, 1)) for c in (0, 1)], conc=2, conc_time=3,
          covers=lambda phase, sub, client: ["last", "more"])
def announced(env, phase, sub, client):
    """any number of inputs, any amount: exactly the announced amount is counted and committed to; the issued secrets open it"""
    cr, cp = env.mod("monero_glue.xmr.crypto"), env.mod("monero_glue.xmr.enc.chacha_poly")
    ref = env.ref
    first = phase == "INP_CNT"
    n = env.int("n", 1 if first else 2, BIG if env.symbolic else 12)
    inp = env.int("inp", -1 if first else 0, -1 if first else BIG if env.symbolic else n - 2)
    env.assume(inp + 1 < n)
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))], sub=[tuple(sub)])
    amount = env.int("amount", 0, U64)
    sin = env.int("sin0", 0, 2 ** 70)
    with T.BpStub(env):
        mid = T.Mid(env, s, phase, n, 2, inp, -1, bp=2 if client else 1, client=client)
        load_state(env, mid, summary_inputs_money=sin)
        b = mid.b
        s0 = ref.sc(b.sumpouts_alphas)
        m = mid.msg("input")
        m.src_entr.amount = amount
        r, failed, st = mid.send(m)
    env.check(not failed, "accepted")
    if failed:
        return
    idx = inp + 1
    last = bool(idx + 1 == n)
    env.cover("last" if last else "more")
    env.check(env.all([st.summary_inputs_money == sin + amount]), "exactly the announced amount is counted")
    alpha = ref.dec_sc(cp.decrypt_pack(b.enc_key_txin_alpha(idx), r.pseudo_out_alpha))
    env.check(ref.pt(r.pseudo_out) == ref.G * alpha + ref.H * ref.S(amount), "pseudo output commits to the announced amount under the sealed mask")
    env.check(ref.sc(st.sumpouts_alphas) == s0 + alpha, "mask is counted")
    env.check(env.cbytes(r.pseudo_out_hmac) == cr.compute_hmac(b.hmac_key_txin_comm(idx), r.pseudo_out), "tag of the pseudo output at its position")
    env.check(ref.dec_sc(cp.decrypt_pack(b.enc_key_spend(idx), r.spend_key)) == s.secret(0), "the sealed key spends the output")
    if last:
        env.check(env.all([st.input_last_amount == amount]), "amount of the last input is kept")
    else:
        env.check(env.all([st.input_last_amount == b.input_last_amount]), "amount of the last input is that of the last one")


@contract("C03", "alg", targets=["TTransactionBuilder.set_output"], variants=[{"phase": p, "client": c} for p in ("INPUT_ALL_DONE", "OUTPUT") for c in (0, 1)], conc=2, conc_time=3,
          covers=lambda phase, client: ["last", "more"])
def processed(env, phase, client):
    """any number of outputs, any amount up to 2^64-1"""
    ms, ref = env.mod("monero_glue.messages"), env.ref
    first = phase == "INPUT_ALL_DONE"
    m = env.int("m", 1 if first else 2, BIG if env.symbolic else 12)
    out = env.int("out", -1 if first else 0, -1 if first else BIG if env.symbolic else m - 2)
    env.assume(out + 1 < m)
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    amount = env.int("amount", 0, U64)
    sout = env.int("sout0", 0, 2 ** 70)
    with T.BpStub(env):
        mid = T.Mid(env, s, phase, 1, m, 0, out, bp=2 if client else 1, client=client)
        load_state(env, mid, summary_outs_money=sout, output_last_mask=None if client else env.scalar("lm"))
        d = T.dest(env, s.who["A"], 0, 0, amount)
        so = ref.sc(mid.b.sumout)
        st0 = mid.tok.tsx_state
        r, failed, st = mid.send(ms.MoneroTransactionSetOutputRequest(dst_entr=d, dst_entr_hmac=env.run(mid.b.gen_hmac_tsxdest(d, out + 1))))
    env.check(not failed, "accepted")
    if failed:
        return
    env.cover("last" if bool(out + 2 == m) else "more")
    env.check(env.all([st.summary_outs_money == sout + amount]), "exactly the approved amount is counted")
    C = ref.pt(env.cbytes(r.out_pk)[32:])
    env.check(C == ref.G * (ref.sc(st.sumout) - so) + ref.H * ref.S(amount), "the commitment is to this amount under the counted mask")


@contract("C03", "alg", targets=["TTransactionBuilder.all_out1_set", "TTransactionBuilder.get_fee"], variants=[{"npk": k, "client": c} for k in (1, 2, 3) for c in (0, 1)], conc=12, conc_time=5,
          covers=lambda npk, client: ["closed"])
def closed(env, npk, client):
    """the transaction is closed exactly if fee = inputs - outputs, for arbitrary totals; the reported fee is this"""
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    near = env.choose("near", [True, False]) if not env.symbolic else False
    sin = env.int("tin", 0, 2 ** 70)
    fee = env.int("tfee", 0, U64 if env.symbolic or not near else min(sin, U64))
    sout = env.int("tout", 0, 2 ** 70) if not near else sin - fee
    with T.BpStub(env):
        mid = T.Mid(env, s, "OUTPUT", 1, npk, 0, npk - 1, npk=npk, bp=2 if client else 1, client=client)
        load_state(env, mid, summary_inputs_money=sin, summary_outs_money=sout, fee=fee)
        r, failed, st = mid.send(mid.msg("allout"))
    ok = bool(fee == sin - sout)
    env.check(failed == (not ok), "closed exactly if inputs pay outputs and fee")
    if failed:
        env.check(st is None, "destroyed")
        return
    env.cover("closed")
    env.check(env.all([r.rv.txn_fee == fee, sin == sout + r.rv.txn_fee, sout <= sin]), "reported fee")


@contract("C03", "alg", targets=["TTransactionBuilder.init_transaction"], variants=[{"n": n, "hf": h} for n in (1, 2, 3) for h in (9, 10)], conc=3, conc_time=3)
def announced_fee(env, n, hf):
    """the fee of the session is the fee shown to the user, and it is what the signed message contains"""
    ms, ref, cr = env.mod("monero_glue.messages"), env.ref, env.mod("monero_glue.xmr.crypto")
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    fee = env.int("fee", 0, U64)
    mine = T.dest(env, s.creds, 0, 0, 7)
    outs = [mine] + [T.dest(env, s.who["A"], 0, i, 5) for i in range(1, n)]
    tok = s.token()
    td = T.tsx_data(env, outs, T.same_dest(env, mine), fee=fee, bp=2 if hf == 10 else 1, payment_id=env.key("pid"))
    r = env.run(tok.tsx_sign(ms.MoneroTransactionInitRequest(version=0, address_n=[0x80000000], network_type=0, tsx_data=td)))
    env.check(type(r).__name__ != "Failure", "accepted")
    st = tok.tsx_state
    shown = [e for e in tok.iface.log if e[0] == "confirm"][0][1]
    env.check(env.all([st.fee == fee, shown.fee == fee]), "fee of the session is the one shown")
    b = T.builder(env, s.creds)
    b.state_load(st)
    k = cr.get_keccak()
    k.update(ref.cat(ref.varint(4 if hf == 10 else 3), ref.varint(fee)))
    env.check(b.full_message_hasher.rtcsig_hasher.get_digest() == k.digest(), "fee is in the message that is signed")


@contract("C03", "alg", targets=["TTransactionBuilder.sign_input"], variants=[{"phase": p, "client": c, "m": m} for p in ("FINAL_MESSAGE", "SIGNATURE") for c, m in ((1, 0), (0, 0))], conc=3, conc_time=3,
          covers=lambda phase, client, m: ["signed", "final"])
def signed(env, phase, client, m):
    """signing: pseudo output is to the amount of the input; the last announced one is corrected so that sums agree; nothing is finished with different sums"""
    ref = env.ref
    first = phase == "FINAL_MESSAGE"
    n = env.int("n", 1 if first else 2, BIG if env.symbolic else 12)
    inp = env.int("inp", -1 if first else 0, -1 if first else BIG if env.symbolic else n - 2)
    env.assume(inp + 1 < n)
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    equal = env.choose("sums", [True, False])
    with T.BpStub(env):
        mid = T.Mid(env, s, phase, n, 2, inp, -1, bp=2 if client else 1, client=client, sums_ok=equal)
        b = mid.b
        due = mid.perm_at(inp + 1)
        msg = mid.msg("sign")
        cp = env.mod("monero_glue.xmr.enc.chacha_poly")
        alpha = ref.dec_sc(cp.decrypt_pack(b.enc_key_txin_alpha(due), msg.pseudo_out_alpha))
        sp, so = ref.sc(b.sumpouts_alphas), ref.sc(b.sumout)
        env.assume(equal or not bool(sp == so))
        corrected = client and bool(due + 1 == n)
        last = bool(inp + 2 == n)
        r, failed, st = mid.send(msg)
    env.check(failed == bool(not equal and last and not corrected), "refused exactly if the sums still differ at the end")
    if failed:
        return
    env.cover("signed")
    a = alpha + (so - sp) if corrected else alpha
    env.check(ref.pt(r.pseudo_out) == ref.G * a + ref.H * ref.S(s.in_amounts[0]), "pseudo output commits to the amount of the input")
    env.check(ref.sc(st.sumpouts_alphas) == (so if corrected else sp) and ref.sc(st.sumout) == so, "sum of masks follows the correction")
    if last:
        env.cover("final")
        env.check(ref.sc(st.sumpouts_alphas) == ref.sc(st.sumout), "sums agree at the end")


@contract("C03", "alg", targets=["TTransactionBuilder._compute_masks", "TTransactionBuilder.all_in_set"],
          variants=[{"m": m, "off": o} for m in range(1, 17) for o in (False, True)], conc=1, conc_time=3)
def masks(env, m, off):
    """masks fixed in advance (client 0): for every number of outputs they add up to the sum of the input masks"""
    ref = env.ref
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    with T.BpStub(env):
        mid = T.Mid(env, s, "INPUT_VINS", 1, m, 0, -1, bp=1, client=0, offload=off)
        b = mid.b
        sp = ref.sc(b.sumpouts_alphas)
        r, failed, st = mid.send(mid.msg("allin"))
    env.check(not failed, "accepted")
    env.check(ref.sc(st.sumout) == ref.S(0), "sum of output masks starts at zero")
    total = ref.S(0)
    for i in range(m):
        x = ref.sc(b.det_comm_masks(i)) if i + 1 < m else ref.sc(st.output_last_mask)
        total = total + x
        if off:
            env.check(ref.dec_sc(env.cbytes(r.rsig_data.mask)[32 * i:32 * i + 32]) == x, "masks told to the host are those of the outputs")
    env.check(total == sp, "masks of outputs add up to masks of inputs")


@contract("C03", "alg", targets=["TTransactionBuilder.*", "agent_lite.Agent.sign_transaction_data"],
          variants=[{"n_in": n, "n_out": m, "hf": h, "client": c} for n, m in ((1, 2), (2, 2), (3, 1), (2, 3), (1, 4)) for h, c in ((9, 0), (9, 1), (10, 1))],
          conc=3, conc_time=8)
def balance(env, n_in, n_out, hf, client):
    """whole sessions: the commitments of the finished transaction balance"""
    outs = [("A", (0, 0)), ("me", "change"), ("B", (0, 1)), ("A", (0, 2))][:n_out]
    # a single recipient: a sweep, with a second output without value
    s = sweep(env, n_in) if n_out == 1 else T.Session(env, n_in=n_in, outs=outs, change=True, big=not env.symbolic)
    if not env.symbolic:
        env.assume(sum(s.in_amounts) - sum(s.out_amounts) >= 0)
    with T.BpStub(env) as bp:
        tx = s.sign(hf, client)
    s.check_balance(tx)
    s.check_ranges(tx, bp)


def sweep(env, n_in):
    s = T.Session(env, n_in=n_in, outs=[("A", (0, 0)), ("B", (0, 0))], change=True, big=not env.symbolic)
    s.dests[1].amount = 0
    s.out_amounts[1] = 0
    return s


@contract("C03", "alg", targets=["TTransactionBuilder.all_out1_set"], variants=[{"k": k} for k in ("less", "more")], conc=4, conc_time=5)
def refused(env, k):
    """the host announces another fee than inputs minus outputs"""
    s = T.Session(env, n_in=1, outs=[("A", (0, 0)), ("me", "change")])
    hit = []

    def before(tap, msg):
        if T.kind(msg) == "init":
            d = env.int("d", 1, 40)
            msg.tsx_data.fee = msg.tsx_data.fee + (d if k == "more" else -d)
            env.assume(msg.tsx_data.fee >= 0)
            hit.append(1)
    with T.BpStub(env):
        tok = s.token()
        tap = T.Tap(env, tok, before)
        r = env.attempt(lambda: s.sign(token=tap, agent=s.agent(tap)))
    env.check(bool(hit) and not r.ok and tok.tsx_state is None, "refused")
    env.check(not any(T.kind(x) == "sign" for x in tap.msgs), "nothing is signed")
