"""C04: outputs are the approved ones, change is the device's own, every commitment is range-proved once"""
from pyvc.run import contract
from contracts import txlib as T

BIG = 2 ** 20


def other(env, old, name="o"):
    k = env.key(name)
    env.assume(not bool(k == old))
    return k


def clone_dest(env, d):
    ms = env.mod("monero_glue.messages")
    return ms.MoneroTransactionDestinationEntry(
        amount=d.amount, addr=ms.MoneroAccountPublicAddress(spend_public_key=d.addr.spend_public_key, view_public_key=d.addr.view_public_key),
        is_subaddress=d.is_subaddress)


ADV = ("none", "index", "amount", "amount0", "spend", "view", "swapped", "is_subaddress", "fresh", "none_tag", "session", "purpose", "no_dest", "raw_tag")


@contract("C04", "alg", targets=["TTransactionBuilder.set_output", "TTransactionBuilder._s6_validate", "TTransactionBuilder.gen_hmac_tsxdest"],
          variants=[{"phase": p, "adv": a, "client": c} for p in ("INPUT_ALL_DONE", "OUTPUT") for a in ADV for c in (1, 0) if c or a in ("none", "amount", "index")], conc=2, conc_time=3,
          covers=lambda phase, adv, client: ["accepted", "last"] if adv == "none" else [])
def bound(env, phase, adv, client):
    """any number of outputs, any position: only the destination approved for exactly this position is processed, and what is committed to is its amount and address"""
    cr, ms = env.mod("monero_glue.xmr.crypto"), env.mod("monero_glue.messages")
    ref = env.ref
    first = phase == "INPUT_ALL_DONE"
    m = env.int("m", 1 if first else 2, BIG if env.symbolic else 12)
    out = env.int("out", -1 if first else 0, -1 if first else BIG if env.symbolic else m - 2)
    env.assume(out + 1 < m)
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    sub = env.choose("sub", [(0, 0), (0, 1)]) if adv == "none" else (0, 0)
    with T.BpStub(env) as bp:
        mid = T.Mid(env, s, phase, 1, m, 0, out, bp=2 if client else 1, client=client, npk=2)
        b = mid.b
        if not client:
            b.output_last_mask = env.scalar("lastmask")
            mid.tok.tsx_state = b.state_save()
        d = T.dest(env, s.who["A"], sub[0], sub[1], s.out_amounts[0])
        idx = out + 1
        t = clone_dest(env, d)
        if adv == "index":
            j = env.int("j", 0, BIG if env.symbolic else m - 1)
            env.assume(j < m)
            env.assume(not bool(j == idx))
            tag = env.run(b.gen_hmac_tsxdest(t, j))
        else:
            tag = env.run(b.gen_hmac_tsxdest(t, idx))
        if adv == "amount":
            x = env.int("x", 0, 2 ** 20)
            env.assume(not bool(x == d.amount))
            d.amount = x
        elif adv == "amount0":
            d.amount = 0
        elif adv == "spend":
            d.addr.spend_public_key = other(env, d.addr.spend_public_key)
        elif adv == "view":
            d.addr.view_public_key = other(env, d.addr.view_public_key)
        elif adv == "swapped":
            d.addr.spend_public_key, d.addr.view_public_key = d.addr.view_public_key, d.addr.spend_public_key
        elif adv == "is_subaddress":
            d.is_subaddress = not d.is_subaddress
        elif adv == "fresh":
            tag = other(env, tag)
        elif adv == "none_tag":
            tag = b""
        elif adv == "session":
            k = b.key_hmac
            b.key_hmac = other(env, k)
            tag = env.run(b.gen_hmac_tsxdest(t, idx))
            b.key_hmac = k
        elif adv == "purpose":
            f = env.choose("purpose", [lambda: env.run(b.gen_hmac_vouti(t, ref.cat(b"\0\2", env.key("x")), idx)), lambda: env.run(b.gen_hmac_vini(mid.src(0), mid.vini(0), idx)),
                                       lambda: cr.compute_hmac(b.hmac_key_txin_comm(idx), env.key("x"))])
            tag = f()
        elif adv == "raw_tag":
            tag = cr.compute_hmac(b.hmac_key_txdst(idx), env.key("x"))
        elif adv == "no_dest":
            d = None
        st0 = mid.tok.tsx_state
        hp, hm = st0.tx_prefix_hasher.copy(), mid.b.full_message_hasher.state_save()
        pk0, sum0, so0 = list(st0.output_pk), st0.summary_outs_money, ref.sc(st0.sumout)
        lm = st0.output_last_mask
        R = ref.pt(st0.r_pub)
        r, failed, st = mid.send(ms.MoneroTransactionSetOutputRequest(dst_entr=d, dst_entr_hmac=tag))
        if adv != "none":
            env.check(failed and st is None, "refused: " + adv)
            return
        env.check(not failed, "the approved destination is processed")
        if failed:
            return
        env.cover("accepted")
        last = bool(idx + 1 == m)
        if last:
            env.cover("last")
        # what was processed, read from the answer only
        a, D = ref.sc(s.who["A"].view_key_private), ref.sc(s.who["A"].spend_key_private)
        if sub == (0, 0):
            rr = ref.sc(b.r)
            h = ref.Hs(ref.enc(ref.G * (rr * a * 8)), ref.varint(idx))
            P = ref.G * (h + D)
        else:
            D = D + ref.Hs(b"SubAddr\0", ref.encs(a), ref.le(sub[0], 4), ref.le(sub[1], 4))
            h = ref.Hs(ref.enc(ref.G * (ref.sc(b.r) * (a * D) * 8)), ref.varint(idx))
            P = ref.G * (h + D)
        env.check(env.cbytes(r.tx_out) == ref.cat(b"\0\2", ref.enc(P)), "one-time key of the approved address at this position")
        ak = ref.encs(h)
        pk = env.cbytes(r.out_pk)
        if client:
            mask = ref.Hs(b"commitment_mask", ak)
            env.check(env.cbytes(r.ecdh_info) == ref.xor(ref.le(d.amount, 8), ref.keccak(b"amount", ak)[:8]), "encrypted amount")
        else:
            mask = ref.sc(lm) if last else ref.sc(b.det_comm_masks(idx))
            h1 = ref.Hs(ak)
            env.check(ref.dec_sc(env.cbytes(r.ecdh_info)[:32]) == mask + h1, "encrypted mask")
            env.check(ref.dec_sc(env.cbytes(r.ecdh_info)[32:]) == ref.S(d.amount) + ref.Hs(ref.encs(h1)), "encrypted amount")
        C = ref.G * mask + ref.H * ref.S(d.amount)
        env.check(pk[:32] == ref.enc(P) and ref.pt(pk[32:]) == C, "commitment is to the approved amount")
        # what is remembered for the transaction that is signed is what was answered
        env.check(len(st.output_pk) == len(pk0) + 1 and env.all([x == y for x, y in zip(pk0, st.output_pk)]) and bool(st.output_pk[-1] == pk[32:]), "commitments are collected in order")
        env.check(env.all([st.summary_outs_money == sum0 + d.amount]), "amount is counted")
        env.check(ref.sc(st.sumout) == so0 + mask, "mask is counted")
        if first:
            hp.update(ref.varint(m))
        hp.update(r.tx_out)
        env.check(hp.copy().digest() == st.tx_prefix_hasher.copy().digest(), "the output is hashed into the transaction")
        # range proof: nothing before the last, then a proof that covers it
        if last:
            env.check(len(bp.log) == 1 and bp.log[0][0] == "prove" and ref.pt(bp.log[0][1][-1]) * 8 == C, "range proof covers the commitment")
        else:
            env.check(not bp.log and ref.sc(st.output_masks[-1]) == mask and bool(st.output_amounts[-1] == d.amount), "opening is kept for the range proof")


CH = ("ours", "ours_sub", "foreign", "only_spend", "only_view", "missing", "swap", "other_account", "other_minor")


@contract("C04", "alg", targets=["TTransactionBuilder.check_change", "TTransactionBuilder.init_transaction", "addr.get_change_addr_idx"],
          variants=[{"what": w, "n": n, "pos": p, "account": a} for w in CH for n in (1, 2, 3) for p in range(n) for a in (0, 3) if w != "ours_sub" or a], conc=3, conc_time=3)
def change(env, what, n, pos, account):
    """the address called change is accepted only if it is the device's own address of the account; amounts arbitrary"""
    ref, cr = env.ref, env.mod("monero_glue.xmr.crypto")
    a = env.scalar("a")
    me = T.creds_of(env, a, env.scalar("b"))
    # creds with the same view key but other spend key, and the other way round
    o = env.scalar("o")
    ot = T.creds_of(env, o, env.scalar("ob"))
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    s.creds = me
    tok = s.token()
    env.assume(not bool(ref.sc(a) == ref.sc(o)))
    mine = T.addr_keys(env, me, account, 0)
    ch = {"ours": mine, "ours_sub": mine, "foreign": T.addr_keys(env, ot, account, 0),
          "only_spend": (mine[0], cr.encodepoint(env.point("p"))), "only_view": (cr.encodepoint(env.point("p")), mine[1]),
          "missing": mine, "swap": (mine[1], mine[0]), "other_account": T.addr_keys(env, me, account + 1, 0), "other_minor": T.addr_keys(env, me, account, 1)}[what]
    env.assume(what in ("ours", "ours_sub", "missing") or not bool(env.all([ch[0] == mine[0], ch[1] == mine[1]])))
    ms = env.mod("monero_glue.messages")
    outs = []
    for i in range(n):
        x = env.int("amount%d" % i, 0, 1000)
        if i == pos and what != "missing":
            sp, vw = ch
            sub = account != 0
        else:
            sp, vw = cr.encodepoint(env.point("sp%d" % i)), cr.encodepoint(env.point("vw%d" % i))
            sub = False
            env.assume(not bool(env.all([sp == ch[0], vw == ch[1]])))
        outs.append(ms.MoneroTransactionDestinationEntry(amount=x, addr=ms.MoneroAccountPublicAddress(spend_public_key=sp, view_public_key=vw), is_subaddress=sub))
    camount = env.int("camount", 0, 1000)
    cd = ms.MoneroTransactionDestinationEntry(amount=camount, addr=ms.MoneroAccountPublicAddress(spend_public_key=ch[0], view_public_key=ch[1]), is_subaddress=account != 0)
    td = T.tsx_data(env, outs, cd, account=account, payment_id=env.key("pid"))
    r = env.run(tok.tsx_sign(ms.MoneroTransactionInitRequest(version=0, address_n=[0x80000000], network_type=0, tsx_data=td)))
    failed = type(r).__name__ == "Failure"
    own = what in ("ours", "ours_sub")
    dummy = n == 2 and bool(camount == 0) and what == "missing"
    env.check(failed == (not (own or dummy)), "accepted exactly if the change address is ours and among the outputs, or nothing is changed")
    if failed:
        env.check(tok.tsx_state is None, "no session")
        return
    env.check(len(r.hmacs) == n, "one tag per output")


@contract("C04", "alg", targets=["TTransactionBuilder.init_transaction", "TTransactionBuilder.gen_hmac_tsxdest"], variants=[{"n": n} for n in (1, 2, 3, 4)], conc=2, conc_time=3)
def approved(env, n):
    """the tags given out at initialisation are those of the outputs shown to the user, at their positions, and nothing else"""
    ms, cr = env.mod("monero_glue.messages"), env.mod("monero_glue.xmr.crypto")
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    mine = T.dest(env, s.creds, 0, 0, env.int("a0", 1, 100))
    outs = [mine] + [T.dest(env, s.who["A"], 0, i, env.int("a%d" % i, 1, 100)) for i in range(1, n)]
    tok = s.token()
    td = T.tsx_data(env, outs, T.same_dest(env, mine), payment_id=env.key("pid"))
    r = env.run(tok.tsx_sign(ms.MoneroTransactionInitRequest(version=0, address_n=[0x80000000], network_type=0, tsx_data=td)))
    env.check(type(r).__name__ != "Failure", "accepted")
    shown = [e for e in tok.iface.log if e[0] == "confirm"]
    env.check(len(shown) == 1 and len(shown[0][1].outputs) == n, "shown to the user")
    b = T.builder(env, s.creds)
    b.state_load(tok.tsx_state)
    for i in range(n):
        env.check(env.all([shown[0][1].outputs[i].amount == outs[i].amount, shown[0][1].outputs[i].addr.spend_public_key == outs[i].addr.spend_public_key,
                           shown[0][1].outputs[i].addr.view_public_key == outs[i].addr.view_public_key]), "the shown output")
        env.check(env.run(b.gen_hmac_tsxdest(T.same_dest(env, outs[i]), i)) == r.hmacs[i], "tag of the shown output at its position")


@contract("C04", "alg", targets=["TTransactionBuilder.check_grouping", "TTransactionBuilder.init_transaction"],
          variants=[{"n": n, "k": k, "t": t} for n in (1, 2, 3, 4) for k in range(0, 5) for t in (1, 2, 3)], conc=6, conc_time=3)
def grouping(env, n, k, t):
    """the announced groups of range proofs have to cover each output exactly once"""
    ms = env.mod("monero_glue.messages")
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    mine = T.dest(env, s.creds, 0, 0, 7)
    outs = [mine] + [T.dest(env, s.who["A"], 0, i, 5) for i in range(1, n)]
    g = [env.int("g%d" % i, -3, 6) for i in range(k)]
    tok = s.token()
    td = T.tsx_data(env, outs, T.same_dest(env, mine), grouping=g, rsig_type=t, payment_id=env.key("pid"))
    tok.test_pb_msg = _nothing
    r = env.run(tok.tsx_sign(ms.MoneroTransactionInitRequest(version=0, address_n=[0x80000000], network_type=0, tsx_data=td)))
    failed = type(r).__name__ == "Failure"
    ok = all([bool(x > 0) for x in g]) and bool(sum(g) == n)
    env.check(failed == (not ok), "accepted exactly if the groups are not empty and cover each output once")


async def _nothing(msg):
    pass


@contract("C04", "alg", targets=["TTransactionBuilder.input_vini"], variants=[{}], conc=2, conc_time=3)
def no_proofs(env):
    """a transaction without range proofs is not processed"""
    n = env.int("n", 1, BIG if env.symbolic else 9)
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    with T.BpStub(env):
        mid = T.Mid(env, s, "INPUT_PERM", n, 2, -1, -1)
        mid.b.use_bulletproof, mid.b.rsig_type = False, 0
        mid.tok.tsx_state = mid.b.state_save()
        r, failed, st = mid.send(mid.msg("vini"))
    env.check(failed and st is None, "refused")


GROUPS = [[2], [1, 1], [3], [2, 1], [1, 2], [1, 1, 1], [4], [2, 2], [1, 3], [3, 1], [1, 1, 2]]


class AnyGroups:
    """a host that splits the outputs in the given groups"""
    def __init__(self, env, g):
        self.ag, self.g = env.mod("monero_glue.agent.agent_lite"), g

    def __enter__(self):
        self.old = self.ag.get_rsig_type, self.ag.generate_rsig_batch_sizes
        self.ag.get_rsig_type = lambda bp, n: 2
        self.ag.generate_rsig_batch_sizes = lambda rsig_type, n: list(self.g)

    def __exit__(self, *a):
        self.ag.get_rsig_type, self.ag.generate_rsig_batch_sizes = self.old


@contract("C04", "alg", targets=["TTransactionBuilder._s6_range_proof", "TTransactionBuilder._s6_rsig_bp", "TTransactionBuilder._s6_rsig_process_bp", "TTransactionBuilder._get_rsig_batch",
                                 "TTransactionBuilder._is_last_in_batch"],
          variants=[{"g": g, "hf": h, "client": c} for g in GROUPS for h, c in ((9, 0), (9, 1), (10, 1))], conc=1, conc_time=4)
def ranged(env, g, hf, client):
    """whole sessions, any grouping: the device made or verified exactly one proof for each commitment, before it signs"""
    n = sum(g)
    outs = [("me", "change"), ("A", (0, 0)), ("B", (0, 1)), ("A", (0, 2))][:n]
    s = T.Session(env, n_in=1, outs=outs)
    ref = env.ref
    with T.BpStub(env) as bp, AnyGroups(env, g):
        tok = s.token()
        dev = []

        def before(tap, msg):
            tap.mark = len(bp.log)

        def after(tap, msg, r):
            # what happened inside the device during this message
            dev.extend(bp.log[tap.mark:])
        tap = T.Tap(env, tok, before, after)
        tx = s.sign(hf, client, token=tap, agent=s.agent(tap, hf, client))
    pk = [env.cbytes(r.out_pk) for r in tap.resps if type(r).__name__ == "MoneroTransactionSetOutputAck" and r.out_pk]
    env.check(len(pk) == n, "one commitment per output")
    good = [e for e in dev if e[0] == "prove" or e[2]]
    V = [v for e in good for v in e[1]]
    env.check([len(e[1]) for e in good] == list(g) and len(good) == len(dev), "one proof for each group")
    env.check(len(V) == n and env.all([ref.pt(v) * 8 == ref.pt(p[32:]) for v, p in zip(V, pk)]), "each commitment is covered once, in order")


BADP = ("foreign", "earlier", "garbage", "field", "empty", "early", "twice", "none", "short", "later_amount")


@contract("C04", "alg", targets=["TTransactionBuilder._s6_rsig_process_bp", "TTransactionBuilder._s6_range_proof"],
          variants=[{"bad": b, "client": c, "g": g} for b in BADP for c in (0, 1) for g in ([3], [1, 2], [2, 1])], conc=1, conc_time=4)
def offloaded(env, bad, client, g):
    """a proof made by the host is accepted only if it verifies for exactly the commitments of its group"""
    outs = [("me", "change"), ("A", (0, 0)), ("B", (0, 1))]
    hf = 10 if client else 9
    s = T.Session(env, n_in=1, outs=outs)
    ms, ref, mi = env.mod("monero_glue.messages"), env.ref, env.mod("monero_glue.hwtoken.misc")
    rc, cr = env.mod("monero_glue.xmr.ring_ct"), env.mod("monero_glue.xmr.crypto")
    seen = []
    hit = []
    with T.BpStub(env) as bp, AnyGroups(env, g):
        def proof(msg):
            return T.kind(msg) in ("output", "offl") and msg.rsig_data is not None and msg.rsig_data.rsig is not None

        def before(tap, msg):
            if T.kind(msg) not in ("output", "offl"):
                return
            if not proof(msg):
                if bad == "early" and not hit and g != [3] and T.kind(msg) == "output" and tap.out == 0 and g[0] != 1:
                    hit.append(1)
                    q = env.run(rc.prove_range_bp_batch([s.out_amounts[0]], [env.scalar("m")]))
                    msg.rsig_data = ms.MoneroTransactionRsigData(rsig=mi.dump_rsig_bp(q))
                tap.out += 1
                return
            tap.out += T.kind(msg) == "output"
            p = env.cbytes(msg.rsig_data.rsig)
            seen.append(p)
            last = len(seen) == len(g)
            if bad in ("earlier",):
                if len(seen) == 2:
                    hit.append(1)
                    msg.rsig_data.rsig = seen[0]
                return
            if not last or bad in ("early", "twice"):
                return
            hit.append(1)
            if bad == "foreign":
                q = env.run(rc.prove_range_bp_batch([env.int("x", 1, 9) for _ in range(g[-1])], [env.scalar("m") for _ in range(g[-1])]))
                msg.rsig_data.rsig = mi.dump_rsig_bp(q)
            elif bad == "later_amount":
                x = env.int("x", 1, 9)
                q = env.run(rc.prove_range_bp_batch(s.out_amounts[3 - g[-1]:2] + [s.out_amounts[2] + x], [env.scalar("m") for _ in range(g[-1])]))
                msg.rsig_data.rsig = mi.dump_rsig_bp(q)
            elif bad == "garbage":
                msg.rsig_data.rsig = env.key("junk")
            elif bad == "field":
                k = env.key("other")
                f = 32 * env.choose("f", [0, 3, 5])
                env.assume(not bool(k == p[f:f + 32]))
                msg.rsig_data.rsig = ref.cat(p[:f], k, p[f + 32:]) if f else ref.cat(k, p[32:])
            elif bad == "empty":
                msg.rsig_data.rsig = b""
            elif bad == "none":
                msg.rsig_data = None
            elif bad == "short":
                msg.rsig_data.rsig = p[:-32]

        def after(tap, msg, r):
            if bad == "twice" and T.kind(msg) == "offl" and not hit:
                hit.append(1)
                tap.again = True
                return env.run(tok.tsx_sign(T.clone_msg(env, tap.msgs[-1])))
        tok = s.token()
        tap = T.Tap(env, tok, before, after)
        tap.out = 0
        r = env.attempt(lambda: s.sign(hf, client, token=tap, agent=s.agent(tap, hf, client)))
    if not hit:
        # the case does not arise with this grouping
        env.check(r.ok, "genuine session")
        return
    env.check(not r.ok and tok.tsx_state is None, "refused and destroyed: " + bad)
    env.check(not any(T.kind(m) in ("allout", "sign") for m in tap.msgs), "nothing is signed")
