"""shared builders for transaction contracts"""

BLD = "monero_glue.protocol.tsx_sign_builder"


class Iface:
    """records what the device shows; always confirms unless told otherwise"""
    def __init__(self, confirm=True):
        self.confirm = confirm
        self.log = []

    async def confirm_transaction(self, tsx_data, creds=None):
        self.log.append(("confirm", tsx_data))
        return self.confirm

    async def transaction_step(self, *a, **k):
        self.log.append(("step",) + a)

    async def transaction_error(self, *a, **k):
        self.log.append(("error",))

    async def transaction_signed(self, *a, **k):
        self.log.append(("signed",))

    async def transaction_finished(self, *a, **k):
        self.log.append(("finished",))


class Trezor:
    def __init__(self, confirm=True):
        self.iface = Iface(confirm)


def use_repo(env):
    import os
    import sys
    repo = os.environ.get("PYVC_REPO", "/repo")
    if repo not in sys.path:
        sys.path.insert(0, repo)


def creds_of(env, a, b, net=0):
    cr = env.mod("monero_glue.xmr.crypto")
    cm = env.mod("monero_glue.xmr.sub.creds")
    return cm.AccountCreds(view_key_private=a, spend_key_private=b, view_key_public=cr.scalarmult_base(a),
                           spend_key_public=cr.scalarmult_base(b), network_type=net)


def addr_keys(env, creds, M, m):
    """encoded (spend, view) public keys of a subaddress"""
    mo, cr = env.mod("monero_glue.xmr.monero"), env.mod("monero_glue.xmr.crypto")
    D, C = mo.generate_sub_address_keys(creds.view_key_private, creds.spend_key_public, M, m)
    return cr.encodepoint(D), cr.encodepoint(C)


def dest(env, creds, M, m, amount):
    ms = env.mod("monero_glue.messages")
    D, C = addr_keys(env, creds, M, m)
    return ms.MoneroTransactionDestinationEntry(
        amount=amount, addr=ms.MoneroAccountPublicAddress(spend_public_key=D, view_public_key=C), is_subaddress=(M, m) != (0, 0))


def same_dest(env, d):
    ms = env.mod("monero_glue.messages")
    return ms.MoneroTransactionDestinationEntry(
        amount=d.amount, addr=ms.MoneroAccountPublicAddress(spend_public_key=d.addr.spend_public_key, view_public_key=d.addr.view_public_key),
        is_subaddress=d.is_subaddress)


def tsx_data(env, outputs, change=None, num_inputs=1, fee=0, account=0, grouping=None, rsig_type=3, bp=2, client=1, payment_id=b"",
             minor=(0,), mixin=1, unlock=0):
    ms = env.mod("monero_glue.messages")
    n = len(outputs)
    return ms.MoneroTransactionData(
        version=0, payment_id=payment_id, unlock_time=unlock, outputs=outputs, change_dts=change, num_inputs=num_inputs, mixin=mixin,
        fee=fee, account=account, minor_indices=list(minor), client_version=client,
        rsig_data=ms.MoneroTransactionRsigData(rsig_type=rsig_type, grouping=[n] if grouping is None else grouping, bp_version=bp))


def builder(env, creds, confirm=True):
    use_repo(env)
    b = env.mod(BLD)
    return b.TTransactionBuilder(Trezor(confirm), creds)


# ---- whole signing sessions ------------------------------------------------------------------------------
class BpStub:
    """contract of the range prover and verifier (C09): a proof made for amounts and masks carries their commitments
    divided by eight and verifies for exactly these"""
    NAMES = ("prove_range_bp_batch", "verify_bp", "ver_range")

    def __init__(self, env):
        self.env = env
        self.rc = env.mod("monero_glue.xmr.ring_ct")
        self.made = []
        self.log = []
        self.key = env.key

    def commits(self, amounts, masks):
        cr = self.env.mod("monero_glue.xmr.crypto")
        return [cr.encodepoint(cr.scalarmult(cr.gen_c(m, a), cr.sc_inv_eight())) for a, m in zip(amounts, masks)]

    def __enter__(self):
        self.old = {n: getattr(self.rc, n) for n in self.NAMES}
        env = self.env
        xt = env.mod("monero_serialize.xmrtypes")

        async def prove_range_bp_batch(amounts, masks):
            if not amounts or len(amounts) != len(masks):
                raise ValueError("amounts and masks")
            V = self.commits(amounts, masks)
            k = [self.key("bp") for _ in range(13)]
            bp = xt.Bulletproof(V=V, A=k[0], S=k[1], T1=k[2], T2=k[3], taux=k[4], mu=k[5], L=[k[6], k[7]], R=[k[8], k[9]], a=k[10], b=k[11], t=k[12])
            self.made.append((list(k), list(V)))
            self.log.append(("prove", V))
            return bp

        def good(bp):
            m = None
            for k, V in self.made:
                if bool(k[0] == bp.A):
                    m = (k, V)
            if m is None or len(bp.L) != 2 or len(bp.R) != 2 or len(bp.V) != len(m[1]):
                return False
            f = [bp.A, bp.S, bp.T1, bp.T2, bp.taux, bp.mu] + list(bp.L) + list(bp.R) + [bp.a, bp.b, bp.t]
            return all(bool(x == y) for x, y in zip(f, m[0])) and all(bool(x == y) for x, y in zip(bp.V, m[1]))

        async def verify_bp(bp, amounts=None, masks=None):
            if amounts:
                bp.V = self.commits(amounts, masks)
            ok = good(bp)
            self.log.append(("verify", bp.V, ok))
            return ok

        def ver_range(C=None, rsig=None, use_bulletproof=False, decode=True):
            return good(rsig)
        self.good = good
        self.rc.prove_range_bp_batch, self.rc.verify_bp, self.rc.ver_range = prove_range_bp_batch, verify_bp, ver_range
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(self.rc, n, f)


class Session:
    """a wallet, inputs it owns, destinations, and everything needed to sign with the real device and host code"""

    def __init__(self, env, n_in=1, outs=(("A", (0, 0)),), account=0, ring=2, sub=None, amount_max=100, change=True, big=False, real=None, same_key=None):
        use_repo(env)
        self.env = env
        cr, mo = env.mod("monero_glue.xmr.crypto"), env.mod("monero_glue.xmr.monero")
        xt = env.mod("monero_serialize.xmrtypes")
        self.ref = env.ref
        self.account = account
        self.who = {w: creds_of(env, env.scalar("a" + w), env.scalar("b" + w)) for w in sorted({"me"} | {o[0] for o in outs})}
        me = self.who["me"]
        self.creds = me
        me.address = b""
        subs = list(sub) if sub is not None else [(account, 0)] * n_in
        self.minors = sorted({m for M, m in subs} | {0})
        hi = 2 ** 62 if big else amount_max
        self.in_amounts = [env.int("in%d" % i, amount_max * (len(outs) + 3) if not big else 1, amount_max * (len(outs) + 4) if not big else hi) for i in range(n_in)]
        self.out_amounts = [env.int("out%d" % i, 1, hi) for i in range(len(outs))]
        self.sources = []
        self.secrets = []
        for i in range(n_in):
            r = env.scalar("r%d" % i)
            M, m = subs[i]
            D, C = mo.generate_sub_address_keys(me.view_key_private, me.spend_key_public, M, m)
            R = cr.scalarmult_base(r) if (M, m) == (0, 0) else cr.scalarmult(D, r)
            der = cr.generate_key_derivation(C, r)
            pos = i
            P = cr.derive_public_key(der, pos, D)
            mask = env.scalar("mask%d" % i)
            k = (i % ring) if real is None else real[i]
            outputs = []
            for j in range(ring):
                if j == k:
                    ck = xt.CtKey(dest=cr.encodepoint(P), mask=cr.encodepoint(cr.gen_c(mask, self.in_amounts[i])))
                else:
                    ck = xt.CtKey(dest=cr.encodepoint(env.point("mixp%d_%d" % (i, j))), mask=cr.encodepoint(env.point("mixc%d_%d" % (i, j))))
                outputs.append((5 + 7 * j + i, ck))
            self.sources.append(xt.TxSourceEntry(
                outputs=outputs, real_output=k, real_out_tx_key=cr.encodepoint(R), real_out_additional_tx_keys=[], real_output_in_tx_index=pos,
                amount=self.in_amounts[i], rct=True, mask=cr.encodeint(mask), multisig_kLRki=None))
            self.secrets.append((der, pos, M, m, mask))
        self.dests = []
        self.kinds = outs
        self.change = None
        for i, (w, s) in enumerate(outs):
            isch = s == "change"
            s = (account, 0) if isch else s
            D, C = addr_keys(env, self.who[w], *s)
            d = xt.TxDestinationEntry(original=b"", amount=self.out_amounts[i], is_subaddress=s != (0, 0), is_integrated=False,
                                      addr=xt.AccountPublicAddress(m_spend_public_key=D, m_view_public_key=C))
            self.dests.append(d)
            if isch:
                self.change = d
        if self.change is None and change:
            D, C = addr_keys(env, me, account, 0)
            self.change = xt.TxDestinationEntry(original=b"", amount=0, is_subaddress=account != 0, is_integrated=False,
                                                addr=xt.AccountPublicAddress(m_spend_public_key=D, m_view_public_key=C))

    def construction(self, extra=b"", bulletproofs=True, unlock=0):
        xt = self.env.mod("monero_serialize.xmrtypes")
        return xt.TxConstructionData(
            sources=list(self.sources), change_dts=self.change, splitted_dsts=list(self.dests), selected_transfers=[], extra=extra, unlock_time=unlock,
            use_rct=True, use_bulletproofs=bulletproofs, dests=list(self.dests), subaddr_account=self.account, subaddr_indices=list(self.minors))

    def token(self, confirm=True):
        env = self.env
        tk = env.mod("monero_glue.hwtoken.token")
        t = tk.TokenLite()
        t.debug = False
        t.creds = self.creds
        t.iface = Iface(confirm)
        t.errors = []
        old = t.tsx_exc_handler

        async def handler(e):
            t.errors.append(e)
            self.env.internal(e)
            return await old(e)
        t.tsx_exc_handler = handler
        return t

    def agent(self, token, hf=10, client=1):
        ag = self.env.mod("monero_glue.agent.agent_lite")
        a = ag.Agent(token, network_type=0)
        a.hf, a.client_version = hf, client
        return a

    # ---- an independent reading of the finished transaction -------------------------------------------------
    def extra(self, tx):
        """(transaction key, additional keys, nonce) as points / byte strings"""
        e = list(tx.extra)
        i, R, adds, nonce = 0, None, [], None

        def b(n):
            nonlocal i
            r = self.ref.cat(self.env.cbytes(e[i:i + n]))
            i += n
            return r
        while i < len(e):
            tag = e[i]
            i += 1
            if tag == 1:
                R = b(32)
            elif tag == 2:
                n = e[i]
                i += 1
                nonce = b(n)
            elif tag == 4:
                n = e[i]
                i += 1
                adds = [b(32) for _ in range(n)]
            else:
                raise ValueError("extra tag %r" % (tag,))
        return R, adds, nonce

    def prefix_bytes(self, tx):
        ref = self.ref
        p = [ref.varint(tx.version), ref.varint(tx.unlock_time), ref.varint(len(tx.vin))]
        for v in tx.vin:
            p += [b"\x02", ref.varint(v.amount), ref.varint(len(v.key_offsets))] + [ref.varint(o) for o in v.key_offsets] + [v.k_image]
        p.append(ref.varint(len(tx.vout)))
        for o in tx.vout:
            p += [ref.varint(o.amount), b"\x02", o.target.key]
        ex = list(tx.extra)
        p += [ref.varint(len(ex)), self.env.cbytes(ex)]
        return ref.cat(*p)

    def message(self, tx):
        """hash that the ring signatures sign"""
        ref, rv = self.ref, tx.rct_signatures
        base = [ref.varint(rv.type), ref.varint(rv.txnFee)]
        for e in rv.ecdhInfo:
            base += [e.amount[:8]] if rv.type == 4 else [e.mask, e.amount]
        base += [o.mask for o in rv.outPk]
        bp = []
        for q in rv.p.bulletproofs:
            bp += [q.A, q.S, q.T1, q.T2, q.taux, q.mu] + list(q.L) + list(q.R) + [q.a, q.b, q.t]
        return ref.keccak(ref.keccak(self.prefix_bytes(tx)), ref.keccak(*base), ref.keccak(*bp))

    def check_structure(self, tx, unlock=0):
        env, ref, rv = self.env, self.ref, tx.rct_signatures
        n, m = len(self.sources), len(self.dests)
        env.check(len(tx.vin) == n and len(rv.p.MGs) == n and len(rv.p.pseudoOuts) == n, "one signature and pseudo output per input")
        env.check(len(tx.vout) == m and len(rv.outPk) == m and len(rv.ecdhInfo) == m, "one commitment and encrypted amount per output")
        env.check(tx.version == 2 and tx.unlock_time == unlock, "version and unlock time")
        env.check(env.all([bool(o.amount == 0) for o in tx.vout] + [bool(v.amount == 0) for v in tx.vin]), "amounts are hidden")
        env.check(env.all([rv.outPk[i].dest == tx.vout[i].target.key for i in range(m)]), "commitments belong to the outputs at the same position")

    def order(self, tx):
        """index of the announced input of each transaction input"""
        ref = self.ref
        got = []
        for v in tx.vin:
            hit = [i for i in range(len(self.all_sources)) if bool(v.k_image == ref.enc(self.key_image(i)))]
            got.append(hit[0] if len(hit) == 1 else None)
        return got

    def secret(self, i):
        ref = self.ref
        der, pos, M, m, mask = self.secrets[i]
        cr = self.env.mod("monero_glue.xmr.crypto")
        mo = self.env.mod("monero_glue.xmr.monero")
        x = ref.Hs(ref.enc(ref.pt(der)), ref.varint(pos)) + ref.sc(self.creds.spend_key_private)
        if (M, m) != (0, 0):
            x = x + ref.Hs(b"SubAddr\0", ref.encs(ref.sc(self.creds.view_key_private)), ref.le(M, 4), ref.le(m, 4))
        return x

    def key_image(self, i):
        ref = self.ref
        x = self.secret(i)
        return ref.Hp(ref.enc(ref.G * x)) * x

    def check_inputs(self, tx, unlock=0):
        """every announced input exactly once, key images in descending order, real rings, valid signatures over the message"""
        env, ref, rv = self.env, self.ref, tx.rct_signatures
        o = self.order(tx)
        env.check(None not in o and sorted(o) == list(range(len(self.all_sources))), "each announced input occurs exactly once, with its key image")
        if None in o:
            return
        for i in range(len(o) - 1):
            env.check(tx.vin[i].k_image > tx.vin[i + 1].k_image, "key images descend")
        for v, k in zip(tx.vin, o):
            src = self.all_sources[k]
            idx = [x[0] for x in src.outputs]
            env.check(list(v.key_offsets) == [idx[0]] + [b - a for a, b in zip(idx, idx[1:])], "ring of the announced input")

    def check_signatures(self, tx, o=None):
        env, ref, rv = self.env, self.ref, tx.rct_signatures
        o = self.order(tx) if o is None else o
        msg = self.message(tx)
        for i, k in enumerate(o):
            src = self.all_sources[k]
            mg = rv.p.MGs[i]
            off = ref.pt(rv.p.pseudoOuts[i])
            c = ref.sc(mg.cc)
            I = ref.pt(tx.vin[i].k_image)
            env.check(len(mg.ss) == len(src.outputs), "one column per ring member")
            for j, (_, ck) in enumerate(src.outputs):
                P, Z = ref.pt(ck.dest), ref.pt(ck.mask) - off
                s0, s1 = ref.sc(mg.ss[j][0]), ref.sc(mg.ss[j][1])
                L0, R0, L1 = ref.G * s0 + P * c, ref.Hp(ref.enc(P)) * s0 + I * c, ref.G * s1 + Z * c
                c = ref.Hs(msg, ref.enc(P), ref.enc(L0), ref.enc(R0), ref.enc(Z), ref.enc(L1))
            env.check(c == ref.sc(mg.cc), "ring signature of the input verifies over the transaction")

    def check_balance(self, tx):
        env, ref, rv = self.env, self.ref, tx.rct_signatures
        fee = sum(self.in_amounts) - sum(self.out_amounts)
        env.check(rv.txnFee == fee, "fee is inputs minus outputs")
        s = ref.O
        for p in rv.p.pseudoOuts:
            s = s + ref.pt(p)
        for q in rv.outPk:
            s = s - ref.pt(q.mask)
        env.check(s == ref.H * ref.S(rv.txnFee), "pseudo outputs minus commitments is the fee")

    def check_outputs(self, tx, det=True):
        """recipients find, at their position, exactly the approved amount"""
        env, ref, rv = self.env, self.ref, tx.rct_signatures
        R, adds, nonce = self.extra(tx)
        env.check(R is not None and len(adds) in (0, len(self.dests)), "transaction keys")
        for i, (w, s) in enumerate(self.kinds):
            c = self.who[w]
            a, b = ref.sc(c.view_key_private), ref.sc(c.spend_key_private)
            s = (self.account, 0) if s == "change" else s
            D = b if s == (0, 0) else b + ref.Hs(b"SubAddr\0", ref.encs(a), ref.le(s[0], 4), ref.le(s[1], 4))
            P = ref.pt(tx.vout[i].target.key)
            found = None
            for X in [R] + ([adds[i]] if adds else []):
                h = ref.Hs(ref.enc(ref.pt(X) * (a * 8)), ref.varint(i))
                if bool(P == ref.G * (h + D)):
                    found = h
                    break
            env.check(found is not None, "the approved recipient owns the output at this position")
            if found is None:
                continue
            ak = ref.encs(found)
            amount = self.out_amounts[i]
            e = rv.ecdhInfo[i]
            if rv.type == 4:
                mask = ref.Hs(b"commitment_mask", ak)
                env.check(e.amount[:8] == ref.xor(ref.le(amount, 8), ref.keccak(b"amount", ak)[:8]), "encrypted amount is the approved amount")
            else:
                h1 = ref.Hs(ak)
                mask = ref.dec_sc(e.mask) - h1
                env.check(ref.dec_sc(e.amount) == ref.S(amount) + ref.Hs(ref.encs(h1)), "encrypted amount is the approved amount")
                if det:
                    env.check(mask == ref.Hs(b"commitment_mask", ak), "mask is the deterministic one")
            env.check(ref.pt(rv.outPk[i].mask) == ref.G * mask + ref.H * ref.S(amount), "commitment is to the approved amount")

    def check_ranges(self, tx, bp):
        """each commitment is covered once, in order, by a proof that was made or verified by the device"""
        env, ref, rv = self.env, self.ref, tx.rct_signatures
        V = [v for q in rv.p.bulletproofs for v in q.V]
        env.check(len(V) == len(rv.outPk) and env.all([ref.pt(v) * 8 == ref.pt(o.mask) for v, o in zip(V, rv.outPk)]),
                  "range proofs cover every commitment once and in order")
        for q in rv.p.bulletproofs:
            env.check(bp.good(q), "range proof verifies")

    def sign(self, hf=10, client=1, confirm=True, unlock=0, extra=b"", token=None, agent=None):
        self.all_sources = list(self.sources)
        tok = token or self.token(confirm)
        a = agent or self.agent(tok, hf, client)
        self.agent_obj, self.token_obj = a, tok
        return self.env.run(a.sign_transaction_data(self.construction(extra=extra, unlock=unlock)))


# ---- a device in the middle of a session --------------------------------------------------------------------
PHASES = ["START", "INIT", "INP_CNT", "INPUT", "INPUT_DONE", "INPUT_PERM", "INPUT_VINS", "INPUT_ALL_DONE", "OUTPUT", "RSIG", "OUTPUT_DONE",
          "FINAL_MESSAGE", "SIGNATURE", "SIGNATURE_DONE", "FINAL", "FAIL"]


class SymPerm:
    """a permutation of arbitrary length: entries are arbitrary positions"""
    def __init__(self, env, n):
        self.env, self.n, self.m = env, n, []

    def __len__(self):
        raise TypeError("length of a symbolic permutation")

    def __getitem__(self, i):
        for k, v in self.m:
            if k is i or bool(k == i):
                return v
        v = self.env.int("perm", 0, 2 ** 20)
        self.env.assume(v < self.n)
        self.m.append((i, v))
        return v


class Mid:
    """token with a stored session in an arbitrary phase with arbitrary counters (n inputs, m outputs)"""

    def __init__(self, env, s, phase, n, m, inp, out, bp=2, client=1, offload=False, grouping=None, processing=False, perm=None, fee_ok=False, sums_ok=False, npk=0):
        cr, ms = env.mod("monero_glue.xmr.crypto"), env.mod("monero_glue.messages")
        self.env, self.s = env, s
        self.tok = s.token()
        kh = env.mod("monero_glue.xmr.sub.keccak_hasher")
        b = builder(env, s.creds)
        st = env.mod("monero_glue.protocol.tsx_sign_state").TState
        b.state.s = getattr(st, phase)
        b.state.in_mem = False
        b.key_master, b.key_hmac, b.key_enc = env.key("km"), env.key("kh"), env.key("ke")
        b.gen_r()
        b.input_count, b.output_count = n, m
        b.inp_idx, b.out_idx = inp, out
        b.use_bulletproof, b.use_simple_rct, b.rsig_type = True, True, 3
        b.bp_version, b.client_version = bp, client
        b.rsig_offload = offload
        b.rsig_grp = [m] if grouping is None else grouping
        b.is_processing_offloaded = processing
        b.tx.version, b.tx.unlock_time, b.tx.extra = 2, 0, b""
        b.fee = env.int("fee", 0, 100)
        b.summary_outs_money = env.int("sout", 0, 1000)
        b.summary_inputs_money = b.summary_outs_money + b.fee if fee_ok else env.int("sin", 0, 1000)
        b.mixin = 1
        b.output_change = None
        b.sumout = env.scalar("sumout")
        b.sumpouts_alphas = b.sumout if sums_ok else env.scalar("sumpouts")
        b.input_last_amount = s.in_amounts[0]
        b.output_last_mask = None
        if perm is None:
            perm = SymPerm(env, n) if env.symbolic else self.cperm(n)
        b.source_permutation = perm
        mo = env.mod("monero_glue.xmr.monero")
        mo.compute_subaddresses(s.creds, s.account, s.minors, b.subaddresses)
        b.tx_prefix_hash = env.key("prefixhash")
        b.full_message = env.key("message")
        i = PHASES.index(phase)
        env.run(b._tprefix_update())
        b.full_message_hasher.init(True)
        env.run(b.full_message_hasher.set_type_fee(4, b.fee))
        if i >= PHASES.index("OUTPUT"):
            b.full_message_hasher.state = 4
            b.output_pk = [env.key("outpk") for _ in range(npk)]
        if i >= PHASES.index("OUTPUT_DONE"):
            b.tx_prefix_hasher = None
            b.tx = None
            b.full_message_hasher = None
        if i >= PHASES.index("INPUT_DONE"):
            b.subaddresses = None
        if i >= PHASES.index("INPUT_VINS"):
            b.last_ki = env.key("lastki")
        self.b = b
        self.tok.tsx_state = b.state_save()

    def cperm(self, n):
        p = list(range(n))
        if n < 2000:
            r = self.env.int("permseed", 0, 2 ** 30)
            import random
            random.Random(r).shuffle(p)
        return p

    # messages an honest host would send in the present state
    def src(self, i=0):
        return self.env.mod("monero_glue.hwtoken.misc").translate_monero_src_entry_pb(self.s.sources[i])

    def vini(self, i=0):
        env, ref, src = self.env, self.env.ref, self.s.sources[i]
        idx = [x[0] for x in src.outputs]
        return ref.cat(b"\x02", ref.varint(0), ref.varint(len(idx)), *[ref.varint(x) for x in [idx[0]] + [q - p for p, q in zip(idx, idx[1:])]],
                       ref.enc(self.s.key_image(i)))

    def msg(self, kind, i=0, hidx=None):
        """hidx: announced position of the input that the tags are for"""
        env, b = self.env, self.b
        ms, cr = env.mod("monero_glue.messages"), env.mod("monero_glue.xmr.crypto")
        cp = env.mod("monero_glue.xmr.enc.chacha_poly")
        if kind == "init":
            d = dest(env, self.s.creds, 0, 0, 5)
            d2 = dest(env, self.s.creds, 0, 1, 5)
            return ms.MoneroTransactionInitRequest(version=0, address_n=[0x80000000], network_type=0,
                                                   tsx_data=tsx_data(env, [d, d2], same_dest(env, d), num_inputs=1, fee=1))
        if kind == "input":
            return ms.MoneroTransactionSetInputRequest(src_entr=self.src(i))
        if kind == "perm":
            return ms.MoneroTransactionInputsPermutationRequest(perm=[0])
        if kind == "vini":
            if hidx is None:
                hidx = self.perm_at(b.inp_idx + 1)
            v = self.vini(i)
            return ms.MoneroTransactionInputViniRequest(src_entr=self.src(i), vini=v, vini_hmac=env.run(b.gen_hmac_vini(self.src(i), v, hidx)), orig_idx=0)
        if kind == "allin":
            return ms.MoneroTransactionAllInputsSetRequest()
        if kind == "output":
            d = dest(env, self.s.creds, 0, 0, self.s.out_amounts[0])
            return ms.MoneroTransactionSetOutputRequest(dst_entr=d, dst_entr_hmac=env.run(b.gen_hmac_tsxdest(d, b.out_idx + 1 if hidx is None else hidx)))
        if kind == "offl":
            return ms.MoneroTransactionSetOutputRequest(is_offloaded_bp=True, rsig_data=ms.MoneroTransactionRsigData(rsig=self.rsig()))
        if kind == "allout":
            return ms.MoneroTransactionAllOutSetRequest()
        if kind == "sign":
            if hidx is None:
                hidx = self.perm_at(b.inp_idx + 1)
            v = self.vini(i)
            alpha = env.scalar("alpha")
            po = cr.encodepoint(cr.gen_c(alpha, self.s.in_amounts[i]))
            return ms.MoneroTransactionSignInputRequest(
                src_entr=self.src(i), vini=v, vini_hmac=env.run(b.gen_hmac_vini(self.src(i), v, hidx)), pseudo_out=po,
                pseudo_out_hmac=cr.compute_hmac(b.hmac_key_txin_comm(hidx), po),
                pseudo_out_alpha=cp.encrypt_pack(b.enc_key_txin_alpha(hidx), cr.encodeint(alpha)),
                spend_key=cp.encrypt_pack(b.enc_key_spend(hidx), env.ref.encs(self.s.secret(i))), orig_idx=0)
        if kind == "final":
            return ms.MoneroTransactionFinalRequest()
        raise KeyError(kind)

    def perm_at(self, i):
        p = self.b.source_permutation
        if isinstance(p, list):
            return p[int(i)] if 0 <= int(i) < len(p) else 0
        return p[i]

    def rsig(self):
        if not hasattr(self, "_rsig"):
            env = self.env
            am, mk = env.int("bpa", 1, 50), env.scalar("bpm")
            rc, mi = env.mod("monero_glue.xmr.ring_ct"), env.mod("monero_glue.hwtoken.misc")
            self._rsig = env.run(mi.dump_msg(env.run(rc.prove_range_bp_batch(list(self.b.output_amounts) or [am], list(self.b.output_masks) or [mk]))))
        return self._rsig

    def send(self, msg):
        """(response, failed, state after)"""
        env = self.env
        ms = env.mod("monero_glue.messages")
        r = env.run(self.tok.tsx_sign(msg))
        failed = isinstance(r, ms.Failure)
        return r, failed, self.tok.tsx_state

    def phase(self, st):
        """phase, (input counter, output counter) of a stored session"""
        return PHASES[st.state[0]] if st.state[0] < len(PHASES) else "FAIL", st.inp_idx, st.out_idx


# ---- whole sessions observed message by message --------------------------------------------------------------
SCALARS = ("EdScalar", "bignum256modm", "Bignum256modm", "c_ulong_Array_5", "c_ulonglong_Array_5", "c_uint_Array_9")


def clone(x):
    """independent copy of stored session data (keys, points and byte strings are immutable)"""
    if isinstance(x, list):
        return [clone(y) for y in x]
    if isinstance(x, tuple):
        return tuple(clone(y) for y in x)
    if isinstance(x, dict):
        return dict(x)
    if isinstance(x, (bytearray,)):
        return bytearray(x)
    n = type(x).__name__
    if hasattr(x, "update") and hasattr(x, "copy") and hasattr(x, "digest"):
        return x.copy()
    if n in SCALARS:
        import importlib
        cr = importlib.import_module("monero_glue.xmr.crypto")
        return cr.sc_add(x, cr.sc_0())
    if n == "TprefixStub":
        return type(x)(**{k: clone(getattr(x, k)) for k in x.__slots__ if hasattr(x, k)})
    if n == "TsxSignStateHolder":
        t = type(x)()
        for k, v in x.__dict__.items():
            setattr(t, k, v if k in ("creds", "output_change") else clone(v))
        return t
    return x


def clone_msg(env, m):
    """the same message again, as a new object"""
    if m is None or isinstance(m, (int, str, bytes, bytearray)):
        return m
    if isinstance(m, list):
        return [clone_msg(env, x) for x in m]
    if hasattr(m, "get_fields") and hasattr(m, "__dict__"):
        r = type(m).__new__(type(m))
        for k, v in m.__dict__.items():
            setattr(r, k, clone_msg(env, v))
        return r
    return m


class Tap:
    """stands between host and device; hooks see or change what passes"""
    def __init__(self, env, token, before=None, after=None):
        self.env, self.token, self.before, self.after = env, token, before, after
        self.n = -1
        self.msgs, self.states, self.resps = [], [], []

    def __getattr__(self, k):
        return getattr(self.token, k)

    async def tsx_sign(self, msg):
        self.n += 1
        if self.before:
            self.before(self, msg)
        self.states.append(clone(self.token.tsx_state))
        self.msgs.append(clone_msg(self.env, msg))
        r = await self.token.tsx_sign(msg)
        self.resps.append(r)
        if self.after:
            r = self.after(self, msg, r) or r
        return r


KIND = {"MoneroTransactionInitRequest": "init", "MoneroTransactionSetInputRequest": "input", "MoneroTransactionInputsPermutationRequest": "perm",
        "MoneroTransactionInputViniRequest": "vini", "MoneroTransactionAllInputsSetRequest": "allin", "MoneroTransactionSetOutputRequest": "output",
        "MoneroTransactionAllOutSetRequest": "allout", "MoneroTransactionSignInputRequest": "sign", "MoneroTransactionFinalRequest": "final"}


def kind(msg):
    k = KIND[type(msg).__name__]
    return "offl" if k == "output" and bool(getattr(msg, "is_offloaded_bp", False)) else k
