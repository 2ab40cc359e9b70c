"""C30: the builder of test transactions"""
import itertools
import random

from pyvc.run import contract
from contracts import txlib as T

TB = "monero_glue.xmr.transaction_builder"
CR = "monero_glue.xmr.crypto"
MO = "monero_glue.xmr.monero"
B = "transaction_builder.TransactionBuilder."
PRNG = "random.Random is replaced by a generator of arbitrary values inside the documented ranges (getrandbits, randint, choice, shuffle of a list); it does not draw the zero scalar"


class Prng:
    """contract of random.Random: any value of the range; positions come from the variant"""
    def __init__(self, env, picks=(), perm=None):
        self.env, self.picks, self.perm = env, list(picks), perm

    def getrandbits(self, k):
        return self.env.int("rnd", 1 if k >= 256 else 0, 2 ** k - 1)   # a zero secret is refused by the derivation

    def randint(self, a, b):
        if a > b:
            raise ValueError("empty range for randrange()")
        if b - a < 64:
            p = self.picks.pop(0) if self.picks else 0
            return a + p % (b - a + 1)
        return self.env.int("rnd", a, b)

    def choice(self, seq):
        return seq[(self.picks.pop(0) if self.picks else 0) % len(seq)]

    def shuffle(self, x):
        n = len(x)
        old = [x[i] for i in range(n)]
        for i in range(n):
            x[i] = old[self.perm[i]]


def new(env, picks=(), perm=None, account=0, dests=2, ring=3):
    bld = env.mod(TB).TransactionBuilder()
    bld.prng = Prng(env, picks, perm)
    bld.src_keys = T.creds_of(env, env.scalar("a"), env.scalar("b"))
    bld.dest_keys = [T.creds_of(env, env.scalar("da%d" % i), env.scalar("db%d" % i)) for i in range(dests)]
    bld.account_idx = account
    bld.ring_size = ring
    return bld


def sub_secret(env, a, M, m):
    """the definition of the subaddress secret"""
    ref = env.ref
    if (M, m) == (0, 0):
        return ref.S(0)
    return ref.Hs(b"SubAddr\0", ref.encs(ref.sc(a)), M.to_bytes(4, "little"), m.to_bytes(4, "little"))


SUBS = [(0, 0, 0), (0, None, 0), (0, 0, 3), (2, None, 0), (2, None, 5), (2, 2, 1), (2, 0, 0), (1, 3, 7), (2 ** 32 - 1, None, 2 ** 32 - 1)]
# picks: output index, further outputs, position in the ring, inputs of the prefix
PICKS = [(0, 0, 0, 0), (1, 1, 2, 3), (5, 0, 1, 9), (12, 12, 1, 1), (7, 7, 2, 2)]


@contract("C30", "alg", targets=[B + x for x in ("gen_input", "check_input", "gen_tx_prefix", "dump_extra_fields", "random_pub", "random_glob_idx")] +
          ["monero.generate_sub_address_keys", "monero.get_subaddress_secret_key", "monero.compute_subaddresses", "monero.generate_key_image_helper"],
          variants=[{"sub": s, "add": a, "pk": PICKS[(i + a) % 5]} for i, s in enumerate(SUBS) for a in (0, 1)],
          thorough=[{"sub": s, "add": a, "pk": (o, n, o % 3, n % 10)} for s in SUBS for a in (0, 1) for o in range(13) for n in (0, o // 2, o)],
          conc=4, conc_time=5, trusted=[PRNG])
def gen_input(env, sub, add, pk):
    """the input belongs to the account and index, opens to the amount, and its records agree with each other"""
    cr, ref, mo = env.mod(CR), env.ref, env.mod(MO)
    acct, M, m = sub
    bld = new(env, pk, account=acct)
    pre = [object(), object()]
    bld.transfers, bld.sources, bld.selected_transfers, bld.sources_creds = list(pre), [1], [7], [2]
    v = env.u64("v")
    env.run(bld.gen_input(v, sub_major=M, sub_minor=m, additionals=bool(add)))
    M = acct if M is None else M
    a, b = bld.src_keys.view_key_private, bld.src_keys.spend_key_private
    env.check(len(bld.transfers) == 3 and bld.transfers[:2] == pre and len(bld.sources) == 2 and bld.selected_transfers == [7, 2]
              and len(bld.sources_creds) == 2 and bld.sources_creds[1] is bld.src_keys, "one input is added, and its transfer is the selected one")
    src, td = bld.sources[1], bld.transfers[2]
    env.check(len(src.outputs) == bld.ring_size and 0 <= src.real_output < bld.ring_size, "the ring has the stated size and holds the real output")
    dest, mask = src.outputs[src.real_output][1].dest, src.outputs[src.real_output][1].mask
    k = src.real_output_in_tx_index
    P, R = ref.pt(dest), ref.pt(src.real_out_tx_key)
    adds = src.real_out_additional_tx_keys
    env.check(len(adds) == (len(td.m_tx.vout) if add else 0), "one additional key per output of the transaction, or none")
    env.check(0 <= k < len(td.m_tx.vout), "the output position is inside of the transaction")
    sec = ref.sc(b) + sub_secret(env, a, M, m)
    xs = [ref.Hs(ref.enc(T8(ref, D, a)), ref.varint(k)) + sec for D in [R] + ([ref.pt(adds[k])] if add else [])]
    env.check(any(bool(P == ref.G * x) for x in xs), "the real output is the one-time key of the account and index")
    env.check(ref.pt(mask) == ref.H * v + ref.G * ref.dec_sc(src.mask), "the commitment opens to the amount and mask")
    env.check(src.amount == v, "stated amount")
    env.check(src.rct is True and td.m_rct is True, "confidential input")
    env.check(ref.pt(td.m_key_image) == ref.Hp(ref.enc(P)) * next(x for x in xs if bool(P == ref.G * x)), "key image of the output")
    env.check(td.m_amount == v and td.m_mask == src.mask, "transfer: amount and mask")
    env.check((td.m_subaddr_index.major, td.m_subaddr_index.minor) == (M, m), "transfer: account and index")
    env.check(td.m_internal_output_index == k and td.m_global_output_index == src.outputs[src.real_output][0], "transfer: positions of the output")
    env.check(td.m_tx.vout[k].target.key == dest, "transfer: output key")
    env.check(td.m_spent is False and td.m_key_image_known is True and td.m_key_image_partial is False, "transfer: spendable")
    env.check(len(td.m_tx.vin) >= 1, "transfer: transaction with inputs")
    env.check(all(len(i.key_offsets) == bld.ring_size for i in td.m_tx.vin), "transfer: rings of the transaction")
    fields = env.run(mo.parse_extra_fields(td.m_tx.extra))
    kinds = [type(f).__name__ for f in fields]
    env.check(kinds == ["TxExtraNonce", "TxExtraPubKey"] + (["TxExtraAdditionalPubKeys"] if add else []), "transfer: extra fields")
    env.check(fields[1].pub_key == src.real_out_tx_key, "transfer: transaction key in extra")
    if add:
        env.check(len(fields[2].data) == len(adds), "transfer: additional keys in extra")
        env.check(env.all([x == y for x, y in zip(fields[2].data, adds)]), "transfer: additional keys in extra")


def T8(ref, D, a):
    return D * (ref.sc(a) * 8)


@contract("C30", "alg", targets=[B + "gen_output"], variants=[{"sub": s, "pid": p, "own": o} for s in ((0, 0), (0, 1), (4, 0), (3, 2 ** 31)) for p in (0, 1) for o in (0, 1, 2)],
          conc=8, conc_time=3, trusted=["in the proof addr.public_addr_encode is a recorder of its arguments (its own contract is C17); " + PRNG])
def gen_output(env, sub, pid, own):
    """destination of the stated account, index and amount"""
    cr, ref = env.mod(CR), env.ref
    ad = env.mod("monero_glue.xmr.sub.addr")
    bld = new(env, (1,))
    v = env.u64("v")
    payment = env.bytes("pid", 8) if pid else None
    dst = {0: bld.dest_keys[1], 1: bld.src_keys, 2: bld.dest_keys[0]}[own]
    if own == 2:
        bld.dest_keys = dst
    o0 = [object()]
    bld.outputs, bld.outputs_extra = list(o0), list(o0)
    call = dict(value=v, dest=dst if own == 1 else None, sub_major=sub[0], sub_minor=sub[1], payment_id=payment)
    if pid and sub != (0, 0):
        env.refuses("integrated subaddress", env.run, bld.gen_output(**call))
        env.check(bld.outputs == o0 and bld.outputs_extra == o0, "nothing is added")
        return
    calls = []
    orig = ad.public_addr_encode

    def rec(*a, **k):
        calls.append((a, k))
        return orig(*a, **k) if not env.symbolic else b"address"
    ad.public_addr_encode = rec
    try:
        env.run(bld.gen_output(**call))
    finally:
        ad.public_addr_encode = orig
    env.check(len(bld.outputs) == 2 and len(bld.outputs_extra) == 2 and bld.outputs[0] is o0[0], "one output is added")
    o, e = bld.outputs[1], bld.outputs_extra[1]
    a, b = dst.view_key_private, dst.spend_key_private
    D = ref.G * (ref.sc(b) + sub_secret(env, a, *sub))
    C = D * ref.sc(a) if sub != (0, 0) else ref.G * ref.sc(a)
    env.check(o.amount == v, "stated amount")
    env.check(ref.pt(o.addr.m_spend_public_key) == D, "spend key of the index")
    env.check(ref.pt(o.addr.m_view_public_key) == C, "view key of the index")
    env.check(bool(o.is_subaddress) == (sub != (0, 0)) and bool(o.is_integrated) == bool(pid), "kind of the address")
    env.check(e.creds is dst and (e.major, e.minor) == sub and (e.payment_id is payment), "noted destination")
    env.check(len(calls) == 1, "the printed address is made once")
    import inspect
    ar = inspect.signature(orig).bind(*calls[0][0], **calls[0][1])
    ar.apply_defaults()
    ar = list(ar.arguments.values())
    env.check(bool(ar[1]) == (sub != (0, 0)) and ar[2] == bld.nettype and ar[3] is payment, "printed address: kind, network, payment id")
    env.check(ref.pt(ar[0].spend_public_key) == D, "printed address: spend key")
    env.check(ref.pt(ar[0].view_public_key) == C, "printed address: view key")
    if not env.symbolic:
        got = ad.decode_addr(o.original)
        env.check(bytes(got.spend_key) == bytes(o.addr.m_spend_public_key) and bytes(got.view_key) == bytes(o.addr.m_view_public_key), "printed address decodes")


def fake_outs(env, bld, n, ms=None):
    """n outputs with arbitrary amounts, of the builder's own making"""
    mod = env.mod(TB)
    outs = []
    for i in range(n):
        o = mod.TxDestinationEntry(amount=env.u64("o%d" % i), addr=mod.AccountPublicAddress(m_spend_public_key=env.key("os%d" % i), m_view_public_key=env.key("ov%d" % i)),
                                   is_subaddress=False, original=b"x", is_integrated=False)
        bld.outputs.append(o)
        bld.outputs_extra.append(mod.DestInfo(None, i, i))
        outs.append(o)
    return outs


class Src:
    def __init__(self, amount):
        self.amount = amount


@contract("C30", "alg", targets=[B + x for x in ("gen_change", "gen_output", "build", "shuffle_outputs")],
          variants=[{"ni": ni, "no": no, "late": late, "perm": p, "acct": acct}
                    for ni, no, late, acct in ((1, 0, 0, 0), (2, 1, 0, 2), (0, 1, 0, 0), (3, 1, 1, 0), (1, 2, 0, 1)) for p in [None] + list(itertools.permutations(range(no + late + 1)))],
          thorough=[{"ni": 4, "no": 2, "late": 1, "perm": p, "acct": 3} for p in itertools.permutations(range(4))],
          conc=3, conc_time=3, trusted=["in the proof addr.public_addr_encode returns an arbitrary string; " + PRNG])
def change_and_build(env, ni, no, late, perm, acct):
    """the change is the remainder, its position follows it, the set holds what was generated"""
    cr, ref = env.mod(CR), env.ref
    ad, mod = env.mod("monero_glue.xmr.sub.addr"), env.mod(TB)
    bld = new(env, perm=perm, account=acct)
    ins = [Src(env.u64("i%d" % i)) for i in range(ni)]
    bld.sources = list(ins)
    minors = [3, 0, 3, 9, 1][:ni]
    tds = [mod.TransferDetails() for _ in range(ni)]
    for t, mn in zip(tds, minors):
        t.m_subaddr_index = mod.SubaddressIndex(major=acct, minor=mn)
    bld.transfers, bld.selected_transfers = list(tds), list(range(ni))
    fake_outs(env, bld, no)
    bld.fee = env.u64("fee")
    total = sum((i.amount for i in ins), 0)
    spent = sum((o.amount for o in bld.outputs), 0)
    stated = env.choose("stated", [False, True])
    value = env.u64("change") if stated else None
    orig = ad.public_addr_encode
    if env.symbolic:
        ad.public_addr_encode = lambda *a, **k: b"address"
    try:
        res = env.attempt(env.run, bld.gen_change(value))
    finally:
        ad.public_addr_encode = orig
    if not res.ok:
        env.check(not stated and total - spent - bld.fee < 0, "refused only when the inputs do not cover outputs and fee")
        env.check(len(bld.outputs) == no and bld.change_idx is None, "nothing is added")
        return
    want = value if stated else total - spent - bld.fee
    env.check(want >= 0, "the remainder is not negative")
    ch = bld.outputs[-1]
    env.check(len(bld.outputs) == no + 1 and ch.amount == want, "change is the stated remainder")
    if not stated:
        env.check(total == sum((o.amount for o in bld.outputs), 0) + bld.fee, "inputs pay for outputs and fee")
    a, b = bld.src_keys.view_key_private, bld.src_keys.spend_key_private
    D = ref.G * (ref.sc(b) + sub_secret(env, a, acct, 0))
    env.check(ref.pt(ch.addr.m_spend_public_key) == D, "change goes to the account: spend key")
    env.check(ref.pt(ch.addr.m_view_public_key) == (D * ref.sc(a) if acct else ref.G * ref.sc(a)), "change goes to the account: view key")
    env.check(bool(ch.is_subaddress) == (acct != 0), "kind of the change address")
    fake_outs(env, bld, late)
    env.check(bld.outputs[bld.change_idx] is ch, "the change position refers to the change")
    outs, extras = list(bld.outputs), list(bld.outputs_extra)
    pairs = list(zip(outs, extras))
    if perm is not None:
        r2 = env.attempt(env.run, bld.shuffle_outputs())
        env.check(r2.ok, "outputs can be shuffled")
        env.check(len(bld.outputs) == len(outs) and sorted(map(id, bld.outputs)) == sorted(map(id, outs)), "shuffled: the same outputs")
        env.check(all(any(o is x and e is y for x, y in pairs) for o, e in zip(bld.outputs, bld.outputs_extra)) and len(bld.outputs_extra) == len(outs),
                  "shuffled: notes follow their outputs")
        env.check([id(o) for o in bld.outputs] == [id(outs[i]) for i in perm], "shuffled: any order can come out")
    env.check(bld.outputs[bld.change_idx] is ch, "the change position refers to the change")
    uns = env.run(bld.build())
    env.check(len(uns.txes) == 1 and bld.unsigned_tx is uns and list(uns.transfers) == tds, "one transaction and all transfers")
    tx = uns.txes[0]
    env.check(tx.change_dts is ch, "set: change output")
    env.check([id(o) for o in tx.splitted_dsts] == [id(o) for o in bld.outputs], "set: outputs in order")
    env.check([id(o) for o in tx.dests] == [id(o) for o in bld.outputs if o is not ch], "set: destinations without the change")
    env.check([id(s) for s in tx.sources] == [id(s) for s in ins] and list(tx.selected_transfers) == list(range(ni)), "set: sources and their transfers")
    env.check(tx.subaddr_account == acct and sorted(tx.subaddr_indices) == sorted(set(minors)), "set: account and the indices spent from")
    env.check(tx.use_rct is True and tx.use_bulletproofs is True and tx.unlock_time == 0, "set: kind of the transaction")


@contract("C30", "alg", targets=[B + "shuffle_outputs", B + "build"], variants=[{"perm": p} for n in (1, 2, 3) for p in itertools.permutations(range(n))], conc=2, conc_time=2, trusted=[PRNG])
def no_change(env, perm):
    """without change there is no change position"""
    bld = new(env, perm=perm)
    outs = fake_outs(env, bld, len(perm))
    res = env.attempt(env.run, bld.shuffle_outputs())
    env.check(res.ok, "outputs can be shuffled")
    env.check(bld.change_idx is None, "no change position")
    env.check([id(o) for o in bld.outputs] == [id(outs[i]) for i in perm], "the same outputs")
    tx = env.run(bld.build()).txes[0]
    env.check(tx.change_dts is None and [id(o) for o in tx.dests] == [id(o) for o in bld.outputs], "set: every output is a destination")


@contract("C30", "alg", targets=[B + x for x in ("find_change_idx", "reformat_out", "reformat_outs")] + ["addr.get_change_addr_idx"], variants=[{"n": n, "k": k} for n in (1, 2, 4) for k in range(n)],
          conc=6, conc_time=3)
def find_change(env, n, k):
    """the position found is one of an output equal to the change"""
    mod = env.mod(TB)
    bld = new(env)
    outs = fake_outs(env, bld, n)
    c = outs[k]
    ch = mod.TxDestinationEntry(amount=c.amount, addr=mod.AccountPublicAddress(m_spend_public_key=c.addr.m_spend_public_key, m_view_public_key=c.addr.m_view_public_key),
                                is_subaddress=False, original=b"x", is_integrated=False)
    tx = mod.TxConstructionData(splitted_dsts=outs, change_dts=ch)
    i = env.run(bld.find_change_idx(tx))
    env.check(i is not None or c.amount == 0, "found unless the change is zero")
    if i is not None:
        o = outs[i]
        env.check(env.all([o.amount == c.amount, o.addr.m_spend_public_key == c.addr.m_spend_public_key, o.addr.m_view_public_key == c.addr.m_view_public_key]), "an output equal to the change")
    tx.change_dts = None
    env.check(env.run(bld.find_change_idx(tx)) is None, "no change, no position")


@contract("C30", "alg", targets=[B + "primary_change_address"], variants=[{"acct": a} for a in (0, 1, 2 ** 32 - 1)], conc=4, conc_time=2)
def change_address(env, acct):
    """the address of the account"""
    ref = env.ref
    bld = new(env)
    res = env.attempt(env.run, bld.primary_change_address(bld.src_keys, acct))
    env.check(res.ok and getattr(res.value, "m_view_public_key", None) is not None, "an address with its keys is returned")
    a, b = bld.src_keys.view_key_private, bld.src_keys.spend_key_private
    D = ref.G * (ref.sc(b) + sub_secret(env, a, acct, 0))
    env.check(ref.pt(res.value.m_spend_public_key) == D, "spend key")
    env.check(ref.pt(res.value.m_view_public_key) == (D * ref.sc(a) if acct else ref.G * ref.sc(a)), "view key")


@contract("C30", "sym", targets=[B + x for x in ("random_bytes", "random_glob_idx")], variants=[{"n": n} for n in (0, 1, 8, 31, 32, 33, 64, 70)], conc=5, conc_time=2, trusted=[PRNG])
def randomness(env, n):
    """as many bytes as asked for, for every state of the generator"""
    bld = env.mod(TB).TransactionBuilder()
    bld.prng = Prng(env)
    r = bld.random_bytes(n)
    env.check(len(r) == n, "length")
    i = bld.random_glob_idx()
    env.check((i >= 0) & (i < 2 ** 64) if env.symbolic else 0 <= i < 2 ** 64, "global index")


@contract("C30", "alg", targets=[B + "set_payment_id"], variants=[{"n": n} for n in (9, 33)], conc=5, conc_time=2)
def payment(env, n):
    """the payment id given is the nonce of the transaction"""
    mo = env.mod(MO)
    bld = new(env)
    p = env.bytes("pid", n)
    env.run(bld.set_payment_id(p))
    f = env.run(mo.parse_extra_fields(env.run(bld.build()).txes[0].extra))
    env.check(len(f) == 1 and type(f[0]).__name__ == "TxExtraNonce", "one field")
    env.check(f[0].nonce == p, "the id given")


@contract("C30", "bounded", targets=[B + x for x in ("random_scalar", "random_pub", "serialize_unsigned", "describe", "precompute_subaddr", "analyze_input")] + ["transaction_builder.generate_key_image_ex"],
          conc=25, conc_time=20, backend="trezor+py")
def whole(env):
    """whole sets from the real generator: stored, read back, described, every input checked"""
    import contextlib
    import io
    cr, mo, mod = env.mod(CR), env.mod(MO), env.mod(TB)
    misc = env.mod("monero_glue.hwtoken.misc")
    bld = new(env, account=env.choose("acct", [0, 1, 4]))
    bld.prng = random.Random(env.int("seed", 0, 2 ** 32))
    ni, no = env.choose("ni", [1, 2, 4]), env.choose("no", [1, 2, 3])
    tot = 0
    for i in range(ni):
        v = env.int("v%d" % i, 0, 2 ** 60)
        tot += v
        env.run(bld.gen_input(v, sub_minor=env.choose("m%d" % i, [0, 1, 7]), additionals=env.choose("add%d" % i, [False, True])))
    bld.fee = tot // 7
    left = tot - bld.fee
    for i in range(no):
        v = left // (i + 2)
        left -= v
        env.run(bld.gen_output(v, sub_major=env.choose("M%d" % i, [0, 2]), sub_minor=env.choose("n%d" % i, [0, 5])))
    env.run(bld.gen_change())
    env.check(bld.outputs[bld.change_idx].amount == left, "change is the remainder")
    if env.choose("shuffle", [True, False]):
        env.run(bld.shuffle_outputs())
    env.run(bld.build())
    data = env.run(bld.serialize_unsigned())
    back = mod.UnsignedTxSet()
    env.run(misc.parse_msg(data, back))
    env.check(bytes(env.run(misc.dump_msg(back))) == bytes(data), "read back as stored")
    tx = back.txes[0]
    env.check(sum(s.amount for s in tx.sources) == sum(d.amount for d in tx.splitted_dsts) + bld.fee, "balanced")
    res = None
    with contextlib.redirect_stdout(io.StringIO()):
        res = env.attempt(env.run, bld.describe(back, bld.src_keys))
    env.check(res.ok, "the set is described and its inputs verify: %s" % (res.exc and type(res.exc).__name__))
    with contextlib.redirect_stdout(io.StringIO()):
        res = env.attempt(env.run, bld.describe(back, bld.dest_keys[0]))
    env.check(not res.ok, "with other keys it does not")
    bad = back.txes[0].sources[0]
    bad.amount += 1
    with contextlib.redirect_stdout(io.StringIO()):
        res = env.attempt(env.run, bld.describe(back, bld.src_keys))
    env.check(not res.ok, "a wrong amount does not verify")
