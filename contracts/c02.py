"""C02: inputs are authenticated between the phases and used exactly once"""
import itertools
from pyvc.run import contract
from contracts import txlib as T

BIG = 2 ** 20
BITS = ("amount", "rct", "real_output", "in_tx_index", "out_idx", "dest", "commitment", "tx_key", "additional", "mask", "drop", "extra_member", "swap")


def other(env, old, name="o"):
    k = env.key(name)
    env.assume(not bool(k == old))
    return k


def mutate(env, pb, what):
    """a source entry that differs in one place"""
    ms = env.mod("monero_glue.messages")
    if what == "amount":
        d = env.int("delta", 1, 50)
        pb.amount = pb.amount + d
    elif what == "rct":
        pb.rct = not pb.rct
    elif what == "real_output":
        pb.real_output = 1 - pb.real_output
    elif what == "in_tx_index":
        pb.real_output_in_tx_index = pb.real_output_in_tx_index + env.int("delta", 1, 50)
    elif what == "out_idx":
        pb.outputs[0].idx = pb.outputs[0].idx + env.int("delta", 1, 3)
    elif what == "dest":
        k = env.choose("member", [0, 1])
        pb.outputs[k].key.dest = other(env, pb.outputs[k].key.dest)
    elif what == "commitment":
        k = env.choose("member", [0, 1])
        pb.outputs[k].key.commitment = other(env, pb.outputs[k].key.commitment)
    elif what == "tx_key":
        pb.real_out_tx_key = other(env, pb.real_out_tx_key)
    elif what == "additional":
        pb.real_out_additional_tx_keys = [env.key("add")]
    elif what == "mask":
        pb.mask = other(env, pb.mask)
    elif what == "drop":
        pb.outputs = pb.outputs[:1]
    elif what == "extra_member":
        pb.outputs = pb.outputs + [ms.MoneroOutputEntry(idx=99, key=ms.MoneroRctKeyPublic(dest=env.key("xd"), commitment=env.key("xc")))]
    elif what == "swap":
        pb.outputs = [pb.outputs[1], pb.outputs[0]]
    return pb


def bad(env, mid, r, failed, st, what):
    env.check(failed and st is None, "refused: " + what)


def setting(env, phase, kind, sums_ok=True):
    first = phase in ("INPUT_PERM", "FINAL_MESSAGE")
    n = env.int("n", 1 if first else 2, BIG if env.symbolic else 12)
    inp = env.int("inp", -1 if first else 0, -1 if first else BIG if env.symbolic else n - 2)
    env.assume(inp + 1 < n)
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    mid = T.Mid(env, s, phase, n, 2, inp, 1 if kind == "sign" else -1, sums_ok=sums_ok)
    if phase == "INPUT_VINS":
        mid.tok.tsx_state.last_ki = mid.b.last_ki
    return s, mid, n, inp


ADV = ("none", "index", "vini", "fresh", "session", "purpose", "tag_of_sign") + BITS


@contract("C02", "alg", targets=["TTransactionBuilder.input_vini", "TTransactionBuilder.gen_hmac_vini"],
          variants=[{"phase": p, "adv": a} for p in ("INPUT_PERM", "INPUT_VINS") for a in ADV], conc=2, conc_time=3,
          covers=lambda phase, adv: ["accepted"] if adv == "none" else [])
def pin(env, phase, adv):
    """pinning: for any number of inputs and any position, only the announced input with the tag of exactly this position is taken"""
    cr = env.mod("monero_glue.xmr.crypto")
    with T.BpStub(env):
        s, mid, n, inp = setting(env, phase, "vini")
        b = mid.b
        due = mid.perm_at(inp + 1)
        if adv == "index":
            j = env.int("j", 0, BIG if env.symbolic else n - 1)
            env.assume(j < n)
            env.assume(not bool(j == due))
            m = mid.msg("vini", hidx=j)
        else:
            m = mid.msg("vini")
        if adv == "vini":
            m.vini = env.ref.cat(env.cbytes(m.vini)[:-32], other(env, env.cbytes(m.vini)[-32:]))
        elif adv == "fresh":
            m.vini_hmac = other(env, m.vini_hmac)
        elif adv == "session":
            b.key_hmac = other(env, b.key_hmac)
            m.vini_hmac = env.run(b.gen_hmac_vini(m.src_entr, m.vini, due))
        elif adv == "purpose":
            # tags the device issues for other purposes at the same position
            data = env.ref.keccak(b"x")
            key = env.choose("purpose", [b.hmac_key_txin_comm, b.hmac_key_txdst, b.hmac_key_txout])
            m.vini_hmac = cr.compute_hmac(key(due), data)
        elif adv == "tag_of_sign":
            m.vini_hmac = cr.compute_hmac(b.hmac_key_txin_comm(due), m.vini)
        elif adv in BITS:
            m.src_entr = mutate(env, m.src_entr, adv)
        before = mid.tok.tsx_state.tx_prefix_hasher.copy()
        last = mid.tok.tsx_state.last_ki
        ki = env.cbytes(m.vini)[-32:]
        r, failed, st = mid.send(m)
        if adv != "none":
            bad(env, mid, r, failed, st, adv)
            return
        ordered = phase == "INPUT_PERM" or bool(ki < last)
        env.check(failed == (not ordered), "accepted exactly if key images descend")
        if failed:
            bad(env, mid, r, failed, st, "order")
            return
        env.cover("accepted")
        before.update(m.vini)
        env.check(st.tx_prefix_hasher.copy().digest() == before.digest(), "the pinned input is what is hashed into the transaction")
        env.check(env.all([st.inp_idx == inp + 1]), "position advances")


SADV = ADV + ("pseudo", "pseudo_tag", "pseudo_index", "alpha_index", "spend_index", "alpha_spend", "alpha_fresh", "spend_fresh", "spend_session", "other_key")


@contract("C02", "alg", targets=["TTransactionBuilder.sign_input"], variants=[{"phase": p, "adv": a} for p in ("FINAL_MESSAGE", "SIGNATURE") for a in SADV], conc=2, conc_time=3,
          covers=lambda phase, adv: ["accepted"] if adv == "none" else [])
def sign(env, phase, adv):
    """signing: only the announced input, with the secrets the device issued for exactly this position"""
    cr, cp = env.mod("monero_glue.xmr.crypto"), env.mod("monero_glue.xmr.enc.chacha_poly")
    ref = env.ref
    with T.BpStub(env):
        s, mid, n, inp = setting(env, phase, "sign")
        b = mid.b
        due = mid.perm_at(inp + 1)

        def j_():
            j = env.int("j", 0, BIG if env.symbolic else n - 1)
            env.assume(j < n)
            env.assume(not bool(j == due))
            return j
        m = mid.msg("sign", hidx=j_() if adv == "index" else None)
        corrected = bool(due + 1 == n)
        if adv == "vini":
            m.vini = ref.cat(env.cbytes(m.vini)[:-32], other(env, env.cbytes(m.vini)[-32:]))
        elif adv == "fresh":
            m.vini_hmac = other(env, m.vini_hmac)
        elif adv == "session":
            k = b.key_hmac
            b.key_hmac = other(env, b.key_hmac)
            m.vini_hmac = env.run(b.gen_hmac_vini(m.src_entr, m.vini, due))
            b.key_hmac = k
        elif adv in ("purpose", "tag_of_sign"):
            key = env.choose("purpose", [b.hmac_key_txin_comm, b.hmac_key_txdst, b.hmac_key_txout])
            m.vini_hmac = cr.compute_hmac(key(due), ref.keccak(b"x"))
        elif adv in BITS:
            m.src_entr = mutate(env, m.src_entr, adv)
        elif adv in ("pseudo", "pseudo_tag", "pseudo_index"):
            # the pseudo output of the last announced input is recomputed, for the others it has to be the one issued
            if corrected:
                return
            if adv == "pseudo":
                m.pseudo_out = cr.encodepoint(env.point("other"))
            elif adv == "pseudo_tag":
                m.pseudo_out_hmac = other(env, m.pseudo_out_hmac)
            else:
                m.pseudo_out_hmac = cr.compute_hmac(b.hmac_key_txin_comm(j_()), m.pseudo_out)
        elif adv == "alpha_index":
            m.pseudo_out_alpha = cp.encrypt_pack(b.enc_key_txin_alpha(j_()), cr.encodeint(env.scalar("alpha2")))
        elif adv == "spend_index":
            m.spend_key = cp.encrypt_pack(b.enc_key_spend(j_()), ref.encs(s.secret(0)))
        elif adv == "alpha_spend":
            # the two sealed secrets of the position exchanged
            m.pseudo_out_alpha, m.spend_key = m.spend_key, m.pseudo_out_alpha
        elif adv == "alpha_fresh":
            m.pseudo_out_alpha = env.bytes("junk", 60)
        elif adv == "spend_fresh":
            m.spend_key = env.bytes("junk", 60)
        elif adv == "spend_session":
            b.key_enc = other(env, b.key_enc)
            m.spend_key = cp.encrypt_pack(b.enc_key_spend(due), ref.encs(s.secret(0)))
        elif adv == "other_key":
            # a secret the device never issued for an input: does not belong to the ring member that is spent
            x = env.scalar("x")
            env.assume(not bool(ref.sc(x) == s.secret(0)))
            m.spend_key = cp.encrypt_pack(b.enc_key_spend(due), cr.encodeint(x))
        src, full = m.src_entr, b.full_message
        sumout = b.sumout
        r, failed, st = mid.send(m)
        if adv != "none":
            bad(env, mid, r, failed, st, adv)
            return
        env.check(not failed, "the due input is signed")
        if failed:
            return
        env.cover("accepted")
        env.check(env.all([st.inp_idx == inp + 1]), "position advances")
        if not corrected:
            env.check(env.cbytes(r.pseudo_out) == env.cbytes(m.pseudo_out), "pseudo output is the one issued")
        # independent verification of the signature
        xt, mi = env.mod("monero_serialize.xmrtypes"), env.mod("monero_glue.hwtoken.misc")
        mg = env.run(mi.parse_msg(r.signature, xt.MgSig()))
        I = ref.pt(env.cbytes(m.vini)[-32:])
        c = ref.sc(mg.cc)
        off = ref.pt(r.pseudo_out)
        for q, o in enumerate(src.outputs):
            P, Z = ref.pt(o.key.dest), ref.pt(o.key.commitment) - off
            s0, s1 = ref.sc(mg.ss[q][0]), ref.sc(mg.ss[q][1])
            L0, R0, L1 = ref.G * s0 + P * c, ref.Hp(ref.enc(P)) * s0 + I * c, ref.G * s1 + Z * c
            c = ref.Hs(full, ref.enc(P), ref.enc(L0), ref.enc(R0), ref.enc(Z), ref.enc(L1))
        env.check(c == ref.sc(mg.cc) and len(mg.ss) == len(src.outputs), "the signature is over the announced ring and key image")


@contract("C02", "alg", targets=["TTransactionBuilder.tsx_inputs_permutation", "common.check_permutation"],
          variants=[{"n": n, "k": k} for n in range(1, 5) for k in range(0, 6) if k <= n + 1], conc=30, conc_time=5)
def permutation(env, n, k):
    """accepted exactly if it is a bijection on the announced inputs"""
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    ms = env.mod("monero_glue.messages")
    p = [env.int("p%d" % i, -2, n + 1) for i in range(k)]
    with T.BpStub(env):
        mid = T.Mid(env, s, "INPUT_DONE", n, 2, n - 1, -1)
        mid.tok.test_pb_msg = _nothing
        r, failed, st = mid.send(ms.MoneroTransactionInputsPermutationRequest(perm=list(p)))
    ok = k == n and all([bool(x >= 0) and bool(x < n) for x in p]) and all([bool(p[i] != p[j]) for i in range(k) for j in range(i)])
    env.check(failed == (not ok), "accepted exactly if it is a permutation")
    if not failed:
        env.check(env.all([a == b for a, b in zip(st.source_permutation, p)]) and len(st.source_permutation) == n and st.inp_idx == -1, "pinning follows it")


async def _nothing(msg):
    pass


@contract("C02", "alg", targets=["TTransactionBuilder.tsx_inputs_permutation", "TTransactionBuilder.input_vini", "TTransactionBuilder.sign_input"],
          variants=[{"n": 2, "client": 1}, {"n": 2, "client": 0}], conc=2, conc_time=60, conc_variants=[{"n": 2, "client": 1}, {"n": 2, "client": 0}, {"n": 3, "client": 1}])
def histories(env, n, client):
    """every permutation, every sequence of pinned and of signed inputs: each announced input is used exactly once, in the announced order"""
    s = T.Session(env, n_in=n, outs=[("A", (0, 0)), ("me", "change")])
    ms = env.mod("monero_glue.messages")
    hf = 10 if client else 9
    with T.BpStub(env):
        tok = s.token()
        tap = T.Tap(env, tok)
        tx = s.sign(hf, client, token=tap, agent=s.agent(tap, hf, client))
        kinds = [T.kind(m) for m in tap.msgs]
        order = s.order(tx)
        at = kinds.index("perm")
        vmsg = {order[i]: tap.msgs[at + 1 + i] for i in range(n)}
        atsign = kinds.index("sign")
        smsg = {order[i]: tap.msgs[atsign + i] for i in range(n)}

        def send(m):
            r = env.run(tok.tsx_sign(T.clone_msg(env, m)))
            return type(r).__name__ != "Failure"
        for p in itertools.product(range(n), repeat=n):
            tok.tsx_state = T.clone(tap.states[at])
            ok = send(ms.MoneroTransactionInputsPermutationRequest(perm=list(p)))
            env.check(ok == (len(set(p)) == n), "permutations only")
            if not ok:
                continue
            st = tok.tsx_state
            for q in itertools.product(range(n), repeat=n):
                tok.tsx_state = T.clone(st)
                good = True
                for i in range(n):
                    good = good and send(vmsg[q[i]])
                env.check(good == (list(q) == list(p) and list(p) == order), "pinned in the order of descending key images, each once")
        for q in itertools.product(range(n), repeat=n):
            tok.tsx_state = T.clone(tap.states[atsign])
            good = True
            for i in range(n):
                good = good and send(smsg[q[i]])
                if list(q[:i + 1]) != order[:i + 1]:
                    env.check(not good, "a signature only for the input that is due")
            env.check(good == (list(q) == order), "each input is signed once, in the pinned order")
