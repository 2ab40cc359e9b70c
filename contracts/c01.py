"""C01: phases of the signing session"""
from pyvc.run import contract
from contracts import txlib as T

NEXT = {  # message -> phases in which it may succeed
    "input": ("INP_CNT", "INPUT"), "perm": ("INPUT_DONE",), "vini": ("INPUT_PERM", "INPUT_VINS"), "allin": ("INPUT_VINS",),
    "output": ("INPUT_ALL_DONE", "OUTPUT"), "allout": ("OUTPUT",), "sign": ("FINAL_MESSAGE", "SIGNATURE"), "final": ("SIGNATURE_DONE",),
}
KINDS = ["input", "perm", "vini", "allin", "output", "offl", "allout", "sign", "final"]
DEAD = set()
BIG = 2 ** 20


def refused(env, mid, r, failed, st):
    env.check(failed, "refused")
    env.check(st is None, "the session is destroyed")
    env.check(r.__class__.__name__ == "Failure" and isinstance(r.message, (str, type(None))), "nothing but a failure is returned")


@contract("C01", "alg", targets=["token.TokenLite.tsx_sign", "tsx_sign.TsxSigner.sign", "TState", "TTransactionBuilder.*"],
          variants=[{"kind": k, "phase": p} for k in KINDS for p in T.PHASES], conc=1, conc_time=3,
          covers=lambda kind, phase: ["success"] if phase in NEXT.get(kind, ()) and (kind, phase) not in DEAD else [])
def step(env, kind, phase):
    """inductive step: from any phase and any counters every message is refused or advances as prescribed; for any number of inputs and outputs"""
    n = env.int("n", 1, BIG if env.symbolic else 40)
    m = env.int("m", 1, BIG if env.symbolic else 40)
    inp = env.int("inp", -1, BIG if env.symbolic else 41)
    out = env.int("out", -1, BIG if env.symbolic else 41)
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    with T.BpStub(env):
        mid = T.Mid(env, s, phase, n, m, inp, out, fee_ok=env.bool("fee_ok") if kind == "allout" else False,
                    sums_ok=env.bool("sums_ok") if kind == "sign" else False, npk=2)
        r, failed, st = mid.send(mid.msg(kind))
    if phase not in NEXT.get(kind, ()):
        refused(env, mid, r, failed, st)
        return
    if failed:
        refused(env, mid, r, failed, st)
        return
    env.cover("success")
    if kind == "final":
        env.check(st is None, "a finished session is destroyed")
        return
    ph, i2, o2 = mid.phase(st)
    env.check(env.all([st.input_count == n, st.output_count == m]), "declared totals stay")
    if kind == "input":
        env.check(i2 == inp + 1, "one input is counted")
        env.check(i2 < n, "not more inputs than declared")
        env.check(ph == ("INPUT_DONE" if bool(i2 + 1 == n) else "INPUT"), "inputs are done exactly when all are announced")
    elif kind == "perm":
        env.check(ph == "INPUT_PERM" and i2 == -1, "pinning starts at the first input")
    elif kind == "vini":
        env.check(env.all([i2 == inp + 1, i2 < n]) and ph == "INPUT_VINS", "one input is pinned")
    elif kind == "allin":
        env.check(env.all([inp + 1 == n]), "inputs are closed only when each was pinned")
        env.check(ph == "INPUT_ALL_DONE" and i2 == inp, "inputs are closed")
    elif kind == "output":
        env.check(env.all([i2 == inp, inp + 1 == n]), "outputs are processed only when every input was pinned")
        env.check(env.all([o2 == out + 1, o2 < m]) and ph == "OUTPUT", "one output is counted, not more than declared")
    elif kind == "allout":
        env.check(env.all([out + 1 == m]), "closed only when every output was processed")
        env.check(ph == "FINAL_MESSAGE" and i2 == -1, "signing starts at the first input")
    elif kind == "sign":
        env.check(env.all([i2 == inp + 1, i2 < n]), "one signature is counted, not more than declared")
        env.check(ph == ("SIGNATURE_DONE" if bool(i2 + 1 == n) else "SIGNATURE"), "signing is done exactly when all inputs are signed")


@contract("C01", "alg", targets=["token.TokenLite.tsx_sign", "tsx_sign.TsxSigner.*", "TTransactionBuilder.*"],
          variants=[{"n_in": 1, "n_out": 2}, {"n_in": 2, "n_out": 2}, {"n_in": 1, "n_out": 3}], conc=1, conc_time=60)
def matrix(env, n_in, n_out):
    """at every point of a genuine session, every message of the session is answered with an error except the one that is due"""
    outs = [("A", (0, 0)), ("me", "change"), ("B", (0, 1))][:n_out]
    s = T.Session(env, n_in=n_in, outs=outs)
    with T.BpStub(env):
        tok = s.token()
        tap = T.Tap(env, tok)
        s.sign(token=tap)
        N = len(tap.msgs)
        kinds = [T.kind(m) for m in tap.msgs]
        pos = [kinds[:i].count(k) for i, k in enumerate(kinds)]
        env.check(kinds == ["init"] + ["input"] * n_in + ["perm"] + ["vini"] * n_in + ["allin"] + (["output"] * n_out if n_out < 3 else ["output"] * n_out + ["offl"])
                  + ["allout"] + ["sign"] * n_in + ["final"], "order of the protocol")
        env.check(tok.tsx_state is None, "a finished session is destroyed")
        for k in range(N):
            for j in range(N):
                if kinds[j] == "init":
                    continue
                due = kinds[j] == kinds[k] and (pos[j] == pos[k] or kinds[j] == "input")
                tok.tsx_state = T.clone(tap.states[k])
                r = env.run(tok.tsx_sign(T.clone_msg(env, tap.msgs[j])))
                failed = type(r).__name__ == "Failure"
                env.check(failed != due, "message %s is accepted exactly when it is due" % kinds[j])
                if not due:
                    env.check(tok.tsx_state is None, "the session is destroyed by a message out of order")
            if k == 0:
                continue
            # whatever follows a refused message is refused
            tok.tsx_state = T.clone(tap.states[k])
            env.run(tok.tsx_sign(T.clone_msg(env, tap.msgs[1 if kinds[k] != "input" else N - 1])))
            r = env.run(tok.tsx_sign(T.clone_msg(env, tap.msgs[k])))
            env.check(type(r).__name__ == "Failure" and tok.tsx_state is None, "nothing is answered after a refusal")


@contract("C01", "alg", targets=["TTransactionBuilder._s6_validate", "TTransactionBuilder._s6_range_proof", "TTransactionBuilder.all_out1_set"],
          variants=[{"kind": k, "grp": g, "det": d} for k in ("output", "offl", "allout") for g in ([3], [2, 1], [1, 2], [1, 1, 1], [4], [2, 2], [2, 1, 1]) for d in (True, False)],
          conc=2, conc_time=3)
def offload(env, kind, grp, det):
    """range proofs made by the host: demanded after the last output of each group, before anything else happens"""
    m = sum(grp)
    out = env.choose("out", list(range(-1, m)))
    ends = [sum(grp[:i + 1]) - 1 for i in range(len(grp))]
    processing = env.bool("processing")
    # invariant of the stored session: an offloaded proof was the last message only right after the end of a group
    env.assume(not processing or (out in ends and det))
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    with T.BpStub(env):
        mid = T.Mid(env, s, "OUTPUT" if out >= 0 else "INPUT_ALL_DONE", 1, m, 0, out, bp=2 if det else 1, client=1 if det else 0, offload=True, grouping=grp, processing=processing,
                    fee_ok=True, npk=out + 1)
        r, failed, st = mid.send(mid.msg(kind))
    pending = out in ends and not processing and det
    if kind == "output":
        ok = not pending and out + 1 < m
    elif kind == "offl":
        ok = pending
    else:
        ok = out + 1 == m and not pending
    if not ok:
        refused(env, mid, r, failed, st)
        return
    if failed:
        refused(env, mid, r, failed, st)
    else:
        env.cover("success")
        ph, i2, o2 = mid.phase(st)
        env.check(env.all([o2 == (out + 1 if kind == "output" else out if kind == "offl" else -1)]), "outputs counted")


@contract("C01", "alg", targets=["TTransactionBuilder.init_transaction", "tsx_sign.TsxSigner.wake_up"], variants=[{"phase": p} for p in T.PHASES], conc=2, conc_time=3)
def restart(env, phase):
    """an init message begins a session of its own whatever was stored"""
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    with T.BpStub(env):
        mid = T.Mid(env, s, phase, env.int("n", 1, 40), env.int("m", 1, 40), env.int("inp", -1, 40), env.int("out", -1, 40))
        r, failed, st = mid.send(mid.msg("init"))
        env.check(not failed, "a session can be begun")
        ph, i2, o2 = mid.phase(st)
        env.check(ph == "INP_CNT" and env.all([i2 == -1, o2 == -1, st.input_count == 1, st.output_count == 2]), "it begins at the start")
        env.check(env.all([st.summary_inputs_money == 0, st.summary_outs_money == 0]) and not st.output_pk and not st.output_amounts and not st.output_masks
                  and not st.source_permutation, "nothing is left of the old session")
        b = mid.b
        env.check(not bool(st.key_hmac == b.key_hmac) and not bool(st.key_enc == b.key_enc) and not bool(st.key_master == b.key_master), "keys are new")
        # messages that carry tags of the old session are refused
        mid.tok.tsx_state = st
        r = env.run(mid.tok.tsx_sign(mid.msg("vini", hidx=0)))
        env.check(type(r).__name__ == "Failure" and mid.tok.tsx_state is None, "the old session cannot be continued")


@contract("C01", "alg", targets=["TTransactionBuilder.init_transaction"], variants=[{"n_out": 2}, {"n_out": 3}], conc=2, conc_time=5)
def rejected(env, n_out):
    """without the user's confirmation there is no session"""
    outs = [("A", (0, 0)), ("me", "change"), ("B", (0, 1))][:n_out]
    s = T.Session(env, n_in=1, outs=outs)
    with T.BpStub(env):
        tok = s.token()
        tap = T.Tap(env, tok)
        s.sign(token=tap)
        no = s.token(confirm=False)
        r = env.run(no.tsx_sign(T.clone_msg(env, tap.msgs[0])))
        env.check(type(r).__name__ == "Failure", "rejected transaction is refused")
        left = no.tsx_state
        for i in range(1, len(tap.msgs)):
            no.tsx_state = T.clone(left)
            r = env.run(no.tsx_sign(T.clone_msg(env, tap.msgs[i])))
            env.check(type(r).__name__ == "Failure", "no message is answered after a rejection")
