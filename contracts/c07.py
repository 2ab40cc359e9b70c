"""C07: storing the session between messages changes nothing"""
from pyvc.run import contract
from contracts import txlib as T


class Tape:
    """randomness supply that can be rewound"""
    def __init__(self, env, bp):
        self.env = env
        bp.key = lambda n: self.take("k", 0, lambda: env.key(n))
        self.cr, self.cp = env.mod("monero_glue.xmr.crypto"), env.mod("monero_glue.xmr.enc.chacha_poly")
        self.t, self.i = [], 0

    def rewind(self, i=0):
        self.i = i

    def pos(self):
        return self.i

    def take(self, kind, n, gen):
        if self.i < len(self.t):
            k, m, v = self.t[self.i]
            if (k, m) == (kind, n):
                self.i += 1
                return v
        v = gen()
        if self.i == len(self.t):
            self.t.append((kind, n, v))
        self.i += 1
        return v

    def __enter__(self):
        env = self.env
        self.old = self.cr.random_scalar, self.cr.random_bytes, self.cp.os.urandom
        osc, orb, our = self.old

        def into(r):
            return self.cr.sc_copy(r, self.cr.random_scalar()) if hasattr(self.cr, "sc_copy") else r
        self.cr.random_scalar = lambda: clone_sc(env, self.take("s", 0, osc))
        self.cr.random_bytes = lambda n: self.take("b", n, lambda: orb(n))
        self.cp.os.urandom = lambda n: self.take("u", n, lambda: our(n))
        return self

    def __exit__(self, *a):
        self.cr.random_scalar, self.cr.random_bytes, self.cp.os.urandom = self.old


def clone_sc(env, x):
    """a new object of the same value: scalars may be changed in place"""
    cr = env.mod("monero_glue.xmr.crypto")
    return cr.sc_add(x, cr.sc_0())


def same(env, a, b, where, label):
    """equal in every field"""
    if a is None or b is None:
        env.check(a is None and b is None, label)
    elif hasattr(a, "get_fields") and hasattr(a, "__dict__"):
        env.check(type(a) is type(b) and sorted(a.__dict__) == sorted(b.__dict__), label)
        for k in a.__dict__:
            same(env, a.__dict__[k], b.__dict__.get(k), where + "." + k, label)
    elif isinstance(a, (list, tuple)):
        env.check(len(a) == len(b), label)
        for x, y in zip(a, b):
            same(env, x, y, where, label)
    elif isinstance(a, str) or not hasattr(a, "__len__"):
        env.check(env.all([a == b]), label)
    else:
        env.check(env.cbytes(a) == env.cbytes(b), label)


class Kept:
    """a device that keeps the session in memory and stores it only after the messages numbered in `at`"""

    def __init__(self, env, token, at=(), times=1):
        self.env, self.token, self.at, self.times = env, token, at, times
        ts = env.mod("monero_glue.protocol.tsx_sign")
        self.signer = ts.TsxSigner()
        self.signer.debug = False
        self.n = 0

    def send(self, msg):
        env, sg = self.env, self.signer
        if self.n == 0:
            env.run(sg.wake_up(self.token, None, msg, iface=self.token.iface))
        r = env.run(sg.sign(msg))
        if self.n in self.at:
            for _ in range(self.times):
                st = env.run(sg.state_save())
                sg = self.env.mod("monero_glue.protocol.tsx_sign").TsxSigner()
                sg.debug = False
                env.run(sg.wake_up(self.token, st, _Any(), iface=self.token.iface))
            self.signer = sg
        self.n += 1
        return r


class _Any:
    MESSAGE_WIRE_TYPE = 505 * 1000


CASES = [{"n_in": n, "n_out": m, "hf": h, "client": c, "add": a} for n, m, a in ((1, 2, 0), (2, 2, 0), (1, 3, 1), (1, 2, 1)) for h, c in ((9, 0), (9, 1), (10, 1))]
MODES = ("none", "one", "twice", "alternate")


@contract("C07", "alg", targets=["TTransactionBuilder.state_save", "TTransactionBuilder.state_load", "TsxSigner.state_save", "TsxSigner.wake_up"],
          variants=[dict(v, mode=m) for v in CASES for m in MODES], conc=1, conc_time=10, timeout=400)
def session(env, n_in, n_out, hf, client, add, mode):
    """a session stored after every message answers like one kept in memory, like one stored at single points, and like one stored and loaded twice"""
    outs = [("A", (0, 0)), ("me", "change"), ("B", (0, 1))][:n_out]
    if add and n_out == 2:
        outs = [("A", (0, 1)), ("me", "change")]
    s = T.Session(env, n_in=n_in, outs=outs)
    with T.BpStub(env) as bp, Tape(env, bp) as tape:
        tok = s.token()
        marks = []

        def before(tap, msg):
            marks.append(tape.pos())
        tap = T.Tap(env, tok, before)
        s.sign(hf, client, token=tap, agent=s.agent(tap, hf, client))
        marks.append(tape.pos())
        N = len(tap.msgs)
        if mode == "none":
            runs = [((), 1)]
        elif mode == "one":
            runs = [((k,), 1) for k in range(N - 1)]
        elif mode == "twice":
            runs = [(tuple(range(N - 1)), 2)]
        else:
            runs = [(tuple(range(0, N - 1, 2)), 1), (tuple(range(1, N - 1, 2)), 1)]
        for at, times in runs:
            dev = Kept(env, tok, at, times)
            for k in range(N):
                tape.rewind(marks[k])
                r = env.attempt(lambda: dev.send(T.clone_msg(env, tap.msgs[k])))
                if r.exc is not None:
                    env.internal(r.exc)
                env.check(r.ok, "the message is accepted as with the stored session")
                if not r.ok:
                    return
                env.check(type(r.value) is type(tap.resps[k]), "the answer is of the same kind")
                same(env, r.value, tap.resps[k], "", "every answer is the same")


@contract("C07", "alg", targets=["TTransactionBuilder.state_save", "TTransactionBuilder.state_load", "PreMlsagHasher.state_save", "KeccakXmrArchive.ctx", "TState.state_save"],
          variants=[{"phase": p, "hashers": h} for p in T.PHASES for h in ("both", "rsig", "none")], conc=2, conc_time=3)
def roundtrip(env, phase, hashers):
    """whatever the session holds, every attribute of it is the same after storing and loading"""
    ref, cr = env.ref, env.mod("monero_glue.xmr.crypto")
    s = T.Session(env, n_in=1, outs=[("A", (0, 0))])
    b = T.builder(env, s.creds)
    st = env.mod("monero_glue.protocol.tsx_sign_state").TState
    b.state.s = getattr(st, phase)
    b.state.in_mem = env.choose("inmem", [True, False])
    vals = {}
    for k in list(b.__dict__):
        if k in ("trezor", "state", "tx_prefix_hasher", "full_message_hasher") or k.startswith("_") or k.startswith("STEP"):
            continue
        # any value, of the kinds that occur: bytes, number, scalar, point, list, dictionary, absent, false
        vals[k] = env.choose("kind_" + k, [0, 1, 2, 3, 4, 5, 6, 7]) if not env.symbolic else (len(vals) + T.PHASES.index(phase)) % 8
        v = [lambda: env.key(k), lambda: env.int(k, 0, 2 ** 64), lambda: env.scalar(k), lambda: env.point(k), lambda: [env.key(k), env.key(k + "x")],
             lambda: {b"a": env.key(k)}, lambda: None, lambda: False][vals[k]]()
        vals[k] = v
        setattr(b, k, v)
    pre = [env.key("h%d" % i) for i in range(4)]
    env.run(b.tx_prefix_hasher.buffer(pre[0]))
    f = b.full_message_hasher
    f.init(env.choose("simple", [True, False]))
    env.run(f.set_type_fee(4, 7))
    env.run(f.set_message(pre[1]))
    f.rsig_hasher.update(pre[2])
    env.run(f.set_ecdh(pre[3]))
    if hashers == "rsig":
        env.run(f.set_out_pk(pre[0]))
        env.run(f.rctsig_base_done())
    if hashers == "none":
        b.tx_prefix_hasher = None
        b.full_message_hasher = None
    want = hashes(env, b)
    simple, fs = (f.is_simple, f.state) if hashers != "none" else (None, None)
    saved = b.state_save()
    bm = env.mod(T.BLD)
    b2 = bm.TTransactionBuilder(b.trezor, s.creds, state=saved)
    env.check(b2.state.s == b.state.s and b2.state.in_mem == b.state.in_mem, "phase")
    for k, v in vals.items():
        w = getattr(b2, k, "absent")
        env.check(w is v or (type(w) is type(v) and bool(w == v)), "attribute survives")
    env.check(set(b2.__dict__) == set(b.__dict__), "the same attributes")
    if hashers == "none":
        env.check(b2.tx_prefix_hasher is None and b2.full_message_hasher is None, "no hashers")
        return
    got = hashes(env, b2)
    env.check(len(got) == len(want) and env.all([x == y for x, y in zip(got, want)]), "hashers continue from the same point")
    env.check(b2.full_message_hasher.is_simple == simple and b2.full_message_hasher.state == fs, "phase of the message hash")


def hashes(env, b):
    """what each hasher yields now (contexts are copied, so that the hashers are not disturbed)"""
    out = []
    if b.tx_prefix_hasher is not None:
        out.append(b.tx_prefix_hasher.ctx().copy().digest())
    f = b.full_message_hasher
    if f is not None:
        out.append(f.kc_master.ctx.copy().digest())
        out.append(f.rsig_hasher.copy().digest())
        out.append(f.rtcsig_hasher.ctx().copy().digest() if f.rtcsig_hasher is not None else b"none")
    return out


@contract("C07", "alg", targets=["token.TokenLite.tsx_sign"], variants=[{"n_in": n, "n_out": m} for n, m in ((1, 2), (2, 3))], conc=1, conc_time=5)
def holder(env, n_in, n_out):
    """the stored session does not depend on the object that stored it"""
    outs = [("A", (0, 0)), ("me", "change"), ("B", (0, 1))][:n_out]
    s = T.Session(env, n_in=n_in, outs=outs)
    with T.BpStub(env) as bp, Tape(env, bp) as tape:
        tok = s.token()
        marks = []
        tap = T.Tap(env, tok, lambda tap, msg: marks.append(tape.pos()))
        s.sign(token=tap)
        for k in range(1, len(tap.msgs)):
            # another device object continues from the stored session
            t2 = s.token()
            t2.tsx_state = T.clone(tap.states[k])
            tape.rewind(marks[k])
            r = env.run(t2.tsx_sign(T.clone_msg(env, tap.msgs[k])))
            same(env, r, tap.resps[k], "", "another device object gives the same answer")
