"""Contracts, the two-mode environment they are written against, and the runner.

A contract is a function  c(env, **variant)  that creates inputs through env, calls the real code and states
what must hold with env.check.  The same text is run
  * in mode 'sym'  on bit-precise symbolic values (obligations to z3 / cvc5),
  * in mode 'alg'  over the abstract prime-order group (obligations to polynomial normal form, z3 for integers),
  * in mode 'conc' on the plain repository code with concrete values: bounded stand-in, cross-check of the
    engine against CPython, and replay of refuted obligations.
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
REPO = os.environ.get("PYVC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

L = 2 ** 252 + 27742317777372353535851937790883648493

REG = []


class Contract:
    def __init__(self, fn, pid, name, mode, targets, variants, thorough, conc, backend, timeout, trusted, key, max_paths,
                 conc_variants, solver_ms, conc_time, always_exc=False, covers=None, aux=False):
        self.__dict__.update(locals())


def contract(pid, mode="sym", targets=(), variants=({},), thorough=None, conc=25, backend="trezor", timeout=300,
             trusted=(), max_paths=4000, conc_variants=None, solver_ms=60000, conc_time=25, covers=None, aux=False):
    """mode: sym | alg | bounded (concrete only)
    aux: extends sibling contracts over the same functions to all iterations by a loop invariant; if the invariant does not fit
    a changed loop the siblings still decide, so this alone is reported as undecided"""
    def deco(fn):
        c = Contract(fn, pid, fn.__name__, mode, list(targets), list(variants), list(thorough) if thorough is not None else None,
                     conc, backend, timeout, list(trusted), fn.__name__, max_paths,
                     list(conc_variants) if conc_variants is not None else None, solver_ms, conc_time, covers=covers, aux=aux)
        REG.append(c)
        return fn
    return deco


class CheckFailed(Exception):
    pass


class Skip(BaseException):
    """concrete input outside the precondition"""


class Res:
    """result of env.attempt"""
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
        self.ok = exc is None


def repo_frame(tb):
    """is there a frame of the repository (or of a library it called) above the harness?"""
    last_h = -1
    frames = traceback.extract_tb(tb)
    for i, f in enumerate(frames):
        if f.filename.startswith(os.path.join(HERE, "contracts")):
            last_h = i
    for f in frames[last_h + 1:]:
        if f.filename.startswith(REPO + "/") or f.filename.startswith(os.path.realpath(REPO) + "/"):
            return True
    return False


ENGINE_NAMES = ("'VBytes'", "'VBytearray'", "'VMem'", "'SInt'", "'SBool'", "'XB'", "'Zl'", "'Pt'", "'RandInt'", "VBytes", "'SChoice'",
                "'OpaqueBits'", "'AlgKeccak'", "'FakeHmac'", "bytes_", "'int_'")


def engine_limit(e):
    return isinstance(e, (TypeError, AttributeError)) and any(n in str(e) for n in ENGINE_NAMES)


# ---------------------------------------------------------------------------------------------------------
class BaseEnv:
    symbolic = False
    alg = False

    def mod(self, name):
        return importlib.import_module(name)

    _ref = None

    @property
    def ref(self):
        if self._ref is None:
            from . import ref
            self._ref = (ref.AlgRef if self.alg else ref.ConcRef)(self)
        return self._ref

    def attempt(self, fn, *a, **k):
        try:
            return Res(fn(*a, **k))
        except Exception as e:
            if engine_limit(e) and self.symbolic:
                from . import core
                raise core.Undecided("engine limit: %s" % e)
            return Res(exc=e)

    def internal(self, e):
        """an exception the code under test caught: a limit of the engine is not the code's failure"""
        if self.symbolic and engine_limit(e):
            from . import core
            raise core.Undecided("engine limit: %s | %s" % (e, tbtext(e)))
        if os.environ.get("PYVC_DEBUG"):
            sys.__stderr__.write(tbtext(e) + "\n")

    def run(self, coro):
        """drive a coroutine of the code under test (nothing in it suspends)"""
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value
        raise RuntimeError("coroutine suspended")

    def refuses(self, label, fn, *a, **k):
        r = self.attempt(fn, *a, **k)
        self.check(not r.ok, label)
        return r

    def equal(self, a, b, label):
        self.check(a == b, label)

    def cover(self, name):
        """this point is reached (guards against a contract that holds because nothing gets there)"""
        if self.symbolic:
            self.ctx.covers.add(name)


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, ctx, alg):
        self.ctx = ctx
        self.alg = alg
        from . import core, vbytes, load
        self.core, self.vb, self.load = core, vbytes, load
        if alg:
            from . import alg as A
            self.A = A

    def int(self, name, lo, hi):
        return self.core.fresh_int(name, lo, hi)

    def bv(self, name, bits, hi=None):
        return self.core.fresh_bv(name, bits, hi)

    def u64(self, name):
        return self.core.fresh_int(name, 0, 2 ** 64 - 1)

    def bool(self, name):
        return self.core.fresh_bool(name)

    def choose(self, name, opts):
        opts = list(opts)
        if len(opts) == 1:
            return opts[0]
        i = self.ctx.choice(len(opts))
        nm = self.ctx.fresh(name)
        self.ctx.inputs[nm] = lambda m, i=i: i
        return opts[i]

    def bytes(self, name, n, kind="b"):
        if self.alg:
            return self.load.fresh_opaque(name, n)
        return (self.vb.sym_bytes if kind == "b" else self.vb.sym_bytes_i)(name, n)

    def symbytes(self, name, n):
        return self.vb.sym_bytes(name, n)

    def scalar(self, name):
        return self.mod("monero_glue.xmr.core.ec_py").EdScalar(self.load.fresh_scalar(name))

    def point(self, name):
        return self.mod("monero_glue.xmr.core.ec_py").EdPoint(self.load.fresh_point(name))

    def key(self, name):
        """32 byte opaque value"""
        return self.load.fresh_opaque(name, 32)

    def check(self, cond, label):
        self.ctx.prove(cond, label)

    def assume(self, cond):
        self.ctx.assume(cond)

    def ints(self, name, n, lo, hi):
        return [self.int("%s%d" % (name, i), lo, hi) for i in range(n)]

    def scalars(self, name, n):
        return [self.scalar("%s%d" % (name, i)) for i in range(n)]

    def note(self, s):
        self.ctx.assumptions.add(s)

    def copy(self, x):
        import copy
        return copy.deepcopy(x)

    def implies(self, a, b):
        a = a if not isinstance(a, self.core.SBool) else a
        if a is True:
            return b
        if a is False:
            return True
        return (~a) | b if not isinstance(b, bool) or not b else True

    def all(self, conds):
        r = True
        for c in conds:
            if c is False:
                return False
            if c is True:
                continue
            r = c if r is True else r & c
        return r

    def cbytes(self, b):
        return self.load.bytes_(b)

    def ba(self, b):
        return self.load.bytearray_(b)


class ConcEnv(BaseEnv):
    def __init__(self, seed, given=None, backend="trezor"):
        self.rng = random.Random(seed)
        self.given = dict(given or {})
        self.used = {}
        self.ctr = {}
        self.failed = []
        self.checks = 0
        self.backend = backend
        self.labels = {}

    def _nm(self, name):
        n = self.ctr.get(name, 0)
        self.ctr[name] = n + 1
        return "%s!%d" % (name, n) if n else name

    def _val(self, name, gen):
        nm = self._nm(name)
        if nm in self.given:
            v = self.given[nm]
        else:
            v = gen()
        self.used[nm] = v
        return v

    def _gint(self, lo, hi):
        r = self.rng
        k = r.random()
        if k < 0.12:
            return lo
        if k < 0.22:
            return hi
        if k < 0.32:
            return min(hi, lo + r.randrange(0, 4))
        if k < 0.40:
            return max(lo, hi - r.randrange(0, 4))
        if k < 0.6 and hi - lo > 256:
            p = 1 << r.randrange(0, (hi - lo).bit_length())
            return max(lo, min(hi, p + r.choice([-1, 0, 1])))
        if k < 0.8 and hi - lo > 2 ** 16:
            return lo + r.randrange(0, 1 << r.randrange(1, (hi - lo).bit_length())) if hi - lo > 1 else lo
        return r.randint(lo, hi)

    def int(self, name, lo, hi):
        return self._val(name, lambda: self._gint(lo, hi))

    def bv(self, name, bits, hi=None):
        return self.int(name, 0, (1 << bits) - 1 if hi is None else hi)

    def u64(self, name):
        return self.int(name, 0, 2 ** 64 - 1)

    def bool(self, name):
        return bool(self._val(name, lambda: self.rng.random() < 0.5))

    def choose(self, name, opts):
        opts = list(opts)
        if len(opts) == 1:
            return opts[0]
        return opts[self._val(name, lambda: self.rng.randrange(len(opts)))]

    def _gbytes(self, n):
        k = self.rng.random()
        if k < 0.08:
            return bytes(n)
        if k < 0.16:
            return b"\xff" * n
        if k < 0.24 and n:
            return bytes(self.rng.randrange(n)) .ljust(n, b"\xff") if n > 1 else b"\x80"
        if k < 0.30 and n:
            i = self.rng.randrange(n)
            return bytes(i) + b"\x80" + bytes(n - 1 - i)
        return bytes(self.rng.randrange(256) for _ in range(n))

    def bytes(self, name, n, kind="b"):
        return bytes.fromhex(self._val(name, lambda: self._gbytes(n).hex()))

    symbytes = bytes

    def scalar_int(self, name):
        def g():
            k = self.rng.random()
            if k < 0.04:
                return self.rng.choice([1, 2, L - 1, 8, 2 ** 252, L - 2])
            return self.rng.randrange(1, L)
        v = self._val(name, g)
        return int(v)

    def scalar(self, name):
        v = self.scalar_int(name)
        return self.mod("monero_glue.xmr.crypto").decodeint(v.to_bytes(32, "little"))

    def point(self, name):
        def g():
            return self.rng.randrange(1, L)
        v = int(self._val(name, g))
        cr = self.mod("monero_glue.xmr.crypto")
        return cr.scalarmult_base(cr.decodeint(v.to_bytes(32, "little")))

    def key(self, name):
        return bytes.fromhex(self._val(name, lambda: bytes(self.rng.randrange(256) for _ in range(32)).hex()))

    def check(self, cond, label):
        self.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            raise CheckFailed(label)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def ints(self, name, n, lo, hi):
        return [self.int("%s%d" % (name, i), lo, hi) for i in range(n)]

    def scalars(self, name, n):
        return [self.scalar("%s%d" % (name, i)) for i in range(n)]

    def note(self, s):
        pass

    def copy(self, x):
        import copy
        return copy.deepcopy(x)

    def implies(self, a, b):
        return (not a) or b

    def all(self, conds):
        return all(conds)

    def cbytes(self, b):
        return bytes(b)

    def ba(self, b):
        return bytearray(b)


# ---------------------------------------------------------------------------------------------------------
def seed_of(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], "big")


def setup_conc(backend):
    os.environ["EC_BACKEND"] = "1" if backend == "trezor" else "0"
    if backend == "trezor":
        os.environ["EC_BACKEND_FORCE"] = "1"
    else:
        os.environ.pop("EC_BACKEND_FORCE", None)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)


def quiet():
    """the code under test prints; keep the check's stdout clean"""
    dn = open(os.devnull, "w")
    sys.stdout = dn


def run_sym(c, variant, deadline):
    from . import core, load
    quiet()
    if c.mode == "alg":
        load.setup_algebra()
    else:
        load.setup(True)
        os.environ["EC_BACKEND"] = "0"
    if hasattr(c.fn, "prepare"):
        c.fn.prepare()
    import logging
    logging.disable(logging.CRITICAL)
    ctx = core.Ctx(timeout_ms=c.solver_ms, max_paths=c.max_paths)
    ctx.alg = c.mode == "alg"
    ctx.covers = set()
    status = "ok"
    reason = None

    def once():
        env = SymEnv(ctx, c.mode == "alg")
        load.FINDER.restore()
        try:
            c.fn(env, **variant)
        except CheckFailed:
            raise
        except Exception as e:
            if engine_limit(e):
                raise core.Undecided("engine limit: %s | %s" % (e, tbtext(e)))
            if not repo_frame(e.__traceback__):
                raise core.Undecided("harness: %s" % tbtext(e))
            if ctx.prove(False, "no unexpected %s" % type(e).__name__, kind="exception"):
                return
            ctx.obligations[-1]["detail"] = tbtext(e)
    try:
        ctx.explore(once)
    except core.Undecided as e:
        status, reason = "undecided", str(e) or repr(e)
    except RecursionError as e:
        status, reason = "undecided", "recursion"
    except MemoryError:
        status, reason = "undecided", "memory"
    files = {k: v for k, v in load.FINDER.loaded.items()}
    obl = {}
    for o in ctx.obligations:
        k = o["label"]
        s = obl.setdefault(k, {"label": k, "n": 0, "discharged": 0, "refuted": 0, "undecided": 0, "backends": {}, "time": 0.0})
        s["n"] += 1
        s[o["status"]] += 1
        s["backends"][o["backend"]] = s["backends"].get(o["backend"], 0) + 1
        s["time"] += o["time"]
        if o["status"] == "refuted" and "model" not in s:
            s["model"] = o.get("model")
            s["detail"] = o.get("detail")
    want = set(c.covers(**variant) if callable(c.covers) else c.covers or ())
    if status == "ok" and want - ctx.covers:
        status, reason = "undecided", "vacuous: never reached: %s" % sorted(want - ctx.covers)
    return {"status": status, "reason": reason, "covers": sorted(ctx.covers), "obligations": list(obl.values()), "paths": ctx.paths,
            "infeasible": ctx.infeasible, "assumptions": sorted(ctx.assumptions), "solver_time": round(ctx.solver_time, 2),
            "files": sorted(files)}


def tbtext(e):
    fr = traceback.extract_tb(e.__traceback__)[-4:]
    return "%s: %s @ %s" % (type(e).__name__, str(e)[:300], " < ".join("%s:%s(%s)" % (f.filename, f.lineno, f.name) for f in fr[::-1]))


def conc_once(c, variant, seed, given, backend):
    """returns (failure or None, env, skipped)"""
    import random as _r
    st = _r.getstate()
    _r.seed(seed)
    env = ConcEnv(seed, given, backend)
    env.variant = variant
    try:
        c.fn(env, **variant)
        return None, env, False
    except Skip:
        return None, env, True
    except CheckFailed as e:
        return {"label": str(e), "inputs": env.used}, env, False
    except RecursionError as e:
        raise
    except Exception as e:
        if repo_frame(e.__traceback__):
            return {"label": "no unexpected %s" % type(e).__name__, "inputs": env.used, "detail": tbtext(e)}, env, False
        return {"harness": tbtext(e)}, env, False
    finally:
        _r.setstate(st)


def run_conc(c, variant, iters, budget, backend, given=None):
    quiet()
    setup_conc(backend)
    t0 = time.time()
    n = sk = checks = 0
    labels = {}
    harness = None
    i = 0
    while (i < iters) and (time.time() - t0 < budget or i == 0):
        seed = seed_of(SEED, c.pid, c.name, sorted(variant.items()), i)
        f, env, skipped = conc_once(c, variant, seed, given if i == 0 else None, backend)
        i += 1
        if skipped:
            sk += 1
            continue
        n += 1
        checks += env.checks
        for k, v in env.labels.items():
            labels[k] = labels.get(k, 0) + v
        if f is not None:
            if "harness" in f:
                harness = f["harness"]
                break
            f.update(seed=seed, given=bool(given) and i == 1, backend=backend)
            return {"status": "failed", "failure": f, "runs": n, "skipped": sk, "checks": checks, "labels": labels}
        if given and iters == 1:
            break
    return {"status": "harness" if harness else "ok", "reason": harness, "runs": n, "skipped": sk, "checks": checks, "labels": labels}


def _child(conn, kind, idx, variant, kw):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        sys.setrecursionlimit(20000)
        c = REG[idx]
        if kind == "sym":
            r = run_sym(c, variant, None)
        else:
            r = run_conc(c, variant, **kw)
    except BaseException as e:
        r = {"status": "crash", "reason": tbtext(e) + "\n" + traceback.format_exc()[-1500:]}
    try:
        conn.send_bytes(json.dumps(r, default=repr).encode())
        conn.close()
    finally:
        os._exit(0)


class Task:
    def __init__(self, kind, idx, variant, timeout, **kw):
        self.kind, self.idx, self.variant, self.timeout, self.kw = kind, idx, variant, timeout, kw
        self.result = None
        self.t0 = None


def run_tasks(tasks, jobs, deadline):
    mp = multiprocessing.get_context("fork")
    pend = list(tasks)
    live = []
    while pend or live:
        while pend and len(live) < jobs and time.time() < deadline:
            t = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(b, t.kind, t.idx, t.variant, t.kw))
            p.start()
            b.close()
            t.t0 = time.time()
            live.append((t, p, a))
        if pend and time.time() >= deadline:
            for t in pend:
                t.result = {"status": "timeout", "reason": "check budget exhausted before the task started"}
                t.wall = 0
            pend = []
        nl = []
        for t, p, a in live:
            if a.poll(0):
                try:
                    t.result = json.loads(a.recv_bytes().decode())
                except EOFError:
                    t.result = {"status": "crash", "reason": "worker died"}
                t.wall = round(time.time() - t.t0, 2)
                p.join(10)
                if p.is_alive():
                    p.kill()
                a.close()
            elif time.time() - t.t0 > t.timeout or time.time() > deadline + 5:
                p.kill()
                p.join(10)
                t.result = {"status": "timeout", "reason": "time limit of %d s" % t.timeout}
                t.wall = round(time.time() - t.t0, 2)
            else:
                nl.append((t, p, a))
        live = nl
        if live:
            time.sleep(0.02)
    return tasks


# ---------------------------------------------------------------------------------------------------------
def load_contracts(pid):
    sys.path.append(VT)
    importlib.import_module("contracts." + pid.lower())
    return [i for i, c in enumerate(REG) if c.pid == pid]


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def write_replay(pid, rec):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(rec, sort_keys=True, default=repr).encode()).hexdigest()[:12]
    p = os.path.join(d, "%s-%s.json" % (pid, h))
    json.dump(rec, open(p, "w"), indent=1, sort_keys=True, default=repr)
    return p


def check_property(pid, tier="quick", only=None, verbose=False):
    t_start = time.time()
    limit = 800 if tier == "quick" else 3600 * 3
    if tier == "quick":
        limit = int(os.environ.get("PYVC_LIMIT", "700"))
    deadline = t_start + limit
    idxs = load_contracts(pid)
    if only:
        idxs = [i for i in idxs if REG[i].name in only]
    jobs = int(os.environ.get("PYVC_JOBS", "8"))
    mult = 1 if tier == "quick" else 20
    sym, conc = [], []
    for i in idxs:
        c = REG[i]
        vs = c.variants if tier == "quick" or c.thorough is None else c.variants + c.thorough
        if c.mode in ("sym", "alg"):
            for v in vs:
                sym.append(Task("sym", i, v, c.timeout if tier == "quick" else max(c.timeout, 1800)))
        cv = vs if c.conc_variants is None else c.conc_variants
        if c.conc:
            for v in cv:
                for b in (c.backend.split("+")):
                    conc.append(Task("conc", i, v, c.conc_time * mult + 120, iters=c.conc * mult, budget=c.conc_time * mult, backend=b))
    # longest first is unknown; interleave proofs first
    run_tasks(sym + conc, jobs, deadline)

    violations, undecided, bounded = [], [], []
    obl_total = obl_ok = 0
    backends = {}
    assumptions = set()
    trusted = set()
    per_contract = []
    solver_time = 0.0
    seen = set()

    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
    known_hit = {}

    def add_violation(c, variant, label, failure, proof):
        key = (c.name, label)
        for k in known:
            if k.get("contract") == c.name and k.get("label") == label and all(variant.get(a) == b for a, b in (k.get("variant") or {}).items()):
                known_hit[k["id"]] = k
                return
        if key in seen:
            return
        seen.add(key)
        violations.append((c, variant, label, failure, proof))

    # concrete failures
    for t in conc:
        c, r = REG[t.idx], t.result
        rec = {"contract": c.name, "variant": t.variant, "backend": t.kw["backend"], "status": r["status"], "runs": r.get("runs", 0),
               "checks": r.get("checks", 0), "skipped": r.get("skipped", 0), "wall": getattr(t, "wall", 0)}
        if r.get("reason"):
            rec["reason"] = r["reason"]
        bounded.append(rec)
        if r["status"] == "failed":
            add_violation(c, t.variant, r["failure"]["label"], r["failure"], None)
        elif r["status"] in ("crash", "harness", "timeout"):
            undecided.append({"contract": c.name, "variant": t.variant, "kind": "bounded", "reason": r.get("reason")})
    refuted = []
    for t in sym:
        c, r = REG[t.idx], t.result
        entry = {"contract": c.name, "mode": c.mode, "variant": t.variant, "targets": c.targets, "status": r["status"],
                 "paths": r.get("paths"), "wall": getattr(t, "wall", 0), "solver_time": r.get("solver_time"), "obligations": []}
        if r.get("reason"):
            entry["reason"] = r["reason"]
        per_contract.append(entry)
        solver_time += r.get("solver_time") or 0
        assumptions.update(r.get("assumptions") or [])
        if r["status"] != "ok":
            undecided.append({"contract": c.name, "variant": t.variant, "kind": "proof", "reason": r.get("reason"), "status": r["status"]})
        if r["status"] == "ok" and not r.get("obligations"):
            undecided.append({"contract": c.name, "variant": t.variant, "kind": "proof", "reason": "no obligation was generated"})
        for o in r.get("obligations") or []:
            obl_total += o["n"]
            obl_ok += o["discharged"]
            for b, n in o["backends"].items():
                backends[b] = backends.get(b, 0) + n
            entry["obligations"].append({k: o[k] for k in ("label", "n", "discharged", "refuted", "undecided", "time")})
            if o["refuted"]:
                refuted.append((c, t.variant, o))
            if o["undecided"]:
                undecided.append({"contract": c.name, "variant": t.variant, "kind": "obligation", "label": o["label"],
                                  "reason": "solver gave no answer"})
    # replay refuted obligations on the real code
    rt = []
    for c, v, o in refuted:
        if any(s == (c.name, o["label"]) for s in seen):
            continue
        if not c.conc:
            continue
        b = c.backend.split("+")
        for bb in b:
            rt.append((c, v, o, Task("conc", REG.index(c), v, 150, iters=40, budget=60, backend=bb, given=o.get("model") or {})))
    if rt:
        run_tasks([x[3] for x in rt], jobs, max(deadline, time.time() + 60))
        for c, v, o, t in rt:
            if t.result["status"] == "failed":
                add_violation(c, v, t.result["failure"]["label"], t.result["failure"], o)
                seen.add((c.name, o["label"]))
    for c, v, o in refuted:
        if (c.name, o["label"]) not in seen:
            if o["label"].startswith("no unexpected") and not c.always_exc:
                # an exception in symbolic execution that the real code does not show on concrete values: an engine limit
                undecided.append({"contract": c.name, "variant": v, "kind": "obligation", "label": o["label"],
                                  "reason": "exception in symbolic execution only: %s" % o.get("detail")})
                continue
            if c.aux:
                undecided.append({"contract": c.name, "variant": v, "kind": "obligation", "label": o["label"], "reason": "loop invariant does not fit: %s" % o.get("detail")})
                continue
            add_violation(c, v, o["label"], None, o)
    for c in (REG[i] for i in idxs):
        trusted.update(c.trusted)

    out = []
    for c, v, label, failure, proof in violations:
        rec = {"property": pid, "contract": c.name, "variant": v, "obligation": label, "targets": c.targets,
               "verifier": {"status": "refuted" if proof else "not run / passed", "model": (proof or {}).get("model"), "detail": (proof or {}).get("detail")},
               "failure": failure,
               "replay_cmd": "/opt/venv/bin/python /verif/check.py %s --replay <this file>" % pid if failure else None}
        p = write_replay(pid, rec)
        out.append((p, failure is None, label, c.name))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for p, nofail, label, name in out:
        print("violated: contract %s, obligation %r" % (name, label))
        print("VIOLATION property=%s replay=%s%s" % (pid, p, " no-failing-input-found" if nofail else ""))

    conc_runs = sum(b["runs"] for b in bounded)
    conc_checks = sum(b["checks"] for b in bounded)
    functions = sorted({t for i in idxs for t in REG[i].targets})
    lvl = "proof" if obl_total else "other"
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": level_of(pid, lvl),
          "coverage": {"obligations": obl_total, "discharged": obl_ok,
                       "checker_cmd": "/opt/venv/bin/python /verif/check.py %s --tier %s" % (pid, tier),
                       "trusted_base": sorted(trusted) + TRUSTED,
                       "backends": backends, "solver_time_s": round(solver_time, 2), "functions_under_contract": functions,
                       "contracts": per_contract, "undecided": undecided,
                       "bounded": {"note": "concrete executions of the same contracts on the real code: bounded, never counted as proved",
                                   "runs": conc_runs, "checks": conc_checks, "tasks": bounded},
                       "known_findings": [k["id"] for k in known]},
          "assumptions": sorted(assumptions), "wall_s": round(time.time() - t_start, 2), "violations": len(out)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=repr)
    print("%s %s: %d obligations, %d discharged (%s), %d undecided items, %d bounded runs / %d checks, %d violations, %.1f s" % (
        pid, tier, obl_total, obl_ok, ", ".join("%s %d" % kv for kv in sorted(backends.items())), len(undecided), conc_runs, conc_checks, len(out),
        time.time() - t_start))
    for u in undecided:
        print("undecided: %s %s %s: %s" % (u["contract"], u["variant"], u.get("label", u["kind"]), str(u.get("reason"))[:600]))
    if verbose or "-vv" in sys.argv:
        for e in per_contract:
            if "-vv" not in sys.argv:
                bad = [o for o in e["obligations"] if o["discharged"] != o["n"]]
                slow = [o for o in e["obligations"] if o["time"] > 5]
                if e["status"] != "ok" or bad or slow or e["wall"] > 20:
                    print("  proof  %-34s %-34s %-9s paths=%s obl=%d %.1fs" % (e["contract"], e["variant"], e["status"], e["paths"], sum(o["n"] for o in e["obligations"]), e["wall"]))
                for o in bad + slow:
                    print("      %-60s n=%d ok=%d ref=%d und=%d %.2fs" % (o["label"], o["n"], o["discharged"], o["refuted"], o["undecided"], o["time"]))
                continue
            print("  proof  %-34s %-34s %-9s paths=%s obl=%d %.1fs" % (e["contract"], e["variant"], e["status"], e["paths"], sum(o["n"] for o in e["obligations"]), e["wall"]))
            for o in e["obligations"]:
                print("      %-60s n=%d ok=%d ref=%d und=%d %.2fs" % (o["label"], o["n"], o["discharged"], o["refuted"], o["undecided"], o["time"]))
        if "-vv" not in sys.argv:
            agg = {}
            for e in per_contract:
                g = agg.setdefault(e["contract"], [0, 0, 0, 0.0, 0, 0, 0.0])
                g[0] += 1
                g[1] += e["paths"] or 0
                g[2] += sum(o["n"] for o in e["obligations"])
                g[3] = max(g[3], e["wall"])
            for e in bounded:
                g = agg.setdefault(e["contract"], [0, 0, 0, 0.0, 0, 0, 0.0])
                g[4] += e["runs"]
                g[5] += e["checks"]
                g[6] = max(g[6], e["wall"])
            for k, g in agg.items():
                print("  %-36s variants=%d paths=%d obl=%d max %.1fs | runs=%d checks=%d max %.1fs" % ((k,) + tuple(g)))
        for e in bounded:
            if "-vv" not in sys.argv:
                if e["status"] == "ok":
                    continue
            print("  bounded %-34s %-34s %-6s %s runs=%d checks=%d skipped=%d %.1fs" % (e["contract"], e["variant"], e["backend"], e["status"], e["runs"], e["checks"], e["skipped"], e["wall"]))
    if out:
        return 1
    if obl_total == 0 and conc_checks == 0:
        print("nothing was checked")
    return 0


TRUSTED = ["CPython 3.12 semantics of the executed statements", "pyvc engine (symbolic values, loader, normal forms)", "z3 5.x / cvc5 1.1"]


def level_of(pid, default):
    try:
        m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return default


def replay(pid, path):
    rec = json.load(open(path))
    load_contracts(pid)
    c = [c for c in REG if c.name == rec["contract"] and c.pid == pid][0]
    f = rec["failure"]
    if not f:
        print("no failing input is known for obligation %r" % rec["obligation"])
        return 1
    setup_conc(f["backend"])
    r, env, sk = conc_once(c, rec["variant"], f["seed"], f["inputs"], f["backend"])
    if r is None:
        print("contract %s holds on this input" % c.name)
        return 0
    print("contract %s fails: %s" % (c.name, r))
    return 1
