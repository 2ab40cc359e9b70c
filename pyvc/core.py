"""Verification-condition generation by forward symbolic execution.

The real function bodies are executed by CPython on symbolic values.  A branch on a symbolic condition
splits the path; all feasible paths are explored (re-execution with a recorded decision prefix).  On every
path `prove(cond)` emits an obligation  path-condition => cond  that is handed to z3 (then cvc5).
"""
import sys
import time
import traceback

import z3


class PathEnd(BaseException):
    """the current path ends here (infeasible, or the back edge of a cut loop)"""


class Undecided(BaseException):
    """the engine cannot decide (unsupported construct, too many paths, solver unknown on a must-know query)"""


class Ctx:
    def __init__(self, timeout_ms=20000, max_paths=4000):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.obligations = []      # dicts: label,status,backend,time,model
        self.paths = 0
        self.infeasible = 0
        self.assumptions = set()
        self.notes = []
        self.reach = {}            # label -> number of paths on which it was reached
        self.solver_time = 0.0
        self.stop_on_refuted = True
        self.inputs = {}           # name -> (describe fn) for models
        self._new_path([])
        self.active = False

    # -- path bookkeeping -------------------------------------------------
    def _new_path(self, prefix):
        self.prefix = list(prefix)
        self.decisions = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.fresh_ctr = {}
        self.inputs = {}
        self.memo = {}

    def fresh(self, name):
        n = self.fresh_ctr.get(name, 0)
        self.fresh_ctr[name] = n + 1
        return "%s!%d" % (name, n) if n else name

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def assume(self, cond):
        c = as_z3bool(cond)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(c)
        self.solver.add(c)

    def feasible(self):
        return self._check() != z3.unsat

    def branch(self, c):
        """decide a z3 Bool on this path"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        if key in self.memo:
            return self.memo[key][1]
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self._take(c, d[0])
            return d[0]
        rt = self._check(c)
        rf = self._check(z3.Not(c)) if rt != z3.unsat else z3.sat
        if rt == z3.unsat and rf == z3.unsat:
            raise PathEnd()
        if rt == z3.unsat:
            val, other = False, False
        elif rf == z3.unsat:
            val, other = True, False
        else:
            val, other = True, True
        self.decisions.append((val, other))
        self._take(c, val)
        return val

    def choice(self, n):
        """n-way case split without a solver query (all cases are explored)"""
        lo, hi = 0, n
        while hi - lo > 1:
            mid = (lo + hi) // 2
            i = len(self.decisions)
            d = self.prefix[i] if i < len(self.prefix) else (True, True)
            self.decisions.append(d)
            if d[0]:
                hi = mid
            else:
                lo = mid
        return lo

    def _take(self, c, val):
        self.memo[c.get_id()] = (c, val)
        cc = c if val else z3.Not(c)
        self.pc.append(cc)
        self.solver.add(cc)

    def concretize(self, t, limit=300):
        """fork over all feasible values of a symbolic integer expression"""
        for _ in range(limit):
            r = self._check()
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                raise Undecided("cannot enumerate values")
            m = self.solver.model()
            v = m.eval(t, model_completion=True)
            if self.branch(t == v):
                return v.as_long()
        raise Undecided("too many values for a symbolic index/size")

    def divmod_vars(self, x, b):
        """quotient and remainder of x by the constant b > 1, with their (linear) definition; total, so no assumption"""
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return z3.IntVal(x.as_long() // b), z3.IntVal(x.as_long() % b)
        k = ("divmod", x.get_id(), b)
        h = self.memo.get(k)
        if h is None:
            s = self.split(x, b)
            if s is not None:
                h = self.memo[k] = (x,) + s
        if h is None:
            nm = self.fresh("$div")
            q, r = z3.Int(nm), z3.Int(nm + "r")
            f = z3.And(x == b * q + r, r >= 0, r < b)
            self.pc.append(f)
            self.solver.add(f)
            h = self.memo[k] = (x, q, r)
            self.memo[("bounds", r.get_id())] = (r, 0, b - 1)
        return h[1], h[2]

    def split(self, x, b):
        """x as b*q + r with 0 <= r < b, where the known bounds of the variables of the sum x show this"""
        q, r, lo, hi = [], [], 0, 0
        for t in x.children() if z3.is_add(x) else [x]:
            if z3.is_int_value(t):
                c = t.as_long()
                q.append(z3.IntVal(c // b))
                r.append(z3.IntVal(c % b))
                lo, hi = lo + c % b, hi + c % b
                continue
            c, v = 1, t
            if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
                c, v = t.arg(0).as_long(), t.arg(1)
            if c % b == 0:
                q.append(v * (c // b))
                continue
            h = self.memo.get(("bounds", v.get_id()))
            if h is None or not z3.is_const(v) or c < 0:
                return None
            lo, hi = lo + c * h[1], hi + c * h[2]
            r.append(t)
            if hi >= b or lo < 0:
                return None
        if lo < 0 or hi >= b:
            return None
        return z3.simplify(z3.Sum(q)) if q else z3.IntVal(0), z3.simplify(z3.Sum(r)) if r else z3.IntVal(0)

    # -- obligations -------------------------------------------------------
    def prove(self, cond, label, kind="post"):
        self.reach[label] = self.reach.get(label, 0) + 1
        c = as_z3bool(cond)
        rec = {"label": label, "kind": kind, "path": self.paths}
        t0 = time.time()
        if c is True:
            rec.update(status="discharged", backend="normal form")
        elif c is False:
            # refuted if the path is feasible at all
            r = self._check()
            if r == z3.unsat:
                rec.update(status="discharged", backend="z3 (path infeasible)")
            else:
                rec.update(status="refuted" if r == z3.sat else "undecided",
                           model=self.model_dict() if r == z3.sat else None, backend="z3")
        else:
            n = z3.simplify(z3.Not(c))
            if z3.is_false(n):
                rec.update(status="discharged", backend="z3 simplify")
            else:
                r = self._check(n)
                if r == z3.unsat:
                    rec.update(status="discharged", backend="z3")
                elif r == z3.sat:
                    rec.update(status="refuted", model=self.model_dict(), backend="z3")
                else:
                    r2 = self._cvc5(n)
                    if r2 == "unsat":
                        rec.update(status="discharged", backend="cvc5")
                    else:
                        rec.update(status="undecided", backend="z3+cvc5")
        rec["time"] = round(time.time() - t0, 3)
        self.obligations.append(rec)
        if rec["status"] == "discharged" and c is not True and c is not False:
            self.assume(cond)
        return rec["status"] == "discharged"

    def _cvc5(self, n):
        import os
        import subprocess
        import tempfile
        s = z3.Solver()
        s.add(*self.pc)
        s.add(n)
        f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
        try:
            f.write("(set-logic ALL)\n" + s.to_smt2())
            f.close()
            t = time.time()
            r = subprocess.run(["cvc5", "--tlimit=%d" % self.timeout_ms, f.name], capture_output=True, text=True,
                               timeout=self.timeout_ms / 1000 + 10)
            self.solver_time += time.time() - t
            return r.stdout.split()[0] if r.stdout.split() else "unknown"
        except Exception:
            return "unknown"
        finally:
            os.unlink(f.name)

    def model_dict(self):
        try:
            m = self.solver.model()
        except z3.Z3Exception:
            return None
        out = {}
        for name, fn in self.inputs.items():
            try:
                out[name] = fn(m)
            except Exception as e:   # pragma: no cover
                out[name] = repr(e)
        return out

    # -- driver -------------------------------------------------------------
    def explore(self, fn):
        """run fn() on all paths"""
        global CTX
        prefix = []
        prev, self_active = CTX, self
        CTX = self
        try:
            while True:
                self._new_path(prefix)
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Undecided("path limit %d reached" % self.max_paths)
                try:
                    fn()
                except PathEnd:
                    self.infeasible += 1
                d = self.decisions
                while d and not (d[-1][0] and d[-1][1]):
                    d.pop()
                if not d:
                    return
                d[-1] = (False, False)
                prefix = d
        finally:
            CTX = prev


CTX = None


def ctx():
    if CTX is None:
        raise RuntimeError("no verification context")
    return CTX


# ---------------------------------------------------------------------------
class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.t == zb(o))
        return _as_int(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return int(self)

    def __add__(self, o):
        return _as_int(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return _as_int(self) - o

    def __rsub__(self, o):
        return o - _as_int(self)

    def __mul__(self, o):
        return _as_int(self) * o

    __rmul__ = __mul__

    def __repr__(self):
        return "SBool(%s)" % self.t


def zb(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if hasattr(x, "to_z3bool"):
        return x.to_z3bool()
    raise TypeError("not a boolean: %r" % (x,))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def as_z3bool(c):
    if isinstance(c, SBool):
        return c.t
    if c is None:
        return False
    if isinstance(c, (bool, int)):
        return bool(c)
    if z3.is_expr(c):
        s = z3.simplify(c)
        return True if z3.is_true(s) else False if z3.is_false(s) else c
    if isinstance(c, SInt):
        return as_z3bool(c != 0)
    return bool(c)


def _as_int(b):
    return SInt("i", z3.If(b.t, z3.IntVal(1), z3.IntVal(0)), 0, 1)


# ---------------------------------------------------------------------------
# Symbolic integers.  kind 'i': mathematical z3 Int.  kind 'b': exact integer held in a bit vector that is
# wide enough for its interval [lo,hi] (two's complement when lo < 0): no wrap-around is ever modelled.
def bvwidth(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((-lo - 1).bit_length(), hi.bit_length() if hi > 0 else 0) + 1


class SInt:
    __slots__ = ("kind", "t", "lo", "hi")

    def __init__(self, kind, t, lo=None, hi=None):
        self.kind, self.t, self.lo, self.hi = kind, t, lo, hi

    # construction
    @staticmethod
    def mk(kind, t, lo, hi):
        if lo is not None and lo == hi:
            return lo
        if kind == "b":
            t = z3.simplify(t)
            if z3.is_bv_value(t):
                return t.as_signed_long() if lo < 0 else t.as_long()
        else:
            t = z3.simplify(t)
            if z3.is_int_value(t):
                return t.as_long()
        return SInt(kind, t, lo, hi)

    @property
    def w(self):
        return bvwidth(self.lo, self.hi)

    def at(self, w, signed_target=False):
        """bit-vector term of width >= own width holding the same value"""
        own = self.t.size()
        if own == w:
            return self.t
        if own > w:
            return z3.Extract(w - 1, 0, self.t)
        return (z3.SignExt if self.lo < 0 else z3.ZeroExt)(w - own, self.t)

    def as_i(self):
        if self.kind == "i":
            return self
        return SInt("i", z3.BV2Int(self.t, self.lo < 0), self.lo, self.hi)

    # helpers -----------------------------------------------------------
    @staticmethod
    def _pair(a, b):
        """bring two operands to the same kind"""
        if isinstance(b, SBool):
            b = _as_int(b)
        if isinstance(a, SBool):
            a = _as_int(a)
        ka = a.kind if isinstance(a, SInt) else None
        kb = b.kind if isinstance(b, SInt) else None
        kind = ka or kb
        if ka and kb and ka != kb:
            if ka == "b" and ctx_tobv(b) is not None:
                return a, ctx_tobv(b), "b"
            if kb == "b" and ctx_tobv(a) is not None:
                return ctx_tobv(a), b, "b"
            a, b = a.as_i(), b.as_i()
            kind = "i"
        return a, b, kind

    @staticmethod
    def _rng(x):
        if isinstance(x, SInt):
            return x.lo, x.hi
        return x, x

    @staticmethod
    def _ti(x):
        return x.t if isinstance(x, SInt) else z3.IntVal(int(x))

    @staticmethod
    def _tb(x, w):
        if isinstance(x, SInt):
            return x.at(w)
        return z3.BitVecVal(int(x), w)

    def _lin(a, b, op):
        if not isinstance(b, (int, SInt, SBool)) or not isinstance(a, (int, SInt, SBool)):
            return NotImplemented
        a, b, kind = SInt._pair(a, b)
        (al, ah), (bl, bh) = SInt._rng(a), SInt._rng(b)
        if op == "+":
            lo = None if al is None or bl is None else al + bl
            hi = None if ah is None or bh is None else ah + bh
        elif op == "-":
            lo = None if al is None or bh is None else al - bh
            hi = None if ah is None or bl is None else ah - bl
        else:
            if None in (al, ah, bl, bh):
                lo = 0 if (al is not None and bl is not None and al >= 0 and bl >= 0) else None
                hi = None
            else:
                c = [al * bl, al * bh, ah * bl, ah * bh]
                lo, hi = min(c), max(c)
        if kind == "b":
            w = max(bvwidth(lo, hi), bvwidth(al, ah), bvwidth(bl, bh))
            if min(al, bl, lo) < 0:
                w = max(w, bvwidth(min(al, bl, lo, -1), max(ah, bh, hi, 0)))
            x, y = SInt._tb(a, w), SInt._tb(b, w)
            t = x + y if op == "+" else x - y if op == "-" else x * y
            w2 = bvwidth(lo, hi)
            if w2 < w:
                t = z3.Extract(w2 - 1, 0, t)
            return SInt.mk("b", t, lo, hi)
        x, y = SInt._ti(a), SInt._ti(b)
        t = x + y if op == "+" else x - y if op == "-" else x * y
        return SInt.mk("i", t, lo, hi)

    def __add__(self, o):
        return SInt._lin(self, o, "+")

    def __radd__(self, o):
        return SInt._lin(o, self, "+")

    def __sub__(self, o):
        return SInt._lin(self, o, "-")

    def __rsub__(self, o):
        return SInt._lin(o, self, "-")

    def __mul__(self, o):
        return SInt._lin(self, o, "*")

    def __rmul__(self, o):
        return SInt._lin(o, self, "*")

    def __neg__(self):
        return SInt._lin(0, self, "-")

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __invert__(self):
        return -self - 1

    # division ------------------------------------------------------------
    def _divmod(a, b):
        if isinstance(b, SBool):
            b = _as_int(b)
        if isinstance(b, int) and b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if isinstance(b, SInt):
            if bool(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if not bool(b > 0):
                raise Undecided("division by a negative symbolic value")
        elif b < 0:
            raise Undecided("division by a negative value")
        a, b, kind = SInt._pair(a, b)
        (al, ah), (bl, bh) = SInt._rng(a), SInt._rng(b)
        bl = max(1, bl) if bl is not None else 1
        if kind == "b" and al >= 0:
            w = max(bvwidth(al, ah), bvwidth(bl, bh))
            x, y = SInt._tb(a, w), SInt._tb(b, w)
            if isinstance(b, int) and b & (b - 1) == 0:
                k = b.bit_length() - 1
                if k >= w:
                    return 0, a
                q = SInt.mk("b", z3.Extract(w - 1, k, x), 0, ah >> k) if ah >> k else 0
                if k == 0:
                    return a, 0
                m = z3.Extract(k - 1, 0, x)
                rl, rh = 0, min(b - 1, ah)
                if bvwidth(rl, rh) < k:
                    m = z3.Extract(bvwidth(rl, rh) - 1, 0, m)
                return q if not isinstance(q, SInt) else _fit(q), SInt.mk("b", m, rl, rh)
            qh = ah // bl
            q = z3.UDiv(x, y)
            r = z3.URem(x, y)
            rh = min(ah, bh - 1)
            return (_fitw(q, al // bh if bh else 0, qh), _fitw(r, 0, rh))
        if kind == "b":
            if isinstance(b, int) and b & (b - 1) == 0:
                k = b.bit_length() - 1
                w = max(bvwidth(al, ah), k + 2)
                x = SInt._tb(a, w)
                q = _fitw(x >> k, al >> k, ah >> k)
                r = SInt.mk("b", z3.Extract(k - 1, 0, x), 0, b - 1) if k else 0
                return q, r
            a = a.as_i() if isinstance(a, SInt) else a
            b = b.as_i() if isinstance(b, SInt) else b
        x, y = SInt._ti(a), SInt._ti(b)
        if isinstance(b, int) and b > 1:
            q, r = ctx().divmod_vars(x, b)
        else:
            q, r = x / y, x % y
        ql = qh = rh = None
        if al is not None and ah is not None and bh is not None:
            c = [al // bl, al // bh, ah // bl, ah // bh]
            ql, qh = min(c), max(c)
        elif al is not None and al >= 0:
            ql = 0
            qh = None if ah is None else ah // bl
        rh = (bh - 1) if bh is not None else None
        if al is not None and al >= 0 and ah is not None:
            rh = ah if rh is None else min(rh, ah)
            if isinstance(b, int) and ah < b:
                return 0, a
        if ql is not None and qh is not None and z3.is_const(q) and not z3.is_int_value(q):
            ctx().memo.setdefault(("bounds", q.get_id()), (q, ql, qh))
        return SInt.mk("i", q, ql, qh), SInt.mk("i", r, 0, rh)

    def __floordiv__(self, o):
        if not isinstance(o, (int, SInt, SBool)):
            return NotImplemented
        return SInt._divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return SInt._divmod(o, self)[0]

    def __mod__(self, o):
        if not isinstance(o, (int, SInt, SBool)):
            return NotImplemented
        return SInt._divmod(self, o)[1]

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return SInt._divmod(o, self)[1]

    def __divmod__(self, o):
        return SInt._divmod(self, o)

    def __rdivmod__(self, o):
        return SInt._divmod(o, self)

    def __truediv__(self, o):
        raise Undecided("floating point division of a symbolic value")

    __rtruediv__ = __truediv__

    def __float__(self):
        raise Undecided("float() of a symbolic value")

    def __pow__(self, e, m=None):
        if m is not None:
            raise Undecided("modular power of symbolic")
        if isinstance(e, SInt):
            e = int(e)
        r = 1
        for _ in range(e):
            r = r * self
        return r

    def __rpow__(self, b, m=None):
        e = int(self)      # forks over the feasible exponents
        return pow(b, e, m) if m is not None else b ** e

    # bit operations ----------------------------------------------------
    def __lshift__(self, o):
        if isinstance(o, SInt):
            o = int(o)
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        if isinstance(o, SInt):
            o = int(o)
        return SInt._divmod(self, 1 << o)[0]

    def __rrshift__(self, o):
        return o >> int(self)

    def _bit(a, b, op):
        if not isinstance(b, (int, SInt, SBool)) or not isinstance(a, (int, SInt, SBool)):
            return NotImplemented
        a, b, kind = SInt._pair(a, b)
        if isinstance(a, int):
            a, b = b, a
        if kind == "i":
            r = SInt._bit_i(a, b, op)
            if r is not None:
                return r
            a, b = ctx_tobv(a), ctx_tobv(b)
            if a is None or b is None:
                raise Undecided("bit operation on unbounded symbolic integers")
        (al, ah), (bl, bh) = SInt._rng(a), SInt._rng(b)
        if isinstance(b, int) and b >= 0 and op == "&" and (b & (b + 1)) == 0:
            if b == 0:
                return 0
            return SInt._divmod(a, b + 1)[1]
        neg = al < 0 or bl < 0
        w = max(bvwidth(al, ah), bvwidth(bl, bh))
        if neg:
            w = max(bvwidth(min(al, -1), max(ah, 0)), bvwidth(min(bl, -1), max(bh, 0)))
        x, y = SInt._tb(a, w), SInt._tb(b, w)
        t = x & y if op == "&" else x | y if op == "|" else x ^ y
        if not neg:
            if op == "&":
                lo, hi = 0, min(ah, bh)
            else:
                lo, hi = (max(al, bl) if op == "|" else 0), (1 << max(ah.bit_length(), bh.bit_length())) - 1
            return _fitw(t, lo, hi)
        if op == "&" and (al >= 0 or bl >= 0):
            return _fitw(t, 0, ah if al >= 0 else bh)
        return SInt.mk("b", t, -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def _bit_i(a, b, op):
        """mathematical-integer encodings of the bit operations that have one"""
        if op == "&" and isinstance(b, int):
            if b == 0:
                return 0
            if b > 0 and (b & (b + 1)) == 0:
                return SInt._divmod(a, b + 1)[1]
            if b > 0:
                low = (b & -b).bit_length() - 1
                m = b >> low
                if (m & (m + 1)) == 0:      # contiguous mask
                    return SInt._divmod(a >> low, m + 1)[1] * (1 << low) if isinstance(a >> low, SInt) else ((a >> low) & m) << low
                # sum of contiguous runs
                return None
        if op in "|^":
            # disjoint operands: a multiple of 2^k plus a value below 2^k
            for x, y in ((a, b), (b, a)):
                yl, yh = SInt._rng(y)
                if yl is None or yl < 0 or yh is None:
                    continue
                k = yh.bit_length()
                m = SInt._divmod(x, 1 << k)[1] if isinstance(x, SInt) else x % (1 << k)
                if isinstance(m, int):
                    if m == 0:
                        return x + y
                elif ctx()._check(m.t != 0) == z3.unsat:
                    return x + y
        return None

    def __and__(self, o):
        return SInt._bit(self, o, "&")

    __rand__ = __and__

    def __or__(self, o):
        return SInt._bit(self, o, "|")

    __ror__ = __or__

    def __xor__(self, o):
        return SInt._bit(self, o, "^")

    __rxor__ = __xor__

    # comparisons -----------------------------------------------------------
    def _cmp(a, b, op):
        if isinstance(b, float) and b == int(b):
            b = int(b)
        if not isinstance(b, (int, SInt, SBool)):
            return NotImplemented
        a, b, kind = SInt._pair(a, b)
        (al, ah), (bl, bh) = SInt._rng(a), SInt._rng(b)
        if None not in (al, ah, bl, bh):
            if op == "<":
                if ah < bl:
                    return True
                if al >= bh:
                    return False
            elif op == "<=":
                if ah <= bl:
                    return True
                if al > bh:
                    return False
            elif op == "==":
                if ah < bl or bh < al:
                    return False
        if kind == "b":
            lo, hi = min(al, bl), max(ah, bh)
            w = bvwidth(lo, hi)
            if lo < 0:
                w = max(w, bvwidth(min(al, -1), max(ah, 0)), bvwidth(min(bl, -1), max(bh, 0)))
            x, y = SInt._tb(a, w), SInt._tb(b, w)
            if op == "==":
                return mkbool(x == y)
            if lo < 0:
                return mkbool(x < y if op == "<" else x <= y)
            return mkbool(z3.ULT(x, y) if op == "<" else z3.ULE(x, y))
        x, y = SInt._ti(a), SInt._ti(b)
        return mkbool(x == y if op == "==" else x < y if op == "<" else x <= y)

    def __lt__(self, o):
        return SInt._cmp(self, o, "<")

    def __le__(self, o):
        return SInt._cmp(self, o, "<=")

    def __gt__(self, o):
        r = SInt._cmp(self, o, "<=")
        return r if r is NotImplemented else (not r) if isinstance(r, bool) else ~r

    def __ge__(self, o):
        r = SInt._cmp(self, o, "<")
        return r if r is NotImplemented else (not r) if isinstance(r, bool) else ~r

    def __eq__(self, o):
        r = SInt._cmp(self, o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = SInt._cmp(self, o, "==")
        return True if r is NotImplemented else (not r) if isinstance(r, bool) else ~r

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(int(self))

    def __int__(self):
        return ctx().concretize(self.t) if self.kind == "i" or self.lo >= 0 else _conc_signed(self)

    __index__ = __int__

    def __trunc__(self):
        return self

    def __repr__(self):
        return "SInt(%s:%s)" % (self.kind, str(self.t)[:80])

    def bit_length(self):
        if self.hi is None:
            raise Undecided("bit_length of unbounded")
        n = 0
        x = abs(self)
        while bool(x >= (1 << n)):
            n += 1
        return n

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .vbytes import VBytes
        x = self
        if signed:
            half = 1 << (8 * length - 1)
            if not bool((x >= -half) & (x < half)):
                raise OverflowError("int too big to convert")
            x = x % (1 << (8 * length))
        else:
            if not bool(x >= 0):
                raise OverflowError("can't convert negative int to unsigned")
            if not bool(x < (1 << (8 * length))):
                raise OverflowError("int too big to convert")
        if isinstance(x, SInt) and x.kind == "i" and not signed and getattr(ctx(), "alg", False):
            from . import alg
            out = list(alg.int_bytes(x, length))
            if byteorder == "big":
                out.reverse()
            return VBytes(out)
        out = [(x >> (8 * i)) & 0xFF if isinstance(x, SInt) else (x >> (8 * i)) & 0xFF for i in range(length)]
        if byteorder == "big":
            out.reverse()
        return VBytes(out)

    def __format__(self, spec):
        return format(int(self), spec)

    def __str__(self):
        return self.__repr__()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _conc_signed(x):
    v = ctx().concretize(x.t)
    w = x.t.size()
    return v - (1 << w) if v >> (w - 1) else v


def _fitw(t, lo, hi):
    w = bvwidth(lo, hi)
    own = t.size()
    if own > w:
        t = z3.Extract(w - 1, 0, t)
    elif own < w:
        t = (z3.SignExt if lo < 0 else z3.ZeroExt)(w - own, t)
    return SInt.mk("b", t, lo, hi)


def _fit(x):
    return _fitw(x.t, x.lo, x.hi)


def ctx_tobv(x):
    """bounded mathematical integer as a bit vector"""
    if isinstance(x, int) or (isinstance(x, SInt) and x.kind == "b"):
        return x
    if x.lo is None or x.hi is None or x.lo < 0 or x.hi.bit_length() > 520:
        return None
    return SInt.mk("b", z3.Int2BV(x.t, bvwidth(x.lo, x.hi)), x.lo, x.hi)


def fresh_int(name, lo=None, hi=None):
    c = ctx()
    n = c.fresh(name)
    t = z3.Int(n)
    if lo is not None:
        c.assume(SBool(t >= lo))
    if hi is not None:
        c.assume(SBool(t <= hi))
    c.inputs[n] = lambda m, t=t: m.eval(t, model_completion=True).as_long()
    if lo is not None and lo == hi:
        return lo
    if lo is not None and hi is not None:
        c.memo[("bounds", t.get_id())] = (t, lo, hi)
    return SInt("i", t, lo, hi)


def fresh_bv(name, bits, hi=None):
    c = ctx()
    n = c.fresh(name)
    t = z3.BitVec(n, bits)
    c.inputs[n] = lambda m, t=t: m.eval(t, model_completion=True).as_long()
    h = (1 << bits) - 1
    if hi is not None and hi < h:
        c.assume(SBool(z3.ULE(t, hi)))
        if bvwidth(0, hi) == bits:
            h = hi
    return SInt("b", t, 0, h)


def fresh_bool(name):
    c = ctx()
    n = c.fresh(name)
    t = z3.Bool(n)
    c.inputs[n] = lambda m, t=t: z3.is_true(m.eval(t, model_completion=True))
    return SBool(t)


def ite(c, a, b):
    """merge two integer values"""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    a, b, kind = SInt._pair(a, b)
    (al, ah), (bl, bh) = SInt._rng(a), SInt._rng(b)
    lo = None if None in (al, bl) else min(al, bl)
    hi = None if None in (ah, bh) else max(ah, bh)
    if kind == "b":
        w = bvwidth(lo, hi)
        return SInt.mk("b", z3.If(c.t, SInt._tb(a, w), SInt._tb(b, w)), lo, hi)
    return SInt.mk("i", z3.If(c.t, SInt._ti(a), SInt._ti(b)), lo, hi)


def table_lookup(tab, idx):
    """tab[idx] for a concrete table of ints and a symbolic index (bounds checked, Python semantics)"""
    n = len(tab)
    if not bool((idx >= -n) & (idx < n)):
        raise IndexError("index out of range")
    if not bool(idx >= 0):
        idx = idx + n
    if n > 2048:
        return tab[int(idx)]
    if idx.kind == "b":
        lo, hi = min(tab), max(tab)
        w = bvwidth(lo, hi)
        t = z3.BitVecVal(tab[n - 1], w)
        iw = idx.t.size()
        for i in range(n - 2, -1, -1):
            if i.bit_length() <= iw:
                t = z3.If(idx.t == z3.BitVecVal(i, iw), z3.BitVecVal(tab[i], w), t)
        return SInt.mk("b", t, lo, hi)
    t = z3.IntVal(tab[n - 1])
    for i in range(n - 2, -1, -1):
        t = z3.If(idx.t == i, z3.IntVal(tab[i]), t)
    return SInt.mk("i", t, min(tab), max(tab))
