"""Loads the repository's modules for symbolic execution.

Every run parses /repo's current sources.  The transformation applied to a module is purely syntactic and keeps
its meaning on concrete values (the CPython cross-check of the runner exercises this):
  * a[i] (load)        -> __vc_gi__(a, i)         symbolic indices into tables
  * x in y, x not in y -> __vc_in__(x, y)          symbolic membership
  * s.join(x)          -> __vc_join__(s, x)        byte strings with symbolic elements
  * s.index(x)         -> __vc_index__(s, x)
  * "fmt" % x          -> __vc_fmt__("fmt", x)     hexadecimal text of symbolic numbers
and `bytes`, `bytearray`, `memoryview`, `int`, `isinstance`, `pow`, `ord`, `chr`, `print` resolve to versions that also
accept symbolic values.  Nothing is dropped.
"""
import ast
import builtins
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import sys
import types

import z3

from . import alg, core, vbytes
from .text import SText, VStr, fmt_hex
from .core import SBool, SInt, Undecided, ctx, mkbool, zb
from .vbytes import (Term, VBytearray, VBytes, VMem, XB, bytearray_, bytes_, bytes_isinstance_fix, canon, from_bytes,
                     memoryview_, to_elems)

REPO = os.environ.get("PYVC_REPO", "/repo")
FMT = re.compile("%0([0-9]+)x$")
PREFIXES = ("monero_glue", "monero_serialize", "monero_poc")


class SChoice:
    """table[idx] for a table of non-integers and a symbolic index"""
    def __init__(self, table, idx):
        self.table, self.idx = table, idx

    def force(self):
        return self.table[int(self.idx)]

    def __eq__(self, o):
        if isinstance(o, SChoice) and o.table is self.table:
            if len(set(self.table)) == len(self.table):
                return self.idx == o.idx
            return (self.idx == o.idx) if bool(self.idx == o.idx) else self.force() == o.force()
        if isinstance(o, str) and isinstance(self.table[0], str):
            ks = [i for i, x in enumerate(self.table) if x == o]
            return vc_in(self.idx, ks) if ks else False
        return self.force() == (o.force() if isinstance(o, SChoice) else o)

    def __hash__(self):
        return hash(self.force())

    def __len__(self):
        return len(self.force())

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __getitem__(self, i):
        if isinstance(i, slice) and isinstance(self.table[0], str):
            k = ("slice", id(self.table), i.start, i.stop, i.step)
            t = ctx().memo.get(k)
            if t is None:
                t = ctx().memo[k] = (self.table, [x[i] for x in self.table])
            return SChoice(t[1], self.idx)
        return self.force()[i]

    def length(self):
        """the length, as a (possibly symbolic) number"""
        k = ("lens", id(self.table), self.idx.t.get_id())
        r = ctx().memo.get(k)
        if r is None:
            t = [len(x) for x in self.table]
            # a large table: only the bounds are kept (over-approximation)
            r = ctx().memo[k] = (self, t[0] if min(t) == max(t) else core.table_lookup(t, self.idx) if len(t) < 200 else core.fresh_int("len", min(t), max(t)))
        return r[1]

    def __add__(self, o):
        if isinstance(self.table[0], str):
            return SText([self]) + o
        return self.force() + o

    def __radd__(self, o):
        if isinstance(o, str):
            return SText([o, self])
        return o + self.force()


def vc_fmt(f, x):
    """text formatting with a symbolic number"""
    y = x[0] if type(x) is tuple and len(x) == 1 else x
    if type(y) is SInt:
        m = FMT.match(f)
        if m:
            return fmt_hex(y, int(m.group(1) or 0))
    return f % x


FORMAT = re.compile(r"^\{0?:0?(\d*)x\}$")


def vc_format(f, x):
    if type(x) is SInt and type(f) is str:
        m = FORMAT.match(f)
        if m:
            return fmt_hex(x, int(m.group(1) or 0))
    return f.format(x)


def vc_gi(a, i):
    ti = type(i)
    if ti is SInt or ti is SBool:
        ta = type(a)
        if ta in (list, tuple, bytes, bytearray, str):
            if ta is not str and len(a) > 0 and all(type(x) is int for x in a):
                i = i if ti is SInt else core._as_int(i)
                r = core.table_lookup(a, i)
                if type(r) is SInt and type(i) is SInt and i.lo is not None and i.lo >= 0:
                    ctx().memo[("tl", r.t.get_id())] = (tuple(a), i, r)
                return r
            if len(a) > 64 and ti is SInt:
                if not bool((i >= -len(a)) & (i < len(a))):
                    raise IndexError("list index out of range")
                if bool(i >= 0):
                    return SChoice(a, i)
            return a[int(i)]
        if ta is dict:
            return a[dict_key(a, i)]
    return a[i]


def vc_sl(a, i, j):
    """a[i:j]; the one byte at a symbolic position of a constant"""
    if type(i) is SInt and type(a) is bytes and type(j) is SInt:
        d = j - i
        d = z3.simplify(d.t).as_long() if isinstance(d, SInt) and z3.is_int_value(z3.simplify(d.t)) else d
        if d == 1 and bool((i >= 0) & (i < len(a))):
            return VBytes([vc_gi(a, i)])
    return a[i:j]


def dict_key(d, i):
    ks = list(d)
    if not bool(vc_in(i, ks)):
        raise KeyError("symbolic key")
    if len(ks) > 4 and all(isinstance(k, int) and isinstance(d[k], int) for k in ks):
        pass
    for k in ks[:-1]:
        if isinstance(k, int) and bool(i == k):
            return k
    return ks[-1]


def vc_in(x, y):
    ty = type(y)
    if type(x) in (SInt, SBool, VBytes) and ty in (list, tuple, dict, set, frozenset, range):
        if ty is range and y.step == 1 and type(x) is SInt:
            return (x >= y.start) & (x < y.stop) if len(y) else False
        r = False
        for e in y:
            c = x == e
            if c is True:
                return True
            if c is False or c is NotImplemented:
                continue
            r = c if r is False else (r | c)
        return r
    if ty in (bytes, bytearray) and type(x) in (SInt, VBytes, VBytearray):
        return x in VBytes(list(y))
    return x in y


def vc_nin(x, y):
    r = vc_in(x, y)
    return (not r) if isinstance(r, bool) else ~r


def vc_join(s, x):
    if isinstance(s, (bytes, bytearray)) and not isinstance(s, VBytes):
        x = list(x)
        if any(isinstance(e, (VBytes,)) for e in x):
            return VBytes(list(s)).join(x)
        return s.join(x)
    return s.join(x)


def inverse_lookup(s, x):
    """first position of x in a table of integers"""
    pv = ctx().memo.get(("tl", x.t.get_id()))
    if pv is not None and pv[0] == tuple(s) and len(set(s)) == len(s):
        return pv[1]
    if not bool(vc_in(x, s)):
        raise ValueError("%r is not in list" % (x,))
    r = len(s) - 1
    for i in range(len(s) - 2, -1, -1):
        r = core.ite(x == s[i], i, r)
    return r


def vc_index(s, *a):
    x = a[0]
    if isinstance(x, SChoice) and x.table is s:
        return x.idx
    if type(s) is bytes and type(x) is SInt and len(a) == 1 and s:
        return inverse_lookup(s, x)
    if isinstance(s, (bytes, bytearray)) and isinstance(x, (VBytes, SInt)):
        return VBytes(list(s)).index(*a)
    if isinstance(s, (list, tuple)) and isinstance(x, SInt) and len(a) == 1 and s and all(type(v) is int for v in s):
        return inverse_lookup(s, x)
    return s.index(*a)


class Xform(ast.NodeTransformer):
    def _call(self, node, fn, *args):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(fn, ast.Load()), node), list(args), []), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice) and not (
                isinstance(node.slice, ast.Tuple)) and not isinstance(node.slice, ast.Constant):
            return self._call(node, "__vc_gi__", node.value, node.slice)
        if isinstance(node.ctx, ast.Load) and isinstance(node.slice, ast.Slice) and node.slice.step is None and isinstance(node.slice.upper, ast.BinOp) and node.slice.lower is not None:
            return self._call(node, "__vc_sl__", node.value, node.slice.lower, node.slice.upper)
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs:
            a.annotation = None
        self.generic_visit(node)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return self._call(node, "__vc_fmt__", node.left, node.right)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return self._call(node, "__vc_in__" if isinstance(node.ops[0], ast.In) else "__vc_nin__", node.left, node.comparators[0])
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Load) and not node.keywords and len(node.args) == 1 and not isinstance(node.args[0], ast.Starred):
            if f.attr == "join":
                return self._call(node, "__vc_join__", f.value, node.args[0])
            if f.attr == "index":
                return self._call(node, "__vc_index__", f.value, node.args[0])
            if f.attr == "format":
                return self._call(node, "__vc_format__", f.value, node.args[0])
        return node


# ---- shadow builtins ---------------------------------------------------------
class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance_(o, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SInt):
            return x
        if isinstance(x, alg.Zl) or hasattr(x, "__vc_byte__"):
            return x
        if isinstance(x, SBool):
            return core._as_int(x)
        if isinstance(x, VStr):
            x = x.encode()
        if isinstance(x, VBytes) and a:
            e = x._e()
            if a[0] == 16 and any(isinstance(c, vbytes.XB) for c in e):
                from . import secp
                return secp.nat(to_elems(vbytes.unhexlify(x)))
            if x.concrete() is None and a[0] == 16:
                r = 0
                for c in e:
                    d = hexval(c)
                    r = r * 16 + d
                return r
            return int(x.__bytes__(), *a)
        if isinstance(x, VBytes):
            return int(x.__bytes__())
        return int(x, *a)

    def __getattr__(cls, n):
        return getattr(int, n)


from .text import hexvalue as hexval  # noqa: E402


class int_(metaclass=_IntMeta):
    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        return from_bytes(b, byteorder, signed=signed)


def isinstance_(o, c):
    if isinstance(c, tuple):
        return any(isinstance_(o, x) for x in c)
    if c is int or c is int_:
        return isinstance(o, int) or isinstance(o, (SInt, alg.Zl, SBool)) or hasattr(o, "__vc_byte__")
    if c is bool:
        return isinstance(o, (bool, SBool))
    if c is tuple:
        return isinstance(o, (tuple, alg.Pt))
    if c is str:
        return isinstance(o, (str, VStr)) or (isinstance(o, SChoice) and isinstance(o.table[0], str))
    r = bytes_isinstance_fix(o, c)
    if r is not None:
        return r
    return isinstance(o, c)


def pow_(b, e, m=None):
    if type(b) is SInt:
        h = ctx().memo.get(("powhook", b.t.get_id()))
        if h is not None:
            return h(e, m)
    if isinstance(b, alg.Zl):
        if m is None:
            return b ** e
        return b.__pow__(e, m)
    if hasattr(b, "__vc_pow__"):
        return b.__vc_pow__(e, m)
    return pow(b, e, m) if m is not None else pow(b, e)


def ord_(x):
    if isinstance(x, VBytes):
        if len(x) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(x))
        return x[0]
    return ord(x)


def bin_(x):
    return bin(x)


FAKES = {}


def import_(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        f = FAKES.get(name)
        if f is not None:
            if fromlist or "." not in name:
                return f
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins(quiet=True):
    d = dict(builtins.__dict__)
    d.update(bytes=bytes_, bytearray=bytearray_, memoryview=memoryview_, int=int_, isinstance=isinstance_, pow=pow_, ord=ord_,
             __import__=import_, __vc_gi__=vc_gi, __vc_in__=vc_in, __vc_nin__=vc_nin, __vc_join__=vc_join,
             __vc_index__=vc_index, __vc_fmt__=vc_fmt, __vc_format__=vc_format,
             __vc_sl__=vc_sl)
    if quiet:
        d["print"] = lambda *a, **k: None
    return d


class VLoader(importlib.abc.Loader):
    def __init__(self, finder, name, path):
        self.finder, self.name, self.path = finder, name, path

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        src = open(self.path, "rb").read()
        tree = ast.parse(src, self.path)
        f = self.finder
        if f.symbolic:
            tree = Xform().visit(tree)
            for tr in f.transforms.get(self.name, []):
                tree = tr(tree) or tree
            ast.fix_missing_locations(tree)
            mod.__dict__["__builtins__"] = f.builtins
        f.loaded[self.name] = self.path
        code = compile(tree, self.path, "exec")
        exec(code, mod.__dict__)
        for h in f.hooks.get(self.name, []):
            h(mod)
        f.snap[self.name] = (mod, dict(mod.__dict__))


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, symbolic=True):
        self.symbolic = symbolic
        self.builtins = make_builtins()
        self.hooks = {}
        self.transforms = {}
        self.loaded = {}
        self.replace = {}
        self.snap = {}

    def restore(self):
        """undo assignments to module attributes made by the previous path"""
        for mod, d in self.snap.values():
            cur = mod.__dict__
            for k in list(cur):
                if k not in d:
                    if isinstance(cur[k], types.ModuleType):
                        continue
                    del cur[k]
                elif cur[k] is not d[k]:
                    cur[k] = d[k]

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in PREFIXES:
            return None
        if name in self.replace:
            m = self.replace[name]
            class L(importlib.abc.Loader):
                def create_module(s, spec):
                    return m
                def exec_module(s, mod):
                    pass
            return importlib.machinery.ModuleSpec(name, L())
        if path is None:
            roots = [REPO] + [p for p in sys.path if p and p != REPO]
        else:
            roots = list(path)
        tail = name.split(".")[-1]
        for r in roots:
            pk = os.path.join(r, tail, "__init__.py")
            if os.path.exists(pk):
                spec = importlib.util.spec_from_file_location(name, pk, loader=VLoader(self, name, pk),
                                                              submodule_search_locations=[os.path.dirname(pk)])
                return spec
            py = os.path.join(r, tail + ".py")
            if os.path.exists(py):
                return importlib.util.spec_from_file_location(name, py, loader=VLoader(self, name, py))
        return None


FINDER = None


def setup(symbolic=True):
    """install the loader (once per process)"""
    global FINDER
    for m in list(sys.modules):
        if m.split(".")[0] in PREFIXES:
            raise RuntimeError("repository modules already loaded")
    FINDER = Finder(symbolic)
    sys.meta_path.insert(0, FINDER)
    if symbolic:
        FAKES["struct"] = fake_struct()
        FAKES["binascii"] = fake_binascii()
        FAKES["hmac"] = fake_hmac()
        FAKES["hashlib"] = fake_hashlib()
        FAKES["ctypes"] = __import__("ctypes")
    return FINDER


def hook(name):
    def deco(f):
        FINDER.hooks.setdefault(name, []).append(f)
        return f
    return deco


# ---- fakes of native modules -----------------------------------------------------
def fake_binascii():
    import binascii
    m = types.ModuleType("binascii")
    m.__dict__.update({k: v for k, v in binascii.__dict__.items() if not k.startswith("__")})
    m.hexlify = m.b2a_hex = vbytes.hexlify
    m.unhexlify = m.a2b_hex = vbytes.unhexlify

    def crc32(x, *a):
        if not isinstance(x, SText):
            return binascii.crc32(x, *a)
        k = x.key()
        reg = ctx().memo.setdefault("crc32", [])
        for k2, v in reg:
            if len(k) == len(k2) and all(p == q if isinstance(p, str) or isinstance(q, str) else p[0] == q[0] and bool(p[1] == q[1]) for p, q in zip(k, k2)):
                return v
        v = core.fresh_int("crc", 0, 2 ** 32 - 1)
        reg.append((k, v))
        return v
    m.crc32 = crc32
    return m


_SZ = {"b": 1, "B": 1, "c": 1, "?": 1, "x": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "s": 1}


def _parse_fmt(f):
    if isinstance(f, bytes):
        f = f.decode()
    order = "little"
    std = False
    if f and f[0] in "<>=!@":
        order = "big" if f[0] in ">!" else "little"
        std = f[0] != "@"
        f = f[1:]
    out = []
    n = ""
    for ch in f:
        if ch.isspace():
            continue
        if ch.isdigit():
            n += ch
            continue
        k = int(n) if n else 1
        sz = _SZ[ch]
        if not std and ch in "lL":
            sz = 8
        if ch == "s":
            out.append(("s", k))
        else:
            out += [(ch, sz)] * k
        n = ""
    return order, out


def fake_struct():
    import struct
    m = types.ModuleType("struct")
    m.error = struct.error

    def pack(fmt, *args):
        order, items = _parse_fmt(fmt)
        args = list(args)
        out = []
        for ch, sz in items:
            if ch == "x":
                out.append(0)
                continue
            v = args.pop(0)
            if ch == "s":
                e = to_elems(v)[:sz]
                out += e + [0] * (sz - len(e))
            elif ch == "c":
                out += to_elems(v)
            else:
                try:
                    if isinstance(v, (SInt, alg.Zl)):
                        e = v.to_bytes(sz, order, signed=ch.islower())._e()
                    else:
                        e = list(int(v).to_bytes(sz, order, signed=ch.islower()))
                except OverflowError as x:
                    raise struct.error(str(x))
                out += e
        if args:
            raise struct.error("pack expected fewer items")
        return VBytes(out)

    def calcsize(fmt):
        return sum(s for _, s in _parse_fmt(fmt)[1])

    def pack_into(fmt, buf, off, *args):
        d = pack(fmt, *args)._e()
        if off + len(d) > len(buf):
            raise struct.error("pack_into requires a buffer of at least %d bytes" % (off + len(d)))
        for i, x in enumerate(d):
            buf[off + i] = x

    def unpack_from(fmt, buf, off=0):
        order, items = _parse_fmt(fmt)
        e = to_elems(buf)[off:]
        n = calcsize(fmt)
        if len(e) < n:
            raise struct.error("unpack_from requires a buffer of at least %d bytes" % n)
        res = []
        p = 0
        for ch, sz in items:
            c = e[p:p + sz]
            p += sz
            if ch == "x":
                continue
            if ch in "sc":
                res.append(VBytes(c))
            elif ch == "?":
                res.append(from_bytes(VBytes(c), order) != 0)
            else:
                res.append(from_bytes(VBytes(c), order, signed=ch.islower()))
        return tuple(res)

    def unpack(fmt, buf):
        if len(buf) != calcsize(fmt):
            raise struct.error("unpack requires a buffer of %d bytes" % calcsize(fmt))
        return unpack_from(fmt, buf)

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = calcsize(fmt)

        def pack(self, *a):
            return pack(self.format, *a)

        def unpack(self, b):
            return unpack(self.format, b)
    m.pack, m.unpack, m.pack_into, m.unpack_from, m.calcsize, m.Struct = pack, unpack, pack_into, unpack_from, calcsize, Struct
    return m


class FakeHmac:
    """HMAC: an uninterpreted function of (digest, key, message)"""
    def __init__(self, key, msg=None, digestmod=None):
        self.key = to_elems(key)
        self.msg = [] if msg is None else list(to_elems(msg))
        self.dm = digestmod
        d = digestmod() if callable(digestmod) else None
        self.digest_size = getattr(d, "digest_size", 32)
        self.name = getattr(digestmod, "__name__", str(digestmod))

    def update(self, m):
        self.msg += to_elems(m)

    def copy(self):
        c = FakeHmac.__new__(FakeHmac)
        c.__dict__.update(self.__dict__)
        c.msg = list(self.msg)
        return c

    def digest(self):
        if all(isinstance(x, int) for x in self.key + self.msg) and self.name.replace("openssl_", "") in ("sha256", "sha512"):
            import hmac
            return VBytes(list(hmac.new(bytes(self.key), bytes(self.msg), self.name.replace("openssl_", "")).digest()))
        ke, me = rep_input("hk" + self.name, self.key), rep_input("hm" + self.name, self.msg)
        return Term("hmac", (self.name, canon(ke), canon(me)), self.digest_size).bytes()

    def hexdigest(self):
        return vbytes.hexlify(self.digest())


class FakeHash:
    """SHA-2 and RIPEMD of symbolic input: an uninterpreted function (of concrete input: the function itself)"""
    block_size = 64

    def __init__(self, name, data=b""):
        self.name, self.m = name, list(to_elems(data))
        self.digest_size = hashlib.new(name).digest_size

    def update(self, d):
        self.m += to_elems(d)

    def copy(self):
        return FakeHash(self.name, VBytes(list(self.m)))

    def digest(self):
        e = rep_input(self.name, self.m)
        if all(isinstance(x, int) for x in e):
            return VBytes(list(hashlib.new(self.name, bytes(e)).digest()))
        return Term(self.name, canon(e), self.digest_size).bytes()

    def hexdigest(self):
        return vbytes.hexlify(self.digest())


def fake_hashlib():
    m = types.ModuleType("hashlib")
    m.__dict__.update({k: v for k, v in hashlib.__dict__.items() if not k.startswith("__")})

    def mk(name):
        def f(data=b"", **k):
            return FakeHash(name, data)
        f.__name__ = "openssl_" + name
        return f
    for n in ("sha256", "sha512", "ripemd160"):
        setattr(m, n, mk(n))
    m.new = lambda name, data=b"", **k: FakeHash(name, data) if name in ("sha256", "sha512", "ripemd160") else hashlib.new(name, data)
    return m


def fake_hmac():
    m = types.ModuleType("hmac")
    m.new = FakeHmac
    m.HMAC = FakeHmac
    m.digest = lambda k, msg, d: FakeHmac(k, msg, d).digest()
    m.compare_digest = lambda a, b: _cmpd(a, b)
    return m


def _cmpd(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    to_elems(a), to_elems(b)      # type check as the native one
    if isinstance(a, VBytes):
        return a == b
    if isinstance(b, VBytes):
        return b == a
    return a == b


# ---- algebraic contracts of the crypto primitives ------------------------------------
class RandInt:
    """uniformly random integer; only its residue is used"""
    def __init__(self, atom):
        self.a = atom

    def __mod__(self, m):
        if m == alg.L:
            return self.a
        raise Undecided("random integer modulo %d" % m)

    def to_bytes(self, n, order):
        return Term("rnd", self.a.key(), n).bytes()


class AlgKeccak:
    digest_size = 32
    block_size = 136

    def __init__(self, *a, **k):
        self.b = []

    def update(self, m):
        self.b += to_elems(m)

    def copy(self):
        c = AlgKeccak()
        c.b = list(self.b)
        return c

    def reset(self):
        self.b = []
        return self

    def digest(self, buff=None):
        r = khash(self.b)
        if buff is None:
            return r
        for i in range(32):
            buff[i] = r[i]
        return buff

    def hexdigest(self):
        return vbytes.hexlify(self.digest())


CONCRETE_HASH = [True]


def rep_input(kind, e):
    """an earlier input of the same function on this path that equals e, else e itself.  Equality of symbolic integers
    in the inputs is decided by the solver; where it is open the path forks."""
    e = list(e)
    c = ctx()
    reg = c.memo.setdefault(("inp", kind, len(e)), [])
    sym = any(isinstance(x, SInt) for x in e)
    for f, fsym in reg:
        if f is e:
            return f
        if not sym and not fsym:
            continue
        conds = []
        for x, y in zip(e, f):
            if x is y:
                continue
            xi, yi = isinstance(x, (int, SInt)), isinstance(y, (int, SInt))
            if xi and yi:
                if isinstance(x, int) and isinstance(y, int):
                    if x != y:
                        break
                    continue
                q = x == y
                if q is False:
                    break
                if q is not True:
                    conds.append(q)
            elif xi or yi:
                break
            elif vbytes.ekey(x) != vbytes.ekey(y):
                break
        else:
            if not conds:
                return f
            r = conds[0]
            for q in conds[1:]:
                r = r & q
            if bool(r):
                return f
    reg.append((e, sym))
    return e


def khash(e):
    e = rep_input("k", e)
    if CONCRETE_HASH[0] and all(isinstance(x, int) for x in e):
        from .spec_keccak import keccak256
        return VBytes(list(keccak256(bytes(e))))
    return Term("hash", canon(e), 32).bytes()


class InvalidTag(Exception):
    pass


def _keyb(k, sizes):
    e = to_elems(k)
    if len(e) not in sizes:
        raise ValueError("key must be %s bytes" % (sizes,))
    return canon(e)


def seal(kind, ident, pt, extra):
    """ciphertext (and tag) of a cipher: an injective function of key, nonce, associated data and plaintext"""
    e = tuple(to_elems(pt))
    return Term(kind, (ident, canon(list(e))), len(e) + extra, payload=e).bytes()


def unseal(kind, ident, ct):
    e = to_elems(ct)
    t = vbytes.whole_term(e) if e else None
    if t is None or t.kind != kind or t.key[0] != ident:
        return None
    return VBytes(list(t.payload))


class FakeChaChaPoly:
    def __init__(self, key):
        self.k = _keyb(key, (32,))

    def _id(self, nonce, ad):
        n = to_elems(nonce)
        if len(n) != 12:
            raise ValueError("Nonce must be 12 bytes")
        return (self.k, canon(n), canon(to_elems(ad)) if ad else ())

    def encrypt(self, nonce, pt, ad=None):
        return seal("chachapoly", self._id(nonce, ad), pt, 16)

    def decrypt(self, nonce, ct, ad=None):
        r = unseal("chachapoly", self._id(nonce, ad), ct)
        if r is None:
            raise InvalidTag()
        return r


class _FakeChaCha20:
    """keystream bytes are opaque functions of key, nonce and position"""
    def __init__(self, key, nonce):
        self.k, self.nonce, self.pos = _keyb(key, (32,)), nonce, 0
        self.idn = canon(to_elems(nonce))

    def _x(self, data):
        out = []
        for x in to_elems(data):
            ks = Term("chacha", (self.k, self.idn, self.pos), 1).bytes()[0]
            out.append(ks ^ x)
            self.pos += 1
        return VBytes(out)
    encrypt = decrypt = _x


class FakeChaCha20Mod:
    @staticmethod
    def new(key, nonce=None):
        if nonce is None:
            nonce = fresh_opaque("nonce", 8)
        elif len(nonce) not in (8, 12, 24):
            raise ValueError("Nonce must be 8/12 bytes(ChaCha20) or 24 bytes (XChaCha20)")
        return _FakeChaCha20(key, nonce)


class _FakeGcm:
    def __init__(self, key, nonce):
        self.k, self.nonce, self.ad, self.st = _keyb(key, (16, 24, 32)), nonce, [], 0
        if len(nonce) == 0:
            raise ValueError("Nonce cannot be empty")

    def update(self, ad):
        self.ad += to_elems(ad)

    def _id(self):
        return (self.k, canon(to_elems(self.nonce)), canon(self.ad))

    def encrypt_and_digest(self, pt):
        ct = seal("gcmct", self._id()[:2], pt, 0)
        return ct, Term("gcmtag", (self._id(), canon(to_elems(ct))), 16).bytes()

    def decrypt_and_verify(self, ct, tag):
        t = Term("gcmtag", (self._id(), canon(to_elems(ct))), 16).bytes()
        if not bool(VBytes(to_elems(tag)) == t):
            raise ValueError("MAC check failed")
        if len(ct) == 0:
            return VBytes([])
        r = unseal("gcmct", self._id()[:2], ct)
        if r is None:
            raise Undecided("gcm of a foreign ciphertext")
        return r


class _FakeCbc:
    def __init__(self, key, iv):
        self.k, self.iv = _keyb(key, (16, 24, 32)), list(to_elems(iv))
        self.st = None

    def _blocks(self, data):
        e = to_elems(data)
        if len(e) % 16:
            raise ValueError("Data must be padded to 16 byte boundary in CBC mode")
        return [e[i:i + 16] for i in range(0, len(e), 16)]

    def encrypt(self, pt):
        prev, out = self.iv, []
        for b in self._blocks(pt):
            x = [p ^ q for p, q in zip(b, prev)]
            prev = seal("aesblk", self.k, VBytes(x), 0)._e()
            out += prev
        return VBytes(out)

    def decrypt(self, ct):
        prev, out = self.iv, []
        for b in self._blocks(ct):
            x = unseal("aesblk", self.k, VBytes(b))
            x = x._e() if x is not None else Term("aesinv", (self.k, canon(b)), 16).bytes()._e()
            out += [p ^ q for p, q in zip(x, prev)]
            prev = b
        return VBytes(out)


class FakeAes:
    MODE_ECB, MODE_CBC, MODE_GCM = 1, 2, 11

    @staticmethod
    def new(key, mode, *args, **kw):
        if mode == 11:
            nonce = args[0] if args else kw.pop("nonce", None)
            if kw:
                raise TypeError("unknown parameters for GCM")
            return _FakeGcm(key, fresh_opaque("nonce", 16) if nonce is None else nonce)
        if mode == 2:
            iv = args[0] if args else kw.pop("iv", kw.pop("IV", None))
            if kw:
                raise TypeError("unknown parameters for CBC")
            if iv is not None and len(iv) != 16:
                raise ValueError("Incorrect IV length (it must be 16 bytes long)")
            return _FakeCbc(key, fresh_opaque("iv", 16) if iv is None else iv)
        if mode == 1:
            if args or kw:
                raise TypeError("Unknown parameters passed to ECB: %s" % (kw,))
        raise Undecided("AES mode %s" % mode)


def fake_ciphers():
    m = types.ModuleType("cryptography.hazmat.primitives.ciphers.aead")
    m.ChaCha20Poly1305 = FakeChaChaPoly
    FAKES["cryptography.hazmat.primitives.ciphers.aead"] = m
    m = types.ModuleType("Crypto.Cipher")
    m.ChaCha20, m.AES = FakeChaCha20Mod, FakeAes
    FAKES["Crypto.Cipher"] = m
    m = types.ModuleType("os")
    m.__dict__.update({k: v for k, v in os.__dict__.items() if not k.startswith("__")})
    m.urandom = lambda n: fresh_opaque("urandom", n)
    FAKES["os"] = m
    m = types.ModuleType("pycryptonight")
    m.cn_slow_hash = lambda data, *a: Term("cnslow", (canon(to_elems(data)), a), 32).bytes()
    FAKES["pycryptonight"] = m


def fresh_scalar(name):
    return alg.Zl.atom(ctx().fresh(name))


def fresh_point(name):
    return alg.Pt.atom(ctx().fresh(name))


def fresh_opaque(name, n):
    return Term("rnd", ctx().fresh(name), n).bytes()


def setup_algebra():
    """load the repository over the abstract prime-order group (contracts of the primitives in C12-C14)"""
    setup(True)

    @hook("monero_glue.xmr.core.backend.keccak2")
    def _k(m):
        m.Keccak256 = AlgKeccak

    @hook("monero_glue.xmr.core.backend.ed25519")
    def _e(m):
        oe, od = m.encodeint, m.decodeint
        m.encodeint = lambda y: alg.enc_scalar(y)
        m.decodeint = alg.dec_scalar32

    @hook("monero_glue.xmr.core.backend.ed25519_2")
    def _e2(m):
        m.ident = alg.Pt({})
        m.B = alg.G
        m.edwards_add = lambda P, Q: P + Q
        m.edwards_double = lambda P: P + P
        m.scalarmult = lambda P, e: P * e
        m.scalarmult_B = lambda e: alg.G * e
        m.encodepoint = lambda P: alg.enc_point(P)
        m.decodepoint = lambda s: alg.dec_point(s)
        m.encodeint = lambda y: alg.enc_scalar(y)
        m.decodeint = alg.dec_scalar32
        m.isoncurve = lambda P: True

    @hook("monero_glue.xmr.core.backend.ed25519ietf")
    def _e3(m):
        m.point_equal = lambda P, Q: P == Q

    @hook("monero_glue.xmr.core.ec_py")
    def _ep(m):
        m.EdPoint.invert_v = staticmethod(lambda v: -v)
        m.ge_frombytes_vartime_check = lambda p: 0

        def hash_to_point(buf):
            return m.EdPoint(alg.hash_point(to_elems(khash(buf))))
        m.hash_to_point = hash_to_point
        m.random_bytes = lambda n: fresh_opaque("rnd", n)
        m.get_random_bytes = m.random_bytes

    class R:
        @staticmethod
        def getrandbits(n):
            return RandInt(fresh_scalar("rs"))
    crng = types.ModuleType("Crypto.Random")
    crng.random = R
    crng.get_random_bytes = lambda n: fresh_opaque("rnd", n)
    FAKES["Crypto.Random"] = crng
    fake_ciphers()
    os.environ["EC_BACKEND"] = "0"
