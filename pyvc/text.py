"""character strings with symbolic characters or words"""
from .core import SInt, Undecided, ctx, table_lookup
from . import core

HEX = list(b"0123456789abcdef")


def hexdigit(v):
    """character of a value 0..15; its value can be looked up again"""
    if isinstance(v, int):
        return HEX[v]
    k = ("hexdigit", v.t.get_id())
    c = ctx().memo.get(k)
    if c is None:
        r = table_lookup(HEX, v)
        ctx().memo[k] = c = (v, r)
        if type(r) is SInt and v.lo is not None and v.lo >= 0:
            ctx().memo[("tl", r.t.get_id())] = (tuple(HEX), v, r)
    return c[1]


def hexvalue(c):
    if isinstance(c, str):
        c = ord(c)
    if isinstance(c, int):
        return int(chr(c), 16)
    pv = ctx().memo.get(("tl", c.t.get_id()))
    if pv is not None and pv[0] == tuple(HEX):
        return pv[1]
    if not bool(((c >= 48) & (c <= 57)) | ((c >= 97) & (c <= 102)) | ((c >= 65) & (c <= 70))):
        raise ValueError("invalid literal for int() with base 16")
    return core.ite(c <= 57, c - 48, core.ite(c <= 70, c - 55, c - 87))


class VStr:
    """a str whose characters (code points) may be symbolic"""
    def __init__(self, e):
        self.e = [ord(x) if isinstance(x, str) else x for x in e]

    def __len__(self):
        return len(self.e)

    def __getitem__(self, i):
        return VStr(self.e[i]) if isinstance(i, slice) else VStr([self.e[i]])

    def __add__(self, o):
        return VStr(self.e + list(o.e if isinstance(o, VStr) else o))

    def __radd__(self, o):
        return VStr(list(o) + self.e)

    def __iter__(self):
        return iter([VStr([x]) for x in self.e])

    def encode(self, *a):
        from .vbytes import VBytes
        return VBytes(self.e)

    def __eq__(self, o):
        if not isinstance(o, (VStr, str)):
            return NotImplemented
        a, b = self.encode(), (o.encode() if isinstance(o, VStr) else o.encode("utf8"))
        return a == b

    def __hash__(self):
        raise Undecided("hash of a symbolic string")

    def lower(self):
        from .vbytes import XB
        if any(not isinstance(c, XB) and bool((c >= 65) & (c <= 90)) for c in self.e):
            raise Undecided("lower case of symbolic text")
        return self

    def hexbytes(self):
        from .vbytes import XB, unhexlify
        if any(isinstance(c, XB) for c in self.e):
            return unhexlify(self.encode())._e()
        out = []
        if len(self.e) % 2:
            raise ValueError("Odd-length string")
        for a, b in zip(self.e[::2], self.e[1::2]):
            out.append(hexvalue(a) * 16 + hexvalue(b))
        return out


def fmt_hex(x, width):
    if not bool(x >= 0):
        raise Undecided("hexadecimal text of a negative number")
    if type(x) is SInt and getattr(ctx(), "alg", False) and width % 2 == 0:
        if (width >= 16 and bool(x < 16 ** width)) or ("natbytes", x.t.get_id(), width // 2) in ctx().memo:
            from . import secp
            from .vbytes import VBytes, hexlify
            return VStr(hexlify(VBytes(secp.nat_bytes(x, width // 2)))._e())
    n = max(width, 1)
    while not (x.hi is not None and x.hi < 16 ** n) and not bool(x < 16 ** n):
        n += 1
        if n > 80:
            raise Undecided("length of a number")
    out = []
    for _ in range(n):
        x, r = divmod(x, 16) if isinstance(x, SInt) else divmod(x, 16)
        out.append(hexdigit(r))
    return VStr(out[::-1])


class SText:
    """concatenation of texts, some of them symbolic choices from a table"""
    def __init__(self, parts):
        self.parts = [p for p in parts if not (isinstance(p, str) and p == "")]

    def __add__(self, o):
        return SText(self.parts + (o.parts if isinstance(o, SText) else [o]))

    def __radd__(self, o):
        return SText([o] + self.parts)

    def encode(self, *a):
        return self

    def key(self):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p)
            else:
                out.append((tuple(p.table), p.idx))
        return out
