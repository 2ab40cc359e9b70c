"""C16: wire messages round-trip; truncated or foreign input is refused"""
import inspect
import itertools
import pkgutil

from pyvc.run import contract
from contracts import txlib as T

PB = "monero_glue.protobuf"
MISC = "monero_glue.hwtoken.misc"


class Reader:
    """the documented reader interface: fills the buffer as far as there is input; at the end returns 0 or raises EOFError"""
    def __init__(self, data, eof=False):
        self.d, self.pos, self.eof = data, 0, eof

    def readinto(self, buf):
        n = min(len(buf), len(self.d) - self.pos)
        if n == 0 and len(buf) and self.eof:
            raise EOFError
        buf[0:n] = self.d[self.pos:self.pos + n]
        self.pos += n
        return n


class Writer:
    def __init__(self, env):
        self.env, self.parts = env, []

    def write(self, buf):
        self.parts.append(self.env.cbytes(buf))
        return len(buf)

    def data(self):
        return cat(self.env, *self.parts)


def cat(env, *parts):
    r = env.cbytes(b"")
    for p in parts:
        r = r + p
    return r


# ---- numbers ------------------------------------------------------------------------------------------------
@contract("C16", "sym", targets=["protobuf.dump_uvarint", "protobuf.load_uvarint"], variants=[{"k": k} for k in range(1, 11)], conc=60, conc_time=2)
def varint(env, k):
    """every number of k base-128 digits (up to 2^70): the digits, least significant first, and back, leaving the rest of the input alone"""
    T.use_repo(env)
    pb = env.mod(PB)
    n = env.int("n", 128 ** (k - 1) if k > 1 else 0, 128 ** k - 1)
    w = Writer(env)
    pb.dump_uvarint(w, n)
    d = w.data()
    env.check(len(d) == k, "shortest form")
    q = n
    for i in range(k):
        env.check(d[i] == (q & 0x7f) + (128 if i < k - 1 else 0), "digit %d" % i)
        q = q >> 7
    env.check(q == 0, "no further digit")
    rd = Reader(cat(env, d, b"\xff\x01"))
    env.check(pb.load_uvarint(rd) == n, "read back")
    env.check(rd.pos == k, "reads exactly its bytes")
    c = pb.CountingWriter()
    pb.dump_uvarint(c, n)
    env.check(c.size == k, "size counter")
    for cut in range(k):
        for eof in (False, True):
            env.refuses("truncated number is refused", pb.load_uvarint, Reader(d[:cut], eof))
    env.refuses("negative number is refused", pb.dump_uvarint, w, -n - 1)


@contract("C16", "sym", targets=["protobuf.load_uvarint"], variants=[{"n": n} for n in range(0, 7)], conc=60, conc_time=2)
def varint_input(env, n):
    """every input of n bytes: value of the digits up to the first byte below 128, refused if there is none"""
    T.use_repo(env)
    pb = env.mod(PB)
    d = env.bytes("d", n)
    rd = Reader(d)
    r = env.attempt(pb.load_uvarint, rd)
    v = 0
    for i in range(n):
        v = v + ((d[i] % 128) << (7 * i))
        if bool(d[i] < 128):
            env.check(r.ok, "complete number is read")
            if r.ok:
                env.check(r.value == v, "value")
                env.check(rd.pos == i + 1, "reads exactly its bytes")
            return
    env.check(not r.ok, "number without an end is refused")


@contract("C16", "sym", targets=["protobuf.sint_to_uint", "protobuf.uint_to_sint"], conc=200, conc_time=2)
def zigzag(env):
    """every signed number: the interleaved encoding and back"""
    T.use_repo(env)
    pb = env.mod(PB)
    s = env.int("s", -2 ** 70, 2 ** 70)
    u = pb.sint_to_uint(s)
    env.check(u == (2 * s if bool(s >= 0) else -2 * s - 1), "encoding")
    env.check(pb.uint_to_sint(u) == s, "back")
    v = env.int("v", 0, 2 ** 70)
    env.check(pb.sint_to_uint(pb.uint_to_sint(v)) == v, "every code is used once")


# ---- messages -------------------------------------------------------------------------------------------------
def classes(env):
    T.use_repo(env)
    pb, pkg = env.mod(PB), env.mod("monero_glue.messages")
    out = []
    for mi in sorted(pkgutil.iter_modules(pkg.__path__), key=lambda m: m.name):
        m = env.mod("monero_glue.messages." + mi.name)
        for k, v in sorted(vars(m).items()):
            if inspect.isclass(v) and issubclass(v, pb.MessageType) and v is not pb.MessageType and v.__module__ == m.__name__:
                out.append(v)
    return out


STR = ["", "a", "gr\u00fc\u00dfe \u20ac \U0001f511", "x" * 130, "\0z"]
LENS = [0, 1, 32, 127, 128, 300]
NUMS = [0, 1, 127, 128, 2 ** 32 - 1, 2 ** 64 - 1]


class Gen:
    def __init__(self, env, salt=0):
        self.env, self.i, self.pb = env, salt, env.mod(PB)

    def value(self, ty, depth):
        env, pb = self.env, self.pb
        self.i += 1
        i = self.i
        if isinstance(ty, type) and issubclass(ty, pb.MessageType):
            return self.message(ty, depth + 1, "all" if depth < 2 else "scalars")
        if ty is pb.UVarintType:
            return env.int("u", 128, 16383) if i % 3 == 0 else NUMS[i % len(NUMS)]
        if ty is pb.SVarintType:
            return [0, -1, 1, -2 ** 31, 2 ** 31 - 1, -64, 63][i % 7]
        if ty is pb.BoolType:
            return i % 2 == 0
        if ty is pb.BytesType:
            return env.bytes("b", LENS[i % len(LENS)])
        if ty is pb.UnicodeType:
            return STR[i % len(STR)]
        vals = sorted(getattr(ty, "enum_values"))
        return vals[i % len(vals)]

    def message(self, cls, depth=0, which="all", names=None):
        pb = self.pb
        m = cls()
        for tag, (name, ty, fl) in cls.get_fields().items():
            if names is not None and name not in names:
                continue
            msg = isinstance(ty, type) and issubclass(ty, pb.MessageType)
            if which == "scalars" and msg:
                continue
            if fl & pb.FLAG_REPEATED:
                self.i += 1
                setattr(m, name, [self.value(ty, depth) for _ in range([2, 1, 3][self.i % 3])])
            else:
                setattr(m, name, self.value(ty, depth))
        return m


def same(env, a, b):
    """equal messages, field by field"""
    pb = env.mod(PB)
    if isinstance(a, pb.MessageType):
        if a.__class__ is not b.__class__:
            return False
        return env.all([same(env, getattr(a, n), getattr(b, n)) for n, _, _ in a.get_fields().values()])
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and env.all([same(env, x, y) for x, y in zip(a, b)])
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return a == b


def encode(env, m):
    """independent reading of the format"""
    pb, ref = env.mod(PB), env.ref
    out = []
    for tag, (name, ty, fl) in m.get_fields().items():
        v = getattr(m, name)
        if v is None:
            continue
        for x in (v if fl & pb.FLAG_REPEATED else [v]):
            if isinstance(ty, type) and issubclass(ty, pb.MessageType):
                e = encode(env, x)
                wt, d = 2, [ref.varint(len(e)), e]
            elif ty is pb.BytesType:
                wt, d = 2, [ref.varint(len(x)), x]
            elif ty is pb.UnicodeType:
                e = x.encode("utf8")
                wt, d = 2, [ref.varint(len(e)), e]
            elif ty is pb.SVarintType:
                wt, d = 0, [ref.varint(2 * x if x >= 0 else -2 * x - 1)]
            else:
                wt, d = 0, [ref.varint(int(x) if isinstance(x, bool) else x)]
            out += [ref.varint(tag * 8 + wt)] + d
    return ref.cat(*out)


def both(env, m, label=""):
    """written as the format says, counted right, and read back equal"""
    pb, ms = env.mod(PB), env.mod(MISC)
    d = env.cbytes(env.run(ms.dump_pb_msg(m)))
    env.check(d == encode(env, m), "encoding " + label)
    c = pb.CountingWriter()
    env.run(pb.dump_message(c, m))
    env.check(c.size == len(d) and m.ByteSize() == len(d), "size " + label)
    r = env.run(ms.parse_pb_msg(d, m.__class__))
    env.check(same(env, m, r), "read back equal " + label)
    r = env.run(pb.load_message(Reader(d, True), m.__class__))
    env.check(same(env, m, r), "read back equal from another reader " + label)
    return d


PARTS = 19


@contract("C16", "alg", targets=["protobuf.dump_message", "protobuf.load_message", "protobuf.MessageType.ByteSize", "protobuf.CountingWriter.write", "protobuf.LimitedReader.readinto"],
          variants=[{"part": p} for p in range(PARTS)], conc=1, conc_time=3)
def schema(env, part):
    """every message class of the protocol: all fields set, none, only scalars, each alone, all but one"""
    cl = classes(env)
    env.check(len(cl) > 200, "messages found")
    for cls in cl[part::PARTS]:
        f = [n for n, _, _ in cls.get_fields().values()]
        env.check(len(set(f)) == len(f) and all(isinstance(t, int) and t > 0 for t in cls.get_fields()), "fields are distinct")
        g = Gen(env, part)
        m = g.message(cls)
        both(env, m, cls.__name__)
        both(env, cls(), cls.__name__)
        if f:
            for n in f[:12]:
                both(env, g.message(cls, names=[n]), cls.__name__)
            for n in f[:6]:
                both(env, g.message(cls, names=[x for x in f if x != n]), cls.__name__)
            e = cls(**{n: getattr(m, n) for n in f})
            env.check(same(env, e, m), "constructor keeps every field " + cls.__name__)


@contract("C16", "sym", targets=["messages.get_message_type", "messages.get_message_from_type"], conc=1)
def types(env):
    """every numbered message: number and class determine each other"""
    T.use_repo(env)
    pm, pkg = env.mod("monero_glue.protocol_base.messages"), env.mod("monero_glue.messages")
    n = 0
    for k, v in vars(pkg.MessageType).items():
        if k.startswith("_") or not isinstance(v, int):
            continue
        cls = getattr(pkg, k, None)
        if cls is None:
            continue
        n += 1
        env.check(cls.MESSAGE_WIRE_TYPE == v, "number of the class")
        env.check(pm.get_message_from_type(v) is cls and pm.get_message_type(cls()) == v and pm.get_message_type(cls=cls) == v, "number and class")
    env.check(n > 100, "messages found")
    env.refuses("unknown number is refused", pm.get_message_from_type, 10 ** 6)


def pb_class(env, fields):
    pb = env.mod(PB)

    class M(pb.MessageType):
        @classmethod
        def get_fields(cls):
            return fields
    return M


TYPES = ["UVarintType", "SVarintType", "BoolType", "BytesType", "UnicodeType", "enum", "message"]
TAGS = [1, 15, 16, 2047, 2048, 2 ** 29 - 1]


@contract("C16", "alg", targets=["protobuf.dump_message", "protobuf.load_message"], variants=[{"ty": t, "rep": r} for t in TYPES for r in (0, 1)], conc=2, conc_time=3)
def field(env, ty, rep):
    """one field of every type, number and size, single or repeated, any count; alone and between other fields; every truncation is refused"""
    T.use_repo(env)
    pb, ms, ref = env.mod(PB), env.mod(MISC), env.ref
    tag = env.choose("tag", TAGS)
    sub = pb_class(env, {1: ("x", pb.UVarintType, 0), 2: ("y", pb.BytesType, 1)})
    t = {"enum": pb.EnumType("e", (1, 5, 99)) if hasattr(pb, "EnumType") else None, "message": sub}.get(ty) or getattr(pb, ty)
    cls = pb_class(env, {tag: ("f", t, rep)})
    wide = pb_class(env, {3: ("before", pb.BytesType, 0), tag: ("f", t, rep), 7: ("after", pb.UVarintType, 1)})

    def val(n):
        if ty == "UVarintType":
            return env.int("u", 128, 16383) if n == 0 else NUMS[n % 6]
        if ty == "SVarintType":
            return [0, -1, 2 ** 31 - 1, -2 ** 31, 300][n % 5]
        if ty == "BoolType":
            return n % 2 == 0
        if ty == "BytesType":
            return env.bytes("b", LENS[n % 6])
        if ty == "UnicodeType":
            return STR[n % 5]
        if ty == "enum":
            return [5, 1, 99][n % 3]
        return sub(x=env.int("x", 128, 300) if n == 0 else NUMS[n % 6], y=[env.bytes("y", LENS[(n + i) % 4]) for i in range(n % 3)])
    count = env.choose("count", [0, 1, 2, 5]) if rep else 1
    start = env.choose("start", [0, 1, 2, 3, 4, 5])
    v = [val(start + i) for i in range(count)]
    m = cls(f=v if rep else v[0])
    d = both(env, m)
    w = wide(before=env.bytes("bf", 3), f=v if rep else v[0], after=[1, 300])
    dw = both(env, w)
    if len(dw) > 320:
        return
    order = [n for n, _, _ in wide.get_fields().values() for _ in range({"before": 1, "f": count, "after": 2}[n])]
    # the end of each record of the top level
    ends, pos = {0}, 0
    rd = Reader(dw)
    while rd.pos < len(dw):
        k = pb.load_uvarint(rd)
        n = pb.load_uvarint(rd)
        if k % 8 == 2:
            rd.pos += n
        ends.add(rd.pos)
    for cut in range(len(dw)):
        r = env.attempt(lambda: env.run(pb.load_message(Reader(dw[:cut], cut % 2 == 0), wide)))
        r2 = env.attempt(lambda: env.run(ms.parse_pb_msg(dw[:cut], wide)))
        env.check(r.ok == (cut in ends) and r2.ok == (cut in ends), "input ending inside a field is refused")
        if r.ok:
            pre = [x for x, e in zip(order, sorted(ends)[1:]) if e <= cut]
            g = r.value
            env.check(same(env, g, wide(before=w.before if "before" in pre else None, f=v[:pre.count("f")] if rep else (v[0] if "f" in pre else None),
                                        after=[1, 300][:pre.count("after")])), "a complete prefix holds exactly its fields")


@contract("C16", "alg", targets=["protobuf.load_message"], variants=[{"wt": w, "depth": d} for w in range(8) for d in (0, 1)], conc=4, conc_time=2)
def unknown(env, wt, depth):
    """fields with unknown numbers before, between and after known ones are skipped without effect; kinds that cannot be skipped are refused; so are truncated ones"""
    T.use_repo(env)
    pb, ref = env.mod(PB), env.ref
    inner = pb_class(env, {1: ("x", pb.UVarintType, 0), 3: ("y", pb.BytesType, 1)})
    outer = pb_class(env, {2: ("s", inner, 0), 5: ("z", pb.UVarintType, 0)})
    tag = env.choose("tag", [4, 9, 15, 16, 5000])
    n = env.choose("n", [0, 1, 5, 200])
    u = ref.cat(ref.varint(tag * 8 + wt), ref.varint(n), env.bytes("u", n) if wt == 2 else b"")
    known = [ref.cat(ref.varint(8), ref.varint(77)), ref.cat(ref.varint(26), ref.varint(2), env.bytes("p", 2)), ref.cat(ref.varint(26), ref.varint(3), env.bytes("q", 3))]
    at = env.choose("at", [0, 1, 2, 3])

    def build(parts, extra=b""):
        e = ref.cat(*parts)
        if depth:
            return ref.cat(ref.varint(40), ref.varint(9), ref.varint(18), ref.varint(len(e)), e, extra)
        return ref.cat(e, extra)
    cls = outer if depth else inner
    good = env.run(pb.load_message(Reader(build(known)), cls))
    parts = known[:at] + [u] + known[at:]
    r = env.attempt(lambda: env.run(pb.load_message(Reader(build(parts)), cls)))
    if wt in (0, 2):
        env.check(r.ok and bool(same(env, r.value, good)), "unknown field is skipped")
        r = env.attempt(lambda: env.run(pb.load_message(Reader(build(known, u)), cls)))
        env.check(r.ok and bool(same(env, r.value, good)), "unknown field at the end is skipped")
        for cut in range(1, len(u)):
            env.refuses("truncated unknown field is refused", lambda: env.run(pb.load_message(Reader(build(known, u[:cut]), cut % 2 == 0), cls)))
            if depth:
                env.refuses("truncated unknown field inside is refused", lambda: env.run(pb.load_message(Reader(build(known + [u[:cut]])), cls)))
    else:
        env.check(not r.ok, "unknown kind is refused")


@contract("C16", "alg", targets=["protobuf.load_message"], variants=[{"ty": t} for t in TYPES], conc=2, conc_time=2)
def wrong_kind(env, ty):
    """a known field with another wire kind is refused"""
    T.use_repo(env)
    pb, ref = env.mod(PB), env.ref
    sub = pb_class(env, {1: ("x", pb.UVarintType, 0)})
    t = {"enum": pb.EnumType("e", (1, 5, 99)) if hasattr(pb, "EnumType") else None, "message": sub}.get(ty) or getattr(pb, ty)
    own = 0 if ty in ("UVarintType", "SVarintType", "BoolType", "enum") else 2
    for rep in (0, 1):
        cls = pb_class(env, {1: ("f", t, rep)})
        for wt in range(8):
            d = ref.cat(ref.varint(8 + wt), ref.varint(0), b"")
            r = env.attempt(lambda: env.run(pb.load_message(Reader(d), cls)))
            env.check(r.ok == (wt == own), "accepted exactly with its own kind")


@contract("C16", "alg", targets=["protobuf.LimitedReader.readinto", "protobuf.load_message"], conc=10, conc_time=2)
def limited(env):
    """an embedded message never reads past its length and never leaves bytes unread"""
    T.use_repo(env)
    pb, ref = env.mod(PB), env.ref
    n = env.choose("limit", list(range(8)))
    have = env.choose("have", list(range(8)))
    d = env.bytes("d", have)
    base = Reader(d, env.choose("eof", [True, False]))
    lr = pb.LimitedReader(base, n)
    pos = 0
    for want in env.choose("reads", [[1, 1, 1, 1, 1], [0, 3, 2], [2, 2, 9], [7], [4, 0, 4]]):
        buf = env.ba(bytes(want))
        r = env.attempt(lr.readinto, buf)
        env.check(base.pos <= n, "never past the length")
        if not r.ok:
            env.check(pos + want > min(n, have), "refuses only what is not there")
            return
        env.check(r.value <= want and env.cbytes(buf)[:r.value] == d[pos:pos + r.value], "delivers the bytes in order")
        pos += r.value
        env.check(base.pos == pos and lr.limit == n - pos, "counts what it delivered")
        if pos + want <= min(n, have):
            env.check(r.value == want, "delivers what is there")
    sub = pb_class(env, {1: ("x", pb.BytesType, 0)})
    cls = pb_class(env, {1: ("s", sub, 0), 2: ("t", pb.UVarintType, 0)})
    x = env.bytes("x", 4)
    inner = ref.cat(b"\x0a\x04", x)
    for ln in range(1, 12):
        e = ref.cat(b"\x0a", ref.varint(ln), inner, b"\x10\x05\x10\x06\x10\x07")
        r = env.attempt(lambda: env.run(pb.load_message(Reader(e), cls)))
        if ln == 6:
            env.check(r.ok and bool(r.value.s.x == x) and r.value.t == 7, "right length")
        elif ln in (8, 10, 12):
            env.check(r.ok and bool(r.value.s.x == x), "unknown fields inside are skipped")
        else:
            env.check(not r.ok, "wrong length is refused")


@contract("C16", "alg", targets=["protobuf.dict_to_proto", "protobuf.value_to_proto", "messages.bytes_fix"], conc=2, conc_time=2)
def converted(env):
    """messages built from dictionaries and with bytearray contents are the same messages"""
    T.use_repo(env)
    pb, pm = env.mod(PB), env.mod("monero_glue.protocol_base.messages")
    enum = pb.EnumType("e", (1, 5)) if hasattr(pb, "EnumType") else pb.UVarintType
    sub = pb_class(env, {1: ("x", pb.BytesType, 1), 2: ("n", pb.SVarintType, 0)})
    cls = pb_class(env, {1: ("u", pb.UVarintType, 0), 2: ("b", pb.BytesType, 0), 3: ("s", sub, 1), 4: ("t", pb.UnicodeType, 1), 5: ("o", pb.BoolType, 0), 6: ("e", enum, 0), 7: ("m", sub, 0), 8: ("e2", enum, 1)})
    b, c = env.bytes("b", 5), env.bytes("c", 3)
    m = cls(u=300, b=b"\x01\xff", s=[sub(x=[b"\0", b""], n=-4), sub(n=2)], t=["q", ""], o=True, e=5, m=sub(x=[], n=0), e2=[1, 5])
    d = {"u": 300, "b": "01ff", "s": [{"x": ["00", ""], "n": -4}, {"n": 2}], "t": ["q", ""], "o": True, "e": 5, "m": {"x": [], "n": 0}, "e2": [1, 5], "foreign": 3}
    env.check(same(env, pb.dict_to_proto(cls, d), m), "dictionary")
    both(env, m)
    a = cls(b=env.ba(b), s=[sub(x=[env.ba(c)])])
    r = pm.bytes_fix(a)
    env.check(same(env, r, cls(b=b, s=[sub(x=[c])])), "bytes")
    k = cls(b=[b, c])
    env.check(env.cbytes(env.run(env.mod(MISC).dump_pb_msg(k))) == encode(env, cls(b=env.ref.cat(b, c))), "bytes given in pieces")
