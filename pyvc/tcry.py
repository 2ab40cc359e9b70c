"""stand-in for the native library (dependency trezor_crypto): the contract of every function the wrapper ec_trezor uses.

Each function is specified once, over the abstract prime-order group; contract C29 `native` runs the library itself
against the same statements. Results are computed from the operands before anything is written, so aliasing of
destination and operands is part of what is assumed (and tested there).
"""
import types

from . import alg, load
from .alg import Pt, Zl
from .vbytes import VBytes, to_elems

ORD = (2 ** 252 + 27742317777372353535851937790883648493).to_bytes(32, "little")


class Sc:
    def __init__(self, v=0):
        self.v = Zl.of(v)


class Ge:
    """v is None: memory that is no point"""
    def __init__(self, v=None):
        self.v = v


class Bn:
    def __init__(self):
        self.b = VBytes([0] * 32)


class KeyBuff:
    """32 bytes: own, or another buffer's"""
    def __init__(self, *e):
        if len(e) > 32:
            raise IndexError("invalid index")
        self.own, self.base = VBytes(to_elems(VBytes(list(e))) + [0] * (32 - len(e))), None

    @classmethod
    def from_buffer(cls, b):
        r = cls()
        if len(b) < 32:
            raise ValueError("Buffer size too small (%d instead of at least 32 bytes)" % len(b))
        b[0] = b[0]                          # must be writable
        r.base = b
        return r

    @classmethod
    def from_buffer_copy(cls, b):
        if len(b) < 32:
            raise ValueError("Buffer size too small (%d instead of at least 32 bytes)" % len(b))
        return cls(*to_elems(b)[:32])

    def _e(self):
        return to_elems(self.own) if self.base is None else to_elems(self.base[:32])

    def get(self):
        return VBytes(self._e())

    def put(self, v):
        e = to_elems(v)
        if self.base is None:
            self.own = VBytes(e)
        else:
            for i in range(32):
                self.base[i] = e[i]

    def __len__(self):
        return 32

    def __iter__(self):
        return iter(self._e())

    def __getitem__(self, i):
        return self.get()[i]


def pt(x):
    if not isinstance(x, Ge) or x.v is None:
        raise ctypes_error("not a point")
    return x.v


def sc(x):
    if not isinstance(x, Sc):
        raise ctypes_error("not a scalar")
    return x.v


class ctypes_error(TypeError):
    pass


def kb(x):
    if isinstance(x, KeyBuff):
        return x.get()
    raise ctypes_error("not a key buffer")


def u64(x):
    return Zl.of(x % 2 ** 64) if isinstance(x, int) else Zl.of(x)


def hs(b):
    return alg.dec_scalar(load.khash(to_elems(b)))


def hp(b):
    from .vbytes import canon
    return alg.hash_point(to_elems(load.khash(to_elems(b))))


def varint(x):
    r = []
    while x >= 128:
        r.append(x % 128 + 128)
        x = x // 128
    return r + [x]


def le32(x):
    return to_elems(load.FAKES["struct"].pack("<L", x))


def d2s(p, i):
    return hs(to_elems(alg.enc_point(p)) + varint(i))


def subkey(major, minor, m):
    return hs(list(b"SubAddr\0") + to_elems(alg.enc_scalar(m)) + le32(major) + le32(minor))


# name: (kinds of arguments, kind of result, value); "x" + name with result into the first argument, name + "_r" with a new result
SPEC = {
    "ge25519_add": ("PPi", "P", lambda p, q, n: p - q if n else p + q),
    "ge25519_double": ("P", "P", lambda p: p + p),
    "ge25519_mul8": ("P", "P", lambda p: p * 8),
    "ge25519_norm": ("P", "P", lambda p: p),
    "ge25519_scalarmult": ("Ps", "P", lambda p, s: p * s),
    "ge25519_scalarmult_base_wrapper": ("s", "P", lambda s: alg.G * s),
    "ge25519_double_scalarmult_vartime": ("Pss", "P", lambda p, a, b: p * a + alg.G * b),
    "ge25519_double_scalarmult_vartime2": ("PsPs", "P", lambda p, a, q, b: p * a + q * b),
    "ge25519_set_neutral": ("", "P", lambda: Pt({})),
    "ge25519_set_xmr_h": ("", "P", lambda: alg.H),
    "xmr_add_keys2_vartime": ("ssP", "P", lambda a, b, p: alg.G * a + p * b),
    "xmr_add_keys3_vartime": ("sPsP", "P", lambda a, p, b, q: p * a + q * b),
    "xmr_add_keys3": ("sPsP", "P", lambda a, p, b, q: p * a + q * b),
    "xmr_gen_c": ("su", "P", lambda a, u: alg.G * a + alg.H * u),
    "xmr_generate_key_derivation": ("Ps", "P", lambda p, s: p * s * 8),
    "xmr_derive_public_key": ("PiP", "P", lambda d, i, b: b + alg.G * d2s(d, i)),
    "add256_modm": ("ss", "s", lambda a, b: a + b),
    "sub256_modm": ("ss", "s", lambda a, b: a - b),
    "mul256_modm": ("ss", "s", lambda a, b: a * b),
    "muladd256_modm": ("sss", "s", lambda a, b, c: c + a * b),
    "mulsub256_modm": ("sss", "s", lambda a, b, c: c - a * b),
    "xmr_derivation_to_scalar": ("Pi", "s", lambda p, i: d2s(p, i)),
    "xmr_derive_private_key": ("Pis", "s", lambda d, i, b: b + d2s(d, i)),
    "xmr_get_subaddress_secret_key": ("iis", "s", lambda a, i, m: subkey(a, i, m)),
    "expand_raw256_modm": ("B", "s", lambda b: alg.dec_scalar(b)),
    "xmr_random_scalar": ("", "s", lambda: load.fresh_scalar("rs")),
}
# writing these into one of their operands is not assumed to work; the wrapper only uses the form with a new result
NOALIAS = ("xmr_derive_public_key", "xmr_derive_private_key", "xmr_generate_key_derivation", "xmr_get_subaddress_secret_key", "xmr_derivation_to_scalar", "xmr_add_keys3", "xmr_gen_c")
GET = {"P": pt, "s": sc, "i": lambda x: x % 2 ** 32 if isinstance(x, int) else x, "u": u64, "B": kb}
CLS = {"P": Ge, "s": Sc}


def module():
    m = types.ModuleType("trezor_crypto.trezor_cfunc")

    def make(name, kinds, res, f):
        def into(r, *a):
            if len(a) != len(kinds) or not isinstance(r, CLS[res]):
                raise ctypes_error("arguments of " + name)
            r.v = f(*[GET[k](x) for k, x in zip(kinds, a)])

        def new(*a):
            r = CLS[res]()
            into(r, *a)
            return r
        if name not in NOALIAS:
            setattr(m, name, into)
        setattr(m, name + "_r", new)
    for n, (k, r, f) in SPEC.items():
        make(n, k, r, f)
    m.open_lib = lambda *a: None
    m.ge25519, m.bignum256modm, m.KEY_BUFF = Ge, Sc, KeyBuff
    m.new_ge25519 = Ge

    def init(r, a):
        r.v = u64(a)
        return r
    m.init256_modm = init
    m.init256_modm_r = lambda a: init(Sc(), a)

    def expand(r, b, ln=None):
        r.v = alg.dec_scalar(kb(b)[:32 if ln is None else ln])
        return r
    m.expand256_modm = expand
    m.expand256_modm_r = lambda b, ln=None: expand(Sc(), b, ln)

    def unpack(r, b):
        r.v = alg.dec_point(kb(b))
        return r
    m.ge25519_unpack_vartime = unpack
    m.ge25519_unpack_vartime_r = lambda b: unpack(Ge(), b)

    def pack(b, p):
        if not isinstance(b, KeyBuff):
            raise ctypes_error("buffer")
        b.put(alg.enc_point(pt(p)))
    m.ge25519_pack = pack
    m.ge25519_pack_r = lambda p: alg.enc_point(pt(p))

    def contract(b, s):
        if not isinstance(b, KeyBuff):
            raise ctypes_error("buffer")
        b.put(alg.enc_scalar(sc(s)))
    m.contract256_modm = contract
    m.contract256_modm_r = lambda s: alg.enc_scalar(sc(s))
    m.ge25519_check = lambda p: 1 if isinstance(p, Ge) and p.v is not None else 0
    m.ge25519_eq = lambda p, q: 1 if bool(pt(p) == pt(q)) else 0
    m.eq256_modm = lambda a, b: 1 if bool(sc(a) == sc(b)) else 0
    m.iszero256_modm = lambda a: 1 if bool(sc(a) == 0) else 0
    m.check256_modm = lambda a: 0 if bool(sc(a) == 0) else 1

    def get64(a):
        c = sc(a)
        v = getattr(c, "small", None)
        k = c.is_const()
        if k is not None:
            if k >= 2 ** 64:
                raise ValueError("Get256_modm failed")
            return k
        from .core import Undecided
        raise Undecided("64 bit value of a scalar")
    m.get256_modm_r = get64
    # big numbers: only used for inversion modulo the group order
    m.bn_zero_r = Bn

    def read_le(b, x):
        x.b = kb(b)
    m.bn_read_le = read_le

    def bn_inverse(x, p):
        if to_elems(p.b) != list(ORD):
            raise ctypes_error("modulus")
        x.b = alg.enc_scalar(alg.dec_scalar(x.b).inverse())
    m.bn_inverse = bn_inverse
    m.bn_write_le = lambda x, b: b.put(x.b)
    # hashes
    m.xmr_fast_hash_r = lambda b, ln=None: load.khash(to_elems(b)[:ln])

    class Cl:
        @staticmethod
        def xmr_fast_hash(r, b, n):
            e = to_elems(b)
            if n > len(e):
                raise ctypes_error("read beyond the buffer")
            r.put(load.khash(e[:n]))
    m.cl = lambda: Cl

    def h2s(r, b, ln=None):
        r.v = hs(to_elems(b)[:ln])
    m.xmr_hash_to_scalar = h2s

    def h2s_r(b, ln=None):
        r = Sc()
        h2s(r, b, ln)
        return r
    m.xmr_hash_to_scalar_r = h2s_r

    def h2p(r, b, ln=None):
        r.v = hp(to_elems(b)[:ln])
    m.xmr_hash_to_ec = h2p

    def h2p_r(b, ln=None):
        r = Ge()
        h2p(r, b, ln)
        return r
    m.xmr_hash_to_ec_r = h2p_r

    class Hasher:
        def __init__(self):
            self.b = []

    def h_update(h, b, ln=None):
        if h.b is None:
            raise ctypes_error("finalized hasher")
        h.b = h.b + to_elems(b)[:ln]

    def h_final(h):
        r = load.khash(h.b)
        h.b = None
        return r

    def h_copy(h):
        r = Hasher()
        r.b = h.b
        return r
    m.xmr_hasher_init_r, m.xmr_hasher_update, m.xmr_hasher_final_r, m.xmr_hasher_copy_r = Hasher, h_update, h_final, h_copy
    m.random_buffer_r = lambda n: load.fresh_opaque("rnd", n)

    def missing(name):
        def f(*a, **k):
            raise ctypes_error("no contract for " + name)
        return f
    m.__getattr__ = missing
    return m


def install():
    m = module()
    p = types.ModuleType("trezor_crypto")
    p.trezor_cfunc = m
    p.__path__ = []
    load.FAKES["trezor_crypto"] = p
    load.FAKES["trezor_crypto.trezor_cfunc"] = m
