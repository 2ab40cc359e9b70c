"""C28: helper contracts"""
from pyvc.run import contract

CM = "monero_glue.xmr.common"


@contract("C28", "sym", targets=["common.chunk"], variants=[{"n": n, "size": s} for n in range(0, 13) for s in (1, 2, 3, 4, 5, 7, 10, 12, 13)],
          thorough=[{"n": n, "size": s} for n in range(13, 42) for s in range(1, 22)], conc=1, conc_time=2)
def chunk(env, n, size):
    cm = env.mod(CM)
    seq = env.ints("x", n, 0, 2 ** 70)
    before = list(seq)
    out = cm.chunk(seq, size)
    flat = [y for c in out for y in c]
    env.check(len(flat) == n, "pieces have the total length")
    env.check(env.all([a == b for a, b in zip(flat, before)]), "pieces concatenate to the sequence")
    env.check(all(len(c) > 0 for c in out), "no empty piece")
    env.check(all(len(c) == size for c in out[:-1]), "only the last piece may be shorter")
    env.check(all(len(c) <= size for c in out), "no piece is longer than the size")


@contract("C28", "sym", targets=["common.check_permutation"], variants=[{"n": n} for n in range(0, 5)], thorough=[{"n": 5}], conc=60)
def check_permutation(env, n):
    """accepts exactly bijections of 0..n-1, for arbitrary integer entries"""
    cm = env.mod(CM)
    p = env.ints("p", n, -3, n + 3)
    r = env.attempt(cm.check_permutation, p)
    bij = env.all([p[i] >= 0 for i in range(n)] + [p[i] < n for i in range(n)] + [p[i] != p[j] for i in range(n) for j in range(i)])
    if r.ok:
        env.check(bij, "accepted only if a bijection")
    else:
        env.check(env.implies(bij, False), "refused only if not a bijection")


@contract("C28", "sym", targets=["common.apply_permutation"], variants=[{"n": n} for n in range(0, 6)], thorough=[{"n": 6}], conc=40)
def apply_permutation(env, n):
    cm = env.mod(CM)
    p = env.ints("p", n, 0, max(0, n - 1))
    env.assume(env.all([p[i] != p[j] for i in range(n) for j in range(i)]))
    vals = env.ints("v", n, 0, 2 ** 64)
    arr = list(vals)
    perm_before = list(p)

    def swapper(x, y):
        x, y = int(x), int(y)
        arr[x], arr[y] = arr[y], arr[x]
    cm.apply_permutation(p, swapper)
    env.check(env.all([arr[i] == vals[int(p[i])] for i in range(n)]), "element i becomes the element the permutation names")
    env.check(env.all([a == b for a, b in zip(perm_before, p)]), "the permutation itself is not modified")


@contract("C28", "sym", targets=["common.apply_permutation"], variants=[{"n": n} for n in range(1, 5)], conc=40)
def apply_permutation_refuses(env, n):
    cm = env.mod(CM)
    p = env.ints("p", n, 0, n)
    bij = env.all([p[i] < n for i in range(n)] + [p[i] != p[j] for i in range(n) for j in range(i)])
    env.assume(bij == False if not isinstance(bij, bool) else not bij)  # noqa
    calls = []
    r = env.attempt(cm.apply_permutation, p, lambda x, y: calls.append((x, y)))
    env.check(not r.ok, "a non-permutation is refused")
    env.check(not calls, "nothing is swapped for a non-permutation")


@contract("C28", "bounded", targets=["common.apply_permutation"], variants=[{"n": n} for n in (7, 16, 64, 200)], conc=20, conc_time=5)
def apply_permutation_large(env, n):
    cm = env.mod(CM)
    p = list(range(n))
    env.rng.shuffle(p)
    arr = list(range(1000, 1000 + n))

    def swapper(x, y):
        arr[x], arr[y] = arr[y], arr[x]
    cm.apply_permutation(p, swapper)
    env.check(arr == [1000 + i for i in p], "element i becomes the element the permutation names")


@contract("C28", "sym", targets=["common.ct_equal"], variants=[{"n": a, "m": b} for a in (0, 1, 8, 32) for b in (0, 1, 8, 32)], conc=6, conc_time=3)
def ct_equal(env, n, m):
    cm = env.mod(CM)
    a = env.bytes("a", n)
    same = env.bool("same") if n == m else False
    b = env.cbytes(bytes(0)) + (a if bool(same) else env.bytes("b", m))
    r = cm.ct_equal(a, b)
    env.check((r == (a == b)) if isinstance(r, bool) and isinstance(a == b, bool) else r == (a == b), "constant-time equality is equality")


@contract("C28", "sym", targets=["ring_ct.d2b"], variants=[{"n": 64}], thorough=[{"n": n} for n in (1, 2, 8, 32, 63)], conc=200, conc_time=5)
def d2b(env, n):
    rc = env.mod("monero_glue.xmr.ring_ct")
    v = env.bv("amount", n)
    b = rc.d2b(v, n)
    env.check(len(b) == n, "one digit per bit")
    env.check(env.all([b[i] == ((v >> i) & 1) for i in range(n)]), "digit i is bit i of the amount")
    env.check(sum(b[i] * (1 << i) for i in range(n)) == v, "digits recombine to the amount")


@contract("C28", "sym", targets=["compat.utils.memcpy"], variants=[{"d": d, "do": do, "s": s, "so": so, "n": k}
          for d, do, s, so, k in ((4, 0, 4, 0, 4), (8, 2, 5, 1, 3), (3, 0, 3, 0, 0), (33, 1, 40, 7, 32), (8, 7, 1, 0, 1))], conc=2, conc_time=2)
def memcpy(env, d, do, s, so, n):
    u = env.mod("monero_glue.compat.utils")
    dst0 = env.bytes("dst", d)
    src = env.bytes("src", s)
    dst = env.ba(dst0)
    src_b = env.ba(src)
    u.memcpy(dst, do, src_b, so, n)
    env.check(env.cbytes(dst) == dst0[:do] + src[so:so + n] + dst0[do + n:], "exactly the named range is copied")
    env.check(env.cbytes(src_b) == src, "the source is not modified")


@contract("C28", "alg", targets=["ec.PRNG.next", "ec.PRNG.reset", "ec.PRNG.rewind"], variants=[{"seq": s} for s in ((32,), (1, 31, 33), (64, 5, 0, 7), (100,))],
          conc=10, conc_time=4, backend="trezor+py", trusted=["keccak as an uninterpreted function (its own contract: C14)"])
def prng(env, seq):
    ec = env.mod("monero_glue.xmr.core.ec")
    seed = env.key("seed")
    p = ec.prng(seed)
    a = [env.cbytes(p.next(k)) for k in seq]
    env.check([len(x) for x in a] == list(seq), "the requested number of bytes is produced")
    p.reset()
    b = [env.cbytes(p.next(k)) for k in seq]
    env.check(env.all([x == y for x, y in zip(a, b)]), "reset restarts the same stream")
    p.reset(env.key("seed2"))
    p.next(40)
    p.reset(seed)
    c = [env.cbytes(p.next(k)) for k in seq]
    env.check(env.all([x == y for x, y in zip(a, c)]), "reset to the same seed restarts the same stream")
    q = ec.prng(seed)
    e = [env.cbytes(q.next(k)) for k in seq]
    env.check(env.all([x == y for x, y in zip(a, e)]), "a new generator with the same seed yields the same stream")
    r = ec.prng(seed)
    buf = env.ba(bytes(sum(seq)))
    r.next(seq[0], buf)
    env.check(env.cbytes(buf[:seq[0]]) == a[0], "writing into a buffer yields the same bytes")
    env.check(env.cbytes(buf[seq[0]:]) == bytes(sum(seq) - seq[0]), "the rest of the buffer is untouched")
    s = ec.prng(seed)
    s.rewind(seq[0])
    env.check(env.cbytes(s.next(32)) == env.cbytes(_after(env, ec, seed, seq[0])), "rewind skips what next would have produced")
    if sum(seq) >= 33:
        t = ec.prng(seed)
        x = env.cbytes(t.next(64))
        env.check(x[:32] != x[32:], "successive blocks differ")
    u = ec.prng(env.key("other"))
    if seq[0] >= 32:
        env.check(env.cbytes(u.next(seq[0])) != a[0], "different seeds give different streams")


def _after(env, ec, seed, n):
    p = ec.prng(seed)
    p.next(n)
    return p.next(32)
