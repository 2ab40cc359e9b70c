"""Bulletproofs (Bünz et al., aggregated range proofs as used by Monero), written from the paper over the reference algebra"""
N = 64
FIELDS = ("A", "S", "T1", "T2", "taux", "mu", "a", "b", "t")


class Obj:
    pass


_GENS = {}


def gens(ref, n):
    """the first n generators G_i, H_i: hash of H, a salt and the index, hashed again into the group"""
    key = (ref.alg, n)
    if ref.alg or key not in _GENS:
        H = ref.enc(ref.H)
        f = lambda i: ref.Hp(ref.keccak(H, b"bulletproof", ref.varint(i)))
        v = ([f(2 * i + 1) for i in range(n)], [f(2 * i) for i in range(n)])
        if ref.alg:
            return v
        _GENS[key] = v
    return _GENS[key]


def log2ceil(m):
    k = 0
    while (1 << k) < m:
        k += 1
    return k


def challenges(ref, p):
    """every element of the proof goes into the transcript before the challenge that depends on it"""
    c = Obj()
    es = ref.encs
    h = ref.Hs(*p.V)
    c.y = ref.Hs(es(h), p.A, p.S)
    c.z = ref.Hs(es(c.y))
    c.x = ref.Hs(es(c.z), es(c.z), p.T1, p.T2)
    c.xip = ref.Hs(es(c.x), es(c.x), p.taux, p.mu, p.t)
    h, c.w = c.xip, []
    for L, R in zip(p.L, p.R):
        h = ref.Hs(es(h), L, R)
        c.w.append(h)
    return c


def powers(ref, x, n):
    out, v = [], ref.S(1)
    for _ in range(n):
        out.append(v)
        v = v * x
    return out


def fold_coefficients(ref, w, n):
    """coefficient of every generator in the generator left after all rounds of halving: u' = u_lo * w^-1 + u_hi * w"""
    co, idx = [ref.S(1)] * n, [list(range(n))]
    size = n
    for c in w:
        size //= 2
        ci = c.inverse()
        for i in range(n):
            co[i] = co[i] * (c if i & size else ci)
    return co


def equations(ref, p, skip=()):
    """the two verification equations as group elements that must vanish; elements named in skip are left out"""
    m = 1 << log2ceil(len(p.V))
    n = m * N
    c = challenges(ref, p)
    Gi, Hi = gens(ref, n)
    S8 = ref.S(8)
    yp = powers(ref, c.y, n)
    yi = powers(ref, c.y.inverse(), n)
    zp = powers(ref, c.z, m + 3)
    taux, mu, t, a, b = (ref.sc(getattr(p, f)) for f in ("taux", "mu", "t", "a", "b"))
    pt = lambda nm: ref.O if nm in skip else ref.pt(getattr(p, nm)) * S8
    # <1, y^n> and <1, 2^N>
    sy = sum(yp, ref.S(0))
    s2 = ref.S((1 << N) - 1)
    delta = (c.z - zp[2]) * sy
    for j in range(1, m + 1):
        delta = delta - zp[j + 2] * s2
    e1 = ref.H * (delta - t) - ref.G * taux + pt("T1") * c.x + pt("T2") * (c.x * c.x)
    for j, V in enumerate(p.V):
        e1 = e1 + ref.pt(V) * (S8 * zp[j + 2])
    co = fold_coefficients(ref, c.w, n)
    e2 = pt("A") + pt("S") * c.x - ref.G * mu + ref.H * ((t - a * b) * c.xip)
    for L, R, w in zip(p.L, p.R, c.w):
        wi = w.inverse()
        e2 = e2 + ref.pt(L) * (S8 * w * w) + ref.pt(R) * (S8 * wi * wi)
    for i in range(n):
        e2 = e2 - Gi[i] * (c.z + a * co[i])
        h = c.z + zp[2 + i // N] * ref.S(1 << (i % N)) * yi[i]
        e2 = e2 + Hi[i] * (h - b * co[n - 1 - i] * yi[i])
    return e1, e2, c


def prove(ref, amounts, masks, rnd, shift=(0, 0)):
    """honest prover by definition; rnd() gives a random scalar. With a shift of taux and mu the equations are off by that multiple of -G"""
    p = Obj()
    S, m = ref.S, 1 << log2ceil(len(amounts))
    n = m * N
    i8 = S(8).inverse()
    Gi, Hi = gens(ref, n)
    enc = lambda P: ref.enc(P * i8)
    p.V = [enc(ref.G * k + ref.H * S(v)) for v, k in zip(amounts, masks)]
    aL = [S((amounts[i // N] >> (i % N)) & 1) if i // N < len(amounts) else S(0) for i in range(n)]
    aR = [a - S(1) for a in aL]
    sL, sR = [rnd() for _ in range(n)], [rnd() for _ in range(n)]
    alpha, rho, t1b, t2b = rnd(), rnd(), rnd(), rnd()
    comb = lambda l, r, g, h: sum((P * s for P, s in zip(list(g) + list(h), list(l) + list(r))), ref.O)
    p.A = enc(ref.G * alpha + comb(aL, aR, Gi, Hi))
    p.S = enc(ref.G * rho + comb(sL, sR, Gi, Hi))
    p.L = p.R = []
    es = ref.encs
    y = ref.Hs(es(ref.Hs(*p.V)), p.A, p.S)
    z = ref.Hs(es(y))
    yp, zp = powers(ref, y, n), powers(ref, z, m + 3)
    l0 = [a - z for a in aL]
    r0 = [(a + z) * yp[i] + zp[2 + i // N] * S(1 << (i % N)) for i, a in enumerate(aR)]
    r1 = [s * yp[i] for i, s in enumerate(sR)]
    dot = lambda u, v: sum((a * b for a, b in zip(u, v)), S(0))
    t1, t2 = dot(l0, r1) + dot(sL, r0), dot(sL, r1)
    p.T1, p.T2 = enc(ref.G * t1b + ref.H * t1), enc(ref.G * t2b + ref.H * t2)
    x = ref.Hs(es(z), es(z), p.T1, p.T2)
    l, r = [a + b * x for a, b in zip(l0, sL)], [a + b * x for a, b in zip(r0, r1)]
    t = dot(l, r)
    taux = t1b * x + t2b * x * x + sum((zp[2 + j] * k for j, k in enumerate(masks)), S(0))
    p.t, p.taux, p.mu = es(t), es(taux + S(shift[0])), es(alpha + rho * x + S(shift[1]))
    xip = ref.Hs(es(x), es(x), p.taux, p.mu, p.t)
    yi = powers(ref, y.inverse(), n)
    G, H = list(Gi), [P * yi[i] for i, P in enumerate(Hi)]
    p.L, p.R, h = [], [], xip
    while len(l) > 1:
        k = len(l) // 2
        p.L.append(enc(comb(l[:k], r[k:], G[k:], H[:k]) + ref.H * (dot(l[:k], r[k:]) * xip)))
        p.R.append(enc(comb(l[k:], r[:k], G[:k], H[k:]) + ref.H * (dot(l[k:], r[:k]) * xip)))
        h = w = ref.Hs(es(h), p.L[-1], p.R[-1])
        wi = w.inverse()
        l, r = [l[i] * w + l[k + i] * wi for i in range(k)], [r[i] * wi + r[k + i] * w for i in range(k)]
        G, H = [G[i] * wi + G[k + i] * w for i in range(k)], [H[i] * w + H[k + i] * wi for i in range(k)]
    p.a, p.b = es(l[0]), es(r[0])
    return p
