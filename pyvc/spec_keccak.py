"""Reference Keccak-256 (original padding), written from the specification; used as oracle."""
RC = []
def _rc():
    r = 1
    for _ in range(24):
        v = 0
        for j in range(7):
            if r & 1:
                v ^= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        RC.append(v)
_rc()
M = (1 << 64) - 1
def _rho():
    off = {(0, 0): 0}
    x, y = 1, 0
    for t in range(24):
        off[(x, y)] = ((t + 1) * (t + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5
    return off
RHO = _rho()
def rol(v, n):
    n %= 64
    if n == 0:
        return v
    return ((v << n) | (v >> (64 - n))) & M
def rnd(A, rc):
    """one Keccak-f[1600] round on the lane matrix A[x][y]"""
    C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
    D = [C[(x - 1) % 5] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
    A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
    B = [[0] * 5 for _ in range(5)]
    for x in range(5):
        for y in range(5):
            B[y][(2 * x + 3 * y) % 5] = rol(A[x][y], RHO[(x, y)])
    A = [[B[x][y] ^ ((M ^ B[(x + 1) % 5][y]) & B[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
    A[0][0] = A[0][0] ^ rc
    return A
def f1600(A):
    for rc in RC:
        A = rnd(A, rc)
    return A
def keccak256(data, rate=136, pad=1):
    data = bytes(data)
    p = bytearray(data) + bytearray(rate - len(data) % rate)
    p[len(data)] ^= pad
    p[-1] ^= 0x80
    A = [[0] * 5 for _ in range(5)]
    for o in range(0, len(p), rate):
        for i in range(rate // 8):
            A[i % 5][i // 5] ^= int.from_bytes(p[o + 8 * i: o + 8 * i + 8], "little")
        A = f1600(A)
    return b"".join(A[i % 5][i // 5].to_bytes(8, "little") for i in range(4))
