"""independent GF(2) helpers on ints-as-bitmasks and numpy arrays"""
import numpy as np, itertools
def rows(M): return [int("".join(str(int(x) & 1) for x in r), 2) if len(r) else 0 for r in np.asarray(M).astype(int).tolist()]
def basis(ms):
    b = {}
    for v in ms:
        while v:
            h = v.bit_length()
            if h in b: v ^= b[h]
            else: b[h] = v; break
    return b
def rank(M): return len(basis(rows(M)))
def inspan(M, v):
    b = basis(rows(M)); v = rows([v])[0]
    while v:
        h = v.bit_length()
        if h not in b: return False
        v ^= b[h]
    return True
def span(M):
    M = np.asarray(M).astype(int); n = M.shape[1]
    for c in itertools.product((0, 1), repeat=M.shape[0]):
        yield (np.array(c, dtype=int) @ M % 2) if M.shape[0] else np.zeros(n, int)
def kernel(M, n=None):
    M = np.asarray(M).astype(int); n = M.shape[1]
    A = [list(map(int, r)) for r in M]; piv = []; r = 0
    for c in range(n):
        p = next((i for i in range(r, len(A)) if A[i][c] % 2), None)
        if p is None: continue
        A[r], A[p] = A[p], A[r]
        for i in range(len(A)):
            if i != r and A[i][c] % 2: A[i] = [(x + y) % 2 for x, y in zip(A[i], A[r])]
        piv.append(c); r += 1
    out = []
    for f in range(n):
        if f in piv: continue
        v = [0] * n; v[f] = 1
        for i, c in enumerate(piv): v[c] = A[i][f] % 2
        out.append(v)
    return np.array(out, dtype=int).reshape(len(out), n)
def randmat(rng, r, c, p=0.5): return np.array([[int(rng.random() < p) for _ in range(c)] for _ in range(r)], dtype=np.int8).reshape(r, c)
def randcss(rng, n, rx, rz, dup=True):
    """random orthogonal pair; may contain dependent and zero rows"""
    Hx = randmat(rng, rx, n, rng.choice([0.2, 0.35, 0.5]))
    if dup and rx > 1 and rng.random() < 0.3: Hx[rx - 1] = (Hx[0] + Hx[rx - 2]) % 2
    K = kernel(Hx)
    if rz == 0 or len(K) == 0: return Hx, np.zeros((rz, n), dtype=np.int8)
    C = randmat(rng, rz, len(K))
    return Hx, (C @ K % 2).astype(np.int8)
