import rt, eccq, re
from rt import check
from eccq import *
rt.FORK = True
OTHER = ["v", "vdg", "sx", "sxdg", "rx", "ry", "rz", "p", "u", "u2", "swap", "iswap", "ecr", "dcx", "rxx", "rzz", "reset", "cif"] + ALL
PAR = dict(rx=1, ry=1, rz=1, p=1, u=3, u2=2, rxx=1, rzz=1)
TWO = ("swap", "iswap", "ecr", "dcx", "rxx", "rzz")
def other(rng, n):
    """any operation, supported or not"""
    while True:
        g = rng.choice(OTHER); qs = list(range(n)); rng.shuffle(qs); k = 2 if g in TWO else 1
        if k > n: continue
        nc = 0 if g in ("reset", "cif") else min(rng.choice([0, 0, 1, 2]), n - k)
        if g == "i" and nc: continue
        return (g, [(q, rng.random() < 0.7) for q in qs[k:k + nc]], qs[:k], [], [rng.choice([0.3, 1.1, -2.0]) for _ in range(PAR.get(g, 0))])
def ranges(o, nq, nb):
    """problem with the operands of an operation"""
    if o[0] == "if":
        if o[3] < 1 or o[2] + o[3] > nb: return f"condition on classical bits {o[2]}..{o[2] + o[3] - 1} of {nb}"
        return ranges(o[1], nq, nb)
    qs = [q for q, _ in o[1]] + list(o[2])
    if any(not 0 <= q < nq for q in qs): return f"{o[0]} on qubits {qs} of {nq}"
    if o[0] != "barrier" and len(set(qs)) != len(qs): return f"{o[0]} on repeated qubits {qs}"
    if any(not 0 <= b < nb for b in o[3]): return f"measurement into bits {list(o[3])} of {nb}"
    if o[0] == "measure" and len(o[2]) != len(o[3]): return "measurement with unequal numbers of qubits and bits"
def shape(R, code, n, nc, regs, ops, freq, res, inp):
    """registers, operands, rounds and measurements of an encoded circuit"""
    nq, nb = n * RED[code] + ANC[code], nc + sum(w for _, w in REGS[code])
    if not R.ok(res["qubits"] == nq, f"{res['qubits']} physical qubits instead of {nq}", inp): return
    if not R.ok(res["clbits"] == nb, f"{res['clbits']} classical bits instead of {nb}", inp): return
    want = []; at = 0
    for name, w in regs + REGS[code]: want.append((name, at, w)); at += w
    R.ok(sorted(res["cregs"]) == sorted(want), f"classical registers {sorted(res['cregs'])} instead of {sorted(want)}", inp)
    for o in res["ops"]:
        m = ranges(o, nq, nb)
        if not R.ok(m is None, m, inp): return
    ev = res["events"]; maps = [e for e in ev if e[0] == "map"]
    if not R.ok(len(maps) == len(ops), f"{len(maps)} of {len(ops)} operations are processed", inp): return
    k = 0; bad = None
    for i, e in enumerate(ev):
        if e[0] != "map": continue
        k += 1; due = freq > 0 and k % freq == 0; j = i + 1
        while j < len(ev) and ev[j][0] == "round": j += 1
        got = j - i - 1
        if k < len(ops) and got != int(due): bad = f"{got} correction rounds after operation {k} with frequency {freq}"; break
        if k == len(ops) and got < int(due): bad = f"no correction round after operation {k} with frequency {freq}"; break
    R.ok(bad is None, bad, inp)
    for o, e in zip(ops, maps):
        if o[0] in ("i", "barrier"): continue
        if not R.ok(e[2] > e[1], f"operation {o} is dropped", inp): return
    got = [b for o in res["ops"] if o[0] == "measure" for b in o[3] if b < nc]; want = [b for o in ops if o[0] == "measure" for b in o[3]]
    R.ok(got == want, f"measurements into the original bits {got} instead of {want}", inp)
for code in CODES:
    def f(R, code=code):
        rng = R.rng(code)
        for k in range(R.pick(400, 5000)):
            if R.out_of_time(): return
            n, nc, regs, ops = circuit(rng, code, rng.choice([1, 2, 3, 4, 6]), clifford=False, length=rng.choice([1, 2, 4, 7, 12])); freq = rng.choice([0, 1, 2, 3, 5, 100]); inp = (code, n, regs, ops, freq)
            if rng.random() < 0.1: ops = [o for o in ops if o[0] == "measure"]; inp = (code, n, regs, ops, freq)
            ok, res = R.call(lambda: Q.run(code, n, regs, ops, freq), inp)
            if not ok: continue
            if R.ok("rejected" not in res, f"supported circuit rejected: {res.get('rejected')}", inp): shape(R, code, n, nc, regs, ops, freq, res, inp)
    check("registers, operands and rounds: " + code)(f)
    def g(R, code=code):
        rng = R.rng(code)
        for k in range(R.pick(500, 4000)):
            if R.out_of_time(): return
            n, nc, regs, ops = circuit(rng, code, rng.choice([1, 2, 3, 4]), clifford=False, length=rng.choice([1, 3]))
            if nc == 0: continue
            o = other(rng, n); ops.insert(rng.randint(0, len(ops)), o); freq = rng.choice([0, 1, 2]); inp = (code, n, regs, ops, freq)
            ok, res = R.call(lambda: Q.run(code, n, regs, ops, freq), inp)
            if not ok: continue
            if supported(code, o[0], len(o[1])):
                if R.ok("rejected" not in res, f"supported circuit rejected: {res.get('rejected')}", inp): shape(R, code, n, nc, regs, ops, freq, res, inp)
            elif R.ok("rejected" in res, f"unsupported operation {o} is accepted", inp):
                name = Q.name(o[0]); R.ok(re.search(r"(?<!\w)" + re.escape(name) + r"(?!\w)", res["rejected"]) is not None, f"the exception does not name the operation {name}: {res['rejected']}", inp)
    check("unsupported operations are rejected: " + code)(g)
    def h(R, code=code):
        rng = R.rng(code)
        for k in range(R.pick(200, 3000)):
            if R.out_of_time(): return
            n, nc, regs, ops = circuit(rng, code, rng.choice([1, 2, 3]) if code != "Q18Surface" else rng.choice([1, 2]), length=4, gates=["x", "i"], maxc=0); freq = rng.choice([0, 2]); inp = (code, n, regs, ops, freq)
            ok, res = R.call(lambda: Q.run(code, n, regs, ops, freq), inp)
            if not ok: continue
            if R.ok("rejected" not in res, "supported circuit rejected", inp): m = compare(code, n, nc, ops, res, rng, "stab"); R.ok(m is None, m, inp)
    check("logical qubit i is measured into classical bit j: " + code)(h)
if __name__ == "__main__": rt.main("random circuits on 1 to 6 qubits with shuffled register names and measurement targets, frequencies 0 to 100, one arbitrary operation inserted")
