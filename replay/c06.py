import rt, eccq
from rt import check
from eccq import *
rt.FORK = True
KINDS = dict(Q3Shor="x", Q5Laflamme="xyz", Q7Steane="xyz", Q9Shor="xyz", Q9Surface="xyz", Q18Surface="x")
for code in KINDS:
    def f(R, code=code):
        rng = R.rng(code)
        for k in range(R.pick(90, 1500)):
            if R.out_of_time(): return
            n = rng.choice([1, 2, 2]) if code != "Q18Surface" else 1
            n, nc, regs, ops = circuit(rng, code, n, gates=[g for g in ALL if g != "h"] if code == "Q18Surface" else None)
            freq = rng.choice([0, 1, 2]); inp0 = (code, n, regs, ops, freq)
            ok, res = R.call(lambda: Q.run(code, n, regs, ops, freq), inp0)
            if not ok: continue
            if not R.ok("rejected" not in res, "supported circuit rejected", inp0): continue
            starts = [a for a, b, dec in res["rounds"] if not dec and b > a and (a > 0 or code == "Q3Shor")]
            if not starts: continue
            for a in starts[-3:]:
                for j in DATA[code]:
                    i = rng.randrange(n)
                    for e in KINDS[code]:
                        inp = (*inp0, "before operation", a, e, "on qubit", i + j * n)
                        m = compare(code, n, nc, ops, res, rng, "stab", (a, [(e, [], [i + j * n], [])]))
                        R.ok(m is None, m, inp)
    check("single errors before a round do not change the statistics: " + code)(f)
def rest(R, code):
    """the state itself: identical data-qubit state after the round with and without the error"""
    rng = R.rng(code)
    for k in range(R.pick(120, 2000)):
        if R.out_of_time(): return
        n = rng.choice([1, 2]); n, nc, regs, ops = circuit(rng, code, n, meas=False)
        res = Q.run(code, n, regs, ops, 1)
        if not R.ok("rejected" not in res, "supported circuit rejected", (code, n, ops)): continue
        mo = flat([norm(o) for o in res["ops"]], nc)
        if len(mo) != len(res["ops"]): continue
        rs = [(a, b) for a, b, dec in res["rounds"] if not dec and b > a and (a > 0 or code == "Q3Shor")]
        if not rs: continue
        a, b = rng.choice(rs)
        S = Sim(res["qubits"], "stab", rng)
        for o in mo[:a]: S.step(o)
        def after(err):
            T = Sim(res["qubits"], "stab", rng); T.s, T.bits = S.s.copy(), dict(S.bits)
            for o in err + mo[a:b]: T.step(o)
            for q in range(RED[code] * n, res["qubits"]): T.s.reset(q)
            return T.s
        ref = after([])
        for j in range(RED[code]):
            i = rng.randrange(n)
            for e in KINDS[code]:
                inp = (code, n, ops, "before operation", a, e, "on qubit", i + j * n); got = after([(e, [], [i + j * n], [])])
                R.ok(all(got.has(g) for g in ref.stabilizers()), "the state after the round differs from the state without the error", inp)
for code in ("Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface"):
    check("single errors are removed by the round: " + code)(lambda R, code=code: rest(R, code))
if __name__ == "__main__": rt.main("random supported circuits on 1 or 2 logical qubits; every data-qubit position, every correctable Pauli kind, before the last rounds")
