import rt, eccq
from rt import check
from eccq import *
rt.FORK = True
def one(R, code, n, nc, regs, ops, freq, kind, rng, shots):
    inp = (code, n, regs, ops, freq)
    ok, res = R.call(lambda: Q.run(code, n, regs, ops, freq), inp)
    if not ok: return
    if not R.ok("rejected" not in res, f"supported circuit rejected: {res.get('rejected')}", inp): return
    for _ in range(shots):
        try: m = compare(code, n, nc, ops, res, rng, kind)
        except stab.Unsupported: R.vc["(unsupported by the simulator)"] = R.vc.get("(unsupported by the simulator)", 0) + 1; return
        key = R.cur
        if code == "Q18Surface" and any(o[0] == "h" for o in ops): key = "Q18Surface: H"
        if not R.ok(m is None, m, inp, key): return
for code in CODES:
    def f(R, code=code):
        rng = R.rng(code)
        for k in range(R.pick(1500, 20000)):
            if R.out_of_time(): return
            n = rng.choice([1, 1, 2, 2, 3]) if code != "Q18Surface" else rng.choice([1, 1, 2])
            one(R, code, *circuit(rng, code, n, gates=[g for g in ALL if g != "h"] if code == "Q18Surface" else None), rng.choice([0, 0, 1, 2, 3]), "stab", rng, 3)
        if code == "Q18Surface":
            for k in range(40): one(R, code, *circuit(rng, code, 1), 0, "stab", rng, 3)
            one(R, code, 1, 2, [("c", 2)], [("h", [], [0], [], []), ("measure", [], [0], [0], []), ("h", [], [0], [], []), ("measure", [], [0], [1], [])], 0, "stab", rng, 8)
    check("encoded circuit has the original's statistics: " + code)(f)
for code in ("Q3Shor", "Q7Steane"):
    def f(R, code=code):
        rng = R.rng(code)
        for k in range(R.pick(100, 800)):
            if R.out_of_time(): return
            one(R, code, *circuit(rng, code, rng.choice([1, 2, 3]) if code == "Q3Shor" else rng.choice([1, 1, 1, 2]), clifford=False), rng.choice([0, 1, 2]), "vec", rng, 2)
    check("encoded circuit has the original's statistics, T gates: " + code)(f)
if __name__ == "__main__": rt.main("random circuits over each code's supported gates on 1 to 3 logical qubits, several classical registers, correction frequency 0 to 3; sampled measurement histories")
