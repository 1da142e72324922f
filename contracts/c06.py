from contracts.eccm import *
NOTES = dict(assumptions=["n >= 1 logical qubits, any number of classical bits; indices are mathematical integers (no 32 bit overflow)", "ancillas are in an arbitrary state when a round starts"],
             trusted=["QuantumComputation::{reset, h, cx, cz, measure, classicControlled, ...} append the operation they are named after; a classically controlled operation compares the register with the first bit as the least significant one",
                      "the meaning of reset, Clifford gates, measurement and classically controlled Paulis on stabilizer states (Gottesman-Knill), as implemented in replay/stab.py"],
             outside=["two errors at a time, errors during the round"],
             explanation="the round is proved to emit, for an arbitrary logical qubit, one fixed list of operations on the qubits of its block and the ancillas; that list is then decided exactly for every error and every measurement outcome, with the encoded qubit entangled to a reference qubit, so for every encoded state at once")
def one(code):
    @contract("C06", f"src/ecc/{code}.cpp:{code}.measureAndCorrect", f"{code} corrects")
    def f(c):
        setup(c, code)
        def post(r):
            log, fl = r; segs = blocks(c, "round", log, M.n); c.ob("the round leaves the state of the encoder as it was", fl == ENC)
            g = withref(code)
            kinds = [("X", X)] if code in ("Q3Shor", "Q18Surface") else [("X", X), ("Y", Y), ("Z", Z)]
            for nm, k in kinds:
                for q in DATA[code]:
                    e = k(q); st = [P(p.x, p.z, p.k + (0 if p.comm(e) else 2)) for p in g]
                    c.ob(f"{nm} error on data qubit {q} is corrected", all(shown(lambda: keeps(simulate(c, "round", segs, st, False, w), g)) for w in (0, 1)))
        c.run(lambda: emit(c, code, lambda o: o.measureAndCorrect(), ENC), post, frame=False)
for _c in CODES: one(_c)
