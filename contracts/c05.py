from contracts.eccm import *
NOTES = dict(assumptions=["n >= 1 logical qubits, any number of classical bits; indices are mathematical integers (no 32 bit overflow)", "controls of an operation differ from its targets, targets and classical bits lie in the original circuit",
                          "ancillas are in an arbitrary state except before the very first block"],
             trusted=["QuantumComputation::{reset, h, cx, cz, mcx, swap, measure, classicControlled, emplace_back, ...} append the operation they are named after; a classically controlled operation compares the register with the first bit as the least significant one",
                      "the meaning of reset, Clifford gates, measurement and classically controlled Paulis on stabilizer states, as implemented in replay/stab.py; T on a qubit whose value equals that of the reference qubit is T on the reference qubit",
                      "composition: blocks of different logical qubits share ancillas only, which every block leaves unentangled with the data (the encoded qubits and their references are in a pure state)"],
             outside=["Q18Surface: only computational basis states (the code decodes a basis measurement), H is a known finding", "import of OpenQASM files and qiskit circuits, OpenQASM export (mqt-core)", "compound, symbolic and classically controlled input operations are rejected"],
             explanation="per method: the operations emitted for an arbitrary logical qubit are proved to be one fixed list per block; its meaning on the code space, entangled to a reference qubit, is then decided exactly over all measurement outcomes; Ecc::apply is proved to map every operation once and in order")
def src(code): return f"src/ecc/{code}.cpp:{code}."
def decg(code): r = M.R + M.A; return ([X(0, r)] if code != "Q18Surface" else []) + [Z(0, r)]
def encode(code):
    @contract("C05", src(code) + "writeEncoding", f"{code} prepares the encoded zero state")
    def f(c):
        setup(c, code)
        def post(r):
            log, fl = r; segs = blocks(c, "encoding", log, M.n)
            c.ob("the encoder remembers that operations were written", fl[1] is True or fl[1] == 1)
            S, lx, lz = GROUP[code]
            for w in (0, 1):
                sts = shown(lambda: simulate(c, "encoding", segs, [Z(q) for q in range(M.R)], True, w)) if segs else [State([Z(q) for q in range(M.R)])]
                c.ob(f"{'first' if w == 0 else 'any later'} logical qubit: encoded zero state for every measurement outcome", keeps(sts, [*S, lz]))
        c.run(lambda: emit(c, code, lambda o: (c.ob("a new encoder has written nothing", flags(o) == INIT), o.writeEncoding())), post, frame=False)
def round_(code):
    @contract("C05", src(code) + "measureAndCorrect", f"{code} round keeps code states")
    def f(c):
        setup(c, code)
        def post(r):
            log, fl = r; segs = blocks(c, "round", log, M.n); c.ob("the round leaves the state of the encoder as it was", fl == ENC)
            for w in (0, 1): c.ob(f"encoded qubit and checks are left as they are ({'first' if w == 0 else 'later'} qubit)", keeps(shown(lambda: simulate(c, "round", segs, withref(code), False, w)), withref(code)))
        c.run(lambda: emit(c, code, lambda o: o.measureAndCorrect(), ENC), post, frame=False)
    @contract("C05", src(code) + "measureAndCorrect", f"{code} round on decoded qubits")
    def g(c):
        setup(c, code); c.run(lambda: emit(c, code, lambda o: o.measureAndCorrect(), DEC), lambda r: c.ob("decoded qubits are left alone", r == ([], DEC)), frame=False)
def decode(code):
    @contract("C05", src(code) + "writeDecoding", f"{code} decoding and encoding again")
    def f(c):
        setup(c, code); keep = {}
        def go(o):
            o.writeDecoding(); keep["dec"], keep["f"] = o.qcMapped.log, flags(o)
            E.touch(o.qcMapped); o.qcMapped.log = []; o.writeEncoding()
        def post(r):
            log, fl = r; d = blocks(c, "decoding", keep["dec"], M.n); e = blocks(c, "encoding again", log, M.n); q = M.R + M.A
            c.ob("after decoding the encoder knows", keep["f"] == DEC); c.ob("after encoding again the encoder knows", fl == ENC)
            for w in (0, 1):
                sts = shown(lambda: simulate(c, "decoding", d, withref(code), False, w)); nm = "first" if w == 0 else "later"
                c.ob(f"decoded qubit holds the encoded state ({nm} qubit)", keeps(sts, decg(code)))
                ok = True; S, lx, lz = GROUP[code]
                for s in sts:
                    if code != "Q18Surface":
                        rest = s.copy(); rest.clear(0); rest.clear(q); s = State(rest.g + decg(code))
                    ok = ok and keeps(shown(lambda: simulate(c, "encoding again", e, s.g, False, w)), withref(code) if code != "Q18Surface" else S + [lz * Z(q)])
                c.ob(f"encoding again restores the encoded state ({nm} qubit)", ok)
        c.run(lambda: emit(c, code, go, ENC), post, frame=False)
    @contract("C05", src(code) + "writeDecoding", f"{code} nothing to decode or to encode")
    def g(c):
        setup(c, code)
        c.run(lambda: emit(c, code, lambda o: o.writeDecoding(), DEC), lambda r: c.ob("decoded qubits are not decoded again", r == ([], DEC)), frame=False)
        setup(c, code)
        c.run(lambda: emit(c, code, lambda o: o.writeEncoding(), ENC), lambda r: c.ob("encoded qubits are not encoded again", r == ([], ENC)), frame=False)
def unitary(st, ops, r):
    """Clifford and T gates on a state entangled to a reference qubit: number of T gates on the reference"""
    n = 0
    for o in ops:
        if o[0] in ("t", "tdg"):
            if o[1]: raise stab.Unsupported("controlled T")
            for t in o[2]:
                v = st.value(Z(t, r))
                if v == 0: raise stab.Unsupported("T on a qubit that does not hold the encoded value")
                n += v if o[0] == "t" else -v
        elif o[0] in ("measure", "reset", "if"): raise stab.Unsupported("measurement in a gate")
        else: st.gate(o[0], o[1], o[2])
    return n
def truth(c, nm, t, mode, ops, tkey):
    """repetition code: basis states and phases (units of pi/4), for satisfied and unsatisfied controls"""
    exp = dict(X=lambda b: (1 - b, 0), Y=lambda b: (1 - b, 2 if b == 0 else 6), Z=lambda b: (b, 4 * b), S=lambda b: (b, 2 * b), Sdg=lambda b: (b, 6 * b), T=lambda b: (b, b), Tdg=lambda b: (b, 7 * b), I=lambda b: (b, 0))
    one = {"x": exp["X"], "y": exp["Y"], "z": exp["Z"], "s": exp["S"], "sdg": exp["Sdg"], "t": exp["T"], "tdg": exp["Tdg"], "i": exp["I"]}
    diffs = set(); ok = True
    for sat in ((True,) if mode == "none" else (True, False)):
        for b in (0, 1):
            s, ph = [b] * 3, 0
            for o in ops:
                if o[0] != "g" or o[1] not in one or any(q[0] != tkey for q in o[3]): raise Unsupported("operation of a gate on a repetition code")
                cs = o[2]; on = True
                if isinstance(cs, tuple): on = sat
                elif cs:
                    if mode not in ("pos", "neg") or any(q[0] != ("C",) for q in cs): raise Unsupported("control of a gate on a repetition code")
                    on = all(sat == (q[2] == (mode == "pos")) for q in cs)
                if on:
                    for q in o[3]: s[q[1]], p = one[o[1]](s[q[1]]); ph += p
            e = exp[t](b) if sat else (b, 0)
            ok = ok and s == [e[0]] * 3; diffs.add((ph - e[1]) % 8)
    c.ob(f"{nm}: acts as the gate on every encoded basis state, phases included", ok and (len(diffs) == 1 if mode == "none" else diffs == {0}))
def gate_is(c, code, nm, t, mode, log, g):
    """the emitted operations act on the encoded qubits as the gate"""
    nt = str(simp(g.nt)); ok = all(x[0] == "for" and x[2] == nt for x in log) and (mode == "none" or len(log) <= 1)
    c.ob(f"{nm}: emitted for every target", ok and (len(log) >= 1 or t in ("I", "Barrier")))
    if not ok or not log: return
    R, A = M.R, M.A
    for w in (0, 1):
        parts = [(x[4 + w], ("T", x[6])) for x in log]
        if code == "Q3Shor":
            ops = []
            for p, k in parts: ops += [(o[0], o[1], o[2], [((("T",), q[1]) if q[0] == k else q) for q in o[3]]) if o[0] == "g" else o for o in p]
            truth(c, nm, t, mode, ops, ("T",)); continue
        ctl = mode in ("pos", "neg"); B_, ra = R, 2 * R + A; rb = ra + 1
        S, lx, lz = GROUP[code]
        gens = [*S, lx * X(ra), lz * Z(ra)] + ([shift(p, B_) for p in S] + [shift(lx, B_) * X(rb), shift(lz, B_) * Z(rb)] if ctl else [])
        st = State(gens); n = 0
        for p, k in parts:
            qm = {k: 0, ("C",): B_, ("a",): 2 * R}
            try: ops = local(p, qm)
            except Foreign: c.ob(f"{nm}: works on the blocks of its own qubits", False); return
            for o in ops:
                if o[0] == "call":
                    if o[1] != "round": raise Unsupported("call inside a gate")
                    if not keeps([st], gens): raise Unsupported("round inside a gate, not on a code state")
                else: n += shown(lambda: unitary(st, [o], ra))
        want = n % 8
        tn = {"T": 1, "Tdg": 7}.get(t, 0)
        for _ in range(((want - tn) % 8) // 2): st.s(ra)
        if (want - tn) % 2: c.ob(f"{nm}: T gates", False); return
        small = State([X(0, 2), Z(0, 2)] + ([X(1, 3), Z(1, 3)] if ctl else []))
        if t in OP and t not in ("T", "Tdg"): small.gate(OP[t], [(1, mode == "pos")] if ctl else [], [0])
        maps = {0: (lx, lz), 2: (X(ra), Z(ra))}
        if ctl: maps.update({1: (shift(lx, B_), shift(lz, B_)), 3: (X(rb), Z(rb))})
        exp = logical(code, small.g, maps) + [*S] + ([shift(p, B_) for p in S] if ctl else [])
        c.ob(f"{nm} acts on the encoded qubits as the gate", keeps([st], exp))
MODES = {"none": 0, "pos": 1, "neg": 1, "many": 2}
def gates(code):
    for t in [x for x in optypes() if x in OP]:
        ms = [m for m in MODES if accepted(code, t, MODES[m])]
        if not ms: continue
        @contract("C05", src(code) + "mapGate", f"{code} {t}")
        def f(c, t=t, ms=ms):
            for m in ms:
                for at in (ENC, DEC):
                    setup(c, code); keep = {}
                    def go(o): keep["g"] = Gate(t, m); stubs(o); o.mapGate(keep["g"])
                    def post(r):
                        log, fl = r; nm = f"{code}: {dict(none='', pos='controlled ', neg='negatively controlled ', many='multi-controlled ')[m]}{t}"
                        c.ob(f"{nm}: the qubits stay encoded", fl == ENC)
                        if at == DEC: c.ob(f"{nm}: decoded qubits are encoded first", log[:1] == [("call", "encode")]); log = log[1:]
                        gate_is(c, code, nm, t, m, log, keep["g"])
                    c.run(lambda: emit(c, code, go, at), post, frame=False)
def measure(code):
    @contract("C05", src(code) + "mapGate", f"{code} Measure")
    def f(c):
        for at in (ENC, DEC):
            setup(c, code); keep = {}
            def go(o): keep["g"] = Gate("Measure", "none"); stubs(o); o.mapGate(keep["g"])
            def post(r):
                log, fl = r; calls = [x for x in log if x[0] == "call"]; rest = [x for x in log if x[0] != "call"]
                c.ob("the qubits are decoded afterwards", fl == DEC)
                c.ob("the qubits are decoded before they are measured", log[:len(calls)] == calls and (calls[-1:] == [("call", "decode")] and all(x[1] != "encode" for x in calls) if at == ENC else not calls))
                c.ob("every qubit of the measurement is measured", len(rest) == 1 and rest[0][0] == "for" and rest[0][2] in (str(simp(keep["g"].nm)), str(simp(keep["g"].nt))))
                for w in (0, 1): c.ob("decoded qubit i goes to its classical bit", all(x[4 + w] == [("measure", (("T", x[6]), 0), ("u", ("L", x[6])))] for x in rest))
            c.run(lambda: emit(c, code, go, at), post, frame=False)
for _c in CODES: encode(_c); round_(_c); decode(_c); gates(_c); measure(_c)
