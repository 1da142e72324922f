from contracts.eccm import *
from contracts import eccm
NOTES = dict(assumptions=["n >= 1 logical qubits, any number of classical bits, operations and targets; indices are mathematical integers (no 32 bit overflow)", "the classical registers of the original circuit cover its bits without gaps or overlaps"],
             trusted=["QuantumComputation::{addQubitRegister, addClassicalRegister} append a register (addClassicalRegister rejects a name in use), getClassicalRegister(b) names the register of bit b", "toString(OpType), std::stringstream"],
             outside=["import of OpenQASM files and qiskit circuits, OpenQASM export (mqt-core)"],
             explanation="every operand that any method emits is proved to be a data qubit i + j*n of a logical qubit i, an ancilla or a declared classical bit; the mapping of every operation type is proved to be accepted or rejected with its name; Ecc::apply is proved to map every operation once, in order, and to insert the rounds; registers are proved to be created in the order of their bits")
def src(code): return f"src/ecc/{code}.cpp:{code}."
MODES = {"none": 0, "pos": 1, "neg": 1, "many": 2}
MUST = "operands"
def sizes(code):
    @contract("C07", f"include/ecc/{code}.hpp:{code}.{code}", f"{code} declares its qubits and registers")
    def f(c):
        setup(c, code); m = Nat("m")
        def post(o):
            c.ob("the circuit is the one given", o.qcOriginal is M.orig and isinstance(o.qcMapped, Mapped)); c.ob("correction frequency", lift(o.measureFrequency) == M.freq)
            c.ob("nothing is written yet", flags(o) == (True, False))
            c.ob("physical qubits per logical qubit", conc(o.ecc.nRedundantQubits) == M.R); c.ob("ancilla qubits", conc(o.ecc.nCorrectingBits) == M.A)
            c.ob("classical bits", sum(conc(p.first) for p in o.ecc.classicalRegisters.xs) == M.width and all(conc(p.first) > 0 for p in o.ecc.classicalRegisters.xs))
            names = [p.second for p in o.ecc.classicalRegisters.xs]; c.ob("register names differ", len(set(names)) == len(names))
            c.ob("number of output qubits", lift(o.getNOutputQubits(m)) == m.t * M.R + M.A)
        c.run(lambda: make(code), post, frame=False)
def operands(code):
    """the index obligations are generated wherever an operation is emitted"""
    for meth, at in (("writeEncoding", (True, False)), ("writeEncoding", (True, True)), ("measureAndCorrect", (False, True)), ("writeDecoding", (False, True))):
        @contract("C07", src(code) + meth, f"{code} {meth} {'first' if at == (True, False) else ''} operands".replace("  ", " "))
        def f(c, meth=meth, at=at):
            setup(c, code)
            def post(r):
                log, fl = r; segs = blocks(c, "emission", log, M.n)
                for s in segs:
                    for w in (0, 1):
                        try: local(s[4 + w], {("i", s[1]): 0, ("a",): M.R}); ok = True
                        except Foreign: ok = False
                        c.ob("operands belong to the block of the qubit or to the ancillas", ok)
            c.run(lambda: emit(c, code, lambda o: getattr(o, meth)(), at), post, frame=False)
class Rej(Exception): pass
def mapping(code):
    groups = [[t for t in optypes() if t in OP or t in ("Barrier",)], ["Measure"], [t for t in optypes() if t not in OP and t not in ("Barrier", "Measure")]]
    for gi, ts in enumerate(groups):
        @contract("C07", src(code) + "mapGate", f"{code} {('gates', 'measurement', 'other operations')[gi]}")
        def f(c, ts=ts):
            for t in ts:
                for m in (["none"] if t in ("Measure", "Barrier") else list(MODES)):
                    for at in ((False, True), (True, True)):
                        setup(c, code); keep = {}; acc = accepted(code, t, MODES[m]); nm = f"{code}: {t}{dict(none='', pos=' with a control', neg=' with a negative control', many=' with several controls')[m]}"
                        def go(o): keep["g"] = Gate(t, m); stubs(o); o.mapGate(keep["g"])
                        def post(r):
                            log, fl = r; c.ob(f"{nm}: {'handled' if acc else 'rejected'}", acc is not False)
                            if not acc: return
                            g = keep["g"]
                            if t == "Measure":
                                rest = [x for x in log if x[0] != "call"]
                                c.ob("one measurement per classical bit", len(rest) == 1 and rest[0][0] == "for" and rest[0][2] in (str(simp(g.nm)), str(simp(g.nt))))
                                for w in (0, 1): c.ob("measurement of logical qubit i into classical bit j", all(x[4 + w] == [("measure", (("T", x[6]), 0), ("u", ("L", x[6])))] for x in rest))
                            elif t not in ("I", "Barrier"):
                                rest = [x for x in log if x[0] != "call"]
                                c.ob(f"{nm}: not dropped, for no target", bool(rest) and all(x[0] == "for" and x[2] == str(simp(g.nt)) and x[4] and x[5] for x in rest))
                        def raises(e):
                            ok = type(e).__name__ == "QFRException" and acc is not True and f"<{t}>" in str(e) and code in str(e)
                            c.ob(f"{nm}: {'handled' if acc else 'rejected with an exception naming it'}", ok)
                        c.run(lambda: emit(c, code, go, at), post, raises=raises, frame=False)
# ---- Ecc itself
class Ops:
    """the operations of the original circuit: any number"""
    def __init__(self): self.n = fresh("operations"); E.assume(self.n >= 0)
class OrigOps(Orig):
    def __init__(self): self.ops = Ops()
    def vc_elems(self, m): return seqs.Seq(self.ops.n, lambda i: Tok(lift(i)))
    def vc_m(self, name, *a):
        if name in ("getNops", "size"): return mk(self.ops.n)
        return Orig.vc_m(self, name, *a)
class Tok:
    def __init__(self, i): self.i = i
    def vc_null(self): return False
    def vc_deref(self): return self
class ApplyLoop:
    """invariant of the loop over the operations: counters have advanced by one per operation, operations so far were mapped in order"""
    def __init__(self, c, o): self.c, self.o = c, o; setattr(E, "loops", self)
    def get(self, lid, d=None): return None if lid.endswith("comp") else self.rule
    def rule(self, rt, it, body, get, set_, names):
        c, o = self.c, self.o; i0 = list(get()); k = fresh("k"); start = born()
        cnt = [isinstance(conc(v), int) and not isinstance(v, bool) for v in i0]; mp = o.qcMapped
        base = [conc(v) if f else None for v, f in zip(i0, cnt)]; lost = set()
        def run():
            E.assume(z3.And(k >= 0, k < lift(it.n))); set_(tuple(mk(b + k) if f and j not in lost else forget(v) for j, (v, f, b) in enumerate(zip(i0, cnt, base))))
            E.touch(mp); mp.log = []; o.isDecoded = mk(fresh("decoded", B)); x = it.item(V(k)); return body(x)
        def on(p):
            bad = [type(x).__name__ for x, old in E.ctxs[-1].journal.values() if getattr(x, "_vc_born", 1 << 60) <= start and x is not mp and x is not o]
            c.ob("the loop runs through", p.exc is None and p.result is loops.CONT); c.ob("the loop changes nothing else", not bad)
            for j, (v, f, b) in enumerate(zip(get(), cnt, base)):
                if f and j not in lost and names is not None and not E.entails(lift(v) == b + k + 1) and not E.entails(lift(v) == b): raise Unsupported("counter of operations")
            log = mp.log; c.ob("every operation is mapped, once and in its place", len(log) >= 1 and log[0][0] == "map" and E.entails(log[0][1] == k) and sum(x[0] == "map" for x in log) == 1)
            due = z3.And(M.freq > 0, (k + 1) % M.freq == 0)
            c.ob("a correction round follows when the configured number of operations has been processed, and only then", due if log[1:] == [("call", "round")] else z3.Not(due) if not log[1:] else z3.BoolVal(False))
        E.explore(run, on)
        set_(tuple(mk(b + lift(it.n)) if f else loops.Poison("carried") if False else v for v, f, b in zip(i0, cnt, base)))
        mp.put(("ops", str(simp(lift(it.n))))); o.isDecoded = mk(fresh("decoded", B))
        return loops.CONT
@contract("C07", "src/ecc/Ecc.cpp:Ecc.apply")
def apply(c):
    code = "Q7Steane"; setup(c, code); env, rt, _ = unit(code); o = object.__new__(env["Ecc"].cls); o.__dict__["_vc_born"] = born()
    orig = OrigOps(); M.freq = fresh("freq"); E.assume(M.freq >= 0)
    info = type("Info", (), {})(); info.__dict__.update(nRedundantQubits=M.R, nCorrectingBits=M.A, name="code", classicalRegisters=Arr([])); info.vc_cp = lambda: info
    def go():
        env["Ecc"].construct(o, info, orig, mk(M.freq)); M.obj = o; mp = o.qcMapped
        def dec(): c.ob("only encoded qubits are decoded", z3.Not(to_bool(lift(rt.i2b(o.isDecoded))))); mp.put(("call", "decode"))
        o.__dict__.update(initMappedCircuit=lambda: mp.put(("call", "init")), writeEncoding=lambda: mp.put(("call", "encode")), measureAndCorrect=lambda: mp.put(("call", "round")), writeDecoding=dec, mapGate=lambda g: mp.put(("map", g.i)))
        ApplyLoop(c, o); return o.apply()
    def post(r):
        log = o.qcMapped.log; c.ob("the encoded circuit is returned", r is o.qcMapped)
        nops = [i for i, x in enumerate(log) if x[0] == "ops"]
        c.ob("registers first, then the encoding, then the operations", log[:2] == [("call", "init"), ("call", "encode")] and nops == ([2] if not E.entails(orig.ops.n == 0) else nops[:1]) and (not nops or log[nops[0]][1] == str(simp(orig.ops.n))))
        end = log[3:] if nops else log[2:]
        c.ob("a last round and the decoding, unless the qubits are decoded already", end in ([], [("call", "round"), ("call", "decode")]))
        c.ob("the qubits are decoded in the end", to_bool(lift(rt.i2b(o.isDecoded))))
    c.run(go, post, frame=False)
class Regs:
    """classical registers of the original circuit: they cover the bits without gaps"""
    def __init__(self): self.start, self.size, self.of = z3.Function("start", I, I), z3.Function("size", I, I), z3.Function("register", I, I)
    def at(self, b):
        """facts on the register of bit b"""
        r = self.of(b); E.assume(z3.Implies(z3.And(b >= 0, b < M.nc), z3.And(self.start(r) <= b, b < self.start(r) + self.size(r), self.start(r) >= 0, self.start(r) + self.size(r) <= M.nc, self.size(r) >= 1))); return r
class Name:
    def __init__(self, r): self.r = r
    def vc_cp(self): return self
class OrigRegs(Orig):
    def __init__(self, regs): self.regs = regs
    def vc_m(self, name, *a):
        if name == "getCregs": return RegMap(self.regs)
        if name == "getClassicalRegister": b = lift(a[0]); C_.c.ob("bit of the original circuit", z3.And(b >= 0, b < M.nc)); return Name(simp(self.regs.at(b)))
        return Orig.vc_m(self, name, *a)
class RegMap:
    def __init__(self, regs): self.regs = regs
    def vc_cp(self): return self
    def vc_m(self, name, *a):
        if name == "at" and isinstance(a[0], Name): r = a[0].r; return Pair(mk(simp(self.regs.start(r))), mk(simp(self.regs.size(r))))
        return NotImplemented
class Target(Mapped):
    """the encoded circuit while its registers are created"""
    def __init__(self): Mapped.__init__(self); self.bits = z3.IntVal(0); self.qubits = z3.IntVal(0)
    def _vc_save(self): return (list(self.log), self.bits, self.qubits)
    def _vc_load(self, s): self.log, self.bits, self.qubits = list(s[0]), s[1], s[2]
    def vc_m(self, name, *a):
        if name == "getNcbits": return mk(simp(self.bits))
        if name == "getNqubits": return mk(simp(self.qubits))
        if name == "addQubitRegister": E.touch(self); self.log.append(("q", lift(a[0]), self.bits)); self.qubits = simp(self.qubits + lift(a[0])); return None
        if name == "addClassicalRegister": E.touch(self); self.log.append(("c", self.bits, lift(a[0]), a[1])); self.bits = simp(self.bits + lift(a[0])); return None
        return NotImplemented
class RegLoop:
    """invariant: the bits that exist already are those of the first registers of the original circuit"""
    def __init__(self, c, o, regs): self.c, self.o, self.regs = c, o, regs; setattr(E, "loops", self)
    def get(self, lid, d=None): return None if lid.endswith("comp") else self.rule
    def rule(self, rt, cond, body, get, set_, names):
        c, mp, regs = self.c, self.o.qcMapped, self.regs; i0 = list(get())
        if hasattr(cond, "n"): raise Unsupported("loop over registers")
        m = fresh("bits")
        inv = lambda b: z3.And(b >= 0, b <= M.nc, z3.Implies(b < M.nc, regs.start(regs.of(b)) == b))
        c.ob("no bits exist before the first register", lift(mp.bits) == 0)
        E.assume(z3.Implies(M.nc > 0, regs.start(regs.at(z3.IntVal(0))) == 0))
        def run():
            regs.at(m); E.assume(inv(m)); set_(tuple(forget(v) for v in i0)); E.touch(mp); mp.log, mp.bits = [], m
            if not bool(cond()): raise PathEnd()
            return body()
        def on(p):
            c.ob("the loop runs through", p.exc is None and p.result is loops.CONT); l = mp.log; r = regs.at(m)
            # registers follow each other without gaps
            nxt = simp(regs.start(r) + regs.size(r)); regs.at(nxt); E.assume(z3.Implies(nxt < M.nc, regs.start(regs.of(nxt)) == nxt))
            ok = len(l) == 1 and l[0][0] == "c" and isinstance(l[0][3], Name)
            c.ob("one register is created per pass", ok)
            if ok: c.ob("the register keeps its bits", z3.And(l[0][1] == regs.start(r), l[0][2] == regs.size(r))); c.ob("the register keeps its name", l[0][3].r == r)
            c.ob("the bits so far are those of the first registers", inv(lift(mp.bits))); c.ob("every pass creates bits (termination)", lift(mp.bits) > m)
        E.explore(run, on)
        set_(tuple(i0)); e = fresh("bits"); E.touch(mp); mp.bits = e; regs.at(e); E.assume(inv(e)); mp.log.append(("user",))
        if bool(cond()): raise PathEnd()
        return loops.CONT
@contract("C07", "src/ecc/Ecc.cpp:Ecc.initMappedCircuit")
def init(c):
    for code in CODES:
        setup(c, code); env, rt, cls = unit(code); regs = Regs()
        def go():
            o = make(code); o.qcOriginal = OrigRegs(regs); o.qcMapped = Target(); M.obj = o; RegLoop(c, o, regs); o.initMappedCircuit(); return o
        def post(o):
            mp = o.qcMapped; l = mp.log
            c.ob("physical qubits", lift(mp.qubits) == M.n * M.R + M.A)
            c.ob("registers of the original circuit first", [x[0] for x in l if x[0] != "q"][:1] == ["user"] and sum(x[0] == "user" for x in l) == 1)
            mine = [x for x in l if x[0] == "c"]; at = M.nc; ok = True
            c.ob("one register per declared register", len(mine) == len(REGS[code]) and [x[3] for x in mine] == [p.second for p in o.ecc.classicalRegisters.xs])
            for x, w in zip(mine, REGS[code]): c.ob("registers of the code follow the bits of the original circuit", z3.And(x[1] == at, x[2] == w)); at = simp(at + w)
            c.ob("number of classical bits", lift(mp.bits) == M.nc + M.width)
        c.run(go, post, frame=False)
@contract("C07", "include/ecc/Ecc.hpp:Ecc.gateNotAvailableError")
def err(c):
    setup(c, "Q5Laflamme")
    def go():
        o = make("Q5Laflamme"); o.gateNotAvailableError(Gate("RX", "none"))
    def raises(e): c.ob("the exception names the operation", type(e).__name__ == "QFRException" and "<RX>" in str(e)); c.ob("the exception names the code", "Q5Laflamme" in str(e))
    c.run(go, lambda r: c.ob("an exception is raised", False), raises=raises, frame=False)
@contract("C07", "include/ecc/Id.hpp:Id.mapGate")
def ident(c):
    M.n = fresh("n"); setup(c, "Id"); M.R, M.A, M.width = 1, 0, 0
    for t in optypes():
        def go():
            o = make("Id"); M.obj = o; g = Gate(t, "none"); o.mapGate(g); return o, g
        c.run(go, lambda r: c.ob("the operation itself is appended, once", r[0].qcMapped.log == [("clone", r[1])]), frame=False)
    def go2():
        o = make("Id"); o.writeEncoding(); o.measureAndCorrect(); o.writeDecoding(); return o
    def post(o):
        c.ob("nothing else is emitted", o.qcMapped.log == []); c.ob("one physical qubit per qubit, no ancillas, no registers", (conc(o.ecc.nRedundantQubits), conc(o.ecc.nCorrectingBits), len(o.ecc.classicalRegisters.xs)) == (1, 0, 0))
    c.run(go2, post, frame=False)
for _c in CODES: sizes(_c); operands(_c); mapping(_c)
# ---- the Python entry point
class PyObj:
    """a Python value handed to the binding: a file name or a qiskit circuit"""
    def __init__(self, kind): self.kind = kind
    def vc_m(self, name, *a): return "file.qasm" if name == "cast" and self.kind == "str" else NotImplemented
    def vc_cp(self): return self
class Attr:
    def __init__(self, s): self.s = s
    def vc_m(self, name, *a): return Attr(self.s + "." + a[0]) if name == "attr" else NotImplemented
    def vc_conv(self, t): return self
    def vc_cp(self): return self
class Circ:
    """a QuantumComputation of the binding"""
    def __init__(self): self.src = None; self._vc_born = born()
    def vc_null(self): return False
    def vc_deref(self): return self
    def vc_cp(self): return self
    def _vc_save(self): return self.src
    def _vc_load(self, s): self.src = s
    def read(self, how, what): E.touch(self); self.src = ("twice",) if self.src is not None else (how, what)
    def vc_m(self, name, *a):
        if name == "import" and len(a) == 1: return self.read("file", a[0])
        if name == "dump" and len(a) == 2: a[0].put(("dump", self, a[1])); return None
        return NotImplemented
class Mapper:
    def __init__(self, code, circ, freq): self.code, self.circ, self.freq = code, circ, freq; self.out = Circ(); self.circ0 = circ.src; self.calls = 0; self._vc_born = born()
    def vc_null(self): return False
    def vc_deref(self): return self
    def vc_cp(self): return self
    def _vc_save(self): return self.calls
    def _vc_load(self, s): self.calls = s
    def vc_m(self, name, *a):
        if name == "apply": E.touch(self); self.calls += 1; self.out.by = self; return self.out
        return NotImplemented
class Out:
    """string stream"""
    def __init__(self): self.xs = []; self._vc_born = born()
    def _vc_save(self): return list(self.xs)
    def _vc_load(self, s): self.xs = list(s)
    def put(self, x): E.touch(self); self.xs.append(x)
    def vc_stream(self, x): self.put(x); return self
    def vc_m(self, name, *a): return ("".join(self.xs) if all(isinstance(x, str) for x in self.xs) else Text(tuple(self.xs))) if name == "str" else NotImplemented
    def vc_cp(self): return self
class Text:
    def __init__(self, xs): self.xs = xs
    def vc_cp(self): return self
    def __str__(self): return "".join(str(x) for x in self.xs)
class Arg:
    def __init__(self, k): self.k = k
    def vc_opassign(self, v): return (self.k, v)
@contract("C07", "src/python/bindings.cpp:applyEcc")
def entry(c):
    def new(rt, t, a):
        if t.endswith("pybind11::handle"): return a[0]
        if "basic_stringstream" in t or "basic_ostringstream" in t: return Out()
        if t == "qc::QuantumComputation": return Circ()
        m = re.fullmatch(r"ecc::(\w+)", t)
        if m: return Mapper(m.group(1), *a)
        if "unique_ptr" in t and not a: return None
        if t == "pybind11::dict": return dict(a)
        return NotImplemented
    def imp(*a):
        if len(a) == 1: return Attr(a[0])
        a[0].read("qiskit", a[1])
    isi = lambda o, t=None: o.kind == "str" if t is None else isinstance(t, Attr) and t.s == "qiskit.QuantumCircuit" and o.kind == "circuit"
    env, rt, _ = cxx.load("src/python/bindings.cpp", ["applyEcc"], "PY", {"new": new, "std": {"isinstance": isi, "import": imp, 'operator""_a': Arg}})
    for code in ["Id", *CODES, "Q4Nothing", ""]:
        for kind in ("str", "circuit"):
            circ = PyObj(kind); freq = Nat("freq"); nm = f"{code or 'empty name'}: "
            def post(r):
                c.ob(nm + "known code", code == "Id" or code in CODES)
                ok = list(r) == ["circ"] and isinstance(r["circ"], Text) and len(r["circ"].xs) == 1 and r["circ"].xs[0][0] == "dump"
                c.ob(nm + "the encoded circuit is returned", ok)
                if not ok: return
                _, out, fmt = r["circ"].xs[0]; m = getattr(out, "by", None)
                c.ob(nm + "as OpenQASM 2", str(fmt).endswith("OpenQASM2") or getattr(fmt, "n", None) == "OpenQASM2")
                c.ob(nm + "the code asked for is applied, once", m is not None and m.code == code and m.calls == 1)
                c.ob(nm + "to the circuit given", m.circ.src == (("file", "file.qasm") if kind == "str" else ("qiskit", circ)))
                c.ob(nm + "with the frequency given", lift(m.freq) == lift(freq))
            def raises(e): c.ob(nm + "unknown codes are rejected by name", code not in ["Id", *CODES] and "argument" in type(e).__name__.lower() and code in str(e))
            c.run(lambda: env[None].applyEcc(circ, code, freq), post, raises=raises, frame=False)
