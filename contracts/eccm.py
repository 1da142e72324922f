"""circuit encoders (src/ecc): recording of emitted operations for every number of qubits, and the exact meaning of the recorded blocks"""
from contracts.lib import *
from vc import cxx
from replay import stab
from replay.stab import P, State, X, Y, Z
import re, os
CODES = ["Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface"]
RED = dict(Q3Shor=3, Q5Laflamme=5, Q7Steane=7, Q9Shor=9, Q9Surface=9, Q18Surface=36)
ANC = dict(Q3Shor=2, Q5Laflamme=4, Q7Steane=3, Q9Shor=8, Q9Surface=8, Q18Surface=0)
REGS = dict(Q3Shor=[2], Q5Laflamme=[4, 1], Q7Steane=[3], Q9Shor=[2, 2, 2, 2], Q9Surface=[4, 4], Q18Surface=[8])
DATA = {k: list(range(v)) for k, v in RED.items()}; DATA["Q18Surface"] = [1, 3, 5, 6, 8, 10, 13, 15, 17, 18, 20, 22, 25, 27, 29, 30, 32, 34]
# stabilizers, logical X, logical Z
GROUP = dict(
    Q3Shor=([Z(0, 1), Z(1, 2)], X(0, 1, 2), Z(0)),
    Q5Laflamme=([X(i % 5) * Z((i + 1) % 5) * Z((i + 2) % 5) * X((i + 3) % 5) for i in range(4)], X(*range(5)), Z(*range(5))),
    Q7Steane=([f(*[q for q in range(7) if (q + 1) >> c & 1]) for f in (X, Z) for c in range(3)], X(*range(7)), Z(*range(7))),
    Q9Shor=([Z(i, i + 1) for i in (0, 1, 3, 4, 6, 7)] + [X(*range(6)), X(*range(3, 9))], Z(*range(9)), X(*range(9))),
    Q9Surface=([X(0, 1, 3, 4), X(1, 2), X(4, 5, 7, 8), X(6, 7), Z(0, 3), Z(1, 2, 4, 5), Z(3, 4, 6, 7), Z(5, 8)], X(2, 4, 6), Z(0, 4, 8)),
    Q18Surface=([Z(*[q for q, cs in {1: (0, 2), 3: (2, 4), 5: (4,), 6: (0, 12), 8: (2,), 10: (4, 16), 13: (12,), 15: (16,), 18: (12, 24), 20: (26,), 22: (16, 28), 25: (24, 26), 27: (26, 28), 29: (28,), 30: (24,)}.items() if c in cs]) for c in (0, 2, 4, 12, 16, 24, 26, 28)], X(5, 10, 15), Z(8, 13, 15, 20)))
def optypes():
    s = open("/opt/deps/mqt_core-2.7.0/include/mqt-core/ir/operations/OpType.hpp").read()
    s = re.sub(r"//.*", "", s[s.index("enum OpType"):]); return [x.strip() for x in s[s.index("{") + 1:s.index("}")].split(",") if x.strip() and x.strip() != "OpCount"]
def accepted(code, t, nc):
    if t in ("Measure", "Barrier"): return True
    if t == "I": return True if nc == 0 else None      # a controlled identity may be left out or rejected
    if code == "Q3Shor": return t in ("X", "Y", "Z", "S", "Sdg", "T", "Tdg", "I")
    if code == "Q5Laflamme": return t in ("X", "Y", "Z") and nc == 0
    if code == "Q7Steane": return t in ("X", "Y", "Z") and nc <= 1 or t in ("H", "S", "Sdg", "T", "Tdg") and nc == 0
    if code == "Q9Shor": return t in ("X", "Y", "Z") and nc <= 1
    return t in ("X", "Y", "Z", "H") and nc == 0
OP = dict(X="x", Y="y", Z="z", H="h", S="s", Sdg="sdg", T="t", Tdg="tdg", I="i")
# ---- concrete containers
def conc(x):
    if isinstance(x, bool): return int(x)
    if isinstance(x, V):
        t = simp(x.t)
        return t.as_long() if z3.is_int_value(t) else None
    return x
def key(x):
    k = conc(x)
    if not isinstance(k, (int, str)) and not isinstance(x, cxx.Enum): raise Unsupported("container of values that are not known")
    return k if not isinstance(x, cxx.Enum) else x
class Arr:
    """std::array / std::vector / C array of known size"""
    raw = False
    def __init__(self, xs): self.xs = list(xs); self._vc_born = born()
    def _vc_save(self): return list(self.xs)
    def _vc_load(self, s): self.xs = list(s)
    def vc_size(self): return len(self.xs)
    def pos(self, i):
        k = conc(i)
        if not isinstance(k, int): raise Unsupported("index that is not known")
        return k
    def vc_get(self, i): return self.xs[self.pos(i)]
    def vc_set(self, i, v): E.touch(self); self.xs[self.pos(i)] = v
    def vc_cp(self): return type(self)([cpy(x) for x in self.xs])
    def vc_assign(self, o): E.touch(self); self.xs = [cpy(x) for x in o.xs]
    def vc_elems(self, m): return list(self.xs)
    def vc_part(self, i): return self.xs[i]
    def vc_m(self, name, *a):
        if name in ("at", "operator[]"):
            k = self.pos(a[0])
            if not 0 <= k < len(self.xs): raise C_.rt.exc("out_of_range", "at")
            return self.xs[k]
        if name == "size": return len(self.xs)
        if name == "empty": return not self.xs
        if name in ("begin", "cbegin"): return It(self.xs, 0)
        if name in ("end", "cend"): return It(self.xs, len(self.xs))
        if name in ("emplace_back", "push_back"): E.touch(self); self.xs.append(cpy(a[0])); return None
        if name == "front": return self.xs[0]
        if name == "back": return self.xs[-1]
        if name == "reserve": return None
        return NotImplemented
class It:
    def __init__(self, xs, i): self.xs, self.i = xs, i
    def vc_deref(self):
        if not 0 <= self.i < len(self.xs): raise cxx.UB("iterator past the end dereferenced")
        return self.xs[self.i]
    def vc_eq(self, o): return self.i == o.i
    def __add__(self, k): return It(self.xs, self.i + k)
class Pair:
    def __init__(self, a, b): self.first, self.second = a, b
    def vc_part(self, i): return (self.first, self.second)[i]
    def vc_cp(self): return Pair(self.first, self.second)
class SetC:
    """std::set of known values, in order"""
    def __init__(self, xs=()):
        self.xs = []; self._vc_born = born()
        for x in xs: self.put(x)
    def _vc_save(self): return list(self.xs)
    def _vc_load(self, s): self.xs = list(s)
    def put(self, x):
        k = key(x)
        if k not in self.xs: E.touch(self); self.xs = sorted([*self.xs, k])
    def vc_cp(self): return SetC(self.xs)
    def vc_size(self): return len(self.xs)
    def vc_elems(self, m): return list(self.xs)
    def vc_assign(self, o): E.touch(self); self.xs = list(o.xs)
    def vc_m(self, name, *a):
        if name == "count": return int(key(a[0]) in self.xs)
        if name == "contains": return key(a[0]) in self.xs
        if name == "size": return len(self.xs)
        if name == "empty": return not self.xs
        if name in ("insert", "emplace") and len(a) == 1: self.put(a[0]); return None
        if name == "begin": return It(self.xs, 0)
        if name == "end": return It(self.xs, len(self.xs))
        if name == "find": k = key(a[0]); return It(self.xs, self.xs.index(k) if k in self.xs else len(self.xs))
        return NotImplemented
class MapC:
    """std::map with known keys, in order"""
    def __init__(self, items=(), dflt=0):
        self.d = {}; self.dflt = dflt; self._vc_born = born()
        for p in items: self.d.setdefault(key(p.first), p.second)
    vc_map = True
    def _vc_save(self): return dict(self.d)
    def _vc_load(self, s): self.d = dict(s)
    def vc_cp(self): return MapC([Pair(k, cpy(v)) for k, v in self.d.items()], self.dflt)
    def vc_size(self): return len(self.d)
    def vc_index(self, k):
        k = key(k)
        if k not in self.d: E.touch(self); self.d[k] = self.dflt
        return self.d[k]
    def vc_put(self, k, v): E.touch(self); self.d[key(k)] = v
    def vc_elems(self, m): return [Pair(k, self.d[k]) for k in sorted(self.d)]
    def vc_m(self, name, *a):
        if name == "at":
            if key(a[0]) not in self.d: raise C_.rt.exc("out_of_range", "at")
            return self.d[key(a[0])]
        if name in ("count", "contains"): return int(key(a[0]) in self.d)
        if name == "size": return len(self.d)
        if name in ("emplace", "insert", "try_emplace") and len(a) == 2: 
            if key(a[0]) not in self.d: E.touch(self); self.d[key(a[0])] = a[1]
            return None
        return NotImplemented
def cpy(x): return x.vc_cp() if hasattr(x, "vc_cp") else x
class Ctrl:
    def __init__(self, q, pos=True): self.__dict__.update(qubit=q, type=pos if isinstance(pos, cxx.Enum) or isinstance(pos, SomeType) else cxx.Enum("Type", "Pos" if pos else "Neg")); self._vc_born = born()
    def _vc_save(self): return (self.qubit, self.type)
    def _vc_load(self, s): self.qubit, self.type = s
    def __setattr__(self, n, v):
        if n in ("qubit", "type") and "_vc_born" in self.__dict__: E.touch(self)
        self.__dict__[n] = v
    def vc_cp(self): return Ctrl(self.qubit, self.type)
    def vc_assign(self, o): self.qubit, self.type = o.qubit, o.type
class SomeType:
    """polarity of an arbitrary control: may be stored, not inspected"""
    def vc_eq(self, o):
        if o is self: return True
        raise Unsupported("polarity of one of arbitrarily many controls is inspected")
class Ctrls:
    """qc::Controls: known controls, or the image of an arbitrary set of controls under a shift of the qubit index"""
    def __init__(self, xs=(), fam=None, size=None): self.xs, self.fam, self.size = list(xs), fam, size; self._vc_born = born()
    def _vc_save(self): return (list(self.xs), self.fam, self.size)
    def _vc_load(self, s): self.xs, self.fam, self.size = list(s[0]), s[1], s[2]
    def vc_cp(self): return Ctrls(self.xs, self.fam, self.size)
    def vc_size(self):
        if self.fam is None: return len(self.xs)
        if self.xs: raise Unsupported("size of a mixed set of controls")
        return self.size
    def vc_elems(self, m):
        if self.fam is None: return list(self.xs)
        if self.fam != 0 or self.xs: raise Unsupported("iteration over shifted controls")
        s = seqs.Seq(lift(self.size), lambda i: M.anyctrl(i)); s.ctrls = self; return s
    def vc_m(self, name, *a):
        if name == "size": return self.vc_size()
        if name == "empty": return C_.rt.eq(self.vc_size(), 0)
        if name in ("insert", "emplace") and len(a) == 1:
            c = a[0] if isinstance(a[0], Ctrl) else Ctrl(a[0])
            if M.collect is not None and isinstance(c.type, SomeType): M.collect.append((self, c)); return None
            if self.fam is not None: raise Unsupported("control added to arbitrarily many controls")
            E.touch(self); self.xs.append(c.vc_cp()); return None
        if name == "begin":
            if self.fam is not None: raise Unsupported("first of arbitrarily many controls")
            return It(self.xs, 0)
        return NotImplemented
# ---- the machine that records
class C_: rt = None
class M: pass
class TSeq:
    """targets or classical bits of an operation: any number, any values within the circuit"""
    def __init__(self, kind, n, f): self.kind, self.n, self.f = kind, n, f
    def vc_size(self): return mk(self.n)
    def vc_get(self, i):
        i = lift(i); t = simp(self.f(i)); return M.element(self.kind, i, t)
    def vc_elems(self, m): return seqs.Seq(self.n, lambda i: self.vc_get(mk(i) if z3.is_expr(i) else i))
    def vc_cp(self): return self
    def vc_m(self, name, *a):
        if name == "size": return mk(self.n)
        if name == "at": return C_.rt.at(self, a[0])
        if name == "empty": return mk(self.n == 0)
        if name == "front": return C_.rt.at(self, 0)
        return NotImplemented
class Gate:
    """the operation that is mapped"""
    def __init__(self, t, mode):
        self.t, self.mode = t, mode; self._vc_born = born()
        self.nt, self.nm = fresh("ntargets"), fresh("nclassics"); E.assume(z3.And(self.nt >= 1, self.nm >= 1))
        T, Cf = z3.Function(f"T!{born()}", I, I), z3.Function(f"C!{born()}", I, I)
        self.targets, self.classics = TSeq("T", self.nt, T), TSeq("L", self.nm, Cf)
        if t == "Measure": E.assume(self.nt == self.nm)
        self.m = fresh("ncontrols"); E.assume(self.m >= 2)
        if mode in ("pos", "neg"):
            q = fresh("control"); E.assume(z3.And(q >= 0, q < M.n)); M.bases.append((("C",), q)); self.ctrls = Ctrls([Ctrl(mk(q), mode == "pos")])
        elif mode == "many": self.ctrls = Ctrls((), 0, mk(self.m))
        else: self.ctrls = Ctrls()
        M.gate = self
    def vc_dyn(self, t): return self if "NonUnitaryOperation" in t and self.t in ("Measure", "Reset") else None
    def vc_null(self): return False
    def vc_deref(self): return self
    def vc_m(self, name, *a):
        if name == "getType": return cxx.Enum("OpType", self.t)
        if name == "getTargets": return self.targets
        if name == "getNtargets": return mk(self.nt)
        if name == "getControls": return self.ctrls
        if name == "getNcontrols": return self.ctrls.vc_size()
        if name == "isControlled": return self.mode != "none"
        if name == "getClassics": return self.classics
        if name == "getNclassics": return mk(self.nm)
        if name == "clone": return ("clone", self)
        return NotImplemented
class Orig:
    """the circuit that is encoded"""
    def vc_null(self): return False
    def vc_deref(self): return self
    def vc_cp(self): return self
    def vc_m(self, name, *a):
        if name == "getNqubits": return mk(M.n)
        if name == "getNcbits": return mk(M.nc)
        return NotImplemented
class Mapped:
    """the encoded circuit: a log of operations"""
    def __init__(self): self._vc_born = born(); self.log = []
    def _vc_save(self): return list(self.log)
    def _vc_load(self, s): self.log = list(s)
    def vc_null(self): return False
    def vc_deref(self): return self
    def vc_cp(self): return self
    def put(self, o): E.touch(self); self.log.append(o)
    def q(self, t):
        if isinstance(t, Ctrl): t = t.qubit
        return M.qubit(lift(t))
    def c(self, c):
        if not isinstance(c, Ctrl): c = Ctrl(c)
        if not isinstance(c.type, cxx.Enum): raise Unsupported("one of arbitrarily many controls used on its own")
        return (*self.q(c.qubit), c.type.n == "Pos")
    def cs(self, x):
        if isinstance(x, Ctrls):
            if x.fam is not None:
                if x.xs: raise Unsupported("mixed set of controls")
                return ("many", x.fam)
            return [self.c(c) for c in x.xs]
        if isinstance(x, Arr): return [self.c(c) for c in x.xs]
        return [self.c(x)]
    def vc_m(self, name, *a):
        one = {"x", "y", "z", "h", "s", "sdg", "t", "tdg", "i"}
        if name in one and len(a) == 1: self.put(("g", name, [], [self.q(a[0])])); return None
        if len(name) > 1 and name[0] == "c" and name[1:] in one and len(a) == 2: self.put(("g", name[1:], [self.c(a[0])], [self.q(a[1])])); return None
        if len(name) > 2 and name[:2] == "mc" and name[2:] in one and len(a) == 2: self.put(("g", name[2:], self.cs(a[0]), [self.q(a[1])])); return None
        if name == "swap" and len(a) == 2: self.put(("g", "swap", [], [self.q(a[0]), self.q(a[1])])); return None
        if name == "reset" and len(a) == 1:
            for t in (a[0].xs if isinstance(a[0], Arr) else [a[0]]): self.put(("reset", self.q(t)))
            return None
        if name == "measure" and len(a) == 2: self.put(("measure", self.q(a[0]), M.bit(lift(a[1])))); return None
        if name == "classicControlled" and len(a) in (3, 4):
            op, t, r = a[:3]; v = conc(a[3]) if len(a) == 4 else 1; l = conc(r.second); s = M.bit(lift(r.first))
            if not isinstance(v, int) or not isinstance(l, int): raise Unsupported("condition with an unknown value")
            C_.c.ob("condition reads classical bits of the code", s[0] == "a" and s[1] + l <= M.width)
            self.put(("if", OP.get(op.n, op.n), self.q(t), s, l, v)); return None
        if name == "emplace_back" and len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == "clone": self.put(("clone", a[0][1])); return None
        if name == "emplace_back" and len(a) in (2, 3) and isinstance(a[-1], cxx.Enum):
            t = [self.q(x) for x in a[-2].xs] if isinstance(a[-2], Arr) else [self.q(a[-2])]
            if a[-1].n not in OP: raise Unsupported("emitted operation " + a[-1].n)
            self.put(("g", OP[a[-1].n], self.cs(a[0]) if len(a) == 3 else [], t)); return None
        if name == "getNqubits": return mk(simp(M.n * M.R + M.A))
        if name == "getNcbits": return mk(simp(M.nc + M.width))
        return NotImplemented
def setup(c, code):
    """fresh machine: n logical qubits, nc classical bits of the original circuit"""
    M.n, M.nc = fresh("n"), fresh("nc"); E.assume(z3.And(M.n >= 1, M.nc >= 0))
    M.R, M.A, M.width = RED.get(code, 1), ANC.get(code, 0), sum(REGS.get(code, []))
    M.bases, M.bits, M.collect, M.gate, M.uid = [], [], None, None, 0
    M.code = code; C_.c = c
def some(x, n): return z3.And(x >= 0, x < n)
def element(kind, i, t):
    if kind == "T": E.assume(some(t, M.n)); k = ("T", str(simp(i))); M.bases.append((k, t)); M.gate.ctrls.xs and E.assume(lift(M.gate.ctrls.xs[0].qubit) != t)
    else: E.assume(some(t, M.nc)); M.bits.append((("L", str(simp(i))), t))
    return mk(t)
def anyctrl(i):
    i = lift(i); q = z3.Function("ctl", I, I)(i); E.assume(some(q, M.n)); return Ctrl(mk(q), ANYT)
ANYT = SomeType()
def off(t, b, unit):
    """c with t == b + c * unit, for a known c"""
    d = z3.simplify(t - b, som=True)
    if z3.is_int_value(d): return d.as_long() if unit is None else (0 if d.as_long() == 0 else None)
    if unit is None: return None
    c = z3.simplify(z3.substitute(d, (unit, z3.IntVal(1))))
    if not z3.is_int_value(c): return None
    r = z3.simplify(d - c * unit, som=True)
    return c.as_long() if z3.is_int_value(r) and r.as_long() == 0 else None
def qubit(t):
    t = simp(t); a = off(t, M.R * M.n, None)
    if a is not None: C_.c.ob("ancilla index inside the encoded circuit", 0 <= a < M.A); return (("a",), a)
    for k, b in reversed(M.bases):
        j = off(t, b, M.n)
        if j is not None and E.entails(some(b, M.n)): C_.c.ob("qubit index inside the encoded circuit", 0 <= j < M.R); return (k, j)
    # not of the form base + j * n syntactically
    for k, b in reversed(M.bases):
        for j in range(M.R):
            if E.entails(t == b + j * M.n) and E.entails(some(b, M.n)): return (k, j)
    C_.c.ob("operand is a data qubit of a block or an ancilla", False); raise Unsupported("qubit operand")
def bit(t):
    t = simp(t); a = off(t, M.nc, None)
    if a is not None: C_.c.ob("classical bit inside the registers of the code", 0 <= a < M.width); return ("a", a)
    for k, b in reversed(M.bits):
        if off(t, b, None) == 0: return ("u", k)
    C_.c.ob("classical bit of the code or of the measurement", False); raise Unsupported("classical operand")
M.element, M.anyctrl, M.qubit, M.bit = element, anyctrl, qubit, bit
# ---- constructions
def scalar(t):
    t = t.strip()
    if t.endswith("Control"): return Ctrl(0)
    if "pair<" in t: return Pair(0, 0)
    if t.startswith("std::set<"): return SetC()
    if t.startswith("std::vector<"): return Arr([])
    if t.startswith("std::array<"): return array(t, [])
    return 0
def inner(t):
    """element type and length of an array type"""
    m = re.match(r"std::array<(.*), (\d+)>$", t)
    if m: return m.group(1), int(m.group(2))
    m = re.match(r"(.*?)\[(\d+)\](.*)$", t)
    return m.group(1).strip() + m.group(3), int(m.group(2))
def array(t, xs):
    e, n = inner(t)
    return Arr(list(xs) + [scalar(e) for _ in range(n - len(xs))])
def h_init(rt, t, xs):
    t = t.strip()
    if t.endswith("]"): r = array(t, xs); r.raw = True; return r
    if t.startswith("std::array<"):
        if len(xs) == 1 and isinstance(xs[0], Arr) and xs[0].raw: return Arr(xs[0].xs)
        if len(xs) == 1 and xs[0] == 0 and not isinstance(xs[0], V): return array(t, [])
        return array(t, xs)
    if "pair<" in t and t.startswith("std::pair") and len(xs) == 2: return Pair(*xs)
    if t.endswith("Control"): return Ctrl(*xs) if xs else Ctrl(0)
    if t.endswith("Info"):
        o = type("Info", (), {})(); o.__dict__.update(zip(("id", "nRedundantQubits", "nCorrectingBits", "name", "classicalRegisters"), xs)); o.vc_cp = lambda: o; return o
    return h_new(rt, t, xs)
def h_new(rt, t, xs):
    t = t.replace("const ", "").strip()
    if t.endswith("qc::Control") or t == "Control": return Ctrl(*xs) if xs else Ctrl(0)
    if t.startswith("std::set<") and "Control" in t or t.endswith("Controls"): return Ctrls([c if isinstance(c, Ctrl) else Ctrl(c) for c in xs[0].xs] if xs else ())
    if t.startswith("std::set<"): return SetC(xs[0].xs if xs else ())
    if t.startswith("std::map<"): return MapC(xs[0].xs if xs else (), 0)
    if t.startswith("std::pair<"): return Pair(*xs) if len(xs) == 2 else xs[0] if xs else Pair(0, 0)
    if t.startswith("std::array<"): return array(t, [])
    if t.startswith("std::vector<"):
        if not xs: return Arr([])
        if len(xs) == 1 and isinstance(xs[0], Arr): return Arr(xs[0].xs)
        if len(xs) == 1 and isinstance(conc(xs[0]), int): return Arr([scalar(t[12:-1])] * conc(xs[0]))
        return NotImplemented
    if "string" in t and "stream" not in t: return xs[0] if xs else ""
    if "stringstream" in t: return Stream()
    if "shared_ptr" in t and not xs: return None
    if t.endswith("QuantumComputation"): return Mapped()
    return NotImplemented
class Stream:
    def __init__(self): self.s = []; self._vc_born = born()
    def _vc_save(self): return list(self.s)
    def _vc_load(self, s): self.s = list(s)
    def vc_stream(self, x): E.touch(self); self.s.append(x); return self
    def vc_m(self, name, *a):
        if name == "str": return "".join(x if isinstance(x, str) else str(conc(x)) for x in self.s)
        return NotImplemented
def method(rt, o, name, a):
    if isinstance(o, tuple): return NotImplemented
    return NotImplemented
UNITS = {}
def unit(code):
    """the translated class of one code (with its base class), as one Python class"""
    if code not in UNITS:
        path = f"src/ecc/{code}.cpp" if code != "Id" else "include/ecc/Id.hpp"
        env, rt, dig = cxx.load(path, [code if code != "Id" else "ecc::Id"], code, hooks={"init": h_init, "new": h_new, "std": {"toString": lambda t: f"<{t.n}>", "make_pair": Pair, "move": lambda x: x, "begin": lambda o: C_.rt.m(o, "begin"), "end": lambda o: C_.rt.m(o, "end")}}, extra=[("src/ecc/Ecc.cpp", "ecc::Ecc")])
        cls = type(code, (env[code].cls, env["Ecc"].cls), {})
        def deref(x, old=rt.deref): return old(x)
        UNITS[code] = (env, rt, cls)
    env, rt, cls = UNITS[code]; C_.rt = rt; return env, rt, cls
def make(code, freq=None):
    """an encoder as its constructor builds it"""
    env, rt, cls = unit(code)
    o = object.__new__(cls); o.__dict__["_vc_born"] = born()
    M.orig = Orig(); M.freq = fresh("freq") if freq is None else freq; E.assume(M.freq >= 0)
    env[code].construct(o, M.orig, mk(M.freq)); M.obj = o
    return o
def flags(o): return (conc(o.isDecoded), conc(o.gatesWritten))
# ---- loops
class Loops:
    def __init__(self): setattr(E, "loops", self)
    def get(self, lid, d=None): return None if lid.endswith("comp") else self.rule
    def rule(self, rt, it, body, get, set_, names):
        if not hasattr(it, "n"): raise Unsupported("while loop")
        o, mp = M.obj, M.obj.qcMapped; i0 = list(get()); many = getattr(it, "ctrls", None)
        ne = E.entails(lift(it.n) >= 1)
        if not ne: raise Unsupported("loop that may not run at all")
        M.uid += 1; uid = M.uid; start = born(); f0 = (o.isDecoded, o.gatesWritten); tmpl = []; fl = [f0]; sets = None; exc = None
        k = fresh("k")
        for phase in (0, 1):
            res = []; nb, nl = len(M.bases), len(M.bits)
            def run():
                E.assume(k == 0 if phase == 0 else z3.And(k >= 1, k < lift(it.n))); E.assume(some(k, lift(it.n)))
                x = it.item(V(k)); M.bases.append((("i", uid), k))
                set_(tuple(forget(v) for v in i0)); E.touch(mp); mp.log = []; o.isDecoded, o.gatesWritten = fl[-1]
                if many is not None: M.collect = []
                run.x, run.at = x, list(get())
                return body(x)
            def on(p):
                if p.exc is not None: res.append(("exc", p.exc)); return
                if p.result is not loops.CONT: raise Unsupported("loop that leaves early")
                bad = [type(x).__name__ for x, old in E.ctxs[-1].journal.values() if getattr(x, "_vc_born", 1 << 60) <= start and x is not mp and not (x is o and all(old.get(a) is x.__dict__.get(a) or a in ("isDecoded", "gatesWritten") for a in {**old, **x.__dict__})) and not (isinstance(x, (Arr, Ctrl)) and False)]
                if bad: raise Unsupported("loop that changes " + ", ".join(bad))
                res.append(("ok", list(mp.log), flags(o), list(M.collect or []), isinstance(run.x, V) and E.entails(lift(run.x) == k), [x is not y for x, y in zip(run.at, get())]))
            old = M.collect
            try: E.explore(run, on)
            finally: M.collect = old
            M.bases[nb:] = []; M.bits[nl:] = []
            if len(res) != 1: raise Unsupported(f"loop body with {len(res)} cases")
            if res[0][0] == "exc": 
                if phase == 0: exc = res[0][1]; break
                raise Unsupported("loop that fails in a later pass")
            tmpl.append(res[0]); fl.append(tuple(res[0][2]))
        set_(tuple(i0))
        if exc is not None: raise exc
        if fl[-1] != fl[-2]: raise Unsupported("the state of the encoder changes with every pass")
        if (o.isDecoded, o.gatesWritten) != fl[-1]: o.isDecoded, o.gatesWritten = fl[-1]
        set_(tuple(loops.Poison("carried out of a loop over all qubits") if a or b else v for v, a, b in zip(i0, tmpl[0][5], tmpl[1][5])))
        if many is not None:
            if tmpl[0][1] or tmpl[1][1]: raise Unsupported("operations emitted for every one of arbitrarily many controls")
            self.image(tmpl, k, many); return loops.CONT
        ident = tmpl[0][4] and tmpl[1][4]
        mp.put(("for", uid, str(simp(lift(it.n))), ident, tmpl[0][1], tmpl[1][1], str(k)))
        return loops.CONT
    def image(self, tmpl, k, many):
        """sets of controls filled from an arbitrary set of controls"""
        a, b = tmpl[0][3], tmpl[1][3]
        if len(a) != len(b): raise Unsupported("control sets")
        q = z3.Function("ctl", I, I)(k)
        for (s, c), (s2, c2) in zip(a, b):
            h, h2 = off(simp(lift(c.qubit)), q, M.n), off(simp(lift(c2.qubit)), q, M.n)
            if s is not s2 or h is None or h != h2 or c.type is not ANYT or c2.type is not ANYT or s.xs or s.fam is not None: raise Unsupported("set of controls that is not a shift of the operation's controls")
            E.touch(s); s.fam, s.size = h, many.size
# ---- meaning
def blocks(c, name, log, n):
    """the log as a sequence of loops over all blocks"""
    ok = all(x[0] == "for" and x[2] == str(simp(n)) and x[3] for x in log)
    c.ob(f"{name}: emitted once for every logical qubit, for all of them", ok)
    if not ok: raise Unsupported("emission pattern")
    return log
def flat(items, kmap, idx=None):
    """nested loops are not expected inside a block"""
    out = []
    for x in items:
        if x[0] == "for": raise Unsupported("symbolic loop inside a block")
        out.append(x)
    return out
def local(items, qmap):
    """operations of one template on local qubits"""
    out = []
    def q(x):
        if x[0] not in qmap: raise Foreign()
        return qmap[x[0]] + x[1]
    def cb(b):
        if b[0] != "a": raise Foreign()
        return b[1]
    for x in items:
        if x[0] == "g":
            if isinstance(x[2], tuple): raise Unsupported("arbitrarily many controls")
            out.append((x[1], [(q(y[:2]), y[2]) for y in x[2]], [q(y) for y in x[3]], []))
        elif x[0] == "reset": out.append(("reset", [], [q(x[1])], []))
        elif x[0] == "measure": out.append(("measure", [], [q(x[1])], [cb(x[2])]))
        elif x[0] == "if": out.append(("if", (x[1], [], [q(x[2])]), cb(x[3]), x[4], x[5]))
        elif x[0] == "call": out.append(x)
        else: raise Unsupported("operation " + x[0])
    return out
class Foreign(Exception): pass
def simulate(c, name, segs, gens, fresh_anc, which):
    """all states after the block's parts of the segments (which: the first block, or any later one); other blocks use the ancillas in between"""
    R, A = M.R, M.A; sts = [State(gens + ([Z(R + a) for a in range(A)] if fresh_anc and which == 0 else []))]
    for g in segs:
        nx = []
        try: ops = local(g[4 + which], {("i", g[1]): 0, ("a",): R})
        except Foreign: c.ob(f"{name}: every block works on its own qubits and the ancillas", False); return []
        for s in sts:
            for s2, b in stab.run(s, ops):
                for a in range(A): s2.clear(R + a)
                nx.append(s2)
        sts = nx
    return sts
def ref(): return M.R + M.A
def withref(code):
    S, lx, lz = GROUP[code]; r = ref()
    return [p.copy() for p in S] + [lx * X(r), lz * Z(r)]
def keeps(sts, gens): return bool(sts) and all(s.has(g) for s in sts for g in gens)

def shown(f):
    """a simulation that the block does not admit is a failed obligation"""
    try: return f()
    except stab.Unsupported as e: raise Unsupported(f"meaning of a block: {e}")
def emit(c, code, go, flags0=None):
    """one call on an encoder in a given state: (log, flags afterwards)"""
    o = make(code); Loops()
    if flags0 is not None: o.isDecoded, o.gatesWritten = flags0
    E.touch(o.qcMapped); o.qcMapped.log = []
    go(o); return o.qcMapped.log, flags(o)
ENC, DEC, INIT = (False, True), (True, True), (True, False)
def stubs(o):
    mp = o.qcMapped
    def r(): mp.put(("call", "round"))
    def d():
        if conc(o.isDecoded) is False or conc(o.isDecoded) == 0: mp.put(("call", "decode")); o.isDecoded = True
    def e():
        if conc(o.isDecoded): mp.put(("call", "encode")); o.isDecoded = False
    o.__dict__.update(measureAndCorrect=r, writeDecoding=d, writeEncoding=e)
def logical(code, gens, maps):
    """operators on logical and reference qubits as operators on the blocks; maps: qubit -> (logical X, logical Z)"""
    out = []
    for p in gens:
        r = P(0, 0, p.k)
        for q, (lx, lz) in maps.items():
            if p.x >> q & 1: r = r * lx
        for q, (lx, lz) in maps.items():
            if p.z >> q & 1: r = r * lz
        out.append(r)
    return out
def shift(p, k): return P(p.x << k, p.z << k, p.k)
