"""C++ front end: the AST that clang produces for the repository's own sources, transliterated statement by statement to the
engine's input language (Python text that goes through pyfront's loop transformation).

Kept: every statement and every expression of the functions under contract, overload resolution and implicit conversions as clang
resolved them, copies where clang inserts a copy constructor, bounds (at() throws, operator[] is an obligation), null dereference
(an obligation).
Dropped / idealised: integers are mathematical (unsigned subtraction is obliged not to wrap, conversions signed -> unsigned are obliged
to be non-negative), destructors, stream output, moved-from state (a move is a copy), capacity (any value >= size), reserve.
"""
from __future__ import annotations
import ast, hashlib, json, os, re, subprocess, builtins as _b
import z3
from .core import *
from .core import E
from . import arrays as A, seqs, loops, pyfront
from .arrays import SArr
from .seqs import PList, Seq
from .loops import RT, PObj

REPO = pyfront.REPO
INC = ["-I" + REPO + "/include", "-isystem", "/opt/deps/mqt_core-2.7.0/include/mqt-core", "-isystem", "/opt/build/cpp/_deps/mqt-core-build/src/ir",
       "-isystem", "/opt/venv/lib/python3.12/site-packages/pybind11/include", "-isystem", "/usr/include/python3.12"]

def clang(path, flt):
    p = subprocess.run(["clang++", "-std=c++17", *INC, "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + flt, "-x", "c++", os.path.join(REPO, path)], capture_output=True, text=True, timeout=200)
    if p.returncode: raise Unsupported(f"clang rejects {path}: {p.stderr[:400]}")
    s, d, i, out = p.stdout, json.JSONDecoder(), 0, []
    while i < len(s):
        while i < len(s) and s[i].isspace(): i += 1
        if i >= len(s): break
        o, i = d.raw_decode(s, i); out.append(o)
    return out

def ty(n): return n.get("type", {}).get("qualType", "")
def dty(n): t = n.get("type", {}); return t.get("desugaredQualType") or t.get("qualType", "")
UNS = ("size_t", "unsigned", "uint64_t", "uint32_t", "uint8_t", "uint16_t", "size_type", "Qubit", "Bit")
def is_uns(n): t = dty(n).replace("const ", ""); return any(t == u or t.endswith("::" + u) or t.startswith("unsigned") for u in UNS) or any(x in ty(n) for x in ("size_t", "uint64_t", "size_type", "Qubit", "uint32_t"))
def is_boolt(n): return dty(n).replace("const ", "").strip() in ("bool",)
SKIP = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXStdInitializerListExpr"}

class Unit:
    """classes and functions of one translation unit"""
    def __init__(self, path, filters, name, extra=()):
        self.path, self.name = path, name
        self.classes, self.text, self.bases, self.funcs = {}, {}, {}, {}
        self.methods = {}                   # class -> {name: [(node, overload key)]}
        self.statvars, self.statics_ = {}, {}   # static constexpr data members: decl id -> (class, node)
        self.ids = {}                       # decl id -> (class, name)
        for fl in filters: self.take(clang(path, fl), fl)
        for p, fl in extra: self.take(clang(p, fl), fl)
    def take(self, objs, fl):
        self.local = {}
        for o in objs: self.decl(o, fl.rstrip(":").split("::")[-1] if fl.endswith("::") else None)
    def decl(self, o, cls):
        k = o.get("kind")
        if k in ("CXXRecordDecl", "ClassTemplateDecl") and o.get("name") and any(c.get("kind") not in (None,) for c in o.get("inner", [])):
            if not o.get("completeDefinition"): return
            self.methods.setdefault(o["name"], {})
            self.bases[o["name"]] = [b["type"]["qualType"].split("::")[-1] for b in o.get("bases", [])]
            self.fields = getattr(self, "fields", {}); self.fields[o["name"]] = [c for c in o.get("inner", []) if c.get("kind") == "FieldDecl"]
            for c in o.get("inner", []):
                if c.get("kind") == "VarDecl" and any(x.get("kind") for x in c.get("inner", [])): self.statvars[c["id"]] = (o["name"], c); self.statics_[o["name"], c["name"]] = c
                self.decl(c, o["name"])
        elif k in ("CXXMethodDecl", "CXXConstructorDecl", "FunctionDecl"):
            body = next((c for c in o.get("inner", []) if c.get("kind") == "CompoundStmt"), None)
            if o.get("isImplicit"): return
            pv = self.local.get(o.get("previousDecl"))                # out-of-line definition: class and storage of its declaration
            if pv is not None:
                cls = cls or pv[0]
                if pv[1].get("storageClass"): o.setdefault("storageClass", pv[1]["storageClass"])
            self.local[o["id"]] = (cls, o)
            self.ids[o["id"]] = (cls, o["name"])
            if body is not None: self.methods.setdefault(cls, {}).setdefault("__ctor__" if k == "CXXConstructorDecl" else o["name"], []).append(o)
        elif k == "NamespaceDecl":
            for c in o.get("inner", []): self.decl(c, cls)

class Fn:
    """one function -> Python text"""
    def __init__(self, unit, node, pyname, cls, static):
        self.u, self.node, self.pyname, self.cls, self.static = unit, node, pyname, cls, static
        self.names, self.used, self.k, self.out, self.ind = {}, set(), 0, [], 0
        self.types = {}
    def fresh(self, p="t"): self.k += 1; return f"_{p}{self.k}"
    def var(self, d):
        i = d["id"]
        if i not in self.names:
            n = d.get("name") or self.fresh("anon")
            if n in ("in", "is", "not", "and", "or", "def", "class", "from", "lambda", "pass", "None", "True", "False", "with", "as", "del", "global", "raise", "yield", "assert", "except", "import", "finally", "nonlocal", "elif"): n += "_"
            m = n
            while m in self.used: self.k += 1; m = f"{n}__{self.k}"
            self.used.add(m); self.names[i] = m; self.types[m] = d.get("type", {})
        return self.names[i]
    def emit(self, s): self.out.append("    " * self.ind + s)
    def uns(self, why): raise Unsupported(f"C++ construct not translated: {why} in {self.u.name}:{self.pyname}")
    # ---- expressions
    def kids(self, n): return [c for c in n.get("inner", []) if c.get("kind")]
    def strip(self, n):
        while n["kind"] in SKIP or (n["kind"] in ("ImplicitCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr") and n.get("castKind") in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "ConstructorConversion", "DerivedToBase", "UncheckedDerivedToBase")): n = self.kids(n)[0]
        return n
    def x(self, n):
        k = n["kind"]
        if k in SKIP: return self.x(self.kids(n)[0])
        f = getattr(self, "x_" + k, None)
        if f is None: self.uns(f"{k} <{ty(n)}>")
        return f(n)
    def x_IntegerLiteral(self, n): return n["value"]
    def x_CXXBoolLiteralExpr(self, n): return "True" if n["value"] else "False"
    def x_FloatingLiteral(self, n): return repr(float(n["value"]))
    def x_StringLiteral(self, n): return repr(json.loads(n["value"]) if n["value"].startswith('"') else n["value"])
    def x_CXXNullPtrLiteralExpr(self, n): return "None"
    def x_CXXThisExpr(self, n): return "this"
    def x_CharacterLiteral(self, n): return repr(chr(n["value"]))
    def x_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl": return f"_cx.enum({ty(n).split('::')[-1]!r}, {d['name']!r})"
        if d["kind"] in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            if d["id"] in self.names: return self.names[d["id"]]
            if d["id"] in self.u.statvars: return f"_cx.svar({self.u.statvars[d['id']][0]!r}, {d['name']!r})"
            return f"_cx.glob({d['name']!r})"
        return f"_cx.fn({d['name']!r})"
    def cast(self, n):
        ck = n.get("castKind"); c = self.kids(n)[0]; v = lambda: self.x(c)
        if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "ConstructorConversion", "DerivedToBase", "UncheckedDerivedToBase", "BuiltinFnToFnPtr"): return v()
        if ck == "IntegralCast":
            if is_boolt(c): return f"_cx.b2i({v()})"
            if is_uns(n) and not is_uns(c) and self.strip(c)["kind"] not in ("IntegerLiteral",): return f"_cx.s2u({v()})"
            return v()
        if ck == "UserDefinedConversion": return v()
        if ck == "IntegralToBoolean": return f"_cx.i2b({v()})"
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"): return f"_cx.p2b({v()})"
        if ck == "NullToPointer": return "None"
        if ck == "IntegralToFloating": return f"_cx.i2f({v()})"
        if ck == "ToVoid": return v()
        self.uns(f"cast {ck}")
    def x_CXXDynamicCastExpr(self, n): return f"_cx.dyn({dty(n)!r}, {self.x(self.kids(n)[0])})"
    x_ImplicitCastExpr = x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CStyleCastExpr = cast
    def x_BinaryOperator(self, n):
        op = n["opcode"]; a, b = self.kids(n)
        if op == "&&": return f"_cx.and_({self.x(a)}, lambda: {self.x(b)})"
        if op == "||": return f"_cx.or_({self.x(a)}, lambda: {self.x(b)})"
        if op in ("==", "!="): return f"_cx.{'eq' if op == '==' else 'ne'}({self.x(a)}, {self.x(b)})"
        if op in ("<", "<=", ">", ">=", "+", "*"): return f"({self.x(a)} {op} {self.x(b)})"
        if op == "-": return f"_cx.sub({self.x(a)}, {self.x(b)})" if is_uns(n) else f"({self.x(a)} - {self.x(b)})"
        if op == "/": return f"_cx.div({self.x(a)}, {self.x(b)})"
        if op == "%": return f"_cx.mod({self.x(a)}, {self.x(b)})"
        if op == "^": return f"_cx.xor({self.x(a)}, {self.x(b)})"
        if op == "&": return f"_cx.band({self.x(a)}, {self.x(b)})"
        if op == "|": return f"_cx.bor({self.x(a)}, {self.x(b)})"
        if op == "<<": return f"_cx.shl({self.x(a)}, {self.x(b)})"
        if op == ">>": return f"_cx.shr({self.x(a)}, {self.x(b)})"
        self.uns("operator " + op + " used as a value")
    def x_UnaryOperator(self, n):
        op = n["opcode"]; c = self.kids(n)[0]
        if op == "!": return f"_cx.not_({self.x(c)})"
        if op == "-": return f"(-{self.x(c)})"
        if op == "+": return self.x(c)
        if op == "*": return f"_cx.deref({self.x(c)})"
        if op == "&": return self.x(c)
        if op in ("++", "--"):
            v = self.local(c); return self.step(v, f"({v} + 1)" if op == "++" else (f"_cx.sub({v}, 1)" if is_uns(n) else f"({v} - 1)"), n.get("isPostfix"))
        self.uns("operator " + op + " used as a value")
    def local(self, c):
        """a local variable that is changed inside an expression"""
        c = self.strip(c)
        if c["kind"] != "DeclRefExpr" or getattr(self, "lam", 0): self.uns("increment used as a value")
        return self.x(c)
    def step(self, v, nxt, post):
        if not post: return f"({v} := {nxt})"
        t = self.fresh("old"); return f"(({t} := {v}), ({v} := {nxt}))[0]"
    def x_ConditionalOperator(self, n):
        a, b, c = self.kids(n); return f"({self.x(b)} if {self.x(a)} else {self.x(c)})"
    def x_MemberExpr(self, n):
        c = self.kids(n)
        o = self.x(c[0]) if c else "this"
        if n.get("isArrow") and o != "this": o = f"_cx.deref({o})"
        return f"{o}.{n['name']}"
    def args(self, xs): return ", ".join(self.x(a) for a in xs if a["kind"] != "CXXDefaultArgExpr")
    def x_CXXMemberCallExpr(self, n):
        f, *a = self.kids(n); f = self.strip(f)
        if f["kind"] != "MemberExpr": self.uns("call through " + f["kind"])
        c = self.kids(f); o = self.x(c[0]) if c else "this"
        if f.get("isArrow") and o != "this": o = f"_cx.deref({o})"
        nm = f["name"]
        if nm.startswith("operator "):
            if nm == "operator bool": return f"_cx.truth({o})"
            return f"_cx.conv({o}, {nm[9:]!r})"
        # Base::method() on this: not a virtual call
        if o == "this" and c and c[0]["kind"] == "ImplicitCastExpr" and c[0].get("castKind") in ("UncheckedDerivedToBase", "DerivedToBase") and nm in self.u.methods.get(self.cls, {}):
            b = dty(c[0]).replace("const ", "").replace("*", "").strip().split("::")[-1]
            return f"_cx.basem(this, {b!r}, {nm!r}{', ' if a else ''}{self.args(a)})"
        return f"_cx.m({o}, {nm!r}{', ' if a else ''}{self.args(a)})"
    def x_CallExpr(self, n):
        f, *a = self.kids(n); f = self.strip(f)
        while f["kind"] == "ImplicitCastExpr" and f.get("castKind") in ("BuiltinFnToFnPtr", "FunctionToPointerDecay"): f = self.strip(self.kids(f)[0])
        if f["kind"] == "DeclRefExpr":
            d = f["referencedDecl"]
            own = self.u.ids.get(d["id"])
            if own is not None: return f"_cx.own({own[0]!r}, {own[1]!r}, {len([1 for y in a])})({self.args(a)})"
            if d["kind"] == "CXXMethodDecl" or d["kind"] == "FunctionDecl":
                nm = d["name"]
                if nm == "swap": return self.swap(a)
                if nm in ("make_unique", "make_shared"): return f"_cx.make({dty(n)!r}{', ' if a else ''}{self.args(a)})"
                return f"_cx.std({nm!r})({self.args(a)})"
        self.uns("call of " + f["kind"])
    def swap(self, a):
        l, r = self.place(a[0]), self.place(a[1])
        return f"_cx.swap({l}, {r})"
    def place(self, n):
        """an lvalue as (container, index) pair"""
        n = self.strip(n)
        if n["kind"] == "CXXOperatorCallExpr" and self.strip(self.kids(n)[0])["referencedDecl"]["name"] == "operator[]":
            _, o, i = self.kids(n); return f"({self.x(o)}, {self.x(i)}, False)"
        if n["kind"] == "CXXMemberCallExpr" and self.strip(self.kids(n)[0]).get("name") == "at":
            f, i = self.kids(n); f = self.strip(f); o = self.x(self.kids(f)[0])
            if f.get("isArrow"): o = f"_cx.deref({o})"
            return f"({o}, {self.x(i)}, True)"
        self.uns("reference to " + n["kind"])
    def x_CXXOperatorCallExpr(self, n):
        f, *a = self.kids(n); op = self.strip(f)["referencedDecl"]["name"][8:]
        if op == "[]": return f"_cx.idx({self.x(a[0])}, {self.x(a[1])})"
        if op == "()": return f"{self.x(a[0])}({self.args(a[1:])})"
        if op == "*" and len(a) == 1: return f"_cx.deref({self.x(a[0])})"
        if op == "->": return self.x(a[0])
        if op in ("==", "!="): return f"_cx.{'eq' if op == '==' else 'ne'}({self.x(a[0])}, {self.x(a[1])})"
        if op in ("+", "-", "<", "<=", ">", ">="): return f"({self.x(a[0])} {op} {self.x(a[1])})"
        if op == "<<": return f"_cx.stream({self.x(a[0])}, {self.x(a[1])})"
        if op == "=": return f"_cx.opassign({self.x(a[0])}, {self.x(a[1])})"
        if op in ("++", "--"): v = self.local(a[0]); return self.step(v, f"_cx.it{'next' if op == '++' else 'prev'}({v})", len(a) == 2)
        self.uns("operator" + op)
    def x_CXXConstructExpr(self, n):
        a = [y for y in self.kids(n) if y["kind"] != "CXXDefaultArgExpr"]; t = dty(n).replace("const ", "")
        if len(a) == 1 and n.get("elidable"): return self.x(a[0])
        src = dty(self.strip(a[0])).replace("const ", "") if a else ""
        ct = n.get("ctorType", {}).get("qualType", "")
        if len(a) == 1 and (re.search(r"void \((const )?.*&&?\)", ct)) and (src.split("<")[0].split("::")[-1] == t.split("<")[0].split("::")[-1]): return f"_cx.cp({self.x(a[0])})"
        return f"_cx.new({t!r}{', ' if a else ''}{self.args(a)})"
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr
    def x_CXXScalarValueInitExpr(self, n): return "False" if is_boolt(n) else "0"
    def x_ImplicitValueInitExpr(self, n): return "False" if is_boolt(n) else f"_cx.new({dty(n)!r})" if ("vector" in dty(n) or "map" in dty(n)) else "0"
    def x_InitListExpr(self, n):
        t = dty(n).replace("const ", "")
        ks = self.kids(n)
        if not ks and n.get("array_filler"): ks = [c for c in n["array_filler"] if c.get("kind")][1:]     # (filler, explicit elements)
        return f"_cx.init({t!r}, [{self.args(ks)}])"
    def x_CXXDefaultInitExpr(self, n): return "_cx.dflt()"
    def x_CXXConstCastExpr(self, n): return self.x(self.kids(n)[0])
    def x_UserDefinedLiteral(self, n):
        f, *a = self.kids(n); return f"_cx.std({self.strip(f)['referencedDecl']['name']!r})({self.x(a[0])})"
    def x_LambdaExpr(self, n):
        rec = self.kids(n)[0]; cs = [c for c in self.kids(rec) if c["kind"] == "CXXMethodDecl" and c["name"] == "operator()"]
        # a generic lambda: its (last) instantiation
        cs += [m for t in self.kids(rec) if t["kind"] == "FunctionTemplateDecl" and t.get("name") == "operator()" for m in self.kids(t)[::-1] if m["kind"] == "CXXMethodDecl" and any(b["kind"] == "CompoundStmt" for b in self.kids(m))]
        if not cs: self.uns("lambda without a body")
        call = cs[0]
        ps = [c for c in self.kids(call) if c["kind"] == "ParmVarDecl"]; body = next((c for c in self.kids(call) if c["kind"] == "CompoundStmt"), None) or self.kids(n)[-1]
        # captures refer to the enclosing function's variables
        names = [self.var(p) for p in ps]; st = self.kids(body); self.lam = getattr(self, "lam", 0) + 1
        try: return self.lambda_(names, st, body)
        finally: self.lam -= 1
    def lambda_(self, names, st, body):
        if len(st) == 1 and st[0]["kind"] == "ReturnStmt": return f"(lambda {', '.join(names)}: {self.x(self.kids(st[0])[0])})"
        nm = self.fresh("lam"); self.emit(f"def {nm}({', '.join(names)}):"); self.ind += 1; self.body(body); self.ind -= 1
        return nm
    # ---- statements
    def body(self, n):
        k = len(self.out)
        for s in (self.kids(n) if n["kind"] == "CompoundStmt" else [n]): self.s(s)
        if len(self.out) == k: self.emit("pass")
    def s(self, n):
        k = n["kind"]
        while k in SKIP: n = self.kids(n)[0]; k = n["kind"]
        f = getattr(self, "s_" + k, None)
        if f: return f(n)
        self.emit(self.x(n))
    def s_NullStmt(self, n): pass
    def s_CompoundStmt(self, n): self.body(n)
    def s_AttributedStmt(self, n): self.s(self.kids(n)[-1])
    def s_DeclStmt(self, n):
        for d in self.kids(n):
            if d["kind"] in ("StaticAssertDecl", "TypeAliasDecl", "UsingDecl", "TypedefDecl", "UsingDirectiveDecl"): continue
            if d["kind"] == "DecompositionDecl":
                bs = [c for c in d.get("inner", []) if c.get("kind") == "BindingDecl"]; init = next(c for c in self.kids(d) if c["kind"] != "BindingDecl")
                t = self.fresh("dec"); self.emit(f"{t} = {self.x(init)}")
                for i, b in enumerate(bs): self.emit(f"{self.var(b)} = _cx.part({t}, {i})")
                continue
            if d["kind"] != "VarDecl": self.uns(d["kind"])
            c = self.kids(d); 
            if d.get("storageClass") == "static" and not ty(d).startswith("const"): self.uns("static local variable")
            v = self.x(c[0]) if c else ("_cx.uninit()" if not any(w in dty(d) for w in ("vector", "map", "string", "queue", "set")) else f"_cx.new({dty(d)!r})")
            t = ty(d)
            if t.endswith("&") and not t.startswith("const") and not t.endswith("*const &") and c and self.scalar(t) and self.strip(c[0])["kind"] in ("DeclRefExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "MemberExpr"):
                if not self.is_class(d): self.uns(f"reference to a scalar ({t})")
            self.emit(f"{self.var(d)} = {v}")
    def scalar(self, t): return not any(w in t for w in ("vector", "map", "gf2", "Matrix", "set", "queue", "auto", "unique_ptr", "shared_ptr", "string", "Mat", "value_type"))
    def is_class(self, d): return "::" in dty(d) or dty(d).replace("const ", "").replace("&", "").strip() in self.u.methods
    def s_ReturnStmt(self, n):
        c = self.kids(n); self.emit("return " + (self.x(c[0]) if c else "None"))
    def s_IfStmt(self, n):
        c = self.kids(n); i = 0
        if n.get("hasInit"): self.s(c[0]); i = 1
        if n.get("hasVar"): self.s(c[i]); i += 1
        self.emit(f"if _cx.test({self.x(c[i])}):"); self.ind += 1; self.body(c[i + 1]); self.ind -= 1
        if n.get("hasElse"): self.emit("else:"); self.ind += 1; self.body(c[i + 2]); self.ind -= 1
    def s_CXXThrowExpr(self, n):
        c = self.kids(n)
        if not c: self.emit("raise"); return
        e = self.strip(c[0]); a = [y for y in self.kids(e) if y["kind"] != "CXXDefaultArgExpr"]
        if len(a) == 1 and self.strip(a[0])["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and ty(self.strip(a[0])) == ty(e): e = self.strip(a[0]); a = [y for y in self.kids(e) if y["kind"] != "CXXDefaultArgExpr"]
        self.emit(f"raise _cx.exc({dty(e).replace('const ', '').split('::')[-1]!r}, {self.args(a)})")
    def assign(self, l, v):
        l = self.strip(l)
        if l["kind"] == "DeclRefExpr":
            nm = self.x(l); t = ty(l); d = self.types.get(nm, {}).get("qualType", "")
            if d.endswith("&"): self.emit(f"_cx.assign({nm}, {v})")
            else: self.emit(f"{nm} = {v}")
        elif l["kind"] == "MemberExpr": self.emit(f"{self.x(l)} = {v}")
        elif l["kind"] == "UnaryOperator" and l["opcode"] == "*": self.emit(f"_cx.assign(_cx.deref({self.x(self.kids(l)[0])}), {v})")
        elif l["kind"] == "CXXOperatorCallExpr" and self.strip(self.kids(l)[0])["referencedDecl"]["name"] == "operator*": self.emit(f"_cx.assign(_cx.deref({self.x(self.kids(l)[1])}), {v})")
        else:
            t = self.fresh("v"); self.emit(f"{t} = {v}")         # evaluated before the place (C++17)
            p = self.fresh("p"); self.emit(f"{p} = {self.place(l)}"); self.emit(f"_cx.store({p}, {t})")
    def s_BinaryOperator(self, n):
        if n["opcode"] == "=": a, b = self.kids(n); self.assign(a, self.x(b)); return
        if n["opcode"] == ",":
            for c in self.kids(n): self.s(c)
            return
        self.emit(self.x(n))
    def s_CompoundAssignOperator(self, n):
        a, b = self.kids(n); op = n["opcode"][:-1]; l = self.strip(a)
        fake = lambda cur: {"+": f"({cur} + {self.x(b)})", "-": f"_cx.sub({cur}, {self.x(b)})" if is_uns(n) else f"({cur} - {self.x(b)})", "*": f"({cur} * {self.x(b)})", "^": f"_cx.xor({cur}, {self.x(b)})", "|": f"_cx.bor({cur}, {self.x(b)})", "&": f"_cx.band({cur}, {self.x(b)})", "/": f"_cx.div({cur}, {self.x(b)})", "%": f"_cx.mod({cur}, {self.x(b)})"}[op]
        self.assign(a, fake(self.x(a)))
    def s_UnaryOperator(self, n):
        if n["opcode"] in ("++", "--"):
            c = self.kids(n)[0]; v = self.x(c)
            self.assign(c, f"({v} + 1)" if n["opcode"] == "++" else (f"_cx.sub({v}, 1)" if is_uns(n) else f"({v} - 1)")); return
        self.emit(self.x(n))
    def s_CXXOperatorCallExpr(self, n):
        f, *a = self.kids(n); op = self.strip(f)["referencedDecl"]["name"][8:]
        if op == "=": self.assign(a[0], f"_cx.cp({self.x(a[1])})" if self.strip(a[1])["kind"] in ("DeclRefExpr", "MemberExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UnaryOperator") and not is_boolt(a[1]) else self.x(a[1])); return
        if op in ("++", "--"): self.assign(a[0], f"_cx.it{'next' if op == '++' else 'prev'}({self.x(a[0])})"); return
        if op in ("+=", "-="): self.assign(a[0], f"({self.x(a[0])} {op[0]} {self.x(a[1])})"); return
        self.emit(self.x(n))
    def s_BreakStmt(self, n): self.emit("break")
    def s_ContinueStmt(self, n):
        if self.inc: 
            for e in self.inc[-1]: self.s(e)
        self.emit("continue")
    inc = ()
    def loop(self, n, inc): self.inc = [*self.inc, inc]; self.ind += 1; self.body(n); self.ind -= 1; self.inc = self.inc[:-1]
    def s_WhileStmt(self, n):
        c = self.kids(n)
        if n.get("hasVar"): self.uns("while with a declaration")
        self.emit(f"while _cx.test({self.x(c[0])}):"); self.loop(c[1], [])
    def s_DoStmt(self, n):
        b, c = self.kids(n); self.emit("while True:"); self.inc = [*self.inc, []]; self.ind += 1; self.body(b); self.emit(f"if not _cx.test({self.x(c)}):"); self.ind += 1; self.emit("break"); self.ind -= 2; self.inc = self.inc[:-1]
    def s_ForStmt(self, n):
        init, _, cond, inc, body = n["inner"]
        v = None
        if init.get("kind") == "DeclStmt" and len(self.kids(init)) == 1 and cond.get("kind") and inc.get("kind") == "UnaryOperator" and inc["opcode"] in ("++", "--"):
            d = self.kids(init)[0]; i = self.strip(self.kids(inc)[0])
            cn = self.strip(cond)
            if i["kind"] == "DeclRefExpr" and i["referencedDecl"]["id"] == d["id"] and self.kids(d) and cn["kind"] == "BinaryOperator" and not self.writes(body, d["id"]):
                l, r = self.kids(cn); op = cn["opcode"]
                def isvar(e):
                    e = self.strip(e)
                    while e["kind"] == "ImplicitCastExpr" and e.get("castKind") == "IntegralCast": e = self.strip(self.kids(e)[0])
                    return e["kind"] == "DeclRefExpr" and e["referencedDecl"]["id"] == d["id"]
                if isvar(r): l, r, op = r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}.get(op)
                up = inc["opcode"] == "++"
                if isvar(l) and ((up and op in ("<", "<=", "!=")) or (not up and op in (">=", ">") and not (is_uns(d)))): v = d
        if v is not None:
            a = self.x(self.kids(v)[0]); b0 = self.fresh("b"); bt = self.x(r); nm = self.var(v)
            self.emit(f"{b0} = {bt}"); s0 = self.fresh("a"); self.emit(f"{s0} = {a}")
            if up: rg = f"range({s0}, {b0})" if op == "<" else f"range({s0}, {b0} + 1)" if op == "<=" else f"range({s0}, _cx.upto({s0}, {b0}))"
            else: rg = f"range({s0}, {b0} - 1, -1)" if op == ">=" else f"range({s0}, {b0}, -1)"
            self.emit(f"for {nm} in {rg}:"); self.ind += 1; self.inc = [*self.inc, []]
            if bt != b0 and not bt.isdigit(): self.emit(f"_cx.still({b0}, {bt})")
            self.body(body); self.inc = self.inc[:-1]; self.ind -= 1
            return
        if init.get("kind"): self.s(init)
        self.emit(f"while _cx.test({self.x(cond)}):" if cond.get("kind") else "while True:")
        self.loop(body, [inc] if inc.get("kind") else [])
        if inc.get("kind"): self.ind += 1; self.s(inc); self.ind -= 1
    def writes(self, n, vid):
        k = n.get("kind")
        if (k == "UnaryOperator" and n.get("opcode") in ("++", "--", "&")) or (k in ("BinaryOperator", "CompoundAssignOperator") and n.get("opcode", "").endswith("=") and n["opcode"] not in ("==", "!=", "<=", ">=")):
            l = self.strip(self.kids(n)[0])
            if l["kind"] == "DeclRefExpr" and l["referencedDecl"]["id"] == vid: return True
        return any(self.writes(c, vid) for c in n.get("inner", []) if isinstance(c, dict))
    def s_CXXForRangeStmt(self, n):
        c = n["inner"]; rng = self.kids(c[1])[0]; lv = self.kids(c[6])[0]; body = c[7]
        it = self.x(self.kids(rng)[0])
        nm = self.var(lv) if lv["kind"] != "DecompositionDecl" else self.fresh("el")
        t = ty(lv)
        ini = self.kids(lv)
        copies = ini and lv["kind"] == "VarDecl" and self.has_copy(ini[0])
        self.emit(f"for {nm} in _cx.elems({it}, {t.endswith('&') and not t.startswith('const')}):"); self.ind += 1; self.inc = [*self.inc, []]
        if copies: self.emit(f"{nm} = _cx.cp({nm})")
        if lv["kind"] == "DecompositionDecl":
            for i, b in enumerate(x for x in lv.get("inner", []) if x.get("kind") == "BindingDecl"): self.emit(f"{self.var(b)} = _cx.part({nm}, {i})")
        self.body(body); self.inc = self.inc[:-1]; self.ind -= 1
    def has_copy(self, n): return n["kind"] == "CXXConstructExpr" or (n["kind"] in SKIP and self.has_copy(self.kids(n)[0]))
    def s_CXXTryStmt(self, n):
        b, *hs = self.kids(n); self.emit("try:"); self.ind += 1; self.body(b); self.ind -= 1
        for h in hs:
            c = self.kids(h); d = c[0] if c and c[0]["kind"] == "VarDecl" else None
            self.emit(f"except _cx.caught({ty(d).replace('const ', '').replace('&', '').strip() if d else ''!r})" + (f" as {self.var(d)}:" if d else ":")); self.ind += 1; self.body(c[-1]); self.ind -= 1
    def s_SwitchStmt(self, n):
        c = self.kids(n); i = 0
        if n.get("hasInit"): self.s(c[0]); i = 1
        t = self.fresh("sw"); self.emit(f"{t} = {self.x(c[i])}")
        groups, cur = [], None                     # (labels, statements)
        for st in self.kids(c[i + 1]):
            labels = []; s = st
            while s["kind"] in ("CaseStmt", "DefaultStmt"):
                ks = self.kids(s); labels.append(None if s["kind"] == "DefaultStmt" else ks[0]); s = ks[-1]
            if labels:
                cur = (labels, [s]); groups.append(cur)
            elif cur is None: self.uns("statement before the first case")
            else: cur[1].append(st)
        def leaves(ss): return bool(ss) and (ss[-1]["kind"] in ("BreakStmt", "ReturnStmt", "CXXThrowExpr") or (ss[-1]["kind"] in SKIP and self.strip(ss[-1])["kind"] == "CXXThrowExpr") or (ss[-1]["kind"] == "CompoundStmt" and leaves(self.kids(ss[-1]))))
        dflt = None; first = True
        for gi, (labels, ss) in enumerate(groups):
            run, j = list(ss), gi
            while not leaves(run) and j + 1 < len(groups): j += 1; run += groups[j][1]
            if None in labels: dflt = run
            tests = [f"_cx.eq({t}, {self.x(l)})" for l in labels if l is not None]
            if tests and None not in labels:
                self.emit(f"{'if' if first else 'elif'} {' or '.join(tests)}:"); first = False; self.ind += 1; self.case(run); self.ind -= 1
        if dflt is not None:
            if first: self.case(dflt)
            else: self.emit("else:"); self.ind += 1; self.case(dflt); self.ind -= 1
    def case(self, ss):
        k = len(self.out)
        for s in ss:
            if s["kind"] == "BreakStmt": break
            if s["kind"] == "CompoundStmt":
                sub = self.kids(s); stop = bool(sub) and sub[-1]["kind"] == "BreakStmt"
                for y in (sub[:-1] if stop else sub): self.s(y)
                if stop: break
            else: self.s(s)
        if len(self.out) == k: self.emit("pass")
    # ---- whole function
    def run(self):
        n = self.node; ps = [c for c in n["inner"] if c.get("kind") == "ParmVarDecl"]
        names = [self.var(p) for p in ps]
        self.emit(f"def {self.pyname}({', '.join(([] if self.static else ['this']) + names)}):"); self.ind += 1
        if n["kind"] == "CXXConstructorDecl":
            for i in [c for c in n["inner"] if c.get("kind") == "CXXCtorInitializer"]:
                f = i.get("anyInit"); e = self.kids(i)
                if f: self.emit(f"this.{f['name']} = {self.member(f, e)}")
                elif e and i.get("delegatingInit"): self.emit(f"_cx.ctor(this, {self.cls!r}, [{self.args(self.kids(self.strip(e[0])))}])")
                elif e: self.emit(f"_cx.base(this, {i.get('baseInit', {}).get('qualType', '').split('::')[-1]!r}, [{self.args(self.kids(self.strip(e[0])))}])")
        self.body(next(c for c in n["inner"] if c.get("kind") == "CompoundStmt"))
        self.ind -= 1
        return "\n".join(self.out) + "\n"
    def member(self, f, e):
        if not e or e[0]["kind"] == "CXXDefaultInitExpr":
            fd = next((x for x in self.u.fields.get(self.cls, []) if x["id"] == f["id"] or x["name"] == f["name"]), None)
            c = self.kids(fd) if fd else []
            if c: return self.x(c[0])
            return f"_cx.new({f['type']['qualType']!r})"
        return self.x(e[0])

class CxRT:
    """run-time support of transliterated code"""
    def __init__(self, unit, hooks=None): self.u, self.hooks, self.env, self.pure = unit, hooks or {}, {}, 0
    # -- values
    def enum(self, t, n): return self.hooks.get("enum", lambda t, n: Enum(t, n))(t, n)
    def glob(self, n):
        if n in self.hooks: return self.hooks[n]
        raise Unsupported(f"global {n}")
    def svar(self, cls, n):
        """value of a static constexpr data member: its initialiser"""
        key = (cls, n); c = self.__dict__.setdefault("svals", {})
        if key not in c:
            nd = self.u.statics_[key]; f = Fn(self.u, nd, n, cls, True); src = f.x([x for x in nd["inner"] if x.get("kind")][0])
            self.u.texts[f"{cls}::{n}"] = src; c[key] = eval(src, {"_cx": self})
        return self.cp(c[key])
    def basem(self, this, cls, name, *a):
        f = self.hooks.get((cls, name))
        return f(this, *a) if f is not None else getattr(self.env[cls].cls, name)(this, *a)
    def fn(self, n): return self.std(n)
    def opassign(self, o, v):
        """assignment used as a value"""
        if hasattr(o, "vc_opassign"): return o.vc_opassign(v)
        raise Unsupported("assignment used as a value")
    def conv(self, o, t):
        """conversion operator of a class that is not translated"""
        if hasattr(o, "vc_conv"): return o.vc_conv(t)
        raise Unsupported("conversion operator " + t)
    def b2i(self, x):
        if isinstance(x, V): return mk(z3.If(to_bool(x.t), z3.IntVal(1), z3.IntVal(0)))
        return int(x)
    def i2b(self, x):
        if isinstance(x, V):
            t = simp(x.t)
            if t.sort() == B: return mk(t)
            return mk(simp(t != 0))
        return bool(x)
    def p2b(self, x): return self.ne(x, None)
    def truth(self, x):
        if isinstance(x, (V, bool, int)): return self.i2b(x)
        return self.ne(x, None)
    def i2f(self, x): return mk(to_real(lift(x))) if isinstance(x, V) else float(x)
    def s2u(self, x):
        self.oblige("conversion to unsigned of a non-negative value", lift(x) >= 0); return x
    def test(self, x): return bool(x) if not isinstance(x, (int, V)) else bool(self.i2b(x))
    def oblige(self, name, g):
        if isinstance(g, bool): g = z3.BoolVal(g)
        E.oblige(f"{self.u.name}: {name}", to_bool(g))
    def eq(self, a, b):
        if a is None or b is None:
            if a is b: return True
            o = a if b is None else b
            return o.vc_null() if hasattr(o, "vc_null") else False
        if isinstance(a, Enum) or isinstance(b, Enum): return a == b
        if hasattr(a, "vc_eq"): return a.vc_eq(b)
        if isinstance(a, V) or isinstance(b, V):
            x, y = lift(a), lift(b)
            if x.sort() == B or y.sort() == B: return mk(simp(to_bool(x) == to_bool(y)))
            if (x.sort() == I) and (r := boolish(x, y)) is not None: return mk(r)
            return mk(simp(x == y))
        return a == b
    def ne(self, a, b): return self.not_(self.eq(a, b))
    def not_(self, x):
        if isinstance(x, V): return mk(simp(z3.Not(to_bool(self.i2b(x).t))))
        return not x
    def lazy(self, a, f, isand):
        a = self.i2b(a) if isinstance(a, (V, int)) else bool(a)
        if not isinstance(a, V): return (self.i2b(f()) if isand else True) if a else (False if isand else self.i2b(f()))
        t = to_bool(a.t); g = t if isand else z3.Not(t)
        if E.entails(t): return self.i2b(f()) if isand else True
        if E.entails(z3.Not(t)): return False if isand else self.i2b(f())
        b = self.guarded(g, f)
        if b is not None:
            b = self.i2b(b)
            b = to_bool(lift(b)); return mk(simp(z3.And(t, b) if isand else z3.Or(t, b)))
        return (bool(a) and self.i2b(f())) if isand else (bool(a) or self.i2b(f()))
    def guarded(self, g, f):
        """value of a pure expression evaluated under a guard; None if it needs a case distinction"""
        if E.ctxs is None: return None
        from . import core
        x = core.Ctx([]); E.ctxs.append(x); self.pure += 1; n = len(E.obls); r = None; facts = []
        try:
            E.assume(g); k = len(x.pc); r = f(); facts = x.pc[k:]
            if x.taken or x.journal or not isinstance(r, (V, bool, int)): r = None
        except NeedFork: r = None
        finally: self.pure -= 1; E.ctxs.pop()
        if r is None: del E.obls[n:]
        else:
            for t in facts: E.assume(z3.Implies(g, t))
        return r
    def and_(self, a, f): return self.lazy(a, f, True)
    def or_(self, a, f): return self.lazy(a, f, False)
    def sub(self, a, b):
        if isinstance(a, V) or isinstance(b, V): self.oblige("unsigned subtraction does not wrap", lift(a) >= lift(b))
        elif a < b: raise UB("unsigned subtraction wraps")
        return a - b
    def div(self, a, b): self.oblige("division of non-negative values", z3.And(lift(a) >= 0, lift(b) > 0)); return a // b
    def mod(self, a, b): self.oblige("remainder of non-negative values", z3.And(lift(a) >= 0, lift(b) > 0)); return a % b
    def xor(self, a, b):
        if isinstance(a, V) or isinstance(b, V):
            x, y = asbool(lift(a)), asbool(lift(b))
            if x is None or y is None:
                for z in (a, b): self.oblige("exclusive or of bits", z3.And(lift(z) >= 0, lift(z) <= 1))
                x, y = (simp(lift(z) == 1) if q is None else q for z, q in ((a, x), (b, y)))
            return mk(z3.If(simp(z3.Xor(x, y)), z3.IntVal(1), z3.IntVal(0)))
        return a ^ b
    def band(self, a, b):
        x, y = asbool(lift(a)), asbool(lift(b))
        if x is None or y is None:
            if not isinstance(a, V) and not isinstance(b, V): return a & b
            raise Unsupported("bitwise and")
        return mk(z3.If(simp(z3.And(x, y)), z3.IntVal(1), z3.IntVal(0)))
    def bor(self, a, b):
        if not isinstance(a, V) and not isinstance(b, V): return a | b
        x, y = asbool(lift(a)), asbool(lift(b))
        if x is None or y is None: raise Unsupported("bitwise or")
        return mk(z3.If(simp(z3.Or(x, y)), z3.IntVal(1), z3.IntVal(0)))
    def shl(self, a, b):
        if isinstance(a, (V, int)) and not isinstance(b, V): return a * (1 << b)
        if hasattr(a, "vc_stream"): return a.vc_stream(b)
        raise Unsupported("shift")
    def shr(self, a, b):
        if isinstance(a, V) or isinstance(b, V): raise Unsupported("shift")
        return a >> b
    def stream(self, a, b): return a.vc_stream(b) if hasattr(a, "vc_stream") else a
    def uninit(self): return loops.Poison("uninitialised variable")
    def still(self, a, b):
        if a is b or (not isinstance(a, V) and not isinstance(b, V) and a == b): return
        self.oblige("loop bound does not change", lift(a) == lift(b))
    def upto(self, a, b): self.oblige("loop counter reaches its bound", lift(a) <= lift(b)); return b
    # -- containers
    def cp(self, x):
        if isinstance(x, SArr): return x.copy()
        if isinstance(x, PList): return seqs.PList(list(x.segs)) if not hasattr(x, "vc_cp") else x.vc_cp()
        if hasattr(x, "vc_cp"): return x.vc_cp()
        return x
    def size(self, x):
        if hasattr(x, "vc_size"): return x.vc_size()
        if isinstance(x, SArr): return mk(lift(x._shape[0])) if z3.is_expr(lift(x._shape[0])) else x._shape[0]
        return loops.b_len(x)
    def inb(self, x, i):
        n = self.size(x); return z3.And(lift(i) >= 0, lift(i) < lift(n))
    def at(self, x, i):
        g = self.inb(x, i)
        if not E.entails(g):
            if self.pure: raise NeedFork()
            if not bool(mk(g)): raise self.exc("out_of_range", "at")
        return self.get(x, i)
    def idx(self, x, i):
        if hasattr(x, "vc_map"): return x.vc_index(i)
        if x.__class__.__name__ in self.u.methods and hasattr(x, "operator_index"): return x.operator_index(i)
        g = self.inb(x, i)
        if not E.entails(g): self.oblige("index within the vector (operator[])", g); E.assume(g)
        return self.get(x, i)
    def get(self, x, i):
        r = x[i] if not hasattr(x, "vc_get") else x.vc_get(i)
        return r
    def store(self, p, v):
        o, i, chk = p
        if hasattr(o, "vc_map"): return o.vc_put(i, v)
        g = self.inb(o, i)
        if not E.entails(g):
            if chk:
                if not bool(mk(g)): raise self.exc("out_of_range", "at")
            else: self.oblige("index within the vector (operator[])", g); E.assume(g)
        if isinstance(o, SArr):
            if o.kind == "b": v = self.i2b(v)
            o[i] = v
        elif hasattr(o, "vc_set"): o.vc_set(i, v)
        else: o[i] = v
    def swap(self, p, q):
        a = self.place_get(p); b = self.place_get(q)
        self.store(p, b); self.store(q, a)
    def place_get(self, p): return self.cp((self.at if p[2] else self.idx)(p[0], p[1]))
    def assign(self, o, v):
        if isinstance(o, PList) and isinstance(v, PList): E.touch(o); o.segs = list(v.segs); return
        if hasattr(o, "vc_assign"): return o.vc_assign(v)
        raise Unsupported("assignment through a reference")
    def elems(self, x, mutable):
        if hasattr(x, "vc_elems"): return x.vc_elems(mutable)
        if isinstance(x, SArr):
            if mutable and len(x._shape) == 1: raise Unsupported("iteration by mutable reference over scalars")
            n = self.size(x); return Seq(lift(n), lambda i: self.get(x, mk(i) if z3.is_expr(i) else i))
        return x
    def dyn(self, t, x):
        if hasattr(x, "vc_dyn"): return x.vc_dyn(t)
        raise Unsupported("dynamic cast to " + t)
    def part(self, x, i): return x[i] if not hasattr(x, "vc_part") else x.vc_part(i)
    def deref(self, x):
        if x is None: raise UB("null pointer dereferenced")
        if hasattr(x, "vc_null"):
            nl = x.vc_null()
            g = z3.Not(to_bool(lift(nl))) if not isinstance(nl, bool) else z3.BoolVal(not nl)
            if not E.entails(g): self.oblige("pointer is not null", g); E.assume(g)
        return x.vc_deref() if hasattr(x, "vc_deref") else x
    def itnext(self, x): return x + 1
    def m(self, o, name, *a):
        h = self.hooks.get("method")
        if h is not None:
            r = h(self, o, name, a)
            if r is not NotImplemented: return r
        if hasattr(o, "vc_m"): 
            r = o.vc_m(name, *a)
            if r is not NotImplemented: return r
        if isinstance(o, (SArr, PList)): return getattr(self, "v_" + name, self.nov(name))(o, *a)
        ms = self.u.methods.get(type(o).__name__)
        if ms is not None and name in ms or hasattr(type(o), name) : return self.call_method(o, name, a)
        f = getattr(o, name, None)
        if callable(f): return f(*a)
        raise Unsupported(f"method {name} of {type(o).__name__}")
    def call_method(self, o, name, a):
        f = getattr(o, name)
        if isinstance(f, Over): return f(o, *a)
        return f(*a)
    def nov(self, name):
        def f(*a): raise Unsupported(f"vector method {name}")
        return f
    def v_size(self, o): return self.size(o)
    def v_empty(self, o): return self.eq(self.size(o), 0)
    def v_front(self, o): return self.idx(o, 0)
    def v_back(self, o): return self.idx(o, self.sub(self.size(o), 1))
    def v_at(self, o, i): return self.at(o, i)
    def v_capacity(self, o):
        c = fresh("cap"); E.assume(c >= lift(self.size(o))); return mk(c)
    def v_reserve(self, o, n): return None
    def v_begin(self, o): return It(o, 0)
    def v_end(self, o): return It(o, self.size(o))
    v_cbegin, v_cend = v_begin, v_end
    def v_emplace_back(self, o, *a):
        if len(a) != 1: raise Unsupported("emplace_back with several arguments")
        if not isinstance(o, PList): raise Unsupported("push_back on a sized array")
        o.append(self.cp(a[0]))
    v_push_back = v_emplace_back
    def v_clear(self, o):
        if not isinstance(o, PList): raise Unsupported("clear of a sized array")
        E.touch(o); o.segs = []
    def new(self, t, *a):
        h = self.hooks.get("new")
        if h is not None:
            r = h(self, t, a)
            if r is not NotImplemented: return r
        t = t.replace("const ", "").strip()
        if t in ("gf2Vec", "gf2Mat", "CscMatrix", "CsrMatrix") or "vector<" in t:
            flat = "bool" in t or t.startswith("gf2")
            if len(a) == 0: return PList([])
            if len(a) == 1 and isinstance(a[0], (V, int)):
                z = z3.IntVal(0)
                if t.count("vector<") == 1 or t == "gf2Vec":
                    return SArr((lift(a[0]),), lambda i: z3.BoolVal(False), "b") if "bool" in t or t == "gf2Vec" else SArr((lift(a[0]),), lambda i: z, "i")
                raise Unsupported("sized vector of vectors without a value")
            if len(a) == 2 and isinstance(a[0], (V, int)):
                n, v = a
                if isinstance(v, SArr) and len(v._shape) == 1:
                    w = v.copy(); return SArr((lift(n), *w._shape), lambda i, j: w.fn(j), w.kind)
                if isinstance(v, (V, int, bool)):
                    isb = "bool" in t or t == "gf2Vec"; e = lift(self.i2b(v)) if isb else lift(v); return SArr((lift(n),), lambda i: e, "b" if isb else "i")
            if len(a) == 2 and isinstance(a[0], It) and isinstance(a[1], It): return seg(a[0], a[1])
        nm = t.split("<")[0].split("::")[-1]
        if nm in self.env: return self.env[nm](*a)
        if nm in ("unique_ptr", "shared_ptr") and not a: return None
        if nm in ("string", "basic_string"): return a[0] if a else ""
        raise Unsupported(f"construction of {t}")
    def init(self, t, xs):
        h = self.hooks.get("init")
        if h is not None:
            r = h(self, t, xs)
            if r is not NotImplemented: return r
        if "vector" in t or "gf2" in t or "initializer_list" in t or "Matrix" in t or "array" in t or "[" in t: return PList.of(xs)
        nm = t.split("<")[0].split("::")[-1]
        if nm in self.env: return self.env[nm].aggregate(*xs)
        if not xs: return 0
        if len(xs) == 1: return xs[0]
        raise Unsupported(f"initialiser of {t}")
    def dflt(self): raise Unsupported("default member initialiser")
    # -- functions
    def own(self, cls, name, n):
        f = self.hooks.get((cls, name))
        if f is not None: return f
        o = self.env.get(cls)
        if o is None: raise Unsupported(f"{cls}::{name}")
        f = getattr(o, name)
        return f
    def std(self, name):
        f = self.hooks.get("std", {}).get(name) or getattr(self, "s_" + name, None)
        if f is None:
            own = [o for c, o in self.env.items() if hasattr(o.cls, name)]      # a repository function of another translation unit
            if len(own) != 1: raise Unsupported(f"std::{name}")
            f = self.hooks.get((own[0].cls.__name__, name)) or getattr(own[0].cls, name)
        return f
    def s_min(self, a, b): return mk(simp(z3.If(lift(b) < lift(a), lift(b), lift(a)))) if isinstance(a, V) or isinstance(b, V) else min(a, b)
    def s_max(self, a, b): return mk(simp(z3.If(lift(a) < lift(b), lift(b), lift(a)))) if isinstance(a, V) or isinstance(b, V) else max(a, b)
    def s_move(self, *a):
        if len(a) == 1: return a[0]
        return self.s_copy(*a)
    def s_copy(self, b, e, out):
        if not isinstance(out, Ins): raise Unsupported("copy to an iterator")
        out.o.extend(PList([s for s in seg(b, e).segs]))
    def s_back_inserter(self, o): return Ins(o)
    def s_forward(self, x): return x
    def make(self, t, *a):
        m = re.search(r"(?:unique_ptr|shared_ptr|_MakeUniq|_NonArray)<(.*)>", t)
        t = (m.group(1) if m else t).split(", std::default_delete")[0]
        if len(a) == 1 and isinstance(a[0], (SArr, PList)) and ("vector<" in t or t.startswith("gf2")): return self.cp(a[0])
        return self.new(t, *a)
    def q(self, b, e, f, univ):
        s = seg(b, e); o = b.o
        lo, hi = lift(b.i), lift(e.i)
        g = lambda i: f(self.get(o, mk(i) if z3.is_expr(i) else i))
        return RT.comp("std::all_of#comp", "gen", loops.b_range(mk(lo), mk(hi)), lambda i: (lambda: True, lambda: g(lift(i))), False), univ
    def s_all_of(self, b, e, f): s, _ = self.q(b, e, f, True); return loops.b_all(s)
    def s_any_of(self, b, e, f): s, _ = self.q(b, e, f, False); return loops.b_any(s)
    def s_none_of(self, b, e, f): s, _ = self.q(b, e, f, False); r = loops.b_any(s); return self.not_(r)
    def exc(self, t, *a):
        cls = EXC.get(t)
        if cls is None: cls = EXC[t] = type(t, (CxExc,), {})
        return cls(*[x for x in a if isinstance(x, str)])
    def caught(self, t):
        nm = t.split("::")[-1]
        return CxExc if nm in ("exception", "") else EXC.setdefault(nm, type(nm, (CxExc,), {}))
    def ctor(self, this, cls, a): self.env[cls].construct(this, *a)
    def base(self, this, cls, a):
        if cls in self.env: self.env[cls].construct(this, *a)
class UB(CxExcBase := type("CxExcBase", (Exception,), {})): pass
class CxExc(Exception): pass
class NeedFork(Exception): pass
EXC = {}
class Enum:
    def __init__(self, t, n): self.t, self.n = t, n
    def __eq__(self, o): return isinstance(o, Enum) and o.n == self.n
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.n)
    def __repr__(self): return f"{self.t}::{self.n}"
class It:
    """random access iterator"""
    def __init__(self, o, i): self.o, self.i = o, i
    def __add__(self, k): return It(self.o, self.i + k)
    def __sub__(self, k): return It(self.o, self.i - k) if not isinstance(k, It) else self.i - k.i
    def vc_eq(self, other): return mk(simp(lift(self.i) == lift(other.i))) if isinstance(self.i, V) or isinstance(other.i, V) else self.i == other.i
class Ins:
    def __init__(self, o): self.o = o
def seg(b, e):
    """the elements between two iterators, as a list"""
    o = b.o
    if isinstance(o, PList) and isinstance(b.i, int) and b.i == 0: return PList(list(o.segs))
    lo = lift(b.i); E.oblige("iterator range inside the vector", z3.And(lo >= 0, lo <= lift(e.i), lift(e.i) <= lift(loops.b_len(o) if not isinstance(o, SArr) else o._shape[0])))
    s = o.copy() if isinstance(o, SArr) else o
    def item(i):
        if isinstance(s, SArr) and len(s._shape) == 1: return mk(s.at(simp(lo + lift(i))))
        return s[mk(simp(lo + lift(i)))]
    return PList([("s", simp(lift(e.i) - lo), item)])
def asbool(t):
    t = simp(t)
    if t.sort() == B: return t
    if z3.is_int_value(t): return z3.BoolVal(t.as_long() == 1) if t.as_long() in (0, 1) else None
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = asbool(t.arg(1)), asbool(t.arg(2))
        if a is not None and b is not None: return simp(z3.If(t.arg(0), a, b))
    return None
def boolish(x, y):
    a, b = asbool(x), asbool(y)
    if a is None or b is None: return None
    return simp(a == b)
def fits(t, x):
    """does the run-time value fit the parameter type"""
    if isinstance(x, (SArr, PList)): return "vector" in t or "gf2" in t or "Mat" in t or "list" in t
    if isinstance(x, str): return "string" in t or "char" in t
    if isinstance(x, Enum): return x.t in t
    if isinstance(x, (V, int)): return not any(w in t for w in ("vector", "string", "gf2", "Mat"))
    if isinstance(x, PObj): return type(x).__name__ in t
    return True
class Over:
    """overload set"""
    def __init__(self, name, fs): self.name, self.fs = name, fs
    def __call__(self, *a):
        fs = [(f, ts) for n, f, ts in self.fs if n == len(a)]
        if len(fs) > 1: fs = [(f, ts) for f, ts in fs if all(fits(t, x) for t, x in zip(ts, a[len(a) - len(ts):]))]
        if len(fs) == 1: return fs[0][0](*a)
        raise Unsupported(f"overloads of {self.name} with {len(a)} arguments")
    def __get__(self, o, t=None): return self if o is None else (lambda *a: self(o, *a))

def load(path, filters, name, hooks=None, extra=(), only=None):
    """translate the classes of a unit; returns (namespace of Python classes, run-time support, texts)"""
    u = Unit(path, filters, name, extra); rt = CxRT(u, hooks)
    texts = {}; env = {}
    bi = dict(vars(_b)); bi.update(loops.BUILTINS)
    for cls, ms in u.methods.items():
        members = {}
        for mname, nodes in ms.items():
            seen = {}
            for nd in nodes:
                if only is not None and (cls, mname) not in only and cls not in only: continue
                static = nd.get("storageClass") == "static" or nd["kind"] == "FunctionDecl"
                if nd["kind"] == "CXXMethodDecl" and nd.get("previousDecl"): static = static or any(o2.get("storageClass") == "static" for o2 in [nd])
                np_ = len([c for c in nd["inner"] if c.get("kind") == "ParmVarDecl"])
                key = nd.get("type", {}).get("qualType", "")
                if key in seen: continue
                seen[key] = 1
                seen.setdefault("list", [])
                pn = mname if mname.isidentifier() else "operator_" + re.sub(r"\W+", "_", mname)
                pyname = f"{cls or 'fn'}__{pn.strip('_')}_{len(seen)}"
                fn = Fn(u, nd, pyname, cls, static=False)
                isstatic = cls is None or u.static(cls, mname, nd)
                fn.static = isstatic
                try: src = fn.run()
                except Unsupported as e:
                    msg = str(e)
                    members.setdefault(mname, []).append((np_ + (0 if isstatic else 1), (lambda msg: lambda *a: (_ for _ in ()).throw(Unsupported(msg)))(msg), isstatic, nd)); continue
                texts[pyname] = src
                tr = pyfront.Tr(f"cxx:{name}"); tree = tr.module(ast.parse(src)); ast.fix_missing_locations(tree)
                ns = {"__builtins__": bi, "_vc_e": RT, "__name__": f"cxx:{name}", "_cx": rt}
                exec(compile(tree, f"<cxx:{path}:{pyname}>", "exec"), ns)
                members.setdefault(mname, []).append((np_ + (0 if isstatic else 1), ns[pyname], isstatic, nd))
        d = {}
        for mname, fs in members.items():
            if mname == "__ctor__": d["_ctors"] = Over(cls + " constructor", [(n, f, [c_['type']['qualType'] for c_ in nd_['inner'] if c_.get('kind') == 'ParmVarDecl']) for n, f, _, nd_ in fs]); continue
            f = fs[0][1] if len(fs) == 1 else Over(mname, [(n, f, [c_['type']['qualType'] for c_ in nd_['inner'] if c_.get('kind') == 'ParmVarDecl']) for n, f, _, nd_ in fs])
            pn = mname if mname.isidentifier() else "operator_" + re.sub(r"\W+", "_", mname)
            d[pn] = staticmethod(f) if fs[0][2] else f
        C_ = type(cls or "Globals", (PObj,), d)
        env[cls] = C_
    for cls, C_ in env.items():
        def mkctor(C_=C_):
            def make(*a):
                o = object.__new__(C_); o.__dict__["_vc_born"] = born(); construct(o, *a); return o
            def construct(o, *a):
                if hasattr(C_, "_ctors"): C_.__dict__["_ctors"](o, *a)
            def aggregate(*xs):
                o = object.__new__(C_); o.__dict__["_vc_born"] = born()
                for f, x in zip(u.fields.get(C_.__name__, []), xs): o.__dict__[f["name"]] = x
                return o
            return make, construct, aggregate
        make, construct, aggregate = mkctor()
        w = Ctor(C_, make, construct, aggregate); rt.env[cls] = w
    u.texts = texts
    dig = {k: hashlib.sha256(v.encode()).hexdigest()[:12] for k, v in texts.items()}
    return rt.env, rt, dig
class Ctor:
    def __init__(self, cls, make, construct, aggregate): self.cls, self.make, self.construct, self.aggregate = cls, make, construct, aggregate
    def __call__(self, *a): return self.make(*a)
    def __getattr__(self, a): return getattr(self.cls, a)
def _static(self, cls, mname, nd):
    if nd["kind"] == "CXXConstructorDecl": return False
    if nd.get("storageClass") == "static": return True
    return (cls, mname) in self.statics
Unit.static = _static
_od = Unit.decl
def _decl(self, o, cls):
    self.statics = getattr(self, "statics", set())
    if o.get("storageClass") == "static" and o.get("kind") == "CXXMethodDecl": self.statics.add((cls, o["name"]))
    _od(self, o, cls)
Unit.decl = _decl
