"""Front end: load the real Python modules of /repo, mechanically transformed so that they run on engine values.

What the extraction keeps: every statement of every function and class of the module, in order.
What it changes (mechanically, for every module, on every run):
  * loops and comprehensions become calls to the loop rules (loops.py) with the body as a closure;
  * list/set/dict displays build engine containers, f-strings become opaque strings;
  * imports are resolved to the transformed repository module or to a model of the external library;
  * builtins (len, range, int, sum, ...) are the engine's versions;
  * type annotations and `if TYPE_CHECKING` blocks are dropped; decorators other than property/staticmethod/
    classmethod/dataclass/abstractmethod are dropped.
"""
from __future__ import annotations
import ast, hashlib, os, sys, types, builtins as _b
from .core import *
from .core import E
from . import arrays as A, seqs, loops
from .loops import RT, PObj, TypeModel

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

def _name(id, ctx=None): return ast.Name(id=id, ctx=ctx or ast.Load())
def _rt(attr): return ast.Attribute(value=_name("_vc_e"), attr=attr, ctx=ast.Load())
def _call(f, *args): return ast.Call(func=f, args=list(args), keywords=[])

def assigned_names(nodes):
    """names bound by statements (not descending into nested functions/classes/comprehensions)"""
    out = []
    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out: out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: tgt(x)
        elif isinstance(t, ast.Starred): tgt(t.value)
    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if n.name not in out: out.append(n.name)
            return
        if isinstance(n, ast.Lambda): return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr): tgt(x.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets: tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            if not (isinstance(n, ast.AnnAssign) and n.value is None): tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)): tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None: tgt(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                nm = (a.asname or a.name.split(".")[0])
                if nm not in out: out.append(nm)
        elif isinstance(n, ast.ExceptHandler):
            if n.name and n.name not in out: out.append(n.name)
        for c in ast.iter_child_nodes(n): go(c)
    for n in nodes: go(n)
    return out

KEEP_DECOS = {"property", "staticmethod", "classmethod", "dataclass", "abstractmethod", "dataclasses.dataclass", "abc.abstractmethod", "cached_property"}

class Tr:
    """transform one function body"""
    def __init__(self, modname): self.modname = modname; self.k = 0; self.fn = ["<module>"]; self.depth = 0
    def uid(self):
        self.k += 1; return self.k
    # ---- module level
    def module(self, tree):
        tree.body = self.stmts_plain(tree.body)
        return tree
    def stmts_plain(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.FunctionDef,)): out.append(self.func(s))
            elif isinstance(s, ast.ClassDef): out.append(self.klass(s))
            elif isinstance(s, (ast.Import, ast.ImportFrom)): out += self.imports(s)
            elif isinstance(s, ast.If) and "TYPE_CHECKING" in ast.unparse(s.test):
                out += self.stmts_plain(s.orelse)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None: out.append(ast.Assign(targets=[s.target], value=self.expr(s.value)))
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): pass
            elif isinstance(s, (ast.For, ast.While, ast.With)): pass   # module-level loops: not needed
            elif isinstance(s, ast.If):
                out.append(ast.If(test=self.expr(s.test), body=self.stmts_plain(s.body) or [ast.Pass()], orelse=self.stmts_plain(s.orelse)))
            else: out.append(self.stmt_expr_only(s))
        return out
    def klass(self, c):
        body = []
        for s in c.body:
            if isinstance(s, ast.FunctionDef):
                self.fn.append(c.name); body.append(self.func(s)); self.fn.pop()
            elif isinstance(s, ast.AnnAssign):
                s.annotation = ast.Constant(value="Any")
                if s.value is not None: s.value = self.expr(s.value)
                body.append(s)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): pass
            elif isinstance(s, ast.ClassDef): body.append(self.klass(s))
            else: body.append(self.stmt_expr_only(s))
        bases = [self.expr(b) for b in c.bases]
        deco = [self.expr(d) for d in c.decorator_list if self.deco_name(d) in KEEP_DECOS]
        kw = []
        return ast.ClassDef(name=c.name, bases=[ast.Starred(value=_call(_rt("bases"), *bases), ctx=ast.Load())], keywords=kw, body=body or [ast.Pass()],
                            decorator_list=deco, type_params=[])
    def deco_name(self, d):
        if isinstance(d, ast.Call): d = d.func
        return ast.unparse(d)
    def imports(self, s):
        out = []
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    out.append(ast.Assign(targets=[_name(a.asname, ast.Store())], value=_call(_name("_vc_imp"), ast.Constant(a.name), ast.Constant(None), ast.Constant(0))))
                else:
                    top = a.name.split(".")[0]
                    out.append(ast.Assign(targets=[_name(top, ast.Store())], value=_call(_name("_vc_imp"), ast.Constant(top), ast.Constant(None), ast.Constant(0))))
        else:
            if s.module == "__future__": return []
            for a in s.names:
                out.append(ast.Assign(targets=[_name(a.asname or a.name, ast.Store())],
                                      value=_call(_name("_vc_imp"), ast.Constant(s.module or ""), ast.Constant(a.name), ast.Constant(s.level))))
        return out
    def func(self, f):
        self.fn.append(f.name)
        saved = self.depth; self.depth = 0
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(f)):
            self.fn.pop(); self.depth = saved
            return ast.fix_missing_locations(ast.parse(f"def {f.name}(*a, **k):\n    _vc_e.unsupported('generator {f.name}')").body[0])
        for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]:
            a.annotation = None
        f.args.defaults = [self.expr(d) for d in f.args.defaults]
        f.args.kw_defaults = [self.expr(d) if d is not None else None for d in f.args.kw_defaults]
        params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]}
        glob = {n for s in ast.walk(f) if isinstance(s, ast.Global) for n in s.names}
        nonl = {n for s in ast.walk(f) if isinstance(s, ast.Nonlocal) for n in s.names}
        loops_ = [s for s in self.walk_own(f.body) if isinstance(s, (ast.For, ast.While))]
        locs = []
        for l in loops_:
            for n in assigned_names([l]):
                if n not in locs and n not in params and n not in glob and n not in nonl: locs.append(n)
        self.glob = glob
        body = self.block(f.body)
        pre = [ast.Assign(targets=[_name(n, ast.Store())], value=_rt("UNBOUND")) for n in locs]
        nd = ast.FunctionDef(name=f.name, args=f.args, body=pre + body or [ast.Pass()], returns=None, type_params=[],
                             decorator_list=[self.expr(d) for d in f.decorator_list if self.deco_name(d) in KEEP_DECOS or self.deco_name(d).endswith((".setter", ".getter"))])
        self.fn.pop(); self.depth = saved
        return nd
    def walk_own(self, body):
        st = list(body)
        while st:
            n = st.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)): continue
            yield n
            st += list(ast.iter_child_nodes(n))
    # ---- statements
    def block(self, body):
        out = []
        for s in body: out += self.stmt(s)
        return out or [ast.Pass()]
    def stmt(self, s):
        if isinstance(s, ast.FunctionDef): return [self.func(s)]
        if isinstance(s, ast.ClassDef): return [self.klass(s)]
        if isinstance(s, (ast.Import, ast.ImportFrom)): return self.imports(s)
        if isinstance(s, ast.For): return self.for_(s)
        if isinstance(s, ast.While): return self.while_(s)
        if isinstance(s, ast.Return):
            v = self.expr(s.value) if s.value is not None else ast.Constant(None)
            if self.depth: v = _call(_rt("RET"), v)
            return [ast.Return(value=v)]
        if isinstance(s, ast.Break): return [ast.Return(value=_rt("BRK"))]
        if isinstance(s, ast.Continue): return [ast.Return(value=_rt("CONT"))]
        if isinstance(s, ast.AnnAssign):
            if s.value is None: return []
            return [ast.Assign(targets=[self.expr(s.target)], value=self.expr(s.value))]
        if isinstance(s, ast.If):
            if "TYPE_CHECKING" in ast.unparse(s.test): return self.block(s.orelse)
            return [ast.If(test=self.expr(s.test), body=self.block(s.body), orelse=self.block(s.orelse) if s.orelse else [])]
        if isinstance(s, ast.Try):
            return [ast.Try(body=self.block(s.body), handlers=[ast.ExceptHandler(type=self.expr(h.type) if h.type else None, name=h.name, body=self.block(h.body)) for h in s.handlers],
                            orelse=self.block(s.orelse) if s.orelse else [], finalbody=self.block(s.finalbody) if s.finalbody else [])]
        if isinstance(s, ast.With):
            return [ast.With(items=[ast.withitem(context_expr=self.expr(i.context_expr), optional_vars=i.optional_vars) for i in s.items], body=self.block(s.body))]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): return []
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and \
                not any(isinstance(x, ast.Starred) for x in s.targets[0].elts):
            v = s.value
            if isinstance(v, ast.Tuple): return [ast.Assign(targets=[self.expr(s.targets[0])], value=self.expr(v))]
            return [ast.Assign(targets=[self.expr(s.targets[0])], value=_call(_rt("unpack"), self.expr(v), ast.Constant(len(s.targets[0].elts))))]
        return [self.stmt_expr_only(s)]
    def stmt_expr_only(self, s):
        return ExprT(self).visit(s)
    def expr(self, e):
        return ExprT(self).visit(e)
    def for_(self, s):
        k = self.uid()
        names = [n for n in assigned_names(s.body + [ast.Assign(targets=[s.target], value=ast.Constant(0))]) if n not in self.glob]
        it = self.expr(s.iter)
        self.depth += 1
        body = [ast.Assign(targets=[self.expr(s.target)], value=self.unpackv(s.target, _name(f"_vc_it{k}")))] + self.block(s.body) + [ast.Return(value=_rt("CONT"))]
        self.depth -= 1
        return self.loop_common(k, s, names, body, lambda: _call(_rt("for_loop"), ast.Constant(self.loop_id(k)), it, _name(f"_vc_body{k}"), _name(f"_vc_get{k}"), _name(f"_vc_set{k}"), ast.Constant(tuple(names))), arg=f"_vc_it{k}")
    def unpackv(self, target, v):
        if isinstance(target, (ast.Tuple, ast.List)): return _call(_rt("unpack_deep"), v, ast.Constant(self.pattern(target)))
        return v
    def pattern(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts): return None
            return tuple(self.pattern(x) for x in t.elts)
        return None
    def loop_id(self, k): return f"{self.modname}:{'.'.join(self.fn[1:])}#{k}"
    def while_(self, s):
        k = self.uid()
        names = [n for n in assigned_names(s.body + [ast.Expr(value=s.test)]) if n not in self.glob]
        self.depth += 1
        body = self.block(s.body) + [ast.Return(value=_rt("CONT"))]
        self.depth -= 1
        cond = ast.FunctionDef(name=f"_vc_cond{k}", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), type_params=[],
                               body=([ast.Nonlocal(names=names)] if names else []) + [ast.Return(value=self.expr(s.test))], decorator_list=[], returns=None)
        return [cond] + self.loop_common(k, s, names, body, lambda: _call(_rt("while_loop"), ast.Constant(self.loop_id(k)), _name(f"_vc_cond{k}"), _name(f"_vc_body{k}"), _name(f"_vc_get{k}"), _name(f"_vc_set{k}"), ast.Constant(tuple(names))), arg=None)
    def loop_common(self, k, s, names, body, call, arg):
        nl = [ast.Nonlocal(names=list(names))] if names else []
        mkargs = lambda a: ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in a], kwonlyargs=[], kw_defaults=[], defaults=[])
        bd = ast.FunctionDef(name=f"_vc_body{k}", args=mkargs([arg] if arg else []), body=nl + body, decorator_list=[], returns=None, type_params=[])
        gt = ast.FunctionDef(name=f"_vc_get{k}", args=mkargs([]), body=[ast.Return(value=ast.Tuple(elts=[_name(n) for n in names], ctx=ast.Load()))], decorator_list=[], returns=None, type_params=[])
        st = ast.FunctionDef(name=f"_vc_set{k}", args=mkargs([f"_vc_v{k}"]), body=nl + ([ast.Assign(targets=[ast.Tuple(elts=[_name(n, ast.Store()) for n in names], ctx=ast.Store())], value=_name(f"_vc_v{k}"))] if names else [ast.Pass()]), decorator_list=[], returns=None, type_params=[])
        res = ast.Assign(targets=[_name(f"_vc_r{k}", ast.Store())], value=call())
        isret = _call(_rt("is_ret"), _name(f"_vc_r{k}"))
        prop = ast.Return(value=_name(f"_vc_r{k}") if self.depth else ast.Attribute(value=_name(f"_vc_r{k}"), attr="v", ctx=ast.Load()))
        out = [bd, gt, st, res, ast.If(test=isret, body=[prop], orelse=[])]
        if s.orelse:
            out.append(ast.If(test=ast.Compare(left=_name(f"_vc_r{k}"), ops=[ast.IsNot()], comparators=[_rt("BRK")]), body=self.block(s.orelse), orelse=[]))
        return out

class ExprT(ast.NodeTransformer):
    def __init__(self, tr): self.tr = tr
    def visit_List(self, n):
        if isinstance(n.ctx, ast.Store):
            return ast.List(elts=[self.visit(x) for x in n.elts], ctx=n.ctx)
        return _call(_rt("lst"), *[self.visit(x) for x in n.elts])
    def visit_Starred(self, n):
        if isinstance(n.ctx, ast.Load): return ast.Starred(value=_call(_rt("star"), self.visit(n.value)), ctx=n.ctx)
        return n
    def visit_Set(self, n): return _call(_rt("set_"), *[self.visit(x) for x in n.elts])
    def visit_Dict(self, n):
        args = []
        for k, v in zip(n.keys, n.values):
            args.append(ast.Tuple(elts=[ast.Constant(None) if k is None else ast.Tuple(elts=[self.visit(k)], ctx=ast.Load()), self.visit(v)], ctx=ast.Load()))
        return _call(_rt("dict_"), *args)
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                spec = None
                if v.format_spec is not None: spec = ast.unparse(v.format_spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(spec), ast.Constant(v.conversion)], ctx=ast.Load()))
        return _call(_rt("fstr"), *parts)
    def visit_Compare(self, n):
        ops = []
        if any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in n.ops):
            nm = {ast.In: "in_", ast.NotIn: "not_in", ast.Is: "is_", ast.IsNot: "is_not"}
            def one(a, op, b):
                if type(op) in nm: return _call(_rt(nm[type(op)]), a, b)
                return ast.Compare(left=a, ops=[op], comparators=[b])
            if len(n.ops) == 1: return one(self.visit(n.left), n.ops[0], self.visit(n.comparators[0]))
            # chained: the middle operands are bound once
            vals, cur = [], self.visit(n.left)
            for op, c in zip(n.ops, n.comparators):
                t = f"_vc_ch{self.tr.uid()}"
                nx = self.visit(c)
                last = c is n.comparators[-1]
                vals.append(one(cur, op, nx if last else ast.NamedExpr(target=_name(t, ast.Store()), value=nx)))
                cur = _name(t)
            return ast.BoolOp(op=ast.And(), values=vals)
        self.generic_visit(n); return n
    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1 and not n.keywords:
            return _call(_rt("join"), self.visit(n.func.value), self.visit(n.args[0]))
        self.generic_visit(n); return n
    def visit_ListComp(self, n): return self.comp("list", n)
    def visit_SetComp(self, n): return self.comp("set", n)
    def visit_GeneratorExp(self, n): return self.comp("gen", n)
    def visit_DictComp(self, n): return self.comp("dict", n)
    def comp(self, kind, n):
        def build(j):
            g = n.generators[j]
            last = j == len(n.generators) - 1
            if last:
                el = ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load()) if kind == "dict" else self.visit(n.elt)
            else: el = build(j + 1)
            conds = [self.visit(c) for c in g.ifs]
            cond = ast.Constant(True) if not conds else (conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds))
            noarg = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
            inner = ast.Tuple(elts=[ast.Lambda(args=noarg, body=cond), ast.Lambda(args=noarg, body=el)], ctx=ast.Load())
            lam = self.lam(g.target, inner)
            tk = self.tr.uid()
            return _call(_rt("comp"), ast.Constant(f"{self.tr.loop_id(tk)}comp"), ast.Constant(kind), self.visit(g.iter), lam, ast.Constant(not last))
        return build(0)
    def lam(self, target, body):
        """lambda v: body with target bound"""
        if isinstance(target, ast.Name):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        k = self.tr.uid()
        names = []
        def flat(t):
            if isinstance(t, ast.Name): names.append(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts: flat(x)
            else: names.append(f"_vc_bad{k}")
        flat(target)
        names = [x if x not in names[i + 1:] else f"_vc_dup{k}_{i}" for i, x in enumerate(names)]     # the last binding wins
        inner = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        v = f"_vc_c{k}"
        call = ast.Call(func=inner, args=[ast.Starred(value=_call(_rt("flat_unpack"), _name(v), ast.Constant(self.tr.pattern(target))), ctx=ast.Load())], keywords=[])
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=v)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=call)
    def visit_Lambda(self, n):
        n.body = self.visit(n.body); return n
    def visit_FunctionDef(self, n): return self.tr.func(n)

class Module:
    def __init__(self, name, ns): self.__dict__["ns"] = ns; self.__dict__["name"] = name
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        if a in self.ns: return self.ns[a]
        raise Unsupported(f"{self.name}.{a}")
    def __setattr__(self, a, v): self.ns[a] = v

class Loader:
    def __init__(self, models, stubs=None, src=None):
        self.models = models; self.mods = {}; self.stubs = stubs or {}; self.src = src or SRC
        self.digests = {}
    def path(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isfile(p + ".py"): return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")): return os.path.join(p, "__init__.py")
        return None
    def load(self, name):
        if name in self.mods: return self.mods[name]
        p = self.path(name)
        if p is None: raise Unsupported(f"module {name} not found in /repo/src")
        src = open(p).read()
        tree = ast.parse(src)
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                self.digests[f"{name}:{n.name}:{n.lineno}"] = hashlib.sha256(ast.get_source_segment(src, n).encode()).hexdigest()[:12]
        pkg = name if p.endswith("__init__.py") else name.rsplit(".", 1)[0]
        tr = Tr(name.split("mqt.qecc.")[-1])
        tree = tr.module(tree)
        ast.fix_missing_locations(tree)
        ns = {}
        m = Module(name, ns)
        self.mods[name] = m
        bi = dict(vars(_b)); bi.update(loops.BUILTINS)
        ns.update({"__builtins__": bi, "_vc_e": RT, "__name__": name, "_vc_imp": lambda mod, nm, lvl: self.imp(pkg, mod, nm, lvl), "__file__": p})
        code = compile(tree, f"<vc:{p}>", "exec")
        exec(code, ns)
        for k, v in self.stubs.get(name, {}).items(): ns[k] = v
        return m
    def imp(self, pkg, mod, nm, lvl):
        if lvl:
            base = pkg.split(".")
            base = base[:len(base) - (lvl - 1)]
            full = ".".join(base + ([mod] if mod else []))
        else: full = mod
        if full.startswith("mqt.qecc") or full == "mqt":
            if nm is None: return self.load(full)
            if self.path(full + "." + nm) and (not os.path.isfile(os.path.join(self.src, *full.split(".")) + ".py")):
                sub = self.path(full + "." + nm)
                return self.load(full + "." + nm)
            if self.path(full) is None: return Opaque(f"{full}.{nm}")
            if full == "mqt.qecc": return Opaque(f"{full}.{nm}")
            m = self.load(full)
            if nm in m.ns: return m.ns[nm]
            return Opaque(f"{full}.{nm}")
        key = full if nm is None else f"{full}.{nm}"
        if key in self.models: return self.models[key]
        if nm is not None and full in self.models:
            mm = self.models[full]
            if hasattr(mm, nm): return getattr(mm, nm)
        return Opaque(key)

class Opaque:
    """unmodelled external name: any use makes the obligation undecidable"""
    def __init__(self, name): self.__dict__["_n"] = name
    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"): raise AttributeError(a)
        return Opaque(f"{self._n}.{a}")
    def __call__(self, *a, **k): raise Unsupported(f"call of unmodelled {self._n}")
    def __getitem__(self, k): return Opaque(f"{self._n}[]")
    def __or__(self, o): return Opaque("union")
    __ror__ = __or__
    def __mro_entries__(self, bases): return ()
    def __repr__(self): return f"Opaque({self._n})"
