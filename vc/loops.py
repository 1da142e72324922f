"""Runtime for transformed code: loop rules, engine versions of builtins, object model."""
from __future__ import annotations
import builtins as _b
import enum, os, re
import z3
from . import core
from .core import *
from .core import E, _conj, _kbound
from . import arrays as A, seqs
from .seqs import Seq, PList, PSet, PDict, SChar, SStr, merge_vals, subst_val, as_plist, as_pset, eq_vals

class _Tok:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
    def __bool__(self): raise Unsupported(f"use of {self.n}")
    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"): raise AttributeError(a)
        raise Unsupported(f"use of {self.n} value (.{a})")

UNBOUND = _Tok("unbound local")
class Poison:
    """value of a variable whose closed form the loop rule could not derive"""
    def __init__(self, why): self.why = why
    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__") and a not in (): raise AttributeError(a)
        raise Unsupported(f"value not derivable: {self.why}")
    def _u(self, *a): raise Unsupported(f"value not derivable: {self.why}")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = __getitem__ = __iter__ = __mod__ = _u
    __hash__ = object.__hash__

BRK, CONT = _Tok("BRK"), _Tok("CONT")
class RetV:
    def __init__(self, v): self.v = v

class PObj:
    """base of every repository class: attribute writes are journaled"""
    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o.__dict__["_vc_born"] = born()
        return o
    def _vc_save(self): return dict(self.__dict__)
    def _vc_load(self, st): self.__dict__.clear(); self.__dict__.update(st)
    def __setattr__(self, k, v):
        E.touch(self)
        object.__setattr__(self, k, v)
    def __delattr__(self, k):
        E.touch(self); object.__delattr__(self, k)

class TypeModel:
    def __init__(self, name, call, check): self.name, self.call, self.check = name, call, check; self.__name__ = name
    def __call__(self, *a, **k): return self.call(*a, **k)
    def __repr__(self): return f"<type {self.name}>"
    def __or__(self, o): return _Union([self, o])
    def __ror__(self, o): return _Union([o, self])
    def __getitem__(self, k): return self
    def __eq__(self, o): return o is self or (isinstance(o, type) and o.__name__ == self.name)
    def __hash__(self): return hash(self.name)
class _Union:
    def __init__(self, ts): self.ts = ts
    def __or__(self, o): return _Union(self.ts + [o])

# ------------------------------------------------------------ discovery helpers
def counter():
    n = next(core._fresh)
    return n

_num = re.compile(r"!(\d+)$")
def skolems(t, lo, exclude):
    """uninterpreted consts/functions created after counter lo, not in exclude (ids)"""
    out = {}
    seen = set(); st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = _num.search(x.decl().name())
            if m and int(m.group(1)) > lo and x.decl().get_id() not in exclude: out[x.decl().get_id()] = x.decl()
        st.extend(x.children())
    return out

class Hav:
    """a havoced state component"""
    def __init__(self, kind, key, init): self.kind, self.key, self.init = kind, key, init

def frozen(v, ctx):
    """list built inside the body and stored in another list: keep its final contents"""
    if type(v) is PList and id(v) in ctx.journal: return PList([("c", frozen(x[1], ctx)) if x[0] == "c" else x for x in v.segs])
    if type(v) is tuple: return tuple(frozen(x, ctx) for x in v)
    return v
def is_scalar(v): return isinstance(v, (V, int, bool, float)) and not isinstance(v, (str,))

def aget(o, a):
    if isinstance(o, PDict):
        for k, v in reversed(o.items_):
            if k == a: return v
        if o.default is not None: return o.default[1](a)
        return UNBOUND
    return o.__dict__.get(a, UNBOUND)
def aset(o, a, v):
    if isinstance(o, PDict):
        if any(k == a for k, _ in o.items_): o.items_ = [(k, v if k == a else x) for k, x in o.items_]
        else: o.items_ = o.items_ + [(a, v)]
    else: o.__dict__[a] = v
def fixed_keys(before, after):
    """the dict kept its (concrete) keys: its entries are treated like attributes"""
    if any(seqs.has_v(k) or not isinstance(k, str) for k, _ in list(before[0]) + list(after)): return False
    bk, ak = [k for k, _ in before[0]], [k for k, _ in after]
    if before[1] is None: return bk == ak
    return ak[:len(bk)] == bk and all(E.entails(to_bool(lift(before[1][0](k)))) for k in ak[len(bk):])
class Summ:
    """automatic loop summary over i in [0,n)"""
    def __init__(self, lid, n, item, body, get, set_, names):
        self.lid, self.n, self.item, self.body, self.get, self.set, self.names = lid, n, item, body, get, set_, names
    # ---- run body once from a havoced state
    def explore_body(self, modset, scal_kinds):
        i = fresh("i")
        self.i = i
        self.start = counter()
        init = list(self.get())
        self.init = init
        ph = {}       # placeholder z3 const/func decl ids -> component key
        self.comp = {}
        saved_heap = {}
        def setup():
            E.assume(z3.And(i >= 0, i < lift(self.n)))
        # build placeholders once so that all paths share them
        if not hasattr(self, "ph_loc") : self.ph_loc = {}
        loc_ph = {}
        for j, nm in enumerate(self.names):
            v = init[j]
            key = ("loc", j)
            if key not in modset: continue
            if is_scalar(v) and not isinstance(v, A.SArr):
                srt = scal_kinds.get(key) or lift(v).sort()
                c = fresh("h_" + nm, srt)
                loc_ph[j] = (c, getattr(v, "np", False))
        self.loc_ph = loc_ph
        arr_ph = {}; list_tok = {}; attr_ph = {}
        for key in modset:
            if key[0] == "arr":
                a = self.objs[key[1]]
                if a.kind == "o": raise Unsupported("object array modified in loop")
                arr_ph[key[1]] = fresh_fn("ha", *([I] * len(a._shape)), A.DT[a.kind])
            elif key[0] == "list": list_tok[key[1]] = object()
            elif key[0] == "attr":
                v = aget(self.objs[key[1]], key[2])
                if is_scalar(v):
                    srt = scal_kinds.get(key) or lift(v).sort()
                    attr_ph[key] = (fresh("h_" + key[2], srt), getattr(v, "np", False))
        self.arr_ph, self.list_tok, self.attr_ph = arr_ph, list_tok, attr_ph
        res = []
        def run():
            vals = list(init)
            for j, (c, npf) in loc_ph.items(): vals[j] = V(c, npf)
            for key in modset:
                if key[0] == "arr":
                    a = self.objs[key[1]]; E.touch(a)
                    f = arr_ph[key[1]]
                    a.fn = lambda *idx, f=f: f(*idx); a.parts = None
                elif key[0] == "list":
                    l = self.objs[key[1]]; E.touch(l); l.segs = [("pre", list_tok[key[1]])]
                elif key[0] == "set":
                    s = self.objs[key[1]]; E.touch(s)
                    s.elems = []; s.pred = lambda x: (_ for _ in ()).throw(Unsupported("membership in a set under construction"))
                    s.src = ("pre",)
                elif key[0] == "dict":
                    d = self.objs[key[1]]; E.touch(d)
                    def bad(*_): raise Unsupported("lookup in a dict under construction")
                    d.items_ = []; d.default = (bad, bad)
                elif key[0] == "attr":
                    o = self.objs[key[1]]; E.touch(o)
                    if key in attr_ph:
                        c, npf = attr_ph[key]; aset(o, key[2], V(c, npf))
            self.set(tuple(vals))
            return self.body(self.item(V(i)))
        touched = {}
        def on_path(p):
            st = {}
            post = list(self.get())
            for j in range(len(self.names)): st[("loc", j)] = post[j]
            ctx = E.ctxs[-1]
            for k, (obj, old) in ctx.journal.items():
                touched[k] = obj
                if isinstance(obj, A.SArr): st[("arr", k)] = obj.snapshot()
                elif isinstance(obj, PList): st[("list", k)] = [("c", frozen(x[1], ctx)) if x[0] == "c" else x for x in obj.segs]
                elif isinstance(obj, PSet): st[("set", k)] = (list(obj.elems), obj.pred, obj.src)
                elif isinstance(obj, PDict):
                    if not any(q[0] == "dict" and q[1] == k for q in modset) and fixed_keys(old, obj.items_):
                        for a, v in obj.items_: st[("attr", k, a)] = v
                    else: st[("dict", k)] = list(obj.items_)
                elif isinstance(obj, PObj):
                    oldd = old
                    for a in set(oldd) | set(obj.__dict__):
                        st[("attr", k, a)] = obj.__dict__.get(a, UNBOUND)
                else:
                    st[("other", k)] = obj._vc_save()
            return st
        E.loop_ctx.append(i)
        try: paths = E.explore(run, on_path, setup)
        finally:
            E.loop_ctx.pop()
            self.set(tuple(init))
        return paths, touched
    def go(self):
        self.objs = {}
        self.epoch = born()
        modset = set()
        scal_kinds = {}
        names = self.names
        init0 = list(self.get())
        # locals with scalar values are havoced from the start
        for j in range(len(names)):
            if is_scalar(init0[j]): modset.add(("loc", j))
        # outer-visible heap objects known at loop entry: discovered by running
        for rnd in range(6):
            paths, touched = self.explore_body(modset, scal_kinds)
            changed = False
            for p in paths:
                for key, v in p.info.items():
                    if key in modset: 
                        # sort widening
                        if key[0] == "loc" and is_scalar(v) and key[1] in self.loc_ph:
                            c, npf = self.loc_ph[key[1]]
                            s = lift(v).sort()
                            if s != c.sort():
                                w = R if R in (s, c.sort()) else I
                                if scal_kinds.get(key) != w: scal_kinds[key] = w; changed = True
                        if key in self.attr_ph and is_scalar(v):
                            c, npf = self.attr_ph[key]; s = lift(v).sort()
                            if s != c.sort():
                                w = R if R in (s, c.sort()) else I
                                if scal_kinds.get(key) != w: scal_kinds[key] = w; changed = True
                        continue
                    if key[0] == "loc":
                        continue
                    k = key[1]
                    obj = touched[k]
                    if not self.preexisting(obj): continue
                    if key[0] == "attr":
                        if key[2] == "_vc_born": continue
                        old = aget(obj, key[2])   # rolled back: value before the loop
                        if v is old: continue
                        if is_scalar(v) and is_scalar(old) and lift(v).eq(lift(old)): continue
                    self.objs[k] = obj
                    modset.add(key); changed = True
            if not changed: break
        else: raise Unsupported(f"{self.lid}: modified set did not stabilise")
        self.modset = modset
        return self.solve(paths, touched)
    def preexisting(self, obj):
        return getattr(obj, "_vc_born", -1) < self.epoch   # objects created inside an iteration die with it
    # ---- closed forms
    def facts_of(self, p):
        fs = getattr(p, "facts", None)
        return fs
    def solve(self, paths, touched):
        i = self.i; n = lift(self.n)
        normal = [p for p in paths if p.exc is None and (p.result is CONT)]
        exits = [p for p in paths if not (p.exc is None and p.result is CONT)]
        rng = [c for c in (paths[0].pc[:1] if paths else [])]
        def guard(p):
            pc = [c for c in p.pc if not c.eq(simp(z3.And(i >= 0, i < n)))]
            return simp(z3.And(*pc)) if pc else z3.BoolVal(True)
        guards = {id(p): guard(p) for p in paths}
        comps = {}
        all_ph = {}
        for j, (c, _) in self.loc_ph.items(): all_ph[c.decl().get_id()] = ("loc", j)
        for k, f in self.arr_ph.items(): all_ph[f.get_id()] = ("arr", k)
        for key, (c, _) in self.attr_ph.items(): all_ph[c.decl().get_id()] = key
        self.all_ph = all_ph
        # skolemisation of fresh symbols created inside the body
        allterms = list(guards.values())
        closed = {}     # key -> fn(k z3) -> value   (state before iteration k)
        self.closed = closed
        if not normal:
            # every iteration leaves the loop: state before iteration k is the initial state only for k=0
            pass
        G = [(guards[id(p)], p) for p in normal]
        # per-component post values
        post = {}
        keys = set(self.modset) | {("loc", j) for j in range(len(self.names))}
        why = {}
        for key in keys:
            try:
                post[key] = self.merge_post(key, G)
            except Unsupported as e:
                why[key] = str(e)
        # solve to fixpoint
        pending = [k for k in keys if k in post]
        progress = True
        while pending and progress:
            progress = False
            for key in list(pending):
                try:
                    f = self.try_solve(key, post[key], closed)
                except Unsupported as e:
                    why[key] = str(e); continue
                if f is not None:
                    closed[key] = f; pending.remove(key); progress = True
        self.why = why
        def at(k):
            """install the state before iteration k"""
            vals = list(self.init)
            for j in range(len(self.names)):
                key = ("loc", j)
                if key in closed: vals[j] = closed[key](k)
                else:
                    vals[j] = Poison(f"{self.names[j]}: {why.get(key, 'recurrence not solved')}")
            for key in self.modset:
                if key[0] == "loc": continue
                obj = self.objs[key[1]]
                if key not in closed: raise Unsupported(f"{self.lid}: {key[0]} {getattr(obj, 'name', '')}{key[2:]} modified in loop: {why.get(key, 'recurrence not solved')}")
            newvals = []
            for key in self.modset:
                if key[0] == "loc": continue
                newvals.append((key, closed[key](k)))
            for key, v in newvals:
                obj = self.objs[key[1]]
                E.touch(obj)
                if key[0] == "arr": obj.fn = v; obj.parts = None
                elif key[0] == "list": obj.segs = v
                elif key[0] == "set": obj.elems, obj.pred = v[0], v[1]; obj.src = None
                elif key[0] == "dict": obj.items_, obj.default = v
                elif key[0] == "attr": aset(obj, key[2], v)
            self.set(tuple(vals))
        def exit_cond(jt):
            """z3: iteration j leaves the loop"""
            g = z3.Or(*[guards[id(p)] for p in exits])
            return self.close_term(g, jt, closed)
        if exits:
            which = E.choose(1 + len(exits))
            if which == 0:
                q = fresh("q")
                E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Not(exit_cond(q)))))
                self.assume_facts(normal, guards, n, closed)
                at(n)
                return CONT
            p = exits[which - 1]
            k = E.skolem("k")
            E.assume(z3.And(k >= 0, k < n))
            q = fresh("q")
            if not self.const_first(exits, k):
                E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), z3.Not(exit_cond(q)))))
            at(k)
            g = self.close_term(guards[id(p)], k, closed)
            E.assume(g)
            if not E.feasible(): raise PathEnd()
            r = self.body(self.item(V(k)))     # raises if the path raises
            if r is CONT: raise PathEnd()
            return r
        self.assume_facts(normal, guards, n, closed)
        at(n)
        return CONT
    def assume_facts(self, normal, guards, n, closed):
        """every completed iteration followed one of the normal paths (carries callee postconditions out of the loop)"""
        if not any(p.facts > 1 for p in normal): return
        q = fresh("q")
        try: g = self.close_term(z3.Or(*[guards[id(p)] for p in normal]), q, closed)
        except Unsupported: return
        if not z3.is_true(g): E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), g)))
    def const_first(self, exits, k): return False
    def close_term(self, t, k, closed):
        """replace placeholders by closed forms at iteration k, i by k"""
        t = self.subst_ph(t, lambda key: closed.get(key), k)
        return simp(z3.substitute(t, (self.i, k)))
    def subst_ph(self, t, getclosed, k):
        """substitute placeholder constants/functions"""
        pairs = []
        for j, (c, _) in self.loc_ph.items():
            if depends(t, c):
                f = getclosed(("loc", j))
                if f is None: raise Unsupported(f"depends on unsolved {self.names[j]}")
                v = lift(f(k))
                pairs.append((c, core_cast(v, c.sort())))
        for key, (c, _) in self.attr_ph.items():
            if depends(t, c):
                f = getclosed(key)
                if f is None: raise Unsupported("depends on unsolved attribute")
                pairs.append((c, core_cast(lift(f(k)), c.sort())))
        if pairs: t = z3.substitute(t, *pairs)
        for kk, f in self.arr_ph.items():
            if depends_any(t, {f.get_id()}):
                cf = getclosed(("arr", kk))
                if cf is None: raise Unsupported("depends on unsolved array")
                t = subst_fn(t, f, cf(k))
        return t
    # -- merging the post states of the normal paths
    def merge_post(self, key, G):
        if not G: return ("none",)
        if key[0] == "loc":
            vals = [(g, p.info[key]) for g, p in G]
            return ("val", vals)
        if key[0] == "attr":
            vals = []
            for g, p in G:
                if key in p.info: vals.append((g, p.info[key]))
                else:
                    c = self.attr_ph.get(key)
                    vals.append((g, V(c[0], c[1]) if c else aget(self.objs[key[1]], key[2])))
            return ("val", vals)
        if key[0] == "arr":
            a = self.objs[key[1]]
            xs = [fresh("x") for _ in a._shape]
            f = self.arr_ph[key[1]]
            r = None
            for g, p in reversed(G):
                v = p.info[key].at(*xs) if key in p.info else f(*xs)
                r = v if r is None else z3.If(g, v, r)
            return ("arr", xs, simp(r))
        if key[0] == "list":
            out = []
            for g, p in G:
                segs = p.info.get(key)
                if segs is None: segs = [("pre", self.list_tok[key[1]])]
                if not segs or segs[0] != ("pre", self.list_tok[key[1]]): raise Unsupported("list not only appended to")
                out.append((g, segs[1:]))
            return ("list", out)
        if key[0] == "set":
            out = []
            for g, p in G:
                st = p.info.get(key)
                if st is None: out.append((g, [])); continue
                out.append((g, st[0]))
            return ("set", out)
        if key[0] == "dict":
            return ("dict", [(g, p.info.get(key, [])) for g, p in G])
        raise Unsupported(f"loop modifies unmodelled object")
    # -- solving
    def try_solve(self, key, post, closed):
        i = self.i
        if post[0] == "none":
            # no iteration completes normally
            return self.initial(key)
        if post[0] == "val":
            vals = post[1]
            init = self.init[key[1]] if key[0] == "loc" else aget(self.objs[key[1]], key[2])
            if all(v is init or (v is vals[0][1] and v is UNBOUND) for _, v in vals): return lambda k: init
            phc = self.loc_ph.get(key[1]) if key[0] == "loc" else self.attr_ph.get(key)
            if phc is not None and all(is_scalar(v) for _, v in vals):
                e = lift(merge_vals([(g, v) for g, v in vals]))
                e = core_cast(e, phc[0].sort())
                e = self.resolve(e, closed, keep=phc[0])
                if e is None: return None
                f = solve_scalar(phc[0], e, core_cast(lift(init), phc[0].sort()), i, self)
                if f is None: raise Unsupported(f"recurrence not recognised")
                npf = phc[1] or any(getattr(v, "np", False) for _, v in vals)
                return lambda k: mk(f(k), npf)
            # non-scalar rebinding: last value, must not depend on placeholders of itself
            def okay(v):
                return True
            gs = [(self.resolve(g, closed), v) for g, v in vals]
            if any(g is None for g, _ in gs): return None
            v = merge_vals(gs)
            terms = val_terms(v)
            pairs = None
            def last(k):
                if init is UNBOUND or init is None or True:
                    kk = simp(lift(k) - 1)
                    vv = self.subst_value(v, kk, closed)
                    if init is UNBOUND or isinstance(init, Poison): return vv
                    if E.entails(lift(k) >= 1): return vv
                    if E.entails(lift(k) <= 0): return init
                    return merge_vals([(lift(k) >= 1, vv), (lift(k) <= 0, init)])
            # verify that v does not depend on unsolved placeholders
            for t in terms:
                if self.resolve(t, closed) is None: return None
            return last
        if post[0] == "arr":
            xs, e = post[1], post[2]
            a = self.objs[key[1]]
            f = self.arr_ph[key[1]]
            q = fresh("q", A.DT[a.kind])
            e2 = subst_exact(e, f, xs, q)
            if e2 is None: e2 = split_store(e, f, xs, q)
            if e2 is None and os.environ.get("VCDBG"): print("REC", e, xs)
            if e2 is None: raise Unsupported("array recurrence reads other elements of the array being written")
            e2 = self.resolve(e2, closed, keep=q)
            if e2 is None: return None
            old = a.fn
            i0 = [fresh("x0") for _ in xs]
            sol = solve_scalar(q, e2, None, i, self, xs=xs, shape=a._shape)
            if sol is None and os.environ.get("VCDBG"): print("REC2", e2, q, A.DT, a.kind)
            if sol is None: raise Unsupported("array recurrence not recognised")
            def cf(k):
                k = lift(k)
                def fn(*idx):
                    t = sol(k, init=z3.Const("!!init", A.DT[a.kind]))
                    t = z3.substitute(t, *zip(xs, idx))
                    t = z3.substitute(t, (z3.Const("!!init", A.DT[a.kind]), core_cast(old(*idx), A.DT[a.kind])))
                    return simp(t)
                return memo_fn(fn)
            return cf
        if post[0] == "list":
            alts = post[1]
            l = self.objs[key[1]]
            pre = list(l.segs)
            alts = [(self.resolve(g, closed), s) for g, s in alts]
            if any(g is None for g, _ in alts): return None
            lens = {len(s) for _, s in alts}
            if lens == {0}: return lambda k: pre
            if any(x[0] != "c" for _, s in alts for x in s): raise Unsupported("nested symbolic append")
            for _, s in alts:
                for x in s:
                    for t in val_terms(x[1]):
                        if self.resolve(t, closed) is None: return None
            if len(lens) == 1:
                m = lens.pop()
                vs = [merge_vals([(g, s[r][1]) for g, s in alts]) for r in range(m)]
                def item(k, r): return self.subst_value(vs[r], lift(k), closed)
                if m == 1: return lambda k: pre + [("s", mk(lift(k)), lambda q: item(q, 0))]
                def multi(q):
                    qt = lift(q)
                    c = const_int(q)
                    if c is not None: return item(c // m, c % m)
                    return merge_vals([(simp(qt % m == r), item(simp(qt / m), r)) for r in range(m)])
                return lambda k: pre + [("s", mk(lift(k) * m), multi)]
            if lens == {0, 1}:
                app = [(g, s[0][1]) for g, s in alts if s]
                gd = simp(z3.Or(*[g for g, _ in app]))
                v = merge_vals(app)
                return lambda k: pre + [("f", mk(lift(k)), lambda q: mk(self.close_full(gd, lift(q), closed)), lambda q: self.subst_value(v, lift(q), closed))]
            raise Unsupported("varying number of appends")
        if post[0] == "set":
            s0 = self.objs[key[1]]
            elems0, pred0 = list(s0.elems), s0.pred
            alts = [(self.resolve(g, closed), el) for g, el in post[1]]
            if any(g is None for g, _ in alts): return None
            adds = [(g, x) for g, el in alts for x in el]
            for g, x in adds:
                for t in val_terms(x):
                    if self.resolve(t, closed) is None: return None
            if not adds: return lambda k: (elems0, pred0)
            def cf(k):
                k = lift(k)
                def pred(y):
                    cs = []
                    if pred0 is not None: cs.append(to_bool(lift(pred0(y))))
                    for g, x in adds:
                        def inner(j, g=g, x=x):
                            return z3.And(self.close_full(g, j, closed), to_bool(lift(eq_vals(self.subst_value(x, j, closed), y))))
                        cs.append(ex_range(k, inner))
                    return simp(z3.Or(*cs))
                return (elems0, pred)
            return cf
        if post[0] == "dict":
            d0 = self.objs[key[1]]
            items0, def0 = list(d0.items_), d0.default
            alts = [(self.resolve(g, closed), it) for g, it in post[1]]
            if any(g is None for g, _ in alts): return None
            adds = [(g, kk, vv) for g, it in alts for kk, vv in it]
            for g, kk, vv in adds:
                for t in val_terms(kk) + val_terms(vv):
                    if self.resolve(t, closed) is None: return None
            if not adds: return lambda k: (items0, def0)
            if any(len(it) > 1 for _, it in alts): raise Unsupported("several dict writes per iteration")
            def cf(k):
                k = lift(k)
                base = PDict(items0, def0)
                def has(y):
                    cs = [ex_range(k, lambda j, g=g, kk=kk: z3.And(self.close_full(g, j, closed), to_bool(lift(eq_vals(self.subst_value(kk, j, closed), y))))) for g, kk, _ in adds]
                    if items0 or def0: cs.append(to_bool(lift(base.has(y))))
                    return simp(z3.Or(*cs))
                def get(y):
                    vals = []
                    for g, kk, vv in adds:
                        j = fresh("j")
                        c = simp(z3.And(self.close_full(g, j, closed), to_bool(lift(eq_vals(self.subst_value(kk, j, closed), y)))))
                        e = solve_eq(c, j)
                        if e is None: raise Unsupported("dict key is not an invertible function of the loop index")
                        cond = simp(z3.And(e >= 0, e < k, z3.substitute(c, (j, e))))
                        vals.append((cond, self.subst_value(vv, e, closed)))
                    if items0 or def0:
                        none = simp(z3.Not(z3.Or(*[c for c, _ in vals])))
                        if E.feasible(none): 
                            try: vals.append((none, base._get(y)))
                            except KeyError: pass
                    return merge_vals(vals)
                return ([], (has, get))
            return cf
        raise Unsupported("component")
    def initial(self, key):
        if key[0] == "loc": 
            v = self.init[key[1]]; return lambda k: v
        o = self.objs[key[1]]
        if key[0] == "arr":
            f = o.fn; return lambda k: f
        if key[0] == "list":
            s = list(o.segs); return lambda k: s
        if key[0] == "set":
            s = (list(o.elems), o.pred); return lambda k: s
        if key[0] == "dict":
            s = (list(o.items_), o.default); return lambda k: s
        v = aget(o, key[2]); return lambda k: v
    def resolve(self, t, closed, keep=None):
        """substitute solved placeholders at index i; None when an unsolved placeholder other than keep remains"""
        t = t if isinstance(t, z3.ExprRef) else lift(t)
        for kid, key in self.all_ph.items():
            if keep is not None and z3.is_const(keep) and keep.decl().get_id() == kid: continue
            if depends_any(t, {kid}) or has_const(t, kid):
                if key not in closed: return None
        t = self.subst_ph_skip(t, closed, keep)
        sk = skolems(t, self.start, {keep.decl().get_id()} if keep is not None else set())
        return simp(t)
    def subst_ph_skip(self, t, closed, keep):
        def gc(key):
            return closed.get(key)
        # temporarily ignore keep
        saved_loc, saved_attr = self.loc_ph, self.attr_ph
        if keep is not None:
            self.loc_ph = {j: x for j, x in saved_loc.items() if not x[0].eq(keep)}
            self.attr_ph = {j: x for j, x in saved_attr.items() if not x[0].eq(keep)}
        try: return self.subst_ph(t, gc, self.i)
        finally: self.loc_ph, self.attr_ph = saved_loc, saved_attr
    def close_full(self, t, k, closed):
        return self.close_term(t, k, closed)
    def subst_value(self, v, k, closed):
        """value v (terms over i and placeholders) at iteration k"""
        pairs = []
        for j, (c, _) in self.loc_ph.items():
            f = closed.get(("loc", j))
            if f is not None:
                x = f(k)
                if is_scalar(x): pairs.append((c, core_cast(lift(x), c.sort())))
        for key, (c, _) in self.attr_ph.items():
            f = closed.get(key)
            if f is not None:
                x = f(k)
                if is_scalar(x): pairs.append((c, core_cast(lift(x), c.sort())))
        r = v
        if any_fn(v, self.arr_ph): r = subst_fn_value(r, [(f, closed[("arr", kk)](k)) for kk, f in self.arr_ph.items() if ("arr", kk) in closed])
        if pairs: r = subst_val(r, pairs)
        return subst_val(r, [(self.i, k if isinstance(k, z3.ExprRef) else lift(k))])

def has_const(t, declid):
    seen = set(); st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x) and x.decl().get_id() == declid: return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False

def any_fn(v, phs):
    ids = {f.get_id() for f in phs.values()}
    if not ids: return False
    return any(depends_any(t, ids) for t in val_terms(v))

def subst_fn_value(v, fs):
    if isinstance(v, V):
        t = v.t
        for f, c in fs: t = subst_fn(t, f, c)
        return mk(t, v.np)
    if isinstance(v, (int, bool, float, str, type(None))): return v
    if isinstance(v, tuple): return tuple(subst_fn_value(x, fs) for x in v)
    if isinstance(v, A.SArr) and v.kind != "o":
        s = v.snapshot()
        def g(*idx):
            t = s.at(*idx)
            for f, c in fs: t = subst_fn(t, f, c)
            return t
        return A.SArr(v._shape, g, v.kind)
    raise Unsupported("value depends on an array modified in the loop")

def val_terms(v):
    """representative z3 terms of a value (for dependency checks)"""
    if isinstance(v, V): return [v.t]
    if isinstance(v, (int, bool, float, str, type(None), _Tok, Poison)): return []
    if isinstance(v, z3.ExprRef): return [v]
    if isinstance(v, (tuple, list)): return [t for x in v for t in val_terms(x)]
    if isinstance(v, A.SArr):
        s = v.snapshot()
        out = [lift(d) for d in v._shape]
        xs = [fresh("vt") for _ in v._shape]
        r = s.at(*xs)
        return out + (val_terms(r) if v.kind == "o" else [r])
    if isinstance(v, PList):
        out = []
        for s in v.segs:
            if s[0] == "c": out += val_terms(s[1])
            elif s[0] == "s": out += [lift(s[1])] + val_terms(s[2](V(fresh("vt"))))
            elif s[0] == "f": out += [lift(s[1])] + val_terms(s[3](V(fresh("vt")))) + val_terms(s[2](V(fresh("vt"))))
        return out
    if isinstance(v, SChar): return [v.t]
    if isinstance(v, SStr): return [lift(v.n), v.fn(fresh("vt"))]
    if isinstance(v, PSet):
        out = [t for e in v.elems for t in val_terms(e)]
        return out
    if isinstance(v, PObj): return []
    if hasattr(v, "vc_terms"): return v.vc_terms()
    return []

def memo_fn(fn):
    memo = {}
    def g(*idx):
        key = tuple(x.get_id() for x in idx)
        if key not in memo: memo[key] = (fn(*idx), idx)
        return memo[key][0]
    return g

def core_cast(t, srt):
    if t.sort() == srt: return t
    if srt == I: return to_int(t)
    if srt == B: return to_bool(t)
    return to_real(t)

def subst_fn(t, f, impl):
    """replace applications f(args) by impl(*args) everywhere (including under binders)"""
    memo = {}
    def go(x):
        k = x.get_id()
        if k in memo: return memo[k][0]
        if z3.is_quantifier(x):
            if not depends_any(x, {f.get_id()}): r = x
            else:
                vs = [z3.Const(f"bv!{next(core._fresh)}", x.var_sort(j)) for j in range(x.num_vars())]
                b = z3.substitute_vars(x.body(), *reversed(vs))
                b2 = go(b)
                if x.is_lambda(): r = z3.Lambda(vs, b2)
                elif x.is_forall(): r = z3.ForAll(vs, b2)
                else: r = z3.Exists(vs, b2)
        elif z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            if x.decl().eq(f): r = impl(*ch)
            elif all(a.eq(b) for a, b in zip(ch, x.children())): r = x
            else: r = x.decl()(*ch) if x.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And(*ch) if x.decl().kind() == z3.Z3_OP_AND else z3.Or(*ch))
        else: r = x
        memo[k] = (r, x)
        return r
    return simp(go(t))

def split_store(e, f, xs, q):
    """e = f(xs) whenever xs[d] differs from the one written index: case split on that equality"""
    for d, x in enumerate(xs):
        eqs = {}
        def go(t, seen=set()):
            st = [t]; seen = set()
            while st:
                y = st.pop()
                if y.get_id() in seen: continue
                seen.add(y.get_id())
                if z3.is_quantifier(y): continue
                if z3.is_eq(y) and y.arg(0).sort() == I:
                    for a, b in ((y.arg(0), y.arg(1)), (y.arg(1), y.arg(0))):
                        if a.eq(x) and not depends(b, x): eqs[y.get_id()] = (y, b)
                st.extend(y.children())
        go(e)
        idx = {b.get_id(): b for _, b in eqs.values()}
        if len(idx) != 1: continue
        b = next(iter(idx.values()))
        ne = simp(z3.substitute(e, *[(y, z3.BoolVal(False)) for y, _ in eqs.values()]))
        if z3.is_app(ne) and ne.decl().eq(f) and all(p.eq(r) for p, r in zip(ne.children(), xs)):
            eq = simp(z3.substitute(e, *[(y, z3.BoolVal(True)) for y, _ in eqs.values()]))
            eq = z3.substitute(eq, (b, x)) if z3.is_const(b) else eq
            r = subst_exact(eq, f, xs, q)
            if r is None: continue
            if z3.is_const(b): r = z3.substitute(r, (x, b))
            return z3.If(x == b, r, q)
    return None
def subst_exact(t, f, xs, q):
    """replace f(xs) by q; None if f occurs applied to anything else"""
    memo = {}
    bad = []
    def go(x):
        k = x.get_id()
        if k in memo: return memo[k][0]
        if z3.is_quantifier(x):
            if depends_any(x, {f.get_id()}): bad.append(1)
            r = x
        elif z3.is_app(x) and x.num_args():
            if x.decl().eq(f):
                if all(a.eq(b) or E.entails(a == b) for a, b in zip(x.children(), xs)): r = q
                else: bad.append(x); r = x
            elif x.decl().kind() == z3.Z3_OP_ITE:
                # inside ite(x==idx, f(idx)-expr, ..): rewrite using the equalities of the condition
                c = go(x.arg(0))
                eqs = []
                for cj in _conj(x.arg(0)):
                    if z3.is_eq(cj) and cj.arg(0).sort() == I:
                        a, b = cj.arg(0), cj.arg(1)
                        for y in xs:
                            if a.eq(y): eqs.append((b, y))
                            elif b.eq(y): eqs.append((a, y))
                            else:
                                e = solve_for(cj, y)
                                if e is not None and not z3.is_int_value(e): eqs.append((e, y))
                th = x.arg(1)
                if eqs and depends_any(th, {f.get_id()}): th = rewrite_args(th, f, xs, eqs)
                a, b = go(th), go(x.arg(2))
                r = z3.If(c, a, b)
            else:
                ch = [go(c) for c in x.children()]
                r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else (z3.And(*ch) if z3.is_and(x) else z3.Or(*ch) if z3.is_or(x) else x.decl()(*ch))
        else: r = x
        memo[k] = (r, x)
        return r
    r = go(t)
    if bad: return None
    return simp(r)

def solve_for(eq, y):
    kb = _kbound(eq, y)
    return kb[1] if kb and kb[0] == "eq" else None

def rewrite_args(t, f, xs, eqs):
    """in t, applications f(a1..) whose args equal xs under the equalities become f(xs)"""
    def impl(*args):
        ok = True
        for a, y in zip(args, xs):
            if a.eq(y): continue
            if any(simp(a).eq(simp(e)) and yy.eq(y) for e, yy in eqs): continue
            if any(z3.is_int_value(simp(a - e)) and simp(a - e).as_long() == 0 and yy.eq(y) for e, yy in eqs): continue
            if E.entails(z3.Implies(z3.And(*[e == yy for e, yy in eqs]), a == y)): continue
            ok = False
        return f(*xs) if ok else f(*args)
    memo = {}
    def go(x):
        k = x.get_id()
        if k in memo: return memo[k][0]
        if z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            if x.decl().eq(f): r = impl(*ch)
            else: r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else (z3.And(*ch) if z3.is_and(x) else z3.Or(*ch) if z3.is_or(x) else x.decl()(*ch))
        else: r = x
        memo[k] = (r, x); return r
    return go(t)

def solve_eq(c, j):
    """an e (free of j) such that c implies j == e"""
    for x in _conj(simp(c)):
        kb = _kbound(x, j)
        if kb and kb[0] == "eq": return kb[1]
    if z3.is_or(c):
        return None
    return None

def ex_range(n, f, lo=0):
    """exists lo<=j<n. f(j) with one-point rule"""
    j = fresh("j")
    body = simp(f(j))
    return ex_body(lift(lo), lift(n), j, body)

def ex_body(lo, n, j, body):
    if z3.is_false(body): return z3.BoolVal(False)
    if z3.is_or(body): return simp(z3.Or(*[ex_body(lo, n, j, b) for b in body.children()]))
    cs = _conj(body)
    ind = [c for c in cs if not depends(c, j)]
    dep = [c for c in cs if depends(c, j)]
    for q, c in enumerate(dep):
        kb = _kbound(c, j)
        if kb and kb[0] == "eq":
            e = kb[1]
            return simp(z3.And(lo <= e, e < n, *ind, *[z3.substitute(r, (j, e)) for r in dep[:q] + dep[q + 1:]]))
    if not dep: return simp(z3.And(lo < n, *ind))
    nn = simp(n - lo)
    if z3.is_int_value(nn) and nn.as_long() <= 8:
        return simp(z3.And(*ind, z3.Or(*[z3.substitute(z3.And(*dep), (j, simp(lo + r))) for r in range(max(0, nn.as_long()))])))
    ex = z3.Exists([j], z3.And(lo <= j, j < n, *dep))
    return simp(z3.And(*ind, ex)) if ind else ex

def solve_scalar(p, e, init, i, S, xs=None, shape=None):
    """s_{k+1} = e[p:=s_k, i:=k]; returns k -> closed term (init may be given later for arrays)"""
    e = simp(e)
    srt = p.sort()
    def wrap(f):
        if init is not None:
            return lambda k, init=init: simp(f(lift(k), init))
        return lambda k, init: simp(f(lift(k), init))
    if e.eq(p): return wrap(lambda k, s0: s0)
    if not depends(e, p):
        # last value
        if not depends(e, i): return wrap(lambda k, s0: z3.If(k >= 1, e, s0))
        return wrap(lambda k, s0: z3.If(k >= 1, z3.substitute(e, (i, k - 1)), s0))
    if srt == B:
        eT, eF = simp(z3.substitute(e, (p, z3.BoolVal(True)))), simp(z3.substitute(e, (p, z3.BoolVal(False))))
        if z3.is_true(eT): return wrap(lambda k, s0: z3.Or(s0, ex_range(k, lambda j: z3.substitute(eF, (i, j)))))
        if z3.is_false(eF): return wrap(lambda k, s0: z3.And(s0, z3.Not(ex_range(k, lambda j: z3.substitute(simp(z3.Not(eT)), (i, j))))))
        if E.entails(eT == z3.Not(eF)): return wrap(lambda k, s0: xor(s0, par(0, k, lambda j: z3.substitute(eF, (i, j)))))
        # general: last writer: eT == eF -> write value eF, (eT, eF)=(T,F) -> keep
        if E.entails(z3.Or(eT == eF, z3.And(eT, z3.Not(eF)))):
            wr = simp(eT == eF)
            return last_writer(p, wr, eF, i, wrap)
        return None
    # arithmetic: additive
    d = simp(e - p)
    if not depends(d, p):
        return wrap(lambda k, s0: s0 + ssum(0, k, lambda j: z3.substitute(d, (i, j))))
    def delta(t):
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not depends(t.arg(0), p):
            a, b = delta(t.arg(1)), delta(t.arg(2)); return None if a is None or b is None else z3.If(t.arg(0), a, b)
        r = simp(t - p); return None if depends(r, p) else r
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        d2 = delta(e)
        if d2 is not None:
            d2 = simp(d2); return wrap(lambda k, s0: s0 + ssum(0, k, lambda j: z3.substitute(d2, (i, j))))
    # mod-2 accumulation
    try:
        oe = odd(e); op = odd(p)
        q = fresh("op", B)
        oe2 = simp(z3.substitute(oe, (op, q)))
        if not depends(oe2, p):
            dd = simp(z3.Xor(oe2, q))
            dd = simp(xor_free(dd, q))
            if dd is not None and not depends(dd, q):
                eT, eF = simp(z3.substitute(dd, (q, z3.BoolVal(True)))), 0
                # binary result?
                isbin = is_bin(e)
                if isbin is True:
                    def f(k, s0):
                        m = xor(odd(s0), par(0, k, lambda j: z3.substitute(dd, (i, j))))
                        one, zero = (z3.IntVal(1), z3.IntVal(0)) if srt == I else (z3.RealVal(1), z3.RealVal(0))
                        return z3.If(k >= 1, z3.If(m, one, zero), s0) if not (is_bin(s0) is True) else z3.If(m, one, zero)
                    return wrap(f)
                # ite(c(i,x), bin-update, p)
                if z3.is_app_of(e, z3.Z3_OP_ITE):
                    a, b = e.arg(1), e.arg(2)
                    if (b.eq(p) and is_bin(a) is True) or (a.eq(p) and is_bin(b) is True):
                        c = e.arg(0) if b.eq(p) else simp(z3.Not(e.arg(0)))
                        def f(k, s0):
                            m = xor(odd(s0), par(0, k, lambda j: z3.substitute(dd, (i, j))))
                            one, zero = (z3.IntVal(1), z3.IntVal(0)) if srt == I else (z3.RealVal(1), z3.RealVal(0))
                            r = z3.If(m, one, zero)
                            if is_bin(s0) is True: return r
                            return z3.If(ex_range(k, lambda j: z3.substitute(c, (i, j))), r, s0)
                        return wrap(f)
    except Unsupported:
        pass
    # conditional write
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, v = split_write(e, p)
        if c is not None and not depends(c, p) and not depends(v, p):
            return last_writer(p, c, v, i, wrap)
        if c is not None and not depends(c, p):
            e1 = solve_eq(c, i)
            if e1 is not None:   # at most one iteration writes this cell
                return wrap(lambda k, s0: z3.If(z3.And(e1 >= 0, e1 < k, z3.substitute(c, (i, e1))), z3.substitute(z3.substitute(v, (i, e1)), (p, s0)), s0))
    return None

def is_bin(t):
    """True when t is syntactically 0/1"""
    if t.sort() == B: return True
    if z3.is_app_of(t, z3.Z3_OP_ITE): return is_bin(t.arg(1)) and is_bin(t.arg(2))
    if z3.is_int_value(t): return t.as_long() in (0, 1)
    if z3.is_rational_value(t): return t.as_fraction() in (0, 1)
    return bool(E.entails(z3.And(t >= 0, t <= 1)))

def xor_free(t, q):
    a = simp(z3.substitute(t, (q, z3.BoolVal(True)))); b = simp(z3.substitute(t, (q, z3.BoolVal(False))))
    if a.eq(b) or E.entails(a == b): return b
    return t

def split_write(e, p):
    """e = ite(c, v, p) possibly nested -> (c, v)"""
    if e.eq(p): return z3.BoolVal(False), p
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.arg(0), e.arg(1), e.arg(2)
        ca, va = split_write(a, p) if depends(a, p) else (z3.BoolVal(True), a)
        cb, vb = split_write(b, p) if depends(b, p) else (z3.BoolVal(True), b)
        if ca is None or cb is None: return z3.BoolVal(True), e
        cc = simp(z3.If(c, ca, cb))
        if z3.is_false(ca): return simp(z3.And(z3.Not(c), cb)), vb
        if z3.is_false(cb): return simp(z3.And(c, ca)), va
        return cc, simp(z3.If(c, va, vb))
    return z3.BoolVal(True), e

def last_writer(p, c, v, i, wrap):
    e1 = solve_eq(c, i)
    if e1 is not None:
        return wrap(lambda k, s0: z3.If(z3.And(e1 >= 0, e1 < k, z3.substitute(c, (i, e1))), z3.substitute(v, (i, e1)), s0))
    if not depends(v, i):
        return wrap(lambda k, s0: z3.If(ex_range(k, lambda j: z3.substitute(c, (i, j))), v, s0))
    # writes to the same cell by two different iterations must agree or be excluded
    j1, j2 = fresh("j1"), fresh("j2")
    c1, c2 = z3.substitute(c, (i, j1)), z3.substitute(c, (i, j2))
    if E.entails(z3.Implies(z3.And(c1, c2, j1 >= 0, j2 >= 0), j1 == j2), 3000):
        if p.sort() == B:
            return wrap(lambda k, s0: z3.If(ex_range(k, lambda j: z3.substitute(c, (i, j))), ex_range(k, lambda j: z3.substitute(z3.And(c, v), (i, j))), s0))
        return wrap(lambda k, s0: z3.If(ex_range(k, lambda j: z3.substitute(c, (i, j))), ssum(0, k, lambda j: z3.substitute(z3.If(c, v, z3.IntVal(0) if p.sort() == I else z3.RealVal(0)), (i, j))), s0))
    if p.sort() == B:
        # last value wins: exists j writing v with no later writer
        def f(k, s0):
            j = fresh("j"); l = fresh("l")
            w = z3.Exists([j], z3.And(j >= 0, j < k, z3.substitute(z3.And(c, v), (i, j)), z3.ForAll([l], z3.Implies(z3.And(l > j, l < k), z3.Not(z3.substitute(c, (i, l)))))))
            return z3.If(ex_range(k, lambda j: z3.substitute(c, (i, j))), w, s0)
        return wrap(f)
    return None

# ------------------------------------------------------------ runtime object
def to_iter(x):
    """-> host list of items, or Seq"""
    if isinstance(x, Seq):
        n = const_int(x.n)
        if n is not None: return [x.item(j) for j in range(max(0, n))]
        return x
    if isinstance(x, (list, tuple, str, range, set, frozenset)): return list(x)
    if isinstance(x, dict): return list(x)
    if isinstance(x, A.SArr):
        n = const_int(x.vc_len())
        if n is not None: return [x[j] for j in range(n)]
        return x.vc_seq()
    if isinstance(x, PList):
        try: return list(x.concrete())
        except Unsupported: pass
        if any(s[0] == "f" for s in x.segs):
            return PieceSeq(x.segs)
        n = const_int(x.vc_len())
        if n is not None: return [x.get(j) for j in range(n)]
        if any(s[0] == "c" for s in x.segs) or len(x.segs) > 1: return PieceSeq(x.segs)
        return x.vc_seq()
    if isinstance(x, (PSet, PDict)): return list(x)
    if isinstance(x, SStr): return to_iter(x.vc_seq())
    if isinstance(x, enum.EnumMeta): return list(x)
    if hasattr(x, "vc_seq"): return to_iter(x.vc_seq())
    if isinstance(x, (Poison, _Tok)): raise Unsupported("iteration over underivable value")
    if hasattr(x, "__iter__"): return list(x)
    raise TypeError(f"'{type(x).__name__}' object is not iterable")

class PieceSeq:
    """iteration over a segmented list: segment by segment"""
    def __init__(self, segs): self.segs = segs

class _RT:
    UNBOUND, BRK, CONT = UNBOUND, BRK, CONT
    def RET(self, v): return RetV(v)
    def is_ret(self, r): return isinstance(r, RetV)
    def unsupported(self, w): raise Unsupported(w)
    def bases(self, *bs):
        out = []
        host = dict(str=str, int=int, tuple=tuple, float=float, object=object)
        bs = tuple(host.get(b.name, b) if isinstance(b, TypeModel) else b for b in bs)
        for b in bs:
            if isinstance(b, type):
                if issubclass(b, enum.Enum) or issubclass(b, BaseException): return list(bs)
                out.append(b)
        bs = [b for b in out if b is not object and b.__name__ not in ("ABC",)]
        if not any(issubclass(b, PObj) for b in bs): bs.append(PObj)
        return bs
    def lst(self, *xs): return PList.of(xs)
    def star(self, x):
        it = to_iter(x)
        if not isinstance(it, list): raise Unsupported("star of symbolic sequence")
        return it
    def set_(self, *xs):
        s = PSet()
        for x in xs: s.add(x)
        return s
    def dict_(self, *kvs):
        d = PDict()
        for k, v in kvs:
            if k is None: d.update(v)
            else: d[k[0]] = v
        return d
    def fstr(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, tuple):
                v, spec, conv = p
                if isinstance(v, (str, int, float, bool)) and spec is None: out.append(_b.str(v))
                elif isinstance(v, (V, SChar, SStr)) and const_int(v) is not None: out.append(_b.str(const_int(v)))
                else: out.append(FPart(v, spec))
            else: out.append(p)
        if all(isinstance(x, _b.str) for x in out): return "".join(out)
        return FStr(out)
    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n: raise ValueError("unpack")
            return v
        it = to_iter(v)
        if not isinstance(it, list):
            raise Unsupported("unpack of symbolic sequence")
        if len(it) != n: raise ValueError("unpack")
        return tuple(it)
    def unpack_deep(self, v, pat):
        if pat is None: return v
        v = self.unpack(v, len(pat))
        return tuple(self.unpack_deep(x, p) for x, p in zip(v, pat))
    def flat_unpack(self, v, pat):
        if pat is None: return [v]
        v = self.unpack(v, len(pat))
        return [y for x, p in zip(v, pat) for y in self.flat_unpack(x, p)]
    def in_(self, a, b): return contains(b, a)
    def not_in(self, a, b):
        r = contains(b, a)
        return (not r) if isinstance(r, bool) else mk(z3.Not(to_bool(lift(r))))
    def is_(self, a, b):
        if b is None or a is None: return a is b
        if isinstance(b, bool):
            if isinstance(a, bool): return a is b
            if isinstance(a, V):
                if a.t.sort() == B and not a.np: return mk(a.t if b else z3.Not(a.t))
                return False
            return False
        if isinstance(a, bool): return self.is_(b, a)
        if isinstance(a, V) and isinstance(b, V): raise Unsupported("identity of symbolic scalars")
        return a is b
    def is_not(self, a, b):
        r = self.is_(a, b)
        return (not r) if isinstance(r, bool) else mk(z3.Not(to_bool(lift(r))))
    def join(self, sep, x):
        if not isinstance(sep, str): return sep.join(x)
        it = to_iter(x)
        if isinstance(it, list):
            if all(isinstance(v, str) for v in it): return sep.join(it)
            if any(isinstance(v, FStr) for v in it): return FStr([FPart(v, None) for v in it])
            r = seqs.as_sstr("")
            for j, v in enumerate(it): r = r + (seqs.as_sstr(sep) + seqs.as_sstr(v) if j and sep else seqs.as_sstr(v))
            return r
        if isinstance(it, Seq) and sep == "":
            src = getattr(it.item, "__self__", None)
            item = PList(src.segs).get if isinstance(src, PList) else it.item
            def ch(i):
                v = item(V(i))
                if isinstance(v, str):
                    if len(v) != 1: raise Unsupported("join of multi-character strings")
                    return z3.IntVal(ord(v))
                if isinstance(v, SChar): return v.t
                raise Unsupported("join")
            return SStr(it.n, ch)
        raise Unsupported("join of symbolic sequence")
    # ---- loops
    def for_loop(self, lid, it, body, get, set_, names):
        it = to_iter(it)
        if isinstance(it, PieceSeq):
            for s in it.segs:
                if s[0] == "c": r = body(s[1])
                elif s[0] == "s": r = self.for_loop(lid, Seq(s[1], s[2]), body, get, set_, names)
                elif s[0] == "f":
                    g, f = s[2], s[3]
                    def fb(i, g=g, f=f):
                        if bool(mk(to_bool(lift(g(i))))): return body(f(i))
                        return CONT
                    r = self.for_loop(lid, Seq(s[1], lambda i: i), fb, get, set_, names)
                else: raise Unsupported("iteration over a list under construction")
                if r is BRK or isinstance(r, RetV): return r
            return CONT
        if isinstance(it, list):
            for x in it:
                r = body(x)
                if r is BRK: return BRK
                if isinstance(r, RetV): return r
            return CONT
        # a range whose emptiness is decided by the context
        if E.entails(lift(it.n) <= 0): return CONT
        inv = E.loops.get(lid)
        if inv is not None: return inv(self, it, body, get, set_, names)
        init = get()
        try: return Summ(lid, it.n, it.item, body, get, set_, names).go()
        except Unsupported:
            set_(tuple(init))
            if not self.first_iter_leaves(it, body): raise
            set_(tuple(init))
        # every path of the first iteration leaves the loop: the loop is its first iteration
        if not bool(mk(lift(it.n) > 0)): return CONT
        return body(it.item(0))
    def first_iter_leaves(self, it, body):
        def run():
            if not bool(mk(lift(it.n) > 0)): raise PathEnd()
            return body(it.item(0))
        try: ps = E.explore(run)
        except Unsupported: return False
        return bool(ps) and all(p.exc is not None or p.result is BRK or isinstance(p.result, RetV) for p in ps)
    def while_loop(self, lid, cond, body, get, set_, names):
        inv = E.loops.get(lid)
        if inv is not None: return inv(self, cond, body, get, set_, names)
        n = 0
        while True:
            c = cond()
            if isinstance(c, V):
                t = to_bool(c.t)
                if not (E.entails(t) or E.entails(z3.Not(t))):
                    return self.while_sym(lid, cond, body, get, set_, names)
                c = bool(c)
            if not c: return CONT
            r = body()
            if r is BRK or isinstance(r, RetV): return r
            n += 1
            if n > 64:
                raise Unsupported(f"{lid}: while loop without a bound or invariant")
    def while_sym(self, lid, cond, body, get, set_, names):
        """while v < n: ...; v += 1   (one unit-step counter) as a counted loop"""
        init = list(get())
        # find the counter: explore the body once with scalars havoced
        cand = []
        for j, nm in enumerate(names):
            if not is_scalar(init[j]) or lift(init[j]).sort() != I: continue
            c = fresh("w_" + nm)
            def run():
                vals = list(init); vals[j] = V(c); set_(tuple(vals))
                if not cond(): raise PathEnd()
                return body()
            try: ps = E.explore(run, lambda p: get()[j])
            except Unsupported: continue
            finally: set_(tuple(init))
            ps = [p for p in ps if p.result is CONT and p.exc is None]
            steps = {simp(lift(p.info) - c).sexpr() for p in ps}
            if len(steps) == 1:
                st = next(iter(steps))
                stv = simp(lift(ps[0].info) - c)
                if z3.is_int_value(stv) and abs(stv.as_long()) == 1: cand.append((j, stv.as_long()))
        for j, st in cand:
            c = fresh("w")
            conds = []
            def runc():
                vals = list(init); vals[j] = V(c); set_(tuple(vals))
                r = cond()
                return bool(r)
            try: ps = E.explore(runc)
            finally: set_(tuple(init))
            ct = simp(z3.Or(*[p.guard for p in ps if p.result]))
            ct = strip_hyps(ct)
            kb = _kbound(ct, c)
            s0 = lift(init[j])
            if kb and kb[0] == "ub" and st == 1: n = simp(z3.If(kb[1] > s0, kb[1] - s0, z3.IntVal(0)))
            elif kb and kb[0] == "lb" and st == -1: n = simp(z3.If(s0 >= kb[1], s0 - kb[1] + 1, z3.IntVal(0)))
            else: continue
            if E.entails(n >= 0) and z3.is_app_of(n, z3.Z3_OP_ITE):
                if E.entails(n.arg(0)): n = n.arg(1)
            return self.for_loop(lid + "w", Seq(mk(n), lambda i: i), lambda _: body(), get, set_, names)
        raise Unsupported(f"{lid}: while loop needs an invariant")
    def comp(self, lid, kind, it, lam, flat):
        res = PList() if kind in ("list", "gen") else PSet() if kind == "set" else PDict()
        def body(x):
            g, el = lam(x)
            gv = g()
            if gv is not True and not bool(gv): return CONT
            v = el()
            if flat:
                if kind in ("list", "gen"): res.extend(v)
                elif kind == "set": res.update(v)
                else: res.update(v)
            elif kind in ("list", "gen"): res.append(v)
            elif kind == "set": res.add(v)
            else: res[v[0]] = v[1]
            return CONT
        self.for_loop(lid, it, body, lambda: (), lambda v: None, ())
        return res
RT = _RT()

def strip_hyps(t): return t

class FPart:
    def __init__(self, v, spec): self.v, self.spec = v, spec
class FStr:
    """opaque formatted string"""
    def __init__(self, parts): self.parts = parts
    def __add__(self, o): return FStr(self.parts + (o.parts if isinstance(o, FStr) else [o]))
    def __radd__(self, o): return FStr([o] + self.parts)
    def __eq__(self, o): raise Unsupported("comparison of formatted strings")
    __hash__ = object.__hash__

def contains(b, a):
    if isinstance(b, (PList, PSet, PDict)): return b.contains(a)
    if isinstance(b, (tuple, list)):
        cs = []
        for x in b:
            r = eq_vals(x, a)
            if r is True: return True
            if r is not False: cs.append(to_bool(lift(r)))
        return mk(z3.Or(*cs)) if cs else False
    if isinstance(b, (set, frozenset)): return contains(list(b), a)
    if isinstance(b, dict):
        return contains(list(b), a)
    if isinstance(b, str):
        if isinstance(a, str): return a in b
        if isinstance(a, SChar): return mk(z3.Or(*[a.t == ord(c) for c in b]))
    if isinstance(b, range):
        c = const_int(a)
        if c is not None: return c in b
        if b.step == 1: return mk(andb(lift(a) >= b.start, lift(a) < b.stop))
    if isinstance(b, SStr):
        if isinstance(a, (str, SChar)):
            x = seqs.as_sstr(a)
            if const_int(x.n) == 1: return mk(exists(b.n, lambda i: b.fn(i) == x.fn(z3.IntVal(0))))
    if isinstance(b, Seq): return mk(exists(b.n, lambda i: lift(eq_vals(b.item(V(i)), a))))
    if isinstance(b, A.SArr):
        return mk(A.reduce_any(b == a).t) if isinstance(A.reduce_any(b == a), V) else A.reduce_any(b == a)
    if isinstance(b, enum.EnumMeta): return a in b
    if hasattr(b, "__contains__"): return b.__contains__(a)
    raise Unsupported(f"in {type(b).__name__}")

# ------------------------------------------------------------ builtins
def b_len(x):
    if hasattr(type(x), "__vc_len__"): return x.__vc_len__()
    if hasattr(x, "vc_len"):
        return x.vc_len()
    if isinstance(x, Seq): return x.n
    return _b.len(x)

class SRange(Seq):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        d = mk(lift(hi) - lift(lo)) if step > 0 else mk(lift(lo) - lift(hi))
        s = _b.abs(step)
        if s != 1: d = mk((lift(d) + (s - 1)) / s)
        if not E.entails(lift(d) >= 0): d = mk(z3.If(lift(d) > 0, lift(d), z3.IntVal(0)))
        super().__init__(d, lambda i: mk(lift(lo) + lift(i) * step))
    def vc_len(self): return self.n

def b_range(*a):
    cs = [const_int(x) for x in a]
    if all(c is not None for c in cs): return _b.range(*cs)
    if _b.len(a) == 1: return SRange(0, a[0])
    if _b.len(a) == 2: return SRange(a[0], a[1])
    if cs[2] is None: raise Unsupported("symbolic range step")
    return SRange(a[0], a[1], cs[2])

def b_int(x=0, base=None):
    if isinstance(x, V):
        if x.t.sort() == R: return mk(A.cast(x.t, "i"))
        return mk(to_int(x.t))
    if isinstance(x, A.SArr): return b_int(x.item())
    if isinstance(x, SChar):
        if E.entails(z3.And(x.t >= 48, x.t <= 57)): return mk(x.t - 48)
        if E.branch(z3.And(x.t >= 48, x.t <= 57)): return mk(x.t - 48)
        raise ValueError("invalid literal for int()")
    if isinstance(x, (SStr, FStr)): raise Unsupported("int(str)")
    return _b.int(x) if base is None else _b.int(x, base)
def b_bool(x=False):
    if isinstance(x, V):
        return mk(to_bool(x.t))
    if isinstance(x, A.SArr):
        if all(const_int(s) == 1 for s in x._shape): return mk(to_bool(x.at(*[z3.IntVal(0)] * x.ndim)))
    return _b.bool(x)
def b_float(x=0.0):
    if isinstance(x, V): return mk(to_real(x.t))
    if isinstance(x, A.SArr): return b_float(x.item())
    return _b.float(x)
def b_str(x=""):
    if isinstance(x, (V, SStr, SChar, FStr, A.SArr, PList, PDict, PSet)):
        if isinstance(x, (SStr, SChar)): return x
        if isinstance(x, V):
            if const_int(x) is not None and x.t.sort() != R: return _b.str(const_int(x))
            if E.entails(z3.And(to_arith(x.t) >= 0, to_arith(x.t) <= 9)) and x.t.sort() != B: return SChar(simp(to_int(x.t) + 48))
        return FStr([FPart(x, None)])
    return _b.str(x)
def b_sum(x, start=0):
    it = to_iter(x)
    if isinstance(it, list):
        r = start
        for v in it: r = r + v
        return r
    if isinstance(it, PieceSeq):
        r = start
        for s in it.segs:
            if s[0] == "c": r = r + s[1]
            elif s[0] == "s": r = r + sum_seg(s[1], s[2])
            elif s[0] == "f":
                r = r + mk(ssum(0, s[1], lambda i, s=s: zif(lift(s[2](V(i))), to_arith(lift(s[3](V(i)))))))
            else: raise Unsupported("sum")
        return r
    return start + sum_seg(it.n, it.item)
def zif(g, t): return z3.If(to_bool(g), t, z3.IntVal(0) if t.sort() == I else z3.RealVal(0))
def sum_seg(n, item):
    pv = item(V(fresh("probe")))
    if isinstance(pv, A.SArr):
        s = pv
        def f(*idx): return ssum(0, n, lambda k: to_arith(item(V(k)).snapshot().at(*idx)))
        return A.SArr(pv._shape, f, "i" if pv.kind == "b" else pv.kind).copy()
    return mk(ssum(0, n, lambda i: to_arith(lift(item(V(i))))))
def quant(x, univ):
    it = to_iter(x)
    if isinstance(it, list):
        ts = []
        for v in it:
            if isinstance(v, V): ts.append(to_bool(v.t))
            else:
                b = _b.bool(v)
                if b != univ: return b
        if not ts: return univ
        return mk(z3.And(*ts) if univ else z3.Or(*ts))
    segs = it.segs if isinstance(it, PieceSeq) else [("s", it.n, it.item)]
    ts = []
    for s in segs:
        if s[0] == "c": ts.append(to_bool(lift(b_bool(s[1]))))
        elif s[0] == "s":
            f = lambda i, s=s: to_bool(lift(b_bool(s[2](V(i)))))
            ts.append(z3.Not(ex_range(s[1], lambda i: simp(z3.Not(f(i))))) if univ else ex_range(s[1], f))
        elif s[0] == "f":
            f = lambda i, s=s: to_bool(lift(b_bool(s[3](V(i))))); g = lambda i, s=s: to_bool(lift(s[2](V(i))))
            ts.append(z3.Not(ex_range(s[1], lambda i: simp(z3.And(g(i), z3.Not(f(i)))))) if univ else ex_range(s[1], lambda i: z3.And(g(i), f(i))))
        else: raise Unsupported("quantifier over list under construction")
    return mk(z3.And(*ts) if univ else z3.Or(*ts))
def b_all(x): return quant(x, True)
def b_any(x): return quant(x, False)
def b_minmax(lt):
    def f(*a, key=None, default=None):
        if key is not None: raise Unsupported("min/max key")
        if _b.len(a) == 1:
            it = to_iter(a[0])
            if not isinstance(it, list):
                if isinstance(it, PieceSeq): raise Unsupported("min/max of segmented list")
                # characterised by axioms
                if not bool(mk(lift(it.n) > 0)):
                    if default is not None: return default
                    raise ValueError("min()/max() arg is an empty sequence")
                pv = lift(it.item(V(fresh("probe"))))
                m = E.skolem("ext", to_arith(pv).sort()); w = E.skolem("extw")
                E.assume(z3.And(w >= 0, w < lift(it.n), to_arith(lift(it.item(V(w)))) == m))
                E.assume(forall(it.n, lambda i: (m <= to_arith(lift(it.item(V(i))))) if lt else (m >= to_arith(lift(it.item(V(i)))))))
                return V(m)
            if not it:
                if default is not None: return default
                raise ValueError("min()/max() arg is an empty sequence")
            a = it
        r = a[0]
        for x in a[1:]:
            if all(not isinstance(y, V) for y in (r, x)): r = (_b.min if lt else _b.max)(r, x)
            else:
                p, q = unify(lift(r), lift(x))
                r = mk(z3.If(q < p, q, p) if lt else z3.If(q > p, q, p))
        return r
    return f
def b_enumerate(x, start=0):
    it = to_iter(x)
    if isinstance(it, list): return [(mk(lift(start) + j) if isinstance(start, V) else start + j, v) for j, v in _b.enumerate(it)]
    if isinstance(it, PieceSeq):
        l = PList(seqs.defilter(it.segs))
        return Seq(l.vc_len(), lambda i: (i + start, l.get(i)))
    return Seq(it.n, lambda i: (i + start, it.item(i)))
def b_zip(*xs, strict=False):
    its = [to_iter(x) for x in xs]
    if all(isinstance(i, list) for i in its):
        if strict and len({_b.len(i) for i in its}) > 1: raise ValueError("zip() argument lengths differ")
        return list(_b.zip(*its))
    ss = []
    for i in its:
        if isinstance(i, list): l = PList.of(i); ss.append(Seq(_b.len(i), l.get))
        elif isinstance(i, PieceSeq): l = PList(i.segs); ss.append(Seq(l.vc_len(), l.get))
        else: ss.append(i)
    n = lift(ss[0].n)
    for s in ss[1:]:
        if not E.entails(n == lift(s.n)):
            if strict:
                if not bool(mk(n == lift(s.n))): raise ValueError("zip() argument lengths differ")
            else: n = tmin(n, lift(s.n))
    return Seq(mk(n), lambda i: tuple(s.item(i) for s in ss))
def b_sorted(x, key=None, reverse=False):
    it = to_iter(x)
    if isinstance(it, list):
        if key is None and all(not isinstance(v, V) for v in it): return PList.of(_b.sorted(it, reverse=reverse))
        if key is not None:
            ks = [key(v) for v in it]
            if all(not isinstance(k, V) for k in ks):
                return PList.of([v for _, v in _b.sorted(_b.zip(ks, it), key=lambda p: p[0], reverse=reverse)])
    raise Unsupported("sorted of symbolic values")
def b_reversed(x):
    it = to_iter(x)
    if isinstance(it, list): return it[::-1]
    if isinstance(it, PieceSeq): return PList(it.segs)._rev()
    return Seq(it.n, lambda i: it.item(mk(lift(it.n) - 1 - lift(i))))
def b_list(x=()):
    it = to_iter(x)
    if isinstance(it, list): return PList.of(it)
    if isinstance(it, PieceSeq): return PList(it.segs)
    return PList.of_seq(it)
def b_tuple(x=()):
    it = to_iter(x)
    if isinstance(it, list): return tuple(it)
    return b_list(x)
def b_set(x=()):
    if isinstance(x, PSet): return x.copy()
    s = PSet(); s.update(b_list(x)) if not isinstance(x, (tuple,)) else s.update(PList.of(x)); return s
def b_dict(*a, **k):
    d = PDict()
    if a: d.update(a[0])
    for kk, v in k.items(): d[kk] = v
    return d
def b_map(f, *xs):
    if _b.len(xs) > 1: return RT.comp("map", "list", b_zip(*xs), lambda x: (lambda: True, lambda: f(*x)), False)
    return RT.comp("map", "list", xs[0], lambda x: (lambda: True, lambda: f(x)), False)
def b_filter(f, xs): return RT.comp("filter", "list", xs, lambda x: (lambda: True if f is None and x else f(x), lambda: x), False)
def b_abs(x): return _b.abs(x)
def b_print(*a, **k): return None
def b_isinstance(x, t):
    if isinstance(t, _Union): return any(b_isinstance(x, y) for y in t.ts)
    if isinstance(t, tuple): return any(b_isinstance(x, y) for y in t)
    if isinstance(t, TypeModel): return t.check(x)
    if isinstance(t, type): return _b.isinstance(x, t)
    if type(t).__name__ == "UnionType": return any(b_isinstance(x, y) for y in t.__args__)
    if hasattr(t, "vc_check"): return t.vc_check(x)
    raise Unsupported(f"isinstance with {t!r}")
def b_id(x): raise Unsupported("id()")
def b_hash(x): return _b.hash(x)
def b_round(x, n=None):
    if isinstance(x, V): raise Unsupported("round")
    return _b.round(x, n) if n is not None else _b.round(x)
def b_next(x, *d):
    it = to_iter(x)
    if isinstance(it, list):
        if it: return it[0]
        if d: return d[0]
        raise StopIteration
    raise Unsupported("next")
def b_chr(x): return SChar(lift(x)) if isinstance(x, V) else _b.chr(x)
def b_ord(x): return mk(x.t) if isinstance(x, SChar) else _b.ord(x)
def b_open(*a, **k): raise Unsupported("file access")

def is_int(x): return (isinstance(x, bool) or isinstance(x, int) or (isinstance(x, V) and x.t.sort() == I and not x.np))
BUILTINS = dict(
    len=b_len, range=b_range, sum=b_sum, all=b_all, any=b_any, min=b_minmax(True), max=b_minmax(False), enumerate=b_enumerate, zip=b_zip,
    sorted=b_sorted, reversed=b_reversed, map=b_map, filter=b_filter, print=b_print, isinstance=b_isinstance, id=b_id, round=b_round, next=b_next,
    chr=b_chr, ord=b_ord, open=b_open,
    int=TypeModel("int", b_int, is_int), bool=TypeModel("bool", b_bool, lambda x: isinstance(x, bool) or (isinstance(x, V) and x.t.sort() == B and not x.np)),
    float=TypeModel("float", b_float, lambda x: isinstance(x, float) or (isinstance(x, V) and x.t.sort() == R)),
    str=TypeModel("str", b_str, lambda x: isinstance(x, (str, SStr, SChar, FStr))),
    list=TypeModel("list", b_list, lambda x: isinstance(x, (list, PList))),
    tuple=TypeModel("tuple", b_tuple, lambda x: isinstance(x, tuple)),
    set=TypeModel("set", b_set, lambda x: isinstance(x, PSet)), frozenset=TypeModel("frozenset", b_set, lambda x: isinstance(x, PSet)),
    dict=TypeModel("dict", b_dict, lambda x: isinstance(x, PDict)),
)
E.loops = {}
