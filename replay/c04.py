import itertools, rt, cxxbuild
from rt import check
rt.FORK = True
Q = cxxbuild.core()
class Model:
    """the same forest, kept as plain sets"""
    def __init__(self, chk):
        n = len(chk); self.par = [-1] * n; self.ch = [[] for _ in range(n)]; self.size = [1] * n; self.cv = [[i] if chk[i] else [] for i in range(n)]; self.chk = chk
    def root(self, i):
        while self.par[i] >= 0: i = self.par[i]
        return i
def state(f, n): return [(f.parent(i), f.children(i), f.size(i), f.checks(i), sorted(f.boundary(i)), f.marked(i)) for i in range(n)]
def run(R, chk, ops):
    n = len(chk); f = Q.Forest(chk); m = Model(chk); inp = (chk, ops)
    R.case(inp); R.note(inp)
    for op in ops:
        before = state(f, n)
        if op[0] == "f":
            ok, r = R.call(lambda: f.find(op[1]), inp)
            if not ok: return
            if r != m.root(op[1]): return R.bad(f"find({op[1]}) = {r}, root is {m.root(op[1])}", inp)
            if state(f, n) != before: return R.bad(f"find({op[1]}) changed the forest", inp)
            continue
        a, b = m.root(op[1]), m.root(op[2])
        ok, r = R.call(lambda: f.unite(op[1], op[2]), inp)
        if not ok: return
        now = state(f, n)
        if a == b:
            if now != before: return R.bad(f"merge within one tree {op} changed the forest", inp)
            continue
        if now[a][0] == b: pass
        elif now[b][0] == a: a, b = b, a
        else: return R.bad(f"{op}: roots {a}, {b} not attached to each other: {now}", inp)
        if m.size[a] > m.size[b]: return R.bad(f"{op}: larger tree {a} ({m.size[a]}) below smaller {b} ({m.size[b]})", inp)
        exp = [list(x) for x in before]
        exp[a][0] = b; exp[b][1] = before[b][1] + [a]; exp[b][2] = before[a][2] + before[b][2]
        exp[b][3] = before[b][3] + before[a][3]; exp[a][3] = [a] if chk[a] else []
        got = [list(x) for x in now]
        if sorted(got[b][3]) == sorted(exp[b][3]): got[b][3] = exp[b][3]
        if got != exp: return R.bad(f"{op}: state {[(i, g, e) for i, (g, e) in enumerate(zip(got, exp)) if g != e]}", inp)
        m.par[a] = b; m.size[b] += m.size[a]
@check("all short histories of small forests")
def a(R):
    for n in (1, 2, 3):
        ops = [("f", i) for i in range(n)] + [("u", i, j) for i in range(n) for j in range(n)]
        for chk in itertools.product([False, True], repeat=n):
            for h in itertools.product([o for o in ops if o[0] == "u"], repeat=3):
                if R.out_of_time(): return
                run(R, list(chk), list(h) + ops[:n])
@check("random histories")
def b(R):
    rng = R.rng()
    for k in range(R.pick(600, 8000)):
        if R.out_of_time(): return
        n = rng.choice([2, 4, 5, 8, 13, 40]); chk = [rng.random() < 0.5 for _ in range(n)]
        run(R, chk, [("f", rng.randrange(n)) if rng.random() < 0.4 else ("u", rng.randrange(n), rng.randrange(n)) for _ in range(rng.choice([n, 3 * n]))])
@check("deep trees")
def c(R):
    # merging equal-sized trees doubles the depth by one: find from the deepest leaf, merge of inner nodes
    for k in range(1, R.pick(7, 9)):
        n = 2 ** k; ops = []
        for s in range(k): ops += [("u", i, i + 2 ** s) for i in range(0, n, 2 ** (s + 1))]
        for extra in ([], [("u", 0, n - 1)], [("f", i) for i in range(n)]): run(R, [i % 3 == 0 for i in range(n)], ops + extra); run(R, [True] * n, [(o[0], *reversed(o[1:])) for o in ops] + extra)
    n = 30; run(R, [i % 2 == 0 for i in range(n)], [("u", i, i + 1) for i in range(n - 1)] + [("f", i) for i in range(n)])
rt.main("forests of up to 3 nodes: all histories of 3 merges; random histories on up to 40 nodes; trees of depth up to 6 (8 thorough)")
