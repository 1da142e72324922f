from contracts.lib import *
from vc.sparse import Sp
B_ = "analog_information_decoding."
U = B_ + "utils.simulation_utils"; T = B_ + "simulators.analog_tannergraph_decoding"; M = B_ + "simulators.memory_experiment_v2"; S = B_ + "simulators.simulation"
NOTES = dict(assumptions=["matrix entries are arbitrary integers; sparse formats are treated as the matrices they denote"],
             outside=["scipy.sparse block_diag / eye / hstack (assumed contracts, sampled by the replay)"])

def intmat(name, r, c): return sym_array(name, (r, c))
def analog_spec(H, m, n):
    return lambda i, j: z3.If(j < n.t, A.cast(H.at(i, j), "i"), b01(j - n.t == i))

@contract("C20", U + ":build_single_stage_pcm")
def single_stage(c):
    m, n, l = Nat("m"), Nat("n"), Nat("l")
    H, Me = intmat("H", m, n), intmat("M", l, m)
    c.run(lambda: c.fn()(H, Me), lambda r: arr_is(c, "single-stage matrix [[H, I], [0, M]]", r, (m + l, n + m), lambda i, j: z3.If(i < m.t, z3.If(j < n.t, H.at(i, j), b01(j - n.t == i)), z3.If(j < n.t, z3.IntVal(0), Me.at(i - m.t, j - n.t)))))

@contract("C20", T + ":get_analog_pcm")
def analog(c):
    m, n = Nat("m"), Nat("n"); H = intmat("H", m, n)
    c.run(lambda: c.fn()(H), lambda r: arr_is(c, "analog matrix [H | I]", r, (m, n + m), analog_spec(H, m, n)))

@contract("C20", S + ":SingleShotSimulator.construct_analog_pcms")
def analog_both(c):
    m, n, m2 = Nat("mx"), Nat("n"), Nat("mz"); H, H2 = intmat("Hx", m, n), intmat("Hz", m2, n)
    o = c.obj(S, "SingleShotSimulator", Hx=H, Hz=H2)
    def post(r):
        x, z = r
        arr_is(c, "X analog matrix [Hx | I]", x, (m, n + m), analog_spec(H, m, n))
        arr_is(c, "Z analog matrix [Hz | I]", z, (m2, n + m2), analog_spec(H2, m2, n))
    c.run(lambda: o.construct_analog_pcms(), post)

def multiround(name, sp):
    @contract("C20", M + ":build_multiround_pcm", name)
    def f(c):
        m, n, R_ = Nat("m", 1), Nat("n", 1), Nat("reps")
        H = intmat("H", m, n)
        arg = Sp(H) if sp else H
        rounds = R_ + 1
        def spec(i, j):
            # column j of data round s, data column q; time-like column s, check q
            N = n.t * rounds.t
            t, r = i / m.t, i % m.t
            data = z3.If(t == j / n.t, H.at(r, j % n.t), 0)
            k = j - N
            time = z3.If(z3.Or(k == i, k + m.t == i), z3.IntVal(1), z3.IntVal(0))
            return z3.If(j < N, data, time)
        def post(r):
            if not c.ob("result is a sparse matrix", isinstance(r, Sp)): return
            arr_is(c, "block diagonal of check matrices next to the two-diagonal staircase", r.arr, (m * rounds, n * rounds + m * rounds), spec)
            # block form: round t of the checks sees exactly the data of round t, its own time-like block and the one of round t-1
            t, s, a, q, b = z3.Ints("t s a q b")
            inr = z3.And(t >= 0, t < rounds.t, s >= 0, s < rounds.t, a >= 0, a < m.t)
            E.ctxs.append(core.Ctx([]))
            try:
                E.assume(z3.And(inr, q >= 0, q < n.t))
                divmod_hint(t, m.t, a); divmod_hint(s, n.t, q)
                c.ob("data block (t, s) is the check matrix when t = s and zero otherwise", z3.simplify(z3.BoolVal(True)) if False else (r.arr.at(t * m.t + a, s * n.t + q) == z3.If(t == s, H.at(a, q), 0)))
            finally: E.ctxs.pop()
        c.run(lambda: c.fn()(arg, R_), post)
def divmod_hint(t, m, a):
    """t*m + a divides to (t, a) for 0 <= a < m"""
    E.assume(z3.And((t * m + a) / m == t, (t * m + a) % m == a))
multiround("multiround_dense", False)
multiround("multiround_sparse", True)
