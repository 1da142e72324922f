"""Runtime-contract replay on the real code: bounded enumeration, labelled bounded, never counted as proved."""
import json, sys, time, random, signal, traceback, os
CHECKS = []
def check(name, weight=1.0):
    def deco(f): CHECKS.append((name, f)); return f
    return deco
class Timeout(BaseException): pass
class Run:
    def __init__(self, tier, seed, budget):
        self.tier, self.seed, self.budget = tier, seed, budget
        self.viol, self.n, self.seen, self.samples, self.per = [], 0, set(), [], {}
        self.t0 = time.time(); self.cur = None; self.complete = True; self.vc = {}
        self.deadline = self.t0 + budget
    @property
    def thorough(self): return self.tier == "thorough"
    def pick(self, q, t): return t if self.thorough else q
    def rng(self, salt=0): return random.Random(f"{self.seed}:{self.cur}:{salt}")
    def out_of_time(self):
        if time.time() > self.deadline: self.complete = False; return True
        return False
    mm = None                                     # fork mode: the input under test, readable after a crash
    def note(self, inp):
        if self.mm is not None:
            b = repr((self.cur, inp)).encode()[:4000]; self.mm[:len(b) + 1] = b + b"\0"
    def case(self, inp):
        self.n += 1; self.per[self.cur] = self.per.get(self.cur, 0) + 1
        h = hash((self.cur, repr(inp)[:4000]))
        if h not in self.seen:
            self.seen.add(h)
            if len(self.samples) < 6 and (self.per[self.cur] in (2,)): self.samples.append({self.cur: repr(inp)[:300]})
    def bad(self, detail, inp=None, key=None):
        key = key or self.cur
        self.vc[key] = self.vc.get(key, 0) + 1
        if self.vc[key] <= 3: self.viol.append(dict(key=key, input=repr(inp)[:3000], detail=str(detail)[:1500]))
    def ok(self, cond, detail="", inp=None, key=None):
        self.case(inp)
        if not cond: self.bad(detail, inp, key)
        return cond
    def raises(self, fn, exc, inp=None, key=None, detail="no exception"):
        self.case(inp); self.note(inp)
        if self.mm is not None: signal.setitimer(signal.ITIMER_REAL, 20)
        try: r = fn()
        except exc: return True
        except Exception as e: self.bad(f"raised {type(e).__name__}: {e} instead of {exc}", inp, key); return False
        self.bad(f"{detail}: returned {r!r}"[:500], inp, key); return False
    def call(self, fn, inp=None, key=None, secs=None):
        """run fn(); an unexpected exception is a violation; returns (ok, result)"""
        self.note(inp)
        if self.mm is not None and not secs: secs = 20
        try:
            if secs: signal.setitimer(signal.ITIMER_REAL, secs)
            return True, fn()
        except Timeout: self.bad(f"no answer within {secs} s", inp, key); return False, None
        except Exception as e:
            self.bad(f"raised {type(e).__name__}: {e} @ {traceback.format_exc().strip().splitlines()[-3:]}", inp, key); return False, None
        finally:
            if secs: signal.setitimer(signal.ITIMER_REAL, 0)
def _alarm(*a): raise Timeout()
def main(bounds=""):
    tier, seed, budget = (sys.argv + ["quick", "1", "90"][len(sys.argv) - 1:])[1:4]
    only = sys.argv[4] if len(sys.argv) > 4 else None
    r = Run(tier, int(seed), float(budget))
    signal.signal(signal.SIGALRM, _alarm)
    for name, f in CHECKS:
        if only and only not in name: continue
        r.cur = name; t = time.time()
        if FORK: forked(r, f)
        else: inner(r, f)
        if only or os.environ.get("RT_V"): print(name, r.per.get(name), round(time.time() - t, 2), file=sys.stderr)
    if only or os.environ.get("RT_V"):
        for v in r.viol: print(v, file=sys.stderr)
    print("REPLAY-JSON " + json.dumps(dict(evaluations=r.n, distinct=len(r.seen), per_clause=r.per, violations=r.viol, samples=r.samples, bounds=bounds, complete=r.complete), default=str))
FORK = False
def inner(r, f):
        try: f(r)
        except Timeout: r.bad("no answer (timeout)")
        except Exception as e: r.bad(f"raised {type(e).__name__}: {e} @ " + " | ".join(traceback.format_exc().strip().splitlines()[-7:]))
def forked(r, f):
    """run one check in a child process: crashes and endless loops of compiled code are violations of that check only"""
    import mmap, pickle, tempfile
    r.mm = mmap.mmap(-1, 8192); fd, path = tempfile.mkstemp(); os.close(fd)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
            if not os.environ.get("RT_V"): os.dup2(dn, 2)
            inner(r, f)
            mm, r.mm = r.mm, None
            pickle.dump((r.viol, r.n, r.seen, r.samples, r.per, r.complete, r.vc), open(path, "wb"))
        finally: os._exit(0)
    _, st = os.waitpid(pid, 0)
    try: r.viol, r.n, r.seen, r.samples, r.per, r.complete, r.vc = pickle.load(open(path, "rb"))
    except Exception:
        inp = bytes(r.mm[:]).split(b"\0")[0].decode(errors="replace"); sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
        r.complete = False; r.bad("no answer (endless loop)" if sig == signal.SIGALRM else f"the process crashed (signal {sig})" if sig else "the process ended without an answer", inp)
    r.mm = None; os.unlink(path)
