#!/usr/bin/env python3
"""Deterministic simulation of the Python wrapper: real pygeodiff and ctypes, simulated C library (stub.c) behind it.
One seeded list of numbers decides every argument, return code, message, schedule switch between threads, garbage
collection and failing callback. Same protocol as the C++ simulator (run / replay / minimise), see tools/check.py."""
import sys, os, random, json, time, mmap, struct, ctypes, threading, gc, zlib, hashlib, shutil, tempfile, signal, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUB = V + "/build/py/stub.so"
REPO = os.environ.get("PYSIM_REPO", "/repo")
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter("ignore")
MAXCH = 20000

class Violation(Exception):
    def __init__(self, cls, text): self.cls, self.text = cls, text

class Choices:
    def __init__(self, lst=None, seed=None, shm=None):
        self.lst, self.rng, self.n, self.shm = lst, random.Random(seed) if lst is None else None, 0, shm
    def choose(self, n):
        if self.n >= MAXCH: raise Violation("harness", "too many choices")
        v = (self.lst[self.n] if self.n < len(self.lst) else 0) if self.lst is not None else self.rng.getrandbits(31)
        v = v % n if n > 0 else 0
        struct.pack_into("<I", self.shm, 8 + 4 * self.n, v); self.n += 1
        struct.pack_into("<I", self.shm, 0, self.n)
        return v
    def chance(self, pct): return self.choose(100) >= 100 - pct     # 0 is "no"

# ------------------------------------------------------------------ one run
SIG = {  # method -> C function, number of arguments
    "create_changeset": ("createChangeset", 3), "invert_changeset": ("invertChangeset", 2), "rebase": ("rebase", 4),
    "create_rebased_changeset": ("createRebasedChangeset", 5), "apply_changeset": ("applyChangeset", 2),
    "list_changes": ("listChanges", 2), "list_changes_summary": ("listChangesSummary", 2), "has_changes": ("hasChanges", 1), "changes_count": ("changesCount", 1)}
WORDS = ["a.gpkg", "", "/tmp/x y.gpkg", "d\u011bti.gpkg", "\u6d4b\u8bd5.diff", "\U0001f5fa.gpkg", "quo'te\".gpkg", "back\\slash", "new\nline", "%s%n", "e\u0301", "\u00e9", "\ufeffbom", "x" * 300, "\u202ertl", "C:\\d\u00e4ta\\x.gpkg", "-", "\x7f\x01"]

class Sim:
    """threads of one Python process, of which one runs at a time; a C call is where another may go on"""
    def __init__(self, ch, stub, lib_path, pkg, trace):
        self.ch, self.stub, self.lib_path, self.pkg = ch, stub, lib_path, pkg
        self.log = []; self.trace = trace; self.n = {}; self.states = set(); self.switches = []
        self.cur = 0; self.locks = []; self.alive = []; self.fail = None; self.pending = {}; self.cbset = None; self.delivering = None; self.inCb = 0
        self.D = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.POINTER(ctypes.c_char_p))
        self.disp = self.D(self.dispatch)
    def ev(self, s):
        self.log.append(s)
        if self.trace: print("  " + s.encode("unicode_escape").decode()[:300], flush=True)
    def probe(self, k): self.n[k] = self.n.get(k, 0) + 1
    def phase(self, s):
        b = s.encode()[:60]; self.ch.shm[4:8] = struct.pack("<I", len(b)); o = 8 + 4 * MAXCH + 64; self.ch.shm[o:o + len(b)] = b
    def word(self):
        ch = self.ch
        w = WORDS[ch.choose(len(WORDS))]
        if ch.chance(30): w += WORDS[ch.choose(len(WORDS))]
        if ch.chance(15): w += "".join(chr([0x20 + ch.choose(95), 0xa1 + ch.choose(0x500), 0x4e00 + ch.choose(0x100), 0x1f300 + ch.choose(0x100)][ch.choose(4)]) for _ in range(1 + ch.choose(5)))
        return w
    def switch(self):
        c = [i for i, a in enumerate(self.alive) if a]
        if len(c) < 2: return
        t = c[self.ch.choose(len(c))]
        me = self.cur
        if t == me: return
        self.ev(f"switch to thread {t}"); self.switches.append((me, t, len(self.log))); self.probe("switches")
        self.cur = t; self.locks[t].release(); self.locks[me].acquire()
    # the simulated C library
    def dispatch(self, name, n, args):
        try:
            me = self.cur
            p = self.pending.get(me)
            got = [args[i] for i in range(n)]
            name = name.decode()
            if name.endswith("Ex") and got[0] == b"sqlite" and name[:-2] in [s[0] for s in SIG.values()]: name, got = name[:-2], got[2:]
            self.ev(f"C call {name} {got}")
            if p is None or p["done"]: raise Violation("extra-call", f"C function {name} was called although no method that does so was")
            if name != p["c"]: raise Violation("wrong-call", f"{p['m']} called {name} instead of {p['c']}")
            if got != p["args"]: raise Violation("wrong-arguments", f"{p['m']}: C arguments {got} instead of {p['args']}")
            p["done"] = True
            for _ in range(self.ch.choose(4) if self.ch.chance(50) else 0):
                self.message()
                if self.ch.chance(30): self.switch()
            self.switch()
            self.ev(f"C call {name} returns {p['rc']}")
            return p["rc"]
        except Violation as v:
            if self.fail is None: self.fail = v
            return 0
    def message(self):
        if self.ch.chance(15): gc.collect(); self.probe("fault.gc")
        level, text = 1 + self.ch.choose(4), self.word().encode()
        if level > self.stub.stub_level(): return
        if not self.stub.stub_hasCb():
            if self.cbset is not None: raise Violation("callback", "the C library has no callback although one was set")
            return
        self.delivering = (level, text, self.cbset); self.got = []
        self.phase("callback")
        self.stub.stub_log(level, text)
        self.phase("")
        exp, self.delivering = self.delivering, None
        self.ev(f"message {exp[:2]} delivered {self.got}")
        if len(self.got) != 1: raise Violation("callback", f"message {text!r} of level {level} reached {len(self.got)} callbacks instead of the one set")
        cb, gl, gt = self.got[0]
        if cb != exp[2]: raise Violation("callback", f"message went to callback {cb} instead of {exp[2]}")
        if gl != level or (gt.encode() if isinstance(gt, str) else gt) != text: raise Violation("callback", f"callback got {(gl, gt)} instead of {(level, text)}")
        self.probe("messages")
    def run(self):
        ch = self.ch; L = self.pkg; lib = L.geodifflib
        ver = L.__about__.__version__
        mode = ch.choose(20)
        if mode == 19:      # another version of the library, or none at all
            k = ch.choose(4)
            v = [ver + ".1", "0.0.0", "", ver[:-1] + "x"][k]
            self.verb = v.encode(); self.stub.stub_setup(self.disp, self.verb); self.probe("fault.version_mismatch")
            try: L.GeoDiff(self.lib_path)
            except L.GeoDiffLibVersionError: self.ev("refused"); return
            except Exception as e: raise Violation("version", f"library of version {v!r}: {type(e).__name__} instead of GeoDiffLibVersionError")
            raise Violation("version", f"library of version {v!r} was accepted by the wrapper of version {ver!r}")
        if mode == 18:
            self.probe("fault.no_library")
            try: L.GeoDiff(self.lib_path + ".missing")
            except Exception as e: self.ev(f"refused: {type(e).__name__}"); return
            raise Violation("version", "a library that does not exist was accepted")
        self.verb = ver.encode(); self.stub.stub_setup(self.disp, self.verb)
        nobj = 1 + ch.choose(2); objs = []
        for _ in range(nobj):
            before = self.stub.stub_inits()
            try: objs.append(L.GeoDiff(None if ch.chance(40) else self.lib_path))
            except Exception as e: raise Violation("load", f"GeoDiff() failed with {type(e).__name__}: {e}")
            if self.stub.stub_inits() == before: raise Violation("load", "the library was not initialised")
        nthr = 1 + (ch.choose(3) if ch.chance(50) else 0)
        self.locks = [threading.Lock() for _ in range(nthr)]; self.alive = [True] * nthr
        for l in self.locks: l.acquire()
        end = threading.Lock(); end.acquire()
        keep = []
        def thread(i):
            self.locks[i].acquire()
            try:
                for _ in range(1 + ch.choose(6)):
                    if self.fail: break
                    self.op(objs[ch.choose(nobj)], keep)
            except Violation as v:
                if self.fail is None: self.fail = v
            except Exception as e:
                if self.fail is None: self.fail = Violation("harness", f"{type(e).__name__}: {e}")
            self.alive[i] = False
            c = [k for k, a in enumerate(self.alive) if a]
            if c:
                self.cur = c[ch.choose(len(c)) if not self.fail else 0]; self.locks[self.cur].release()
            else: end.release()
        ts = [threading.Thread(target=thread, args=(i,)) for i in range(nthr)]
        for t in ts: t.start()
        self.cur = ch.choose(nthr); self.locks[self.cur].release()
        end.acquire()
        for t in ts: t.join()
        if self.fail: raise self.fail
        self.objs = objs
    def op(self, g, keep):
        ch = self.ch; L = self.pkg; me = self.cur
        k = ch.choose(24)
        if k == 23:
            v = g.version(); self.probe("call.version"); self.ev(f"version {v!r}")
            if v != self.verb.decode(): raise Violation("version", f"version() returned {v!r} instead of {self.verb.decode()!r}")
            return
        if k == 22:
            l = ch.choose(5); g.set_maximum_logger_level(l); self.probe("call.set_maximum_logger_level"); self.ev(f"level {l}")
            if self.stub.stub_level() != l: raise Violation("level", f"set_maximum_logger_level({l}) set level {self.stub.stub_level()}")
            return
        if k >= 20:
            n = len(keep) + 1; keep.append(None); raises = ch.chance(20); meth = ch.chance(30); sim = self
            def cb(level, msg):
                if sim.delivering is None: sim.fail = sim.fail or Violation("callback", "callback ran although no message was logged")
                else: sim.got.append((n, level, msg))
                if raises: sim.probe("fault.callback_raises"); raise RuntimeError("callback failed")
            class O:
                def m(self, level, msg): cb(level, msg)
            g.set_logger_callback(O().m if meth else cb); self.cbset = n; self.probe("call.set_logger_callback"); self.ev(f"callback {n}")
            if not self.stub.stub_hasCb(): raise Violation("callback", "set_logger_callback did not reach the C library")
            if ch.chance(60):     # whoever forgets to keep the callback loses it now
                gc.collect(); self.probe("fault.gc")
                def trap(level, msg): sim.fail = sim.fail or Violation("callback", "a message went to a function nobody registered")
                self.traps = [ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_char_p)(trap) for _ in range(8)]
            if ch.chance(40): self.message()
            return
        ms = list(SIG)
        m = ms[k % len(ms)]; cname, n = SIG[m]
        args = [self.word() for _ in range(n)]
        count = m in ("has_changes", "changes_count")
        if count: rc = [0, 1, -1, 1 + ch.choose(1000), 2147483647, -1 - ch.choose(1000)][ch.choose(6)] if m == "changes_count" else [0, 1, -1][ch.choose(3)]
        else: rc = [0, 1, 2, 3, 4, 127, -1, -2147483648, 2147483647, 256][ch.choose(10) if ch.chance(40) else ch.choose(4)]
        if rc and not (count and rc > 0): self.probe(f"fault.rc_{rc if -1 <= rc <= 3 else 'other'}")
        p = {"m": m, "c": cname, "args": [a.encode("utf-8") for a in args], "rc": rc, "done": False}
        self.pending[me] = p
        self.ev(f"thread {me}: {m}{args}"); self.probe("call." + m)
        val = exc = None
        try: val = getattr(g, m)(*args)
        except Exception as e: exc = e
        if self.fail: return
        if self.cur != me: raise Violation("harness", "scheduler lost track")
        if not p["done"]: raise Violation("no-call", f"{m}{args}: the C function was not called ({type(exc).__name__ if exc else 'no exception'}: {exc})")
        self.ev(f"thread {me}: {m} -> {type(exc).__name__ if exc else repr(val)}")
        self.states.add(zlib.crc32(f"{m} {rc} {type(exc).__name__} {self.switches[-2:]}".encode()))
        if count:
            if rc < 0:
                if not isinstance(exc, L.GeoDiffLibError): raise Violation("not-raised", f"{m}: C returned {rc}, the method {'raised ' + type(exc).__name__ if exc else 'returned ' + repr(val)}")
            elif exc is not None: raise Violation("raised", f"{m}: C returned {rc}, the method raised {type(exc).__name__}: {exc}")
            elif m == "has_changes" and (val is not True and val is not False and val not in (0, 1) or bool(val) != (rc == 1)): raise Violation("value", f"has_changes: C returned {rc}, the method {val!r}")
            elif m == "changes_count" and val != rc: raise Violation("value", f"changes_count: C returned {rc}, the method {val!r}")
        else:
            want = {0: None, 1: L.GeoDiffLibError, 2: L.GeoDiffLibConflictError, 3: L.GeoDiffLibUnsupportedChangeError}.get(rc, L.GeoDiffLibVersionError)
            if want is None and exc is not None: raise Violation("raised", f"{m}: C reported success, the method raised {type(exc).__name__}: {exc}")
            if want is not None and exc is None: raise Violation("not-raised", f"{m}: C returned {rc}, the method returned {val!r}")
            if want is not None and type(exc) is not want: raise Violation("wrong-exception", f"{m}: C returned {rc}, the method raised {type(exc).__name__} instead of {want.__name__}")

# ------------------------------------------------------------------ workers
class Env:
    """the wrapper as it would be installed: a copy of the package with the library beside it"""
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="pysim.")
        shutil.copytree(REPO + "/pygeodiff", self.d + "/pygeodiff", ignore=shutil.ignore_patterns("tests", "__pycache__"))
        self.err = None
        try:
            sys.path.insert(0, self.d)
            import pygeodiff, pygeodiff.geodifflib, pygeodiff.__about__
            self.pkg = pygeodiff
            self.lib = self.d + "/pygeodiff/libpygeodiff-" + pygeodiff.__about__.__version__ + "-python.so"
        except BaseException as e: self.err = e; self.lib = self.d + "/lib.so"
        shutil.copy(STUB, self.lib)
        self.stub = ctypes.CDLL(self.lib)
        self.stub.stub_log.argtypes = [ctypes.c_int, ctypes.c_char_p]
        sys.unraisablehook = lambda u: None
        threading.excepthook = lambda a: None
    def close(self): shutil.rmtree(self.d, ignore_errors=True)

def one(env, ch, trace=False):
    """-> status, class, text, sim"""
    if env.err is not None: return "viol", "import", f"import pygeodiff failed: {env.err}", None
    s = Sim(ch, env.stub, env.lib, env.pkg, trace)
    import io
    out = sys.stdout
    try: s.run(); r = ("ok", "", "")
    except Violation as v: r = ("herr", v.cls, v.text) if v.cls == "harness" else ("viol", v.cls, v.text)
    except AttributeError as e: r = ("viol", "load", f"{e}")
    env.stub.stub_setup(s.disp, b""); env.keep = s      # the stub must not call into a dead object
    return r + (s,)
def loghash(s): return hashlib.blake2b("\n".join(s.log if s else []).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest()

def forked(env, jobs, shm, report):
    """runs jobs [(index, Choices maker)] in children; a child that dies is a violation of the run it was in"""
    k = 0
    while k < len(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r); code = 0
            try:
                with os.fdopen(w, "w") as f:
                    for i, mk in jobs[k:k + 400]:
                        shm[0:8] = b"\0" * 8
                        ch = mk(); signal.alarm(20)
                        st, cls, text, s = one(env, ch)
                        signal.alarm(0)
                        o = {"i": i, "st": st, "cls": cls, "text": text, "hash": loghash(s)}
                        if s: o.update(n=s.n, ev=len(s.log), states=list(s.states), sw=len(s.switches), swh=zlib.crc32(repr([x[:2] for x in s.switches]).encode()) if s.switches else 0, nt=any(x.startswith("C call") for x in s.log) or "fault.version_mismatch" in s.n, sample="; ".join(x for x in s.log if x.startswith("thread"))[:300])
                        f.write(json.dumps(o) + "\n"); f.flush()
                        if st != "ok": break
                        if report.stop(): break
            finally: os._exit(code)
        os.close(w); last = None; n = 0
        with os.fdopen(r) as f:
            for l in f:
                o = json.loads(l); n += 1; last = o
                o["choices"] = list(struct.unpack_from(f"<{min(MAXCH, struct.unpack_from('<I', shm, 0)[0])}I", shm, 8)) if o["st"] != "ok" else []
                report.add(o)
        _, st = os.waitpid(pid, 0)
        k += n
        if os.WIFSIGNALED(st) and k < len(jobs):
            nc, pl = struct.unpack_from("<II", shm, 0); o = 8 + 4 * MAXCH + 64
            ph = bytes(shm[o:o + pl]).decode()
            report.add({"i": jobs[k][0], "st": "viol", "cls": ph or "crash", "text": f"the process died with signal {os.WTERMSIG(st)}" + (" while a log message was delivered" if ph else ""), "hash": "crash", "choices": list(struct.unpack_from(f"<{nc}I", shm, 8))})
            k += 1
        if report.stop() or not n and not os.WIFSIGNALED(st): break

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd"); ap.add_argument("--prop"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--start", type=int, default=0); ap.add_argument("--step", type=int, default=1)
    ap.add_argument("--budget", type=float, default=0); ap.add_argument("--count", type=int, default=0); ap.add_argument("--stop", type=int, default=3); ap.add_argument("--hashes", type=int, default=0)
    ap.add_argument("--thorough"); ap.add_argument("--file"); ap.add_argument("--quiet")
    A = ap.parse_args()
    shm = mmap.mmap(-1, 8 + 4 * MAXCH + 64 + 64)
    env = Env()
    real = os.fdopen(os.dup(1), "w")
    t0 = time.time()
    class Report:
        def __init__(self): self.runs = self.ev = self.nt = 0; self.n = {}; self.cases = set(); self.states = set(); self.inter = set(); self.samples = []; self.v = 0; self.last = None
        def stop(self): return self.v >= A.stop or (A.budget and time.time() - t0 > A.budget)
        def add(self, o):
            self.last = o; self.runs += 1
            if A.hashes: print(json.dumps({"t": "h", "i": o["i"], "h": o["hash"], "s": o["st"]}), file=real, flush=True)
            for k, x in o.get("n", {}).items(): self.n[k] = self.n.get(k, 0) + x
            self.ev += o.get("ev", 0)
            if o.get("nt"): self.nt += 1; self.cases.add(o["hash"])
            self.states |= set(o.get("states", []))
            if o.get("swh"): self.inter.add(o["swh"])
            if o.get("sample") and len(self.samples) < 4: self.samples.append(o["sample"])
            if o["st"] != "ok" and A.cmd == "run":
                self.v += 1
                print(json.dumps({"t": "v", "status": o["st"], "cls": o["cls"], "text": o["text"], "i": o["i"], "choices": " ".join(map(str, o["choices"])), "sample": o.get("sample", "")}), file=real, flush=True)
    def run_list(lst):
        rep = Report(); A.budget, b = 0, A.budget
        forked(env, [(0, lambda: Choices(lst=lst, shm=shm))], shm, rep); A.budget = b
        return rep.last
    def read(path):
        d = {}
        for l in open(path, encoding="utf-8", errors="replace"):
            k, _, x = l.rstrip("\n").partition(" ")
            if k in ("prop", "class", "choices"): d[k] = x
        return [int(x) for x in d.get("choices", "").split()], d.get("class", "")
    try:
        if A.cmd == "run":
            rep = Report(); i = A.start; done = 0
            while True:
                n = 400 if not A.count else min(400, A.count - done)
                if n <= 0 or rep.stop(): break
                jobs = [(i + j * A.step, (lambda s: lambda: Choices(seed=s, shm=shm))(f"{A.seed}:{i + j * A.step}")) for j in range(n)]
                forked(env, jobs, shm, rep); i += n * A.step; done += n
            print(json.dumps({"t": "sum", "runs": rep.runs, "nontrivial": rep.nt, "traces": len(rep.cases), "events": rep.ev, "clock_ns": 0, "n": rep.n, "cases": sorted(rep.cases), "states": sorted(rep.states), "inter": sorted(rep.inter), "samples": rep.samples, "wall": time.time() - t0}), file=real, flush=True)
        elif A.cmd == "replay":
            lst, cls = read(A.file)
            o = run_list(lst)
            print(f"result {o['st']} class={o['cls']} hash={o['hash']}\n{o['text']}", file=real, flush=True)
            if not A.quiet:
                real.flush(); pid = os.fork()
                if pid == 0: os.dup2(real.fileno(), 1); one(env, Choices(lst=lst, shm=shm), True); sys.stdout.flush(); os._exit(0)
                os.waitpid(pid, 0)
        elif A.cmd == "minimise":
            lst, cls = read(A.file); best = None
            def bad(l):
                o = run_list(l); return o if o and o["st"] == "viol" and o["cls"] == cls else None
            best = bad(lst)
            if not best: print("result not reproduced", file=real); sys.exit(1)
            size = max(1, len(lst) // 2)
            while size and time.time() - t0 < (A.budget or 20):
                k = 0; hit = False
                while k < len(lst) and time.time() - t0 < (A.budget or 20):
                    for t in (lst[:k] + lst[k + size:], lst[:k] + [0] * min(size, len(lst) - k) + lst[k + size:]):
                        if t != lst:
                            o = bad(t)
                            if o: lst = t; best = o; hit = True; break
                    else: k += size
                if size == 1 and not hit: break
                size = max(1, size // 2) if not hit or size > 1 else 1
            while lst and lst[-1] == 0 and bad(lst[:-1]): lst = lst[:-1]
            best = bad(lst)
            print(f"result viol\nchoices {' '.join(map(str, lst))}\ntext {best['text']}\nsample {best.get('sample', '')}", file=real, flush=True)
    finally: env.close()
main()
