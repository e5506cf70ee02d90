#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--budget S] [--keep-going]

Builds the simulator around /repo's current sources, searches seeds for violations of one property,
gates and minimises what it finds, and writes evidence/PROPERTY.json.
Exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed.
"""
import sys, os, subprocess, json, time, collections, fcntl, select, argparse

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.cpu_count() or 4
W = max(2, min(8, W))
sys.path.insert(0, os.path.join(V, "tools"))
from propinfo import INFO   # per property: variants, budgets, rule, stubs, assumptions

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
ap.add_argument("--budget", type=float, default=0)
ap.add_argument("--keep-going", action="store_true")
A = ap.parse_args()
P = A.prop
tier = "thorough" if A.tier == "thorough" else "quick"
try: seed = int(A.seed)
except ValueError: seed = abs(hash(A.seed)) % 1000000007
info = INFO[P]
T0 = time.time()

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def build(variant):
    os.makedirs(f"{V}/build", exist_ok=True)
    if variant == "py":
        with open(f"{V}/build/.lock-py", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            os.makedirs(f"{V}/build/py", exist_ok=True)
            r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", f"{V}/build/py/stub.so", f"{V}/pysim/stub.c"], capture_output=True, text=True)
            if r.returncode: die("build of the C library's stand-in failed: " + r.stderr[-2000:])
        return f"{V}/pysim/pysim.py"
    with open(f"{V}/build/.lock-{variant}", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-C", f"{V}/sim", f"-j{W}", f"V={variant}"], capture_output=True, text=True)
        if r.returncode:
            print(r.stdout[-3000:], r.stderr[-3000:])
            die(f"build of the {variant} variant failed")
    return f"{V}/build/{variant}/sim"

variants = info.get("variants", {"opt": 1.0})
bins = {v: build(v) for v in variants}
build_s = time.time() - T0
budget = A.budget or (info.get("thorough_s", 420) if tier == "thorough" else info.get("quick_s", 45))

tot = collections.Counter(); cases = set(); states = set(); inter = set(); samples = []
runs = traces = events = clock = 0
per_variant = {}
viols = []; herrs = []
t1 = time.time()

def run_batch(variant, secs, nworkers, wbase, wtotal, start):
    """start workers"""
    ps = []
    for w in range(nworkers):
        cmd = [bins[variant], "run", "--prop", P, "--seed", str(seed), "--start", str(start + wbase + w), "--step", str(wtotal),
               "--budget", str(secs), "--stop", "3", "--thorough", "1" if tier == "thorough" else "0"]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        p.variant = variant; p.buf = b""; p.summed = False
        ps.append(p)
    return ps

# ---------------------------------------------------------------- gate and report
def replay(binp, path):
    r = subprocess.run([binp, "replay", "--file", path, "--quiet", "1"], capture_output=True)
    out = r.stdout.decode("latin-1").splitlines()
    d = {"status": "?", "class": "?", "hash": "?"}
    for l in out:
        if l.startswith("result "):
            d["status"] = l.split()[1]
            for x in l.split()[2:]:
                if "=" in x: k, v = x.split("=", 1); d[k] = v
            break
    d["text"] = "\n".join(out[1:])[:1500]
    return d

def write_replay(path, prop, cls, choices, extra):
    with open(path, "w") as f:
        f.write(f"prop {prop}\nclass {cls}\nchoices {choices}\n")
        for k, v in extra.items(): f.write(f"# {k}: {v}\n")

# share the workers among the variants by time: every variant gets all workers for its fraction of the budget
def search(secs, offset):
    global runs, traces, events, clock
    deadline_stop = None
    for vi, (variant, frac) in enumerate(variants.items()):
        if deadline_stop: break
        ps = run_batch(variant, secs * frac, W, 0, W, offset + vi * 10_000_000)
        live = {p.stdout.fileno(): p for p in ps}
        while live:
            r, _, _ = select.select(list(live), [], [], 0.5)
            for fd in r:
                p = live[fd]
                d = os.read(fd, 1 << 20)
                if not d:
                    del live[fd]; p.wait(); continue
                p.buf += d
                while b"\n" in p.buf:
                    l, p.buf = p.buf.split(b"\n", 1)
                    try: o = json.loads(l.decode("latin-1"))
                    except Exception: continue
                    if o.get("t") == "v":
                        o["variant"] = variant
                        if o["status"] == "viol":
                            viols.append(o)
                            if deadline_stop is None and not A.keep_going: deadline_stop = time.time() + 4
                        else: herrs.append(o)
                    elif o.get("t") == "sum":
                        p.summed = True
                        runs += o["runs"]; traces += o["traces"]; events += o["events"]; clock += o["clock_ns"]
                        tot.update(o["n"]); cases.update(o["cases"]); states.update(o["states"]); inter.update(o["inter"])
                        samples.extend(o["samples"])
                        pv = per_variant.setdefault(variant, {"runs": 0}); pv["runs"] += o["runs"]
            if deadline_stop and time.time() > deadline_stop:
                for p in live.values():
                    p.kill()
                for p in list(live.values()): p.wait()
                live = {}

def same(a, b, cls): return a["class"] == b["class"] == cls and a["hash"] == b["hash"]

reported = []; gate_failed = []
def gate():
    by_cls = collections.OrderedDict()
    for v in viols: by_cls.setdefault(v["cls"], []).append(v)
    os.makedirs(f"{V}/replays", exist_ok=True)
    for cls0, vs in list(by_cls.items())[:3]:
        vs.sort(key=lambda v: len(v["choices"]))
        for v in vs[:4]:
            cls = cls0
            binp = bins[v["variant"]]
            raw = f"{V}/replays/{P}-{cls}-{v['variant']}-s{seed}-i{v['i']}.raw"
            write_replay(raw, P, cls, v["choices"], {})
            # same choices twice, in fresh processes
            a, b = replay(binp, raw), replay(binp, raw)
            if not same(a, b, cls) and v["variant"] == "opt":
                # memory errors show differently in every process: look at the same choices with the address sanitizer
                if "asan" not in bins: bins["asan"] = build("asan")
                c, d = replay(bins["asan"], raw), replay(bins["asan"], raw)
                if c["status"] == "viol" and same(c, d, c["class"]):
                    v = dict(v, variant="asan", cls=c["class"], text=c["text"].split("\n")[0]); cls = v["cls"]; binp = bins["asan"]; a, b = c, d
                    os.remove(raw); raw = f"{V}/replays/{P}-{cls}-asan-s{seed}-i{v['i']}.raw"
                    write_replay(raw, P, cls, v["choices"], {})
            if not same(a, b, cls):
                gate_failed.append((cls, v["i"], a, b)); os.remove(raw); continue
            m = subprocess.run([binp, "minimise", "--file", raw, "--budget", "20" if not reported else "8"], capture_output=True)
            final = raw[:-4] + ".replay"; text = v["text"]; choices = v["choices"]; sample = v.get("sample", "")
            if m.returncode == 0:
                kv = {}
                for l in m.stdout.decode("latin-1").splitlines():
                    k, _, x = l.partition(" "); kv[k] = x
                choices = kv.get("choices", ""); text = kv.get("text", text); sample = kv.get("sample", sample)
            ex = {"seed": seed, "seed index": v["i"], "variant": v["variant"], "violation": text, "case": sample,
                  "replay with": f"{os.path.relpath(binp, V)} replay --file <this file>   (prints the schedule and fault trace)" if v["variant"] == "py" else f"make -C sim V={v['variant']} && build/{v['variant']}/sim replay --file <this file>   (prints the schedule and fault trace)"}
            write_replay(final, P, cls, choices, ex)
            a, b = replay(binp, final), replay(binp, final)
            if not same(a, b, cls):
                write_replay(final, P, cls, v["choices"], ex)      # keep the unminimised one, it passed the gate
            # append the trace as comments for the reader
            tr = subprocess.run([binp, "replay", "--file", final], capture_output=True).stdout.decode("latin-1").splitlines()
            with open(final, "a") as f:
                for l in tr[-400:]: f.write("# | " + l[:300] + "\n")
            os.remove(raw)
            reported.append((cls, text, os.path.relpath(final, V), v))
            break

# a violation that cannot be repeated is not reported; the rest of the budget goes on other seeds
seen = 0; rounds = 0
while True:
    left = budget - (time.time() - t1)
    if rounds and (left < 3 or rounds > 8): break
    search(left, rounds * 100_000_000)
    rounds += 1; seen += len(viols)
    if not viols: break
    gate()
    if reported: break
    viols.clear()
search_s = time.time() - t1

# ---------------------------------------------------------------- known findings
known = {}
kf = f"{V}/known_findings.json"
if os.path.exists(kf):
    for k in json.load(open(kf))["findings"]:
        if k.get("status") == "known": known[k["id"]] = k
known_lines = []
for k, n in sorted(tot.items()):
    if k.startswith("known."):
        f = known.get(k[6:])
        if f and P in f["properties"]: known_lines.append((f, n))
        else: die(f"the scenario recognised finding {k[6:]} which known_findings.json does not list for {P}")
for fid, f in known.items():
    if P in f["properties"] and not any(x[0]["id"] == fid for x in known_lines) and not seen:
        print(f"note: known finding {fid} did not occur in this run")

# ---------------------------------------------------------------- determinism sample
det = {"seeds": 0, "mismatches": 0}
if not seen:
    n = 24 if tier == "quick" else 200
    bv = list(variants)[0]
    def hashes(workers):
        res = {}
        ps = [subprocess.Popen([bins[bv], "run", "--prop", P, "--seed", str(seed), "--start", str(w), "--step", str(workers), "--count", str(-(-n // workers)), "--hashes", "1", "--stop", "100000",
                                "--thorough", "1" if tier == "thorough" else "0"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL) for w in range(workers)]
        for p in ps:
            for l in p.communicate()[0].decode("latin-1").splitlines():
                o = json.loads(l)
                if o["t"] == "h": res[o["i"]] = o["h"]
        return res
    h1, h2 = hashes(W), hashes(max(1, W // 2 - 1))
    both = set(h1) & set(h2)
    det = {"seeds": len(both), "mismatches": sum(h1[i] != h2[i] for i in both), "how": f"event-log hashes of the same seeds under {W} and {max(1, W//2-1)} worker processes"}
    if det["mismatches"]: print(f"warning: {det['mismatches']} of {len(both)} seeds not repeatable", file=sys.stderr)

wall = time.time() - T0
calls = {k[5:]: v for k, v in sorted(tot.items()) if k.startswith("call.")}
faults = {k[6:]: v for k, v in sorted(tot.items()) if k.startswith("fault.")}
net = {k: v for k, v in sorted(tot.items()) if k.startswith("net.") or k.startswith("powerloss")}
probes = {k: v for k, v in sorted(tot.items()) if not k.startswith(("call.", "fault.", "net.", "powerloss"))}
samples.sort(key=len, reverse=True)
ev = {
    "property": P, "tier": tier, "seed": seed, "level": "exploration",
    "coverage": {
        "evaluations": runs, "distinct_nontrivial": len(cases), "rule": info["rule"], "samples": samples[:6],
        "runs_per_hour": int(runs / max(search_s, .001) * 3600), "seeds_per_hour": int(runs / max(search_s, .001) * 3600),
        "distinct_event_traces": traces, "simulated_events": events, "simulated_seconds": round(clock / 1e9, 3),
        "distinct_states": len(states), "distinct_states_measure": info.get("states_measure") or "hash of all rows, schema and derived tables of a database at an observation point (per run at most 400 are kept)",
        "distinct_interleavings": len(inter), "distinct_interleavings_measure": "hash of the sequence of context switches with the operation at which each happened",
        "faults_fired": faults, "network_and_power": net, "library_calls": calls, "probes": probes,
        "variants": per_variant, "runs_undecided_by_harness": len(herrs), "determinism_sample": det,
        "real_code": info["real"], "stubs": info["stubs"],
        "build_s": round(build_s, 1), "search_s": round(search_s, 1),
    },
    "assumptions": info["assumptions"], "wall_s": round(wall, 2), "violations": len(reported),
}
os.makedirs(f"{V}/evidence", exist_ok=True)
json.dump(ev, open(f"{V}/evidence/{P}.json", "w"), indent=1)

print(f"{P} {tier} seed {seed}: {runs} runs, {len(cases)} distinct non-trivial, {len(states)} states, {sum(faults.values())} faults fired, {search_s:.1f}s search, {wall:.1f}s total")
for f, n in known_lines: print(f"KNOWN-FINDING: property={P} {f['id']}: {f['what']} ({n} runs)")
if reported:
    for cls, text, path, v in reported:
        print(f"VIOLATION property={P} replay={path}")
        print(f"  class {cls}: {text}")
    sys.exit(1)
if seen:
    for g in gate_failed: print("not reproduced:", g[0], g[1], json.dumps(g[2])[:600], json.dumps(g[3])[:600])
    die("a violation was seen but did not reproduce from its choice list")
if runs == 0: die("no runs")
if len(herrs) > max(1, runs // 100):
    for h in herrs[:3]: print("harness error:", h["cls"], h["text"][:500], "i=", h["i"], h.get("err", "")[:500])
    die(f"{len(herrs)} of {runs} runs ended in a harness error")
sys.exit(0)
