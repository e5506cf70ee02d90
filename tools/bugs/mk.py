#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in bugs_*.py and checks each one in a scratch copy of /repo.
   mk.py [ID...]      write, build, run stable tests and the demonstration on the unchanged and the changed tree
   mk.py --catch SECS [ID...]   build the simulator around the changed tree and run the property's check for SECS seconds"""
import sys, os, subprocess, json, shutil, glob, importlib.util, tempfile, time
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H)); S = V + "/seeded"
sys.path.insert(0, H); sys.path.insert(0, V + "/tools")
BUGS = {}
for f in sorted(glob.glob(H + "/bugs_*.py")):
    spec = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS: assert b["id"] not in BUGS; BUGS[b["id"]] = b
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def apply_edits(b, root):
    for f, old, new in b["edits"]:
        p = f"{root}/{f}"; s = open(p, newline="").read()
        if s.count(old) != 1: raise SystemExit(f"{b['id']}: {s.count(old)} matches of {old[:60]!r} in {f}")
        open(p, "w", newline="").write(s.replace(old, new))
def write(b):
    d = f"{S}/{b['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(prefix="/tmp/bug.")
    try:
        sh(f"git -C /repo archive HEAD | tar x -C {t}; cd {t} && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x")
        apply_edits(b, t)
        diff = sh(f"git -C {t} diff").stdout
        assert diff
        open(d + "/patch.diff", "w").write(diff)
        # every removed line must come from the original repository
        orig = 0
        for f, old, new in b["edits"]:
            bl = sh(f"git -C /repo blame -s --root HEAD -- {f}").stdout.splitlines()
            import re
            for hunk in re.finditer(r"@@ -(\d+)(?:,(\d+))? \+\S+ @@[^\n]*\n((?:[ +\-\\][^\n]*\n?)*)", sh(f"git -C {t} diff -U0 -- {f}").stdout):
                st, n = int(hunk.group(1)), int(hunk.group(2) or 1)
                for i in range(st, st + n):
                    l = bl[i - 1]; h = l.split()[0].lstrip("^")
                    if BASE.startswith(h[:7]): orig += 1
                    else: print(f"  {b['id']}: changes a line of my own: {l[:110]}")
        if not orig: print(f"  {b['id']}: changes no original line")
    finally: shutil.rmtree(t)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "demo_py" in b:
        shutil.copy(f"{H}/demo_py.sh", d + "/demo.sh"); shutil.copy(f"{H}/pylib.py", d); shutil.copy(f"{V}/pysim/stub.c", d)
        open(d + "/demo.py", "w").write("from pylib import *\n" + b["demo_py"].strip() + "\nprint('fine')\n")
        return
    pg = "demo_pg" in b
    for f in ["demolib.h", "gpkg.h", "gpkgstub.cpp", "demo.sh"] + (["pgdemo.h"] if pg else []): shutil.copy(f"{H}/{f}", d)
    if pg:
        for a, c in (("sim/pgsim.cpp", "pgsim.cpp"), ("sim/pgsim.h", "pgsim.h"), ("tools/bugs/pgdb.h", "db.h")): shutil.copy(f"{V}/{a}", f"{d}/{c}")
    open(d + "/demo.cpp", "w").write('#include "demolib.h"\n' + ('#include "pgdemo.h"\n' if pg else "") + b.get("pre", "") + "\nstatic int demo()\n{\n" + (b.get("demo") or b.get("demo_pg")) + "\n  return 0;\n}\n")
    if pg: open(d + "/pg", "w").write("built with the PostgreSQL driver\n")
    if b.get("tool"): open(d + "/tool", "w").write("built with the command line tool\n")
    if "flags" in b or pg: open(d + "/flags", "w").write(b.get("flags", "") + (" -std=gnu++17" if pg else ""))
def check(b):
    t = tempfile.mkdtemp(prefix="/tmp/bug."); r = t + "/repo"
    try:
        sh(f"git -C /repo archive HEAD --prefix=repo/ | tar x -C {t}")
        d = f"{S}/{b['id']}"
        a = sh(f"cd {r} && bash {d}/demo.sh")
        sh(f"cd {r} && patch -p1 < {d}/patch.diff")
        c = sh(f"cd {r} && bash {d}/demo.sh")
        ok = a.returncode == 0 and c.returncode != 0 and c.returncode not in (3, 7, 8, 9)
        print(("ok  " if ok else "BAD ") + b["id"], a.returncode, c.returncode, "|", (c.stdout + c.stderr).strip()[-200:].replace("\n", " / ") if ok else (a.stdout + a.stderr)[-1500:] + "----" + (c.stdout + c.stderr)[-1500:])
        return ok
    finally: shutil.rmtree(t)
def stable(ids):
    """stable tests with the patch: in a copy of the whole repo, build directory bound by /opt/vp is /repo itself -> apply, test, undo"""
    if sh("git -C /repo status --short -uno").stdout.strip(): sys.exit("/repo is not clean")
    for i in ids:
        if sh(f"git -C /repo apply {S}/{i}/patch.diff").returncode: print("does not apply", i); continue
        try:
            r = sh("bash /opt/vp/test.sh /tmp/stable.json"); j = json.load(open("/tmp/stable.json"))
            print(i, "stable tests:", len(j["passed"]), "passed", len(j["failed"]), "failed")
        finally: sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
def catch(b, secs, props=None):
    from propinfo import INFO
    i = b["id"]; t = tempfile.mkdtemp(prefix="/tmp/bug.")
    try:
        sh(f"git -C /repo archive HEAD --prefix=repo/ | tar x -C {t}; cd {t}/repo && patch -p1 < {S}/{i}/patch.diff")
        for p in props or [b["prop"]]:
            if p not in INFO: print("MISS", i, "no check for", p); continue
            for v in INFO[p]["variants"]:
                if v == "py": sim = f"env PYSIM_REPO={t}/repo {V}/pysim/pysim.py".split(); m = None
                else: sim = [f"{t}/{v}/sim"]; m = sh(f"make -s -C {V}/sim -j8 V={v} REPO={t}/repo O={t}/{v}")
                if m and m.returncode: print("BUILD FAILED", i, m.stderr[-800:]); return
                t0 = time.time()
                ps = [subprocess.Popen(sim + ["run", "--prop", p, "--seed", "1", "--start", str(w), "--step", "8", "--budget", str(secs), "--stop", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for w in range(8)]
                found = None; runs = 0
                import threading
                outs = []
                def rd(q):
                    for l in q.stdout:
                        try: o = json.loads(l)
                        except Exception: continue
                        if o.get("t") == "v" and o["status"] == "viol": outs.append((time.time() - t0, o))
                        if o.get("t") == "sum": outs.append((time.time() - t0, o))
                th = [threading.Thread(target=rd, args=(q,)) for q in ps]
                [x.start() for x in th]; [x.join() for x in th]
                vs = sorted([(a, o["cls"], o["i"], o["text"][:160]) for a, o in outs if o["t"] == "v"], key=lambda x: x[0]); runs = sum(o["runs"] for a, o in outs if o["t"] == "sum")
                print(("CAUGHT" if vs else "MISS  "), i, p, v, (f"{len(vs)}/8 workers, first after {vs[0][0]:.1f}s: {vs[0][1]} i={vs[0][2]} {vs[0][3]}" if vs else f"after {runs} runs"), flush=True)
    finally: shutil.rmtree(t)
a = sys.argv[1:]
if a and a[0] == "--catch":
    secs = float(a[1]); rest = a[2:]; props = [x for x in rest if x[0] == "C" and x[1:].isdigit()] or None; ids = [x for x in rest if not (x[0] == "C" and x[1:].isdigit())]
    for i in ids or sorted(BUGS): catch(BUGS[i], secs, props)
elif a and a[0] == "--stable": stable(a[1:] or sorted(BUGS))
else:
    for i in a or sorted(BUGS): write(BUGS[i]); check(BUGS[i])
