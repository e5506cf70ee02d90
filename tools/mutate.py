#!/usr/bin/env python3
"""Development aid: small random changes to geodiff's sources, each built into a simulator of its own and searched with the
checks of all properties.  Prints those no check noticed, to be judged by hand (equivalent, not judged, or a gap).
mutate.py COUNT SEED OUT.jsonl [file regex] [seconds per property] [slots]"""
import sys, os, re, random, subprocess, json, time, shutil, threading, queue
V = "/verif"; R = "geodiff/src"
count, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
pat = sys.argv[4] if len(sys.argv) > 4 else "."; secs = sys.argv[5] if len(sys.argv) > 5 else "5"; slots = int(sys.argv[6]) if len(sys.argv) > 6 else 4
FILES = """changesetreader.cpp changesetutils.cpp changesetwriter.cpp driver.cpp geodiff.cpp geodiffinfo.cpp geodifflogger.cpp geodiffrebase.cpp
geodiffutils.cpp tableschema.cpp changeset.h changesetvarint.h drivers/postgresdriver.cpp drivers/postgresutils.cpp drivers/sqlitedriver.cpp drivers/sqliteutils.cpp""".split()
PG = ["C15", "C16", "C18", "C17", "C12", "C20", "C05", "C06", "C07", "C09"]
ALL = ["C08", "C05", "C15", "C09", "C18", "C17", "C20", "C03", "C01", "C10", "C07", "C16", "C19", "C11", "C06", "C02", "C04", "C14", "C12", "C13", "C23", "C22"]
def order(f):
    if "postgres" in f: return PG
    first = {"geodiffrebase.cpp": ["C05", "C07", "C06"], "sqlitedriver": ["C01", "C10", "C03"], "logger": ["C20"], "changeset": ["C10", "C09", "C11"]}
    for k, v in first.items():
        if k in f: return v + [p for p in ALL if p not in v]
    return ALL
OPS = [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" && ", " || "), (" || ", " && "),
       (" + 1", ""), (" - 1", ""), ("true", "false"), ("false", "true"), ("continue;", "break;"), ("break;", ";"), ("++", "--"), (" + ", " - "),
       ("OpInsert", "OpUpdate"), ("oldValues", "newValues"), ("newValues", "oldValues"), ("\\\"", "'"), (" AND ", " OR "), ("IS NOT", "IS"), ("SELECT ", "SELECT DISTINCT "),
       ("GEODIFF_ERROR;", "GEODIFF_SUCCESS;"), ("return GEODIFF_CONFICTS", "return GEODIFF_SUCCESS"), ("throw GeoDiffException(", "Logger::instance().error("), (".at( 0 )", ".at( 1 )"), ("[0]", "[1]"), (" 0 ", " 1 "), (" 1 ", " 0 ")]
def muts(f, s):
    for n, l in enumerate(s):
        t = l.strip()
        if not t or t.startswith(("//", "/*", "*", "#", "assert", "using", "namespace", "class", "struct", "template")): continue
        m = re.match(r"^(\s*(?:else )?if \()(.*)\)\s*$", l)
        if m: yield n, m.group(1) + " !(" + m.group(2) + ") )\n"; yield n, m.group(1) + " false && (" + m.group(2) + ") )\n"; yield n, m.group(1) + " true || (" + m.group(2) + ") )\n"
        if re.match(r"^[\w:>.\[\]()*, +-]+(\(.*\)|[+|]?= .*);$", t) and not re.match(r"^(return|const|std::\S+ \w|int \w|auto|size_t|bool|uint|char|double|case|Value \w|sqlite3\S* \*?\w+ =|PGresult|Sqlite3Stmt|ChangesetEntry \w|ChangesetTable \w)", t): yield n, re.match(r"\s*", l).group() + ";\n"
        for a, b in OPS:
            i = l.find(a)
            while i >= 0:
                yield n, l[:i] + b + l[i + len(a):]
                i = l.find(a, i + 1)
        for m in re.finditer(r'"([^"]{1,80})"', l):
            if any(c in m.group(1) for c in "(),;'=") and len(m.group(1)) < 12: yield n, l[:m.start()] + '""' + l[m.end():]
src = {f: open(f"/repo/{R}/{f}").readlines() for f in FILES if re.search(pat, f)}
every = [(f, n, x) for f, s in src.items() for n, x in muts(f, s) if x != s[n]]
rng = random.Random(seed); rng.shuffle(every); every = every[:count]
print(len(every), "mutants")
q = queue.Queue(); [q.put(e) for e in enumerate(every)]; lock = threading.Lock(); tally = {}
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def slot(k):
    t = f"/tmp/mut.{os.getpid()}.{k}"; os.makedirs(t)
    sh(f"git -C /repo archive HEAD geodiff/src --prefix=repo/ | tar x -C {t}")
    mk = f"make -s -C {V}/sim -j2 V=opt REPO={t}/repo O={t}/o"
    sh(mk)
    while True:
        try: i, (f, n, x) = q.get_nowait()
        except queue.Empty: break
        p = f"{t}/repo/{R}/{f}"; s = list(src[f]); old = s[n]; s[n] = x; open(p, "w").writelines(s)
        res = None
        m = sh(mk)
        if m.returncode: res = ("build", "", "")
        else:
            for pr in order(f):
                ps = [subprocess.Popen([f"{t}/o/sim", "run", "--prop", pr, "--seed", str(5 + i), "--start", str(w), "--step", "2", "--budget", secs, "--stop", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for w in range(2)]
                o = [json.loads(l) for z in ps for l in z.communicate()[0].splitlines() if l.startswith('{"t":"v"')]
                v = [z for z in o if z["status"] == "viol"]; h = [z for z in o if z["status"] == "herr"]
                if v: res = ("caught", pr, v[0]["cls"] + " " + v[0]["text"][:120]); break
                if h and not res: res = ("harness", pr, h[0]["text"][:200])
        res = res or ("survived", "", "")
        with lock:
            tally[res[0]] = tally.get(res[0], 0) + 1
            open(out, "a").write(json.dumps({"f": f, "line": n + 1, "old": old.strip(), "new": x.strip(), "res": res}) + "\n")
        open(p, "w").writelines(src[f])
    shutil.rmtree(t)
th = [threading.Thread(target=slot, args=(k,)) for k in range(slots)]; [x.start() for x in th]; [x.join() for x in th]
print(tally)
