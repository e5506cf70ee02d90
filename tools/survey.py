#!/usr/bin/env python3
"""survey.py PROP [COUNT] [seed] [variant]: run many seeds, group what fails."""
import os,sys, subprocess, json, collections
prop=sys.argv[1]; count=int(sys.argv[2]) if len(sys.argv)>2 else 400
seed=sys.argv[3] if len(sys.argv)>3 else "1"
var=sys.argv[4] if len(sys.argv)>4 else "opt"
W=8
ps=[subprocess.Popen([os.environ.get("SIM",f"/verif/build/{var}/sim"),"run","--prop",prop,"--seed",seed,"--start",str(w),"--step",str(W),"--count",str(count//W),"--stop","100000"],stdout=subprocess.PIPE,text=True) for w in range(W)]
g=collections.defaultdict(list); runs=0; n=collections.Counter(); wall=0; nt=0; st=0
for p in ps:
    o=p.communicate()[0]
    for l in o.splitlines():
        d=json.loads(l)
        if d["t"]=="v": g[(d["status"],d["cls"],d["text"][:int(sys.argv[5]) if len(sys.argv)>5 else 110])].append(d)
        elif d["t"]=="sum":
            runs+=d["runs"]; nt+=d["nontrivial"]; n.update(d["n"]); wall=max(wall,d["wall"]); st+=len(d["states"])
print(f"{prop}: runs {runs} nontrivial {nt} states {st} wall {wall:.1f}s  {runs/wall:.0f}/s")
for k,v in sorted(g.items(),key=lambda x:-len(x[1]))[:25]:
    print(len(v),k[0],k[1],"|",v[0]["text"][:420],"| i=",v[0]["i"], ("ERR "+v[0]["err"][:300]) if k[0]=="herr" or k[1] in("crash",) else "")
if "-n" in sys.argv or len(sys.argv)>6: print(dict(n))
