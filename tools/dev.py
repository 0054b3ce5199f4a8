#!/usr/bin/env python3
"""dev.py PROP [quick|thorough] [suite] - build one property's harnesses and summarise failures (development aid)"""
import sys, os, json, subprocess, re, time
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,HERE); sys.path.insert(0,HERE+"/tools")
import run
from props import PROPS
prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else "quick"; suite=sys.argv[3] if len(sys.argv)>3 else None
bdir=HERE+"/build/"+prop; os.makedirs(bdir,exist_ok=True); sc="/tmp/mcdev"; os.makedirs(sc,exist_ok=True)
for h in PROPS[prop]["harness"]:
    exe=run.build(prop,h,bdir)
    for args in h.get("runs",[[]]):
        t=time.time(); out=bdir+"/dev.json"
        r=subprocess.run([exe,"-o",out,"-t",tier,"-j",str(h.get("jobs",8)),"-T",os.environ.get("T","100")]+args+(["-s",suite] if suite else []),env=dict(os.environ,MC_SCRATCH=sc),cwd=sc,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,text=True,errors="replace")
        if r.returncode: print("rc",r.returncode,r.stderr[-3000:]); continue
        d=json.load(open(out)); print("%s wall %.1f"%(h["src"],time.time()-t), "SATURATED" if d["states_saturated"] else "", "BUDGET" if d["budget_hit"] else "")
        for s in d["suites"]: print("  %-28s ex=%-9d tr=%-10d st=%-8d fail=%d%s"%(s["name"],s["executions"],s["transitions"],s["states"],s["failures"]," TRUNC" if s["truncated"] else ""))
        seen={}
        for f in d["failures"]:
            k=(f["suite"],re.sub(r"\d+","#",f["msg"])); seen.setdefault(k,[0,f]); seen[k][0]+=1
            if len(f["choices"])<len(seen[k][1]["choices"]): seen[k][1]=f
        for k,(n,f) in list(seen.items())[:25]:
            log=f["log"]; i=log.find("=================="); 
            print("FAIL x%d [%s] %s rep=%s -r %s"%(n,f["suite"],f["msg"],f["reproduced"],f["choices"]))
            body=log[:i] if i>=0 else log
            print("    "+body[-500:].replace("\n","\n    "))
            m=re.search(r"(READ|WRITE) of size.*",log); 
            if m: print("    "+m.group(0))
