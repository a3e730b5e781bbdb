#!/usr/bin/env python3
"""ev.py CRATE FN-REGEX [EVENT-REGEX]: the recorded guarded effects (from specs)"""
import json, sys, re
s=json.load(open(f'/verif/specs/{sys.argv[1]}.json'))
def paths(d, lim=6):
    if isinstance(d,int): return ["always" if d else "never"]
    out=[]
    def go(i,acc):
        if len(out)>=lim: return
        if i==0: return
        if i==1: out.append(" & ".join(acc)); return
        n,lo,hi=d[i-2]
        m=n if len(n)<90 else n[:55]+"…"+n[-34:]
        go(hi,acc+[m]); go(lo,acc+["¬"+m])
    go(len(d)+1,[])
    return out
for k in s:
    if re.search(sys.argv[2],k):
        print("==",k,s[k]['shape'][:80])
        for t,d in s[k]['ev'].items():
            if len(sys.argv)>3 and not re.search(sys.argv[3],t): continue
            for v,f in d.items():
                print("  ",t,"=",v[:200]); 
                for p in paths(f): print("        ",p[:400])
