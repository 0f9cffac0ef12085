#!/usr/bin/env python3
"""dist.py EXE SCENARIO FIRST COUNT: runs seeds on 8 workers and summarises the outcomes (development aid)"""
import sys,json,collections,subprocess,os
exe,sc,first,count=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4])
ps=[subprocess.Popen([exe,"run",sc,str(first+i),str(count//8),"8"],stdout=open(f'/tmp/dist.{os.getpid()}.{i}','w')) for i in range(8)]
c=collections.Counter(); ex={}; f=collections.Counter(); k=collections.Counter(); chk=0; st=set()
for i,p in enumerate(ps):
    p.wait(); fn=f'/tmp/dist.{os.getpid()}.{i}'; lines=open(fn).readlines(); os.unlink(fn)
    for l in lines:
        d=json.loads(l); key=d['status'] if d['status']!='violation' else 'V:'+d['class']; c[key]+=1
        if d['status']!='ok': ex.setdefault(key,[]).append((d['seed'],d['what']))
        for a,b in d.get('faults',{}).items(): f[a]+=b
        for a,b in d.get('counters',{}).items(): k[a]+=b
        chk+=d.get('checks',0); st|=set(d.get('states',[]))
print(dict(c),"checks",chk,"states",len(st)); print("faults",dict(f)); print("counters",dict(k))
for a,v in ex.items():
    v.sort()
    print(a); [print("   ",x[0],x[1][:300]) for x in v[:6]]
