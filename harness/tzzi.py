"""tzdata.zi (compact) -> classic source"""
MON = "January February March April May June July August September October November December".split()
DAY = "Sunday Monday Tuesday Wednesday Thursday Friday Saturday".split()
def mon(s):
    m=[x for x in MON if x.lower().startswith(s.lower())]
    return m[0][:3]
def day(s):
    def d(p):
        m=[x for x in DAY if x.lower().startswith(p.lower())]
        assert len(m)==1,(s,p,m); return m[0][:3]
    if s.startswith("l"):
        p=s[4:] if s.startswith("last") else s[1:]
        return "last"+d(p)
    for op in (">=","<="):
        if op in s:
            a,b=s.split(op); return d(a)+op+b
    return s
def hm(t):
    suf=""
    if t[-1] in "wsugz": t,suf=t[:-1],t[-1]
    if t=="-": t="0"
    neg=t.startswith("-"); t=t.lstrip("-")
    if ":" not in t: t+=":00"
    return ("-" if neg else "")+t+suf
def load(path="/usr/share/zoneinfo/tzdata.zi"):
    rules={}; zones={}; cur=None
    for l in open(path):
        l=l.rstrip("\n")
        if l.startswith("#") or not l: continue
        f=l.split()
        if f[0]=="R":
            to={"o":"only","ma":"max"}.get(f[3],f[3])
            rules.setdefault(f[1],[]).append("\t".join(["Rule",f[1],f[2],to,"-",mon(f[5]),day(f[6]),hm(f[7]),hm(f[8]) if f[8]!="0" else "0",f[9]]))
            cur=None
        elif f[0]=="Z":
            cur=f[1]; zones[cur]=[]; f=f[2:]
            zones[cur].append(era(f))
        elif f[0]=="L":
            cur=None
        else:
            zones[cur].append(era(f))
    return rules,zones
def era(f):
    off=f[0] if ":" in f[0] else f[0]+":00"
    u=f[3:]
    if len(u)>1: u[1]=mon(u[1])
    if len(u)>2: u[2]=day(u[2])
    if len(u)>3: u[3]=hm(u[3])
    r=f[1]
    if r not in("-",) and (r[0].isdigit() or r[0]=="-" and r[1].isdigit()): r=hm(r)
    return [off,r,f[2]," ".join(u)]
def source(name,zones):
    out=[]
    for i,e in enumerate(zones[name]):
        out.append(("Zone "+name if i==0 else "\t\t")+"\t"+"\t".join([x for x in e if x]))
    return "\n".join(out)
if __name__=="__main__":
    import json
    r,z=load()
    print(len(r),len(z))
    json.dump({"rules":r,"zones":{n:source(n,z) for n in z}},open("/tmp/z/src.json","w"))
    print(source("Africa/Algiers",z))
