import json, subprocess, sys
from vj import *
def run(*traces):
    with open('/tmp/p.in','w') as f:
        for i,t in enumerate(traces): f.write(json.dumps({"id":i,"ops":t})+"\n")
    subprocess.run(['/verif/target/debug/vharness','exec','/tmp/p.in','/tmp/p.out','/dev/shm/probe'],check=True)
    out=sorted((json.loads(l) for l in open('/tmp/p.out')), key=lambda x:x["id"])
    for t in out:
        print('--- trace',t["id"])
        for e in t["ev"]:
            r=e["r"]; a={k:v for k,v in e.items() if k not in('r',)}
            for k in ('doc','q','u','keys','sort'):
                if k in a: a[k]=show(a[k])
            for k in ('docs','pipe'):
                if k in a: a[k]=[show(x) for x in a[k]]
            if 'docs' in r: r={**r,'docs':[show(x) for x in r['docs']]}
            if 'ids' in r: r={**r,'ids':[show(x) for x in r['ids']]}
            if 'colls' in r: r={**r,'colls':[(n,[show(x) for x in d]) for n,d in r['colls']]}
            print(' ',a,'=>',r)
def ins(c,*docs,s=0): return {"op":"insert_many","s":s,"c":c,"docs":[j(d) for d in docs]}
def find(c,q,s=0,**k):
    o={"op":"find","s":s,"c":c,"q":j(q)}
    if 'sort' in k: o['sort']=j(k['sort'])
    for x in('skip','limit'):
        if x in k:o[x]=k[x]
    return o
def agg(c,*p,s=0): return {"op":"aggregate","s":s,"c":c,"pipe":[j(x) for x in p]}
def upd(c,q,u,many=1,s=0,upsert=0): return {"op":"update_many" if many else "update_one","s":s,"c":c,"q":j(q),"u":j(u),"upsert":upsert}
def dele(c,q,many=1,s=0): return {"op":"delete_many" if many else "delete_one","s":s,"c":c,"q":j(q)}
def idx(c,keys,s=0,unique=None,name=None):
    o={"op":"create_index","s":s,"c":c,"keys":j(keys)}
    if unique is not None:o["unique"]=int(unique)
    if name is not None:o["name"]=list(name.encode())
    return o
D={"op":"dump"}
