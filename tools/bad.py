import re,json,sys,collections
p=sys.argv[1]; w=f'/verif/work/{p}-{sys.argv[2] if len(sys.argv)>2 else "quick"}'
ev=open(w+'/trace.ndjson').readlines()
c=collections.Counter(); ex={}
for a,b in re.findall(r'(?m)^"VERDICT (\d+) (.*)"$',open(w+'/tlc-Trace.out').read()):
    e=json.loads(ev[int(a)-1]); k=(e.get('kind') or e['op'],b); c[k]+=1
    if k not in ex or len(ev[int(a)-1])<len(ev[ex[k]-1]): ex[k]=int(a)
for k,n in c.most_common(): print(n,k,ex[k]); print('    ',ev[ex[k]-1][:int(sys.argv[3]) if len(sys.argv)>3 else 700])
