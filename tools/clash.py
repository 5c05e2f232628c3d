#!/usr/bin/env python3
"""Names defined in more than one module that Judge extends."""
import re,glob,os,collections
d=os.path.join(os.path.dirname(__file__),'..','spec')
def ext(m,seen):
    if m in seen or not os.path.exists(f'{d}/{m}.tla'): return
    seen.add(m); s=open(f'{d}/{m}.tla').read()
    e=re.search(r'EXTENDS (.*)',s)
    for x in (e.group(1).split(',') if e else []): ext(x.strip(),seen)
seen=set(); ext('Trace',seen)
w=collections.defaultdict(set)
for m in seen:
    s=open(f'{d}/{m}.tla').read()
    for n in re.findall(r'(?m)^(\w+)(?:\([^)]*\))? ==',s): w[n].add(m)
    for l in re.findall(r'(?m)^VARIABLES? (.*)',s):
        for n in l.split(','): w[n.strip()].add(m)
for n,ms in w.items():
    if len(ms)>1: print(n,ms)
