#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, the rules in harness/*.go and seeded/*/meta.json. Run by hand; no check uses it."""
import json,os,re,glob
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T=D+'/tools/'
src=''.join(open(f).read() for f in sorted(glob.glob(D+'/harness/p_*.go')))
props=[json.loads(l) for l in open(D+'/properties.jsonl')]
man={c['property']:c for c in json.load(open(D+'/MANIFEST.json'))['checks']}
cost=json.load(open(T+'cost.json')) if os.path.exists(T+'cost.json') else {}
out=open(T+'design_head.md').read()
for p in props:
    i=p['id']
    m=re.search(r'register\(&Prop\{ID: "%s".*?(?=\n\tregister\(|\n\}\n)'%i,src,re.S)
    if not m: continue
    b=m.group(0)
    rule=json.loads(re.search(r'Rule:\s*("(?:[^"\\]|\\.)*")',b).group(1))
    a=re.search(r'Assumptions: \[\]string\{(.*?)\}',b)
    subs=re.findall(r'(?<!enum)[sS]ub\("([\w-]+)", (\d+), (\d+)',b); en=re.findall(r'enumSub\("([\w-]+)"',b)
    g,_,rest=rule.partition('Oracle')
    orc='Oracle'+rest
    out+=f"### {i} {p['title']}\n\n"
    out+=f"*Specified:* {p['statement']}\n\n"
    out+=f"*Generated:* {g.strip()}\n\n*{orc.strip()}*\n\n" if False else f"*Generated:* {g.strip()}\n\n{orc.strip()}\n\n"
    out+="*Cases:* "+", ".join([f"{n} {int(q):,} / {int(t):,}" for n,q,t in subs]+[f"{n} (enumerated)" for n in en])
    if i in cost: out+=f"; {cost[i]} s"
    out+=f". *Technique:* {man[i]['technique']}.\n\n"
    if a: out+="*Assumes:* "+"; ".join(json.loads('['+a.group(1)+']'))+".\n\n"
    out+=f"*Why tests cannot settle it:* {p['why_tests_cant']}\n\n"
out+=open(T+'design_tail.md').read()
miss=json.load(open(T+'design_missed.json'))
out+="| planted bug | property | breaks | |\n|---|---|---|---|\n"
rows=[]
for f in glob.glob(D+'/seeded/*/meta.json'):
    n=f.split('/')[-2]; m=json.load(open(f)); rows.append((m['property'],n,m['what_it_breaks']))
for p,n,w in sorted(rows):
    out+=f"| {n} | {p} | {w} | {'first missed: '+miss[n] if n in miss else ''} |\n"
tail=T+'design_end.md'
if os.path.exists(tail): out+=open(tail).read()
open(D+'/DESIGN.md','w').write(out)
