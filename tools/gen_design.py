"""DESIGN.md from tools/design/*.md, properties.jsonl, known_findings.txt and tools/seed_results.json."""
import json, os, re, ast
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(H)
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
title={p['id']:p['title'] for p in props}
PLAN=ast.literal_eval(open(H+'/design/plan.py').read().split('=',1)[1].strip())
out=[open(H+'/design/head.md').read().rstrip(),'']
for i in sorted(title):
    t,c=PLAN[i]
    out+=['**%s %s.** %s  *Back ends, cost:* %s.'%(i,title[i],t,c),'']
out+=['## 5. Defects found and repaired','','Each was shown by a failing input against the real code (replay) and is repaired by a `fix:` commit in /repo; none is left as a known finding.','']
for l in open(V+'/known_findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: out.append('* %s `%s` %s'%m.groups())
out+=['',open(H+'/design/mid.md').read().rstrip(),'']
r=json.load(open(H+'/seed_results.json'))
out+=['| property | bug | found by |','|---|---|---|']
for k in sorted(r,key=lambda k:(r[k]['property'],k)):
    o=r[k].get('obligation') or ''
    m=re.search(r'failed obligation: (.*?)(: counterexample|: not discharged| @ |$)',o)
    o=(m.group(1) if m else o)[:110].replace('|','\\|').replace('\n',' ')
    if not r[k].get('proof_failed',True): o='replay on the real code'
    out.append('| %s | %s%s | %s |'%(r[k]['property'],k,'' if r[k]['verdict']=='concrete' else ' (%s)'%r[k]['verdict'],o or 'obligation'))
out+=['',open(H+'/design/tail.md').read().rstrip(),'']
open(V+'/DESIGN.md','w').write('\n'.join(out))
