#!/usr/bin/env python3
# development helper: time per contract family for one harness/target: prof.py UNIT TARGET [extra dv args]
import subprocess,sys,json,re,collections,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
u,t=sys.argv[1:3]; bc=f'/tmp/prof.{u}.{t}.bc'
r=subprocess.run([V+'/tools/cc.sh',f'{V}/harness/{u}.cc',t,bc],capture_output=True,text=True)
if r.returncode: print(r.stderr[-2000:]); sys.exit(1)
N=8; ps=[subprocess.Popen([V+'/build/dv',bc,'--shard',f'{i}/{N}','--json',f'/tmp/prof.{u}.{t}.{i}.json','--timeout',os.environ.get('TMS','3000'),'--budget',os.environ.get('BUD','10')]+sys.argv[3:],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL) for i in range(N)]
[p.wait() for p in ps]
c=collections.Counter(); st=collections.Counter(); ex=collections.Counter(); bad=[]
for i in range(N):
    for l in open(f'/tmp/prof.{u}.{t}.{i}.json'):
        e=json.loads(l); k=re.sub('<.*','',e['entry']); c[k]+=e['secs']; ex[k]+=e.get('exec_s',0); st[e['status']]+=1
        if e['status']!='proved': bad.append((e['entry'],e['status'],e.get('why','')[:150],[f['obligation']+':'+f['verdict'] for f in e['fails']][:2]))
print(dict(st), 'total cpu', round(sum(c.values()),1))
for k,v in c.most_common(12): print(f'  {v:.2f}s (exec {ex[k]:.2f}) {k}')
for b in bad[:int(os.environ.get('NB','25'))]: print('  !',*b)
