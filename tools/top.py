#!/usr/bin/env python3
"""Developer helper: run a batch and summarise the violations by class."""
import sys,json,subprocess,collections,os
variant,wl,n=sys.argv[1],sys.argv[2],int(sys.argv[3])
seed=sys.argv[4] if len(sys.argv)>4 else '1'
ps=[]
for k in range(8):
    out='/tmp/top.%s.%d.json'%(wl,k)
    ps.append((out,subprocess.Popen([os.environ.get('MLIO_SIM_BUILD','/verif/build')+'/%s/sim'%variant,'batch','--prop',wl,'--workload',wl,'--seed',seed,'--from',str(k),'--stride','8','--max-runs',str(n//8),'--budget','600','--out',out,'--stop','100000','--max-violations','100000'],stdout=subprocess.DEVNULL)))
c=collections.Counter();ex={};runs=0;wall=0;internal=0;msg='';hashes=set();faults=collections.Counter();probes=collections.Counter();acc=0;steps=0
for out,p in ps:
    p.wait()
    j=json.load(open(out))
    runs+=j['runs'];wall=max(wall,j['wall']);internal+=j['internal'];msg=msg or j['internal_msg'];acc+=j['accesses'];steps+=j['steps']
    for h in j['traces']: hashes.add(h)
    for k,v in j['faults'].items(): faults[k]+=v[1]
    for k,v in j['probes'].items(): probes[k]+=v[0]
    for v in j['violations']:
        k=v['cls']; c[k]+=1
        if k not in ex or v.get('index',0)<ex[k].get('index',0): ex[k]=v
print('runs',runs,'wall',wall,'internal',internal,msg,'distinct',len(hashes),'acc',acc,'steps',steps)
print('faults',dict(faults)); print('probes',dict(probes))
import re
for k,n in c.most_common(30):
    v=ex[k]
    m=v['msg']
    print('%5d %s seed=%s | %s'%(n,k,v['seed'],v.get('desc','')[:330]))
    if m.startswith('====') :
        a=re.findall(r'sim\+(0x[0-9a-f]+)',m)[:7]
        b=os.environ.get('MLIO_SIM_BUILD','/verif/build')+'/%s/sim'%variant
        t=subprocess.run(['addr2line','-Cfse',b]+a,stdout=subprocess.PIPE).stdout.decode().split('\n')
        print('       ',re.search(r'(READ|WRITE) of size \d+|$',m).group(0),' < '.join('%s %s'%(t[i][:60],t[i+1]) for i in range(0,len(t)-1,2)))
    else: print('        ',m[:500])
