import sys, os, re
from engine import *
FD=os.environ.get('FACTS','/tmp/w/facts')
P=Prog([FD+'/postcard_rpc.json',FD+'/witness.json'])
def runit(f,facts=8,**k):
    E=Engine(P,**k)
    ps=E.run(f)
    print(f if isinstance(f,str) else f.key,len(ps),'paths',E.steps,'TRUNC' if E.truncated else '')
    for p in ps[:int(os.environ.get('N','12'))]:
        print(' --',p.end,show(p.ret) if p.ret else '',p.note or '')
        for e in p.trace: print('      ',repr(e)[:400])
        print('      facts',[(show(k,5),v) for k,v in p.facts.items()][:facts])
KW={}
if os.environ.get('MERGE'): KW['merge']=True
if os.environ.get('VEQ'):
  from checks.host import veq_models
  KW['models']=veq_models(P)
if __name__=='__main__':
  op=tuple(x for x in os.environ.get('OPQ','').split(',') if x)
  for n in sys.argv[1:]:
    a,b=n.rsplit('::',1) if '::' in n else ('','')
    fs=P.inherent(a,b)
    if not fs: fs=[f for k,f in P.fns.items() if re.search(n,k)][:3]
    for f in fs: runit(f,opaque=op,**KW)
