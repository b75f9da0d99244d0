import sys,os,re,json; sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000)
import ast,subprocess,tempfile
from concurrent.futures import ProcessPoolExecutor
def job(a):
    import check
    d,props=a
    W='/tmp/sd/'+d; subprocess.run(['rm','-rf',W]); os.makedirs(W+'/oneka')
    subprocess.run('cp -r /repo/oneka /repo/.git %s/ ; cd %s; git checkout -q -- . ; git apply /verif/seeded/%s/patch.diff'%(W,W,d),shell=True)
    ov={'oneka.'+f[:-3]:ast.parse(open(W+'/oneka/'+f).read()) for f in os.listdir(W+'/oneka') if f.endswith('.py') and open(W+'/oneka/'+f).read()!=open('/repo/oneka/'+f).read()}
    subprocess.run(['rm','-rf',W])
    out=[]
    for p in props:
        try: st=check.decide(p,overlay=dict(ov))[0]
        except Exception as e: st='crash'
        out.append((p,st))
    return d,out
if __name__=='__main__':
    allp=sys.argv[1:]==['all']
    P=['C%02d'%i for i in range(1,32)]+['C35']
    J=[]
    for d in sorted(os.listdir('/verif/seeded')):
        own=json.load(open('/verif/seeded/%s/meta.json'%d))['property']
        J.append((d,P if allp else [own]))
    with ProcessPoolExecutor(7) as ex:
        for d,o in ex.map(job,J):
            if allp: print(d,' '.join('%s'%p for p,s in o if s=='violated'),'| unknown:',' '.join(p for p,s in o if s not in('violated','held')))
            elif o[0][1]!='violated': print(d,o)
