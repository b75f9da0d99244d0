import sys,time; sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000)
import check
from multiprocessing import Pool
def one(p):
    t=time.time(); s,c,e,n=check.decide(p); c.viol=check.split(p,c,check.load_known())[0]; s='held' if s=='violated' and not c.viol else s; return '%s %s %s %d %.1fs %s'%(p,s,e or '',c.n,time.time()-t,[v[3][:200] for v in c.viol[:2]] if c.viol else '')
if __name__=='__main__':
    with Pool(8,maxtasksperchild=1) as P:
        for r in P.imap(one,sorted(check.all_rules()),chunksize=1): print(r,flush=True)
