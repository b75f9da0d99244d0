"""The short-sequence attempt on the unchanged tree: nothing may be violated."""
import sys; sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000)
import check
from concurrent.futures import ProcessPoolExecutor
def job(a):
    p,z=a
    rule=check.all_rules()[p]
    c,err=check.attempt(rule,p,'/repo',True,'quick',None,z)
    return p,z,[v[:2]+(v[3][:100],) for v in c.viol],c.n,err
if __name__=='__main__':
    P=sys.argv[1:] or ['C%02d'%i for i in range(1,32)]+['C35']
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(job,[(p,z) for p in P for z in check.SIZES]): print(*r)
