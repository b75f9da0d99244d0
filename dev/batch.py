import sys,os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000)
import check, ast
from concurrent.futures import ProcessPoolExecutor
from rbatch import find
def job(a):
    n,prop,f,ed=a
    s=open('/repo/oneka/'+f+'.py').read()
    for o,w in ed:
        m = find(o, s)
        if m is None: return n,prop,'NOANCHOR '+o[:60],''
        s = s[:m.start()] + w + s[m.end():]
    st,c,e,k=check.decide(prop,overlay={'oneka.'+f:ast.parse(s)})
    v=check.split(prop,c,check.load_known())[0]
    if st=='violated' and not v: st='held'
    return n,prop,st,(e or "")[:1200]+' | '+(v[0][3][:160] if v else '')
if __name__=='__main__':
    ns={}; exec(open(sys.argv[1]).read(),ns)
    B=[b for b in ns['B'] if len(sys.argv)<3 or b[0] in sys.argv[2:]]
    with ProcessPoolExecutor(6) as ex:
        for r in ex.map(job,B): print('%-22s %s %-9s %s'%r)
