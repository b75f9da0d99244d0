import sys; sys.path.insert(0,'/verif/sa'); sys.path.insert(0,'/verif/dev'); sys.setrecursionlimit(20000)
import check, ast, traceback, values
from rbatch import find
ns={}; exec(open(sys.argv[1]).read(), ns)
n,p,f,ed=[b for b in ns['B'] if b[0]==sys.argv[2]][0]
if len(sys.argv)>3: p=sys.argv[3]
s=open('/repo/oneka/%s.py'%f).read()
for o,w in ed:
    m=find(o,s); s=s[:m.start()]+w+s[m.end():]
def init(self,*a):
    print('UNS',a); traceback.print_stack(limit=10)
    Exception.__init__(self,*a)
values.Unsupported.__init__=init
st,c,er,k=check.decide(p,overlay={'oneka.'+f:ast.parse(s)})
print(st,er)
for v in check.split(p,c,check.load_known())[0]: print(v[1],v[3][:1500])
