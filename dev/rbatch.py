"""dev/rbatch.py FILE [names] [props=C01,C02]: behaviour-preserving edits over several modules, all checks, must be quiet."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa')); sys.setrecursionlimit(20000)
import check, ast
from concurrent.futures import ProcessPoolExecutor
ALL = ['C%02d' % i for i in range(1, 32)] + ['C35']
def find(o, s):
    import re
    return re.search(r'\n(?:[ \t]*\n)*'.join(re.escape(x) for x in re.split(r'\n(?:[ \t]*\n)*', o)), s)
def job(a):
    n, p, eds = a
    ov = {}
    for f, ed in eds:
        path = '/repo/oneka/' + f + '.py' if f != 'runme' else '/repo/runme.py'
        s = open(path).read() if os.path.exists(path) else ''
        for o, w in ed:
            m = find(o, s)
            if m is None: return n, p, 'NOANCHOR', o.strip()[:60].replace('\n', ' ')
            s = s[:m.start()] + w + s[m.end():]
        ov['oneka.' + f if f != 'runme' else f] = ast.parse(s)
    st, c, e, k = check.decide(p, overlay=ov)
    v = check.split(p, c, check.load_known())[0]
    if st == 'violated' and not v: st = 'held'
    return n, p, st, (e or '')[:300] + ' | ' + ('%s %s' % (v[0][1], v[0][3][:200]) if v else '')
if __name__ == '__main__':
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    names = [x for a in sys.argv[2:] if not a.startswith(('props=', '-')) for x in a.split(',')]
    pr = [a[6:].split(',') for a in sys.argv[2:] if a.startswith('props=')]
    J = [(n, p, e) for n, pp, e in ns['B'] if not names or n in names for p in (pr[0] if pr else ALL if pp == '*' else pp.split())]
    with ProcessPoolExecutor(7) as ex:
        for r in ex.map(job, J, chunksize=4):
            if r[2] == 'NOANCHOR' and r[1] != 'C01': continue
            if '-v' in sys.argv or r[2] != 'held': print('%-16s %s %-9s %s' % r, flush=True)
