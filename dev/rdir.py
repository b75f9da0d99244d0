"""dev/rdir.py DIR... [props=..]: all checks on whole refactored trees (behaviour kept): prints what is not quiet."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa')); sys.setrecursionlimit(20000)
import check
from concurrent.futures import ProcessPoolExecutor
ALL = ['C%02d' % i for i in range(1, 32)] + ['C35']
def job(a):
    d, p = a
    st, c, e, k = check.decide(p, root=d)
    v = check.split(p, c, check.load_known())[0]
    if st == 'violated' and not v: st = 'held'
    return d, p, st, (e or '')[:300] + ' | ' + ('%s %s' % (v[0][1], v[0][3][:250]) if v else '')
if __name__ == '__main__':
    pr = [a[6:].split(',') for a in sys.argv[1:] if a.startswith('props=')]
    J = [(d, p) for d in sys.argv[1:] if not d.startswith('props=') for p in (pr[0] if pr else ALL)]
    with ProcessPoolExecutor(7) as ex:
        for r in ex.map(job, J, chunksize=2):
            if r[2] != 'held': print('%-16s %s %-9s %s' % r, flush=True)
