"""dev/multi.py CASES.py [filter]: run checks on textual variants of /repo, in
memory, one process each.  CASES = [(name, [(rel, old, new)...], props, expected)]."""
import os, sys, ast, time, runpy
from multiprocessing import Pool
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)
import check


def one(job):
    name, edits, p, expect = job
    src = {}
    for rel, old, new in edits:
        s = src.get(rel) or open('/repo/' + rel).read()
        if s.count(old) != 1:
            return '%s %s BAD EDIT %d %r  <<<<' % (name, p, s.count(old), old[:80])
        src[rel] = s.replace(old, new)
    try:
        ov = {r[:-3].replace('/', '.'): ast.parse(x) for r, x in src.items()}
    except SyntaxError as e:
        return '%s %s SYNTAX %s <<<<' % (name, p, e)
    t = time.time()
    st, c, e, n = check.decide(p, overlay=ov)
    c.viol = check.split(p, c, check.load_known())[0]
    st = 'held' if st == 'violated' and not c.viol else st
    out = '%-24s %s %s %s %.1fs%s' % (name, p, st, (e or '')[:400], time.time() - t,
                                      '' if st == expect else '   <<<<<<<< expected ' + expect)
    if st != expect or os.environ.get('V'):
        for v in c.viol[:2]:
            out += '\n      %s %s' % (v[0], v[3][:500])
    return out


if __name__ == '__main__':
    cases = runpy.run_path(sys.argv[1])['CASES']
    flt = sys.argv[2:]
    jobs = [(n, e, p, x) for n, e, ps, x in cases for p in ps if not flt or any(f in n or f == p for f in flt)]
    with Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap(one, jobs, chunksize=1):
            print(r, flush=True)
