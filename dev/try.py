"""dev/try.py FILE OLD NEW PROP...: run checks on /repo with one textual change (in memory)."""
import ast, os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)
import check


def overlay(rel, old, new, n=None):
    s = open('/repo/' + rel).read()
    assert old in s, 'not found: ' + old
    if n is None:
        assert s.count(old) == 1, 'ambiguous (%d)' % s.count(old)
        s = s.replace(old, new)
    else:
        parts = s.split(old)
        s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
    return {rel[:-3].replace('/', '.'): ast.parse(s)}


if __name__ == '__main__':
    rel, old, new = sys.argv[1:4]
    old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
    ov = overlay(rel, old, new)
    for p in sys.argv[4:]:
        t = time.time()
        s, c, e, n = check.decide(p, overlay=ov)
        print(p, s, e or '', '%.1fs' % (time.time() - t))
        for v in c.viol[:3]:
            print('    ', v[0], v[2], v[3][:400])
