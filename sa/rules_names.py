"""C28: every reference, on every path, is to something that exists."""
from core import *
from names import Names


def C28(c):
    n = Names(c.I.prog)
    seen = set()
    for rule, con, where, ok, msg in n.checks:
        if not ok and (rule, con, where) in seen:
            continue
        if not ok:
            seen.add((rule, con, where))
        c.require(ok, rule, con if not ok else con.split(':')[0], msg, where)
    c.note = dict(references=len(n.checks), library_names=n.asked)


RULES = {'C28': C28}
C28.modes = 1
