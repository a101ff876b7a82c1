"""What a function of the program may change in the objects it is given.

modified(pr, f): for 'this' and each parameter (by index) the set of access paths that f, with what it calls, writes;
None when that is not known.  Used for calls that are not followed: the rest of the object keeps its value.
"""
import os
import sys
from ir import norm

sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'rules'))
BASE = 'base '


class Classes:
    def __init__(self, pr):
        self.pr = pr

    def is_a(self, c, t):
        if c == t:
            return True
        r = self.pr.records.get(c)
        return r is not None and any(self.is_a(norm(b), t) for b in r['bases'])


def modified(pr, f):
    memo = pr.__dict__.setdefault('_modified', {})
    if id(f) in memo:
        return memo[id(f)]
    memo[id(f)] = None
    if f.get('body') is None:
        return None
    import effects
    try:
        an = effects.analysis(pr, Classes(pr))
        fr = effects.Frame(an, f['q'], f['file'], {(BASE + 'this',)}, {p['id']: {(BASE + str(i),)} for i, p in enumerate(f['params'])})
        fr.line = f.get('l')
        an.memo[(id(f), fr.held, frozenset(fr.this), tuple(frozenset(fr.loc[p['id']]) for p in f['params']))] = {effects.L}
        fr.stmt(f['body'])
    except (effects.Undecided, KeyError, TypeError, IndexError, AttributeError, RecursionError):
        return None
    out = {}
    for a in an.out.values():
        if a.write and a.path[0].startswith(BASE):
            k = a.path[0][len(BASE):]
            out.setdefault(k if k == 'this' else int(k), set()).add(a.path[1:])
    memo[id(f)] = out
    return out
