"""Confirmation of reported differences in small finite structures of the analysis' own domain.

A difference between two normal forms is reported only when some small structure (containers of at most three elements,
a few distinct names) exists in which the condition of the difference holds and the two normal forms denote different
results.  The structures interpret the terms of the normal forms; no code of the program is run.  A difference without
such a structure is counted as not decided.
"""
import os
import random
import resource
import select
import signal
import time
from core import *
import core
from theory import subterms, refuted, ATOMS, Limit
import theory


class Inconclusive(Exception):
    pass


class TooLarge(Inconclusive):
    pass


class TooLong(Exception):
    pass


CTORS = ('obj*', 'iter', 'ptr', 'lv', 'fn', 'emptymap', 'emptygraph', 'null', 'glob', 'clo', 'rd', 'rv', 'rg', 'tmp', 'kpos', 'kjson', 'noevent')
EMPTYVALS = (('obj', ()), ('q', ()), ('set', ()))
NZ = 5
CAP = 14


def sig(t, d=0):
    """Kind of place a term reads (places of the same kind share the constants they may hold)."""
    if t.op == 'fld':
        return ('fld', t.a[1])
    if t.op == 'arg':
        return t.a
    if t.op in ('at', 'opt', 'deref', 'key', 'get', 'vert', 'edge') and isinstance(t.a[0], T) and d < 4:
        return (t.op, t.a[1] if t.op == 'get' else None, sig(t.a[0], d + 1))
    if t.op == 'at' and isinstance(t.a[0], V) and d < 4:
        return (t.op, 'one of') + tuple(sorted({str(sig(x, d + 1)) for x in core.leafset(t.a[0])}))
    if t.op == 'app':
        return ('app', t.a[0])
    return (t.op,)


NPOS = -1


def text_sources(t):
    """Places the text of a term is read from."""
    if t.op == 'cat':
        return [x for p in t.a[0] for x in text_sources(p)]
    if t.op == 'app' and t.a[0] in ('lower', 'upper', 'pop', 'substr') and isinstance(t.a[1], T):
        return text_sources(t.a[1])
    return [] if t.op == 'str' else [t]


class Pools:
    """Constants each kind of place is compared with in the two summaries."""

    def __init__(self, vs):
        seen = set()
        lst = []
        for v in vs:
            subterms(v, lst, seen)
        self.const = {}
        self.numeric = set()
        self.truth = set()
        self.nums = set()
        self.sizes = set()
        for t in lst:
            if t.op == 'eq':
                for x, y in (t.a, t.a[::-1]):
                    if y.op in ('int', 'enum', 'str', 'b'):
                        self.const.setdefault(sig(x), set()).add(constant(y))
                        if y.op == 'enum':
                            for n in sorted(theory.ENUMS.get(y.a[0], ()))[:16]:
                                if len(self.const[sig(x)]) < 5:
                                    self.const[sig(x)].add(n)
                if t.a[0].op not in ('int', 'enum', 'str', 'b') and t.a[1].op not in ('int', 'enum', 'str', 'b'):
                    p, q = sig(t.a[0]), sig(t.a[1])
                    both = self.const.get(p, set()) | self.const.get(q, set())
                    if both:
                        self.const[p] = self.const[q] = both
            elif t.op in ('lt',):
                c0, d = lin_of(t.a[0])
                for x in d:
                    if not is_num(x):
                        self.numeric.add(sig(x))
                n = t.a[1] - c0
                if -2 <= n <= 300:
                    self.nums |= {n, n - 1}
                for x, k in d.items():
                    if x.op == 'size':
                        m = n * (1 if k > 0 else -1)
                        self.sizes |= {y for y in (m - 1, m, m + 1) if 0 <= y <= 300}
            elif t.op == 'lin':
                for x, _ in t.a[1]:
                    if not is_num(x):
                        self.numeric.add(sig(x))
            elif t.op == 'at' and t.a[1].op not in ('ix', 'first', 'last', 'int', 'lin', 'size'):
                self.numeric.add(sig(t.a[1]))
            elif t.op == 'tr':
                self.truth.add(sig(t.a[0]))
            elif t.op == 'app' and t.a[0] in ('ends_with', 'starts_with', 'find', 'rfind') and t.a[2].op == 'str':
                c = t.a[2].a[0]
                for x in text_sources(t.a[1]):
                    for y in ('x' + c, c + 'x', c, 'x'):
                        self.const.setdefault(sig(x), set()).add(constant(mk('str', y)))
            if t.op in ('eq',) and t.a[0].op == 'app' and t.a[0].a[0] in ('lower', 'upper', 'pop') or t.op == 'eq' and t.a[1].op == 'app' and t.a[1].a[0] in ('lower', 'upper', 'pop'):
                for x, y in (t.a, t.a[::-1]):
                    if y.op == 'str':
                        for z in text_sources(x):
                            self.const.setdefault(sig(z), set()).update({constant(mk('str', w)) for w in (y.a[0], y.a[0].lower(), y.a[0].upper())})
        self.numlist = sorted({0, 1, 2, 3} | {n for n in self.nums if n >= 0})[:24]
        self.z = [('z', i) for i in range(NZ)]
        self.texts = {s for s, c in self.const.items() if any(isinstance(x, tuple) and x[0] == 's' for x in c)}
        self.memo = {}

    def pool(self, s):
        p = self.memo.get(s)
        if p is None:
            if s == 'num' or s in self.numeric:
                p = self.numlist + [c for c in self.const.get(s, ()) if isinstance(c, int)]
            elif s == 'bool':
                p = [False, True]
            elif s == 'size':
                p = [0, 1, 1, 2, 2, 2, 3, 3, 4] + sorted(self.sizes - {0, 1, 2, 3, 4})[:6]
            else:
                c = sorted(self.const.get(s, ()), key=str)
                if s in self.truth:
                    c += [False, True]
                    p = c
                elif all(isinstance(x, int) for x in c) and c:
                    p = c + self.z[:1]
                else:
                    p = c + self.z
            self.memo[s] = p
        return p


def constant(t):
    if t.op == 'str':
        return ('s', tuple(ord(c) for c in t.a[0]))
    if t.op == 'b':
        return bool(t.a[0])
    return t.a[-1]


# What the specification of a function (decided on its own) says about the range of its result.
CONTRACTS = {'Parser::GetTypeIndex': lambda st, args, r: -1 + (st.num(r) + 1) % (st.size(args[-1]) + 1),
             'LabelUtils::LabelsToString': lambda st, args, r: r if st.size(r) else ('s', (46,)),
             'zone::Graph::AddGlueRecords#0': lambda st, args, r: r if st.size(r) >= st.size(args[1]) else args[1]}


class Structure:
    def __init__(self, pools, rng, deadline):
        self.p = pools
        self.rng = rng
        self.table = {}
        self.deadline = deadline
        self.reads = None
        self.defs = {}
        self.fresh = rng.choice((0, 0.5, 0.9))       # how often an unknown is a new element
        self.reset()

    def reset(self):
        self.memo = {}
        self.wl = {}
        self.fp = ()
        self.depth = 0
        self.steps = 0

    # ---------------------------------------------------------------- cells
    def cell(self, key, s):
        if self.reads is not None:
            self.reads.append(key)
        v = self.table.get(key)
        if v is None:
            v = self.rng.choice(self.p.pool(s))
            if isinstance(v, tuple) and v[0] == 'z' and self.rng.random() < self.fresh:
                v = ('z', NZ + len(self.table))
            self.table[key] = (v, s)
            return v
        if v[1] != s and s in self.p.texts and v[1] not in self.p.texts:
            # a place of a text first read without its kind
            self.table[key] = (v[0], s)
            if isinstance(v[0], int):
                raise Inconclusive()
        return v[0]

    def tick(self):
        self.steps += 1
        if self.steps % 512 == 0 and time.time() > self.deadline:
            raise TooLong()
        if self.steps > 400000:
            raise TooLong()

    # ---------------------------------------------------------------- views of values
    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if v[0] == 's' and len(v[1]) == 1:
            return v[1][0]
        return self.cell(('n', v), 'num')

    def truth(self, v):
        if isinstance(v, (bool, int)):
            return bool(v)
        if v[0] == 'z' or v[0] == 'u':
            return self.cell(('t', v), 'bool')
        if v[0] in ('none',):
            return False
        return True

    def has(self, v):
        if isinstance(v, tuple) and v[0] == 'some':
            return True
        if isinstance(v, tuple) and v[0] == 'none':
            return False
        return self.cell(('has', v), 'bool')

    def size(self, v):
        if isinstance(v, tuple):
            if v[0] in ('s', 'q', 'set', 'map'):
                return len(v[1])
            if v[0] == 'obj':
                return len([1 for _, x in v[1] if x not in EMPTYVALS])
            if v[0] == 't' and v[1] == 'emptymap':
                return 0
            if v[0] == 'upd':
                return self.size(v[1])
            if v[0] == 'undef':
                return 0
        r = self.cell(('size', v), 'size')
        if not isinstance(r, int):
            raise Inconclusive()
        return r

    def items(self, v):
        if isinstance(v, tuple) and v[0] in ('s', 'q', 'set'):
            return v[1]
        if isinstance(v, tuple) and v[0] == 'map':
            return tuple(('tup', kv) for kv in v[1])
        return tuple(self.child(v, '.at', i, None) for i in range(self.size(v)))

    def pairs(self, v):
        """(key, value) pairs of a map."""
        if isinstance(v, tuple) and v[0] == 'map':
            return v[1]
        if isinstance(v, tuple) and v[0] == 'obj':
            return v[1]
        if isinstance(v, tuple) and v[0] == 'upd':
            out = list(self.pairs(v[1]))
            for (op, a), x in v[2]:
                if op == '.key':
                    out = [(k, y) for k, y in out if not self.eq(k, a)] + [(a, x)]
            return tuple(out)
        if isinstance(v, tuple) and v[0] in ('t', 'undef'):
            return ()
        out = []
        for i in range(self.size(v)):
            e = self.child(v, '.at', i, None)
            k = self.child(e, '.get', 0, None)
            if any(self.eq(k, k2) for k2, _ in out):
                continue
            out.append((k, self.child(e, '.get', 1, None)))
        return tuple(out)

    def lookup(self, v, k, s):
        for k2, x in self.pairs(v):
            if self.eq(k2, k):
                return x
        if isinstance(v, tuple) and v[0] == 'obj':
            return ('obj', ())
        return ('undef',)

    def child(self, v, op, a, s):
        """Component of a value; op is the kind of step, a its (evaluated) argument, s the signature."""
        k = v[0] if isinstance(v, tuple) else ''
        if op == '.f' and a in ('first', 'second') and k != 'rec':
            op, a = '.get', 0 if a == 'first' else 1
        if k == 'undef':
            return v
        if k == 'upd':
            for (o, b), x in reversed(v[2]):
                if o == op and (a == b if isinstance(a, str) or a is None else self.eq(a, b)):
                    return x
            return self.child(v[1], op, a, s)
        if k == 'rec' and op == '.f':
            for n, x in v[2]:
                if n == a:
                    return x
        if k == 'tup' and op == '.get':
            if a < len(v[1]):
                return v[1][a]
        if k in ('s', 'q', 'set') and op == '.at':
            return v[1][a] if 0 <= a < len(v[1]) else ('undef',)
        if k == 'map' and op == '.at':
            return ('tup', v[1][a]) if 0 <= a < len(v[1]) else ('undef',)
        if op == '.opt':
            if k == 'some':
                return v[1]
            if k == 'none':
                return ('undef',)
        if op == '.at' and k in ('z', 'u') and isinstance(a, int) and not isinstance(a, bool):
            if not 0 <= a < self.size(v):
                return ('undef',)
        if op == '.deref' and k == 't' and v[1] in ('ptr', 'obj*') and v[2]:
            return v[2][-1] if v[1] == 'obj*' else self.cell((v, op), s)
        return self.cell((v, op, a), s if s is not None else (op,))

    # ---------------------------------------------------------------- equality
    def eq(self, a, b):
        if a is b or (a == b and type(a) is type(b)):
            return True
        ka = a[0] if isinstance(a, tuple) else 'n'
        kb = b[0] if isinstance(b, tuple) else 'n'
        if ka == 'undef' or kb == 'undef':
            return True
        if ka == 'n' and kb == 'n':
            return int(a) == int(b)
        if ka == 'n' or kb == 'n':
            (x, y) = (a, b) if ka == 'n' else (b, a)
            if isinstance(y, tuple) and y[0] in ('z', 'u', 's'):
                return self.num(y) == int(x) if not isinstance(x, bool) else self.truth(y) == x
            return False
        if ka in ('z', 'u') and kb in ('z', 'u'):
            return False
        if ka in ('z', 'u', 't', 'upd') or kb in ('z', 'u', 't', 'upd'):
            if kb not in ('z', 'u', 't', 'upd') or kb == 'upd' and ka != 'upd':
                a, b, ka, kb = b, a, kb, ka
            # b is symbolic, a concrete or symbolic
            if ka == 'upd':
                steps = {s for s, _ in a[2]} | ({s for s, _ in b[2]} if kb == 'upd' else set())
                if not self.eq(a[1], b[1] if kb == 'upd' else b):
                    return False
                return all(self.eq(self.child(a, s[0], s[1], None), self.child(b, s[0], s[1], None)) for s in steps)
            if ka in ('s', 'q'):
                if kb == 't' or kb == 'upd':
                    return False
                return len(a[1]) == self.size(b) and all(self.eq(x, y) for x, y in zip(a[1], self.items(b)))
            if ka == 'set':
                return kb != 't' and self.seteq(a[1], self.items(b))
            if ka == 'map':
                return self.mapeq(a[1], self.pairs(b))
            if ka == 'rec':
                return kb != 't' and all(self.eq(x, self.child(b, '.f', n, None)) for n, x in a[2])
            if ka == 'tup':
                return kb != 't' and all(self.eq(x, self.child(b, '.get', i, None)) for i, x in enumerate(a[1]))
            if ka == 'some':
                return self.has(b) and self.eq(a[1], self.child(b, '.opt', None, None))
            if ka == 'none':
                return not self.has(b)
            if ka == 'bs':
                return all((i in a[1]) == self.bit(b, i) for i in range(core.NBITS))
            if ka == 't' and kb == 't':
                return a[1] == b[1] and len(a[2]) == len(b[2]) and all(self.eq(x, y) for x, y in zip(a[2], b[2]))
            return False
        if ka != kb:
            if {ka, kb} <= {'s', 'q', 'set'}:
                return len(a[1]) == len(b[1]) and all(self.eq(x, y) for x, y in zip(a[1], b[1]))
            return a in EMPTYVALS and b in EMPTYVALS
        if ka == 'set':
            return self.seteq(a[1], b[1])
        if ka == 'map':
            return self.mapeq(a[1], b[1])
        if ka == 'obj':
            da = {k: v for k, v in a[1] if v not in EMPTYVALS}
            db = {k: v for k, v in b[1] if v not in EMPTYVALS}
            if set(da) == set(db):
                return all(self.eq(da[k], db[k]) for k in da)
            return self.mapeq(list(da.items()), list(db.items()))
        if ka in ('q', 's', 'tup'):
            return len(a[1]) == len(b[1]) and all(self.eq(x, y) for x, y in zip(a[1], b[1]))
        if ka == 'rec':
            da, db = dict(a[2]), dict(b[2])
            return all(n in db and self.eq(x, db[n]) for n, x in da.items())
        if ka == 'some':
            return self.eq(a[1], b[1])
        return False

    def seteq(self, xs, ys):
        return all(any(self.eq(x, y) for y in ys) for x in xs) and all(any(self.eq(x, y) for x in xs) for y in ys)

    def mapeq(self, xs, ys):
        sub = lambda p, q: all(any(self.eq(k, k2) and self.eq(v, v2) for k2, v2 in q) for k, v in p)
        return sub(xs, ys) and sub(ys, xs)

    def bit(self, v, i):
        if isinstance(v, tuple) and v[0] == 'bs':
            return i in v[1]
        if isinstance(v, tuple) and v[0] == 'undef':
            return False
        return self.cell(('bit', v, i), 'bool')

    # ---------------------------------------------------------------- evaluation
    def v(self, x, env):
        while x.var is not None:
            x = x.hi if self.atom(ATOMS[x.var], env) else x.lo
        return self.t(x.t, env)

    def key(self, x, env):
        if not env and not self.fp:
            return (x.id, ())
        return (x.id, tuple((i.id, env[i]) for i in free_sorted(x) if i in env), self.fp)

    def atom(self, a, env):
        k = self.key(a, env)
        r = self.memo.get(k)
        if r is None:
            if self.reads is None:
                r = self._atom(a, env)
                self.memo[k] = (r, None)
            else:
                outer, self.reads = self.reads, []
                try:
                    r = self._atom(a, env)
                    self.memo[k] = (r, self.reads)
                finally:
                    outer.extend(self.reads)
                    self.reads = outer
            return r
        if self.reads is not None and r[1]:
            self.reads.extend(r[1])
        return r[0]

    def _atom(self, a, env):
        self.tick()
        op = a.op
        if op == 'lt':
            return self.num(self.t(a.a[0], env)) < a.a[1]
        if op == 'eq':
            return self.eq(self.t(a.a[0], env), self.t(a.a[1], env))
        if op == 'tr':
            return self.truth(self.t(a.a[0], env))
        if op == 'has':
            return self.has(self.t(a.a[0], env))
        if op == 'empty':
            return self.size(self.t(a.a[0], env)) == 0
        if op == 'haskey':
            m, k = self.t(a.a[0], env), self.t(a.a[1], env)
            return any(self.eq(k, k2) and (x not in EMPTYVALS or m[0] != 'obj') for k2, x in self.pairs(m))
        if op == 'bit':
            return self.bit(self.t(a.a[0], env), self.num(self.t(a.a[1], env)))
        if op == 'ex':
            return any(True for _ in self.indices(a.a[0], a.a[1], a.a[2], env))
        return self.truth(self.t(a, env))

    def domain(self, S, env):
        if S.op == 'wloop':
            return self.wloop(S, env)
        n = self.num(self.t(S, env))
        if n > CAP:
            raise TooLarge()
        return n

    def indices(self, S, k, g, env, rev=False):
        b = ixs(S, k)
        n = self.domain(S, env)
        env = dict(env)
        for i in (range(n - 1, -1, -1) if rev else range(n)):
            env[b] = i
            if self.v(g, env) is True:
                yield i

    def wloop(self, S, env):
        """Number of iterations begun, the stopping one included."""
        inits, steps, stop, d = S.a
        state = [self.v(x, env) for x in inits]
        fp = self.fp
        try:
            for n in range(CAP):
                self.fp = bind(fp, d, None, state)
                if self.v(stop, env):
                    return n + 1
                state = [self.v(x, env) for x in steps]
        finally:
            self.fp = fp
        raise Inconclusive()

    def fold(self, t, env):
        i, S, inits, steps, u, d = t.a
        n = self.domain(S, env)
        rev = u.op == 'backwards'
        if rev:
            u = u.a[0]
        if u.op == 'end' or u is TT:
            m = n
        else:
            m = self.num(self.t(u, env))
        order = range(n - 1, max(m, -1) if u.op != 'end' and u is not TT else -1, -1) if rev else range(0, min(m, n))
        state = [self.v(x, env) for x in inits]
        fp = self.fp
        try:
            for b in order:
                self.fp = bind(fp, d, b, state)
                state = [self.v(x, env) for x in steps]
        finally:
            self.fp = fp
        return state[i]

    def t(self, x, env):
        op = x.op
        if op in ('int', 'enum', 'str', 'b'):
            return constant(x)
        if op == 'ix':
            if x in env:
                return env[x]
            n = self.num(self.t(x.a[0], env)) if x.a[0].op != 'wloop' else 3
            return self.cell(('ix', x), 'num') % max(1, min(n, CAP))       # an index in a condition being searched for
        k = self.key(x, env)
        r = self.memo.get(k)
        if r is None:
            self.depth += 1
            if self.depth > 400:
                raise Inconclusive()
            try:
                if self.reads is None:
                    r = self._t(x, env)
                    self.memo[k] = (r, None)
                else:
                    outer, self.reads = self.reads, []
                    try:
                        r = self._t(x, env)
                        self.reads = list(dict.fromkeys(self.reads))
                        self.memo[k] = (r, self.reads)
                    finally:
                        outer.extend(self.reads)
                        self.reads = outer
            finally:
                self.depth -= 1
            return r
        if self.reads is not None and r[1]:
            self.reads.extend(r[1])
        return r[0]

    def _t(self, x, env):
        self.tick()
        op, a = x.op, x.a
        t = self.t
        if op in ATOMOPS:
            return self.atom(x, env)
        if op == 'opaque':
            if a[0] in ('domain', 'choice'):
                return self.v(a[1], env)
            if a[0] == 'slice':
                c, lo, hi = t(a[1], env), t(a[2], env), t(a[3], env)
                if not isinstance(lo, int) or not isinstance(hi, int):
                    raise Inconclusive('slice')
                return ('q', tuple(self.items(c))[max(lo, 0):max(hi, 0)])
            raise Inconclusive('no meaning: %s' % (a[0],))
        if op == 'undef':
            return ('undef',)
        if op == 'none':
            return ('none',)
        if op == 'beta':
            if x not in env:
                raise Inconclusive('bit outside a set')
            return env[x]
        if op == 'arg':
            return self.cell(('arg', a[0]), sig(x))
        if op == 'fld':
            return self.child(t(a[0], env), '.f', a[1], sig(x))
        if op == 'get':
            return self.child(t(a[0], env), '.get', a[1], sig(x))
        if op == 'opt':
            return self.child(t(a[0], env), '.opt', None, sig(x))
        if op == 'deref':
            return self.child(t(a[0], env), '.deref', None, sig(x))
        if op == 'at':
            return self.child(t(a[0], env), '.at', self.num(t(a[1], env)), sig(x))
        if op == 'key':
            return self.lookup(t(a[0], env), t(a[1], env), sig(x))
        if op in ('vert', 'edge'):
            return self.child(t(a[0], env), '.' + op, t(a[1], env), sig(x))
        if op == 'size':
            return self.size(t(a[0], env))
        if op == 'lin':
            return a[0] + sum(k * self.num(t(y, env)) for y, k in a[1])
        if op == 'mul':
            return self.num(t(a[0], env)) * self.num(t(a[1], env))
        if op == 'first':
            for i in self.indices(a[0], a[1], a[2], env):
                return i
            return 0
        if op == 'last':
            for i in self.indices(a[0], a[1], a[2], env, True):
                return i
            return 0
        if op == 'count':
            return sum(1 for _ in self.indices(a[0], a[1], a[2], env))
        if op == 'sum':
            b = ixs(a[0], a[1])
            return sum(self.num(self.v(a[3], {**env, b: i})) for i in self.indices(a[0], a[1], a[2], env))
        if op == 'catall':
            b = ixs(a[0], a[1])
            out = ()
            for i in self.indices(a[0], a[1], a[2], env):
                out += self.chars(self.v(a[3], {**env, b: i}))
            return ('s', out)
        if op == 'cat':
            out = ()
            for y in a[0]:
                out += self.chars(t(y, env))
            return ('s', out)
        if op in ('seq', 'set'):
            out = list(self.items(t(a[0], env))) if a[0] is not None else []
            for y in a[1]:
                self.expand(y, env, out)
            if op == 'set':
                u = []
                for y in out:
                    if not any(self.eq(y, w) for w in u):
                        u.append(y)
                out = u
            return ('q' if op == 'seq' else 'set', tuple(out))
        if op == 'rev':
            v = t(a[0], env)
            return ('q', tuple(reversed(self.items(v))))
        if op == 'adjv':
            es = self.cell(('u', 'oute', tuple(t(y, env) for y in a)), ('oute',))
            return ('q', tuple(self.child(e, '.f', 'm_target', ('fld', 'm_target')) for e in self.items(es)))
        if op == 'erase':
            v = list(self.items(t(a[0], env)))
            i = self.num(t(a[1], env))
            if 0 <= i < len(v):
                del v[i]
            return ('q', tuple(v))
        if op == 'some':
            return ('some', self.v(a[0], env))
        if op == 'tup':
            return ('tup', tuple(self.v(y, env) for y in a[0]))
        if op == 'rec':
            return ('rec', a[0], tuple((n, self.v(y, env)) for n, y in a[1]))
        if op == 'obj':
            return ('obj', tuple((t(n, env), self.v(y, env)) for n, y in a[0]))
        if op == 'bs':
            return ('bs', frozenset(i for i in range(core.NBITS) if self.v(a[0], {**env, core.BETA: i})))
        if op == 'upd':
            items = []
            for s, y in a[1]:
                arg = s.a[0] if s.a else None
                if isinstance(arg, T):
                    arg = t(arg, env)
                    if s.op == '.at':
                        arg = self.num(arg)
                items.append(((s.op, arg), self.v(y, env)))
            base = t(a[0], env)
            if isinstance(base, tuple) and base[0] in ('q', 's') and all(s[0] == '.at' for s, _ in items):
                lst = list(base[1])
                for (o, i), y in items:
                    if 0 <= i < len(lst):
                        lst[i] = y
                return (base[0], tuple(lst))
            return ('upd', base, tuple(items))
        if op == 'mupd':
            cur = list(self.pairs(t(a[0], env)))
            for kind, kt, v in a[1]:
                if kind == 'clear':
                    cur = []
                    continue
                if kind not in ('set', 'del'):
                    raise Inconclusive()
                kk = t(kt, env)
                old = [i for i, (k2, _) in enumerate(cur) if self.eq(k2, kk)]
                if kind == 'set':
                    nv = self.v(v, env)
                    if old:
                        cur[old[0]] = (cur[old[0]][0], nv)
                    else:
                        cur.append((kk, nv))
                else:
                    cur = [p for i, p in enumerate(cur) if i not in old]
            return ('map', tuple(cur))
        if op == 'fold':
            return self.fold(x, env)
        if op in ('fpre', 'fix'):
            for d, b, state in self.fp:
                if d == a[0]:
                    return b if op == 'fix' else state[a[1]]
            raise Inconclusive()
        if op == 'pre' or op in ('maxof', 'argmax'):
            raise Inconclusive()
        if op == 'cut' and x in self.defs:
            return self.v(self.defs[x], {})
        args = tuple(self.arg(y, env) for y in a)
        if op == 'app':
            if a[0] == 'chr':
                return ('s', (args[1],))
            r = self.text_function(a[0], args[1:])
            if r is not None:
                return r
            if a[0] == 'lower' and isinstance(args[1], tuple) and args[1][0] == 's' and all(isinstance(c, int) for c in args[1][1]):
                return ('s', tuple(c + 32 if 65 <= c <= 90 else c for c in args[1][1]))
        if op in CTORS:
            return ('t', op, args)
        r = self.cell(('u', op, args), sig(x))
        if op == 'app' and a[0] in CONTRACTS:
            return CONTRACTS[a[0]](self, args[1:], r)
        return r

    def arg(self, y, env):
        if isinstance(y, V):
            return self.v(y, env)
        if isinstance(y, T):
            if y.op.startswith('.'):
                return (y.op, tuple(self.arg(z, env) for z in y.a))
            return self.t(y, env)
        if isinstance(y, tuple):
            return tuple(self.arg(z, env) for z in y)
        return y

    def chars(self, v):
        if isinstance(v, tuple) and v[0] == 's':
            return v[1]
        if isinstance(v, (int, bool)):
            return (('u', 'text', v),)
        if v[0] == 'undef':
            return (v,)
        return self.items(v)

    def text_function(self, f, args):
        """Value of a library function on texts, None when the text is not known."""
        def conc(v):
            return isinstance(v, tuple) and v[0] == 's' and all(isinstance(c, int) for c in v[1])
        if f == 'upper' and conc(args[0]):
            return ('s', tuple(c - 32 if 97 <= c <= 122 else c for c in args[0][1]))
        if f in ('ends_with', 'starts_with') and len(args) == 2:
            t, u = self.chars(args[0]), self.chars(args[1])
            n = len(u)
            if n > len(t):
                return False
            return all(self.eq(p, q) for p, q in zip(t[len(t) - n:] if f == 'ends_with' else t[:n], u))
        if f == 'pop':
            return ('s', tuple(self.chars(args[0])[:-1]))
        if f == 'before' and conc(args[0]) and conc(args[1]):
            return args[0][1] < args[1][1]
        if f == 'substr' and 1 < len(args) < 4 and all(isinstance(x, int) for x in args[1:]):
            t = tuple(self.chars(args[0]))
            p = args[1]
            if p > len(t):
                raise Inconclusive()
            n = args[2] if len(args) == 3 else -1
            return ('s', t[p:] if n < 0 or n > 1 << 40 else t[p:p + n])
        if f in ('find', 'rfind') and 1 < len(args) < 4 and all(isinstance(x, int) for x in args[2:]):
            t = self.chars(args[0])
            u = (args[1],) if isinstance(args[1], int) else self.chars(args[1])
            hits = [i for i in range(len(t) - len(u) + 1) if all(self.eq(p, q) for p, q in zip(t[i:], u))]
            if len(args) == 3:
                hits = [i for i in hits if (i >= args[2] if f == 'find' else args[2] < 0 or i <= args[2])]
            return (hits[0] if f == 'find' else hits[-1]) if hits else NPOS
        if f == 'to_string' and isinstance(args[0], int):
            return ('s', tuple(ord(c) for c in str(int(args[0]))))
        return None

    def expand(self, y, env, out):
        if y.op == 'one':
            out.append(self.v(y.a[0], env))
        elif y.op == 'cond':
            if self.v(y.a[0], env):
                for z in y.a[1]:
                    self.expand(z, env, out)
        elif y.op == 'each':
            S, k, g, its = y.a
            b = ixs(S, k)
            for i in self.indices(S, k, g, env):
                e2 = {**env, b: i}
                for z in its:
                    self.expand(z, e2, out)
        else:
            raise Inconclusive()

    # ---------------------------------------------------------------- making a condition hold
    def set(self, key, val):
        old = self.table.get(key)
        if old is None or old[0] == val and type(old[0]) is type(val):
            return False
        if isinstance(val, int) and old[1] in self.p.texts:
            return False
        self.table[key] = (val, old[1])
        self.reset()
        return True

    def probe(self, f):
        """Value and the cells read for it, the outermost last."""
        outer, self.reads = self.reads, []
        try:
            r = f()
            return r, self.reads
        finally:
            self.reads = outer

    def other(self, key):
        old = self.table.get(key)
        if old is None:
            return False
        p = [v for v in self.p.pool(old[1]) if v != old[0] or type(v) is not type(old[0])]
        return bool(p) and self.set(key, self.rng.choice(p))

    def force_v(self, x, want, env, fuel=40):
        """Change cells so that boolean x tends to become want."""
        want = TRUE if want else FALSE
        no = FALSE if want is TRUE else TRUE
        while x.var is not None and fuel > 0:
            fuel -= 1
            a = ATOMS[x.var]
            now = self.atom(a, env)
            here, there = (x.hi, x.lo) if now else (x.lo, x.hi)
            if here is no or there is not no and self.rng.random() < 0.15:
                self.force(a, not now, env)
                x = there
            else:
                x = here

    def ensure(self, t, env):
        """Keys a term looks up exist."""
        if t.op in ('fld', 'get', 'opt', 'deref', 'at', 'key', 'vert', 'edge', 'size') and isinstance(t.a[0], T):
            self.ensure(t.a[0], env)
            if t.op == 'key' and self.rng.random() < 0.9:
                self.put_key(t.a[0], t.a[1], env)

    def put_key(self, mt, kt, env):
        m, k = self.t(mt, env), self.t(kt, env)
        if any(self.eq(k, k2) for k2, _ in self.pairs(m)):
            return
        n, reads = self.probe(lambda: self.size(m))
        if not reads:
            return
        i = n
        if n == 0 or n < 6 and self.rng.random() < 0.7:
            self.set(reads[-1], n + 1)
        else:
            i = self.rng.randrange(n)
        _, reads = self.probe(lambda: self.child(self.child(m, '.at', i, None), '.get', 0, None))
        if reads:
            self.set(reads[-1], k)

    def force(self, a, want, env):
        op = a.op
        rng = self.rng
        if op in ('eq', 'lt', 'tr', 'empty', 'has', 'bit', 'haskey', 'ex') and isinstance(a.a[0], T):
            for y in (lin_of(a.a[0])[1] if op == 'lt' else a.a[:2]):
                if isinstance(y, T):
                    self.ensure(y, env)
        if op == 'ex':
            S, k, g = a.a
            if S.op == 'wloop':
                return self.random_change(a, env)
            b = ixs(S, k)
            n = self.domain(S, env)
            if want:
                if n == 0 or rng.random() < 0.1:
                    v, reads = self.probe(lambda: self.num(self.t(S, env)))
                    if reads:
                        self.set(reads[-1], rng.choice([1, 1, 2, 3]))
                    n = self.domain(S, env)
                    if n == 0:
                        return
                self.force_v(g, True, {**env, b: rng.randrange(n)})
            else:
                for i in range(n):
                    e2 = {**env, b: i}
                    if self.v(g, e2) is True:
                        self.force_v(g, False, e2)
            return
        if op == 'eq':
            (x, rx), (y, ry) = self.probe(lambda: self.t(a.a[0], env)), self.probe(lambda: self.t(a.a[1], env))
            sides = [(r, v) for r, v in ((rx, y), (ry, x)) if r]
            if not sides:
                return
            r, v = rng.choice(sides)
            if want:
                self.set(r[-1], v)
            else:
                self.other(r[-1])
            return
        if op == 'lt':
            c, d = lin_of(a.a[0])
            tot = c
            terms = []
            for y, k in d.items():
                n, reads = self.probe(lambda: self.num(self.t(y, env)))
                tot += k * n
                if reads:
                    key = reads[-1]
                    old = self.table[key][0] if key in self.table else None
                    if y.op in ('sumof', 'fold', 'sum') or isinstance(old, int) and not isinstance(old, bool) and old != n:
                        # a sum over several places: change one of them
                        key = rng.choice([r for r in reads if isinstance(self.table[r][0], int) and not isinstance(self.table[r][0], bool)] or [key])
                        n = self.table[key][0] if isinstance(self.table[key][0], int) else n
                    terms.append((y, k, n, key))
            if not terms:
                return
            if any(t[0].op == 'sum' for t in terms):
                terms = [t for t in terms if t[0].op == 'sum'] if rng.random() < 0.8 else terms
            y, k, n, key = rng.choice(terms)
            # tot + k*delta < bound
            need = a.a[1] - 1 - tot if want else a.a[1] - tot
            delta = need // k if (k > 0) == want else -((-need) // k)
            m = n + delta + (rng.choice([0, 0, 1, 2]) * (-1 if (k > 0) == want else 1))
            if m >= 0 or key[0] != 'size':
                self.set(key, m)
            return
        if op == 'empty':
            n, reads = self.probe(lambda: self.size(self.t(a.a[0], env)))
            if reads:
                self.set(reads[-1], 0 if want else rng.choice([1, 2]))
            return
        if op in ('has', 'tr', 'bit'):
            n, reads = self.probe(lambda: self.atom(a, env))
            if reads:
                key = reads[-1]
                old = self.table[key]
                if isinstance(old[0], bool):
                    self.set(key, want)
                else:
                    self.other(key)
            return
        if op == 'haskey':
            m, k = self.t(a.a[0], env), self.t(a.a[1], env)
            if want:
                self.put_key(a.a[0], a.a[1], env)
            else:
                self.random_change(a, env)
            return
        self.random_change(a, env)

    def random_change(self, a, env):
        _, reads = self.probe(lambda: self.atom(a, env))
        if reads:
            self.other(self.rng.choice(reads[-12:]))

    # ---------------------------------------------------------------- events of a summary
    def events(self, evs):
        out = []
        for ev in evs:
            def go(loops, env):
                if not loops:
                    out.append(tuple(self.v(x, env) for x in ev.args))
                    return
                S, k, g, rev = loops[0]
                b = ixs(S, k)
                for i in self.indices(S, k, g, env):
                    go(loops[1:], {**env, b: i})
            # the guard of an event may mention its loop variables
            if not ev.loops and not self.v(ev.pc, {}):
                continue
            if ev.loops:
                if free(ev.pc) and any(t.op == 'ix' for t in free(ev.pc)):
                    raise Inconclusive()
                if not self.v(ev.pc, {}):
                    continue
            go(list(ev.loops), {})
        return out


def bind(fp, d, b, state):
    return tuple(x for x in fp if x[0] != d) + ((d, b, tuple(state)),)


_fs = {}


def free_sorted(x):
    r = _fs.get((x.__class__, x.id))
    if r is None:
        r = sorted(free(x), key=lambda t: t.id)
        _fs[(x.__class__, x.id)] = r
    return r


# -------------------------------------------------------------------------------------------------- search
def roots(s):
    vs = [v for v in [s.ret, s.pc, s.assume] if v is not None] + list(s.outs.values())
    for e in s.events:
        vs.append(e.pc)
        vs.extend(e.args)
        for S, k, g, r in e.loops:
            vs.append(leaf(S))
            vs.append(g)
    vs.extend(s.defs.values())
    return vs


def differs(st, sa, sb, comp, given=None):
    """Whether component comp has different values in the structure."""
    if not st.v(sa.assume, {}) or not st.v(sb.assume, {}):
        return False
    if given is not None and not st.v(given, {}):
        return False
    if comp == 'normal':
        return st.v(sa.pc, {}) != st.v(sb.pc, {})
    if comp[0] == 'ev':
        fa = [e for e in sa.events if (e.kind, e.name) == comp[1]]
        fb = [e for e in sb.events if (e.kind, e.name) == comp[1]]
        xs, ys = st.events(fa), st.events(fb)
        if len(xs) != len(ys):
            return True
        ys = list(ys)
        for x in xs:
            j = next((j for j, y in enumerate(ys) if len(x) == len(y) and all(st.eq(p, q) for p, q in zip(x, y))), None)
            if j is None:
                return True
            del ys[j]
        return False
    if not st.v(sa.pc, {}) or not st.v(sb.pc, {}):
        return False
    if comp == 'ret':
        return not st.eq(st.v(sa.ret, {}), st.v(sb.ret, {}))
    k = comp[1]
    from compare import initial
    init = initial(k)
    return not st.eq(st.v(sa.outs.get(k, init), {}), st.v(sb.outs.get(k, init), {}))


def cube(g, rng):
    lits = []
    x = g
    while x.var is not None:
        opts = [(b, y) for b, y in ((True, x.hi), (False, x.lo)) if y is not FALSE]
        b, y = rng.choice(opts)
        lits.append((x.var, b))
        x = y
    return lits


UNINTERPRETED = ('opaque', 'xapp', 'pre', 'maxof', 'argmax', 'app')
KNOWN_APPS = ('chr', 'lower', 'upper', 'ends_with', 'starts_with', 'pop', 'before', 'substr', 'find', 'rfind', 'to_string', 'cannot write', 'cannot read', 'cannot finish', 'file', 'lines', 'dump', 'dump over lines')


def component_roots(s, comp):
    vs = [s.assume, s.pc]
    if comp == 'ret':
        vs.append(s.ret)
    elif comp[0] == 'out':
        if comp[1] in s.outs:
            vs.append(s.outs[comp[1]])
    elif comp[0] == 'ev':
        for e in s.events:
            if (e.kind, e.name) == comp[1]:
                vs.append(e.pc)
                vs.extend(e.args)
                for S, k, g, r in e.loops:
                    vs.append(leaf(S))
                    vs.append(g)
    return [v for v in vs if v is not None]


def foreign(sa, sb, comp):
    """Terms without an interpretation that occur in the component on one side only."""
    out = []
    for s in (sa, sb):
        seen, lst = set(), []
        for v in component_roots(s, comp):
            subterms(v, lst, seen)
        out.append({t.a[0].split('#')[0] if t.op == 'app' and isinstance(t.a[0], str) else t.a[0] if t.op == 'app' else (t.op, t.a[0]) if t.op in ('xapp', 'opaque') else t
                    for t in lst if t.op in UNINTERPRETED and not (t.op == 'app' and t.a[0] in KNOWN_APPS) and t.a[:1] != ('domain',)})
    return out[0] ^ out[1]


def library(names):
    """Functions of libraries among the names of uninterpreted terms."""
    return {n for n in names if isinstance(n, tuple) and n[0] in ('xapp', 'opaque') or isinstance(n, str) and '::' not in n and not n.startswith('new ')}


def mentions(f, names):
    vs = [f.cond] + list(f.terms)
    seen, lst = set(), []
    for v in vs:
        if v is not None and isinstance(v, (T, core.V)):
            subterms(v, lst, seen)
    return any((t.op == 'app' and t.a[0] in names) or (t.op in ('xapp', 'opaque') and (t.op, t.a[0]) in names) for t in lst)


def confirm(sa, sb, comp, conds, pools, seconds, seed=1, given=None):
    """A structure in which one of the conditions holds and component comp differs; None when none was found."""
    rng = random.Random(seed)
    end = time.time() + seconds
    tries = 0
    bad = {}
    cs = []
    for g in conds:
        # a condition on one bit of a set of types: each bit
        cs += [core.subst(g, {core.BETA: leaf(mk('int', i))}) for i in range(core.NBITS)] if core.BETA in core.free(g) else [g]
    conds = [g for g in cs if g is not FALSE and g is not TRUE]
    while time.time() < end:
        tries += 1
        st = Structure(pools, rng, end)
        st.defs = {**sb.defs, **sa.defs}
        j = tries % (len(conds) + 1)
        try:
            if j == len(conds):
                # any structure
                if differs(st, sa, sb, comp, given):
                    return st
                continue
            lits = cube(conds[j], rng)
            try:
                if tries < 200 and refuted(tuple(sorted(lits)), 1, time.time() + 0.5):
                    continue
            except Limit:
                pass
            if walk(st, lits, rng, end):
                st.reset()
                if differs(st, sa, sb, comp, given):
                    return st
                # keep the condition, vary the rest
                for _ in range(4):
                    for key in list(st.table):
                        if rng.random() < 0.3:
                            del st.table[key]
                    if walk(st, lits, rng, end):
                        st.reset()
                        if differs(st, sa, sb, comp, given):
                            return st
        except Inconclusive:
            bad[j] = bad.get(j, 0) + 1
            if j < len(conds) and bad[j] > 5:
                del conds[j]            # mentions symbols that only have a meaning inside a loop
                bad = {}
        except (TooLong, RecursionError, TypeError):
            pass
    return None


def confirm_parallel(sa, sb, comp, conds, pools, seconds, given=None, procs=7):
    """The same search from different seeds in parallel; whether one of them succeeded."""
    kids = {}
    try:
        for k in range(procs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = b'0'
                try:
                    signal.alarm(0)
                    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
                    os.close(r)
                    if confirm(sa, sb, comp, conds, pools, seconds, seed=1000 + 17 * k, given=given) is not None:
                        code = b'1'
                except BaseException:
                    pass
                finally:
                    os.write(w, code)
                    os._exit(0)
            os.close(w)
            kids[r] = pid
        left = set(kids)
        end = time.time() + seconds + 5
        while left and time.time() < end:
            ready, _, _ = select.select(list(left), [], [], 1)
            for r in ready:
                left.discard(r)
                if os.read(r, 1) == b'1':
                    return True
        return None
    finally:
        for r, pid in kids.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.close(r)
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass


def walk(st, lits, rng, end, flips=60):
    best = None
    saved = None
    for _ in range(flips):
        if time.time() > end:
            return False
        st.reset()
        unsat = []
        for i, want in lits:
            st.reads = []
            try:
                if st.atom(ATOMS[i], {}) != want:
                    unsat.append((i, want, st.reads))
            except TooLarge:
                unsat.append((i, want, st.reads))
            except Inconclusive:      # speaks about the state inside a loop
                pass
        st.reads = None
        if not unsat:
            return True
        if best is not None and len(unsat) > best and rng.random() > 0.25:
            # undo
            for key, val in saved:
                if val is None:
                    st.table.pop(key, None)
                else:
                    st.table[key] = val
            unsat = lastunsat
            st.reset()
        else:
            best = len(unsat)
        lastunsat = unsat
        i, want, reads = rng.choice(unsat)
        if rng.random() < 0.75:
            before = dict(st.table)
            st.reset()
            st.reads = []
            try:
                st.force(ATOMS[i], want, {})
            except Inconclusive:
                pass
            st.reads = None
            saved = [(k, before.get(k)) for k in set(before) | set(st.table) if k in before and before.get(k) != st.table.get(k)]
            if saved:
                continue
        reads = list(dict.fromkeys(reads))
        if not reads:
            return False
        key = rng.choice(reads[-12:]) if rng.random() < 0.7 else rng.choice(reads)
        old = st.table.get(key)
        saved = [(key, old)]
        if old is None:
            continue
        p = [v for v in st.p.pool(old[1]) if v != old[0] or type(v) is not type(old[0])]
        if p:
            st.table[key] = (rng.choice(p), old[1])
    return False
