"""Implication between guard predicates: which conjunctions of atoms cannot hold together.

Used only to discard differences between two normal forms that no input can show.  `first_model` walks the paths of
a decision diagram and returns the first conjunction that the rules below do not refute.
"""
import time
from core import *
import core

ENUMS = {}          # enum name -> set of values


class Limit(Exception):
    pass


CONST = ('int', 'enum', 'str', 'b', 'null', 'none', 'fn')


def is_const(t):
    return t.op in CONST


def same_const(a, b):
    if a is b:
        return True
    if a.op in ('int', 'enum') and b.op in ('int', 'enum'):
        return a.a[-1] == b.a[-1]
    return False


def subterms(x, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if id(x) in seen:
        return acc
    seen.add(id(x))
    if isinstance(x, V):
        if x.var is None:
            subterms(x.t, acc, seen)
        else:
            subterms(ATOMS[x.var], acc, seen)
            subterms(x.hi, acc, seen)
            subterms(x.lo, acc, seen)
        return acc
    acc.append(x)
    for y in core._args(x):
        subterms(y, acc, seen)
    return acc


_open = {}


def index_terms(t):
    """Index-like terms occurring outside binders of t."""
    key = t.id
    r = _open.get(key)
    if r is None:
        r = set()

        def go(x):
            if isinstance(x, V):
                if x.var is None:
                    go(x.t)
                else:
                    go(ATOMS[x.var])
                    go(x.hi)
                    go(x.lo)
                return
            if x.op in ('ix', 'first', 'last'):
                r.add(x)
                if x.op != 'ix':
                    return
            if x.op in core.BINDERS:
                return
            if x.op == 'bs':
                return
            for y in core._args(x):
                go(y)
        go(t)
        _open[key] = r
    return r


def paths(v, limit):
    """Conjunctions of literals under which boolean v holds."""
    n = [0]
    lits = []

    def go(x):
        if x is FALSE:
            return
        if x is TRUE:
            n[0] += 1
            if n[0] > limit:
                raise Limit()
            yield tuple(lits)
            return
        for val, y in ((True, x.hi), (False, x.lo)):
            if y is FALSE:
                continue
            lits.append((x.var, val))
            if quick(lits):
                yield from go(y)
            else:
                n[0] += 0.02
                if n[0] > limit:
                    raise Limit()
            lits.pop()
    yield from go(v)


def quick(lits):
    """Cheap consistency test: the newest literal against the earlier ones."""
    i, val = lits[-1]
    a = ATOMS[i]
    if a.op == 'eq':
        x, y = a.a
        if is_const(y):
            x, y = y, x
        if is_const(x) and val:
            for j, w in lits[:-1]:
                c = ATOMS[j]
                if c.op == 'eq' and w and c is not a:
                    p, q = c.a
                    if q is y:
                        p, q = q, p
                    if p is y and is_const(q) and not same_const(q, x):
                        return False
        elif is_const(x) and x.op == 'enum' and not val:
            dom = ENUMS.get(x.a[0])
            if dom:
                ex = set()
                for j, w in lits:
                    c = ATOMS[j]
                    if c.op == 'eq' and not w:
                        p, q = c.a
                        if q is y:
                            p, q = q, p
                        if p is y and q.op == 'enum':
                            ex.add(q.a[2])
                if ex >= dom:
                    return False
    elif a.op == 'lt':
        L, c = a.a
        for j, w in lits[:-1]:
            b = ATOMS[j]
            if b.op == 'lt' and b.a[0] is L:
                # L < c (val) and L < b.c (w)
                if val and not w and not b.a[1] < c:
                    return False
                if not val and w and not c < b.a[1]:
                    return False
    return True


_memo = {}


def refuted(lits, depth=2, deadline=None):
    key = (frozenset(lits), depth)
    r = _memo.get(key)
    if r is None:
        r = _refuted(lits, depth, deadline)
        _memo[key] = r
    return r


def _refuted(lits, depth, deadline):
    if deadline and time.time() > deadline:
        raise Limit()
    pos, neg = [], []
    for i, v in lits:
        (pos if v else neg).append(ATOMS[i])
    # ---- equalities
    par = {}

    def find(t):
        while t in par:
            t = par[t]
        return t

    def rep_union(x, y):
        x, y = find(x), find(y)
        if x is y:
            return True
        if is_const(x) and is_const(y):
            return same_const(x, y)
        if is_const(x):
            x, y = y, x
        par[x] = y
        return True
    for a in pos:
        if a.op == 'eq' and not rep_union(*a.a):
            return True
    for a in neg:
        if a.op == 'eq':
            x, y = find(a.a[0]), find(a.a[1])
            if x is y or is_const(x) and is_const(y) and same_const(x, y):
                return True
    excl = {}
    for a in neg:
        if a.op == 'eq':
            x, y = find(a.a[0]), find(a.a[1])
            if y.op != 'enum':
                x, y = y, x
            if y.op == 'enum' and not is_const(x):
                excl.setdefault((x, y.a[0]), set()).add(y.a[2])
    for (x, e), vals in excl.items():
        d = ENUMS.get(e)
        if d and vals >= d:
            return True
    # ---- differences of integers
    edges = []                      # (u, v, w): u - v <= w ; ZERO is the constant

    def add(d, c):
        """sum d < c"""
        d = list(d.items())
        if len(d) == 1 and abs(d[0][1]) == 1:
            t, k = d[0]
            if k == 1:
                edges.append((t, None, c - 1))
            else:
                edges.append((None, t, c - 1))
        elif len(d) == 2 and {d[0][1], d[1][1]} == {1, -1}:
            (t, k), (u, _) = d
            if k == -1:
                t, u = u, t
            edges.append((t, u, c - 1))
        else:
            L = mk_lin(0, dict(d))
            edges.append((L, None, c - 1))
    terms = set()
    for a, val in [(a, True) for a in pos] + [(a, False) for a in neg]:
        if a.op == 'lt':
            c0, d = lin_of(a.a[0])
            c = a.a[1] - c0
            terms |= set(d)
            if val:
                add(d, c)
            else:
                nd = {t: -k for t, k in d.items()}
                if len(nd) > 2 or len(nd) == 1 and abs(next(iter(nd.values()))) != 1:
                    # keep the same linear term: L >= c
                    edges.append((None, mk_lin(0, dict(d)), -c))
                else:
                    add(nd, 1 - c)
        elif a.op == 'empty':
            t = mk('size', a.a[0])
            terms.add(t)
            if val:
                edges.append((t, None, 0))
            else:
                edges.append((None, t, -1))
        elif a.op == 'ex' and val:
            c0, d = lin_of(a.a[0])
            terms |= set(d)
            add({t: -k for t, k in d.items()}, c0)
    idx = set()
    for i, _ in lits:
        idx |= index_terms(ATOMS[i])
    for t in idx:
        c0, d = lin_of(t.a[0])
        terms |= set(d)
        terms.add(t)
        nd = dict(d)
        nd = {x: -k for x, k in nd.items()}
        nd[t] = nd.get(t, 0) + 1
        add({x: k for x, k in nd.items() if k}, c0)
        edges.append((None, t, 0))
    for t in list(terms):
        if nonneg(t):
            edges.append((None, t, 0))
    for t in terms:
        r = find(t)
        if r is not t and r.op in ('int', 'enum'):
            edges.append((t, None, r.a[-1]))
            edges.append((None, t, -r.a[-1]))
    if negcycle(edges):
        return True
    # ---- quantifiers
    univ = {}
    for a in neg:
        if a.op == 'ex':
            univ.setdefault(a.a[0], []).append((a.a[1], a.a[2]))
    facts = TRUE
    for t in idx:
        for k, g in univ.get(t.a[0], ()):
            facts = band(facts, bnot(subst(g, {ixs(t.a[0], k): leaf(t)})))
            if facts is FALSE:
                return True
        if t.op in ('first', 'last'):
            facts = band(facts, subst(t.a[2], {ixs(t.a[0], t.a[1]): leaf(t)}))
            if facts is FALSE:
                return True
    # chosen indices: nothing earlier (later) satisfies the predicate
    for t in idx:
        if t.op in ('first', 'last'):
            for u in idx:
                if u is not t and u.a[0] is t.a[0]:
                    gu = subst(t.a[2], {ixs(t.a[0], t.a[1]): leaf(u)})
                    L = t_add(u, t, -1)
                    before = mk_lt(L, 0) if t.op == 'first' else mk_lt(mk_lin(0, {x: -k for x, k in lin_of(L)[1].items()}), 0)
                    facts = band(facts, bnot(band(gu, before)))
    base = {i: v for i, v in lits}
    facts = known(facts, base)
    if facts is FALSE:
        return True
    if depth > 0 and facts is not TRUE:
        if unsat_with(facts, lits, depth - 1, deadline):
            return True
    if depth > 0:
        n = 0
        for a in pos:
            if a.op == 'ex':
                S, k, g = a.a
                n += 1
                c = ixs(S, 700 + depth * 20 + n)
                h = subst(g, {ixs(S, k): leaf(c)})
                for k2, g2 in univ.get(S, ()):
                    h = band(h, bnot(subst(g2, {ixs(S, k2): leaf(c)})))
                h = known(h, base)
                if h is FALSE:
                    return True
                rest = tuple(x for x in lits if ATOMS[x[0]] is not a)
                if unsat_with(h, rest, depth - 1, deadline):
                    return True
    return False


def known(v, base):
    for i, val in base.items():
        if i in support(v):
            v = cof(v, i, val)
    return v


def unsat_with(v, lits, depth, deadline):
    """Every way to satisfy v together with lits is refuted (a bounded number of ways is tried)."""
    try:
        for p in paths(v, 200):
            if not refuted(tuple(sorted(set(p) | set(lits))), depth, deadline):
                return False
    except Limit:
        return False
    return True


def negcycle(edges):
    if not edges:
        return False
    nodes = {None}
    for u, v, _ in edges:
        nodes.add(u)
        nodes.add(v)
    dist = {x: 0 for x in nodes}
    for it in range(len(nodes) + 1):
        ch = False
        for u, v, w in edges:
            # u <= v + w
            if dist[v] + w < dist[u]:
                dist[u] = dist[v] + w
                ch = True
        if not ch:
            return False
    return True


def first_model(v, seconds=8.0, limit=4000):
    """A conjunction of literals satisfying boolean v that is not refuted, None if all are; raises Limit."""
    if v is FALSE:
        return None
    deadline = time.time() + seconds
    for p in paths(v, limit):
        if time.time() > deadline:
            raise Limit()
        if not refuted(p, 2, deadline):
            return p
    return None


def show_lits(p):
    return [('' if v else 'not ') + show(ATOMS[i]) for i, v in p]
