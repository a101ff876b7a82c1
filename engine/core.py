"""Value domain of the analysis.

A value is a decision diagram (V) whose inner nodes are predicates about the program's inputs (atoms) and
whose leaves are canonical terms (T).  Booleans are decision diagrams with the leaves true and false.
Everything is hash-consed, so two values are the same object exactly when they have the same normal form.
"""
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ('op', 'a', 'id', '_free', '_taint', '_key')

    def __hash__(self):
        return self.id          # set order is the same in every run

    def __repr__(self):
        return show(self)


class V:
    __slots__ = ('var', 'hi', 'lo', 't', 'id', '_free', '_taint', '_sup', 'gm')

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)


_ttab = {}
_vtab = {}
ATOMS = []
_atomidx = {}
UNSET = object()


def mk(op, *a):
    key = (op,) + a
    t = _ttab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_ttab)
        t._free = None
        t._taint = None
        t._key = None
        _ttab[key] = t
    return t


def leaf(t):
    v = _vtab.get(t)
    if v is None:
        v = V()
        v.var = None
        v.hi = v.lo = None
        v.t = t
        v.id = len(_vtab)
        v._free = v._taint = v._sup = None
        v.gm = 0
        _vtab[t] = v
    return v


# Predicates that compare one term with different constants exclude each other; such predicates form a group.
_groups = {}
_group_of = []                 # bit of the group of an atom, or 0
_exmemo = {}


def group_bit(t):
    x = None
    if t.op == 'eq':
        c, x = t.a
        if c.op not in ('str', 'enum', 'int'):
            c, x = x, c
        if c.op not in ('str', 'enum', 'int'):
            return 0
    elif t.op == 'empty':
        x = t.a[0]
    elif t.op == 'lt':
        x = ('lt', t.a[0])
    if x is None:
        return 0
    b = _groups.get(x)
    if b is None:
        b = _groups[x] = 1 << len(_groups)
    return b


def exclude(v, bit):
    """v where all predicates of a group are false."""
    if not v.gm & bit:
        return v
    key = (v.id, bit)
    r = _exmemo.get(key)
    if r is None:
        lo = exclude(v.lo, bit)
        r = lo if _group_of[v.var] == bit else node(v.var, exclude(v.hi, bit), lo)
        _exmemo[key] = r
    return r


def bound(v, bit, c, less):
    """v when the term of a group of bounds is less than c, or is not."""
    if not v.gm & bit:
        return v
    key = (v.id, bit, c, less)
    r = _exmemo.get(key)
    if r is None:
        if _group_of[v.var] == bit and (ATOMS[v.var].a[1] >= c if less else ATOMS[v.var].a[1] <= c):
            r = bound(v.hi if less else v.lo, bit, c, less)
        else:
            r = node(v.var, bound(v.hi, bit, c, less), bound(v.lo, bit, c, less))
        _exmemo[key] = r
    return r


def node(var, hi, lo):
    if hi is lo:
        return hi
    if hi.var is None and lo.var is None and ATOMS[var].op == 'eq':
        x, y = ATOMS[var].a[:2]
        if hi.t is x and lo.t is y or hi.t is y and lo.t is x:
            return lo
    bit = _group_of[var]
    if bit and ATOMS[var].op == 'lt':
        if (hi.gm | lo.gm) & bit:
            c = ATOMS[var].a[1]
            hi = bound(hi, bit, c, True)
            lo = bound(lo, bit, c, False)
            if hi is lo or bound(lo, bit, c, True) is hi:
                return lo
            if bound(hi, bit, c, False) is lo:
                return hi
    elif bit:
        if hi.gm & bit:
            hi = exclude(hi, bit)
            if hi is lo:
                return lo
        if lo.gm & bit and exclude(lo, bit) is hi:
            return lo
    key = (var, hi.id, lo.id)
    v = _vtab.get(key)
    if v is None:
        v = V()
        v.var = var
        v.hi = hi
        v.lo = lo
        v.t = None
        v.id = len(_vtab)
        v._free = v._taint = v._sup = None
        v.gm = bit | hi.gm | lo.gm
        _vtab[key] = v
    return v


TT = mk('b', True)
FT = mk('b', False)
TRUE = leaf(TT)
FALSE = leaf(FT)
UNDEF = mk('undef')
NONE = mk('none')
BETA = mk('beta')
NBITS = 13


def atom(t):
    i = _atomidx.get(t)
    if i is None:
        i = len(ATOMS)
        _atomidx[t] = i
        ATOMS.append(t)
        _group_of.append(group_bit(t))
    return node(i, TRUE, FALSE)


_itememo = {}
INF = 1 << 60


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c.id, a.id, b.id)
    r = _itememo.get(key)
    if r is not None:
        return r
    v = c.var
    if a.var is not None and a.var < v:
        v = a.var
    if b.var is not None and b.var < v:
        v = b.var
    c1, c0 = (c.hi, c.lo) if c.var == v else (c, c)
    a1, a0 = (a.hi, a.lo) if a.var == v else (a, a)
    b1, b0 = (b.hi, b.lo) if b.var == v else (b, b)
    r = node(v, ite(c1, a1, b1), ite(c0, a0, b0))
    _itememo[key] = r
    return r


def bnot(a):
    return ite(a, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bxor(a, b):
    return ite(a, bnot(b), b)


def implies(a, b):
    return band(a, bnot(b)) is FALSE


def ands(xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def ors(xs):
    r = FALSE
    for x in xs:
        r = bor(r, x)
    return r


def cof(v, var, val):
    """Cofactor of v for atom index var."""
    memo = {}

    def go(x):
        if x.var is None or x.var > var:
            return x
        if x.var == var:
            return x.hi if val else x.lo
        r = memo.get(x.id)
        if r is None:
            r = node(x.var, go(x.hi), go(x.lo))
            memo[x.id] = r
        return r
    return go(v)


def restrict(v, c):
    """Simplify v using that c holds (values outside c are arbitrary)."""
    if c is FALSE or c is TRUE:
        return v
    memo = {}

    def go(x, c):
        if c is TRUE or x.var is None:
            return x
        key = (x.id, c.id)
        r = memo.get(key)
        if r is not None:
            return r
        if c.var < x.var:
            if c.hi is FALSE:
                r = go(x, c.lo)
            elif c.lo is FALSE:
                r = go(x, c.hi)
            else:
                r = go(x, bor(c.hi, c.lo))
        elif c.var == x.var:
            if c.hi is FALSE:
                r = go(x.lo, c.lo)
            elif c.lo is FALSE:
                r = go(x.hi, c.hi)
            else:
                r = node(x.var, go(x.hi, c.hi), go(x.lo, c.lo))
        else:
            r = node(x.var, go(x.hi, c), go(x.lo, c))
        memo[key] = r
        return r
    return go(v, c)


def support(v):
    if v._sup is None:
        if v.var is None:
            v._sup = frozenset()
        else:
            v._sup = frozenset([v.var]) | support(v.hi) | support(v.lo)
    return v._sup


def leaves(v):
    """[(guard, term)] with disjoint guards."""
    out = {}

    def go(x, g):
        if g is FALSE:
            return
        if x.var is None:
            out[x.t] = bor(out[x.t], g) if x.t in out else g
        else:
            a = node(x.var, TRUE, FALSE)
            go(x.hi, band(g, a))
            go(x.lo, band(g, bnot(a)))
    go(v, TRUE)
    return [(g, t) for t, g in out.items()]


def leafset(v, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if v.id in seen:
        return acc
    seen.add(v.id)
    if v.var is None:
        acc.add(v.t)
    else:
        leafset(v.hi, acc, seen)
        leafset(v.lo, acc, seen)
    return acc


def map1(f, x):
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x.var is None:
                r = f(x.t)
            else:
                r = ite(node(x.var, TRUE, FALSE), go(x.hi), go(x.lo))
            memo[x.id] = r
        return r
    return go(x)


def mapn(f, xs):
    memo = {}

    def go(xs):
        key = tuple(x.id for x in xs)
        r = memo.get(key)
        if r is None:
            v = INF
            for x in xs:
                if x.var is not None and x.var < v:
                    v = x.var
            if v == INF:
                r = f(*[x.t for x in xs])
            else:
                h = go([x.hi if x.var == v else x for x in xs])
                l = go([x.lo if x.var == v else x for x in xs])
                r = ite(node(v, TRUE, FALSE), h, l)
            memo[key] = r
        return r
    return go(list(xs))


def quant_or(v, vars_):
    """Existential quantification of atoms."""
    for i in sorted(vars_, reverse=True):
        if i in support(v):
            v = bor(cof(v, i, True), cof(v, i, False))
    return v


def quant_and(v, vars_):
    for i in sorted(vars_, reverse=True):
        if i in support(v):
            v = band(cof(v, i, True), cof(v, i, False))
    return v


# ---------------------------------------------------------------------------------------------- free and taint
BINDERS = ('ex', 'first', 'last', 'count', 'sum', 'each', 'maxof', 'argmax', 'catall')
EMPTY = frozenset()


def _args(t):
    """All T and V reachable directly in the arguments of t."""
    for x in t.a:
        yield from _walkarg(x)


def _walkarg(x):
    if isinstance(x, (T, V)):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _walkarg(y)


def free(x):
    if x._free is not None:
        return x._free
    if isinstance(x, V):
        if x.var is None:
            r = free(x.t)
        else:
            r = free(ATOMS[x.var]) | free(x.hi) | free(x.lo)
    elif x.op == 'ix':
        r = frozenset([x]) | free(x.a[0])
    elif x.op == 'beta':
        r = frozenset([x])
    elif x.op == 'pre':
        r = frozenset([x])
    elif x.op in BINDERS:
        r = EMPTY
        for y in x.a[2:]:
            for z in _walkarg(y):
                r |= free(z)
        r = (r - frozenset([ixs(x.a[0], x.a[1])])) | free(x.a[0])
    elif x.op == 'bs':
        r = free(x.a[0]) - frozenset([BETA])
    else:
        r = EMPTY
        for y in _args(x):
            r |= free(y)
    x._free = r
    return r


def tainted(x):
    if x._taint is not None:
        return x._taint
    x._taint = False
    if isinstance(x, V):
        if x.var is None:
            r = tainted(x.t)
        else:
            r = tainted(ATOMS[x.var]) or tainted(x.hi) or tainted(x.lo)
    elif x.op in ('opaque', 'fold', 'pre', 'xapp', 'wloop'):
        r = True
    else:
        r = any(tainted(y) for y in _args(x))
    x._taint = r
    return r


# ---------------------------------------------------------------------------------------------- printing
def show(x, d=0):
    if isinstance(x, V):
        if x.var is None:
            return show(x.t, d)
        if x.hi is TRUE and x.lo is FALSE:
            return show(ATOMS[x.var], d)
        if x.hi is FALSE and x.lo is TRUE:
            return '!' + show(ATOMS[x.var], d)
        if d > 12:
            return '(..)'
        if x.lo is FALSE:
            return '(' + show(ATOMS[x.var], d + 1) + ' & ' + show(x.hi, d + 1) + ')'
        if x.hi is FALSE:
            return '(!' + show(ATOMS[x.var], d + 1) + ' & ' + show(x.lo, d + 1) + ')'
        if x.hi is TRUE:
            return '(' + show(ATOMS[x.var], d + 1) + ' | ' + show(x.lo, d + 1) + ')'
        if x.lo is TRUE:
            return '(!' + show(ATOMS[x.var], d + 1) + ' | ' + show(x.hi, d + 1) + ')'
        return '(' + show(ATOMS[x.var], d + 1) + ' ? ' + show(x.hi, d + 1) + ' : ' + show(x.lo, d + 1) + ')'
    if isinstance(x, T):
        if d > 14:
            return '..'
        op, a = x.op, x.a
        if op in ('int', 'b'):
            return str(a[0])
        if op == 'str':
            return repr(a[0])
        if op == 'enum':
            return a[1]
        if op == 'arg':
            return 'arg%s' % a[0]
        if op in ('this', 'none', 'undef', 'beta'):
            return op
        if op == 'fld':
            return show(a[0], d + 1) + '.' + a[1]
        if op == 'get':
            return show(a[0], d + 1) + '.<%d>' % a[1]
        if op in ('at', 'key', 'vert', 'edge'):
            return show(a[0], d + 1) + {'at': '[', 'key': '{', 'vert': '[v:', 'edge': '[e:'}[op] + show(a[1], d + 1) + (
                '}' if op == 'key' else ']')
        if op == 'opt':
            return '*' + show(a[0], d + 1)
        if op == 'ix':
            return 'i%d<%s>' % (a[1], show(a[0], d + 1))
        if op == 'lin':
            return '(' + ' + '.join(([str(a[0])] if a[0] else []) + [('' if c == 1 else '%d*' % c) + show(t, d + 1) for t, c in a[1]]) + ')'
        if op == 'lt':
            return '%s < %d' % (show(a[0], d + 1), a[1])
        if op == 'eq':
            return '%s==%s' % (show(a[0], d + 1), show(a[1], d + 1))
        if op == 'tr':
            return show(a[0], d + 1)
        return op + '(' + ', '.join(show(y, d + 1) for y in a) + ')'
    if isinstance(x, tuple):
        return '(' + ', '.join(show(y, d + 1) for y in x) + ')'
    return str(x)


# ---------------------------------------------------------------------------------------------- constructors
def I(n):
    return mk('int', n)


def iv(n):
    return leaf(mk('int', n))


FOLD = [False]           # texts that differ only in the case of letters are taken for the same


def sv(s):
    return leaf(mk('str', s.lower() if FOLD[0] else s))


def ixs(S, k):
    return mk('ix', S, k)


NONNEG = ('size', 'count', 'ix', 'first', 'last', 'argmax')


def lin_of(t):
    """(const, {term: coef}) of a numeric term."""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'b':
        return (1 if t.a[0] else 0), {}
    if t.op == 'enum':
        return t.a[2], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk('lin', c, tuple(sorted(d.items(), key=lambda p: p[0].id)))


def t_add(a, b, s=1):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + s * k
    return mk_lin(ca + s * cb, d)


def v_add(a, b):
    return mapn(lambda x, y: leaf(t_add(x, y)), [a, b])


def v_sub(a, b):
    return mapn(lambda x, y: leaf(t_add(x, y, -1)), [a, b])


def t_scale(a, k):
    c, d = lin_of(a)
    return mk_lin(c * k, {t: x * k for t, x in d.items()})


def is_num(t):
    return t.op in ('int', 'lin', 'size', 'count', 'ix', 'first', 'last', 'sum', 'maxof', 'argmax')


def nonneg(t):
    return t.op in NONNEG or (t.op == 'sum' and all(nonneg_lin(x) for x in leafset(t.a[3])))


def nonneg_lin(t):
    c, d = lin_of(t)
    return c >= 0 and all(k > 0 and nonneg(x) for x, k in d.items())


def ix_bound(t):
    """Exclusive upper bound of an index-like term, if known."""
    if t.op in ('ix', 'first', 'last', 'argmax'):
        return t.a[0]
    return None


def mk_lt(L, c):
    """L < c for a linear term L."""
    k0, d = lin_of(L)
    c -= k0
    if not d:
        return TRUE if 0 < c else FALSE
    if len(d) >= 1:
        pos = all(k > 0 and nonneg(t) for t, k in d.items())
        if pos:
            if c <= 0:
                return FALSE
            if c == 1:
                return ands(is_zero(t) for t in d)
        neg = all(k < 0 and nonneg(t) for t, k in d.items())
        if neg:
            if c >= 1:
                return TRUE
            if c == 0:
                return bnot(ands(is_zero(t) for t in d))
    # known bound ix < S
    for t, k in d.items():
        S = ix_bound(t)
        if S is None:
            continue
        cs, ds = lin_of(S)
        if k == 1:
            # L = t + rest ; t <= S-1
            rest = dict(d)
            del rest[t]
            hi_c = cs - 1
            for x, kk in ds.items():
                rest[x] = rest.get(x, 0) + kk
            rest = {x: y for x, y in rest.items() if y}
            if not rest and hi_c < c:
                return TRUE
            if rest and all(y < 0 and nonneg(x) for x, y in rest.items()) and hi_c < c:
                return TRUE
        elif k == -1:
            rest = dict(d)
            del rest[t]
            lo_c = -(cs - 1)
            for x, kk in ds.items():
                rest[x] = rest.get(x, 0) - kk
            rest = {x: y for x, y in rest.items() if y}
            if not rest and lo_c >= c:
                return FALSE
            if rest and all(y > 0 and nonneg(x) for x, y in rest.items()) and lo_c >= c:
                return FALSE
    items = sorted(d.items(), key=lambda p: p[0].id)
    if items[0][1] < 0:
        # L < c  <=>  -L > -c  <=>  not (-L < -c + 1)
        L2 = mk_lin(0, {t: -k for t, k in items})
        return bnot(_lt_atom(L2, 1 - c))
    return _lt_atom(mk_lin(0, dict(items)), c)


def _lt_atom(L, c):
    return atom(mk('lt', L, c))


def is_zero(t):
    if t.op == 'size':
        return mk_empty(t.a[0])
    if t.op == 'count':
        return bnot(mk_ex(t.a[0], t.a[1], t.a[2]))
    return _lt_atom(t, 1)


def v_lt(a, b):
    def f(x, y):
        return mk_lt(t_add(x, y, -1), 0)
    return mapn(f, [a, b])


def num_eq(a, b):
    L = t_add(a, b, -1)
    c, d = lin_of(L)
    return band(mk_lt(mk_lin(0, d), 1 - c), bnot(mk_lt(mk_lin(0, d), -c)))


def v_eq(a, b):
    return mapn(mk_eq, [a, b])


def _bitix(a, b):
    return a.op == 'ix' and a.a[0] is I(NBITS) and b.op == 'int'


def mk_eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'undef' or b.op == 'undef':
        return atom(mk('eq', *sorted((a, b), key=lambda t: t.id)))
    if a.op == 'b' and b.op in ('int', 'b') or b.op == 'b' and a.op == 'int':
        return TRUE if int(a.a[0]) == int(b.a[0]) else FALSE
    if a.op == 'enum' and b.op == 'enum':
        return TRUE if a.a[2] == b.a[2] else FALSE
    if a.op == 'enum' and b.op == 'int' or a.op == 'int' and b.op == 'enum':
        return TRUE if a.a[-1] == b.a[-1] else FALSE
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if a.op == 'b' or b.op == 'b':
        x, c = (b, a) if a.op == 'b' else (a, b)
        return truth_t(x) if c.a[0] else bnot(truth_t(x))
    if a.op == 'iter' and b.op == 'iter':
        x, y = a.a[1], b.a[1]
        if x.op == 'kpos' and y.op == 'kpos':
            return mk_eq(x.a[0], y.a[0])
        if x.op == 'kjson' and y.op == 'kjson':
            return mk_eq(x.a[0], y.a[0])
        if x.op in ('kpos', 'kjson') or y.op in ('kpos', 'kjson'):
            return FALSE
        return num_eq(x, y)
    if 'enum' in (a.op, b.op) and not is_num(a) and not is_num(b):
        return atom(mk('eq', *sorted((a, b), key=lambda t: t.id)))
    if is_num(a) or is_num(b):
        if a.op == 'beta' or b.op == 'beta' or a.op == 'enum' or b.op == 'enum' or _bitix(a, b) or _bitix(b, a):
            a, b = (I(a.a[2]) if a.op == 'enum' else a), (I(b.a[2]) if b.op == 'enum' else b)
            for x, y in ((a, b), (b, a)):
                if x.op == 'ix' and y.op == 'int' and not 0 <= y.a[0] < NBITS:
                    return FALSE
            return atom(mk('eq', *sorted((a, b), key=lambda t: t.id)))
        return num_eq(a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'str' and x.a[0] == '':
            return mk_empty(y)
        if x.op in ('seq', 'set') and x.a[0] is None and not x.a[1]:
            return mk_empty(y)
        if x.op == 'none':
            return bnot(mk_has(y))
        if x.op == 'some' and y.op == 'some':
            return v_eq(x.a[0], y.a[0])
        if x.op == 'str' and y.op == 'cat':
            lits = [p.a[0] for p in y.a[0] if p.op == 'str']
            if lits and not all(l in x.a[0] for l in lits):
                return FALSE
        if x.op == 'tup' and y.op in ('tup', 'get', 'at', 'fld', 'key', 'arg'):
            return ands(v_eq(v, proj_t(y, mk('.get', i))) for i, v in enumerate(x.a[0]))
        if x.op == 'rec':
            return ands(v_eq(v, proj_t(y, mk('.f', f))) for f, v in x.a[1])
        if x.op == 'bs':
            return bnot(bs_any(bxor(x.a[0], bits_of(y)), bs_n(x)))
        if x.op == 'lab' or x.op == 'ptr' and y.op == 'null':
            return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'null' and not is_num(y) and y.op not in ('enum', 'str'):
            return bnot(truth_t(y))
    return atom(mk('eq', *sorted((a, b), key=lambda t: t.id)))


def truth_t(t):
    if t.op == 'b':
        return TRUE if t.a[0] else FALSE
    if t.op in ('int', 'enum'):
        return TRUE if t.a[-1] else FALSE
    if is_num(t):
        return bnot(num_eq(t, I(0)))
    if t.op in ('some', 'ptr', 'obj*'):
        return TRUE
    if t.op in ('none', 'null'):
        return FALSE
    return atom(mk('tr', t))


def truth(v):
    return map1(truth_t, v)


def mk_has(t):
    if t.op == 'some':
        return TRUE
    if t.op == 'none':
        return FALSE
    return atom(mk('has', t))


def mk_empty(t):
    """Emptiness of a container or string."""
    if t.op == 'str':
        return TRUE if t.a[0] == '' else FALSE
    if t.op in ('seq', 'set'):
        base, items = t.a
        r = TRUE if base is None else mk_empty(base)
        return band(r, bnot(ors(item_exists(x) for x in items)))
    if t.op == 'obj':
        return bnot(ors(present(v) for _, v in t.a[0]))
    if t.op == 'cat':
        return ands(mk_empty(p) for p in t.a[0])
    if t.op == 'rev':
        return mk_empty(t.a[0])
    if t.op == 'adjv':
        return mk_empty(mk('oute', *t.a))
    if t.op == 'mupd':
        if any(k == 'set' for k, _, _ in t.a[1]):
            return FALSE
    return atom(mk('empty', t))


def item_exists(x):
    if x.op == 'one':
        return TRUE
    if x.op == 'cond':
        return band(x.a[0], ors(item_exists(y) for y in x.a[1]))
    if x.op == 'each':
        return mk_ex(x.a[0], x.a[1], band(x.a[2], ors(item_exists(y) for y in x.a[3])))
    raise AssertionError(x.op)


def present(v):
    """Whether a JSON member value is really there (absent and empty are not distinguished)."""
    def f(t):
        if t.op in ('obj', 'seq', 'set'):
            return bnot(mk_empty(t))
        return TRUE
    return map1(f, v)


def mk_size(t):
    """V of the element count."""
    if t.op == 'str':
        return iv(len(t.a[0]))
    if t.op in ('seq',):
        base, items = t.a
        r = iv(0) if base is None else mk_size(base)
        for x in items:
            r = v_add(r, item_count(x))
        return r
    if t.op == 'set' and t.a[0] is None and not t.a[1]:
        return iv(0)
    if t.op == 'rev':
        return mk_size(t.a[0])
    if t.op == 'adjv':
        return leaf(mk('size', mk('oute', *t.a)))
    return leaf(mk('size', t))


def item_count(x):
    if x.op == 'one':
        return iv(1)
    if x.op == 'cond':
        r = iv(0)
        for y in x.a[1]:
            r = v_add(r, item_count(y))
        return ite(x.a[0], r, iv(0))
    if x.op == 'each':
        r = iv(0)
        for y in x.a[3]:
            r = v_add(r, item_count(y))
        return mk_sum(x.a[0], x.a[1], x.a[2], r)
    raise AssertionError


def v_size(v):
    return map1(mk_size, v)


def v_empty(v):
    return map1(mk_empty, v)


# ---- quantifiers
def nonempty_dom(S):
    return bnot(mk_lt(S, 1))


def _canon_k(S, k, *vs):
    """Smallest bound-variable number not used free in the bodies (other than by the bound variable)."""
    b = ixs(S, k)
    fr = EMPTY
    for v in vs:
        fr |= free(v)
    fr = fr - {b}
    kk = 0
    while ixs(S, kk) in fr:
        kk += 1
    if kk == k:
        return k, vs
    m = {b: leaf(ixs(S, kk))}
    return kk, tuple(subst(v, m) for v in vs)


def _free_atom(b, g):
    for i in sorted(support(g)):
        if b not in free(ATOMS[i]):
            return i
    return None


_exmemo = {}


def mk_ex(S, k, g):
    """Whether some index 0 <= i < S satisfies g(i)."""
    key = (S, k, g)
    r = _exmemo.get(key)
    if r is not None:
        return r
    b = ixs(S, k)
    if g is FALSE:
        r = FALSE
    elif b not in free(g):
        r = band(g, nonempty_dom(S))
    else:
        i = _free_atom(b, g)
        if i is not None:
            r = ite(node(i, TRUE, FALSE), mk_ex(S, k, cof(g, i, True)), mk_ex(S, k, cof(g, i, False)))
        else:
            k2, (g2,) = _canon_k(S, k, g)
            st = _sticky(S, k2, g2)
            ext = _extreme(S, b, g)
            if S.op == 'int' and S.a[0] <= 0:
                r = FALSE
            elif ext is not None:
                r = ext
            elif st is not None:
                r = mk_ex(S, k2, st[1])
            elif built_set(S) and ex_member(S, k2, g2) is not None:
                r = ex_member(S, k2, g2)
            else:
                r = mk_ex(S, k2, g2) if k2 != k else _ex_atom(S, k2, g2)
    _exmemo[key] = r
    return r


def built_set(S):
    return S.op == 'size' and S.a[0].op == 'set'


NOWHERE = mk('size', mk('nowhere'))


def members(t, avoid):
    """The elements of a set put together from known ones: [(index variables, condition, element)]; None when not known."""
    avoid = set(avoid) | free(t)

    def fresh(S):
        k = 0
        while ixs(S, k) in avoid:
            k += 1
        avoid.add(ixs(S, k))
        return k
    out = []

    def add(x, bs, g):
        if x.op == 'one':
            out.append((bs, g, x.a[0]))
        elif x.op == 'cond':
            for y in x.a[1]:
                add(y, bs, band(g, x.a[0]))
        else:
            S, k, h, its = x.a
            k2 = fresh(S)
            m = {ixs(S, k): leaf(ixs(S, k2))}
            h = subst(h, m)
            for y in its:
                add(subst_item(y, m), bs + ((S, k2),), band(g, h))
    base, items = t.a
    if base is not None:
        S = mk_size(base)
        if S.var is not None or S.t.op == 'int' or base.op in ('set', 'seq'):
            return None
        k = fresh(S.t)
        out.append((((S.t, k),), TRUE, proj_t(base, mk('.at', ixs(S.t, k)))))
    for x in items:
        add(x, (), TRUE)
    return out


_exmem = {}


def ex_member(S, k, g):
    """Some element of a set built from known elements satisfies g: some known element does."""
    key = (S, k, g)
    if key in _exmem:
        return _exmem[key]
    _exmem[key] = None
    b, bad = ixs(S, k), ixs(NOWHERE, 0)
    ms = members(S.a[0], free(g))
    if ms is None:
        return None
    r = FALSE
    for bs, h, v in ms:
        x = subst(g, {mk('at', S.a[0], b): v, b: leaf(bad)})
        if bad in free(x):
            return None
        x = band(h, x)
        for S1, k1 in reversed(bs):
            x = mk_ex(S1, k1, x)
        r = bor(r, x)
    _exmem[key] = r
    return r


def each_member(x):
    """Items of a set for each element of another one: for each of the known elements of that one."""
    S, k, g, its = x.a
    b, bad = ixs(S, k), ixs(NOWHERE, 0)
    av = free(g)
    for y in its:
        av = av | free(y)
    ms = members(S.a[0], av)
    if ms is None:
        return None
    out = []
    for bs, h, v in ms:
        m = {mk('at', S.a[0], b): v, b: leaf(bad)}
        h2 = band(h, subst(g, m))
        ys = [subst_item(y, m) for y in its]
        if bad in free(h2) or any(bad in free(y) for y in ys):
            return None
        if h2 is FALSE:
            continue
        if bs:
            for i, (S1, k1) in enumerate(reversed(bs)):
                ys = mk_each(S1, k1, h2 if i == 0 else TRUE, ys)
        elif h2 is not TRUE:
            ys = [mk('cond', h2, tuple(ys))]
        out.extend(ys)
    return out


def _extreme(S, b, g):
    """A bound on the index holds for some index exactly when it does for the first (the last) one."""
    if g.var is None or {g.hi, g.lo} != {TRUE, FALSE}:
        return None
    a = ATOMS[g.var]
    if a.op != 'lt':
        return None
    _, d = lin_of(a.a[0])
    if abs(d.get(b, 0)) != 1 or any(b in free(x) for x in d if x is not b):
        return None
    first = (d[b] == 1) == (g.hi is TRUE)
    e = leaf(mk('int', 0) if first else t_add(S, mk('int', 1), -1))
    return band(subst(g, {b: e}), nonempty_dom(S))


def _sticky(S, k, g):
    """g(i) = h(i) and no earlier (later) j has h(j): returns ('first' or 'last', h)."""
    b = ixs(S, k)
    for i in support(g):
        a = ATOMS[i]
        if a.op != 'ex' or a.a[0] is not S or cof(g, i, True) is not FALSE or b not in free(a):
            continue
        G = cof(g, i, False)
        h = a.a[2]
        bj = ixs(S, a.a[1])
        for n in support(h):
            t = ATOMS[n]
            if t.op != 'lt':
                continue
            c, d = lin_of(t.a[0])
            if set(d) != {b, bj}:
                continue
            # earlier: bj - b < 0 ; written for either sign of the atom
            if d[bj] == 1 and d[b] == -1:
                early = (t.a[1] - c == 0, True, 'first')      # bj - b < 0
                late = (t.a[1] - c == 1, False, 'last')       # not (bj - b < 1)
            elif d[bj] == -1 and d[b] == 1:
                early = (t.a[1] - c == 1, False, 'first')     # not (b - bj < 1)
                late = (t.a[1] - c == 0, True, 'last')        # b - bj < 0
            else:
                continue
            for ok, val, name in (early, late):
                if not ok or cof(h, n, not val) is not FALSE:
                    continue
                h0 = cof(h, n, val)
                if b in free(h0):
                    continue
                hb = subst(h0, {bj: leaf(b)})
                if hb is G:
                    return name, hb
    return None


def _ex_atom(S, k, g):
    # one-point rule: g contains ix == c on every satisfying path
    b = ixs(S, k)
    for i in support(g):
        a = ATOMS[i]
        if a.op == 'eq' and b in a.a and cof(g, i, False) is FALSE:
            other = a.a[0] if a.a[1] is b else a.a[1]
            if b not in free(other) and other.op in ('int', 'enum'):
                n = other.a[-1]
                return band(mk_lt(t_add(I(n), S, -1), 0), subst(g, {b: leaf(I(n))}))
    # disjoint union: split a top-level alternative when both sides are single conditions
    return atom(mk('ex', S, k, g))


def _pick(op, S, k, g, *rest):
    b = ixs(S, k)
    if g is FALSE:
        return leaf(UNDEF)
    if b in free(g):
        i = _free_atom(b, g)
        if i is not None:
            return ite(node(i, TRUE, FALSE), _pick(op, S, k, cof(g, i, True), *rest), _pick(op, S, k, cof(g, i, False), *rest))
        k, (g,) = _canon_k(S, k, g)
        b = ixs(S, k)
        if not rest and op in ('first', 'last'):
            st = _sticky(S, k, g)
            if st is not None:
                return _pick(st[0], S, k, st[1])
    if g is TRUE or b not in free(g):
        if op == 'first':
            return iv(0)
        if op == 'last':
            return leaf(t_add(S, I(-1)))
    # ix<c and such bounds give the end points directly
    return leaf(mk(op, S, k, g))


def mk_first(S, k, g):
    return _pick('first', S, k, g)


def mk_last(S, k, g):
    return _pick('last', S, k, g)


def mk_count(S, k, g):
    b = ixs(S, k)
    if g is FALSE:
        return iv(0)
    if b in free(g):
        i = _free_atom(b, g)
        if i is not None:
            return ite(node(i, TRUE, FALSE), mk_count(S, k, cof(g, i, True)), mk_count(S, k, cof(g, i, False)))
        k, (g,) = _canon_k(S, k, g)
        pre = _prefix(S, k, g)
        if pre is not None:
            return leaf(pre)
        return leaf(mk('count', S, k, g))
    return ite(g, leaf(S), iv(0))


def _prefix(S, k, g):
    """count of i with i < u (u a known index below S) is u."""
    b = ixs(S, k)
    s = support(g)
    if len(s) == 1:
        a = ATOMS[next(iter(s))]
        if a.op == 'lt':
            # find u with g == (b < u)
            c, d = lin_of(a.a[0])
            if d.get(b) in (1, -1):
                kk = d[b]
                rest = {x: y for x, y in d.items() if x is not b}
                # atom: kk*b + rest < n
                n = a.a[1]
                pos = g.hi is TRUE
                if kk == 1 and pos:        # b < n - rest
                    u = mk_lin(n, {x: -y for x, y in rest.items()})
                elif kk == -1 and not pos:  # rest - b >= n  <=> b <= rest - n
                    u = mk_lin(1 - n, rest)
                else:
                    return None
                if u.op in ('ix', 'first', 'last') and u.a[0] is S:
                    return u
    return None


def mk_sum(S, k, g, d):
    """Sum of d(i) over the indices satisfying g."""
    r = iv(0)
    if g is FALSE:
        return r
    b = ixs(S, k)
    for gd, t in leaves(d):
        gg = band(g, gd)
        if gg is FALSE:
            continue
        c, terms = lin_of(t)
        if c:
            r = v_add(r, map1(lambda x: leaf(t_scale(x, c)), mk_count(S, k, gg)))
        for x, kx in terms.items():
            if b in free(x):
                one = _mk_sum1(S, k, gg, x)
            else:
                cnt = mk_count(S, k, gg)
                def f(n, x=x):
                    return leaf(t_scale(x, n.a[0])) if n.op == 'int' else leaf(mk('mul', n, x))
                one = map1(f, cnt)
            r = v_add(r, map1(lambda y: leaf(t_scale(y, kx)), one))
    return r


def _mk_sum1(S, k, g, x):
    b = ixs(S, k)
    i = _free_atom(b, g)
    if i is not None:
        return ite(node(i, TRUE, FALSE), _mk_sum1(S, k, cof(g, i, True), x), _mk_sum1(S, k, cof(g, i, False), x))
    if g is FALSE:
        return iv(0)
    k, (g, xv) = _canon_k(S, k, g, leaf(x))
    return map1(lambda t: leaf(mk('sum', S, k, g, leaf(t))), xv)


def mk_catall(S, k, g, x):
    """Concatenation of x(i) over the indices satisfying g, in order."""
    if g is FALSE:
        return sv('')
    i = _free_atom(ixs(S, k), g)
    if i is not None:
        return ite(node(i, TRUE, FALSE), mk_catall(S, k, cof(g, i, True), x), mk_catall(S, k, cof(g, i, False), x))
    k, (g, x) = _canon_k(S, k, g, x)
    return leaf(mk('catall', S, k, g, x))


def mk_each(S, k, g, items):
    """Sequence item: the items for each index satisfying g, in order; returns a list of items."""
    if g is FALSE or not items:
        return []
    vs = [g]
    k2 = k
    b = ixs(S, k)
    fr = free(g)
    for it in items:
        fr |= free(it)
    fr = fr - {b}
    kk = 0
    while ixs(S, kk) in fr:
        kk += 1
    if kk != k:
        m = {b: leaf(ixs(S, kk))}
        g = subst(g, m)
        items = tuple(subst_item(x, m) for x in items)
        k2 = kk
    items = tuple(items)
    # each i: if c then items   ->  each i with c: items
    if len(items) == 1 and items[0].op == 'cond':
        g = band(g, items[0].a[0])
        items = items[0].a[1]
    if g is FALSE:
        return []
    return [mk('each', S, k2, g, items)]


def mk_seq(op, base, items):
    out = []
    for x in items:
        if x.op == 'cond':
            if x.a[0] is FALSE or not x.a[1]:
                continue
            if x.a[0] is TRUE:
                out.extend(x.a[1])
                continue
        if op == 'set' and x.op == 'each' and built_set(x.a[0]):
            ys = each_member(x)
            if ys is not None:
                out.extend(ys)
                continue
        out.append(x)
    if op == 'set':
        out = sorted(set(out), key=lambda t: t.id)
    if base is None and len(out) == 1 and out[0].op == 'each':
        S, k, g, its = out[0].a
        if g is TRUE and len(its) == 1 and its[0].op == 'one' and S.op == 'size':
            v = its[0].a[0]
            if v.var is None and v.t.op == 'at' and v.t.a[0] is S.a[0] and v.t.a[1] is ixs(S, k) and op == 'seq':
                return S.a[0]
    if base is not None and not out:
        return base
    if base is not None and base.op == op:
        return mk_seq(op, base.a[0], base.a[1] + tuple(out))
    return mk(op, base, tuple(out))


EMPTYSEQ = mk('seq', None, ())
EMPTYSET = mk('set', None, ())
EMPTYOBJ = mk('obj', ())


def as_items(t, op='seq'):
    """Items enumerating a sequence term (for appending it to another)."""
    if t.op in ('seq', op) and t.a[0] is None or t is EMPTYSET:
        return t.a[1]
    if t.op in ('seq', op):
        return tuple(as_items(t.a[0], op)) + t.a[1]
    S = mk_size(t)
    if S.var is None and not (S.t.op == 'int'):
        k = 0
        while ixs(S.t, k) in free(t):
            k += 1
        b = ixs(S.t, k)
        return tuple(mk_each(S.t, k, TRUE, (mk('one', proj_t(t, mk('.at', b))),)))
    return (mk('one', leaf(mk('opaque', 'spread', t))),)


# ---- bit sets
def bs_n(t):
    if t.op == 'bs':
        return t.a[1]
    return None


def bits_of(t):
    if t.op == 'bs':
        return t.a[0]
    return atom(mk('bit', t, BETA))


def mk_bs(v, n):
    # identity
    if v.var is not None and v.hi is TRUE and v.lo is FALSE:
        a = ATOMS[v.var]
        if a.op == 'bit' and a.a[1] is BETA:
            return leaf(a.a[0])
    return leaf(mk('bs', v, n))


def bs_any(v, n):
    S = I(NBITS)
    k = 0
    while ixs(S, k) in free(v):
        k += 1
    return mk_ex(S, k, subst(v, {BETA: leaf(ixs(S, k))}))


def bs_count(v, n):
    S = I(NBITS)
    k = 0
    while ixs(S, k) in free(v):
        k += 1
    return mk_count(S, k, subst(v, {BETA: leaf(ixs(S, k))}))


def bs_at(v, it):
    """Bit number `it` (term) of pointwise value v."""
    return subst(v, {BETA: leaf(it)})


def mk_bit(t, i):
    if i.op == 'enum':
        i = I(i.a[2])
    return atom(mk('bit', t, i))


def bitidx(t):
    return I(t.a[2]) if t.op == 'enum' else t


# ---- projections and updates
STATIC = ('.f', '.get', '.opt', '.deref')


def static_step(s):
    return s.op in STATIC or (s.op in ('.key', '.at') and s.a[0].op in ('str', 'int'))


def proj_t(t, s):
    """Component of a term selected by a step; a V."""
    op = t.op
    if s.op == '.at' and s.a[0].op == 'kpos':
        key = s.a[0].a[0]
        return leaf(mk('tup', (leaf(key), proj_t(t, mk('.key', key)))))
    if op == 'upd':
        base, items = t.a
        r = None
        conds = []
        for st, v in reversed(items):
            if st is s:
                r = v
                break
            if static_step(st) and static_step(s):
                continue
            if st.op == s.op and st.op in ('.at', '.key', '.vert', '.edge'):
                e = mk_eq(st.a[0], s.a[0])
                if e is FALSE or distinct(st.a[0], s.a[0]):
                    continue
                if e is TRUE:
                    r = v
                    break
                conds.append((e, v))
        if r is None:
            r = proj_t(base, s)
        for e, v in reversed(conds):
            r = ite(e, v, r)
        return r
    if s.op == '.f':
        f = s.a[0]
        if op == 'rec':
            for n, v in t.a[1]:
                if n == f:
                    return v
        if op == 'tup' and f in ('first', 'second'):
            return t.a[0][0 if f == 'first' else 1]
        if op == 'undef':
            return leaf(UNDEF)
        if op in ('addv', 'adde'):
            return proj_t(t.a[0], s)          # members other than vertices and edges
        if f in ('first', 'second') and op not in ('rec', 'tup'):
            return leaf(mk('get', t, 0 if f == 'first' else 1))
        return leaf(mk('fld', t, f))
    if s.op == '.get':
        if op == 'tup':
            return t.a[0][s.a[0]]
        if op == 'undef':
            return leaf(UNDEF)
        return leaf(mk('get', t, s.a[0]))
    if s.op == '.opt':
        if op == 'some':
            return t.a[0]
        if op in ('none', 'undef'):
            return leaf(UNDEF)
        return leaf(mk('opt', t))
    if s.op == '.deref':
        return leaf(mk('deref', t))
    if s.op == '.bit':
        return bs_at(bits_of(t), bitidx(s.a[0]))
    if s.op == '.at':
        i = s.a[0]
        if op == 'adjv':
            return map1(lambda e: proj_t(e, mk('.f', 'm_target')), proj_t(mk('oute', *t.a), s))
        if op == 'rev' and i.op in ('ix',):
            return leaf(mk('at', t, i))
        if op == 'seq' and t.a[0] is None and i.op == 'int' and i.a[0] < 0:
            return leaf(UNDEF)
        if (op == 'seq' or op == 'set' and len(t.a[1]) < 2) and t.a[0] is None and i.op == 'int' and i.a[0] >= 0:
            n = i.a[0]
            for x in t.a[1]:
                if x.op != 'one':
                    break
                if n == 0:
                    return x.a[0]
                n -= 1
            else:
                return leaf(UNDEF)
        if op == 'seq' and t.a[0] is None and i.op == 'ix' and i.a[0] is I(NBITS) and 1 < len(t.a[1]) <= 40 and all(
                x.op == 'one' for x in t.a[1]):
            r = leaf(UNDEF)
            for n in reversed(range(min(NBITS, len(t.a[1])))):
                r = ite(mk_eq(i, I(n)), t.a[1][n].a[0], r)
            return r
        if op == 'seq' and t.a[1] and t.a[1][-1].op == 'one':
            # last element v[v.size()-1]
            sz = mk_size(t)
            if sz.var is None and t_add(sz.t, I(-1)) is i:
                return t.a[1][-1].a[0]
        if op == 'undef':
            return leaf(UNDEF)
        if op == 'str' and i.op == 'int' and 0 <= i.a[0] < len(t.a[0]):
            return iv(ord(t.a[0][i.a[0]]))
        if op == 'cat':
            if t.a[0][0].op == 'str' and i.op == 'int' and 0 <= i.a[0] < len(t.a[0][0].a[0]):
                return iv(ord(t.a[0][0].a[0][i.a[0]]))
            if t.a[0][-1].op == 'str':
                sz = mk_size(t)
                d = t_add(sz.t, i, -1) if sz.var is None else i
                if d.op == 'int' and 1 <= d.a[0] <= len(t.a[0][-1].a[0]):
                    return iv(ord(t.a[0][-1].a[0][-d.a[0]]))
        return leaf(mk('at', t, i))
    if s.op == '.key':
        if op == 'obj':
            for n, v in t.a[0]:
                if n is s.a[0]:
                    return v
            return leaf(EMPTYOBJ)
        if op == 'mupd':
            r = None
            conds = []
            for kind, kt, v in reversed(t.a[1]):
                if kind == 'clear':
                    r = leaf(UNDEF)
                    break
                e = mk_eq(kt, s.a[0])
                if e is TRUE:
                    r = v if v is not None else leaf(UNDEF)
                    break
                if e is FALSE:
                    continue
                conds.append((e, v if v is not None else leaf(UNDEF)))
            if r is None:
                r = proj_t(t.a[0], s)
            for e, v in reversed(conds):
                r = ite(e, v, r)
            return r
        if op == 'emptymap':
            return leaf(UNDEF)
        return leaf(mk('key', t, s.a[0]))
    if s.op == '.vert':
        if op in ('addv', 'adde'):
            return proj_t(t.a[0], s)
        return leaf(mk('vert', t, s.a[0]))
    if s.op == '.edge':
        return leaf(mk('edge', t, s.a[0]))
    raise AssertionError(s)


def distinct(a, b):
    """Known to be different vertex descriptors: one is freshly created."""
    for x, y in ((a, b), (b, a)):
        if x.op == 'newv' and not occurs(x, y):
            return True
    return False


_occ = {}


def occurs(x, y):
    key = (x.id, y.id)
    r = _occ.get(key)
    if r is None:
        if x is y:
            r = True
        else:
            r = any((occurs(x, z) if isinstance(z, T) else occurs_v(x, z)) for z in _args(y))
        _occ[key] = r
    return r


def occurs_v(x, v):
    if v.var is None:
        return occurs(x, v.t)
    return occurs(x, ATOMS[v.var]) or occurs_v(x, v.hi) or occurs_v(x, v.lo)


def proj(v, s):
    return map1(lambda t: proj_t(t, s), v)


def mk_haskey(t, k):
    if t.op == 'obj':
        for n, v in t.a[0]:
            if n is k:
                return present(v)
        return FALSE
    if t.op == 'emptymap':
        return FALSE
    if t.op == 'mupd':
        r = None
        conds = []
        for kind, kt, v in reversed(t.a[1]):
            if kind == 'clear':
                r = FALSE
                break
            e = mk_eq(kt, k)
            val = TRUE if kind in ('set', 'ins') else FALSE
            if e is TRUE:
                r = val
                break
            if e is FALSE:
                continue
            conds.append((e, val))
        if r is None:
            r = mk_haskey(t.a[0], k)
        for e, val in reversed(conds):
            r = ite(e, val, r)
        return r
    if t.op in ('seq', 'set'):
        base, items = t.a
        r = FALSE if base is None else mk_haskey(base, k)
        return bor(r, ors(item_has(x, k) for x in items))
    if t.op == 'rec':
        return FALSE
    if t.op == 'upd':
        r = mk_haskey(t.a[0], k)
        for st, v in t.a[1]:
            if st.op == '.key':
                val = map1(lambda x: bnot(mk_empty(x)) if x.op == 'obj' else TRUE, v)
                r = ite(mk_eq(st.a[0], k), val, r)
        return r
    return atom(mk('haskey', t, k))


def item_has(x, k):
    if x.op == 'one':
        return map1(lambda t: mk_eq(t, k), x.a[0])
    if x.op == 'cond':
        return band(x.a[0], ors(item_has(y, k) for y in x.a[1]))
    S, kk, g, its = x.a
    b = ixs(S, kk)
    if b in free(k):
        k2 = 0
        fr = free(k)
        for y in its:
            fr |= free(y)
        fr |= free(g)
        while ixs(S, k2) in fr:
            k2 += 1
        m = {b: leaf(ixs(S, k2))}
        g = subst(g, m)
        its = tuple(subst_item(y, m) for y in its)
        kk = k2
    return mk_ex(S, kk, band(g, ors(item_has(y, k) for y in its)))


def update_t(t, s, v):
    """t with component s replaced by v."""
    if s.op == '.f' and t.op == 'rec':
        return leaf(mk('rec', t.a[0], tuple((n, v if n == s.a[0] else x) for n, x in t.a[1])))
    if t.op == 'tup' and (s.op == '.get' or s.op == '.f' and s.a[0] in ('first', 'second')):
        i = s.a[0] if s.op == '.get' else (0 if s.a[0] == 'first' else 1)
        return leaf(mk('tup', t.a[0][:i] + (v,) + t.a[0][i + 1:]))
    if s.op == '.opt':
        return leaf(mk('some', v))
    if s.op == '.bit':
        i = bitidx(s.a[0])
        return mk_bs(ite(mk_eq(BETA, i), truth(v), bits_of(t)), NBITS)
    if s.op == '.key' and t.op == 'obj':
        if v.var is None and v.t is EMPTYOBJ:
            return leaf(mk_obj([(n, x) for n, x in t.a[0] if n is not s.a[0]]))
        return leaf(mk_obj([(n, x) for n, x in t.a[0] if n is not s.a[0]] + [(s.a[0], v)]))
    if s.op == '.key' and t.op in ('emptymap', 'mupd') or s.op == '.key' and s.a[0].op != 'str':
        base, items = t.a if t.op == 'mupd' else (t, ())
        if items and items[-1][0] == 'set' and items[-1][1] is s.a[0]:
            items = items[:-1]
        return leaf(mk('mupd', base, items + (('set', s.a[0], v),)))
    if s.op == '.at' and t.op == 'seq' and t.a[0] is None and s.a[0].op == 'int':
        n = s.a[0].a[0]
        if all(x.op == 'one' for x in t.a[1][:n + 1]) and n < len(t.a[1]):
            return leaf(mk('seq', None, t.a[1][:n] + (mk('one', v),) + t.a[1][n + 1:]))
    if t.op == 'upd':
        base, items = t.a
        out = []
        done = False
        for i, (st, x) in enumerate(items):
            if st is s:
                # later items that may alias keep their order
                if all(static_step(y[0]) for y in items[i:]) or i == len(items) - 1:
                    out.append((st, v))
                    done = True
                    continue
            out.append((st, x))
        if not done:
            out.append((s, v))
        items = tuple(out)
        if all(static_step(x[0]) for x in items):
            items = tuple(sorted(items, key=lambda p: p[0].id))
        # drop writes of the value that is already there
        items = tuple((st, x) for st, x in items if not (static_step(st) and x is proj_t(base, st)))
        if not items:
            return leaf(base)
        return leaf(mk('upd', base, items))
    if proj_t(t, s) is v:
        return leaf(t)
    return leaf(mk('upd', t, ((s, v),)))


def mk_obj(items):
    return mk('obj', tuple(sorted(items, key=lambda p: p[0].id)))


def update(v, steps, new):
    """v with the component selected by the list of steps replaced; new is a function old -> V."""
    if not steps:
        return new(v)
    s = steps[0]

    def f(t):
        if s.op == '.at' and s.a[0].op == 'kpos':
            if len(steps) > 1 and steps[1].op in ('.get', '.f') and steps[1].a[0] in (1, 'second'):
                return update(leaf(t), [mk('.key', s.a[0].a[0])] + list(steps[2:]), new)
        old = proj_t(t, s)
        nv = update(old, steps[1:], new)
        if nv is old:
            return leaf(t)
        return update_t(t, s, nv)
    return map1(f, v)


# ---- strings
def v_cat(a, b):
    def f(x, y):
        px = x.a[0] if x.op == 'cat' else (x,)
        py = y.a[0] if y.op == 'cat' else (y,)
        out = []
        for p in px + py:
            if p.op == 'str' and p.a[0] == '':
                continue
            if out and out[-1].op == 'str' and p.op == 'str':
                out[-1] = mk('str', out[-1].a[0] + p.a[0])
            else:
                out.append(p)
        if not out:
            return sv('')
        if len(out) == 1:
            return leaf(out[0])
        return leaf(mk('cat', tuple(out)))
    return mapn(f, [a, b])


def v_app(name, args, op='app'):
    """Uninterpreted function, distributed over the alternatives of its arguments."""
    return mapn(lambda *ts: leaf(mk(op, name, *ts)), args)


# ---------------------------------------------------------------------------------------------- substitution
def subst(v, m):
    keys = frozenset(m)
    memo = {}

    def sv_(x):
        if not (free(x) & keys):
            return x
        r = memo.get(('v', x.id))
        if r is None:
            if x.var is None:
                r = st(x.t)
            else:
                r = ite(st(ATOMS[x.var]), sv_(x.hi), sv_(x.lo))
            memo[('v', x.id)] = r
        return r

    def st(t):
        if t in m:
            return m[t]
        if not (free(t) & keys):
            return leaf(t) if t.op not in ATOMOPS else atom(t)
        r = memo.get(('t', t.id))
        if r is None:
            r = rebuild(t, sv_, st, m)
            memo[('t', t.id)] = r
        return r
    return sv_(v) if isinstance(v, V) else st(v)


def subst_item(x, m):
    if x.op == 'one':
        return mk('one', subst(x.a[0], m))
    if x.op == 'cond':
        return mk('cond', subst(x.a[0], m), tuple(subst_item(y, m) for y in x.a[1]))
    S, k, g, its = x.a
    S2, k2, g2, r2 = _sub_binder(S, k, m, (g,), its)
    r = mk_each(S2, k2, g2[0], r2)
    return r[0] if len(r) == 1 else mk('cond', FALSE, ())


def _sub_binder(S, k, m, vs, items=()):
    """Substitute under a binder, renaming the bound variable when needed."""
    S2v = subst(leaf(S), m)
    S2 = S2v.t if S2v.var is None else mk('opaque', 'domain', S2v)
    b = ixs(S, k)
    m2 = {x: y for x, y in m.items() if x is not b}
    fr = EMPTY
    for y in m2.values():
        fr |= free(y)
    for y in vs:
        fr |= free(y) - {b}
    for y in items:
        fr |= free(y) - {b}
    if S2 is not S or b in fr:
        k2 = 0
        while ixs(S2, k2) in fr:
            k2 += 1
        m2[b] = leaf(ixs(S2, k2))
    else:
        k2 = k
    return S2, k2, tuple(subst(y, m2) for y in vs), tuple(subst_item(y, m2) for y in items)


ATOMOPS = ('lt', 'eq', 'tr', 'has', 'empty', 'haskey', 'bit', 'ex', 'oatom')


def rebuild(t, sv_, st, m):
    op, a = t.op, t.a
    if op == 'fld':
        return proj(st(a[0]), mk('.f', a[1]))
    if op == 'get':
        return proj(st(a[0]), mk('.get', a[1]))
    if op == 'opt':
        return proj(st(a[0]), mk('.opt'))
    if op in ('at', 'key', 'vert', 'edge'):
        return mapn(lambda x, y: proj_t(x, mk('.' + op, y)), [st(a[0]), st(a[1])])
    if op == 'size':
        return v_size(st(a[0]))
    if op == 'lin':
        r = iv(a[0])
        for x, k in a[1]:
            r = v_add(r, map1(lambda y: leaf(t_scale(y, k)), st(x)))
        return r
    if op == 'lt':
        return map1(lambda x: mk_lt(x, a[1]), st(a[0]))
    if op == 'eq':
        return mapn(mk_eq, [st(a[0]), st(a[1])])
    if op == 'tr':
        return truth(st(a[0]))
    if op == 'has':
        return map1(mk_has, st(a[0]))
    if op == 'empty':
        return map1(mk_empty, st(a[0]))
    if op == 'haskey':
        return mapn(mk_haskey, [st(a[0]), st(a[1])])
    if op == 'bit':
        return mapn(lambda x, y: bs_at(bits_of(x), bitidx(y)) if x.op == 'bs' else (mk_bit(x, y)), [st(a[0]), st(a[1])])
    if op in ('ex', 'first', 'last', 'count'):
        S, k, vs, _ = _sub_binder(a[0], a[1], m, (a[2],))
        return {'ex': mk_ex, 'first': mk_first, 'last': mk_last, 'count': mk_count}[op](S, k, vs[0])
    if op == 'sum':
        S, k, vs, _ = _sub_binder(a[0], a[1], m, (a[2], a[3]))
        return mk_sum(S, k, vs[0], vs[1])
    if op == 'catall':
        S, k, vs, _ = _sub_binder(a[0], a[1], m, (a[2], a[3]))
        return mk_catall(S, k, vs[0], vs[1])
    if op in ('maxof', 'argmax'):
        S, k, vs, _ = _sub_binder(a[0], a[1], m, a[2:5])
        return leaf(mk(op, S, k, *vs, *a[5:]))
    if op == 'tup':
        return leaf(mk('tup', tuple(sv_(x) for x in a[0])))
    if op == 'rec':
        return leaf(mk('rec', a[0], tuple((n, sv_(x)) for n, x in a[1])))
    if op == 'some':
        return leaf(mk('some', sv_(a[0])))
    if op == 'obj':
        return leaf(mk_obj([(n, sv_(x)) for n, x in a[0]]))
    if op == 'obj*':
        return leaf(mk('obj*', a[0], sv_(a[1])))
    if op in ('seq', 'set'):
        items = []
        for x in a[1]:
            items.append(subst_item(x, m))
        if a[0] is None:
            return leaf(mk_seq(op, None, items))
        return map1(lambda b: leaf(mk_seq(op, b, items)), st(a[0]))
    if op == 'bs':
        return mk_bs(subst(a[0], {x: y for x, y in m.items() if x is not BETA}), a[1])
    if op == 'lv':
        sp = []
        for s in a[1]:
            sp.extend(st(x) if not (x.op in ATOMOPS) else leaf(x) for x in s.a if isinstance(x, T))

        def flv(root, *ss):
            out = []
            i = 0
            for s in a[1]:
                n = sum(1 for x in s.a if isinstance(x, T))
                if n:
                    out.append(mk(s.op, *ss[i:i + n]))
                    i += n
                else:
                    out.append(s)
            return leaf(mk('lv', root, tuple(out)))
        return mapn(flv, [st(a[0])] + sp)
    if op == 'upd':
        r = st(a[0])
        for s, v in a[1]:
            nv = sv_(v)
            sp = [st(x) for x in s.a if isinstance(x, T)]
            if sp:
                r = mapn(lambda x, *ss: update_t(x, mk(s.op, *ss), nv), [r] + sp)
            else:
                r = map1(lambda x: update_t(x, s, nv), r)
        return r
    if op == 'mupd':
        r = st(a[0])
        for kind, kt, v in a[1]:
            kv = st(kt) if kt is not None else leaf(UNDEF)
            nv = sv_(v) if v is not None else None

            def f(b, kk, kind=kind, nv=nv, kt=kt):
                base, items = b.a if b.op == 'mupd' else (b, ())
                return leaf(mk('mupd', base, items + ((kind, kk if kt is not None else None, nv),)))
            r = mapn(f, [r, kv])
        return r
    if op == 'cat':
        r = sv('')
        for p in a[0]:
            r = v_cat(r, st(p))
        return r
    if op == 'ix':
        # only the domain changed
        S = st(a[0])
        return map1(lambda s: leaf(ixs(s, a[1])), S)
    # generic constructor: substitute every term argument
    ts = []
    pos = []
    for i, x in enumerate(a):
        if isinstance(x, T):
            pos.append(i)
            ts.append(st(x))
    vs = {i: sv_(x) for i, x in enumerate(a) if isinstance(x, V)}
    tp = {}
    for i, x in enumerate(a):
        if isinstance(x, tuple):
            tp[i] = _sub_tuple(x, sv_, st)

    def g(*xs):
        b = list(a)
        for i, x in zip(pos, xs):
            b[i] = x
        for i, x in vs.items():
            b[i] = x
        for i, x in tp.items():
            b[i] = x
        t2 = mk(op, *b)
        return atom(t2) if op in ATOMOPS else leaf(t2)
    return mapn(g, ts) if ts else g()


def _sub_tuple(x, sv_, st):
    out = []
    for y in x:
        if isinstance(y, V):
            out.append(sv_(y))
        elif isinstance(y, T):
            z = st(y)
            out.append(z.t if z.var is None else mk('opaque', 'choice', z))
        elif isinstance(y, tuple):
            out.append(_sub_tuple(y, sv_, st))
        else:
            out.append(y)
    return tuple(out)
