"""Comparison of two function summaries (the program's and the specification's) in normal form."""
import time
import core
from core import *
from theory import first_model, Limit, show_lits, is_const, subterms
import theory
from interp import Event

NOEV = mk('noevent')
SCALAR = ('arg', 'fld', 'at', 'get', 'opt', 'deref', 'key', 'vert', 'edge', 'enum', 'str', 'int', 'app', 'null', 'lin', 'size', 'count',
          'ix', 'first', 'last', 'sum', 'none', 'fpre')
TAINT = ('opaque', 'fold', 'pre', 'xapp', 'wloop')


class D:
    """One way two values differ: when guard holds, x (program) against y (specification)."""
    __slots__ = ('g', 'x', 'y', 'path', 'known')

    def __init__(self, g, x, y, path, known=True):
        self.g, self.x, self.y, self.path, self.known = g, x, y, path, known


class Budget(Exception):
    pass


class Cmp:
    def __init__(self, seconds=40):
        self.deadline = time.time() + seconds
        self.memo = {}
        self.depth = 0
        self.unknown = []

    def tick(self):
        if time.time() > self.deadline:
            raise Budget()

    # ------------------------------------------------------------------------------------------ values
    def diff_v(self, a, b, ctx, path=''):
        self.tick()
        if a is b or ctx is FALSE:
            return []
        a, b = self.align(a, b)
        if a is b:
            return []
        out = []
        seen = {}

        def go(x, y, g):
            if x is y or g is FALSE:
                return
            v = INF
            for z in (x, y):
                if z.var is not None and z.var < v:
                    v = z.var
            if v == INF:
                k = (x.t, y.t)
                seen[k] = bor(seen[k], g) if k in seen else g
                return
            c = node(v, TRUE, FALSE)
            go(x.hi if x.var == v else x, y.hi if y.var == v else y, band(g, c))
            go(x.lo if x.var == v else x, y.lo if y.var == v else y, band(g, bnot(c)))
        # boolean values: one exclusive-or instead of a path walk
        if self.is_bool(a) and self.is_bool(b):
            hi, lo = band(a, bnot(b)), band(b, bnot(a))
            for g, x, y in ((hi, TT, FT), (lo, FT, TT)):
                g = band(g, ctx)
                if g is not FALSE:
                    out.append(D(g, x, y, path))
            return out
        go(a, b, ctx)
        for (x, y), g in seen.items():
            out.extend(self.diff_t(x, y, g, path))
        return out

    def is_bool(self, v):
        if v.var is None:
            return v.t.op == 'b'
        return all(t.op == 'b' for t in leafset(v))

    def align(self, a, b):
        """Replace atoms of b by atoms of a that denote the same predicate."""
        sa, sb = support(a), support(b)
        onlya = [i for i in sa - sb if ATOMS[i].op not in ('has',)]
        onlyb = [i for i in sb - sa if ATOMS[i].op not in ('has',)]
        if not onlya or not onlyb or self.depth > 4 or len(onlya) * len(onlyb) > 400:
            return a, b
        m = {}
        for j in onlyb:
            for i in onlya:
                x, y = ATOMS[i], ATOMS[j]
                if x.op == y.op and self.same(x, y):
                    m[j] = i
                    break
        if not m:
            return a, b
        memo = {}

        def re(v):
            if v.var is None:
                return v
            r = memo.get(v.id)
            if r is None:
                r = ite(node(m.get(v.var, v.var), TRUE, FALSE), re(v.hi), re(v.lo))
                memo[v.id] = r
            return r
        return a, re(b)

    def same(self, x, y):
        """x and y denote the same value for every input (False when not known)."""
        if x is y:
            return True
        key = (x.id, y.id)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = False
            self.depth += 1
            try:
                r = all(self.impossible(d) for d in self.diff_t(x, y, TRUE, ''))
            finally:
                self.depth -= 1
            self.memo[key] = r
        return r

    def impossible(self, d):
        if not d.known:
            return False
        try:
            return first_model(d.g, seconds=3, limit=600) is None
        except Limit:
            return False

    def diff_t(self, a, b, ctx, path=''):
        self.tick()
        if a is b or ctx is FALSE:
            return []
        if a.op == 'undef' or b.op == 'undef':
            return []
        ctx0 = ctx
        if a.op in ('seq', 'set') or b.op in ('seq', 'set'):
            r = self.diff_seq(a, b, ctx, path)
            if r is not None:
                return r
        if a.op == 'upd' or b.op == 'upd':
            r = self.diff_upd(a, b, ctx, path)
            if r is not None:
                return r
        if a.op == 'obj' and b.op == 'obj':
            out = []
            da, db = dict(a.a[0]), dict(b.a[0])
            for k in list(da) + [k for k in db if k not in da]:
                va, vb = da.get(k), db.get(k)
                p = path + '[%s]' % show(k)
                if va is None or vb is None:
                    g = band(ctx, core.present(va if va is not None else vb))
                    if g is not FALSE:
                        out.append(D(g, a, b, p, not tainted(g)))
                else:
                    out.extend(self.diff_v(va, vb, ctx, p))
            return out
        if a.op == 'fold' and b.op == 'fold':
            return self.diff_fold(a, b, ctx, path)
        if a.op in core.BINDERS and a.op == b.op:
            return self.diff_binder(a, b, ctx, path)
        if a.op == 'bs' and b.op == 'bs':
            return self.diff_v(a.a[0], b.a[0], ctx, path)
        if a.op == 'bs' or b.op == 'bs':
            if a.op in TAINT or b.op in TAINT:
                return [D(ctx, a, b, path, False)]
            return self.diff_v(core.bits_of(a), core.bits_of(b), ctx, path)
        if a.op == b.op and a.op not in ('str', 'int', 'enum', 'arg', 'lin', 'b', 'ix', 'glob'):
            r = self.diff_children(a, b, ctx, path)
            if r is not None:
                if a.op in SCALAR and r and a.op not in ('app',):
                    ne = bnot(mk_eq(a, b))
                    for d in r:
                        d.g = band(d.g, ne)
                return [d for d in r if d.g is not FALSE]
        if a.op == 'some' and b.op == 'none' or a.op == 'none' and b.op == 'some':
            return [D(ctx, a, b, path)]
        if a.op in ('some', 'none') or b.op in ('some', 'none'):
            # an optional against a known one
            x = b if a.op in ('some', 'none') else a
            y = a if x is b else b
            if x.op in TAINT:
                return [D(ctx, a, b, path, False)]
            h = core.mk_has(x)
            if y.op == 'none':
                return [D(band(ctx, h), a, b, path)]
            out = [D(band(ctx, bnot(h)), a, b, path)]
            inner = proj_t(x, mk('.opt'))
            va, vb = (inner, y.a[0]) if x is a else (y.a[0], inner)
            return out + self.diff_v(va, vb, band(ctx, h), path)
        if a.op in ('tup', 'rec') or b.op in ('tup', 'rec'):
            x, y = (a, b) if a.op in ('tup', 'rec') else (b, a)
            if y.op not in TAINT and y.op not in ('tup', 'rec'):
                out = []
                comps = [(mk('.get', i), v) for i, v in enumerate(x.a[0])] if x.op == 'tup' else [(mk('.f', n), v) for n, v in x.a[1]]
                for s, v in comps:
                    w = proj_t(y, s)
                    out.extend(self.diff_v(*((v, w) if x is a else (w, v)), ctx, path + show(s)))
                return out
        known = not (tainted(a) or tainted(b))
        g = ctx
        if a.op in SCALAR and b.op in SCALAR or is_num(a) or is_num(b):
            e = mk_eq(a, b)
            g = band(ctx, bnot(e))
            if g is FALSE:
                return []
        return [D(g, a, b, path, known)]

    def diff_children(self, a, b, ctx, path):
        if len(a.a) != len(b.a):
            return [D(ctx, a, b, path, not (tainted(a) or tainted(b)))]
        if a.op == 'cat':
            if len(a.a[0]) != len(b.a[0]):
                return None
        out = []
        for x, y in zip(a.a, b.a):
            r = self.diff_any(x, y, ctx, path, a, b)
            out.extend(r)
        return out

    def diff_any(self, x, y, ctx, path, a, b):
        if x is y or x == y:
            return []
        if isinstance(x, T) and isinstance(y, T):
            if x.op in ATOMOPS and y.op in ATOMOPS and (x.op != y.op):
                return [D(ctx, a, b, path, not (tainted(a) or tainted(b)))]
            return self.diff_t(x, y, ctx, path)
        if isinstance(x, V) and isinstance(y, V):
            return self.diff_v(x, y, ctx, path)
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            out = []
            for p, q in zip(x, y):
                out.extend(self.diff_any(p, q, ctx, path, a, b))
            return out
        return [D(ctx, a, b, path, not (tainted(a) or tainted(b)))]

    def diff_binder(self, a, b, ctx, path):
        S, k, T_, l = a.a[0], a.a[1], b.a[0], b.a[1]
        out = []
        if S is not T_:
            if not self.same(S, T_):
                return [D(ctx, a, b, path, not (tainted(a) or tainted(b)))]
        c = ixs(S, 500 + self.depth)
        mx, my = {ixs(S, k): leaf(c)}, {ixs(T_, l): leaf(c)}
        ga, gb = subst(a.a[2], mx), subst(b.a[2], my)
        if a.op == 'each':
            va, vb = self.items_v(a.a[3], mx), self.items_v(b.a[3], my)
            if va is not None and vb is not None:
                no = leaf(NOEV)
                return out + self.diff_v(ite(ga, va, no), ite(gb, vb, no), ctx, path)
            if a.a[3] != b.a[3] and (ga is not gb or len(a.a[3]) != len(b.a[3])):
                return out + [D(ctx, a, b, path, False)]
        out.extend(self.diff_v(ga, gb, ctx, path))
        both = band(ctx, band(ga, gb))
        for x, y in zip(a.a[3:], b.a[3:]):
            if a.op == 'each':
                va, vb = self.items_v(x, mx), self.items_v(y, my)
                if va is None or vb is None:
                    if x is not y:
                        out.append(D(both, a, b, path, not (tainted(a) or tainted(b))))
                    continue
                out.extend(self.diff_v(va, vb, both, path))
            elif isinstance(x, V):
                out.extend(self.diff_v(subst(x, mx), subst(y, my), both, path))
        return out

    def items_v(self, items, m):
        """Items of one step as a single value when at most one is produced."""
        flat = []

        def go(x, g):
            if x.op == 'cond':
                for y in x.a[1]:
                    go(y, band(g, x.a[0]))
            elif g is not FALSE:
                flat.append((g, x))
        for x in items:
            go(subst_item(x, m), TRUE)
        acc = leaf(NOEV)
        used = FALSE
        for g, x in flat:
            if x.op != 'one' or not exclusive(g, used):
                return None
            used = bor(used, g)
            acc = ite(g, lift(x.a[0]), acc)
        return acc

    def diff_seq(self, a, b, ctx, path):
        op = a.op if a.op in ('seq', 'set') else b.op
        if a.op in TAINT or b.op in TAINT:
            return [D(ctx, a, b, path, False)]
        known = not (tainted(a) or tainted(b))

        def split(t):
            return (t.a[0], t.a[1]) if t.op == op else (t, ())
        ba, ia = split(a)
        bb, ib = split(b)
        out = []
        if ba is not bb:
            if ba is None or bb is None:
                # one starts from an existing container, the other from nothing
                x = bb if ba is None else ba
                g = band(ctx, bnot(core.mk_empty(x)))
                if (ba is None and not ia) or (bb is None and not ib):
                    g = band(ctx, bnot(core.mk_empty(a if bb is None else b)))
                    return [D(g, a, b, path, known)]
                sa, sb = mk(op, None, tuple(ia)), mk(op, None, tuple(ib))
                ea, eb = core.as_items(a, op), core.as_items(b, op)
                if ea != tuple(a.a[1] if a.op == op else ()) or eb != tuple(b.a[1] if b.op == op else ()):
                    return self.items_diff(op, ea, eb, ctx, path, a, b, known)
                return [D(ctx, a, b, path, known)]
            r = self.diff_t(ba, bb, ctx, path)
            out.extend(r)
        return out + self.items_diff(op, ia, ib, ctx, path, a, b, known)

    def items_diff(self, op, ia, ib, ctx, path, a, b, known):
        if op == 'set':
            ia = list(ia)
            ib = list(ib)
            for x in list(ia):
                if x in ib:
                    ia.remove(x)
                    ib.remove(x)
            if len(ia) == len(ib):
                for x in list(ia):
                    for y in list(ib):
                        if self.same_item(x, y):
                            ia.remove(x)
                            ib.remove(y)
                            break
        if not ia and not ib:
            return []
        if len(ia) != len(ib):
            # drop items that cannot exist under the context
            ia = [x for x in ia if self.may_exist(x, ctx)]
            ib = [x for x in ib if self.may_exist(x, ctx)]
        if len(ia) == len(ib):
            out = []
            for x, y in zip(ia, ib):
                out.extend(self.diff_item(x, y, ctx, path, a, b))
            return out
        va, vb = self.items_v(ia, {}), self.items_v(ib, {})
        if va is not None and vb is not None and ia and ib:
            return self.diff_v(va, vb, ctx, path)
        return [D(ctx, a, b, path, known)]

    def may_exist(self, x, ctx):
        g = band(ctx, core.item_exists(x))
        if g is FALSE:
            return False
        try:
            return first_model(g, seconds=3, limit=500) is not None
        except Limit:
            return True

    def same_item(self, x, y):
        return all(self.impossible(d) for d in self.diff_item(x, y, TRUE, '', x, y))

    def diff_item(self, x, y, ctx, path, a, b):
        known = not (tainted(x) or tainted(y))
        if x is y:
            return []
        if x.op == 'one' and y.op == 'one':
            return self.diff_v(x.a[0], y.a[0], ctx, path + '[]')
        if x.op == 'each' and y.op == 'each':
            return self.diff_binder(x, y, ctx, path + '[]')
        if 'each' not in (x.op, y.op):
            va, vb = self.items_v((x,), {}), self.items_v((y,), {})
            if va is not None and vb is not None:
                return self.diff_v(va, vb, ctx, path + '[]')
        gx, gy = (x.a[0] if x.op == 'cond' else TRUE), (y.a[0] if y.op == 'cond' else TRUE)
        ix = x.a[1] if x.op == 'cond' else (x,)
        iy = y.a[1] if y.op == 'cond' else (y,)
        if 'cond' in (x.op, y.op) and len(ix) == len(iy):
            out = [D(d.g, x, y, path + '[]', known) for d in self.diff_v(gx, gy, ctx, path)]
            for p, q in zip(ix, iy):
                out.extend(self.diff_item(p, q, band(ctx, band(gx, gy)), path, a, b))
            return out
        return [D(ctx, x, y, path + '[]', known)]

    def diff_upd(self, a, b, ctx, path):
        def split(t):
            return (t.a[0], list(t.a[1])) if t.op == 'upd' else (t, [])
        ba, ia = split(a)
        bb, ib = split(b)
        if ba.op in ('rec', 'tup') or bb.op in ('rec', 'tup'):
            return None
        out = []
        if ba is not bb:
            if ba.op in ('addv', 'adde') or bb.op in ('addv', 'adde') or ba.op == bb.op:
                out = self.diff_t(ba, bb, ctx, path)
            else:
                return [D(ctx, a, b, path, not (tainted(a) or tainted(b)))]
        steps = []
        for s, _ in ia + ib:
            # steps with the same meaning are compared once
            if not any(s is q or (s.op == q.op and len(s.a) == len(q.a) and all(self.same_step(x, y) for x, y in zip(s.a, q.a))) for q in steps):
                steps.append(s)
        for s in steps:
            out.extend(self.diff_v(proj_t(a, s), proj_t(b, s), ctx, path + show(s)))
        return out

    def same_step(self, x, y):
        if x is y or x == y:
            return True
        return isinstance(x, T) and isinstance(y, T) and self.same(x, y)

    def diff_fold(self, a, b, ctx, path):
        """Loops without a closed form: same domain and start; the steps are compared with the state as a free symbol."""
        i, S, inits, steps, u, _ = a.a
        j, S2, inits2, steps2, u2, db = b.a
        bad = [D(ctx, a, b, path, False)]
        if S is not S2 and S.op == 'wloop' and S2.op == 'wloop':
            r = self.diff_wloop(S, S2, ctx, path)
            if r:
                return r
            return self.diff_fold(a, mk('fold', j, S, inits2, steps2, u2, db), ctx, path)
        if len(inits) != len(inits2):
            return bad
        n = len(inits)
        if S is not S2:
            if S.op == 'opaque' and S2.op == 'opaque':
                pass
            elif not self.same(S, S2):
                return [D(ctx, a, b, path, not (tainted(S) or tainted(S2)))]
        if u is not u2 and not (u.op == 'ix' and u2.op == 'ix' or self.same(u, u2)):
            return bad
        return self.diff_steps(a, b, inits, steps, inits2, steps2, i, j, None, ctx, path)

    def diff_wloop(self, a, b, ctx, path):
        """Loops given by their step and stop condition."""
        if len(a.a[0]) != len(b.a[0]) or not a.a[0]:
            return [D(ctx, a, b, path, False)]
        best = None
        for j in range(len(b.a[0])):
            r = self.diff_steps(a, b, a.a[0], a.a[1], b.a[0], b.a[1], 0, j, (a.a[2], b.a[2]), ctx, path)
            if not r:
                return []
            if best is None or len(r) < len(best):
                best = r
        return best

    def diff_steps(self, a, b, inits, steps, inits2, steps2, i, j, stops, ctx, path):
        # pair the loop-carried locations by the component asked for and by equal initial values
        import itertools
        best = None
        n = len(inits)
        rest = [x for x in range(n) if x != i]
        rest2 = [x for x in range(n) if x != j]
        for perm in itertools.islice(itertools.permutations(rest2), 24):
            m = dict(zip(rest, perm))
            m[i] = j
            ds = []
            real = lambda lst: [d for d in lst if not (d.known and self.impossible(d))]
            starts = [real(self.diff_v(inits[x], inits2[m[x]], ctx, path + '(initial value)')) for x in range(n)]
            ren = self.fpre_map(a, b, m)
            other = False
            for x in range(n):
                st = real(self.diff_v(steps[x], rename_fpre(steps2[m[x]], ren), ctx, path + '(loop step)'))
                if st and starts[x] or kind(inits[x]) != kind(inits2[m[x]]):
                    other = True          # another representation of the loop's state: not comparable step by step
                ds += starts[x] + st
            if stops is not None:
                ds += real(self.diff_v(stops[0], rename_fpre(stops[1], ren), ctx, path + '(loop condition)'))
            if not ds:
                return []
            if other:
                for d in ds:
                    d.known = False
            if best is None or len(ds) < len(best):
                best = ds
        return best

    def fpre_map(self, a, b, m):
        da, db = a.a[-1], b.a[-1]
        ren = {}
        for x, y in m.items():
            ren[mk('fpre', db, y)] = leaf(mk('fpre', da, x))
        ren[mk('fix', db)] = leaf(mk('fix', da))
        return ren


def exclusive(g, h):
    c = band(g, h)
    if c is FALSE:
        return True
    try:
        return first_model(c, seconds=3, limit=600) is None
    except Limit:
        return False


def kind(v):
    ks = set()
    for t in leafset(v):
        ks.add('b' if t.op == 'b' else 'opt' if t.op in ('some', 'none') else 'num' if is_num(t) else 'seq' if t.op in ('seq', 'set') else '')
    return ks - {''}


def rename_fpre(v, ren):
    ren = {x: y for x, y in ren.items() if leaf(x) is not y}
    if not ren:
        return v
    return replace(v, ren)


def replace(v, m):
    """Rewrite terms wherever they occur (m: T -> V)."""
    memo = {}
    keys = set(m)
    if not m:
        return v

    def sv_(x):
        r = memo.get(('v', x.id))
        if r is None:
            if x.var is None:
                r = st(x.t)
            else:
                r = ite(st(ATOMS[x.var]), sv_(x.hi), sv_(x.lo))
            memo[('v', x.id)] = r
        return r

    def st(t):
        if t in m:
            return m[t]
        r = memo.get(('t', t.id))
        if r is None:
            subs = subterms(t)
            if not any(s in keys for s in subs):
                r = leaf(t) if t.op not in ATOMOPS else atom(t)
            else:
                r = rebuild_m(t, sv_, st, m)
            memo[('t', t.id)] = r
        return r
    return sv_(v)


def rebuild_m(t, sv_, st, m):
    if t.op in ('fold', 'wloop'):
        own = {x for x in m if x.op in ('fpre', 'fix') and x.a[0] == t.a[-1]}     # bound inside this loop
        inner = (lambda x: replace(x, {x: y for x, y in m.items() if x not in own})) if own else sv_
        if t.op == 'wloop':
            return leaf(mk('wloop', tuple(sv_(x) for x in t.a[0]), tuple(inner(x) for x in t.a[1]), inner(t.a[2]), t.a[3]))
        i, S, inits, steps, u, dp = t.a
        s = st(S)
        uu = st(u)
        return leaf(mk('fold', i, s.t if s.var is None else S, tuple(sv_(x) for x in inits), tuple(inner(x) for x in steps),
                       uu.t if uu.var is None else u, dp))
    return core.rebuild(t, sv_, st, m)


def lift(v):
    """Alternatives inside JSON values, options and tuples moved to the top."""
    def f(t):
        if t.op == 'obj' and t.a[0]:
            names = [n for n, _ in t.a[0]]
            vals = [lift(x) for _, x in t.a[0]]
            return mapn(lambda *ts: leaf(core.mk_obj([(n, leaf(x)) for n, x in zip(names, ts) if x is not EMPTYOBJ])), vals)
        if t.op == 'some':
            return map1(lambda x: leaf(mk('some', leaf(x))), lift(t.a[0]))
        if t.op == 'tup':
            vals = [lift(x) for x in t.a[0]]
            return mapn(lambda *ts: leaf(mk('tup', tuple(leaf(x) for x in ts))), vals) if vals else leaf(t)
        return leaf(t)
    return map1(f, v)


# ---------------------------------------------------------------------------------------------- events
def norm_event(ev):
    """(kind, name, domains, guard, args) with canonical bound variables."""
    pc = ev.pc
    args = [lift(a) for a in ev.args]
    loops = [list(l) for l in ev.loops]
    # an event at the first (last) index with some property becomes an event for the index without an earlier one
    for _ in range(4):
        done = False
        for i in sorted(support(pc)):
            a = ATOMS[i]
            if a.op != 'ex' or cof(pc, i, False) is not FALSE:
                continue
            S, k, g = a.a
            f = next((t for t in (mk('first', S, k, g), mk('last', S, k, g)) if any(t in subterms(x) for x in args + [pc] + [l[2] for l in loops] + [leaf(l[0]) for l in loops])), None)
            if f is None:
                continue
            # S must not depend on loop variables
            n = 600 + len(loops)
            b = ixs(S, n)
            m = {f: leaf(b)}
            pc = replace(cof(pc, i, True), m)
            args = [replace(x, m) for x in args]
            loops = [[replace(leaf(l[0]), m).t, l[1], replace(l[2], m), l[3]] for l in loops]
            c = ixs(S, n + 50)
            L = t_add(c, b, -1)
            earlier = mk_lt(L, 0) if f.op == 'first' else bnot(mk_lt(L, 1))
            here = subst(g, {ixs(S, k): leaf(b)})
            before = core.mk_ex(S, n + 50, band(subst(g, {ixs(S, k): leaf(c)}), earlier))
            loops = [[S, n, band(here, bnot(before)), False]] + loops
            done = True
            break
        if not done:
            break
    G = pc
    doms = []
    m = {}
    for d, (S, k, g, rev) in enumerate(loops):
        if m:
            Sv = subst(leaf(S), m)
            S2 = Sv.t if Sv.var is None else mk('opaque', 'domain', Sv)
        else:
            S2 = S
        b = ixs(S2, 900 + d)
        # bound variable of this loop in terms of the not yet renamed domain
        m = dict(m)
        m[ixs(S, k)] = leaf(b)
        if S2 is not S:
            m[ixs(S2, k)] = leaf(b)
        G = band(G, subst(g, m))
        doms.append(S2)
    if m:
        G = band(G, TRUE)
        args = [subst(x, m) for x in args]
    return ev.kind, ev.name, tuple(doms), G, tuple(args)


def signature(t):
    """Constant part of an event argument that tells reports apart."""
    if t.op == 'obj':
        return tuple(sorted((show(k), signature(v.t)) for k, v in t.a[0] if v.var is None and (v.t.op in ('obj', 'str', 'enum'))))
    if t.op in ('str', 'enum'):
        return show(t)
    return ''


def group(events):
    """{(kind, name, domains, signature): [(guard, args V as one tuple value)]}"""
    out = {}
    for ev in events:
        kind, name, doms, G, args = norm_event(ev)
        if G is FALSE:
            continue
        if not args:
            out.setdefault((kind, name, doms, ''), []).append((G, leaf(mk('tup', ()))))
            continue
        tv = mapn(lambda *ts: leaf(mk('tup', tuple(leaf(x) for x in ts))), args)
        tv = restrict(tv, G)
        bysig = {}
        for g, t in leaves(tv):
            gg = band(G, g)
            if gg is FALSE:
                continue
            sg = tuple(signature(v.t) for v in t.a[0]) if kind == 'enqueue' else ''
            pg, pv = bysig.get(sg, (FALSE, leaf(NOEV)))
            bysig[sg] = (bor(pg, gg), ite(gg, leaf(t), pv))
        for sg, (g, v) in bysig.items():
            out.setdefault((kind, name, doms, sg), []).append((g, v))
    return out


def once_loops(key):
    return key


def combine(lst):
    """One value when the guards are disjoint, else None."""
    acc = leaf(NOEV)
    used = FALSE
    for g, v in lst:
        if band(used, g) is not FALSE:
            try:
                if first_model(band(used, g), seconds=3, limit=400) is not None:
                    return None
            except Limit:
                return None
        used = bor(used, g)
        acc = ite(g, v, acc)
    return acc


def show_key(key):
    kind, name, doms, sig = key
    return '%s %s %s%s' % (kind, name, sig, ' for each index of %s' % ', '.join(show(d) for d in doms) if doms else '')


class Finding:
    def __init__(self, where, lits, got, want, comp=None, cond=None, terms=()):
        self.terms = terms
        self.where, self.lits, self.got, self.want = where, lits, got, want
        self.comp, self.cond = comp, cond


class Result:
    def __init__(self):
        self.findings = []
        self.unknown = []
        self.compared = []
        self.open = {}          # undecided differences by part of the result


def compare(sa, sb, ignore_outs=(), kinds=None, channels=None, seconds=40, ignore_events=(), witness_seconds=12,
            only=None, given=None, toward=None, event_args=None):
    """Compare the program's summary sa with the specification's sb.

    toward: which differences count (component, difference) -> bool; event_args: arguments of an event that count."""
    if event_args:
        sa, sb = project_events(sa, event_args), project_events(sb, event_args)
    c = Cmp(seconds)
    res = Result()
    # tainted atoms and terms that occur on both sides stand for the same unknown
    ctx0 = band(sa.assume, sb.assume)
    ta, tb = taint_set(sa), taint_set(sb)
    common = ta & tb

    if given:
        # only where both sides make this call, with the same arguments
        es = [[e for e in s.events if e.name == given] for s in (sa, sb)]
        if any(len(x) != 1 or x[0].loops for x in es):
            res.unknown.append('%s is not called at one place on each side' % given)
            return res
        x, y = es[0][0], es[1][0]
        ctx0 = ands([ctx0, x.pc, y.pc] + [v_eq(a, b) for a, b in zip(x.args, y.args)])

    def want(comp):
        return only is None or only(comp)

    def report(what, diffs, comp):
        for d in diffs:
            if toward is None or toward(comp, d):
                judge(c, res, what, d, common, comp)
    try:
        # normal return
        if want('normal'):
            report('normal return', c.diff_v(sa.pc, sb.pc, ctx0, 'reached'), 'normal')
        ctx = band(ctx0, band(sa.pc, sb.pc))
        if sa.ret is not None and sb.ret is not None and want('ret'):
            res.compared.append('return value')
            report('return value', c.diff_v(lift(sa.ret), lift(sb.ret), ctx, 'result'), 'ret')
        for k in sorted(set(sa.outs) | set(sb.outs), key=str):
            if k in ignore_outs or not want(('out', k)):
                continue
            init = initial(k)
            va, vb = sa.outs.get(k, init), sb.outs.get(k, init)
            res.compared.append('final value of parameter %s' % (k,))
            report('final value of parameter %s' % (k,), c.diff_v(va, vb, ctx, 'param%s' % (k,)), ('out', k))
        ga = group([e for e in sa.events if e.name not in ignore_events and (kinds is None or e.kind in kinds)])
        gb = group([e for e in sb.events if e.name not in ignore_events and (kinds is None or e.kind in kinds)])
        match_domains(c, ga, gb)
        for key in list(ga) + [k for k in gb if k not in ga]:
            if not want(('ev', key[:2])):
                continue
            la, lb = ga.get(key, []), gb.get(key, [])
            res.compared.append(show_key(key)[:300])
            # equal events first
            la, lb = list(la), list(lb)
            for x in list(la):
                for y in list(lb):
                    if x[0] is y[0] and x[1] is y[1]:
                        la.remove(x)
                        lb.remove(y)
                        break
            if not la and not lb:
                continue
            va, vb = combine(la), combine(lb)
            if va is not None and vb is not None:
                report(show_key(key), c.diff_v(va, vb, ctx0, 'event'), ('ev', key[:2]))
                continue
            for x in list(la):
                for y in list(lb):
                    ds = c.diff_v(ite(x[0], x[1], leaf(NOEV)), ite(y[0], y[1], leaf(NOEV)), ctx0, 'event')
                    if all(c.impossible(d) for d in ds):
                        la.remove(x)
                        lb.remove(y)
                        break
            if len(la) == len(lb):
                for x, y in zip(la, lb):
                    report(show_key(key), c.diff_v(ite(x[0], x[1], leaf(NOEV)), ite(y[0], y[1], leaf(NOEV)), ctx0, 'event'), ('ev', key[:2]))
            else:
                va, vb = combine(la), combine(lb)
                if va is not None and vb is not None:
                    report(show_key(key), c.diff_v(va, vb, ctx0, 'event'), ('ev', key[:2]))
                else:
                    for x in la:
                        report(show_key(key), [D(band(x[0], ctx0), mk('event'), NOEV, 'event', not tainted(x[0]))], ('ev', key[:2]))
                    for y in lb:
                        report(show_key(key), [D(band(y[0], ctx0), NOEV, mk('event'), 'event', not tainted(y[0]))], ('ev', key[:2]))
    except (Budget, RecursionError) as e:
        res.unknown.append('comparison stopped: %r' % e)
    except Limit:
        res.unknown.append('comparison stopped: too many cases')
    if witness_seconds and (res.findings or res.open):
        confirm_findings(sa, sb, res, witness_seconds, ctx0 if given else None)
    return res


def project_events(s, sel):
    import copy
    r = copy.copy(s)
    r.events = []
    for e in s.events:
        if e.name in sel:
            e = Event(e.kind, e.name, [e.args[i] for i in sel[e.name] if i < len(e.args)], e.pc, e.loops, e.loc)
        r.events.append(e)
    return r


def more(comp, d):
    """The program does something, or says yes, where the specification does not."""
    return not nothing(d.x)


def less(comp, d):
    return not nothing(d.y)


def nothing(t):
    while t.op.startswith('.') and t.a and isinstance(t.a[0], T) or t.op == 'get':
        t = t.a[0]
    return t is FT or NOEV in subterms(leaf(t))


def initial(k):
    """Value of a part of the result when the function starts."""
    if isinstance(k, tuple):
        return leaf(mk('app', 'file', k[1]))
    return leaf(mk('arg', k)) if isinstance(k, int) else leaf(mk('deref', mk('arg', int(k[1:]))))


def confirm_findings(sa, sb, res, seconds, given=None):
    """Keep the findings of the parts of the result that differ in some small structure."""
    import witness
    comps = {}
    for f in res.findings:
        comps.setdefault(f.comp, []).append(f)
    todo = list(comps) + [x for x in res.open if x not in comps]
    pools = witness.Pools(witness.roots(sa) + witness.roots(sb))
    keep = []
    for comp in todo:
        fs = comps.get(comp, [])
        alien = witness.library(witness.foreign(sa, sb, comp)) if fs else ()
        if alien:
            # library functions that only one side uses and that the search cannot evaluate
            out = [f for f in fs if witness.mentions(f, alien)]
            fs = [f for f in fs if f not in out]
            res.unknown += ['%s: depends on %s' % (f.where, ', '.join(sorted(map(str, alien)))[:100]) for f in out]
            if not fs:
                continue
        undecided = res.open.get(comp, [])
        if not fs and witness.foreign(sa, sb, comp):
            continue
        st = witness.confirm(sa, sb, comp, [f.cond for f in fs] + [g for _, _, g in undecided[:20]], pools,
                             max(2.5, seconds / len(todo)), given=given)
        if st is None:
            st = witness.confirm_parallel(sa, sb, comp, [f.cond for f in fs] + [g for _, _, g in undecided[:20]], pools,
                                          max(8, 5 * seconds / len(todo)), given=given)
        if st is not None:
            keep.extend(fs)
            if not fs:
                what, d, g = undecided[0]
                keep.append(Finding(what + ' ' + d.path, ['the normal forms differ in a small structure'], show(d.x), show(d.y), comp, g))
        else:
            for f in fs:
                res.unknown.append('%s: reported difference (%s against %s) not confirmed in a small structure' % (f.where, f.got[:120], f.want[:120]))
    res.findings = keep


def match_domains(c, ga, gb):
    """Events over domains that are equal but written differently, or nested in the other order, get the same key."""
    import itertools
    for ka in [k for k in ga if k not in gb]:
        for kb in [k for k in gb if k not in ga]:
            if ka[0] != kb[0] or ka[1] != kb[1] or ka[3] != kb[3] or len(ka[2]) != len(kb[2]):
                continue
            n = len(ka[2])
            for perm in itertools.permutations(range(n)):
                if perm == tuple(range(n)):
                    if all(x is y or c.same(x, y) for x, y in zip(ka[2], kb[2])):
                        pass
                    else:
                        continue
                if all(ka[2][perm[i]] is kb[2][i] or c.same(ka[2][perm[i]], kb[2][i]) for i in range(n)):
                    m = {ixs(kb[2][i], 900 + i): leaf(ixs(ka[2][perm[i]], 900 + perm[i])) for i in range(n)}
                    lst = gb.pop(kb)
                    gb.setdefault(ka, []).extend((subst(g, m), subst(v, m)) for g, v in lst)
                    break
            if ka in gb:
                break


def taint_set(s):
    acc = set()
    vs = [v for v in [s.ret, s.pc] if v is not None] + list(s.outs.values())
    for e in s.events:
        vs.append(e.pc)
        vs.extend(e.args)
        for S, k, g, r in e.loops:
            vs.append(leaf(S))
            vs.append(g)
    seen = set()
    lst = []
    for v in vs:
        subterms(v, lst, seen)
    return {t for t in lst if t.op in TAINT}


def has_foreign_taint(x, common):
    """x contains an unknown that is not the same on both sides."""
    if not tainted(x):
        return False
    if isinstance(x, V):
        if x.var is None:
            return has_foreign_taint(x.t, common)
        return has_foreign_taint(ATOMS[x.var], common) or has_foreign_taint(x.hi, common) or has_foreign_taint(x.lo, common)
    if x.op in TAINT and x in common:
        return False
    if x.op in TAINT:
        return True
    return any(has_foreign_taint(y, common) for y in core._args(x))


def judge(c, res, what, d, common, comp=None):
    if d.g is FALSE:
        return
    foreign = [i for i in support(d.g) if has_foreign_taint(ATOMS[i], common)]
    g = d.g
    known = d.known or not (has_foreign_taint(d.x, common) or has_foreign_taint(d.y, common))
    if foreign:
        g = quant_and(g, foreign)
        if g is FALSE:
            try:
                if first_model(d.g, seconds=3, limit=500) is None:
                    return
            except Limit:
                pass
            res.unknown.append('%s%s: depends on a value the analysis does not resolve' % (what, d.path))
            res.open.setdefault(comp, []).append((what, d, d.g))
            return
    try:
        m = first_model(g)
    except Limit:
        res.unknown.append('%s%s: too many cases' % (what, d.path))
        res.open.setdefault(comp, []).append((what, d, g))
        return
    if m is None:
        return
    if not known:
        res.unknown.append('%s%s: %s against %s not resolved' % (what, d.path, show(d.x)[:200], show(d.y)[:200]))
        res.open.setdefault(comp, []).append((what, d, g))
        return
    res.findings.append(Finding(what + ' ' + d.path, show_lits(m), show(d.x), show(d.y), comp, g, (d.x, d.y)))
