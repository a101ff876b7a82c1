"""Loops: iteration summary by probing, recognition of the index domain, closed forms of loop-carried locations."""
from core import *
import core
import streams
from ir import norm


class R:
    """Summary of one iteration in terms of the values at its start (pre symbols) and the index b."""
    pass


def pre_value(v, p):
    """Value standing for the location at the start of an iteration."""
    ls = leafset(v)
    if len(ls) == 1:
        t = next(iter(ls))
        if t.op == 'iter':
            return leaf(mk('iter', t.a[0], p))
        if t.op == 'b':
            return truth_t(p)
    elif ls and all(t.op == 'b' for t in ls):
        return truth_t(p)
    return leaf(p)


def strip_pre(v):
    """The part of an iterator value that varies."""
    def f(t):
        if t.op == 'iter':
            return leaf(t.a[1])
        return leaf(t)
    return map1(f, v)


def get_loc(store, loc):
    v = store[loc[0]]
    for s in loc[1]:
        v = proj(v, s)
    return v


def set_loc(store, loc, val):
    store[loc[0]] = update(store[loc[0]], list(loc[1]), lambda old: val)


def minimal(W):
    W = sorted(W, key=lambda l: (l[0].id, len(l[1])))
    out = []
    for r, p in W:
        if any(r is r2 and p[:len(p2)] == p2 for r2, p2 in out):
            continue
        out.append((r, p))
    return out


def probe(it, run, base):
    """Run the iteration with pre symbols at every location it modifies (found by iterating to a fixed point)."""
    fr = it.frames[-1]
    W = []
    depth = it.depth
    it.depth += 1
    for attempt in range(8):
        env = base.clone()
        env.pc = TRUE
        pres = {}
        init = {}
        for i, loc in enumerate(W):
            p = mk('pre', depth, i)
            pres[loc] = p
            init[loc] = get_loc(base.store, loc)
            set_loc(env.store, loc, pre_value(init[loc], p))
        it.env = env
        start = dict(env.store)
        nret, nex = len(fr.returns), len(it.exits)
        evs, it.events = it.events, []
        it.wlog.append(set())
        fr.breaks.append([])
        fr.conts.append([])
        r = R()
        r.c = run()
        wl = it.wlog.pop()
        r.breaks = fr.breaks.pop()
        fr.conts.pop()
        r.returns = fr.returns[nret:]
        del fr.returns[nret:]
        r.exits = it.exits[nex:]
        del it.exits[nex:]
        r.events = it.events
        it.events = evs
        r.end = it.env
        r.start = start
        W2 = minimal([l for l in wl if l[0] in base.store] + list(W))
        if set(W2) == set(W):
            break
        W = W2
    it.depth -= 1
    r.W = W
    r.pres = pres
    r.init = init
    if it.wlog:
        it.wlog[-1] |= set(W)
    r.N = {loc: get_loc(r.end.store, loc) for loc in W}
    r.cont = r.end.pc
    it.env = base
    return r


def fresh_k(it, S, base):
    k = 0
    while any(s is S and kk == k for s, kk in it.loopstack):
        k += 1
    return k


# ---------------------------------------------------------------------------------------------- range-for
def run_range(it, s):
    fr = it.frames[-1]
    L = it.lv(s['range'])
    cv = it.load(L)
    var = s['var']
    outer_breaks = []

    def bind(val_lv, val):
        if var.get('bind'):
            base = val_lv if val_lv is not None else it.tmp(val)
            for b in var['bind']:
                st = mk('.f', b['field']) if b.get('field') else mk('.get', b['i'])
                fr.vars[b['id']] = ('ref', it.bind_comp(base, st))
            return
        if var.get('ref'):
            fr.vars[var['id']] = ('ref', val_lv if val_lv is not None else it.tmp(val))
        else:
            from interp import root_v
            r = root_v(fr.id, var['id'])
            it.env.store[r] = val
            fr.vars[var['id']] = ('val', r)

    def body(val_lv, val):
        bind(val_lv, val)
        it.ex(s['body'])

    def case(t):
        # a mutable reference into the container keeps its lvalue
        mutable = var.get('ref') and not var.get('cref')
        iterate(it, t, L if mutable else None, body, outer_breaks)
    it.cases(cv, case)
    env = it.env
    for pc, st in outer_breaks:
        from interp import Env
        env = it.merge(pc, Env(st, pc), env)
    it.env = env


def iterate(it, t, L, body, breaks):
    """Run body once per element of container term t, in order."""
    fr = it.frames[-1]
    if it.env.pc is FALSE:
        return
    if t.op == 'seq' and (t.a[0] is None or t.a[1]) or t.op == 'set' and (t.a[0] is None and len(t.a[1]) < 2 and all(x.op == 'one' for x in t.a[1])):
        if t.a[0] is not None:
            iterate(it, t.a[0], None if L is None else L, body, breaks)
        pos = 0 if t.a[0] is None else None
        for x in t.a[1]:
            run_item(it, x, body, breaks, L, pos)
            pos = pos + 1 if pos is not None and x.op == 'one' else None
        return
    rev = False
    if t.op == 'rev':
        t = t.a[0]
        rev = True
    if t.op in ('emptymap', 'undef') or t is EMPTYOBJ:
        return
    Sv = mk_size(t)

    def dom(S):
        if S.op == 'int' and 0 <= S.a[0] <= 4:
            for i in range(S.a[0]):
                once(it, lambda i=i: body(lv_at(it, L, I(i)), proj_t(t, mk('.at', I(i)))), breaks)
            return
        k = fresh_k(it, S, it.env)
        b = ixs(S, k)

        def run():
            body(lv_at(it, L, b), proj_t(t, mk('.at', b)))
            return TRUE
        br = loop_over(it, S, k, TRUE, run, rev)
        breaks.extend(br)
    it.cases(Sv, dom)


def lv_at(it, L, i):
    if L is None:
        return None
    from interp import lv_add
    return lv_add(L, mk('.at', i))


def once(it, f, breaks):
    """A single execution of a loop body."""
    fr = it.frames[-1]
    fr.breaks.append([])
    fr.conts.append([])
    if it.env.pc is not FALSE:
        f()
    from interp import Env
    env = it.env
    for pc, st in fr.conts.pop():
        env = it.merge(pc, Env(st, pc), env)
    it.env = env
    breaks.extend(fr.breaks.pop())


def run_item(it, x, body, breaks, L, pos):
    if it.env.pc is FALSE:
        return
    if x.op == 'one':
        v = x.a[0]
        l = lv_at(it, L, I(pos)) if L is not None and pos is not None else None
        once(it, lambda: body(l, v), breaks)
        return
    if x.op == 'cond':
        def yes():
            for y in x.a[1]:
                run_item(it, y, body, breaks, None, None)
        it.branch(x.a[0], yes, lambda: None)
        return
    S, k0, g, its = x.a
    k = fresh_k(it, S, it.env)
    b0, b = ixs(S, k0), ixs(S, k)
    if b is not b0:
        g = subst(g, {b0: leaf(b)})
        its = tuple(subst_item(y, {b0: leaf(b)}) for y in its)

    def run():
        inner = []
        for y in its:
            run_item(it, y, body, inner, None, None)
        it.frames[-1].breaks[-1].extend(inner)
        return TRUE
    breaks.extend(loop_over(it, S, k, g, run, False))


def loop_over(it, S, k, D, run, rev):
    """Loop with a known index domain; returns the break exits and leaves it.env as after normal completion."""
    from interp import Env
    base = it.env
    it.loopstack.append((S, k))

    def run1():
        run()
        fr = it.frames[-1]
        env = it.env
        for pc, st in fr.conts[-1]:
            env = it.merge(pc, Env(st, pc), env)
        it.env = env
        return TRUE
    r = probe(it, run1, base)
    it.loopstack.pop()
    return close(it, r, base, S, k, D, rev, {}, {}, TRUE)


# ---------------------------------------------------------------------------------------------- general loops
def invariant_choice(it, r, base, do):
    """A condition fixed before the loop on which its bound depends."""
    allp = set(r.pres.values())
    inv = [i for i in sorted(support(r.c)) if not free(ATOMS[i]) & allp]
    if not inv or (not do and find_erase(it, r) is not None) or find_domain(it, r) is not None:
        return None
    for i in inv:
        a = node(i, TRUE, FALSE)
        if not implies(base.pc, a) and not implies(base.pc, bnot(a)):
            return a
    return None


def run_lines(it, cond, body):
    """while (getline(stream, line)) over a file: once per line of its text."""
    from interp import Env
    c = cond
    while c is not None and (c.get('k') == 'cast' or c.get('conv')):
        c = c.get('e') if c.get('k') == 'cast' else c.get('obj')
    if c is None or c.get('k') != 'call' or norm(c.get('fn') or '') != 'std::getline' or len(c['args']) != 2:
        return False
    l = it.lv(c['args'][0])
    if streams.state(it, l) not in streams.KINDS:
        return False
    line = it.lv(c['args'][1])
    lines = v_app('lines', [it.load(streams.text_at(it, it.load(streams.field(it, l, 'path'))))])
    breaks = []

    def once(_, val):
        it.assign(line, val)
        it.ex(body)
    it.cases(lines, lambda t: iterate(it, t, None, once, breaks))
    env = it.env
    for pc, st in breaks:
        env = it.merge(pc, Env(st, pc), env)
    it.env = env
    it.assign(line, it.opaque('last line'))
    return True


def run_loop(it, cond, body, inc, cv=None, do=False, split=0):
    from interp import Env
    if not do and inc is None and cv is None and run_lines(it, cond, body):
        return
    base = it.env
    fr = it.frames[-1]

    def iteration():
        if cv is not None:
            it.declare(fr, cv)
        c = TRUE
        if cond is not None and not do:
            c = truth(it.ev(cond))
            it.env = Env(it.env.store, band(it.env.pc, c))
        it.ex(body)
        env = it.env
        for pc, st in fr.conts[-1]:
            env = it.merge(pc, Env(st, pc), env)
        it.env = env
        if inc is not None and it.env.pc is not FALSE:
            if inc['k'] == 'call':
                it.call(inc, want='none')
            else:
                it.ev(inc)
        if cond is not None and do:
            c = truth(it.ev(cond))
            fr.breaks[-1].append((band(it.env.pc, bnot(c)), dict(it.env.store)))
            it.env = Env(it.env.store, band(it.env.pc, c))
            c = TRUE
        return c
    n = len(it.loopstack)
    it.loopstack.append((mk('loop', n), 0))
    r = probe(it, iteration, base)
    it.loopstack.pop()
    if split < 4 and r.c is not FALSE:
        a = invariant_choice(it, r, base, do)
        if a is not None:
            def side(lit):
                st = {x: (restrict(v, lit) if isinstance(v, V) else v) for x, v in it.env.store.items()}
                it.env = Env(st, it.env.pc)
                run_loop(it, cond, body, inc, cv, do, split + 1)
            it.env = base
            it.branch(a, lambda: side(a), lambda: side(bnot(a)))
            return
    br = close_general(it, r, base, do)
    env = it.env
    for pc, st in br:
        env = it.merge(pc, Env(st, pc), env)
    it.env = env


def close_general(it, r, base, do):
    from interp import Env
    d = find_erase(it, r) if not do else None
    if d is not None:
        return d(base)
    dom = find_domain(it, r)
    if dom is None:
        it.note('loop without an index domain at %s' % it.loc())
        r.breaks = list(r.breaks) + [(bnot(r.c), r.start)]
        S = while_domain(it, r)
        return close(it, r, base, S, fresh_k(it, S, base), TRUE, False, {}, {}, TRUE, unknown=True)
    loc, S, k, D, rev, crest, fin, head = dom
    p = r.pres[loc]
    c0 = TRUE
    state = {q: l for l, q in r.pres.items() if q is not p}
    if head is not TRUE and pres_in(head) - {p}:
        dep = [i for i in support(head) if free(ATOMS[i]) & set(state)]
        ci = quant_or(head, dep)
        st = restrict(head, ci)
        if band(ci, st) is head and set(support(st)) <= set(dep) and r.cont is not FALSE:
            # a condition on the state at the head: left after the iteration that makes it false
            post = {r.pres[l]: strip_pre(r.N[l]) for l in r.W}
            c0 = subst(st, {r.pres[l]: strip_pre(r.init[l]) for l in r.W})
            known = lambda v: restrict(v, st)
            r.N = {l: known(v) for l, v in r.N.items()}
            r.breaks = [(known(pc), {a: (v if v is None else known(v)) for a, v in s.items()}) for pc, s in r.breaks]
            r.returns = [(known(pc), s, v if v is None else known(v)) for pc, s, v in r.returns]
            r.exits = [(known(pc), kd, s) for pc, kd, s in r.exits]
            for e in r.events:
                e.pc = known(e.pc)
                e.args = tuple(known(x) if isinstance(x, V) else x for x in e.args)
            r.cont = known(r.cont)
            post = {q: known(v) for q, v in post.items()}
            after = subst(st, post)
            r.breaks = r.breaks + [(band(r.cont, bnot(after)), {a: known(v) if isinstance(v, V) else v for a, v in r.end.store.items()})]
            r.cont = band(r.cont, after)
            crest = subst(ci, {p: leaf(ixs(S, k))})
    if crest is not TRUE:
        r.breaks = list(r.breaks) + [(bnot(crest), r.start)]
    if c0 is FALSE:
        it.env = base
        return []
    if c0 is not TRUE:
        skip = Env(dict(base.store), band(base.pc, bnot(c0)))
        run = Env(dict(base.store), band(base.pc, c0))
        br = close(it, r, run, S, k, D, rev, {p: leaf(ixs(S, k))}, {loc: fin}, crest)
        return br + [(skip.pc, skip.store)]
    return close(it, r, base, S, k, D, rev, {p: leaf(ixs(S, k))}, {loc: fin}, crest)


def while_domain(it, r):
    """Canonical domain of a loop known only by its step: iterations 0, 1, ... until the step's stop condition."""
    stop = ors([pc for pc, _ in r.breaks] + [x[0] for x in r.returns] + [x[0] for x in r.exits])
    cont = bnot(stop)
    N = {}
    for loc in r.W:
        n = strip_pre(r.N[loc])
        N[loc] = ite(cont, n, truth_t(r.pres[loc]) if kind_b(strip_pre(r.init[loc])) else leaf(r.pres[loc]))
    need = slice_of(r, N, pres_in(stop))
    order = fold_order(it, r, need, N)
    ren = fold_names(it, r, order)
    return mk('wloop', tuple(strip_pre(r.init[l]) for l in order), tuple(subst(N[l], ren) for l in order), subst(stop, ren), it.depth)


def slice_of(r, N, seed):
    """Loop-carried locations on which the terms of seed depend, directly or through the step."""
    byp = {p: l for l, p in r.pres.items()}
    need, todo = set(), list(seed)
    while todo:
        l = byp.get(todo.pop())
        if l is not None and l in N and l not in need:
            need.add(l)
            todo.extend(pres_in(N[l]))
    return need


def fold_order(it, r, locs, N):
    """An order of the loop-carried locations that does not depend on where the program declares them."""
    bs = {l: kind_b(strip_pre(r.init[l])) for l in locs}
    sym = lambda l, i: truth_t(mk('fpre', it.depth, i)) if bs[l] else leaf(mk('fpre', it.depth, i))
    gen = {r.pres[l]: sym(l, -1) for l in locs}
    stop = ors([pc for pc, _ in r.breaks] + [x[0] for x in r.returns] + [x[0] for x in r.exits])

    # symbols of outer loops are named afresh by every run
    for x in [stop] + [N[m] for m in locs]:
        for t in pres_in(x):
            if t not in gen:
                gen[t] = leaf(mk('fpre', it.depth, -3))

    def key(l):
        own = dict(gen)
        own[r.pres[l]] = sym(l, -2)
        # the role of the location in the loop first: what it starts from may still be a symbol of an outer loop
        return (subst(N[l], own).id, subst(stop, own).id, sorted(subst(N[m], own).id for m in locs), strip_pre(r.init[l]).id)
    return sorted([l for l in r.W if l in locs], key=key)


def fold_names(it, r, order):
    return {r.pres[l]: truth_t(mk('fpre', it.depth, i)) if kind_b(strip_pre(r.init[l])) else leaf(mk('fpre', it.depth, i))
            for i, l in enumerate(order)}


def pres_in(x):
    return {t for t in free(x) if t.op == 'pre'}


def find_domain(it, r):
    allp = set(r.pres.values())
    for loc in r.W:
        p = r.pres[loc]
        N = strip_pre(restrict(r.N[loc], r.cont)) if r.cont is not FALSE else None
        if N is None:
            N = strip_pre(r.N[loc])
        if N.var is not None:
            continue
        t = N.t
        step = None
        if t is t_add(p, I(1)):
            step = 1
        elif t is t_add(p, I(-1)):
            step = -1
        if step is None:
            if r.cont is FALSE:
                # the body never reaches the increment: at most one iteration; still need a domain
                pass
            continue
        x0 = strip_pre(r.init[loc])
        # bound from the loop condition
        for i in sorted(support(r.c)):
            a = ATOMS[i]
            if a.op != 'lt' or p not in free(a):
                continue
            c0, dd = lin_of(a.a[0])
            kp = dd.get(p)
            if kp not in (1, -1):
                continue
            rest = {x: y for x, y in dd.items() if x is not p}
            if any(pres_in(x) & allp for x in rest):
                continue
            n = a.a[1]
            if kp == 1:
                bnd = mk_lin(n - c0, {x: -y for x, y in rest.items()})   # p < bnd
                less = True
            else:
                bnd = mk_lin(c0 - n, rest)                               # p > bnd
                less = False
            hi = cof(r.c, i, True)
            lo = cof(r.c, i, False)
            if step == 1:
                # c must imply p < B
                if less:
                    B = bnd
                    good, other = hi, lo
                else:
                    B = t_add(bnd, I(1))                                  # not (p > bnd)
                    good, other = lo, hi
                if not neq_rest(other, p, B, 1):
                    continue
                # p != B written as p < B or p > B
                good = drop_neq(good, p, B)
                return forward(it, r, loc, B, good, x0)
            else:
                if less:
                    A = bnd                                               # not (p < bnd): p >= bnd
                    good, other = lo, hi
                else:
                    A = t_add(bnd, I(1))                                  # p > bnd
                    good, other = hi, lo
                if not neq_rest(other, p, A, -1):
                    continue
                return backward(it, r, loc, A, good, x0)
    return None


def neq_rest(other, p, B, step):
    """The loop condition outside the bound is unreachable: false, or p beyond B (from p != B)."""
    if other is FALSE:
        return True
    L = t_add(p, B, -1)
    if step == 1:
        return implies(other, bnot(mk_lt(L, 1)))
    return implies(other, mk_lt(L, -1)) or implies(other, mk_lt(t_add(p, B, -1), 0))


def drop_neq(good, p, B):
    return good


def forward(it, r, loc, B, crest, x0):
    c0, d = lin_of(B)
    S = B
    if c0 < 0 and len(d) == 1:
        (x, kx), = d.items()
        if kx == 1 and nonneg(x):
            S = x
    elif c0 < 0:
        S = mk_lin(0, d)
    k = fresh_k(it, S, None)
    b = ixs(S, k)
    D = TRUE
    if S is not B:
        D = mk_lt(t_add(b, B, -1), 0)
    D = band(D, bnot(v_lt(leaf(b), x0)))
    fin = ite(v_lt(x0, leaf(B)), leaf(B), x0)
    # the remaining condition given the bound
    return loc, S, k, D, False, subst(crest, {r.pres[loc]: leaf(b)}) if crest is not TRUE else TRUE, fin, crest


def backward(it, r, loc, A, crest, x0):
    if x0.var is not None:
        return None
    top = x0.t                               # first index
    c0, d = lin_of(top)
    S = mk_lin(0, d) if c0 < 0 and d else t_add(top, I(1))
    k = fresh_k(it, S, None)
    b = ixs(S, k)
    D = bnot(mk_lt(t_add(b, top, -1), 1)) if False else mk_lt(t_add(b, top, -1), 1)
    D = band(D, bnot(mk_lt(t_add(b, A, -1), 0)))
    fin = ite(mk_lt(t_add(A, top, -1), 1), leaf(t_add(A, I(-1))), x0)
    return loc, S, k, D, True, subst(crest, {r.pres[loc]: leaf(b)}) if crest is not TRUE else TRUE, fin, crest


# ---------------------------------------------------------------------------------------------- erase-while-iterating
def find_erase(it, r):
    from interp import Env
    for loc in r.W:
        if r.cont is FALSE or r.breaks or r.returns or r.exits:
            continue
        p = r.pres[loc]
        N = strip_pre(r.N[loc])
        up = t_add(p, I(1))
        ls = leafset(N)
        if ls != {p, up}:
            continue
        keep = map1(lambda t: TRUE if t is up else FALSE, N)
        for c in r.W:
            if c is loc:
                continue
            q = r.pres[c]
            M = r.N[c]
            # the container, which may lie inside the location written
            its = leafset(r.init[loc])
            if len(its) != 1:
                continue
            at = next(iter(its))
            if at.op != 'iter' or at.a[0].op != 'lv' or at.a[0].a[0] is not c[0] or at.a[0].a[1][:len(c[1])] != c[1]:
                continue
            rel = tuple(at.a[0].a[1][len(c[1]):])
            qc = leaf(q)
            for s in rel:
                qc = proj(qc, s)
            if qc.var is not None:
                continue
            qc = qc.t
            er = leaf(mk('erase', qc, p))
            want_ = update(leaf(q), list(rel), lambda old: er) if rel else er
            if ite(keep, leaf(q), want_) is not M:
                continue
            if len(r.W) != 2 or any(e.kind != 'undefined' for e in r.events):
                continue
            sz = mk('size', qc)
            if r.c is not bnot(num_eq(p, sz)) and r.c is not mk_lt(t_add(p, sz, -1), 0):
                continue
            if strip_pre(r.init[loc]) is not iv(0):
                continue

            def fin(base, loc=loc, c=c, keep=keep, p=p, q=qc, rel=rel):
                env = base.clone()

                def one(t):
                    S = mk_size(t)
                    if S.var is not None or t.op in ('seq', 'set') and t.a[0] is None:
                        return filter_items(it, t, keep, p, q)
                    k = fresh_k(it, S.t, None)
                    b = ixs(S.t, k)
                    el = proj_t(t, mk('.at', b))
                    g = subst(keep, {mk('at', q, p): el}) if True else keep
                    g = subst(g, {p: leaf(b)})
                    if q in free(g):
                        return leaf(mk('opaque', 'erase loop', t))
                    return leaf(mk_seq('seq', None, mk_each(S.t, k, g, (mk('one', el),))))
                old = get_loc(base.store, c)
                for s in rel:
                    old = proj(old, s)
                v = map1(one, old)
                set_loc(env.store, (c[0], c[1] + rel), v)
                old = get_loc(base.store, loc)
                set_loc(env.store, loc, mapn(lambda x, n: leaf(mk('iter', x.a[0], n)), [old, v_size(v)]))
                it.env = env
                return []
            return fin
    return None


def filter_items(it, t, keep, p, q):
    """Items of a sequence term that satisfy keep (a predicate of at(q, p))."""
    elT = mk('at', q, p)

    def g_of(v):
        g = subst(keep, {elT: v}) if elT_free(keep, elT) else keep
        return g

    def fi(x):
        if x.op == 'one':
            g = replace_term(keep, elT, x.a[0])
            if q in free(g) or p in free(g):
                return [mk('one', leaf(mk('opaque', 'erase', x)))]
            return [mk('cond', g, (x,))]
        if x.op == 'cond':
            its = [z for y in x.a[1] for z in fi(y)]
            return [mk('cond', x.a[0], tuple(its))]
        S, k, g, its = x.a
        return mk_each(S, k, g, tuple(z for y in its for z in fi(y)))
    items = [z for x in t.a[1] for z in fi(x)]
    return leaf(mk_seq('seq', None, items))


def elT_free(v, t):
    return True


def replace_term(v, old, new):
    """Replace a (non-symbol) term by a value everywhere in v."""
    memo = {}

    def st(t):
        r = memo.get(t.id)
        if r is None:
            if t is old:
                r = new
            elif not occurs(old, t):
                r = leaf(t) if t.op not in ATOMOPS else atom(t)
            else:
                r = core.rebuild(t, sv_, st, {})
            memo[t.id] = r
        return r

    def sv_(x):
        if x.var is None:
            return st(x.t)
        return ite(st(ATOMS[x.var]), sv_(x.hi), sv_(x.lo))
    return sv_(v)


# ---------------------------------------------------------------------------------------------- closed forms
class Closed:
    """F(Q, b2): value after the iterations selected by Q(b2)."""

    def __init__(self, f):
        self.f = f

    def at(self, Q, b2, prior=None):
        return self.f(Q, b2)


def solve(it, S, k, b, p, N, x0, D, rev):
    ls0 = leaves(x0)
    boolish = all(t.op == 'b' for _, t in ls0)
    if len(ls0) > 1 and not boolish and not all(t.op == 'bs' for _, t in ls0):
        parts = []
        for g, t in ls0:
            c = solve(it, S, k, b, p, N, leaf(t), D, rev)
            if c is None:
                return None
            parts.append((g, c))

        def f(Q, b2):
            r = parts[-1][1].at(Q, b2)
            for g, c in reversed(parts[:-1]):
                r = ite(g, c.at(Q, b2), r)
            return r
        return Closed(f)
    if N is leaf(p) or boolish and N is truth_t(p):
        return Closed(lambda Q, b2: x0)

    r = solve_key(it, S, k, b, p, N, x0, D, rev)
    if r is not None:
        return r

    def ren(v, b2):
        return subst(v, {b: leaf(b2)})

    def pick(Q, b2, g):
        g = band(Q, ren(g, b2))
        return mk_last(S, b2.a[1], g) if not rev else mk_first(S, b2.a[1], g)

    def pickf(Q, b2, g):
        g = band(Q, ren(g, b2))
        return mk_first(S, b2.a[1], g) if not rev else mk_last(S, b2.a[1], g)

    def at_idx(v, idx):
        return map1(lambda t: subst(v, {b: leaf(t)}), idx)

    def boolean(A, B, X0, wrap):
        if p in free(A) or p in free(B):
            return None
        s1, s0, tog = band(A, B), band(bnot(A), bnot(B)), band(bnot(A), B)
        if band(D, tog) is not FALSE:
            return None
        if band(D, s0) is FALSE:
            return Closed(lambda Q, b2: wrap(bor(X0, mk_ex(S, b2.a[1], band(Q, ren(s1, b2))))))
        if band(D, s1) is FALSE:
            return Closed(lambda Q, b2: wrap(band(X0, bnot(mk_ex(S, b2.a[1], band(Q, ren(s0, b2)))))))
        asg = bor(s1, s0)

        def f(Q, b2):
            e = mk_ex(S, b2.a[1], band(Q, ren(asg, b2)))
            return wrap(ite(e, at_idx(restrict(s1, asg), pick(Q, b2, asg)), X0))
        return Closed(f)

    if boolish and all(t.op == 'b' for t in leafset(N)):
        ta = mk('tr', p)
        i = core._atomidx.get(ta)
        if i is None:
            return None
        return boolean(cof(N, i, True), cof(N, i, False), x0, lambda v: v)
    nls = leafset(N)
    if any(t.op == 'bs' for t in nls) or all(t.op == 'bs' for _, t in ls0):
        if all(t is p or t.op == 'bs' or p not in free(t) for t in nls):
            NB = map1(bits_of, N)
            bt = mk('bit', p, BETA)
            i = core._atomidx.get(bt)
            if i is None:
                return None
            X0 = map1(bits_of, x0)
            return boolean(cof(NB, i, True), cof(NB, i, False), X0, lambda v: mk_bs(v, core.NBITS))
    x0t = x0.t if x0.var is None else None
    return solve_leaves(it, S, k, b, p, N, x0, x0t, D, rev, ren, pick, pickf, at_idx)


def solve_key(it, S, k, b, p, N, x0, D, rev):
    """A JSON object of which the loop only extends the list at one constant key."""
    if x0.var is not None or x0.t.op != 'obj':
        return None
    key = None
    for t in leafset(N):
        if t is p:
            continue
        if t.op == 'obj':
            if any(c.op == 'str' for c, _ in t.a[0]) and len(t.a[0]) == 1 and not x0.t.a[0]:
                kk = t.a[0][0][0]
            else:
                return None
        elif t.op == 'upd' and t.a[0] is p and len(t.a[1]) == 1 and t.a[1][0][0].op == '.key' and t.a[1][0][0].a[0].op == 'str':
            kk = t.a[1][0][0].a[0]
        else:
            return None
        if key is not None and key is not kk:
            return None
        key = kk
    if key is None:
        return None
    st = mk('.key', key)
    q = mk('pre', p.a[0], ('k', p.a[1]))
    pk = proj_t(p, st)
    if pk.var is not None:
        return None

    def f(t):
        if t is p:
            return leaf(q)
        v = t.a[1][0][1] if t.op == 'upd' else t.a[0][0][1]
        return replace_term(v, pk.t, leaf(q))
    NK = map1(f, N)
    hk = core._atomidx.get(mk('haskey', p, key))
    if hk is not None and hk in support(NK):
        A, B = cof(NK, hk, True), cof(NK, hk, False)

        def g(t):
            if t.op == 'seq' and t.a[0] is q:
                return leaf(mk_seq('seq', None, t.a[1]))
            return leaf(t)
        if map1(g, A) is not map1(g, B):
            return None
        NK = A
    if p in free(NK):
        return None
    c = solve(it, S, k, b, q, NK, proj(x0, st), D, rev)
    if c is None:
        return None
    return Closed(lambda Q, b2: mapn(lambda x, v: update(leaf(x), [st], lambda old: leaf(v)), [x0, c.at(Q, b2)]))


def solve_leaves(it, S, k, b, p, N, x0, x0t, D, rev, ren, pick, pickf, at_idx):
    # p == v where both alternatives give the same value
    for i in sorted(support(N)):
        a = ATOMS[i]
        if a.op == 'eq' and p in a.a:
            v = a.a[0] if a.a[1] is p else a.a[1]
            if p in free(v):
                continue
            hi, lo = cof(N, i, True), cof(N, i, False)
            if leafset(hi) | leafset(lo) <= {p, v} and i not in support(lo):
                N = lo
    ls = leaves(N)
    guards_p = any(p in free(g) for g, _ in ls)
    if not guards_p:
        kinds = []
        for g, t in ls:
            g = band(g, D)
            if g is FALSE:
                continue
            if t is p:
                kinds.append((g, 'keep', None))
                continue
            if p not in free(t):
                kinds.append((g, 'set', t))
                continue
            c, d = lin_of(t)
            if t.op == 'lin' and d.get(p) == 1:
                rest = mk_lin(c, {x: y for x, y in d.items() if x is not p})
                if p not in free(rest):
                    kinds.append((g, 'add', rest))
                    continue
            if t.op in ('seq', 'set') and t.a[0] is p and not any(p in free(x) for x in t.a[1]):
                kinds.append((g, 'app' + t.op, t.a[1]))
                continue
            if t.op == 'cat' and t.a[0][0] is p and not any(p in free(x) for x in t.a[0][1:]):
                kinds.append((g, 'cat', t.a[0][1:]))
                continue
            return None
        ks = {x[1] for x in kinds} - {'keep'}
        if not ks:
            return Closed(lambda Q, b2: x0)
        sets = [(g, t) for g, kd, t in kinds if kd == 'set']
        sg = ors(g for g, _ in sets)
        sval = None
        if sets:
            sval = leaf(sets[-1][1])
            for g, t in sets[:-1]:
                sval = ite(g, leaf(t), sval)

        def with_reset(base):
            """base(Q, x): accumulation from x; the last assignment starts it again."""
            if not sets:
                return Closed(lambda Q, b2: base(Q, b2, x0))

            def f(Q, b2):
                e = mk_ex(S, b2.a[1], band(Q, ren(sg, b2)))
                idx = pick(Q, b2, sg)
                start = at_idx(sval, idx)
                if base is None:
                    return ite(e, start, x0)

                def later(ti):
                    L = t_add(ti, b2, -1)
                    return mk_lt(L, 0) if not rev else bnot(mk_lt(L, 1))
                return ite(e, map1(lambda ti: base(band(Q, later(ti)), b2, start), idx), base(Q, b2, x0))
            return Closed(f)
        if ks == {'set'}:
            return with_reset(None)
        if ks <= {'set', 'add'}:
            d = iv(0)
            for g, kd, t in kinds:
                if kd == 'add':
                    d = ite(g, leaf(t), d)

            def base(Q, b2, x):
                return v_add(x, mk_sum(S, b2.a[1], Q, ren(d, b2)))
            return with_reset(base)
        for op in ('seq', 'set'):
            if ks <= {'set', 'app' + op}:
                conds = [(g, its) for g, kd, its in kinds if kd == 'app' + op]

                def base(Q, b2, x, op=op, conds=conds):
                    items = []
                    if len(conds) == 1:
                        g, its = conds[0]
                        items = mk_each(S, b2.a[1], band(Q, ren(g, b2)), tuple(subst_item(y, {b: leaf(b2)}) for y in its))
                    else:
                        inner = tuple(mk('cond', ren(g, b2), tuple(subst_item(y, {b: leaf(b2)}) for y in its)) for g, its in conds)
                        inner = tuple(y for y in merge_conds(inner, Q))
                        items = mk_each(S, b2.a[1], Q, inner)
                    if rev:
                        items = [mk('rev', y) if False else y for y in items]
                        if items:
                            return leaf(mk('opaque', 'reversed append', *[leaf(mk('seqitems', tuple(items)))]))

                    def g2(t):
                        if t.op == op:
                            return leaf(mk_seq(op, t.a[0], t.a[1] + tuple(items)))
                        return leaf(mk_seq(op, None if t is EMPTYOBJ else t, tuple(items)))
                    return map1(g2, x)
                return with_reset(base)
        if ks == {'cat'}:
            x = sv('')
            for g, kd, t in kinds:
                if kd == 'cat':
                    piece = sv('')
                    for y in t:
                        piece = v_cat(piece, leaf(y))
                    x = ite(g, piece, x)
            if rev:
                return None

            def f(Q, b2):
                return v_cat(x0, mk_catall(S, b2.a[1], Q, ren(x, b2)))
            return Closed(f)
        return None
    # dedupe of consecutive pushes: push v unless the last pushed element equals v
    r = solve_dedupe(it, S, b, p, N, x0, D, rev, ren)
    if r is not None:
        return r
    # two-state automaton: the guards look at the location only through conditions that are settled by the first write
    PA = [i for i in sorted(support(N)) if p in free(ATOMS[i])]
    N0 = N
    for i in PA:
        v = subst(atom(ATOMS[i]), {p: x0})
        if v is TRUE:
            N0 = cof(N0, i, True)
        elif v is FALSE:
            N0 = cof(N0, i, False)
        else:
            return None
    l0 = leaves(N0)
    A0 = FALSE
    v0 = None
    for g, t in l0:
        if t is p:
            continue
        if t.op in ('seq', 'set') and t.a[0] is p and x0t is not None:
            base = x0t
            t = mk_seq(t.op, base.a[0], base.a[1] + t.a[1]) if base.op == t.op else mk_seq(t.op, base, t.a[1])
        if p in free(t):
            return None
        A0 = bor(A0, g)
        v0 = leaf(t) if v0 is None else ite(g, leaf(t), v0)
    if v0 is None:
        return Closed(lambda Q, b2: x0)
    if p in free(A0) or p in free(v0):
        return None
    N1 = N
    G0 = band(A0, D)
    val1 = {}
    for i in PA:
        v = restrict(subst(atom(ATOMS[i]), {p: v0}), G0)
        if band(G0, bnot(v)) is FALSE:
            N1 = cof(N1, i, True)
            val1[i] = TRUE
        elif band(G0, v) is FALSE:
            N1 = cof(N1, i, False)
            val1[i] = FALSE
        else:
            return None
    A1 = FALSE
    v1 = None
    for g, t in leaves(N1):
        if t is p:
            continue
        if p in free(t):
            return None
        A1 = bor(A1, g)
        v1 = leaf(t) if v1 is None else ite(g, leaf(t), v1)
    if p in free(A1) or (v1 is not None and p in free(v1)):
        return None
    if v1 is not None:
        G1 = band(A1, D)
        for i in PA:
            v = subst(atom(ATOMS[i]), {p: v1})
            if band(G1, v if val1[i] is FALSE else bnot(v)) is not FALSE:
                return None

    def f(Q, b2):
        e = mk_ex(S, b2.a[1], band(Q, ren(A0, b2)))
        idx = pickf(Q, b2, A0)
        first = at_idx(restrict(v0, G0), idx)
        if v1 is None:
            return ite(e, first, x0)

        def later(ti):
            L = t_add(ti, b2, -1)
            g = mk_lt(L, 0) if not rev else bnot(mk_lt(L, 1))
            q2 = band(Q, g)
            e2 = mk_ex(S, b2.a[1], band(q2, ren(A1, b2)))
            return ite(e2, at_idx(restrict(v1, band(A1, D)), pick(q2, b2, A1)), first)
        if A1 is A0 and v1 is v0:
            return ite(e, at_idx(restrict(v0, G0), pick(Q, b2, A0)), x0)
        return ite(e, map1(later, idx), x0)
    return Closed(f)


def merge_conds(items, Q):
    return items


def solve_dedupe(it, S, b, p, N, x0, D, rev, ren):
    if rev or not (x0.var is None and x0.t in (EMPTYSEQ,)):
        return None
    ls = leaves(N)
    if len(ls) != 2:
        return None
    push = [(g, t) for g, t in ls if t is not p]
    if len(push) != 1:
        return None
    g, t = push[0]
    if t.op != 'seq' or t.a[0] is not p or len(t.a[1]) != 1 or t.a[1][0].op != 'one':
        return None
    v = t.a[1][0].a[0]
    if p in free(v) or v.var is not None:
        return None
    back = mk('at', p, mk_lin(-1, {mk('size', p): 1}))
    emp = mk('empty', p)
    eqt = None
    for i in support(g):
        a = ATOMS[i]
        if a.op == 'eq' and back in a.a and v.t in a.a:
            eqt = i
    ei = core._atomidx.get(emp)
    if eqt is None or ei is None:
        return None
    gE = cof(g, ei, True)
    gN = cof(g, ei, False)
    gT, gF = cof(gN, eqt, True), cof(gN, eqt, False)
    gE = cof(gE, eqt, False) if cof(gE, eqt, False) is cof(gE, eqt, True) else gE
    if p in free(gE) or p in free(gT) or p in free(gF) or gT is not FALSE or gE is not gF:
        return None
    G = gE

    def f(Q, b2):
        k3 = b2.a[1] + 1
        b3 = ixs(S, k3)
        before = band(band(subst(D, {b: leaf(b3)}), ren(G, b3)), mk_lt(t_add(b3, b2, -1), 0))
        e = mk_ex(S, k3, before)
        li = mk_last(S, k3, before)
        same = map1(lambda x: v_eq(subst(v, {b: leaf(x)}), ren(v, b2)), li)
        g2 = band(band(Q, ren(G, b2)), bnot(band(e, same)))
        return leaf(mk_seq('seq', None, mk_each(S, b2.a[1], g2, (mk('one', ren(v, b2)),))))
    return Closed(f)


def kind_b(v):
    return all(t.op == 'b' for t in leafset(v))


def close(it, r, base, S, k, D, rev, indmap, fins, crest, unknown=False):
    """Replace the loop by its effect."""
    from interp import Env, Event
    b = ixs(S, k)
    b2 = ixs(S, k + 40)
    fr = it.frames[-1]
    sb = (lambda v: subst(v, indmap)) if indmap else (lambda v: v)
    allp = set(r.pres.values())
    forms = {}
    pend = []
    init = {loc: strip_pre(r.init[loc]) for loc in r.W}
    N = {}
    for loc in r.W:
        if loc in fins:
            continue
        n = strip_pre(sb(r.N[loc]))
        ctx = band(D, sb(r.cont))
        if ctx is FALSE:
            n = leaf(r.pres[loc])        # never carried to another iteration
        else:
            n2 = restrict(n, ctx)
            if unknown:
                n = ite(sb(r.cont), n, truth_t(r.pres[loc]) if kind_b(init[loc]) else leaf(r.pres[loc]))
            elif len(support(n2)) <= len(support(n)):
                n = n2
        N[loc] = n
        pend.append(loc)
    k2 = b2.a[1]

    def prior_at(x):
        """Iterations before index term x."""
        L = t_add(b2, x, -1)
        return band(subst(D, {b: leaf(b2)}), mk_lt(L, 0) if not rev else bnot(mk_lt(L, 1)))
    Qp = prior_at(b)
    M = {}
    progress = True
    while pend and progress and not unknown:
        progress = False
        for loc in list(pend):
            p = r.pres[loc]
            n = subst(N[loc], M) if M else N[loc]
            others = (pres_in(n) & allp) - {p}
            if others:
                continue
            c = solve(it, S, k, b, p, n, init[loc], D, rev)
            if c is None:
                continue
            forms[loc] = c
            v = c.at(Qp, b2)
            M[p] = wrap_like(r.init[loc], v, inner=True)
            pend.remove(loc)
            progress = True
    rv_ = (lambda u: mk('backwards', u)) if rev else (lambda u: u)
    folds = {}
    if pend:
        it.note('loop-carried value without closed form at %s' % it.loc())
        cur = {loc: subst(N[loc], M) for loc in pend}
        M2 = {}
        for loc in pend:
            need = slice_of(r, cur, {r.pres[loc]})
            order = fold_order(it, r, need, cur)
            ren = fold_names(it, r, order)
            ren2 = dict(ren)
            ren2[b] = leaf(mk('fix', it.depth))
            Df = subst(D, ren2)
            steps = tuple(ite(Df, subst(cur[l], ren2), ren[r.pres[l]]) for l in order)
            inits = tuple(init[l] for l in order)
            i = order.index(loc)

            def f(u, i=i, inits=inits, steps=steps):
                return leaf(mk('fold', i, S, inits, steps, rv_(u), it.depth))
            folds[loc] = f
            forms[loc] = None
            M2[r.pres[loc]] = f(b)
        M.update(M2)
        # substitute into the already solved ones is not needed: they did not depend on these
    if M:
        sm = lambda v: subst(sb(v), M)
    else:
        sm = sb

    # ---- exits of the iteration
    stops = []
    for pc, st in r.breaks:
        stops.append(('break', pc, st, None))
    for pc, st, v in r.returns:
        stops.append(('ret', pc, st, v))
    for pc, kind, st in r.exits:
        stops.append((kind, pc, st, None))
    conds = [band(D, sm(pc)) for _, pc, _, _ in stops]
    stop = ors(conds)
    E = FALSE
    f = None
    if stop is not FALSE:
        E = mk_ex(S, k, stop) if S.op != 'wloop' else TRUE      # termination is not a concern here
        f = mk_first(S, k, stop) if not rev else mk_last(S, k, stop)

    def at_f(v):
        return map1(lambda t: subst(v, {b: leaf(t)}), f)
    # ---- state after normal completion
    after = Env(dict(base.store), band(base.pc, bnot(E)))
    Qall = subst(D, {b: leaf(b2)})
    for loc in r.W:
        if loc in fins:
            v = fins[loc]
        elif forms.get(loc) is not None:
            v = forms[loc].at(Qall, b2)
        else:
            end = folds[loc](mk('end'))
            v = ite(nonempty_dom(S), end, init[loc]) if S.op != 'wloop' else end
        set_loc(after.store, loc, wrap_like(r.init[loc], v))
    breaks = []
    for (kind, pc, st, val), g in zip(stops, conds):
        if g is FALSE:
            continue
        gf = at_f(restrict(g, stop)) if implies(stop, g) is False else TRUE
        if gf is FALSE:
            continue
        store = dict(base.store)
        for loc in r.W:
            v = sm(get_loc(st, loc))
            v = restrict(v, g)
            set_loc(store, loc, at_f(v))
        pcf = band(base.pc, band(E, gf))
        if kind == 'break':
            breaks.append((pcf, store))
        elif kind == 'ret':
            v2 = at_f(restrict(sm(val), g)) if val is not None else None
            fr.returns.append((pcf, store, v2))
        else:
            it.exits.append((pcf, kind, store))
    # ---- events
    if r.events:
        reached = TRUE
        if stop is not FALSE:
            L = t_add(b2, b, -1)
            reached = bnot(mk_ex(S, k2, band(subst(stop, {b: leaf(b2)}), mk_lt(L, 0) if not rev else bnot(mk_lt(L, 1)))))
        for ev in r.events:
            ev = apart(it, ev, S, k, sm)
            g = band(D, sm(ev.pc))
            if g is FALSE:
                continue
            if stop is not FALSE and implies(g, stop):
                g1 = at_f(restrict(g, stop)) if not implies(stop, g) else TRUE
                pcx = band(base.pc, band(E, g1))
                if pcx is FALSE:
                    continue
                args = tuple(at_f(restrict(sm(a), g)) for a in ev.args)
                loops = []
                bad = False
                for (S2, kk, D2, rv) in ev.loops:
                    s2 = at_f(sm(leaf(S2)))
                    if s2.var is not None:
                        bad = True
                        s2 = leaf(mk('opaque', 'domain', s2))
                    loops.append((s2.t, kk, at_f(sm(D2)), rv))
                ls = rebind(ev, sm, at_f)
                it.events.append(ls_event(it, ev, args, pcx, loops))
            else:
                gg = band(g, reached)
                loops = [(S, k, gg, rev)]
                for (S2, kk, D2, rv) in ev.loops:
                    s2 = sm(leaf(S2))
                    if s2.var is not None:
                        s2 = leaf(mk('opaque', 'domain', s2))
                    loops.append((s2.t, kk, sm(D2), rv))
                args = tuple(sm(a) for a in ev.args)
                it.events.append(Event(ev.kind, ev.name, args, base.pc, tuple(loops), ev.loc))
    it.env = after
    return breaks


def apart(it, ev, S, k, sm):
    """The event of a loop body with its inner indices renamed where one is the index of the loop itself."""
    from interp import Event

    def clash(S2, kk):
        v = sm(leaf(S2))
        return kk == k and (v.var is not None or v.t is S)
    if not any(clash(x[0], x[1]) for x in ev.loops):
        return ev
    new = max([k] + [x[1] for x in ev.loops] + [x[1] for x in it.loopstack]) + 1
    m, loops = {}, []
    for S2, kk, D2, rv in ev.loops:
        v = subst(leaf(S2), m) if m else leaf(S2)
        S3 = v.t if v.var is None else S2
        if clash(S2, kk):
            m[ixs(S2, kk)] = leaf(ixs(S3, new))
            kk, new = new, new + 1
        elif S3 is not S2:
            m[ixs(S2, kk)] = leaf(ixs(S3, kk))
        loops.append((S3, kk, subst(D2, m) if m else D2, rv))
    return Event(ev.kind, ev.name, tuple(subst(a, m) if isinstance(a, V) else a for a in ev.args), ev.pc, tuple(loops), ev.loc)


def rebind(ev, sm, at_f):
    return None


def ls_event(it, ev, args, pc, loops):
    from interp import Event
    return Event(ev.kind, ev.name, args, pc, tuple(loops), ev.loc)


def wrap_like(init, v, inner=False):
    """Put the iterator around a position again (not when substituting for the pre symbol inside one)."""
    if inner:
        return v
    ls = leafset(init)
    if len(ls) == 1:
        t = next(iter(ls))
        if t.op == 'iter':
            return map1(lambda x: leaf(mk('iter', t.a[0], x)), v)
    return v
