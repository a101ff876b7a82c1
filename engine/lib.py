"""Models of the library operations the program uses."""
from core import *
import core
import streams
from ir import norm
from interp import lvv, lv_add, some, seq_of, Unsupported, root_v, RANGE, NUMBER

PLAIN = ('docopt::',)        # results are as good as inputs
LOGGER = ('spdlog::', 'MyLogger')


def ty(e, i=None):
    if i is not None:
        a = e.get('at') or []
        if i < len(a) and a[i]:
            return norm(a[i])
        return norm(e['args'][i].get('t') or '')
    return norm(e.get('t') or e.get('rt') or '')


def etype(x):
    return norm(x.get('t') or x.get('rt') or x.get('ty') or x.get('cls') or '').replace('const ', '').strip(' &')


def is_opt(t):
    t = t.replace('const ', '').strip()
    return t.startswith('boost::optional') or t.startswith('std::optional')


def is_char(t):
    return t.replace('const ', '').strip(' &') == 'char'


def strval(v, t):
    """Value appended to a string: characters become one-character strings."""
    if is_char(t):
        return map1(lambda x: sv(chr(x.a[0])) if x.op == 'int' else leaf(mk('app', 'chr', x)), v)
    return v


def arg_str(it, e, i):
    return strval(it.ev(e['args'][i]), etype(e['args'][i]) or ty(e, i))


def operands(e):
    return ([e['obj']] if e.get('obj') is not None else []) + list(e['args'])


def upper_t(t):
    if core.FOLD[0]:
        return leaf(t)
    if t.op == 'str':
        return sv(t.a[0].upper())
    return leaf(mk('app', 'upper', t))


def lower_t(t):
    if core.FOLD[0]:
        return leaf(t)
    if t.op == 'str':
        return sv(t.a[0].lower())
    if t.op == 'app' and t.a[0] == 'lower':
        return leaf(t)
    if t.op == 'cat':
        r = sv('')
        for p in t.a[0]:
            r = v_cat(r, lower_t(p))
        return r
    return leaf(mk('app', 'lower', t))


def affix_v(v, s, end):
    """Whether a text starts or ends with another."""
    def f(t, u):
        if u.op == 'str':
            c = u.a[0]
            if not c:
                return TRUE
            part = t if t.op == 'str' else t.a[0][-1 if end else 0] if t.op == 'cat' else None
            if part is not None and part.op == 'str':
                d = part.a[0]
                if (d.endswith(c) if end else d.startswith(c)):
                    return TRUE
                if t.op == 'str' or len(d) >= len(c) or not (c.endswith(d) if end else c.startswith(d)):
                    return FALSE
        return truth(leaf(mk('app', 'ends_with' if end else 'starts_with', t, u)))
    return mapn(f, [v, s])


def str_compare(a, b):
    e = v_eq(a, b)
    less = mapn(lambda x, y: truth(leaf(mk('app', 'before', x, y))), [a, b])
    return ite(e, iv(0), ite(less, iv(-1), iv(1)))


def gstruct(t):
    """Structure of a graph value: property writes do not change it."""
    while t.op == 'upd':
        t = t.a[0]
    if t.op in ('addv', 'adde'):
        return mk(t.op, gstruct(t.a[0]), *t.a[1:])
    return t


def append(v, op, items):
    def f(t):
        if t.op == 'undef':
            t = EMPTYSEQ if op == 'seq' else EMPTYSET
        if t.op == op:
            return leaf(mk_seq(op, t.a[0], t.a[1] + tuple(items)))
        if t.op == 'obj' and not t.a[0]:
            return leaf(mk_seq(op, None, tuple(items)))
        return leaf(mk_seq(op, t, tuple(items)))
    return map1(f, v)


def iter_of(l, pos):
    """iterators into the container at lv V l; pos a V"""
    return mapn(lambda x, p: leaf(mk('iter', x, p)), [l, pos])


def v_items(it, v, op='seq'):
    """items of a value, under conditions when it is a choice"""
    ls = leaves(v)
    if len(ls) == 1:
        return tuple(as_items(ls[0][1], op))
    return tuple(mk('cond', g, tuple(as_items(t, op))) for g, t in ls)


def range_value(it, b, e):
    """Container denoted by an iterator pair (values); only whole containers are recognised."""
    def f(x, y):
        if x.op == 'iter' and y.op == 'iter' and (x.a[0] is y.a[0] or temp(x.a[0]) and temp(y.a[0]) and
                                                  it.load(leaf(x.a[0])) is it.load(leaf(y.a[0]))):
            c = it.load(leaf(x.a[0]))
            if x.a[1] is I(0) and leaf(y.a[1]) is v_size(c):
                return c
            n = restrict(v_size(c), TRUE)
            return mapn(lambda c1: slice_t(c1, x.a[1], y.a[1]), [c])
        return leaf(mk('opaque', 'range', x, y))
    return mapn(f, [b, e])


def temp(l):
    return l.op == 'lv' and l.a[0].op == 'rt'


def slice_t(c, lo, hi):
    if lo is I(0) and leaf(hi) is mk_size(c):
        return leaf(c)
    if lo is hi:
        return leaf(EMPTYSEQ)
    S = mk_size(c)
    if c.op == 'seq' and c.a[0] is None and lo.op == 'int' and hi.op == 'int' and all(y.op == 'one' for y in c.a[1]):
        return leaf(mk_seq('seq', None, c.a[1][max(lo.a[0], 0):max(hi.a[0], 0)]))
    if S.var is not None or S.t.op == 'int':
        return leaf(mk('opaque', 'slice', c, lo, hi))
    S = S.t
    k = 0
    fr = free(c) | free(lo) | free(hi)
    while ixs(S, k) in fr:
        k += 1
    b = ixs(S, k)
    g = band(bnot(mk_lt(t_add(b, lo, -1), 0)), mk_lt(t_add(b, hi, -1), 0))
    return leaf(mk_seq('seq', None, mk_each(S, k, g, (mk('one', proj_t(c, mk('.at', b))),))))


def construct(it, e):
    fid = e.get('fid')
    f = it.pr.funcs.get(fid)
    cls = norm(e.get('cls') or e.get('ty') or '')
    args = e['args']
    if f is not None and f.get('body') is not None:
        if cls.startswith('MyLogger'):
            return leaf(UNDEF)
        rec = it.pr.records.get(cls)
        r0 = it.rec_default(rec) if rec else leaf(UNDEF)
        l = it.tmp(r0)
        bound = []
        for p, a in zip(f['params'], args):
            bound.append(('ref', it.lv(a)) if p.get('ref') or p.get('rref') else ('val', it.coerce(it.ev(a), p.get('t'))))
        name = norm(f['q'])
        if '%s/%d' % (name, len(bound)) in it.cut:
            named = it.cut_result('new ' + cls, [it.load(b[1]) if b[0] == 'ref' else b[1] for b in bound])
        else:
            named = None
        if name in it.pure_stop or name in it.stop or any(x is f for x in it.callstack):
            vals = [it.load(b[1]) if b[0] == 'ref' else b[1] for b in bound]
            return v_app('new ' + cls, vals)
        fr = it.new_frame(f, l)
        it.callstack.append(f)
        it.inlined.add((f['file'], name))
        # constructors of graph classes start from an empty graph
        if rec and any('adjacency_list' in (b if isinstance(b, str) else b.get('q', '')) for b in rec.get('bases') or []):
            it.env.store[l.t.a[0]] = leaf(mk('upd', mk('emptygraph'), tuple((mk('.f', n), v) for n, v in r0.t.a[1]))) \
                if r0.t.a[1] else leaf(mk('emptygraph'))
        it.run_body(fr, f['params'], bound, f['body'], name)
        it.callstack.pop()
        r = it.load(l)
        if named is not None:
            it.cutdefs[named.t] = ite(it.env.pc, r, it.cutdefs.get(named.t, r))
            return named
        return r
    if len(args) == 1 and cls.startswith('__gnu_cxx::__normal_iterator'):
        return it.ev(args[0])
    if cls in it.pr.records:
        if not args:
            return it.rec_default(it.pr.records[cls])
        if len(args) == 1:
            return it.ev(args[0])
    if cls.startswith('std::istreambuf_iterator'):
        if not args:
            return leaf(mk('str', '#end'))
        if streams.is_file(etype(args[0])) and streams.state(it, it.lv(args[0])) is not None:
            return streams.method(it, it.lv(args[0]), 'rdbuf', [], 'v')
        return it.ev(args[0])
    if streams.is_file(cls) or streams.is_text(cls):
        l = it.tmp(streams.fresh(cls))
        if args and streams.is_text(cls):
            if 'string' in etype(args[0]):
                it.assign(streams.field(it, l, 'text'), it.ev(args[0]))
        elif args:
            streams.open_(it, l, it.ev(args[0]), it.ev(args[1]) if len(args) > 1 else None)
        return it.load(l)
    if not args:
        if cls.startswith('std::tuple') or cls.startswith('std::pair'):
            return leaf(mk('tup', tuple(leaf(UNDEF) for _ in range(4))))
        return it.default_value(e.get('ty') or e.get('cls'))
    if is_opt(cls):
        v = it.ev(args[0])
        t = etype(args[0])
        if is_opt(t) or v is leaf(NONE) or 'nullopt' in t or 'none_t' in t or 'none_helper' in t:
            return leaf(NONE) if ('nullopt' in t or 'none_t' in t) else v
        if args[0]['k'] == 'init' and not args[0]['items']:
            return leaf(NONE)
        return wrap_some(v)
    if cls.startswith('std::pair') or cls.startswith('std::tuple'):
        if len(args) == 1 and (etype(args[0]).startswith('std::pair') or etype(args[0]).startswith('std::tuple')):
            return tuple_conv(it.ev(args[0]), targs(args[0].get('t') or args[0].get('rt') or args[0].get('ty') or args[0].get('cls')),
                              targs(e.get('ty') or e.get('cls')))
        want_ = targs(e.get('ty') or e.get('cls'))
        vals = [it.ev(a) for a in args]
        if len(want_) == len(vals):
            vals = [wrap_some(v) if is_opt(norm(w)) and not is_opt(etype(a)) and v is not leaf(NONE) and 'none_t' not in etype(a) and 'nullopt' not in etype(a)
                    else v for v, w, a in zip(vals, want_, args)]
        return leaf(mk('tup', tuple(vals)))
    if cls.startswith('std::basic_string'):
        if len(args) == 2 and is_char(etype(args[1])):
            n = it.ev(args[0])
            c = strval(it.ev(args[1]), 'char')
            return v_app('repeat', [n, c])
        if len(args) == 2 and 'istreambuf_iterator' in etype(args[0]):
            v = streams.contents(it.ev(args[0]))
            if v is not None:
                return v
        if len(args) == 2 and 'iterator' in etype(args[0]):
            return range_value(it, it.ev(args[0]), it.ev(args[1]))
        v = it.ev(args[0])
        if len(args) == 2 and v.var is None and v.t.op == 'iter':
            w = it.ev(args[1])
            if w.var is None and w.t.op == 'iter':
                return range_value(it, v, w)
        return v
    if 'basic_json' in cls:
        if e.get('ilist') or len(args) >= 1 and args[0]['k'] == 'init':
            its = args[0]['items'] if args[0]['k'] == 'init' else args
            return json_list(it, its)
        return map1(json_of, it.ev(args[0]))
    if 'json_ref' in cls and len(args) == 1 and args[0]['k'] == 'init':
        return json_list(it, args[0]['items'])
    if cls.startswith('std::vector') or cls.startswith('std::set') or cls.startswith('std::unordered_set'):
        op = 'seq' if 'vector' in cls else 'set'
        a0 = args[0]
        if a0['k'] == 'init' or a0['k'] == 'ctor' and 'initializer_list' in (a0.get('cls') or ''):
            its = a0['items'] if a0['k'] == 'init' else a0['args']
            return leaf(mk_seq(op, None, [mk('one', it.ev(x)) for x in its]))
        if len(args) >= 2 and ('iterator' in etype(a0) or 'Iterator' in etype(a0)):
            c = range_value(it, it.ev(args[0]), it.ev(args[1]))
            return leaf(mk_seq(op, None, v_items(it, c, op))) if op == 'set' else c
        if len(args) >= 1 and etype(a0) in ('int', 'unsigned long', 'size_t', 'unsigned int'):
            n = it.ev(a0)
            v = it.ev(args[1]) if len(args) > 1 and 'alloc' not in etype(args[1]) else leaf(UNDEF)
            return mapn(lambda x, y: leaf(mk('app', 'filled', x, y)), [n, v])
        return it.ev(a0)
    if cls.startswith('std::bitset'):
        v = it.ev(args[0])
        if v.var is None and v.t.op == 'int':
            n = v.t.a[0]
            return mk_bs(ors(mk_eq(BETA, I(i)) for i in range(core.NBITS) if n >> i & 1), core.NBITS)
        return v
    if cls.startswith('std::function'):
        return map1(lambda t: function_value(it, t), it.ev(args[0]))
    if cls.startswith('std::unique_ptr') or cls.startswith('std::shared_ptr') or \
            cls.startswith('boost::any') or cls.startswith('std::reference_wrapper'):
        return it.ev(args[0])
    if len(args) == 1:
        return it.ev(args[0])
    return v_app('new ' + cls, [it.ev(a) for a in args])


def json_of(t):
    """A container as a json value."""
    if t.op == 'emptymap':
        return leaf(EMPTYOBJ)
    if t.op == 'mupd' and t.a[0].op == 'emptymap' and all(k == 'set' for k, _, _ in t.a[1]):
        v = leaf(EMPTYOBJ)
        for _, k, x in t.a[1]:
            v = map1(lambda o: update(leaf(o), [mk('.key', k)], lambda old: x), v)
        return v
    return leaf(t)


def json_list(it, its):
    """The json value of a braced list: an object when every element is a pair that starts with a string, else an array."""
    its = [x['items'][0] if x['k'] == 'init' and len(x['items']) == 1 and 'json_ref' in (x.get('ty') or '') else x for x in its]

    def braced(x):
        if x['k'] == 'ctor' and 'json_ref' in norm(x.get('cls') or '') and len(x['args']) == 1:
            x = x['args'][0]
        if x['k'] == 'ctor' and 'initializer_list' in norm(x.get('cls') or x.get('ty') or '') and len(x['args']) == 1:
            x = x['args'][0]
        return x

    def pair(x):
        x = braced(x)
        if x['k'] != 'init':
            t = etype(x)
            if 'basic_json' in t or t.startswith(('std::vector', 'std::set', 'std::unordered_set', 'std::array', 'std::pair', 'std::tuple', 'std::list')):
                return None
            return False
        if len(x['items']) != 2:
            return False
        k = braced(x['items'][0])
        t = etype(k)
        if 'basic_json' in t:
            return None
        return k['k'] == 'str' or t.startswith(('std::basic_string', 'boost::flyweights')) or is_char(t.replace('*', '').strip())
    if not its:
        return leaf(EMPTYOBJ)
    what = [pair(x) for x in its]
    if False in what:
        return seq_of([it.ev(x) for x in its])
    if None in what:
        return it.opaque('braced json list whose kind depends on its elements')
    v = leaf(EMPTYOBJ)
    for x in its:
        k, y = (it.ev(z) for z in braced(x)['items'])
        has = mapn(mk_haskey, [v, k])
        nv = mapn(lambda a, b: update(leaf(a), [mk('.key', b)], lambda old: y), [v, k])
        v = nv if has is FALSE else ite(has, v, nv)
    return v


def function_value(it, t):
    """What calling a stored function does, as a value: the calls it makes and its result for arguments larg 0, larg 1, ..."""
    if t.op == 'clo':
        params = it.closures[t.a[0]][0]['params']
    elif t.op == 'fn':
        f = it.pr.funcs.get(t.a[1])
        if f is None:
            return leaf(t)
        params = f['params']
    else:
        return leaf(t)
    args = []
    for i, p in enumerate(params):
        args.append(('ref', it.tmp(leaf(mk('larg', i)))))
    env, events, exits, loops, assume, wlog = it.env, it.events, it.exits, it.loopstack, it.assume, it.wlog
    it.env, it.events, it.exits, it.loopstack, it.wlog = env.clone(), [], [], [], [set()]
    it.env.pc = TRUE
    before = dict(it.env.store)
    try:
        if t.op == 'clo':
            r = it.call_closure(t, args, params)
        else:
            r = it.enter(f, norm(f['q']), None, f['params'], args)
            r = None if (f.get('ret') or 'void') == 'void' else r
        evs, ok = it.events, not it.exits and it.assume is assume
        if any(k in before or k.op in ('rd', 'rg') for k, _ in it.wlog[0]):
            ok = False
    finally:
        it.env, it.events, it.exits, it.loopstack, it.assume, it.wlog = env, events, exits, loops, assume, wlog
    if not ok or any(e.loops for e in evs):
        return it.opaque('stored function with effects of its own')
    items = []
    for e in evs:
        x = mk('one', leaf(mk('rec', 'event', (('what', sv(e.kind + ' ' + e.name)),) + tuple(('a%d' % i, a) for i, a in enumerate(e.args)))))
        items.append(x if e.pc is TRUE else mk('cond', e.pc, (x,)))
    return leaf(mk('rec', 'function', (('does', leaf(mk_seq('seq', None, items))), ('result', r if r is not None else leaf(UNDEF)))))


def targs(t):
    """Template arguments of a type written out."""
    t = t or ''
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for c in t[i + 1:]:
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
            if d < 0:
                break
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + [cur.strip()]


def tuple_conv(v, have, want_):
    """std::tuple<int, A> converted to std::tuple<int, optional<A>> and the like."""
    if len(have) != len(want_):
        return v
    wrap = [i for i, (h, w) in enumerate(zip(have, want_)) if is_opt(norm(w)) and not is_opt(norm(h)) and 'none_t' not in h]
    if not wrap:
        return v

    def f(t):
        return leaf(mk('tup', tuple(wrap_some(proj_t(t, mk('.get', i))) if i in wrap else proj_t(t, mk('.get', i)) for i in range(len(want_)))))
    return map1(f, v)


def wrap_some(v):
    return map1(lambda t: leaf(mk('some', leaf(t))), v)


def tie_target(o):
    while o['k'] == 'cast':
        o = o['e']
    if o['k'] == 'call' and norm(o.get('fn') or '') in ('std::tie', 'boost::tie', 'boost::tuples::tie'):
        return o['args']
    if o['k'] == 'ctor' and len(o['args']) == 1:
        return tie_target(o['args'][0])
    return None


def libcall(it, e, fn, want):
    op = e.get('op')
    if fn.startswith(LOGGER) or fn in ('fmt::print',):
        return it.out(want, v=leaf(UNDEF))
    cls, _, m = fn.rpartition('::')
    if op:
        r = operator(it, e, fn, cls, op, want)
    elif e.get('conv'):
        r = conversion(it, e, fn, cls, want)
    elif e.get('obj') is not None:
        r = method(it, e, fn, cls, m, want)
    else:
        r = function(it, e, fn, m, want)
    if r is None:
        r = unknown(it, e, fn, want)
    return r


def unknown(it, e, fn, want):
    """Library call without a model: an uninterpreted pure function when nothing can be written through it."""
    if e.get('virtual') and fn.rsplit('::', 1)[0] in it.pr.records and e.get('obj') is not None:
        return it.virtual_call(e, fn, want)
    vals = []
    for a in operands(e):
        vals.append(it.ev(a))
    refs = e.get('refs') or []
    mut = False
    off = 1 if e.get('obj') is not None else 0
    if e.get('obj') is not None and not e.get('const') and not e.get('static') and not e.get('op'):
        mut = True
    it.note('no model for %s' % fn)
    if not fn or any(len(leaves(v)) > 16 for v in vals):
        r = it.opaque('call ' + (fn or '?'))
    else:
        r = v_app(fn, vals, op='app' if fn.startswith(PLAIN) and not mut and not any(refs) else 'xapp')
    for i, a in enumerate(e['args']):
        if i < len(refs) and refs[i]:
            it.assign(it.lv(a), it.opaque('written by ' + fn))
    if mut:
        it.assign(it.obj_lv(e), it.opaque('changed by ' + fn))
    return it.out(want, v=r)


# ---------------------------------------------------------------------------------------------- conversions
def conversion(it, e, fn, cls, want):
    if is_opt(cls) and fn.endswith('bool'):
        return it.out(want, v=map1(mk_has, it.load(it.obj_lv(e))))
    if cls.startswith(('std::shared_ptr', 'std::__shared_ptr', 'std::unique_ptr', 'std::bitset', 'std::atomic', 'std::__atomic_base')):
        v = it.load(it.obj_lv(e))
        if fn.endswith('bool'):
            v = truth(v)
        return it.out(want, v=v)
    if 'basic_json' in cls and fn.endswith('operator bool'):
        return it.out(want, v=truth(it.load(it.obj_lv(e))))
    if cls.startswith(('boost::flyweights', 'nlohmann', 'std::reference_wrapper', 'std::basic_string')):
        l = it.obj_lv(e)
        return it.out(want, lv=l)
    if fn.endswith('bool'):
        if cls.startswith('std::basic_'):
            r = streams.method(it, it.obj_lv(e), 'operator bool', [], want)
            if r is not None:
                return r
        return it.out(want, v=truth(v_app('bool', [it.load(it.obj_lv(e))], op='xapp')))
    return None


# ---------------------------------------------------------------------------------------------- operators
def operator(it, e, fn, cls, op, want):
    ops = operands(e)
    hasobj = e.get('obj') is not None
    n = len(ops)
    if op == '=' and n == 2:
        t = tie_target(ops[0])
        if t is not None:
            v = it.ev(ops[1])
            for i, x in enumerate(t):
                it.assign(it.lv(x), proj(v, mk('.get', i)))
            return it.out(want, v=leaf(UNDEF))
        rhs = ops[1]
        v = it.ev(rhs)
        if is_opt(cls):
            t = etype(rhs)
            if not (is_opt(t) or v is leaf(NONE) or (rhs['k'] == 'init' and not rhs['items'])):
                if 'none_t' in t or 'nullopt' in t:
                    v = leaf(NONE)
                else:
                    v = wrap_some(v)
            elif rhs['k'] == 'init' and not rhs['items']:
                v = leaf(NONE)
        elif 'bitset::reference' in fn:
            v = truth(v)
        elif cls.startswith('std::basic_string') and is_char(etype(rhs)):
            v = strval(v, 'char')
        elif 'basic_json' in cls and rhs['k'] == 'init' and not rhs['items']:
            v = leaf(EMPTYOBJ)
        l = it.obj_lv(e) if hasobj else it.lv(ops[0])
        it.assign(l, v)
        return it.out(want, lv=l)
    if op == '[]':
        l = it.obj_lv(e)
        if cls.startswith('boost::adjacency_list'):
            t = etype(e['args'][0])
            step = '.edge' if 'edge_desc' in t else '.vert'
            i = it.ev(e['args'][0])
            if step == '.edge':
                def fe(x, y):
                    return lv_add(leaf(x), mk('.edge', y))
                return it.out(want, lv=mapn(fe, [l, i]))
            return it.out(want, lv=mapn(lambda x, y: lv_add(leaf(x), mk('.vert', y)), [l, i]))
        i = it.ev(e['args'][0])
        if 'unordered_map' in cls or cls.startswith('std::map'):
            l2 = mapn(lambda x, y: lv_add(leaf(x), mk('.key', y)), [l, i])
            if want == 'v':
                return it.load(l2)
            return it.out(want, lv=l2)
        if 'basic_json' in cls:
            st = '.at' if etype(e['args'][0]) in ('int', 'unsigned long', 'size_t') else '.key'
            return it.out(want, lv=mapn(lambda x, y: lv_add(leaf(x), mk(st, y)), [l, i]))
        if cls.startswith('std::bitset'):
            return it.out(want, lv=mapn(lambda x, y: lv_add(leaf(x), mk('.bit', bitidx(y))), [l, i]))
        it.need_index(l, i, 1 if cls.startswith('std::basic_string') else 0)
        i = it.by_enumerator(e['args'][0], l, i)
        return it.out(want, lv=mapn(lambda x, y: lv_add(leaf(x), mk('.at', y)), [l, i]))
    if op in ('*', '->') and n == 1:
        if is_opt(cls):
            l = it.obj_lv(e) if hasobj else it.lv(ops[0])
            if it.safety:
                it.need('value of an empty optional', map1(mk_has, it.load(l)))
            l = lv_add(l, mk('.opt'))
        else:
            l = it.deref(it.ev(ops[0]))
        if op == '->':
            return it.out(want, v=map1(lambda t: leaf(mk('ptr', t)), l))
        return it.out(want, lv=l)
    if op in ('++', '--'):
        l = it.obj_lv(e) if hasobj else it.lv(ops[0])
        old = it.load(l)
        nv = it.step_by(old, 1 if op == '++' else -1)
        it.assign(l, nv)
        post = len(e['args']) == (1 if hasobj else 2)
        if 'atomic' in cls:
            it.event('atomic', op, (old,))
        return it.out(want, v=old) if post else it.out(want, lv=l)
    if op in ('+=', '-=', '&=', '|=', '^=') and n == 2:
        l = it.obj_lv(e) if hasobj else it.lv(ops[0])
        v = it.ev(ops[1])
        if op == '+=' and cls.startswith('std::basic_string'):
            v = strval(v, etype(ops[1]))
            it.store_lv(l, lambda old: v_cat(old, v))
        else:
            it.store_lv(l, lambda old: it.binop(op[:-1], old, v))
        return it.out(want, lv=l)
    if op == '+' and n == 2:
        a, b = it.ev(ops[0]), it.ev(ops[1])
        if fn == 'std::operator+':
            return it.out(want, v=v_cat(strval(a, etype(ops[0])), strval(b, etype(ops[1]))))
        return it.out(want, v=it.binop('+', a, b))
    if op == '-' and n == 2:
        return it.out(want, v=it.binop('-', it.ev(ops[0]), it.ev(ops[1])))
    if op in ('==', '!=', '<', '>', '<=', '>=') and n == 2:
        a, b = it.ev(ops[0]), it.ev(ops[1])
        ta, tb = etype(ops[0]), etype(ops[1])
        if is_opt(ta) and not is_opt(tb) and 'none' not in tb and 'nullopt' not in tb:
            b = wrap_some(b)
        if is_opt(tb) and not is_opt(ta) and 'none' not in ta and 'nullopt' not in ta:
            a = wrap_some(a)
        if ('none_t' in tb or 'nullopt' in tb):
            b = leaf(NONE)
        return it.out(want, v=it.binop(op, a, b))
    if op == '!' and n == 1:
        v = it.load(it.obj_lv(e)) if hasobj else it.ev(ops[0])
        if is_opt(cls):
            return it.out(want, v=bnot(map1(mk_has, v)))
        if cls.startswith('std::basic_') and hasobj:
            r = streams.method(it, it.obj_lv(e), 'operator!', [], want)
            if r is not None:
                return r
        return it.out(want, v=bnot(truth(v)))
    if op in ('&', '|', '^') and n == 2:
        return it.out(want, v=it.binop(op, it.ev(ops[0]), it.ev(ops[1])))
    if op == '~' and n == 1:
        return it.out(want, v=map1(lambda t: mk_bs(bnot(bits_of(t)), core.NBITS), it.ev(ops[0])))
    if op == '<<' and n == 2:
        l = it.lv(ops[0])
        v = it.ev(ops[1])
        sname = stream_name(ops[0])
        if sname in streams.CONSOLE:
            return it.out(want, lv=l)
        if streams.write(it, l, streams.rendered(it, ops[1], v)):
            return it.out(want, lv=l)
        it.event('write', sname, (v,))
        return it.out(want, lv=l)
    if op == '>>' and n == 2:
        l = it.lv(ops[0])
        if streams.state(it, l) is not None and 'basic_json' in etype(ops[1]):
            it.assign(it.lv(ops[1]), streams.parsed(it, l))
            return it.out(want, lv=l)
    if op == '()':
        f = it.ev(e['obj'])
        return apply_fn(it, f, e['args'], want)
    return None


def stream_name(o):
    while o['k'] == 'call' and o.get('op') == '<<':
        o = operands(o)[0]
    if o['k'] == 'var':
        return o.get('g') or o.get('n')
    return o['k']


def apply_fn(it, f, args, want):
    """Call of a function object; args are expressions."""
    def one(t):
        if t.op == 'clo':
            lam, _ = it.closures[t.a[0]]
            bound = []
            for p, a in zip(lam['params'], args):
                bound.append(('ref', it.lv(a)) if p.get('ref') or p.get('rref') else ('val', it.coerce(it.ev(a), p.get('t'))))
            r = it.call_closure(t, bound, None)
            return r if r is not None else leaf(UNDEF)
        if t.op == 'fn':
            g = it.pr.funcs.get(t.a[1])
            if g is not None and g.get('body'):
                r = it.call_repo({'args': args, 'k': 'call', 'fn': t.a[0]}, g, 'v')
                return r
        vals = [it.ev(a) for a in args]
        it.event('call', 'apply', (leaf(t),) + tuple(vals))
        return v_app('apply', [leaf(t)] + vals)
    r = it.cases(f, one)
    return it.out(want, v=r)


def apply_vals(it, f, vals):
    """Call of a function object on values (algorithms); parameters taken by reference get temporaries."""
    def one(t):
        if t.op == 'clo':
            lam, _ = it.closures[t.a[0]]
            bound = []
            for p, v in zip(lam['params'], vals):
                bound.append(('ref', it.tmp(v)) if p.get('ref') or p.get('rref') else ('val', v))
            r = it.call_closure(t, bound, None)
            return r if r is not None else leaf(UNDEF)
        if t.op == 'fn':
            g = it.pr.funcs.get(t.a[1])
            if g is not None and g.get('body'):
                fr = it.new_frame(g)
                bound = [('ref', it.tmp(v)) if p.get('ref') else ('val', v) for p, v in zip(g['params'], vals)]
                it.callstack.append(g)
                r = it.run_body(fr, g['params'], bound, g['body'], norm(g['q']))
                it.callstack.pop()
                return r if r is not None else leaf(UNDEF)
        return v_app('apply', [leaf(t)] + vals)
    return it.cases(f, one)


# ---------------------------------------------------------------------------------------------- methods
def method(it, e, fn, cls, m, want):
    args = e['args']
    c = cls
    if m in ('enqueue',) and 'ConcurrentQueue' in c:
        o = it.obj_lv(e)
        it.event('enqueue', lv_name(o), (it.ev(args[-1]),))
        return it.out(want, v=TRUE)
    if 'ConcurrentQueue' in c:
        it.event('queue', m, ())
        if m in ('try_dequeue',):
            it.assign(it.lv(args[0]), it.opaque('dequeued'))
        return it.out(want, v=it.opaque('queue ' + m))
    if is_opt(c):
        l = it.obj_lv(e)
        if m in ('get', 'value'):
            if it.safety:
                it.need('value of an empty optional', map1(mk_has, it.load(l)), throws=('bad_optional_access',) if m == 'value' else ())
            return it.out(want, lv=lv_add(l, mk('.opt')))
        if m in ('has_value', 'is_initialized'):
            return it.out(want, v=map1(mk_has, it.load(l)))
        if m in ('get_value_or', 'value_or'):
            v = it.load(l)
            d = it.ev(args[0])
            return it.out(want, v=ite(map1(mk_has, v), proj(v, mk('.opt')), d))
        if m == 'get_ptr':
            return None
        if m == 'reset' and not args:
            it.assign(l, leaf(NONE))
            return it.out(want, v=leaf(UNDEF))
        if m == 'emplace' and len(args) == 1:
            it.assign(l, wrap_some(it.ev(args[0])))
            return it.out(want, lv=lv_add(l, mk('.opt')))
        return None
    if c.startswith('boost::flyweights') and m == 'get':
        return it.out(want, lv=it.obj_lv(e))
    if c.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::reference_wrapper')):
        if m == 'get':
            return it.out(want, v=it.load(it.obj_lv(e)))
        return None
    if 'atomic' in c and m in ('load', 'fetch_add', 'store', 'exchange'):
        l = it.obj_lv(e)
        old = it.load(l)
        if m == 'fetch_add':
            it.assign(l, v_add(old, it.ev(args[0])))
        if m == 'store':
            it.assign(l, it.ev(args[0]))
        return it.out(want, v=old)
    if c.startswith('std::bitset'):
        return bitset_method(it, e, m, args, want)
    if 'basic_json' in c:
        return json_method(it, e, m, args, want)
    if 'unordered_map' in c or c.startswith('std::map'):
        return map_method(it, e, m, args, want)
    if c.startswith(('std::set', 'std::unordered_set', 'boost::unordered::unordered_set')):
        return set_method(it, e, m, args, want)
    if c.startswith('std::basic_string') or c.startswith('std::vector') or c.startswith('std::initializer_list') or c.startswith('std::array') \
            or c.startswith('std::list') or c.startswith('std::deque') or c.startswith('boost::iterator_range'):
        return seq_method(it, e, c, m, args, want)
    if c.startswith(('std::basic_ios', 'std::basic_of', 'std::basic_if', 'std::basic_fs', 'std::basic_os', 'std::basic_is', 'std::basic_stringstream', 'std::ios_base')):
        return streams.method(it, it.obj_lv(e), m, args, want)
    if c.startswith('std::thread'):
        it.event('thread', m, ())
        return it.out(want, v=leaf(UNDEF))
    return None


def lv_name(l):
    """Channel name of the object an event acts on."""
    def f(t):
        if t.op != 'lv':
            return '?'
        r = t.a[0]
        n = {'ra': 'arg', 'rg': 'global', 'rv': 'local', 'rt': 'tmp', 'rd': 'deref'}.get(r.op, r.op)
        if r.op in ('ra', 'rg'):
            n += str(r.a[0])
        if r.op == 'rd':
            n = 'deref ' + show(r.a[0])
        for s in t.a[1]:
            n += s.op + (str(s.a[0]) if s.a and isinstance(s.a[0], str) else '')
        return n
    ls = leafset(l)
    return '|'.join(sorted(f(t) for t in ls))


def bitset_method(it, e, m, args, want):
    l = it.obj_lv(e)
    v = it.load(l)
    n = core.NBITS

    def allbits(f):
        it.assign(l, f)
        return it.out(want, lv=l)
    if m == 'count':
        return it.out(want, v=map1(lambda t: bs_count(bits_of(t), n), v))
    if m == 'any':
        return it.out(want, v=map1(lambda t: bs_any(bits_of(t), n), v))
    if m == 'none':
        return it.out(want, v=bnot(map1(lambda t: bs_any(bits_of(t), n), v)))
    if m == 'all':
        return it.out(want, v=bnot(map1(lambda t: bs_any(bnot(bits_of(t)), n), v)))
    if m == 'test':
        i = it.ev(args[0])
        return it.out(want, v=mapn(lambda t, x: proj_t(t, mk('.bit', bitidx(x))), [v, i]))
    if m == 'size':
        return it.out(want, v=iv(n))
    if m == 'set' and not args:
        return allbits(mk_bs(TRUE, n))
    if m == 'reset' and not args:
        return allbits(mk_bs(FALSE, n))
    if m == 'flip' and not args:
        return allbits(map1(lambda t: mk_bs(bnot(bits_of(t)), n), v))
    if m in ('set', 'reset', 'flip'):
        i = it.ev(args[0])
        val = FALSE if m == 'reset' else (truth(it.ev(args[1])) if len(args) > 1 else TRUE)
        l2 = mapn(lambda x, y: lv_add(leaf(x), mk('.bit', bitidx(y))), [l, i])
        if m == 'flip':
            val = bnot(it.load(l2))
        it.assign(l2, val)
        return it.out(want, lv=l)
    return None


def json_method(it, e, m, args, want):
    l = it.obj_lv(e)
    if m in ('push_back', 'emplace_back'):
        a = args[0]
        while a['k'] == 'ctor' and 'initializer_list' in norm(a.get('cls') or a.get('ty') or '') and len(a['args']) == 1:
            a = a['args'][0]
        v = json_list(it, a['items']) if a['k'] == 'init' else it.ev(a)
        it.store_lv(l, lambda old: append(old, 'seq', [mk('one', v)]))
        return it.out(want, v=leaf(UNDEF))
    if m == 'emplace' and len(args) == 2:
        k, val, v = it.ev(args[0]), it.ev(args[1]), it.load(l)
        has = mapn(mk_haskey, [v, k])
        it.assign(l, ite(has, v, mapn(lambda x, y: update(leaf(x), [mk('.key', y)], lambda old: val), [v, k])))
        return it.out(want, v=leaf(mk('tup', (it.opaque('json position'), bnot(has)))) if want != 'none' else leaf(UNDEF))
    if m in ('find', 'count', 'contains', 'at', 'value'):
        k = it.ev(args[0])
        v = it.load(l)
        if m == 'at':
            return it.out(want, lv=mapn(lambda x, y: lv_add(leaf(x), mk('.key', y)), [l, k]))
        has = mapn(mk_haskey, [v, k])
        if m == 'find':
            return it.out(want, v=ite(has, mapn(lambda x, y: leaf(mk('iter', x, mk('kjson', y))), [l, k]), iter_of(l, v_size(v))))
        if m == 'value':
            return it.out(want, v=ite(has, mapn(lambda x, y: proj_t(x, mk('.key', y)), [v, k]), it.ev(args[1])))
        return it.out(want, v=has if m == 'contains' else ite(has, iv(1), iv(0)))
    if m == 'end' or m == 'cend':
        return it.out(want, v=iter_of(l, v_size(it.load(l))))
    if m in ('begin', 'cbegin'):
        return it.out(want, v=iter_of(l, iv(0)))
    if m == 'size':
        return it.out(want, v=v_size(it.load(l)))
    if m in ('empty', 'is_null'):
        return it.out(want, v=v_empty(it.load(l)))
    if m == 'get':
        return it.out(want, lv=l)
    if m == 'get_to':
        it.assign(it.lv(args[0]), it.load(l))
        return it.out(want, v=leaf(UNDEF))
    if m == 'dump':
        h = it.ev(args[3]) if len(args) > 3 else None
        if h is None or any(t.op == 'enum' and t.a[-1] == 0 for t in leafset(h)):
            streams.strict(it)
        # whether the text is spread over lines; how far they are indented is presentation
        n = it.ev(args[0]) if args else iv(-1)
        return it.out(want, v=ite(v_lt(n, iv(0)), v_app('dump', [it.load(l)]), v_app('dump over lines', [it.load(l)])))
    if m == 'items':
        return it.out(want, lv=l)
    if m == 'clear':
        it.assign(l, leaf(EMPTYOBJ))
        return it.out(want, v=leaf(UNDEF))
    if m.startswith('is_'):
        return it.out(want, v=truth(v_app(m, [it.load(l)])))
    return None


def map_method(it, e, m, args, want):
    l = it.obj_lv(e)
    v = it.load(l)
    if m == 'find':
        k = it.ev(args[0])
        has = mapn(mk_haskey, [v, k])
        return it.out(want, v=ite(has, mapn(lambda x, y: leaf(mk('iter', x, mk('kpos', y))), [l, k]), iter_of(l, v_size(v))))
    if m in ('count', 'contains'):
        k = it.ev(args[0])
        has = mapn(mk_haskey, [v, k])
        return it.out(want, v=has if m == 'contains' else ite(has, iv(1), iv(0)))
    if m == 'at':
        k = it.ev(args[0])
        it.need('key that is not there', mapn(mk_haskey, [v, k]), throws=RANGE)
        return it.out(want, lv=mapn(lambda x, y: lv_add(leaf(x), mk('.key', y)), [l, k]))
    if m in ('end', 'cend'):
        return it.out(want, v=iter_of(l, v_size(v)))
    if m in ('begin', 'cbegin'):
        return it.out(want, v=iter_of(l, iv(0)))
    if m == 'size':
        return it.out(want, v=v_size(v))
    if m == 'empty':
        return it.out(want, v=v_empty(v))
    if m in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
        if m == 'insert':
            p = it.ev(args[0])
            k, val = proj(p, mk('.get', 0)), proj(p, mk('.get', 1))
        else:
            k, val = it.ev(args[0]), it.ev(args[1]) if len(args) > 1 else leaf(UNDEF)
        has = mapn(mk_haskey, [v, k])
        nv = mapn(lambda x, y: update(leaf(x), [mk('.key', y)], lambda old: val), [v, k])
        r = ite(has, v, nv) if m != 'insert_or_assign' else nv
        it.assign(l, r)
        pos = mapn(lambda x, y: leaf(mk('iter', x, mk('kpos', y))), [l, k])
        return it.out(want, v=leaf(mk('tup', (pos, bnot(has)))))
    if m == 'erase':
        k = it.ev(args[0])
        key = map1(lambda t: leaf(t.a[1].a[0]) if t.op == 'iter' and t.a[1].op == 'kpos' else leaf(t), k)

        def f(x, y):
            base, items = x.a if x.op == 'mupd' else (x, ())
            return leaf(mk('mupd', base, items + (('del', y, None),)))
        it.assign(l, mapn(f, [v, key]))
        return it.out(want, v=leaf(UNDEF))
    if m == 'clear':
        it.assign(l, leaf(mk('emptymap')))
        return it.out(want, v=leaf(UNDEF))
    return None


def set_method(it, e, m, args, want):
    l = it.obj_lv(e)
    v = it.load(l)
    if m in ('insert', 'emplace'):
        if len(args) == 1:
            x = it.ev(args[0])
            has = mapn(mk_haskey, [v, x])
            it.store_lv(l, lambda old: append(old, 'set', [mk('one', x)]))
            return it.out(want, v=leaf(mk('tup', (it.opaque('set position'), bnot(has)))) if want != 'none' else leaf(UNDEF))
        c = range_value(it, it.ev(args[0]), it.ev(args[1]))
        items = v_items(it, c, 'set')
        it.store_lv(l, lambda old: append(old, 'set', items))
        return it.out(want, v=leaf(UNDEF))
    if m in ('find', 'count', 'contains'):
        k = it.ev(args[0])
        has = mapn(mk_haskey, [v, k])
        if m == 'find':
            return it.out(want, v=ite(has, mapn(lambda x, y: leaf(mk('iter', x, mk('kpos', y))), [l, k]), iter_of(l, v_size(v))))
        return it.out(want, v=has if m == 'contains' else ite(has, iv(1), iv(0)))
    if m in ('end', 'cend'):
        return it.out(want, v=iter_of(l, v_size(v)))
    if m in ('begin', 'cbegin'):
        return it.out(want, v=iter_of(l, iv(0)))
    if m == 'size':
        return it.out(want, v=v_size(v))
    if m == 'empty':
        return it.out(want, v=v_empty(v))
    if m == 'clear':
        it.assign(l, leaf(EMPTYSET))
        return it.out(want, v=leaf(UNDEF))
    return None


def drop_last(t):
    if t.op == 'seq' and t.a[1] and t.a[1][-1].op == 'one':
        return leaf(mk_seq('seq', t.a[0], t.a[1][:-1]))
    if t.op == 'cat' and t.a[0][-1].op == 'str':
        s = t.a[0][-1].a[0]
        r = sv('')
        for p in t.a[0][:-1] + (mk('str', s[:-1]),):
            r = v_cat(r, leaf(p))
        return r
    if t.op == 'str':
        return sv(t.a[0][:-1])
    return leaf(mk('app', 'pop', t))


def drop_item(t):
    if t.op == 'seq' and t.a[1] and t.a[1][-1].op == 'one':
        return leaf(mk_seq('seq', t.a[0], t.a[1][:-1]))
    return map1(lambda n: slice_t(t, I(0), t_add(n, I(-1))), v_size(leaf(t)))


def back_pos(v):
    return map1(lambda t: v_sub(mk_size(t), iv(1)), v)


def seq_method(it, e, c, m, args, want):
    l = it.obj_lv(e)
    isstr = c.startswith('std::basic_string')
    if m in ('size', 'length'):
        return it.out(want, v=v_size(it.load(l)))
    if m == 'empty':
        return it.out(want, v=v_empty(it.load(l)))
    if m in ('begin', 'cbegin'):
        return it.out(want, v=iter_of(l, iv(0)))
    if m in ('end', 'cend'):
        return it.out(want, v=iter_of(l, v_size(it.load(l))))
    if m in ('rbegin', 'crbegin', 'rend', 'crend'):
        v = it.load(l)
        r = it.tmp(map1(lambda t: leaf(mk('rev', t)), v))
        # both ends of the same container have to use the same temporary
        key = ('rev', l.id, v.id)
        memo = it.__dict__.setdefault('revs', {})
        if key in memo:
            r = memo[key]
            it.env.store[r.t.a[0]] = map1(lambda t: leaf(mk('rev', t)), v)
        memo[key] = r
        return it.out(want, v=iter_of(r, iv(0) if m in ('rbegin', 'crbegin') else v_size(v)))
    if m == 'at':
        i = it.ev(args[0])
        it.need_index(l, i, throws=RANGE)
        i = it.by_enumerator(args[0], l, i)
        return it.out(want, lv=mapn(lambda x, y: lv_add(leaf(x), mk('.at', y)), [l, i]))
    if m in ('front', 'back', 'pop_back') and it.safety:
        it.need('element of an empty container', bnot(v_empty(it.load(l))))
    if m == 'front':
        return it.out(want, lv=lv_add(l, mk('.at', I(0))))
    if m == 'back':
        p = back_pos(it.load(l))
        return it.out(want, lv=mapn(lambda x, y: lv_add(leaf(x), mk('.at', y)), [l, p]))
    if m in ('push_back', 'emplace_back'):
        if isstr:
            v = strval(it.ev(args[0]), 'char')
            it.store_lv(l, lambda old: v_cat(old, v))
            return it.out(want, v=leaf(UNDEF))
        if m == 'emplace_back' and len(args) != 1:
            elt = norm_elem(e)
            v = leaf(mk('tup', tuple(it.ev(a) for a in args)))
            if not args:
                v = leaf(UNDEF)
        else:
            v = it.ev(args[0])
        it.store_lv(l, lambda old: append(old, 'seq', [mk('one', v)]))
        return it.out(want, v=leaf(UNDEF))
    if m == 'pop_back':
        it.store_lv(l, lambda old: map1(drop_last if isstr else drop_item, old))
        return it.out(want, v=leaf(UNDEF))
    if m == 'clear':
        it.assign(l, sv('') if isstr else leaf(EMPTYSEQ))
        return it.out(want, v=leaf(UNDEF))
    if m in ('reserve', 'shrink_to_fit'):
        return it.out(want, v=leaf(UNDEF))
    if m == 'insert' and len(args) == 3:
        pos = it.ev(args[0])
        rng = range_value(it, it.ev(args[1]), it.ev(args[2]))
        endp = iter_of(l, v_size(it.load(l)))
        if pos is endp:
            items = v_items(it, rng)
            it.store_lv(l, lambda old: append(old, 'seq', items))
        elif pos is iter_of(l, iv(0)):
            old = it.load(l)
            oi = v_items(it, old)
            ni = v_items(it, rng)
            it.assign(l, leaf(mk_seq('seq', None, ni + oi)))
        else:
            it.store_lv(l, lambda old: it.opaque('insert', old))
        return it.out(want, v=pos)
    if m == 'insert' and len(args) == 2:
        pos = it.ev(args[0])
        v = it.ev(args[1])
        if pos is iter_of(l, v_size(it.load(l))):
            it.store_lv(l, lambda old: append(old, 'seq', [mk('one', v)]))
        elif pos is iter_of(l, iv(0)):
            oi = v_items(it, it.load(l))
            it.assign(l, leaf(mk_seq('seq', None, (mk('one', v),) + oi)))
        else:
            it.store_lv(l, lambda old: it.opaque('insert', old))
        return it.out(want, v=pos)
    if m == 'erase' and len(args) == 1:
        pos = it.ev(args[0])
        v = it.load(l)
        it.assign(l, mapn(lambda x, p: erase_t(x, p.a[1] if p.op == 'iter' else p), [v, pos]))
        return it.out(want, v=pos)
    if m == 'erase' and len(args) == 2:
        a, b = it.ev(args[0]), it.ev(args[1])
        if a is b:
            return it.out(want, v=a)
        v = it.load(l)

        def f(x, p, q):
            if p.op == 'iter' and q.op == 'iter':
                if leaf(q.a[1]) is mk_size(x):
                    return slice_t(x, I(0), p.a[1])
                if p.a[1] is I(0):
                    return slice_t(x, q.a[1], mk_size(x).t if mk_size(x).var is None else I(0))
            return leaf(mk('opaque', 'erase', x, p, q))
        it.assign(l, mapn(f, [v, a, b]))
        return it.out(want, v=a)
    if isstr and m in ('substr', 'find', 'rfind', 'c_str', 'compare', 'find_first_of', 'data'):
        if m in ('c_str', 'data'):
            return it.out(want, v=it.load(l))
        vals = [it.ev(a) for a in args]
        if m == 'compare' and len(args) == 1:
            return it.out(want, v=str_compare(it.load(l), vals[0]))
        if m == 'substr' and vals:
            it.need_index(l, vals[0], 1, throws=RANGE)
        if m == 'substr' and vals and vals[0] is iv(0) and len(vals) == 2:
            # without its last character
            def g(t, n):
                sz = mk_size(t)
                if sz.var is None and t_add(sz.t, n, -1) is I(1):
                    return drop_last(t)
                return leaf(mk('app', m, t, I(0), n))
            return it.out(want, v=mapn(g, [it.load(l), vals[1]]))
        return it.out(want, v=v_app(m, [it.load(l)] + vals))
    if isstr and m in ('append', 'assign') and len(args) == 1:
        v = arg_str(it, e, 0)
        it.store_lv(l, lambda old: v_cat(old, v) if m == 'append' else v)
        return it.out(want, lv=l)
    if m == 'assign' and len(args) == 2 and not isstr:
        it.assign(l, range_value(it, it.ev(args[0]), it.ev(args[1])))
        return it.out(want, v=leaf(UNDEF))
    if m == 'resize' and len(args) == 1:
        n = it.ev(args[0])
        it.store_lv(l, lambda old: mapn(lambda x, y: slice_t(x, I(0), y) if not (y.op == 'int') else leaf(mk('app', 'resize', x, y)), [old, n]))
        return it.out(want, v=leaf(UNDEF))
    if m == 'swap':
        l2 = it.lv(args[0])
        a, b = it.load(l), it.load(l2)
        it.assign(l, b)
        it.assign(l2, a)
        return it.out(want, v=leaf(UNDEF))
    return None


def norm_elem(e):
    return ''


def erase_t(x, p):
    if x.op == 'seq' and x.a[0] is None and p.op == 'int' and all(y.op == 'one' for y in x.a[1][:p.a[0] + 1]):
        return leaf(mk_seq('seq', None, x.a[1][:p.a[0]] + x.a[1][p.a[0] + 1:]))
    return leaf(mk('erase', x, p))


# ---------------------------------------------------------------------------------------------- free functions
def function(it, e, fn, m, want):
    args = e['args']
    if m in ('move', 'forward', 'ref', 'cref', 'as_const') and len(args) == 1:
        return it.out(want, lv=it.lv(args[0]))
    if fn in ('std::get', 'boost::get') and len(args) == 1:
        ta = (e.get('targs') or [None])[0]
        l = it.lv(args[0])
        if isinstance(ta, int) or (isinstance(ta, str) and ta.isdigit()):
            return it.out(want, lv=lv_add(l, mk('.get', int(ta))))
        return None
    if m in ('stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stod', 'stof', 'lexical_cast') and fn.startswith(('std::', 'boost::')):
        it.need('conversion of a text that is no number in range', FALSE, throws=('bad_lexical_cast',) if m == 'lexical_cast' else NUMBER)
    if fn in ('std::make_tuple', 'std::make_pair', 'std::forward_as_tuple', 'boost::make_tuple'):
        return it.out(want, v=leaf(mk('tup', tuple(it.ev(a) for a in args))))
    if m == 'tie':
        return it.out(want, v=leaf(mk('tup', tuple(it.ev(a) for a in args))))
    if m == 'make_optional':
        return it.out(want, v=wrap_some(it.ev(args[-1])))
    if m in ('make_unique', 'make_shared'):
        t = norm((e.get('targs') or [''])[0] or '')
        t = t if isinstance(t, str) else ''
        return it.out(want, v=leaf(mk('obj*', t, leaf(mk('tup', tuple(it.ev(a) for a in args))))))
    if m in ('begin', 'cbegin') and len(args) == 1:
        return it.out(want, v=iter_of(it.lv(args[0]), iv(0)))
    if m in ('end', 'cend') and len(args) == 1:
        l = it.lv(args[0])
        return it.out(want, v=iter_of(l, v_size(it.load(l))))
    if fn == 'std::size' or fn == 'std::ssize':
        return it.out(want, v=v_size(it.ev(args[0])))
    if fn == 'std::empty':
        return it.out(want, v=v_empty(it.ev(args[0])))
    if m in ('exit', '_Exit', 'quick_exit', 'abort', 'terminate') and len(args) <= 1:
        it.process_exit(it.ev(args[0]) if args else iv(1))
        return it.out(want, v=leaf(UNDEF))
    if m == 'to_string' and len(args) == 1:
        def ts(t):
            return sv(str(t.a[0])) if t.op == 'int' else leaf(mk('app', 'to_string', t))
        return it.out(want, v=map1(ts, it.ev(args[0])))
    if m in ('array', 'object') and 'basic_json' in fn:
        its = args[0] if args else None
        while its is not None and its['k'] == 'ctor' and 'initializer_list' in norm(its.get('cls') or its.get('ty') or '') and len(its['args']) == 1:
            its = its['args'][0]
        if its is not None and its['k'] == 'ctor' and 'initializer_list' in norm(its.get('cls') or '') and not its['args']:
            its = None
        if its is None or its['k'] == 'init':
            its = its['items'] if its is not None else []
            its = [y for x in its for y in (x['items'] if x['k'] == 'init' and 'json_ref' in (x.get('ty') or '') and '[' in x['ty'] else [x])]
            v = json_list(it, its) if m == 'object' else seq_of([it.ev(x) for x in its])
            return it.out(want, v=v if its or m == 'object' else leaf(EMPTYSEQ))
    if m == 'parse' and 'basic_json' in fn and args:
        l = it.lv(args[0]) if streams.is_file(etype(args[0])) else None
        v = streams.parsed(it, l) if streams.state(it, l) is not None else v_app('json of', [it.ev(args[0])])
        if len(args) > 2 and it.ev(args[2]) is not TRUE:
            v = v_app('json of, or nothing', [v])
        return it.out(want, v=v)
    if fn == 'fmt::format':
        return it.out(want, v=fmt_format(it, [it.ev(a) for a in args]))
    if fn in ('boost::algorithm::ends_with', 'boost::algorithm::starts_with', 'boost::ends_with', 'boost::starts_with'):
        return it.out(want, v=affix_v(it.ev(args[0]), it.ev(args[1]), m == 'ends_with'))
    if fn in ('boost::algorithm::iequals', 'boost::iequals'):
        return it.out(want, v=v_eq(map1(lower_t, it.ev(args[0])), map1(lower_t, it.ev(args[1]))))
    if m in ('to_lower', 'to_upper') and len(args) >= 1:
        l = it.lv(args[0])
        it.store_lv(l, lambda old: map1(lower_t if m == 'to_lower' else upper_t, old))
        return it.out(want, v=leaf(UNDEF))
    if m in ('to_lower_copy', 'to_upper_copy'):
        v = it.ev(args[0])
        return it.out(want, v=map1(lower_t if m == 'to_lower_copy' else upper_t, v))
    if fn in ('tolower', 'std::tolower', 'toupper', 'std::toupper'):
        return it.out(want, v=v_app('chr' + m, [it.ev(args[0])]))
    if fn in ('boost::bind', 'std::bind') and args:
        def bound(x):
            if x.get('k') == 'call' and (x.get('fn') or '') in ('boost::ref', 'std::ref'):
                return map1(lambda t: leaf(mk('ptr', t)), it.lv(x['args'][0]))
            if x.get('k') == 'var' and 'placeholders' in (x.get('g') or ''):
                return leaf(mk('fn', x['g'].split('::')[-1]))
            return it.ev(x)
        f = args[0].get('cls') or args[0].get('fn') or args[0].get('n') or '?'
        return it.out(want, v=leaf(mk('bound', norm(f), tuple(bound(x) for x in args[1:]))))
    if fn == 'boost::spirit::lex::tokenize' and len(args) >= 4:
        # the callback runs for the tokens of the text, one after the other
        f = it.ev(args[3])
        if f.var is None and f.t.op == 'bound':
            refs = [x for x in f.t.a[1] if x.var is None and x.t.op == 'ptr']
            lvs = [leaf(x.t.a[0]) for x in refs]
            a, b = it.ev(args[0]), it.ev(args[1])
            text = None
            if b.var is None and b.t.op == 'ptr' and b.t.a[0].op == 'lv' and b.t.a[0].a[1] and b.t.a[0].a[1][-1].op == '.at':
                whole = it.load(leaf(mk('lv', b.t.a[0].a[0], b.t.a[0].a[1][:-1])))
                if whole is a and mapn(lambda x: mk_size(x), [whole]) is leaf(b.t.a[0].a[1][-1].a[0]):
                    text = whole
            now = [leaf(mk('str', f.t.a[0])), text or it.opaque('text range', a, b)]
            now += [it.load(leaf(x.t.a[0])) if x.var is None and x.t.op == 'ptr' else x for x in f.t.a[1]]
            for i, l in enumerate(lvs):
                it.assign(l, v_app('lex::tokens#%d' % i, now))
            return it.out(want, v=truth(v_app('lex::tokens', now)))
    if fn == 'boost::any_cast':
        return it.out(want, v=it.ev(args[0]))
    # ---- graphs
    if m == 'add_vertex':
        g = it.lv(args[-1])
        old = it.load(g)
        v = map1(lambda t: leaf(mk('newv', gstruct(t))), old)

        def f(t):
            nt = mk('addv', gstruct(t))
            return leaf(re_upd(t, nt))
        it.assign(g, map1(f, old))
        if len(args) == 2:
            pv = it.ev(args[0])
            it.assign(mapn(lambda x, y: lv_add(leaf(x), mk('.vert', y)), [g, v]), pv)
        else:
            pass
        return it.out(want, v=v)
    if m == 'add_edge':
        g = it.lv(args[-1])
        u, w = it.ev(args[0]), it.ev(args[1])
        prop = it.ev(args[2]) if len(args) == 4 else None
        old = it.load(g)

        def f(t, x, y):
            s = gstruct(t)
            nt = mk('adde', s, x, y)
            return leaf(re_upd(t, nt))

        def h(t, x, y):
            return leaf(mk('newe', gstruct(t), x, y))
        ed = mapn(h, [old, u, w])
        it.assign(g, mapn(f, [old, u, w]))
        if prop is not None:
            it.assign(mapn(lambda x, y: lv_add(leaf(x), mk('.edge', y)), [g, ed]), prop)
        return it.out(want, v=leaf(mk('tup', (ed, TRUE))))
    if m == 'out_degree':
        v, g = it.ev(args[0]), it.ev(args[1])
        return it.out(want, v=mapn(lambda x, t: mk_size(mk('oute', gstruct(t), x)), [v, g]))
    if m == 'in_degree':
        v, g = it.ev(args[0]), it.ev(args[1])
        return it.out(want, v=mapn(lambda x, t: mk_size(mk('ine', gstruct(t), x)), [v, g]))
    if m in ('out_edges', 'adjacent_vertices', 'in_edges'):
        v, g = it.ev(args[0]), it.ev(args[1])
        o = {'out_edges': 'oute', 'adjacent_vertices': 'adjv', 'in_edges': 'ine'}[m]
        c = mapn(lambda x, t: leaf(mk(o, gstruct(t), x)), [v, g])
        l = it.tmp(c)
        return it.out(want, v=leaf(mk('tup', (iter_of(l, iv(0)), iter_of(l, v_size(c))))))
    if m == 'vertices' and len(args) == 1:
        g = it.ev(args[0])
        c = map1(lambda t: leaf(mk('verts', gstruct(t))), g)
        l = it.tmp(c)
        return it.out(want, v=leaf(mk('tup', (iter_of(l, iv(0)), iter_of(l, v_size(c))))))
    if m == 'num_vertices':
        return it.out(want, v=map1(lambda t: leaf(mk('size', mk('verts', gstruct(t)))), it.ev(args[0])))
    if m == 'num_edges':
        return it.out(want, v=map1(lambda t: leaf(mk('app', 'num_edges', gstruct(t))), it.ev(args[0])))
    if m in ('target', 'source') and len(args) == 2:
        return it.out(want, v=proj(it.ev(args[0]), mk('.f', 'm_' + m)))
    if m == 'make_iterator_range':
        if len(args) == 1:
            p = it.ev(args[0])
            c = range_value(it, proj(p, mk('.get', 0)), proj(p, mk('.get', 1)))
        else:
            c = range_value(it, it.ev(args[0]), it.ev(args[1]))
        return it.out(want, v=c)
    # ---- algorithms
    if fn.startswith('std::') or fn.startswith('boost::'):
        r = algorithm(it, e, m, args, want)
        if r is not None:
            return r
    return None


def re_upd(t, nt):
    """Keep the property writes of t on the graph with changed structure."""
    items = []
    while t.op == 'upd':
        items = list(t.a[1]) + items
        t = t.a[0]
    if not items:
        return nt
    return mk('upd', nt, tuple(items))


def fmt_format(it, vals):
    f = vals[0]
    if f.var is None and f.t.op == 'str':
        parts = f.t.a[0].split('{}')
        if len(parts) == len(vals):
            r = sv(parts[0])
            for p, v in zip(parts[1:], vals[1:]):
                v = map1(lambda t: leaf(t) if t.op not in ('int', 'lin', 'size', 'count') else leaf(mk('app', 'to_string', t)), v)
                r = v_cat(v_cat(r, v), sv(p))
            return r
    return v_app('format', vals)


def loop_algo(it, c, body):
    """Run body(value) for each element of container value c; returns nothing (breaks are not used)."""
    from loops import iterate
    fr = it.frames[-1]
    out = []
    it.cases(c, lambda t: iterate(it, t, None, lambda l, v: body(v), out))


def exists_in(it, c, pred):
    """Whether some element of c satisfies pred; pred must be free of side effects."""
    r = it.tmp(FALSE)

    def body(v):
        it.store_lv(r, lambda old: bor(old, truth(pred(v))))
    loop_algo(it, c, body)
    return it.load(r)


def equality(it, ty, x):
    """Predicate of being equal to the value x of a type, by the operator== the program gives it."""
    ty = norm(ty).replace('const ', '').strip(' &')
    for g in it.pr.byname.get(ty + '::operator==', []) + it.pr.byname.get('operator==', []):
        member = g.get('cls') and not g.get('static')
        ps = g['params']
        if not g.get('body') or len(ps) != (1 if member else 2) or any(norm(p['t']).replace('const ', '').strip(' &') != ty for p in ps):
            continue

        def pred(v):
            fr = it.new_frame(g)
            vals = [v, x]
            if member:
                fr.this = it.tmp(v)
                vals = [x]
            bound = [('ref', it.tmp(w)) if p.get('ref') else ('val', w) for p, w in zip(ps, vals)]
            it.callstack.append(g)
            r = it.run_body(fr, ps, bound, g['body'], norm(g['q']))
            it.callstack.pop()
            return truth(r) if r is not None else leaf(UNDEF)
        return pred
    return lambda v: v_eq(v, x)


def algorithm(it, e, m, args, want):
    if m in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'for_each', 'find', 'count', 'remove_if') and len(args) == 3:
        b, en = it.ev(args[0]), it.ev(args[1])
        c = range_value(it, b, en)
        if m == 'for_each':
            f = it.ev(args[2])

            def body(v):
                apply_vals(it, f, [v])
            loop_algo(it, c, body)
            return it.out(want, v=f)
        if m in ('find', 'count'):
            x = it.ev(args[2])
            pred = equality(it, etype(args[2]), x)
        else:
            f = it.ev(args[2])
            pred = lambda v: truth(apply_vals(it, f, [v]))
        if m == 'any_of':
            return it.out(want, v=exists_in(it, c, pred))
        if m == 'none_of':
            return it.out(want, v=bnot(exists_in(it, c, pred)))
        if m == 'all_of':
            return it.out(want, v=bnot(exists_in(it, c, lambda v: bnot(pred(v)))))
        if m in ('count', 'count_if'):
            r = it.tmp(iv(0))
            loop_algo(it, c, lambda v: it.store_lv(r, lambda old: ite(pred(v), v_add(old, iv(1)), old)))
            return it.out(want, v=it.load(r))
        # find: position of the first match
        if m == 'find_if_not':
            p0 = pred
            pred = lambda v: bnot(p0(v))

        def one(x, y):
            if not (x.op == 'iter' and y.op == 'iter'):
                return leaf(mk('opaque', 'find', x, y))
            cv = it.load(leaf(x.a[0]))

            def pos(t):
                Sv = mk_size(t)
                if m != 'remove_if' and t.op == 'seq' and x.a[1] is I(0) and leaf(y.a[1]) is Sv:
                    r = find_items(it, t, pred, x, y, pos)
                    if r is not None:
                        return r
                if Sv.var is not None or Sv.t.op == 'int':
                    return leaf(mk('opaque', 'find in', t))
                S = Sv.t
                k = 0
                while any(s is S and kk == k for s, kk in it.loopstack) or ixs(S, k) in free(t):
                    k += 1
                bx = ixs(S, k)
                it.loopstack.append((S, k))
                g = pred(proj_t(t, mk('.at', bx)))
                it.loopstack.pop()
                if x.a[1] is not I(0):
                    g = band(g, bnot(mk_lt(t_add(bx, x.a[1], -1), 0)))
                if leaf(y.a[1]) is not Sv:
                    g = band(g, mk_lt(t_add(bx, y.a[1], -1), 0))
                if m == 'remove_if':
                    g2 = bnot(g)
                    return leaf(mk_seq('seq', None, mk_each(S, k, g2, (mk('one', proj_t(t, mk('.at', bx))),))))
                return ite(mk_ex(S, k, g), map1(lambda i: leaf(mk('iter', x.a[0], i)), mk_first(S, k, g)), leaf(y))
            if m == 'remove_if':
                nv = map1(pos, cv)
                it.assign(leaf(x.a[0]), nv)
                return map1(lambda t: leaf(mk('iter', x.a[0], t)), v_size(nv))
            return map1(pos, cv)
        if m == 'remove_if':
            # the new end of the filtered container; the tail is gone already
            return it.out(want, v=mapn(one, [b, en]))
        return it.out(want, v=mapn(one, [b, en]))
    if m == 'accumulate' and len(args) in (3, 4):
        c = range_value(it, it.ev(args[0]), it.ev(args[1]))
        r = it.tmp(it.ev(args[2]))
        t0 = etype(args[2])
        f = it.ev(args[3]) if len(args) == 4 else None

        def body(v):
            if f is not None:
                nv = apply_vals(it, f, [it.load(r), v])
            elif 'basic_string' in t0:
                nv = v_cat(it.load(r), v)
            else:
                nv = it.binop('+', it.load(r), v)
            it.assign(r, nv)
        loop_algo(it, c, body)
        return it.out(want, v=it.load(r))
    if m in ('copy', 'copy_if', 'transform') and len(args) in (3, 4):
        c = range_value(it, it.ev(args[0]), it.ev(args[1]))
        dst = args[2]
        while dst['k'] in ('cast',) or dst['k'] == 'ctor' and len(dst['args']) == 1:
            dst = dst['e'] if dst['k'] == 'cast' else dst['args'][0]
        if dst['k'] == 'call' and norm(dst.get('fn') or '') in ('std::back_inserter', 'std::inserter'):
            l = it.lv(dst['args'][0])
            op = 'seq' if norm(dst['fn']) == 'std::back_inserter' else 'set'
            f = it.ev(args[3]) if len(args) == 4 else None

            def body(v):
                if m == 'copy_if':
                    g = truth(apply_vals(it, f, [v]))
                    it.branch(g, lambda: it.store_lv(l, lambda old: append(old, op, [mk('one', v)])), lambda: None)
                    return
                w = apply_vals(it, f, [v]) if m == 'transform' else v
                it.store_lv(l, lambda old: append(old, op, [mk('one', w)]))
            loop_algo(it, c, body)
            return it.out(want, v=leaf(UNDEF))
        return None
    if m in ('max', 'min') and len(args) == 2:
        a, b = it.ev(args[0]), it.ev(args[1])
        g = v_lt(a, b)
        return it.out(want, v=ite(g, b, a) if m == 'max' else ite(g, a, b))
    if m in ('distance',) and len(args) == 2:
        return it.out(want, v=it.binop('-', it.ev(args[1]), it.ev(args[0])))
    if m in ('next', 'prev', 'advance') and 1 <= len(args) <= 2:
        n = it.ev(args[1]) if len(args) == 2 else iv(1)
        if m == 'advance':
            l = it.lv(args[0])
            it.store_lv(l, lambda old: it.binop('+', old, n))
            return it.out(want, v=leaf(UNDEF))
        return it.out(want, v=it.binop('+' if m == 'next' else '-', it.ev(args[0]), n))
    if m == 'reverse' and len(args) == 2:
        b = it.ev(args[0])

        def f(x):
            if x.op == 'iter':
                it.store_lv(leaf(x.a[0]), lambda old: map1(rev_t, old))
            return leaf(UNDEF)
        map1(f, b)
        return it.out(want, v=leaf(UNDEF))
    if m == 'equal' and len(args) in (3, 4):
        if len(args) == 4:
            return it.out(want, v=v_eq(range_value(it, it.ev(args[0]), it.ev(args[1])), range_value(it, it.ev(args[2]), it.ev(args[3]))))
        return None
    if m in ('sort', 'unique', 'swap', 'exchange'):
        return None
    return None


def rev_t(t):
    if t.op == 'rev':
        return leaf(t.a[0])
    if t.op == 'seq' and t.a[0] is None and all(x.op == 'one' for x in t.a[1]):
        return leaf(mk_seq('seq', None, tuple(reversed(t.a[1]))))
    return leaf(mk('rev', t))


def find_items(it, t, pred, x, y, pos):
    """Position of the first match in a sequence written out as base and single items."""
    base, items = t.a
    if any(i.op != 'one' for i in items):
        return None
    r = leaf(y)
    n = iv(0) if base is None else mk_size(base)
    for i in range(len(items) - 1, -1, -1):
        p = map1(lambda c: leaf(mk('iter', x.a[0], t_add(c, I(i)))), n)
        r = ite(pred(items[i].a[0]), p, r)
    if base is not None:
        S = n
        if S.var is not None or S.t.op == 'int':
            return None
        S = S.t
        k = 0
        while any(s is S and kk == k for s, kk in it.loopstack) or ixs(S, k) in free(base):
            k += 1
        bx = ixs(S, k)
        it.loopstack.append((S, k))
        g = pred(proj_t(base, mk('.at', bx)))
        it.loopstack.pop()
        r = ite(mk_ex(S, k, g), map1(lambda i: leaf(mk('iter', x.a[0], i)), mk_first(S, k, g)), r)
    return r
