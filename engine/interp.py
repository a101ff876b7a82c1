"""Abstract evaluation of the exported program over the value domain of core.py.

A function is mapped to its summary: for every result (return value, final value of each object reachable through
the parameters, every observable event) a decision diagram over the predicates of its inputs.  Branches are joined
with ITE (no path enumeration), loops are replaced by closed forms over an index domain (quantifiers, first/last
index, sums, appended sequences) when the recurrence of every modified location has one, and by an opaque fold term
otherwise; a summary that contains an opaque term is never used to claim a violation.
"""
from core import *
import core
import frames
import streams
from ir import norm


SCALAR = ('bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long',
          'unsigned long long', 'size_t', 'std::size_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t', 'float', 'double')


class Unsupported(Exception):
    pass


class Env:
    __slots__ = ('store', 'pc')

    def __init__(self, store, pc):
        self.store = store
        self.pc = pc

    def clone(self):
        return Env(dict(self.store), self.pc)


class Frame:
    __slots__ = ('id', 'vars', 'this', 'fn', 'returns', 'breaks', 'conts', 'thrown', 'parent')

    def __init__(self, id, fn, this=None):
        self.id = id
        self.vars = {}
        self.this = this
        self.fn = fn
        self.returns = []
        self.breaks = []
        self.conts = []


class Event:
    __slots__ = ('kind', 'name', 'args', 'pc', 'loops', 'loc')

    def __init__(self, kind, name, args, pc, loops, loc):
        self.kind, self.name, self.args, self.pc, self.loops, self.loc = kind, name, args, pc, loops, loc

    def __repr__(self):
        return '%s %s %s\n    when %r\n    loops %r at %s' % (self.kind, self.name, list(self.args), self.pc, self.loops, self.loc)


class Summary:
    def __init__(self):
        self.ret = None
        self.outs = {}
        self.events = []
        self.pc = FALSE
        self.notes = []


def some(v):
    return leaf(mk('some', v))


def mem_steps(name):
    return mk('.f', name)


def root_v(n, i):
    return mk('rv', n, i)


def lvv(root, steps=()):
    return leaf(mk('lv', root, tuple(steps)))


def address(t):
    """Address of an object; &*p is p."""
    if t.op == 'lv' and t.a[0].op == 'rd' and not t.a[1]:
        return leaf(t.a[0].a[0])
    return leaf(mk('ptr', t))


def lv_add(v, step):
    return map1(lambda t: leaf(mk('lv', t.a[0], t.a[1] + (step,))) if t.op == 'lv' else leaf(mk('lv', mk('rd', t), (step,))), v)


def seq_of(vals):
    return leaf(mk_seq('seq', None, [mk('one', v) for v in vals]))


PURE_STOP_DEFAULT = {
    'LabelUtils::LabelsToString', 'LabelUtils::StringToLabels', 'LabelUtils::SubDomainCheck', 'LabelUtils::LengthCheck',
    'RRUtils::CompareRRs', 'TypeUtils::TypesToString', 'TypeUtils::TypeToString', 'TypeUtils::StringToType',
    'EC::ToString', 'ResourceRecord::toString',
}
EFFECT_STOP_DEFAULT = {'LintUtils::WriteIssueToFile', 'LintUtils::WriteRRIssueToFile'}


EXCEPTIONS = {
    'std::out_of_range': ('std::out_of_range', 'std::logic_error', 'std::exception'),
    'std::invalid_argument': ('std::invalid_argument', 'std::logic_error', 'std::exception'),
    'bad_optional_access': ('std::bad_optional_access', 'boost::bad_optional_access', 'std::logic_error', 'std::exception'),
    'bad_lexical_cast': ('boost::bad_lexical_cast', 'std::bad_cast', 'std::exception'),
}
RANGE = ('std::out_of_range',)
NUMBER = ('std::out_of_range', 'std::invalid_argument')


def in_range(c, i, extra):
    """0 <= i < size of c (+ extra)"""
    return band(bnot(mk_lt(i, 0)), map1(lambda m: mk_lt(t_add(i, m, -1), extra), mk_size(c)))


class Interp:
    def __init__(self, pr, stop=(), max_depth=24, pure=(), keeps=None, cut=(), inline=()):
        self.cutdefs = {}
        self.cut, self.cuts = set(cut), []      # results given a name of their own: (function, path condition, number)
        self.pr = pr
        self.pure_stop = (set(PURE_STOP_DEFAULT) | set(pure)) - set(inline)
        self._uses_this = {}
        self._writes = {}
        self.keeps = keeps or {}        # arguments a function leaves as they were (shown where the function itself is examined)
        self.stop = set(EFFECT_STOP_DEFAULT) | set(stop)
        self.max_depth = max_depth
        self.nframe = 0
        self.ntmp = 0
        self.nuniq = 0
        self.events = []
        self.wlog = []
        self.frames = []
        self.loopstack = []
        self.depth = 0
        self.closures = {}
        self.notes = set()
        self.assume = TRUE
        self.needs = set()
        self.handlers = []
        self.callstack = []
        self.exits = []
        self.inlined = set()
        self.rename = {}
        self.prelude = {}
        self.env = None
        n = pr.enums.get('RRType')
        if n:
            for v in n['vals']:
                if v['n'].split('::')[-1] == 'N':
                    core.NBITS = v['v']

    # ------------------------------------------------------------------------------------------ small helpers
    def note(self, msg):
        self.notes.add(msg)

    def tmp(self, v, root=None):
        """lv of a fresh temporary holding v."""
        self.ntmp += 1
        r = mk('rt', self.ntmp)
        self.env.store[r] = v
        return lvv(r)

    def opaque(self, why, *vals):
        self.note(why)
        if vals:
            return mapn(lambda *ts: leaf(mk('opaque', why, *ts)), vals)
        self.nuniq += 1
        return leaf(mk('opaque', why, self.nuniq))

    def root_value(self, root):
        v = self.env.store.get(root)
        if v is None:
            if root.op == 'rd':
                v = leaf(mk('deref', root.a[0]))
            elif root.op == 'rf':
                v = leaf(mk('app', 'file', root.a[0]))
            elif root.op == 'rg':
                v = self.global_value(root.a[0])
            else:
                v = leaf(UNDEF)
            self.env.store[root] = v
        return v

    def by_enumerator(self, e, l, i):
        """The index i into the table at l, case by case when its type is an enumeration and the table is known."""
        t = (e.get('t') or e.get('rt') or e.get('ty') or '').replace('const ', '').strip(' &')
        en = self.pr.enums.get(t) or next((x for q, x in self.pr.enums.items() if t and q.split('::')[-1] == t), None)
        if en is None or len(en['vals']) > 40:
            return i
        if not any(x.op == 'seq' and x.a[0] is None and len(x.a[1]) > 1 and all(y.op == 'one' for y in x.a[1]) for x in leafset(self.load(l))):
            return i

        def f(x):
            if x.op in ('int', 'enum'):
                return iv(x.a[-1])
            r = iv(-1)          # not a value of the enumeration: no element
            for v in reversed(en['vals']):
                r = ite(mk_eq(x, mk('enum', en['q'], v['n'], v['v'])), iv(v['v']), r)
            return r
        return map1(f, i)

    def global_value(self, name):
        if name in ('boost::none', 'std::nullopt'):
            return leaf(NONE)
        g = self.pr.globals.get(name)
        if g is not None and g.get('init') is not None and (g.get('const') or self.pr.unwritten(name)):
            try:
                return self.ev(g['init'])
            except Unsupported:
                pass
        return leaf(mk('glob', name))

    def load(self, lv):
        def f(t):
            if t.op != 'lv':
                return leaf(mk('deref', t))
            v = self.root_value(t.a[0])
            for s in t.a[1]:
                v = proj(v, s)
            return v
        return map1(f, lv)

    def store_lv(self, lv, newf):
        """newf: old V -> new V"""
        for g, t in leaves(lv):
            if t.op != 'lv':
                self.note('store through unknown pointer')
                continue
            root, steps = t.a
            self.log_write(root, steps)
            old = self.root_value(root)
            nv = update(old, list(steps), newf)
            self.env.store[root] = ite(g, nv, old) if g is not TRUE else nv

    def log_write(self, root, steps):
        if self.wlog:
            p = []
            for s in steps:
                if not static_step(s) or s.op in ('.opt', '.deref', '.key', '.at'):
                    break
                p.append(s)
            self.wlog[-1].add((root, tuple(p)))

    def assign(self, lv, v):
        self.store_lv(lv, lambda old: v)

    def merge(self, c, a, b):
        """join of two branch environments, c the branch condition"""
        if a.pc is FALSE:
            return b
        if b.pc is FALSE:
            return a
        st = {}
        sa, sb = a.store, b.store
        for r in sa.keys() | sb.keys():
            x = sa.get(r)
            y = sb.get(r)
            if x is None or y is None:
                if r.op in ('rd', 'rg', 'rf'):
                    keep = self.env
                    self.env = a if x is None else b
                    d = self.root_value(r)
                    self.env = keep
                    x = d if x is None else x
                    y = d if y is None else y
                    st[r] = ite(c, x, y)
                else:
                    st[r] = x if x is not None else y
            elif x is y:
                st[r] = x
            else:
                st[r] = ite(c, x, y)
        return Env(st, bor(a.pc, b.pc))

    def branch(self, c, fa, fb):
        """Run fa under c and fb under not c; both return a V or None; result joined."""
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        base = self.env
        ea = base.clone()
        ea.pc = band(base.pc, c)
        eb = base.clone()
        eb.pc = band(base.pc, bnot(c))
        ra = rb = None
        if ea.pc is not FALSE:
            self.env = ea
            ra = fa()
            ea = self.env
        if eb.pc is not FALSE:
            self.env = eb
            rb = fb()
            eb = self.env
        self.env = self.merge(c, ea, eb)
        if ra is None:
            return rb
        if rb is None:
            return ra
        return ite(c, ra, rb)

    def cases(self, v, f):
        """Run f(term) for each alternative of v."""
        ls = leaves(v)
        if len(ls) == 1:
            return f(ls[0][1])
        if len(ls) > 12:
            raise Unsupported('too many alternatives')

        def go(i):
            if i == len(ls) - 1:
                return f(ls[i][1])
            return self.branch(ls[i][0], lambda: f(ls[i][1]), lambda: go(i + 1))
        return go(0)

    def event(self, kind, name, args, loc=None):
        if self.env.pc is FALSE:
            return
        self.events.append(Event(kind, name, tuple(args), self.env.pc, (), loc or self.loc()))

    safety = False      # whether places without a defined meaning are collected

    def need(self, kind, cond, throws=()):
        """The program has no defined meaning here (or throws one of the exceptions, and does not catch it) unless cond holds."""
        if not self.safety or self.env.pc is FALSE or throws and all(self.caught(x) for x in throws):
            return
        self.needs.add((self.loc(), kind))
        bad = band(self.env.pc, bnot(cond))
        if bad is not FALSE:
            self.events.append(Event('undefined', kind, (), bad, (), self.loc()))

    def caught(self, x):
        return any(h == 'all' or h in EXCEPTIONS[x] for hs in self.handlers for h in hs)

    def need_index(self, l, i, extra=0, throws=()):
        if self.safety:
            c = self.load(l)
            self.need('index outside the container', mapn(lambda x, y: in_range(x, y, extra), [c, i]), throws)

    def loc(self):
        return '%s:%s' % (self.curfile, self.curline)

    curfile = '?'
    curline = 0

    # ------------------------------------------------------------------------------------------ types
    def default_value(self, t):
        n = norm(t or '').strip()
        n = n.replace('const ', '').strip()
        if n.endswith('&'):
            n = n[:-1].strip()
        if n.endswith('*'):
            return leaf(mk('null'))
        if n in ('int', 'unsigned int', 'unsigned long', 'long', 'short', 'char', 'size_t', 'uint16_t', 'uint32_t', 'long long', 'unsigned long long',
                 'std::size_t', 'unsigned short', 'unsigned char', 'double', 'float'):
            return iv(0)
        if n == 'bool':
            return FALSE
        if n.startswith('std::vector') or n.startswith('std::deque') or n.startswith('std::list') or n.startswith('std::initializer_list'):
            return leaf(EMPTYSEQ)
        if n.startswith('std::set') or n.startswith('std::unordered_set') or n.startswith('boost::unordered::unordered_set'):
            return leaf(EMPTYSET)
        if 'unordered_map' in n or n.startswith('std::map'):
            return leaf(mk('emptymap'))
        if n.startswith('std::basic_string') or n == 'std::string':
            return sv('')
        if n.startswith('std::bitset'):
            return mk_bs(FALSE, core.NBITS)
        if n.startswith('boost::optional') or n.startswith('std::optional'):
            return leaf(NONE)
        if 'basic_json' in n:
            return leaf(EMPTYOBJ)
        if n.startswith('boost::flyweights::flyweight'):
            return sv('')
        if n.startswith('std::unique_ptr') or n.startswith('std::shared_ptr'):
            return leaf(mk('null'))
        if n.startswith('std::atomic'):
            return iv(0)
        if streams.is_file(n) or streams.is_text(n):
            return streams.fresh(n)
        r = self.pr.records.get(n)
        if r is not None:
            return self.rec_default(r)
        return leaf(UNDEF)

    def rec_default(self, r):
        fs = []
        for b in r.get('bases') or []:
            bn = b if isinstance(b, str) else b.get('q', '')
            br = self.pr.records.get(norm(bn))
            if br is not None:
                d = self.rec_default(br)
                fs += list(d.t.a[1])
        for f in r['fields']:
            if f.get('init') is not None:
                try:
                    v = self.ev(f['init'])
                except Unsupported:
                    v = leaf(UNDEF)
            else:
                v = self.field_default(f['t'])
            fs.append((f['n'], v))
        return leaf(mk('rec', r['q'], tuple(fs)))

    def field_default(self, t):
        n = norm(t or '')
        # members of class type have a default constructor; scalars stay undefined
        v = self.default_value(t)
        if v in (iv(0), FALSE) and not n.startswith('std::atomic'):
            return leaf(UNDEF)
        if n in self.pr.enums:
            return leaf(UNDEF)
        return v

    # ------------------------------------------------------------------------------------------ expressions
    def ev(self, e):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return self.opaque('expression ' + k)
        if 'l' in e and e['l']:
            self.curline = e['l']
        return m(e)

    def e_int(self, e):
        v = e['v']
        return iv(int(v))

    e_char = e_int

    def e_bool(self, e):
        return TRUE if e['v'] else FALSE

    def e_float(self, e):
        return leaf(mk('flt', str(e['v'])))

    def e_null(self, e):
        return leaf(mk('null'))

    def e_str(self, e):
        return sv(e['v'])

    def e_enum(self, e):
        return leaf(mk('enum', e['ty'], e['n'], e['v']))

    def e_zero(self, e):
        return self.default_value(e.get('ty') or e.get('t'))

    def e_this(self, e):
        return map1(address, self.frames[-1].this)

    def e_fnref(self, e):
        return leaf(mk('fn', norm(e.get('fn')), e.get('fid') or ''))

    e_memfn = e_fnref

    def e_var(self, e):
        return self.load(self.lv(e))

    def e_mem(self, e):
        return self.load(self.lv(e))

    def e_idx(self, e):
        return self.load(self.lv(e))

    def e_cast(self, e):
        v = self.ev(e['e'])
        ty = e.get('ty') or e.get('t') or ''
        if ty == 'bool':
            return truth(v)
        if norm(ty) in ('int', 'unsigned int', 'unsigned long', 'long', 'long long', 'unsigned short', 'short', 'unsigned long long'):
            return map1(lambda t: iv(int(t.a[0])) if t.op == 'b' else leaf(t), v)
        return v

    def e_cond(self, e):
        c = truth(self.ev(e['c']))
        return self.branch(c, lambda: self.ev(e['a']), lambda: self.ev(e['b']))

    def e_lambda(self, e):
        return self.make_closure(e)

    def make_closure(self, e):
        fr = self.frames[-1]
        n = id(e)
        vals = []
        caps = []
        for c in e['caps']:
            if c.get('this') or c.get('n') is None and not c.get('init'):
                caps.append(('this', None, fr.this))
                vals.append(fr.this)
            elif c.get('init') is not None:
                v = self.ev(c['init'])
                caps.append(('val', c.get('id'), None))
                vals.append(v)
            else:
                l = self.var_lv(c.get('id'), c.get('n'), fr)
                if c.get('byref'):
                    caps.append(('ref', c['id'], None))
                    vals.append(l)
                else:
                    caps.append(('val', c['id'], None))
                    vals.append(self.load(l))
        self.closures[n] = (e, caps)
        return leaf(mk('clo', n, tuple(vals)))

    def call_closure(self, t, args, argts):
        e, caps = self.closures[t.a[0]]
        fr = self.new_frame({'q': 'lambda', 'file': self.curfile})
        fr.this = self.frames[-1].this
        for (kind, did, _), v in zip(caps, t.a[1]):
            if kind == 'this':
                fr.this = v
            elif kind == 'ref':
                fr.vars[did] = ('ref', v)
            else:
                r = root_v(fr.id, did)
                self.env.store[r] = v
                fr.vars[did] = ('val', r)
        return self.run_body(fr, e['params'], args, e['body'], 'lambda')

    def e_init(self, e):
        ty = norm(e.get('ty') or '')
        items = e['items']
        if ty in self.pr.records:
            r = self.pr.records[ty]
            d = self.rec_default(r).t
            fs = list(d.a[1])
            for i, it in enumerate(items):
                if i < len(fs):
                    fs[i] = (fs[i][0], self.ev(it))
            return leaf(mk('rec', d.a[0], tuple(fs)))
        if ty.startswith('std::tuple') or ty.startswith('std::pair'):
            return leaf(mk('tup', tuple(self.ev(x) for x in items)))
        if not items:
            return self.default_value(e.get('ty'))
        if len(items) == 1 and ty.replace('const ', '') in SCALAR:
            return self.coerce(self.ev(items[0]), ty)
        if ty.startswith('std::array') and len(items) == 1 and items[0]['k'] == 'init':
            return self.ev(items[0])
        return seq_of([self.ev(x) for x in items])

    def e_un(self, e):
        op = e['op']
        if op == '!':
            return bnot(truth(self.ev(e['e'])))
        if op == '-':
            return map1(lambda t: leaf(t_scale(t, -1)), self.ev(e['e']))
        if op == '+':
            return self.ev(e['e'])
        if op == '&':
            l = self.lv(e['e'])
            return map1(address, l)
        if op == '*':
            return self.load(self.lv(e))
        if op in ('++', '--'):
            l = self.lv(e['e'])
            old = self.load(l)
            nv = self.step_by(old, 1 if op == '++' else -1)
            self.assign(l, nv)
            return old if e.get('post') else nv
        if op == '~':
            return v_app('~', [self.ev(e['e'])])
        return self.opaque('unary ' + op)

    def step_by(self, v, n):
        def f(t):
            if t.op == 'iter':
                return map1(lambda p: leaf(mk('iter', t.a[0], p)), leaf(t_add(t.a[1], I(n))))
            return leaf(t_add(t, I(n)))
        return map1(f, v)

    def e_bin(self, e):
        op = e['op']
        if op == '&&':
            a = truth(self.ev(e['a']))
            return self.branch(a, lambda: truth(self.ev(e['b'])), lambda: FALSE)
        if op == '||':
            a = truth(self.ev(e['a']))
            return self.branch(a, lambda: TRUE, lambda: truth(self.ev(e['b'])))
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        if op == '+':
            return mapn(self.t_plus, [a, b])
        if op == '-':
            return mapn(self.t_minus, [a, b])
        if op == '==':
            return v_eq(a, b)
        if op == '!=':
            return bnot(v_eq(a, b))
        if op == '<':
            return mapn(self.t_lt, [a, b])
        if op == '>':
            return mapn(self.t_lt, [b, a])
        if op == '<=':
            return bnot(mapn(self.t_lt, [b, a]))
        if op == '>=':
            return bnot(mapn(self.t_lt, [a, b]))
        if op == '*':
            def f(x, y):
                if x.op == 'int':
                    return leaf(t_scale(y, x.a[0]))
                if y.op == 'int':
                    return leaf(t_scale(x, y.a[0]))
                x, y = sorted((x, y), key=lambda t: t.id)
                return leaf(mk('mul', x, y))
            return mapn(f, [a, b])
        if op in ('&', '|', '^'):
            return mapn(lambda x, y: self.t_bitop(op, x, y), [a, b])
        if op in ('/', '%', '<<', '>>'):
            def g(x, y):
                if x.op == 'int' and y.op == 'int' and y.a[0] > 0:
                    p, q = x.a[0], y.a[0]
                    return iv({'/': p // q, '%': p % q, '<<': p << min(q, 64), '>>': p >> q}[op])
                return leaf(mk('app', op, x, y))
            return mapn(g, [a, b])
        return self.opaque('operator ' + op, a, b)

    def t_bitop(self, op, x, y):
        bl = ('bs',)
        if x.op == 'int' and y.op == 'int':
            p, q = x.a[0], y.a[0]
            return iv({'&': p & q, '|': p | q, '^': p ^ q}[op])
        if x.op == 'b' or y.op == 'b':
            p, q = truth_t(x), truth_t(y)
        else:
            p, q = bits_of(x), bits_of(y)
        r = {'&': band, '|': bor, '^': bxor}[op](p, q)
        if x.op == 'b' or y.op == 'b':
            return r
        return mk_bs(r, core.NBITS)

    def t_plus(self, x, y):
        if x.op == 'iter':
            return leaf(mk('iter', x.a[0], t_add(x.a[1], y)))
        if y.op == 'iter':
            return leaf(mk('iter', y.a[0], t_add(y.a[1], x)))
        if self.stringy(x) or self.stringy(y):
            return v_cat(leaf(x), leaf(y))
        return leaf(t_add(x, y))

    def stringy(self, t):
        return t.op in ('str', 'cat', 'catall')

    def t_minus(self, x, y):
        if x.op == 'iter' and y.op == 'iter':
            return leaf(t_add(x.a[1], y.a[1], -1))
        if x.op == 'iter':
            return leaf(mk('iter', x.a[0], t_add(x.a[1], y, -1)))
        return leaf(t_add(x, y, -1))

    def t_lt(self, x, y):
        if x.op == 'iter' and y.op == 'iter':
            x, y = x.a[1], y.a[1]
        return mk_lt(t_add(x, y, -1), 0)

    def e_asg(self, e):
        op = e['op']
        if op == '=':
            v = self.ev(e['b'])
            l = self.lv(e['a'])
            self.assign(l, self.coerce(v, e.get('ta') or e['a'].get('t')))
            return self.load(l)
        l = self.lv(e['a'])
        v = self.ev(e['b'])
        old = self.load(l)
        nv = self.binop(op[:-1], old, v)
        self.assign(l, self.coerce(nv, e.get('ta') or e['a'].get('t')))
        return nv

    def coerce(self, v, ty):
        ty = norm(ty or '').replace('const ', '').strip(' &')
        if ty == 'bool':
            return truth(v)
        return v

    def e_new(self, e):
        if e.get('e') is not None:
            v = self.ev(e['e'])
        elif e.get('init') is not None:
            v = self.ev(e['init'])
        else:
            v = self.default_value(e.get('ty'))
        return map1(lambda t: leaf(mk('obj*', norm(e.get('ty') or ''), leaf(t))), v)

    def e_delete(self, e):
        return leaf(UNDEF)

    def e_dyncast(self, e):
        v = self.ev(e['e'])
        t = norm(e.get('ty') or '').replace('const ', '').strip()
        if not t.endswith('*'):
            return self.opaque('dynamic cast')
        t = t[:-1].strip()
        # the classes an object of which is one of t
        ds = [d for d in self.pr.records if d == t or self.derived(d, t)]
        is_t = ors(v_eq(v_app('dynamic type', [v]), sv(d)) for d in sorted(ds))
        return ite(is_t, v, leaf(mk('null')))

    def derived(self, d, t):
        return any(norm(b) == t or self.derived(norm(b), t) for b in (self.pr.records.get(d) or {}).get('bases') or [])

    def virtual_call(self, e, fn, want):
        """Call of a function of the program known only by its interface; implementations are obligations of their own."""
        c, m = fn.rsplit('::', 1)
        while True:         # the class that introduces it
            b = [norm(b) for b in (self.pr.records.get(c) or {}).get('bases') or []]
            b = [x for x in b if any(y['n'] == m for y in (self.pr.records.get(x) or {}).get('methods') or [])]
            if not b:
                break
            c = b[0]
        def whole(t):
            # a call on *p is one on p
            return leaf(t.a[0]) if t.op == 'deref' else address(t.a[0]) if t.op == 'ptr' else leaf(t)
        vals = [map1(whole, self.ev(e['obj']))] + [self.ev(a) for a in e['args']]
        self.event('call', c + '::' + m, vals)
        return self.out(want, v=v_app(c + '::' + m, vals))

    def e_throw(self, e):
        self.event('throw', '', ())
        self.exits.append((self.env.pc, 'throw', self.env.store))
        self.env.pc = FALSE
        return leaf(UNDEF)

    def e_unk(self, e):
        return self.opaque('unknown expression')

    # ------------------------------------------------------------------------------------------ lvalues
    def var_lv(self, did, name, fr=None):
        fr = fr or self.frames[-1]
        x = fr.vars.get(did)
        if x is None:
            return lvv(mk('rg', '?' + str(name)))
        if x[0] == 'val':
            return lvv(x[1])
        return x[1]

    def lv(self, e):
        k = e['k']
        if k == 'var':
            if e.get('g'):
                return lvv(mk('rg', e['g']))
            return self.var_lv(e['id'], e.get('n'))
        if k == 'mem':
            if e.get('arrow'):
                b = self.deref(self.ev(e['b']))
            else:
                b = self.lv(e['b'])
            return lv_add(b, mk('.f', e['f']))
        if k == 'un' and e['op'] == '*':
            return self.deref(self.ev(e['e']))
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(e)
            return self.lv(e['e'])
        if k == 'idx':
            if 'vector' in (e['a'].get('t') or '') or True:
                b = self.lv(e['a'])
                i = self.ev(e['b'])
                if 'vector' in (e['a'].get('t') or ''):
                    self.need_index(b, i)
                i = self.by_enumerator(e['b'], b, i)
                return mapn(lambda x, y: lv_add(leaf(x), mk('.at', y)), [b, i])
        if k == 'cond':
            c = truth(self.ev(e['c']))
            return ite(c, self.lv(e['a']), self.lv(e['b']))
        if k == 'cast':
            return self.lv(e['e'])
        if k == 'asg' or k == 'bin' and e['op'] == ',':
            self.ev(e)
            return self.lv(e['a'] if k == 'asg' else e['b'])
        if k == 'call':
            r = self.call(e, want='lv')
            return r
        return self.tmp(self.ev(e))

    def deref(self, v):
        """lv designated by a pointer-like value (the end iterator designates nothing)"""
        if v.var is not None:
            ls = leaves(v)
            found = [g for g, t in ls if t.op == 'iter' and t.a[1].op in ('kpos', 'kjson', 'first', 'last')]
            if found and len(found) < len(ls) and all(
                    t.op == 'iter' and t.a[1].op in ('kpos', 'kjson', 'first', 'last', 'size') or t.op == 'iter' and t.a[1] is I(0) for _, t in ls):
                v = restrict(v, ors(found))
        def f(t):
            if t.op == 'ptr':
                return leaf(t.a[0])
            if t.op == 'iter':
                if self.safety and t.a[1].op not in ('kpos', 'kjson'):
                    self.need_index(leaf(t.a[0]), leaf(t.a[1]))
                return lv_add(leaf(t.a[0]), mk('.at', t.a[1]))
            if t.op == 'obj*':
                return self.tmp(t.a[1])
            if t.op == 'some':
                return self.tmp(t.a[0])
            return leaf(mk('lv', mk('rd', t), ()))
        return map1(f, v)

    # ------------------------------------------------------------------------------------------ calls
    def e_call(self, e):
        return self.call(e, want='v')

    def e_ctor(self, e):
        from lib import construct
        return construct(self, e)

    def out(self, want, lv=None, v=None):
        """result of a model: as a value or as an lvalue"""
        if want == 'lv':
            return lv if lv is not None else self.tmp(v)
        return v if v is not None else self.load(lv)

    def call(self, e, want):
        from lib import libcall
        if 'l' in e and e['l']:
            self.curline = e['l']
        fid = e.get('fid')
        fn = norm(e.get('fn') or '')
        f = self.pr.funcs.get(fid) if fid else None
        if f is not None and f.get('virtual') and e.get('virtual') and e.get('obj') is not None and (e.get('arrow') or e['obj'].get('op') == '->'):
            return self.virtual_call(e, fn, want)
        if f is None and fn.startswith('vp::') and fn in self.pr.byname:
            f = self.pr.byname[fn][0]
        if f is not None and self.is_repo(f):
            return self.call_repo(e, f, want)
        if fn == 'vp::assume':
            c = truth(self.ev(e['args'][0]))
            self.assume = band(self.assume, bnot(band(self.env.pc, bnot(c))))
            return self.out(want, v=leaf(UNDEF))
        return libcall(self, e, fn, want)

    def is_repo(self, f):
        return True

    def obj_lv(self, e):
        o = e['obj']
        if e.get('arrow'):
            return self.deref(self.ev(o))
        return self.lv(o)

    def call_repo(self, e, f, want):
        name = norm(f['q'])
        args = list(e['args'])
        this = None
        params = f['params']
        if f.get('cls') and not f.get('static'):
            if e.get('obj') is not None:
                this = self.obj_lv(e)
            elif args and len(args) == len(params) + 1:
                this = self.lv(args[0])
                args = args[1:]
            else:
                this = self.frames[-1].this
        elif e.get('obj') is not None and len(args) == len(params) - 1:
            args = [e['obj']] + args
        if name.startswith('MyLogger') or name == 'Logger':
            return self.out(want, v=leaf(UNDEF))
        bound = []
        for p, a in zip(params, args):
            if p.get('ref') or p.get('rref'):
                bound.append(('ref', self.lv(a)))
            else:
                bound.append(('val', self.coerce(self.ev(a), p.get('t'))))
        return self.enter(f, name, this, params, bound, want, bool(e.get('obj') is not None and e.get('virtual')))

    def enter(self, f, name, this, params, bound, want='v', virt=False):
        rn = self.rename.get(name, name)
        recursive = any(x is f for x in self.callstack)
        # virtual: the dynamic type is unknown unless the object is a local
        if rn in self.pure_stop or rn in self.stop or recursive or f.get('body') is None or len(self.frames) > self.max_depth or \
                (f.get('virtual') and virt):
            return self.contract(rn, f, this, params, bound, want)
        self.inlined.add((f['file'], name))
        fr = self.new_frame(f, this)
        self.callstack.append(f)
        try:
            r = self.run_body(fr, params, bound, f['body'], name, ret=f.get('ret'))
        finally:
            self.callstack.pop()
        if want == 'lv' and r is not None and (f.get('ret') or '').rstrip().endswith('&'):
            return r
        if (f.get('ret') or '').rstrip().endswith('&'):
            return self.load(r) if r is not None else leaf(UNDEF)
        return self.out(want, v=r if r is not None else leaf(UNDEF))

    def contract(self, name, f, this, params, bound, want):
        """Call that is not inlined: results and final values of the mutable arguments are functions of the inputs."""
        vals = []
        muts = []
        if this is not None:
            vals.append(self.load(this) if name not in self.pure_stop or self.uses_this(f) else leaf(UNDEF))
            if not f.get('const'):
                muts.append(('this', this))
        for i, (p, b) in enumerate(zip(params, bound)):
            v = self.load(b[1]) if b[0] == 'ref' else b[1]
            vals.append(v)
            if p.get('ref') and not p.get('cref') and not p.get('rref') and 'ConcurrentQueue<' not in (p.get('t') or ''):
                muts.append((i, b[1]))
        if name in self.pure_stop:
            muts = []
        muts = [m for m in muts if m[0] not in self.keeps.get(name, ())]
        isref = (f.get('ret') or '').rstrip().endswith('&')
        if name not in self.pure_stop:
            ch = []
            self.event('call', name, vals)
        r = self.contract_result(name, f, vals, None)
        if name not in self.pure_stop and self.writes_files(f):
            fs = [r for r, v in self.env.store.items() if r.op == 'rf' and v is not leaf(mk('app', 'file', r.a[0]))]
            muts += [(('file', r.a[0]), lvv(r)) for r in fs]
            vals = vals + [self.load(lvv(r)) for r in fs]
        mod = frames.modified(self.pr, f)
        for j, l in muts:
            paths = mod.get(j, set()) if mod is not None and not isinstance(j, tuple) else {()}
            heads = {p[0] if p else '[]' for p in paths}
            if '[]' in heads:
                self.assign(l, self.contract_result(name, f, vals, j))
                continue
            # only these members of the object may have changed
            for h in sorted(heads):
                self.assign(lv_add(l, mk('.f', h)), self.contract_result(name, f, vals, '%s.%s' % (j, h)))
        return self.out(want, v=r)

    def cut_result(self, name, vals):
        """A fresh name for the result of a call, the same for calls that exclude each other."""
        if self.loopstack:
            raise Unsupported('named result inside a loop')
        pc = self.env.pc
        self.event('call', name, vals)
        n = len([1 for m, c, _ in self.cuts if m == name and band(c, pc) is not FALSE])
        self.cuts.append((name, pc, n))
        return leaf(mk('cut', name, n))

    def writes_files(self, f):
        r = self._writes.get(id(f))
        if r is None:
            self._writes[id(f)] = False

            def walk(x):
                if isinstance(x, dict):
                    if streams.is_file(norm(x.get('cls') or x.get('ty') or x.get('t') or '') if x.get('k') == 'ctor' else ''):
                        return True
                    g = self.pr.funcs.get(x.get('fid')) if x.get('fid') else None
                    if g is not None and not norm(g['q']).startswith('MyLogger') and self.writes_files(g):
                        return True
                    return any(walk(y) for y in x.values())
                return isinstance(x, list) and any(walk(y) for y in x)
            r = self._writes[id(f)] = f.get('body') is not None and walk(f['body'])
        return r

    def uses_this(self, f):
        r = self._uses_this.get(id(f))
        if r is None:
            def walk(x):
                if isinstance(x, dict):
                    return x.get('k') == 'this' or any(walk(y) for y in x.values())
                return isinstance(x, list) and any(walk(y) for y in x)
            r = self._uses_this[id(f)] = f.get('body') is None or walk(f['body']) or bool(f.get('virtual'))
        return r

    def contract_result(self, name, f, vals, j):
        special = getattr(self, 'special', {}).get(name)
        if special:
            r = special(self, vals, j)
            if r is not None:
                return r
        ret = (f.get('ret') or '') if j is None else ''
        nm = name if j is None else '%s#%s' % (name, j)
        if any(len(leaves(v)) > 24 for v in vals):
            return self.opaque('call with many alternatives: ' + name)
        r = v_app(nm, vals)
        if ret == 'bool':
            r = truth(r)
        return r

    def new_frame(self, f, this=None):
        self.nframe += 1
        return Frame(self.nframe, f, this)

    def bind(self, fr, p, b):
        if b[0] == 'ref' and (p.get('ref') or p.get('rref') or p.get('byref')):
            fr.vars[p['id']] = ('ref', b[1])
        else:
            v = self.load(b[1]) if b[0] == 'ref' else b[1]
            r = root_v(fr.id, p['id'])
            self.env.store[r] = v
            fr.vars[p['id']] = ('val', r)

    def run_body(self, fr, params, bound, body, name, ret=None):
        if len(self.frames) > 60:
            raise Unsupported('call depth')
        for p, b in zip(params, bound):
            self.bind(fr, p, b)
        self.frames.append(fr)
        sf, sl = self.curfile, self.curline
        self.curfile = fr.fn.get('file') or sf
        f = fr.fn
        if f.get('ctor'):
            self.run_inits(fr, f)
        self.ex(body)
        self.frames.pop()
        self.curfile, self.curline = sf, sl
        # join all returns with the fall-through
        res = None
        env = self.env
        rv = None
        for pc, st, v in fr.returns:
            e2 = Env(st, pc)
            if env.pc is FALSE:
                env = e2
                rv = v
            else:
                c = pc
                env = self.merge(c, e2, env)
                if v is not None:
                    rv = ite(c, v, rv) if rv is not None else v
        self.env = env
        return rv

    def run_inits(self, fr, f):
        for it in f.get('inits') or []:
            if it.get('f'):
                ft = None
                v = self.ev(it['e']) if it.get('e') is not None else leaf(UNDEF)
                self.assign(lv_add(fr.this, mk('.f', it['f'])), v)

    # ------------------------------------------------------------------------------------------ statements
    def ex(self, s):
        if s is None or self.env.pc is FALSE:
            return
        if s.get('l'):
            self.curline = s['l']
        m = getattr(self, 's_' + s['s'], None)
        if m is None:
            raise Unsupported('statement ' + s['s'])
        m(s)

    def s_block(self, s):
        for x in s['b']:
            if self.env.pc is FALSE:
                return
            self.ex(x)

    def s_null(self, s):
        pass

    s_label = s_null

    def s_expr(self, s):
        e = s['e']
        # discarded values: assignments through operator= need no result
        if e['k'] == 'call':
            self.call(e, want='none')
        else:
            self.ev(e)

    def s_decl(self, s):
        fr = self.frames[-1]
        for v in s['vars']:
            self.declare(fr, v)

    def declare(self, fr, v):
        init = v.get('init')
        if v.get('bind'):
            l = self.lv(init) if (v.get('ref')) else self.tmp(self.ev(init))
            for b in v['bind']:
                if b.get('field'):
                    st = mk('.f', b['field'])
                else:
                    st = mk('.get', b['i'])
                val = self.load(l)
                fr.vars[b['id']] = ('ref', self.bind_comp(l, st))
            return
        if v.get('ref'):
            fr.vars[v['id']] = ('ref', self.lv(init) if init is not None else self.opaque('reference'))
            return
        r = root_v(fr.id, v['id'])
        if init is not None:
            val = self.coerce(self.ev(init), v['t'])
        else:
            val = self.default_value(v['t'])
            if norm(v['t']).replace('const ', '') in ('int', 'bool', 'unsigned int', 'unsigned long', 'long', 'char', 'size_t') and not v.get('static'):
                val = leaf(UNDEF)
        self.env.store[r] = val
        if self.wlog:
            self.wlog[-1].add((r, ()))
        fr.vars[v['id']] = ('val', r)

    def bind_comp(self, l, st):
        return lv_add(l, st)

    def s_if(self, s):
        if s.get('init'):
            self.ex(s['init'])
        if s.get('cv'):
            self.declare(self.frames[-1], s['cv'])
        c = truth(self.ev(s['c']))
        if self.env.pc is FALSE:
            return
        self.branch(c, lambda: self.ex(s['then']), lambda: self.ex(s.get('else')))

    def s_ret(self, s):
        fr = self.frames[-1]
        v = None
        if s.get('e') is not None:
            if (fr.fn.get('ret') or '').rstrip().endswith('&'):
                v = self.lv(s['e'])
            else:
                v = self.coerce(self.ev(s['e']), fr.fn.get('ret'))
        fr.returns.append((self.env.pc, self.env.store, v))
        self.env = Env(dict(self.env.store), FALSE)

    def s_break(self, s):
        self.frames[-1].breaks[-1].append((self.env.pc, self.env.store))
        self.env = Env(dict(self.env.store), FALSE)

    def s_continue(self, s):
        self.frames[-1].conts[-1].append((self.env.pc, self.env.store))
        self.env = Env(dict(self.env.store), FALSE)

    def process_exit(self, code):
        # any status but zero is a failure
        code = map1(lambda t: iv(1) if t.op == 'int' and t.a[0] & 255 else leaf(t), code)
        self.event('exit', 'exit', (code,))
        self.exits.append((self.env.pc, 'exit', self.env.store))
        self.env = Env(dict(self.env.store), FALSE)

    def s_switch(self, s):
        fr = self.frames[-1]
        c = self.ev(s['c'])
        fr.breaks.append([])
        base = self.env
        allv = []
        for x in s['b']:
            if x['s'] == 'case':
                allv.append(x)
        anym = ors(v_eq(c, self.ev(x['v']) if isinstance(x['v'], dict) else iv(x['v'])) for x in allv)
        cur = base.clone()
        cur.pc = FALSE
        entry = base
        for x in s['b']:
            if x['s'] in ('case', 'default'):
                g = bnot(anym) if x['s'] == 'default' else v_eq(c, self.ev(x['v']) if isinstance(x['v'], dict) else iv(x['v']))
                e2 = entry.clone()
                e2.pc = band(entry.pc, g)
                cur = self.merge(e2.pc, e2, cur)
                self.env = cur
                continue
            self.env = cur
            self.ex(x)
            cur = self.env
        # no case matched and there is no default
        if not any(x['s'] == 'default' for x in s['b']):
            e2 = entry.clone()
            e2.pc = band(entry.pc, bnot(anym))
            cur = self.merge(e2.pc, e2, cur)
        for pc, st in fr.breaks.pop():
            cur = self.merge(pc, Env(st, pc), cur)
        self.env = cur

    def s_try(self, s):
        n = len(self.exits)
        self.handlers.append(['all' if h.get('all') else norm(h['t']).replace('const ', '').rstrip(' &') for h in s['h']])
        self.ex(s['b'])
        self.handlers.pop()
        thrown = [x for x in self.exits[n:] if x[1] == 'throw']
        if thrown:
            self.exits = self.exits[:n] + [x for x in self.exits[n:] if x[1] != 'throw']
            after = self.env
            cur = None
            for pc, _, st in thrown:
                e2 = Env(dict(st), pc)
                cur = e2 if cur is None else self.merge(pc, e2, cur)
            self.env = cur
            if s['h']:
                h = s['h'][0]
                if h.get('var'):
                    self.declare(self.frames[-1], dict(h['var'], init=None, t='std::exception', ref=False))
                self.ex(h['b'])
            self.env = self.merge(self.env.pc, self.env, after)

    def s_unk(self, s):
        raise Unsupported('unknown statement')

    def s_case(self, s):
        pass

    s_default = s_case

    # ------------------------------------------------------------------------------------------ loops
    def s_while(self, s):
        from loops import run_loop
        run_loop(self, cond=s['c'], body=s['body'], inc=None, cv=s.get('cv'))

    def s_do(self, s):
        from loops import run_loop
        run_loop(self, cond=s['c'], body=s['body'], inc=None, do=True)

    def s_for(self, s):
        from loops import run_loop
        if s.get('init'):
            self.ex(s['init'])
        run_loop(self, cond=s.get('c'), body=s['body'], inc=s.get('inc'))

    def s_rfor(self, s):
        from loops import run_range
        if s.get('init'):
            self.ex(s['init'])
        run_range(self, s)

    # ------------------------------------------------------------------------------------------ entry point
    def summarize(self, f, selfname=None, argmap=None):
        """Summary of function f.  Parameters become arg 0.. (the object of a method is arg 0)."""
        self.env = Env({}, TRUE)
        self.events = []
        self.exits = []
        fr = self.new_frame(f)
        base = 0
        outs = []
        r0 = mk('ra', 0)
        if f.get('cls') and not f.get('static'):
            self.env.store[r0] = leaf(mk('arg', 0))
            fr.this = lvv(r0)
            base = 1
            outs.append((0, r0, not f.get('const')))
        bound = []
        for i, p in enumerate(f['params']):
            r = mk('ra', i + base)
            self.env.store[r] = truth(leaf(mk('arg', i + base))) if p.get('t') == 'bool' else leaf(mk('arg', i + base))
            isref = p.get('ref') or p.get('rref')
            bound.append(('ref', lvv(r)) if isref else ('val', self.env.store[r]))
            if isref:
                outs.append((i + base, r, bool(p.get('ref') and not p.get('cref'))))
            if (p.get('t') or '').rstrip().endswith('*'):
                # pointee
                rr = mk('rd', mk('arg', i + base))
                outs.append(('*%d' % (i + base), rr, 'const' not in p['t']))
        self.callstack.append(f)
        self.curfile = f['file']
        rv = self.run_body(fr, f['params'], bound, f['body'], norm(f['q']))
        self.callstack.pop()
        s = Summary()
        s.ret = rv
        if rv is not None and (f.get('ret') or '').rstrip().endswith('&'):
            s.ret = self.load(rv)
        s.pc = self.env.pc
        outs += [(('file', r.a[0]), r, True) for r in self.env.store if r.op == 'rf']
        for i, r, mut in outs:
            if r in self.env.store and not (r.op == 'rf' and self.env.store[r] is leaf(mk('app', 'file', r.a[0]))):
                s.outs[i] = self.env.store[r]
        s.events = self.events
        s.notes = sorted(self.notes)
        s.assume = self.assume
        s.defs = self.cutdefs
        s.needs = self.needs
        s.exits = [(pc, k) for pc, k, _ in self.exits]
        return s
