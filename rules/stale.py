"""C25: no reference, pointer or iterator into the nodes of a graph is used after nodes may have been added to that graph.

The nodes of the graphs are kept in one growing array.  `graph[v]` denotes a node; a variable of reference, pointer or
iterator type, the container a range-for runs over, an argument bound to a reference parameter or the object of a pending
member call hold a *loan* of the nodes of that graph as long as they denote something reached from `graph[v]` without a
copy.  A call that may add nodes - `boost::add_vertex` itself, or a function from which it can be reached for the same
graph (summaries over the call graph, in terms of `this` and the parameters) - ends the loans of that graph; using one
afterwards is a violation.  Flow-sensitive within functions, parameters carry the loans of the arguments into callees.
"""
from ir import norm
from exits import walk

GROW = {'add_vertex': 'VE', 'remove_vertex': 'VE', 'clear': 'VE', 'add_edge': 'E', 'remove_edge': 'E', 'clear_vertex': 'E', 'remove_out_edge_if': 'E',
        'swap': 'VE'}
EDGES = ('out_edges', 'in_edges', 'edges', 'adjacent_vertices')


class Loan:
    """What a reference, iterator or pointer held at one point refers to."""
    __slots__ = ('on', 'gone')

    def __init__(self, on=frozenset(), gone=None):
        self.on, self.gone = on, gone

    def key(self):
        return self.on, self.gone


NONE = frozenset()


def last(fn):
    return fn.split('::')[-1]


def is_graph(t):
    t = norm((t or '').replace('const ', '').replace('&', '').replace('*', '').strip())
    return t.startswith(('boost::adjacency_list', 'boost::vec_adj_list_impl')) or t in GRAPHS


GRAPHS = {'interpretation::Graph', 'zone::Graph', 'label::Graph'}


def held(t):
    """Whether a value of the type refers to where it was taken from."""
    t = (t or '').rstrip()
    b = norm(t).split('<')[0]
    return t.endswith(('*', '&')) or '&' in t and t.startswith(('std::tuple<', 'std::pair<')) or 'iterator' in t or 'range<' in t or 'reference_wrapper' in t \
        or b in ('std::string_view', 'std::span', 'boost::string_view', 'std::basic_string_view') or 'iterator' in b or t.startswith('boost::optional<') and '&>' in t


class Adds:
    """For every function: the graphs ((root, fields...) or ('any', class)) whose storage a call of it may move."""

    def __init__(self, pr):
        self.pr = pr
        self.sum = {id(f): frozenset() for fs in pr.byname.values() for f in fs}
        self.fs = [f for fs in pr.byname.values() for f in fs if f.get('body')]
        self.calls = {id(f): [c for part in [f['body']] + [i.get('e') for i in f.get('inits') or []] for c in walk(part) if c.get('k') in ('call', 'ctor')] for f in self.fs}
        changed = True
        while changed:
            changed = False
            for f in self.fs:
                new = set()
                for c in self.calls[id(f)]:
                    new |= self.of_call(c, lambda e, f=f: key_in(f, e))
                new = {n for n in new if n[1][0] != 'l'}
                if not new <= self.sum[id(f)]:
                    self.sum[id(f)] |= new
                    changed = True

    def of_call(self, c, key):
        """{(kind, key)} in the terms of the caller."""
        fn = norm(c.get('fn') or '')
        m = last(fn)
        args = c.get('args') or []
        out = set()
        if m in GROW and (fn.startswith('boost::') or c.get('obj') is not None):
            g = [a for a in args + [c.get('obj')] if a is not None and is_graph(a.get('t') or (c.get('ot') if a is c.get('obj') else ''))]
            if c.get('obj') is not None and is_graph(c.get('ot')) and c['obj'] not in g:
                g.append(c['obj'])
            for a in g:
                for k in GROW[m]:
                    out.add((k, key(a) or ('any', graph_class(a.get('t')))))
            return out
        f = self.pr.funcs.get(c.get('fid')) if c.get('fid') else None
        if f is None:
            return out
        if f.get('cls') and c.get('k') == 'ctor':
            this = ('l', 'new')
        else:
            this = key(c['obj']) if c.get('obj') is not None else None
        gs = [f]
        if c.get('virtual'):
            gs = [g for q, fs in self.pr.byname.items() if q.split('::')[-1] == m for g in fs if g.get('virtual')] or gs
        for g in gs:
            ar = args
            if not g.get('cls') and c.get('obj') is not None:
                ar = [c['obj']] + args
            for kind, k in self.sum.get(id(g), ()):
                if k[0] == 'this':
                    r = this + k[1:] if this is not None else ('any', graph_class(None, k))
                elif k[0] == 'p':
                    b = key(ar[k[1]]) if k[1] < len(ar) else None
                    r = b + k[2:] if b is not None else ('any', '?')
                else:
                    r = k
                out.add((kind, r))
        return out


def graph_class(t, k=None):
    t = norm((t or '').replace('const ', '').replace('&', '').replace('*', '').strip())
    return t or '?'


def strip(e):
    while e is not None and e.get('k') in ('cast', 'dyncast'):
        e = e['e']
    return e


def key_in(f, e):
    """Which object an expression denotes, from the view of function f: (root, fields...)."""
    e = strip(e)
    if e is None:
        return None
    k = e.get('k')
    if k == 'this':
        return ('this',)
    if k == 'un' and e.get('op') in ('*', '&'):
        return key_in(f, e['e'])
    if k == 'var':
        if e.get('g'):
            return ('g', e['g'])
        for i, p in enumerate(f['params']):
            if p['id'] == e.get('id'):
                return ('p', i) if p.get('ref') or '*' in (p.get('t') or '') else ('l', e['id'])
        return ('l', e.get('id'))
    if k == 'mem':
        b = key_in(f, e['b'])
        return b + (e['f'],) if b is not None else None
    if k == 'call' and norm(e.get('fn') or '') in ('std::move', 'std::forward', 'std::ref') and e.get('args'):
        return key_in(f, e['args'][0])
    return None


class Run:
    def __init__(self, pr):
        self.pr = pr
        self.adds = Adds(pr)
        self.memo = {}
        self.findings = {}
        self.uses = set()
        self.growth = set()
        self.loans = set()

    def function(self, f):
        fr = Frame(self, f, ('this', id(f)), {}, [])
        fr.body()


class Frame:
    """One function with the loans its parameters come with; keys of its objects are those of the outermost caller."""

    def __init__(self, run, f, this, params, stack):
        self.run, self.f, self.this, self.stack = run, f, this, stack
        self.env, self.keys, self.lam = {}, {}, {}
        self.temps = []
        self.ret = Loan()
        self.dead = False
        self.line = f.get('l')
        self.pending = []
        self.breaks, self.conts = [], []
        self.owner = norm(f.get('q') or 'lambda')
        for i, p in enumerate(f['params']):
            k, ln = params.get(i, (None, None))
            self.keys[p['id']] = k if k is not None else ('param', id(f), i)
            self.env[p['id']] = Loan(ln.on, ln.gone) if ln is not None else Loan()

    # ------------------------------------------------------------------------------------------ helpers
    def body(self):
        for i in self.f.get('inits') or []:
            self.ev(i.get('e'))
        self.st(self.f['body'])
        return self.ret

    def key(self, e):
        e = strip(e)
        if e is None:
            return None
        k = e.get('k')
        if k == 'this':
            return self.this
        if k == 'un' and e.get('op') in ('*', '&'):
            return self.key(e['e'])
        if k == 'var':
            if e.get('g'):
                return ('g', e['g'])
            return self.keys.get(e.get('id')) or ('local', id(self.f), e.get('id'))
        if k == 'mem':
            b = self.key(e['b'])
            return b + (e['f'],) if b is not None else None
        if k == 'call' and norm(e.get('fn') or '') in ('std::move', 'std::forward', 'std::ref') and e.get('args'):
            return self.key(e['args'][0])
        return None

    def use(self, ln, what, e=None):
        if ln is not None and ln.on:
            self.run.uses.add((self.owner, self.f.get('file'), self.line, what))
            if ln.gone is not None:
                where = '%s (%s:%s)' % (self.owner, self.f.get('file'), self.line)
                self.run.findings.setdefault((self.owner, what, ln.gone), '%s refers into the nodes of a graph to which %s may have added nodes since; used at %s' % (
                    what, ln.gone, where))

    def grow(self, items, e, what):
        """Ends the loans of the graphs."""
        if not items:
            return
        site = '%s (%s:%s)' % (what, self.f.get('file'), self.line)
        self.run.growth.add('%s in %s' % (site, self.owner))
        for ln in list(self.env.values()) + self.temps:
            if ln.gone is None and any(match(o, i) for o in ln.on for i in items):
                ln.gone = site

    def snap(self):
        return {i: Loan(ln.on, ln.gone) for i, ln in self.env.items()}, self.dead

    def put(self, s):
        env, self.dead = s
        for i, ln in env.items():
            old = self.env.get(i)
            # loans that are still pending in an expression stay the same objects
            self.env[i] = Loan(ln.on, ln.gone) if old is None else old
            self.env[i].on, self.env[i].gone = ln.on, ln.gone

    @staticmethod
    def merge(a, b):
        if a[1]:
            return b
        if b[1]:
            return a
        env = {i: Loan(ln.on, ln.gone) for i, ln in a[0].items()}
        for i, ln in b[0].items():
            if i in env:
                o = env[i]
                o.on, o.gone = o.on | ln.on, o.gone or ln.gone
            else:
                env[i] = Loan(ln.on, ln.gone)
        return env, False

    def join(self, *lns):
        on, gone = frozenset(), None
        for ln in lns:
            if ln is not None:
                on |= ln.on
                gone = gone or (ln.gone if ln.on else None)
        return Loan(on, gone)

    # ------------------------------------------------------------------------------------------ expressions
    def ev(self, e):
        """Evaluates; the loan of what the expression denotes or refers to."""
        if e is None:
            return Loan()
        if isinstance(e, list):
            return self.join(*[self.ev(x) for x in e])
        k = e.get('k')
        if e.get('l'):
            self.line = e['l']
        if k == 'var':
            ln = self.env.get(e.get('id'))
            if ln is None or e.get('g'):
                return Loan()
            self.use(ln, e.get('n') or 'a variable', e)
            return Loan(ln.on, ln.gone)
        if k == 'mem':
            return self.ev(e['b'])
        if k == 'un':
            return self.ev(e['e'])
        if k == 'idx':
            r = self.ev(e.get('a'))
            self.ev(e.get('b'))
            return r
        if k in ('cast', 'dyncast'):
            return self.ev(e['e'])
        if k == 'cond':
            self.ev(e['c'])
            s = self.snap()
            a = self.ev(e['a'])
            sa = self.snap()
            self.put(s)
            b = self.ev(e['b'])
            self.put(self.merge(sa, self.snap()))
            return self.join(a, b)
        if k == 'bin':
            a = self.pend(self.ev(e['a']))
            if e['op'] in ('&&', '||'):
                self.temps.remove(a)
                s = self.snap()
                self.ev(e['b'])
                self.put(self.merge(s, self.snap()))
                return Loan()
            b = self.ev(e['b'])
            self.temps.remove(a)
            return self.join(a, b) if e['op'] in ('+', '-') and (held(e.get('ta')) or held(e.get('tb'))) else Loan()
        if k == 'asg':
            b = self.pend(self.ev(e['b']))
            a = strip(e['a'])
            if a.get('k') == 'var' and e['op'] == '=' and not self.isref(a.get('id')):
                if a.get('id') in self.env:
                    self.env[a['id']].on, self.env[a['id']].gone = (b.on, b.gone) if held(e.get('ta') or a.get('t')) else (NONE, None)
                self.temps.remove(b)
                return Loan()
            r = self.ev(e['a'])
            self.check(b, 'the value assigned')
            self.temps.remove(b)
            return r
        if k == 'call':
            return self.call(e)
        if k == 'ctor':
            return self.ctor(e)
        if k == 'lambda':
            # run where it is written when it is handed to an algorithm; see call
            return Loan()
        if k == 'init':
            return self.join(*[self.ev(x) for x in e['items']]) if held(e.get('ty')) else self.ev(e['items']) and Loan()
        for c in ('e', 'a', 'b', 'args', 'items'):
            x = e.get(c)
            if isinstance(x, (dict, list)):
                self.ev(x)
        return Loan()

    def isref(self, i):
        return i in self.refs

    refs = frozenset()

    def pend(self, ln):
        self.temps.append(ln)
        return ln

    def check(self, ln, what):
        if ln.gone is not None:
            self.use(ln, what)

    def lambda_of(self, e):
        e = strip(e)
        while e is not None and e.get('k') == 'call' and norm(e.get('fn') or '') in ('std::move', 'std::ref', 'std::forward') and e.get('args'):
            e = strip(e['args'][0])
        if e is None:
            return None
        if e.get('k') == 'lambda':
            return e
        return self.lam.get(e.get('id')) if e.get('k') == 'var' else None

    def run_lambda(self, lam, args):
        if lam.get('body') is None or id(lam) in self.pending:
            return Loan()
        self.pending.append(id(lam))
        sret, sdead, self.ret, self.dead = self.ret, self.dead, Loan(), False
        sb, sc, self.breaks, self.conts = self.breaks, self.conts, [], []
        for c in lam.get('caps') or []:
            if c.get('init') is not None and c.get('id') is not None:
                self.bind({'id': c['id'], 't': c.get('t') or '', 'ref': c.get('byref')}, self.ev(c['init']))
        for i, p in enumerate(lam['params']):
            self.bind(p, args[i] if i < len(args) else Loan())
        self.st(lam['body'])
        r = self.ret
        self.ret, self.dead, self.breaks, self.conts = sret, sdead, sb, sc
        self.pending.pop()
        return r if held(lam.get('ret')) else Loan()

    def ctor(self, e):
        f = self.run.pr.funcs.get(e.get('fid')) if e.get('fid') else None
        if f is not None and f.get('body') is not None:
            return self.invoke(f, e, ('local', id(e)), None, e['args'])
        rs = [self.pend(self.ev(a)) for a in e['args']]
        for r in rs:
            self.check(r, 'an argument')
            self.temps.remove(r)
        return self.join(*rs) if held(e.get('ty') or e.get('t')) else Loan()

    def call(self, e):
        fn = norm(e.get('fn') or '')
        m = last(fn)
        args = e.get('args') or []
        if fn.startswith(('MyLogger', 'fmt::', 'spdlog::')):
            for a in args:
                self.ev(a)
            return Loan()
        f = self.run.pr.funcs.get(e.get('fid')) if e.get('fid') else None
        if f is not None and f.get('body') is not None and not e.get('virtual'):
            obj = e.get('obj')
            ar = args
            if obj is not None and not (f.get('cls') and not f.get('static')):
                ar, obj = [obj] + args, None
            return self.invoke(f, e, self.key(obj) if obj is not None else self.this if f.get('cls') else None, obj, ar)
        if not e.get('fn') or m == 'operator()':
            lam = self.lambda_of(e.get('callee') or e.get('obj'))
            rs = [self.pend(self.ev(a)) for a in args]
            for r in rs:
                self.temps.remove(r)
            if lam is not None:
                return self.run_lambda(lam, rs)
            self.grow(self.run.adds.of_call(e, self.key), e, fn or 'a function object')
            return Loan()
        # assignment evaluates its right side first
        obj = e.get('obj')
        ot = e.get('ot') or ''
        if m.startswith('operator') and m.endswith('=') and m not in ('operator==', 'operator!=', 'operator<=', 'operator>='):
            rs = [self.pend(self.ev(a)) for a in args]
            t = strip(obj)
            if m == 'operator=' and t is not None and t.get('k') == 'var' and not self.isref(t.get('id')):
                for r in rs:
                    self.check(r, 'the value assigned')
                    self.temps.remove(r)
                if t.get('id') in self.env:
                    n = self.join(*rs) if held(ot) else Loan()
                    self.env[t['id']].on, self.env[t['id']].gone = n.on, n.gone
                return Loan()
            o = self.ev(obj)
            for r in rs:
                self.check(r, 'the value assigned')
                self.temps.remove(r)
            return o
        o = self.pend(self.ev(obj)) if obj is not None else None
        lams = [self.lambda_of(a) for a in args]
        rs = [self.pend(self.ev(a)) if lams[i] is None else self.pend(Loan()) for i, a in enumerate(args)]
        for lam in lams:
            if lam is not None:
                self.run_lambda(lam, [self.join(*rs)] * len(lam['params']))
        if o is not None:
            self.check(o, 'the object of a call of ' + m)
            self.temps.remove(o)
        for r in rs:
            self.check(r, 'an argument of ' + m)
            self.temps.remove(r)
        self.grow(self.run.adds.of_call(e, self.key), e, fn)
        rt = e.get('rt') or e.get('t') or ''
        if obj is not None and is_graph(ot) and m == 'operator[]':
            if any('edge_desc' in (a.get('t') or '') for a in args):
                return Loan()          # properties of edges do not move
            k = self.key(obj)
            ln = Loan(frozenset([('V', k if k is not None else ('any', graph_class(ot)))]))
            self.run.loans.add((self.owner, self.f.get('file'), self.line))
            return ln
        if m in EDGES and fn.startswith('boost::'):
            g = next((a for a in args if is_graph(a.get('t'))), None)
            if g is not None:
                k = self.key(g)
                return Loan(frozenset([('E', k if k is not None else ('any', graph_class(g.get('t'))))]))
        if held(rt) or e.get('lv') or fn in ('std::get', 'std::move', 'std::forward', 'boost::get', 'std::ref', 'std::cref', 'std::tie', 'std::forward_as_tuple'):
            return self.join(o, *rs)
        return Loan()

    def invoke(self, f, e, this, obj, args):
        run = self.run
        o = self.pend(self.ev(obj)) if obj is not None else None
        rs = [self.pend(self.ev(a)) for a in args]
        if o is not None:
            self.check(o, 'the object of a call of ' + last(norm(f['q'])))
        params = {}
        for i, p in enumerate(f['params']):
            if i >= len(rs):
                continue
            if p.get('ref') or held(p.get('t')):
                self.check(rs[i], 'argument %d of %s' % (i + 1, last(norm(f['q']))))
                params[i] = (self.key(args[i]), Loan(rs[i].on, rs[i].gone))
            else:
                self.check(rs[i], 'argument %d of %s' % (i + 1, last(norm(f['q']))))
                params[i] = (None, Loan())
        items = run.adds.of_call(e, self.key)
        what = norm(f['q'])
        k = (id(f), this, tuple((i, params[i][0], params[i][1].key()) for i in sorted(params)))
        if k in run.memo:
            ret = run.memo[k]
        elif len(self.stack) > 25 or sum(1 for x in self.stack if x == id(f)) > 1 or not (items or any(p[1].on for p in params.values()) or held(f.get('ret'))):
            ret = Loan()
        else:
            run.memo[k] = Loan()
            fr = Frame(run, f, this, params, self.stack + [id(f)])
            fr.refs = refs_of(f)
            ret = run.memo[k] = fr.body()
        for r in rs:
            self.temps.remove(r)
        if o is not None:
            self.temps.remove(o)
        self.grow(items, e, what)
        if held(f.get('ret')):
            # what it refers to was taken while the callee ran
            return Loan(ret.on, ret.gone)
        return Loan()

    # ------------------------------------------------------------------------------------------ statements
    def bind(self, v, ln):
        keep = v.get('ref') or held(v.get('t'))
        n = Loan(ln.on, ln.gone) if keep else Loan()
        self.env[v['id']] = n
        if v.get('ref'):
            self.refs = self.refs | {v['id']}
        for b in v.get('bind') or []:
            bl = Loan(ln.on, ln.gone) if v.get('ref') or held(v.get('t')) or held(b.get('t')) else Loan()
            self.env[b['id']] = bl
            if b.get('hv') is not None:
                self.env[b['hv']] = bl

    def decl(self, v):
        i = v.get('init')
        if i is not None and i.get('k') == 'lambda':
            self.lam[v['id']] = i
            self.env[v['id']] = Loan()
            return
        ln = self.ev(i)
        if v.get('ref') and i is not None:
            k = self.key(i)
            if k is not None:
                self.keys[v['id']] = k
        self.bind(v, ln)

    def loop(self, s, cond, body, inc, first=True):
        sb, sc = self.breaks, self.conts
        self.breaks = []
        out = None
        for n in range(3):
            self.conts = []
            if cond is not None and (first or n):
                cond()
            before = self.snap()
            if first or n:
                out = before if out is None else self.merge(out, before)
            body()
            end = self.snap()
            for c in self.conts:
                end = self.merge(end, c)
            self.put(end)
            if not self.dead and inc is not None:
                inc()
            nxt = self.merge(self.snap(), before)
            self.put(nxt)
            if n and same(nxt, before):
                break
        out = self.snap() if out is None else self.merge(out, self.snap())
        for b in self.breaks:
            out = self.merge(out, b)
        self.breaks, self.conts = sb, sc
        self.put(out)

    def st(self, s):
        if s is None or self.dead:
            return
        k = s['s']
        if s.get('l'):
            self.line = s['l']
        if k == 'block':
            for x in s['b']:
                self.st(x)
        elif k == 'decl':
            for v in s['vars']:
                self.decl(v)
        elif k == 'expr':
            self.ev(s['e'])
            if s['e'].get('k') == 'throw' or s['e'].get('k') == 'call' and norm(s['e'].get('fn') or '') in ('exit', 'std::exit', 'abort', 'std::abort'):
                self.dead = True
        elif k == 'if':
            if s.get('init'):
                self.st(s['init'])
            if s.get('cv'):
                self.decl(s['cv'])
            self.ev(s['c'])
            a = self.snap()
            self.st(s['then'])
            b = self.snap()
            self.put(a)
            self.st(s.get('else'))
            self.put(self.merge(b, self.snap()))
        elif k in ('while', 'for'):
            if s.get('init'):
                self.st(s['init'])

            def cond():
                if s.get('cv'):
                    self.decl(s['cv'])
                self.ev(s.get('c'))
            self.loop(s, cond, lambda: self.st(s['body']), (lambda: self.ev(s['inc'])) if s.get('inc') is not None else None)
        elif k == 'do':
            self.loop(s, lambda: self.ev(s.get('c')), lambda: self.st(s['body']), None, first=False)
        elif k == 'rfor':
            if s.get('init'):
                self.st(s['init'])
            rng = self.ev(s['range'])
            name = ('range', id(s))
            self.env[name] = Loan(rng.on, rng.gone)
            v = s['var']

            def step():
                ln = self.env[name]
                if ln.gone is not None:
                    self.use(ln, 'the range of a loop')
                self.bind(v, Loan(ln.on, ln.gone))
            self.loop(s, step, lambda: self.st(s['body']), None)
            self.env.pop(name, None)
        elif k == 'ret':
            if s.get('e') is not None:
                ln = self.ev(s['e'])
                self.ret = self.join(self.ret, ln)
            self.dead = True
        elif k == 'break':
            self.breaks.append(self.snap())
            self.dead = True
        elif k == 'continue':
            self.conts.append(self.snap())
            self.dead = True
        elif k == 'try':
            a = self.snap()
            self.st(s['b'])
            b = self.snap()
            for h in s['h']:
                self.put(self.merge(a, (b[0], False)))
                self.st(h['b'])
                b = self.merge(b, self.snap())
            self.put(b)
        elif k == 'switch':
            if s.get('init'):
                self.st(s['init'])
            self.ev(s['c'])
            a = self.snap()
            sb, self.breaks = self.breaks, []
            for x in s['b']:
                if self.dead:
                    self.put(a)
                else:
                    self.put(self.merge(a, self.snap()))
                self.st(x)
            out = self.merge(a, self.snap())
            for b in self.breaks:
                out = self.merge(out, b)
            self.breaks = sb
            self.put(out)
        elif k == 'label':
            self.st(s['b'])


def refs_of(f):
    return frozenset(p['id'] for p in f['params'] if p.get('ref'))


def match(loan, item):
    (k, a), (j, b) = loan, item
    return k == j and (a == b or 'any' in (a[0], b[0]))


def same(a, b):
    return a[1] == b[1] and all(i in b[0] and ln.key() == b[0][i].key() for i, ln in a[0].items())


def check(pr):
    run = Run(pr)
    for f in run.adds.fs:
        fr = Frame(run, f, ('this', id(f)), {}, [id(f)])
        fr.refs = refs_of(f)
        fr.body()
    for site in sorted('%s (%s:%s) refers to a node' % x for x in run.loans):
        yield True, site, ''
    for site in sorted(run.growth):
        yield True, 'nodes or edges may be added: ' + site, ''
    for (owner, what, gone), why in sorted(run.findings.items(), key=str):
        yield False, owner, why


def unmodified(pr):
    """Resolving a class writes nothing that belongs to the context (zones, name tree, maps) it is given."""
    import effects
    found = False
    for f in pr.byname.get('interpretation::Graph::Graph', []):
        at = [i for i, p in enumerate(f['params']) if 'Context' in (p.get('t') or '')]
        if not f.get('body') or not at:
            continue
        found = True
        an = effects.analysis(pr, None)
        an.callbacks, an.overriders = (lambda: []), (lambda fn: [])
        fr = effects.Frame(an, norm(f['q']), f['file'], {effects.L}, {})
        fr.line = f.get('l')
        try:
            fr.invoke(f, {effects.L}, None, f, [{('Context',)} if i in at else {effects.L} for i in range(len(f['params']))])
        except (effects.Undecided, KeyError, TypeError, IndexError, RecursionError, AttributeError) as u:
            yield None, norm(f['q']), 'not understood: %r' % u
            continue
        reads = {a.site for a in an.out.values() if a.path[0] == 'Context' and not a.write}
        for site in sorted(reads):
            yield True, 'reads the context: ' + site, ''
        for site, path, what in sorted({(a.site, effects.show(a.path), a.what) for a in an.out.values() if a.path[0] == 'Context' and a.write}):
            yield False, site, '%s is changed (%s) while a class is resolved' % (path, what)
    if not found:
        yield None, 'interpretation::Graph::Graph', 'not found'
