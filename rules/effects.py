"""C53: threads of a job share no unsynchronised mutable state.

Effects of every thread body are computed over access paths (member names from a shared object; '[]' for the elements
of a container), through calls, references, pointers kept in boost::any, function objects of the properties and
overriders of virtual functions.  Objects a thread creates itself are its own.  Two accesses of threads that can run at
the same time conflict when one of them writes, neither goes through an atomic or a concurrent queue, and one path is a
prefix of the other (reads of a container's elements conflict with changes of the container, not the other way round).
"""
import re
from ir import norm
import exits
import pipeline
from pipeline import method, last, walk

L = ('local',)
PURE_VIEW = ('operator[]', 'at', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'front', 'back', 'data', 'find', 'operator*', 'operator->',
             'get', 'first', 'second', 'top', 'lower_bound', 'upper_bound', 'equal_range', 'value', 'get_value_or', 'items', 'get_ptr')
MAPS = ('map', 'json')
# algorithms that change what their iterators denote
MUTATING = ('sort', 'stable_sort', 'partial_sort', 'reverse', 'unique', 'remove', 'remove_if', 'transform', 'copy', 'move', 'fill', 'swap', 'iter_swap',
            'rotate', 'iota', 'generate', 'replace', 'replace_if', 'copy_if', 'partition', 'stable_partition', 'nth_element', 'shuffle', 'to_lower',
            'to_upper', 'erase', 'trim', 'for_each', 'swap_ranges', 'push_heap', 'pop_heap', 'make_heap')
READ_ONLY = ('out_edges', 'in_edges', 'vertices', 'edges', 'num_vertices', 'num_edges', 'source', 'target', 'adjacent_vertices', 'edge', 'out_degree',
             'make_iterator_range', 'vertex')
ALIAS = ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::get', 'std::addressof', 'boost::get', 'std::tie', 'boost::make_iterator_range',
         'std::begin', 'std::end', 'std::next', 'std::prev', 'std::as_const', 'std::min', 'std::max', 'boost::combine')
DEPTH = 9


MUTEX = re.compile(r'\bstd::(\w*_)?mutex\b')
LOCK = re.compile(r'\bstd::(lock_guard|unique_lock|scoped_lock|shared_lock)\b')


class Undecided(Exception):
    pass


def shared(p):
    # ('&', ...) is the address of an object: having it is no access to the object
    return p[0] not in ('local', '&')


def deref(ps):
    return {p[1:] if p[0] == '&' else p for p in ps}


def address(ps):
    return {('&',) + p if shared(p) else p for p in ps}


def view(t):
    """Whether a value of the type may refer to other objects."""
    t = t or ''
    return '*' in t or '&' in t or 'iterator' in t or 'reference_wrapper' in t or '_ptr<' in t or 'range<' in t or 'boost::any' in t


class Access:
    __slots__ = ('path', 'write', 'deep', 'site', 'what', 'held')

    def __init__(self, path, write, deep, site, what, held):
        self.path, self.write, self.deep, self.site, self.what, self.held = path, write, deep, site, what, held

    def key(self):
        return self.path, self.write, self.deep, self.site, self.held


class Analysis:
    def __init__(self, pr, ctx):
        self.pr, self.ctx = pr, ctx
        self.memo = {}
        self.out = {}
        self.steps = 0
        self.unknown = set()
        self.functions = set()

    def add(self, path, write, site, what, deep, held):
        if shared(path):
            a = Access(path, write, deep, site, what, held)
            self.out.setdefault(a.key(), a)


class Frame:
    def __init__(self, an, fn, file, this, loc, pts=None, depth=0):
        self.an, self.fn, self.file, self.this, self.loc, self.depth = an, fn, file, this, dict(loc), depth
        self.pts = dict(pts or {})
        self.ret = set()
        self.stack = ()
        # mutexes held: what a lock object names, until the end of its block
        self.held = frozenset()

    # ------------------------------------------------------------------------------------------ helpers
    def site(self, e):
        return '%s (%s:%s)' % (self.fn, self.file, e.get('l') or self.line)

    line = None

    def ext(self, ps, f):
        out = set()
        for p in ps:
            if p[0] == '&':
                if f in ('first', 'second', '[]'):
                    out.add(p)
                    continue
                p = p[1:]
            if not shared(p):
                out.add(L)
            elif f in ('first', 'second') or f == '[]' and p[-1] == '[]':
                out.add(p)
            elif len(p) < DEPTH:
                out.add(p + (f,))
            else:
                out.add(p)
        return out

    def read(self, ps, e, deep=False):
        for p in ps:
            self.an.add(p, False, self.site(e), '', deep, self.held)

    def write(self, ps, e, what):
        for p in ps:
            self.an.add(p, True, self.site(e), what, False, self.held)

    def var(self, e):
        if e.get('g'):
            if const_type(e.get('t')) or e.get('tls'):
                return {L}
            if e['g'] in ('Logger',) or 'MyLogger' in (e.get('t') or ''):
                return {L}
            return {('global ' + e['g'],)}
        return self.loc.get(e.get('id'), {L})

    # lvalue paths of an expression; pointers and iterators are identified with what they denote
    def lv(self, e):
        an = self.an
        an.steps += 1
        if an.steps > 400000:
            raise Undecided('too much to follow')
        if e is None:
            return {L}
        k = e.get('k')
        if e.get('l'):
            self.line = e['l']
        if k == 'var':
            r = self.var(e)
            return r
        if k == 'this':
            return self.this
        if k == 'mem':
            r = self.ext(self.lv(e['b']), e['f'])
            return r
        if k == 'un':
            if e['op'] in ('++', '--'):
                r = self.lv(e['e'])
                if not view(e.get('t')):
                    self.write(r, e, e['op'])
                return r
            r = self.lv(e['e'])
            if e['op'] == '*':
                return deref(r)
            if e['op'] == '&':
                return address(r)
            if e['op'] in ('!', '-', '~', '+'):
                self.read(r, e)
                return {L}
            return r
        if k == 'idx':
            self.rv(e['b'])
            return self.ext(deref(self.lv(e['a'])), '[]')
        if k in ('cast', 'dyncast'):
            return self.lv(e['e'])
        if k == 'cond':
            self.rv(e['c'])
            return self.lv(e['a']) | self.lv(e['b'])
        if k == 'bin':
            if e['op'] in ('+', '-') and (view(e.get('ta')) or view(e.get('tb'))):
                return self.lv(e['a']) | self.lv(e['b'])
            self.rv(e['a'])
            self.rv(e['b'])
            return {L}
        if k == 'asg':
            t = self.lv(e['a'])
            if view(e.get('ta')) and e['op'] == '=':
                r = self.lv(e['b'])
                if e['a'].get('k') == 'var' and e['a'].get('id') is not None and not e['a'].get('g'):
                    self.loc[e['a']['id']] = self.loc.get(e['a']['id'], set()) | r
                    return self.loc[e['a']['id']]
                self.write(t, e, '=')
                return t
            self.rv(e['b'])
            self.write(t, e, e['op'])
            return t
        if k == 'call':
            return self.call(e)
        if k == 'ctor':
            return self.ctor(e)
        if k == 'init':
            out = {L}
            for x in e['items']:
                r = self.rv(x)
                if view(e.get('ty')):
                    out |= r
            return out
        if k == 'lambda':
            return {L}
        if k in ('new', 'delete', 'throw'):
            if e.get('e') is not None:
                self.rv(e['e'])
            return {L}
        if k == 'unk':
            for x in e.get('args') or []:
                self.rv(x)
            return {L}
        return {L}

    def rv(self, e):
        """Evaluates for the value: everything denoted is read."""
        if e is None:
            return {L}
        if isinstance(e, list):
            for x in e:
                self.rv(x)
            return {L}
        r = self.lv(e)
        if e.get('k') in ('var', 'mem', 'idx', 'call', 'un', 'cond', 'cast'):
            self.read(r, e)
        return r

    # ------------------------------------------------------------------------------------------ calls
    def lambda_of(self, e):
        while e is not None and (e.get('k') == 'cast' or e.get('k') == 'call' and norm(e.get('fn') or '') in ('std::move', 'std::ref', 'std::forward')):
            e = e['e'] if e.get('k') == 'cast' else e['args'][0]
        if e is None:
            return None
        if e.get('k') == 'lambda':
            return e
        if e.get('k') == 'var' and e.get('id') in self.lambdas:
            return self.lambdas[e['id']]
        return None

    lambdas = {}

    def run_lambda(self, lam, args):
        """A lambda evaluated where it is created: it sees the variables of this frame."""
        if lam.get('body') is None:
            return {L}
        key = id(lam)
        if key in self.stack:
            return {L}
        saved, sret, stack = dict(self.loc), self.ret, self.stack
        self.stack = self.stack + (key,)
        self.ret = set()
        for c in lam['caps']:
            if c.get('init') is not None and c.get('id') is not None:
                self.loc[c['id']] = self.lv(c['init']) if c.get('byref') or view(c.get('t')) else {L}
        for p, a in zip(lam['params'], list(args) + [{L}] * len(lam['params'])):
            self.loc[p['id']] = a
        self.stmt(lam['body'])
        r = self.ret
        self.ret, self.stack = sret, stack
        for i in saved:
            self.loc[i] = saved[i]
        return r if view(lam.get('ret')) else {L}

    def ctor(self, e):
        f = self.an.pr.funcs.get(e.get('fid')) if e.get('fid') else None
        if f is not None and f.get('body') is not None:
            return self.invoke(f, {L}, e['args'], e)
        out = {L}
        for a in e['args']:
            r = self.lv(a)
            if view(e.get('ty')):
                out |= r
            else:
                self.read(r, e, deep=True)
        if e.get('ilist') or e.get('list'):
            pass
        return out

    def call(self, e):
        fn = norm(e.get('fn') or '')
        m = last(fn)
        pr = self.an.pr
        if fn.startswith('MyLogger') or fn.startswith(('fmt::', 'spdlog::')):
            for a in e.get('args') or []:
                self.rv(a)
            return {L}
        if not e.get('fn'):
            c = e.get('callee')
            lam = self.lambda_of(c)
            args = [self.lv(a) for a in e['args']]
            if lam is not None:
                return self.run_lambda(lam, args)
            return {L}
        if fn == 'std::function::operator()' or (m == 'operator()' and self.lambda_of(e.get('obj')) is not None):
            args = [self.lv(a) for a in e['args']]
            lam = self.lambda_of(e.get('obj'))
            if lam is not None:
                return self.run_lambda(lam, args)
            self.read(self.lv(e['obj']), e)
            for g, host in self.an.callbacks():
                if len(g['params']) == len(e['args']):
                    self.closure(g, host, args, e)
            return {L}
        if pipeline.is_atomic(e) or pipeline.is_queue(e):
            for a in e['args']:
                # the item is moved in or out
                self.rv(a)
            if pipeline.is_queue(e) and method(e) in pipeline.TAKE:
                for a in e['args']:
                    self.write(self.lv(a), e, 'takes an item')
            self.lv(e['obj'])
            return {L}
        if pipeline.is_thread(e):
            return {L}
        if MUTEX.search(e.get('ot') or ''):
            ps = frozenset(p for p in deref(self.lv(e['obj'])) if p[0] != 'local')
            if m in ('lock', 'lock_shared'):
                self.held |= ps
            elif m in ('unlock', 'unlock_shared'):
                self.held -= ps
            return {L}
        f = pr.funcs.get(e.get('fid')) if e.get('fid') else None
        if e.get('virtual') and e.get('obj') is not None and self.an.overriders(fn):
            this = deref(self.lv(e['obj']))
            out = set()
            for g in self.an.overriders(fn):
                out |= self.invoke(g, this, e['args'], e)
            return out or {L}
        if f is not None and f.get('body') is not None:
            args = list(e['args'])
            this = {L}
            if f.get('cls') and not f.get('static'):
                this = deref(self.lv(e['obj'])) if e.get('obj') is not None else self.this
            elif e.get('obj') is not None:
                args = [e['obj']] + args
            return self.invoke(f, this, args, e)
        return self.library(e, fn, m)

    def library(self, e, fn, m):
        args = e.get('args') or []
        lams = [self.lambda_of(a) for a in args]
        ps = [self.lv(a) if lams[i] is None else {L} for i, a in enumerate(args)]
        refs = e.get('refs') or []
        ot = e.get('ot') or ''
        rt = e.get('rt') or e.get('t') or ''
        out = {L}
        if e.get('obj') is not None:
            o = self.lv(e['obj'])
            if (e['obj'].get('t') or '').rstrip().endswith('*'):
                o = deref(o)
            const = e.get('const') or ot.startswith('const ')
            isview = view(ot) and not ot.startswith(('std::vector', 'std::map', 'boost::unordered', 'boost::adjacency', 'nlohmann'))
            if fn.startswith('boost::any') or norm(ot).startswith('boost::any'):
                isview = True
            if m in PURE_VIEW and not (m == 'operator[]' and not const and any(x in norm(ot).split('<')[0] for x in MAPS)):
                self.read(o, e)
                out = self.ext(o, '[]') if not isview else set(o)
            elif m in ('operator++', 'operator--', 'operator+=', 'operator-=') and isview:
                out = set(o)
            elif m == 'operator=' and isview:
                for a, p in zip(args, ps):
                    self.join(e['obj'], p)
                out = set(o)
            elif m == 'operator=' and pointers(ot):
                for p in ps:
                    self.join(e['obj'], p)
                self.write(o, e, fn)
            elif const or m in ('operator bool', 'operator basic_string') or e.get('conv'):
                self.read(o, e)
                if view(rt):
                    out = self.ext(o, '[]')
            elif m == 'reset' and isview or m == 'release' and isview or isview and m.startswith('operator'):
                out = set(o)
            else:
                self.write(o, e, m)
                if m == 'operator[]' or '&' in rt or 'iterator' in rt:
                    out = self.ext(o, '[]')
                if pointers(ot) and m in pipeline.MUTATE:
                    for p in ps:
                        self.join(e['obj'], p)
            for i, (a, p) in enumerate(zip(args, ps)):
                if i < len(refs) and refs[i]:
                    self.write(p, e, fn)
                elif lams[i] is None:
                    self.read(p, e, deep=m in pipeline.MUTATE)
            self.callbacks(lams, [self.ext(o, '[]')] + ps, e)
            return out
        for i, (a, p) in enumerate(zip(args, ps)):
            at = (e.get('at') or [])[i] if i < len(e.get('at') or []) else ''
            if lams[i] is not None:
                continue
            if m in READ_ONLY or fn in ALIAS or fn.startswith('boost::any_cast'):
                self.read(p, e)
            elif i < len(refs) and refs[i] and not at.startswith('const '):
                if fn.startswith('boost::') and m in ('add_vertex', 'add_edge', 'remove_edge', 'remove_vertex', 'clear_vertex') or True:
                    self.write(p, e, fn)
            elif m in MUTATING and view(at) and not at.startswith('const ') and not const_view(at) and target(m, i, len(args)):
                self.write(p, e, fn)
            else:
                self.read(p, e)
        self.callbacks(lams, ps, e)
        if view(rt) or fn in ALIAS or fn.startswith('boost::any_cast') or m in ('make_iterator_range',):
            out = set()
            for p in ps:
                out |= p if fn in ALIAS and fn not in ('std::get', 'boost::get', 'std::begin', 'std::end', 'boost::make_iterator_range') or fn.startswith('boost::any_cast') \
                    else self.ext(p, '[]')
            if m in READ_ONLY:
                # descriptors are values
                out = {L} if m != 'make_iterator_range' else out
        return out or {L}

    def join(self, e, p):
        """A value that may refer to p is kept in the local e."""
        while e.get('k') in ('mem', 'idx', 'call', 'cast'):
            e = e.get('b') or e.get('a') or e.get('obj') or e.get('e')
            if e is None or isinstance(e, list):
                return
        if e.get('k') == 'var' and e.get('id') is not None and not e.get('g'):
            self.loc[e['id']] = self.loc.get(e['id'], {L}) | p

    def callbacks(self, lams, ps, e):
        el = {L}
        for p in ps:
            el |= self.ext(p, '[]') if True else p
        for lam in lams:
            if lam is not None:
                self.run_lambda(lam, [el] * len(lam['params']))

    def closure(self, g, host, args, e):
        """A property handed over as function object: what it captured by value belongs to the job."""
        if g.get('k') == 'lambda':
            loc = {}
            for c in g['caps']:
                if c.get('this'):
                    continue
                loc[c['id']] = {('captured %s of %s' % (c['n'], host),)}
            this = {('Driver',)}
            key = (id(g), self.held, frozenset((i, frozenset(a)) for i, a in enumerate(args)))
            if key in self.an.memo:
                return
            self.an.memo[key] = {L}
            fr = Frame(self.an, host, 'src/driver.cpp', this, loc, depth=self.depth + 1)
            for p, a in zip(g['params'], args):
                fr.loc[p['id']] = a
            fr.line = g.get('l')
            fr.held = self.held
            fr.stmt(g['body'])
        else:
            self.invoke(g, {L}, None, e, args)

    def invoke(self, f, this, args, e, ps=None):
        if ps is None:
            ps = [self.lv(a) for a in args]
            for i, a in enumerate(args):
                if i < len(f['params']) and not view(f['params'][i]['t']) and not f['params'][i].get('ref'):
                    self.read(ps[i], e, deep=True)
                    if not pointers(f['params'][i]['t']):
                        ps[i] = {L}
        key = (id(f), self.held, frozenset(this), tuple(frozenset(p) for p in ps))
        if key in self.an.memo:
            return self.an.memo[key]
        self.an.memo[key] = {L}
        self.an.functions.add(norm(f['q']))
        if self.depth > 40:
            raise Undecided('calls too deep')
        ret = {L}
        # recursion: once more with what the function is known to return
        for _ in range(2):
            fr = Frame(self.an, norm(f['q']), f['file'], this, {}, depth=self.depth + 1)
            fr.line = f.get('l')
            fr.held = self.held
            for p, a in zip(f['params'], ps):
                fr.loc[p['id']] = a
            for p in f['params'][len(ps):]:
                fr.loc[p['id']] = {L}
            for i in f.get('inits') or []:
                r = fr.rv(i['e'])
            fr.stmt(f['body'])
            r = fr.ret if view(f.get('ret')) or pointers(f.get('ret')) else {L}
            if r <= self.an.memo[key]:
                break
            self.an.memo[key] = ret = self.an.memo[key] | r
        return self.an.memo[key]

    # ------------------------------------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        k = s['s']
        if s.get('l'):
            self.line = s['l']
        if k == 'block':
            held = self.held
            for x in s['b']:
                self.stmt(x)
            if any(x['s'] == 'decl' for x in s['b']):
                self.held = held
        elif k == 'decl':
            for v in s['vars']:
                self.decl(v)
        elif k == 'expr':
            self.lv(s['e'])
        elif k == 'if':
            if s.get('init'):
                self.stmt(s['init'])
            if s.get('cv'):
                self.decl(s['cv'])
            self.rv(s['c'])
            self.stmt(s['then'])
            self.stmt(s.get('else'))
        elif k in ('while', 'do', 'for'):
            if s.get('init'):
                self.stmt(s['init'])
            for _ in range(2):
                if s.get('cv'):
                    self.decl(s['cv'])
                if s.get('c') is not None:
                    self.rv(s['c'])
                self.stmt(s['body'])
                if s.get('inc') is not None:
                    self.lv(s['inc'])
        elif k == 'rfor':
            r = self.lv(s['range'])
            self.read(r, s)
            v = s['var']
            el = self.ext(r, '[]')
            if not v.get('ref') and not view(v['t']) and not pointers(v['t']):
                self.read(el, s, deep=True)
                el = {L}
            for _ in range(2):
                self.bindvar(v, el)
                self.stmt(s['body'])
        elif k == 'ret':
            if s.get('e') is not None:
                r = self.rv(s['e'])
                self.ret |= r
        elif k == 'try':
            self.stmt(s['b'])
            for h in s['h']:
                self.stmt(h['b'])
        elif k == 'switch':
            if s.get('init'):
                self.stmt(s['init'])
            self.rv(s['c'])
            for x in s['b']:
                self.stmt(x)
        elif k == 'label':
            self.stmt(s['b'])

    def decl(self, v):
        i = v.get('init')
        if LOCK.search(v['t']) and i is not None:
            if not any('defer_lock' in (x.get('t') or '') or 'try_to_lock' in (x.get('t') or '') for x in walk(i)):
                ps = {p for x in i.get('args') or [] for p in deref(self.lv(x))}
                self.held |= frozenset(p for p in ps if p[0] != 'local')
            self.loc[v['id']] = {L}
            return
        if v.get('static'):
            p = {('static %s of %s' % (v['n'], self.fn),)}
            self.loc[v['id']] = {L} if const_type(v['t']) else p
            return
        if i is None:
            self.bindvar(v, {L})
            return
        if i.get('k') == 'lambda':
            self.lambdas = {**self.lambdas, v['id']: i}
            for c in i['caps']:
                if c.get('init') is not None:
                    self.rv(c['init'])
            self.loc[v['id']] = {L}
            return
        r = self.lv(i)
        if v.get('ref') or view(v['t']):
            self.bindvar(v, r)
        else:
            self.read(r, v if v.get('l') else i, deep=True)
            self.bindvar(v, r if pointers(v['t']) else {L})

    def bindvar(self, v, ps):
        old = self.loc.get(v['id'])
        self.loc[v['id']] = set(ps)
        for b in v.get('bind') or []:
            self.loc[b['id']] = set(ps)
            if b.get('hv') is not None:
                self.loc[b['hv']] = set(ps)


def const_type(t):
    t = (t or '').strip()
    return t.startswith('const ') and '*' not in t or t.endswith('const')


def const_view(t):
    return 'const_iterator' in t or t.startswith('__gnu_cxx::__normal_iterator<const ') or 'const *' in t


def pointers(t):
    """Containers whose elements refer to other objects."""
    t = t or ''
    return '*' in t or 'boost::any' in t or 'reference_wrapper' in t or 'shared_ptr' in t or 'iterator' in t


def target(m, i, n):
    """Whether argument i of a mutating algorithm is what it changes."""
    if m in ('copy', 'copy_if', 'transform', 'move'):
        return i >= 2
    return True


def analysis(pr, ctx):
    an = Analysis(pr, ctx)
    cbs = None

    def callbacks():
        nonlocal cbs
        if cbs is None:
            cbs = []
            for q, fs in pr.byname.items():
                if q.startswith('Driver::'):
                    for f in fs:
                        for x in walk(f.get('body')):
                            if x.get('k') == 'lambda' and x.get('body') is not None and x.get('params'):
                                cbs.append((x, q))
                            if x.get('k') == 'fnref' and x.get('fid') in pr.funcs and 'Properties' in x['fn']:
                                cbs.append((pr.funcs[x['fid']], q))
        return cbs

    def overriders(fn):
        m = fn.split('::')[-1]
        base = fn.rsplit('::', 1)[0]
        if base not in pr.records:
            return []
        return [g for q, l in pr.byname.items() if q.split('::')[-1] == m for g in l
                if g.get('virtual') and g.get('body') is not None and ctx.is_a(q.rsplit('::', 1)[0], base)]
    an.callbacks, an.overriders = callbacks, overriders
    return an


def thread_effects(pr, f, S, ctx, role):
    """Accesses of a thread to what it shares with the function that started it."""
    an = analysis(pr, ctx)
    loc = starter_locals(f, S)
    fr = Frame(an, norm(f['q']), f['file'], {('Driver',)}, loc)
    a = role.e['args'][0]
    if a.get('k') == 'lambda':
        for c in a['caps']:
            if c.get('this') or c.get('id') is None:
                continue
            if not c.get('byref'):
                fr.loc[c['id']] = {L} if not pointers(c.get('t')) else fr.loc.get(c['id'], {L})
    fr.line = role.line
    fr.stmt(role.code)
    return an


def starter_locals(f, S):
    """Locals of the starter are shared by what captures them; what a vector of boost::any refers to."""
    loc = {}
    for x in walk_outside_lambdas(f['body']):
        if x.get('s') == 'decl':
            for v in x['vars']:
                loc[v['id']] = {('local ' + v['n'],)}
    # pointers stored in containers of boost::any
    fr = Frame(Analysis(S.pr, None), '', '', {('Driver',)}, {})
    for x in walk_outside_lambdas(f['body']):
        if x.get('k') == 'call' and method(x) in ('push_back', 'emplace_back') and x.get('obj') is not None and x['obj'].get('k') == 'var' \
                and 'boost::any' in (x.get('ot') or ''):
            for a in x['args']:
                loc[x['obj']['id']] = loc.get(x['obj']['id'], set()) | fr.lv(a)
    return loc


def walk_outside_lambdas(x):
    if isinstance(x, dict):
        if x.get('k') == 'lambda':
            return
        yield x
        for y in x.values():
            yield from walk_outside_lambdas(y)
    elif isinstance(x, list):
        for y in x:
            yield from walk_outside_lambdas(y)


SYNC = ('std::atomic', 'moodycamel::ConcurrentQueue')


def conflicts(a, b):
    """Whether accesses a (a write) and b touch the same memory."""
    if a.held & b.held:
        return False
    n = min(len(a.path), len(b.path))
    if a.path[:n] != b.path[:n]:
        return False
    if len(a.path) <= len(b.path):
        return True
    # a writes inside what b reads: only a copy or another write of the whole touches it
    return b.write or b.deep


def check(pr):
    fs = pipeline.starters(pr)
    if not fs:
        yield None, 'threads', 'no function starts threads'
    for f in fs:
        where = '%s (%s:%s)' % (norm(f['q']), f['file'], f['l'])
        S = pipeline.Starter(pr, f)
        try:
            S.run(f['body'], {pipeline.State()})
            ctx = pipeline.Context(pr, f, S)
            ctx.summarise()
            yield from races(pr, f, S, ctx)
        except (pipeline.Unknown, pipeline.Problem, Undecided) as u:
            yield None, where, str(u) or repr(u)
        except (KeyError, TypeError, IndexError, RecursionError, AttributeError) as u:
            yield None, where, 'not understood: %r' % u


def races(pr, f, S, ctx):
    eff = {}
    for k, r in ctx.roles.items():
        an = thread_effects(pr, f, S, ctx, r)
        eff[k] = an
        yield True, '%s: %d functions, %d accesses to shared objects' % (r.name, len(an.functions), len(an.out)), ''
    # what the starter does meanwhile
    an = analysis(pr, ctx)
    fr = Frame(an, norm(f['q']), f['file'], {('Driver',)}, starter_locals(f, S))
    alive = {}
    for e, live in S.exprs.values():
        n = set(an.out)
        if e.get('k') in ('call', 'asg', 'un') and not pipeline.is_thread(e):
            fr.line = e.get('l')
            fr.lv(e)
        for key in set(an.out) - n:
            alive.setdefault(key, set()).update(live)
    pairs = set()
    ks = list(ctx.roles)
    for i, j in ((x, y) for x in ks for y in ks):
        if i == j and ctx.roles[i].count < 2:
            continue
        if i != j and (i, j) not in S.alive_pairs:
            continue
        pairs.add((i, j))
    seen = set()
    for i, j in sorted(pairs, key=lambda p: (ctx.roles[p[0]].line, ctx.roles[p[1]].line)):
        for a in eff[i].out.values():
            if not a.write:
                continue
            for b in eff[j].out.values():
                if conflicts(a, b) and (a.path, a.site, b.site) not in seen:
                    seen.add((a.path, a.site, b.site))
                    seen.add((a.path, b.site, a.site))
                    yield False, a.site, '%s is changed by the %s while the %s %s it at %s without synchronisation' % (
                        show(a.path), ctx.roles[i].name, ctx.roles[j].name if i != j else 'same code in another thread', 'changes' if b.write else 'reads', b.site)
    for key, live in alive.items():
        m = an.out[key]
        for k in live:
            for b in eff[k].out.values():
                if m.write and conflicts(m, b) or b.write and conflicts(b, m):
                    if (m.path, m.site, b.site) in seen:
                        continue
                    seen.add((m.path, m.site, b.site))
                    yield False, m.site, '%s is used by the starting thread while the %s uses it at %s without synchronisation' % (show(m.path), ctx.roles[k].name, b.site)


def show(p):
    return '.'.join(p).replace('.[]', '[]')
