"""C52: nothing is lost between the producer, the workers and the collectors of a job.

The function that starts the threads and the body of every thread are evaluated over a finite domain (booleans and
small integers of locals, results of the shared flag, counter and queue operations) together with an automaton:

 starter   every thread is joined before the function returns; a finish flag is false before the threads that read it
           start and becomes true only after the producing threads are joined; no thread is waited for that cannot end.
 consumer  a thread that takes items from a queue ends (or reports to be done) only after it has seen the queue empty
           while knowing that all producers of the queue have finished - by a finish flag, or by the counter all
           producers advance.  Every item taken is used before the next one is taken.
 counter   every worker advances it; the bound the collectors wait for is reached exactly when all workers have done so.
"""
from ir import norm
import exits

QUEUE = 'moodycamel::ConcurrentQueue::'
TAKE = ('try_dequeue', 'try_dequeue_non_interleaved', 'try_dequeue_from_producer')
PUT = ('enqueue', 'try_enqueue')
MUTATE = ('insert', 'emplace', 'push_back', 'emplace_back', 'push_front', 'push', 'merge', 'operator=', 'assign', 'append', 'add',
          'operator+=', 'try_emplace', 'insert_or_assign', 'update', 'emplace_hint')
CMAX = 24


class Unknown(Exception):
    pass


class Problem(Exception):
    def __init__(self, line, why):
        self.line, self.why = line, why


def walk(x):
    return exits.walk(x)


def last(fn):
    return fn.split('::')[-1] if not fn.endswith('::operator') else fn


class State:
    """Values of locals, automaton variables (both as sorted tuples)."""
    __slots__ = ('v', 'a')

    def __init__(self, v=(), a=()):
        self.v, self.a = v, a

    def __eq__(self, o):
        return self.v == o.v and self.a == o.a

    def __hash__(self):
        return hash((self.v, self.a))

    def get(self, k):
        return dict(self.v).get(k)

    def set(self, k, x):
        d = dict(self.v)
        if x is None:
            d.pop(k, None)
        else:
            d[k] = x
        return State(tuple(sorted(d.items(), key=str)), self.a)

    def g(self, k, default=None):
        return dict(self.a).get(k, default)

    def s(self, k, x):
        d = dict(self.a)
        d[k] = x
        return State(self.v, tuple(sorted(d.items(), key=str)))


class Walker:
    """Evaluates statements over sets of states; subclasses define what happens at events."""
    LIMIT = 60000
    INTS = 40

    def __init__(self, pr):
        self.pr = pr
        self.bind = [{}]           # variable id -> expression it stands for (references, parameters)
        self.depth = 0
        self.steps = 0
        self.marks = {}

    # ------------------------------------------------------------------------------------------ names of objects
    def obj(self, e):
        """A name for the object an expression denotes."""
        k = e.get('k') if e else None
        if k == 'var':
            if e.get('g'):
                return 'global ' + e['g']
            b = self.lookup(e.get('id'))
            if b is not None:
                return b
            return 'local %s#%s' % (e['n'], e['id'])
        if k == 'mem':
            return '%s::%s' % (e.get('rec'), e['f'])
        if k == 'un' and e['op'] in ('*', '&'):
            return self.obj(e['e'])
        if k in ('cast', 'dyncast'):
            return self.obj(e['e'])
        if k == 'idx':
            return self.obj(e['a']) + '[]'
        if k == 'call':
            fn = norm(e.get('fn') or '')
            if fn in ('std::move', 'std::ref', 'std::forward', 'std::cref', 'std::addressof') and e['args']:
                return self.obj(e['args'][0])
            if last(fn) in ('get', 'operator*', 'operator->', 'value') and e.get('obj') is not None:
                return self.obj(e['obj'])
            if last(fn) in ('operator[]', 'at', 'front', 'back') and e.get('obj') is not None:
                return self.obj(e['obj']) + '[]'
        if k == 'this':
            return 'this'
        return '?'

    def lookup(self, i):
        return self.bind[-1].get(i)

    # ------------------------------------------------------------------------------------------ statements
    def run(self, s, sts):
        """-> {'next': states, 'break':, 'cont':, 'ret':}"""
        out = {'next': set(), 'break': set(), 'cont': set(), 'ret': set()}
        if not sts:
            return out
        self.steps += len(sts)
        if self.steps > self.LIMIT:
            raise Unknown('too many states')
        if s is None:
            out['next'] = set(sts)
            return out
        k = s['s']
        if k == 'block':
            cur = set(sts)
            for x in s['b']:
                r = self.run(x, cur)
                cur = r['next']
                for c in ('break', 'cont', 'ret'):
                    out[c] |= r[c]
            out['next'] = cur
            return out
        if k == 'decl':
            cur = set(sts)
            for v in s['vars']:
                cur = {y for st in cur for y in self.declare(v, st)}
            out['next'] = cur
            return out
        if k == 'expr':
            out['next'] = {y for st in sts for _, y in self.ev(s['e'], st)}
            return out
        if k == 'ret':
            if s.get('e') is not None:
                for st in sts:
                    for v, y in self.ev(s['e'], st):
                        out['ret'].add(y.set(('ret', self.depth), v))
            else:
                out['ret'] = set(sts)
            return out
        if k == 'if':
            cur = set(sts)
            if s.get('init'):
                cur = self.run(s['init'], cur)['next']
            if s.get('cv'):
                cur = {y for st in cur for y in self.declare(s['cv'], st)}
            t, f = self.cond(s['c'], cur)
            for branch, b in ((s['then'], t), (s.get('else'), f)):
                r = self.run(branch, b)
                for c in out:
                    out[c] |= r[c]
            return out
        if k in ('while', 'for', 'do'):
            cur = set(sts)
            if s.get('init'):
                cur = self.run(s['init'], cur)['next']
            seen, todo, done = set(), cur, set()
            first = k == 'do'
            while todo:
                if first:
                    t = todo
                    first = False
                else:
                    if s.get('cv'):
                        todo = {y for st in todo for y in self.declare(s['cv'], st)}
                    t, f = self.cond(s['c'], todo) if s.get('c') is not None else (todo, set())
                    done |= f
                t = t - seen
                seen |= t
                r = self.run(s['body'], t)
                out['ret'] |= r['ret']
                done |= r['break']
                nxt = r['next'] | r['cont']
                if s.get('inc') is not None:
                    nxt = {y for st in nxt for _, y in self.ev(s['inc'], st)}
                self.steps += len(nxt)
                if self.steps > self.LIMIT:
                    raise Unknown('too many states')
                todo = nxt if k != 'do' else nxt
                # states seen at the loop head before need not be visited again
                key = ('head', id(s), self.depth)
                head = self.marks.setdefault(key, set())
                todo = todo - head if head else todo
                head |= todo
            self.marks.pop(('head', id(s), self.depth), None)
            out['next'] = done
            return out
        if k == 'rfor':
            return self.rfor(s, sts, out)
        if k == 'try':
            r = self.run(s['b'], sts)
            for c in out:
                out[c] |= r[c]
            if any(self.interesting(h['b']) for h in s['h']) or self.interesting(s['b']):
                raise Unknown('exception handler around an operation of the pipeline')
            return out
        if k == 'break':
            out['break'] = set(sts)
            return out
        if k == 'continue':
            out['cont'] = set(sts)
            return out
        if k == 'null':
            out['next'] = set(sts)
            return out
        if k == 'switch' and not self.interesting(s):
            out['next'] = set(sts)
            return out
        raise Unknown('statement %s' % k)

    def rfor(self, s, sts, out):
        sts = {y for st in sts for _, y in self.ev(s['range'], st)}
        seen, todo = set(), set(sts)
        done = set(sts)
        while todo - seen:
            t = todo - seen
            seen |= t
            t2 = {self.forget(s['var'], st) for st in t}
            r = self.run(s['body'], t2)
            out['ret'] |= r['ret']
            done |= r['break'] | r['next'] | r['cont']
            todo = r['next'] | r['cont']
        out['next'] = done
        return out

    def forget(self, v, st):
        for i in [v['id']] + [b['id'] for b in v.get('bind') or []]:
            st = st.set(i, None)
        return st

    def declare(self, v, st):
        if v.get('static'):
            raise Unknown('static local')
        i = v.get('init')
        if i is None:
            return [st.set(v['id'], None)]
        if v.get('ref') and i.get('k') in ('var', 'mem', 'idx', 'un', 'call'):
            o = self.obj(i)
            if o != '?':
                self.bind[-1][v['id']] = o
                return [y for _, y in self.ev(i, st)]
        if 'std::atomic' in norm(v.get('t') or '') or i.get('k') == 'ctor' and 'thread' in norm(i.get('ty') or '') \
                or norm(v.get('t') or '').startswith('std::thread') or norm(v.get('t') or '').startswith('std::jthread'):
            r = self.declared(v, i, st)
            if r is not None:
                return r
        if '*' in (v.get('t') or '') and i.get('k') in ('un', 'mem', 'var'):
            o = self.obj(i)
            if o != '?':
                self.bind[-1][v['id']] = o
        return [y.set(v['id'], x) for x, y in self.ev(i, st)]

    def declared(self, v, i, st):
        return None

    def cond(self, c, sts):
        t, f = set(), set()
        for st in sts:
            for v, y in self.ev(c, st):
                if v is None or v is True or (isinstance(v, int) and v):
                    t.add(y)
                if v is None or v is False or (isinstance(v, int) and not v):
                    f.add(y)
        return t, f

    # ------------------------------------------------------------------------------------------ expressions
    def ev(self, e, st):
        """-> list of (constant or None, state)"""
        self.steps += 1
        if self.steps > self.LIMIT * 20:
            raise Unknown('too many states')
        if e is None:
            return [(None, st)]
        if isinstance(e, list):
            cur = [st]
            for x in e:
                cur = list(dict.fromkeys(y for s in cur for _, y in self.ev(x, s)))
            return [(None, y) for y in cur]
        k = e.get('k')
        if k == 'int':
            return [(e['v'], st)]
        if k == 'bool':
            return [(bool(e['v']), st)]
        if k == 'enum':
            return [(e.get('v'), st)]
        if k == 'var':
            r = self.event(e, st)
            if r is not None:
                return r
            return [(st.get(e.get('id')), st)]
        if k == 'null':
            return [(0, st)]
        if k in ('str', 'char', 'this', 'float', 'zero', 'fnref'):
            return [(None, st)]
        if k == 'mem':
            r = self.event(e, st)
            if r is not None:
                return r
            return [(None, y) for _, y in self.ev(e['b'], st)]
        if k == 'lambda':
            return [(None, st)]
        if k == 'un':
            r = self.event(e, st)
            if r is not None:
                return r
            op = e['op']
            if op in ('++', '--'):
                t = e['e']
                if t.get('k') == 'var' and t.get('id') is not None and self.lookup(t['id']) is None:
                    out = []
                    for v, y in self.ev(t, st):
                        w = None if v is None or isinstance(v, bool) else v + (1 if op == '++' else -1)
                        if w is not None and abs(w) > self.INTS:
                            w = None
                        out.append((v if e.get('post') else w, y.set(t['id'], w)))
                    return out
                return [(None, y) for _, y in self.ev(t, st)]
            out = []
            for v, y in self.ev(e['e'], st):
                if v is not None and op == '!':
                    v = not v
                elif v is not None and op == '-':
                    v = -v
                elif op == '+':
                    pass
                else:
                    v = None
                out.append((v, y))
            return out
        if k == 'bin':
            op = e['op']
            if op in ('&&', '||'):
                out = []
                for v, y in self.ev(e['a'], st):
                    b = None if v is None else bool(v)
                    if b is None or b == (op == '&&'):
                        out += [(None if w is None else bool(w), z) for w, z in self.ev(e['b'], y)]
                    if b is None or b != (op == '&&'):
                        out.append((op == '||', y))
                return out
            out = []
            for v, y in self.ev(e['a'], st):
                for w, z in self.ev(e['b'], y):
                    out.append((arith(op, v, w), z))
            r = self.binary(e, out)
            return r if r is not None else out
        if k == 'asg':
            r = self.event(e, st)
            if r is not None:
                return r
            return self.assign(e['a'], e['op'], e['b'], st)
        if k == 'cond':
            out = []
            for v, y in self.ev(e['c'], st):
                if v is None or v:
                    out += self.ev(e['a'], y)
                if v is None or not v:
                    out += self.ev(e['b'], y)
            return out
        if k == 'cast':
            t = norm(e.get('ty') or '')
            out = self.ev(e['e'], st)
            if t == 'bool':
                return [(None if v is None else bool(v), y) for v, y in out]
            return out
        if k == 'dyncast':
            out = []
            for _, y in self.ev(e['e'], st):
                r = self.event(e, y)
                out += r if r is not None else [(None, y)]
            return out
        if k in ('call', 'ctor'):
            return self.call(e, st)
        if k == 'init':
            return self.ev(e['items'], st)
        if k == 'idx':
            return [(None, y) for _, y in self.ev([e['a'], e['b']], st)]
        if k in ('throw', 'new', 'delete', 'unk', 'memfn'):
            if self.interesting(e):
                raise Unknown('expression %s' % k)
            return [(None, st)]
        raise Unknown('expression %s' % k)

    def binary(self, e, out):
        return None

    def assign(self, a, op, b, st):
        out = []
        for w, y in self.ev(b, st):
            if a.get('k') == 'var' and a.get('id') is not None and self.lookup(a['id']) is None:
                v = w if op == '=' else arith(op[:-1], y.get(a['id']), w)
                out.append((v, y.set(a['id'], v)))
            else:
                out += [(w if op == '=' else None, z) for _, z in self.ev(a, y)]
        return out

    def call(self, e, st):
        r = self.event(e, st)
        if r is not None:
            return r
        fn = norm(e.get('fn') or '')
        f = self.pr.funcs.get(e.get('fid')) if e.get('fid') else None
        if e.get('noret'):
            for _ in self.ev([e.get('obj')] + list(e['args']) if e.get('obj') else list(e['args']), st):
                pass
            return []
        if f is not None and f.get('body') is not None and (self.enter(f) or self.handed(f, e, st)):
            return self.inline(f, e, st)
        if not e.get('fn') and e.get('callee') is not None and e['callee'].get('k') == 'lambda':
            return self.inline(dict(e['callee'], q='lambda'), e, st)
        parts = ([e['obj']] if e.get('obj') is not None else []) + list(e.get('args') or [])
        lam = [x for x in parts if x.get('k') == 'lambda']
        if any(self.interesting(x.get('body')) for x in lam):
            raise Unknown('callback with an operation of the pipeline')
        out = [(None, y) for _, y in self.ev(parts, st)]
        # a local changed through a reference is no longer known
        refs = e.get('refs') or []
        for i, x in enumerate(e.get('args') or []):
            if i < len(refs) and refs[i] and x.get('k') == 'var' and x.get('id') is not None:
                out = [(v, y.set(x['id'], None)) for v, y in out]
        return out

    def enter(self, f):
        return self.interesting(f['body'])

    def references(self, code):
        """Local references stand for what they are bound to."""
        for x in walk(code):
            if x.get('s') == 'decl':
                for v in x['vars']:
                    i = v.get('init')
                    if v.get('ref') and i is not None and i.get('k') in ('var', 'mem', 'idx', 'un', 'call') and self.obj(i) != '?':
                        self.bind[-1][v['id']] = self.obj(i)

    def handed(self, f, e, st):
        return False

    def by_name(self, a, o, st):
        """Whether a parameter taken by value stands for the object o of the argument."""
        return False

    def inline(self, f, e, st):
        if self.depth > 8:
            raise Unknown('recursion')
        parts = []
        out = [st]
        b = {}
        vals = {}
        args = list(e.get('args') or [])
        for p, a in zip(f['params'], args):
            o = self.obj(a)
            if (p.get('ref') or '*' in p['t'] or self.by_name(a, o, st)) and o != '?':
                b[p['id']] = o
            else:
                vals[p['id']] = a
        for i, a in vals.items():
            out = [y.set(i, v) for s in out for v, y in self.ev(a, s)]
        self.bind.append({**self.bind[-1], **b})
        self.references(f['body'])
        self.depth += 1
        try:
            r = self.run(f['body'], set(out))
        finally:
            self.depth -= 1
            self.bind.pop()
        key = ('ret', self.depth + 1)
        return [(y.get(key), y.set(key, None)) for y in r['ret']] + [(None, y) for y in r['next']]

    # ------------------------------------------------------------------------------------------ events
    def event(self, e, st):
        return None

    _int = None

    def interesting(self, x):
        """Whether a piece of program performs an operation of the pipeline (also through calls)."""
        if self._int is None:
            self._int = {}
        key = id(x)
        if key in self._int:
            return self._int[key]
        self._int[key] = False
        r = False
        for c in walk(x):
            if self.is_event(c):
                r = True
                break
            if c.get('k') in ('call', 'ctor') and c.get('fid') and not c.get('virtual'):
                g = self.pr.funcs.get(c['fid'])
                if g is not None and g.get('body') is not None and self.interesting(g['body']):
                    r = True
                    break
        self._int[key] = r
        return r

    def is_event(self, c):
        return is_op(c)


def arith(op, v, w):
    if v is None or w is None:
        return None
    try:
        return {'+': lambda: v + w, '-': lambda: v - w, '*': lambda: v * w, '==': lambda: v == w, '!=': lambda: v != w,
                '<': lambda: v < w, '<=': lambda: v <= w, '>': lambda: v > w, '>=': lambda: v >= w, '&': lambda: v & w,
                '|': lambda: v | w, '^': lambda: v ^ w, ',': lambda: w}[op]()
    except KeyError:
        return None


def method(c):
    return last(norm(c.get('fn') or ''))


def is_queue(c):
    return c.get('k') == 'call' and norm(c.get('fn') or '').startswith(QUEUE)


def is_atomic(c):
    fn = norm(c.get('fn') or '')
    return c.get('k') == 'call' and (fn.startswith('std::atomic') or fn.startswith('std::__atomic'))


def order(e):
    """Memory order of an atomic operation ('seq_cst' when not given)."""
    for a in e.get('args') or []:
        n = str(a.get('n') or a.get('g') or '')
        if 'memory_order' in n:
            return n.split('memory_order')[-1].strip('_:')
    return 'seq_cst'


def is_thread(c):
    return c.get('k') in ('call', 'ctor') and (norm(c.get('fn') or '').startswith(('std::thread::', 'std::jthread::', 'std::async'))
                                               or norm(c.get('ty') or '') in ('std::thread', 'std::jthread'))


def is_op(c):
    return is_queue(c) or is_atomic(c) or is_thread(c)


# ---------------------------------------------------------------------------------------------- the starter
class Role:
    def __init__(self, name, e):
        self.name, self.e, self.count = name, e, 0
        self.line = e.get('l')
        self.puts, self.takes, self.reads, self.advances, self.sets = set(), set(), set(), set(), set()

    def body(self):
        return self.e


class Starter(Walker):
    """Threads started and joined, and stores to shared flags, along the function."""

    def __init__(self, pr, f):
        super().__init__(pr)
        self.f = f
        self.roles = {}
        self.atomics = {}          # object -> initial value
        self.problems = []
        self.stores = []           # (object, value, alive, joined, line)
        self.alive_pairs = set()
        self.spawned_state = {}
        self.waits = []
        self.mainops = []
        self.anys = {}
        self.exprs = {}

    def declared(self, v, i, st):
        t = norm(v['t'])
        if t.startswith('std::atomic'):
            out = []
            a = i['args'][0] if i.get('k') == 'ctor' and i['args'] else i if i.get('k') != 'ctor' else None
            for x, y in (self.ev(a, st) if a is not None else [(0, st)]):
                out.append(y.s(('val', 'local %s#%s' % (v['n'], v['id'])), x))
            return out
        if i.get('k') == 'ctor' and norm(i.get('ty') or '') in ('std::thread', 'std::jthread'):
            if not i['args']:
                return [st]
            return self.spawn(i, 'local %s#%s' % (v['n'], v['id']), 0, st)
        return None

    def spawn(self, c, holder, index, st):
        a = c['args'][0]
        key = id(a)
        if key not in self.roles:
            self.roles[key] = Role('thread started at line %s' % c.get('l'), c)
        name = self.roles[key].name
        live = set(st.g('live', frozenset()))
        t = (holder, index, key)
        if any(x[:2] == (holder, index) for x in live):
            raise Problem(c.get('l'), 'a running thread object is overwritten')
        for o in live:
            self.alive_pairs.add((o[2], key))
            self.alive_pairs.add((key, o[2]))
        self.spawned_state.setdefault(key, []).append(dict((k[1], v) for k, v in st.a if isinstance(k, tuple) and k[0] == 'val'))
        live.add(t)
        st = st.s('live', frozenset(live))
        everyone = set(st.g('ever', frozenset()))
        everyone.add(t)
        self.roles[key].count = max(self.roles[key].count, sum(1 for x in everyone if x[2] == key))
        return [st.s('ever', frozenset(everyone))]

    def holder(self, e, st):
        """(object, index) of a thread lvalue"""
        if e.get('k') == 'idx':
            r = [v for v, _ in self.ev(e['b'], st)]
            return self.obj(e['a']), r[0] if len(r) == 1 else None
        if e.get('k') == 'call' and method(e) in ('operator[]', 'at'):
            r = [v for v, _ in self.ev(e['args'][0], st)]
            return self.obj(e['obj']), r[0] if len(r) == 1 else None
        return self.obj(e), 0

    def thread_value(self, e):
        while e is not None and e.get('k') in ('cast',) or e is not None and e.get('k') == 'call' and norm(e.get('fn') or '') in ('std::move', 'std::forward'):
            e = e['e'] if e.get('k') == 'cast' else e['args'][0]
        return e if e is not None and e.get('k') == 'ctor' and norm(e.get('ty') or '') in ('std::thread', 'std::jthread') and e['args'] else None

    def rfor(self, s, sts, out):
        if 'std::thread' in norm_types(s.get('rty')) and self.interesting(s['body']):
            o = self.obj(s['range'])
            cur = set()
            for st in sts:
                live = st.g('live', frozenset())
                idx = sorted({x[1] for x in live if x[0] == o}, key=str)
                ss = {st}
                for i in idx:
                    self.bind.append({**self.bind[-1], s['var']['id']: (o, i)})
                    try:
                        r = self.run(s['body'], ss)
                    finally:
                        self.bind.pop()
                    if r['break'] or r['ret']:
                        raise Unknown('a loop over threads is left early')
                    ss = r['next'] | r['cont']
                cur |= ss
            out['next'] = cur
            return out
        return super().rfor(s, sts, out)

    def event(self, e, st):
        k = e.get('k')
        if k in ('call', 'ctor', 'asg', 'un'):
            live = st.g('live', frozenset())
            if live:
                self.exprs.setdefault(id(e), (e, set()))[1].update(x[2] for x in live)
        if k == 'call':
            fn = norm(e.get('fn') or '')
            m = method(e)
            if fn.startswith(('std::thread::', 'std::jthread::')):
                if m == 'join':
                    return [(None, y) for y in self.join(e, st)]
                if m == 'detach':
                    raise Problem(e.get('l'), 'a thread is detached, so the job can end before it')
                if m == 'joinable':
                    h = self.where(e, st)
                    return [(any(x[:2] == h for x in st.g('live', frozenset())), st)]
                if m == 'operator=' and e['args']:
                    c = self.thread_value(e['args'][0])
                    h, i = self.where(e, st)
                    if c is None or i is None:
                        raise Unknown('thread assignment')
                    return [(None, y) for y in self.spawn(c, h, i, st)]
                if m in ('hardware_concurrency', 'get_id'):
                    return [(None, st)]
                raise Unknown('thread operation ' + m)
            if fn.startswith('std::async'):
                raise Unknown('std::async')
            if m in ('push_back', 'emplace_back') and 'std::thread' in norm_types(e.get('ot')):
                o = self.obj(e['obj'])
                n = sum(1 for x in st.g('ever', frozenset()) if x[0] == o)
                c = self.thread_value(e['args'][0]) if e['args'] else None
                if c is None:
                    if m == 'emplace_back' and e['args']:
                        c = {'k': 'ctor', 'ty': 'std::thread', 'args': e['args'], 'l': e.get('l')}
                    else:
                        raise Unknown('thread container')
                return [(None, y) for y in self.spawn(c, o, n, st)]
            if m in ('push_back', 'emplace_back') and 'boost::any' in (e.get('ot') or '') + (e.get('t') or ''):
                o = self.obj(e['obj'])
                st = st.s(('any', o), st.g(('any', o), ()) + (any_type(e['args'][0]),))
                self.anys[o] = st.g(('any', o))
                return [(None, st)]
            if is_atomic(e):
                return self.atomic(e, st)
            if is_queue(e):
                return self.queue(e, st)
        if k == 'asg' and e['op'] == '=' and e['a'].get('k') == 'mem' and e['a'].get('t') == 'bool':
            return [(v, self.store(self.obj(e['a']), v, y, e.get('l'))) for v, y in self.ev(e['b'], st)]
        if k == 'ctor' and norm(e.get('ty') or '') in ('std::thread', 'std::jthread') and e['args']:
            raise Unknown('thread that is not kept in a variable')
        return None

    def where(self, e, st):
        o = e['obj']
        if o.get('k') == 'var' and isinstance(self.lookup(o.get('id')), tuple):
            return self.lookup(o['id'])
        return self.holder(o, st)

    def join(self, e, st):
        h, i = self.where(e, st)
        if i is None or h == '?':
            raise Unknown('which thread is joined')
        live = st.g('live', frozenset())
        hit = [x for x in live if x[0] == h and x[1] == i]
        if not hit:
            raise Problem(e.get('l'), 'join of %s[%s], which is not a running thread (its exception ends the run)' % (h.split(' ')[-1].split('#')[0], i))
        self.waits.append((hit[0][2], dict((k[1], v) for k, v in st.a if isinstance(k, tuple) and k[0] == 'val'),
                           frozenset(x[2] for x in live), e.get('l')))
        return [st.s('live', live - set(hit))]

    def store(self, o, v, st, line):
        live = st.g('live', frozenset())
        joined = frozenset(x[2] for x in st.g('ever', frozenset())) - frozenset(x[2] for x in live)
        self.stores.append((o, v, frozenset(x[2] for x in live), joined, line))
        return st.s(('val', o), v)

    def atomic(self, e, st):
        m = method(e)
        if e.get('obj') is None:
            raise Unknown('atomic operation ' + m)
        o = self.obj(e['obj'])
        if m in ('operator=', 'store'):
            if order(e) not in ('release', 'seq_cst') and st.g('live'):
                raise Unknown('memory order of a store')
            return [(v, self.store(o, v, y, e.get('l'))) for v, y in self.ev(e['args'][0], st)]
        if m == 'load' or e.get('conv'):
            if st.g('live'):
                return [(None, st)]
            return [(st.g(('val', o)), st)]
        if m in ('fetch_add', 'operator++', 'operator+=', 'operator--', 'fetch_sub', 'operator-=', 'exchange'):
            return [(None, st.s(('val', o), None))]
        raise Unknown('atomic operation ' + m)

    def queue(self, e, st):
        m = method(e)
        if m in ('size_approx', 'is_lock_free'):
            return [(None, st)]
        o = self.obj(e['obj'])
        if m in TAKE:
            out = []
            for b in (True, False):
                y = st
                if not b:
                    # seen empty; who was finished then?
                    done = frozenset(x[2] for x in st.g('ever', frozenset())) - frozenset(x[2] for x in st.g('live', frozenset()))
                    y = st.s(('empty', o), done)
                out.append((b, y))
            self.mainops.append((m, o))
            return out
        if m in PUT:
            self.mainops.append((m, o))
            return [(None, y) for _, y in self.ev(list(e['args']), st)]
        raise Unknown('queue operation ' + m)


def norm_types(t):
    return t or ''


def any_type(e):
    """Type of the object stored in a boost::any."""
    while e.get('k') in ('cast',) or e.get('k') == 'ctor' and norm(e.get('ty') or '') == 'boost::any' and len(e['args']) == 1:
        e = e['e'] if e.get('k') == 'cast' else e['args'][0]
    if e.get('k') == 'un' and e['op'] == '&':
        return (e.get('t') or '?').replace('const ', '') + ' *'
    return e.get('t') or '?'


# ---------------------------------------------------------------------------------------------- a thread
class Thread(Walker):
    """Body of a thread: what it knows about the other threads when it sees its queue empty."""

    def __init__(self, pr, role, ctx):
        super().__init__(pr)
        self.role, self.ctx = role, ctx
        self.problems = {}
        self.R = set()
        self.ends = set()
        self.signals = set()
        self.derived = None
        self.undecided = {}
        self.inside = []

    def bad(self, line, why):
        self.problems.setdefault((line, why))

    # ---- knowledge: set of roles known to have finished
    def event(self, e, st):
        k = e.get('k')
        if k == 'mem' and self.ctx.flags.get(self.obj(e)) is not None and not is_atomic(e):
            if norm(e.get('t') or '') == 'bool':
                return self.flag(self.obj(e), st)
            return None
        if k == 'dyncast':
            c = st.g('class')
            if c is None:
                return None
            t = norm(e['ty']).rstrip('* ').replace('const ', '').strip()
            return [(self.ctx.is_a(c, t), st)]
        if k == 'call' and is_atomic(e):
            return self.atomic(e, st)
        if k == 'call' and is_queue(e):
            return self.queue(e, st)
        if k in ('call', 'ctor') and is_thread(e):
            raise Unknown('a thread that starts threads')
        if k == 'call' and e.get('virtual') and self.ctx.is_process(e):
            return self.process(e, st)
        if k in ('call', 'asg'):
            return self.use(e, st)
        if k == 'bin' and e['op'] in ('==', '!='):
            return None
        return None

    def flag(self, o, st, sees=True):
        know = self.ctx.flags.get(o)
        out = []
        for v in (True, False):
            y = st
            if v and sees:
                y = st.s('know', st.g('know', frozenset()) | know)
            elif know and know <= st.g('know', frozenset()) and ('seen', o) in dict(st.a):
                continue            # it stays true
            if v:
                y = y.s(('seen', o), True)
            out.append((v, y))
        return out

    def atomic(self, e, st):
        m = method(e)
        o = self.obj(e['obj'])
        if m == 'load' or e.get('conv'):
            if o in self.ctx.flags:
                return self.flag(o, st, order(e) in ('acquire', 'seq_cst'))
            if o == self.ctx.counter:
                lb = st.g('lb', 0)
                out = []
                for v in range(lb, (self.ctx.total if self.ctx.total is not None else CMAX) + 1):
                    y = st.s('lb', v)
                    if self.ctx.needed is not None and v >= self.ctx.needed and order(e) in ('acquire', 'seq_cst'):
                        y = y.s('know', y.g('know', frozenset()) | self.ctx.workers)
                    out.append((v, y))
                return out
            return [(None, st)]
        if o == self.ctx.counter and m in ('fetch_add', 'operator++', 'operator+='):
            a = e['args'][0] if e.get('args') and not (m == 'operator++') else None
            if a is not None and [v for v, _ in self.ev(a, st)] != [1]:
                raise Unknown('the counter is not advanced by one')
            if order(e) not in ('release', 'acq_rel', 'seq_cst'):
                self.bad(e.get('l'), 'reports to be done without release order, so its results need not be visible yet')
            post = m == 'fetch_add' or m == 'operator++' and bool(e.get('args'))
            self.signal(e, st)
            out = []
            lastv = st.g('last')
            if lastv is not None:
                self.R.add(lastv)
            for old in range(0 if lastv is None else lastv + 1, CMAX):
                y = st.s('last', old).s('done', True)
                out.append((old if post else old + 1, y))
            return out
        if o == self.ctx.counter:
            raise Unknown('operation %s on the counter of finished threads' % m)
        if o in self.ctx.flags and m in ('operator=', 'store'):
            raise Unknown('a thread other than the starter sets a finish flag')
        return [(None, y) for _, y in self.ev(list(e.get('args') or []), st)]

    def signal(self, e, st):
        self.signals.add(e.get('l'))
        for q in self.role.takes:
            need = self.ctx.producers(q) - {self.key}
            if not need <= st.g(('empty', q), frozenset()):
                self.bad(e.get('l'), 'reports to be done without having seen %s empty after its producers finished' % q)
        self.pending(e.get('l'), st)

    def queue(self, e, st):
        m = method(e)
        o = self.obj(e['obj'])
        if m in ('size_approx', 'is_lock_free'):
            return [(None, st)]
        if m in PUT:
            return [(None, y) for _, y in self.ev(list(e['args']), st)]
        if m not in TAKE:
            raise Unknown('queue operation ' + m)
        self.pending(e.get('l'), st)
        out = [(False, st.s(('empty', o), st.g('know', frozenset())))]
        v = e['args'][-1]
        iv = self.obj(v)
        for c in (self.ctx.classes if self.ctx.is_task_queue(o) else [None]):
            y = st.s('item', iv).s('used', False).s('class', c).s(('empty', o), frozenset())
            out.append((True, y))
        return out

    def pending(self, line, st):
        if st.g('item') is not None and not st.g('used'):
            self.bad(line, 'an item taken from a queue%s is dropped' % (' (a %s)' % st.g('class') if st.g('class') else ''))

    def process(self, e, st):
        o = self.obj(e['obj'])
        out = []
        for _, y in self.ev(list(e['args']), st):
            c = y.g('class')
            if y.g('item') is not None and o.rstrip('[]') == y.g('item'):
                if y.g('used'):
                    self.bad(e.get('l'), 'an item is processed twice')
                self.ctx.process_args(self, c, e, y)
                y = y.s('used', True)
            out.append((None, y))
        return out

    def handed(self, f, e, st):
        """A helper that is given the item taken from a queue."""
        item = st.g('item')
        return item is not None and f['body'] not in self.inside and not self.ctx.is_process(e) \
            and any(self.obj(a) in (item, item + '[]') for a in (e.get('args') or []))

    def by_name(self, a, o, st):
        item = st.g('item')
        return item is not None and o in (item, item + '[]')

    def inline(self, f, e, st):
        self.inside.append(f['body'])
        try:
            return super().inline(f, e, st)
        finally:
            self.inside.pop()

    # ---- uses of collected items
    def mentions(self, e, names):
        for x in walk(e):
            if x.get('k') == 'var' and x.get('id') is not None and self.obj(x) in names:
                return True
        return False

    def family(self, item):
        """The item and the locals computed from it."""
        if self.derived is None:
            self.derived = {}
        key = item, len(self.inside), id(self.inside[-1]) if self.inside else None
        if key not in self.derived:
            names = {item}
            n = -1
            while n != len(names):
                n = len(names)
                for x in (x for b in [self.role.code] + self.inside for x in walk(b)):
                    if x.get('s') == 'decl':
                        for v in x['vars']:
                            if v.get('init') is not None and self.mentions(v['init'], names):
                                names |= {'local %s#%s' % (y['n'], y['id']) for y in [v] + (v.get('bind') or [])}
                    if x.get('s') == 'rfor' and self.mentions(x['range'], names):
                        v = x['var']
                        names |= {'local %s#%s' % (y['n'], y['id']) for y in [v] + (v.get('bind') or [])}
                    r = self.written(x)
                    if r is not None and r[0].startswith('local ') and any(self.mentions(a, names) for a in r[1]):
                        names.add(r[0])
            self.derived[key] = names
        return self.derived[key]

    def base(self, e):
        """Root variable or member an lvalue is part of."""
        while True:
            k = e.get('k')
            if k == 'idx':
                e = e['a']
            elif k in ('cast',):
                e = e['e']
            elif k == 'un':
                e = e['e']
            elif k == 'call' and e.get('obj') is not None and method(e) in ('operator[]', 'at', 'front', 'back', 'operator*', 'operator->', 'get', 'find'):
                e = e['obj']
            elif k == 'mem' and e['b'].get('k') not in ('this',) and self.local_root(e['b']):
                e = e['b']
            else:
                return self.obj(e)

    def local_root(self, e):
        while e.get('k') in ('mem', 'idx'):
            e = e['b'] if e['k'] == 'mem' else e['a']
        return e.get('k') == 'var' and e.get('id') is not None

    def written(self, e):
        """(object, values) of an expression that puts values into an object"""
        r = self.written_(e)
        if r is not None:
            o = r[0]
            while o.endswith('[]'):
                o = o[:-2]
            return o, r[1]
        return None

    def written_(self, e):
        if e.get('k') == 'call' and e.get('obj') is not None and method(e) in MUTATE and not e.get('const'):
            return self.base(e['obj']), list(e['args']) + [e['obj']]
        if e.get('k') == 'asg':
            return self.base(e['a']), [e['b'], e['a']]
        return None

    def use(self, e, st):
        if st.g('item') is None:
            return None
        r = self.written(e)
        item = st.g('item')
        if r is None:
            m = method(e)
            if e.get('k') == 'call' and m in ('count', 'find', 'contains') and e.get('obj') is not None and not self.base(e['obj']).startswith('local ') \
                    and any(self.mentions(a, {item}) for a in e['args']):
                # whether it is stored may depend on what is stored already
                return [(None, y.s('used', True)) for _, y in self.ev(list(e['args']), st)]
            if e.get('k') == 'call' and m in ('size', 'empty') and e.get('obj') is not None:
                o = self.obj(e['obj'])
                if o in st.g('dirty', frozenset()):
                    return [(m == 'size' and 1 or m == 'size', st)]
            return None
        o, vals = r
        fam = self.family(item)
        if o == item or not any(self.mentions(v, fam) for v in vals):
            return None
        parts = list(e['args']) if e.get('k') == 'call' else [e['b']]
        out = []
        for v, y in self.ev(parts[0] if e.get('k') == 'asg' and len(parts) == 1 else parts, st):
            direct = any(self.mentions(x, {item}) for x in vals) or any(self.mentions(x, fam - self.kept(fam)) for x in vals)
            if o.startswith('local ') and o.split(' ')[1].split('#')[0]:
                if self.is_container(o):
                    y = y.s('used', True).s('dirty', y.g('dirty', frozenset()) | {o}) if direct else y
                    # handing a local container on to another one
                    src = {d for d in y.g('dirty', frozenset()) if d != o and any(self.mentions(x, self.family(d)) for x in vals)}
                    if src:
                        y = y.s('dirty', (y.g('dirty') - src) | {o})
                elif e.get('k') == 'asg':
                    y = y.set(int(o.split('#')[1]), v if e.get('op') == '=' else None)
            else:
                if direct:
                    y = y.s('used', True)
                src = {d for d in y.g('dirty', frozenset()) if any(self.mentions(x, self.family(d)) for x in vals)}
                if src:
                    y = y.s('dirty', y.g('dirty') - src)
            out.append((v, y))
        return out

    def kept(self, fam):
        return {x for x in fam if self.is_container(x)}

    def is_container(self, o):
        return self.ctx.local_types(self.role).get(o, '').startswith(('std::', 'boost::', 'nlohmann::'))

    def rfor(self, s, sts, out):
        o = self.obj(s['range'])
        full = {st for st in sts if o in st.g('dirty', frozenset())}
        if full:
            rest = sts - full
            res = {'next': set(), 'break': set(), 'cont': set(), 'ret': set()}
            r = self.run(s['body'], full)
            again = r['next'] | r['cont']
            out['ret'] |= r['ret']
            nxt = again | r['break']
            seen = set()
            while again - seen:
                seen |= again
                r = self.run(s['body'], again)
                again = r['next'] | r['cont']
                nxt |= again | r['break']
            if rest:
                r = super().rfor(s, rest, res)
                nxt |= r['next']
                out['ret'] |= r['ret']
            out['next'] = nxt
            return out
        return super().rfor(s, sts, out)

    def explore(self, key):
        self.key = key
        code = self.role.code
        self.references(code)
        r = self.run(code, {State()})
        ends = r['next'] | r['ret']
        line = self.role.line
        for st in ends:
            self.pending(line, st)
            for q in self.role.takes:
                need = self.ctx.producers(q) - {key}
                if not need <= st.g(('empty', q), frozenset()):
                    self.bad(line, 'can end without having seen %s empty after %s finished' % (q, ' and '.join(sorted(self.ctx.name(x) for x in need))))
            if key in self.ctx.workers and self.ctx.counter and not st.g('done'):
                self.bad(line, 'can end without reporting to be done, so the collectors wait forever')
            for d in st.g('dirty', frozenset()):
                self.bad(line, 'what was collected in %s is dropped' % d.split(' ')[1].split('#')[0])
        return ends


class Finisher(Walker):
    """A thread that raises a finish flag itself: nothing is put into a queue after that."""

    def __init__(self, pr, role, ctx, flag):
        super().__init__(pr)
        self.role, self.ctx, self.flag = role, ctx, flag
        self.problems, self.ups, self._p = set(), 0, {}
        self.INTS = 0

    def puts(self, f):
        if id(f) not in self._p:
            r = Role('', {'args': []})
            r.code = f['body']
            self.ctx.scan(r, f['body'], Walker(self.pr), set(), 0)
            self._p[id(f)] = bool(r.puts)
        return self._p[id(f)]

    def is_event(self, c):
        return c.get('k') == 'call' and is_atomic(c) and c.get('obj') is not None and method(c) in ('operator=', 'store') \
            and self.obj(c['obj']) == self.flag or c.get('k') == 'asg' and self.obj(c['a']) == self.flag

    def event(self, e, st):
        if self.is_event(e):
            out = []
            for v, y in self.ev(e['args'][0] if e['k'] == 'call' else e['b'], st):
                if v is True:
                    self.ups += 1
                    out.append((v, y.s('up', True)))
                elif v is False and not y.g('up'):
                    out.append((v, y))
                else:
                    raise Unknown('value stored in %s' % self.flag)
            return out
        put = None
        if e.get('k') == 'call' and is_queue(e) and method(e) in PUT:
            put = 'an item is put into a queue'
        elif e.get('k') in ('call', 'ctor') and e.get('fid') in self.pr.funcs:
            g = self.pr.funcs[e['fid']]
            if g.get('body') is not None and not self.interesting(g['body']) and self.puts(g):
                put = '%s, which produces items, is called' % norm(g['q'])
        if put and st.g('up'):
            self.problems.add((e.get('l'), '%s after %s is set, so the consumers may already be gone' % (put, self.flag)))
        return None


# ---------------------------------------------------------------------------------------------- everything
class Context:
    def __init__(self, pr, f, starter):
        self.pr, self.f, self.starter = pr, f, starter
        self.roles = starter.roles
        self.sure = set()
        self.flags, self.counter, self.total, self.needed = {}, None, None, None
        self.workers = frozenset()
        self.tasks = sorted(q for q in pr.records if self.is_a(q, 'Task') and q != 'Task')
        made = self.made()
        self.classes = [c for c in self.tasks if c in made] or self.tasks
        self._lt = {}

    def made(self):
        """Subclasses of Task that are created somewhere."""
        out = set()
        for f in self.pr.funcs.values():
            for x in walk(f.get('body')):
                t = x.get('ty') or ''
                if x.get('k') in ('new', 'ctor'):
                    out.add(norm(t))
                if x.get('k') == 'call' and norm(x.get('fn') or '') == 'std::make_unique':
                    out |= {norm(str(y)) for y in x.get('targs') or []}
        return out

    def is_a(self, c, t):
        if c == t:
            return True
        r = self.pr.records.get(c)
        return r is not None and any(self.is_a(norm(b), t) for b in r['bases'])

    def is_process(self, e):
        return norm(e.get('fn') or '').split('::')[-1] == 'Process' and self.is_a(norm(e.get('fn') or '').rsplit('::', 1)[0], 'Task')

    def is_task_queue(self, o):
        return any(o == '%s::%s' % (r['q'], f['n']) and 'Task' in f['t'] for r in self.pr.records.values() for f in r['fields'])

    def name(self, k):
        return self.roles[k].name if k in self.roles else str(k)

    def producers(self, q):
        return frozenset(k for k, r in self.roles.items() if q in r.puts)

    def local_types(self, role):
        k = id(role)
        if k not in self._lt:
            self._lt[k] = {'local %s#%s' % (v['n'], v['id']): norm(v['t']) for x in walk(role.code) if x.get('s') == 'decl' for v in x['vars']}
        return self._lt[k]

    def code(self, role):
        """Body of the thread as a statement."""
        a = role.e['args'][0]
        while a.get('k') in ('cast',) or a.get('k') == 'call' and norm(a.get('fn') or '') in ('std::move', 'std::bind'):
            a = a['e'] if a.get('k') == 'cast' else a['args'][0]
        if a.get('k') == 'lambda' and a.get('body') is not None:
            return a['body']
        if a.get('k') == 'var':
            # a lambda kept in a local
            for x in walk(self.f['body']):
                if x.get('s') == 'decl':
                    for v in x['vars']:
                        if v['id'] == a.get('id') and v.get('init') and v['init'].get('k') == 'lambda':
                            return v['init']['body']
        g = a
        if a.get('k') == 'un' and a['op'] == '&':
            g = a['e']
        if g.get('k') in ('fnref', 'memfn') and g.get('fid') in self.pr.funcs:
            f = self.pr.funcs[g['fid']]
            args = role.e['args'][1:] if role.e['args'][0] is a else role.e['args'][1:]
            if f.get('cls') and not f.get('static'):
                args = args[1:]
            return {'s': 'expr', 'e': {'k': 'call', 'fn': f['q'], 'fid': g['fid'], 'args': args, 'l': role.line, 't': f.get('ret')}}
        raise Unknown('what a thread runs')

    def summarise(self):
        for r in self.roles.values():
            r.code = self.code(r)
        for k, r in self.roles.items():
            self.scan(r, r.code, Walker(self.pr), set(), 0)

    def scan(self, role, x, w, seen, depth):
        w.references(x)
        for c in walk(x):
            if is_queue(c) and c.get('obj') is not None:
                m, o = method(c), w.obj(c['obj'])
                if m in PUT or m.startswith('enqueue') or m.startswith('try_enqueue'):
                    role.puts.add(o)
                elif m.startswith('try_dequeue'):
                    role.takes.add(o)
            if is_atomic(c) and c.get('obj') is not None:
                o = w.obj(c['obj'])
                if method(c) in ('fetch_add', 'operator++', 'operator+='):
                    role.advances.add(o)
                elif method(c) in ('operator=', 'store'):
                    role.sets.add(o)
                else:
                    role.reads.add(o)
            if c.get('k') == 'mem' and c.get('t') == 'bool':
                role.reads.add(w.obj(c))
            if c.get('k') == 'asg' and c['a'].get('k') == 'mem' and c['a'].get('t') == 'bool':
                role.sets.add(w.obj(c['a']))
            if c.get('k') in ('call', 'ctor'):
                gs = []
                if c.get('fid') in self.pr.funcs:
                    gs.append(self.pr.funcs[c['fid']])
                if c.get('virtual') and c.get('fn'):
                    m = norm(c['fn']).split('::')[-1]
                    gs += [g for q, l in self.pr.byname.items() if q.split('::')[-1] == m for g in l if g.get('virtual')]
                if c['k'] == 'call' and (not c.get('fn') or norm(c['fn']) == 'std::function::operator()'):
                    # properties handed over as function objects
                    gs += [g for g in self.callbacks() if len(g['params']) == len(c.get('args') or [])]
                for g in gs:
                    if g.get('body') is None:
                        continue
                    b = {}
                    for p, a in zip(g['params'], (c.get('args') or [])):
                        if (p.get('ref') or '*' in p['t']):
                            o = w.obj(a)
                            if 'ConcurrentQueue' in p['t'] or 'atomic' in p['t']:
                                b[p['id']] = o
                    key = (id(g), tuple(sorted(b.items())))
                    if key in seen:
                        continue
                    seen.add(key)
                    w.bind.append(b)
                    self.scan(role, g['body'], w, seen, depth + 1)
                    w.bind.pop()

    _cb = None

    def callbacks(self):
        if self._cb is None:
            self._cb = []
            for q, fs in self.pr.byname.items():
                if q.startswith('Driver::'):
                    for f in fs:
                        for x in walk(f.get('body')):
                            if x.get('k') == 'lambda' and x.get('body') is not None and x.get('params'):
                                self._cb.append(dict(x, q='lambda'))
                            if x.get('k') == 'fnref' and x.get('fid') in self.pr.funcs and 'Properties' in x['fn']:
                                self._cb.append(self.pr.funcs[x['fid']])
        return self._cb

    _args = None

    def process_args(self, th, cls, e, st):
        """The arguments handed to Process are those its class takes apart."""
        if cls is None or len(e['args']) < 2:
            return
        a = e['args'][1]
        while a.get('k') in ('cond', 'cast'):
            if a['k'] == 'cond':
                v = {x for x, _ in th.ev(a['c'], st)}
                if len(v) != 1 or None in v:
                    raise Unknown('arguments of Process')
                a = a['a'] if v.pop() else a['b']
            else:
                a = a['e']
        have = self.starter.anys.get(th.obj(a))
        gs = [g for g in self.pr.byname.get(cls + '::Process', [])]
        if have is None or len(gs) != 1:
            raise Unknown('arguments of Process')
        g = gs[0]
        pid = g['params'][1]['id']
        for c in walk(g['body']):
            if c.get('k') == 'call' and norm(c.get('fn') or '') == 'boost::any_cast' and c['args'] and c['args'][0].get('k') == 'call' \
                    and method(c['args'][0]) in ('operator[]', 'at') and c['args'][0]['obj'].get('id') == pid:
                i = exits.const(c['args'][0]['args'][0])
                t = norm(c.get('t') or '')
                if i is None:
                    raise Unknown('index of an argument of Process')
                if i >= len(have):
                    th.bad(e.get('l'), '%s::Process needs argument %d, which is not there' % (cls, i))
                elif same_type(t, have[i]) is False:
                    th.bad(e.get('l'), '%s::Process takes argument %d for a %s, but it is a %s' % (cls, i, t, have[i]))


def same_type(a, b):
    f = lambda x: norm(x).replace('const ', '').replace(' ', '')
    return f(a) == f(b)


def starters(pr):
    out = []
    for f in pr.funcs.values():
        if f.get('body') is not None and any(is_thread(c) and (c.get('k') == 'ctor' and c['args'] or method(c).startswith('async')) for c in walk(f['body'])):
            out.append(f)
    return out


def check(pr):
    fs = starters(pr)
    if not fs:
        yield None, 'threads', 'no function starts threads'
        return
    for f in fs:
        yield from check_starter(pr, f)


def check_starter(pr, f):
    where = '%s (%s' % (norm(f['q']), f['file'])
    site = lambda l: '%s:%s)' % (where, l)
    S = Starter(pr, f)
    try:
        r = S.run(f['body'], {State()})
    except Problem as p:
        yield False, site(p.line), p.why
        return
    except Unknown as u:
        yield None, site(f['l']), str(u)
        return
    except (KeyError, TypeError, IndexError, RecursionError) as u:
        yield None, site(f['l']), 'not understood: %r' % u
        return
    ctx = Context(pr, f, S)
    ends = r['next'] | r['ret']
    # threads joined
    for k, role in ctx.roles.items():
        left = [x for st in ends for x in st.g('live', frozenset()) if x[2] == k]
        if left:
            yield False, site(role.line), 'the thread is not joined on every path before the function returns'
        else:
            yield True, site(role.line) + ' joined', ''
    if not ends:
        yield None, site(f['l']), 'the function does not return'
        return
    try:
        ctx.summarise()
        yield from roles(pr, f, S, ctx, ends, site)
    except Unknown as u:
        yield None, site(f['l']), str(u)
    except Problem as p:
        yield False, site(p.line), p.why
    except (KeyError, TypeError, IndexError, RecursionError) as u:
        yield None, site(f['l']), 'not understood: %r' % u


def roles(pr, f, S, ctx, ends, site):
    R = ctx.roles
    # finish flags: shared booleans the starter stores true
    flags = {}
    for o, v, live, joined, line in S.stores:
        flags.setdefault(o, []).append((v, live, joined, line))
    for o, ss in flags.items():
        readers = [k for k, r in R.items() if o in r.reads]
        if not readers:
            continue
        ups = [x for x in ss if x[0] is True]
        if any(x[0] is None for x in ss):
            raise Unknown('value stored in %s' % o)
        know = None
        for k, r in R.items():
            if o in r.sets:
                fin = Finisher(pr, r, ctx, o)
                fr = fin.run(r.code, {State()})
                if fin.ups and all(st.g('up') for st in fr['next'] | fr['ret']):
                    ctx.sure.add(o)
                for line, why in sorted(fin.problems):
                    yield False, site(line), why
                if fin.problems:
                    return
                yield True, site(r.line) + ' produces nothing after it sets %s' % o, ''
                if fin.ups:
                    know = frozenset([k]) if know is None else know & {k}
        for v, live, joined, line in ups:
            know = joined if know is None else know & joined
        if know is None:
            continue
        # down before the readers start
        for k in readers:
            for vals in S.spawned_state.get(k, []):
                if vals.get(o) is not False:
                    yield False, site(R[k].line), '%s need not be false when the thread starts, so it may end at once' % o
                    return
        yield True, '%s is false when its readers start' % o, ''
        ctx.flags[o] = know
    # the counter of finished threads
    cand = {}
    for k, r in R.items():
        for o in r.advances:
            if o.startswith('local ') or any(o in x.reads for j, x in R.items() if j != k):
                cand.setdefault(o, set()).add(k)
    cand = {o: ks for o, ks in cand.items() if any(o in x.reads for j, x in R.items())}
    if len(cand) > 1:
        raise Unknown('more than one counter')
    if cand:
        ctx.counter, ks = next(iter(cand.items()))
        ctx.workers = frozenset(ks)
        if len(ks) != 1:
            raise Unknown('threads of several kinds advance the counter')
        for k in R:
            if ctx.counter not in R[k].reads | R[k].advances:
                continue
            for vals in S.spawned_state.get(k, []):
                if vals.get(ctx.counter) != 0:
                    if vals.get(ctx.counter) is None:
                        raise Unknown('the counter at the start')
                    yield False, site(R[k].line), 'the counter of finished threads does not start at zero'
                    return
    order = [k for k in R if k in ctx.workers] + [k for k in R if k not in ctx.workers]
    for k in order:
        r = R[k]
        if not r.takes and k not in ctx.workers:
            continue
        th = Thread(pr, r, ctx)
        ends_k = th.explore(k)
        for (line, why) in th.problems:
            yield False, site(line), why
        if th.problems:
            return
        if not ends_k:
            yield False, site(r.line), 'the thread cannot end' + (
                ': the bound it waits for exceeds %d, the most the counter reaches' % ctx.total if ctx.total is not None else '')
            return
        yield True, site(r.line) + ' sees its queue empty after the producers are done (%d states)' % th.steps, ''
        if k in ctx.workers:
            n = r.count
            top = CMAX - 4
            if n > 12:
                raise Unknown('number of workers')

            def most(first):
                s = first
                while True:
                    t = first + len([x for x in th.R if x < s])
                    if t == s:
                        return s
                    s = t
                    if s > top:
                        raise Unknown('how often the counter is advanced')
            ctx.total, ctx.needed = most(n), most(n - 1) + 1
            yield True, site(r.line) + ' counter: %d workers, ends at %d, all done from %d' % (n, ctx.total, ctx.needed), ''
    # every queue that is filled is emptied
    for q in sorted({q for r in R.values() for q in r.puts}):
        takers = [k for k, r in R.items() if q in r.takes]
        need = ctx.producers(q)
        if not takers and not all(need <= st.g(('empty', q), frozenset()) for st in ends):
            yield False, site(f['l']), 'nothing empties %s after its producers finished' % q
        else:
            yield True, '%s is emptied' % q, ''
    # nobody is waited for who waits for something that comes later
    for k, vals, live, line in S.waits:
        for o, know in ctx.flags.items():
            if o in R[k].reads and vals.get(o) is not True and o not in ctx.sure:
                yield False, site(line), 'waits for a thread that ends only when %s is set, which happens later' % o
                return
    yield True, 'no thread is waited for before its finish flag is set', ''
