"""C56: a failure that ends work early is not turned into success.

Rule: in every function reachable from main, a handler of a try block around work of the run (reading a description or
a jobs file, any call of a Driver member, Main) leaves on every path through a failing exit, a throw, or - in main - a
return of a constant other than zero; and no call of an exiting function passes the status zero.
"""
from ir import norm

WORK = ('Driver::', 'Main', 'Task::Process', 'ECTask::Process', 'StructuralTask::Process', 'label::Graph::GenerateECs')
EXITING = ('exit', '_Exit', 'quick_exit', 'std::exit', 'std::_Exit', 'std::quick_exit', '_exit')
ABORTING = ('abort', 'std::abort', 'std::terminate')


def walk(x):
    if isinstance(x, dict):
        yield x
        for y in x.values():
            yield from walk(y)
    elif isinstance(x, list):
        for y in x:
            yield from walk(y)


def calls(x):
    return [c for c in walk(x) if c.get('k') in ('call', 'ctor')]


def reachable(pr, start):
    todo, seen = list(start), []
    ids = set()
    while todo:
        f = todo.pop()
        if id(f) in ids:
            continue
        ids.add(id(f))
        seen.append(f)
        for c in walk(f.get('body')):
            g = pr.funcs.get(c.get('fid')) if c.get('fid') else None
            if g is not None:
                todo.append(g)
        # calls through base classes
        for c in calls(f.get('body')):
            if c.get('virtual') and c.get('fn'):
                m = norm(c['fn']).split('::')[-1]
                todo += [g for q, gs in pr.byname.items() if q.split('::')[-1] == m for g in gs if g.get('virtual')]
    return seen


def reads_json(c):
    fn = norm(c.get('fn') or '')
    return fn.startswith('nlohmann::') and (c.get('op') == '>>' or fn.endswith('::parse'))


def is_work(pr, c, memo):
    fn = norm(c.get('fn') or '')
    if reads_json(c) or fn in WORK or fn.startswith(WORK[0]):
        return True
    g = pr.funcs.get(c.get('fid')) if c.get('fid') else None
    if g is None or norm(g['q']).startswith('MyLogger'):
        return False
    if id(g) not in memo:
        memo[id(g)] = False
        memo[id(g)] = any(is_work(pr, x, memo) for x in calls(g.get('body')))
    return memo[id(g)]


def const(e):
    while e is not None and e.get('k') == 'cast':
        e = e.get('e')
    if e is None:
        return None
    if e.get('k') in ('int', 'bool'):
        return int(e['v'])
    if e.get('k') == 'un' and e.get('op') == '-' and const(e['e']) is not None:
        return -const(e['e'])
    if e.get('k') == 'enum':
        return e.get('v')
    return None


def leaves_(s, main, pr, depth=0):
    """How a statement can be left: subset of {'falls', 'good', 'bad', '?'}."""
    if s is None:
        return {'falls'}
    k = s['s']
    if k == 'block':
        out = set()
        for x in s['b']:
            r = leaves_(x, main, pr, depth)
            out |= r - {'falls'}
            if 'falls' not in r:
                return out
        return out | {'falls'}
    if k == 'ret':
        if not main:
            return {'good'}
        c = const(s.get('e'))
        return {'?'} if c is None else {'bad'} if c & 255 else {'good'}
    if k == 'expr':
        e = s['e']
        if e.get('k') == 'throw':
            return {'bad'}
        if e.get('k') == 'call':
            fn = norm(e.get('fn') or '')
            if fn in ABORTING:
                return {'bad'}
            if fn in EXITING:
                c = const(e['args'][0]) if e['args'] else None
                return {'?'} if c is None else {'bad'} if c & 255 else {'good'}
            g = pr.funcs.get(e.get('fid')) if e.get('fid') else None
            if g is not None and g.get('body') and depth < 6 and leaves_(g['body'], False, pr, depth + 1) == {'bad'}:
                return {'bad'}
        if e.get('k') == 'asg' or e.get('op') == '=':
            return {'?', 'falls'}           # a failure may be remembered and reported later
        return {'falls'}
    if k == 'if':
        return leaves_(s['then'], main, pr, depth) | leaves_(s.get('else'), main, pr, depth)
    if k in ('for', 'rfor', 'while', 'do'):
        return {'falls'} | (leaves_(s['body'], main, pr, depth) - {'falls'})
    if k == 'try':
        out = leaves_(s['b'], main, pr, depth)
        for h in s['h']:
            out |= leaves_(h['b'], main, pr, depth)
        return out
    if k in ('switch', 'break', 'continue', 'unk'):
        return {'?', 'falls'}
    return {'falls'}


def check(pr):
    mains = pr.byname.get('main') or []
    if not mains:
        yield None, 'main', 'not found'
        return
    memo = {}
    for f in reachable(pr, mains):
        ismain = norm(f['q']) == 'main'
        where = '%s (%s' % (norm(f['q']), f['file'])
        for c in calls(f.get('body')):
            if norm(c.get('fn') or '') in EXITING and c['args']:
                v = const(c['args'][0])
                site = '%s:%s) exit' % (where, c.get('l'))
                if v is None:
                    yield None, site, 'status is not a constant'
                elif v & 255:
                    yield True, site, ''
                else:
                    yield False, site, 'ends the run before its end with status zero'
        for t in walk(f.get('body')):
            if t.get('s') != 'try' or not any(is_work(pr, c, memo) for c in calls(t['b'])):
                continue
            for h in t['h']:
                r = leaves_(h['b'], ismain, pr)
                site = '%s:%s) handler of %s' % (where, h['b'].get('l') or t.get('l'), h.get('t') or '...')
                if '?' in r:
                    yield None, site, 'how the handler is left is not known'
                elif r - {'bad'}:
                    yield False, site, 'a failure of the work in the try block is caught and the run goes on as if it were done'
                else:
                    yield True, site, ''
