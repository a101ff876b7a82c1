"""Code run by a thread of a job, as a function of the items it takes from a queue.

The loop that takes items until the job is over (that it takes every item once is C52's subject) is read as a loop over the
sequence of items taken; the variables around it that only steer it are left out."""
import copy

from exits import walk
from ir import norm

FRESH = 10 ** 6


def taking(x, elem):
    """The call that takes an item of the wanted type from a queue, anywhere in x outside nested lambdas."""
    out = []

    def go(y, top):
        if isinstance(y, list):
            for z in y:
                go(z, False)
            return
        if not isinstance(y, dict):
            return
        if y.get('k') == 'lambda' and not top:
            return
        if y.get('k') == 'call' and norm(y.get('fn') or '').endswith('ConcurrentQueue::try_dequeue') and elem(y['args'][-1].get('t') or ''):
            out.append(y)
        for z in y.values():
            go(z, False)
    go(x, True)
    return out


def units(pr, elem):
    """[(enclosing function, body)] of the functions and lambdas that take items themselves."""
    out = []
    for f in pr.funcs.values():
        if not f.get('body') or f['file'].startswith('spec'):
            continue
        if taking(f['body'], elem):
            out.append((f, f['body']))
        for x in walk(f['body']):
            if x.get('k') == 'lambda' and taking(x['body'], elem):
                out.append((f, x['body']))
    return out


def stmts(s):
    return s['b'] if isinstance(s, dict) and s.get('s') == 'block' else [s]


def block(b):
    return {'s': 'block', 'b': b, 'l': 0}


def flag_of(s):
    """The local variable a statement assigns, when it does nothing else."""
    if s.get('s') == 'expr' and s['e'].get('k') == 'asg' and s['e'].get('op') == '=' and s['e']['a'].get('k') == 'var' and s['e']['a'].get('id') is not None:
        return s['e']['a']['id']
    return None


def as_loop(s, items, elem):
    """A loop statement that takes items until told otherwise, as a loop over items; None when its form is another one."""
    if s.get('s') == 'while' and taking(s['c'], elem):
        c = s['c']
        if c.get('k') != 'call' or c['args'][-1].get('k') != 'var' or len(c['args']) != 1:
            return None
        v = c['args'][0]
        return {'s': 'rfor', 'l': s.get('l'), 'var': {'id': v['id'], 'n': v['n'], 't': v['t']}, 'range': items, 'rty': items['t'], 'body': s['body']}, {v['id']}, set()
    if s.get('s') in ('while', 'do', 'for'):
        inner, flags = None, set()
        for t in stmts(s['body']):
            if taking(t, elem):
                if inner is not None:
                    return None
                inner = as_loop(t, items, elem)
                if inner is None:
                    return None
            elif flag_of(t) is not None:
                flags.add(flag_of(t))
            else:
                return None
        if inner is None:
            return None
        if s.get('init') and s['s'] == 'for':
            return None
        return inner[0], inner[1], inner[2] | flags
    return None


def without(s, ids):
    """The statement without assignments to the variables ids."""
    if isinstance(s, list):
        return [without(x, ids) for x in s if not (isinstance(x, dict) and flag_of(x) in ids and flag_of(x) is not None)]
    if isinstance(s, dict):
        if s.get('s') and flag_of(s) is not None and flag_of(s) in ids:
            return block([])
        return {k: without(v, ids) if isinstance(v, (dict, list)) else v for k, v in s.items()}
    return s


def declared(x):
    out = set()
    for y in walk(x):
        if y.get('s') == 'decl':
            for v in y['vars']:
                out.add(v.get('id'))
                out |= {b.get('id') for b in v.get('bind') or []}
        elif y.get('s') == 'rfor':
            out.add(y['var'].get('id'))
            out |= {b.get('id') for b in y['var'].get('bind') or []}
        elif y.get('k') == 'lambda':
            out |= {p.get('id') for p in y['params']}
    return out


def used(x):
    return {y['id'] for y in walk(x) if y.get('k') == 'var' and y.get('id') is not None and not y.get('g')}


def part(name, elem, etype):
    """Finder of the only unit taking items of a type, as a function named `name` with the items as its parameter."""
    def find(pr):
        us = units(pr, elem)
        if len(us) != 1:
            return None
        f, body = us[0]
        items = {'k': 'var', 'id': FRESH, 'n': 'items', 't': 'std::vector<%s>' % etype}
        out, done = [], False
        for s in stmts(body):
            if taking(s, elem):
                r = as_loop(s, items, elem) if not done else None
                if r is None:
                    return None
                loop, item, flags = r
                loop = dict(loop, body=without(loop['body'], flags))
                out.append(loop)
                done = True
            else:
                out.append(s)
        if not done:
            return None
        # variables that only steered the loop
        kept = []
        for s in out:
            if s.get('s') == 'decl':
                vs = [v for v in s['vars'] if v.get('id') not in flags | item]
                if not vs:
                    continue
                s = dict(s, vs=None, vars=vs)
                s.pop('vs')
            kept.append(s)
        if flags & used(kept):
            return None
        free = used(kept) - declared(kept) - {FRESH} - {p.get('id') for p in f['params']}
        before = []
        if free:
            tops = stmts(f['body'])
            for s in tops:
                if any(x.get('k') == 'lambda' for x in walk(s)):
                    if any(y is body for y in walk(s)):
                        break
                    continue
                if (used(s) | declared(s)) & free:
                    before.append(s)
                    free |= used(s)
            # what those statements need in turn
            before = [s for s in tops if s in before or (s.get('s') == 'decl' and declared(s) & free and not any(x.get('k') == 'lambda' for x in walk(s)))]
        g = dict(f, n=name, q='Driver::' + name, fid='part:' + name, body=block(before + kept), ret='void',
                 params=list(f['params']) + [{'id': FRESH, 'n': 'items', 't': items['t']}])
        return copy.deepcopy(g)
    return find


Reports = part('(thread that collects reports)', lambda t: norm(t).startswith('nlohmann::'), 'nlohmann::basic_json<>')
Tasks = part('(thread that works on tasks)', lambda t: norm(t).startswith('std::unique_ptr'), 'std::unique_ptr<Task>')
Sizes = part('(thread that collects sizes)', lambda t: norm(t).startswith('std::tuple'), 'std::tuple<int, int>')
