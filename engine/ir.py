"""Loading of the exported program and a printer for diagnostics."""
import json
import re


def norm(fn):
    """std::vector<A, B<C>>::size -> std::vector::size"""
    if fn is None:
        return ''
    out = []
    depth = 0
    i = 0
    n = len(fn)
    while i < n:
        c = fn[i]
        if fn.startswith('operator', i):
            j = i + 8
            if fn[j:j + 3] in ('<<=', '>>=', '<=>', '->*'):
                s = fn[i:j + 3]
            elif fn[j:j + 2] in ('<<', '>>', '<=', '>=', '->', '()', '[]', '==', '!=', '&&', '||', '++', '--', '+=',
                                 '-=', '*=', '/=', '|=', '&=', '^=', '%='):
                s = fn[i:j + 2]
            elif fn[j:j + 1] in tuple('<>=+-*/%!~&|^,'):
                s = fn[i:j + 1]
            else:
                s = 'operator'
            if depth == 0:
                out.append(s)
            i += len(s)
            continue
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('std::__cxx11::', 'std::').replace('::__cxx11::', '::')


class Program:
    def __init__(self, files):
        self.funcs = {}
        self.byname = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.unknown = 0
        for path in files:
            d = json.load(open(path))
            for f in d['functions']:
                if f['fid'] in self.funcs:
                    continue
                self.funcs[f['fid']] = f
                self.byname.setdefault(norm(f['q']), []).append(f)
            for r in d['records']:
                self.records.setdefault(r['q'], r)
            for e in d['enums']:
                self.enums.setdefault(e['q'], e)
            for g in d['globals']:
                self.globals.setdefault(g['q'], g)
            self.unknown += d['unknown']
        self._written = None

    def unwritten(self, name):
        """No code of the program changes the global variable, or could through a reference to it."""
        if self._written is None:
            self._written = set()
            for f in self.funcs.values():
                written_globals(f.get('body'), self._written)
                if '&' in str(f.get('ret') or '') or '*' in str(f.get('ret') or ''):
                    for r in returned(f.get('body')):
                        written_globals({'k': 'un', 'op': '&', 'e': r}, self._written)
            for g in self.globals.values():
                written_globals(g.get('init'), self._written)
        return name not in self._written


ELEMENT = ('operator[]', 'at', 'front', 'back')
READING = ('size', 'length', 'empty', 'max_size', 'find', 'count', 'cbegin', 'cend')


def returned(x):
    if isinstance(x, dict):
        if x.get('s') == 'ret' and x.get('e') is not None:
            yield x['e']
        for y in x.values():
            yield from returned(y)
    elif isinstance(x, list):
        for y in x:
            yield from returned(y)


def root_global(e):
    while isinstance(e, dict):
        k = e.get('k')
        if k == 'var':
            return e.get('g')
        if k == 'mem':
            e = e['b']
        elif k == 'idx':
            e = e['a']
        elif k == 'call' and norm(e.get('fn')).split('::')[-1] in ELEMENT:
            e = e['obj'] if e.get('obj') is not None else None
        elif k == 'cond':
            return None
        else:
            return None
    return None


def written_globals(x, out):
    """Adds the global variables that may change in the code x."""
    def hit(e):
        if isinstance(e, dict) and e.get('k') == 'cond':
            hit(e['a'])
            hit(e['b'])
            return
        g = root_global(e)
        if g:
            out.add(g)
    if isinstance(x, list):
        for y in x:
            written_globals(y, out)
        return
    if not isinstance(x, dict):
        return
    k, s = x.get('k'), x.get('s')
    if k == 'asg':
        hit(x['a'])
    elif k == 'un' and x.get('op') in ('++', '--', '&'):
        hit(x['e'])
    elif k in ('call', 'ctor'):
        m = norm(x.get('fn') or '').split('::')[-1]
        if x.get('obj') is not None and not x.get('const') and m not in ELEMENT + READING:
            hit(x['obj'])
        refs = x.get('refs')
        for i, a in enumerate(x.get('args') or []):
            if (k == 'ctor' and x.get('fid')) if refs is None else (i < len(refs) and refs[i]):
                hit(a)
    elif k == 'lambda':
        for c in x.get('caps') or []:
            if c.get('byref') and c.get('init'):
                hit(c['init'])
    if s == 'decl':
        for v in x['vars']:
            if (v.get('ref') and not v.get('cref')) or v.get('bind') or '*' in (v.get('t') or ''):
                hit(v.get('init'))
    elif s == 'rfor':
        v = x['var']
        if (v.get('ref') and not v.get('cref')) or '*' in (v.get('t') or ''):
            hit(x.get('range'))
    for y in x.values():
        if isinstance(y, (dict, list)):
            written_globals(y, out)


def E(e):
    if e is None:
        return '~'
    if isinstance(e, list):
        return '[' + ', '.join(E(x) for x in e) + ']'
    k = e['k']
    if k in ('int', 'char', 'float', 'bool'):
        return str(e.get('v'))
    if k == 'str':
        return repr(e.get('v'))
    if k == 'this':
        return 'this'
    if k == 'var':
        return ('::' + e['g']) if e.get('g') else e['n'] + '#' + str(e.get('id'))
    if k == 'enum':
        return e['n']
    if k == 'mem':
        return E(e['b']) + ('->' if e.get('arrow') else '.') + e['f']
    if k == 'call':
        o = (E(e['obj']) + '.') if e.get('obj') is not None else ''
        return o + norm(e.get('fn')) + ('$' if e.get('fid') else '') + '(' + ', '.join(E(x) for x in e['args']) + ')' + (
            '{op %s}' % e['op'] if e.get('op') else '') + ('{conv}' if e.get('conv') else '')
    if k == 'ctor':
        return 'new:' + norm(e.get('cls') or e.get('ty')) + ('$' if e.get('fid') else '') + '(' + ', '.join(
            E(x) for x in e['args']) + ')' + ('{list}' if e.get('list') or e.get('ilist') else '')
    if k == 'init':
        return '{' + ', '.join(E(x) for x in e['items']) + '}:' + norm(e.get('ty'))
    if k == 'un':
        return (e['op'] + E(e['e'])) if not e.get('post') else E(e['e']) + e['op']
    if k in ('bin', 'asg'):
        return '(' + E(e['a']) + ' ' + e['op'] + ' ' + E(e['b']) + ')'
    if k == 'cond':
        return '(' + E(e['c']) + ' ? ' + E(e['a']) + ' : ' + E(e['b']) + ')'
    if k == 'idx':
        return E(e['a']) + '[' + E(e['b']) + ']'
    if k == 'lambda':
        return 'lambda(%s)[%s]{\n%s\n}' % (','.join(p['n'] for p in e['params']), ', '.join(
            ('&' if c.get('byref') else '') + str(c.get('n') or 'this') + ('=' + E(c['init']) if c.get('init') else '')
            for c in e['caps']), S(e['body'], 2))
    return k + ':' + ','.join('%s=%s' % (x, E(y) if isinstance(y, dict) else y) for x, y in e.items() if x not in ('k', 'l', 't'))


def S(s, d=0):
    p = '  ' * d
    if s is None:
        return p + ';'
    k = s['s']
    if k == 'block':
        return '\n'.join(S(x, d) for x in s['b'])
    if k == 'decl':
        return '\n'.join(p + 'decl %s#%s %s%s = %s%s' % (v['n'], v['id'], norm(v['t']), '&' if v.get('ref') else '', E(v.get('init')),
                                                         ' bind ' + str([(b['n'], b['i']) for b in v['bind']]) if v.get('bind') else '')
                         for v in s['vars'])
    if k == 'expr':
        return p + E(s['e'])
    if k == 'if':
        return p + 'if ' + (S(s['init']) if s.get('init') else '') + E(s['c']) + '\n' + S(s['then'], d + 1) + (
            '\n' + p + 'else\n' + S(s['else'], d + 1) if s.get('else') else '')
    if k == 'for':
        return p + 'for\n' + S(s.get('init'), d + 2) + '\n' + p + '   ; ' + E(s.get('c')) + ' ; ' + E(s.get('inc')) + '\n' + S(s['body'], d + 1)
    if k == 'rfor':
        return p + 'rfor %s : %s [%s]\n' % (s['var']['n'], E(s['range']), norm(s.get('rty'))) + S(s['body'], d + 1)
    if k in ('while', 'do'):
        return p + k + ' ' + E(s['c']) + '\n' + S(s['body'], d + 1)
    if k == 'ret':
        return p + 'ret ' + E(s.get('e'))
    if k == 'switch':
        return p + 'switch ' + E(s['c']) + '\n' + '\n'.join(S(x, d + 1) for x in s['b'])
    if k == 'case':
        return p + 'case ' + str(s.get('v'))
    if k == 'try':
        return p + 'try\n' + S(s['b'], d + 1) + '\n' + '\n'.join(p + 'catch %s\n' % h.get('t') + S(h['b'], d + 1) for h in s['h'])
    return p + k


if __name__ == '__main__':
    import sys
    import glob
    pr = Program(sys.argv[1:-1])
    for f in pr.byname[sys.argv[-1]]:
        print(f['q'], [(p['n'], p['id']) for p in f['params']], f.get('ret'))
        print(S(f['body'], 1))
