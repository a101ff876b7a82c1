"""Token definitions of the zone file lexer against reference definitions: equivalence of the two automata."""
from collections import deque

ALL = frozenset(range(256))
# Reference: a quoted text; a comment up to the end of its line; words of characters other than blanks, semicolons,
# quotes and parentheses (a parenthesis after a backslash belongs to the word when more of it follows); parentheses;
# ends of lines; blanks; anything else on its own.
PLAIN = ALL - frozenset(b' ;\t\r\n()"')
ESC = r'\\\(|\\\)'


class Unsupported(Exception):
    pass


class Nfa:
    def __init__(self):
        self.eps, self.edges, self.n = {}, {}, 0

    def state(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def c(self, a, cs, b):
        self.edges.setdefault(a, []).append((cs, b))


def parse(rx, nfa, dot):
    """Fragment (start, end) of a lexertl regular expression."""
    pos = 0

    def peek():
        return rx[pos] if pos < len(rx) else None

    def escape():
        nonlocal pos
        if pos >= len(rx):
            raise Unsupported(rx)
        ch = rx[pos]
        pos += 1
        if ch in 'nrtfvab0':
            return frozenset({{'n': 10, 'r': 13, 't': 9, 'f': 12, 'v': 11, 'a': 7, 'b': 8, '0': 0}[ch]})
        cls = {'d': b'0123456789', 's': b' \t\n\r\f\v', 'w': b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'}
        if ch.lower() in cls:
            s = frozenset(cls[ch.lower()])
            return ALL - s if ch.isupper() else s
        if ch.isalnum():
            raise Unsupported(rx)
        return frozenset({ord(ch)})

    def cset():
        nonlocal pos
        neg = peek() == '^'
        if neg:
            pos += 1
        out, last = set(), None
        while True:
            ch = peek()
            if ch is None:
                raise Unsupported(rx)
            pos += 1
            if ch == ']':
                break
            if ch == '[' and peek() == ':':
                raise Unsupported(rx)
            if ch == '-' and last is not None and peek() not in (']', None):
                nxt = peek()
                pos += 1
                hi = escape() if nxt == '\\' else frozenset({ord(nxt)})
                if len(hi) != 1:
                    raise Unsupported(rx)
                out |= set(range(last, min(hi) + 1))
                last = None
                continue
            s = escape() if ch == '\\' else frozenset({ord(ch)})
            out |= s
            last = min(s) if len(s) == 1 else None
        return ALL - out if neg else frozenset(out)

    def one(cs):
        a, b = nfa.state(), nfa.state()
        nfa.c(a, cs, b)
        return a, b

    def atom():
        nonlocal pos
        ch = rx[pos]
        pos += 1
        if ch == '(':
            f = alt()
            if peek() != ')':
                raise Unsupported(rx)
            pos += 1
            return f
        if ch == '[':
            return one(cset())
        if ch == '.':
            return one(dot)
        if ch == '\\':
            return one(escape())
        if ch == '"':
            a = b = nfa.state()
            while True:
                if pos >= len(rx):
                    raise Unsupported(rx)
                ch = rx[pos]
                pos += 1
                if ch == '"':
                    return a, b
                cs = escape() if ch == '\\' else frozenset({ord(ch)})
                x, y = one(cs)
                nfa.e(b, x)
                b = y
        if ch in '*+?{}^$/':
            raise Unsupported(rx)
        return one(frozenset({ord(ch)}))

    def rep():
        nonlocal pos
        a, b = atom()
        while peek() is not None and peek() in '*+?{':
            op = peek()
            pos += 1
            if op == '{':
                raise Unsupported(rx)
            if peek() == '?':
                raise Unsupported(rx)      # shortest match
            x, y = nfa.state(), nfa.state()
            nfa.e(x, a)
            nfa.e(b, y)
            if op in '*?':
                nfa.e(x, y)
            if op in '*+':
                nfa.e(b, a)
            a, b = x, y
        return a, b

    def cat():
        a = b = nfa.state()
        while peek() is not None and peek() not in '|)':
            x, y = rep()
            nfa.e(b, x)
            b = y
        return a, b

    def alt():
        nonlocal pos
        fs = [cat()]
        while peek() == '|':
            pos += 1
            fs.append(cat())
        if len(fs) == 1:
            return fs[0]
        x, y = nfa.state(), nfa.state()
        for a, b in fs:
            nfa.e(x, a)
            nfa.e(b, y)
        return x, y
    f = alt()
    if pos != len(rx):
        raise Unsupported(rx)
    return f


class Dfa:
    def __init__(self, defs, dot=ALL - {10}):
        self.nfa = Nfa()
        self.start = self.nfa.state()
        self.acc = {}
        for i, (rx, name) in enumerate(defs):
            a, b = parse(rx, self.nfa, dot)
            self.nfa.e(self.start, a)
            self.acc[b] = (i, name)

    def close(self, ss):
        todo, out = list(ss), set(ss)
        while todo:
            for y in self.nfa.eps.get(todo.pop(), ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def step(self, S, ch):
        return self.close({y for s in S for cs, y in self.nfa.edges.get(s, ()) if ch in cs})

    def label(self, S):
        a = [self.acc[s] for s in S if s in self.acc]
        return min(a)[1] if a else None


REFERENCE = [
    ('\\"[^\\"]*\\"', 'TEXT'), (';[^\\n]+', 'IGNORED'),
    ('((\\\\\\()*(\\\\\\))*[^ ;\\t\\r\\n()"]+)+', 'WORD'), ('\\(', 'OPEN'), ('\\)', 'CLOSE'), ('\\n', 'EOL'), ('[ \\t]+', 'BLANK'),
    ('.', 'IGNORED')]
MEANING = {'ID_COMMENT': 'IGNORED', 'ID_OTHER': 'IGNORED', 'ID_LPAREN': 'OPEN', 'ID_RPAREN': 'CLOSE', 'ID_TEXT_WORD': 'TEXT',
           'ID_WORD': 'WORD', 'ID_EOL': 'EOL', 'ID_WHITESPACE': 'BLANK'}


def definitions(body):
    """[(regular expression, token name)] added in the constructor, in order; None when it has another shape."""
    out = []

    def text(x):
        while isinstance(x, dict) and x.get('k') in ('ctor', 'cast', 'init'):
            x = (x.get('args') or [x.get('e')])[0]
        return x.get('v') if isinstance(x, dict) and x.get('k') == 'str' else None

    def tok(x):
        while isinstance(x, dict) and x.get('k') == 'cast':
            x = x['e']
        return x.get('n') if isinstance(x, dict) and x.get('k') == 'enum' else None

    def visit(x):
        if isinstance(x, list):
            for y in x:
                visit(y)
        elif isinstance(x, dict):
            if x.get('k') == 'call' and 'adder::operator()' in (x.get('fn') or ''):
                visit(x.get('obj'))
                a = x['args']
                if len(a) < 2:
                    raise Unsupported('token definition')
                out.append((text(a[0]), tok(a[1])))
                return
            if x.get('k') == 'call' and (x.get('fn') or '').endswith('::add') and x.get('args'):
                raise Unsupported('token definition')
            for y in x.values():
                visit(y)
    visit(body)
    if not out or any(r is None or t is None for r, t in out):
        raise Unsupported('token definition')
    return out


def show(w):
    return repr(bytes(w).decode('latin1'))


def check(pr):
    fs = [f for f in pr.byname.get('zone_file_tokens::zone_file_tokens', []) if f.get('body')]
    if len(fs) != 1:
        yield None, 'zone_file_tokens', 'constructor not found'
        return
    site = '%s:%s' % (fs[0]['file'], fs[0]['l'])
    try:
        defs = definitions(fs[0]['body'])
        names = [(rx, MEANING.get(t.split('::')[-1], t)) for rx, t in defs]
        a = Dfa(names)
        b = Dfa(REFERENCE)
    except Unsupported as e:
        yield None, site, 'not readable: %s' % e
        return
    s0 = (a.close({a.start}), b.close({b.start}))
    seen = {s0: None}
    todo = deque([(s0, ())])
    # characters no definition tells apart
    reps = {}
    for ch in range(256):
        key = tuple(ch in cs for n in (a.nfa, b.nfa) for es in n.edges.values() for cs, _ in es)
        reps.setdefault(key, ch)
    for want in (10, 32, 97):
        reps = {k: (want if k == tuple(want in cs for n in (a.nfa, b.nfa) for es in n.edges.values() for cs, _ in es) else v) for k, v in reps.items()}
    bad = None
    while todo and bad is None:
        (x, y), w = todo.popleft()
        if a.label(x) != b.label(y) and w:
            bad = (w, a.label(x), b.label(y))
            break
        if not a.label(x) and not w and a.label(x) != b.label(y):
            bad = (w, a.label(x), b.label(y))
            break
        for ch in reps.values():
            nx = (a.step(x, ch), b.step(y, ch))
            if nx not in seen and (nx[0] or nx[1]):
                seen[nx] = None
                todo.append((nx, w + (ch,)))
    if bad:
        yield False, site, 'the text %s is %s for the lexer, %s by the grammar of zone files' % (
            show(bad[0]), bad[1] or 'no token', bad[2] or 'no token')
    else:
        yield True, '%s: %d token definitions, %d pairs of automaton states' % (site, len(defs), len(seen)), ''
