"""Text streams: a file is a text under its path, a stream the path it is attached to and whether it failed so far.

Every path has a text (different path expressions are taken for different files): opening for writing empties it,
opening for appending keeps it, output appends to it.  Buffers are not modelled: what a stream was given is in the
file, and a failure to write it is noticed at flush or close.
"""
from core import *

OUT, APP, IN, TRUNC = 16, 1, 8, 32
KINDS = ('std::basic_ofstream', 'std::basic_fstream', 'std::basic_ifstream')
TEXTS = ('std::basic_stringstream', 'std::basic_ostringstream')
CONSOLE = ('std::cout', 'std::cerr', 'std::clog')
SILENT = ('setw', 'setfill', 'setprecision', 'flush', 'unitbuf', 'hex', 'dec', 'boolalpha', 'noskipws', 'skipws')


def is_file(t):
    return t.startswith(KINDS)


def is_text(t):
    return t.startswith(TEXTS)


def fresh(t):
    kind = t.split('<')[0].strip()
    return leaf(mk('rec', '#stream', (('path', leaf(UNDEF)), ('fail', FALSE), ('text', sv('')), ('kind', leaf(mk('str', kind))))))


def state(it, l):
    """The stream l stands for, None when that is not known."""
    if l is None:
        return None
    v = it.load(l)
    if all(t.op == 'rec' and t.a[0] == '#stream' or t.op == 'upd' for t in leafset(v)):
        k = proj(v, mk('.f', 'kind'))
        if k.var is None and k.t.op == 'str':
            return k.t.a[0]
    return None


def field(it, l, f):
    from interp import lv_add
    return lv_add(l, mk('.f', f))


def text_at(it, path):
    from interp import lvv
    return map1(lambda t: lvv(mk('rf', t)), path)


def parsed(it, l):
    return v_app('json of', [it.load(text_at(it, it.load(field(it, l, 'path'))))])


def failed(it, l, what):
    p = it.load(field(it, l, 'path'))
    bad = truth(v_app(what, [p]))
    it.assign(field(it, l, 'fail'), bor(truth(it.load(field(it, l, 'fail'))), bad))


def open_(it, l, path, mode=None):
    kind = state(it, l)
    it.assign(field(it, l, 'path'), path)
    it.assign(field(it, l, 'fail'), FALSE)
    m = None
    if mode is None:
        m = {'std::basic_ofstream': OUT, 'std::basic_ifstream': IN, 'std::basic_fstream': IN | OUT}[kind]
    elif mode.var is None and mode.t.op == 'int':
        m = mode.t.a[0] | {'std::basic_ofstream': OUT, 'std::basic_ifstream': IN}.get(kind, 0)
    if m is None:
        it.assign(text_at(it, path), it.opaque('open mode'))
    elif m & OUT and not m & (IN | APP) or m & TRUNC:
        it.assign(text_at(it, path), sv(''))
    elif m & OUT and m & IN and not m & APP:
        it.assign(text_at(it, path), it.opaque('file overwritten from its start', it.load(text_at(it, path))))
    failed(it, l, 'cannot write' if m is None or m & (OUT | APP) else 'cannot read')


def rendered(it, e, v):
    """Text of an operand of <<."""
    from lib import etype, is_char, strval
    t = etype(e)
    if contents(v) is not None:
        return contents(v)
    if e['k'] == 'fnref' or any(x.op == 'fn' for x in leafset(v)):
        n = ''.join(str(x.a[0]) for x in leafset(v) if x.op == 'fn') + str(e.get('fn') or e.get('n') or '')
        return sv('\n') if 'endl' in n else sv('')
    if 'basic_json' in t:
        strict(it)
        return v_app('dump', [v])
    if is_char(t):
        return strval(v, t)
    if t in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'bool', 'size_t'):
        return map1(lambda x: sv(str(x.a[0])) if x.op == 'int' else leaf(mk('app', 'to_string', x)), v)
    return v


def contents(v):
    """The text behind a stream buffer or an iterator at its start, None if v is none."""
    if all(t.op == 'app' and t.a[0] == 'filebuf' for t in leafset(v)):
        return map1(lambda t: leaf(t.a[1]), v)
    return None


def strict(it):
    it.need('strict output of a JSON text that need not be UTF-8', FALSE)


def write(it, l, v):
    kind = state(it, l)
    if kind is None:
        return False
    if kind in TEXTS:
        it.store_lv(field(it, l, 'text'), lambda old: v_cat(old, v))
    else:
        it.store_lv(text_at(it, it.load(field(it, l, 'path'))), lambda old: v_cat(old, v))
    return True


def method(it, l, m, args, want):
    kind = state(it, l)
    if kind is None:
        return None
    ok = lambda: bnot(truth(it.load(field(it, l, 'fail'))))
    if kind in TEXTS:
        if m == 'str':
            if args:
                it.assign(field(it, l, 'text'), it.ev(args[0]))
                return it.out(want, v=leaf(UNDEF))
            return it.out(want, v=it.load(field(it, l, 'text')))
        return None
    if m == 'rdbuf' and not args:
        return it.out(want, v=v_app('filebuf', [it.load(text_at(it, it.load(field(it, l, 'path'))))]))
    if m == 'open':
        open_(it, l, it.ev(args[0]), it.ev(args[1]) if len(args) > 1 else None)
        return it.out(want, v=leaf(UNDEF))
    if m in ('close', 'flush'):
        failed(it, l, 'cannot finish')
        return it.out(want, v=leaf(UNDEF))
    if m in ('is_open', 'good', 'operator bool'):
        return it.out(want, v=ok())
    if m in ('fail', 'bad', 'operator!'):
        return it.out(want, v=bnot(ok()))
    if m in ('unsetf', 'setf', 'width', 'precision', 'imbue', 'exceptions', 'fill'):
        return it.out(want, v=leaf(UNDEF))
    return None
