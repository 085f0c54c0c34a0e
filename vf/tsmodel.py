"""A JSON-able model of TypeScript documents: declarations, types, and their text.

Types
    ["b", name]              basic type (string, number, any, null, undefined, ...)
    ["r", name, args]        reference to a declared type or a type parameter
    ["a", t, notation]       array; notation 0: t[], 1: Array<t>, 2: readonly t[], 3: ReadonlyArray<t>
    ["u", [t, ...]]          union
    ["t", [t, ...]]          tuple
    ["m", key, t, kname]     index signature { [kname: key]: t }
    ["m", key, t, kname, how]  the same with "in" or "in keyof" instead of the colon
    ["o", fields]            anonymous interface
    ["l", lit]               literal
    ["p", t]                 parentheses
    ["x", t1, t2]            intersection (unsupported: Any)
    ["i", name, key]         indexed access (unsupported: Any)
    ["f", [[name, t]...], ret]  function type
Fields   {"n": name, "o": optional, "q": modifiers, "t": type or None}
Literals ["s", text] | ["i", int] | ["f", text] | ["b", bool] | ["a", [lit...]] | ["d", [[key, lit]...]]
Declarations (dict with "k")
    iface {name, params, ext: [[name, args]...], fields, kw}
    alias {name, params, type}
    enum  {name, items: [[name, lit|None, quoted]...]}
    ns    {name, consts: [[name, type|None, lit]...]}      constant namespace
    const {name, type|None, val: lit|["id", name]|None}
    box   {name, decls}                                     namespace with interfaces etc.
    open {mod}, close                                        declare module "mod" { ... } around declarations
    import {text}
    func  {name, params, args, ret, tail}
    each with "exp": bool (export)
"""
import keyword
import zlib

BASIC = {'string': 'str', 'number': 'float', 'boolean': 'bool', 'integer': 'int', 'uinteger': 'int',
         'decimal': 'float', 'null': None, 'undefined': None, 'void': None, 'any': 'any', 'unknown': 'any',
         'object': 'dict', 'array': 'list'}


def pyname(n):
    return n + '_' if keyword.iskeyword(n) else n


# ------------------------------------------------------------------ text

WORD = 'w'     # identifiers, keywords, numbers
PUNCT = 'p'


class Out:
    """Collects tokens. A token is (text, flag); flag may suggest a line break in front ('nl'),
    an indentation change, or mark an optional token."""
    def __init__(self, style=None):
        self.toks = []
        self.style = style or Style()

    def w(self, *texts):
        for t in texts:
            self.toks.append((t, ''))

    def nl(self, indent=0):
        self.toks.append(('', 'nl%+d' % indent))


class Style:
    """Answers the renderer's questions about optional punctuation; plain style by default."""
    def sep(self, i, last):
        """separator after the i-th field: ';' ',' or '' """
        return ';'

    def flag(self, what):
        """whether to write an optional element: 'leadbar', 'export', 'declare', 'semi', 'enumcomma', ..."""
        return False


def lit_tokens(o, lit):
    k, v = lit
    if k == 's':
        o.w(quote(v))
    elif k == 'i':
        o.w(str(v))
    elif k in ('f', 'n', 'id'):
        o.w(v)
    elif k == 'b':
        o.w('true' if v else 'false')
    elif k == 'a':
        o.w('[')
        for i, x in enumerate(v):
            if i:
                o.w(',')
            lit_tokens(o, x)
        o.w(']')
    elif k == 'd':
        o.w('{')
        for i, (key, x) in enumerate(v):
            if i:
                o.w(',')
            o.w(key, ':')
            lit_tokens(o, x)
        o.w('}')
    else:
        raise ValueError(lit)


CONTROL = {'\n': 'n', '\r': 'r', '\b': 'b', '\f': 'f', '\v': 'v', '\t': 't', '\\': '\\'}


def quote(text):
    """-> a string literal of TypeScript; some of its characters are written as escape sequences"""
    h = zlib.crc32(text.encode())
    q = '"' if h % 2 else "'"
    if q in text and h % 5:
        q = "'" if q == '"' else '"'
    some = h % 3 == 0
    res = ''
    for i, c in enumerate(text):
        n, how = ord(c), (h >> (i % 12)) % 16
        if n == 0 and how > 8 and not text[i + 1:i + 2].isdecimal():
            res += '\\0'
        elif how == 1 and some or how < 8 and c < ' ' and c not in CONTROL:
            res += '\\u{%x}' % n if how & 1 else '\\u{%06X}' % n
        elif (how == 2 and some or c < ' ' and c not in CONTROL) and n < 256:
            res += '\\x%02x' % n
        elif how == 3 and some and n < 0x10000:
            res += '\\u%04x' % n
        elif c == q or c in CONTROL and (c != '\t' or how & 1):
            res += '\\' + CONTROL.get(c, c)
        elif how > 11 and some and c not in 'bfnrtvux0123456789':
            res += '\\' + c
        else:
            res += c
    return q + res + q


def lit_value(lit):
    k, v = lit
    if k == 'f':
        return float(v)
    if k == 'n':
        return None
    if k == 'a':
        return [lit_value(x) for x in v]
    if k == 'd':
        return {key.strip('"'): lit_value(x) for key, x in v}
    return v


def type_tokens(o, t):
    k = t[0]
    if k == 'b':
        o.w(t[1])
    elif k == 'r':
        o.w(t[1])
        if t[2]:
            args_tokens(o, t[2])
    elif k == 'a':
        inner, how = t[1], t[2]
        if how in (1, 3):
            o.w('Array' if how == 1 else 'ReadonlyArray')
            args_tokens(o, [inner])
        else:
            if how == 2:
                o.w('readonly')
            if inner[0] in 'brto':
                type_tokens(o, inner)
            else:
                o.w('(')
                type_tokens(o, inner)
                o.w(')')
            o.w('[', ']')
    elif k == 'u':
        if o.style.flag('leadbar'):
            o.w('|')
        for i, x in enumerate(t[1]):
            if i:
                o.w('|')
            if x[0] in 'uf':
                o.w('(')
                type_tokens(o, x)
                o.w(')')
            else:
                type_tokens(o, x)
    elif k == 't':
        o.w('[')
        for i, x in enumerate(t[1]):
            if i:
                o.w(',')
            type_tokens(o, x)
        o.w(']')
    elif k == 'm':
        how = t[4] if len(t) > 4 else ':'
        o.w('{', '[', t[3], *how.rstrip(' ?').split())
        type_tokens(o, t[1])
        o.w(']', *['?'] * how.count('?'))
        o.w(':')
        type_tokens(o, t[2])
        if o.style.flag('mapsemi'):
            o.w(';')
        o.w('}')
    elif k == 'o':
        block_tokens(o, t[1], *t[2:])
    elif k == 'l':
        lit_tokens(o, t[1])
    elif k == 'p':
        o.w('(')
        type_tokens(o, t[1])
        o.w(')')
    elif k == 'x':
        type_tokens(o, t[1])
        o.w('&')
        type_tokens(o, t[2])
    elif k == 'i':
        o.w(t[1], '[', quote(t[2]), ']')
    elif k == 'f':
        # [name, type, optional?]...; the tail, if any: [name, type]
        if o.style.flag('new'):
            o.w('new')
        o.w('(')
        for i, (n, x, *opt) in enumerate(t[1]):
            if i:
                o.w(',')
            o.w(n, *(['?'] if opt and opt[0] else []))
            if x[2:] != ['bare']:       # ['b', 'any', 'bare']: no type at all
                o.w(':')
                type_tokens(o, x)
        if len(t) > 3 and t[3]:
            if t[1]:
                o.w(',')
            o.w('...', t[3][0], ':')
            type_tokens(o, ['a', t[3][1], 0])
        o.w(')', '=>')
        type_tokens(o, t[2])
    else:
        raise ValueError(t)


def params_tokens(o, d):
    """type parameters, possibly with bounds and defaults: lists of tokens"""
    if not d.get('params'):
        return
    bounds = d.get('bounds') or [None] * len(d['params'])
    o.w('<')
    for i, (p, b) in enumerate(zip(d['params'], bounds)):
        if i:
            o.w(',')
        o.w(p)
        if b:
            o.w(*b)
    o.w('>')


def args_tokens(o, args):
    o.w('<')
    for i, x in enumerate(args):
        if i:
            o.w(',')
        type_tokens(o, x)
    o.w('>')


MODIFIERS = ('static', 'readonly', 'let', 'var', 'export', 'function', 'declare')


def block_tokens(o, fields, methods=(), index=None, mixed=None):
    """index: index signature after the fields: [name, type of keys, type of values];
    mixed: tape of numbers that mingles fields and methods"""
    o.w('{')
    items = [('f', f) for f in fields] + [('m', m) for m in methods]
    if mixed:
        fs, ms, items, k = [('f', f) for f in fields], [('m', m) for m in methods], [], 0
        while fs or ms:
            items.append((fs if fs and (not ms or mixed[k % len(mixed)]) else ms).pop(0))
            k += 1
    if items:
        o.nl(+1)
    for i, (what, f) in enumerate(items):
        last = i == len(items) - 1
        if what == 'f':
            for q in f.get('q', ()):
                o.w(q)
            o.w(f['n'])
            if f['o']:
                o.w('?')
            if f['t'] is not None:
                o.w(':')
                type_tokens(o, f['t'])
        else:
            func_tokens(o, f)
        s = o.style.sep(i, last)
        if not s and not last and what == 'f' and f['t'] is None and not f['o'] and f['n'] in MODIFIERS:
            s = ';'      # otherwise a modifier of the following
        if last and index:
            o.w(';')
            o.nl(0)
            o.w('[', index[0], ':')
            type_tokens(o, index[1])
            o.w(']', ':')
            type_tokens(o, index[2])
            s = o.style.sep(i + 1, last)
        if s:
            o.w(s)
        o.nl(-1 if last else 0)
    o.w('}')


def func_tokens(o, d):
    if d.get('static'):
        o.w('static')
    if d['name'].startswith('['):
        o.w('[', d['name'][1:-1], ']')
    else:
        o.w(d['name'])
    if d.get('opt'):
        o.w('?')
    params_tokens(o, d)
    o.w('(')
    n = 0
    for a in d['args']:
        if n:
            o.w(',')
        n += 1
        o.w(a['n'])
        if a['o']:
            o.w('?')
        if a['t'] is not None:
            o.w(':')
            type_tokens(o, a['t'])
    if d.get('tail'):
        if n:
            o.w(',')
        o.w('...', d['tail'][0])
        if d['tail'][1] is not None:
            o.w(':')
            type_tokens(o, d['tail'][1])
    o.w(')')
    if d.get('ret') is not None:
        o.w(':')
        type_tokens(o, d['ret'])


def decl_tokens(o, d):
    k = d['k']
    if k == 'open':
        o.w('declare', 'module', '"%s"' % d['mod'], '{')
        return
    if k == 'close':
        o.w('}')
        return
    if k != 'import' and (d.get('exp') or o.style.flag('export')):
        o.w('export')
    if k == 'iface':
        if o.style.flag('declare'):
            o.w('declare')
        o.w(d.get('kw', 'interface'), d['name'])
        params_tokens(o, d)
        for i, (n, a) in enumerate(d['ext']):
            o.w(('implements' if d.get('impl') else 'extends') if i == 0 else ',')
            type_tokens(o, ['r', n, a])
        block_tokens(o, d['fields'], d.get('methods', ()), d.get('index'), d.get('mixed'))
        if o.style.flag('semi'):
            o.w(';')
    elif k == 'alias':
        o.w('type', d['name'])
        params_tokens(o, d)
        o.w('=')
        type_tokens(o, d['type'])
        o.w(';')
    elif k == 'enum':
        o.w('enum', d['name'], '{')
        o.nl(+1)
        for i, it in enumerate(d['items']):
            if i:
                o.w(',')
                o.nl()
            n, lit = it[0], it[1]
            if len(it) > 2 and it[2]:
                o.w('"%s"' % n)
            else:
                o.w(n)
            if lit is not None:
                o.w('=')
                lit_tokens(o, lit)
        if o.style.flag('enumcomma'):
            o.w(',')
        o.nl(-1)
        o.w('}')
    elif k == 'ns':
        o.w('namespace', d['name'], '{')
        o.nl(+1)
        for i, (n, t, lit) in enumerate(d['consts']):
            if d.get('exp') or o.style.flag('export'):
                o.w('export')
            o.w('const', n)
            if t is not None:
                o.w(':')
                type_tokens(o, t)
            o.w('=')
            lit_tokens(o, lit)
            o.w(';')
            o.nl(-1 if i == len(d['consts']) - 1 else 0)
        o.w('}')
    elif k == 'const':
        o.w('const', d['name'])
        if d['type'] is not None:
            o.w(':')
            type_tokens(o, d['type'])
        if d['val'] is not None:
            o.w('=')
            if d['val'][0] == 'id':
                o.w(d['val'][1])
            else:
                lit_tokens(o, d['val'])
        o.w(';')
    elif k == 'box':
        o.w('namespace', d['name'], '{')
        o.nl(+1)
        for i, x in enumerate(d['decls']):
            decl_tokens(o, x)
            o.nl(-1 if i == len(d['decls']) - 1 else 0)
        o.w('}')
    elif k == 'import':
        o.w(*d['toks'])
    elif k == 'func':
        if d.get('kwf', True):
            o.w('function')
        func_tokens(o, d)
        o.w(';')
    else:
        raise ValueError(d)


def doc_tokens(doc, style=None):
    o = Out(style)
    for d in doc:
        decl_tokens(o, d)
        o.nl()
    return o.toks


def is_word(text):
    return bool(text) and (text[-1].isalnum() or text[-1] == '_')


def starts_word(text):
    return bool(text) and (text[0].isalnum() or text[0] == '_')


def needs_gap(a, b):
    return is_word(a) and (starts_word(b) or b[0] == '-')


TIGHT_BEFORE = {';', ',', ')', ']', '>', '?', ':', '[]', '<'}
TIGHT_AFTER = {'(', '[', '<', '...'}


def plain(toks):
    """Conventional layout."""
    out = []
    indent = 0
    prev = ''
    fresh = True
    for text, flag in toks:
        if flag.startswith('nl'):
            n = int(flag[2:])
            indent += n
            out.append('\n' + '    ' * indent)
            fresh = True
            continue
        if not fresh:
            tight = text in TIGHT_BEFORE or prev in TIGHT_AFTER or (text == '(' and is_word(prev) and prev not in ('function',))
            if not tight or (needs_gap(prev, text)):
                out.append(' ')
        out.append(text)
        prev = text
        fresh = False
    s = ''.join(out).strip(' ')
    lines = [l.rstrip() for l in s.split('\n')]
    return '\n'.join(lines).rstrip('\n') + '\n'


def render(doc, style=None):
    return plain(doc_tokens(doc, style))


# ------------------------------------------------------------------ queries

def walk_types(t, f):
    """calls f on t and all types inside t (fields of anonymous interfaces included)"""
    f(t)
    k = t[0]
    if k == 'r':
        for x in t[2]:
            walk_types(x, f)
    elif k in 'ap':
        walk_types(t[1], f)
    elif k in 'ut':
        for x in t[1]:
            walk_types(x, f)
    elif k == 'm':
        walk_types(t[1], f)
        walk_types(t[2], f)
    elif k == 'o':
        for fd in t[1]:
            if fd['t'] is not None:
                walk_types(fd['t'], f)
        for m in (t[2] if len(t) > 2 else ()):
            for x in func_types(m):
                walk_types(x, f)
    elif k == 'x':
        walk_types(t[1], f)
        walk_types(t[2], f)
    elif k == 'f':
        for x in t[1]:
            walk_types(x[1], f)
        walk_types(t[2], f)
        if len(t) > 3 and t[3]:
            walk_types(t[3][1], f)


def func_types(d):
    for a in d['args']:
        if a['t'] is not None:
            yield a['t']
    if d.get('tail') and d['tail'][1] is not None:
        yield d['tail'][1]
    if d.get('ret') is not None:
        yield d['ret']


def decl_types(d):
    k = d['k']
    if k == 'iface':
        for n, a in d['ext']:
            for x in a:
                yield x
        for f in d['fields']:
            if f['t'] is not None:
                yield f['t']
    elif k == 'alias':
        yield d['type']
    elif k == 'const':
        if d['type'] is not None:
            yield d['type']
    elif k == 'box':
        for x in d['decls']:
            yield from decl_types(x)


def all_types(doc):
    res = []
    for d in doc:
        for t in decl_types(d):
            walk_types(t, res.append)
    return res


def refs(d):
    """names referred to by a declaration (type parameters included)"""
    res = []
    for t in decl_types(d):
        walk_types(t, lambda x: res.append(x[1]) if x[0] in 'ri' else None)
    return res


def depth(t):
    k = t[0]
    if k in 'ap':
        return 1 + depth(t[1])
    if k in 'ut':
        return 1 + max(map(depth, t[1]), default=0)
    if k == 'm':
        return 1 + depth(t[2])
    if k == 'o':
        return 1 + max((depth(f['t']) for f in t[1] if f['t'] is not None), default=0)
    if k == 'r' and t[2]:
        return 1 + max(map(depth, t[2]))
    if k == 'x':
        return 1 + max(depth(t[1]), depth(t[2]))
    return 0


def labels(doc):
    """feature labels of a document"""
    s = set()
    for d in doc:
        s.add('decl:' + d['k'])
        if d['k'] == 'iface':
            if d['ext']:
                s.add('extends')
            if d['params']:
                s.add('generic-iface')
        if d['k'] == 'alias' and d['params']:
            s.add('generic-alias')
    names = {}
    for i, d in enumerate(doc):
        if 'name' in d:
            names[d['name']] = i
    for i, d in enumerate(doc):
        for r in refs(d):
            if r in names:
                s.add('ref:forward' if names[r] > i else 'ref:self' if names[r] == i else 'ref:back')
    for t in all_types(doc):
        s.add('type:' + {'b': 'basic', 'r': 'ref', 'a': 'array', 'u': 'union', 't': 'tuple', 'm': 'map', 'o': 'anon',
                         'l': 'literal', 'p': 'paren', 'x': 'intersection', 'i': 'indexed', 'f': 'func'}[t[0]])
        if t[0] == 'r' and t[2]:
            s.add('type:generic')
        if depth(t) >= 3:
            s.add('depth>=3')
    return sorted(s)


def jd(x):
    import json
    return json.dumps(x, sort_keys=True)
