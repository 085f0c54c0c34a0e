"""C13: preserving comments keeps every multi-line comment and no more."""
import ast
import io
import re
import tokenize

from vf import docs, gen as G, sut, tsmodel as M
from vf.core import Facet, Violation

TECHNIQUE = ('property-based testing: comments with unique words are placed between declarations, fields, enum items and namespace members of '
             'generated documents; oracle on the comment tokens of the generated code (Hypothesis)')
RULE = ('a case is a document with comments; non-trivial: at least two comments that end with a line break, one of them inside of a declaration')
ASSUMPTIONS = ['comments before the first and after the last field of an anonymous interface are not between fields; anonymous interfaces in '
               'functional notation, which have no lines of their own, are exempt',
               'comments inside of anonymous interfaces, which are rendered elsewhere, are exempt from the order among comments']

DECOR = ['', '', '', '@param', "'''", '"""', '"', "it's", 'class A:', 'x = 1', '#', '{', '}', 'ünï', '%s', '-', 'export', 'interface X {', '...', '@deprecated:',
         'TODO(a)', '\\', 'type A = B;', 'a*b', '* x', '<b>', '[1]', '…', ':', '=>', '`q`', '$', '__init__', '---', '- a -', '_x_', '=====', '# -', 'a.', '...,', ';', '@', '#region', '!', '/', '+', '~',
         '//', 'http://a.b/c//', '/*', '*/', '/**', 'a/*b', '//*', '**x**', '// -']


def build(features):
    def b(s):
        doc = G.gen_doc(s, features)
        cfg = G.gen_cfg(s, generics=G.has_generics(doc), enums=False)
        n = len(segments(doc)) + 1
        coms = []
        k = 0
        for i in range(n):
            for _ in range(s.pick([0, 0, 0, 1, 1, 2])):
                words = []
                for _ in range(s.num(1, 4)):
                    words.append([k, s.i(len(DECOR)), s.i(6)])
                    k += 1
                coms.append([i, s.i(8), words])
        return {'doc': doc, 'cfg': cfg, 'comments': coms}
    return lambda: docs.strategy(b)


def segments(doc):
    """lines of the document: [(indentation, text, starts inside of an anonymous interface)]"""
    res, cur, indent = [], [], 0
    braces = []
    inside = False

    def flush():
        nonlocal inside
        if cur:
            res.append((indent, M.plain(cur).strip('\n'), inside))
            for j, (t, _) in enumerate(cur):
                if t == '{':
                    before = [x for x, _ in cur[:j]]
                    head = [x for x in before if x not in ('export', 'declare')][:1]
                    named = '{' not in before and head and head[0] in ('interface', 'class', 'enum', 'namespace') and ':' not in before
                    braces.append(not named)
                elif t == '}':
                    braces.pop()
            del cur[:]
        inside = any(braces)
    for text, flag in M.doc_tokens(doc):
        if flag.startswith('nl'):
            flush()
            indent += int(flag[2:])
        else:
            cur.append((text, flag))
    flush()
    return res


def word(k):
    return 'w%dq' % k


def piece(w):
    k, d, how = w
    x, deco = word(k), DECOR[d]
    return [x + ' ' + deco, deco + ' ' + x, '"%s"' % x, '(%s)' % x, x + ',', x][how].strip()


def comment(style, words, pad):
    """-> (text, trailing, ends with line break)"""
    ps = [piece(w) for w in words]
    ps = [p.replace('*/', '* /') for p in ps]
    if style == 0 or style == 6:
        return '// ' + ' '.join(ps) + '\n', style == 6, True
    if style == 1:
        return '/* ' + ' '.join(ps) + ' */\n', False, True
    if style == 2:
        return '/**\n' + ''.join('%s * %s\n' % (pad, p) for p in ps) + pad + ' */\n', False, True
    if style == 3:
        return '/* ' + ('\n\n' + pad + '   ').join(ps) + '\n' + pad + '*/\n', False, True
    if style == 4:
        return '/* ' + ' '.join(ps) + ' */  \n', True, True
    if style == 5:
        return ''.join(('' if i == 0 else pad) + '//' + p + '\n' for i, p in enumerate(ps)), False, True
    return '/* ' + '\n'.join(ps) + ' */', False, False


def text_of(case):
    """-> text, words that have to reappear"""
    text, must = layout(case)
    return text, [[w[0] for w in ws] for ws in must]


def layout(case):
    functional = case['cfg']['RenderAnonymous'] == 'functional'
    segs = segments(case['doc'])
    by = {}
    for i, style, words in case['comments']:
        by.setdefault(min(i, len(segs)), []).append((style, words))
    out, must = '', []
    for i in range(len(segs) + 1):
        pad = '    ' * (segs[i][0] if i < len(segs) else 0)
        for style, words in by.get(i, ()):
            t, trailing, broken = comment(style, words, pad)
            if trailing and out.endswith('\n'):
                out = out[:-1] + ' ' + t
            else:
                out += pad + t
                if not t.endswith('\n'):
                    out += ' '
            if broken and not (i < len(segs) and segs[i][2] and (functional or segs[i - 1][1].endswith('{') or segs[i][1].startswith('}'))):
                must.append(words)
        if i < len(segs):
            out += pad + segs[i][1] + '\n'
    return out, must


RX = re.compile(r'w\d+q')


def check(case):
    text, pieces = layout(case)
    must = [[w[0] for w in ws] for ws in pieces]
    off = sut.accept(text, dict(case['cfg'], KeepMultilineComments=False))
    on = sut.accept(text, dict(case['cfg'], KeepMultilineComments=True))
    if RX.search(sut.body(off)):
        raise Violation('a comment is in the output though comments are not to be preserved:\n%s\n--- from:\n%s' % (sut.body(off), text))
    try:
        same = ast.dump(ast.parse(sut.body(on))) == ast.dump(ast.parse(sut.body(off)))
    except SyntaxError as e:
        raise Violation('code with preserved comments is not valid Python: %s\n%s\n--- from:\n%s' % (e, sut.body(on), text))
    if not same:
        raise Violation('preserving comments changes the definitions:\n%s\n--- instead of:\n%s\n--- from:\n%s' % (sut.body(on), sut.body(off), text))
    found, elsewhere = [], []
    for t in tokenize.generate_tokens(io.StringIO(sut.body(on) + '\n').readline):
        (found if t.type == tokenize.COMMENT else elsewhere).extend(RX.findall(t.string))
    if elsewhere:
        raise Violation('words of comments outside of comments: %s\n%s\n--- from:\n%s' % (elsewhere, sut.body(on), text))
    if len(set(found)) != len(found):
        raise Violation('words of comments appear more than once: %s\n%s\n--- from:\n%s' % (found, sut.body(on), text))
    for words in must:
        ws = [word(k) for k in words]
        missing = [w for w in ws if w not in found]
        if missing:
            raise Violation('words of a comment got lost: %s\n%s\n--- from:\n%s' % (missing, sut.body(on), text))
        if [w for w in found if w in ws] != ws:
            raise Violation('words of a comment in another order: %s\n%s\n--- from:\n%s' % (ws, sut.body(on), text))
    whole = ' '.join(' '.join(t.string[1:].split()) for t in tokenize.generate_tokens(io.StringIO(sut.body(on) + '\n').readline)
                     if t.type == tokenize.COMMENT)
    for words in pieces:
        for w in words:
            p = piece(w).replace('*/', '* /').lstrip('* ')
            if p not in whole:
                raise Violation('of the comment text %r only a part is preserved:\n%s\n--- from:\n%s' % (p, sut.body(on), text))
    if case.get('ordered'):
        ks = [int(w[1:-1]) for w in found]
        if ks != sorted(ks):
            raise Violation('comments are in another order: %s\n%s\n--- from:\n%s' % (found, sut.body(on), text))


def classify(case):
    text, must = text_of(case)
    segs = segments(case['doc'])
    ls = ['style:%d' % c[1] for c in case['comments']] + ['decl:' + d['k'] for d in case['doc']]
    inside = any(0 < c[0] < len(segs) and segs[c[0]][0] > 0 for c in case['comments'])
    deep = any(c[0] < len(segs) and segs[c[0]][0] > 1 for c in case['comments'])
    if inside:
        ls.append('inside of a declaration')
    if deep:
        ls.append('inside of a nested block')
    return len(must) >= 2 and inside, ls


def render(case):
    return '%s\n%s' % (case['cfg'], text_of(case)[0])


def ordered(f):
    def b(s):
        case = s.draw(f())
        case['ordered'] = True
        return case
    return lambda: docs.strategy(b)


FACETS = [
    Facet('documents', build(dict(decls=(1, 4), depth=3, boxes=True, modules=True, imports=True)), check, classify, 4000, 80000, render),
    Facet('ordered', ordered(build(dict(decls=(1, 5), depth=2, anon=False, tuples=False, boxes=True))), check, classify, 4000, 80000, render),
]
