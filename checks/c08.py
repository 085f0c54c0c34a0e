"""C08: layout, comments and optional punctuation do not change the result."""
import ast
import copy

from vf import docs, gen as G, sut, tsmodel as M
from vf.layout import Tape, gen_tape, layout
from vf.core import Facet, Violation

TECHNIQUE = 'property-based testing: generated documents in several layouts, metamorphic relation on the generated code (Hypothesis)'
RULE = ('a case is a document and two or three variants of its text: other white space, line breaks, comments between any two tokens, separators, '
        'terminators and modifiers; non-trivial: at least two declarations and a variant with a comment inside of a declaration')
ASSUMPTIONS = ['separators and terminators that the grammar declares optional: between and after fields, after interfaces, after the last enum item, '
               'leading "|", after index signatures']


def build(features, broken=False):
    def b(s):
        doc = G.gen_doc(s, features)
        cfg = G.gen_cfg(s, generics=G.has_generics(doc))
        case = {'doc': doc, 'cfg': cfg, 'variants': []}
        for _ in range(s.num(1, 3)):
            case['variants'].append({'style': gen_tape(s), 'layout': gen_tape(s, s.pick([1, 7, 13, 29, 53])), 'mods': s.i(4)})
        if broken:
            n = sum(1 for t, f in M.doc_tokens(doc) if t)
            case['damage'] = [s.pick(['drop', 'double', 'swap', 'insert']), s.i(n), s.pick([';', ',', '{', '}', '|', 'export', ':', '?', '=', 'a', '(', ')', '[', ']', '>', '1'])]
        return case
    return lambda: docs.strategy(b)


def modify(doc, how):
    """removes or adds readonly; 0 as it is"""
    if how == 0:
        return doc
    doc = copy.deepcopy(doc)

    def visit(t):
        if t[0] == 'a' and t[2] in (0, 2):
            t[2] = 2 if how == 1 else 0
        if t[0] == 'o':
            fields(t[1])

    def fields(fs):
        for f in fs:
            f['q'] = ['readonly'] if how == 1 else [] if how == 2 else f['q']

    def decl(d):
        if d['k'] == 'iface':
            fields(d['fields'])
        for x in d.get('decls', ()):
            decl(x)
        if how == 3:
            d['exp'] = not d.get('exp')
    for d in doc:
        decl(d)
        for t in M.decl_types(d):
            M.walk_types(t, visit)
    return doc


def texts(case):
    """plain text and those of the variants"""
    res = [M.render(case['doc'])]
    for v in case['variants']:
        toks = M.doc_tokens(modify(case['doc'], v['mods']), Tape(v['style']))
        res.append(layout(toks, Tape(v['layout'])))
    return res


def definitions(code):
    return ast.dump(ast.parse(sut.body(code)))


def check(case):
    ts = texts(case)
    plain = sut.accept(ts[0], case['cfg'])
    want = definitions(plain)
    for t in ts[1:]:
        code = sut.accept(t, case['cfg'])
        if definitions(code) != want:
            raise Violation('another layout changes the definitions:\n%s\n--- instead of\n%s\n--- from:\n%s\n--- instead of\n%s' % (
                sut.body(code), sut.body(plain), t, ts[0]))


def damaged(case):
    """token sequence with a defect"""
    toks = [t for t, f in M.doc_tokens(case['doc']) if t]
    what, i, x = case['damage']
    i = i % len(toks)
    if what == 'drop':
        del toks[i]
    elif what == 'double':
        toks.insert(i, toks[i])
    elif what == 'swap' and i + 1 < len(toks):
        toks[i], toks[i + 1] = toks[i + 1], toks[i]
    else:
        toks.insert(i, x)
    return [(t, '') for t in toks]


def check_broken(case):
    toks = damaged(case)
    res = None
    for v in [{'layout': [1]}] + case['variants']:
        t = layout(toks, Tape(v['layout']))
        code, errors = sut.compile_ts(t, case['cfg'])
        ok = not any(sut.is_err(e) for e in errors)
        d = definitions(code) if ok and code else None
        if res is None:
            res = (ok, d, t)
        elif res[:2] != (ok, d):
            raise Violation('the layout decides on acceptance or result: %s\n%s\n--- but %s\n%s\n%s' % (
                'accepted' if res[0] else 'rejected', res[2], 'accepted' if ok else 'rejected', t, '; '.join(map(str, errors[:3]))))


def classify(case):
    def need(ls, c):
        return len(c['doc']) >= 2
    nt, ls = docs.classify_doc(case, need)
    comments = False
    for t in texts(case)[1:]:
        if '/*' in t or '//' in t:
            comments = True
    if comments:
        ls.append('comments')
    for v in case['variants']:
        ls.append('modifiers:%d' % v['mods'])
    return nt and comments, ls


def render(case):
    return 'options: %s\n' % case['cfg'] + '\n----\n'.join(texts(case))


def render_broken(case):
    return 'options: %s\n' % case['cfg'] + '\n----\n'.join(layout(damaged(case), Tape(v['layout'])) for v in [{'layout': [1]}] + case['variants'])


FACETS = [
    Facet('documents', build(dict(decls=(1, 4), depth=3, unsupported=True, funcs=True, boxes=True, modules=True, imports=True)), check, classify, 6000, 120000, render),
    Facet('broken', build(dict(decls=(1, 3), depth=2, fields=(0, 3)), broken=True), check_broken, classify, 4000, 80000, render_broken),
]
