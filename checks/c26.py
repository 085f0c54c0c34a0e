"""C26: the shipped parser implements the shipped grammar."""
import os

from checks import c11, c24
from vf import core, damage, docs, gen as G, sut, tsmodel as M
from vf.core import Facet, Violation
from vf.layout import Tape, gen_tape, layout

TECHNIQUE = ('differential fuzzing: valid, damaged and arbitrary texts are parsed by the parser in the program and by a parser generated from the grammar '
             'file, from the start symbol and from any other symbol (Hypothesis)')
RULE = 'a case is a text with a start symbol; non-trivial: a text of at least eight words'
ASSUMPTIONS = ['a parser that is older than the grammar is first brought up to date the way the program itself does this when it is started',
               'the parser generator of DHParser is taken to be right']

_both = None


def parsers():
    global _both
    if _both is None:
        from DHParser import dsl
        with open(os.path.join(core.code_dir(), 'ts2python.ebnf'), encoding='utf-8') as f:
            fresh = dsl.grammar_provider(f.read())()
        contained = sut.P().parsing.factory()
        _both = contained, fresh
    return _both


def symbols():
    from DHParser.parse import Parser
    a, b = parsers()
    names = [n for n in sorted(set(vars(type(a))) & set(vars(type(b)))) if isinstance(getattr(type(a), n), Parser) and not n.endswith('__')]
    return [n for n in names if n != 'root']


_symbols = None


def text(s):
    k = s.i(10)
    if k < 3:
        doc = G.gen_doc(s, dict(decls=(1, 4), depth=3, unsupported=True, funcs=True, boxes=True, imports=True))
    elif k < 5:
        doc = c24.build(s)['doc']
    elif k < 8:
        return c11.build_damaged(s)['text']
    elif k == 8:
        toks = damage.apply(damage.tokens(c24.build(s)['doc']), damage.gen_damage(s, 2))
        return layout([(t, '') for t in toks], Tape(gen_tape(s) if s.b(50) else [1]))
    else:
        return c11.build_soup(s)['text']
    if s.b(50):
        return layout([(t, '') for t in damage.tokens(doc, gen_tape(s))], Tape(gen_tape(s)))
    return M.render(doc)


def build(s):
    return {'text': text(s), 'start': 'root'}


FRAGMENTS = c11.VOCABULARY + ['a', 'A', '<', '>', '(', ')', ',', ':', 'A<B>', 'A<B, C[]>', 'x?: A', '[a: A, b?: B]', '{ a: A }', '{ [k: A]: B }', '{ [k in A]?: B }', '1.0', 'E5', '-',
                              'a.b', 'A["b"]', '["a", 1]', '{ a: 1 }', '*', 'as', 'from', '(a?: A, ...b: B[]) => C', 'readonly A[]', 'extends B', '= C', 'keyof T', ' ', '\n']


def build_symbol(s):
    global _symbols
    if _symbols is None:
        _symbols = symbols()
    start = s.pick(_symbols)
    toks = [s.pick(FRAGMENTS) for _ in range(s.num(1, 6))]
    if s.b(50):
        f = dict(G.DEFAULTS, unsupported=True, funcs=True)
        c = G.Ctx(s, f)
        c.tnames = [('A', 0, 'iface'), ('B', 1, 'iface')]
        o = M.Out()
        k = s.i(5)
        if k == 0:
            M.type_tokens(o, G.gen_type(c, 3, top=True))
        elif k == 1:
            M.block_tokens(o, G.gen_fields(c, 2, 0, 3))
        elif k == 2:
            M.func_tokens(o, c24.gen_func(c, 'f', False))
        elif k == 3:
            M.lit_tokens(o, G.literal(s, 'sifbad'))
        else:
            M.decl_tokens(o, G.gen_doc(s, dict(decls=(1, 1), boxes=True, imports=True))[0])
        mid = [t for t, _ in o.toks if t]
        if s.b(25):
            mid = damage.apply(mid, damage.gen_damage(s, 1))
        toks = mid if s.b(60) else toks[:2] + mid + toks[2:4]
    return {'text': layout([(t, '') for t in toks], Tape(gen_tape(s) if s.b(30) else [1])), 'start': start}


def outcome(parser, text, start):
    try:
        tree = parser(text, start) if start != 'root' else parser(text)
    except RecursionError:
        return 'RecursionError', [], 0
    return (tree.as_sxpr(flatten_threshold=0), sorted((int(e.code), e.pos, e.message) for e in tree.errors), sum(1 for _ in tree.select_if(lambda n: True, include_root=True)))


def check(case):
    a, b = parsers()
    t1, e1, n = outcome(a, case['text'], case['start'])
    t2, e2, _ = outcome(b, case['text'], case['start'])
    if bool(e1) != bool(e2):
        raise Violation('the contained parser reports %s, the grammar %s' % (e1[:4] or 'no error', e2[:4] or 'no error'))
    if t1 != t2:
        l1, l2 = t1.split('\n'), t2.split('\n')
        k = next((i for i in range(min(len(l1), len(l2))) if l1[i] != l2[i]), min(len(l1), len(l2)))
        raise Violation('different syntax trees; contained parser:\n%s\n--- grammar:\n%s' % ('\n'.join(l1[max(0, k - 6):k + 8]), '\n'.join(l2[max(0, k - 6):k + 8])))
    if e1 != e2:
        raise Violation('the contained parser reports %s, the grammar %s' % (e1, e2))


def classify(case):
    n = len(case['text'].split())
    return n >= 8, ['start:' + case['start'], 'tokens:%d' % min(50, n // 10 * 10)]


def render(case):
    return 'start symbol %s\n%s' % (case['start'], case['text'])


FACETS = [
    Facet('documents', lambda: docs.strategy(build), check, classify, 5000, 120000, render),
    Facet('symbols', lambda: docs.strategy(build_symbol), check, classify, 8000, 200000, render),
]
