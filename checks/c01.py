"""C01: accepted data definitions always transpile to Python that runs."""
import typing

from vf import docs, gen as G, sut, tsmodel as M
from vf.core import Facet, Violation

RULE = ('non-trivial: at least two declarations and at least one of: forward or self reference, union, anonymous interface, '
        'generic definition, inheritance; distinct cases counted by hash of document and options')
ASSUMPTIONS = ['documents without the constructs listed as known limits in DESIGN.md (names reserved by the generated preamble, interfaces '
               'extending later ones, references among members of mixed namespaces, ...)']


def build(features):
    def b(s):
        doc = G.gen_doc(s, features)
        return {'doc': doc, 'cfg': G.settle(doc, G.gen_cfg(s, generics=G.has_generics(doc), keep=True, enums=False))}
    return lambda: docs.strategy(b)


def names_of(doc):
    for d in doc:
        if 'name' in d:
            if d['k'] == 'const' and d['val'] is None:
                continue     # a mere declaration: it is annotated, not defined
            yield M.pyname(d['name'])


def check(case):
    doc, cfg = case['doc'], case['cfg']
    src = M.render(doc)
    code = sut.accept(src, cfg)
    with sut.Gen(code, src=src) as g:
        for n in names_of(doc):
            g.get(n)
        for c in docs.classes_of(g.mod):
            try:
                sut.hints(c)
            except Violation as e:
                raise Violation('%s\noptions: %s\n%s\n--- from:\n%s' % (e, cfg, sut.snippet(code), src))
        try:
            typing.get_type_hints(g.mod)
        except Exception as e:
            raise Violation('annotations of constants cannot be resolved: %s\n%s\n--- from:\n%s' % (e, sut.snippet(code), src))


def need(ls, case):
    return len(case['doc']) >= 2 and bool(ls & {'ref:forward', 'ref:self', 'type:union', 'type:anon', 'generic-iface',
                                                 'generic-alias', 'extends'})


def classify(case):
    return docs.classify_doc(case, need)


FACETS = [
    Facet('documents', build(dict(unsupported=True, funcs=True, boxes='anon', modules=True, imports=True)), check, classify, 8000, 160000, docs.render),
    Facet('large', build(dict(unsupported=True, decls=(4, 12), fields=(0, 7), depth=5, boxes='anon', lib=5)), check, classify, 1600, 40000, docs.render),
    Facet('small', build(dict(decls=(1, 3), fields=(0, 2), depth=3, names=['A', 'B', 'A_0', 'B_0', 'X_0', 'A_X_0', 'a', 'x'],
                              field_names=['a', 'b', 'x', 'A', 'X', 'a_0', 'A_0', 'x_0'])), check, classify, 4000, 80000, docs.render),
]
