"""C03: field types keep their meaning."""
from vf import docs, gen as G, sut, tsmodel as M, compare
from vf.core import Facet, Violation

RULE = ('non-trivial: some type expression is nested at least two levels deep or is a union; distinct cases counted by hash')
ASSUMPTIONS = ['the reference mapping is the one documented in docs/Mapping.rst (see DESIGN.md)',
               'types are compared to a depth of 12 and up to 20000 pairs per document']


def build(features):
    def b(s):
        doc = G.gen_doc(s, features)
        return {'doc': doc, 'cfg': G.gen_cfg(s, generics=G.has_generics(doc))}
    return lambda: docs.strategy(b)


def check(case):
    doc, cfg = case['doc'], case['cfg']
    src = M.render(doc)
    code, errors = sut.compile_ts(src, cfg)
    bad = [str(e) for e in errors if sut.is_err(e)]
    if bad or not code:
        raise Violation('errors for a valid document: %s\n%s' % (bad[:3], src))
    unsupported = sum(t[0] in 'xi' or t[0] == 'm' and 'keyof' in (t[4:] or [''])[0] for t in M.all_types(doc))
    warnings = [e for e in errors if not sut.is_err(e)]
    if unsupported and len(warnings) < unsupported:
        raise Violation('%d unsupported types, but only %d warnings: %s\n%s' % (unsupported, len(warnings), warnings, src))
    with sut.Gen(code, src=src) as g:
        compare.Compare(doc, g, cfg).document(('iface', 'alias', 'const'))


def classify(case):
    def need(ls, c):
        return 'type:union' in ls or any(M.depth(t) >= 2 for d in c['doc'] for t in M.decl_types(d))
    return docs.classify_doc(case, need)


FACETS = [
    Facet('types', build(dict(depth=4, decls=(1, 4), fields=(0, 3), unsupported=True, keywords=False, optional=25, lib=8)), check, classify, 6000, 120000, docs.render),
    Facet('deep', build(dict(depth=7, decls=(1, 3), fields=(0, 2), keywords=False, lib=6)), check, classify, 2500, 50000, docs.render),
    Facet('names', build(dict(depth=3, decls=(2, 6), fields=(0, 4), unsupported=True, modules=True, imports=True)), check, classify, 3000, 60000, docs.render),
]
