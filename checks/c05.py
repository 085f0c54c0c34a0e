"""C05: anonymous interfaces keep their own structure in every rendering."""
import keyword

from vf import docs, gen as G, sut, tsmodel as M, compare
from vf.core import Facet, Violation

RULE = ('non-trivial: at least two anonymous interfaces with different fields in one document')
ASSUMPTIONS = ['not inside generic aliases, mixed namespaces or arguments of generics that are defined later (known limits)']

MODES = ('local', 'toplevel', 'functional')


def build(features):
    def b(s):
        doc = G.gen_doc(s, features)
        cfg = G.gen_cfg(s, generics=G.has_generics(doc))
        del cfg['RenderAnonymous']
        return {'doc': doc, 'cfg': cfg}
    return lambda: docs.strategy(b)


def anon_nodes(doc):
    return [t for t in M.all_types(doc) if t[0] == 'o']


def check(case):
    doc = case['doc']
    src = M.render(doc)
    n_anon = len(anon_nodes(doc))
    for mode in MODES:
        cfg = dict(case['cfg'], RenderAnonymous=mode)
        code = sut.accept(src, cfg)
        with sut.Gen(code, src=src) as g:
            c = compare.Compare(doc, g, cfg)
            c.document()
            if mode != 'functional':
                # every anonymous interface has a class of its own
                named = {id(g.mod.__dict__.get(M.pyname(d['name']))) for d in doc if d['k'] not in ('alias', 'const', 'open', 'close', 'import')}
                own = [x for x in docs.classes_of(g.mod) if id(x) not in named and not is_enum(x)]
                if len(own) != n_anon:
                    c.fail('%d anonymous interfaces are rendered as %d classes: %s' % (n_anon, len(own), [x.__qualname__ for x in own]))


def is_enum(x):
    import enum
    return issubclass(type(x), enum.EnumMeta)


def classify(case):
    an = anon_nodes(case['doc'])
    shapes = {tuple(f['n'] for f in t[1]) for t in an}
    nt, ls = docs.classify_doc(case, lambda ls, c: len(shapes) >= 2)
    ls.append('anon:%s' % min(len(an), 6))
    ls.append('nested' if any(x is not t and x[0] == 'o' for t in an for x in sub(t)) else 'flat')
    return nt, ls


def sub(t):
    res = []
    M.walk_types(t, res.append)
    return res


NAMES = ['A', 'B', 'A_0', 'B_0', 'X_0', 'A_X_0', 'X', 'A_X', 'A_0_0', 'F', 'F_0', 'A_B_0', 'X_0_X_0', 'A_X_0_X_0', 'A_1', 'X_1', 'A_X_1', 'a', 'x_0', 'x']
FIELDS = ['x', 'a', 'b', 'X', 'x_0', 'A', 'X_0', 'b_0', 'x_1', 'a_0', 'f', 'x_0_0', 'Xx', 'xX', 'x_', 'X_', '_x', 'x_00', 'x_01']
ANON = dict(decls=(1, 4), fields=(1, 4), anon_fields=(0, 3), enums=False, ns=False, basics=['string', 'integer', 'boolean', 'null', 'any'],
            untyped=False, literals='s', anon_weight=5)
FACETS = [
    Facet('clashing', build(dict(ANON, names=NAMES, field_names=FIELDS, depth=4, generics=False, extends=True, modules=True, imports=True)), check, classify, 2500, 60000, docs.render),
    Facet('general', build(dict(decls=(1, 4), depth=4, anon_fields=(0, 4), anon_weight=4, modules=True, imports=True)), check, classify, 1800, 40000, docs.render),
    Facet('deep', build(dict(ANON, depth=8, decls=(1, 2), fields=(1, 2), unions=True, maps=True)), check, classify, 1500, 30000, docs.render),
]
