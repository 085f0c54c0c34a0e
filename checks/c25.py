"""C25: generic definitions stay generic in their parameters."""
import typing

from vf import docs, gen as G, sut, tsmodel as M, compare
from vf.core import Facet, Violation

RULE = 'non-trivial: a generic definition that is specialised or extended somewhere in the document, or one with two type parameters'
ASSUMPTIONS = ['generic aliases use all their parameters, in the order of their declaration, do not contain anonymous interfaces and do not '
               'refer to generics defined later (known limits)', 'the variadic-generics option is off (with it, type parameters are left out)']


def build(features):
    def b(s):
        doc = G.gen_doc(s, features)
        return {'doc': doc, 'cfg': G.settle(doc, G.gen_cfg(s, generics=True))}
    return lambda: docs.strategy(b)


ARGS = [str, typing.List[int], typing.Optional[str], float, typing.Any]


def params_of(obj):
    ps = getattr(obj, '__parameters__', ())
    if not ps and typing.get_origin(obj) is None:      # classes of the TypedDict shim keep them only in their original bases
        for b in getattr(obj, '__dict__', {}).get('__orig_bases__', ()):
            if typing.get_origin(b) is typing.Generic:
                ps = typing.get_args(b)
    return tuple(p.__name__ for p in ps)


def check(case):
    doc, cfg = case['doc'], case['cfg']
    src = M.render(doc)
    code = sut.accept(src, cfg)
    with sut.Gen(code, src=src) as g:
        c = compare.Compare(doc, g, cfg).document(('iface', 'alias'))
        c.document(('box',))
        for d, box in [(d, None) for d in doc] + [(x, d) for d in doc for x in d.get('decls', ())]:
            if d['k'] not in ('iface', 'alias'):
                continue
            obj = g.get(M.pyname(d['name'])) if box is None else vars(g.get(M.pyname(box['name']))).get(M.pyname(d['name']))
            params = tuple(c.param(p) for p in params_of(obj))
            if params != tuple(d['params']):
                if d['k'] == 'alias' and not d['params'] and isinstance(obj, type):
                    continue      # a synonym of a generic class
                c.fail('%s has the type parameters %s instead of %s' % (d['name'], params, d['params']))
            if d['params']:
                args = tuple(ARGS[:len(d['params'])])
                try:
                    sp = obj[args if len(args) > 1 else args[0]]
                except Exception as e:
                    c.fail('%s cannot be specialised: %s: %s' % (d['name'], type(e).__name__, e))
                if d['k'] == 'iface' and (typing.get_origin(sp) is not obj or typing.get_args(sp) != args):
                    c.fail('%s specialised is %r' % (d['name'], sp))


def classify(case):
    def need(ls, c):
        gens = {d['name'] for d in c['doc'] if d.get('params')}
        used = any(t[0] == 'r' and t[2] and t[1] in gens for t in M.all_types(c['doc'])) or \
            any(n in gens for d in c['doc'] if d['k'] == 'iface' for n, _ in d['ext'])
        return bool(gens) and (used or any(len(d.get('params', ())) > 1 for d in c['doc']))
    return docs.classify_doc(case, need)


FACETS = [
    Facet('definitions', build(dict(decls=(2, 6), depth=3, generic_p=65, enums=False, ns=False, consts=False, modules=True, imports=True, boxes='anon')), check, classify, 7000, 120000, docs.render),
    Facet('inheritance', build(dict(decls=(3, 7), depth=2, generic_p=75, enums=False, ns=False, consts=False, fields=(0, 2), anon=False)), check, classify, 4000, 60000, docs.render),
]
