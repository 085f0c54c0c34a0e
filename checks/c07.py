"""C07: configured base class and decorator apply to every record class."""
import enum
import sys
import types

from vf import docs, gen as G, sut, tsmodel as M, compare
from vf.core import Facet, Violation

RULE = 'non-trivial: at least two interfaces or an anonymous interface, and a base class or decorator other than the default'
ASSUMPTIONS = ['no mixed namespaces', 'interfaces do not extend an interface and its ancestor at the same time (no consistent MRO in Python)']


class VfPlain:
    pass


class VfDotted:
    pass


class VfDeep:
    pass


BASES = {'VfPlain': VfPlain, 'vfbase.VfDotted': VfDotted, 'vfbase.sub.VfDeep': VfDeep, '': None, 'TypedDict': None, ' VfPlain ': VfPlain}
DECOS = ['', 'vfdeco', '@vfdeco', '@vfdeco_factory(1, "x")', ' @vfdeco', 'vfmod.vfdeco']


def build(features):
    def b(s):
        doc = G.gen_doc(s, features)
        cfg = G.gen_cfg(s, generics=G.has_generics(doc))
        base = s.pick(list(BASES))
        cfg['BaseClassName'] = base
        cfg['ClassDecorator'] = s.pick(DECOS)
        return {'doc': doc, 'cfg': cfg}
    return lambda: docs.strategy(b)


def install():
    m, sub = types.ModuleType('vfbase'), types.ModuleType('vfbase.sub')
    m.VfDotted, m.sub, sub.VfDeep = VfDotted, sub, VfDeep
    m.__path__ = []
    sys.modules['vfbase'], sys.modules['vfbase.sub'] = m, sub


def check(case):
    install()
    doc, cfg = case['doc'], case['cfg']
    src = M.render(doc)
    base = BASES[cfg['BaseClassName']]
    calls = []

    def deco(c):
        calls.append(c)
        return c
    inject = dict(VfPlain=VfPlain, vfdeco=deco, vfdeco_factory=lambda *a: deco, vfmod=types.SimpleNamespace(vfdeco=deco))
    code = sut.accept(src, cfg)
    plain = dict(cfg, BaseClassName=cfg['BaseClassName'].strip())
    with sut.Gen(code, inject=inject, src=src) as g:
        c = compare.Compare(doc, g, plain)
        for n in ('VfPlain', 'vfdeco', 'vfdeco_factory', 'vfmod'):
            c.ns.setdefault(n, inject[n])
        c.document(('iface', 'alias', 'const', 'enum', 'ns'))
        named = {}
        for d in doc:
            if d['k'] in ('iface', 'enum', 'ns'):
                named[id(g.get(M.pyname(d['name'])))] = d
        records = []
        for x in docs.classes_of(g.mod):
            d = named.get(id(x))
            if d is None or d['k'] == 'iface':
                records.append((x, d))
        anon_ids = [x for x, d in records if d is None]
        if base is not None:
            for x, d in records:
                if base not in x.__mro__:
                    c.fail('%s does not have the base class %s' % (x.__qualname__, cfg['BaseClassName']))
        if cfg['ClassDecorator']:
            # in functional notation there is no class that could be decorated
            statements = [x for x, d in records if d is not None or not (c.typeddict and cfg['RenderAnonymous'] == 'functional')]
            for x in statements:
                n = sum(y is x for y in calls)
                if n != 1:
                    c.fail('%s is decorated %d times' % (x.__qualname__, n))
            for y in calls:
                if not any(y is x for x in statements):
                    c.fail('%r is decorated although it is no record' % y)
    if cfg['ClassDecorator']:
        bare = sut.body(sut.accept(src, dict(cfg, ClassDecorator='')))
        line = '@' + cfg['ClassDecorator'].strip().lstrip('@')
        got = '\n'.join(l for l in sut.body(code).split('\n') if l.strip() != line)
        if got != bare:
            raise Violation('the decorator changes more than adding itself:\n%s\n--- without:\n%s' % (sut.body(code), bare))


def classify(case):
    def need(ls, c):
        return (sum(d['k'] == 'iface' for d in c['doc']) >= 2 or 'type:anon' in ls) and \
            (c['cfg']['BaseClassName'] != 'TypedDict' or c['cfg']['ClassDecorator'] != '')
    nt, ls = docs.classify_doc(case, need)
    ls.append('base:%r' % case['cfg']['BaseClassName'])
    ls.append('decorator:%r' % case['cfg']['ClassDecorator'])
    return nt, ls


FACETS = [
    Facet('documents', build(dict(decls=(1, 5), depth=3, modules=True, imports=True)), check, classify, 6000, 100000, docs.render),
    Facet('nested', build(dict(decls=(1, 3), depth=5, anon_weight=6, enums=False, ns=False)), check, classify, 2500, 40000, docs.render),
]
