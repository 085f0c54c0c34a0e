"""C04: enums and constant namespaces keep their members and values."""
from vf import docs, gen as G, sut, tsmodel as M, compare
from vf.core import Facet

RULE = ('non-trivial: an enum or constant namespace with at least two members, or a constant whose value is an array, an object or another constant')
ASSUMPTIONS = ['strings without escape sequences', 'members are not called like attributes of Python\'s Enum (mro, _x_)',
               'equal values of different types (1, 1.0, true) do not occur in one enumeration']


def build(features, enums=True):
    def b(s):
        doc = G.gen_doc(s, features)
        return {'doc': doc, 'cfg': G.settle(doc, G.gen_cfg(s, generics=True, enums=False))}
    return lambda: docs.strategy(b)


def check(case):
    docs.run(case, only=('enum', 'ns', 'const'))


def classify(case):
    def need(ls, c):
        return any(len(d.get('items', ())) > 1 or len(d.get('consts', ())) > 1 or
                   (d['k'] == 'const' and d['val'] is not None and d['val'][0] in ('a', 'd', 'id')) for d in c['doc'])
    nt, ls = docs.classify_doc(case, need)
    for d in case['doc']:
        if d['k'] == 'enum':
            kinds = {i[1][0] if i[1] else '-' for i in d['items']}
            ls.append('enum:' + ''.join(sorted(kinds)))
        if d['k'] == 'ns':
            ls.append('ns:' + ''.join(sorted({c[2][0] for c in d['consts']})))
        if d['k'] == 'const' and d['val']:
            ls.append('const:' + d['val'][0])
    return nt, sorted(set(ls))


COMMON = dict(depth=2, fields=(0, 2), generics=False)


def build_enums(s):
    f = dict(G.DEFAULTS)
    doc, outer, c = [], {}, G.Ctx(s, f)
    for name in s.sample(G.TYPE_NAMES[:60], s.num(1, 5)):
        if s.b(15):
            d = G.gen_const(c, name, [])
            if d['val'] is not None and d['val'][0] in 'sifn':
                outer[name] = d['val']
        else:
            d = G.gen_enum(s, name) if s.b(50) else G.gen_ns(s, name, outer)
        d['exp'] = s.b(50)
        doc.append(d)
    return {'doc': doc, 'cfg': G.gen_cfg(s, generics=True, enums=False)}


def build_consts(s):
    c = G.Ctx(s, dict(G.DEFAULTS))
    doc, consts = [], []
    for name in s.sample(G.TYPE_NAMES, s.num(1, 5)):
        d = G.gen_const(c, name, consts)
        d['exp'] = s.b(50)
        doc.append(d)
    return {'doc': doc, 'cfg': G.gen_cfg(s, generics=True)}


FACETS = [
    Facet('enums', lambda: docs.strategy(build_enums), check, classify, 7000, 120000, docs.render),
    Facet('constants', lambda: docs.strategy(build_consts), check, classify, 4000, 60000, docs.render),
    Facet('mixed', build(dict(COMMON, decls=(2, 8), modules=True, imports=True)), check, classify, 2500, 40000, docs.render),
]
