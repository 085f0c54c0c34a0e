"""C02: every interface becomes a record class with exactly its fields."""
from vf import docs, gen as G, sut, tsmodel as M, compare
from vf.core import Facet

RULE = ('non-trivial: an interface with at least two fields of its own of which one is optional, or one that inherits fields; '
        'distinct cases counted by hash of document, options and separators')
ASSUMPTIONS = ['field names do not begin with two underscores and are unquoted identifiers',
               'the status of nullable fields that are not declared optional is left open unless NotRequired is used']


class Seps(M.Style):
    def __init__(self, bits):
        self.bits = bits
        self.n = 0

    def next(self, k):
        v = self.bits[self.n % len(self.bits)] if self.bits else 0
        self.n += 1
        return v % k

    def sep(self, i, last):
        # a separator is needed between fields only for TypeScript's own sake: line breaks do as well
        return [';', ',', '', ';'][self.next(4)]

    def flag(self, what):
        return self.next(3) == 2 if what in ('declare', 'semi') else False


def build(features):
    def b(s):
        doc = G.gen_doc(s, features)
        for d in doc:
            if d['k'] == 'iface' and d['fields'] and s.b(8):
                # has no counterpart in Python
                d['index'] = [s.pick(G.KNAMES), ['b', s.pick(['string', 'number'])], s.pick([['b', 'any'], ['b', 'string'], ['a', ['b', 'number'], 0]])]
        return {'doc': doc, 'cfg': G.gen_cfg(s, generics=G.has_generics(doc)), 'seps': [s.i(12) for _ in range(s.i(7))]}
    return lambda: docs.strategy(b)


def text(case):
    return M.render(case['doc'], Seps(case['seps']))


def check(case):
    src = text(case)
    code = sut.accept(src, case['cfg'])
    with sut.Gen(code, src=src) as g:
        compare.Compare(case['doc'], g, case['cfg'], types=False).document(('iface', 'box'))


def classify(case):
    def need(ls, c):
        return any(d['k'] == 'iface' and (len(d['fields']) >= 2 and any(f['o'] for f in d['fields']) or d['ext']) for d in c['doc'])
    return docs.classify_doc(case, need)


FACETS = [
    Facet('fields', build(dict(depth=1, decls=(1, 4), fields=(1, 9), enums=False, ns=False, consts=False)), check, classify, 6000, 100000,
          lambda c: '%s\n%s' % (c['cfg'], text(c))),
    Facet('inheritance', build(dict(depth=1, decls=(3, 8), fields=(0, 4), enums=False, ns=False, consts=False, anon=False)), check, classify,
          3000, 60000, lambda c: '%s\n%s' % (c['cfg'], text(c))),
    Facet('mixed', build(dict(depth=3, boxes=True, decls=(2, 7), modules=True, imports=True)), check, classify, 3000, 60000, lambda c: '%s\n%s' % (c['cfg'], text(c))),
]
