"""C21: JSON data validates against a generated class iff it fits the TypeScript definition."""
import json

from vf import docs, gen as G, jsonval as J, sut, tsmodel as M
from vf.core import Facet, Violation

TECHNIQUE = ('property-based testing: generated documents and JSON values, transpiled and validated, against a conformance predicate on the '
             'TypeScript side (Hypothesis)')
RULE = ('a case is a document, options and JSON values made to fit one of its interfaces, most of them changed at one place; non-trivial: '
        'values that fit and values that do not')
ASSUMPTIONS = ['left open: booleans as numbers, 1.0 as integer, values equal to a member of an enumeration but of another type, members without '
               'value, the value of type variables, arrays for `object`, non-empty objects for index signatures with numbers as keys, null for '
               'optional fields and absence of nullable fields without NotRequired, other values of the type of a literal without literal types',
               'names of fields are no Python keywords (these are renamed, a known limit)']


def build(features, n=(3, 8)):
    def b(s):
        f = dict(keywords=False, mapped=False, consts=False, untyped=False)
        f.update(features)
        doc = G.gen_doc(s, f)
        ifaces = [d for d in doc if d['k'] == 'iface']
        if not ifaces:
            doc.append({'k': 'iface', 'name': 'Zz', 'params': [], 'ext': [], 'exp': False, 'kw': 'interface',
                        'fields': [{'n': 'a', 'o': False, 'q': [], 't': ['r', d['name'], []] if not d.get('params') else ['b', 'string']}
                                   for d in doc[:1] if 'name' in d]})
            ifaces = doc[-1:]
        cfg = G.gen_cfg(s, generics=G.has_generics(doc))
        vals = J.Values(s, doc)
        values = []
        for _ in range(s.num(*n)):
            d = s.pick(ifaces)
            k = s.i(10)
            v = vals.iface(d) if k < 9 else vals.random()
            if 3 <= k < 9:
                v = vals.mutate(v)
                if s.b(15):
                    v = vals.mutate(v)
            values.append([d['name'], v])
        return {'doc': doc, 'cfg': cfg, 'values': values}
    return lambda: docs.strategy(b)


def check(case):
    from ts2python.json_validation import validate_type
    doc, cfg = case['doc'], case['cfg']
    decl = {d['name']: d for d in doc if 'name' in d}
    ref = J.Ref(doc, cfg)
    code = sut.accept(M.render(doc), cfg)
    with sut.Gen(code, src=M.render(doc)) as g:
        for name, v in case['values']:
            v = json.loads(json.dumps(v))
            before = json.dumps(v)
            want = ref.iface(v, decl[name])
            try:
                validate_type(v, g.get(M.pyname(name)))
                got = True
            except (TypeError, ValueError) as e:
                got = False
                msg = str(e)
            except Exception as e:
                got = '%s: %s' % (type(e).__name__, e)
            if json.dumps(v) != before:
                raise Violation('validation changes the value %s to %s' % (before, json.dumps(v)))
            if got not in (True, False) or (want is not None and got != want):
                raise Violation('%s for %s: %s, but it %s\noptions: %s\n%s\n--- from:\n%s' % (
                    before, name, {True: 'accepted', False: 'rejected'}.get(got, got) + (' (%s)' % msg if got is False else ''),
                    {True: 'fits', False: 'does not fit', None: 'must be accepted or rejected'}[want], cfg, sut.snippet(code), M.render(doc)))


def classify(case):
    ref = J.Ref(case['doc'], case['cfg'])
    decl = {d['name']: d for d in case['doc'] if 'name' in d}
    verdicts = [ref.iface(v, decl[n]) for n, v in case['values']]
    nt, ls = docs.classify_doc(case, lambda ls, c: True in verdicts and False in verdicts)
    return nt, ls + ['verdict:%s' % v for v in set(verdicts)]


def render(case):
    return docs.render(case) + '\n'.join('// %s: %s' % (n, json.dumps(v)) for n, v in case['values'])


PLAIN = dict(decls=(1, 3), depth=2, generics=False)
FACETS = [
    Facet('documents', build(dict(modules=True, imports=True)), check, classify, 5000, 120000, render),
    Facet('small', build(PLAIN), check, classify, 6000, 120000, render),
    Facet('deep', build(dict(depth=6, decls=(1, 3), fields=(1, 3), anon_fields=(1, 2), unions=True)), check, classify, 2000, 60000, render),
]
