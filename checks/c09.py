"""C09: the order of declarations is immaterial for references."""
from vf import docs, gen as G, sut, tsmodel as M
from vf.core import Facet, Violation

TECHNIQUE = ('property-based testing: generated documents and permutations of their declarations, the executed modules are compared with the '
             'reference model and with one another (Hypothesis)')
RULE = ('a case is a document with one to three permutations of its declarations; non-trivial: at least three declarations, at least two '
        'references among different declarations and a permutation that turns the direction of a reference around')
ASSUMPTIONS = ['permutations keep an interface behind those it extends, and respect the known limits of DESIGN.md (generic aliases behind the generics '
               'that they use, anonymous interfaces as type arguments behind their generic), a constant behind the constant it copies']


def deps(d):
    """names that have to be declared before d"""
    res = set()
    if d['k'] == 'iface':
        res |= {e[0] for e in d['ext']}
    if d['k'] == 'const' and d['val'] and d['val'][0] == 'id':
        res.add(d['val'][1])

    def has_anon(t):
        found = []
        M.walk_types(t, lambda x: found.append(x) if x[0] == 'o' else None)
        return bool(found)

    def visit(t):
        if t[0] == 'r' and t[2]:
            if (d['k'] == 'alias' and d['params']) or any(has_anon(x) for x in t[2]):
                res.add(t[1])
    for t in M.decl_types(d):
        M.walk_types(t, visit)
    return res


def refs(d):
    res = set()
    for t in M.decl_types(d):
        M.walk_types(t, lambda x: res.add(x[1]) if x[0] == 'r' else None)
    return res - {d['name']}


def permute(doc, keys):
    """order by keys as far as dependencies permit"""
    need = {d['name']: deps(d) - {d['name']} for d in doc}
    names = {d['name'] for d in doc}
    rest = sorted(range(len(doc)), key=lambda i: (keys[i % len(keys)], i))
    done, res = set(), []
    while rest:
        for i in rest:
            if need[doc[i]['name']] & names <= done:
                break
        else:
            i = min(rest)      # the generated order is always possible
        rest.remove(i)
        done.add(doc[i]['name'])
        res.append(doc[i])
    return res


def build(features):
    def b(s):
        doc = G.gen_doc(s, features)
        case = {'doc': doc, 'cfg': G.gen_cfg(s, generics=G.has_generics(doc)), 'perms': []}
        for k in range(s.num(1, 3)):
            case['perms'].append([-i for i in range(len(doc))] if k == 0 and s.b(60) else [s.i(20) for _ in doc])
        return case
    return lambda: docs.strategy(b)


def check(case):
    for doc in [case['doc']] + [permute(case['doc'], p) for p in case['perms']]:
        docs.run({'doc': doc, 'cfg': case['cfg']})


def classify(case):
    doc = case['doc']
    names = [d['name'] for d in doc]
    pairs = [(d['name'], r) for d in doc for r in refs(d) if r in names]
    turned = False
    for p in case['perms']:
        new = [d['name'] for d in permute(doc, p)]
        for a, b in pairs:
            if (names.index(a) < names.index(b)) != (new.index(a) < new.index(b)):
                turned = True

    def need(ls, c):
        return len(doc) >= 3 and len(pairs) >= 2 and turned
    nt, ls = docs.classify_doc(case, need)
    if turned:
        ls.append('direction of a reference turned')
    if any((b, a) in pairs for a, b in pairs):
        ls.append('mutual references')
    return nt, ls


def render(case):
    return 'options: %s\n' % case['cfg'] + '\n---- permuted:\n'.join(
        M.render(d) for d in [case['doc']] + [permute(case['doc'], p) for p in case['perms']])


REF = dict(basics=['string', 'number'], literals='s', maps=True, funcs=False)
FACETS = [
    Facet('documents', build(dict(decls=(2, 6), depth=3, boxes=True)), check, classify, 4000, 100000, render),
    Facet('references', build(dict(REF, decls=(3, 7), depth=3, fields=(1, 4), names=['A', 'B', 'C', 'D', 'E', 'F_', 'G', 'A_0', 'B_x_0'],
                                   keywords=False, enums=False, consts=False)), check, classify, 4000, 100000, render),
]
