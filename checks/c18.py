"""C18: record validation checks every key and every field at every depth."""
from vf import pytypes as T
from vf.core import Facet

TECHNIQUE = 'property-based testing: generated record types and dictionaries against an independent conformance predicate (Hypothesis)'
RULE = ('a case is an environment of record types (standard, shim, functional; inherited, forward-referenced, recursive), a record type and '
        'dictionaries made to conform or with entries added, dropped, renamed or replaced at any depth; non-trivial: at least two record types '
        'or four fields, and values of different verdicts')
ASSUMPTIONS = ['left open: booleans for int and float, values equal to a literal or enum value but of another type',
               'forward references are resolvable in the module of the class that contains them']


def build(features, n=(3, 7), flat=False):
    def b(s):
        f = dict(recs=(1, 4), enums=(0, 1), fields=(0, 4), depth=2, extra=20)
        f.update(features)
        env = T.gen_env(s, **f)
        t = ['rec', s.pick(env['recs'])['name']]
        vals = T.Values(s, env)
        ref = T.Ref(env, {})
        values = []
        for _ in range(s.num(*n)):
            k = s.i(10)
            if flat:
                # any subset of the fields
                items = [[fn, vals.of(ft, 1)] for fn, (ft, opt) in ref.fields(t[1]).items() if not s.b(25 if opt else 8)]
                v = ['D', items]
                k = 0 if k < 7 else k
            else:
                v = vals.of(t, s.num(2, 7))
            if k >= 3:
                v = vals.mutate(v)
                if s.b(20):
                    v = vals.mutate(v)
            values.append(v)
        return {'env': env, 'type': t, 'values': values}
    return lambda: T.strategy(b)


def check(case):
    with T.Module(case['env']) as m:
        for v in case['values']:
            T.verdict(m, T.decode(v, m.ns), case['type'])


def depth(v):
    if isinstance(v, list) and v[0] in 'LT':
        return 1 + max(map(depth, v[1]), default=0)
    if isinstance(v, list) and v[0] == 'D':
        return 1 + max((depth(x) for _, x in v[1]), default=0)
    return 0


def classify(case):
    env = case['env']
    labels = set()
    verdicts = set()
    with T.Module(env) as m:
        for v in case['values']:
            w = m.ref.conforms(T.decode(v, m.ns), case['type'])
            verdicts.add(w)
            labels.add('verdict:%s' % w)
            labels.add('depth:%s' % min(depth(v), 8))
        fields = m.ref.fields(case['type'][1])
    for r in env['recs']:
        labels.add('style:' + r['style'])
        if r['bases']:
            labels.add('inherits')
        for _, t, st in r['fields']:
            labels |= {'type:' + k for k in T.kinds(t)}
            if r['name'] in T.refs(t):
                labels.add('recursive')
            labels.add('status:' + st)
    return len(verdicts) > 1 and (len(env['recs']) > 1 or len(fields) >= 4), sorted(labels)


def render(case):
    return '%s\n# type: %s\n# values: %s' % (T.module_text(case['env']), T.expr(case['type']), case['values'])


FACETS = [
    Facet('graphs', build(dict(recs=(2, 5))), check, classify, 16000, 400000, render),
    Facet('keys', build(dict(recs=(1, 3), fields=(1, 6), depth=1), flat=True), check, classify, 14000, 250000, render),
    Facet('deep', build(dict(recs=(1, 2), fields=(1, 3), depth=2), n=(2, 4)), check, classify, 10000, 250000, render),
]
