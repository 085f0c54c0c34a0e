"""C17: a value validates against a type iff it conforms to it."""
from vf import pytypes as T
from vf.core import Facet

TECHNIQUE = 'property-based testing: generated types and values against an independent conformance predicate (Hypothesis)'
RULE = ('a case is an environment of record types and enumerations, a type and several values made to conform, changed at one place or random; '
        'non-trivial: the type is compound or refers to the environment, and not all values are alike in their verdict')
ASSUMPTIONS = ['left open: booleans for int and float, values equal to a literal or enum value but of another type, bare tuple',
               'types given to validate_type contain no unresolved forward references outside of record types']


def build(features, n=(2, 6)):
    def b(s):
        f = dict(recs=(0, 2), enums=(0, 1), fields=(0, 3), depth=2, extra=12)
        f.update(features)
        depth = f.pop('tdepth', 3)
        env = T.gen_env(s, **f)
        t = T.gen_type(s, T.env_names(env, False), s.num(0, depth))
        vals = T.Values(s, env)
        values = []
        for _ in range(s.num(*n)):
            k = s.i(10)
            v = vals.of(t) if k < 9 else vals.random()
            if 3 <= k < 9:
                v = vals.mutate(v)
                if s.b(20):
                    v = vals.mutate(v)
            values.append(v)
        return {'env': env, 'type': t, 'values': values}
    return lambda: T.strategy(b)


def check(case):
    with T.Module(case['env']) as m:
        for v in case['values']:
            T.verdict(m, T.decode(v, m.ns), case['type'])


def classify(case):
    t = case['type']
    ks = T.kinds(t)
    labels = ['type:' + k for k in sorted(ks)]
    verdicts = set()
    ref = T.Ref(case['env'], {})
    with T.Module(case['env']) as m:
        for v in case['values']:
            w = m.ref.conforms(T.decode(v, m.ns), t)
            verdicts.add(w)
            labels.append('verdict:%s' % w)
    return bool(ks - {'p', 'any', 'none', 'lit', 'bare'}) and len(verdicts) > 1, sorted(set(labels))


def render(case):
    return '%s\n# type: %s\n# values: %s' % (T.module_text(case['env']), T.expr(case['type']), case['values'])


FACETS = [
    Facet('values', build({}), check, classify, 30000, 600000, render),
    Facet('plain', build(dict(recs=(0, 0), tdepth=5), n=(2, 8)), check, classify, 30000, 500000, render),
]
