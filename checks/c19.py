"""C19: validation has no side effects and no memory."""
import copy

from vf import pytypes as T
from vf.core import Facet, Violation

TECHNIQUE = 'property-based testing: generated histories of validations against an independent conformance predicate and snapshots (Hypothesis)'
RULE = ('a case is one or two modules of related types (the second defines other types under the same names) and a sequence of validations, '
        'with values being changed in place or repeated in between; non-trivial: at least four validations with both verdicts, over two types or modules')
ASSUMPTIONS = ['evaluation of forward references that Python itself caches inside of annotations is not a change']


def build(s):
    two = s.b(40)
    envs = [T.gen_env(s, recs=(1, 3), enums=(0, 1), fields=(0, 4), depth=2, names=['A', 'B', 'C'])]
    variant = two and s.b(60) and not any(len(r['bases']) > 1 for r in envs[0]['recs'])
    if variant:
        # the same records with other types
        e = copy.deepcopy(envs[0])
        names = ([x['name'] for x in e['enums']], [x['name'] for x in e['recs']])
        for r in e['recs']:
            for f in r['fields']:
                if s.b(40):
                    f[1] = T.gen_type(s, names, 1)
        if s.b(30):
            e['enums'] = [T.gen_enum(s, x['name']) for x in e['enums']]
        envs.append(e)
    elif two:
        envs.append(T.gen_env(s, recs=(1, 3), enums=(0, 1), fields=(0, 4), depth=2, names=['A', 'B', 'C']))
    vals = [T.Values(s, e) for e in envs]
    steps = []
    objs = []        # (module, type) each value was made for
    for _ in range(s.num(3, 9)):
        k = s.i(10)
        if k < 5 or not objs:
            i = s.i(len(envs))
            e = envs[i]
            names = ([x['name'] for x in e['enums']], [x['name'] for x in e['recs']])
            t = ['rec', s.pick(names[1])] if s.b(60) else T.gen_type(s, names, 2)
            v = vals[i].of(t, 4)
            if s.b(40):
                v = vals[i].mutate(v)
            objs.append((i, t))
            steps.append(['new', i, t, v])
            steps.append(['validate', len(objs) - 1, i, t])
        else:
            j = s.i(len(objs))
            i, t = objs[j]
            if k < 7:
                steps.append(['validate', j, i, t])
            elif k == 7:
                # another type for the same value
                i2 = s.i(len(envs))
                names = ([x['name'] for x in envs[i2]['enums']], [x['name'] for x in envs[i2]['recs']])
                steps.append(['validate', j, i2, s.pick([['rec', s.pick(names[1])], T.gen_type(s, names, 1)])])
            elif k == 8:
                steps.append(['change', j, i, s.pick(T.FIELDS), vals[i].random(1), s.i(3)])
                steps.append(['validate', j, i, t])
            else:
                steps.append(['copy', j])
                objs.append((i, t))
                steps.append(['validate', len(objs) - 1, i, t])
    return {'envs': envs, 'steps': steps, 'same': two and s.b(85 if variant else 40)}


def change(v, key, new, how):
    """changes a dictionary or list somewhere inside of v in place"""
    if isinstance(v, dict):
        inner = [x for x in v.values() if isinstance(x, (dict, list)) and x]
        if inner and how == 2:
            return change(inner[0], key, new, 1)
        if how == 0 and key in v:
            del v[key]
        elif v and how == 1:
            v[list(v)[-1]] = new
        else:
            v[key] = new
    elif type(v) is list:
        if v and how == 0:
            v.pop()
        elif v and how == 1:
            v[-1] = new
        else:
            v.append(new)


def snapshot(v):
    """structure with types and identities of the containers"""
    if isinstance(v, dict):
        return (type(v), id(v), [(snapshot(a), snapshot(b)) for a, b in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v), id(v), [snapshot(x) for x in v])
    return (type(v), id(v))


def type_state(m):
    res = []
    for r in m.env['recs']:
        c = m.ns[r['name']]
        res.append((r['name'], c.__name__, c.__module__, [(n, repr(a)) for n, a in c.__annotations__.items()], sorted(c.__required_keys__),
                    sorted(c.__optional_keys__), c.__mro__, sorted(vars(c))))
    for e in m.env['enums']:
        c = m.ns[e['name']]
        res.append(([(n, x.value) for n, x in c.__members__.items()], sorted(vars(c))))
    return res


def run(case, judge):
    mods = []
    try:
        for e in case['envs']:
            # modules of the same name: a module that has been reloaded or classes that have been redefined
            mods.append(T.Module(e, name=mods[0].name if mods and case.get('same') else '').__enter__())
        types = {}
        before = [type_state(m) for m in mods]
        values = []
        shown = []
        for st in case['steps']:
            if st[0] == 'new':
                values.append(T.decode(st[3], mods[st[1]].ns))
            elif st[0] == 'copy':
                values.append(copy.deepcopy(values[st[1]]))
            elif st[0] == 'change':
                change(values[st[1]], st[3], T.decode(st[4], mods[st[2]].ns), st[5])
            else:
                _, j, i, t = st
                m = mods[i]
                m.current()
                v = values[j]
                key = (i, repr(t))
                if key not in types:
                    types[key] = m.type(t)
                snap = snapshot(v)
                want = m.ref.conforms(v, t)
                shown.append(want)
                if not judge:
                    continue
                got = m.validate(v, types[key])
                if got not in (True, False) or (want is not None and got is not want):
                    raise Violation('step %s: value %r against %s of module %d: %s, but the value %s\n%s' % (
                        st, v, T.expr(t), i, got, {True: 'conforms', False: 'does not conform'}.get(want), show(case)))
                if want is None:
                    # whatever it is, it is the same for fresh types
                    with T.Module(m.env) as fresh:
                        if fresh.validate(v, fresh.type(t)) is not got and not has_member(v):
                            raise Violation('step %s: the verdict differs from that of fresh types\n%s' % (st, show(case)))
                if snapshot(v) != snap:
                    raise Violation('step %s: validation changed the value: now %r\n%s' % (st, v, show(case)))
                after = [type_state(m) for m in mods]
                if after != before:
                    raise Violation('step %s: validation changed a type: %s\ninstead of %s\n%s' % (st, after, before, show(case)))
        return shown
    finally:
        for m in mods:
            m.__exit__()


def has_member(v):
    import enum
    if isinstance(v, enum.Enum):
        return True
    if isinstance(v, dict):
        return any(map(has_member, v.values())) or any(map(has_member, v))
    if isinstance(v, (list, tuple)):
        return any(map(has_member, v))
    return False


def check(case):
    run(case, True)


def classify(case):
    verdicts = run(case, False)
    labels = {'step:' + st[0] for st in case['steps']}
    labels.add('modules:%d%s' % (len(case['envs']), ' of the same name' if case.get('same') else ''))
    labels |= {'verdict:%s' % v for v in verdicts}
    kinds = {(st[2], repr(st[3])) for st in case['steps'] if st[0] == 'validate'}
    return len(verdicts) >= 4 and len(set(verdicts)) > 1 and len(kinds) > 1, sorted(labels)


def show(case):
    return '\n'.join('# module %d\n%s' % (i, T.module_text(e)) for i, e in enumerate(case['envs'])) + \
        '\n' + '\n'.join('# %s' % st for st in case['steps'])


FACETS = [Facet('histories', lambda: T.strategy(build), check, classify, 20000, 500000, show)]
