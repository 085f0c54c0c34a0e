"""C20: type-checked functions behave as the function plus validation."""
import inspect

from vf import pytypes as T
from vf.core import Facet, Violation

TECHNIQUE = 'property-based testing: generated signatures and calls against signature binding and an independent conformance predicate (Hypothesis)'
RULE = ('a case is an environment of types, a function or method with a generated signature (positional-only, ordinary, keyword-only parameters, defaults, '
        '*args, **kwargs, with and without annotations) and several calls; non-trivial: at least two kinds of parameters, and calls with different outcomes; facet objects: functions whose arguments are callables, iterators, sets, mappings, classes or collections of such')
ASSUMPTIONS = ['annotations can be resolved when the function is decorated', 'defaults need not conform to the annotation',
               'left open: booleans for int and float, values equal to a literal or enum value but of another type']

PNAMES = ['a', 'b', 'c', 'x', 'func', 'args', 'kwargs', 'value', 'name', 'typ', 'val', 'sequence', 'return_', 'self_']


def build(s):
    env = T.gen_env(s, recs=(0, 2), enums=(0, 1), fields=(0, 3), depth=1, extra=25)
    names = T.env_names(env)
    vals = T.Values(s, env)
    method = s.pick(['', '', 'method', 'static', 'class'])
    pnames = s.sample(PNAMES, s.num(0, 5))
    npos = s.i(len(pnames) + 1) if s.b(25) else 0
    nkw = s.i(len(pnames) - npos + 1) if s.b(40) else 0
    params = []
    default_seen = False
    for i, n in enumerate(pnames):
        kind = 'po' if i < npos else 'ko' if i >= len(pnames) - nkw else 'pk'
        ann = T.gen_type(s, names, 1) if s.b(75) else None
        dflt = s.b(30)
        if kind != 'ko':
            dflt = dflt or default_seen
            default_seen = dflt
        params.append([n, kind, ann, s.pick(['None', '0', "'d'", '[]']) if dflt else None])
    var = None
    if s.b(30):
        var = ['rest', T.gen_type(s, names, 1) if s.b(75) else None]
    kwvar = None
    if s.b(30):
        kwvar = ['more', T.gen_type(s, names, 1) if s.b(75) else None]
    ret = T.gen_type(s, names, 1) if s.b(60) else None
    if ret is None and not any(p[2] for p in params) and not (var and var[1]) and not (kwvar and kwvar[1]):
        ret = ['p', 'int']
    flag = s.pick([None, True, False])
    calls = []
    for _ in range(s.num(2, 6)):
        args, kwargs = [], []
        keyword_from = s.i(len(params) + 1) if s.b(50) else len(params)
        for i, (n, kind, ann, dflt) in enumerate(params):
            if dflt is not None and s.b(40):
                keyword_from = i
                continue
            if s.b(4):
                keyword_from = i
                continue        # too few arguments
            v = vals.of(ann, 3) if ann else vals.random(1)
            if s.b(15):
                v = vals.mutate(v)
            if kind == 'ko' or (kind == 'pk' and i >= keyword_from):
                kwargs.append([n, v])
            else:
                if i >= keyword_from and kind == 'po':
                    continue
                args.append(v)
        if (var and not kwargs and s.b(60)) or s.b(5):
            for _ in range(s.num(1, 3)):
                v = vals.of(var[1], 3) if var and var[1] else vals.random(1)
                args.append(vals.mutate(v) if s.b(20) else v)
        if (kwvar and s.b(60)) or s.b(5):
            for n in s.sample(['extra', 'other', 'func', 'self', 'rest', 'name'], s.num(1, 2)):
                if (n == 'self' and method) or n in [p[0] for p in params if p[1] != 'po'] or n in [k for k, _ in kwargs]:
                    continue
                v = vals.of(kwvar[1], 3) if kwvar and kwvar[1] else vals.random(1)
                kwargs.append([n, vals.mutate(v) if s.b(20) else v])
        r = vals.of(ret, 3) if ret else vals.random(1)
        if s.b(25):
            r = vals.mutate(r)
        raises = s.pick(['TypeError', 'ValueError', 'KeyError', 'StopIteration', 'AssertionError']) if s.b(12) else None
        calls.append({'args': args, 'kwargs': kwargs, 'ret': r, 'raises': raises})
    return {'env': env, 'method': method, 'async': s.b(15), 'params': params, 'var': var, 'kwvar': kwvar, 'ret': ret, 'flag': flag, 'calls': calls}


def signature(case):
    parts = []
    kinds = [p[1] for p in case['params']]
    star = False
    for i, (n, kind, ann, dflt) in enumerate(case['params']):
        if kind == 'ko' and not star:
            star = True
            parts.append('*' + arg(case['var']) if case['var'] else '*')
        parts.append(arg([n, ann]) + ('' if dflt is None else ' = ' + dflt))
        if kind == 'po' and (i + 1 == len(kinds) or kinds[i + 1] != 'po'):
            parts.append('/')
    if case['var'] and not star:
        parts.append('*' + arg(case['var']))
    if case['kwvar']:
        parts.append('**' + arg(case['kwvar']))
    first = {'method': ['self'], 'class': ['cls']}.get(case['method'], [])
    ret = '' if case['ret'] is None else ' -> ' + T.expr(case['ret'])
    return '(%s)%s' % (', '.join(first + parts), ret)


def arg(p):
    return p[0] if p[1] is None else '%s: %s' % (p[0], T.expr(p[1]))


def text(case):
    bind = {'method': 'self, ', 'class': 'cls, '}.get(case['method'], '')
    deco = 'checked'
    flag = '' if case['flag'] is None else ', check_return_type=%r' % case['flag']
    lines = ['def checked(f):', '    return type_check(f%s)' % flag if flag else '    return type_check(f)']
    if not flag:
        lines = ['checked = type_check']
    ind = ''
    if case['method']:
        lines.append('class Holder:')
        ind = '    '
        if case['method'] == 'static':
            lines.append('    @staticmethod')
        elif case['method'] == 'class':
            lines.append('    @classmethod')
    body = lambda deco, name: [ind + '@checked'] * deco + [
        ind + '%sdef %s%s:' % ('async ' if case.get('async') else '', name, signature(case)),
        ind + '    """documentation of the function"""',
        ind + '    return body_called(locals())']
    lines += body(1, 'function')
    if case['method'] == 'static':
        lines.append('    @staticmethod')
    elif case['method'] == 'class':
        lines.append('    @classmethod')
    lines += body(0, 'plain')
    return '\n'.join(lines) + '\n'


class Own(Exception):
    pass


def outcome(f, args, kwargs):
    try:
        r = f(*args, **kwargs)
        if inspect.iscoroutine(r):
            try:
                r.send(None)
            except StopIteration as e:
                r = e.value
        return ('returns', r)
    except Exception as e:
        return ('raises', e)


def run(case, judge):
    tail = text(case)
    outcomes = []
    with T.Module(case['env'], tail=tail) as m:
        state = {}
        ns = m.ns

        def body_called(loc):
            state['called'] = {k: v for k, v in loc.items() if k not in ('self', 'cls')}
            if state['exc'] is not None:
                raise state['exc']
            return state['ret']
        ns['body_called'] = body_called
        if case['method'] in ('static', 'class'):
            f, g = ns['Holder'].function, ns['Holder'].plain
        elif case['method'] == 'method':
            h = ns['Holder']()
            f, g = h.function, h.plain
        else:
            f, g = ns['function'], ns['plain']
        if judge:
            if f.__name__ != 'function' or f.__doc__ != 'documentation of the function' or str(inspect.signature(f)) != str(inspect.signature(g)):
                raise Violation('name, documentation or signature lost: %s %s %s\n%s' % (f.__name__, f.__doc__, inspect.signature(f), tail))
            if bool(case.get('async')) != inspect.iscoroutinefunction(f):
                raise Violation('a coroutine function remains one, others do not become one\n%s' % tail)
        sig = inspect.signature(g)
        anns = {p[0]: p[2] for p in case['params']}
        if case['var']:
            anns['rest'] = case['var'][1]
        if case['kwvar']:
            anns['more'] = case['kwvar'][1]
        for c in case['calls']:
            args = [T.decode(v, ns) for v in c['args']]
            kwargs = {k: T.decode(v, ns) for k, v in c['kwargs']}
            ret = T.decode(c['ret'], ns)
            if case.get('async') and c['raises'] == 'StopIteration':
                c = dict(c, raises='KeyError')
            exc = None if c['raises'] is None else type(c['raises'], (getattr(__import__('builtins'), c['raises']),), {})('own')
            try:
                bound = sig.bind(*args, **kwargs)
            except TypeError:
                want = 'signature'
            else:
                ok = []
                for n, v in bound.arguments.items():
                    t = anns.get(n)
                    if t is None:
                        continue
                    kind = sig.parameters[n].kind
                    vs = v if kind == inspect.Parameter.VAR_POSITIONAL else v.values() if kind == inspect.Parameter.VAR_KEYWORD else [v]
                    ok.extend(m.ref.conforms(x, t) for x in vs)
                a = T.conj(ok)
                if a is False:
                    want = 'argument'
                elif exc is not None:
                    want = 'own' if a else 'open'
                elif case['ret'] is not None and case['flag'] is not False:
                    r = m.ref.conforms(ret, case['ret'])
                    want = 'open' if a is None or (r is None) else 'returns' if r else 'result'
                else:
                    want = 'returns' if a else 'open'
            outcomes.append(want)
            if not judge:
                continue
            state.update(called=None, exc=exc, ret=ret)
            got, x = outcome(f, args, kwargs)
            called = state['called']
            msg = None
            if want in ('signature', 'argument'):
                if got != 'raises' or not isinstance(x, TypeError):
                    msg = 'no TypeError (%s)' % want
                elif called is not None:
                    msg = 'the body was run (%s)' % want
            elif want == 'own':
                if got != 'raises' or x is not exc:
                    msg = 'the exception of the function is lost'
            elif want == 'returns':
                if got != 'returns' or x is not ret:
                    msg = 'the function does not return its value'
            elif want == 'result':
                if got != 'raises' or not isinstance(x, TypeError) or called is None:
                    msg = 'no TypeError for a return value that does not conform'
            elif got == 'raises' and not (isinstance(x, TypeError) or x is exc):
                msg = 'another exception'
            if msg is None and want in ('own', 'returns', 'result'):
                state.update(called=None)
                outcome(g, args, kwargs)
                first, plain = called, state['called']
                if first is None or set(first) != set(plain) or any(not same(first[n], plain[n]) for n in plain):
                    msg = 'the function was called with other arguments: %r instead of %r' % (first, plain)
            if msg:
                raise Violation('%s: call with %r %r, result %r: %s %r\n%s%s' % (msg, args, kwargs, ret, got, x, m.text, ''))
    return outcomes


def same(a, b):
    if isinstance(a, (tuple, dict)) and type(a) is type(b) and len(a) == len(b):
        if isinstance(a, tuple):
            return all(x is y for x, y in zip(a, b)) or a is b
        return a is b or (list(a) == list(b) and all(a[k] is b[k] for k in a))
    # defaults are objects of two functions
    return a is b or (type(a) is type(b) and a == b)


def check(case):
    run(case, True)


def classify(case):
    outs = run(case, False)
    labels = {'outcome:' + o for o in outs} | {'param:' + p[1] for p in case['params']} | {'how:' + (case['method'] or 'function')}
    if case.get('async'):
        labels.add('async')
    if case['var']:
        labels.add('param:*')
    if case['kwvar']:
        labels.add('param:**')
    if any(p[3] is not None for p in case['params']):
        labels.add('default')
    if case['flag'] is not None:
        labels.add('flag:%s' % case['flag'])
    kinds = {l for l in labels if l.startswith('param')}
    return len(kinds) >= 2 and len(set(outs)) > 1, sorted(labels)


def render(case):
    return T.module_text(case['env'], text(case)) + '\n' + '\n'.join('# call %s' % c for c in case['calls'])


# -- arguments that are no data: functions, iterators, sets, classes

ITEMS = {'int': [1, 2, 3], 'str': ['a', 'b'], 'empty': []}
CLASSES = {'int': int, 'str': str, 'bool': bool, 'list': list}


def gen_object_type(s, depth=2):
    k = s.pick(['call', 'call', 'iterator', 'iterable', 'seq', 'coll', 'set', 'fset', 'map', 'type', 'p', 'gen'] + (['opt', 'list', 'dict'] if depth else []))
    if k == 'call':
        return [k, s.pick(['[int], str', '..., int', '[], None', '[str], str', '[int, str], Any', '..., Any'])]
    if k in ('opt', 'list', 'dict'):
        return [k, gen_object_type(s, depth - 1)]
    return [k, s.pick(['int', 'str'])]


def object_expr(t):
    k, x = t
    if k == 'call':
        return 'Callable[%s]' % x
    if k == 'opt':
        return 'Optional[%s]' % object_expr(x)
    if k in ('list', 'dict'):
        return {'list': 'List[%s]', 'dict': 'Dict[str, %s]'}[k] % object_expr(x)
    if k == 'p':
        return x
    return {'iterator': 'Iterator[%s]', 'iterable': 'Iterable[%s]', 'seq': 'Sequence[%s]', 'coll': 'Collection[%s]', 'set': 'Set[%s]', 'fset': 'FrozenSet[%s]',
            'map': 'Mapping[str, %s]', 'type': 'Type[%s]', 'gen': 'Generator[%s, None, None]'}[k] % x


def gen_object(s, t=None):
    if t is None or s.b(20):
        k = s.pick(['lambda', 'class', 'generator', 'iter', 'list', 'tuple', 'set', 'fset', 'dict', 'int', 'str', 'none', 'callable'])
        return [k, s.pick(['int', 'str', 'empty'])]
    k, x = t
    if k == 'opt' and s.b(30):
        return ['none', 'int']
    if k in ('list', 'dict'):
        return [k + '*', [gen_object(s, x) for _ in range(s.i(3))]]
    if k == 'opt':
        return gen_object(s, x)
    how = {'call': ['lambda', 'class', 'callable'], 'iterator': ['generator', 'iter'], 'iterable': ['generator', 'iter', 'list', 'set'], 'seq': ['list', 'tuple', 'str'],
           'coll': ['list', 'set', 'fset', 'dict'], 'set': ['set'], 'fset': ['fset'], 'map': ['dict'], 'type': ['class'], 'gen': ['generator'], 'p': ['int', 'str']}[k]
    return [s.pick(how), x if x in ('int', 'str') else 'int']


class Caller:
    def __call__(self, *args):
        return 1


def make_object(v, made):
    k, x = v
    if k == 'list*':
        return [make_object(y, made) for y in x]
    if k == 'dict*':
        return {'k%d' % i: make_object(y, made) for i, y in enumerate(x)}
    items = ITEMS[x]
    if k in ('generator', 'iter'):
        r = (i for i in items) if k == 'generator' else iter(items)
        made.append((r, items))
        return r
    return {'lambda': lambda: lambda *a: 1, 'class': lambda: CLASSES.get(x, list), 'list': lambda: list(items), 'tuple': lambda: tuple(items), 'set': lambda: set(items),
            'fset': lambda: frozenset(items), 'dict': lambda: {'k%d' % i: y for i, y in enumerate(items)}, 'int': lambda: 5, 'str': lambda: 'text',
            'none': lambda: None, 'callable': Caller}[k]()


def object_fits(v, t):
    """True, False or None where it is left open"""
    import collections.abc as abc
    k, x = t
    if k == 'opt':
        return True if v is None else object_fits(v, x)
    if k == 'list':
        return conj(object_fits(y, x) for y in v) if isinstance(v, list) else False
    if k == 'dict':
        return conj([isinstance(n, str) for n in v] + [object_fits(y, x) for y in v.values()]) if isinstance(v, dict) else False
    if k == 'call':
        return callable(v)
    if k == 'p':
        return isinstance(v, {'int': int, 'str': str}[x])
    if k == 'type':
        return False if not isinstance(v, type) else True if issubclass(v, {'int': int, 'str': str}[x]) else None
    if k == 'map':
        return conj([isinstance(n, str) for n in v] + [object_fits(y, ['p', x]) for y in v.values()]) if isinstance(v, dict) else False
    cls = {'iterator': abc.Iterator, 'iterable': abc.Iterable, 'seq': abc.Sequence, 'coll': abc.Collection, 'set': set, 'fset': frozenset, 'gen': abc.Generator}[k]
    if not isinstance(v, cls):
        return False
    if isinstance(v, abc.Collection):  # (a dictionary is a collection of its keys)
        return conj(object_fits(y, ['p', x]) for y in v)
    return True


conj = T.conj


def build_objects(s):
    params = [[n, gen_object_type(s)] for n in s.sample(PNAMES, s.num(1, 3))]
    ret = gen_object_type(s) if s.b(50) else None
    calls = [[[gen_object(s, t) for _, t in params], gen_object(s, ret)] for _ in range(s.num(1, 4))]
    return {'params': params, 'ret': ret, 'calls': calls}


def object_text(case):
    return 'def function(%s)%s:\n    return body_called(locals())\n' % (
        ', '.join('%s: %s' % (n, object_expr(t)) for n, t in case['params']), '' if case['ret'] is None else ' -> ' + object_expr(case['ret']))


def run_objects(case, judge):
    import typing
    from ts2python.json_validation import type_check
    text = object_text(case)
    state = {}

    def body_called(loc):
        state['called'] = loc
        return state['ret']
    ns = dict(vars(typing), body_called=body_called)
    exec(compile(text, 'objects', 'exec', dont_inherit=True), ns)
    f = type_check(ns['function'])
    outs = []
    for values, ret in case['calls']:
        made = []
        args = [make_object(v, made) for v in values]
        r = make_object(ret, made)
        a = conj(object_fits(v, t) for v, (_, t) in zip(args, case['params']))
        b = True if case['ret'] is None else object_fits(r, case['ret'])
        want = 'argument' if a is False else 'open' if a is None or b is None else 'returns' if b else 'result'
        outs.append(want)
        if not judge:
            continue
        state.update(called=None, ret=r)
        got, x = outcome(f, args, {})
        msg = None
        if want == 'argument' and (got != 'raises' or not isinstance(x, TypeError) or state['called'] is not None):
            msg = 'no TypeError before the body is run'
        elif want == 'returns' and (got != 'returns' or x is not r):
            msg = 'the function does not return its value'
        elif want == 'result' and (got != 'raises' or not isinstance(x, TypeError) or state['called'] is None):
            msg = 'no TypeError for a return value that does not conform'
        elif want == 'returns' and any(state['called'][n] is not v for v, (n, _) in zip(args, case['params'])):
            msg = 'other arguments'
        else:
            for it, items in made:
                if list(it) != items:
                    msg = 'an iterator was used up by the validation'
        if msg:
            raise Violation('%s: call with %r, result %r: %s %r\n%s' % (msg, args, r, got, x, text))
    return outs


def classify_objects(case):
    outs = run_objects(case, False)
    labels = {'outcome:' + o for o in outs} | {'param:' + p[1][0] for p in case['params']} | {'value:' + v[0] for vs, _ in case['calls'] for v in vs}
    return len(set(outs)) > 1 or 'returns' in outs, sorted(labels)


FACETS = [
    Facet('calls', lambda: T.strategy(build), check, classify, 24000, 500000, render),
    Facet('objects', lambda: T.strategy(build_objects), lambda case: run_objects(case, True), classify_objects, 4000, 80000,
          lambda case: object_text(case) + '\n'.join('# call %s' % c for c in case['calls'])),
]
