"""C22: record classes of the shim behave like the standard ones."""
import pickle
import sys
import types
import typing

from vf import pytypes as T
from vf.core import Facet, HarnessError, Violation, fresh_typing

TECHNIQUE = 'property-based testing: generated class definitions, differential against typing.TypedDict plus a model of optionality (Hypothesis)'
RULE = ('a case is a module of record classes in class or functional notation with inheritance, redeclared fields, generic parameters, all notations '
        'of optionality, as objects, strings, or under "from __future__ import annotations"; it is executed once with the shim and once with the standard '
        'TypedDict; non-trivial: at least two fields with different status, and inheritance or a quoted optional type')
ASSUMPTIONS = ['the total parameter, Required and Annotated are not used (the shim ignores them by design)',
               'type parameters of shim classes are only recorded in their original bases']

FIELDS = ['a', 'b', 'c', 'd', 'x', 'None_', 'Optional', 'keys', 'items']
NAMES = ['A', 'B', 'C', 'D', 'NoneX', 'Later']


def gen_type(s, depth, names):
    """(expression, is_optional) of a type"""
    k = s.i(16)
    if k < 4 or depth == 0:
        x = s.pick(['int', 'str', 'Any', 'List[int]', "Literal['None', 'a']", 'Literal[None]', 'float', 'dict', 'Dict[str, Any]',
                    'Tuple[int, ...]', "Literal['a | None']", "Literal['Optional[int]']", 'object', 'list', 'Callable[[int], None]',
                    'typing.List[None]', 'Dict[str, None]', 'List[Optional[int]]', 'Dict[str, Union[int, None]]', 'Tuple[None, int]'])
        return x, False
    if k < 6 and names:
        return s.pick(names), False
    if k == 6:
        x, _ = gen_type(s, depth - 1, names)
        return 'List[%s]' % x, False
    if k == 7:
        return s.pick(['None', 'type(None)']), True
    if k < 10:
        x, o = gen_type(s, depth - 1, names)
        return s.pick(['Optional[%s]', 'typing.Optional[%s]', 'Union[%s, None]', 'Union[None, %s]', 'Union[int, %s, None]',
                       'typing.Union[None, %s, str]', 'Union[%s, type(None)]']) % x, True
    if k < 13:
        x, o = gen_type(s, depth - 1, names)
        y, p = gen_type(s, 0, [])
        if x in ('None', 'type(None)'):
            x, o = 'int', False
        if k == 10:
            return s.pick(['%s | None', 'None | %s']) % paren(x), True
        return '%s | %s' % (paren(x), paren(y)), o or p
    if k == 13:
        x, o = gen_type(s, depth - 1, names)
        y, p = gen_type(s, depth - 1, names)
        return 'Union[%s, %s]' % (x, y), o or p
    return s.pick(['int', 'str']), False


def paren(x):
    return '(%s)' % x if ' | ' in x else x


def gen_field(s, names, later, forms):
    how = s.i(10)
    quoted = forms == 'future' or s.b(35)
    pool = list(names) + (list(later) if quoted else [])
    x, o = gen_type(s, 2, pool)
    if 'type(None)' in x and quoted:
        x = x.replace('type(None)', 'None')
    if how < 3:
        # a marker is not allowed inside of unions; where the marker stands in quotes the standard library does not see it
        x, o = (s.pick(['NotRequired[%s]', 'typing.NotRequired[%s]']) % x), True
    if quoted and forms != 'future':
        if s.b(20):
            x = x + ' '
        x = repr(x)
    elif forms == 'partly' and not quoted and later and s.b(30):
        l = s.pick(list(later))
        x, o = s.pick([("List['%s']" % l, False), ("Optional['%s']" % l, True), ("NotRequired['%s']" % l, True), ("Union['%s', int]" % l, False),
                       ("Dict[str, '%s']" % l, False), ("Union[None, '%s']" % l, True), ("'%s'" % l, False), ("List['Optional[%s]']" % l, False),
                       ("NotRequired['Optional[%s]']" % l, True)])
    return x, o


def names_of(n, known):
    """ancestors and fields of a class"""
    r = known[n]
    return {'class ' + n} | {f[0] for f in r['fields']}.union(*[names_of(b, known) for b in r['bases']])


def build(s):
    names = s.sample(NAMES, s.num(1, 4))
    future = s.b(20)
    recs = []
    generic = s.b(30)
    split = s.num(1, len(names)) if s.b(35) else len(names)     # the others belong to a second module
    for i, n in enumerate(names):
        style = 'class' if s.b(70) else s.pick(['func', 'kw'])
        bases = []
        params = []
        if style == 'class':
            cands = [r['name'] for r in recs]
            if cands and s.b(55):
                bases = s.sample(cands, s.num(1, min(2, len(cands))))
                if len(bases) == 2:
                    known = {r['name']: r for r in recs}
                    if names_of(bases[0], known) & names_of(bases[1], known):
                        bases = bases[:1]      # possibly contradictory
            elif generic and s.b(60):
                params = s.sample(['T', 'U'], s.num(1, 2))
        fields = []
        pool = FIELDS
        for fn in s.sample(pool, s.num(0, 4)):
            mine = names[:split] if i < split else names[split:]
            x, o = gen_field(s, [r['name'] for r in recs if r['name'] in mine] + params, [y for y in names[i:] if y in mine], 'future' if (future and style == 'class') else 'partly')
            fields.append([fn, x, o])
        doc = style == 'class' and s.b(20)
        recs.append({'name': n, 'style': style, 'bases': bases, 'params': params, 'fields': fields, 'doc': doc})
    return {'recs': recs, 'future': future, 'split': split}


def text(case, shim, part=None):
    head = ['from __future__ import annotations'] if case['future'] else []
    head += ['import typing', 'from typing import Any, Callable, Dict, Generic, List, Literal, Optional, Tuple, TypeVar, Union, NotRequired']
    if shim:
        head.append('from ts2python.typeddict_shim import TypedDict, GenericTypedDict')
    else:
        head += ['from typing import TypedDict', 'GenericTypedDict = TypedDict']
    head += ["T = TypeVar('T')", "U = TypeVar('U')"]
    split = case['split']
    first = [r['name'] for r in case['recs'][:split]]
    if part is None:
        return text(case, shim, 0) + ('# ---- second module\n' + text(case, shim, 1) if split < len(case['recs']) else '')
    out = list(head)
    if part == 1:
        out += ['class %s: pass' % n for n in first]     # other things of the same name
    for r in case['recs'][:split] if part == 0 else case['recs'][split:]:
        pairs = ', '.join('%r: %s' % (f[0], f[1]) for f in r['fields'])
        if r['style'] == 'func' or (r['style'] == 'kw' and not shim):
            out.append('%s = TypedDict(%r, {%s})' % (r['name'], r['name'], pairs))
        elif r['style'] == 'kw':
            out.append('%s = TypedDict(%r%s)' % (r['name'], r['name'], ''.join(', %s=%s' % (f[0], f[1]) for f in r['fields'])))
        else:
            bases = ['MODULE1.' + b if part == 1 and b in first else b for b in r['bases']]
            base = ', '.join(bases) or ('Generic[%s], GenericTypedDict' % ', '.join(r['params']) if r['params'] else 'TypedDict')
            if r['params'] and not shim:
                base = 'GenericTypedDict, Generic[%s]' % ', '.join(r['params'])
            out.append('class %s(%s, total=True):' % (r['name'], base))
            if r['doc']:
                out.append('    """documentation"""')
            out.extend('    %s: %s' % (f[0], f[1]) for f in r['fields'])
            if not r['fields']:
                out.append('    pass')
    return '\n'.join(out) + '\n'


_n = [0]


class Both:
    """One or two executed modules."""
    def __init__(self, case, shim):
        self.mods = []
        self.where = {}
        fresh_typing()
        try:
            for part in (0, 1) if case['split'] < len(case['recs']) else (0,):
                _n[0] += 1
                name = 'rec_%d' % _n[0]
                mod = types.ModuleType(name)
                sys.modules[name] = mod
                if self.mods:
                    mod.MODULE1 = self.mods[0]
                self.mods.append(mod)
                exec(compile(text(case, shim, part), '<%s>' % name, 'exec', dont_inherit=True), mod.__dict__)
                for r in case['recs'][:case['split']] if part == 0 else case['recs'][case['split']:]:
                    self.where[r['name']] = mod
        except BaseException:
            self.close()
            raise

    def get(self, name):
        return getattr(self.where[name], name)

    def norm(self, a):
        t = repr(a)
        for i, m in enumerate(self.mods):
            t = t.replace(m.__name__ + '.', 'M%d.' % i).replace("module='%s'" % m.__name__, "module='M%d'" % i)
        return t

    def close(self):
        for m in self.mods:
            sys.modules.pop(m.__name__, None)


def expected(case):
    """{class: (required, optional)} by the rules"""
    res = {}
    for r in case['recs']:
        req, opt = set(), set()
        for b in r['bases']:
            req |= res[b][0]
            opt |= res[b][1]
        for n, _, o in r['fields']:
            (opt if o else req).add(n)
            (req if o else opt).discard(n)
        res[r['name']] = (req, opt)
    return res


def check(case):
    std, shim = None, None
    try:
        t = text(case, True)
        shim = Both(case, True)
        std = Both(case, False)
        want = expected(case)

        def fail(msg):
            raise Violation('%s\n%s' % (msg, t))
        for r in case['recs']:
            a, b = shim.get(r['name']), std.get(r['name'])
            got = [(n, shim.norm(x)) for n, x in a.__annotations__.items()]
            exp = [(n, std.norm(x)) for n, x in b.__annotations__.items()]
            if got != exp:
                fail('annotations of %s are %s instead of %s' % (r['name'], got, exp))
            if (a.__name__, a.__qualname__, a.__doc__) != (b.__name__, b.__qualname__, r['doc'] and 'documentation' or a.__doc__):
                fail('name or documentation of %s' % r['name'])
            if a.__module__ != shim.where[r['name']].__name__:
                fail('%s belongs to module %s' % (r['name'], a.__module__))
            req, opt = want[r['name']]
            if set(a.__required_keys__) != req or set(a.__optional_keys__) != opt:
                fail('keys of %s: required %s and optional %s instead of %s and %s' % (
                    r['name'], sorted(a.__required_keys__), sorted(a.__optional_keys__), sorted(req), sorted(opt)))
            kw = {n: object() for n in a.__annotations__}
            d = a(**kw)
            if type(d) is not dict or d != kw or list(d) != list(kw) or a() != {} or a([('q', 1)]) != {'q': 1} or a({'z': 2}, y=3) != {'z': 2, 'y': 3}:
                fail('%s is no dictionary factory' % r['name'])
            for what in ('isinstance({}, c)', 'issubclass(dict, c)'):
                try:
                    eval(what, {'c': a})
                except TypeError:
                    pass
                else:
                    fail('%s does not raise a TypeError' % what)
            misuse(a, shim.where[r['name']].__dict__, {f[0]: int for f in r['fields']}, fail)
            misuse(b, std.where[r['name']].__dict__, {f[0]: int for f in r['fields']}, harness)
            h1 = {n: shim.norm(x) for n, x in hints(a, fail).items()}
            h2 = {n: std.norm(x) for n, x in hints(b, fail).items()}
            if h1 != h2:
                fail('resolved annotations of %s are %s instead of %s' % (r['name'], h1, h2))
    finally:
        for m in (std, shim):
            if m is not None:
                m.close()


def harness(msg):
    raise HarnessError('standard library: ' + msg)


def misuse(c, ns, fields, fail):
    """what the standard library rejects is rejected, and the dictionary of the fields is not kept"""
    ns = dict(ns, c_=c, f_=fields)
    for what in ('TypedDict("X", f_, more_=int)', 'TypedDict("X", {}, more_=int)', 'TypedDict("X", {"a": Generic})',
                 'types.new_class("X", (c_, int))', 'TypedDict(f_)', 'TypedDict()'):
        try:
            eval(what, dict(ns, types=types))
        except TypeError:
            pass
        else:
            fail('%s does not raise a TypeError' % what)
    x = eval('TypedDict("X", f_)', ns)
    before = set(fields)
    fields['later_'] = str
    if set(x.__annotations__) != before:
        fail('a change of the dictionary of fields changes the record class')
    if pickle.loads(pickle.dumps(c)) is not c:
        fail('%r cannot be pickled' % c)
    from ts2python.typeddict_shim import is_typeddict
    if not is_typeddict(c):
        fail('is_typeddict(%r) is not true' % c)


def hints(c, fail):
    try:
        return typing.get_type_hints(c, include_extras=True)
    except NameError as e:
        fail('%r: %s' % (c, e))


def classify(case):
    labels = set()
    keys = expected(case)
    both = any(a and b for a, b in keys.values())
    inh = any(r['bases'] for r in case['recs'])
    quoted = False
    redecl = False
    names = {r['name']: r for r in case['recs']}

    def all_fields(r):
        res = {f[0] for f in r['fields']}
        for b in r['bases']:
            res |= all_fields(names[b])
        return res
    for r in case['recs']:
        labels.add('style:' + r['style'])
        if r['params']:
            labels.add('generic')
        for f in r['fields']:
            if f[2] and (f[1][0] in "'\"" or (case['future'] and r['style'] == 'class')):
                quoted = True
            if any(f[0] in all_fields(names[b]) for b in r['bases']):
                redecl = True
    for l, v in (('two modules', case['split'] < len(case['recs'])), ('inherits', inh), ('quoted-optional', quoted), ('redeclared', redecl), ('future', case['future'])):
        if v:
            labels.add(l)
    return both and (inh or quoted), sorted(labels)


def render(case):
    return text(case, True)


FACETS = [Facet('classes', lambda: T.strategy(build), check, classify, 40000, 600000, render)]
