"""A JSON-able model of Python types and of the record classes and enumerations they refer to, their text, values that
conform to them or nearly do, and an independent predicate that says which.

Types
    ["p", "int"|"float"|"str"|"bool"]
    ["any"] ["none"]
    ["bare", "list"|"dict"|"List"|"Dict"]
    ["lit", [value...]]           values: int, str, bool
    ["enum", name] ["rec", name]
    ["rec", name, t]              a generic record with its type argument
    ["tv"]                        the type parameter, in fields of generic records
    ["alias", name]
    ["list", t, how] ["dict", key, t, how] ["tup", [t...], how] ["tupv", t, how]     how 0: typing.List, 1: list
    ["u", [t...], how]            how 0: Union[...], 1: Optional[...] (one type besides None), 2: a | b
Environment: {"enums": [{name, kind, items: [[name, value]...]}...],
              "aliases": [[name, type]...], also recursive ones
              "recs": [{name, bases, fields: [[name, type, status]...], style, total, generic}...]}
    status: "req" | "not" (NotRequired) | "opt" (shim only: a union with None may be left out)
    style: "std" (typing.TypedDict) | "shim" | "func" (shim, functional)
    total: only for style "std"; False: fields without NotRequired are optional
Encoded values: JSON, with ["T", [...]] a tuple, ["L", [...]] a list, ["D", [[k, v]...]] a dictionary,
    ["E", enum, member] a member of an enumeration, ["X", what] something else, ["F", text] a special float
"""
import keyword
import zlib

NAMES = ['A', 'B', 'C', 'D', 'Node']
ENUMS = ['E', 'Kind']
FIELDS = ['a', 'b', 'c', 'x', 'next', 'kind', 'items', 'value', 'None_', 'A']
PRIMS = ['int', 'float', 'str', 'bool']
SCALARS = [0, 1, -1, 2, 3, 7, 10 ** 20, '', 'a', 'b', 'x', '1', 'None', 'true', 1.5, 0.0, -2.25, 1e300, True, False, None]


# ------------------------------------------------------------------ text of types

def expr(t, later=(), quoted=True):
    """Python expression; references to names in `later` are quoted, unless the whole will be"""
    k = t[0]
    if k == 'p':
        return t[1]
    if k == 'any':
        return 'Any'
    if k == 'none':
        return 'None'
    if k == 'bare':
        return t[1]
    if k == 'lit':
        return 'Literal[%s]' % ', '.join(map(repr, t[1]))
    if k == 'tv':
        return 'T'
    if k == 'rec' and len(t) > 2:
        if t[1] in later and quoted:
            return repr(expr(t, later, False))
        return '%s[%s]' % (t[1], expr(t[2], later, quoted))
    if k in ('enum', 'rec', 'alias'):
        return repr(t[1]) if t[1] in later and quoted else t[1]
    if k == 'list':
        return '%s[%s]' % ('list' if t[2] else 'List', expr(t[1], later, quoted))
    if k == 'dict':
        return '%s[%s, %s]' % ('dict' if t[3] else 'Dict', expr(t[1], later, quoted), expr(t[2], later, quoted))
    if k == 'tup':
        return '%s[%s]' % ('tuple' if t[2] else 'Tuple', ', '.join(expr(x, later, quoted) for x in t[1]) or '()')
    if k == 'tupv':
        return '%s[%s, ...]' % ('tuple' if t[2] else 'Tuple', expr(t[1], later, quoted))
    if k == 'u':
        xs = [expr(x, later, quoted) for x in t[1]]
        if t[2] == 1 and len(xs) == 2 and 'None' in xs and xs != ['None', 'None']:
            return 'Optional[%s]' % [x for x in xs if x != 'None'][0]
        if t[2] == 2 and pipe_ok(xs):
            return ' | '.join('(%s)' % x if y[0] == 'u' else x for x, y in zip(xs, t[1]))
        return 'Union[%s]' % ', '.join(xs)
    raise ValueError(t)


def pipe_ok(xs):
    """whether the alternatives can be joined by `|` when executed"""
    return len(xs) > 1 and not any(x[0] in "'\"" for x in xs) and xs[:2] != ['None', 'None']


def refs(t, out=None):
    out = [] if out is None else out
    k = t[0]
    if k in ('enum', 'rec', 'alias'):
        out.append(t[1])
        if len(t) > 2:
            refs(t[2], out)
    elif k in ('list', 'tupv'):
        refs(t[1], out)
    elif k == 'dict':
        refs(t[1], out)
        refs(t[2], out)
    elif k in ('tup', 'u'):
        for x in t[1]:
            refs(x, out)
    return out


PREAMBLE = '''import enum
import typing
from typing import Any, Callable, Dict, Generic, List, Literal, Optional, Tuple, TypeVar, Union
from typing import TypedDict as StdTypedDict, NotRequired
from ts2python.typeddict_shim import TypedDict, GenericTypedDict
from ts2python.json_validation import validate_type, type_check
'''


def module_text(env, tail='', future=False):
    out = [PREAMBLE]
    for e in env['enums']:
        kind = {'i': 'enum.IntEnum', 's': 'enum.Enum', 'm': 'enum.Enum', 'S': 'str, enum.Enum'}[e['kind']]
        out.append('class %s(%s):' % (e['name'], kind))
        out.extend('    %s = %r' % (n, v) for n, v in e['items'])
    if any(r.get('generic') for r in env['recs']):
        out.append("T = TypeVar('T')")
    defined = {e['name'] for e in env['enums']}
    later = [n for n, _ in env.get('aliases', ())] + [x['name'] for x in env['recs']]
    for n, t in env.get('aliases', ()):
        out.append('%s = %s' % (n, expr(t, later)))
        later = later[1:]
    for r in env['recs']:
        later = {x['name'] for x in env['recs']} - defined
        fields = []
        for n, t, status in r['fields']:
            rs = set(refs(t)) & later
            x = expr(t, later)
            if rs and r.get('whole'):
                x = expr(t, later, quoted=False)
                if status == 'not' and r['style'] != 'std':     # the standard TypedDict does not look into strings
                    x = repr('NotRequired[%s]' % x)
                else:
                    x = 'NotRequired[%r]' % x if status == 'not' else repr(x)
            elif status == 'not':
                x = 'NotRequired[%s]' % x
            fields.append((n, x))
        if r['style'] == 'func':
            out.append('%s = TypedDict(%r, {%s})' % (r['name'], r['name'], ', '.join('%r: %s' % f for f in fields)))
        else:
            base = list(r['bases']) or ['StdTypedDict' if r['style'] == 'std' else 'TypedDict']
            if r.get('generic'):
                base = base + ['Generic[T]'] if r['style'] == 'std' else ['Generic[T]', 'GenericTypedDict']
            tot = '' if r.get('total', True) else ', total=False'
            out.append('class %s(%s%s):' % (r['name'], ', '.join(base), tot))
            out.extend('    %s: %s' % f for f in fields)
            if not fields:
                out.append('    pass')
        defined.add(r['name'])
    return '\n'.join(out) + '\n' + tail


# ------------------------------------------------------------------ the reference

class Ref:
    """conforms(value, type) -> True, False, or None where the documentation leaves it open"""
    def __init__(self, env, ns):
        self.recs = {r['name']: r for r in env['recs']}
        self.enums = {e['name']: e for e in env['enums']}
        self.aliases = dict(env.get('aliases', ()))
        self.ns = ns

    def fields(self, name):
        """{field: (type, optional)} inherited ones first"""
        r = self.recs[name]
        res = {}
        for b in r['bases']:
            res.update(self.fields(b))
        for n, t, status in r['fields']:
            optional = status == 'not' or (r['style'] == 'std' and not r.get('total', True))
            if r['style'] != 'std' and has_none(t):
                optional = True
            res[n] = (t, optional)
        return res

    def conforms(self, v, t, tv=None):
        """tv: argument for the type parameter, None: any value"""
        k = t[0]
        if k == 'p':
            p = t[1]
            if isinstance(v, bool):
                return True if p == 'bool' else (False if p == 'str' else None)
            if p == 'int':
                return isinstance(v, int)
            if p == 'float':
                return isinstance(v, (int, float))
            return isinstance(v, {'str': str, 'bool': bool}[p])
        if k == 'any':
            return True
        if k == 'none':
            return v is None
        if k == 'bare':
            return isinstance(v, list if t[1] in ('list', 'List') else dict)
        if k == 'lit':
            return self.one_of(v, t[1])
        if k == 'enum':
            e = self.enums[t[1]]
            if isinstance(v, self.ns[t[1]]):
                return True
            return self.one_of(v, [x for _, x in e['items']])
        if k == 'list':
            if not isinstance(v, list):
                return False
            return conj(self.conforms(x, t[1], tv) for x in v)
        if k == 'dict':
            if not isinstance(v, dict):
                return False
            return conj([self.conforms(x, t[1], tv) for x in v.keys()] + [self.conforms(x, t[2], tv) for x in v.values()])
        if k == 'tup':
            if not isinstance(v, (list, tuple)) or len(v) != len(t[1]):
                return False
            return conj(self.conforms(x, y, tv) for x, y in zip(v, t[1]))
        if k == 'tupv':
            if not isinstance(v, (list, tuple)):
                return False
            return conj(self.conforms(x, t[1], tv) for x in v)
        if k == 'u':
            return disj(self.conforms(v, x, tv) for x in t[1])
        if k == 'tv':
            return True if tv is None else self.conforms(v, tv)
        if k == 'alias':
            return self.conforms(v, self.aliases[t[1]])
        if k == 'rec':
            r = self.record(v, t[1])
            if len(t) > 2 and r is not False:
                # left open whether arguments of generic records are considered
                return r if self.record(v, t[1], t[2]) else None
            return r
        raise ValueError(t)

    def record(self, v, name, tv=None):
        if not isinstance(v, dict):
            return False
        fs = self.fields(name)
        if any(x not in fs for x in v):
            return False
        if any(n not in v and not opt for n, (_, opt) in fs.items()):
            return False
        return conj(self.conforms(v[n], ft, tv) for n, (ft, _) in fs.items() if n in v)

    def one_of(self, v, values):
        same = [x for x in values if x == v]
        if any(type(x) is type(v) for x in same):
            return True
        return None if same else False


def conj(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def disj(xs):
    r = False
    for x in xs:
        if x is True:
            return True
        if x is None:
            r = None
    return r


def has_none(t):
    if t[0] == 'u':
        return any(has_none(x) for x in t[1])
    return t[0] == 'none'


# ------------------------------------------------------------------ values

class Weird:
    def __repr__(self):
        return '<Weird>'


class SubList(list):
    pass


class SubDict(dict):
    pass


class FillDict(dict):
    """supplies missing keys like collections.defaultdict"""
    def __missing__(self, key):
        self[key] = None
        return None


def decode(v, ns):
    if isinstance(v, list):
        k = v[0]
        if k == 'L':
            return [decode(x, ns) for x in v[1]]
        if k == 'T':
            return tuple(decode(x, ns) for x in v[1])
        if k == 'D':
            d = {decode(a, ns): decode(b, ns) for a, b in v[1]}
            return FillDict(d) if zlib.crc32(repr(v).encode()) % 5 == 0 else d
        if k == 'E':
            return ns[v[1]][v[2]]
        if k == 'F':
            return float(v[1])
        if k == 'X':
            return {'set': {1}, 'bytes': b'a', 'object': Weird(), 'type': int, 'complex': 1j, 'sublist': SubList(), 'subdict': SubDict(),
                    'func': len, 'frozenset': frozenset()}[v[1]]
        raise ValueError(v)
    return v


def hashable(v):
    return not isinstance(v, list) or v[0] in 'EF' or (v[0] == 'T' and all(map(hashable, v[1])))


class Values:
    """Generator of values for the types of an environment"""
    def __init__(self, s, env):
        self.s = s
        self.ref = Ref(env, {})
        self.env = env
        self.arg = []

    def random(self, depth=2):
        s = self.s
        k = s.i(12)
        if k < 7 or depth == 0:
            return s.pick(SCALARS)
        if k == 7:
            return ['L', [self.random(depth - 1) for _ in range(s.num(0, 2))]]
        if k == 8:
            return ['D', self.entries([(s.pick(FIELDS), self.random(depth - 1)) for _ in range(s.num(0, 3))])]
        if k == 9:
            return ['T', [self.random(depth - 1) for _ in range(s.num(0, 2))]]
        if k == 10 and self.env['enums']:
            e = s.pick(self.env['enums'])
            return ['E', e['name'], s.pick(e['items'])[0]]
        if k == 11:
            return ['F', s.pick(['nan', 'inf', '-inf', '-0.0'])]
        return ['X', s.pick(['set', 'bytes', 'object', 'type', 'complex', 'sublist', 'subdict', 'func', 'frozenset'])]

    @staticmethod
    def entries(pairs):
        res = []
        for k, v in pairs:
            if hashable(k) and not any(type(k) is type(x) and k == x or (not isinstance(k, list) and not isinstance(x, list) and k == x)
                                       for x, _ in res):
                res.append([k, v])
        return res

    def of(self, t, depth=5):
        """a conforming value (nearly always)"""
        self.left = 60
        return self.of_(t, depth)

    def of_(self, t, depth):
        s = self.s
        self.left -= 1
        if self.left < 0:
            depth = min(depth, 0)
            if self.left < -60:
                depth = -9
        k = t[0]
        if k == 'p':
            return {'int': lambda: s.pick([0, 1, -1, 3, 10 ** 20]),
                    'float': lambda: s.pick([0.0, 1.5, -2.25, 2, 1e300]),
                    'str': lambda: s.pick(['', 'a', 'b', '1', 'None']),
                    'bool': lambda: s.b(50)}[t[1]]()
        if k == 'any' or (k == 'tv' and not self.arg):
            return self.random()
        if k == 'tv':
            return self.of_(self.arg[-1], depth)
        if k == 'alias':
            return self.of_(self.ref.aliases[t[1]], depth)
        if k == 'none':
            return None
        if k == 'bare':
            return ['L', [self.random(1)]] if t[1] in ('list', 'List') else ['D', [['a', self.random(1)]]]
        if k == 'lit':
            return s.pick(t[1])
        if k == 'enum':
            e = self.ref.enums[t[1]]
            n, v = s.pick(e['items'])
            return ['E', t[1], n] if s.b(25) else v
        n = 0 if depth <= 0 else s.num(0, 3)
        if k in ('list', 'tupv'):
            tag = 'T' if k == 'tupv' and s.b(50) else 'L'
            return [tag, [self.of_(t[1], depth - 1) for _ in range(n)]]
        if k == 'dict':
            return ['D', self.entries([(self.of_(t[1], 0), self.of_(t[2], depth - 1)) for _ in range(n)])]
        if k == 'tup':
            return ['T' if s.b(50) else 'L', [self.of_(x, depth - 1) for x in t[1]]]
        if k == 'u':
            alts = t[1]
            if depth <= 0:
                alts = [x for x in alts if not refs(x)] or alts
            return self.of_(s.pick(alts), depth)
        if k == 'rec':
            items = []
            if depth < -3:
                return ['D', []]
            if len(t) > 2:
                self.arg.append(t[2])
                v = self.of_(t[:2], depth)
                self.arg.pop()
                return v
            for name, (ft, opt) in self.ref.fields(t[1]).items():
                if opt and (depth <= 0 or s.b(40)):
                    continue
                items.append([name, self.of_(ft, depth - 1)])
            if s.b(20):
                items = items[::-1]
            return ['D', items]
        raise ValueError(t)

    def mutate(self, v, t=None):
        """changes one place of v"""
        s = self.s
        places = []

        def walk(x, path):
            places.append(path)
            if isinstance(x, list) and x[0] in 'LT':
                for i, y in enumerate(x[1]):
                    walk(y, path + [('i', i)])
            elif isinstance(x, list) and x[0] == 'D':
                for i, (_, y) in enumerate(x[1]):
                    walk(y, path + [('d', i)])
        walk(v, [])
        # prefer deeper places
        path = max((s.pick(places), s.pick(places)), key=len) if s.b(60) else s.pick(places)

        def change(x):
            k = s.i(7)
            if isinstance(x, list) and x[0] in 'LT':
                xs = list(x[1])
                if k == 0 and xs:
                    xs.pop(s.i(len(xs)))
                    return [x[0], xs]
                if k == 1:
                    xs.insert(s.i(len(xs) + 1), self.random(1))
                    return [x[0], xs]
                if k == 2:
                    return ['T' if x[0] == 'L' else 'L', xs]
                if k == 3 and xs:
                    return xs[s.i(len(xs))]
            elif isinstance(x, list) and x[0] == 'D':
                xs = [list(p) for p in x[1]]
                if k in (0, 1) and xs:
                    xs.pop(s.i(len(xs)))
                    return ['D', xs]
                if k in (2, 3):
                    return ['D', self.entries(xs + [[s.pick(FIELDS), self.random(1)]])]
                if k == 4 and xs:
                    i = s.i(len(xs))
                    xs[i][0] = s.pick(FIELDS + [1, None, 'extra'])
                    return ['D', self.entries(xs)]
                if k == 5 and xs:
                    return xs[s.i(len(xs))][1]
            else:
                if k == 0:
                    return ['L', [x]]
                if k == 1 and isinstance(x, (int, float)) and not isinstance(x, bool):
                    return x + 1 if abs(x) < 1e15 else 0
                if k == 2:
                    return None
                if k == 3 and x is not None and not isinstance(x, list):
                    return str(x)
                if k in (4, 5) and isinstance(x, str):     # nearly the same string
                    return s.pick([x.strip(), x + ' ', ' ' + x, x.swapcase(), x[:-1], x + x, x + '\n'])
            return self.random(1)

        def rebuild(x, path):
            if not path:
                return change(x)
            kind, i = path[0]
            xs = [list(p) if kind == 'd' else p for p in x[1]]
            if kind == 'i':
                xs[i] = rebuild(xs[i], path[1:])
            else:
                xs[i][1] = rebuild(xs[i][1], path[1:])
            return [x[0], xs]
        return rebuild(v, path)


# ------------------------------------------------------------------ generation of types and environments

def gen_type(s, env_names, depth, nullable=True):
    """env_names: (enum names, record names, ...), names of generic records end in '[T]', of aliases in '='; 'T': the type parameter"""
    kinds = ['p', 'p', 'any', 'lit', 'none']
    more = list(env_names[2:])
    if more and s.b(30):
        n = s.pick(more)
        return ['tv'] if n == 'T' else ['alias', n[:-1]]
    if env_names[0]:
        kinds += ['enum']
    if env_names[1]:
        kinds += ['rec', 'rec', 'rec']
    if depth > 0:
        if depth >= 2:
            kinds = kinds[5:] + ['p']
        kinds += ['list', 'list', 'dict', 'tup', 'tupv', 'u', 'u', 'opt']
    else:
        kinds += ['bare']
    k = s.pick(kinds)
    if k == 'p':
        return ['p', s.pick(PRIMS)]
    if k in ('any', 'none'):
        return [k]
    if k == 'bare':
        return ['bare', s.pick(['list', 'dict', 'List', 'Dict'])]
    if k == 'lit':
        return ['lit', s.sample([1, 2, 0, 'a', 'b', '', True, 'None', -1, ' a', 'b ', 'B', '1', ' '], s.num(1, 3))]
    if k == 'enum':
        return ['enum', s.pick(env_names[0])]
    if k == 'rec':
        n = s.pick(env_names[1])
        if n.endswith('[T]'):
            t = ['rec', n[:-3]]
            if s.b(60):
                t.append(gen_type(s, [env_names[0], [x for x in env_names[1] if x[-1] != ']']], min(depth, 1)))
            return t
        return ['rec', n]
    how = s.i(2)
    if k == 'list':
        return ['list', gen_type(s, env_names, depth - 1), how]
    if k == 'dict':
        key = ['p', 'str'] if s.b(60) else s.pick([['p', 'int'], ['p', 'float'], ['lit', ['a', 'b']], ['any'],
                                                    ['u', [['p', 'str'], ['p', 'int']], 0], ['tup', [['p', 'int'], ['p', 'str']], 0]])
        return ['dict', key, gen_type(s, env_names, depth - 1), how]
    if k == 'tup':
        return ['tup', [gen_type(s, env_names, depth - 1) for _ in range(s.num(0, 3))], how]
    if k == 'tupv':
        return ['tupv', gen_type(s, env_names, depth - 1), how]
    if k == 'opt':
        t = gen_type(s, env_names, depth - 1)
        return ['u', [t, ['none']] if s.b(70) else [['none'], t], s.i(3)]
    return ['u', [gen_type(s, env_names, depth - 1) for _ in range(s.num(2, 4))], s.i(3)]


def gen_enum(s, name):
    kind = s.pick(['i', 's', 'm', 'S'])
    names = s.sample(['one', 'two', 'three', 'a', 'b'], s.num(1, 3))
    vals = {'i': [1, 2, 3, 0, -1], 's': ['one', 'a', '', 'x', 'b'], 'S': ['one', 'a', '', 'x', 'b'],
            'm': [2, 'a', 'x', 1.5, 3]}[kind]
    return {'name': name, 'kind': kind, 'items': [list(p) for p in zip(names, s.sample(vals, len(names)))]}


def env_names(env, aliases=True):
    res = [[e['name'] for e in env['enums']], [r['name'] + '[T]' * bool(r.get('generic')) for r in env['recs']]]
    return res + [n + '=' for n, _ in env.get('aliases', ())] * aliases


def gen_alias(s, names, env_names):
    """possibly recursive: within lists or dictionaries"""
    simple = lambda: gen_type(s, env_names, 1)
    inner = lambda: ['alias', s.pick(names)] if s.b(70) else simple()
    nested = lambda: s.pick([['list', inner(), s.i(2)], ['dict', ['p', 'str'], inner(), s.i(2)], ['tupv', inner(), s.i(2)],
                             ['list', ['u', [inner(), ['none']], s.i(3)], s.i(2)]])
    if s.b(25):
        return nested()
    alts = [nested() for _ in range(s.num(1, 2))] + [['p', s.pick(PRIMS)] for _ in range(s.num(0, 2))]
    return ['u', alts if len(alts) > 1 else alts + [['p', 'str']], 0]


def gen_env(s, recs=(0, 3), enums=(0, 1), fields=(0, 4), depth=3, styles=('std', 'shim', 'func'), names=None, extra=0):
    """extra: chance (percent) of generic records and aliases"""
    env = {'enums': [gen_enum(s, n) for n in s.sample(ENUMS, s.num(*enums))], 'recs': []}
    rnames = s.sample(names or NAMES, s.num(*recs))
    generic = set()
    anames = []
    if extra:
        generic = {n for n in rnames if s.b(extra)}
        anames = s.sample(['Json', 'Alias'], s.num(1, 2)) if s.b(extra) else []
    tnames = [[e['name'] for e in env['enums']], [n + '[T]' if n in generic else n for n in rnames]]
    if anames:
        env['aliases'] = [[n, gen_alias(s, anames, tnames)] for n in anames]
        tnames += [n + '=' for n in anames]
    family = s.b(50)     # one style of record classes per environment allows inheritance, otherwise mixed
    base_style = s.pick([x for x in styles])
    for n in rnames:
        style = base_style if family else s.pick(list(styles))
        if n in generic and style == 'func':
            style = 'shim'
        bases = []
        if style != 'func':
            cands = [r for r in env['recs'] if r['style'] == style or (style == 'shim' and r['style'] == 'func')]
            if cands and n not in generic and s.b(45):
                bases = [r['name'] for r in s.sample(cands, s.num(1, min(2, len(cands))))]
                known = {r['name']: r for r in env['recs']}

                def anc(x):
                    return {x}.union(*[anc(b) for b in known[x]['bases']]) if known[x]['bases'] else {x}
                if len(bases) == 2 and (bases[0] in anc(bases[1]) or bases[1] in anc(bases[0])):
                    bases = bases[:1]
                elif len(bases) == 2:
                    f1, f2 = Ref(env, {}).fields(bases[0]), Ref(env, {}).fields(bases[1])
                    if any(f1[x] != f2[x] for x in set(f1) & set(f2)):
                        bases = bases[:1]      # contradictory
        inherited = set()
        ref = Ref(env, {})
        for b in bases:
            inherited |= set(ref.fields(b))
        fs = []
        for fn in s.sample([x for x in FIELDS if x not in inherited], s.num(*fields)):
            t = gen_type(s, tnames + ['T'] * 3 * (n in generic), depth)
            fs.append([fn, t, 'not' if s.b(35) else 'req'])
        env['recs'].append({'name': n, 'bases': bases, 'fields': fs, 'style': style, 'whole': s.b(40),
                            'total': True if style != 'std' else not s.b(25)})
        if n in generic:
            env['recs'][-1]['generic'] = True
    return env


class Module:
    """The executed module of an environment; use as context manager."""
    n = 0

    def __init__(self, env, tail='', name=''):
        import sys
        import types
        Module.n += 1
        self.name = name or 'env_%d' % Module.n
        self.env = env
        self.text = module_text(env, tail)
        self.mod = types.ModuleType(self.name)
        self.ns = self.mod.__dict__
        self.sys = sys

    def __enter__(self):
        self.sys.modules[self.name] = self.mod
        from .core import fresh_typing
        fresh_typing()
        try:
            exec(compile(self.text, '<%s>' % self.name, 'exec', dont_inherit=True), self.ns)
        except BaseException:
            self.sys.modules.pop(self.name, None)
            print(self.text)
            raise
        self.ref = Ref(self.env, self.ns)
        return self

    def __exit__(self, *exc):
        self.sys.modules.pop(self.name, None)
        return False

    def current(self):
        """makes this the one of several modules of the same name that is imported"""
        self.sys.modules[self.name] = self.mod

    def type(self, t):
        return eval(expr(t), self.ns)

    def validate(self, v, typ):
        """True, False, or a description of an exception that must not occur"""
        try:
            self.ns['validate_type'](v, typ)
            return True
        except (TypeError, ValueError):
            return False
        except Exception as e:
            return '%s: %s' % (type(e).__name__, e)


def strategy(build):
    from hypothesis import strategies as st
    from .gen import Src

    @st.composite
    def cases(draw):
        return build(Src(draw))
    return cases()


def verdict(m, v, t, what=''):
    """Compares the outcome of validation with the reference."""
    from .core import Violation
    got = m.validate(v, m.type(t))
    want = m.ref.conforms(v, t)
    if got not in (True, False) or (want is not None and got != want):
        raise Violation('%svalue %r against %s: %s, but the value %s\n%s' % (
            what, v, expr(t), {True: 'accepted', False: 'rejected'}.get(got, got),
            {True: 'conforms', False: 'does not conform', None: 'must be accepted or rejected'}[want], m.text))
    return want


def kinds(t, out=None):
    """kinds of constructors in a type"""
    out = set() if out is None else out
    out.add(t[0])
    k = t[0]
    if k == 'rec' and len(t) > 2:
        out.add('generic')
        kinds(t[2], out)
    if k in ('list', 'tupv'):
        kinds(t[1], out)
    elif k == 'dict':
        kinds(t[1], out)
        kinds(t[2], out)
    elif k in ('tup', 'u'):
        for x in t[1]:
            kinds(x, out)
    return out
