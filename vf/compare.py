"""Comparison of an executed generated module with the model of the document it was generated from."""
import collections
import collections.abc
import enum
import types
import typing

from . import tsmodel as M
from .core import Violation, HarnessError
from .sut import snippet

NoneType = type(None)
DEPTH = 12
BUDGET = 20000    # comparisons of types per document; what lies beyond is not compared
PRIMS = {str: 'str', int: 'int', float: 'float', bool: 'bool'}


LIB = {'Thenable': collections.abc.Coroutine, 'Error': Exception, 'RegExp': str, 'Uint32Array': list, 'IterableIterator': collections.abc.Iterator, 'Set': set}


INTEGER, ANY = ['b', 'integer'], ['b', 'any']
OPTIONAL_ANY = ['u', [ANY, ['b', 'null']]]    # results are remembered by the identity of types


class Side:
    """The document: names, fields and atoms of types."""
    def __init__(self, doc, literals=False):
        self.doc = doc
        self.literals = literals
        self.decl = {}
        self.order = []
        for d in doc:
            if 'name' in d and d['k'] != 'import':
                self.decl[d['name']] = d
                self.order.append(d['name'])

    def all_fields(self, d, seen=()):
        """[(field, declaring interface)] with inherited ones first"""
        res = collections.OrderedDict()
        for n, _ in d['ext']:
            b = self.decl.get(n)
            if b is not None and n not in seen:
                for f, o in self.all_fields(b, seen + (n,)):
                    res[f['n']] = (f, o)
        for f in d['fields']:
            res[f['n']] = (f, d)
        return list(res.values())

    def atoms(self, t, env, guard=()):
        """-> list of atoms; env maps type parameters to closures (type, env, guard) or None (variable)"""
        k = t[0]
        if k == 'b':
            p = M.BASIC[t[1]]
            if p is None:
                return [('none',)]
            if p == 'any':
                return [('any',)]
            if p == 'dict':
                return [('dict', None, None, env)]
            if p == 'list':
                return [('list', None, env)]
            return [('prim', p)]
        if k == 'r':
            n = t[1]
            if n in env:
                c = env[n]
                return [('tv', n)] if c is None else self.atoms(c[0], c[1], c[2])
            d = self.decl.get(n)
            if d is None and n in LIB:
                return [('list', INTEGER, {})] if n == 'Uint32Array' else [('prim', 'str')] if n == 'RegExp' else [('lib', LIB[n], tuple(t[2]), env)]
            if d is None:
                return [('extern', n)]
            if d['k'] == 'alias':
                if n in guard:
                    return []
                e = {p: (a, env, guard) for p, a in zip(d['params'], t[2])}
                return self.atoms(d['type'], e, guard + (n,))
            if d['k'] in ('enum', 'ns'):
                return [('enum', n)]
            return [('rec', n, tuple(t[2]), env)]
        if k == 'a':
            return [('list', t[1], env)]
        if k == 'u':
            res = []
            for x in t[1]:
                res.extend(self.atoms(x, env, guard))
            return res
        if k == 't':
            return [('tup', t[1], env)]
        if k == 'm':
            how = t[4] if len(t) > 4 else ''
            key = ANY if 'keyof' in how else t[1]
            return [('dict', OPTIONAL_ANY if '?' in how else key, t[2], env)]
        if k == 'o':
            return [('anon', t, env)]
        if k == 'l':
            lk, v = t[1]
            if self.literals:
                val = M.lit_value(t[1])
                return [('lit', type(val).__name__, val)]
            return [('prim', {'s': 'str', 'i': 'int', 'f': 'float', 'b': 'bool'}[lk])]
        if k == 'p':
            return self.atoms(t[1], env, guard)
        if k in 'xi':
            return [('any',)]
        if k == 'f':
            return [('call', t[1], t[2], env, len(t) > 3 and bool(t[3]) or any(len(x) > 2 and x[2] for x in t[1]))]
        raise HarnessError('type %r' % (t,))

    def nullable(self, t, env=None):
        return any(a[0] == 'none' for a in self.atoms(t, env or {}))


class Compare:
    """Compares the definitions of an executed module with those of the document.

    legacy: whether the NotRequired option was off (then optional fields also admit None, and the status of
    fields that are nullable but not optional is not determined)
    """
    members_of_anon = None      # further comparison of anonymous interfaces

    def __init__(self, doc, gen, cfg, types=True):
        self.cfg = cfg
        self.legacy = not cfg.get('UseNotRequired', False)
        self.side = Side(doc, bool(cfg.get('UseLiteralType')))
        self.gen = gen
        self.ns = gen.mod.__dict__
        self.anon = {}          # id(type of model) -> (type, {python class})
        self.by_class = {}      # id(python class) -> set of ids of anonymous types
        self.keep = []
        self.named = {}
        self.taken = {'Set', 'Dict'} | {x['name'] for d in doc for x in [d] + d.get('decls', []) if 'name' in x}
        for n in self.side.order:
            self.named[n] = None
        self.done = set()
        self.count = 0
        self.memo = {}
        self.types = types
        self.typeddict = cfg.get('BaseClassName', 'TypedDict') == 'TypedDict'

    def param(self, n):
        """the name of a type parameter in the document; those that hide a definition need another name in Python"""
        stub = n
        while stub.endswith('_') and stub not in self.taken:
            stub = stub[:-1]
        return stub if stub in self.taken else n

    def fail(self, msg):
        raise Violation('%s\noptions: %s\n%s\n--- from:\n%s' % (msg, self.cfg, snippet(self.gen.code), self.gen.src))

    # -- python side

    def resolve(self, ann, scope=None):
        for _ in range(20):
            if isinstance(ann, typing.ForwardRef):
                ann = ann.__forward_arg__
            if not isinstance(ann, str):
                return ann
            try:
                ann = eval(ann, self.ns)
            except Exception as e:
                self.fail('reference %r cannot be resolved: %s: %s' % (ann, type(e).__name__, e))
        self.fail('endless reference %r' % (ann,))

    def py_atoms(self, ann):
        ann = self.resolve(ann)
        if ann is None or ann is NoneType:
            return [('none',)]
        if ann is typing.Any:
            return [('any',)]
        if isinstance(ann, typing.TypeVar):
            return [('tv', self.param(ann.__name__))]
        origin = typing.get_origin(ann)
        args = typing.get_args(ann)
        if origin is typing.Union or origin is types.UnionType:
            res = []
            for a in args:
                res.extend(self.py_atoms(a))
            return res
        if origin is typing.Literal:
            return [('lit', type(a).__name__, a) for a in args]
        if ann is list or origin is list:
            return [('list', args[0] if args else None, bool(args))]
        if ann is dict or origin is dict:
            return [('dict', args[0], args[1], True) if args else ('dict', None, None, False)]
        if ann is tuple or origin is tuple:
            return [('tup', args if args != ((),) else ())]
        if origin is collections.abc.Callable:
            return [('call', args[0] if args else ..., args[1] if args else typing.Any)]
        if ann in (str, int, float, bool):
            return [('prim', PRIMS[ann])]
        if isinstance(ann, type):
            return [('cls', ann, ())]
        if isinstance(origin, type):
            return [('cls', origin, args)]
        return [('other', ann)]

    # -- matching

    def same_type(self, t, env, ann, depth=DEPTH, also_none=False):
        """None or a description of the difference"""
        self.count += 1
        if depth <= 0 or self.count > BUDGET:
            return None
        key = None
        try:
            key = (id(t), envkey(env), ann, also_none)
            hash(key)
        except TypeError:
            key = None
        if key is not None and key in self.memo:
            return self.memo[key]
        if key is not None:
            self.memo[key] = None      # taken for granted while it is being compared
            self.keep.append((t, env))  # their identities must not be given to others
        d = self.same_type_(t, env, ann, depth, also_none)
        if key is not None:
            self.memo[key] = d
        return d

    def same_type_(self, t, env, ann, depth, also_none):
        ts = self.side.atoms(t, env)
        py = self.py_atoms(ann)
        if also_none and not any(a[0] == 'none' for a in ts):
            ts = ts + [('none',)]
        last = None
        for a in ts:
            for p in py:
                d = self.same_atom(a, p, depth)
                if d is None:
                    break
                last = d
            else:
                return 'nothing in %s corresponds to %s%s' % (ann, show(a), ' (%s)' % last if last and len(py) == 1 else '')
        for p in py:
            if all(self.same_atom(a, p, depth) is not None for a in ts):
                return '%s has the alternative %s that the source has not' % (ann, p)
        return None

    def same_atom(self, a, p, depth):
        k = a[0]
        if k in ('none', 'any', 'prim', 'lit', 'tv'):
            return None if a == p else 'differs'
        if k == 'list':
            if p[0] != 'list':
                return 'not a list'
            if a[1] is None:
                return None if not p[2] else 'item type invented'
            if not p[2]:
                return 'item type lost'
            return self.same_type(a[1], a[2], p[1], depth - 1)
        if k == 'dict':
            if p[0] != 'dict':
                return 'not a dict'
            if a[1] is None:
                return None if not p[3] else 'types invented'
            if not p[3]:
                return 'types lost'
            return self.same_type(a[1], a[3], p[1], depth - 1) or self.same_type(a[2], a[3], p[2], depth - 1)
        if k == 'tup':
            if p[0] != 'tup':
                return 'not a tuple'
            if len(a[1]) != len(p[1]):
                return 'tuple of another length'
            for x, y in zip(a[1], p[1]):
                d = self.same_type(x, a[2], y, depth - 1)
                if d:
                    return d
            return None
        if k == 'call':
            if p[0] != 'call':
                return 'not a callable'
            if (p[1] is ...) != a[4] or p[1] is not ... and len(p[1]) != len(a[1]):
                return 'other parameters'    # optional parameters and tails cannot be expressed in Callable
            for x, y in zip(a[1], p[1] if p[1] is not ... else ()):
                d = self.same_type(x[1], a[3], y, depth - 1)
                if d:
                    return d
            return self.same_type(a[2], a[3], p[2], depth - 1)
        if k == 'rec':
            cls = self.ns.get(M.pyname(a[1]))
            if p[0] != 'cls' or p[1] is not cls:
                return 'another class'
            if len(a[2]) != len(p[2]) and not self.cfg.get('UseVariadicGenerics'):
                return 'other type arguments'
            for x, y in zip(a[2], p[2]):
                d = self.same_type(x, a[3], y, depth - 1)
                if d:
                    return d
            return None
        if k == 'lib':
            if p[0] != 'cls' or p[1] is not a[1]:
                return 'another class'
            if a[1] is collections.abc.Coroutine and not p[2] and all(x[0] == 'none' for x in self.side.atoms(a[2][0], a[3])):
                return None     # what does not return anything has no type argument
            if len(p[2]) != len(a[2]):
                return 'other type arguments'
            for x, y in zip(a[2], p[2]):
                d = self.same_type(x, a[3], y, depth - 1)
                if d:
                    return d
            return None
        if k == 'enum':
            return None if p[0] == 'cls' and p[1] is self.ns.get(M.pyname(a[1])) else 'another enumeration'
        if k == 'extern':
            return None if p[0] in ('cls', 'other') else 'not external'
        if k == 'anon':
            if p[0] != 'cls' or p[1] in LIB.values():
                return 'not a record'
            return self.same_anon(a[1], a[2], p[1], depth)
        raise HarnessError('atom %r' % (a,))

    def same_anon(self, t, env, cls, depth):
        for n in self.side.order:
            if self.ns.get(M.pyname(n)) is cls and self.side.decl[n]['k'] != 'alias':
                return 'named class %s' % n
        key = (id(t), id(cls))
        if key in self.done:
            return None
        d = self.same_fields([(f, None) for f in t[1]], {None: env}, cls, depth - 1)
        if d is None and self.members_of_anon is not None:
            d = self.members_of_anon(t, env, cls)
        if d is None:
            self.done.add(key)
            self.keep.append((t, cls))
            self.anon.setdefault(id(t), (t, {}))[1][id(cls)] = cls
            self.by_class.setdefault(id(cls), {})[id(t)] = t
        return d

    def annotations(self, cls):
        if self.typeddict:
            return dict(cls.__dict__.get('__annotations__', {}))
        res = {}
        for c in reversed(cls.__mro__):
            res.update(c.__dict__.get('__annotations__', {}))
        return res

    def same_fields(self, fields, envs, cls, depth):
        ann = self.annotations(cls)
        want = [M.pyname(f['n']) for f, _ in fields]
        if not self.typeddict:
            # the order of inherited fields follows the order of Python's base classes
            own = list(cls.__dict__.get('__annotations__', {}))
            mine = [M.pyname(f['n']) for f, o in fields if o is None or M.pyname(o['name']) == cls.__name__]
            if own != mine:
                return 'own fields of %s are %s instead of %s' % (cls.__qualname__, own, mine)
            if set(ann) == set(want):
                ann = {n: ann[n] for n in want}
        if list(ann) != want:
            return 'fields of %s are %s instead of %s' % (cls.__qualname__, list(ann), want)
        for f, owner in fields:
            n = M.pyname(f['n'])
            env = envs[owner['name'] if owner else None]
            t = f['t'] if f['t'] is not None else ANY
            a = self.resolve(ann[n])
            if typing.get_origin(a) is typing.NotRequired:
                if not f['o']:
                    return 'field %s of %s is marked as not required' % (n, cls.__qualname__)
                if self.legacy:
                    return 'NotRequired is used for %s' % n
                a = typing.get_args(a)[0]
            elif f['o'] and not self.legacy and self.typeddict:
                return 'field %s of %s is not marked as not required' % (n, cls.__qualname__)
            if self.typeddict:
                req, opt = cls.__required_keys__, cls.__optional_keys__
                if (n in req) == (n in opt):
                    return 'field %s of %s is both or neither required and optional' % (n, cls.__qualname__)
                if f['o'] and n not in opt:
                    return 'optional field %s of %s is required' % (n, cls.__qualname__)
                if not f['o'] and n not in req and not (self.legacy and self.side.nullable(t, env)):
                    return 'field %s of %s is not required' % (n, cls.__qualname__)
            d = self.same_type(t, env, a, depth, also_none=f['o'] and self.legacy) if self.types else None
            if d:
                return 'field %s of %s: %s' % (n, cls.__qualname__, d)
        if self.typeddict:
            extra = (set(cls.__required_keys__) | set(cls.__optional_keys__)) - set(want)
            if extra:
                return 'unknown keys %s of %s' % (sorted(extra), cls.__qualname__)
        return None

    # -- declarations

    def interface(self, d, holder=None):
        cls = self.gen.get(M.pyname(d['name'])) if holder is None else getattr(holder, M.pyname(d['name']), None)
        if not isinstance(cls, type):
            self.fail('interface %s is rendered as %r' % (d['name'], cls))
        if cls.__name__ != M.pyname(d['name']):
            self.fail('class of interface %s is called %s' % (d['name'], cls.__name__))
        fields = self.side.all_fields(d)
        envs = {}
        for f, o in fields:
            if o['name'] not in envs:
                envs[o['name']] = {p: None for p in o['params']}
        diff = self.same_fields(fields, envs, cls, DEPTH)
        if diff:
            self.fail(diff)
        return cls

    def alias(self, d):
        n = M.pyname(d['name'])
        v = self.gen.get(n)
        diff = self.same_type(d['type'], {p: None for p in d['params']}, v)
        if diff:
            self.fail('alias %s: %s' % (d['name'], diff))

    def members(self, d, items, holder=None):
        cls = self.gen.get(M.pyname(d['name'])) if holder is None else vars(holder).get(M.pyname(d['name']))
        enums = self.cfg.get('UseEnum', True) or d['k'] == 'ns'
        if enums:
            if not (isinstance(cls, type) and issubclass(cls, enum.Enum)):
                self.fail('%s is not rendered as enumeration' % d['name'])
            got = [(k, v.value) for k, v in cls.__members__.items()]
        else:
            got = [(k, v) for k, v in vars(cls).items() if not k.startswith('__')]
        outside = any(lit and lit[0] == 'id' and not any(n == lit[1] for n, _ in items) for _, lit in items)
        items = [(n, self.member_value(lit, items)) for n, lit in items]
        want = [M.pyname(n) for n, _ in items]
        if [k for k, _ in got] != want:
            self.fail('members of %s are %s instead of %s' % (d['name'], [k for k, _ in got], want))
        for (k, v), (n, lit) in zip(got, items):
            if lit is not None:
                val = M.lit_value(lit)
                if type(v) is not type(val) or v != val:
                    self.fail('value of %s.%s is %r instead of %r' % (d['name'], n, v, val))
        auto = [v for (k, v), (n, lit) in zip(got, items) if lit is None]
        if len(set(map(repr, auto))) != len(auto):
            self.fail('members of %s without values get the same value: %s' % (d['name'], auto))
        if enums:
            ints = all(lit is None or lit[0] == 'i' for _, lit in items)
            if issubclass(cls, enum.IntEnum) != ints and not (ints and outside):
                self.fail('%s is rendered as %s' % (d['name'], cls.__mro__[1]))

    def member_value(self, lit, items):
        """the literal that stands for the value of a member"""
        while lit is not None and lit[0] == 'id':
            inner = [x for n, x in items if n == lit[1]]
            lit = inner[0] if inner else self.side.decl[lit[1]]['val']
        return lit

    def const(self, d, holder=None):
        n = M.pyname(d['name'])
        ns = self.ns if holder is None else vars(holder)
        if d['val'] is not None:
            if n not in ns:
                self.fail('constant %s is not defined' % n)
            want = self.const_value(d)
            got = ns[n]
            if jrepr(got) != jrepr(want):
                self.fail('constant %s is %r instead of %r' % (n, got, want))
        if d['type'] is not None:
            ann = ns.get('__annotations__', {}) if holder is None else holder.__dict__.get('__annotations__', {})
            if n not in ann:
                self.fail('constant %s has no annotation' % n)
            diff = self.same_type(d['type'], {}, ann[n])
            if diff:
                self.fail('constant %s: %s' % (n, diff))

    def const_value(self, d):
        seen = 0
        while d['val'][0] == 'id' and seen < 50:
            d = self.side.decl[d['val'][1]]
            seen += 1
        return M.lit_value(d['val'])

    def box(self, d):
        cls = self.gen.get(M.pyname(d['name']))
        if not isinstance(cls, type):
            self.fail('namespace %s is rendered as %r' % (d['name'], cls))
        for x in d['decls']:
            n = M.pyname(x['name'])
            if x['k'] == 'iface':
                self.interface(x, cls)
            elif x['k'] == 'alias':
                if n not in vars(cls):
                    self.fail('%s.%s is not defined' % (d['name'], n))
                diff = self.same_type(x['type'], {p: None for p in x['params']}, vars(cls)[n])
                if diff:
                    self.fail('alias %s: %s' % (n, diff))
            elif x['k'] == 'const':
                self.const(x, cls)
            elif x['k'] == 'enum':
                self.members(x, [(i[0], i[1]) for i in x['items']], cls)

    def document(self, only=None):
        for d in self.side.doc:
            k = d['k']
            if only and k not in only:
                continue
            if k == 'iface':
                self.interface(d)
            elif k == 'alias':
                self.alias(d)
            elif k == 'enum':
                self.members(d, [(i[0], i[1]) for i in d['items']])
            elif k == 'ns':
                self.members(d, [(c[0], c[2]) for c in d['consts']])
            elif k == 'const':
                self.const(d)
            elif k == 'box':
                self.box(d)
        return self


def jrepr(v):
    return repr(v)


def show(a):
    if a[0] == 'anon':
        return 'record with fields %s' % [f['n'] for f in a[1][1]]
    return str(a[:3])


def envkey(env, depth=4):
    if not env:
        return ()
    if depth == 0:
        raise TypeError
    return tuple((p, None if c is None else (id(c[0]), envkey(c[1], depth - 1))) for p, c in sorted(env.items()))
