"""JSON values for the interfaces of a document, and a predicate that tells which of them fit the definition.

The predicate looks only at the model of the TypeScript source. It returns True, False, or None where the
documentation of ts2python leaves the answer open.
"""
from . import tsmodel as M
from .compare import Side
from .pytypes import conj, disj

STRINGS = ['', 'a', 'b', 'A', '1', 'None', 'null', 'true', 'x y', 'ü', 'key']
SCALARS = [0, 1, -1, 2, 3, 42, 10 ** 20, 1.0, 0.0, 1.5, -2.25, 1e300, True, False, None] + STRINGS


class Ref:
    def __init__(self, doc, cfg):
        self.side = Side(doc, literals=True)
        self.cfg = cfg
        self.literals = bool(cfg.get('UseLiteralType'))
        self.legacy = not cfg.get('UseNotRequired')
        self.budget = 100000

    def fits(self, v, t, env=None):
        self.budget -= 1
        if self.budget < 0:
            return None
        return disj(self.atom(v, a) for a in self.side.atoms(t, env or {}))

    def atom(self, v, a):
        k = a[0]
        if k == 'none':
            return v is None
        if k == 'any':
            return True
        if k == 'tv':
            return None
        if k == 'prim':
            p = a[1]
            if p == 'str':
                return isinstance(v, str)
            if isinstance(v, bool):
                return True if p == 'bool' else None
            if p == 'bool':
                return False
            if p == 'float':
                return isinstance(v, (int, float))
            if isinstance(v, float):        # integer
                return None if v.is_integer() else False
            return isinstance(v, int)
        if k == 'lit':
            x = a[2]
            if type(v) is type(x) and v == x:
                return True
            if isinstance(v, (bool, int, float)) and isinstance(x, (bool, int, float)):
                if v == x:
                    return None
            if not self.literals and self.atom(v, ('prim', {str: 'str', bool: 'bool', int: 'int', float: 'float'}[type(x)])) is not False:
                return None      # without literal types only the type of the literal is known
            return False
        if k == 'enum':
            d = self.side.decl[a[1]]
            lits = [i[1] for i in d['items']] if d['k'] == 'enum' else [c[2] for c in d['consts']]
            r = False
            for lit in lits:
                if lit is None:
                    if isinstance(v, (int, float)) and not isinstance(v, bool):
                        r = None
                    elif isinstance(v, bool):
                        r = None
                    continue
                x = M.lit_value(lit)
                if x == v:
                    if type(x) is type(v):
                        return True
                    r = None
            return r
        if k == 'list':
            if not isinstance(v, list):
                return False
            return True if a[1] is None else conj(self.fits(x, a[1], a[2]) for x in v)
        if k == 'dict':
            if isinstance(v, list) and a[1] is None:
                return None       # `object` comprises arrays in TypeScript, but is rendered as dictionary
            if not isinstance(v, dict):
                return False
            if a[1] is None:
                return True
            vals = conj(self.fits(x, a[2], a[3]) for x in v.values())
            if not v or vals is False:
                return vals
            # names in JSON objects are always strings
            if any(x != ('prim', 'str') for x in self.side.atoms(a[1], a[3])):
                return None
            return vals
        if k == 'tup':
            if not isinstance(v, list) or len(v) != len(a[1]):
                return False
            return conj(self.fits(x, t, a[2]) for x, t in zip(v, a[1]))
        if k == 'anon':
            return self.record(v, [(f, a[2]) for f in a[1][1]])
        if k == 'rec':
            return self.iface(v, self.side.decl[a[1]])
        return None

    def iface_fields(self, d):
        return [(f, {p: None for p in o['params']}) for f, o in self.side.all_fields(d)]

    def iface(self, v, d):
        return self.record(v, self.iface_fields(d))

    def record(self, v, fields):
        if not isinstance(v, dict):
            return False
        names = {f['n'] for f, _ in fields}
        if any(n not in names for n in v):
            return False
        res = []
        for f, env in fields:
            t = f['t'] if f['t'] is not None else ['b', 'any']
            if f['n'] not in v:
                if not f['o']:
                    res.append(None if self.legacy and self.may_be_null(t, env) else False)
                continue
            r = self.fits(v[f['n']], t, env)
            if r is False and v[f['n']] is None and f['o'] and self.legacy:
                r = None
            res.append(r)
        return conj(res)

    def may_be_null(self, t, env):
        return any(x[0] == 'none' for x in self.side.atoms(t, env))


class Values:
    def __init__(self, s, doc):
        self.s = s
        self.ref = Ref(doc, {})
        self.names = sorted({f['n'] for d in doc if d['k'] == 'iface' for f in d['fields']}) + ['extra', 'a', '1']

    def random(self, depth=2):
        k = self.s.i(10)
        if k < 7 or depth == 0:
            return self.s.pick(SCALARS)
        if k < 9:
            return [self.random(depth - 1) for _ in range(self.s.num(0, 2))]
        return {self.s.pick(self.names): self.random(depth - 1) for _ in range(self.s.num(0, 2))}

    def iface(self, d):
        self.left = 80
        return self.record(self.ref.iface_fields(d), 4)

    def record(self, fields, depth):
        if depth < -3 or self.left < -80:
            return {}
        res = {}
        for f, env in fields:
            if f['o'] and (depth <= 0 or self.s.b(40)):
                continue
            t = f['t'] if f['t'] is not None else ['b', 'any']
            res[f['n']] = self.of(t, env, depth - 1)
        if self.s.b(15):
            res = dict(reversed(list(res.items())))
        return res

    def of(self, t, env, depth):
        s = self.s
        self.left -= 1
        if self.left < 0:
            depth = min(depth, 0)
        if depth < -6:
            return None
        atoms = self.ref.side.atoms(t, env)
        if depth <= 0:
            atoms = [a for a in atoms if a[0] not in ('rec', 'anon', 'list', 'dict', 'tup')] or atoms
        if not atoms:
            return None
        a = s.pick(atoms)
        k = a[0]
        if k == 'none':
            return None
        if k in ('any', 'tv', 'call', 'extern'):
            return self.random()
        if k == 'prim':
            p = a[1]
            if p == 'str':
                return s.pick(STRINGS)
            if p == 'bool':
                return s.b(50)
            return s.pick([0, 1, -1, 3, 10 ** 20] if p == 'int' else [0.0, 1.5, -2.25, 2, 1e300])
        if k == 'lit':
            return a[2]
        if k == 'enum':
            d = self.ref.side.decl[a[1]]
            lits = [i[1] for i in d['items']] if d['k'] == 'enum' else [c[2] for c in d['consts']]
            lit = s.pick(lits)
            return s.num(0, 3) if lit is None else M.lit_value(lit)
        n = 0 if depth <= 0 else s.num(0, 3)
        if k == 'list':
            return [self.random(1) if a[1] is None else self.of(a[1], a[2], depth - 1) for _ in range(n)]
        if k == 'dict':
            keys = s.sample(['k', 'a', '1', 'b c', ''], n)
            return {x: self.random(1) if a[1] is None else self.of(a[2], a[3], depth - 1) for x in keys}
        if k == 'tup':
            return [self.of(x, a[2], depth - 1) for x in a[1]]
        if k == 'anon':
            return self.record([(f, a[2]) for f in a[1][1]], depth)
        if k == 'rec':
            return self.record(self.ref.iface_fields(self.ref.side.decl[a[1]]), depth)
        raise ValueError(a)

    def mutate(self, v):
        """changes one place"""
        s = self.s
        places = []

        def walk(x, path):
            places.append(path)
            if isinstance(x, list):
                for i, y in enumerate(x):
                    walk(y, path + (i,))
            elif isinstance(x, dict):
                for n, y in x.items():
                    walk(y, path + (n,))
        walk(v, ())
        path = max((s.pick(places), s.pick(places)), key=len) if s.b(70) else s.pick(places)

        def change(x):
            k = s.i(6)
            if isinstance(x, list):
                if k == 0 and x:
                    i = s.i(len(x))
                    return x[:i] + x[i + 1:]
                if k in (1, 2):
                    i = s.i(len(x) + 1)
                    return x[:i] + [self.random(1) if k == 1 or not x else s.pick(x)] + x[i:]
                if k == 3 and x:
                    return s.pick(x)
                if k == 4:
                    return {str(i): y for i, y in enumerate(x)}
            elif isinstance(x, dict):
                names = list(x)
                if k in (0, 1) and x:
                    n = s.pick(names)
                    return {m: y for m, y in x.items() if m != n}
                if k == 2:
                    return dict(x, **{s.pick(self.names): self.random(1)})
                if k == 3 and x:
                    n, m = s.pick(names), s.pick(self.names)
                    return {m if y == n else y: x[y] for y in names if y == n or y != m}
                if k == 4 and x:
                    return x[s.pick(names)]
            else:
                if k == 0:
                    return [x]
                if k == 1:
                    return None
                if k == 2 and isinstance(x, (int, float)) and not isinstance(x, bool):
                    return x + 1 if abs(x) < 1e15 else 0
                if k == 3:
                    return str(x)
                if k == 4 and isinstance(x, int) and not isinstance(x, bool) and abs(x) < 1e15:
                    return x + 0.5
            return self.random(1)

        def rebuild(x, path):
            if not path:
                return change(x)
            x = list(x) if isinstance(x, list) else dict(x)
            x[path[0]] = rebuild(x[path[0]], path[1:])
            return x
        return rebuild(v, path)
