"""C24: functions and methods keep their signatures."""
import inspect
import typing

from vf import compare, docs, gen as G, sut, tsmodel as M
from vf.core import Facet, Violation

TECHNIQUE = ('property-based testing: generated documents of functions, methods and overloads; the signatures of the executed module are compared with the '
             'declarations, overloads are looked up and called (Hypothesis)')
RULE = 'non-trivial: some function has two or more parameters or is overloaded'
ASSUMPTIONS = ['overloads differ in the class of their first parameter, which is not generic and not an array, tuple or index signature (Python dispatches on classes)',
               'overloads on records are looked up by class, not called: records are dictionaries at run time',
               'no function or parameter is called self or like a class that the annotations of its scope refer to']

ITER = '[Symbol.iterator]'


def pyname(n):
    return {'': '__call__', ITER: '__iter__'}.get(n) or M.pyname(n)


FUNC_NAMES = ['f', 'g', 'h', 'with', 'from', 'run', 'onDidChange', 'toString', 'valueOf', 'get', 'set_', 'name', 'has', 'delete', 'keys', 'exporter', 'newItem', 'functional',
              'is', 'then', 'staticF', 'declareIt', 'readonlyF', 'update', 'größe', '_p', 'lambda', 'import', 'apply', 'classify', 'typeOf', 'interfaceOf', 'enumOf']
PARAMS = ['a', 'b', 'c', 'x', 'name', 'from', 'options', 'lambda', 'kind', 'type', 'args', 'kwargs', 'readonlyP', 'is', 'in', 'größe', '_x', 'value', 'static', 'export', 'nullable',
          'stringP', 'numberOf', 'arg1', 'function', 'cls', 'key', 'newP', 'uri', 'def']
PRIM = {'string': ['str'], 'number': ['float'], 'boolean': ['bool'], 'integer': ['int']}
VALUES = {'str': 's', 'float': 1.5, 'bool': True, 'int': 7}

DATA = dict(depth=2, lib=5, funcs=True, anon_weight=1, keywords=True, unsupported=False)


def gen_arg(c, name, opt, depth=2):
    return {'n': name, 'o': opt, 't': None if c.s.b(6) else G.gen_type(c, depth, top=True)}


def gen_func(c, name, method, first=None):
    s = c.s
    names = [p for p in PARAMS]
    n = s.num(0, 4)
    if first is not None:
        n = max(1, n)
    n_opt = s.i(n + 1) if s.b(50) else 0
    args = []
    for i, p in enumerate(s.sample(names, n)):
        opt = i >= n - n_opt
        if i == 0 and first is not None:
            args.append({'n': p, 'o': False, 't': first})
        else:
            args.append(gen_arg(c, p, opt))
    if first is not None and args[0]['o']:
        args[0]['o'] = False
    tail = None
    if s.b(20):
        t = None
        if s.b(80):
            t = ['a', G.gen_type(c, 1, top=True), s.pick([0, 0, 0, 1])]
            if t[2] == 1 and not G.param_ok(t[1]):
                t[2] = 0
        tail = ['rest', t]
    return {'k': 'func', 'name': name, 'params': [], 'args': args, 'tail': tail, 'ret': None if s.b(10) else G.gen_type(c, 2, top=True),
            'opt': bool(method and name) and s.b(10), 'exp': s.b(40)}


def first_types(c, s, records, classes, enums):
    """first parameters of overloads: [(type, [python classes or names])], without overlap"""
    atoms = [['b', n] for n in PRIM] + [['r', n, []] for n in records + classes + enums if n not in c.params]
    atoms = s.shuffle(atoms)
    res = []
    for _ in range(s.num(2, 4)):
        if not atoms:
            break
        k = 2 if s.b(15) and len(atoms) > 1 else 1
        ts = [atoms.pop(0) for _ in range(k)]
        res.append(ts[0] if len(ts) == 1 else ['u', ts])
    return res


def gen_group(c, name, method, pools):
    """the declarations of one function: one or several overloads"""
    s = c.s
    params = []
    save = c.params
    res = []
    if s.b(35):
        for t in first_types(c, s, *pools):
            res.append(gen_func(c, name, method, t))
    else:
        if name and s.b(12):
            pool = [p for p in ['T', 'U', 'K', 'V'] if p not in save]
            if s.b(15):     # hide types of the document
                pool = [p for p in c.can_hide if p not in save] + ['Set', 'Dict']
            params = s.sample(pool, s.num(1, 2))
            c.params = save + params
        f = gen_func(c, name, method)
        f['params'] = params
        if params and s.b(30):
            f['bounds'] = G.gen_bounds(c, params)
        res = [f]
    c.params = save
    return res


def interleave(s, groups):
    """all members of all groups, in an order that keeps that of each group"""
    groups = [list(g) for g in groups if g]
    res = []
    while groups:
        i = s.i(len(groups)) if s.b(40) else 0
        res.append(groups[i].pop(0))
        if not groups[i]:
            groups.pop(i)
    return res


def build(s):
    f = dict(G.DEFAULTS)
    f.update(DATA)
    c = G.Ctx(s, f)
    pool = [n for n in G.TYPE_NAMES if n not in FUNC_NAMES and n not in ('self', 'cls')]
    names = s.sample(pool[:14] if s.b(70) else pool, s.num(1, 5))
    c.own = set(names)
    kinds = [(n, s.pick(['record', 'class', 'class', 'enum', 'box', 'record'])) for n in names]
    records = [n for n, k in kinds if k == 'record']
    classes = [n for n, k in kinds if k == 'class']
    enums = [n for n, k in kinds if k == 'enum']
    generic = {n: s.sample(['T', 'U'], s.num(1, 2)) for n in classes if s.b(15)}
    c.can_hide = [n for n, k in kinds if n not in generic]
    for n in generic:
        if s.b(15):
            generic[n] = s.sample(c.can_hide + ['Set', 'Dict', 'T'], s.num(1, 2))
    pools = (records, [n for n in classes if n not in generic], enums)
    for n, k in kinds:
        if k in ('record', 'class', 'enum'):
            c.tnames.append((n, len(generic.get(n, ())), 'iface' if k != 'enum' else 'enum'))
    decls = []
    done = []
    c.params = []
    for n, k in kinds:
        if k == 'record':
            decls.append({'k': 'iface', 'name': n, 'params': [], 'ext': [], 'fields': G.gen_fields(c, 1, 0, 2), 'exp': s.b(40), 'kw': 'interface'})
        elif k == 'enum':
            d = G.gen_enum(s, n)
            d['exp'] = s.b(40)
            decls.append(d)
        elif k == 'class':
            c.params = list(generic.get(n, ()))
            taken = FUNC_NAMES + ['T', 'U', 'K', 'V', 'self', 'cls'] + names + ['constructor']
            fields = [x for x in G.gen_fields(c, 1, 0, 2) if x['n'] not in taken and not hides(x['n'])]
            groups = [gen_group(c, m, True, pools) for m in s.sample([x for x in FUNC_NAMES if not hides(x)], s.num(0, 3))]
            if s.b(15):
                groups.append(gen_group(c, '', True, pools))       # call signature
            if s.b(8):
                f = gen_func(c, ITER, True)
                f.update(args=[], tail=None, opt=False, exp=False)
                groups.append([f])
            if s.b(12):
                groups.append([gen_func(c, 'constructor', True) for _ in range(s.num(1, 2))])
            if not any(groups):
                groups.append([gen_func(c, 'f', True)])
            ext = []
            if done and s.b(25):
                ext = [[b, []] for b in [s.pick(done)] if b not in generic.get(n, ())]
            decls.append({'k': 'iface', 'name': n, 'params': list(generic.get(n, ())), 'ext': ext, 'fields': fields, 'methods': interleave(s, groups),
                          'exp': s.b(40), 'kw': s.pick(['interface', 'interface', 'class']), 'mixed': [s.i(2) for _ in range(s.num(1, 5))] if s.b(60) else None})
            c.params = []
            if n not in generic:
                done.append(n)
        elif k == 'box':
            groups = [gen_group(c, m, False, pools) for m in s.sample([x for x in FUNC_NAMES if not hides(x)], s.num(1, 3))]
            decls.append({'k': 'box', 'name': n, 'decls': interleave(s, groups), 'exp': s.b(40)})
    groups = [gen_group(c, m, False, pools) for m in s.sample([x for x in FUNC_NAMES if not hides(x)], s.num(0, 3))]
    order = interleave(s, s.shuffle([decls] + groups))
    if s.b(40):
        anonymous_methods(c, order, pools)
    cfg = G.gen_cfg(s, generics=bool(generic))
    if cfg['RenderAnonymous'] == 'toplevel' and any(d['k'] == 'box' and G.has_anon(types_of(d)) for d in order):
        cfg['RenderAnonymous'] = 'local'      # known finding: mixed-ns-toplevel-anon
    return {'doc': order, 'cfg': cfg}


def types_of(d):
    if d['k'] == 'func':
        yield from M.func_types(d)
    elif d['k'] == 'box':
        for x in d['decls']:
            yield from types_of(x)
    else:
        yield from M.decl_types(d)
        for m in d.get('methods', ()):
            yield from M.func_types(m)


def anonymous_methods(c, doc, pools):
    """gives methods to some anonymous interfaces"""
    s = c.s
    c.params, c.anon_ok = [], False
    hidden = {p for d in doc for x in [d] + d.get('decls', []) + d.get('methods', []) for p in x.get('params', ())}
    pools = [[n for n in ns if n not in hidden] for ns in pools]
    c.tnames = [x for x in c.tnames if x[0] not in hidden]
    c.can_hide = []
    found = []
    for d in doc:
        for t in types_of(d):
            M.walk_types(t, lambda x: found.append(x) if x[0] == 'o' else None)
    for t in found:
        if s.b(40):
            taken = [f['n'] for f in t[1]]
            ms = s.sample([m for m in FUNC_NAMES + ['constructor'] if not hides(m) and m not in taken], s.num(1, 2))
            t.append(interleave(s, [gen_group(c, m, True, pools) for m in ms]))


def hides(n):
    return n in ('str', 'int', 'float', 'bool', 'list', 'dict', 'set', 'List', 'Dict', 'Any', 'Optional', 'Union', 'TypedDict')


# ---------------------------------------------------------------- text: methods may stand between fields

class Style(M.Style):
    pass


def render_doc(doc):
    return M.render(doc)


# ---------------------------------------------------------------- oracle

class Check:
    def __init__(self, case, g):
        self.doc, self.cfg, self.g = case['doc'], case['cfg'], g
        self.cmp = compare.Compare(flat(case['doc']), g, case['cfg'])
        self.cmp.members_of_anon = self.anonymous
        self.cmp.taken |= {x['name'] for d in case['doc'] for x in [d] + d.get('decls', [])}

    def fail(self, what):
        self.cmp.fail(what)

    def anonymous(self, t, env, cls):
        if len(t) > 2 and self.cfg.get('RenderAnonymous', 'local') != 'functional':    # known finding: functional drops methods
            try:
                self.functions(t[2], vars(cls), cls.__name__ + '.', cls, True, {**env})
            except Violation as e:
                return str(e)

    def run(self):
        top = [d for d in self.doc if d['k'] == 'func']
        self.functions(top, vars(self.g.mod), '', None)
        for d in self.doc:
            if d['k'] == 'box':
                ns = self.g.get(M.pyname(d['name']))
                self.functions(d['decls'], vars(ns), d['name'] + '.', ns)
            elif d['k'] == 'iface' and 'methods' in d:
                cls = self.g.get(M.pyname(d['name']))
                if not isinstance(cls, type):
                    self.fail('interface %s is rendered as %r' % (d['name'], cls))
                self.fields(d, cls)
                self.functions(d['methods'], vars(cls), d['name'] + '.', cls, 'class', {p: None for p in d['params']})
                self.inherited(d, cls)
            elif d['k'] == 'iface':
                self.cmp.interface(d)
            elif d['k'] == 'enum':
                self.cmp.members(d, [(i[0], i[1]) for i in d['items']])

    def fields(self, d, cls):
        ann = dict(cls.__dict__.get('__annotations__', {}))
        want = [M.pyname(f['n']) for f in d['fields']]
        if list(ann) != want:
            self.fail('fields of %s are %s instead of %s' % (d['name'], list(ann), want))
        env = {p: None for p in d['params']}
        for f in d['fields']:
            a = self.cmp.resolve(ann[M.pyname(f['n'])])
            if typing.get_origin(a) is typing.NotRequired:
                a = typing.get_args(a)[0]
            diff = self.cmp.same_type(f['t'] if f['t'] is not None else ['b', 'any'], env, a, also_none=f['o'] and self.cmp.legacy)
            if diff:
                self.fail('field %s of %s: %s' % (f['n'], d['name'], diff))

    def inherited(self, d, cls):
        for b, _ in d['ext']:
            base = self.g.get(M.pyname(b))
            if base not in cls.__mro__:
                self.fail('%s does not inherit from %s' % (d['name'], b))

    def functions(self, decls, ns, prefix, owner, method=False, env=None):
        groups = {}
        for d in decls:
            if not (d['name'] == 'constructor' and method == 'class'):     # known finding: constructors leave no trace
                groups.setdefault(d['name'], []).append(d)
        for name, ds in groups.items():
            n = pyname(name)
            if n not in ns:
                self.fail('%s%s is not defined' % (prefix, n))
            obj = ns[n]
            if len(ds) == 1:
                self.signature(ds[0], obj, prefix + n, method, env or {})
            else:
                self.overloads(ds, obj, prefix + n, method, env or {}, owner, n)

    def signature(self, d, obj, name, method, env):
        if isinstance(obj, (staticmethod, classmethod)):
            obj = obj.__func__
        if not callable(obj):
            self.fail('%s is rendered as %r' % (name, obj))
        env = dict(env)
        for p in d['params']:
            env[p] = None
        ps = list(inspect.signature(obj).parameters.values())
        if method:
            if not ps or ps[0].name != 'self':
                self.fail('method %s has no self: %s' % (name, ps))
            ps = ps[1:]
        want = [M.pyname(a['n']) for a in d['args']] + ([M.pyname(d['tail'][0])] if d['tail'] else [])
        if [p.name for p in ps] != want:
            self.fail('parameters of %s are %s instead of %s' % (name, [p.name for p in ps], want))
        for a, p in zip(d['args'], ps):
            if p.kind != p.POSITIONAL_OR_KEYWORD:
                self.fail('parameter %s of %s is %s' % (p.name, name, p.kind))
            if a['o'] != (p.default is not p.empty) or a['o'] and p.default is not None:
                self.fail('the default of parameter %s of %s is %r' % (p.name, name, p.default))
            if a['t'] is None:
                if p.annotation is not p.empty and p.annotation is not typing.Any:
                    self.fail('parameter %s of %s has type %s' % (p.name, name, p.annotation))
            else:
                self.type(a['t'], env, p.annotation, 'parameter %s of %s' % (p.name, name), a['o'])
        if d['tail']:
            p = ps[-1]
            if p.kind != p.VAR_POSITIONAL:
                self.fail('parameter %s of %s is not variadic' % (p.name, name))
            if d['tail'][1] is not None:
                self.type(d['tail'][1][1], env, p.annotation, 'parameter %s of %s' % (p.name, name))
            elif p.annotation is not p.empty and p.annotation is not typing.Any:
                self.fail('parameter %s of %s has type %s' % (p.name, name, p.annotation))
        r = inspect.signature(obj).return_annotation
        self.type(d['ret'] if d['ret'] is not None else ['b', 'any'], env, r, 'result of %s' % name)

    def type(self, t, env, ann, what, opt=False):
        if ann is inspect.Parameter.empty:
            self.fail('%s has no type' % what)
        diff = self.cmp.same_type(t, env, ann, also_none=opt)
        if diff:
            self.fail('%s: %s' % (what, diff))

    def classes(self, t):
        """the classes of the first parameter"""
        if t[0] == 'u':
            return [c for x in t[1] for c in self.classes(x)]
        if t[0] == 'b':
            return [{'str': str, 'float': float, 'bool': bool, 'int': int}[n] for n in PRIM[t[1]]]
        return [self.g.get(M.pyname(t[1]))]

    def value(self, cls):
        """an instance or None"""
        if cls in (str, float, bool, int):
            return VALUES[cls.__name__]
        if isinstance(cls, type) and issubclass(cls, dict) or typing.is_typeddict(cls):
            return None
        import enum
        if issubclass(cls, enum.Enum):
            return list(cls)[0]
        try:
            return cls()
        except TypeError:
            return None

    def overloads(self, ds, obj, name, method, env, owner, attr):
        if method or owner is not None:
            disp = getattr(obj, 'dispatcher', None)
            disp = disp or obj
        else:
            disp = obj
        if not hasattr(disp, 'dispatch'):
            self.fail('overloaded function %s is rendered as %r' % (name, obj))
        seen = []
        for i, d in enumerate(ds):
            for cls in self.classes(d['args'][0]['t']):
                try:
                    fn = disp.dispatch(cls)
                except Exception as e:
                    self.fail('overload %d of %s cannot be looked up by %s: %s: %s' % (i, name, cls, type(e).__name__, e))
                if any(f is fn for k, f in seen if k != i):
                    self.fail('overload %d of %s is the same as another one when looked up by %s' % (i, name, cls))
                seen.append((i, fn))
                self.signature(d, fn, '%s (overload %d, for %s)' % (name, i, cls), method, env)
                v = self.value(cls)
                if v is None:
                    continue
                args = [v] + [None] * sum(not a['o'] for a in d['args'][1:])
                if method:
                    if issubclass(owner, dict) or typing.is_typeddict(owner):
                        continue
                    target = getattr(owner(), attr)
                else:
                    target = getattr(owner, attr) if owner is not None else obj
                try:
                    target(*args)
                    target(*(args + [None] * sum(a['o'] for a in d['args']) + ([1, 2] if d['tail'] else [])))
                except Exception as e:
                    self.fail('overload %d of %s cannot be called with %r: %s: %s' % (i, name, args, type(e).__name__, e))


def flat(doc):
    """interfaces etc. only; what the comparison of types needs"""
    return [d for d in doc if d['k'] in ('iface', 'enum')]


def check(case):
    src = render_doc(case['doc'])
    code = sut.accept(src, case['cfg'])
    with sut.Gen(code, src=src) as g:
        Check(case, g).run()


def all_funcs(doc):
    for d in doc:
        if d['k'] == 'func':
            yield 'func', d
        elif d['k'] == 'box':
            for x in d['decls']:
                yield 'ns', x
        elif d['k'] == 'iface':
            for x in d.get('methods', ()):
                yield 'method' if x['name'] else 'call', x


def classify(case):
    ls, nt = set(), False
    names = {}
    for k, d in all_funcs(case['doc']):
        ls.add(k)
        ls.add('args:%d' % len(d['args']))
        if any(a['o'] for a in d['args']):
            ls.add('optional')
        if d['tail']:
            ls.add('tail' + (':Array' if d['tail'][1] and d['tail'][1][2] else ''))
        if d['params']:
            ls.add('generic')
        nt |= len(d['args']) > 1
        n = names[(k, d['name'])] = names.get((k, d['name']), 0) + 1
        if n > 1:
            ls.add('overloaded:' + k)
            nt = True
    return nt, sorted(ls)


def render(case):
    return 'options: %s\n%s' % (case['cfg'], render_doc(case['doc']))


FACETS = [
    Facet('signatures', lambda: docs.strategy(build), check, classify, 5000, 100000, render),
]
