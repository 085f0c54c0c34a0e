"""Hypothesis generators for the models of tsmodel."""
import copy
import keyword

from hypothesis import strategies as st

from . import tsmodel as M

# names ---------------------------------------------------------------

TYPE_NAMES = ['A', 'B', 'C', 'D', 'Item', 'Error', 'Node', 'Range', 'Position', 'DocumentUri', 'Wörter', 'X_0', 'B_0', 'A_X_0', 'F_1',
              'A_0', 'C_0_0', 'Exported', 'exportX', 'interfaceX', 'Interface', 'typeX', 'enumX', 'Enumeration', 'namespaceX',
              'constX', 'stringX', 'String_', 'numberX', 'booleanX', 'nullX', 'anyX', 'objectX', 'arrayX', 'ArrayX', 'voidX',
              'unknownX', 'integerX', 'trueX', 'falseX', 'readonlyX', 'keyofX', 'newX', 'importX', 'declareX', 'classX',
              'extendsX', 'implementsX', 'Nonesuch', 'NoneX', 'UnionX', 'ListOf', 'OptionalX', 'LiteralX', 'TypedDictX', 'DictX',
              'lower', 'x', 'a', 'name', 'pass', 'lambda', 'def', 'is', 'not', 'del', 'global', 'nonlocal', 'elif', 'raise',
              'except', 'assert', 'and', 'or', 'Ünion', 'Q', 'R', 'S9', 'L1_', '_private', 'ABC', 'Any_', 'self', 'cls',
              'Self', 'Point2D', 'T_', 'T0', 'Ta', 'Import', 'Class', 'Yield', 'Pass', 'Is', 'With', 'None', 'True', 'Async', 'Lambda', 'CLASS',
              'RegExp', 'Thenable', 'IterableIterator', 'Uint32Array']
FIELD_NAMES = ['a', 'b', 'c', 'd', 'id', 'name', 'kind', 'type', 'value', 'range', 'x_0', 'x', 'f', 'f_0', 'A', 'B', 'X_0', 'A_0', 'F_1',
               'readonly', 'readonlyX', 'static', 'staticX', 'let', 'letter', 'var', 'variable', 'export', 'exported', 'function',
               'functions', 'interface', 'interfaceX', 'class', 'className', 'string', 'number', 'object', 'any', 'null', 'nullable',
               'trueX', 'falseX', 'constant', 'enum', 'enumX', 'new', 'newName', 'import', 'importX', 'from', 'fromX', 'in', 'inner',
               'is', 'not', 'def', 'default', 'pass', 'lambda', 'global', 'keys', 'items', 'values', 'get', 'pop', 'update',
               'str', 'int', 'list', 'dict', 'set', 'float', 'Any', 'List', 'Optional', 'Union', 'TypedDict', 'self', 'cls', 'Größe',
               'keyof', 'extends', 'extendsX', '_under', 'u_', 'UPPER', 'camelCase', 'with', 'yield', 'async', 'await', 'namespace',
               'module', 'declare', 'symbol', 'constructor', 'f1', 'L1', 'match', 'case', 'print', 'total', 'as', 'of', 'get_',
               'setX', 'infer', 'asserts', 'type_', 'string_', 'T', 'U', 'None', 'True', 'False', 'Import', 'Class', 'In', 'none', 'IF', 'If']
MEMBER_NAMES = ['a', 'b', 'c', 'Error', 'Warning', 'Info', 'A', 'B', 'x_0', 'None', 'from', 'class', 'import', 'pass', 'in', 'lambda',
                'name', 'value', 'auto', 'enum', 'str', 'int', 'trueX', 'falseX', 'Größe', 'constX', 'exportX', 'readonlyX', 'letX', 'UPPER',
                'camelCase', 'm1', 'm2', 'stringX', 'interfaceX', 'Enum', 'IntEnum', 'items', 'list', 'typeX', 'values', 'keys', 'def', 'Z',
                'declareX', 'functionX', 'numberX', 'namespaceX', 'u_', 'V', 'W', 'X', 'Y', 'True', 'False',
                'Import', 'Class', 'none', 'Is', 'ELSE']
ARG_NAMES = ['a', 'b', 'x', 'cb', 'A1', 'Event', 'größe', '_', 'from', 'T0']
PARAM_NAMES = ['T', 'U', 'K', 'V1', 'TKey', 'Tü', 'P', 'S_T']
KNAMES = ['key', 'k', 'uri', 'id', 'index', 'in_', 'keyX', 'name', 'readonlyK', 'type']


def distinct(names):
    """drops names that collide after the mangling of Python keywords"""
    seen, res = set(), []
    for n in names:
        p = M.pyname(n)
        if p not in seen:
            seen.add(p)
            res.append(n)
    return res


TYPE_NAMES, FIELD_NAMES, MEMBER_NAMES = map(distinct, (TYPE_NAMES, FIELD_NAMES, MEMBER_NAMES))


def set_reserved(names):
    """Names of the generated module's preamble cannot be used for declarations."""
    names = set(names)
    TYPE_NAMES[:] = [n for n in TYPE_NAMES if n not in names]
    PARAM_NAMES[:] = [n for n in PARAM_NAMES if n not in names]


class Src:
    """Draws small decisions; the first alternative is what shrinking tends to."""
    def __init__(self, draw):
        self.draw = draw

    def i(self, n):
        return 0 if n <= 1 else self.draw(_ints(n))

    def b(self, percent):
        """True with about the given probability; shrinks to False"""
        return self.draw(_ints(100)) >= 100 - percent

    def pick(self, seq):
        return seq[self.i(len(seq))]

    def sample(self, seq, n):
        """n distinct elements"""
        rest = list(seq)
        return [rest.pop(self.i(len(rest))) for _ in range(min(n, len(rest)))]

    def num(self, lo, hi):
        return lo + self.i(hi - lo + 1)

    def shuffle(self, seq):
        return self.sample(seq, len(seq))


_cache = {}


def _ints(n):
    s = _cache.get(n)
    if s is None:
        s = _cache[n] = st.integers(0, n - 1)
    return s


# literals --------------------------------------------------------------

STRINGS = ['a', 'b', 'x y', '', 'A', 'B', 'Item', 'A | B', 'None', 'List', 'List[A]', 'def', 'create', '1', 'a, b', '[x]', '{a}', ';', 'export',
           'a.b/c', 'it"s', "don't", 'ü', '#no', '%s', '{', '}', '(', 'Union[A, B]', 'Optional', 'TypedDict(', "T", 'true', 'x_0', '*', '-',
           '/ /', '=', 'class A:', 'pass', '->', ' lead', 'trail ', 'None]', "Literal['q']", '$', '€', '日本', 'a  b', '\t', '//', '/* x */', 'http://x', 'C:\\Users\\Name',
           '\\', 'a\nb', "\"'", '\\u{41}', 'a\\']
CHARS = 'abXY  \t#|[]{}()<>,.:;\'"/*%$=&!?@~^`+-_019ü日adNUux\\\\\n\r\x00\x7f😀'
INTS = [0, 1, 2, 3, 7, 42, 100, 65535, 123456789012, -1, -2, -32700]
FLOATS = ['1.5', '0.5', '-2.25', '1e3', '2E-2', '3.0', '10.75e+2', '-0.5']


def text(s):
    if not s.b(25):
        return s.pick(STRINGS)
    return ''.join(s.pick(CHARS) for _ in range(s.num(1, 8)))


def digits(s, lo, hi):
    return ''.join(s.pick('0123456789') for _ in range(s.num(lo, hi)))


def whole(s):
    return int(digits(s, 1, 17)) * s.pick([1, -1]) if s.b(20) else s.pick(INTS)


def fraction(s):
    if not s.b(30):
        return s.pick(FLOATS)
    t = s.pick(['', '', '-']) + str(int(digits(s, 1, 4))) + '.' + digits(s, 1, 12)
    return t + s.pick(['e', 'E']) + s.pick(['', '+', '-']) + digits(s, 1, 2) if s.b(25) else t


def literal(s, kinds='sib'):
    k = s.pick(kinds)
    if k == 's':
        return ['s', text(s)]
    if k == 'i':
        return ['i', whole(s)]
    if k == 'f':
        return ['f', fraction(s)]
    if k == 'b':
        return ['b', s.b(50)]
    if k == 'a':
        return ['a', [literal(s, kinds.replace('d', '') if s.b(70) else 'si') for _ in range(s.i(3))]]
    if k == 'd':
        return ['d', [[n, literal(s, 'sib')] for n in s.sample(['a', 'b', 'key', 'x1', '"q"'], s.num(1, 2))]]
    raise ValueError(k)


# types -----------------------------------------------------------------

DEFAULTS = dict(
    basics=['string', 'number', 'boolean', 'integer', 'uinteger', 'null', 'any', 'unknown', 'object', 'undefined', 'decimal', 'array', 'void'],
    generics=True, anon=True, literals='ssiibf', maps=True, tuples=True, unsupported=False, funcs=False, keywords=True,
    enums=True, ns=True, consts=True, boxes=False, imports=False, arrays=True, unions=True, extends=True,
    decls=(1, 5), fields=(0, 4), depth=3, anon_fields=(0, 3), untyped=True, modifiers=True, classes=True, export=None,
    anon_in_generics=True, sep=True, forward_ext=False, namesake=False, empty_enum=False, alias_forward=True, names=None,
    field_names=None, nullable=True, optional=40, generic_ext=True, maps_keys=True, mapped=True, bounds=True, modules=False, anon_weight=2, generic_p=25, back_only=False,
    lib=0)


class Ctx:
    def __init__(self, s, f):
        self.s, self.f = s, f
        self.tnames = []      # (name, arity, kind) of declared types
        self.own = set()      # names of all types of the document
        self.params = []      # type parameters in scope
        self.anon_ok = f['anon']
        self.done = set()     # declarations that are complete

    def types(self):
        """the declared types that are not hidden by type parameters"""
        return [x for x in self.tnames if x[0] not in self.params]


# classes of JavaScript's and VSCode's library and the numbers of their type parameters
LIB = [('Thenable', 1), ('Error', 0), ('RegExp', 0), ('Uint32Array', 0), ('IterableIterator', 1), ('Set', 1), ('Thenable', 1)]


def param_ok(t):
    k = t[0]
    if k == 'u':
        return all(x[0] != 'u' and param_ok(x) for x in t[1])
    return k in 'bratoi'


def gen_type(c, depth, top=False, param=False):
    """a type; param: must be possible as type argument"""
    s, f = c.s, c.f
    kinds = ['b', 'b', 'r']
    if depth > 0:
        if f['arrays']:
            kinds += ['a', 'a']
        if f['unions'] and not (param and not top):
            kinds += ['u', 'u', 'n'] if f['nullable'] else ['u', 'u']
        if f['tuples']:
            kinds.append('t')
        if c.anon_ok:
            kinds += ['o'] * f['anon_weight']
        if not param:
            if f['maps']:
                kinds.append('m')
            if f['unsupported']:
                kinds += ['x', 'i']
            if f['funcs']:
                kinds.append('f')
            if s.b(5):
                kinds = ['p']
    if f['literals'] and not param:
        kinds += ['l', 'l']
    if c.params:
        kinds += ['v', 'v']
    if f['generics'] and depth > 0:
        kinds.append('g')
    if f['lib'] and s.b(f['lib']):
        n, ar = s.pick(LIB)
        if n not in c.own and n not in c.params and (ar == 0 or depth > 0):
            return ['r', n, [gen_type(c, depth - 1, param=True, top=True) for _ in range(ar)]]
    k = s.pick(kinds)
    if k == 'b':
        return ['b', s.pick(f['basics'])]
    if k == 'v':
        return ['r', s.pick(c.params), []]
    if k == 'r':
        names = [n for n, ar, _ in c.types() if ar == 0 and (not f['back_only'] or n in c.done)]
        return ['r', s.pick(names), []] if names else ['b', s.pick(f['basics'])]
    if k == 'g':
        gs = [(n, ar) for n, ar, _ in c.types() if ar > 0 and (not f['back_only'] or n in c.done)]
        if not gs:
            return ['b', s.pick(f['basics'])]
        n, ar = s.pick(gs)
        save = c.anon_ok
        if n not in c.done:
            c.anon_ok = False    # known finding: anonymous interface as argument of a generic defined later
        args = [gen_type(c, depth - 1, param=True, top=True) for _ in range(ar)]
        c.anon_ok = save
        return ['r', n, args]
    if k == 'a':
        inner = gen_type(c, depth - 1, top=True)
        how = s.pick([0, 0, 0, 1, 2, 3]) if f['modifiers'] else s.pick([0, 0, 1])
        if how in (1, 3) and not param_ok(inner):
            how = 0
        return ['a', inner, how]
    if k == 'u':
        return ['u', [gen_type(c, depth - 1, param=param) for _ in range(s.num(2, 4))]]
    if k == 'n':
        alts = [gen_type(c, depth - 1, param=param), ['b', s.pick(['null', 'undefined'])]]
        return ['u', alts if s.b(70) else alts[::-1]]
    if k == 't':
        if s.b(15):     # all alike
            t = gen_type(c, depth - 1, top=True)
            return ['t', [copy.deepcopy(t) for _ in range(s.num(2, 5))]]
        return ['t', [gen_type(c, depth - 1, top=True) for _ in range(s.num(1, 3))]]
    if k == 'm':
        key = ['b', 'string']
        if f['maps_keys'] and s.b(30):
            key = ['b', s.pick(['number', 'integer', 'string'])]
        t = ['m', key, gen_type(c, depth - 1, top=True), s.pick(KNAMES)]
        if f['mapped'] and s.b(15):
            names = [n for n, ar, kd in c.types() if ar == 0 and kd in ('enum', 'alias', 'iface') and (not f['back_only'] or n in c.done)]
            if names:
                t[1] = ['r', s.pick(names), []]
            how = s.pick(['in keyof', 'in keyof', 'in keyof ?']) if f['unsupported'] and s.b(60) else 'in'
            t.append(how)
        return t
    if k == 'o':
        return ['o', gen_fields(c, depth - 1, *f['anon_fields'])]
    if k == 'l':
        return ['l', literal(s, f['literals'])]
    if k == 'p':
        return ['p', gen_type(c, depth - 1, top=True)]
    if k == 'x':
        return ['x', gen_type(c, 0), gen_type(c, 0)]
    if k == 'i':
        names = [n for n, ar, kd in c.types() if ar == 0 and kd == 'iface']
        return ['i', s.pick(names), s.pick(FIELD_NAMES)] if names else ['b', 'any']
    if k == 'f':
        t = ['f', [[n, gen_type(c, depth - 1)] for n in s.sample(ARG_NAMES, s.i(3))], gen_type(c, depth - 1)]
        for a in t[1]:
            if s.b(15):
                a[1] = ['b', 'any', 'bare']
        if s.b(25) and t[1]:
            for a in t[1][s.i(len(t[1])):]:
                a.append(True)
        if s.b(15):
            t.append([s.pick(['rest', 'args', 'c']), gen_type(c, depth - 1)])
        return t
    raise ValueError(k)


def gen_fields(c, depth, lo, hi, exclude=()):
    s, f = c.s, c.f
    n = s.num(lo, hi)
    pool = [x for x in (f['field_names'] or FIELD_NAMES) if x not in exclude]
    if not f['keywords']:
        pool = [x for x in pool if not keyword.iskeyword(x)]
    if not s.b(35):
        pool = pool[:12]       # often the same few names, so that clashes occur
    res = []
    for name in s.sample(pool, n):
        opt = s.b(f['optional'])
        t = None if (f['untyped'] and s.b(6)) else gen_type(c, depth, top=True)
        q = []
        if f['modifiers'] and s.b(15):
            q = s.pick([['readonly'], ['readonly'], ['static'], ['static', 'readonly'], ['readonly', 'static']])
        res.append({'n': name, 'o': opt, 'q': q, 't': t})
    return res


def gen_params(s, names):
    """type parameters; some hide a type of the document or one of the names that the generated module imports"""
    if s.b(15):
        return s.sample(sorted(set(names[:3]) | {'Set', 'T', 'Dict', 'U'}), s.num(1, 2))
    return s.sample([p for p in PARAM_NAMES if p not in names], s.num(1, 2))


def params_in_order(t, params):
    """type parameters in the order of their first appearance in t"""
    res = []

    def visit(x):
        if x[0] == 'r' and x[1] in params and x[1] not in res:
            res.append(x[1])
    M.walk_types(t, visit)
    return res


def direct_vars_only(t, params):
    if t[0] == 'u':
        return all(direct_vars_only(x, params) for x in t[1])
    if t[0] == 'p':
        return direct_vars_only(t[1], params)
    return t[0] == 'r' and t[1] in params


def gen_doc(s, feat=None):
    """A list of declarations."""
    f = dict(DEFAULTS)
    f.update(feat or {})
    c = Ctx(s, f)
    kinds = ['iface'] * 4 + ['alias'] * 3
    if f['enums']:
        kinds.append('enum')
    if f['ns']:
        kinds.append('ns')
    if f['consts']:
        kinds.append('const')
    if f['boxes']:
        kinds.append('box')
    n = s.num(*f['decls'])
    pool = f['names'] or TYPE_NAMES
    if not f['keywords']:
        pool = [x for x in pool if not keyword.iskeyword(x)]
    if not s.b(40):
        pool = pool[:16]
    names = s.sample(pool, n)
    heads = []
    for name in names:
        k = s.pick(kinds)
        params = []
        if f['generics'] and k in ('iface', 'alias') and s.b(f['generic_p']):
            params = gen_params(s, names)
        heads.append((k, name, params))
        if k in ('iface', 'alias', 'enum', 'ns') and not params:
            c.tnames.append((name, 0, k))
    c.own = set(names)
    # generic declarations are added one by one, because the arity of aliases follows from their type
    ifaces = {}
    doc = []
    alias_used = {}
    for k, name, params in heads:
        if k == 'iface' and params:
            c.tnames.append((name, len(params), k))
    consts = []
    for pos, (k, name, params) in enumerate(heads):
        exp = s.b(50) if f['export'] is None else f['export']
        if k == 'iface':
            c.params = list(params)
            c.anon_ok = f['anon'] and (f['anon_in_generics'] or not params)
            ext, inherited = [], {}
            if f['extends'] and ifaces and s.b(45):
                for b in s.sample(sorted(x for x in ifaces if x not in params) or [name], s.num(1, 2)):
                    if b not in ifaces:
                        continue
                    bd = ifaces[b]
                    if bd['params'] and not f['generic_ext']:
                        continue
                    if any(x in inherited and inherited[x] != v for x, v in bd['all'].items()):
                        continue
                    if any(b in ifaces[e[0]]['anc'] or e[0] in bd['anc'] for e in ext):
                        continue
                    save, c.anon_ok = c.anon_ok, False
                    args = [gen_type(c, 1, param=True, top=True) for _ in bd['params']]
                    c.anon_ok = save
                    ext.append([b, args])
                    inherited.update(bd['all'])
            # conflicting redeclarations are not valid TypeScript
            fields = gen_fields(c, f['depth'], *f['fields'], exclude=set(inherited))
            d = {'k': 'iface', 'name': name, 'params': list(params), 'ext': ext, 'fields': fields, 'exp': exp,
                 'kw': 'class' if (f['classes'] and s.b(8)) else 'interface'}
            if d['kw'] == 'class' and s.b(40):
                d['impl'] = True
            alln = dict(inherited)
            alln.update({x['n']: name for x in fields})
            anc = {name}
            for e in ext:
                anc |= ifaces[e[0]]['anc']
            ifaces[name] = dict(all=alln, params=params, anc=anc)
        elif k == 'alias':
            c.params = list(params)
            c.anon_ok = f['anon'] and not params
            save = c.tnames
            # an alias may refer to itself, but only inside of containers, see break_alias_cycles
            # known finding: arguments of generic aliases that refer to themselves are not replaced
            if params:
                c.tnames = [x for x in save if x[0] != name]
                g = dict(f, unsupported=False, funcs=False)
                c.f = g
                # known finding: an alias of a generic that is defined later cannot be specialised
                c.tnames = [x for x in c.tnames if x[1] == 0 or x[0] in c.done]
            t = gen_type(c, f['depth'], top=True)
            c.f = f
            params = params_in_order(t, params)
            if len(params) == 1 and direct_vars_only(t, params):
                t = ['a', t, 0]     # a mere synonym of its parameter cannot be specialised in Python
            d = {'k': 'alias', 'name': name, 'params': params, 'type': t, 'exp': exp}
            c.tnames = save
            if params:
                c.tnames = c.tnames + [(name, len(params), 'alias')]
            elif not any(x[0] == name for x in c.tnames):
                c.tnames = c.tnames + [(name, 0, 'alias')]
        elif k == 'enum':
            d = gen_enum(s, name)
            d['exp'] = exp
        elif k == 'ns':
            d = gen_ns(s, name)
            d['exp'] = exp
        elif k == 'const':
            c.params = []
            c.anon_ok = f['anon']
            d = gen_const(c, name, consts)
            d['exp'] = exp
        else:
            d = gen_box(c, name)
            d['exp'] = exp
        if f['bounds'] and d.get('params') and s.b(25):
            d['bounds'] = gen_bounds(c, d['params'])
        doc.append(d)
        c.done.add(name)
    break_alias_cycles(doc)
    if f['modules'] and s.b(15):
        i = s.i(len(doc) + 1)
        k = i + s.i(len(doc) + 1 - i)
        doc.insert(k, {'k': 'close'})
        doc.insert(i, {'k': 'open', 'mod': s.pick(['vscode', 'm', 'from'])})
    if f['imports']:
        while s.b(15):
            doc.insert(s.pick([0, 0, s.i(len(doc) + 1)]), {'k': 'import', 'toks': gen_import(s)})
    return doc


def gen_import(s):
    """an import statement, which leaves no trace in Python"""
    names = ['a', 'From', 'fromX', 'asX', 'importX', 'T', 'type_', 'as1']
    res = ['import']
    form = s.i(4)
    if form == 0:
        res += ['{'] + [t for n in s.sample(names, s.num(1, 3)) for t in (n, ',')][:-1] + ['}', 'from']
    elif form == 1:
        res += ['*', 'as', s.pick(names), 'from']
    elif form == 2:
        res += [s.pick(names), 'from']
    return res + [s.pick(['"vscode"', "'./a-b.js'", '"a"', "'@x/y'"]), ';']


def gen_bounds(c, params):
    """bounds and defaults of type parameters, which leave no trace in Python: lists of tokens or None"""
    s = c.s
    names = [n for n, ar, kd in c.types() if ar == 0] + ['string', 'object', 'any', 'number']

    def bound():
        res = []
        if s.b(70):
            res += ['extends'] + (['keyof', s.pick(names)] if s.b(25) else ['{', '[', 'k', ':', 'string', ']', ':', s.pick(names), '}'] if s.b(15) else [s.pick(names)])
        if s.b(35) or not res:
            res += ['=', s.pick(names)]
        return res
    return [bound() if s.b(65) else None for _ in params]


def break_alias_cycles(doc):
    """`type A = B; type B = A | string` is not valid TypeScript: replaces references that would make an alias
    its own direct alternative."""
    al = {d['name']: d for d in doc if d['k'] == 'alias'}

    def direct(t, out, params):
        if t[0] == 'r':
            if t[1] in al and t[1] not in params:
                out.append(t)
                # arguments may surface as well
                for x in t[2]:
                    direct(x, out, params)
        elif t[0] == 'u':
            for x in t[1]:
                direct(x, out, params)
        elif t[0] == 'p':
            direct(t[1], out, params)
        return out

    def reaches(name, goal, seen):
        if name == goal:
            return True
        if name in seen:
            return False
        seen.add(name)
        return any(reaches(t[1], goal, seen) for t in direct(al[name]['type'], [], al[name]['params']))

    for d in al.values():
        for t in direct(d['type'], [], d['params']):
            if reaches(t[1], d['name'], set()):
                t[:] = ['b', 'string']


def gen_enum(s, name):
    n = s.num(1, 5)
    kind = s.pick(['i', 's', 'none', 'mix', 'f', 'part', 'dup'])
    items = []
    used = set()
    for m in s.sample(MEMBER_NAMES, n):
        lit = None
        if kind == 'i':
            lit = ['i', whole(s)]
        elif kind == 's':
            lit = ['s', text(s)]
        elif kind == 'mix':
            lit = literal(s, 'si')
        elif kind == 'f':
            lit = ['f', fraction(s)]
        elif kind == 'dup':
            lit = ['i', s.pick([1, 2])]
        if lit is not None and kind not in ('dup', 'part'):
            key = M.jd(lit)
            val = M.lit_value(lit)
            if val in used:
                lit = ['i', 1000 + len(items)] if lit[0] == 'i' else ['s', 'v%d' % len(items)] if lit[0] == 's' else ['f', '%d.125' % (50 + len(items))]
                val = M.lit_value(lit)
            used.add(val)
        if lit is None and m == 'enum':
            m = 'enum_'      # known finding: hides the module enum from the following members
        items.append([m, lit, s.b(10)])
    return {'k': 'enum', 'name': name, 'items': items}


def gen_ns(s, name, outer=None):
    """outer: constants outside that members may refer to, {name: literal}; if given, members may refer to other ones and be null"""
    n = s.num(1, 4)
    kind = s.pick(['i', 's', 'mix', 'f', 'b'])
    consts = []
    used = set()
    names = s.sample(MEMBER_NAMES, n)
    for m in names:
        if outer is not None and s.b(15):
            lit = gen_ref(s, names, consts, outer, used)
            if lit is not None:
                consts.append([m, s.pick([None, ['b', 'any']]), lit])
                continue
        lit = literal(s, {'i': 'i', 's': 's', 'mix': 'sif', 'f': 'f', 'b': 'b'}[kind])
        val = M.lit_value(lit)
        if val in used:
            lit = {'i': ['i', 1000 + len(consts)], 's': ['s', 'v%d' % len(consts)], 'f': ['f', '%d.125' % (50 + len(consts))],
                   'b': ['s', 'w%d' % len(consts)]}[lit[0]]
            val = M.lit_value(lit)
        used.add(val)
        t = {'s': ['b', 'string'], 'i': ['b', s.pick(['number', 'integer', 'uinteger'])], 'f': ['b', 'number'], 'b': ['b', 'boolean']}[lit[0]]
        how = s.i(3)
        if how == 1:
            t = ['l', lit]
        elif how == 2:
            t = None
        consts.append([m, t, lit])
    return {'k': 'ns', 'name': name, 'consts': consts}


def gen_ref(s, names, consts, outer, used):
    """the value of a member of a namespace that is not a literal"""
    how = s.i(3)
    if how == 0:
        if None in used:
            return None
        used.add(None)
        return ['n', s.pick(['null', 'undefined'])]
    if how == 1:
        return ['id', s.pick(consts)[0]] if consts else None
    free = [k for k, v in outer.items() if k not in names and M.lit_value(v) not in used]
    if not free:
        return None
    k = s.pick(free)
    used.add(M.lit_value(outer[k]))
    return ['id', k]


def gen_const(c, name, consts):
    s = c.s
    how = s.i(4)
    if how == 3:
        prev = [x for x in consts]
        if prev:
            d = {'k': 'const', 'name': name, 'type': None, 'val': ['id', s.pick(prev)]}
            consts.append(name)
            return d
        how = 0
    if how == 0:
        lit = literal(s, 'sifb')
        t = {'s': ['b', 'string'], 'i': ['b', 'number'], 'f': ['b', 'number'], 'b': ['b', 'boolean']}[lit[0]]
        if s.b(20):
            t = None
        if s.b(8):
            lit, t = ['n', s.pick(['null', 'undefined'])], s.pick([None, ['b', 'any'], ['u', [['b', 'string'], ['b', 'null']]]])
    elif how == 1:
        lit = None
        t = gen_type(c, 2, top=True)
    else:
        lit = literal(s, 'ad')
        t = gen_type(c, 2, top=True)
    if lit is not None:
        consts.append(name)
    return {'k': 'const', 'name': name, 'type': t, 'val': lit}


def gen_box(c, name):
    """a namespace with interfaces; without references among its members"""
    s, f = c.s, c.f
    c.params = []
    anon, c.anon_ok = c.anon_ok, c.anon_ok and f['boxes'] == 'anon'
    save = c.tnames
    c.tnames = [x for x in save if x[0] != name]
    decls = []
    names = s.sample(['P', 'Inner', 'Q2', 'Kind', 'pp'], s.num(1, 3))
    for i, n in enumerate(names):
        k = 'iface' if i == 0 else s.pick(['iface', 'alias', 'enum', 'const'])
        c.params = gen_params(s, names + [x[0] for x in save]) if f['generics'] and k in ('iface', 'alias') and s.b(25) else []
        if k == 'iface':
            if c.params:
                c.anon_ok = anon and f['boxes'] == 'anon' and f['anon_in_generics']
            d = {'k': 'iface', 'name': n, 'params': c.params, 'ext': [], 'fields': gen_fields(c, 2, 0, 3), 'kw': 'interface'}
        elif k == 'alias':
            if c.params:        # just as for generic aliases on the toplevel
                c.f, c.anon_ok = dict(f, unsupported=False, funcs=False), False
                c.tnames = [x for x in save if x[0] != name and (x[1] == 0 or x[0] in c.done)]
            t = gen_type(c, 2, top=True) if f['boxes'] == 'anon' and s.b(70) or c.params else ['b', s.pick(f['basics'])]
            params = params_in_order(t, c.params)
            if len(params) == 1 and direct_vars_only(t, params):
                t = ['a', t, 0]
            d = {'k': 'alias', 'name': n, 'params': params, 'type': t}
        elif k == 'enum':
            d = gen_enum(s, n)
        else:
            lit = literal(s, 'sib')
            d = {'k': 'const', 'name': n, 'type': ['b', {'s': 'string', 'i': 'number', 'b': 'boolean'}[lit[0]]], 'val': lit}
        d['exp'] = s.b(50)
        decls.append(d)
        c.params, c.f, c.tnames = [], f, [x for x in save if x[0] != name]
        c.anon_ok = anon and f['boxes'] == 'anon'
    c.tnames = save
    c.anon_ok = anon
    return {'k': 'box', 'name': name, 'decls': decls}


def settle(doc, cfg):
    """known finding mixed-ns-toplevel-anon: anonymous interfaces in namespaces are not rendered on the toplevel"""
    if cfg['RenderAnonymous'] == 'toplevel' and any(d['k'] == 'box' and any(has_anon(M.decl_types(x)) for x in d['decls']) for d in doc):
        cfg['RenderAnonymous'] = 'local'
    return cfg


def has_anon(types):
    found = []
    for t in types:
        M.walk_types(t, lambda x: found.append(x) if x[0] == 'o' else None)
    return bool(found)


# options ---------------------------------------------------------------

def gen_cfg(s, generics=False, render=('local', 'toplevel', 'functional'), keep=False, enums=True):
    cfg = dict(RenderAnonymous=s.pick(list(render)), UseTypeUnion=s.b(45), UseLiteralType=s.b(50), UseNotRequired=s.b(45))
    if not generics:
        cfg['UseVariadicGenerics'] = s.b(30)
    if keep:
        cfg['KeepMultilineComments'] = s.b(50)
    if not enums:
        cfg['UseEnum'] = s.b(50)
    return cfg


def has_generics(doc):
    return any(d.get('params') for d in doc)
