"""C06: version and PEP options change the notation, not the meaning."""
import ast
import re

from vf import docs, gen as G, sut, tsmodel as M, compare
from vf.core import Facet, Violation

from checks import c24

RULE = ('non-trivial: the document contains at least two of: a union, a literal type, an optional field, a generic definition; '
        'every case is transpiled with two to four combinations of options')
ASSUMPTIONS = ['with type-union notation on, Union[...] is still legitimate where "|" cannot be evaluated (forward references to aliases or '
               'combined with nested classes, strings, None | None); that it is used otherwise is checked on documents without these']


def gen_cfgs(s, generics, n):
    res = []
    render = s.pick(['local', 'toplevel', 'functional'])
    for _ in range(n):
        c = G.gen_cfg(s, generics=generics)
        c['RenderAnonymous'] = render
        if c not in res:
            res.append(c)
    return res


def build(features, n=(2, 4)):
    def b(s):
        doc = G.gen_doc(s, features)
        return {'doc': doc, 'cfgs': gen_cfgs(s, G.has_generics(doc), s.num(*n))}
    return lambda: docs.strategy(b)


class Notation(ast.NodeVisitor):
    """Which notations occur in a generated module, strings (forward references) included."""
    def __init__(self):
        self.seen = set()
        self.unions = []

    def visit_BinOp(self, node):
        if isinstance(node.op, ast.BitOr):
            self.seen.add('|')
        self.generic_visit(node)

    def visit_Name(self, node):
        if node.id in ('NotRequired', 'Literal', 'Union', 'Optional'):
            self.seen.add(node.id)

    def visit_Assign(self, node):
        # aliases may be strings; values of constants and enum members are data
        if isinstance(node.value, (ast.Constant, ast.List, ast.Dict, ast.UnaryOp)):
            return
        self.generic_visit(node)

    def visit_AnnAssign(self, node):
        self.visit(node.annotation)

    def visit_Subscript(self, node):
        if isinstance(node.value, ast.Name) and node.value.id == 'Literal':
            self.seen.add('Literal')
            return
        if isinstance(node.value, ast.Name) and node.value.id == 'Union':
            self.unions.append(node)
        self.generic_visit(node)

    def visit_Dict(self, node):
        for v in node.values:
            self.visit(v)

    def visit_Call(self, node):
        for a in node.args[1:]:
            self.visit(a)

    def visit_Constant(self, node):
        if isinstance(node.value, str):
            try:
                self.visit(ast.parse(node.value, mode='eval').body)
            except SyntaxError:
                pass


def notation(code):
    v = Notation()
    v.visit(ast.parse(sut.body(code)))
    return v


def old_syntax(code, src):
    """without UseTypeParameters, all versions of Python that ts2python supports can read the code"""
    try:
        ast.parse(code, feature_version=(3, 8))
    except SyntaxError as e:
        raise Violation('syntax of a later version of Python, although the options are off: %s\n%s\n%s' % (e, src, code))


def is_none(e):
    return isinstance(e, ast.Constant) and e.value is None


def check(case, plain=False):
    doc = case['doc']
    src = M.render(doc)
    bodies = {}
    side = compare.Side(doc)
    null_alias = any(d['k'] == 'alias' and all(a == ('none',) for a in side.atoms(d['type'], {})) for d in doc)
    for cfg in case['cfgs']:
        code = sut.accept(src, cfg)
        bodies[M.jd(cfg)] = sut.body(code)
        old_syntax(code, src)
        with sut.Gen(code, src=src) as g:
            c = compare.Compare(doc, g, cfg).document(('iface', 'alias', 'const', 'enum', 'ns'))
            n = notation(code)
            if not cfg['UseTypeUnion'] and '|' in n.seen:
                c.fail('"|" is used although the option is off')
            if not cfg['UseLiteralType'] and 'Literal' in n.seen:
                c.fail('Literal is used although the option is off')
            if not cfg['UseNotRequired'] and 'NotRequired' in n.seen:
                c.fail('NotRequired is used although the option is off')
            if plain and cfg['UseTypeUnion'] and not null_alias:
                for u in n.unions:
                    elts = u.slice.elts if isinstance(u.slice, ast.Tuple) else [u.slice]
                    if not (is_none(elts[0]) and len(elts) > 1):
                        c.fail('Union is used although "|" could be')
            if plain and cfg['UseNotRequired'] and 'Optional' in n.seen:
                c.fail('Optional is used although NotRequired could be')
    if not G.has_generics(doc):
        for cfg in case['cfgs']:
            if cfg.get('UseVariadicGenerics'):
                other = dict(cfg, UseVariadicGenerics=False)
                b = bodies.get(M.jd(other)) or sut.body(sut.accept(src, other))
                if b != bodies[M.jd(cfg)]:
                    raise Violation('UseVariadicGenerics changes a document without generics:\n%s\n---\n%s' % (b, bodies[M.jd(cfg)]))


def need(ls, case):
    n = sum(x in ls for x in ('type:union', 'type:literal', 'generic-iface', 'generic-alias'))
    n += any(f['o'] for d in case['doc'] if d['k'] == 'iface' for f in d['fields'])
    return n >= 2


def classify(case):
    nt, ls = docs.classify_doc(case, need)
    ls.append('combinations:%d' % len(case['cfgs']))
    for o in ('UseTypeUnion', 'UseLiteralType', 'UseNotRequired'):
        if len({c[o] for c in case['cfgs']}) == 2:
            ls.append('both:' + o)
    return nt, ls


def show(case):
    return '%s\n%s' % (case['cfgs'], M.render(case['doc']))


def check_functions(case):
    """documents with functions and methods: the options leave the names of what is defined and the parameters alone"""
    src = c24.render_doc(case['doc'])
    shapes = []
    for cfg in case['cfgs']:
        code = sut.accept(src, cfg)
        old_syntax(code, src)
        n = notation(code)
        for what, opt in (('|', 'UseTypeUnion'), ('Literal', 'UseLiteralType'), ('NotRequired', 'UseNotRequired')):
            if not cfg[opt] and what in n.seen:
                raise Violation('%s is used although %s is off\n%s\n%s' % (what, opt, src, code))
        shapes.append(Shape.of(code))
    for cfg, sh in zip(case['cfgs'], shapes):
        if sh != shapes[0]:
            raise Violation('other definitions or parameters with %s than with %s:\n%s\n---\n%s\n%s' % (cfg, case['cfgs'][0], sh, shapes[0], src))


class Shape(ast.NodeVisitor):
    """names of classes (up to the numbers of anonymous ones), names and default values of the parameters of functions, names of fields - without any types"""
    def __init__(self):
        self.out = []
        self.depth = 0

    @classmethod
    def of(cls, code):
        v = cls()
        v.visit(ast.parse(sut.body(code)))
        return v.out

    def visit_ClassDef(self, node):
        self.out.append((self.depth, 'class', re.sub(r'_\d+', '_', node.name)))
        self.depth += 1
        for x in node.body:
            self.visit(x)
        self.depth -= 1

    def visit_FunctionDef(self, node):
        a = node.args
        self.out.append((self.depth, 'def', node.name, [x.arg for x in a.posonlyargs + a.args], [ast.dump(d) for d in a.defaults],
                         a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg, [ast.dump(d) for d in node.decorator_list]))

    def visit_AnnAssign(self, node):
        self.out.append((self.depth, 'field', ast.dump(node.target)))


def functions():
    def b(s):
        case = c24.build(s)
        cfgs = [case['cfg']]
        for _ in range(s.num(1, 2)):
            c = dict(case['cfg'])
            for o in ('UseTypeUnion', 'UseLiteralType', 'UseNotRequired'):
                c[o] = s.b(50)
            if c not in cfgs:
                cfgs.append(c)
        return {'doc': case['doc'], 'cfgs': cfgs}
    return docs.strategy(b)


def classify_functions(case):
    nt, ls = c24.classify(case)
    for o in ('UseTypeUnion', 'UseLiteralType', 'UseNotRequired'):
        if len({c[o] for c in case['cfgs']}) == 2:
            ls.append('both:' + o)
    return nt and len(case['cfgs']) > 1, ls


FACETS = [
    Facet('meaning', build(dict(decls=(1, 5), depth=4, lib=5, modules=True, imports=True)), check, classify, 3000, 60000, show),
    Facet('notation', build(dict(decls=(1, 5), depth=4, back_only=True, generics=False, consts=False, boxes=False)),
          lambda c: check(c, plain=True), classify, 2500, 50000, show),
    Facet('functions', functions, check_functions, classify_functions, 1500, 30000,
          lambda case: '%s\n%s' % (case['cfgs'], c24.render_doc(case['doc']))),
]
