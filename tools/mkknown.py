"""Writes known_findings.json. Every known case is listed with the input that fails."""
import json, os, subprocess

L = dict(RenderAnonymous='local')
K = []


def known(prop, id, what, text=None, cfg=None, **kw):
    case = dict(text=text, cfg=cfg or {}, **kw)
    K.append(dict(property=prop, id=id, status='known', what=what, facet='source', case=case))


# -- C01
known('C01', 'extends-later', 'an interface that extends a later one is rendered before its base class (NameError upon import)',
      'interface B extends A { b: string; }\ninterface A { a: string; }\n')
known('C01', 'mixed-ns-siblings', 'a reference to an earlier member of the same mixed namespace is not executable',
      'namespace N {\n  export interface A { a: string; }\n  export interface B extends A { b: A; }\n}\n')
known('C01', 'mixed-ns-toplevel-anon', 'an anonymous interface inside a mixed namespace with RenderAnonymous="toplevel" is not executable',
      'namespace N {\n  export interface A { a: { x: string; }; }\n}\n', dict(RenderAnonymous='toplevel'))
known('C01', 'anon-argument-of-later-generic', 'an anonymous interface as argument of a generic interface that is defined later is not executable',
      'interface A { a: G<{ x: string; }>; }\ninterface G<T> { t: T; }\n', expr='hints(A)["a"] is not None')
known('C01', 'identity-alias', 'a generic alias that is just its parameter cannot be specialised',
      'type B<T> = T;\ninterface A { a: B<string>; }\n')
known('C01', 'alias-params-unused', 'a generic alias with a parameter that it does not use cannot be specialised',
      'type B<S, T> = T[];\ninterface A { a: B<string, number>; }\n')
known('C01', 'dunder-field', 'fields whose names begin with two underscores are mangled inside classes',
      'interface A { __a: string; }\n', expr='"__a" in hints(A)')
known('C01', 'enum-member-named-enum', 'an enum without values whose first member is named "enum" is not executable',
      'enum E { enum, b }\n')
known('C01', 'render-type', 'RenderAnonymous="type" yields code that no Python executes',
      'interface A { a: { x: string; }; }\n', dict(RenderAnonymous='type'))
known('C01', 'preamble-names', 'an interface named like something that the preamble imports breaks the annotations of the others',
      'interface List { a: string; }\ninterface A { b: string[]; c: List; }\n', expr='get_origin(hints(A)["b"]) is list')
known('C01', 'base-and-ancestor', 'an interface that extends an interface and after it an ancestor of that has no MRO in base-class mode',
      'interface A { a: string; }\ninterface B extends A { b: string; }\ninterface C extends A, B { c: string; }\n', dict(BaseClassName='object'))
# -- C02
known('C02', 'keyword-field', 'fields named like Python keywords get an underscore, so that the key of the record differs from that in TypeScript',
      'interface A { from: string; }\n', expr='"from" in hints(A)')
known('C02', 'quoted-field', 'field names in quotes are not accepted', 'interface A { "a-b": string; }\n')
known('C02', 'dollar-field', 'identifiers with a dollar sign are not accepted', 'interface A { $a: string; }\n')
known('C02', 'static-newline', 'an untyped field named "static", ended by the end of the line only, is taken for a modifier of the next field',
      'interface A {\n  static\n  b: string\n}\n', expr='set(hints(A)) == {"static", "b"}')
# -- C03
known('C02', 'index-signature', 'an index signature next to other members is dropped without error or warning',
      'interface A { a: string; [k: string]: string; }\n', warnings=True)
known('C02', 'index-signature-only', 'an interface that consists of an index signature only is not accepted',
      'interface A { [k: string]: string; }\n')
known('C03', 'array-of-arrays', 'T[][] is not accepted (Array<T[]> is)', 'interface A { a: string[][]; }\n')
known('C03', 'typeof', 'typeof is split from its operand: the field is rendered as one of type typeof, without error or warning',
      'const c: string = "x";\ninterface A { a: typeof c; }\n', expr='set(hints(A)) == {"a"}', warnings=True)
known('C24', 'record-and-class', 'an interface that extends both a record and an interface with methods is not executable',
      'interface A { a: string; }\ninterface B { f(x: number): void; }\ninterface C extends A, B { c: string; }\n')
known('C24', 'type-predicates', 'type predicates as return types are split: there are fields for "is" and the type, without error or warning',
      'interface B { b: string; }\ninterface A { f(x: B): x is B; }\n', expr='set(vars(A)) & {"is_", "B"} == set()', warnings=True)
known('C02', 'visibility', 'visibility modifiers and accessors of classes are taken for fields, without error or warning',
      'declare class A {\n  private a: string;\n}\n', expr='set(hints(A)) <= {"a"}', warnings=True)
known('C03', 'keyof', 'keyof is split from its operand: the field is rendered as one of type keyof, without error or warning',
      'interface B { b: string; }\ninterface A { a: keyof B; }\n', expr='set(hints(A)) == {"a"}', warnings=True)
known('C03', 'alias-to-later-alias', 'an alias of a later alias is a plain string',
      'type A = B;\ntype B = string;\n', expr='A is str')
known('C03', 'optional-item', 'tuples with optional items are taken for records', 'interface A { a: [string, number?]; }\n',
      expr='get_origin(hints(A)["a"]) in (tuple, Tuple)')
known('C24', 'illegal-first-argument', 'an argument that no overload accepts raises a NameError instead of a TypeError (the expected text is part of tests_grammar/12)',
      'function f(a: string): string;\nfunction f(a: boolean): boolean;\n', expr='raises(f, 1.5) is TypeError')
known('C24', 'this-type', 'the type "this" is a reference to a class that does not exist',
      'interface A { f(): this; }\n', expr='hints(A.f)["return"] is not None')
known('C03', 'labelled-tuple', 'tuples with labels are taken for records', 'interface A { a: [x: number, y: string]; }\n',
      expr='get_origin(hints(A)["a"]) in (tuple, Tuple)')
# -- C04
known('C04', 'equal-values', 'members of an enum with equal values of different types become one member',
      'enum E { a = 1, b = 1.0 }\n', expr='len(list(E)) == 2 and E.a.name != E.b.name and len(E.__members__) == len(list(E))')
known('C04', 'sunder-member', 'an enum member named mro or like _x_ cannot be defined', 'enum E { mro = 1, b = 2 }\n')
known('C04', 'declared-let', 'variables that are only declared with let or const leave no trace', 'let x: string;\ninterface A { a: string; }\n', expr='"x" in body()')
# -- C05
known('C05', 'functional-methods', 'methods of anonymous interfaces are dropped in the functional notation',
      'interface A { a: { f(x: string): string; y: string; }; }\n', dict(RenderAnonymous='functional'), expr='"def f" in body() or "\\"f\\"" in body()')
# -- C09
known('C09', 'alias-before-generic', 'a generic alias in front of the generic that it uses is a plain string',
      'type B<T> = G<T>;\ninterface G<T> { t: T; }\ninterface A { a: B<string>; }\n', expr='hints(A)["a"] is not None and not isinstance(B, str)')
# -- C12
known('C12', 'extends-undeclared', 'an interface that extends one which is not declared anywhere is accepted without error or warning',
      'interface B extends Nowhere { b: string; }\n', errors=True)
# -- C21
known('C21', 'numeric-keys', 'index signatures with keys of type number do not accept the (string) keys of JSON objects',
      'interface A { a: { [k: number]: string; }; }\n', expr='validate({"1": "x"}, hints(A)["a"])')
known('C21', 'plain-enum', 'with UseEnum=False enumerations cannot be used to validate data',
      'enum E { a = 1, b = 2 }\ninterface A { e: E; }\n', dict(UseEnum=False), expr='validate(1, hints(A)["e"])')
# -- C24
known('C24', 'static-methods', 'static methods are rendered as instance methods', 'declare class A {\n  static f(a: string): string;\n}\n',
      expr='isinstance(vars(A)["f"], staticmethod)')
known('C24', 'constructors', 'constructors of classes leave no trace',
      'class A {\n  constructor(x: number);\n  f(): string;\n}\n', expr='"onstructor(" in body()')
known('C24', 'self-parameter', 'a method with a parameter named self is not valid Python', 'interface A { f(self: string): string; }\n')
known('C24', 'method-shadows-type', 'a method named like a type that is used in the annotations after it shadows that type',
      'interface A { str(a: string): string; g(b: string): string; }\n', expr='get_type_hints(A.g)["b"] is str')
# -- C25
known('C25', 'variadic-generics', 'with UseVariadicGenerics (as it is rendered for Python 3.11) interfaces lose Generic[T], as tests_grammar/17 demands',
      'interface A<T> { t: T; }\n', dict(UseVariadicGenerics=True, UseNotRequired=True), expr='A[str] is not None and Generic in getattr(A, "__orig_bases__", A.__mro__) or "Generic" in body()')
known('C25', 'type-parameters', 'the option UseTypeParameters has no effect (it is stored under another key)',
      'interface A<T> { t: T; }\n', dict(UseTypeParameters=True), expr='"class A[T]" in body()')
known('C25', 'anon-in-generic-alias', 'the parameters inside an anonymous interface of a generic alias are not replaced',
      'type B<T> = { x: T; } | T;\ninterface A { a: B<string>; }\n', expr='hints(get_args(hints(A)["a"])[0])["x"] is str')


def fixed():
    out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
    prop = json.load(open(os.path.join(os.path.dirname(__file__), 'fixed_properties.json')))
    for line in out.splitlines():
        h, _, subject = line.partition(' ')
        if subject.startswith('fix:'):
            what = subject[4:].strip()
            yield dict(property=prop[what], id=h, status='fixed', what='fixed: property=%s %s before the repair this failed: %s' % (prop[what], h, what))


if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    json.dump(dict(findings=K + list(fixed())), open(path, 'w'), indent=1, ensure_ascii=False)
