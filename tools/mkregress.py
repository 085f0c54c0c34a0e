"""Writes regress/CXX.json for repaired defects of the transpiler: (property, document, options, expectation)."""
import json
import os

R = {}


def case(prop, text, cfg=None, **kw):
    R.setdefault(prop, []).append(dict(facet='source', case=dict(text=text, cfg=cfg or {}, **kw)))


case('C01', 'interface A { exporter: string; typeOf: string; interfaceB: string; readonlyX: number; }\ninterface B { enumeration: A; }\n',
     expr='list(hints(A)) == ["exporter", "typeOf", "interfaceB", "readonlyX"]')
case('C03', 'interface A { a: 1.5 | "x"; b: -2e3; }\n', dict(UseLiteralType=False), expr='set(get_args(hints(A)["a"])) == {float, str} and hints(A)["b"] is float')
case('C01', 'enum E { a, b }\n', expr='len(list(E)) == 2')
case('C05', 'interface A { a: classB; b: { classC: classB; x: string; }; }\ninterface classB { a: string; }\n', expr='hints(A)["a"] is classB and hints(hints(A)["b"])["classC"] is classB')
case('C05', 'interface A { a: { x: { y: string; }; }; a_x: { z: string; }; }\n', dict(RenderAnonymous='toplevel'),
     expr='list(hints(hints(A)["a"])) == ["x"] and list(hints(hints(A)["a_x"])) == ["z"] and list(hints(hints(hints(A)["a"])["x"])) == ["y"]')
case('C05', 'interface A { a: { x: string; } | { y: string; }; b: { z: string; } | string; }\ninterface A_0 { q: string; }\n', dict(RenderAnonymous='toplevel'),
     expr='list(hints(A_0)) == ["q"] and len({c.__name__ for c in get_args(hints(A)["a"])}) == 2')
case('C01', "interface A { a: 'B' | B; b: 'B'; }\ninterface B { b: string; }\n", dict(UseLiteralType=True), expr='Literal["B"] == hints(A)["b"] and B in get_args(hints(A)["a"])')
case('C01', 'interface A { a: class_; b: from; }\ninterface from { b: string; }\ninterface class_ { c: string; }\n', expr='hints(A)["b"] is from_')
case('C03', "type A = 'x' | B | 'B';\ninterface B { b: string; }\n", dict(UseLiteralType=True), expr='A is not None')
case('C06', "interface A { a: 'x' | B; b: (B | 'y')[]; }\ninterface B { b: string; }\n", dict(UseLiteralType=True, UseTypeUnion=True),
     expr='Literal["x"] in get_args(hints(A)["a"])')
case('C02', "interface A { a?: NoneType_; b?: 'None'; c?: None_[]; }\ninterface NoneType_ { a: string; }\ninterface None_ { b: string; }\n", dict(UseLiteralType=True),
     expr='all(type(None) in get_args(hints(A)[k]) for k in "abc")')
case('C06', "interface A { a: string | B; b: null | null | 'x'; c: 'x' | 'y' | B; }\ninterface B { b: A | B; }\ntype T = A | U | 'x';\ntype U = string;\n", dict(UseTypeUnion=True))
case('C04', 'namespace N {\n}\nnamespace M {\n  export interface A { a: string;\n b: string; }\n  export enum E { a = 1, b = 2 }\n}\n', expr='list(hints(M.A)) == ["a", "b"]')
case('C13', '/* one\n   two */\ninterface A {\n  /* three\n  four */\n  a: string; // five\n}\n', dict(KeepMultilineComments=True), expr='all(w in body() for w in ("one", "two", "three", "four"))')
case('C01', "enum E { a = 1 }\ntype E = 1 | 2\n  | 3 | { x: string; };\ninterface B { e: E; }\n", expr='hints(B)["e"] is E')
case('C05', 'interface A { a: { }; b: { f(): string; x: string; }; c: { x: B; } | string; }\ninterface B { b: string; }\n', dict(RenderAnonymous='functional'))
case('C25', 'interface A<T> { a?: T; }\ninterface B { b: A<string>; }\n', dict(UseNotRequired=True), expr='A[str] is not None')
case('C04', "const a: { x: string; } = { x: 'y' };\ninterface A { a: { z: string; }; }\n", expr='list(hints(hints(A)["a"])) == ["z"]')
case('C02', 'interface A { a?: null; b?: void; c?: undefined; d: string; }\n', dict(UseNotRequired=True), expr='A.__required_keys__ == frozenset("d")')
case('C25', 'interface A<T> { t: T; }\ninterface B { b: A<null>; }\n', expr='len(get_args(hints(B)["b"])) == 1')
case('C01', 'interface A { a: (null | undefined) | null; b: (null | string)[] | null; }\n', dict(UseTypeUnion=True))
case('C01', 'interface A { a: { x: B; } | B; b: ({ y: B; } | B)[]; }\ninterface B { b: string; }\n', dict(RenderAnonymous='functional', UseTypeUnion=True))
case('C01', 'type N = null;\ntype M = N;\ninterface A { a: N | M; b: M | string; }\n', dict(UseTypeUnion=True))
case('C02', 'interface A { a?: string | undefined[]; }\n', expr='type(None) in get_args(hints(A)["a"])')
case('C05', "const A_0: string = 'x';\ninterface A { a: { x: string; } | string; }\n", dict(RenderAnonymous='toplevel'), expr='A_0 == "x"')
case('C06', 'interface A { a: ((null | string) | B)[]; }\ninterface B { b: string; }\n', dict(UseTypeUnion=True))
case('C01', 'namespace N {\n  export interface A { a: string; }\n}\ninterface B { a: A; }\ninterface A { b: string; }\n', expr='hints(B)["a"] is A and list(hints(A)) == ["b"]')
case('C24', "function f(a: '*', b: string): string;\ninterface A { f: (a: '*', b: string) => string; }\n", expr='len(get_args(hints(A)["f"])[0]) == 2')
case('C06', 'interface A { a?: (string | B) | null; b?: (B | (null | C)); }\ninterface B { b: string; }\ninterface C { c: string; }\n', dict(UseTypeUnion=True))
case('C25', 'type A<T> = T | B | string;\ninterface B { b: A<number>; }\n', dict(UseTypeUnion=True), expr='float in get_args(hints(B)["b"])')
case('C25', 'namespace N { export function T(a: string): string; export const U: number = 1; export interface A<T, U> { a: T; b: U; } }\ninterface B { b: string; }\n',
     expr='N.U == 1 and callable(N.T) and len(hints(N.A)) == 2')
case('C06', 'interface A { a: from | string; }\ntype from = string | number;\n', dict(UseTypeUnion=True), expr='float in get_args(hints(A)["a"])')
case('C08', '/* a */ interface A { a: string; }\ninterface B { b: string; /* c */ }\n', expr='list(hints(A)) == ["a"] and list(hints(B)) == ["b"]')
case('C08', 'interface A { a: string[ ]; b: number[ /* x */ ]; }\n', expr='hints(A)["a"] == List[str]')
case('C12', 'interface A { a: ; exported: string; }\ninterface B { b string; }\n', errors=True)
case('C12', 'interfaceA { a: string; }\n', errors=True)
case('C12', 'export interface A { a: string; }\nexportinterface B { b: string; }\n', errors=True)
case('C24', 'interface A {\n  (a: string): string;\n  (a: number): number;\n  f(a: string): string;\n}\n')
case('C24', 'interface A { f(...a: Array<string>): string; }\n', expr='get_type_hints(A.f)["a"] in (str, List[str])')
case('C24', 'function f(a: { x: string; }): { y: number; };\n', expr='list(get_type_hints(get_type_hints(f)["return"])) == ["y"]')
case('C24', 'interface A { f<T>(a: T): B; }\ninterface B { b: string; }\n', expr='get_type_hints(A.f)["return"] is B')
case('C01', 'type A = string | A[];\ninterface B { a: A; }\n', expr='hints(B)["a"] is not None')
case('C09', 'interface A { a: B; }\ntype B = string | B[] | A;\n', expr='hints(A)["a"] is not None')
case('C21', 'interface A { a: number; b: [number, string]; }\n', expr='validate({"a": 1, "b": [1, "x"]}, A)')
case('C21', 'type J = string | J[];\ninterface A { a: J; }\n', expr='validate({"a": ["x", [["y"]]]}, A) and not validate({"a": ["x", [[1]]]}, A)')
case('C24', 'type T = { f(a: string): string; };\n', expr='hints(T.f) == {"a": str, "return": str} and T.f.__code__.co_varnames[:2] == ("self", "a")')
case('C24', 'interface A { [Symbol.iterator](): { x: string; }; }\n', dict(RenderAnonymous='toplevel'),
     expr='list(hints(hints(A.__iter__)["return"])) == ["x"]')

case('C01', 'interface A { h: Set<string>; s: Set<A>; }\n', expr='get_origin(hints(A)["h"]) is set')
case('C12', 'interface A {\n  x: 0x10\n}\n', errors=True)
case('C24', 'type F = (a, b) => void;\n', expr='get_args(F)[0] == [Any, Any]')
case('C04', 'const n = null;\nconst u: string | undefined = undefined;\n', expr='n is None and u is None')
case('C04', 'const S = "s";\nnamespace N {\n  const a = 1;\n  const b = S;\n}\n', expr='[m.value for m in N] == [1, "s"]')

if __name__ == '__main__':
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'regress')
    for p, cases in R.items():
        path = os.path.join(d, p + '.json')
        old = json.load(open(path)) if os.path.exists(path) else []
        json.dump([c for c in old if c['facet'] != 'source'] + cases, open(path, 'w'), indent=1)
