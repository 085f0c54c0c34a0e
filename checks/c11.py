"""C11: any text is answered with a result or errors, never a crash."""
import concurrent.futures
import os
import re
import sys
import warnings

from hypothesis import strategies as st

from vf import core, damage, docs, gen as G, sut, tsmodel as M
from vf.core import Facet, Violation
from vf.layout import Tape, gen_tape, layout

TECHNIQUE = 'fuzzing: damaged documents, token soup and arbitrary text, invariants on result and errors (Hypothesis)'
RULE = ('a case is a text with options; non-trivial: a text of at least 20 characters that is answered with an error behind its '
        'first token, or that is accepted though it was damaged; distinct texts counted')
ASSUMPTIONS = ['text without a line break is passed with one added, since the programming interface takes such text as the name of a file']

VOCABULARY = damage.STRAY + ['interface A', 'interface B {', 'export interface C<T> extends A {', 'x: string;', 'y?: number', 'type D =', "'lit'", '"lit"', '42',
                             '-1.5e3', 'A | B', 'A[]', '[A, B]', '{ [key: string]: A }', '(a: A) => B', 'enum E { a = 1, b }', 'namespace N {',
                             'const a: string = "x";', 'readonly', 'static', 'keyof', 'typeof', 'new', 'function f(a: A, b?: B): C;', '...', '\n', '// c\n', '/* c */',
                             'Array<', 'Record<string, A>', 'Partial<A>', 'true', 'null', 'undefined', 'declare module "m" {', 'declare', 'let', 'var',
                             'abstract', 'import { A } from "m";', 'export default', 'async', '[Symbol.iterator]()', 'm(a: A): B;', 'T extends A = B', '`x`', '&',
                             'this', 'void', 'object', 'symbol', 'in', 'is', 'asserts', 'as', 'unique', 'infer', '? A : B', 'A.B.C', '$', '_', '#', '0x1F', '1_000']


def build_damaged(s):
    doc = G.gen_doc(s, dict(decls=(1, 4), depth=3, unsupported=True, funcs=True, boxes=True, imports=True))
    toks = damage.apply(damage.tokens(doc, gen_tape(s) if s.b(50) else None), damage.gen_damage(s, 4))
    return {'text': layout([(t, '') for t in toks], Tape(gen_tape(s) if s.b(50) else [1])), 'cfg': cfg(s), 'damaged': True}


def cfg(s):
    c = G.gen_cfg(s, keep=True, enums=False, render=('local', 'toplevel', 'functional', 'type'))
    c['UseTypeParameters'] = s.b(15)
    if s.b(15):
        c['BaseClassName'] = s.pick(['object', 'BaseModel'])
    if s.b(10):
        c['ClassDecorator'] = s.pick(['deco', '@deco'])
    return c


def build_soup(s):
    """fragments, usually amidst of a document"""
    toks = [s.pick(VOCABULARY) for _ in range(s.num(1, 20))]
    if s.b(75):
        base = damage.tokens(G.gen_doc(s, dict(decls=(1, 3), depth=2, boxes=True, imports=True)))
        i = s.i(len(base) + 1)
        toks = base[:i] + toks + base[i + s.i(4):]
    return {'text': layout([(t, '') for t in toks], Tape(gen_tape(s) if s.b(30) else [1])), 'cfg': cfg(s)}


def text_cases():
    docs.reserve()
    alphabet = st.characters(codec='utf-8')
    tokenish = st.sampled_from(VOCABULARY + ['\r', '\r\n', '\x00', '\ufeff', '\u2028', '\x0b', '\x0c', '\x85', '\u00a0', '\t', '  '])
    text = st.lists(st.one_of(tokenish, st.text(alphabet, max_size=4)), max_size=25).map(''.join)

    def make(t, seed, doc, pos):
        if doc:
            src = M.render(doc)
            i = pos % (len(src) + 1)
            t = src[:i] + t + src[i:]
        return {'text': t, 'cfg': cfg(Fixed(seed))}
    doc = docs.strategy(lambda s: G.gen_doc(s, dict(decls=(1, 3), depth=2, boxes=True, imports=True)))
    return st.builds(make, text, st.lists(st.integers(0, 99), min_size=1, max_size=10), st.one_of(st.none(), doc, doc), st.integers(0, 500))


class Fixed(G.Src):
    """decisions from a list of numbers"""
    def __init__(self, nums):
        self.nums, self.k = nums, 0

    def i(self, n):
        self.k += 1
        return self.nums[self.k % len(self.nums)] % max(n, 1)

    def b(self, percent):
        return self.i(100) >= 100 - percent


NESTS = [('{ a: ', '}'), ('(', ')'), ('[', ']'), ('Array<', '>'), ('{ [k: string]: ', '}'), ('(x: ', ') => string'), ('string | ', ''), ('{ a?: string | ', ' }')]


def build_deep(s):
    n = s.pick([1, 3, 6, 10, 15, 20, 60, 150, 400, 1000])
    parts = [s.pick(NESTS) for _ in range(s.num(1, 3))]
    if 'Array<' in [x[0] for x in parts] and n > 40:
        n = 20       # nested type arguments take long once the depth limit of the parser is reached
    left, right = '', ''
    for k in range(n):
        a, b = parts[k % len(parts)]
        left, right = left + a, b + right
    cut = s.i(4)
    head = s.pick(['type A = ', 'interface A { f: ', 'const a: ', 'function f(a: '])
    tail = {'t': ';', 'i': ' }', 'c': ';', 'f': '): void;'}[head[0]]
    text = head + left + 'string' + ('' if cut == 1 else right) + ('' if cut == 2 else tail) + '\n'
    if s.b(20):
        text = s.pick(['namespace N { ', 'namespace N { interface B {} ']) * min(n, 100) + text + '}' * min(n, 100)
    return {'text': text, 'cfg': cfg(s), 'depth': n}


# TypeScript (and neighbouring) constructs, whether supported or not; T: a type, N: a name, M: members, L: a literal, P: parameters, D: declarations
TYPES = """string|number|boolean|object|any|unknown|null|undefined|void|integer|uinteger|decimal|never|symbol|bigint|this|N|N|N|N.N|N.N.N
T[]|T[]|N<T>|N<T, T>|Array<T>|ReadonlyArray<T>|Record<string, T>|Map<T, T>|Set<T>|Promise<T>|Partial<N>|Readonly<N>|Pick<N, L>|Omit<N, L>|Thenable<T>
Uint32Array|RegExp|Error|IterableIterator<T>|Date|Function|[T, T]|[T]|[N: T, N?: T]|[]|[...T[]]|[T, ...T[]]|(T)|T \\| T|T \\| T \\| null|\\| T \\| T|T & T|(T \\| T)[]|(T & T)[]
{ M }|{ M }|{ M }[]|{ [N: string]: T }|{ [N: number]: T; }|{ [N in T]: T }|{ readonly [N in keyof T]?: T[N] }|{}|L|L \\| L|-L|N[L]|N[N]|N[number]|keyof N|typeof N|readonly T[]
(P) => T|new (P) => T|() => void|<N>(P) => T|abstract new (P) => T|T extends T ? T : T|T extends (infer N)[] ? N : never|N is T|asserts N|unique symbol|`a${string}`
N<T>[]|N<T[]>|N<{ M }>|N<[T, T]>|N<(T)>|T[][]|N<T \\| T>|typeof N[number]|import("m").N|(new (P) => T)[]|{ [N: string]: T } & T|{ M } \\| { M }""".replace('\n', '|')
MEMBERS = """N: T|N: T|N?: T|readonly N: T|static N: T|readonly static N: T|N|N?|N(P): T|N(P): T|N(P)|N?(P): T|N<N>(P): T|N<N extends T = T>(P): T|static N(P): T|(P): T|(P)|new (P): T
[N: string]: T|[N: number]: T|readonly [N: string]: T|[N in N]: T|[Symbol.iterator](): T|[Symbol.asyncIterator](): T|[Symbol.toPrimitive](N: string): T|[N](P): T|[N]: T|[L]: T
get N(): T|set N(N: T)|constructor(P)|private N: T|public N: T|protected readonly N: T|abstract N(P): T|async N(P): T|declare N: T|N!: T|N = L|N: T = L|"quoted": T|1: T|#N: T|let N: T|var N: T
export N(P): T|function N(P): T|...N: T|/** c */ N: T|N: T // c|_: T|$: T|N$: T|é: T|N: T, N: T|N(this: N): T|type N = T|enum N { N }|interface N { M }""".replace('\n', '|')
DECLS = """interface N { M }|interface N { M }|export interface N { M }|interface N<N> { M }|interface N<N extends T> { M }|interface N<N = T> { M }|interface N extends N { M }|interface N extends N, N<T> { M }
interface N extends N.N { M }|class N { M }|export class N extends N { M }|class N implements N { M }|declare class N { M }|abstract class N { M }|export default interface N { M }|interface N {}|interface { M }
type N = T;|type N = T;|export type N = T;|type N<N> = T;|type N<N extends T = T> = T;|type N = T|export declare type N = T;|type N = { M };|type N = { M }|enum N { N, N }|enum N { N = L, N = L, }|const enum N { N = L }
export enum N { N }|declare enum N { N = L }|enum N { "a" = L }|enum N { N = 1 << 2 }|enum N { N = N.N \\| N.N }|enum N {}|const N = L;|const N: T = L;|export const N: T;|const N: T = N;|const N = { N: L };|const N = [L, L];
const N = L as const;|const N = () => L;|const N = new N();|let N: T;|let N = L;|var N: T = L;|declare const N: T;|export let N;|N: T;|N;|N = L;|N.N = L;|N = N;|L|L, L|[L, L]|{ N: L }|{ "N": L, N: [L] }|{}|[]
function N(P): T;|export function N(P): T;|declare function N(P): T;|function N(P);|function N<N>(P): T;|function N(P): T { return L; }|async function N(P): T;|(P): T;|new (P): T;
namespace N { D }|namespace N { D D }|export namespace N { D }|declare namespace N { D }|namespace N.N { D }|namespace N {}|namespace N { const N: T = L; const N = L; }|module N { D }|declare module "m" { D D }|declare module 'm' { D }|declare global { D }
import { N } from "m";|import { N, N as N } from 'm';|import * as N from "m";|import N from "m";|import "m";|import N = N.N;|import type { N } from "m";|export { N };|export * from "m";|export default N;|export = N;|export as namespace N;
"use strict";|#!/usr/bin/env node|/// <reference path="m" />|// c|/* c */|/** c */|@deco class N { M }|;|;;|declare var N: T;|declare type N = T;|if (N) { N(); }|N(L);|return L;|export|declare|interface|type|enum N|namespace""".replace('\n', '|')
LITERALS = """0|1|-1|1.5|-0.5e3|1e5|0x1F|0b1|1_000|1n|.5|1.|"a"|'b'|""|''|"it's"|'say "x"'|"a\\\\n"|'\\\\''|`t`|`a${N}`|true|false|null|undefined|[]|{}|[L, L]|{ N: L }|{ "N": L }|/re/g|NaN|-Infinity|+1|"ü"|'%s'|N.N""".replace('\n', '|')
PARAMS = """||N: T|N: T|N: T, N: T|N?: T|N|N, N|N: T, N?: T|...N: T[]|N: T, ...N: N<T>|...N|N: T,|N = L|N: T = L|{ N, N }: T|[N, N]: T|this: N|N: (P) => T|readonly N: T""".replace('\n', '|')
PLACE = {'T': TYPES, 'M': MEMBERS, 'D': DECLS, 'L': LITERALS, 'P': PARAMS}
PLACE = {k: [x.replace('\0', '|') for x in v.replace('\\|', '\0').split('|')] for k, v in PLACE.items()}
PLACE['L'] += ['"C:\\Users\\Name"', "'\\u{1F600}'", '"\\x"', "'\\u12'", '"\\"', "'\\\\'", '"\\N{x}"', "'\\0'", '"\\01"', "'it\\'s'", '"\\u{110000}"', "'\\d'"]
ODD_NAMES = ['A\u24d0', 'x\u00b2', 'e\u0301', '\u0301e', '\ufb01', 'a\u00b7b', 'a\u200d', '\u0663', '\u216b', '\u00aa', '\u3400', '\U0002F800', '\U00032FA2', '\u037a', '\U0001D538', '\u2118', '\u30fb']
SOME_NAMES = ['A', 'B', 'C', 'a', 'b', 'value', 'kind', 'x1', '_p', 'T', 'K', 'Error', 'Array', 'string', 'type', 'class', 'def', 'None', 'self', 'List', 'readonly', 'from', 'Symbol', 'in']


def fill(s, template, depth):
    def sub(m):
        k = m[0]
        if k == 'N':
            return s.pick(SOME_NAMES[:12] if s.b(80) else SOME_NAMES if s.b(75) else ODD_NAMES)
        if k in 'MD':
            n = s.num(0, 3) if depth > 0 else s.num(0, 1)
            if k == 'M':
                return s.pick(['; ', '; ', ', ', '\n  ']).join(fill(s, s.pick(PLACE[k] if depth > 0 else PLACE[k][:8]), depth - 1) for _ in range(n)) + s.pick(['', ';'])
            return '\n'.join(fill(s, s.pick(PLACE[k]), depth - 1) for _ in range(n))
        return fill(s, s.pick(PLACE[k] if depth > 0 else PLACE[k][:13]), depth - 1)
    return re.sub(r'(?<![\w\\])[NTMDLP](?![\w\\])', sub, template) if depth > -3 else re.sub(r'(?<!\w)[NTMDLP](?!\w)', 'A', template)


def build_constructs(s):
    """constructs of TypeScript in documents that are otherwise in order"""
    parts = []
    for _ in range(s.num(1, 4)):
        k = s.i(10)
        if k < 3:
            parts.append(M.render(G.gen_doc(s, dict(decls=(1, 2), depth=2))))
        elif k < 6:
            # a construct as the only unusual one
            parts.append('interface %s { a: string; %s%s b: number }' % (s.pick(SOME_NAMES[:3]), fill(s, s.pick(PLACE['M']), 1), s.pick([';', ';', '\n', ','])))
        else:
            parts.append(fill(s, s.pick(PLACE['D']), 2))
    return {'text': '\n'.join(parts) + '\n', 'cfg': cfg(s)}


_pool = {}


def compile_normally(text, cfg):
    """with the usual depth of the stack, which Hypothesis changes, and with a fresh stack"""
    if os.getpid() not in _pool:
        _pool[os.getpid()] = concurrent.futures.ThreadPoolExecutor(1)
    limit = sys.getrecursionlimit()

    def work():
        sys.setrecursionlimit(1000)
        try:
            return sut.compile_ts(text, cfg)
        finally:
            sys.setrecursionlimit(limit)
    with warnings.catch_warnings():
        return _pool[os.getpid()].submit(work).result()


def check(case):
    text = sut.as_text(case['text'])
    code, errors = compile_normally(text, case['cfg'])
    if not isinstance(errors, list):
        raise Violation('errors are not a list: %r' % (errors,))
    lines = text.split('\n')
    for e in errors:
        if not (0 <= e.pos <= len(text)):
            raise Violation('position %d of the error "%s" is not inside of the text of length %d' % (e.pos, e, len(text)))
        if not (1 <= e.line <= len(lines)) or not (1 <= e.column <= len(lines[e.line - 1]) + 1):
            raise Violation('line %d, column %d of the error "%s" do not exist in the text' % (e.line, e.column, e))
        if not e.message:
            raise Violation('error without message at %d' % e.pos)
    if any(sut.is_err(e) for e in errors):
        return errors
    if not isinstance(code, str):
        raise Violation('neither error nor code but %r' % (code,))
    try:
        compile(code, '<generated>', 'exec', dont_inherit=True)
    except (SyntaxError, ValueError) as e:
        if not FUNCTION.search(sut.body(code)):
            raise Violation('no error is reported, but the generated code is not valid Python: %s\n%s' % (e, sut.snippet(code)))
    return errors


FUNCTION = re.compile(r'^\s*(async )?def \w', re.M)


def classify(case):
    text = sut.as_text(case['text'])
    ls = ['damaged'] if case.get('damaged') else []
    if 'depth' in case:
        ls.append('nesting:%d' % case['depth'])
    try:
        code, errors = compile_normally(text, case['cfg'])
    except Exception:
        return True, ls + ['raises']
    bad = [e for e in errors if sut.is_err(e)]
    ls.append('rejected' if bad else 'accepted')
    ls.append('errors:%d' % min(len(bad), 5))
    if any(int(e.code) >= 10000 for e in bad):
        ls.append('fatal')
    last = max([e.pos for e in bad], default=0)
    return len(text) >= 20 and (bool(text[:last].strip()) or (not bad and bool(case.get('damaged') or case.get('depth', 0) > 5))), ls


def render(case):
    return '%s\n%s' % (case['cfg'], case['text'])


FACETS = [
    Facet('damaged', lambda: docs.strategy(build_damaged), check, classify, 6000, 200000, render, hang_is_violation=True),
    Facet('soup', lambda: docs.strategy(build_soup), check, classify, 4000, 100000, render, hang_is_violation=True),
    Facet('constructs', lambda: docs.strategy(build_constructs), check, classify, 5000, 150000, render, hang_is_violation=True),
    Facet('text', text_cases, check, classify, 4000, 100000, render, hang_is_violation=True),
    Facet('deep', lambda: docs.strategy(build_deep), check, classify, 400, 6000, render, hang_is_violation=True),
]
