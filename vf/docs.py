"""Shared pieces of the checks that work on whole documents."""
import sys
import types
import typing

from hypothesis import strategies as st

from . import compare, core, gen as G, sut, tsmodel as M

_ready = False

# names that TypeScript or the converter give a meaning of their own
NAMES_OF_TYPES = set('''object array string number decimal integer uinteger boolean null undefined
    unknown any void Array ReadonlyArray'''.split())
# names of types of the TypeScript library that documents can declare anew
LIB_NAMES = {n for n, _ in G.LIB}


def preamble_names():
    names = set()
    for cfg in ({}, {'UseNotRequired': True}):
        code, errors = sut.compile_ts('interface Zz9 { a: string; }\n', cfg)
        if not code:
            raise core.HarnessError('the simplest document is not transpiled: %s' % errors)
        with sut.Gen(code) as g:
            names |= set(vars(g.mod)) - {'Zz9'}
    return sorted(names | NAMES_OF_TYPES | set(getattr(sut.P(), 'TYPE_NAME_SUBSTITUTION', ())) - LIB_NAMES)


def reserve():
    """Takes the names that the preamble of generated modules defines out of the name pools."""
    global _ready
    if _ready:
        return
    sut.P()
    try:
        names = set(core.in_child(preamble_names))     # in a fork: leaves no traces in this process
    except core.Violation as e:
        raise core.HarnessError(str(e))
    names |= {'str', 'int', 'float', 'bool', 'list', 'dict', 'tuple', 'set', 'type', 'object', 'len', 'frozenset', 'None', 'True', 'False'}
    G.set_reserved(names)
    _ready = True


def strategy(build):
    """build(src) -> JSON-able case"""
    reserve()

    @st.composite
    def cases(draw):
        return build(G.Src(draw))
    return cases()


def render(case):
    """rendering of cases that are dicts with a document and options"""
    return 'options: %s\n%s' % (case.get('cfg'), M.render(case['doc']))


def classify_doc(case, need):
    ls = M.labels(case['doc'])
    cfg = case.get('cfg') or {}
    for k, v in cfg.items():
        if v is True or k == 'RenderAnonymous':
            ls.append('cfg:%s=%s' % (k, v))
    return need(set(ls), case), ls


def run(case, types=True, only=None):
    """Transpiles, executes and compares; returns nothing."""
    doc, cfg = case['doc'], case['cfg']
    src = M.render(doc)
    code = sut.accept(src, cfg)
    with sut.Gen(code, src=src) as g:
        return compare.Compare(doc, g, cfg, types=types).document(only)


def classes_of(mod):
    """all classes defined in a generated module, nested ones included, and anonymous ones found in annotations"""
    seen, res = set(), []

    def add(c):
        if id(c) in seen or getattr(c, '__module__', None) != mod.__name__:
            return
        seen.add(id(c))
        res.append(c)
        for v in list(vars(c).values()):
            if isinstance(v, type):
                add(v)
        for a in list(getattr(c, '__annotations__', {}).values()):
            walk(a)

    def walk(a, depth=12):
        if depth == 0:
            return
        if isinstance(a, type) and typing.get_origin(a) is None:
            add(a)
        for x in typing.get_args(a):
            if isinstance(x, list):
                for y in x:
                    walk(y, depth - 1)
            else:
                walk(x, depth - 1)

    for v in list(vars(mod).values()):
        if isinstance(v, type):
            add(v)
        else:
            walk(v)
    for a in list(getattr(mod, '__annotations__', {}).values()):
        walk(a)
    return res
