"""Documents with defects."""
from . import tsmodel as M
from .layout import Tape

STRAY = [';', ',', '{', '}', '|', 'export', ':', '?', '=', 'a', '(', ')', '[', ']', '>', '<', '1', '"', "'", '...', '=>', 'interface', 'type', 'enum',
         '/*', '*/', '//', '-', '.', '\\', '#', '@', 'namespace', 'const', 'class', 'extends', 'import', '\u00e4', '&', 'declare', 'function', 'new']


def gen_damage(s, n=3):
    """a few edits of a token sequence"""
    return [[s.pick(['drop', 'insert', 'replace', 'double', 'swap', 'cut', 'behead', 'splice', 'chars']), s.i(400), s.i(len(STRAY)), s.i(400)]
            for _ in range(s.num(1, n))]


def apply(toks, edits):
    toks = list(toks)
    for what, i, x, k in edits:
        if not toks:
            break
        i, k = i % len(toks), k % len(toks)
        if what == 'drop':
            del toks[i]
        elif what == 'insert':
            toks.insert(i, STRAY[x])
        elif what == 'replace':
            toks[i] = STRAY[x]
        elif what == 'double':
            toks.insert(i, toks[i])
        elif what == 'swap':
            toks[i], toks[k] = toks[k], toks[i]
        elif what == 'cut':
            del toks[i:]
        elif what == 'behead':
            del toks[:i]
        elif what == 'splice':
            a, b = min(i, k), max(i, k)
            del toks[a:b]
        elif what == 'chars':
            t = toks[i]
            p = k % (len(t) + 1)
            toks[i] = t[:p] + STRAY[x][:1] + t[p + (x % 2):]
    return toks


def tokens(doc, style=None):
    return [t for t, f in (M.doc_tokens(doc, Tape(style)) if style else M.doc_tokens(doc)) if t]
