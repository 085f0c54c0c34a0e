"""Driving the transpiler under test and observing the modules it generates."""
import itertools
import sys
import types
import typing

from .core import Violation, fresh_typing

BASE = dict(BaseClassName='TypedDict', RenderAnonymous='local', ClassDecorator='', UseEnum=True,
            UseTypeUnion=False, UseTypeParameters=False, UseLiteralType=False,
            UseVariadicGenerics=False, UseNotRequired=False, KeepMultilineComments=False)

BEGIN = '##### BEGIN OF ts2python generated code'
END = '##### END OF ts2python generated code'

_P = None


def P():
    global _P
    if _P is None:
        import ts2pythonParser
        _P = ts2pythonParser
    return _P


def set_config(cfg=None):
    from DHParser.configuration import set_config_value
    full = dict(BASE)
    full.update(cfg or {})
    for k, v in full.items():
        set_config_value('ts2python.' + k, v, allow_new_key=True)
    return full


ERROR_LEVEL = 1000


def as_text(src):
    """A text that is taken as source, not as the name of a file."""
    return src if '\n' in src else src + '\n'


def compile_ts(src, cfg=None):
    """-> (code or None, errors)"""
    set_config(cfg)
    return P().compile_src(as_text(src))


def is_err(e):
    return e.code >= ERROR_LEVEL


def accept(src, cfg=None):
    """Transpiles a document that has to be accepted; returns the code."""
    code, errors = compile_ts(src, cfg)
    bad = [str(e) for e in errors if is_err(e)]
    if bad:
        raise Violation('errors for a valid document: %s\n%s' % (bad[:3], src))
    if not isinstance(code, str) or not code:
        raise Violation('no code and no error for a valid document: %r\n%s' % (code, src))
    return code


def body(code):
    """The generated part between the markers."""
    i, k = code.find(BEGIN), code.find(END)
    if i < 0 or k < 0:
        raise Violation('generated code lacks its begin or end marker:\n' + code[-500:])
    return code[i + len(BEGIN):k].strip('\n')


_n = itertools.count()


class Gen:
    """An executed generated module; use as context manager."""
    def __init__(self, code, inject=None, src=''):
        self.code = code
        self.src = src
        self.name = 'gen_%d' % next(_n)
        self.mod = types.ModuleType(self.name)
        for k, v in (inject or {}).items():
            setattr(self.mod, k, v)

    def __enter__(self):
        sys.modules[self.name] = self.mod
        fresh_typing()
        try:
            co = compile(self.code, '<%s>' % self.name, 'exec', dont_inherit=True)
        except (SyntaxError, ValueError) as e:
            del sys.modules[self.name]
            raise Violation('generated code is not valid Python: %s: %s\n%s\n--- from:\n%s' % (
                type(e).__name__, e, snippet(self.code), self.src))
        try:
            exec(co, self.mod.__dict__)
        except Exception as e:
            del sys.modules[self.name]
            raise Violation('generated code fails when executed: %s: %s\n%s\n--- from:\n%s' % (
                type(e).__name__, e, snippet(self.code), self.src))
        return self

    def __exit__(self, *exc):
        sys.modules.pop(self.name, None)
        return False

    def get(self, name):
        try:
            return getattr(self.mod, name)
        except AttributeError:
            raise Violation('%s is not defined in the generated module\n%s\n--- from:\n%s' % (
                name, snippet(self.code), self.src))


def snippet(code):
    i = code.find(BEGIN)
    return code[i:] if i >= 0 else code[-3000:]


def hints(cls):
    """Resolved annotations, in order, inherited ones included."""
    try:
        return typing.get_type_hints(cls, include_extras=True)
    except Exception as e:
        raise Violation('annotations of %s cannot be resolved: %s: %s' % (
            getattr(cls, '__qualname__', cls), type(e).__name__, e))
