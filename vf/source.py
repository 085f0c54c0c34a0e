"""A facet without generator: single documents with the expectation written down, for known findings and for
replays of repaired defects.  The search for violations does not depend on it."""
import typing

from . import docs, sut
from .core import Facet, Violation


def check(case):
    """text: the document; cfg: options; errors: it has to be reported as faulty (else: accepted without errors);
    warnings: there has to be a warning; expr: Python expression about the module that has to be true"""
    text, cfg = case['text'], case.get('cfg') or {}
    code, errors = sut.compile_ts(text, cfg)
    bad = [str(e) for e in errors if sut.is_err(e)]
    if case.get('errors'):
        if not bad:
            raise Violation('a faulty document is accepted:\n%s' % text)
        return
    if bad or not code:
        raise Violation('errors for a valid document: %s\n%s' % (bad[:3], text))
    if case.get('warnings') and not errors:
        raise Violation('no warning:\n%s' % text)
    with sut.Gen(code, src=text) as g:
        for c in docs.classes_of(g.mod):
            sut.hints(c)
        typing.get_type_hints(g.mod)
        if case.get('expr'):
            env = dict(vars(typing), hints=sut.hints, body=lambda: sut.body(code), validate=validate, raises=raises)
            env.update(vars(g.mod))
            try:
                ok = eval(case['expr'], env)
            except Exception as e:
                raise Violation('%s: %s: %s\n%s\n--- from:\n%s' % (case['expr'], type(e).__name__, e, sut.snippet(code), text))
            if not ok:
                raise Violation('not so: %s\n%s\n--- from:\n%s' % (case['expr'], sut.snippet(code), text))


def validate(value, type_):
    """whether the value is found valid"""
    from ts2python.json_validation import validate_type
    try:
        validate_type(value, type_)
        return True
    except (TypeError, ValueError, KeyError):
        return False


def raises(f, *args):
    """the class of the exception or None"""
    try:
        f(*args)
    except Exception as e:
        return type(e)


FACET = Facet('source', None, check, lambda case: (True, ['source']), 0, 0,
              lambda case: 'options: %s\n%s' % (case.get('cfg'), case['text']))
