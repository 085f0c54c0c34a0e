"""C12: malformed declarations are always reported, where they are."""
from vf import damage, docs, gen as G, sut, tsmodel as M
from vf.core import Facet, Violation
from vf.layout import Tape, gen_tape, layout

TECHNIQUE = 'property-based testing: defects of known places are injected into generated documents, oracle on the positions of the errors (Hypothesis)'
RULE = ('a case is a document with one to three damaged declarations; non-trivial: at least three declarations, at least one of them undamaged and '
        'at least one damaged at a place that is not its beginning')
ASSUMPTIONS = ['defects are injected that no TypeScript document can have: unbalanced brackets, characters outside of the alphabet, missing names, '
               'doubled operators', 'only syntax errors count as reports; follow-up notes on the tree as a whole (codes 1000 and 10100) do not']

STRAY = ['#', '%', '~', '^', '\\', '@', '!', '`', '$$#']
BRACKETS = ['(', ')', '[', ']', '{', '}', '<', '>']
FOLLOW_UP = (1000, 10100)


NUMBERS = ['0x1F', '1_000', '10n', '1.5e', '5px', '007', '1e+', '.5', '1.', '1..2', '--1', '1e5e', '0b1', '2.5f']


def hurt(toks, edit, lo=2):
    """-> damaged tokens or None; the result cannot be part of a valid document; lo: 2 behind `export` and
    the keyword, 3 behind the name"""
    what, i, x = edit
    toks = list(toks)
    n = len(toks)
    if what == 'stray':
        toks.insert(lo + i % (n - lo), STRAY[x % len(STRAY)])
    elif what == 'bracket':
        toks.insert(lo + i % (n - lo) + 1, BRACKETS[x % len(BRACKETS)])
    elif what in ('unbalance', 'unclosed'):
        at = [k for k, t in enumerate(toks) if t in (BRACKETS if what == 'unbalance' else BRACKETS[1::2])]
        if not at:
            return None
        del toks[at[i % len(at)]]
    elif what == 'name':
        del toks[2]
    elif what == 'double':
        at = [k for k, t in enumerate(toks) if t in (':', '=', '|', '?')]
        if not at:
            return None
        toks.insert(at[i % len(at)], toks[at[i % len(at)]])
    elif what in ('nocomma', 'twocommas'):
        at = commas(toks, lo, what == 'nocomma')
        if not at:
            return None
        k = at[i % len(at)]
        toks[k:k + 1] = [] if what == 'nocomma' else [',', ',']
    elif what == 'number':
        at = [k for k, t in enumerate(toks) if t.lstrip('-')[:1].isdigit()]
        if not at:
            return None
        toks[at[i % len(at)]] = NUMBERS[x % len(NUMBERS)]
    elif what == 'cut':
        at = [k for k, t in enumerate(toks) if k > lo and t in ('{', '[', '(', '=', ':', '<')]
        if not at:
            return None
        del toks[at[i % len(at)] + 1:]
    return toks


def commas(toks, lo, needed):
    """places of commas; needed: only of those that cannot be left out"""
    res, stack = [], []
    for k, t in enumerate(toks):
        if t in BRACKETS[0::2]:
            stack.append(t)
        elif t in BRACKETS[1::2] and stack:
            stack.pop()
        elif t == ',' and k > lo:
            inside = stack[-1] if stack else ''
            if inside == '{' and 'enum' not in toks[:3]:
                if needed:
                    continue         # between fields, where it is optional
            if needed and (toks[k + 1] in ('[', '(', ')', '}', ']', '<', '{') or toks[k - 1] in ('readonly', 'static')):
                continue
            res.append(k)
    return res


KINDS = ['stray', 'stray', 'bracket', 'unbalance', 'name', 'double', 'cut', 'nocomma', 'twocommas', 'number']


def build(kinds, features, maxdamage, lo=2):
    def b(s):
        doc = [d for d in G.gen_doc(s, features)]
        damages = []
        for i in sorted(s.sample(list(range(len(doc))), s.num(1, maxdamage))):
            damages.append([i, s.pick(kinds), s.i(60), s.i(14)])
        return {'doc': doc, 'damages': damages, 'layout': gen_tape(s) if s.b(40) else [1], 'cfg': G.gen_cfg(s, keep=True, enums=False), 'from': lo}
    return lambda: docs.strategy(b)


def assemble(case):
    """-> text, [(start, end, damaged)]"""
    hit = {i: e for i, *e in case['damages']}
    tape = Tape(case['layout'])
    text, spans = '', []
    for i, d in enumerate(case['doc']):
        toks = damage.tokens([d])
        bad = False
        if i in hit:
            new = hurt(toks, hit[i], case.get('from', 2))
            if new is not None:
                toks, bad = new, True
        # the parser resumes at the word wherever it finds it
        toks = [t.replace('export', 'exp') if t[0] in '"\'' else t for t in toks]
        part = layout([(t, '') for t in toks], tape)
        if 'export' in part.replace(toks[0], '', 1):
            part = layout([(t, '') for t in toks], Tape([1]))      # no such word in comments
        if not part.endswith('\n'):
            part += '\n'
        # the declaration proper begins behind the comments in front of it
        spans.append((len(text), len(text) + len(part), bad))
        text += part
    return text, spans


def syntax_errors(case, text):
    code, errors = sut.compile_ts(text, case['cfg'])
    bad = [e for e in errors if sut.is_err(e)]
    if not bad:
        raise Violation('a malformed document is accepted without an error:\n%s\n--- as:\n%s' % (text, sut.snippet(code or 'None')))
    syn = sorted(e.pos for e in bad if int(e.code) not in FOLLOW_UP)
    if not syn:
        raise Violation('no syntax error is reported, but only %s:\n%s' % ([str(e) for e in bad], text))
    return syn, bad


def limit(case, spans, i):
    """where a defect of declaration i has to be noticed at the latest: while the following undamaged declaration is
    read (`interface A { a :` followed by `interface B extends A <` can be read as the beginning of one interface),
    unless that one can be read to its end as members of the damaged one (`interface A {` followed by `const b: T;`);
    a namespace that is not closed goes on to the end of the document"""
    if case['doc'][i]['k'] in ('ns', 'box'):
        return spans[-1][1]
    return next((b for (a, b, bad), d in zip(spans[i + 1:], case['doc'][i + 1:]) if not bad and d['k'] not in ('const', 'func')), spans[-1][1])


def check(case):
    text, spans = assemble(case)
    hurt_at = [i for i, x in enumerate(spans) if x[2]]
    if not hurt_at:
        return
    syn, bad = syntax_errors(case, text)
    msg = '\n'.join(str(e) for e in bad) + '\n--- in:\n' + text
    first = hurt_at[0]
    lo, hi = spans[first][0], limit(case, spans, first)
    if not (lo <= syn[0] <= hi):
        raise Violation('the first damaged declaration is at %d..%d, but the first syntax error at %d:\n%s' % (lo, spans[first][1], syn[0], msg))
    if any(case['doc'][i]['k'] in ('ns', 'box') for i in hurt_at) or any(d[1] not in ('stray', 'double', 'name', 'nocomma', 'twocommas', 'number') for d in case['damages']):
        return       # what is left open goes on with what follows
    for i, (a, b, dam) in enumerate(spans):
        if not dam and (i == 0 or not spans[i - 1][2]):
            for p in syn:
                if a <= p < b and not (p == a and i > 0):
                    raise Violation('a syntax error is reported at %d in the undamaged declaration at %d..%d:\n%s' % (p, a, b, msg))


def check_each(case):
    check(case)
    text, spans = assemble(case)
    hurt_at = [i for i, x in enumerate(spans) if x[2]]
    if not hurt_at:
        return
    syn, bad = syntax_errors(case, text)
    for i in hurt_at:
        a, b = spans[i][0], limit(case, spans, i)
        if not any(a <= p <= b for p in syn):
            raise Violation('the damaged declaration at %d..%d is not reported:\n%s\n--- in:\n%s' % (a, b, '\n'.join(str(e) for e in bad), text))


def classify(case):
    text, spans = assemble(case)
    n = sum(1 for x in spans if x[2])
    ls = ['damage:' + d[1] for d in case['damages']] + ['damaged declarations:%d' % n] + ['kind:' + case['doc'][d[0]]['k'] for d in case['damages']]
    return len(spans) >= 3 and 0 < n < len(spans), ls


def render(case):
    return '%s\n%s\n%s' % (case['cfg'], case['damages'], assemble(case)[0])


NOEXP = [n for n in G.FIELD_NAMES if n != 'export']
FACETS = [
    Facet('one', build(KINDS, dict(export=True, decls=(1, 5), depth=3, unsupported=True, funcs=True, boxes=True), 1), check, classify, 10000, 200000, render),
    Facet('several', build(['stray', 'stray', 'double', 'cut', 'unclosed', 'number'], dict(export=True, decls=(2, 6), depth=2, ns=False, field_names=NOEXP), 3, 3), check_each, classify, 10000, 200000, render),
]
