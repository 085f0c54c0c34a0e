"""C14: file processing writes exactly the transpilation, and skips only if current."""
import os
import re
import shutil
import tempfile

from vf import core, damage, docs, gen as G, sut, tsmodel as M
from vf.core import Facet, Violation
from vf.layout import Tape, gen_tape, layout

TECHNIQUE = ('stateful property-based testing: generated histories of edits, changes of the configuration, processing runs and changes of the result '
             'files, a reference model of the files after every run (Hypothesis)')
RULE = ('a case is a history of steps on a scratch directory; non-trivial: at least two processing runs of the same target with a change of source, '
        'configuration, transpiler or result file in between')
ASSUMPTIONS = ['a result file that was changed by hand but still carries the hash of its source may be left as it is or be written anew',
               'a change of the transpiler is simulated by the path of its script, the contents of which enter the hash']

OPTIONS = {'RenderAnonymous': ['local', 'toplevel', 'functional'], 'UseEnum': [True, False], 'UseTypeUnion': [False, True], 'UseTypeParameters': [False, True],
           'UseLiteralType': [False, True], 'UseVariadicGenerics': [False, True], 'UseNotRequired': [False, True], 'KeepMultilineComments': [False, True],
           'BaseClassName': ['TypedDict', 'object', 'BaseModel'], 'ClassDecorator': ['', '@final', 'deco']}
SOURCES = ['a.ts', 'b.d.ts', 'sub/c.ts']
TARGETS = ['', 'a.py', 'out/r.py', 'x.y.py', 'types.pyi', 'plain', 'out/x.y']


def gen_text(s):
    kind = s.pick(['ok', 'ok', 'small', 'damaged', 'warning', 'comment', 'crlf', 'fatal', 'error'])
    if kind == 'small':
        return s.pick(['interface A { a: string }\n', 'interface B { a?: string | null }\n', 'type T = "x";\n', 'enum E { a = 1 }\n', '\n', '// only a comment\n',
                       'interface A { a: { b: string } }\n', 'interface G<T> { a: T }\n'])
    if kind == 'warning':
        return 'interface W { a: string & number; b: W["a"]; m(x: number): void; }\n'
    if kind == 'error':      # that do not keep a result from being written
        return s.pick(['interface E { a\u00b2: string }\n', 'interface E { [Symbol.other](): string; b: string & number }\n', 'type E\u00b9 = string;\n'])
    if kind == 'fatal':
        return 'interface A { a: string }\ninterface { b: # }\nexport type = %s;\n' % s.pick(['string', 'number'])
    doc = G.gen_doc(s, dict(decls=(1, 2), depth=2, fields=(0, 2), unsupported=True))
    toks = damage.tokens(doc)
    if kind == 'damaged':
        toks = damage.apply(toks, damage.gen_damage(s, 1))
    t = layout([(t, '') for t in toks], Tape(gen_tape(s) if kind == 'comment' else [1]))
    if kind == 'crlf':
        t = t.replace('\r', '').replace('\n', '\r\n')
    return t


def build(s):
    texts = [gen_text(s) for _ in range(s.num(1, 3))]
    steps = []
    for _ in range(s.num(3, 11)):
        k = s.pick(['edit', 'process', 'process', 'config', 'tamper', 'process', 'transpiler', 'delete', 'revert'])
        if k == 'edit':
            steps.append(['edit', s.i(2) if s.b(70) else 2, s.i(len(texts))])
        elif k == 'process':
            steps.append(['process', s.i(len(SOURCES)) if s.b(15) else 0, s.i(len(TARGETS)) if s.b(20) else 1, s.b(12)])
        elif k == 'config':
            o = s.pick(sorted(OPTIONS))
            steps.append(['config', o, s.i(len(OPTIONS[o]))])
        elif k == 'tamper':
            steps.append(['tamper', s.pick(['append', 'cut', 'hash', 'empty', 'other', 'binary', 'body', 'nohash', 'touch']), s.i(100)])
        elif k == 'transpiler':
            steps.append(['transpiler', s.i(3)])
        elif k == 'delete':
            steps.append(['delete'])
        elif k == 'revert':
            steps.append(['edit', 0, 0])
    return {'texts': texts, 'steps': [['edit', 0, 0]] + steps + [['process', 0, 1, False]]}


STAMP = re.compile(r'(# Generated by ts2python version \S+ on ).*')


def norm(code):
    return STAMP.sub(r'\1', code)


def read(name):
    with open(name, 'r', encoding='utf-8', errors='replace') as f:
        return f.read()


def raw(name):
    with open(name, 'rb') as f:
        return f.read()


def write(name, text):
    os.makedirs(os.path.dirname(os.path.abspath(name)), exist_ok=True)
    with open(name, 'w', encoding='utf-8', newline='') as f:
        f.write(text)


class History:
    """the files of a scratch directory, and what is known of each target: the state it was written for"""
    def __init__(self, case):
        self.case = case
        self.P = sut.P()
        self.cfg = dict(sut.BASE)
        self.variant = 0
        self.source = {}           # source index -> text index
        self.script = os.path.join(core.code_dir(), 'ts2pythonParser.py')
        self.written = {}          # target -> state for which its hash stands
        self.last = ''
        self.log = []

    def state(self, text):
        return core.jdump([text, self.cfg, self.variant])

    def set_variant(self, n):
        self.variant = n
        if n == 0:
            self.P.__file__ = self.script
        else:
            name = os.path.abspath('variant%d_ts2pythonParser.py' % n)
            write(name, read(self.script) + '\n# variant %d\n' % n)
            self.P.__file__ = name

    def fail(self, what):
        raise Violation('%s\nsteps so far: %s' % (what, self.log))

    def run(self):
        for step in self.case['steps']:
            self.log.append(step)
            getattr(self, step[0])(*step[1:])

    def edit(self, i, t):
        self.source[i] = t
        write(SOURCES[i], self.case['texts'][t])

    def config(self, option, i):
        self.cfg[option] = OPTIONS[option][i]

    def transpiler(self, n):
        self.set_variant(n)

    def delete(self):
        if os.path.exists(self.last):
            os.remove(self.last)
            self.written.pop(self.last, None)

    def tamper(self, how, n):
        name = self.last
        if not os.path.exists(name):
            return
        text = read(name)
        if how == 'append':
            write(name, text + '\n# by hand\n')
        elif how == 'body':
            write(name, text.replace('class ', 'class Changed', 1))
        elif how == 'cut':
            write(name, text[:len(text) * n // 100])
        elif how == 'hash':
            m = re.search(r'(source_hash__ *= *")([0-9a-f])', text)
            if m:
                # never back to what it was: histories are shorter than that
                write(name, text[:m.start(2)] + '%x' % ((int(m[2], 16) + 1) % 16) + text[m.end(2):])
                self.written.pop(name, None)
        elif how == 'nohash':
            write(name, text.replace('source_hash__', 'sauce_hash__'))
        elif how == 'empty':
            write(name, '')
        elif how == 'other':
            write(name, 'x = %d\n' % n)
        elif how == 'binary':
            with open(name, 'wb') as f:
                f.write(b'\xff\xfe\x00\x80' + text.encode()[:n])
        elif how == 'touch':
            os.utime(name, (n, n))
        if 'source_hash__' not in read(name):
            self.written.pop(name, None)

    def process(self, i, t, as_text):
        if i not in self.source:
            return
        src = SOURCES[i]
        text = self.case['texts'][self.source[i]].replace('\r\n', '\n')
        if as_text and '\n' not in text:
            as_text = False
        target = TARGETS[t] or (os.path.splitext(src)[0] + '.py' if not as_text else 'out.py')
        os.makedirs(os.path.dirname(os.path.abspath(target)), exist_ok=True)
        sut.set_config(self.cfg)
        before = raw(target) if os.path.exists(target) else None
        src_before = raw(src)
        others = {n: raw(n) for n in all_files() if n != target and not n.startswith(os.path.splitext(target)[0] + '_')}
        report = self.P.process_file(text if as_text else src, TARGETS[t])
        self.last = target
        if raw(src) != src_before:
            self.fail('the source file was modified')
        for n, data in others.items():
            if not os.path.exists(n) or raw(n) != data:
                self.fail('another file than the target was changed: %s' % n)
        for n in all_files():
            if n not in others and n not in (target, stem(target) + '_ERRORS.txt', stem(target) + '_WARNINGS.txt'):
                self.fail('a file was left behind: %s' % n)
        sut.set_config(self.cfg)
        code, errors = self.P.compile_src(text)
        fatal = any(int(e.code) >= 10000 for e in errors)
        now = raw(target) if os.path.exists(target) else None
        if fatal:
            if now != before:
                self.fail('a result was written in spite of a fatal error')
        elif now is None:
            self.fail('no result file after processing')
        elif norm(read(target)) != norm(code):
            if now == before and self.written.get(target) == self.state(text):
                pass          # changed by hand, and with the hash of its source
            elif now == before:
                self.fail('the result file was not brought up to date; it is\n%s\n--- instead of\n%s' % (head(read(target)), head(code)))
            else:
                self.fail('the result is not what transpiling yields:\n%s\n--- instead of\n%s' % (head(read(target)), head(code)))
        if not fatal:
            self.written[target] = self.state(text)
        check_report(target, report, errors, self.fail)


def check_report(target, report, errors, fail):
    """the errors and warnings are in the returned file and only there"""
    bad = any(sut.is_err(e) for e in errors)
    name = '' if not errors else stem(target) + ('_ERRORS.txt' if bad else '_WARNINGS.txt')
    if (os.path.abspath(report) if report else '') != (os.path.abspath(name) if name else ''):
        fail('process_file returned %r instead of %r; errors: %s' % (report, name, [str(e) for e in errors]))
    for ext in ('_ERRORS.txt', '_WARNINGS.txt'):
        n = stem(target) + ext
        if n != name and os.path.exists(n):
            fail('there is an outdated report %s: %s' % (n, read(n)))
    if name:
        if not os.path.exists(name):
            fail('there is no report file %s' % name)
        rep = read(name)
        for e in errors:
            if e.message not in rep or '%d:%d' % (e.line, e.column) not in rep:
                fail('the error "%s" is not in the report:\n%s' % (e, rep))
        if len([l for l in rep.split('\n') if re.search(r'\d+:\d+: (Error|Warning|Fatal|Notice)', l)]) != len(errors):
            fail('the report has not exactly the %d errors:\n%s' % (len(errors), rep))


def stem(name):
    return os.path.splitext(name)[0]


def head(text):
    return '\n'.join(text.split('\n')[:1]) + '\n...\n' + (re.findall(r'source_hash__.*', text) or [''])[0] + '\n' + sut.snippet(text)


def all_files():
    return [os.path.relpath(os.path.join(d, f)) for d, _, fs in os.walk('.') for f in fs if not f.startswith('variant')]


def check(case):
    old = os.getcwd()
    tmp = tempfile.mkdtemp(dir=core.scratch_root())
    os.chdir(tmp)
    try:
        h = History(case)
        try:
            h.run()
        finally:
            h.set_variant(0)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def classify(case):
    ls = []
    runs = [k for k, x in enumerate(case['steps']) if x[0] == 'process']
    for x in case['steps']:
        ls.append(x[0] if x[0] != 'tamper' else 'tamper:' + x[1])
    ls.append('runs:%d' % len(runs))
    nt = False
    for a, b in zip(runs, runs[1:]):
        if case['steps'][a][1:3] == case['steps'][b][1:3] and any(x[0] != 'process' for x in case['steps'][a:b]):
            nt = True
    return nt, sorted(set(ls))


def render(case):
    return '\n'.join('--- text %d:\n%s' % (i, t) for i, t in enumerate(case['texts'])) + '\nsteps: ' + '\n       '.join(map(str, case['steps']))


FACETS = [
    Facet('history', lambda: docs.strategy(build), check, classify, 8000, 150000, render),
]
