"""C27: the TypeScript parts of language-server specifications are extracted completely."""
import functools
import http.server
import importlib.util
import os
import posixpath
import re
import subprocess
import sys
import threading

from checks.c16 import scratch
from vf import core, docs, gen as G, sut, tsmodel as M
from vf.core import Facet, Violation

TECHNIQUE = ('property-based testing: generated trees of specification files against a model of their declarations; extraction in the process (from files and over '
             'HTTP on the loopback interface) and by the script, followed by the transpiler (Hypothesis)')
RULE = 'a case is a tree of specification files; non-trivial: at least two code blocks with declarations, and an included file, a usage example or a block in another language'
ASSUMPTIONS = ['code blocks are closed, and opened by ```typescript or another language', 'a usage example starts with { or [ or a call at the start of a line and extends to the end of its block',
               'files that contain nothing but the name of another one are links to a file in the same directory; all other files have several lines',
               'relative includes are relative to the including file, absolute ones to _includes beside _specifications']

PROSE = ['#### Some Request', 'The `foo` request is sent {from} the client.', 'interface Prose { a: string; }', '* _Response_:', '{{ page.url }}', '', '  ', '[^1]: a note', '// no comment',
         'const a = 1;', '<div class="anchor">', 'use ` ``` ` here', '{% assign x = y %}', '~~~', 'Größe: 1 → 2', '{% include_relative', '``` typescript of course', "type T = 'x';", 'see ```typescript']
OTHER = ['json', 'ts', 'javascript', '', 'bash', 'typescript2', 'proto']
EXAMPLES = ['{', '[', '{ "a": 1,', '[{', "foo(1, 2);", 'connection.onRequest(x => {', 'a.b.c(', '{}']
NAMES = ['types/uri.md', 'types/position.md', 'general/initialize.md', 'language/typeHierarchy.md', 'a.md', 'B2.md', 'messages/3.17/x.md', 'text-document/did_open.md', 'work_done.md', 'v1.0/deep/er/z.md']


SNIPPETS = ['export interface Changes {\n\t[uri: DocumentUri]: TextEdit[];\n}', 'interface F {\n  f(a: string): string;\n}', 'type T = A |\n  { a: string } |\n\t[number, string];',
            'export namespace N {\n\texport const a = 1;\n}', 'interface G {\n  a: string; // {\n\n  /* [x] */ b: string;\n}']


def gen_block(s):
    """a code block of declarations: lines"""
    lines = []
    for _ in range(s.num(1, 2)):
        doc = G.gen_doc(s, dict(decls=(1, 2), depth=1))
        text = M.render(doc)
        if s.b(30):
            text += s.pick(SNIPPETS) + '\n'
        if s.b(40):
            text = '/**\n * A comment about {this} and [that]: f(x)\n */\n' + text
        lines += text.rstrip('\n').split('\n') + ['']
    return [l for l in lines if not starts_example(l)]


def starts_example(line):
    return re.match(r'[{\[]|\w+(?:\.\w+)*\(', line) is not None


def gen_parts(s, names, depth, root):
    """list of ['prose', lines] ['ts', lines, open, example] ['other', language, lines] ['include', kind, name, file, form]"""
    parts = []
    for _ in range(s.num(1, 5)):
        k = s.i(10)
        if k < 2:
            parts.append(['prose', [s.pick(PROSE) for _ in range(s.num(1, 3))]])
        elif k < 6:
            ex = []
            if s.b(25):
                ex = [s.pick(EXAMPLES), '  "a": 1', 'interface NotThis { a: string; }', '}'][:s.num(1, 4)]
            lines = gen_block(s) if not ex or s.b(50) else []
            if s.b(40):
                lines.insert(s.i(len(lines) + 1), s.pick(['// a comment', '//', '//interface X { a: string; }', '   // indented comment']))
            parts.append(['ts', lines, s.pick(['```typescript', '```typescript', '  ```typescript', '```typescript  ', '\t```typescript']), ex, s.pick(['```', '```', '  ```', '``` '])])
        elif k == 6:
            parts.append(['other', s.pick(OTHER), ['interface Other { a: string; }', '{ "a": [1] }', '  x(1)'][:s.num(1, 3)]])
        elif names and depth:
            n = names.pop(s.i(len(names)))
            kind = s.pick(['include', 'include_relative']) if root else s.pick(['include', 'include', 'include_relative'])
            sub = gen_parts(s, names, depth - 1, root and kind == 'include_relative')
            parts.append(['include', kind, n, sub, s.pick(['{%% %s %s %%}', '{%%%s %s%%}', '{%%  %s   %s  %%}', 'see {%% %s %s %%} there', '  {%% %s %s %%}'])])
    return parts


def build(s, http=True):
    return {'parts': gen_parts(s, s.shuffle(NAMES), 3, True), 'http': http and s.b(15), 'crlf': s.b(10), 'link': s.b(15),
            'name': s.pick(['specification.md', 'specification-3-16.md', 'v1.0.md']), 'base': s.pick(['_specifications/lsp/3.18', '_specifications', '_specifications/x_includes'])}


def text_of(parts):
    lines = []
    for p in parts:
        if p[0] == 'prose':
            lines += p[1]
        elif p[0] == 'ts':
            lines += [p[2]] + p[1] + p[3] + [p[4]]
        elif p[0] == 'other':
            lines += ['```' + p[1]] + p[2] + ['```']
        else:
            lines.append(p[4] % (p[1], p[2]))
    return '\n'.join(lines + ['', ''])


def expected(parts):
    """the lines to be extracted, without empty ones"""
    res = []
    for p in parts:
        if p[0] == 'ts':
            res += [l for l in p[1] if not l.startswith('//') and l.strip()]
        elif p[0] == 'include':
            res += expected(p[3])
    return res


def files(parts, directory, inc, out=None):
    """{path: text} of the included files"""
    out = {} if out is None else out
    for p in parts:
        if p[0] == 'include':
            path = posixpath.join(directory if p[1] == 'include_relative' else inc, p[2])
            out[path] = text_of(p[3])
            files(p[3], posixpath.dirname(path), inc, out)
    return out


def lay_out(case):
    """writes the files; -> path of the specification"""
    name = posixpath.join(case['base'], case['name'])
    tree = files(case['parts'], case['base'], '_includes')
    tree[name] = text_of(case['parts'])
    if case['link']:
        real = posixpath.join(case['base'], 'real.md')
        tree[real] = tree[name]
        tree[name] = None
    for path, text in tree.items():
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if text is None:
            data = b'real.md'
        else:
            data = (text.replace('\n', '\r\n') if case['crlf'] else text).encode('utf-8')
            if len(data) < 300:
                data += (b'\r\n' if case['crlf'] else b'\n') + b'more prose ' * 30
        with open(path, 'wb') as f:
            f.write(data)
    return name


def lines_of(path):
    with open(path, encoding='utf-8', newline='') as f:
        text = f.read()
    return [l.rstrip('\r') for l in text.split('\n') if l.strip() and not l.startswith('/* source file: ')]


def demo():
    path = os.path.join(core.code_dir(), 'demo', 'extract_ts_from_lsp_specs.py')
    spec = importlib.util.spec_from_file_location('extract_ts_from_lsp_specs', path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


_server = None


class Handler(http.server.SimpleHTTPRequestHandler):
    def log_message(self, *args):
        pass


def serve():
    """address of a server of the files below the scratch directory of this process"""
    global _server
    if _server is None or _server[0] != os.getpid():
        class H(Handler):
            def translate_path(self, path):
                self.directory = H.root
                return super().translate_path(path)
        srv = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
        threading.Thread(target=srv.serve_forever, daemon=True).start()
        _server = os.getpid(), srv, H
    _server[2].root = os.getcwd()
    return 'http://127.0.0.1:%d/' % _server[1].server_address[1]


def compare(got, want, what=''):
    if got != want:
        k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Violation('%sextracted lines differ from line %d on:\n%s\n--- instead of\n%s' % (what, k + 1, '\n'.join(got[k:k + 6]), '\n'.join(want[k:k + 6])))


def check(case):
    m = demo()
    with scratch():
        url = lay_out(case)
        if case['http']:
            os.environ['no_proxy'] = '*'
            url = serve() + url
        elif len(url) % 2:
            url = os.path.abspath(url)
        with open(os.devnull, 'w') as null:
            import contextlib
            with contextlib.redirect_stdout(null):
                specs = m.download_specs(url)
                m.extract(specs, 'dest.ts')
        compare(lines_of('dest.ts'), expected(case['parts']))


def check_program(case):
    """the script, and the transpiler on its result"""
    with scratch():
        url = lay_out(case)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='')
        r = subprocess.run([sys.executable, os.path.join(core.code_dir(), 'demo', 'extract_ts_from_lsp_specs.py'), url], capture_output=True, text=True, timeout=120, env=env)
        dest = os.path.splitext(case['name'])[0] + '.ts'
        if r.returncode or not os.path.exists(dest):
            raise Violation('exit status %s, %s %s\n%s' % (r.returncode, dest, 'exists' if os.path.exists(dest) else 'is missing', r.stderr[-1000:]))
        want = expected(case['parts'])
        compare(lines_of(dest), want)
        with open(dest, encoding='utf-8') as f:
            text = f.read()
        if text.strip():
            sut.set_config({})
            c1, e1 = sut.P().compile_src(sut.as_text(text))
            sut.set_config({})
            c2, e2 = sut.P().compile_src(sut.as_text('\n'.join(want)))
            faulty = [any(map(sut.is_err, e)) for e in (e1, e2)]
            if faulty[0] != faulty[1] or (not any(faulty) and (sut.body(c1) != sut.body(c2) or [(e.code, e.message) for e in e1] != [(e.code, e.message) for e in e2])):
                raise Violation('transpiling the extracted text gives something else than transpiling its declarations: %s %s\n%s' % (e1[:2], e2[:2], text))


def walk(parts):
    for p in parts:
        yield p
        if p[0] == 'include':
            yield from walk(p[3])


def classify(case):
    ps = list(walk(case['parts']))
    labels = {p[0] for p in ps} | {k for k in ('http', 'crlf', 'link') if case[k]}
    labels |= {'example' for p in ps if p[0] == 'ts' and p[3]} | {p[1] for p in ps if p[0] == 'include'}
    if any(q[0] == 'include' for p in ps if p[0] == 'include' for q in p[3]):
        labels.add('nested')
    blocks = sum(p[0] == 'ts' and bool(p[1]) for p in ps)
    return blocks >= 2 and bool(labels & {'include', 'example', 'other'}), sorted(labels)


def render(case):
    tree = files(case['parts'], case['base'], '_includes')
    return '\n'.join(['%s%s' % (posixpath.join(case['base'], case['name']), {k: case[k] for k in ('http', 'crlf', 'link')}), text_of(case['parts'])]
                     + ['=== %s\n%s' % kv for kv in tree.items()])


FACETS = [
    Facet('extraction', lambda: docs.strategy(build), check, classify, 4000, 60000, render),
    Facet('program', lambda: docs.strategy(functools.partial(build, http=False)), check_program, classify, 200, 4000, render),
]
