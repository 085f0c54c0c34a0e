"""C15: an interrupted or failing write is never taken for a current result."""
import errno
import os
import re
import resource
import shutil
import signal
import sys
import tempfile

from checks.c14 import check_report, gen_text, norm, raw, read, write
from vf import core, docs, sut
from vf.core import Facet, Violation

TECHNIQUE = ('fault injection driven by property-based testing: generated histories of edits and processing runs, some of them with a fault (an exception or the '
             'death of the process at the n-th operation on the files, or after the n-th byte that is written), then a run without fault whose result is '
             'compared with the transpilation (Hypothesis)')
RULE = 'a case is a history of edits, faulted and clean runs that ends with a clean run; non-trivial: at least one fault took effect'
ASSUMPTIONS = ['operations on files are intercepted where Python reports them (audit events open, os.rename, os.remove, ...) and by the limit on the size '
               'of files, both independent of the way in which the code writes its files',
               'temporary files that a killed process leaves behind are not objected to',
               'the death of the process is simulated, not the loss of data that the operating system has not yet written to the disk']

TARGETS = ['', 'a.py', 'out/r.py']
ERRORS = {'full': errno.ENOSPC, 'perm': errno.EACCES, 'io': errno.EIO, 'rofs': errno.EROFS}


def build(s):
    texts = [gen_text(s) for _ in range(s.num(1, 2))]
    steps = [['edit', 0]] + [['run', None]] * s.b(35)
    for _ in range(s.num(1, 5)):
        if len(texts) > 1 and s.b(30):
            steps.append(['edit', s.i(len(texts))])
        elif s.b(15):
            steps.append(['run', None])
        elif s.b(50):
            steps.append(['run', ['size', s.pick(['fail', 'kill', 'fail', 'kill', 'fail']), s.num(0, 1000)]])
        else:
            steps.append(['run', ['event', s.pick(['full', 'perm', 'io', 'rofs', 'interrupt', 'kill', 'kill']), s.i(10)]])
    return {'texts': texts, 'target': s.i(len(TARGETS)), 'nodir': s.b(10), 'steps': steps}


def faulted(P, source, target, fault, size):
    """runs process_file in a process of its own with the fault; -> whether the fault took effect"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 77
        try:
            hit = [0]
            root = os.getcwd() + os.sep
            how, kind, n = fault
            if how == 'size':
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind == 'kill' else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (size * n // 1000, resource.RLIM_INFINITY))
            else:
                def hook(event, args):
                    if event != 'open' and not event.startswith(('os.', 'shutil.', 'tempfile.')):
                        return
                    if not args or not isinstance(args[0], (str, bytes, os.PathLike)):
                        return
                    name = os.path.abspath(os.fsdecode(args[0]))
                    if not name.startswith(root):
                        return
                    hit[0] += 1
                    if hit[0] != n + 1:
                        return
                    os.write(w, b'x')
                    if kind == 'kill':
                        os._exit(78)
                    if kind == 'interrupt':
                        raise KeyboardInterrupt()
                    raise OSError(ERRORS[kind], os.strerror(ERRORS[kind]), args[0])
                sys.addaudithook(hook)
            try:
                P.process_file(source, target)
                code = 0
            except BaseException:
                code = 1
        finally:
            os._exit(code)
    os.close(w)
    marked = os.read(r, 1) == b'x'
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return marked or status != 0


def check(case):
    old = os.getcwd()
    tmp = os.path.realpath(tempfile.mkdtemp(dir=core.scratch_root()))
    os.chdir(tmp)
    try:
        return history(case)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def history(case):
    P = sut.P()
    sut.set_config(sut.BASE)
    src, target = 'a.ts', TARGETS[case['target']]
    result = target or 'a.py'
    log, effective, dirs = [], 0, False
    text = ''
    if not case['nodir'] or 'out' not in result:
        os.makedirs(os.path.dirname(os.path.abspath(result)), exist_ok=True)
    codes = {}

    def transpiled():
        if text not in codes:
            code, errors = P.compile_src(text)
            codes[text] = code, any(int(e.code) >= 10000 for e in errors), errors
        return codes[text]

    def verify(report):
        code, fatal, errors = transpiled()

        def fail(msg):
            raise Violation('%s\nsteps: %s' % (msg, log))
        check_report(result, report, errors, fail)
        if fatal:
            return
        if not os.path.exists(result):
            raise Violation('there is no result file after a clean run\nsteps: %s' % log)
        if norm(read(result)) != norm(code):
            a, b = norm(read(result)), norm(code)
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            raise Violation('after a clean run the result file is not the transpilation: %d instead of %d characters, they differ from character %d on:\n'
                            '%r\ninstead of\n%r\nsteps: %s' % (len(a), len(b), k, a[k:k + 200], b[k:k + 200], log))

    for step in case['steps'] + [['run', None]]:
        log.append(step)
        if step[0] == 'edit':
            text = case['texts'][step[1]].replace('\r\n', '\n')
            write(src, text)
            continue
        data = raw(src)
        if step[1] is None:
            os.makedirs(os.path.dirname(os.path.abspath(result)), exist_ok=True)
            verify(P.process_file(src, target))
        else:
            code = transpiled()[0] or ''
            if faulted(P, src, target, step[1], len(code.encode('utf-8'))):
                effective += 1
        if not os.path.exists(src) or raw(src) != data:
            raise Violation('the source file was modified\nsteps: %s' % log)
    return effective


# ---------------------------------------------------------------- source and destination of the same name

def build_same(s):
    return {'text': gen_text(s), 'name': s.pick(['a.py', 'a.ts', 'sub/a.py', './a.py']), 'alias': s.pick(['same', 'dot', 'abs', 'updir', 'stem', 'symlink', 'hardlink']),
            'size': s.num(0, 1000) if s.b(50) else None}


def check_same(case):
    old = os.getcwd()
    tmp = os.path.realpath(tempfile.mkdtemp(dir=core.scratch_root()))
    os.chdir(tmp)
    try:
        P = sut.P()
        sut.set_config(sut.BASE)
        name = case['name']
        write(name, case['text'])
        data = raw(name)
        dest = {'same': name, 'dot': './' + name, 'abs': os.path.abspath(name), 'updir': os.path.join(os.path.dirname(name), 'x', '..', os.path.basename(name)),
                'stem': '', 'symlink': 'link.py', 'hardlink': 'link.py'}[case['alias']]
        if case['alias'] == 'updir':
            os.makedirs(os.path.join(os.path.dirname(os.path.abspath(name)), 'x'))
        if case['alias'] == 'symlink':
            os.symlink(os.path.abspath(name), dest)
        if case['alias'] == 'hardlink':
            os.link(name, dest)
        if case['size'] is not None:
            faulted(P, name, dest, ['size', 'fail', case['size']], 3000)
        else:
            P.process_file(name, dest)
        if not os.path.exists(name) or raw(name) != data:
            raise Violation('the source file %s was modified when processed to %s' % (name, dest))
        if case['size'] is not None:
            P.process_file(name, dest)
        if not os.path.exists(name) or raw(name) != data:
            raise Violation('the source file %s was modified when processed to %s' % (name, dest))
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def classify(case):
    ls = ['target:%d' % case['target']]
    nt = False
    for x in case['steps']:
        if x[0] == 'run':
            ls.append('clean' if x[1] is None else '%s:%s' % (x[1][0], x[1][1]))
            if x[1] is not None and (x[1][0] == 'size' and x[1][2] < 1000 or x[1][0] == 'event' and x[1][2] < 4):
                nt = True
    return nt, sorted(set(ls))


def render(case):
    return '\n'.join('--- text %d:\n%s' % (i, t) for i, t in enumerate(case['texts'])) + '\ntarget %r, steps: ' % TARGETS[case['target']] + '\n       '.join(map(str, case['steps']))


FACETS = [
    Facet('faults', lambda: docs.strategy(build), check, classify, 5000, 120000, render),
    Facet('same-name', lambda: docs.strategy(build_same), check_same, lambda c: (True, [c['alias'], 'faulted' if c['size'] is not None else 'clean']), 800, 15000),
]
