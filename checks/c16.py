"""C16: batch and command line give the same results as the library."""
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys
import tempfile

from checks.c14 import gen_text, norm, raw, read, write
from vf import core, docs, sut
from vf.core import Facet, Violation

TECHNIQUE = ('differential testing against the library: generated sets of files, options and schedules, processed as a batch (with generated orders of execution, '
             'in threads, in processes) and by the script run as a process of its own (Hypothesis)')
RULE = ('a case is a set of files with a schedule or a command line; non-trivial: two or more files or at least one option')
ASSUMPTIONS = ['files of equal base name are not put into one batch: their results have the same name by definition',
               'what the options mean is taken from the help text of the script and the documentation',
               'a file that cannot be read at all may end a batch with an exception, but only after all others have been processed']

NAMES = ['a.ts', 'b.ts', 'sub/c.d.ts', 'sub/d.ts', 'E f.ts', 'g.v1.ts', 'h.ts', './sub/../i.ts']


def nowhere(text):
    """without the path of the program, which may be part of the messages of fatal errors"""
    return re.sub(r'File "[^"\n]*"', 'File', text)



def gen_files(s, lo=1, hi=5, unreadable=0):
    names = list(NAMES)
    files = []
    for _ in range(s.num(lo, hi)):
        n = names.pop(s.i(len(names)))
        kind = s.pick(['missing', 'binary']) if s.b(unreadable) else 'text'
        files.append([n, gen_text(s) if kind == 'text' else kind, kind])
    return files


def lay_out(files):
    for name, text, kind in files:
        if kind == 'text':
            write(name, text)
        elif kind == 'binary':
            with open(name, 'wb') as f:
                f.write(b'interface A { a: string } // \xff\xfe\n')


def expected(text, cfg):
    sut.set_config(cfg)
    code, errors = sut.P().compile_src(text.replace('\r\n', '\n'))
    return dict(code=code, errors=errors, fatal=any(int(e.code) >= 10000 for e in errors), bad=any(sut.is_err(e) for e in errors))


def plain(message):
    """without the place in the program that messages about its own failures refer to"""
    return re.sub(r'File "[^"\n]*ts2pythonParser\.py"', 'File "ts2pythonParser.py"', message)


def check_result(result, want, what):
    """the files written for one source; -> name of the report or None"""
    stem = os.path.splitext(result)[0]
    if want['fatal']:
        if os.path.exists(result):
            raise Violation('%s: a result was written in spite of a fatal error' % what)
    elif not os.path.exists(result):
        raise Violation('%s: there is no result %s; files: %s' % (what, result, sorted(files_here())))
    elif norm(read(result)) != norm(want['code']):
        raise Violation('%s: the result is not that of the library\n%s\n--- instead of\n%s' % (what, sut.snippet(read(result)), sut.snippet(want['code'])))
    name = None
    if want['errors']:
        name = stem + ('_ERRORS.txt' if want['bad'] else '_WARNINGS.txt')
    for ext in ('_ERRORS.txt', '_WARNINGS.txt'):
        if os.path.exists(stem + ext) != (name == stem + ext):
            raise Violation('%s: report %s %s' % (what, stem + ext, 'is missing' if name == stem + ext else 'should not exist'))
    if name:
        rep = plain(read(name))
        for e in want['errors']:
            if plain(e.message) not in rep:
                raise Violation('%s: "%s" is not in the report\n%s' % (what, e, rep))
    return name


def files_here():
    return [os.path.relpath(os.path.join(d, f)) for d, _, fs in os.walk('.') for f in fs]


class scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.tmp = tempfile.mkdtemp(dir=core.scratch_root())
        os.chdir(self.tmp)

    def __exit__(self, *exc):
        os.chdir(self.old)
        shutil.rmtree(self.tmp, ignore_errors=True)


def result_of(name, out):
    return os.path.join(out, os.path.splitext(os.path.basename(name))[0] + '.py')


# ---------------------------------------------------------------- batch_process

CONFIGS = {'UseTypeUnion': True, 'UseTypeParameters': True, 'UseLiteralType': True, 'UseVariadicGenerics': True, 'UseNotRequired': True, 'UseEnum': False,
           'KeepMultilineComments': True, 'RenderAnonymous': 'toplevel', 'BaseClassName': 'object', 'ClassDecorator': 'deco'}


def build_batch(s):
    mode = s.pick(['now', 'late', 'order', 'order', 'threads', 'processes', 'single'] if s.b(25) else ['now', 'late', 'order', 'threads'])
    return {'files': gen_files(s, 1, 6, 8), 'mode': mode, 'order': s.rng(1 << 20) if hasattr(s, 'rng') else s.i(1 << 16),
            'cfg': {o: CONFIGS[o] for o in sorted(CONFIGS) if s.b(20)}, 'out': s.pick(['out', 'out', '.', 'x/y']), 'workers': s.num(1, 4), 'again': s.b(25)}


class Deferred:
    """executes the submitted jobs in a generated order when the first result is asked for"""
    def __init__(self, key):
        self.key, self.jobs = key, []

    def submit(self, fn, *args, **kw):
        f = concurrent.futures.Future()
        self.jobs.append((f, fn, args, kw))
        outer = self

        class Handle:
            def result(self, timeout=None):
                if not f.done():
                    outer.run()
                return f.result(0)
        return Handle()

    def run(self):
        jobs, k = self.jobs, self.key
        self.jobs = []
        while jobs:
            f, fn, args, kw = jobs.pop(k % len(jobs))
            k = k // 7 + 3
            try:
                f.set_result(fn(*args, **kw))
            except BaseException as e:
                f.set_exception(e)


def check_batch(case):
    core.in_child(lambda: in_child_batch(case), 120)


def in_child_batch(case):
    from DHParser.configuration import set_preset_value, access_presets, finalize_presets, set_config_value, CONFIG_PRESET
    import DHParser.toolkit as toolkit
    P = sut.P()
    cfg = dict(sut.BASE, **case['cfg'])
    access_presets()
    for k, v in cfg.items():
        set_preset_value('ts2python.' + k, v, allow_new_key=True)
    finalize_presets()
    sut.set_config(cfg)
    with scratch():
        files = case['files']
        names = [f[0] for f in files]
        out = case['out']
        os.makedirs(out, exist_ok=True)
        os.makedirs('sub', exist_ok=True)
        lay_out(files)
        sources = {n: raw(n) for n, _, k in files if k != 'missing'}
        for turn in range(2 if case['again'] else 1):
            logged, failed, reports, pool = [], None, None, None
            mode = case['mode']
            try:
                if mode == 'now':
                    reports = P.batch_process(names, out, submit_func=toolkit.SingleThreadExecutor().submit, log_func=logged.append)
                elif mode in ('late', 'order'):
                    reports = P.batch_process(names, out, submit_func=Deferred(case['order'] if mode == 'order' else 0).submit, log_func=logged.append)
                elif mode == 'threads':
                    with concurrent.futures.ThreadPoolExecutor(case['workers']) as pool:
                        reports = P.batch_process(names, out, submit_func=pool.submit, log_func=logged.append)
                else:
                    set_config_value('batch_processing_parallelization', mode == 'processes')
                    reports = P.batch_process(names, out)
            except (OSError, UnicodeError) as e:
                failed = e
                if all(f[2] == 'text' for f in files):
                    raise Violation('%s: %s' % (type(e).__name__, e))
            if failed is None and any(f[2] != 'text' for f in files):
                pass       # an unreadable file need not raise an exception
            want = []
            for name, text, kind in files:
                if kind == 'text':
                    r = check_result(result_of(name, out), expected(text, cfg), name)
                    if r:
                        want.append(r)
            if failed is None and all(f[2] == 'text' for f in files):
                got = [os.path.normpath(r) for r in reports]
                if sorted(got) != sorted(os.path.normpath(w) for w in want):
                    raise Violation('reports named: %s instead of %s' % (got, want))
            for n, data in sources.items():
                if not os.path.exists(n) or raw(n) != data:
                    raise Violation('the source %s was changed' % n)
            known = {os.path.normpath(n) for n in sources} | {os.path.normpath(result_of(n, out)) for n in names}
            for n in files_here():
                if n not in known and not n.endswith(('_ERRORS.txt', '_WARNINGS.txt')):
                    raise Violation('the file %s was left behind' % n)


# ---------------------------------------------------------------- command line

def build_cli(s):
    kind = s.pick(['single', 'single', 'batch', 'batch', 'dir', 'reject'])
    files = gen_files(s, 1, 1 if kind == 'single' else 4)
    if kind == 'dir':
        names = {}
        for f in files:
            f[0] = 'src/' + os.path.basename(f[0])
    opts = []
    if s.b(40):
        opts.append([s.pick(['-c', '--compatibility']), s.pick(['3.7', '3.8', '3.9', '3.10', '3.11', '3.12', '3.13', '3.12.1', '4.0'])])
    if s.b(30):
        opts.append([s.pick(['-b', '--base']), s.pick(['object', 'BaseModel', 'pkg.Base', 'TypedDict', ' Base '])])
    if s.b(30):
        opts.append([s.pick(['-a', '--anonymous']), s.pick(['local', 'toplevel', 'functional', 'type'])])
    if s.b(25):
        opts.append([s.pick(['-d', '--decorator']), s.pick(['final', '@final', 'dataclass(frozen=True)'])])
    if s.b(40):
        for _ in range(s.num(1, 2)):
            opts.append([s.pick(['-p', '--peps'])] + [s.pick(['435', '604', '586', '646', '655', '~435', '~604', '~586', '~646', '~655']) for _ in range(s.num(1, 3))])
    if s.b(25):
        opts.append([s.pick(['-k', '--comments'])])
    if s.b(25):
        opts.append([s.pick(['-v', '--verbose'])])
    if s.b(35 if kind != 'single' else 10):
        opts.append(['--singlethread'])
    if s.b(6):
        opts.append([s.pick(['-D', '--debug'])])
    out = None
    if kind == 'batch' or kind == 'dir' and s.b(60) or kind == 'reject' and s.b(50):
        out = s.pick(['out', 'res', 'sub', './o'])
        if len(files) == 1 or s.b(70) or out != 'out':
            opts.append([s.pick(['-o', '--out']), out])
    if kind == 'dir':
        out = out or 'out'
    reject = None
    if kind == 'reject':
        reject = s.pick(['pep', 'compat', 'compat2', 'nofile', 'option', 'missing', 'outfile'])
        if reject == 'pep':
            opts.append(['-p', s.pick(['999', '~12', 'x', '-655', '6 55'])])
        elif reject in ('compat', 'compat2'):
            opts = [o for o in opts if o[0] not in ('-c', '--compatibility')] + [['-c', s.pick(['3.6', '2.7', '3', '3.0']) if reject == 'compat' else s.pick(['x', '3.x', '', '3,8'])]]
        elif reject == 'option':
            opts.append([s.pick(['--nope', '-z', '--peps', '-c'])])
        elif reject == 'missing':
            opts = [o for o in opts if o[0] not in ('-o', '--out')] + [['-o', 'out']]
        elif reject == 'outfile':
            opts = [o for o in opts if o[0] not in ('-o', '--out')] + [['-o', 'afile']]
    ini = None
    if s.b(25):
        ini = {k: s.pick(v) for k, v in INI.items() if s.b(85)}
    # the order of options is arbitrary, but an option that takes any number of values must not be the last before the files
    perm = []
    while opts:
        perm.append(opts.pop(s.i(len(opts))))
    return {'kind': kind, 'files': files, 'opts': perm, 'out': out, 'reject': reject, 'first': s.b(50) or bool(perm) and perm[-1][0] in ('-p', '--peps') or reject == 'option',
            'ini': ini, 'abs': s.b(20), 'slash': s.b(30), 'nofile': reject == 'nofile', 'forms': [s.i(5) if s.b(40) else 0 for _ in perm]}


ABBREVIATED = {'--compatibility': '--compat', '--base': '--ba', '--anonymous': '--anon', '--decorator': '--deco', '--peps': '--pep',
               '--comments': '--comm', '--verbose': '--verb', '--singlethread': '--single', '--debug': '--deb', '--out': '--ou'}


def written(opt, form):
    """an option the way it is written on the command line"""
    if form in (1, 2) and len(opt) == 2 and opt[1]:
        return [opt[0] + '=' + opt[1] if opt[0].startswith('--') else opt[0] + opt[1]]
    if form in (2, 3):
        return [ABBREVIATED.get(opt[0], opt[0])] + opt[1:]
    return list(opt)


INI = {'BaseClassName': ['TypedDict', 'object', 'pkg.Base'], 'RenderAnonymous': ['local', 'toplevel', 'functional'], 'ClassDecorator': ['', '@final', 'deco'],
       'UseEnum': [True, True, False], 'UseTypeUnion': [False, True], 'UseTypeParameters': [False, True], 'UseLiteralType': [False, True],
       'UseVariadicGenerics': [False, True], 'UseNotRequired': [False, True], 'KeepMultilineComments': [False, True]}


def prog_dir():
    return os.path.join(core.scratch_root(), os.path.basename(os.getcwd()) + '_prog')


def program(ini):
    """-> path of the script; with a configuration file: of a copy of the program that has this configuration file"""
    src = core.code_dir()
    if ini is None:
        return os.path.join(src, 'ts2pythonParser.py')
    dst = prog_dir()
    os.makedirs(os.path.join(dst, 'ts2python'))
    for n in os.listdir(src):
        if n != 'ts2python':
            os.symlink(os.path.join(src, n), os.path.join(dst, n))
    for n in os.listdir(os.path.join(src, 'ts2python')):
        if not n.endswith('.ini'):
            os.symlink(os.path.join(src, 'ts2python', n), os.path.join(dst, 'ts2python', n))
    with open(os.path.join(dst, 'ts2python', 'ts2pythonParser.ini'), 'w', encoding='utf-8') as f:
        f.write('[ts2python]\n' + ''.join('%s = %r   # a comment\n' % kv for kv in ini.items()))
    return os.path.join(dst, 'ts2pythonParser.py')


def config_of(opts, ini=None):
    """meaning of the options, by the help text and the documentation"""
    cfg = dict(sut.BASE, **(ini or {}))
    peps = []
    for o, *v in opts:
        if o in ('-c', '--compatibility'):
            t = tuple(int(x) for x in v[0].split('.'))
            cfg['UseLiteralType'] |= t >= (3, 8)
            cfg['UseTypeUnion'] |= t >= (3, 10)
            cfg['UseNotRequired'] |= t >= (3, 11)
            cfg['UseVariadicGenerics'] |= t >= (3, 11)
            cfg['UseTypeParameters'] |= t >= (3, 12)
        elif o in ('-b', '--base'):
            cfg['BaseClassName'] = v[0].strip()
        elif o in ('-a', '--anonymous'):
            cfg['RenderAnonymous'] = v[0]
        elif o in ('-d', '--decorator'):
            cfg['ClassDecorator'] = v[0]
        elif o in ('-p', '--peps'):
            peps += v
        elif o in ('-k', '--comments'):
            cfg['KeepMultilineComments'] = True
    for p in peps:
        cfg[{'435': 'UseEnum', '586': 'UseLiteralType', '604': 'UseTypeUnion', '646': 'UseVariadicGenerics', '655': 'UseNotRequired'}[p.lstrip('~')]] = p[0] != '~'
    return cfg


def check_cli(case):
    with scratch():
        try:
            cli(case)
        finally:
            shutil.rmtree(prog_dir(), ignore_errors=True)


def cli(case):
    files = case['files']
    for d in ('sub', 'src'):
        os.makedirs(d, exist_ok=True)
    lay_out(files)
    write('afile', 'a file\n')
    names = [f[0] for f in files]
    if case['reject'] == 'missing':
        os.remove(names[0])
        names = names[:1]
    before = {n: raw(n) for n in files_here()}
    if case['kind'] == 'dir':
        args = ['src/' if case['slash'] else 'src']
    else:
        args = list(names)
    if case['nofile']:
        args = []
    if case['abs']:
        args = [os.path.abspath(a) for a in args]
    opts = [x for o, form in zip(case['opts'], case.get('forms') or [0] * len(case['opts'])) for x in written(o, form)]
    argv = args + opts if case['first'] else opts + args
    debug = any(o[0] in ('-D', '--debug') for o in case['opts'])
    env = dict(os.environ, HOME=os.getcwd(), PYTHONHASHSEED='0')
    r = subprocess.run([sys.executable, '-W', 'ignore', program(case.get('ini'))] + argv, stdin=subprocess.DEVNULL,
                       capture_output=True, text=True, env=env, timeout=250)
    told = 'command line: %s\nconfiguration file: %s\nexit code: %d\noutput: %s\n%s' % (argv, case.get('ini'), r.returncode, r.stdout[-1500:], r.stderr[-1500:])
    changed = [n for n in files_here() if not n.startswith('LOGS') and (n not in before or raw(n) != before[n])]
    for n in before:
        if not os.path.exists(n) or raw(n) != before[n]:
            raise Violation('the file %s was changed\n%s' % (n, told))
    explicit = any(o[0] in ('-o', '--out') for o in case['opts'])
    batch = case['kind'] == 'dir' or explicit or len(files) > 1
    if case['reject']:
        if case['reject'] == 'outfile' and not batch:
            raise core.HarnessError('not a rejection')
        if r.returncode == 0:
            raise Violation('arguments that are wrong (%s) are not rejected\n%s' % (case['reject'], told))
        if [n for n in changed if n.endswith('.py')]:
            raise Violation('results %s in spite of wrong arguments (%s)\n%s' % (changed, case['reject'], told))
        return
    cfg = config_of(case['opts'], case.get('ini'))
    out = None
    if batch:
        out = next((o[1] for o in case['opts'] if o[0] in ('-o', '--out')), 'out')
    bad, reports, ok = False, [], {os.path.normpath(n) for n in before}
    for name, text, kind in files:
        want = expected(text, cfg)
        result = result_of(name, out) if batch else os.path.splitext(name)[0] + '.py'
        ok.add(os.path.normpath(result))
        if debug:
            if not want['fatal'] and (not os.path.exists(result) or norm(read(result)) != norm(want['code'])):
                raise Violation('wrong result %s with debugging\n%s' % (result, told))
        else:
            try:
                rep = check_result(result, want, name)
            except Violation as v:
                raise Violation('%s\nconfiguration: %s\n%s' % (v, cfg, told))
            if rep:
                ok.add(os.path.normpath(rep))
                reports.append(rep)
                if batch and os.path.basename(rep) not in r.stdout:
                    raise Violation('the report %s is not named\n%s' % (rep, told))
                if not batch:
                    for e in want['errors']:
                        if nowhere(e.message) not in nowhere(r.stdout):
                            raise Violation('the error "%s" is not shown\n%s' % (e, told))
        bad |= want['bad']
    if debug:
        return
    if [n for n in changed if n not in ok]:
        raise Violation('unexpected files %s\n%s' % ([n for n in changed if n not in ok], told))
    if batch and bad and r.returncode == 0:
        raise Violation('exit code 0 in spite of errors\n%s' % told)
    if not bad and r.returncode != 0:
        raise Violation('exit code %d without errors\n%s' % (r.returncode, told))
    if not batch and r.returncode != 0:
        raise Violation('exit code %d of a single file\n%s' % (r.returncode, told))


def classify_batch(case):
    n = len(case['files'])
    ls = [case['mode'], 'files:%d' % n] + sorted({f[2] for f in case['files']}) + (['again'] if case['again'] else [])
    return n > 1 or bool(case['cfg']), ls


def classify_cli(case):
    return bool(case['opts']) or len(case['files']) > 1, (['configuration file'] if case.get('ini') else []) + sorted({case['kind'], 'reject:%s' % case['reject']} | {'opt' + o[0] for o in case['opts']})


def render_files(case):
    return '\n'.join('--- %s (%s):\n%s' % (n, k, t) for n, t, k in case['files']) + '\n' + str({k: v for k, v in case.items() if k != 'files'})


FACETS = [
    Facet('batch', lambda: docs.strategy(build_batch), check_batch, classify_batch, 2500, 50000, render_files),
    Facet('command-line', lambda: docs.strategy(build_cli), check_cli, classify_cli, 700, 12000, render_files),
]
