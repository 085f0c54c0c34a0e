"""Scratch copy of the code under test, sharded generation, shrinking, evidence, replay.

Every facet of a check is a Hypothesis strategy that draws one JSON-able case and a function that
judges it.  All random choices are Hypothesis's; each shard's seed is a pure function of VERIF_SEED.
The cap on the running time only ends the generation early (the evidence then says so); it never
turns into a verdict.
"""
import atexit
import contextlib
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if TOOLS not in sys.path:
    sys.path.append(TOOLS)   # at the end: the code under test keeps its own packages

EVIDENCE = os.path.join(VERIF, 'evidence')
WORKERS = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    """The property does not hold for the case at hand."""


class HarnessError(Exception):
    """Something is wrong with the check itself."""


# ---------------------------------------------------------------- code under test

_scratch = None
_owner = None


def scratch_root():
    """A temporary directory of this run, removed at its end."""
    global _scratch, _owner
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf_')
        _owner = os.getpid()

        def cleanup():
            if os.getpid() == _owner and _scratch and _scratch.startswith(tempfile.gettempdir() + os.sep):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(cleanup)
    return _scratch


def code_dir():
    return os.path.join(scratch_root(), 'repo')


def prepare():
    """Copies /repo's working tree to a scratch directory, brings the parser there up to date with
    the grammar (as the project's build does) and makes it importable."""
    root = scratch_root()
    dst = code_dir()
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns('.git', '__pycache__', 'REPORT', 'LOGS'))
    keep = os.path.join(root, 'shipped_parser.py')
    shutil.copy(os.path.join(dst, 'ts2pythonParser.py'), keep)
    cmd = [sys.executable, '-W', 'ignore', '-c',
           'import sys, os; sys.path.insert(0, %r)\n'
           'from DHParser import dsl\n'
           'ok = dsl.recompile_grammar(%r, %r, force=False)\n'
           'sys.exit(0 if ok else 1)' % (dst, os.path.join(dst, 'ts2python.ebnf'),
                                         os.path.join(dst, 'ts2pythonParser.py'))]
    r = subprocess.run(cmd, cwd=dst, capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        raise HarnessError('regenerating the parser failed:\n' + r.stdout[-2000:] + r.stderr[-2000:])
    sys.path.insert(0, dst)
    os.chdir(root)
    return dst


def fresh_typing():
    """Empties the caches of the typing module: otherwise equal forward references of different generated modules
    would be one object that remembers what it was resolved to first."""
    import typing
    for f in getattr(typing, '_cleanups', ()):
        f()


# ---------------------------------------------------------------- facets

class Facet:
    """One generator with one oracle.

    name      short identifier
    strategy  () -> Hypothesis strategy of JSON-able cases
    check     case -> None, or raises Violation
    classify  case -> (nontrivial, [labels])
    quick, thorough   number of cases
    """
    def __init__(self, name, strategy, check, classify, quick, thorough, render=None, hang_is_violation=False):
        self.name, self.strategy, self.check, self.classify = name, strategy, check, classify
        self.quick, self.thorough = quick, thorough
        self.render = render
        self.hang_is_violation = hang_is_violation


def jdump(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True)


def seed_for(*parts):
    return int(hashlib.sha256('/'.join(map(str, parts)).encode()).hexdigest()[:12], 16)


def judge(facet, case):
    """-> None or message of violation"""
    try:
        facet.check(case)
        return None
    except Violation as v:
        return str(v) or 'violation'
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        tb = traceback.format_exc(limit=-8)
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb)


def run_shard(facet, n, seed, deadline, out_path, shrink_seconds):
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    st = dict(evals=0, skipped=0, distinct=0, nontrivial=0, labels={}, samples=[], fail=None, error=None,
              capped=False)
    seen, seen_nt = set(), []
    fail = dict(case=None, msg=None, size=None, first=None)
    cur_path = out_path + '.cur'

    def body(case):
        now = time.monotonic()
        if fail['case'] is None:
            if now > deadline:
                st['capped'] = True
                st['skipped'] += 1
                return
        elif now > fail['first'] + shrink_seconds:
            return
        text = jdump(case)
        if facet.hang_is_violation:
            with open(cur_path, 'w') as f:
                f.write(text)
        if fail['case'] is None:
            st['evals'] += 1
            h = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if h not in seen:
                seen.add(h)
                st['distinct'] += 1
                nt, labels = facet.classify(case)
                if nt:
                    st['nontrivial'] += 1
                    seen_nt.append(h.hex())
                    if len(st['samples']) < 3 and (st['nontrivial'] % 37 == 5 or st['nontrivial'] == 1):
                        st['samples'].append(case)
                for l in labels:
                    st['labels'][l] = st['labels'].get(l, 0) + 1
        msg = judge(facet, case)
        if msg is not None:
            size = len(text)
            if fail['first'] is None:
                fail['first'] = now
            if fail['case'] is None or size < fail['size']:
                fail.update(case=case, msg=msg, size=size)
            raise Violation('violation')

    try:
        test = settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck),
                        phases=(Phase.generate, Phase.shrink))(given(facet.strategy())(body))
        test = hseed(seed)(test)
        with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
            try:
                test()
            except Violation:
                pass
            except BaseException as e:
                if fail['case'] is None:
                    st['error'] = traceback.format_exc()
    except BaseException:
        st['error'] = traceback.format_exc()
    st['fail'] = None if fail['case'] is None else dict(case=fail['case'], msg=fail['msg'])
    st['hashes'] = [h.hex() for h in seen]
    st['nt_hashes'] = seen_nt
    with open(out_path, 'w') as f:
        json.dump(st, f)


def run_facet(prop, facet, n, tier, seed, seconds, shrink_seconds=20.0):
    """Runs n cases of facet in parallel shards. -> merged statistics"""
    root = scratch_root()
    t0 = time.monotonic()
    deadline = t0 + seconds
    workers = min(WORKERS, max(1, n // 10))
    per = (n + workers - 1) // workers
    pids = {}
    for k in range(workers):
        out = os.path.join(root, 'shard_%s_%s_%d.json' % (prop, facet.name, k))
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                work = os.path.join(root, 'w_%s_%d' % (facet.name, k))
                os.makedirs(work, exist_ok=True)
                os.chdir(work)
                run_shard(facet, per, seed_for(seed, prop, facet.name, k), deadline, out, shrink_seconds)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                os._exit(code)
        pids[pid] = (k, out)
    merged = dict(evals=0, skipped=0, distinct=0, nontrivial=0, labels={}, samples=[], fails=[], errors=[],
                  capped=False, stuck=0)
    all_h, nt_h = set(), set()
    hard = deadline + shrink_seconds + 60
    pending = dict(pids)
    while pending:
        for pid in list(pending):
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                del pending[pid]
        if pending:
            if time.monotonic() > hard:
                break
            time.sleep(0.02)
    for pid, (k, out) in pending.items():
        with contextlib.suppress(ProcessLookupError, PermissionError):
            os.killpg(pid, signal.SIGKILL)
        with contextlib.suppress(ChildProcessError):
            os.waitpid(pid, 0)
        merged['stuck'] += 1
        if facet.hang_is_violation and os.path.exists(out + '.cur'):
            case = json.load(open(out + '.cur'))
            if hangs(facet, case, 120):
                merged['fails'].append(dict(case=case, msg='did not come to an end within 120 seconds'))
    for pid, (k, out) in pids.items():
        if pid in pending:
            continue
        if not os.path.exists(out):
            merged['errors'].append('shard %d ended without a report' % k)
            continue
        st = json.load(open(out))
        for key in ('evals', 'skipped'):
            merged[key] += st[key]
        all_h.update(st['hashes'])
        nt_h.update(st['nt_hashes'])
        for l, c in st['labels'].items():
            merged['labels'][l] = merged['labels'].get(l, 0) + c
        merged['samples'].extend(st['samples'])
        merged['capped'] = merged['capped'] or st['capped']
        if st['fail']:
            merged['fails'].append(st['fail'])
        if st['error']:
            merged['errors'].append(st['error'])
    merged['distinct'], merged['nontrivial'] = len(all_h), len(nt_h)
    merged['samples'] = merged['samples'][:4]
    merged['wall'] = time.monotonic() - t0
    return merged


def hangs(facet, case, limit):
    """Runs the case in a child of its own; True if it does not end within limit seconds."""
    pid = os.fork()
    if pid == 0:
        try:
            judge(facet, case)
        finally:
            os._exit(0)
    t0 = time.monotonic()
    while time.monotonic() - t0 < limit:
        p, _ = os.waitpid(pid, os.WNOHANG)
        if p:
            return False
        time.sleep(0.05)
    with contextlib.suppress(ProcessLookupError):
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return True


def in_child(fn, limit=300):
    """Result (JSON-able) of fn(), run in a fork; exceptions come back as Violation or HarnessError."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.alarm(limit)
            try:
                data = ['ok', fn()]
            except Violation as v:
                data = ['violation', str(v)]
            except BaseException as e:
                data = ['exc', '%s: %s' % (type(e).__name__, e), traceback.format_exc(limit=-8)]
            with os.fdopen(w, 'w', encoding='utf-8', errors='surrogatepass') as f:
                json.dump(data, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation('the process died or did not come to an end within %d seconds' % limit)
    data = json.loads(data.decode('utf-8', 'surrogatepass'))
    if data[0] == 'ok':
        return data[1]
    if data[0] == 'violation':
        raise Violation(data[1])
    raise Violation('%s\n%s' % (data[1], data[2]))


def judge_in_child(facet, case, limit=300):
    """Judges one case in a fresh fork -> message or None; raises HarnessError if the child dies."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            work = tempfile.mkdtemp(dir=scratch_root())
            os.chdir(work)
            with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
                msg = judge(facet, case)
            os.write(w, json.dumps(msg).encode()[:60000] if msg is None else
                     json.dumps(msg[:20000]).encode())
        except BaseException:
            os.write(w, b'"harness: ' + json.dumps(traceback.format_exc()[-3000:]).encode()[1:])
        finally:
            os._exit(0)
    os.close(w)
    signal.signal(signal.SIGALRM, lambda *_: os.kill(pid, signal.SIGKILL))
    signal.alarm(limit)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    signal.alarm(0)
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError('child died while judging a case')
    return json.loads(data)
