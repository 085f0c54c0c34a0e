"""C10: transpiling depends only on source and configuration."""
import json
import os
import re
import subprocess
import sys
import threading

from vf import core, damage, docs, gen as G, sut, tsmodel as M
from vf.core import Facet, Violation
from vf.layout import Tape, gen_tape, layout
from . import c11

TECHNIQUE = ('property-based testing: generated histories and schedules of transpilations, differential comparison with the same transpilation '
             'in a pristine process (Hypothesis)')
RULE = ('a case is a list of two to six transpilations with their options; non-trivial: at least two different documents with at least two '
        'declarations, and two different sets of options or a document with errors')
ASSUMPTIONS = ['configuration values are set in the thread that transpiles, as the documentation of DHParser demands']


def gen_step(s, deep=2):
    doc = G.gen_doc(s, dict(decls=(1, 3), depth=deep, unsupported=True, funcs=True, boxes=True, imports=True))
    step = {'doc': doc, 'cfg': G.gen_cfg(s, generics=G.has_generics(doc), keep=True, enums=False)}
    if s.b(25):
        step['cfg']['BaseClassName'] = s.pick(['TypedDict', 'object', 'BaseModel', 'collections.UserDict', 'abc.ABC'])
    if s.b(20):
        step['cfg']['ClassDecorator'] = s.pick(['', '@deco', 'final'])
    if s.b(40):
        step['damage'] = damage.gen_damage(s)
    if s.b(40):
        step['layout'] = gen_tape(s)
    if s.b(40) and doc:
        # types with names that have a meaning of their own, defined in one document and used in another
        old = s.pick([d['name'] for d in doc if 'name' in d] or ['A'])
        step['names'] = {old: s.pick(SPECIAL)}
        if s.b(50):
            step['names'][s.pick(['string', 'number', 'any', 'boolean'])] = s.pick(SPECIAL)
    if deep and s.b(25):
        step['tail'] = c11.build_constructs(s)['text']
    return step


SPECIAL = ['Error', 'Error', 'Array', 'RegExp', 'Thenable', 'ReadonlyArray', 'integer', 'array', 'object', 'Uint32Array', 'Record', 'Map', 'Partial', 'List', 'Any',
           'Enum', 'IntEnum', 'Symbol', 'T', 'A', 'B', 'undefined', 'decimal', 'uinteger', 'unknown', 'void']


def step_text(step):
    return plain_text(step) + step.get('tail', '')


def plain_text(step):
    toks = damage.tokens(step['doc'])
    if 'names' in step:
        toks = [step['names'].get(t, t) for t in toks]
    if 'damage' in step:
        toks = damage.apply(toks, step['damage'])
    elif 'layout' not in step and 'names' not in step:
        return M.render(step['doc'])
    return layout([(t, '') for t in toks], Tape(step.get('layout') or [1]))


STAMP = re.compile(r'(# Generated by ts2python version \S+ on ).*')


def outcome(text, cfg):
    """everything that is observable of one transpilation"""
    try:
        code, errors = sut.compile_ts(text, cfg)
    except Exception as e:
        return ['raised', '%s: %s' % (type(e).__name__, e)]
    return [STAMP.sub(r'\1', code) if isinstance(code, str) else repr(code),
            [[e.pos, int(e.code), e.message, e.line, e.column] for e in errors]]


def show(o):
    return json.dumps(o[1:], ensure_ascii=False)[:600] + '\n' + (sut.snippet(o[0]) if isinstance(o[0], str) else str(o[0]))


def compare(texts, cfgs, got, what, memo=None):
    memo = {} if memo is None else memo
    for i, o in enumerate(got):
        key = core.jdump([texts[i], cfgs[i]])
        if key not in memo:
            memo[key] = core.in_child(lambda: outcome(texts[i], cfgs[i]))
        want = memo[key]
        if o != want:
            raise Violation('transpilation %d of %s differs from that in a fresh process:\n%s\n--- instead of\n%s\n--- from:\n%s\n%s' % (
                i, what, show(o), show(want), cfgs[i], texts[i]))


def build_history(s):
    steps = [gen_step(s) for _ in range(s.num(2, 4))]
    seq = list(range(len(steps)))
    for _ in range(s.i(3)):
        seq.append(s.i(len(steps)))        # the same source again
    extra = []
    for k in seq[len(steps):]:
        extra.append({'again': k, 'cfg': steps[k]['cfg'] if s.b(50) else gen_step(s, 0)['cfg']})
    return {'steps': steps + extra}


def texts_of(case):
    steps = case['steps']
    return [step_text(steps[x['again']] if 'again' in x else x) for x in steps], [x['cfg'] for x in steps]


def check_history(case):
    texts, cfgs = texts_of(case)
    compare(texts, cfgs, core.in_child(lambda: [outcome(t, c) for t, c in zip(texts, cfgs)]), 'a sequence')


def build_threads(s):
    n = s.num(2, 4)
    return {'steps': [gen_step(s) for _ in range(n)], 'threads': [[s.i(n) for _ in range(s.num(1, 3))] for _ in range(s.num(2, 5))],
            'switch': s.pick([5, 1, 20, 100, 1000])}


def check_threads(case):
    steps = case['steps']
    texts = [step_text(x) for x in steps]
    cfgs = [x['cfg'] for x in steps]

    def run():
        sys.setswitchinterval(case['switch'] * 1e-6)
        got = [[None] * len(t) for t in case['threads']]
        gate = threading.Barrier(len(case['threads']))

        def work(k):
            gate.wait(60)
            for i, j in enumerate(case['threads'][k]):
                got[k][i] = outcome(texts[j], cfgs[j])
        ts = [threading.Thread(target=work, args=(k,)) for k in range(len(case['threads']))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return got
    got = core.in_child(run)
    memo = {}
    for k, row in enumerate(got):
        js = case['threads'][k]
        compare([texts[j] for j in js], [cfgs[j] for j in js], row, 'concurrent thread %d' % k, memo)


SERVER = '''
import json, sys
sys.path.insert(0, %(verif)r)
sys.path.insert(0, %(code)r)
from vf import sut
from checks import c10
print(json.dumps([c10.outcome(t, c) for t, c in json.load(open(sys.argv[1]))]))
'''


def build_processes(s):
    return {'steps': [gen_step(s) for _ in range(s.num(4, 8))], 'seed': s.i(4000000)}


def check_processes(case):
    texts, cfgs = texts_of(case)
    name = os.path.abspath('jobs.json')
    with open(name, 'w') as f:
        json.dump(list(zip(texts, cfgs)), f)
    res = []
    for seed in (case['seed'], case['seed'] + 1):
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', SERVER % {'verif': core.VERIF, 'code': core.code_dir()}, name],
                           capture_output=True, text=True, timeout=300, env=dict(os.environ, PYTHONHASHSEED=str(seed)))
        if r.returncode:
            raise core.HarnessError('process failed: ' + r.stderr[-3000:])
        res.append(json.loads(r.stdout))
    for i, (a, b) in enumerate(zip(*res)):
        if a != b:
            raise Violation('two processes with different hash seeds yield\n%s\n--- and\n%s\n--- from:\n%s\n%s' % (show(a), show(b), cfgs[i], texts[i]))


def classify(case):
    steps = [x for x in case['steps'] if 'doc' in x]
    ls = []
    rich = {core.jdump(x['doc']) for x in steps if len(x['doc']) >= 2}
    cfgs = {core.jdump(x['cfg']) for x in case['steps']}
    bad = any('damage' in x for x in steps)
    if bad:
        ls.append('documents with errors')
    if any('again' in x for x in case['steps']):
        ls.append('repetition')
    if len(cfgs) > 1:
        ls.append('several configurations')
    ls.append('steps:%d' % len(case['steps']))
    return len(rich) >= 2 and (bad or len(cfgs) > 1), ls


def render(case):
    texts, cfgs = texts_of(case)
    return '\n'.join('--- %d. %s\n%s' % (i, c, t) for i, (t, c) in enumerate(zip(texts, cfgs))) + '\nthreads: %s' % case.get('threads')


FACETS = [
    Facet('history', lambda: docs.strategy(build_history), check_history, classify, 900, 24000, render),
    Facet('threads', lambda: docs.strategy(build_threads), check_threads, classify, 600, 16000, render),
    Facet('processes', lambda: docs.strategy(build_processes), check_processes, classify, 64, 1600, render),
]
