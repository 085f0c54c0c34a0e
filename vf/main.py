"""Entry point: python -m vf.main <ID> [quick|thorough] [--replay FILE] [--only FACET] [--scale X]"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

from . import core, source


def load_known(prop):
    path = os.path.join(core.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path, encoding='utf-8'))['findings'] if k['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--cap', type=float)
    args = ap.parse_args()
    prop = args.prop
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.monotonic()
    os.makedirs(core.EVIDENCE, exist_ok=True)
    core.prepare()
    mod = importlib.import_module('checks.' + prop.lower())
    facets = {f.name: f for f in mod.FACETS}
    facets.setdefault('source', source.FACET)

    if args.replay:
        data = json.load(open(args.replay, encoding='utf-8'))
        msg = core.judge_in_child(facets[data['facet']], data['case'])
        if msg is None:
            print('replay: the property holds for this case')
            return 0
        print(msg)
        print('VIOLATION property=%s replay=%s' % (prop, args.replay))
        return 1

    # known findings: one line each while they last; they suppress nothing else
    known_lines = []
    for k in load_known(prop):
        if k['status'] != 'known':
            continue
        msg = core.judge_in_child(facets[k['facet']], k['case'])
        if msg is not None:
            line = 'KNOWN-FINDING: property=%s %s: %s' % (prop, k['id'], k['what'])
            known_lines.append(line)
            print(line)
        else:
            print('note: known finding %s of %s no longer fails' % (k['id'], prop))

    # saved regression cases (fixed findings and earlier failures): plain replay, no library
    reg = []
    regdir = os.path.join(core.VERIF, 'regress')
    regn = 0
    path = os.path.join(regdir, prop + '.json')
    if os.path.exists(path) and not args.only:
        for r in json.load(open(path, encoding='utf-8')):
            regn += 1
            msg = core.judge_in_child(facets[r['facet']], r['case'])
            if msg is not None:
                reg.append((r['facet'], r['case'], msg))

    cap = args.cap or (getattr(mod, 'QUICK_CAP', 240.0) if tier == 'quick' else getattr(mod, 'THOROUGH_CAP', 3000.0))
    total = sum((f.quick if tier == 'quick' else f.thorough) for f in mod.FACETS)
    results = {}
    fails = list(reg)
    errors = []
    for f in mod.FACETS:
        if args.only and f.name != args.only:
            continue
        n = int((f.quick if tier == 'quick' else f.thorough) * args.scale)
        left = cap - (time.monotonic() - t0)
        share = max(20.0, left)
        r = core.run_facet(prop, f, max(1, n), tier, seed, share,
                           shrink_seconds=20.0 if tier == 'quick' else 60.0)
        results[f.name] = r
        errors.extend(r['errors'])
        for x in r['fails']:
            fails.append((f.name, x['case'], x['msg']))
        if r['fails'] and tier == 'quick':
            break

    violations = 0
    if fails:
        fails.sort(key=lambda x: len(core.jdump(x[1])))
        fname, case, msg = fails[0]
        again = None
        try:
            again = core.judge_in_child(facets[fname], case)
        except Exception as e:
            again = 'could not be judged again: %s' % e
        rdir = os.path.join(core.EVIDENCE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, '%s_%s.json' % (prop, fname))
        rec = dict(property=prop, facet=fname, case=case, message=msg, reproduced_in_fresh_process=again is not None)
        if facets[fname].render:
            try:
                rec['rendered'] = facets[fname].render(case)
            except Exception:
                pass
        with open(rpath, 'w', encoding='utf-8') as fp:
            json.dump(rec, fp, indent=1, ensure_ascii=False)
        violations = len(fails)
        print(msg[:4000])
        if rec.get('rendered'):
            print('--- case:')
            print(rec['rendered'][:4000])
    cov = dict(evaluations=sum(r['evals'] for r in results.values()) + regn,
               distinct_nontrivial=sum(r['nontrivial'] for r in results.values()),
               rule=mod.RULE, samples=[], facets={})
    for name, r in results.items():
        cov['facets'][name] = dict(evaluations=r['evals'], distinct=r['distinct'], distinct_nontrivial=r['nontrivial'],
                                   classes=dict(sorted(r['labels'].items())), ended_early=r['capped'],
                                   stuck_shards=r['stuck'], wall_s=round(r['wall'], 1))
        for s in r['samples'][:2]:
            if facets[name].render:
                try:
                    s = dict(facet=name, text=facets[name].render(s))
                except Exception:
                    s = dict(facet=name, case=s)
            else:
                s = dict(facet=name, case=s)
            cov['samples'].append(s)
    cov['regression_cases'] = regn
    cov['known_findings'] = known_lines
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.monotonic() - t0, 2),
              violations=violations)
    with open(os.path.join(core.EVIDENCE, prop + '.json'), 'w', encoding='utf-8') as fp:
        json.dump(ev, fp, indent=1, ensure_ascii=False)
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop, rpath))
        return 1
    if errors:
        print('harness error:\n' + errors[0])
        return 2
    if cov['evaluations'] == 0 or cov['distinct_nontrivial'] == 0:
        print('harness error: nothing was evaluated')
        return 2
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' %
          (prop, cov['evaluations'], cov['distinct_nontrivial'], time.monotonic() - t0))
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
