#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's current working tree."""
import glob
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
from sva import driver, rules                      # noqa: E402

EV = os.environ.get('SVA_EVIDENCE') or os.path.join(HERE, 'evidence')


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def name(r):
    return r['scenario'] + (' ' + ','.join('%s=%s' % kv for kv in sorted(r['params'].items())) if r['params'] else '')


def broken(r):
    """the refuted obligations of one partition"""
    if r['status'] == 'error':
        return []
    who, out = name(r), []
    if r['status'] == 'throw':
        out.append(dict(scenario=who, what=r['detail'], where=r.get('where'), key=r['scenario'] + ':throw'))
    for o in r['obl']:
        if o['result'] == 'differ':
            out.append(dict(scenario=who, what='%s: value derived is %s, required %s' % (o['label'], o['got'][:300], o['want'][:300]),
                            witness=o['witness'], where=o['where'], key=r['scenario'] + ':' + o['label']))
    for e in r['events']:
        if not e.get('open'):
            out.append(dict(scenario=who, what='%s: %s' % (e['kind'], e.get('msg', '')), where=(e['file'], e['line'], e['func']),
                            key=r['scenario'] + ':event:' + e['kind']))
    for e in r['maythrow']:
        if e['witness'] is not None:
            out.append(dict(scenario=who, what='an exception (%s) leaves the operation for some input that the property covers' % e['tname'],
                            where=e['where'], witness=e['witness'], key=r['scenario'] + ':maythrow'))
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EV, exist_ok=True)
    harness = sorted(os.path.basename(h) for h in glob.glob(HERE + '/harness/%s*.cpp' % prop))
    work = tempfile.mkdtemp(prefix='sva_')
    viol, opened, unres, errs = [], [], [], []
    res, rule_results = [], []
    srcs = []
    kn = [k for k in known() if k['property'] == prop]
    kkeys = {k['key'] for k in kn}
    try:
        try:
            if harness:
                ll, srcs = driver.build(harness, work, ['-DSVA_THOROUGH'] if tier == 'thorough' else [])
                m = driver.load(ll)
                m.seed = seed
                if prop == 'C27':
                    driver.watch(m, m.shared)
                res = driver.run_all(m, prop, tier, timeout=600 if tier == 'quick' else 3000,
                                     bad=lambda r: any(v['key'] not in kkeys for v in broken(r)),
                                     part_limit=150 if tier == 'quick' else 1200)
        except driver.BuildError as e:
            errs.append(str(e))
        rule_results = rules.run(prop, driver.REPO, work, tier)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    nobl = neq = nblocks = nforks = 0
    labels = set()
    covered = {}
    for r in res:
        who = name(r)
        if r['status'] == 'error':
            errs.append('%s: %s' % (who, r['detail']))
            continue
        nblocks += r['blocks']
        nforks += r['forks']
        for k, v in r['covered'].items():
            covered[k] = covered.get(k, 0) + 1
        if r['status'] == 'unresolved':
            unres.append('%s: %s' % (who, r['detail']))
        viol += broken(r)
        for o in r['obl']:
            nobl += 1
            labels.add((who, o['label']))
            if o['result'] == 'equal':
                neq += 1
            elif o['result'] != 'differ':
                opened.append('%s: %s' % (who, o['label']))
        for e in r['events']:
            if e.get('open'):
                opened.append('%s: %s: %s' % (who, e['kind'], e.get('msg', '')))
    for rr in rule_results:
        nobl += rr['obligations']
        neq += rr['obligations'] - len(rr['violations'])
        for v in rr['violations']:
            viol.append(v)
        unres += rr.get('unresolved', [])

    new, seen = [], []
    for v in viol:
        for k in kn:
            if v['key'] == k['key']:
                if k not in seen:
                    seen.append(k)
                break
        else:
            new.append(v)
    done = [r for r in res if r['status'] not in ('error', 'unresolved')]
    fn = {}
    for k in covered:
        fn[k] = covered[k]
    ev = dict(property=prop, tier=tier, seed=seed, level='other',
              coverage=dict(
                  explanation='abstract interpretation of the LLVM IR built from the working tree: each scenario partition is one abstract run of '
                              'public operations over unknown input bytes; an obligation is discharged when the derived value form and the required '
                              'form have the same canonical form',
                  rule=RULE, samples=[list(x) for x in sorted(labels)[:8]],
                  scenarios=len({r['scenario'] for r in res}), partitions=len(res), partitions_resolved=len(done),
                  obligations=nobl, discharged=neq, undecided=sorted(set(opened))[:200], unresolved=unres[:100],
                  functions_analysed=len(fn), functions=sorted(fn)[:400], basic_block_evaluations=nblocks, joins_of_undecided_branches=nforks,
                  static_rules=[dict(rule=rr['rule'], sites=rr['obligations'], sample=rr.get('sample', [])[:6]) for rr in rule_results],
                  sources=[os.path.relpath(s, driver.REPO) for s in srcs], analysis_errors=errs[:10],
                  violation_list=[dict(scenario=v['scenario'], what=v['what'], where=str(v.get('where'))) for v in new[:50]]),
              assumptions=['IR produced by clang 18 (x86-64, little-endian host) for the same sources that the shipped build compiles',
                           'models of the C++ runtime and of the standard library parts outside the repository (allocation, containers\' tree/hash '
                           'kernels, file streams) are trusted'],
              violations=len(new),
              wall_s=round(time.time() - t0, 2))
    json.dump(ev, open(os.path.join(EV, prop + '.json'), 'w'), indent=1, default=str)
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if verbose:
        for r in res:
            print('  ', r['scenario'], r['params'], r['status'], r['detail'][:1500], 'obl', len(r.get('obl', [])), 'forks', r.get('forks'), '%.2fs' % r.get('time', 0))
        for o in sorted(set(opened)):
            print('   OPEN', o)
    if new:
        path = os.path.join(EV, prop + '.replay.txt')
        with open(path, 'w') as f:
            for v in new:
                f.write('property %s\nscenario  %s\nfound     %s\nconstruct %s\nwitness   %s\n\n' % (
                    prop, v['scenario'], v['what'], fmt(v.get('where')), v.get('witness')))
        for v in new[:(100 if verbose else 12)]:
            print('  %s: %s [%s]' % (v['scenario'], v['what'], fmt(v.get('where'))), '' if not v.get('witness') else 'e.g. %s' % str(v['witness'])[:300])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for e in errs:
        print('ANALYSIS-ERROR', e[:3000])
    if (harness and not done) or (not harness and not rule_results) or nobl == 0:
        print('no obligation of %s could be analysed' % prop)
        for u in unres[:5]:
            print('  ', u)
        return 2
    print('%s: %d obligations, %d discharged, %d undecided; %d/%d partitions resolved; %.1f s' % (
        prop, nobl, neq, len(opened), len(done), len(res), time.time() - t0))
    if unres:
        for u in unres[:20]:
            print('   UNRESOLVED', u[:600])
    return 0


RULE = ('an obligation counts when the scenario reaches it with a value derived from the analysed code; it is discharged only by canonical equality '
        'for every input, refuted only by a concrete valuation on which the two forms fold to different constants')


def fmt(w):
    if not w:
        return '?'
    if isinstance(w, (tuple, list)) and len(w) >= 3:
        return '%s:%s (%s)' % (w[0], w[1], w[2])
    return str(w)


if __name__ == '__main__':
    sys.exit(main())
