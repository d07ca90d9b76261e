#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE]

Builds the code under test from /repo's working tree in a scratch directory,
drives it under the monitors of one property and reports.
exit 0: held on everything observed; exit 1: VIOLATION line; exit 2: no verdict.
"""
import argparse
import glob
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
from vlib import build  # noqa: E402

DEFAULTS = dict(shards=(6, 8), budget=(150, 3000), timeout=(600, 7200), cxxflags='', ldflags='',
                require=(), level='exploration', rule='', assumptions=(), env={}, preload='')


def known_findings(pid):
    keys, lines = [], {}
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        line = line.strip()
        if line.startswith('KNOWN-FINDING: property=%s ' % pid):
            rest = line.split('property=%s ' % pid, 1)[1]
            key, text = rest.split(' ', 1)
            key = key.replace('key=', '')
            keys.append(key)
            lines[key] = text
    return keys, lines


def run_shards(pid, meta, tier, seed, scratch, known, only=None):
    t = 0 if tier == 'quick' else 1
    n = meta['shards'][t]
    if only:
        n = 1
    variants = meta.get('variants') or [{}]
    nv = len(variants)
    if only:
        n = nv
    env0 = dict(os.environ)
    env0.update(PYTHONPATH=scratch + os.pathsep + HERE, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8',
               MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, '.mpl'), TMPDIR=scratch, HOME=scratch)
    procs = []
    for k in range(n):
        var = variants[k % nv]
        where = os.path.join(scratch, var['sub']) if var.get('sub') else scratch
        env = dict(env0, PYTHONPATH=where + os.pathsep + HERE, VERIF_VARIANT=var.get('name', ''))
        for kk, v in list(meta['env'].items()) + list(var.get('env', {}).items()):
            env[kk] = v.replace('@SCRATCH@', scratch)
        preload = var.get('preload') or meta['preload']
        if preload:
            env['LD_PRELOAD'] = preload
        out = os.path.join(scratch, '_out%d.json' % k)
        cmd = [build.PY, '-m', 'vlib.worker', pid, '--tier', tier, '--seed', str(seed), '--shard', str(k//nv),
               '--nshards', str(n//nv), '--scratch', where, '--out', out, '--known', ','.join(known),
               '--budget', str(meta['budget'][t]*(1 if t else 2))]
        if only:
            cmd += ['--only', only]
        log = open(out + '.log', 'w')
        procs.append((k, out, subprocess.Popen(cmd, cwd=HERE, env=env, stdout=log, stderr=subprocess.STDOUT,
                                               start_new_session=True), var.get('name', '')))
    end = time.time() + meta['timeout'][t]
    results = []
    for k, out, p, vname in procs:
        res = None
        try:
            rc = p.wait(max(1., end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
        log = open(out + '.log', errors='replace').read()
        cur = None
        try:
            cur = json.load(open(out + '.cur'))
        except (OSError, ValueError):
            pass
        if os.path.exists(out):
            res = json.load(open(out))
        results.append(dict(shard=k, rc=rc, res=res, log=log, cur=cur, variant=vname, out=out))
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay', default='')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.pid.upper()
    meta = dict(DEFAULTS)
    ns = {}
    # META is a literal at the top of the check module (read without importing
    # the module, which needs the code under test)
    src = open(os.path.join(HERE, 'vlib', 'checks', pid.lower() + '.py')).read()
    head = src.split('# --- end of META', 1)[0]
    exec(head, ns)
    meta.update(ns['META'])
    keys, lines = known_findings(pid)
    only = ''
    if a.replay:
        w = json.load(open(a.replay))
        a.tier, a.seed = w['tier'], w['seed']
        if w.get('kind') is not None:
            only = '%s#%d' % (w['kind'], w['idx'])
    try:
        with build.Scratch(cxxflags=meta['cxxflags'], ldflags=meta['ldflags'],
                           directives=meta.get('directives')) as s:
            tb = time.time() - t0
            if meta.get('prepare'):
                importlib.import_module('vlib.' + meta['prepare']).prepare(s.path, meta)
            results = run_shards(pid, meta, a.tier, a.seed, s.path, keys, only)
            post = None
            if meta.get('postprocess'):
                post = importlib.import_module('vlib.' + meta['postprocess']).postprocess(s.path, results)
            rebuilt = s.rebuilt
    except build.BuildError as e:
        print('no verdict: %s' % e)
        return 2

    tot = dict(evaluations=0, cases=0, skipped=0)
    allkeys, events, samples, viol, known, errors, margins, timed = set(), {}, [], [], {}, [], {}, []
    for r in results:
        res = r['res']
        if res is None or r['rc'] != 0:
            if r['rc'] is not None and r['rc'] < 0 and -r['rc'] in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                                                                   signal.SIGFPE, signal.SIGILL):
                cur = r['cur'] or {}
                viol.append(dict(kind=cur.get('kind'), idx=cur.get('idx'), shard=r['shard'],
                                 what='the process died with signal %d' % -r['rc'],
                                 case={'log': r['log'][-3000:]}))
            elif post is None or not post.get('handled', {}).get(r['shard']):
                errors.append('shard %d: rc=%s %s' % (r['shard'], r['rc'], r['log'][-3000:]))
        if res is None:
            continue
        for k in tot:
            tot[k] += res[k]
        allkeys.update(res['keys'])
        for k, v in res['events'].items():
            events[k] = events.get(k, 0) + v
        samples += res['samples']
        viol += res['violations']
        errors += res['errors']
        timed += res['timed_out']
        for k, v in res['known_hits'].items():
            known[k] = known.get(k, 0) + v
        for k, v in res['margins'].items():
            margins[k] = max(margins.get(k, [0., '']), v)
    if post:
        viol += post.get('violations', [])
        errors += post.get('errors', [])
        for k, v in post.get('events', {}).items():
            events[k] = events.get(k, 0) + v
    missing = [k for k in meta['require'] if not events.get(k)]

    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    uniq = {}
    for smp in samples:
        uniq.setdefault(smp['kind'], smp)
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level=meta['level'],
              coverage=dict(evaluations=tot['evaluations'], distinct_nontrivial=len(allkeys), rule=meta['rule'],
                            samples=list(uniq.values())[:12] or [dict(kind='none')],
                            executions=tot['cases'], skipped_out_of_domain=tot['skipped'], events_observed=events,
                            worst_deviation_over_tolerance=margins, known_findings_observed=known,
                            cases_not_run_for_time=timed, extensions_rebuilt=rebuilt,
                            errors=[e[-400:] for e in errors][:5]),
              wall_s=round(time.time() - t0, 2), violations=len(viol), assumptions=list(meta['assumptions']))
    if post and post.get('coverage'):
        ev['coverage'].update(post['coverage'])
    if not a.replay:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d executions, %d oracle verdicts, %d distinct non-trivial, build %.1fs, %.1fs' % (
        pid, a.tier, a.seed, tot['cases'], tot['evaluations'], len(allkeys), tb, time.time() - t0))
    print('observed: ' + ', '.join('%s=%d' % kv for kv in sorted(events.items())))
    for k in keys:
        print('KNOWN-FINDING: property=%s %s (key=%s, observed %d times in this run)' % (
            pid, lines[k], k, known.get(k, 0)))
    if viol:
        for i, v in enumerate(viol[:5]):
            path = os.path.join(HERE, 'evidence', 'replay', '%s-%d.json' % (pid, i))
            v = dict(v, property=pid, tier=a.tier, seed=a.seed)
            if not a.replay:
                with open(path, 'w') as f:
                    json.dump(v, f, indent=1)
            print('  %s#%s: %s' % (v.get('kind'), v.get('idx'), v['what']))
            print('  ' + json.dumps(v.get('case'))[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        print('no verdict, errors in the harness:')
        for e in errors[:5]:
            print(e)
        return 2
    if missing and not a.replay:
        print('no verdict: nothing observed for %s' % missing)
        return 2
    if not a.replay and (tot['evaluations'] == 0 or not allkeys):
        print('no verdict: nothing was observed')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
