#!/usr/bin/env python3-vt
"""Decide one property by symbolic execution of the current /repo sources.

usage: check.py PROPERTY [--tier quick|thorough] [--harness NAME] [--jobs N] [--budget SECONDS] [-v]
       check.py --replay FILE
"""
from __future__ import annotations
import os
import sys
import json
import time
import random
import shutil
import signal
import argparse
import tempfile
import selectors
import subprocess
import collections

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)


class Proc:
    def __init__(self, mode, modules, known, tmp):
        env = dict(os.environ, PYTHONHASHSEED='0', TMPDIR=tmp, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')
        env.pop('HYPERSHELL_SITE', None)
        self.err = tempfile.NamedTemporaryFile(dir=tmp, prefix='err', delete=False)
        self.p = subprocess.Popen([sys.executable, '-m', 'sx.worker', mode, modules, json.dumps(known)], cwd=ROOT,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, text=True,
                                  bufsize=1, start_new_session=True)
        self.job = None
        self.started = time.time()
        self.ready = False

    def send(self, job):
        self.job = job
        self.started = time.time()
        self.p.stdin.write(json.dumps(job) + '\n')
        self.p.stdin.flush()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()
        try:
            self.p.stdin.close()
            self.p.stdout.close()
        except Exception:
            pass

    def stderr(self):
        try:
            with open(self.err.name, errors='replace') as f:
                return f.read()[-3000:]
        except OSError:
            return ''


def load_known(prop):
    """Finding ids listed (not fixed) for the property."""
    out = {}
    path = os.path.join(ROOT, 'known-findings.jsonl')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith('#') and not line.startswith('fixed:'):
                    d = json.loads(line)
                    if d['property'] == prop:
                        out[d['id']] = d
    return out


def concrete_once(modules, known, tmp, job, timeout=90):
    """Run one assignment in a fresh process on the real code."""
    p = Proc('con', modules, known, tmp)
    try:
        sel = selectors.DefaultSelector()
        sel.register(p.p.stdout, selectors.EVENT_READ)
        t0 = time.time()
        sent = False
        while time.time() - t0 < timeout:
            if not sel.select(timeout=1):
                continue
            line = p.p.stdout.readline()
            if not line:
                return {'outcome': 'worker-died', 'message': p.stderr()}
            d = json.loads(line)
            if 'fatal' in d:
                return {'outcome': 'fatal', 'message': d['fatal']}
            if d.get('ready') and not sent:
                p.send(dict(job, kind='concrete', id=0))
                sent = True
                continue
            return d
        return {'outcome': 'hang'}
    finally:
        p.kill()


def replay(path):
    with open(path) as f:
        d = json.load(f)
    tmp = tempfile.mkdtemp(prefix='hs-replay-')
    try:
        r = concrete_once(d['modules'], [], tmp, dict(prop=d['property'], harness=d['harness'], case=d['case'],
                                                      assignment=d['assignment'], verbose=True,
                                                      **({'fill': d['fill']} if d.get('fill') is not None else {})))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps(r, indent=1))
    if r.get('outcome') == 'violation':
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness')
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--max-violations', type=int, default=1)
    ap.add_argument('--strict', action='store_true', help='exit 2 when anything is undecided')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    sys.path.insert(0, ROOT)
    from checks import registry
    info = registry.PROPS[a.prop]
    modules = ','.join(info['modules'])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = a.budget or (info.get('quick_budget', 420) if a.tier == 'quick' else info.get('thorough_budget', 3000))
    tmp = tempfile.mkdtemp(prefix='hs-check-')
    try:
        return run(a, info, modules, seed, budget, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, info, modules, seed, budget, tmp):
    prop = a.prop
    t0 = time.time()
    known = load_known(prop)
    # harness list comes from a (cheap) import in a worker; ask worker by describing
    desc = describe(modules, tmp, prop, a.tier)
    if 'fatal' in desc:
        print('ERROR: cannot load the harness on the current tree:\n' + desc['fatal'])
        return 2
    hs = desc['harnesses']
    if a.harness:
        hs = [h for h in hs if h['name'] == a.harness]
    queue = collections.deque()
    for h in hs:
        for case in h['cases']:
            if a.case and json.loads(a.case) != case:
                continue
            queue.append(dict(prop=prop, harness=h['name'], case=case, prefix=[]))
    total = dict(paths=0, queries=0, checks=0, transitions=0, infeasible=0, solver_s=0.0, unknown=0)
    load = {}
    ends, covers, encoded, bounded = collections.Counter(), collections.defaultdict(set), {}, collections.Counter()
    per = collections.defaultdict(lambda: collections.Counter())
    samples, unsupported, errors, violations, knownhits = [], [], [], [], {}
    nproc = max(1, a.jobs)
    procs = []
    sel = selectors.DefaultSelector()

    def spawn(mode):
        p = Proc(mode, modules, sorted(known), tmp)
        p.mode = mode
        sel.register(p.p.stdout, selectors.EVENT_READ, p)
        procs.append(p)
        return p

    con = spawn('con')
    for _ in range(min(nproc, max(1, len(queue) * 2))):
        spawn('sym')
    def real(r):
        return r.get('outcome') == 'violation' and not (set(r.get('known', [])) & set(known))

    found = 0
    conq = collections.deque()
    con_results, outsideq, noutside = [], [], 0
    jid = 0
    out_of_time = False
    stop = False
    max_samples = 60 if a.tier == 'quick' else 400

    def pending():
        return queue or conq or any(p.job is not None for p in procs)

    def feed():
        nonlocal jid
        for p in procs:
            if not p.ready or p.job is not None:
                continue
            if p.mode == 'sym' and queue and not stop:
                j = queue.popleft()
                jid += 1
                j.update(kind='sym', id=jid, seed=seed, slice=2.5 if len(queue) < nproc else 8.0)
                p.send(j)
            elif p.mode == 'con' and conq:
                j = conq.popleft()
                jid += 1
                p.send(dict(j, kind='concrete', id=jid))

    try:
        while True:
            feed()
            live_sym = [p for p in procs if p.mode == 'sym']
            if (not queue or stop) and not any(p.job for p in live_sym) and not conq and not con.job:
                break
            if stop and not conq and not con.job:
                break
            if len(live_sym) < nproc and len(queue) > len(live_sym) and not stop:
                spawn('sym')
            if time.time() - t0 > budget and not out_of_time:
                out_of_time = True
                stop = True
            if out_of_time and time.time() - t0 > budget + 60:
                break
            for key, _ in sel.select(timeout=1.0):
                p = key.data
                line = p.p.stdout.readline()
                if not line and p.mode == 'con' and p.job is not None:
                    con_results.append((p.job, dict(outcome='worker-died', message=p.stderr()[-1500:])))
                    sel.unregister(p.p.stdout)
                    procs.remove(p)
                    p.kill()
                    con = spawn('con')
                    continue
                if not line:
                    sel.unregister(p.p.stdout)
                    procs.remove(p)
                    errors.append(f'worker died on {p.job}: {p.stderr()[-1500:]}')
                    p.kill()
                    stop = True
                    continue
                d = json.loads(line)
                if 'fatal' in d and p.mode == 'con' and p.job is not None:
                    con_results.append((p.job, dict(outcome='fatal', message=d['fatal'])))
                    p.job = None
                    continue
                if 'fatal' in d:
                    errors.append(d['fatal'])
                    p.job = None
                    stop = True
                    continue
                if d.get('ready'):
                    p.ready = True
                    continue
                job, p.job = p.job, None
                if p.mode == 'con':
                    con_results.append((job, d))
                    if (job.get('off') or job.get('cand')) and real(d):
                        found += 1
                        stop = stop or found >= a.max_violations
                    continue
                for k in ('paths', 'queries', 'checks', 'transitions', 'infeasible', 'solver_s', 'unknown'):
                    total[k] += d[k]
                ends.update(d['ends'])
                bounded.update(d['bounded'])
                load[job['harness']] = max(load.get(job['harness'], 0.0), round(d['load'], 3))
                per[job['harness'] + ' ' + json.dumps(job['case'])].update(paths=d['paths'], queries=d['queries'],
                                                                            seconds=d['wall'])
                covers[job['harness']] |= set(d['covers'])
                for m, fs in d['encoded'].items():
                    encoded.setdefault(m, set()).update(fs)
                for u in d['unsupported']:
                    unsupported.append(f"{job['harness']} {job['case']}: {u}")
                for e in d['errors']:
                    errors.append(f"{job['harness']} {job['case']}: {e}")
                for fid, (msg, asg) in d['known'].items():
                    knownhits.setdefault(fid, dict(job=job, message=msg, assignment=asg))
                for v in d['violations']:
                    violations.append(dict(prop=prop, harness=job['harness'], case=job['case'], **v))
                    if len(violations) <= 60:      # decided by a run of the real code
                        conq.appendleft(dict(violations[-1], cand=True))
                    else:
                        stop = True
                if d['errors']:
                    stop = True
                noutside += d['ends'].get('unsupported', 0)
                for o in d['outside']:
                    if len(outsideq) < 200 and time.time() - t0 < min(90, budget / 3):
                        outsideq.append(1)
                        conq.append(dict(prop=prop, harness=job['harness'], case=job['case'], off=True, **o))
                if not stop:
                    for pre in d['leftover']:
                        queue.append(dict(prop=prop, harness=job['harness'], case=job['case'], prefix=pre))
                for s in d['samples']:
                    if len(samples) < max_samples and not stop:
                        s = dict(prop=prop, harness=job['harness'], case=job['case'], **s)
                        samples.append(s)
                        conq.append(s)
                if a.v:
                    print(f"[{time.time()-t0:6.1f}s] {job['harness']} {job['case']} paths={d['paths']} "
                          f"q={d['queries']} {d['wall']:.1f}s ends={d['ends']} left={len(d['leftover'])} "
                          f"queue={len(queue)} {d['unsupported'][:1]} {[v['message'] for v in d['violations']]}",
                          flush=True)
        remaining = len(queue) + sum(1 for p in procs if p.mode == 'sym' and p.job is not None)
    finally:
        for p in procs:
            p.kill()
    # verdicts ------------------------------------------------------------------------
    confirmed, unconfirmed = [], []
    for v, r in con_results:
        if not v.get('cand') and not v.get('off') or len(confirmed) >= a.max_violations:
            continue
        again = concrete_once(modules, sorted(known), tmp, v) if real(r) or r.get('outcome') in ('worker-died', 'fatal') else r
        if real(again):
            confirmed.append((dict(v, message=v.get('message') or r.get('message')), again))
        elif v.get('cand'):
            unconfirmed.append((v, again))
    known_out = []
    for fid, k in sorted(knownhits.items()):
        r = concrete_once(modules, sorted(known), tmp, dict(prop=prop, harness=k['job']['harness'],
                                                            case=k['job']['case'], assignment=k['assignment']))
        if r.get('outcome') == 'violation':
            known_out.append(fid)
        else:
            unconfirmed.append((dict(prop=prop, harness=k['job']['harness'], case=k['job']['case'],
                                     message=k['message'], assignment=k['assignment']), r))
    validated, mismatched = 0, []
    for job, r in con_results:
        if r.get('outcome') in ('worker-died', 'fatal', 'hang') and not job.get('cand'):
            r = concrete_once(modules, sorted(known), tmp, job)      # alone, in a process of its own
        if job.get('off'):           # path left the encoding: its witness was run on the real code
            if r.get('outcome') in ('harness-error', 'worker-died', 'fatal'):
                errors.append(str(r.get('message')))
            continue
        if job.get('cand'):
            continue
        if r.get('outcome') == job['outcome'] and norm(r.get('obs')) == norm(job['obs']):
            validated += 1
        else:
            mismatched.append((job, r))
    missing = []
    if not violations and not errors and not unsupported and remaining == 0 and not a.case:
        for h in hs:
            for c in h['covers']:
                if c not in covers[h['name']]:
                    missing.append(f"{h['name']}:{c}")
    wall = time.time() - t0
    nfun = sum(len(v) for v in encoded.values())
    ev = dict(property=prop, tier=a.tier, seed=seed, level='model_checking', wall_s=round(wall, 2),
              violations=len(confirmed),
              assumptions=info.get('assumptions', []),
              coverage=dict(
                  states=total['paths'], transitions=total['transitions'],
                  traces_validated_against_impl=validated,
                  samples=[dict(harness=s['harness'], case=s['case'], inputs=trim(s['assignment']), observed=trim(s['obs']))
                           for s in samples[:4]],
                  exhaustive=bool(remaining == 0 and not violations and not errors and not unsupported and not mismatched
                                  and not missing),
                  explanation='states: feasible symbolic paths (each stands for all values satisfying its path '
                              'condition); transitions: solver-decided branch points',
                  assertions_discharged=total['checks'], solver_queries=total['queries'],
                  solver_seconds=round(total['solver_s'], 2), solver_unknown=total['unknown'],
                  infeasible_prefixes=total['infeasible'], path_ends=dict(ends), paths_ended_at_bound=dict(bounded),
                  fraction_of_step_bounds_used=load,
                  unexplored_prefixes=remaining,
                  bounds=info.get('bounds', ''), outside=info.get('outside', ''),
                  cases={k: {x: round(y, 2) if isinstance(y, float) else y for x, y in v.items()}
                         for k, v in sorted(per.items())},
                  functions_encoded={m: sorted(v) for m, v in sorted(encoded.items())}, functions_encoded_count=nfun,
                  labels_reached=sorted({c for v in covers.values() for c in v}),
                  known_findings=known_out, trace_mismatches=len(mismatched), not_reached=missing,
                  counterexamples_not_reproduced=len(unconfirmed),
                  paths_outside_the_encoding=noutside, unsupported=unsupported[:5]))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {total['paths']} paths, {total['queries']} queries, {total['checks']} assertions, "
          f"{nfun} functions encoded, solver {total['solver_s']:.1f}s, wall {wall:.1f}s, "
          f"validated {validated} traces, {remaining} prefixes left")
    for fid in known_out:
        print(f"KNOWN-FINDING: property={prop} {fid}: {known[fid]['what']}")
    if confirmed:
        for v, r in confirmed:
            path = os.path.join(ROOT, 'evidence', 'replays')
            os.makedirs(path, exist_ok=True)
            path = os.path.join(path, f"{prop}-{v['harness']}.json")
            with open(path, 'w') as f:
                json.dump(dict(property=prop, modules=modules, harness=v['harness'], case=v['case'],
                               message=v['message'], assignment=v['assignment'], fill=v.get('fill'), concrete=r), f, indent=1, default=str)
            print(f"  {v['harness']} {v['case']}: {r.get('message')}")
            if r.get('extra'):
                print('  ' + str(r['extra']).replace('\n', '\n  ')[-1500:])
            print(f"  inputs: {json.dumps(trim(v['assignment']))}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    bad = False
    soft = False     # parts that are not decided: reported, an alarm only with --strict
    for v, r in unconfirmed:
        soft = True
        print(f"NOT DECIDED: counterexample not reproduced on the real code: {v['harness']} {v['case']} {v['message']!r}\n"
              f"  inputs {json.dumps(v['assignment'])}\n  extra {str(v.get('extra'))[-1500:]}\n  concrete {str(r)[:1500]}")
    if noutside:
        soft = True
        print(f'NOTE: {noutside} paths leave the encoding and are not decided ({len(outsideq)} of their '
              'inputs were run on the real code)')
        for u in unsupported[:5]:
            print(f'  outside the encoding: {u}')
    for e in errors[:3]:
        bad = True
        print(f'ERROR: {e}')
    for job, r in mismatched[:3]:
        soft = True
        print(f"NOT DECIDED: symbolic and real execution disagree: {job['harness']} {job['case']}\n  inputs "
              f"{json.dumps(job['assignment'])}\n  symbolic {job['outcome']} {json.dumps(job['obs'])[:1500]}\n"
              f"  real     {r.get('outcome')} {json.dumps(r.get('obs'))[:1500]} {r.get('message')} "
              f"{str(r.get('extra',''))[-800:]}")
    if missing:
        soft = True
        print(f'NOT DECIDED: situations never reached (vacuous): {missing}')
    return 2 if bad or soft and a.strict else 0


def norm(x):
    return json.loads(json.dumps(x))


def trim(x, n=40):
    if isinstance(x, dict) and len(x) > n:
        return dict(list(x.items())[:n])
    if isinstance(x, list) and len(x) > n:
        return x[:n]
    return x


def describe(modules, tmp, prop, tier):
    code = ("import sys, json; sys.argv=['w','con',%r,'[]']\n"
            "from sx import worker\nimport tempfile\n"
            "w = worker.Worker('con', %r, tempfile.mkdtemp(), [])\n"
            "H = w.env_mod.HARNESSES\n"
            "out = [dict(name=h.name, cases=(h.quick if %r == 'quick' else h.thorough), covers=h.covers)"
            " for (p, n), h in H.items() if p == %r]\n"
            "print('@@' + json.dumps(out))\n") % (modules, modules, tier, prop)
    env = dict(os.environ, PYTHONHASHSEED='0', TMPDIR=tmp, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-c', code], cwd=ROOT, env=env, capture_output=True, text=True)
    for line in r.stdout.splitlines():
        if line.startswith('@@'):
            return {'harnesses': json.loads(line[2:])}
    return {'fatal': r.stdout[-2000:] + r.stderr[-3000:]}


if __name__ == '__main__':
    sys.exit(main())
