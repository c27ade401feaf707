#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py P03 [--tier quick|thorough]      exit 0 held, 1 VIOLATION, 2 error
  check.py --replay evidence/replay-....json  re-runs a recorded violation
"""
import glob, json, os, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/sim')
import build, targets, props  # noqa: E402

EVID = os.path.join(HERE, 'evidence')


def log(*a):
    print(*a, flush=True)


def env(tier):
    e = dict(os.environ)
    e['VERIF_TIER'] = tier
    e['SIM_DATA'] = build.REPO + '/testdata'
    e['SIM_FIXTURES'] = HERE + '/sim/fixtures'
    e.pop('SIM_NO_REEXEC', None)
    return e


def call(cmd, tier, timeout):
    return subprocess.run(cmd, env=env(tier), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def one(exe, tier, scenario, seed=None, tape=None, tmp=None, verbose='1'):
    out = os.path.join(tmp, 'one.json')
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, 'one', '--scenario', scenario, '--verbose', verbose, '--out', out]
    if seed is not None:
        cmd += ['--runseed', str(seed)]
    if tape is not None:
        tf = os.path.join(tmp, 'tape.in')
        with open(tf, 'w') as f:
            f.write(' '.join(str(x) for x in tape) + '\n')
        cmd += ['--tape', tf]
    r = call(cmd, tier, 400)
    if r.returncode or not os.path.exists(out):
        return None
    with open(out) as f:
        return json.load(f)


def gate(exe, tier, v, tmp, min_seconds):
    """Reproduce, minimise and reproduce again. Returns (replay dict, '') or (None, why)."""
    a = one(exe, tier, v['scenario'], seed=v['seed'], tmp=tmp)
    b = one(exe, tier, v['scenario'], seed=v['seed'], tmp=tmp)
    for x in (a, b):
        if not x or x['outcome'] != 2 or x['cls'] != v['cls']:
            return None, 'seed %s of %s did not reproduce %s: %s' % (v['seed'], v['scenario'], v['cls'], x and (x['outcome'], x['cls'], x['msg'][:200]))
    if a['hash'] != b['hash'] or a['hash'] != v['hash']:
        return None, 'seed %s of %s gave different traces' % (v['seed'], v['scenario'])
    tape = a['tape']
    full = len(tape)
    tf, of = os.path.join(tmp, 'min.in'), os.path.join(tmp, 'min.out')
    with open(tf, 'w') as f:
        f.write(' '.join(map(str, tape)) + '\n')
    try:
        r = call([exe, 'minimise', '--scenario', v['scenario'], '--tape', tf, '--cls', v['cls'], '--out', of,
                  '--max-seconds', str(min_seconds)], tier, min_seconds + 120)
        if r.returncode == 0 and os.path.exists(of):
            with open(of) as f:
                tape = [int(x) for x in f.read().split()]
    except subprocess.TimeoutExpired:
        pass
    for cand in (tape, a['tape']):
        c = one(exe, tier, v['scenario'], tape=cand, tmp=tmp)
        d = one(exe, tier, v['scenario'], tape=cand, tmp=tmp)
        if c and d and c['outcome'] == 2 and d['outcome'] == 2 and c['cls'] == d['cls'] == v['cls'] and c['hash'] == d['hash']:
            return dict(scenario=v['scenario'], run_seed=v['seed'], cls=v['cls'], msg=c['msg'], hash=c['hash'], tape=cand,
                        decisions_before_minimising=full, decisions=len(cand), trace=c['trace'].split('\n'), tier=tier), ''
    return None, 'the recorded tape of %s/%s did not replay' % (v['scenario'], v['seed'])


def known_findings():
    """known-findings.txt: KNOWN property=<id> scenario=<name> class=<violation class> | text"""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('KNOWN '):
                head, _, text = line[6:].partition('|')
                d = dict(x.split('=', 1) for x in head.split())
                out.append((d['property'], d['scenario'], d['class'], text.strip()))
    return out


def replay(path):
    with open(path) as f:
        r = json.load(f)
    exe = build.build_target(r['target'], targets.TARGETS[r['target']])
    with tempfile.TemporaryDirectory() as tmp:
        x = one(exe, r['tier'], r['scenario'], tape=r['tape'], tmp=tmp)
    if not x:
        log('ERROR: the simulator did not run')
        return 2
    log(x['trace'])
    log('outcome=%s class=%s hash=%s\n%s' % (x['outcome'], x['cls'], x['hash'], x['msg']))
    if x['outcome'] == 2 and x['cls'] == r['cls']:
        log('reproduced%s' % ('' if x['hash'] == r['hash'] else ' (a different trace: the code has changed)'))
        log('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    log('not reproduced: the code does not violate the property on this trace')
    return 0


def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        return replay(args[1])
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = props.PROPS[pid]
    t0 = time.time()
    jobs = os.cpu_count() or 4
    agg = dict(runs=0, skipped=0, audited=0, mismatches=0, errors=0, events=0, decisions=0, sim_seconds=0.0)
    counters, per, viol, samples = {}, {}, [], []
    distinct_states = distinct_runs = want_runs = 0
    build_s = explore_s = 0.0
    problems = []
    known = [k for k in known_findings() if k[0] == pid]
    os.makedirs(EVID, exist_ok=True)
    for f in glob.glob(os.path.join(EVID, 'replay-%s-*.json' % pid)):
        try:
            os.remove(f)
        except FileNotFoundError:
            pass
    with tempfile.TemporaryDirectory(prefix='simcheck') as tmp:
        exes = {}
        for part in p['parts']:
            tb = time.time()
            try:
                exe = build.build_target(part['target'], targets.TARGETS[part['target']])
            except build.BuildError as e:
                log('ERROR: cannot build the simulator for %s\n%s' % (pid, e))
                return 2
            exes[part['target']] = exe
            build_s += time.time() - tb
            runs, secs = part[tier]
            want_runs += runs
            out = os.path.join(tmp, 'x')
            for f in glob.glob(out + '.*'):
                os.remove(f)
            te = time.time()
            scen_known = ','.join(k[2] for k in known)
            r = call([exe, 'explore', '--scenarios', ','.join(part['scenarios']), '--seed', str(seed), '--runs', str(runs),
                      '--max-seconds', str(secs), '--jobs', str(jobs), '--audit', '32', '--known', scen_known, '--out', out],
                     tier, secs + 400)
            explore_s += time.time() - te
            if r.returncode or not os.path.exists(out + '.total.json'):
                problems.append('the simulator failed: ' + r.stdout.decode(errors='replace')[-2000:])
                continue
            tot = json.load(open(out + '.total.json'))
            distinct_states += tot['distinct_states']
            distinct_runs += tot['distinct_runs']
            for w in range(jobs):
                d = json.load(open('%s.%d.json' % (out, w)))
                for k in agg:
                    agg[k] += d[k]
                for k, n in d['counters'].items():
                    counters[k] = counters.get(k, 0) + n
                for k, n in d['per_scenario'].items():
                    per[k] = per.get(k, 0) + n
                for v in d['violations']:
                    v['target'] = part['target']
                    (problems.append('harness error in %s seed %s: %s' % (v['scenario'], v['seed'], v['msg'])) if v.get('error') else viol.append(v))
                samples += d['samples']
        # Known findings are reported, not raised.
        seen_known, fresh = {}, []
        for v in viol:
            hit = [k for k in known if k[1] in ('*', v['scenario']) and k[2] == v['cls']]
            if hit:
                seen_known[hit[0]] = seen_known.get(hit[0], 0) + 1
            else:
                fresh.append(v)
        for k in known:
            log('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
        # One representative per class, smallest scenario first.
        reps = {}
        for v in fresh:
            reps.setdefault((v['scenario'], v['cls']), []).append(v)
        reported, gate_fail = [], []
        for (scen, cls), vs in sorted(reps.items(), key=lambda kv: -len(kv[1])):
            if len(reported) >= 2 or time.time() - t0 > 500:
                break
            for v in vs[:2]:
                rep, why = gate(exes[v['target']], tier, v, tmp, 15 if not reported else 5)
                if rep:
                    rep.update(property=pid, target=v['target'], base_seed=seed)
                    path = os.path.join(EVID, 'replay-%s-%s-%s.json' % (pid, scen, ''.join(c if c.isalnum() else '-' for c in cls)[:60]))
                    with open(path, 'w') as f:
                        json.dump(rep, f, indent=1)
                    reported.append((rep, path))
                    break
                gate_fail.append(why)
        wall = time.time() - t0
        zero = [c for c in p.get('must_reach', []) if not counters.get(c)]
        # Without an answer only if the runs say nothing: not where another way of doing
        # the I/O has fewer places for a fault, or where time was short.
        cut = agg['runs'] < want_runs
        vacuous = [c for c in zero if c.startswith('reach.') and not cut]
        if vacuous and not reported:
            problems.append('never reached: ' + ', '.join(vacuous))
        if zero:
            log('NOTE: never reached%s: %s' % (' in the time there was' if cut else '', ', '.join(zero)))
        if agg['mismatches']:
            problems.append('%d audited runs differed when repeated' % agg['mismatches'])
        if not agg['runs']:
            problems.append('no runs')
        ev = dict(
            property=pid, tier=tier, seed=seed, level=p['level'],
            coverage=dict(
                evaluations=agg['runs'] - agg['skipped'], distinct_nontrivial=distinct_runs, rule=p['rule'],
                samples=[s for s in samples if 'mismatch' not in s][:6] or [dict(note='no passing run sampled')],
                simulated_runs=agg['runs'], skipped_runs=agg['skipped'],
                seeds_per_hour=int(agg['runs'] / explore_s * 3600) if explore_s else 0,
                simulated_seconds=round(agg['sim_seconds'], 6), decisions=agg['decisions'], events=agg['events'],
                faults_injected={k[6:]: n for k, n in sorted(counters.items()) if k.startswith('fault.')},
                orders={k[6:]: n for k, n in sorted(counters.items()) if k.startswith('order.')},
                processes={k[5:]: n for k, n in sorted(counters.items()) if k.startswith('proc.')},
                reached={k[6:]: n for k, n in sorted(counters.items()) if k.startswith('reach.')},
                not_reached=zero, io_operations=counters.get('io.steps', 0), distinct_states=distinct_states,
                distinct_states_measure=p.get('measure', 'hash of the abstract state the scenario reports'),
                runs_per_scenario=per, determinism_audits=agg['audited'], determinism_mismatches=agg['mismatches'],
                real_components=p['real'], stub_components=p['stub']),
            wall_s=round(wall, 3), build_s=round(build_s, 3), explore_s=round(explore_s, 3),
            assumptions=p['assumptions'],
            known_findings=[dict(scenario=k[1], cls=k[2], seen=seen_known.get(k, 0)) for k in known],
            problems=problems + gate_fail,
            violations=[dict(replay=os.path.relpath(path, HERE), scenario=r['scenario'], cls=r['cls'], message=r['msg'],
                             run_seed=r['run_seed'], decisions=r['decisions']) for r, path in reported])
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        log('%s: %d runs (%d distinct), %d skipped, build %.1fs, explore %.1fs, %d seeds/hour, %d determinism audits' % (
            pid, agg['runs'], distinct_runs, agg['skipped'], build_s, explore_s, ev['coverage']['seeds_per_hour'], agg['audited']))
        if reported:
            for r, path in reported:
                log('%s [%s] %s' % (r['scenario'], r['cls'], r['msg']))
                log('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        if problems or gate_fail:
            for x in problems + gate_fail:
                log('ERROR: ' + x)
            return 2
        log('OK: property %s held on everything explored' % pid)
        return 0


if __name__ == '__main__':
    sys.exit(main())
