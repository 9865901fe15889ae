import json, os, subprocess, sys, time, tempfile
import vbuild
from plans import PLANS

VERIF = vbuild.VERIF


def known_findings(prop):
    """lines 'known: property=<id> key=<key> <text>' of known_findings.txt"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2].strip()
                key, text = rest.split(' ', 1)
                out.append((key[len('key='):], text))
    return out


def main(argv):
    t0 = time.time()
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    plan = PLANS[prop]
    out = os.path.join(VERIF, 'out', prop)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        if f.endswith('.replay'):
            os.remove(os.path.join(out, f))
    known = known_findings(prop)
    tmp = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
    stats, viol, seen = [], [], {}
    runs = [r for r in plan['runs'] if tier in r.get('tiers', ('quick', 'thorough'))]
    # total time limits: leave room below the 900 s of a quick run
    total = plan.get('limit', {}).get(tier, 240 if tier == 'quick' else 3000)
    wsum = float(sum(r.get('weight', 1) for r in runs))
    rc = 0
    for r in runs:
        exe = vbuild.harness(r['src'], r['dim'], r.get('flavor', 'rel'), r.get('defs', ()), r.get('cflags', ()))
        label = '%s-%dd-%s' % (r['src'], r['dim'], r.get('flavor', 'rel')) + r.get('tag', '')
        cmd = [exe, '--prop', prop, '--out', out, '--label', label, '--tmp', tmp, '--limit', '%.1f' % (total * r.get('weight', 1) / wsum)]
        if tier == 'thorough':
            cmd.append('--thorough')
        for k, _ in known:
            cmd += ['--known', k]
        cmd += r.get('args', [])
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0')
        p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, errors='replace', env=env)
        for line in p.stdout.splitlines():
            if line.startswith('STATS '):
                s = json.loads(line[6:])
                stats.append(s)
                for k, n in s.get('known', {}).items():
                    seen[k] = seen.get(k, 0) + n
            elif line.startswith('VIOLATION '):
                viol.append(line)
                print(line)
            elif line.startswith('DETAIL '):
                print(line[:3000])
        if p.returncode == 1:
            rc = 1
        elif p.returncode != 0 and rc == 0:
            rc = 10 + (p.returncode % 80)
        if rc == 1:
            break
    for k, text in known:
        if seen.get(k):
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    tot = lambda k: sum(s.get(k, 0) for s in stats)
    stages = [dict(st, harness=s['label']) for s in stats for st in s['stages']]
    samples = [x for s in stats for x in s['samples']][:12]
    cov = {
        'states': tot('states'), 'transitions': tot('transitions'),
        'traces_validated_against_impl': tot('execs'),
        'samples': samples or ['none'],
        'outer_cases': tot('cases'), 'inner_cases': tot('subs'),
        'mpi_choice_points': tot('choices'), 'mpi_messages': tot('messages'), 'mpi_collectives': tot('collectives'),
        'cases_with_capped_schedules': tot('capexec'),
        'exhaustive': all(st['complete'] for st in stages) and tot('capexec') == 0,
        'stages': stages,
        'counters': {k: v for s in stats for k, v in s.get('counters', {}).items()},
        'rule': plan.get('rule', 'every case of the stages listed; every execution runs the real code on simulated ranks and is compared with the reference model'),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': plan.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': plan.get('assumptions', []) + ['bounds as listed in coverage.stages', 'MPI semantics as implemented by mpisim', 'compiler, libsc and zlib are trusted'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    vbuild.trim()
    print('%s %s: %d states, %d transitions, %d executions, %d violations, %.1f s%s' % (prop, tier, cov['states'], cov['transitions'], tot('execs'), len(viol), time.time() - t0, '' if all(st['complete'] for st in stages) else ' (not all stages completed)'))
    return rc
