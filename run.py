#!/usr/bin/env python3
"""Run the check of one property:  run.py C01 [--tier quick|thorough] [--replay FILE] [--unit N]

Exit 0: the property held on everything explored.
Exit 1: VIOLATION line(s) printed, replay file(s) written under out/replay.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
# development only (tools/mutate.py): another copy of the repository
REPO = os.environ.get('SDEPY_MC_REPO', '/repo')
OUT = os.environ.get('SDEPY_MC_OUT', HERE)


def _env():
    """Re-exec once under the project's interpreter, clean environment."""
    if os.environ.get('SDEPY_MC') == '1':
        return
    import tempfile
    env = {k: v for k, v in os.environ.items()}
    env.update(SDEPY_MC='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', PYTHONHASHSEED='0',
               PYTHONPATH=REPO + os.pathsep + HERE)
    env['PYTHONPYCACHEPREFIX'] = '/nonexistent/sdepy-mc'
    env.pop('PYTHONWARNINGS', None)
    py = VENV if os.path.exists(VENV) else sys.executable
    os.execve(py, [py, '-X', 'utf8', os.path.abspath(__file__)] + sys.argv[1:],
              env)


_env()

import argparse       # noqa: E402
import importlib      # noqa: E402
import json           # noqa: E402
import time           # noqa: E402
import multiprocessing as mp   # noqa: E402
import warnings       # noqa: E402

warnings.simplefilter('ignore')
from mc import core   # noqa: E402


def find_module(pid):
    for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            return 'checks.' + f[:-3]
    raise SystemExit('no check for ' + pid)


def load_findings(pid):
    path = os.path.join(HERE, 'known_findings.txt')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                d = dict(x.split('=', 1) for x in line[8:].split(None, 2)[:2])
                text = line[8:].split(None, 2)[2]
                if d.get('property') == pid:
                    out[d['key']] = text
    return out


_MOD = None


def _work(args):
    unit, pid, seed, tier, only, timeout = args
    return core.run_one(_MOD, unit, pid, seed, tier, only=only,
                        timeout=timeout)


def main():
    global _MOD
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--unit', type=int)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--fast', action='store_true',
                    help='stop at the first violation')
    a = ap.parse_args()
    pid, tier = a.pid.upper(), a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import sdepy
    assert os.path.realpath(sdepy.__file__).startswith(
        os.path.realpath(REPO) + '/'), sdepy.__file__
    _MOD = importlib.import_module(find_module(pid))
    assert _MOD.PROPERTY == pid
    units = list(_MOD.units(tier, seed))
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        units, only = [r['unit']], r['case']
    elif a.unit is not None:
        units = [units[a.unit]]
    timeout = core.UNIT_TIMEOUT if tier == 'quick' else 3600 * 3
    jobs = [(u, pid, seed, tier, only, timeout) for u in units]
    results = []
    if a.jobs <= 1 or len(jobs) == 1:
        results = [_work(j) for j in jobs]
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(a.jobs, len(jobs))) as pool:
            for r in pool.imap_unordered(_work, jobs, chunksize=1):
                results.append(r)
                if a.fast and any(v['finding'] is None
                                  for v in r['violations']):
                    pool.terminate()
                    break
    results.sort(key=lambda d: json.dumps(d['unit'], sort_keys=True))

    states, transitions, traces, evals = set(), 0, 0, 0
    notes, samples, viol = {}, [], []
    for d in results:
        states |= d['states']
        transitions += d['transitions']
        traces += d['traces']
        evals += d['evaluations']
        for k, v in d['notes'].items():
            notes[k] = notes.get(k, 0) + v
        samples += d['samples'][:1]
        viol += [(d['unit'], v) for v in d['violations']]
        if a.v:
            print('  %6.1fs %s states=%d trans=%d traces=%d evals=%d viol=%d' % (
                d['wall'], json.dumps(d['unit'])[:90], len(d['states']),
                d['transitions'], d['traces'], d['evaluations'],
                len(d['violations'])))

    findings = load_findings(pid)
    known = {}
    real = []
    for unit, v in viol:
        if v['finding'] is not None and v['finding'] in findings:
            known.setdefault(v['finding'], v)
        else:
            real.append((unit, v))
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (pid, findings[k]))
    rdir = os.path.join(OUT, 'out', 'replay')
    if real:
        os.makedirs(rdir, exist_ok=True)
    for n, (unit, v) in enumerate(real[:10]):
        path = os.path.join(rdir, '%s_%d.json' % (pid, n))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, unit=unit, case=v['case'],
                           message=v['msg'], tier=tier, seed=seed), f,
                      indent=1, default=str)
        print('  unit=%s case=%s\n  %s' % (
            json.dumps(unit)[:200], str(v['case'])[:500], v['msg'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    wall = time.time() - t0
    if not a.replay and a.unit is None:
        cov = dict(states=len(states), transitions=transitions,
                   traces_validated_against_impl=traces,
                   comparisons=evals, rule=_MOD.RULE, samples=samples[:12] or ['-'],
                   exhaustive=not real, units=len(units), counters=notes)
        ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough')
                  else 'quick', seed=seed, level=_MOD.LEVEL, coverage=cov,
                  assumptions=getattr(_MOD, 'ASSUMPTIONS', []),
                  wall_s=round(wall, 3), violations=len(real))
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s units=%d states=%d transitions=%d traces=%d '
          'evaluations=%d violations=%d known=%d wall=%.1fs' % (
              pid, tier, len(units), len(states), transitions, traces, evals,
              len(real), len(known), wall))
    sys.exit(1 if real else 0)


if __name__ == '__main__':
    main()
