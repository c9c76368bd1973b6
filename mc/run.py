"""Run one check: build from /repo's working tree, explore, confirm by replay, write the evidence.

  python3 mc/run.py ID             the registered check
  python3 mc/run.py ID --replay F  run the one case that the file F names"""

import array
import concurrent.futures
import importlib.util
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import checks  # noqa: E402

VERIF = build.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def known_findings(pid):
    """Lines `known: property=ID key=KEY | what fails' of KNOWN_FINDINGS"""
    out = []
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS')) as f:
            for line in f:
                if line.startswith(f'known: property={pid} key='):
                    key, what = line[len(f'known: property={pid} key='):].rstrip('\n').split(' | ', 1)
                    out.append((key, what))
    except OSError:
        pass
    return out


class Outcome:
    def __init__(self, kind, key='', message='', report=None):
        self.kind, self.key, self.message, self.report = kind, key, message, report or {}


def run_once(check, exe, work, shard, shards, only=None, limit=None):
    """kind: ok, violation, timeout"""
    tag = f'{shard}' if only is None else f'replay{shard}'
    out = os.path.join(work, f'out{tag}.json')
    current = os.path.join(work, f'current{tag}')
    if check.get('unprivileged'):
        # somewhere that an unprivileged user can get to
        scratch = tempfile.mkdtemp(prefix='verif-')
        os.chown(scratch, 65534, 65534)
    else:
        scratch = tempfile.mkdtemp(prefix='s', dir=work)
    for p in (out,):
        if os.path.exists(p):
            os.unlink(p)
    cmd = [exe, '--tier', TIER, '--seed', str(SEED), '--out', out, '--current', current, '--scratch', scratch,
           '--shard', f'{shard}/{shards}']
    if only is not None:
        cmd += ['--only', only]
    for k, w in known_findings(check['id']):
        cmd += ['--known', f'{k}\t{w}']
    env = {
        'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': '/root', 'LC_ALL': 'C',
        'TZ': 'UTC', 'LIBDCP_RESOURCES': '/repo',
        'ASAN_OPTIONS': 'detect_leaks=0:malloc_context_size=2:quarantine_size_mb=64:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0',
        'UBSAN_OPTIONS': 'exitcode=98:print_stacktrace=1',
        'TSAN_OPTIONS': 'exitcode=97:halt_on_error=1:report_bugs=1',
    }
    env.update(check.get('env', {}))
    log = os.path.join(work, f'log{tag}')

    def current_key():
        try:
            with open(current, 'rb') as f:
                return f.read().split(b'\0')[0].decode('latin1')
        except OSError:
            return ''

    case_limit = check.get('case_limit', 60) * (1 if only is None else 3)
    start = last_change = time.time()
    last_key = None
    hung = False
    with open(log, 'w') as f:
        proc = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=scratch,
                                start_new_session=True)
        while True:
            try:
                r = proc.wait(timeout=1)
                break
            except subprocess.TimeoutExpired:
                now = time.time()
                k = current_key()
                if k != last_key:
                    last_key, last_change = k, now
                hung = bool(k) and now - last_change > case_limit
                if hung or (limit and now - start > limit):
                    r = None
                    break
        # whatever happened, nothing that it started is left behind
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        proc.wait()
    shutil.rmtree(scratch, ignore_errors=True)
    key = current_key()
    report = {}
    try:
        with open(out) as f:
            report = json.load(f)
        for n in ('states', 'outcomes'):
            if os.path.exists(out + '.' + n):
                a = array.array('Q')
                with open(out + '.' + n, 'rb') as f:
                    a.frombytes(f.read())
                report['set_' + n] = a
                os.unlink(out + '.' + n)
    except (OSError, ValueError):
        pass
    with open(log, errors='replace') as f:
        tail = f.read()[-12000:]
    if r is None:
        return Outcome('timeout', key, f'did not finish (in {case_limit} s)' if hung else 'ran out of time', report)
    if r == 0 and report:
        return Outcome('ok', report=report)
    if 'violation' in report:
        v = report['violation']
        return Outcome('violation', v['key'].encode('latin1', 'replace').decode('latin1'), v['message'], report)
    if r == 77:
        # the harness could not set up its own environment
        raise RuntimeError('harness error:\n' + tail)
    for marker in ('ERROR: AddressSanitizer', 'runtime error:', 'WARNING: ThreadSanitizer', 'terminate called'):
        if marker in tail:
            tail = tail[tail.rfind('\n', 0, tail.index(marker)) + 1:]
            break
    tail = '\n'.join(line[:300] for line in tail.splitlines()[:14])
    return Outcome('violation', key, f'the code under test crashed (status {r}):\n{tail}', report)


def explore(check, exe, work):
    shards = check.get('shards', 1)
    limit = check.get('limit', {}).get(TIER, 560 if TIER == 'quick' else 3 * 3600)
    with concurrent.futures.ThreadPoolExecutor(min(shards, os.cpu_count() or 4)) as pool:
        results = list(pool.map(lambda i: run_once(check, exe, work, i, shards, limit=limit), range(shards)))
    return results


def replay_file(check, key, message):
    d = os.path.join(VERIF, 'out', check['id'])
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'replay.json')
    with open(path, 'w') as f:
        json.dump({'property': check['id'], 'key': key, 'tier': TIER, 'seed': SEED, 'message': message,
                   'run': f'python3 mc/run.py {check["id"]} --replay {path}'}, f, indent=1)
    return path


def merge(check, parts, wall, violations):
    total = {}
    for n in ('states', 'transitions', 'traces', 'evaluations', 'outcomes'):
        total[n] = sum(p.get(n, 0) for p in parts)
    for n in ('states', 'outcomes'):
        sets = [p.get('set_' + n) for p in parts]
        # a harness may add states of its own to those in the set
        if all(x is not None for x in sets):
            total[n] += len(set().union(*sets)) - sum(len(x) for x in sets)
    samples, extra = [], {}
    for p in parts:
        samples += p.get('samples', [])
        for k, v in p.get('extra', {}).items():
            extra[k] = extra.get(k, 0) + v
    level = check['level']
    coverage = {'samples': samples[:20]}
    if level == 'model_checking':
        coverage.update(states=total['states'], transitions=total['transitions'],
                        traces_validated_against_impl=total['traces'] or total['evaluations'])  # every execution is of the real code
        coverage['executions'] = total['evaluations']
        coverage['distinct_outcomes'] = total['outcomes']
    else:
        coverage.update(evaluations=total['evaluations'], distinct_nontrivial=total['outcomes'], rule=check['rule'])
    coverage.update(extra)
    coverage['exhaustive'] = True
    coverage['bounds'] = next((p['bounds'] for p in parts if p.get('bounds')), '') or check['bounds']
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', check['id'] + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump({'property': check['id'], 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': coverage,
                   'assumptions': check.get('assumptions', []), 'wall_s': round(wall, 3), 'violations': violations}, f, indent=1)
    os.rename(path + '.tmp', path)


def main():
    pid = sys.argv[1]
    check = dict(checks.CHECKS[pid], id=pid)
    start = time.time()
    exe = checks.build(check)
    os.makedirs(os.path.join(build.BUILD, 'work'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '-', dir=os.path.join(build.BUILD, 'work'))
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            with open(sys.argv[3]) as f:
                key = json.load(f)['key']
            o = run_once(check, exe, work, 0, 1, only=key, limit=600)
            print(o.kind, o.key, o.message)
            return 0 if o.kind == 'ok' else 1
        results = explore(check, exe, work)
        bad = [r for r in results if r.kind != 'ok']
        if not bad:
            merge(check, [r.report for r in results], time.time() - start, 0)
            seen = set()
            for r in results:
                for k in r.report.get('known', []):
                    if k not in seen:
                        seen.add(k)
                        print(f'KNOWN-FINDING: property={pid} {k}')
            c = {k: sum(r.report[k] for r in results) for k in ('states', 'transitions', 'traces', 'evaluations', 'outcomes')}
            print(f'{pid}: held; {c} in {time.time() - start:.1f} s')
            return 0
        # violations first: a timeout may only be slowness
        bad.sort(key=lambda r: r.kind == 'timeout')
        b = bad[0]
        again = [run_once(check, exe, work, 0, 1, only=b.key, limit=check.get('replay_limit', 200)) for _ in range(2)] if b.key else []
        if again and all(a.kind == 'violation' or (b.kind == 'timeout' and a.message.startswith('did not finish')) for a in again):
            note = ''
        elif b.kind == 'timeout':
            print(f'{pid}: ran out of time at case {b.key!r}, which finishes when run alone', file=sys.stderr)
            return 2
        else:
            # it may need the cases that came before it: the whole exploration is the replay
            second = explore(check, exe, work)
            if not any(r.kind == 'violation' and r.key == b.key for r in second):
                print(f'{pid}: case {b.key!r} failed once ({b.message}) but not again', file=sys.stderr)
                return 2
            note = ' (needs the cases before it: replay with the whole check)'
        merge(check, [r.report for r in results if r.report], time.time() - start, len(bad))
        path = replay_file(check, b.key, b.message)
        print(f'case {b.key}: {b.message}{note}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        code = main()
    except build.BuildError as e:
        print(e, file=sys.stderr)
        code = 3
    sys.exit(code)
