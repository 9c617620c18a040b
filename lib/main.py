import json
import os
import re
import signal
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(1, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
import boot

VERIF = boot.VERIF


def spawn(task, tmp, idx, trace=False):
    out = os.path.join(tmp, 'res%d%s.json' % (idx, 't' if trace else ''))
    case_file = os.path.join(tmp, 'case%d.json' % idx)
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            import core
            sub, prop, tier, seed, shard, budget = task
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            os.chdir(tmp)
            res = core.run_sub(sub, prop, tier, seed, shard, budget, case_file if trace else None)
            with open(out + '.part', 'w') as f:
                json.dump(res, f)
            os.replace(out + '.part', out)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)
    return pid, out, case_file


def run_all(tasks, workers, tmp):
    """ Runs every task in a process of its own; returns the list of results. """
    results, running, queue = [], {}, list(enumerate(tasks))
    while queue or running:
        while queue and len(running) < workers:
            idx, task = queue.pop(0)
            pid, out, case_file = spawn(task, tmp, idx)
            running[pid] = (idx, task, out, case_file, False)
        pid, status = os.wait()
        if pid not in running:
            continue
        idx, task, out, case_file, traced = running.pop(pid)
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
            continue
        base = {'sub': task[0].name, 'shard': task[4], 'evaluations': 0, 'skipped_over_budget': 0, 'labels': {}, 'samples': [],
                'failure': None, 'harness_error': None, 'nontrivial': [], 'wall_s': 0}
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
            if not traced:  # same seed again, writing every case before it runs, to learn which one crashes the interpreter
                pid, out, case_file = spawn(task, tmp, idx, trace=True)
                running[pid] = (idx, task, out, case_file, True)
                continue
            with open(case_file) as f:
                case = json.load(f)
            base['failure'] = {'case': case, 'message': 'the interpreter died with signal %d' % sig, 'failing_executions': 1}
        else:
            base['harness_error'] = 'the process of the sub-check ended with status %d' % status
        results.append(base)
    return results


def load_known():
    """ {finding id: what fails} of the lines 'known: property=<id> <finding id>: <what fails>' ('fixed:' lines suppress nothing). """
    res = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) (\S+): (.*)', line)
            if m:
                res[m.group(1), m.group(2)] = m.group(3)
    return res


def main():
    t0 = time.monotonic()
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if sys.argv[1] == 'setup':
        boot.boot()
        import hypothesis
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    try:
        boot.boot()
    except boot.BuildError as e:
        print(e)
        return 2
    import core
    try:
        check = core.load_check(prop)
    except Exception as e:
        if not any(f.filename.startswith(core.REPO + '/') for f in traceback.extract_tb(e.__traceback__)):
            raise
        return import_failure(prop, seed, tier, e)

    budget = 150 if tier == 'quick' else 3000
    tasks = []
    for sub in check.subs.values():
        if only and sub.name not in only:
            continue
        sub.quick = max(1, int(sub.quick * scale))
        shards = max(sub.shards, 3) if tier == 'quick' else 8
        if tier != 'quick':
            sub.thorough = max(1, sub.thorough // 8)
        for shard in range(shards):
            tasks.append((sub, prop, tier, seed, shard, budget))

    with tempfile.TemporaryDirectory(prefix='verif_') as tmp:
        results = run_all(tasks, 8, tmp)

    status, violations = 0, 0
    errors = [r for r in results if r['harness_error']]
    for r in errors:
        print('HARNESS ERROR in {}: {}'.format(r['sub'], r['harness_error']))
        status = 2

    known_lines = []
    listed = load_known()
    for kid, func in check.known.items():
        if only:
            continue
        try:
            core.run_case(core.Sub(kid, None, lambda case, ctx: func(ctx), 1, 1, '', 1, 60), {})
        except core.Violation as e:
            if (prop, kid) in listed:
                line = 'KNOWN-FINDING: property={} {} ({})'.format(prop, kid, listed[prop, kid])
                known_lines.append(line)
                print(line)
            else:
                results.append({'sub': kid, 'shard': 0, 'failure': {'case': {}, 'message': str(e), 'failing_executions': 1},
                                'evaluations': 1, 'skipped_over_budget': 0, 'labels': {}, 'samples': [], 'nontrivial': [],
                                'harness_error': None, 'wall_s': 0})

    reported = set()
    for r in results:
        if r['failure'] is None:
            continue
        violations += 1
        if r['sub'] in reported:
            continue
        reported.add(r['sub'])
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        path = os.path.join(VERIF, 'replay', '{}-{}.json'.format(prop, r['sub']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'sub': r['sub'], 'case': r['failure']['case'], 'message': r['failure']['message'],
                       'seed': seed, 'tier': tier}, f, indent=1)
        print('VIOLATION property={} replay={}'.format(prop, path))
        print('  {}: {}'.format(r['sub'], core.short(r['failure']['message'], 1500)))
        print('  case: {}'.format(core.short(json.dumps(r['failure']['case']), 1500)))
        status = 1

    per_sub, samples, evaluations, distinct = {}, [], 0, 0
    for name in dict.fromkeys(r['sub'] for r in results):
        rs = [r for r in results if r['sub'] == name]
        labels = {}
        for r in rs:
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
        nontrivial = set(h for r in rs for h in r['nontrivial'])
        n = sum(r['evaluations'] for r in rs)
        per_sub[name] = {'evaluations': n, 'distinct_nontrivial': len(nontrivial), 'labels': dict(sorted(labels.items())),
                         'skipped_over_budget': sum(r['skipped_over_budget'] for r in rs),
                         'wall_s': round(sum(r['wall_s'] for r in rs), 2)}
        if name in check.subs and check.subs[name].rule:
            per_sub[name]['rule'] = check.subs[name].rule
        evaluations += n
        distinct += len(nontrivial)
        for r in rs[:1]:
            samples += ['{}: {}'.format(name, s) for s in r['samples'][:2]]

    evidence = {
        'property': prop, 'tier': 'quick' if tier == 'quick' else 'thorough', 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': evaluations, 'distinct_nontrivial': distinct, 'rule': check.rule, 'samples': samples,
                     'sub_checks': per_sub, 'known_findings': known_lines},
        'assumptions': check.assumptions, 'wall_s': round(time.monotonic() - t0, 2), 'violations': violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('{} {}: {} cases, {} distinct non-trivial, {} violations, {:.1f} s'.format(prop, tier, evaluations, distinct, violations, time.monotonic() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        print(json.dumps(per_sub, indent=1))
    return status


def import_failure(prop, seed, tier, e):
    """ The code under test cannot even be imported (as far as the check uses it). """
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    path = os.path.join(VERIF, 'replay', '{}-import.json'.format(prop))
    message = 'the code under test cannot be imported: {}: {}'.format(type(e).__name__, e)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'sub': 'import', 'case': {}, 'message': message, 'seed': seed, 'tier': tier}, f, indent=1)
    print('VIOLATION property={} replay={}'.format(prop, path))
    print('  ' + message)
    return 1


def replay(path):
    boot.boot()
    import core
    with open(path) as f:
        r = json.load(f)
    try:
        check = core.load_check(r['property'])
    except Exception as e:
        if not any(f.filename.startswith(core.REPO + '/') for f in traceback.extract_tb(e.__traceback__)):
            raise
        return import_failure(r['property'], r['seed'], r['tier'], e)
    if r['sub'] == 'import':
        print('the case passes')
        return 0
    sub = check.subs[r['sub']]
    try:
        core.run_case(sub, r['case'])
    except core.Violation as e:
        print('VIOLATION property={} replay={}'.format(r['property'], path))
        print('  ' + str(e))
        return 1
    print('the case passes')
    return 0


if __name__ == '__main__':
    sys.exit(main())
