"""
The exploration engine that is shared by all checks.

A check is a module `checks/<id>.py` that defines

    PROPERTY    the id of the property
    LEVEL_NOTE  what is decided
    VARIANT     the build variant it runs on ("plain" by default)
    jobs(tier)  a list of JSON-serialisable jobs; all of them together span the bounded space (simplest first)
    run(job, ctx)  explores one job exhaustively and reports to the context `ctx`

Jobs are distributed among worker processes. The death of a worker (a crash of the code under test) and a job that does
not terminate are re-run alone and count as violations if they happen again.
"""
import hashlib
import importlib
import json
import mmap
import os
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
CASE_SIZE = 1 << 16


class Skip(Exception):
    """ Thrown by a job if it has seen enough violations. """


class Context:
    """ Collects what a job has explored. """

    MAX_VIOLATIONS = 3

    def __init__(self, case_file=None):
        self.mm = None
        if case_file:
            with open(case_file, 'r+b') as f:
                self.mm = mmap.mmap(f.fileno(), CASE_SIZE)
        self.reset()

    def reset(self):
        self.states = 0
        self.transitions = 0
        self.outcomes = set()
        self.violations = []
        self.known = {}
        self.samples = []
        self.counters = {}
        self._case = None

    def case(self, case):
        """ Announces the case that is about to be executed, s.t. it is known if the process dies. """
        self._case = case
        if self.mm is not None:
            data = json.dumps(case, default=_default).encode()[:CASE_SIZE - 1]
            self.mm[:len(data) + 1] = data + b'\0'
        if len(self.samples) < 2:
            self.samples.append(json.dumps(case, default=_default))

    def state(self, n=1):
        self.states += n

    def step(self, n=1):
        self.transitions += n

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def outcome(self, value):
        """ Registers an observed outcome (only the number of distinct outcomes is reported). """
        if len(self.outcomes) < 20000:
            self.outcomes.add(hash_of(value))

    def violation(self, message, finding=None, case=None):
        """ `finding` is a signature that may be listed as a known finding. """
        if finding is not None and finding in KNOWN:
            self.known[finding] = self.known.get(finding, 0) + 1
            return
        self.violations.append({'message': str(message)[:4000], 'case': self._case if case is None else case,
                                'finding': finding})
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise Skip()

    def check(self, condition, message, finding=None):
        if not condition:
            self.violation(message() if callable(message) else message, finding)
        return bool(condition)

    def result(self):
        return {'states': self.states, 'transitions': self.transitions, 'outcomes': sorted(self.outcomes),
                'violations': self.violations, 'known': self.known, 'samples': self.samples,
                'counters': self.counters}


def _default(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return repr(o)


def hash_of(value):
    return hashlib.blake2b(repr(value).encode(), digest_size=6).hexdigest()


KNOWN = {}


def load_known(prop):
    KNOWN.clear()
    path = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for entry in json.load(f)['findings']:
                if entry['property'] == prop:
                    KNOWN[entry['signature']] = entry['what']


# ---------------------------------------------------------------------------------------------------------------------
# Worker
# ---------------------------------------------------------------------------------------------------------------------

def worker_main(prop, case_file):
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    import warnings
    warnings.simplefilter('ignore')
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)  # Whatever the code under test prints must not disturb the protocol
    load_known(prop)
    module = importlib.import_module(prop.lower())
    pkg = os.environ['VERIF_PKG']
    import mlrl.common
    if not os.path.abspath(mlrl.common.__file__).startswith(os.path.abspath(pkg)):
        raise RuntimeError('the wrong build has been imported: ' + mlrl.common.__file__)
    ctx = Context(case_file)
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        ctx.reset()
        result = {}
        try:
            module.run(job, ctx)
        except Skip:
            pass
        except Exception:  # pylint: disable=broad-except
            result['error'] = traceback.format_exc()
        result.update(ctx.result())
        result['case'] = ctx._case
        out.write(json.dumps(result, default=_default) + '\n')
        out.flush()


class Worker:

    def __init__(self, prop, env, scratch, index, python):
        self.case_file = os.path.join(scratch, f'case{index}')
        with open(self.case_file, 'wb') as f:
            f.truncate(CASE_SIZE)
        self.log = open(os.path.join(scratch, f'log{index}'), 'w+b')
        self.proc = subprocess.Popen([python, '-u', os.path.join(HERE, 'mc.py'), '--worker', prop, self.case_file],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env=env,
                                     cwd=scratch, start_new_session=True)
        self.buf = b''
        self.job = None
        self.started = time.time()
        self.ready = False

    def send(self, job):
        self.job = job
        self.started = time.time()
        with open(self.case_file, 'r+b') as f:
            f.write(b'\0')
        try:
            self.proc.stdin.write(json.dumps(job[1]).encode() + b'\n')
            self.proc.stdin.flush()
        except BrokenPipeError:
            pass

    def read(self):
        """ Returns complete lines, or None if the worker has died. """
        data = os.read(self.proc.stdout.fileno(), 1 << 16)
        if not data:
            return None
        self.buf += data
        *lines, self.buf = self.buf.split(b'\n')
        return lines

    def current_case(self):
        with open(self.case_file, 'rb') as f:
            data = f.read()
        data = data[:data.find(b'\0')]
        try:
            return json.loads(data) if data else None
        except ValueError:
            return data.decode(errors='replace')

    def tail(self):
        self.log.flush()
        with open(self.log.name, 'rb') as f:
            text = f.read().decode(errors='replace')
        for marker in ('ERROR: AddressSanitizer', 'runtime error:'):
            if marker in text:
                return text[text.find(marker):][:2500]
        return text[-2500:]

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        self.log.close()


def run_jobs(prop, env, jobs, python, num_workers, job_timeout, deadline=None, stop_after=6):
    """ Executes all jobs and returns the merged result. """
    import tempfile
    import shutil
    scratch = tempfile.mkdtemp(prefix='verif-mc-')
    merged = {'states': 0, 'transitions': 0, 'outcomes': set(), 'violations': [], 'known': {}, 'samples': [],
              'counters': {}, 'errors': [], 'jobs': 0, 'skipped': 0}
    todo = list(enumerate(jobs))[::-1]
    retry = []
    counter = 0
    workers = []
    suspects = []

    def start():
        nonlocal counter
        counter += 1
        w = Worker(prop, env, scratch, counter, python)
        workers.append(w)
        return w

    def merge(result, job):
        merged['jobs'] += 1
        for k in ('states', 'transitions'):
            merged[k] += result[k]
        merged['outcomes'].update(result['outcomes'])
        for k in ('known', 'counters'):
            for key, n in result[k].items():
                merged[k][key] = merged[k].get(key, 0) + n
        for v in result['violations']:
            v['job'] = job[1]
            merged['violations'].append(v)
        if len(merged['samples']) < 8:
            merged['samples'] += result['samples'][:2]
        if result.get('error'):
            # An exception that the library (or the harness) has thrown where none was expected
            merged['errors'].append({'message': result['error'], 'case': result.get('case'), 'job': job[1]})

    def event_loop(queue, limit, timeout, on_death):
        startup_failures = 0
        while queue or workers:
            if deadline and time.time() > deadline:
                merged['skipped'] += len(queue)
                queue.clear()
            if len(merged['violations']) + len(merged['errors']) >= stop_after:
                merged['skipped'] += len(queue)
                queue.clear()
            while queue and len(workers) < limit and len(workers) < len(queue) + sum(1 for w in workers if w.job):
                start()
            idle = [w for w in workers if w.ready and w.job is None]
            for w in idle:
                if queue:
                    w.send(queue.pop())
                else:
                    workers.remove(w)
                    w.proc.stdin.close()
                    w.kill()
            if not workers:
                continue
            ready, _, _ = select.select([w.proc.stdout for w in workers], [], [], 1)
            for w in list(workers):
                if w.proc.stdout in ready:
                    lines = w.read()
                    if lines is None:
                        workers.remove(w)
                        rc = w.proc.wait()
                        case, log = w.current_case(), w.tail()
                        w.kill()
                        if w.job is None:
                            startup_failures += 1
                            if startup_failures >= 3:
                                merged['errors'].append({'message': 'worker does not start: ' + log, 'case': None,
                                                         'job': None, 'fatal': True})
                                queue.clear()
                                for o in list(workers):
                                    workers.remove(o)
                                    o.kill()
                                return
                        else:
                            on_death(w.job, case, f'the process died with exit status {rc}', log)
                        continue
                    for line in lines:
                        if line == b'ready':
                            w.ready = True
                        else:
                            merge(json.loads(line), w.job)
                            w.job = None
                elif w.job is not None and time.time() - w.started > timeout:
                    case = w.current_case()
                    workers.remove(w)
                    w.kill()
                    on_death(w.job, case, f'no result within {timeout} s', '')

    try:
        event_loop(todo, num_workers, job_timeout, lambda job, case, why, log: suspects.append(job))
        if suspects and not merged['violations']:
            def confirmed(job, case, why, log):
                merged['violations'].append({'message': why + ('\n' + log if log else ''), 'case': case,
                                             'job': job[1], 'finding': None, 'crash': True})
            retry = suspects[:2]
            event_loop(retry, 1, min(job_timeout * 2, 300), confirmed)
            if not merged['violations']:
                # The crash did not happen again: the remaining jobs are run for completeness
                rest = suspects[2:]
                event_loop(rest, num_workers, job_timeout, confirmed)
            merged['counters']['workers_died'] = len(suspects)
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(scratch, ignore_errors=True)
    return merged


# ---------------------------------------------------------------------------------------------------------------------
# Orchestration
# ---------------------------------------------------------------------------------------------------------------------

def environment(variant, pkg, extra=None):
    env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'PYTHONPATH')}
    env.update({'PYTHONPATH': pkg, 'VERIF_PKG': pkg, 'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OMP_THREAD_LIMIT': '1', 'OMP_WAIT_POLICY': 'passive',
                'OPENBLAS_NUM_THREADS': '1', 'OPENBLAS_CORETYPE': 'Haswell', 'PYTHONDONTWRITEBYTECODE': '1',
                'MKL_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore'})
    if variant == 'asan':
        def lib(name):
            return subprocess.run(['g++', '-print-file-name=' + name], stdout=subprocess.PIPE, text=True,
                                  check=True).stdout.strip()
        env['LD_PRELOAD'] = lib('libasan.so') + ' ' + lib('libubsan.so') + ' ' + lib('libstdc++.so')
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:' \
                              'detect_odr_violation=0:handle_segv=1'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99'
    env.update(extra or {})
    return env


def main(argv):
    prop, tier = argv[0], (argv[1] if len(argv) > 1 and not argv[1].startswith('--') else
                           os.environ.get('VERIF_TIER', 'quick'))
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    t0 = time.time()
    import buildsys
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    module = importlib.import_module(prop.lower())
    variant = getattr(module, 'VARIANT', 'plain')
    try:
        pkg = buildsys.build(variant)[variant]
        extra = module.prepare(tier) if hasattr(module, 'prepare') else None
    except buildsys.BuildError as e:
        print(f'{prop}: the build failed\n{e}')
        return 2
    t_build = time.time() - t0
    load_known(prop)
    env = environment(variant, pkg, extra)
    env['VERIF_TIER'] = tier
    if replay:
        with open(replay, encoding='utf-8') as f:
            jobs = [json.load(f)['job']]
    else:
        jobs = module.jobs(tier)
        if only:
            jobs = [j for j in jobs if only in json.dumps(j)]
    limit = getattr(module, 'LIMIT', {}).get(tier)
    deadline = t0 + limit if limit else None
    m = run_jobs(prop, env, jobs, buildsys.PYTHON, getattr(module, 'WORKERS', 8),
                 getattr(module, 'JOB_TIMEOUT', 240 if tier == 'quick' else 3000), deadline)
    fatal = [e for e in m['errors'] if e.get('fatal')]
    violations = m['violations'] + [dict(e, finding=None) for e in m['errors'] if not e.get('fatal')]
    replay_dir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    for name in os.listdir(replay_dir):
        if name.startswith(prop + '-') and not (replay and os.path.basename(replay) == name):
            os.remove(os.path.join(replay_dir, name))
    lines = []
    for i, v in enumerate(violations[:5]):
        path = os.path.join(replay_dir, f'{prop}-{i}.json')
        if not replay:
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({'property': prop, 'job': v.get('job'), 'case': v.get('case'), 'message': v['message'],
                           'replay_cmd': f'python3 {VERIF}/checks/run.py {prop} {tier} --replay {path}'}, f, indent=1,
                          default=_default)
        lines.append(f'VIOLATION property={prop} replay={replay or path}')
        print(f'--- {prop}: {v["message"]}\n    case: {json.dumps(v.get("case"), default=_default)[:1500]}')
    for signature, n in sorted(m['known'].items()):
        print(f'KNOWN-FINDING: property={prop} {KNOWN[signature]} ({n} cases explored)')
    coverage = {
        'states': m['states'], 'transitions': m['transitions'],
        'traces_validated_against_impl': m['counters'].get('traces', m['transitions']),
        'samples': [json.loads(s) for s in m['samples'][:6]],
        'exhaustive': m['skipped'] == 0,
        'distinct_outcomes': len(m['outcomes']), 'jobs': m['jobs'], 'jobs_skipped': m['skipped'],
        'bounds': module.bounds(tier) if hasattr(module, 'bounds') else getattr(module, 'BOUNDS', ''),
        'counters': m['counters'], 'known_findings': m['known'],
    }
    evidence = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': coverage,
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
    }
    if not replay:
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w', encoding='utf-8') as f:
            json.dump(evidence, f, indent=1, default=_default)
    print(f'{prop} ({tier}): {m["jobs"]} jobs, {m["states"]} states, {m["transitions"]} transitions, '
          f'{len(m["outcomes"])} distinct outcomes, {m["skipped"]} jobs skipped, build {t_build:.1f} s, '
          f'total {time.time() - t0:.1f} s {m["counters"]}')
    if violations:
        for line in lines:
            print(line)
        return 1
    if fatal:
        print(fatal[0]['message'])
        # Code that cannot even be imported is broken, but no property has been decided
        return 2
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--worker':
        worker_main(sys.argv[2], sys.argv[3])
    else:
        sys.exit(main(sys.argv[1:]))
