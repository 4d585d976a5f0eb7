"""Runner shared by all checks: enumerates cases over worker processes, collects violations, writes evidence."""
import argparse
import base64
import collections
import faulthandler
import json
import logging
import mmap
import os
import pickle
import random
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
EVIDENCE = os.environ.get('MC_EVIDENCE') or os.path.join(VERIF, 'evidence')
MAX_VIOLATIONS_PER_WORKER = 40


class Hang(Exception):
    pass


class Violation(Exception):
    """Raised inside a case. 'sig' identifies what fails, 'detail' explains it."""

    def __init__(self, sig, detail=''):
        super().__init__(f'{sig}: {detail}')
        self.sig = sig
        self.detail = detail


class Ctx:
    """Handed to the worker function. Collects counts, samples and violations of this worker process."""

    def __init__(self, tier, scratch):
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.scratch = scratch
        self.counts = collections.Counter()
        self.violations = []
        self.samples = []
        self.distinct = set()
        self.case = None
        self.outPath = None

    def count(self, name, n=1):
        self.counts[name] += n

    def state(self, *key):
        """Registers a distinct model state / nontrivial case by hash."""
        self.distinct.add(hash(key))

    def sample(self, value, limit=3):
        if len(self.samples) < limit:
            self.samples.append(value)

    def violation(self, sig, detail=''):
        if len(self.violations) < MAX_VIOLATIONS_PER_WORKER:
            self.violations.append((sig, detail, self.case))
            if self.outPath:  # The process might die later
                with open(self.outPath, 'wb') as f:
                    pickle.dump(({}, self.violations, [], set()), f)

    def tmpdir(self):
        return tempfile.mkdtemp(dir=self.scratch)


def rmtree(path):
    assert path.startswith('/tmp/mcrun.') and len(path) > 12, path
    for root, dirs, _files in os.walk(path):
        for d in dirs:
            p = os.path.join(root, d)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o700)
                except OSError:
                    pass
    shutil.rmtree(path, ignore_errors=True)


def _alarm(signum, frame):
    raise Hang('case exceeded its time limit')


def run_case(ctx, worker, case, limit):
    ctx.case = case
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        worker(ctx, case)
    except Violation as v:
        ctx.violation(v.sig, v.detail)
    except Hang as e:
        ctx.violation('hang', str(e) + '\n' + traceback.format_exc(limit=-12))
    except (Exception, SystemExit) as e:  # an error the property does not allow
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if '/mc/' not in f.filename]
        where = f'{os.path.basename(inside[-1].filename)}:{inside[-1].name}' if inside else 'harness'
        ctx.violation(f'exception {type(e).__name__} in {where}', traceback.format_exc(limit=-20))
    finally:
        signal.alarm(0)


def _worker_main(index, shared, cases, worker, tier, scratch, limit, deadline, outPath, quiet):
    if quiet:
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        errFile = os.open(os.path.join(scratch, f'stderr-{index}'), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
        os.dup2(errFile, 2)
        faulthandler.enable(errFile)
    os.setsid()
    home = os.path.join(scratch, f'w{index}')
    os.makedirs(home, exist_ok=True)
    for name in ('HOME', 'TMPDIR', 'XDG_CACHE_HOME'):
        os.environ[name] = home
    tempfile.tempdir = None
    ctx = Ctx(tier, home)
    ctx.outPath = outPath
    jobs = (len(shared) - 8 - len(cases)) // 8
    while True:
        # shared layout: [next case (8 byte)] [current case of worker i + 1 (8 bytes each)] [1 for each case that was run]
        import fcntl
        with open(os.path.join(scratch, 'lock'), 'w') as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            n = struct.unpack_from('<q', shared, 0)[0]
            step = max(1, min(64, (len(cases) - n) // (8 * 16)))
            struct.pack_into('<q', shared, 0, n + step)
        if n >= len(cases) or time.time() > deadline:
            break
        for i in range(n, min(n + step, len(cases))):
            struct.pack_into('<q', shared, 8 + 8 * index, i + 1)
            run_case(ctx, worker, cases[i], limit)
            ctx.counts['cases'] += 1
            shared[8 + 8 * jobs + i] = 1
            if time.time() > deadline:
                break
        struct.pack_into('<q', shared, 8 + 8 * index, 0)
    with open(outPath, 'wb') as f:
        pickle.dump((dict(ctx.counts), ctx.violations, ctx.samples, ctx.distinct), f)
    os._exit(0)


def dies(worker, case, tier, scratch, limit):
    pid = os.fork()
    if pid == 0:
        try:
            cases = [case]
            shared = mmap.mmap(-1, 17)
            struct.pack_into('<q', shared, 0, 0)
            _worker_main(0, shared, cases, worker, tier, scratch, limit, time.time() + 1e9, os.path.join(scratch, 'out-retry'), True)
        except BaseException:
            traceback.print_exc()
        os._exit(99)
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    return status != 0


class Result:
    def __init__(self):
        self.counts = collections.Counter()
        self.violations = []
        self.samples = []
        self.distinct = set()


def explore(cases, worker, *, tier, seed, scratch, limit=60, jobs=8, deadline=None, result=None, quiet=True):
    """Runs worker(ctx, case) for every case. Cases must be a list of picklable values."""
    result = result or Result()
    cases = list(cases)
    random.Random(seed).shuffle(cases)
    jobs = max(1, min(jobs, len(cases)))
    shared = mmap.mmap(-1, 8 + 8 * jobs + len(cases))
    struct.pack_into('<q', shared, 0, 0)
    deadline = deadline or (time.time() + 1e9)
    pids = {}
    outs = []

    def start(index, generation):
        outPath = os.path.join(scratch, f'out-{index}-{generation}')
        outs.append(outPath)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                _worker_main(index, shared, cases, worker, tier, scratch, limit, deadline, outPath, quiet)
            except BaseException:
                traceback.print_exc()
            os._exit(99)
        pids[pid] = (index, generation)

    for i in range(jobs):
        start(i, 0)
    dead = 0
    deaths = []
    while pids:
        pid, status = os.wait()
        if pid not in pids:
            continue
        index, generation = pids.pop(pid)
        try:  # leftovers of this worker (it is the leader of its own session)
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        if status != 0:
            current = struct.unpack_from('<q', shared, 8 + 8 * index)[0]
            err = ''
            try:
                with open(os.path.join(scratch, f'stderr-{index}'), errors='replace') as f:
                    err = f.read()[-3000:]
            except OSError:
                pass
            if current > 0:
                deaths.append((f'process died (status {status})', err, cases[current - 1]))
                shared[8 + 8 * jobs + current - 1] = 1
            else:
                raise RuntimeError(f'worker failed outside a case: {status} {err}')
            struct.pack_into('<q', shared, 8 + 8 * index, 0)
            dead += 1
            if dead < 20:
                start(index, generation + 1)
    counted = 0
    for out in outs:
        if os.path.exists(out):
            with open(out, 'rb') as f:
                counts, violations, samples, distinct = pickle.load(f)
            os.unlink(out)
            result.counts.update(counts)
            counted += counts.get('cases', 0)
            result.violations += violations
            result.samples += samples[:1]
            result.distinct |= distinct
    ran = shared[8 + 8 * jobs:]
    result.counts['cases'] += sum(ran) - counted
    missing = [case for case, done in zip(cases, ran) if not done] if deaths and len(deaths) < 20 else []
    if missing and time.time() < deadline:
        explore(missing, worker, tier=tier, seed=seed, scratch=scratch, limit=limit, jobs=jobs, deadline=deadline, result=result, quiet=quiet)
        result.counts['total_cases'] -= len(missing)
    # A process may also die because of what an earlier case did to it, which is only reported when it happens often.
    again = [death for death in deaths if any(dies(worker, death[2], tier, scratch, limit) for _ in range(3))]
    result.violations += again or (deaths if len(deaths) > 3 else [])
    result.counts['deaths that did not happen again'] += len(deaths) - len(again)
    result.counts['total_cases'] += len(cases)
    return result


def memoize_package_metadata():
    """ratarmount scans all installed packages for their versions on each index creation. Remember the file lists."""
    import importlib.metadata as metadata
    original = metadata.PathDistribution.files
    cache = {}

    def files(self):
        key = str(self._path)
        if key not in cache:
            cache[key] = original.fget(self)
        return cache[key]

    metadata.PathDistribution.files = property(files)


def load_known(pid):
    known = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    entry = json.loads(line)
                    if entry['property'] == pid and 'sig' in entry:
                        known.append(entry)
    return known


def encode_case(case):
    return base64.b64encode(pickle.dumps(case)).decode()


def main(pid, loader):
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--replay')
    parser.add_argument('--jobs', type=int, default=8)
    parser.add_argument('--limit-cases', type=int, default=0, help='debugging only')
    parser.add_argument('--verbose', action='store_true')
    args = parser.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    start = time.time()

    scratch = tempfile.mkdtemp(prefix='mcrun.', dir='/tmp')
    home = os.path.join(scratch, 'home')
    os.mkdir(home)
    for name in ('HOME', 'TMPDIR', 'XDG_CACHE_HOME'):
        os.environ[name] = home
    os.environ.pop('RATARMOUNT_INDEX_TMPDIR', None)
    os.environ['TZ'] = 'UTC'
    os.umask(0o022)
    tempfile.tempdir = None
    if not args.verbose:
        logging.disable(logging.CRITICAL)
    memoize_package_metadata()
    mainPid = os.getpid()
    code = 2
    try:
        code = _main(pid, loader, args, seed, tier, start, scratch)
    except Exception:
        if os.getpid() == mainPid:
            traceback.print_exc()
            code = 2
    finally:
        if os.getpid() == mainPid:
            rmtree(scratch)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def _main(pid, loader, args, seed, tier, start, scratch):
    replayDir = os.path.join(EVIDENCE, 'replay')
    os.makedirs(replayDir, exist_ok=True)
    result = Result()
    try:
        module = loader()
    except Exception as e:
        # The tree under test cannot even be imported (e.g., a raising module): that breaks every property.
        result.violations.append((f'import failed: {type(e).__name__}', traceback.format_exc(), None))
        module = None

    if args.replay:
        with open(args.replay) as f:
            record = json.load(f)
        case = pickle.loads(base64.b64decode(record['case']))
        ctx = Ctx(tier, os.path.join(scratch, 'home'))
        stage = record.get('stage', 0)
        worker = list(module.stages(tier))[stage][1]
        print('case:', case)
        run_case(ctx, worker, case, 600)
        for sig, detail, _ in ctx.violations:
            print('REPLAYED', sig)
            print(detail)
        print('violations:', len(ctx.violations))
        return 1 if ctx.violations else 0

    exhaustive = True
    stageSummary = []
    if module is not None:
        # A module defines stages(tier) -> [(cases, worker, options)]
        budget = (700 if tier == 'quick' else 6 * 3600)
        for n, (cases, worker, options) in enumerate(module.stages(tier)):
            cases = list(cases)
            if args.limit_cases:
                cases = cases[: args.limit_cases]
            before = len(result.violations)
            t = time.time()
            done = result.counts['cases']
            explore(cases, worker, tier=tier, seed=seed + n, scratch=scratch, jobs=args.jobs,
                    deadline=start + budget, result=result, quiet=not args.verbose, **options)
            result.violations[before:] = [v + (n,) for v in result.violations[before:]]
            stageSummary.append({'worker': worker.__name__, 'cases': len(cases), 'run': result.counts['cases'] - done,
                                 'wall_s': round(time.time() - t, 1)})
        exhaustive = result.counts['cases'] >= result.counts['total_cases'] and not args.limit_cases

    known = load_known(pid)
    knownHit = {}
    fresh = {}
    for v in result.violations:
        sig, detail, case = v[:3]
        stage = v[3] if len(v) > 3 else 0
        entry = next((k for k in known if k['sig'] == sig), None)
        if entry is not None:
            knownHit[sig] = entry
        elif sig not in fresh or len(repr(case)) < len(repr(fresh[sig][1])):
            fresh[sig] = (detail, case, stage)

    for entry in knownHit.values():
        print(f"KNOWN-FINDING: property={pid} {entry['what']}")
    for i, (sig, (detail, case, stage)) in enumerate(sorted(fresh.items(), key=lambda x: len(repr(x[1][1])))):
        if i >= 12:
            print(f'... and {len(fresh) - i} more distinct violations')
            break
        path = os.path.join(replayDir, f'{pid}-{i}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'sig': sig, 'detail': detail, 'case_repr': repr(case), 'stage': stage,
                       'case': encode_case(case)}, f, indent=1)
        print(f'VIOLATION property={pid} replay={path}')
        print(f'  what: {sig}')
        print('  ' + str(detail)[-1500:].replace('\n', '\n  '))
        print(f'  case: {repr(case)[:600]}')

    level = getattr(module, 'LEVEL', 'exploration')
    c = result.counts
    samples = [s for s in result.samples][:5] or ['(none)']
    coverage = {'samples': samples, 'exhaustive': bool(exhaustive), 'cases': c['cases'], 'stages': stageSummary}
    if level == 'model_checking':
        coverage.update(states=len(result.distinct) or c['states'], transitions=c['transitions'],
                        traces_validated_against_impl=c['traces'] or c['cases'])
    else:
        coverage.update(evaluations=c['evaluations'] or c['cases'], distinct_nontrivial=len(result.distinct),
                        rule=getattr(module, 'RULE', ''))
    for k, v in sorted(c.items()):
        coverage.setdefault('n_' + k, v)
    evidence = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
                'assumptions': getattr(module, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - start, 2),
                'violations': len(fresh)}
    with open(os.path.join(EVIDENCE, f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
    print(f"{pid} {tier}: cases={c['cases']}/{c['total_cases']} distinct={len(result.distinct)} "
          f"transitions={c['transitions']} evaluations={c['evaluations']} exhaustive={exhaustive} "
          f"violations={len(fresh)} known={len(knownHit)} wall={time.time() - start:.1f}s")
    return 1 if fresh else 0
