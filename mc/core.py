"""Core of the explicit-state / stateless model checker used by every check.

A check module (mc/checks/<id>.py) provides
    LEVEL                'model_checking' or 'fault_enumeration'
    BOUNDS(tier)         dict describing the explored space (goes to the evidence file)
    cases(tier)          generator of JSON-able cases, in a fixed order, smallest first
    check(case, rec)     runs ONE case against the code in /repo and compares it with the model;
                         calls rec.fail(msg) (which raises) on a violation
    optional: setup(tier) / teardown(), PROCS, CASE_TIMEOUT, summary(rec)

The runner shards the cases over worker processes (case index modulo number of workers), merges the
counters, writes evidence/<ID>.json and the replay files, and prints the verdict.
"""
import hashlib
import importlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
REPLAYS = os.path.join(VERIF, 'replays')


class Violation(Exception):
    """The code under test broke the property."""


HANG = 'did not finish within'
GRACE = 15  # seconds


class Hang(BaseException):
    """A case did not finish in its time limit."""


def h64(obj) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf8', 'surrogatepass'),
                                          digest_size=8).digest(), 'big')


class Rec:
    """Measured coverage of one worker (merged at the end)."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.nontrivial = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.truncated = False
        self.case = None
        self.scratch = None
        self.plain_dirs = False
        self.tmp_of = None
        self.slow = []
        self.replaying = False

    # --- measured coverage
    def state(self, obj):
        self.states.add(h64(obj))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def distinct(self, obj):
        self.nontrivial.add(h64(obj))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # --- verdicts
    def fail(self, msg):
        raise Violation(msg)

    def eq(self, got, want, what):
        if not (type(got) == type(want) or isinstance(got, type(want))) or got != want:
            if got != want:
                raise Violation(f'{what}: got {short(got)}, expected {short(want)}')
        return got

    def true(self, cond, what):
        if not cond:
            raise Violation(what)

    def tmp(self):
        """an empty scratch directory, removed with the worker's scratch root.  The first one of a case has the
        place of the one of the case before, with other files of the same names: what the code remembers of a path
        may make no difference.  In half of the cases its name is an odd one, which may make no difference either"""
        if self.tmp_of is not self.case:
            self.tmp_of = self.case
            d = os.path.join(self.scratch, 'here')
            shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(d):
                d = tempfile.mkdtemp(dir=self.scratch)
            else:
                os.mkdir(d)
        else:
            d = tempfile.mkdtemp(dir=self.scratch)
        if self.plain_dirs:     # Spark reads some characters as patterns
            return d
        key = zlib.crc32(json.dumps(self.case, sort_keys=True, default=repr).encode()) % (2 * len(ODD_DIRS))
        if key < len(ODD_DIRS):
            d = os.path.join(d, ODD_DIRS[key])
            os.mkdir(d)
            self.count('odd_dirs')
        return d


ODD_DIRS = ['a b [x]*?', 'é中~{0}%s$HOME', '.d.gz', 'part-0.tmp-x', "it's,\\#"]


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + f'... ({len(s)} chars)'


# ------------------------------------------------------------------ choice exploration
class Chooser:
    """Replays a prefix of choices, then takes choice 0; records the arity of every choice."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.arity = []

    def choose(self, n, label=None):
        assert n >= 1
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError(f'replay diverged: choice {i} has {n} options, prefix wants {c}')
        self.taken.append(c)
        self.arity.append(n)
        return c


def explore(run, limit=None, rec=None, deviations=None):
    """Depth-first enumeration of all choice sequences of `run(chooser)`.

    yields (choices, result).  `limit` bounds the number of executions (the enumeration is then
    reported as truncated); `deviations` bounds how many choices differ from the default 0.
    """
    prefix, n = [], 0
    while True:
        ch = Chooser(prefix)
        res = run(ch)
        n += 1
        if rec is not None:
            rec.step(len(ch.taken) + 1)
        yield list(ch.taken), res
        if limit is not None and n >= limit:
            if rec is not None:
                rec.truncated = True
                rec.count('exploration_limits_hit')
            return
        # next prefix in depth-first order
        taken, arity = ch.taken, ch.arity
        i = len(taken) - 1
        while i >= 0:
            if taken[i] + 1 < arity[i]:
                if deviations is None:
                    break
                dev = sum(1 for c in taken[:i] if c) + 1
                if dev <= deviations:
                    break
            i -= 1
        if i < 0:
            return
        prefix = taken[:i] + [taken[i] + 1]


# ------------------------------------------------------------------ worker
def _alarm(_sig, _frm):
    raise Hang()


def run_one(mod, case, rec, timeout):
    """returns None or a violation message"""
    rec.case = case
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    cwd = os.getcwd()
    try:
        if hasattr(mod, 'before'):
            mod.before(case, rec)
        mod.check(case, rec)
        return None
    except Violation as e:
        return str(e)
    except Hang:
        return f'{HANG} {timeout} s'
    except Exception as e:    # the code under test raised where the property allows no error
        tb = traceback.format_exc(limit=-6)
        return f'unexpected {type(e).__name__}: {short(str(e), 300)}\n{tb}'
    except SystemExit as e:
        return f'unexpected exit of the process: {e}\n{traceback.format_exc(limit=-6)}'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)


def worker(mod, prop, tier, seed, wid, nworkers, deadline, out_path, scratch, stop_path):
    rec = Rec(prop, tier, seed)
    rec.scratch = os.path.join(scratch, f'w{wid}')
    rec.plain_dirs = getattr(mod, 'PLAIN_DIRS', False)
    os.makedirs(rec.scratch, exist_ok=True)
    devnull = os.open(os.devnull, os.O_WRONLY)
    keep_err = os.dup(2)
    if not os.environ.get('MC_VERBOSE'):
        os.dup2(devnull, 2)
        os.dup2(devnull, 1)
    sys.stdout = open(1, 'w', encoding='utf8', errors='replace', closefd=False)
    try:
        known_cases = [k.get('case') for k in load_known()['findings']
                       if k.get('property') == prop and k.get('status') == 'known']
        try:
            timeout = getattr(mod, 'CASE_TIMEOUT', 120)
            if hasattr(mod, 'worker_setup'):
                signal.signal(signal.SIGALRM, _alarm)
                signal.setitimer(signal.ITIMER_REAL, timeout)
                mod.worker_setup(rec)
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
            for i, case in enumerate(mod.cases(tier)):
                if i % nworkers != wid:
                    continue
                if time.time() > deadline:
                    rec.truncated = True
                    rec.count('stopped_at_deadline')
                    break
                if os.path.exists(stop_path):
                    break
                rec.cases += 1
                tc = time.time()
                msg = run_one(mod, case, rec, timeout)
                if msg and msg.startswith(HANG) and time.time() - tc < timeout - 1:
                    break       # ended by main, after the violation of another worker
                rec.slow = sorted(rec.slow + [(round(time.time() - tc, 2), short(case, 120))],
                                  reverse=True)[:4]
                if msg and case in known_cases:
                    rec.count('known_findings_seen')
                    continue
                if msg:
                    rec.violations.append((i, case, msg))
                    open(stop_path, 'w').close()
                    break
        except (Exception, Hang):
            rec.violations.append((-1, {'setup': True}, 'the check could not run the code: '
                                   + traceback.format_exc(limit=-8)))
            open(stop_path, 'w').close()
        finally:
            if hasattr(mod, 'worker_teardown'):
                try:
                    mod.worker_teardown(rec)
                except Exception:
                    pass
        with open(out_path + '.part', 'wb') as f:
            pickle.dump(rec, f)
        os.rename(out_path + '.part', out_path)
    except BaseException:
        os.write(keep_err, traceback.format_exc().encode())
        os._exit(3)
    sys.stdout.flush()
    os._exit(0)


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        return json.load(open(path, encoding='utf8'))
    except FileNotFoundError:
        return {'findings': []}


def write_replay(prop, case, msg):
    os.makedirs(REPLAYS, exist_ok=True)
    body = json.dumps({'property': prop, 'case': case, 'message': msg}, indent=1,
                      ensure_ascii=True, default=str)
    path = os.path.join(REPLAYS, f'{prop}-{hashlib.sha1(body.encode()).hexdigest()[:12]}.json')
    with open(path, 'w') as f:
        f.write(body)
    return path


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    prop = argv.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    while argv:
        a = argv.pop(0)
        if a == '--replay':
            replay = argv.pop(0)
        elif a == '--tier':
            tier = argv.pop(0)
        else:
            raise SystemExit(f'unknown argument {a}')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    try:
        mod = importlib.import_module(f'mc.checks.{prop.lower()}')
    except Exception:
        if not os.path.exists(os.path.join(VERIF, 'mc', 'checks', f'{prop.lower()}.py')):
            raise
        msg = 'the code can not be imported: ' + traceback.format_exc(limit=-8)
        print(msg)
        print(f'VIOLATION property={prop} replay={write_replay(prop, {"import": True}, msg)}')
        return 1
    if hasattr(mod, 'preload') and not os.environ.get('MC_PRELOADED'):
        # the check wants a library under its Python process: build it and start over with it
        scratch = tempfile.mkdtemp(prefix=f'mc-{prop}-', dir=os.environ.get('MC_TMP', '/tmp'))
        lib = mod.preload(scratch)
        if lib:
            sys.stdout.flush()
            os.environ.update(MC_PRELOADED=scratch, LD_PRELOAD=lib, VERIF_TIER=tier)
            os.execv(sys.executable, [sys.executable, '-B', '-m', 'mc.run', prop, '--tier', tier]
                     + (['--replay', replay] if replay else []))
    scratch = os.environ.get('MC_PRELOADED') \
        or tempfile.mkdtemp(prefix=f'mc-{prop}-', dir=os.environ.get('MC_TMP', '/tmp'))
    os.environ.pop('LD_PRELOAD', None)
    owner = os.getpid()
    try:
        return _main(mod, prop, tier, seed, replay, t0, scratch)
    finally:
        if os.getpid() == owner:
            shutil.rmtree(scratch, ignore_errors=True)


def _main(mod, prop, tier, seed, replay, t0, scratch):
    if replay:
        data = json.load(open(replay, encoding='utf8'))
        rec = Rec(prop, tier, seed)
        rec.scratch, rec.replaying = scratch, True
        rec.plain_dirs = getattr(mod, 'PLAIN_DIRS', False)
        if hasattr(mod, 'setup'):
            mod.setup(tier, scratch)
        if hasattr(mod, 'worker_setup'):
            mod.worker_setup(rec)
        msg = run_one(mod, data['case'], rec, getattr(mod, 'CASE_TIMEOUT', 120))
        if hasattr(mod, 'worker_teardown'):
            mod.worker_teardown(rec)
        if msg:
            print(msg)
            print(f'VIOLATION property={prop} replay={replay}')
            return 1
        print(f'replayed {replay}: the property holds')
        return 0

    budget = float(os.environ.get('MC_BUDGET', '0') or 0) or (600 if tier == 'quick' else 3600 * 3)
    nproc = getattr(mod, 'PROCS', None) or int(os.environ.get('MC_PROCS', '0') or 0) \
        or os.cpu_count() or 4
    if callable(nproc):
        nproc = nproc(tier)
    deadline = t0 + budget
    if hasattr(mod, 'setup'):
        mod.setup(tier, scratch)
    pids, outs = {}, []
    stop = os.path.join(scratch, 'stop')
    sys.stdout.flush()
    for w in range(nproc):
        out = os.path.join(scratch, f'out{w}')
        outs.append(out)
        pid = os.fork()
        if pid == 0:
            try:
                worker(mod, prop, tier, seed, w, nproc, deadline, out, scratch, stop)
            finally:
                os._exit(4)
        pids[pid] = w
    status, stopped = {}, None
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid in pids:
            status[pids.pop(pid)] = st
            continue
        now = time.time()
        if stopped is None and os.path.exists(stop):
            stopped = now
        if stopped and now > stopped + GRACE:    # a violation is known: the others end their case early
            for p in pids:
                os.kill(p, signal.SIGALRM)
            stopped = now + 1e9
            deadline = min(deadline, now - 240 + GRACE)
        if now > deadline + 240:
            for p in pids:
                os.kill(p, signal.SIGKILL)
            deadline = now + 1e9
        time.sleep(.02)
    recs, broken = [], []
    for w, out in enumerate(outs):
        if os.path.exists(out):
            recs.append(pickle.load(open(out, 'rb')))
        else:
            broken.append((w, status.get(w)))
    total = Rec(prop, tier, seed)
    for r in recs:
        total.states |= r.states
        total.nontrivial |= r.nontrivial
        total.transitions += r.transitions
        total.traces += r.traces
        total.cases += r.cases
        total.truncated |= r.truncated
        for k, v in r.counters.items():
            total.counters[k] = total.counters.get(k, 0) + v
        total.samples += r.samples
        total.slow += r.slow
        total.violations += r.violations
    if broken and not total.violations:
        # the code under test killed a worker (or its memory ran out): no result for its cases
        total.violations.append((-1, {'worker_died': broken},
                                 f'{len(broken)} exploring process(es) died: {broken}'))
    total.violations.sort(key=lambda v: (v[0] if v[0] >= 0 else 1 << 60))
    level = mod.LEVEL
    cov = {}
    if level == 'model_checking':
        cov.update(states=len(total.states), transitions=total.transitions,
                   traces_validated_against_impl=total.traces)
    else:
        cov.update(evaluations=total.traces, distinct_nontrivial=len(total.nontrivial),
                   rule=mod.RULE)
        if total.states:
            cov['states'] = len(total.states)
        if total.transitions:
            cov['transitions'] = total.transitions
    cov['cases'] = total.cases
    cov['exhaustive'] = not total.truncated and not total.violations
    cov['bounds'] = mod.BOUNDS(tier)
    cov['samples'] = total.samples[:6]
    cov.update({f'n_{k}': v for k, v in sorted(total.counters.items())})
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(total.violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    known = [k for k in load_known()['findings']
             if k.get('property') == prop and k.get('status') == 'known']
    rc = 0
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for i, case, msg in total.violations[:3]:
        if any(k.get('case') == case for k in known):
            continue
        path = write_replay(prop, case, msg)
        print(f'case #{i}: {short(case, 1500)}')
        print(msg)
        print(f'VIOLATION property={prop} replay={path}')
        rc = 1
    brief = {k: v for k, v in cov.items() if k not in ('samples', 'bounds', 'rule')}
    print(f'{prop} {tier}: {json.dumps(brief)} in {ev["wall_s"]} s')
    if os.environ.get('MC_TIMES'):
        for t, c in sorted(total.slow, reverse=True)[:12]:
            print(f'   {t:8.2f} s  {c}')
    return rc
