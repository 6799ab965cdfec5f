"""Explicit-state exploration core.

Everything a check explores runs on the REAL code in /repo, in lockstep with a
small reference model written in plain Python.  The explorer enumerates every
operation sequence (or every configuration/input tuple) within a stated bound;
nothing is sampled.  A check is a module with

    PROPERTY  = 'P01'
    def scenarios(tier): yield (name, callable(ctx))

Each scenario is a closed system.  `Ctx` counts what was covered, collects
violations, and knows the committed known-findings file.
"""
import contextlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The explored code broke the property."""

    def __init__(self, message, key=None, trace=None):
        super().__init__(message)
        self.message = message
        self.key = key
        self.trace = trace


class Hang(BaseException):
    """A single execution used more CPU time than any execution needs."""


class Ctx(object):
    """Coverage counters, violations and known findings of one run."""

    MAX_VIOLATIONS = 8

    def __init__(self, prop, tier, seed, only=None):
        self.prop = prop
        self.tier = tier
        self.quick = tier != 'thorough'
        self.seed = seed
        self.only = only
        self.t0 = time.time()
        self.transitions = 0        # operations executed on the real code
        self.traces = 0             # complete model traces replayed on it
        self._states = set()        # distinct canonical states
        self.extra_states = 0
        self._outcomes = set()      # distinct observed outcome labels
        self.scen = {}              # per scenario coverage
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.known = load_known(prop)
        self.scenario = None
        self.capped = False         # a bound below the stated one was hit
        self.trace = []             # labels of the execution in progress

    # -- coverage ---------------------------------------------------------
    def state(self, key):
        """Record a canonical state; True if it is new."""
        k = (self.scenario, key)
        if k in self._states:
            return False
        self._states.add(k)
        return True

    def outcome(self, label):
        self._outcomes.add((self.scenario, label))

    def step(self, n=1):
        self.transitions += n

    def sample(self, text):
        if len([s for s in self.samples if s[0] == self.scenario]) < 3:
            self.samples.append((self.scenario, str(text)[:300]))

    # -- verdicts ---------------------------------------------------------
    def fail(self, message, key=None):
        raise Violation(message, key=key, trace=list(self.trace))

    def check(self, cond, message, key=None):
        if not cond:
            self.fail(message() if callable(message) else message, key=key)

    def same(self, got, want, what, key=None):
        if not same(got, want):
            self.fail('%s: got %s, expected %s' % (what, show(got), show(want)),
                      key=key)

    def record(self, vio):
        """Account for a violation: known finding or alarm."""
        key = vio.key
        if key is not None and key in self.known:
            self.known_hit[key] = self.known[key]
            return False
        self.violations.append({
            'scenario': self.scenario, 'message': vio.message, 'key': key,
            'trace': [str(t)[:400] for t in (vio.trace or [])],
        })
        return True

    def full(self):
        return len(self.violations) >= self.MAX_VIOLATIONS


def show(val):
    try:
        text = repr(val)
    except Exception as err:                            # pragma: no cover
        text = '<unprintable %s: %s>' % (type(val).__name__, err)
    return text if len(text) < 500 else text[:240] + ' ... ' + text[-240:]


def canon(val, depth=0):
    """Hashable form of a value that keeps types apart (1, 1.0, True differ)."""
    import numpy as np
    if depth > 12:
        return '...'
    if val is None or isinstance(val, (bool, int, str, bytes)):
        return (type(val).__name__, val)
    if isinstance(val, float):
        return ('float', repr(val))
    if isinstance(val, complex):
        return ('complex', repr(val))
    if isinstance(val, np.ndarray):
        return (type(val).__name__, val.dtype.kind, val.shape,
                tuple(repr(x) for x in val.ravel().tolist()))
    if isinstance(val, np.generic):
        return ('np', val.dtype.kind, repr(val.item()))
    if isinstance(val, dict):
        return (base_name(val), tuple(
            (canon(k, depth + 1), canon(v, depth + 1)) for k, v in val.items()))
    if isinstance(val, (list, tuple)):
        return (base_name(val), tuple(canon(v, depth + 1) for v in val))
    if isinstance(val, (set, frozenset)):
        return (base_name(val), tuple(sorted(
            (canon(v, depth + 1) for v in val), key=repr)))
    name = type(val).__name__
    if hasattr(val, '_props') and not isinstance(val, type):
        return ('HP', name, tuple(
            (k, canon(getattr(val, k), depth + 1)) for k in val._props))
    return (name, repr(val) if ' object at 0x' not in repr(val) else name)


def base_name(val):
    for typ in (list, tuple, set, frozenset, dict):
        if isinstance(val, typ):
            return typ.__name__
    return type(val).__name__


SIMPLE = (int, str, bool, bytes, type(None))


def same(a, b):
    if a is b:
        return True
    if type(a) in SIMPLE or type(b) in SIMPLE:
        return type(a) is type(b) and a == b
    return canon(a) == canon(b)


# -- outcomes of real operations -------------------------------------------
ERR = 'raises'


class Interrupt(BaseException):
    """Raised by user code like a KeyboardInterrupt: nobody may swallow it."""


def attempt(func, *args, **kwargs):
    """('ok', value) or ('raises', exception instance)."""
    try:
        return ('ok', func(*args, **kwargs))
    except (Exception, Interrupt) as err:
        return (ERR, err)


def expect(ctx, outcome, kinds, what, key=None):
    """The outcome must be an exception of one of the given kinds."""
    if outcome[0] != ERR:
        ctx.fail('%s: expected %s, but it was accepted with result %s' % (
            what, names(kinds), show(outcome[1])), key=key)
    if not isinstance(outcome[1], kinds):
        ctx.fail('%s: expected %s, got %s: %s' % (
            what, names(kinds), type(outcome[1]).__name__,
            str(outcome[1])[:300]), key=key)
    return outcome[1]


def expect_ok(ctx, outcome, what, key=None):
    if outcome[0] == ERR:
        ctx.fail('%s: expected success, got %s: %s' % (
            what, type(outcome[1]).__name__, str(outcome[1])[:400]), key=key)
    return outcome[1]


def names(kinds):
    if not isinstance(kinds, tuple):
        kinds = (kinds,)
    return '/'.join(k.__name__ for k in kinds)


# -- explorers ----------------------------------------------------------------
class System(object):
    """A real object in lockstep with its reference model.

    Subclasses define `ops()` -> list of (label, function(self)); a function
    performs one operation on both sides and raises Violation on divergence.
    `key()` is the canonical joint state, `check()` runs after every step.
    """

    def __init__(self, ctx):
        self.ctx = ctx

    def ops(self):
        raise NotImplementedError

    def key(self):
        return None

    def check(self):
        pass

    def close(self):
        pass


def run_sequence(ctx, factory, seq):
    """Execute one complete operation sequence on a fresh system."""
    system = factory(ctx)
    ctx.trace = []
    try:
        ops = system.ops()
        system.check()
        for idx in seq:
            label, func = ops[idx]
            ctx.trace.append(label)
            func(system)
            ctx.step()
            system.check()
            ctx.state(system.key())
    finally:
        system.close()
    ctx.traces += 1


def explore(ctx, factory, depth, extend=0, max_states=None, part=None):
    """All operation sequences up to `depth`, then BFS over distinct states.

    Phase 1 executes every sequence of exactly `depth` operations (each prefix
    is checked on the way), so nothing up to that depth depends on the state
    abstraction.  Phase 2 (`extend` > 0) continues breadth-first from every
    distinct joint state, merging states with equal keys, for `extend` levels.
    `part` = (i, n) restricts phase 1 to its i-th of n slices (by first
    operation), for running the slices side by side.
    """
    probe = factory(ctx)
    nops = len(probe.ops())
    labels = [lab for lab, _ in probe.ops()]
    first = probe.key()
    probe.close()
    ctx.state(first)
    seq = [0] * depth
    done = depth == 0 or nops == 0
    while not done:
        if part is None or seq[0] % part[1] == part[0]:
            guarded(ctx, lambda: run_sequence(ctx, factory, seq))
            if ctx.full():
                return
        pos = depth - 1
        while pos >= 0:
            seq[pos] += 1
            if seq[pos] < nops:
                break
            seq[pos] = 0
            pos -= 1
        done = pos < 0
    ctx.sample('all %d^%d sequences over ops %s' % (
        nops, depth, labels[:12]))
    if not extend:
        return
    seen = {}
    frontier = [()]
    seen[first] = ()
    level = 0
    truncated = False
    while frontier and level < extend:
        nxt = []
        for prefix in frontier:
            for idx in range(nops):
                box = {}

                def one(prefix=prefix, idx=idx, box=box):
                    system = factory(ctx)
                    ctx.trace = []
                    try:
                        ops = system.ops()
                        for j in prefix + (idx,):
                            ctx.trace.append(ops[j][0])
                            ops[j][1](system)
                            ctx.step()
                        system.check()
                        box['key'] = system.key()
                    finally:
                        system.close()
                    ctx.traces += 1
                guarded(ctx, one)
                if ctx.full():
                    return
                key = box.get('key')
                if 'key' in box and key not in seen:
                    if max_states and len(seen) >= max_states:
                        truncated = ctx.capped = True
                        continue
                    seen[key] = prefix + (idx,)
                    ctx.state(key)
                    nxt.append(prefix + (idx,))
        frontier = nxt
        level += 1
    ctx.scen.setdefault(ctx.scenario, {}).update({
        'bfs_levels': level, 'bfs_states': len(seen),
        'bfs_exhausted': not frontier and not truncated,
    })


# CPU seconds; the longest legitimate execution takes well under one second
HANG_LIMIT = 40.0


def _alarm(*_):
    raise Hang()


@contextlib.contextmanager
def watchdog(limit=None):
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit or HANG_LIMIT)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def guarded(ctx, func):
    """Run one execution; turn violations and crashes into records."""
    try:
        with watchdog():
            func()
        return True
    except Violation as vio:
        return not ctx.record(vio)
    except Hang:
        ctx.record(Violation('execution does not terminate (over %s CPU '
                             'seconds)' % HANG_LIMIT, trace=list(ctx.trace)))
    except KeyboardInterrupt:
        raise
    except Exception as err:
        text = traceback.format_exc()
        ctx.record(Violation('unexpected %s: %s\n%s' % (
            type(err).__name__, str(err)[:300], text[-1800:]),
            trace=list(ctx.trace)))
    return False


def case(ctx, label, func, *args, **kwargs):
    """One enumerated case (configuration/input tuple) as an execution."""
    ctx.trace = [label]
    guarded(ctx, lambda: func(*args, **kwargs))
    ctx.traces += 1
    return not ctx.full()


# -- known findings -------------------------------------------------------------
def load_known(prop):
    """Committed findings: lines 'property=<id> key=<key> <what fails>'."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    with open(path) as fid:
        for line in fid:
            line = line.strip()
            if not line.startswith('finding: '):
                continue
            parts = line[len('finding: '):].split(' ', 2)
            if parts[0] == 'property=' + prop and parts[1].startswith('key='):
                out[parts[1][4:]] = parts[2]
    return out


# -- entry -------------------------------------------------------------------------
def run_scenario(module, tier, seed, name):
    """One scenario in this process; returns a picklable summary."""
    ctx = Ctx(module.PROPERTY, tier, seed)
    func = dict(module.scenarios(tier))[name]
    ctx.scenario = name
    try:
        func(ctx)
    except Violation as vio:
        ctx.record(vio)
    except Hang:
        ctx.record(Violation('scenario does not terminate'))
    except Exception as err:
        ctx.record(Violation('unexpected %s: %s\n%s' % (
            type(err).__name__, str(err)[:300],
            traceback.format_exc()[-1800:]), trace=list(ctx.trace)))
    cover = ctx.scen.get(name, {})
    cover.update({
        'states': len(ctx._states), 'transitions': ctx.transitions,
        'traces': ctx.traces, 'outcomes': len(ctx._outcomes),
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(ctx.violations),
    })
    return {'name': name, 'cover': cover, 'violations': ctx.violations,
            'known_hit': ctx.known_hit, 'samples': ctx.samples,
            'capped': ctx.capped}


def _worker(module, tier, seed, name, path):
    import pickle
    result = run_scenario(module, tier, seed, name)
    with open(path + '.tmp', 'wb') as fid:
        pickle.dump(result, fid)
    os.rename(path + '.tmp', path)


def run(module, tier, seed, only=None):
    """Every scenario in its own forked process, several at a time."""
    import pickle
    import shutil
    import tempfile
    ctx = Ctx(module.PROPERTY, tier, seed, only)
    todo = [n for n, _ in module.scenarios(tier) if not only or n == only]
    jobs = int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 1))
    tmp = tempfile.mkdtemp(prefix='verif-run-')
    running = {}
    results = {}
    queue = list(enumerate(todo))
    try:
        while queue or running:
            while queue and len(running) < jobs:
                idx, name = queue.pop(0)
                path = os.path.join(tmp, str(idx))
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 2
                    try:
                        _worker(module, tier, seed, name, path)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = (idx, name, path)
            pid, status = os.wait()
            if pid not in running:
                continue
            idx, name, path = running.pop(pid)
            if os.path.exists(path):
                with open(path, 'rb') as fid:
                    results[idx] = pickle.load(fid)
            else:
                results[idx] = {
                    'name': name, 'known_hit': {}, 'samples': [],
                    'capped': True,
                    'cover': {'states': 0, 'transitions': 0, 'traces': 0,
                              'outcomes': 0},
                    'violations': [{
                        'scenario': name, 'key': None, 'trace': [],
                        'message': 'the process exploring the code ended with '
                                   'status %s and no result' % status}]}
    finally:
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.cover = {'states': 0, 'transitions': 0, 'traces': 0, 'outcomes': 0}
    for idx in sorted(results):
        res = results[idx]
        ctx.scen[res['name']] = res['cover']
        for field in ctx.cover:
            ctx.cover[field] += res['cover'][field]
        ctx.violations += res['violations']
        ctx.known_hit.update(res['known_hit'])
        ctx.samples += res['samples']
        ctx.capped = ctx.capped or res['capped']
    return ctx


def refused(prop, tier, seed, exc):
    """The classes every scenario is built from cannot be declared."""
    ctx = Ctx(prop, tier, seed, None)
    ctx.cover = {'states': 0, 'transitions': 0, 'traces': 0, 'outcomes': 0}
    ctx.capped = True
    ctx.violations.append({
        'scenario': 'declarations', 'key': None, 'trace': [],
        'message': 'declaring the classes to explore raised %s: %s' % (
            type(exc).__name__, exc)})
    return finish(ctx, None)


def finish(ctx, module):
    prop = ctx.prop
    for key, what in sorted(ctx.known_hit.items()):
        print('KNOWN-FINDING: property=%s [%s] %s' % (prop, key, what))
    outdir = os.path.join(VERIF, 'evidence')
    os.makedirs(outdir, exist_ok=True)
    replay_dir = os.path.join(outdir, 'replays')
    if ctx.violations:
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '%s.json' % prop)
        with open(path, 'w') as fid:
            json.dump({
                'property': prop, 'tier': ctx.tier,
                'replay': '/opt/venv/bin/python /verif/run.py %s --tier %s '
                          "--only '%s'" % (prop, ctx.tier,
                                           ctx.violations[0]['scenario']),
                'violations': ctx.violations,
            }, fid, indent=1)
        for vio in ctx.violations[:4]:
            print('  [%s] %s' % (vio['scenario'], vio['message'][:1500]))
            if vio['trace']:
                print('    trace: ' + ' ; '.join(vio['trace'])[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    cover = ctx.cover
    evidence = {
        'property': prop,
        'tier': ctx.tier,
        'seed': ctx.seed,
        'level': 'model_checking',
        'coverage': {
            'states': cover['states'],
            'transitions': cover['transitions'],
            'traces_validated_against_impl': cover['traces'],
            'exhaustive': not ctx.violations and not ctx.capped,
            'distinct_outcomes': cover['outcomes'],
            'bounds': getattr(module, 'BOUNDS', ''),
            'scenarios': ctx.scen,
            'samples': ['%s: %s' % s for s in ctx.samples][:40],
            'binding': 'every explored trace is executed on the real code of '
                       '/repo in lockstep with the reference model; no model '
                       'transition is explored without it',
        },
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(ctx.violations),
        'violation_messages': [v['message'][:500] for v in ctx.violations],
        'known_findings': sorted(ctx.known_hit),
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
    }
    with open(os.path.join(outdir, prop + '.json'), 'w') as fid:
        json.dump(evidence, fid, indent=1, default=str)
    print('%s tier=%s states=%d transitions=%d traces=%d outcomes=%d '
          'violations=%d known=%d wall=%.1fs' % (
              prop, ctx.tier, cover['states'], cover['transitions'],
              cover['traces'], cover['outcomes'], len(ctx.violations), len(ctx.known_hit),
              time.time() - ctx.t0))
    return 1 if ctx.violations else 0
