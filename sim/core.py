"""Runs, phases, minimisation, replay files and evidence."""
import contextlib
import gc
import hashlib
import importlib
import io as _io
import json
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback

from . import env, sched

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('BPSIM_EVIDENCE', os.path.join(VERIF, 'evidence'))
HASHSEEDS = 4
RUN_TIMEOUT = 90.0


class HarnessError(Exception):
    """The check itself is broken (never a verdict)."""


class Hang(BaseException):
    """Raised at a bounded-progress limit of the simulation."""


def wall():
    from . import sched
    return sched.wall()


# ---------------------------------------------------------------------------
# result of one run


class Run(object):
    """What a property's execute() fills in."""

    def __init__(self, plan):
        self.plan = plan
        self.violations = []
        self.log = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.0
        self.steps = 0
        self.root = None
        self._n = 0

    def violate(self, kind, msg):
        self.violations.append({'kind': kind, 'msg': str(msg)[:1500]})

    def check(self, cond, kind, msg):
        if not cond:
            self.violate(kind, msg)
        return bool(cond)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def note(self, *parts):
        self.log.append(' '.join(str(p) for p in parts))

    def state(self, *parts):
        h = hashlib.sha256(repr(parts).encode()).hexdigest()[:16]
        self.states.add(h)

    # fresh-process phases -------------------------------------------------
    def phase(self, fn, *args, **kw):
        """Run fn(*args) in a freshly forked process of the pristine
        interpreter and return its (picklable) result."""
        timeout = kw.pop('_timeout', RUN_TIMEOUT - 10)
        out = fork_call(lambda: fn(*args, **kw), timeout)
        if out[0] == 'ok':
            return out[1]
        if out[0] == 'timeout':
            raise Hang('phase made no progress for %g s' % timeout)
        raise HarnessError(out[1])


def _die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def fork_call(fn, timeout):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            _die_with_parent()
            try:
                res = ('ok', fn())
                data = pickle.dumps(res)
            except Hang as e:
                data = pickle.dumps(('timeout', str(e)))
            except BaseException:
                data = pickle.dumps(('err', traceback.format_exc()))
            view = memoryview(data)
            while view:
                n = os.write(w, view[:65536])
                view = view[n:]
            os.close(w)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = wall() + timeout
    res = None
    while True:
        left = deadline - wall()
        if left <= 0:
            res = ('timeout', 'no answer within %g s' % timeout)
            break
        ready, _, _ = select.select([r], [], [], min(left, 5.0))
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if res is not None:
        for k in (lambda: os.killpg(pid, signal.SIGKILL),
                  lambda: os.kill(pid, signal.SIGKILL)):
            try:
                k()
            except OSError:
                pass
    try:
        _, status = os.waitpid(pid, 0)
    except ChildProcessError:
        status = 0
    if res is not None:
        return res
    if not chunks:
        return ('err', 'child died with status %r' % status)
    return pickle.loads(b''.join(chunks))


# ---------------------------------------------------------------------------
# executing plans


def load_prop(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def execute(prop, plan, timeout=RUN_TIMEOUT):
    """Execute one plan in a forked coordinator process.  Returns a dict."""

    def body():
        run = Run(plan)
        root = os.path.join(env.SCRATCH, 'run-%d' % os.getpid())
        os.mkdir(root)
        run.root = root
        try:
            try:
                prop.execute(run, plan)
            except Hang as e:
                run.violate('no-progress', e)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        text = '\n'.join(run.log).replace(root, '<root>')
        for v in run.violations:
            v['msg'] = v['msg'].replace(root, '<root>')
        return {'violations': run.violations,
                'digest': hashlib.sha256(text.encode()).hexdigest()[:24],
                'log': text if plan.get('_keeplog') else text[-4000:],
                'faults': run.faults, 'probes': run.probes,
                'states': sorted(run.states), 'simtime': run.simtime,
                'steps': run.steps}
    out = fork_call(body, timeout)
    if out[0] == 'ok':
        return out[1]
    if out[0] == 'timeout':
        return {'violations': [{'kind': 'no-progress', 'msg':
                                'the run did not finish: ' + out[1]}],
                'digest': 'timeout', 'log': '', 'faults': {}, 'probes': {},
                'states': [], 'simtime': 0.0, 'steps': 0, 'timeout': True}
    tail = out[1].rstrip().split('\n')
    frames = [x for x in tail if x.lstrip().startswith('File "')]
    if any(env.PKG + os.sep in x for x in frames):
        # the code under test failed where nothing may fail
        where = [x.strip() for x in frames if env.PKG + os.sep in x][-1]
        return {'violations': [{'kind': 'unexpected-error', 'msg':
                                '%s (%s)' % (tail[-1][:400], where)}],
                'digest': 'error', 'log': out[1][-3000:], 'faults': {},
                'probes': {}, 'states': [], 'simtime': 0.0, 'steps': 0}
    raise HarnessError(out[1])


def make_plan(prop, seed, index, tier):
    rng = random.Random('%s/%s/%d' % (seed, prop.ID, index))
    plan = prop.generate(rng, tier, index)
    plan['_id'] = '%s/%s/%d' % (seed, prop.ID, index)
    return json.loads(json.dumps(plan))


# ---------------------------------------------------------------------------
# minimisation


def shrink(prop, plan, kind, budget=250, seconds=90.0):
    start = wall()
    tried = [0]

    def fails(p):
        if tried[0] >= budget or wall() - start > seconds:
            return False
        tried[0] += 1
        try:
            r = execute(prop, p, timeout=60.0)
        except HarnessError:
            return False
        return any(v['kind'] == kind for v in r['violations'])

    keys = [k for k in getattr(prop, 'SHRINK', ('faults', 'preempt', 'ops'))
            if isinstance(plan.get(k), list)]
    changed = True
    while changed and tried[0] < budget and wall() - start <= seconds:
        changed = False
        for k in keys:
            items = list(plan[k])
            n = 2 if len(items) > 1 else 1
            while items and n <= max(1, len(items)):
                size = max(1, len(items) // n)
                removed = False
                i = 0
                while i < len(items):
                    cand = items[:i] + items[i + size:]
                    p = dict(plan)
                    p[k] = cand
                    if fails(p):
                        plan = p
                        items = cand
                        removed = changed = True
                    else:
                        i += size
                if size == 1 and not removed:
                    break
                n = min(len(items) or 1, n * 2)
                if size == 1:
                    break
        if hasattr(prop, 'simplify'):
            for p in prop.simplify(plan):
                if tried[0] >= budget or wall() - start > seconds:
                    break
                if p != plan and fails(p):
                    plan = p
                    changed = True
                    break
    return plan, tried[0]


# ---------------------------------------------------------------------------
# replay files


def write_replay(prop, plan, res, kind, hashseed, nshrunk):
    d = os.path.join(EVIDENCE, 'replays')
    os.makedirs(d, exist_ok=True)
    plan = {k: v for k, v in plan.items()}
    doc = {'property': prop.ID, 'kind': kind, 'seed': plan.get('_id'),
           'hashseed': hashseed, 'plan': plan, 'digest': res['digest'],
           'violations': res['violations'], 'shrink_executions': nshrunk,
           'event_log': res['log'].split('\n')[-120:],
           'how_to_replay': '/opt/venv/bin/python -m sim replay <this file>'}
    name = '%s-%s.json' % (prop.ID, hashlib.sha256(
        (kind + json.dumps(plan, sort_keys=True)).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)   # the order of keys matters
        f.write('\n')
    return path


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    hs = str(doc.get('hashseed', 0))
    if os.environ.get('PYTHONHASHSEED') != hs:
        os.environ['PYTHONHASHSEED'] = hs
        os.execv(sys.executable, [sys.executable, '-m', 'sim', 'replay', path])
    prop = load_prop(doc['property'])
    prop.setup()
    sched.index()
    gc.freeze()
    plan = doc['plan']
    res = execute(prop, plan, timeout=180.0)
    kinds = [v['kind'] for v in res['violations']]
    print('replay of %s: digest %s (%s)' % (
        doc['seed'], res['digest'],
        'identical execution' if res['digest'] == doc['digest']
        else 'recorded digest was %s' % doc['digest']))
    for v in res['violations']:
        print('  %s: %s' % (v['kind'], v['msg']))
    if doc['kind'] in kinds:
        print('VIOLATION property=%s replay=%s' % (doc['property'], path))
        return 1
    print('violation not reproduced')
    return 0


# ---------------------------------------------------------------------------
# batch


def worker(pid, tier, seed, w, nw, n, budget, outpath):
    """Runs indices w, w+nw, ... ; appends JSON lines to outpath."""
    prop = load_prop(pid)
    prop.setup()
    sched.index()
    gc.freeze()
    start = wall()
    hashseed = int(os.environ.get('PYTHONHASHSEED', '0') or 0)
    found = {}
    out = open(outpath, 'w')

    def emit(d):
        out.write(json.dumps(d) + '\n')
        out.flush()
    samples = 0
    for i in range(w, n, nw):
        if wall() - start > budget:
            emit({'t': 'stopped', 'at': i})
            break
        plan = make_plan(prop, seed, i, tier)
        t0 = wall()
        try:
            res = execute(prop, plan)
            if res.get('timeout'):
                res = execute(prop, plan, timeout=2 * RUN_TIMEOUT)
        except HarnessError as e:
            emit({'t': 'harness', 'i': i, 'err': str(e)[-3000:]})
            continue
        rec = {'t': 'run', 'i': i, 'digest': res['digest'],
               'faults': res['faults'], 'probes': res['probes'],
               'states': res['states'], 'simtime': res['simtime'],
               'steps': res['steps'], 'wall': round(wall() - t0, 4),
               'violations': res['violations']}
        if samples < 1:
            rec['sample'] = plan
            rec['log'] = res['log'][-700:]
            samples += 1
        emit(rec)
        for v in res['violations']:
            if v['kind'] not in found and len(found) < 4:
                found[v['kind']] = (i, plan)
        if len(found) >= 2 or (found and wall() - start > budget / 3):
            break
    for kind, (i, plan) in sorted(found.items(), key=lambda kv: kv[1][0])[:2]:
        small, tried = shrink(prop, plan, kind,
                              budget=getattr(prop, 'SHRINK_BUDGET', 120),
                              seconds=45.0)
        small['_keeplog'] = True
        res = execute(prop, small, timeout=2 * RUN_TIMEOUT)
        if not any(v['kind'] == kind for v in res['violations']):
            small = dict(plan)
            small['_keeplog'] = True
            res = execute(prop, small, timeout=2 * RUN_TIMEOUT)
        path = write_replay(prop, small, res, kind, hashseed, tried)
        full = dict(plan)
        full['_keeplog'] = True
        fres = res if full == small else execute(prop, full,
                                                 timeout=2 * RUN_TIMEOUT)
        emit({'t': 'violation', 'i': i, 'kind': kind, 'replay': path,
              'full': write_replay(prop, full, fres, kind, hashseed, 0),
              'msg': [v['msg'] for v in res['violations']
                      if v['kind'] == kind][:1]})
    out.close()


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            doc = json.load(f)
    except OSError:
        return []
    return [e for e in doc.get('findings', []) if e.get('property') == pid]


def matches(entry, kind, msg):
    if entry.get('kind') != kind:
        return False
    return all(s in msg for s in entry.get('contains', []))


def batch(pid, tier):
    t_start = wall()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = load_prop(pid)
    n = prop.RUNS[tier]
    if os.environ.get('BPSIM_RUNS'):
        n = int(os.environ['BPSIM_RUNS'])
    nw = int(os.environ.get('BPSIM_WORKERS', '8'))
    nw = max(HASHSEEDS, nw - nw % HASHSEEDS)
    budget = {'quick': 330.0, 'thorough': 3000.0}[tier]
    if os.environ.get('BPSIM_BUDGET'):
        budget = float(os.environ['BPSIM_BUDGET'])
    os.makedirs(EVIDENCE, exist_ok=True)
    procs = []
    for w in range(nw):
        outp = os.path.join(env.SCRATCH, 'out-%s-%d' % (pid, w))
        e = dict(os.environ)
        e['PYTHONHASHSEED'] = str(w % HASHSEEDS)
        e['BPSIM_SCRATCH'] = env.SCRATCH
        for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
            e[v] = '1'
        errp = open(outp + '.err', 'w')
        p = subprocess.Popen(
            [sys.executable, '-m', 'sim', '_worker', pid, tier, str(seed),
             str(w), str(nw), str(n), str(budget), outp],
            cwd=VERIF, env=e, stdout=errp, stderr=errp)
        procs.append((p, outp))
    errors = []
    hard = budget + 420.0
    for p, outp in procs:
        try:
            p.wait(timeout=max(1.0, hard - (wall() - t_start)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append('worker exceeded the wall limit')
        if p.returncode != 0:
            with open(outp + '.err') as f:
                errors.append('worker failed (%s): %s' % (p.returncode,
                                                          f.read()[-2500:]))
    runs, viols, samples, digests = [], [], [], {}
    faults, probes, states = {}, {}, set()
    simtime = steps = 0
    stopped = 0
    for _, outp in procs:
        try:
            with open(outp) as f:
                lines = f.read().split('\n')
        except OSError:
            continue
        for line in lines:
            if not line:
                continue
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d['t'] == 'run':
                runs.append(d)
                digests[d['i']] = d['digest']
                for k, v in d['faults'].items():
                    faults[k] = faults.get(k, 0) + v
                for k, v in d['probes'].items():
                    probes[k] = probes.get(k, 0) + v
                states.update(d['states'])
                simtime += d['simtime']
                steps += d['steps']
                if 'sample' in d and len(samples) < 2:
                    samples.append({'plan': d['sample'], 'log': d['log']})
            elif d['t'] == 'harness':
                errors.append('run %d: %s' % (d['i'], d['err']))
            elif d['t'] == 'violation':
                viols.append(d)
            elif d['t'] == 'stopped':
                stopped += 1
    # confirm in a fresh process
    known = load_known(pid)
    new, shown = [], set()
    viols.sort(key=lambda d: d['i'])
    seen = set()
    for v in viols:
        if v['kind'] in seen:
            continue
        seen.add(v['kind'])
        e = dict(os.environ)
        e['BPSIM_SCRATCH'] = env.SCRATCH
        # the minimised plan first, then the plan as it was generated
        for path in dict.fromkeys([v['replay'], v['full']]):
            r = subprocess.run([sys.executable, '-m', 'sim', 'replay',
                                path], cwd=VERIF, env=e,
                               capture_output=True, text=True, timeout=400)
            if r.returncode == 1:
                v['replay'] = path
                break
        if r.returncode != 1:
            errors.append('violation %s of run %d did not replay: %s' % (
                v['kind'], v['i'], (r.stdout + r.stderr)[-1500:]))
            continue
        msg = (v['msg'] or [''])[0]
        hit = [k for k in known if k.get('status') == 'open' and
               matches(k, v['kind'], msg)]
        if hit:
            shown.add(hit[0]['what'])
            continue
        v['text'] = msg
        new.append(v)
    for k in known:
        if k.get('status') == 'open':
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    w = wall() - t_start
    nontrivial = len(states)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'explored': prop.LEVEL,
            'evaluations': len(runs),
            'distinct_nontrivial': nontrivial,
            'rule': prop.RULE,
            'samples': samples,
            'runs_planned': n,
            'workers_stopped_on_budget': stopped,
            'runs_per_hour': round(len(runs) / max(w, 1e-9) * 3600),
            'seeds': 'one seed per run, derived from VERIF_SEED, the '
            'property and the run index',
            'simulated_seconds': round(simtime, 3),
            'scheduler_steps': steps,
            'faults_injected': dict(sorted(faults.items())),
            'probes': dict(sorted(probes.items())),
            'state_measure': prop.STATE_MEASURE,
            'distinct_event_logs': len(set(digests.values())),
            'real_components': prop.REAL,
            'stubbed_components': prop.STUB,
            'hash_seeds': list(range(HASHSEEDS)),
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(w, 2),
        'violations': len(new),
    }
    tmp = os.path.join(EVIDENCE, '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(EVIDENCE, pid + '.json'))
    print('%s %s: %d runs, %d distinct states, %d fault injections, '
          '%.1f s, %d violations' % (pid, tier, len(runs), nontrivial,
                                     sum(faults.values()), w, len(new)))
    if new:
        for v in new:
            print('  run %d, %s: %s' % (v['i'], v['kind'], v['text']))
            print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
        return 1
    if errors:
        for e in errors[:2]:
            print('ERROR', e)
        return 2
    if not runs:
        print('ERROR nothing ran')
        return 2
    return 0


def digests(pid, tier, seed, n, workers):
    """Event-log digests of the first n runs (determinism proof)."""
    os.environ['BPSIM_RUNS'] = str(n)
    nw = workers
    outs = {}
    procs = []
    for w in range(nw):
        outp = os.path.join(env.SCRATCH, 'dig-%s-%d' % (pid, w))
        e = dict(os.environ)
        e['PYTHONHASHSEED'] = str(w % HASHSEEDS)
        e['BPSIM_SCRATCH'] = env.SCRATCH
        p = subprocess.Popen([sys.executable, '-m', 'sim', '_worker', pid,
                              tier, str(seed), str(w), str(nw), str(n),
                              '1e9', outp], cwd=VERIF, env=e)
        procs.append((p, outp))
    for p, outp in procs:
        p.wait()
        with open(outp) as f:
            for line in f:
                d = json.loads(line)
                if d['t'] == 'run':
                    outs[d['i']] = d['digest']
    return outs


@contextlib.contextmanager
def captured():
    old = sys.stdout, sys.stderr
    buf = _io.StringIO()
    sys.stdout = buf
    sys.stderr = _io.StringIO()
    try:
        yield buf
    finally:
        sys.stdout, sys.stderr = old


_ = (time,)
