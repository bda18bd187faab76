"""Runs many simulated executions in forked children, minimises failures, writes evidence.

The parent imports everything once and never simulates; each run is a forked child, so runs
share nothing and a run is a function of (code, property, seed, choices) only.
"""
import argparse
import hashlib
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time as _t   # patched by boot; only boot.real_* are used below
import traceback

from . import boot, kernel
from .kernel import Choices, Inconclusive, Kernel, NS, format_exc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('SIM_OUT', os.path.join(VERIF, 'out'))
real = boot.real_perf


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(f'{key}: {msg}')
        self.key = key
        self.msg = msg


class Env:
    """What a check's run() gets."""

    def __init__(self, prop, seed, replay=None, trace=False, tier='quick'):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.ch = Choices(f'{prop}/{seed}', replay)
        self.k = Kernel(self.ch)
        self.k.keep_trace = trace
        self.ops = []       # human-readable history
        self.probes = {}
        self.extra = {}
        boot.seed_entropy(f'{prop}/{seed}')

    def note(self, *a):
        self.ops.append(f't={self.k.now / 1e9:.6f} ' + ' '.join(map(str, a)))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fail(self, key, msg):
        raise Violation(key, msg)

    def check(self, cond, key, msg):
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)


def arroba_frames(exc):
    """Names of frames of the code under test in an exception's traceback, innermost last."""
    out = []
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for f, _ in traceback.walk_tb(exc.__traceback__):
            if f.f_code.co_filename.startswith(os.path.join(boot.REPO, 'arroba') + os.sep):
                out.append(f.f_code.co_qualname)
        exc = exc.__cause__ or exc.__context__
    return out


def execute(mod, prop, seed, replay=None, trace=False, tier='quick'):
    """One run, in this process. Returns a JSON-able result."""
    env = Env(prop, seed, replay, trace, tier)
    res = {'seed': seed, 'status': 'ok', 'key': None, 'msg': ''}
    t0 = real()
    try:
        mod.run(env)
    except Violation as v:
        res.update(status='violation', key=v.key, msg=v.msg)
    except Inconclusive as e:
        if str(e) == 'deadlock':
            res.update(status='violation', key='deadlock',
                       msg='every task is blocked: ' + '; '.join(
                           repr(t) for t in env.k.tasks if t.state == 'blocked')[:1000])
        else:
            res.update(status='inconclusive', msg=str(e))
    except BaseException as e:
        frames = arroba_frames(e)
        if frames:
            res.update(status='violation', key=f'unexpected {type(e).__name__}',
                       msg=f'{type(e).__name__}: {e} in {frames[-1]}\n{format_exc(e)[-3000:]}')
        else:
            res.update(status='harness_error', msg=format_exc(e)[-3000:])
    k = env.k
    res.update(sim_s=k.now / NS, steps=k.steps, switches=k.switches, preempts=k.preempts,
               stats=k.stats, probes=env.probes, hash=k.trace_hash.hexdigest(),
               wall=real() - t0, extra=env.extra, events=k.evseq)
    res['hist_hash'] = hashlib.blake2b('\n'.join(env.ops).encode(), digest_size=8).hexdigest()
    if res['status'] != 'ok' or trace:
        res['choices'] = {s: _strip(v) for s, v in env.ch.rec.items() if any(v)}
        res['ops'] = env.ops[-400:]
        if trace:
            res['trace'] = k.trace[-3000:]
    elif seed % 50 == 0 or seed < 3:
        res['ops'] = env.ops[:12]
    return res


def _strip(v):
    v = list(v)
    while v and not v[-1]:
        v.pop()
    return v


class Pool:
    """Forks a child per job; yields (job, result)."""

    def __init__(self, mod, prop, tier, jobs):
        self.mod, self.prop, self.tier, self.jobs = mod, prop, tier, jobs
        self.live = {}

    def start(self, job):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for fd in list(self.live):
                    os.close(fd)
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                res = execute(self.mod, self.prop, job['seed'], job.get('choices'),
                              job.get('trace', False), self.tier)
                data = json.dumps(res, default=str).encode()
                while data:
                    n = os.write(w, data[:65536])
                    data = data[n:]
            except BaseException:
                try:
                    os.write(w, json.dumps({'seed': job['seed'], 'status': 'harness_error',
                                            'msg': traceback.format_exc()[-3000:]}).encode())
                except BaseException:
                    pass
                code = 3
            os._exit(code)
        os.close(w)
        self.live[r] = [pid, job, real() + job.get('cap', self.mod_cap()), bytearray()]

    def mod_cap(self):
        return getattr(self.mod, 'RUN_CAP_S', 45)

    def poll(self, timeout=1.0):
        """Returns finished [(job, result)]."""
        done = []
        if not self.live:
            return done
        rs, _, _ = select.select(list(self.live), [], [], timeout)
        for r in rs:
            pid, job, cap, buf = self.live[r]
            data = os.read(r, 1 << 20)
            if data:
                buf += data
                continue
            self._reap(r)
            try:
                res = json.loads(bytes(buf))
            except ValueError:
                res = {'seed': job['seed'], 'status': 'harness_error',
                       'msg': f'child died; output {bytes(buf)[:200]!r}'}
            done.append((job, res))
        now = real()
        for r in list(self.live):
            pid, job, cap, buf = self.live[r]
            if now > cap:
                os.kill(pid, signal.SIGKILL)
                self._reap(r)
                done.append((job, {'seed': job['seed'], 'status': 'timeout',
                                   'key': 'hang', 'msg': 'no result within the real-time cap'}))
        return done

    def _reap(self, r):
        pid = self.live.pop(r)[0]
        os.close(r)
        os.waitpid(pid, 0)

    def map(self, jobs):
        """Runs all jobs, returns results in order."""
        out = [None] * len(jobs)
        i = 0
        while i < len(jobs) or self.live:
            while i < len(jobs) and len(self.live) < self.jobs:
                jobs[i]['_i'] = i
                self.start(jobs[i])
                i += 1
            for job, res in self.poll():
                out[job['_i']] = res
        return out

    def kill(self):
        for r in list(self.live):
            os.kill(self.live[r][0], signal.SIGKILL)
            self._reap(r)


def same(res, key):
    return res is not None and res.get('status') == 'violation' and res.get('key') == key


def minimise(pool, seed, choices, key, budget_s):
    """Zeroes and truncates recorded decisions while the same kind of violation persists."""
    end = real() + budget_s
    cur = {s: list(v) for s, v in choices.items()}

    def try_all(cands):
        """First candidate that still fails the same way, or None."""
        jobs = [{'seed': seed, 'choices': c} for c in cands]
        for i, r in enumerate(pool.map(jobs)):
            if same(r, key):
                return {s: v for s, v in r['choices'].items()}
        return None

    def size(c):
        return sum(1 for v in c.values() for x in v if x)

    changed = True
    while changed and real() < end:
        changed = False
        # whole streams
        names = sorted(cur, key=lambda s: -len(cur[s]))
        for i in range(0, len(names), pool.jobs):
            group = [n for n in names[i:i + pool.jobs] if n in cur]
            got = try_all([{s: v for s, v in cur.items() if s != n} for n in group])
            if got is not None and size(got) < size(cur):
                cur, changed = got, True
            if real() > end:
                return cur
        # parts of streams
        for n in sorted(cur, key=lambda s: -len(cur[s])):
            if n not in cur:
                continue
            chunk = max(1, len(cur[n]) // 2)
            while chunk >= 1 and n in cur and real() < end:
                pos = 0
                v = cur[n]
                spots = [p for p in range(0, len(v), chunk) if any(v[p:p + chunk])]
                progress = False
                for i in range(0, len(spots), pool.jobs):
                    cands = []
                    for p in spots[i:i + pool.jobs]:
                        w = list(v)
                        w[p:p + chunk] = [0] * len(w[p:p + chunk])
                        cands.append({**cur, n: _strip(w)})
                    got = try_all(cands)
                    if got is not None and size(got) < size(cur):
                        cur, changed, progress = got, True, True
                        break
                    if real() > end:
                        return cur
                if not progress or n not in cur:
                    if chunk == 1:
                        break
                    chunk //= 2
                else:
                    chunk = min(chunk, max(1, len(cur[n]) // 2))
    return cur


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)['findings']
                if e['property'] == prop and e['status'] == 'known']


def match_known(known, res):
    for e in known:
        if e['key'] == res.get('key') and all(s in res.get('msg', '') for s in e.get('contains', [])):
            return e
    return None


def save_replay(prop, res, choices, tier, name):
    d = os.path.join(OUT, prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{name}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': res['seed'], 'tier': tier, 'key': res['key'],
                   'violation': res['msg'], 'hash': res['hash'], 'choices': choices,
                   'history': res.get('ops'), 'trace': res.get('trace')}, f, indent=1)
    return path


def replay_cmd(path):
    return [sys.executable, os.path.join(VERIF, 'check.py'), json.load(open(path))['property'],
            '--replay', path]


def do_replay(mod, prop, path, tier):
    with open(path) as f:
        rep = json.load(f)
    pool = Pool(mod, prop, rep.get('tier', tier), 1)
    res = pool.map([{'seed': rep['seed'], 'choices': rep['choices'], 'trace': True, 'cap': 600}])[0]
    for line in res.get('trace') or []:
        print(line)
    for line in res.get('ops') or []:
        print('  ', line)
    if res['status'] == 'violation':
        exact = res['key'] == rep['key'] and res['hash'] == rep['hash']
        print(f'{res["key"]}: {res["msg"]}')
        print(f'reproduced {"exactly" if exact else "DIFFERENTLY"} '
              f'(trace {res["hash"]}, recorded {rep["hash"]})')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f'replay: {res["status"]} {res["msg"]}')
    return 0


def run_check(mod, prop, tier, seed0, secs, nruns, jobs, verbose):
    t0 = real()
    pool = Pool(mod, prop, tier, jobs)
    known = load_known(prop)
    agg = {'stats': {}, 'probes': {}, 'status': {}}
    hashes, hists, nontrivial = set(), set(), set()
    sim_s = steps = preempts = switches = 0
    samples, harness, extra_max = [], [], {}
    seen_known = {}
    violation = None
    errors = []

    # pinned scenarios of listed findings
    for e in known:
        if e.get('replay'):
            rep = json.load(open(os.path.join(VERIF, e['replay'])))
            res = pool.map([{'seed': rep['seed'], 'choices': rep['choices']}])[0]
            if res['status'] == 'violation' and match_known([e], res):
                seen_known[e['id']] = e

    # determinism: the first few seeds run twice
    base = seed0 * 1_000_000
    det = getattr(mod, 'DETERMINISM_SEEDS', 6)
    det_first = {}
    det_bad = []
    queue = [{'seed': base + i, 'det': True} for i in range(det)]
    queue += [{'seed': base + i, 'det': True} for i in range(det)]
    nxt = det
    launched = 0
    retry_timeouts = []
    runs = 0
    reserve = getattr(mod, 'MINIMISE_S', 40)
    while True:
        stop = real() - t0 > secs or violation is not None
        while not stop and len(pool.live) < jobs:
            if queue:
                job = queue.pop(0)
            elif nxt < nruns:
                job = {'seed': base + nxt}
                nxt += 1
            else:
                break
            pool.start(job)
            launched += 1
        if not pool.live:
            break
        if violation is not None:
            pool.kill()
            break
        for job, res in pool.poll():
            runs += 1
            st = res['status']
            agg['status'][st] = agg['status'].get(st, 0) + 1
            if st == 'timeout':
                if verbose:
                    print('TIMEOUT', res['seed'])
                if job.get('again'):
                    res.update(status='violation', key='hang', hash='-')
                    violation = res
                else:
                    queue.append({'seed': job['seed'], 'again': True,
                                  'cap': 3 * pool.mod_cap()})
                continue
            if st == 'harness_error':
                errors.append(res)
                if verbose:
                    print('HARNESS', res['seed'], res['msg'])
                continue
            if job.get('det'):
                sig = (res['hash'], res['hist_hash'], res['status'])
                if det_first.setdefault(res['seed'], sig) != sig:
                    det_bad.append(res['seed'])
            for kk, v in res['stats'].items():
                agg['stats'][kk] = agg['stats'].get(kk, 0) + v
            for kk, v in res['probes'].items():
                agg['probes'][kk] = agg['probes'].get(kk, 0) + v
            sim_s += res['sim_s']
            steps += res['steps']
            switches += res['switches']
            preempts += res['preempts']
            hashes.add(res['hash'])
            hists.add(res['hist_hash'])
            if res['preempts'] or any(x.startswith('fault') for x in res['stats']) \
                    or res['switches'] > 20:
                nontrivial.add(res['hash'])
            if res.get('ops') and len(samples) < 3 and st == 'ok':
                samples.append({'seed': res['seed'], 'steps': res['steps'],
                                'sim_s': round(res['sim_s'], 3), 'faults':
                                {a: b for a, b in res['stats'].items() if a.startswith('fault')},
                                'history_head': res['ops'][:12]})
            if st == 'inconclusive' and verbose:
                print('INCONCLUSIVE', res['seed'], res['msg'])
            if st == 'violation':
                e = match_known(known, res)
                if e:
                    seen_known[e['id']] = e
                elif verbose == 2:
                    print('V', res['seed'], res['key'], res['msg'][:300])
                elif violation is None:
                    violation = res
    explore_s = real() - t0
    code = 0
    replay_path = None
    if violation is not None and violation['key'] == 'hang':
        violation.update(choices=None)
        replay_path = save_replay(prop, violation, None, tier, f'hang-{violation["seed"]}')
        code = 1
    elif violation is not None:
        code, replay_path, violation = confirm(pool, mod, prop, tier, violation, reserve, verbose)
        if code == 0:
            errors.append({'seed': violation['seed'], 'msg': 'violation did not reproduce: '
                           + violation['key'] + ': ' + violation['msg']})
    if det_bad:
        errors.append({'seed': det_bad, 'msg': 'determinism self-test failed'})
    wall = real() - t0
    per_hour = lambda n: int(n / max(explore_s, 0.001) * 3600)
    faults = {a[6:]: b for a, b in sorted(agg['stats'].items()) if a.startswith('fault.')}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed0, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(nontrivial),
            'rule': getattr(mod, 'RULE', '') or (
                'one evaluation is one simulated run of a seed; two runs are distinct if the hash '
                'of their event log (every operation start/end, rpc, fault and crash, with the '
                'task it happened in, in order) differs; non-trivial means that at least one fault '
                'was injected, a source-level preemption happened, or tasks were switched more '
                'than 20 times'),
            'samples': samples,
            'runs': runs, 'seeds': len(hashes) and nxt, 'runs_per_hour': per_hour(runs),
            'simulated_seconds': round(sim_s, 3),
            'simulated_seconds_per_hour': per_hour(sim_s),
            'scheduler_steps': steps, 'task_switches': switches,
            'source_preemptions': preempts,
            'distinct_event_logs': len(hashes), 'distinct_histories': len(hists),
            'faults_injected': faults,
            'rpcs': {a: b for a, b in sorted(agg['stats'].items()) if not a.startswith('fault.')},
            'probes': dict(sorted(agg['probes'].items())),
            'outcomes': agg['status'],
            'determinism_selftest': {'seeds_run_twice': len(det_first), 'mismatches': det_bad},
            'real_components': getattr(mod, 'REAL', []),
            'stub_components': getattr(mod, 'STUB', []),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': 1 if code else 0,
    }
    if errors:
        ev['coverage']['harness_errors'] = [
            {'seed': e['seed'], 'msg': e['msg'][-1500:]} for e in errors[:5]]
        ev['coverage']['harness_error_count'] = len(errors)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for e in known:
        if e['id'] in seen_known:
            print(f'KNOWN-FINDING: property={prop} {e["what"]}')
    print(f'{prop}: {runs} runs in {wall:.1f}s, {len(nontrivial)} distinct non-trivial, '
          f'{sim_s:.0f} simulated s, {preempts} preemptions, outcomes {agg["status"]}, '
          f'faults {faults}, probes {agg["probes"]}')
    if errors:
        print(f'{prop}: {len(errors)} harness errors; first: seed {errors[0]["seed"]}\n'
              f'{errors[0]["msg"][-2500:]}')
    if code:
        print(f'{violation["key"]}: {violation["msg"][:2000]}')
        print(f'seed {violation["seed"]}')
        print(f'VIOLATION property={prop} replay={replay_path}')
        return 1
    if runs == 0 or agg['status'].get('ok', 0) < max(1, runs // 4):
        # nothing was really explored: say so rather than claim success
        print(f'{prop}: too few conclusive runs')
        return 2
    return 0


def confirm(pool, mod, prop, tier, v, budget_s, verbose):
    """Re-runs a violation, minimises it, replays the file in a fresh process."""
    again = pool.map([{'seed': v['seed'], 'choices': v['choices']} for _ in range(2)])
    if not all(same(r, v['key']) and r['hash'] == v['hash'] for r in again):
        return 0, None, v
    small = minimise(pool, v['seed'], v['choices'], v['key'], budget_s)
    for choices, name in ((small, 'min'), (v['choices'], 'full')):
        res = pool.map([{'seed': v['seed'], 'choices': choices, 'trace': True}])[0]
        if not same(res, v['key']):
            continue
        path = save_replay(prop, res, choices, tier,
                           f'{res["key"].replace(" ", "-").replace("/", "-")[:60]}-{v["seed"]}-{name}')
        p = subprocess.run(replay_cmd(path), capture_output=True, text=True, cwd=VERIF)
        if p.returncode == 1 and 'reproduced exactly' in p.stdout:
            return 1, path, res
    return 0, None, v


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--secs', type=float)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SIM_JOBS', os.cpu_count() or 8)))
    ap.add_argument('--replay')
    ap.add_argument('--one', type=int, help='run a single seed in the foreground with its trace')
    ap.add_argument('-v', action='count', default=0)
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    mod = importlib.import_module(f'checks.{a.property.lower()}')
    if a.replay:
        return do_replay(mod, a.property, a.replay, a.tier)
    if a.one is not None:
        res = Pool(mod, a.property, a.tier, 1).map([{'seed': a.one, 'trace': True, 'cap': 600}])[0]
        for line in res.get('trace') or []:
            print(line)
        for line in res.get('ops') or []:
            print('  ', line)
        for x in ('trace', 'ops', 'choices'):
            res.pop(x, None)
        print(json.dumps(res, indent=1))
        return 0
    secs = a.secs or (getattr(mod, 'QUICK_S', 75) if a.tier == 'quick'
                      else getattr(mod, 'THOROUGH_S', 600))
    runs = a.runs or (1 << 60)
    return run_check(mod, a.property, a.tier, a.seed, secs, runs, a.jobs, a.v)
