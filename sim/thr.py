"""Properties of the parts threads share, decided by the thread simulator (thrsim.cpp)."""
import json, os, queue, subprocess, sys, threading, time
import build, core

REAL = ['the classes under test and everything they call, compiled from /repo with compiler instrumentation (every '
        'memory access and atomic operation is a scheduling point), running on real threads one at a time',
        'C++ standard library']
STUBS = ['thread scheduling, mutexes, shared mutexes, condition variables, once flags, guards of static variables, '
         'futexes, semaphores, sleeping: the simulator\'s', 'clock: virtual', 'malloc/free: the simulator\'s (never reuses '
         'memory, so that uses after free are seen; failures injected where the scenario says so)']
ASSUME = ['Executions are sequentially consistent; missing synchronisation shows as a violation of happens-before order '
          '(vector clocks), not as weak memory behaviour.']


class T:
    def __init__(self, name, builder, scenarios, quick, thorough, rule):
        self.name, self.builder, self.scenarios = name, builder, scenarios
        self.quick, self.thorough, self.rule = quick, thorough, rule


RULE = 'distinct = hash of the order of all synchronisation operations and thread switches of a run; every run has 2 to 6 threads'
PROPS = {t.name: t for t in [
    T('T01', build.build_thr_core, ['sem', 'signal'], 120000, 4000000, RULE),
    T('T02', build.build_thr_core, ['objlock', 'objlock_mem', 'objlock_apart'], 27000, 900000, RULE),
    T('T03', build.build_thr_core, ['lazy'], 120000, 4000000, RULE),
    T('T04', build.build_thr_core, ['respool', 'respool_mem'], 48000, 1500000, RULE),
    T('T05', build.build_thr_full, ['registry', 'registry_mem'], 36000, 1200000, RULE),
]}
BUILDS = [build.build_thr_core, build.build_thr_full]
COUNTS = ['runs', 'steps', 'switches', 'blocks', 'spurious', 'jumps', 'timeouts', 'allocfail', 'accesses', 'atomics', 'vtime']


class Sim:
    def __init__(self, exe, cpu):
        self.p = subprocess.Popen([exe, str(cpu)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, line):
        self.p.stdin.write((line + '\n').encode())
        self.p.stdin.flush()
        out = []
        while True:
            x = self.p.stdout.readline()
            if not x:
                raise RuntimeError('thread simulator ended: %s' % self.p.poll())
            x = x.decode(errors='replace').rstrip('\n')
            if x == 'end':
                return out
            out.append(x)

    def one(self, line):
        o = self.ask(line)
        f = o[0].split()
        n = next(i for i, x in enumerate(o) if x.startswith('note '))
        return {'rc': int(f[1]), 'hash': f[2], 'steps': int(f[3]), 'switches': int(f[4]), 'threads': int(f[5]),
                'msg': o[1][4:], 'dev': o[2].split()[2:], 'notes': [x for x in o[n + 1:] if x]}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def cpus():
    c = sorted(os.sched_getaffinity(0))
    n = int(os.environ.get('VERIF_JOBS', '0')) or min(8, len(c))
    return [c[k % len(c)] for k in range(n)]


def vclass(msg):
    return msg.split(':')[0]


def replay(name, path):
    """Returns (violation text or None, hash, recorded hash)."""
    rec = json.load(open(path))
    s = Sim(PROPS[name].builder(), cpus()[0])
    try:
        r = s.one('R %s %d 0 %s' % (rec['scenario'], rec['seed'], ' '.join(rec['decisions'])))
        return (r['msg'] if r['rc'] == 1 else None), r['hash'], rec['hash']
    finally:
        s.close()


def minimise(s, scen, seed, dev, want, budget):
    """Fewer decisions that deviate from plain round-robin, same kind of violation."""
    t0 = time.time()
    runs = 0

    def bad(d):
        nonlocal runs
        runs += 1
        r = s.one('R %s %d 0 %s' % (scen, seed, ' '.join(d)))
        return r['rc'] == 1 and vclass(r['msg']) == want
    n = 2
    while len(dev) >= 1 and time.time() - t0 < budget:
        k = max(1, len(dev) // n)
        for i in range(0, len(dev), k):
            d = dev[:i] + dev[i + k:]
            if bad(d):
                dev = d
                n = max(2, n - 1)
                break
            if time.time() - t0 > budget:
                break
        else:
            if k == 1:
                break
            n = min(len(dev), n * 2)
    return dev, runs


def check(name, tier, seed):
    t0 = time.time()
    prop = PROPS[name]
    exe = prop.builder()
    t_build = time.time() - t0
    total = prop.quick if tier == 'quick' else prop.thorough
    cap = 40 if tier == 'quick' else 700
    t1 = time.time()
    batch = 100
    work = queue.Queue()
    for b in range(total // batch):
        sc = prop.scenarios[b % len(prop.scenarios)]
        work.put((sc, seed * 1000000000 + b * batch))
    tot = {}
    probes = {}
    per = {}
    hashes, viol, errs, rep = set(), [], [], [0]
    lock = threading.Lock()
    stopped = [False]

    def worker(cpu):
        s = Sim(exe, cpu)
        try:
            while not stopped[0]:
                if time.time() - t1 > cap:
                    stopped[0] = True
                    break
                try:
                    sc, sd = work.get_nowait()
                except queue.Empty:
                    break
                out = s.ask('B %s %d %d' % (sc, sd, batch))
                with lock:
                    per[sc] = per.get(sc, 0) + batch
                    for x in out:
                        if x[0] == 'h':
                            hashes.add((sc, x[2:]))
                        elif x[0] == 'r':
                            rep[0] += 1
                        elif x[0] == 'V':
                            _, sd2, msg = x.split(' ', 2)
                            viol.append((sc, int(sd2), msg))
                        elif x[0] == 'E':
                            errs.append(sc + ' ' + x)
                        elif x[0] == 't':
                            v = list(map(int, x.split()[1:]))
                            for k, n in zip(COUNTS, v):
                                tot[k] = tot.get(k, 0) + n
                            for k, n in enumerate(v[len(COUNTS):]):
                                probes[k] = probes.get(k, 0) + n
                    if len(viol) > 12:
                        stopped[0] = True
        except Exception as e:
            with lock:
                errs.append(repr(e))
        finally:
            s.close()
    ts = [threading.Thread(target=worker, args=(c,)) for c in cpus()]
    [t.start() for t in ts]
    [t.join() for t in ts]
    t_run = time.time() - t1

    code, nviol = 0, 0
    known = core.known_findings(name)
    import re
    reported = set()
    for sc, sd, msg in sorted(viol, key=lambda v: v[1]):
        k = next((txt for rx, txt in known if re.search(rx, msg)), None)
        if k:
            reported.add(k)
            continue
        nviol += 1
        if code:
            continue
        # the gate: fresh simulators show the same execution, twice, and so does the list of decisions
        a, b = Sim(exe, cpus()[0]), Sim(exe, cpus()[-1])
        try:
            r1, r2 = a.one('O %s %d' % (sc, sd)), b.one('O %s %d' % (sc, sd))
            r3 = b.one('R %s %d 0 %s' % (sc, sd, ' '.join(r1['dev'])))
            if not (r1['rc'] == r2['rc'] == r3['rc'] == 1 and r1['hash'] == r2['hash'] == r3['hash'] and r1['msg'] == r3['msg']):
                errs.append('violation %s %d did not reproduce exactly: %s / %s / %s' % (sc, sd, r1['msg'], r2['msg'], r3['msg']))
                continue
            dev, runs = minimise(b, sc, sd, r1['dev'], vclass(r1['msg']), 25 if tier == 'quick' else 120)
            rm = b.one('R %s %d 0 %s' % (sc, sd, ' '.join(dev)))
        finally:
            a.close()
            b.close()
        path = os.path.join(core.EVID, 'replay', '%s-%s-%d.json' % (name, sc, sd))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        json.dump({'property': name, 'scenario': sc, 'seed': sd, 'violation': rm['msg'], 'decisions': dev,
                   'decisions_meaning': 'STEPkindVALUE; S: thread VALUE runs on, W: spurious wake-up of thread VALUE, '
                   'T: the clock jumps VALUE microseconds, A: this allocation fails; everywhere else the running thread goes on',
                   'decisions_before_reduction': len(r1['dev']), 'reduction_runs': runs, 'hash': rm['hash'],
                   'steps': rm['steps'], 'threads': rm['threads'], 'history': rm['notes'][-60:]}, open(path, 'w'), indent=1)
        p = subprocess.run([sys.executable, os.path.join(build.SIM, 'check.py'), name, '--replay', path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 1:
            errs.append('replay of %s in a fresh process gave exit %d' % (path, p.returncode))
            continue
        code = 1
        print('VIOLATION property=%s replay=%s' % (name, path))
        print('  ' + rm['msg'])
    for rx, txt in known:
        print('KNOWN-FINDING: property=%s %s' % (name, txt))
    runs = tot.get('runs', 0)
    samples = []
    if runs:
        s = Sim(exe, cpus()[0])
        for sc in prop.scenarios:
            r = s.one('O %s %d' % (sc, seed * 1000000000))
            samples.append({'scenario': sc, 'seed': seed * 1000000000, 'threads': r['threads'], 'steps': r['steps'],
                            'switches': r['switches'], 'decisions': r['dev'][:40], 'hash': r['hash']})
        s.close()
    ev = {'property': name, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {
              'evaluations': runs, 'distinct_nontrivial': len(hashes), 'rule': prop.rule, 'samples': samples,
              'planned_cases': total, 'stopped_by_time_cap': stopped[0], 'simulated_runs': runs,
              'runs_per_hour': int(runs / max(t_run, 1e-3) * 3600), 'seeds_per_hour': int(runs / max(t_run, 1e-3) * 3600),
              'simulated_seconds': round(tot.get('vtime', 0) / 1e9, 3),
              'runs_per_scenario': per,
              'scheduling_points': tot.get('steps', 0), 'context_switches': tot.get('switches', 0),
              'memory_accesses_checked': tot.get('accesses', 0), 'atomic_operations': tot.get('atomics', 0),
              'fault_counts': {'spurious_wakeup': tot.get('spurious', 0), 'clock_jump': tot.get('jumps', 0),
                               'expired_timeouts': tot.get('timeouts', 0), 'alloc_failure': tot.get('allocfail', 0)},
              'blocked_threads': tot.get('blocks', 0), 'probes': {str(k): v for k, v in probes.items() if v},
              'determinism_reruns_identical': rep[0],
              'real_components': REAL, 'stubbed_components': STUBS, 'build_seconds': round(t_build, 1)},
          'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(core.EVID, exist_ok=True)
    tmp = os.path.join(core.EVID, name + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.rename(tmp, os.path.join(core.EVID, name + '.json'))
    print('%s %s: %d runs, %d distinct, %.1f s (+%.1f s build), violations %d'
          % (name, tier, runs, len(hashes), t_run, t_build, nviol))
    if code:
        return 1
    if errs:
        print('ERROR: ' + errs[0], file=sys.stderr)
        return 3
    return 0
