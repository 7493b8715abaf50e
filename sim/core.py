"""Running simulated executions of the whole program, judging them, reducing and reporting them.

A *case* is a JSON value that describes one execution (or a short history of them) completely:
workspace, command lines, faults by operation number, allocator behaviour, schedule.  A property
provides gen(rng, ctx) -> case and judge(case, obs, ctx) -> [violations]; this module runs cases on
eight workers, proves that a case repeats exactly, reduces a failing one and writes the evidence.
"""
import hashlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from host import Host, HostError, Proc, Alloc, OPS

VERIF = build.VERIF
EVID = os.path.join(VERIF, 'evidence')
SHM = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
KNOWN = os.path.join(VERIF, 'known_findings.txt')


# ---------------------------------------------------------------- small helpers

def norm_text(b, root=None):
    """Console text without what carries no meaning: colours, addresses, source line numbers."""
    if root:
        b = b.replace(root.encode(), b'@')
    b = re.sub(rb'\x1b\[[0-9;]*m', b'', b)
    b = re.sub(rb'call stack:.*', b'', b, flags=re.S)
    b = re.sub(rb' ?\[[\w/.\-]+\.(cpp|h):\d+\]', b'', b)
    return b


def sha(b):
    return hashlib.sha256(b).hexdigest()[:16]


def snapshot(root):
    """{relative path: bytes} of everything below root."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            try:
                with open(p, 'rb') as fh:
                    out[os.path.relpath(p, root)] = fh.read()
            except OSError:
                out[os.path.relpath(p, root)] = None
    return out


def put_files(root, files):
    for name, data in files.items():
        p = os.path.join(root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())


def clear(root):
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)


class Ctx:
    """What a worker needs: a simulator process, a scratch folder, and cached fault-free runs."""

    def __init__(self, exe, root):
        self.exe, self.root = exe, root
        os.makedirs(root, exist_ok=True)
        self.host = Host(exe)
        self.cache = {}
        self.stats = {}
        self.system = None

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def close(self):
        self.host.close()
        shutil.rmtree(self.root, ignore_errors=True)

    def restart(self):
        try:
            self.host.p.kill()
        except OSError:
            pass
        self.host = Host(self.exe)

    # -- the core library, compiled by the system under test
    def system_apl(self):
        if self.system is None:
            shared = os.path.join(os.path.dirname(self.root), 'System.apl')
            if os.path.exists(shared):
                with open(shared, 'rb') as f:
                    self.system = f.read()
                return self.system
            d = os.path.join(self.root, 'lib')
            os.makedirs(d, exist_ok=True)
            files = system_sources()
            put_files(d, files)
            (r,), _ = self.host.run(Proc(['compile', 'System/System.project'], d), timeout=60)
            p = os.path.join(d, 'System.apl')
            if not r.ok or not os.path.exists(p):
                raise SystemBroken('the core library does not compile: %s %s' % (
                    r.brief(), norm_text(r.out + r.err)[-400:].decode(errors='replace')))
            with open(p, 'rb') as f:
                self.system = f.read()
            shutil.rmtree(d)
            tmp = shared + '.%d' % os.getpid()
            with open(tmp, 'wb') as f:
                f.write(self.system)
            os.rename(tmp, shared)
        return self.system

    # -- one case
    def run_step(self, step, root, trace=True):
        procs = []
        for p in step['procs']:
            a = p.get('alloc') or {}
            for key, what in (('down', 'address order reversed'), ('gap', 'gaps between blocks'), ('reuse', 'order of reuse'),
                              ('fill', 'content of fresh and freed memory'), ('pad', 'start of the stack moved'),
                              ('base', 'placed across a multiple of 2^32 or 2^31'),
                              ('align', 'blocks at round addresses')):
                if a.get(key):
                    self.count('fault:heap ' + what)
            if p.get('dirseed'):
                self.count('fault:directory order')
            procs.append(Proc(list(p['args']), os.path.join(root, p.get('cwd', '')).rstrip('/'), root,
                              Alloc(**a), [tuple(f) for f in p.get('faults', [])],
                              p.get('dirseed', 0), p.get('rndseed', 1), p.get('pid', 1000),
                              p.get('maxops', 200000), p.get('pipe', 0)))
        res, sched = self.host.run(procs, trace=trace, sched_seed=step.get('sched', 1),
                                   runs=step.get('runs', []), timeout=step.get('timeout', 60))
        self.count('runs')
        self.count('processes', len(res))
        for r in res:
            self.count('sim_ops', r.nops)
            self.count('end:' + r.kind)
            for t in r.trace:
                if t[1]:
                    self.count('fault:%s@%s' % (FAULT_NAMES.get(t[1], t[1]), t[0]))
            if r.kind == 'crash':
                self.count('fault:crash')
            if r.fired_alloc:
                self.count('fault:alloc_failure', r.fired_alloc)
        return res, sched

    def execute(self, case, trace=True):
        """Runs a case from a clean scratch folder; returns the observations."""
        root = os.path.join(self.root, 'r')
        os.makedirs(root, exist_ok=True)
        files = self.files_of(case['files'])          # may itself run executions in this folder
        more = [self.files_of(step.get('files', {})) for step in case['steps']]
        clear(root)
        put_files(root, files)
        obs = Obs(root)
        for step, extra in zip(case['steps'], more):
            put_files(root, extra)
            if 'cut' in step:                 # a torn file: only the first n bytes survived
                name, n = step['cut']
                with open(os.path.join(root, name), 'r+b') as f:
                    f.truncate(n)
            if 'remove' in step:
                for name in step['remove']:
                    p = os.path.join(root, name)
                    if os.path.exists(p):
                        os.unlink(p)
            if 'procs' not in step:
                continue
            before = snapshot(root)
            try:
                res, sched = self.run_step(step, root, trace)
            except HostError:
                self.restart()
                raise
            obs.steps.append(StepObs(res, sched, before, snapshot(root)))
        return obs

    def files_of(self, spec):
        out = {}
        for name, data in spec.items():
            out[name] = self.system_apl() if data == '@System' else data
        return out


class SystemBroken(Exception):
    pass


class StepObs:
    def __init__(self, res, sched, before, after):
        self.res, self.sched, self.before, self.after = res, sched, before, after


class Obs:
    def __init__(self, root):
        self.root = root
        self.steps = []

    @property
    def last(self):
        return self.steps[-1]

    def digest(self):
        """Everything observable, and the whole operation trace, as one value."""
        h = hashlib.sha256()
        for s in self.steps:
            for r in s.res:
                h.update(repr((r.kind, r.code, r.nops, r.nalloc, r.fired, r.heap)).encode())
                h.update(norm_text(r.out, self.root) + b'\0' + norm_text(r.err, self.root))
                for t in r.trace:
                    h.update(repr((t[0], t[1], t[2].replace(self.root, '@'), t[4], t[5] >= 0)).encode())
            h.update(s.sched.encode())
            for n in sorted(s.after):
                h.update(n.encode() + b'\0' + (s.after[n] or b'') + b'\0')
        return h.hexdigest()[:24]


FAULT_NAMES = {1: 'eintr', 2: 'eio', 3: 'enospc', 4: 'short', 5: 'crash_before', 6: 'crash_after',
               7: 'torn', 8: 'eacces', 9: 'emfile', 10: 'epipe', 11: 'enoent', 12: 'diskfull',
               13: 'edquot', 14: 'enomem'}


def system_sources():
    base = os.path.join(build.SRC, 'core_lib', 'System')
    out = {}
    for d, _, files in os.walk(base):
        for f in files:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out['System/' + os.path.relpath(p, base)] = fh.read()
    return out


# ---------------------------------------------------------------- workers

def _worker(args):
    prop_name, exe, root, seed, ids, deadline = args
    import props
    prop = props.get(prop_name)
    out = dict(done=0, stats={}, viol=[], sigs=[], samples=[], repeated=0, error=None, stopped=False,
               classes={})
    ctx = None
    try:
        ctx = prop.context(exe, root)
        for n in ids:
            if time.time() > deadline:
                out['stopped'] = True
                break
            rng = random.Random('%s/%d/%d' % (prop_name, seed, n))
            case = prop.gen(rng, ctx, n)
            if case is None:
                continue
            obs = ctx.execute(case)
            v = prop.judge(case, obs, ctx)
            out['done'] += 1
            sig = prop.signature(case, obs)
            out['sigs'].append(sig)
            c = prop.classify(case, obs)
            out['classes'][c] = out['classes'].get(c, 0) + 1
            if len(out['samples']) < 2:
                out['samples'].append(prop.describe(case, obs))
            if n % prop.repeat_every == 0 and not v:
                o2 = ctx.execute(case)
                if o2.digest() != obs.digest():
                    out['error'] = 'case %d does not repeat: %s' % (n, json.dumps(prop.brief_case(case))[:800])
                    break
                out['repeated'] += 1
            if v:
                out['viol'].append((n, case, v))
                if len(out['viol']) >= 3:
                    break
    except SystemBroken as e:
        out['viol'].append((-1, None, ['baseline: ' + str(e)]))
    except Exception:
        out['error'] = traceback.format_exc()
    finally:
        if ctx:
            out['stats'] = ctx.stats
            ctx.close()
    return out


def known_findings(prop):
    out = []
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                m = re.match(r'known: property=\S+ match=/(.*?)/ (.*)', line)
                out.append((m.group(1), m.group(2)))
    except OSError:
        pass
    return out


def vclass(v):
    """The kind of a violation, for reduction: its text up to the first colon."""
    return v.split(':')[0]


def minimise(prop, ctx, case, want, budget=60.0):
    """Greedy reduction: a smaller case that still shows a violation of the same kind."""
    t0 = time.time()
    tries = 0
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for c in prop.reductions(case):
            if time.time() - t0 > budget:
                break
            tries += 1
            try:
                v = prop.judge(c, ctx.execute(c), ctx)
            except Exception:                   # a reduction that makes no sense
                continue
            if any(vclass(x) == want for x in v):
                case, changed = c, True
                break
    return case, tries


def packed(x):
    """A case as JSON holds it: bytes are text in latin-1, marked as such."""
    if isinstance(x, bytes):
        return {'$bytes': x.decode('latin-1')}
    if isinstance(x, dict):
        return {k: packed(v) for k, v in x.items()}
    return [packed(v) for v in x] if isinstance(x, (list, tuple)) else x


def unpacked(x):
    if isinstance(x, dict):
        return x['$bytes'].encode('latin-1') if set(x) == {'$bytes'} else {k: unpacked(v) for k, v in x.items()}
    return [unpacked(v) for v in x] if isinstance(x, list) else x


def replay_file(prop_name, path, quiet=False):
    """Runs a replay file in a fresh simulator; returns (violations, digest, recorded digest)."""
    import props
    rec = json.load(open(path))
    prop = props.get(prop_name)
    exe = prop.build()
    base = tempfile.mkdtemp(prefix='vsim.', dir=SHM)
    ctx = prop.context(exe, os.path.join(base, 'w0'))
    try:
        case = prop.load(unpacked(rec['case']))
        obs = ctx.execute(case)
        v = prop.judge(case, obs, ctx)
        return v, obs.digest(), rec.get('digest')
    finally:
        ctx.close()
        shutil.rmtree(base, ignore_errors=True)


def check(prop_name, tier, seed):
    import props
    t0 = time.time()
    prop = props.get(prop_name)
    exe = prop.build()
    t_build = time.time() - t0
    total = prop.quick if tier == 'quick' else prop.thorough
    cap = prop.quick_cap if tier == 'quick' else prop.thorough_cap
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 8)
    base = tempfile.mkdtemp(prefix='vsim.', dir=SHM)
    os.chmod(base, 0o755)
    t1 = time.time()
    try:
        deadline = t1 + cap
        tasks = [(prop_name, exe, os.path.join(base, 'w%d' % k), seed, list(range(k, total, jobs)), deadline)
                 for k in range(jobs)]
        with mp.get_context('fork').Pool(jobs) as pool:
            outs = pool.map(_worker, tasks, chunksize=1)
        errs = [o['error'] for o in outs if o['error']]
        viol = sorted((v for o in outs for v in o['viol']), key=lambda x: x[0])
        code = 0
        nviol = 0
        known = known_findings(prop_name)
        reported = set()
        for n, case, vs in viol:
            new = []
            for v in vs:
                k = next((txt for rx, txt in known if re.search(rx, v)), None)
                if k:
                    if k not in reported:
                        print('KNOWN-FINDING: property=%s %s' % (prop_name, k))
                        reported.add(k)
                else:
                    new.append(v)
            if not new:
                continue
            nviol += 1
            if code == 1:
                continue
            path = os.path.join(EVID, 'replay', '%s-%d-%d.json' % (prop_name, seed, n))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if case is None:
                json.dump({'property': prop_name, 'seed': seed, 'violation': new,
                           'note': 'the tree cannot compile its own core library; every run starts from it'},
                          open(path, 'w'), indent=1)
                code = 1
                print('VIOLATION property=%s replay=%s' % (prop_name, path))
                for v in new:
                    print('  ' + v)
                continue
            # the gate: a fresh simulator must show the same violation with the same execution, twice
            ctx = prop.context(exe, os.path.join(base, 'wg'))
            try:
                o1 = ctx.execute(case)
                v1 = prop.judge(case, o1, ctx)
                d1 = o1.digest()
                d2 = ctx.execute(case).digest()
                if not v1 or d1 != d2:
                    errs.append('violation of case %d did not reproduce exactly (%s)' % (n, new[:1]))
                    continue
                case, tries = minimise(prop, ctx, case, vclass(new[0]),
                                       45.0 if tier == 'quick' else 180.0)
                obs = ctx.execute(case)
                vf = prop.judge(case, obs, ctx)
                rec = {'property': prop_name, 'seed': seed, 'index': n, 'violation': vf or new,
                       'digest': obs.digest(), 'reduction_runs': tries,
                       'describe': prop.describe(case, obs), 'case': packed(prop.dump(case)),
                       'trace': prop.trace_text(case, obs)}
                with open(path, 'w') as f:
                    json.dump(rec, f, indent=1)
            finally:
                ctx.close()
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'sim', 'check.py'), prop_name,
                                '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 1:
                errs.append('replay of %s in a fresh process gave exit %d' % (path, p.returncode))
                continue
            code = 1
            print('VIOLATION property=%s replay=%s' % (prop_name, path))
            for v in (vf or new)[:6]:
                print('  ' + v)
        for rx, txt in known:
            if txt not in reported:
                print('KNOWN-FINDING: property=%s %s' % (prop_name, txt))
        done = sum(o['done'] for o in outs)
        stats = {}
        classes = {}
        for o in outs:
            for k, v in o['stats'].items():
                stats[k] = stats.get(k, 0) + v
            for k, v in o['classes'].items():
                classes[k] = classes.get(k, 0) + v
        wall = time.time() - t1
        sigs = set(s for o in outs for s in o['sigs'])
        nontrivial = set(s for s in sigs if not str(s).startswith('trivial'))
        ev = {
            'property': prop_name, 'tier': tier, 'seed': seed, 'level': prop.level,
            'coverage': {
                'evaluations': done,
                'distinct_nontrivial': len(nontrivial),
                'rule': prop.rule,
                'samples': [s for o in outs for s in o['samples']][:6],
                'planned_cases': total,
                'stopped_by_time_cap': any(o['stopped'] for o in outs),
                'simulated_runs': stats.get('runs', 0),
                'runs_per_hour': int(stats.get('runs', 0) / max(wall, 0.001) * 3600),
                'seeds_per_hour': int(done / max(wall, 0.001) * 3600),
                'simulated_seconds': prop.sim_seconds(stats),
                'simulated_operations': stats.get('sim_ops', 0),
                'fault_counts': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
                'outcomes': classes,
                'process_ends': {k[4:]: v for k, v in sorted(stats.items()) if k.startswith('end:')},
                'probes': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe:')},
                'determinism_reruns_identical': sum(o['repeated'] for o in outs),
                'real_components': prop.real,
                'stubbed_components': prop.stubs,
            },
            'assumptions': prop.assumptions,
            'wall_s': round(time.time() - t0, 2),
            'violations': nviol,
        }
        ev['coverage']['build_seconds'] = round(t_build, 1)
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, prop_name + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.rename(tmp, os.path.join(EVID, prop_name + '.json'))
        print('%s %s: %d cases, %d runs, %d distinct, %.1f s (+%.1f s build), faults %d, violations %d'
              % (prop_name, tier, done, stats.get('runs', 0), len(nontrivial), wall, t_build,
                 sum(ev['coverage']['fault_counts'].values()), nviol))
        if code == 1:
            return 1
        if errs:
            print('ERROR: ' + errs[0], file=sys.stderr)
            return 3
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)
