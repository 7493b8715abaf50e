"""The properties, each as: how executions are generated, and what every one of them must satisfy."""
import copy, json, random
import build, core, objs, progs, ws as W
from core import Ctx, norm_text

REAL = ['all 65 translation units of the april executable (compiler, assembly writer and reader, loader, '
        'interpreter, runtime library, command line) compiled from /repo, running unchanged',
        'the core library System, compiled by the code under test',
        'C and C++ standard libraries, boost.filesystem, the kernel file system below the seam (tmpfs scratch)']
STUBS = ['system calls on files, directories, descriptors, pid, randomness and exit: trapped, numbered, '
         'scheduled and failed by the simulator',
         'malloc/free: the simulator\'s arena (address order, gaps, reuse, fill bytes, failures, canaries)',
         'clock: simulated', 'console: simulated descriptor 1 and 2 (character device or pipe)']
ASSUME = ['A crash is the end of the process at a system call boundary or in the middle of a write; what was '
          'written before survives (page cache), so power loss without fsync is not modelled.',
          'Faults are injected at system calls of the april process on its workspace and console, not on '
          'shared libraries and locale files it loads at start.']


# ---------------------------------------------------------------- workspaces with history

def spec(kind, v, old=None, cmd='compile', opt=0, broken=None):
    return {'kind': kind, 'v': v, 'old': old, 'cmd': cmd, 'opt': opt}


OLDKIND = {'broken': 'multi', 'brokensol': 'solution', 'brokentwo': 'twosol', 'brokendot': 'dot',
           'brokenlarge': 'large'}
OLDKIND.update({'brokenx%d' % n: 'multi' for n in range(len(W.ERRORS))})


def opt_args(s):
    return ['-O', str(s['opt'])] if s.get('opt') else []


def base_case(s):
    """The fault-free case of a workspace spec."""
    w = W.ws(s['kind'], s['v'])
    files = dict(w.files)
    if s.get('old') is not None:
        for t in w.targets:
            files[t] = '@apl:%s:%d:%s' % (OLDKIND.get(s['kind'], s['kind']), s['old'], t)
    return {'ws': s, 'files': files,
            'steps': [{'procs': [{'args': [s['cmd']] + opt_args(s) + w.args}]}]}


class SimCtx(Ctx):
    def __init__(self, exe, root):
        super().__init__(exe, root)
        self.base = {}

    def files_of(self, sp):
        out = {}
        for name, data in sp.items():
            if data == '@System':
                data = self.system_apl()
            elif isinstance(data, str) and data.startswith('@apl:'):
                _, kind, v, t = data.split(':')
                data = self.baseline(spec(kind, int(v)))['after'][t]
            out[name] = data
        return out

    def baseline(self, s):
        """The fault-free execution of a spec: trace, result, files afterwards."""
        key = json.dumps(s, sort_keys=True)
        if key not in self.base:
            case = base_case(s)
            files = self.files_of(case['files'])      # may recurse into execute()
            case['files'] = files
            o = self.execute(case)
            r = o.last.res[0]
            w = W.ws(s['kind'], s['v'])
            self.base[key] = {'res': r, 'after': o.last.after, 'before': o.last.before, 'root': o.root,
                              'ws': w, 'trace': r.trace}
        return self.base[key]


def local_ops(root, trace, std=False, want=None):
    """Operation numbers on the workspace (and the console)."""
    out = []
    for n, t in enumerate(trace):
        if t[2].startswith(root) or (std and t[2] in ('<stdout>', '<stderr>')):
            if want is None or want(t):
                out.append(n)
    return out


def written_paths(trace):
    return {t[2] for t in trace if (t[0] == 'write' and t[5] > 0 and not t[2].startswith('<')) or t[0] == 'rename'}


def check_baseline(b, cmd):
    """The fault-free run must do what the sources say; anything else is a violation by itself."""
    r, w = b['res'], b['ws']
    v = []
    if not r.ok:
        v.append('baseline: a fault-free %s of workspace %s ended with %s: %s' % (
            cmd, w.kind, r.brief(), norm_text(r.out + r.err)[-300:].decode(errors='replace')))
        return v
    if cmd == 'run' and r.out != w.stdout:
        v.append('baseline: a fault-free run of workspace %s printed %r, expected %r' % (
            w.kind, r.out[-200:], w.stdout[-200:]))
    for t in w.targets:
        if not b['after'].get(t):
            v.append('baseline: a fault-free %s of workspace %s left no %s' % (cmd, w.kind, t))
    return v


class Prop:
    name = ''
    level = 'fault_enumeration'
    quick, thorough = 1600, 40000
    quick_cap, thorough_cap = 45, 700
    repeat_every = 40
    drop_steps = True           # whether a history without one of its steps still is one
    real, stubs, assumptions = REAL, STUBS, ASSUME
    rule = ''

    def build(self):
        return build.build_simhost()

    def context(self, exe, root):
        return SimCtx(exe, root)

    def brief_case(self, case):
        return {k: v for k, v in case.items() if k != 'files'}

    def describe(self, case, obs):
        return {'case': self.brief_case(case),
                'ends': [[r.brief() for r in s.res] for s in obs.steps],
                'injected': [[core.FAULT_NAMES.get(t[1], '?') + '@' + t[0] + ':' + t[2].replace(obs.root, '@')
                              for r in s.res for t in r.trace if t[1]] for s in obs.steps]}

    def load(self, c):
        return c

    def dump(self, c):
        return c

    def classify(self, case, obs):
        return ' '.join(r.brief() for s in obs.steps for r in s.res)

    def signature(self, case, obs):
        parts = []
        hit = False
        for s in obs.steps:
            for r in s.res:
                fired = [(core.FAULT_NAMES.get(t[1], '?'), n) for n, t in enumerate(r.trace) if t[1]]
                if fired or r.kind == 'crash' or r.fired_alloc:
                    hit = True
                parts.append((fired, r.kind, r.code, r.nops, r.fired_alloc))
        return ('' if hit else 'trivial ') + core.sha(repr((case.get('ws'), parts)).encode())

    def trace_text(self, case, obs):
        out = []
        for k, s in enumerate(obs.steps):
            for j, r in enumerate(s.res):
                out.append('step %d process %d: %s, %d operations, %s' % (k, j, ' '.join(
                    case['steps'][min(k, len(case['steps']) - 1)].get('procs', [{}] * (j + 1))[j].get('args', [])
                    if 'procs' in case['steps'][min(k, len(case['steps']) - 1)] else []), r.nops, r.brief()))
                for n, t in enumerate(r.trace):
                    if t[1] or (t[2].startswith(obs.root) and t[0] in ('write', 'rename', 'unlink', 'sync')):
                        out.append('  #%d %s %s size=%d ret=%d%s' % (
                            n, t[0], t[2].replace(obs.root, '@'), t[4], t[5],
                            ' FAULT ' + core.FAULT_NAMES.get(t[1], '?') if t[1] else ''))
        return out[:400]

    def sim_seconds(self, stats):
        return round(stats.get('sim_ops', 0) * 0.001, 1)

    def reductions(self, case):
        for k, step in enumerate(case['steps']):
            if self.drop_steps and len(case['steps']) > 1 and 'procs' in step:
                c = copy.deepcopy(case)
                del c['steps'][k]
                if any('procs' in s for s in c['steps']):
                    yield c
            for j, p in enumerate(step.get('procs', [])):
                for i in range(len(p.get('faults', []))):
                    c = copy.deepcopy(case)
                    del c['steps'][k]['procs'][j]['faults'][i]
                    yield c
                if p.get('alloc') and (set(p['alloc']) - {'fail_at', 'fail_n'}):
                    c = copy.deepcopy(case)
                    a = p['alloc']
                    c['steps'][k]['procs'][j]['alloc'] = {x: a[x] for x in ('fail_at', 'fail_n') if x in a}
                    yield c
                for f in ('dirseed', 'pipe', 'pid', 'rndseed'):
                    if p.get(f):
                        c = copy.deepcopy(case)
                        del c['steps'][k]['procs'][j][f]
                        yield c


KILL = ['crash_before', 'crash_after', 'torn']
WERR = ['eio', 'enospc', 'edquot', 'short', 'eintr', 'diskfull', 'eio+', 'enospc+']


def pick_param(rng, t):
    size = max(t[4], 0)
    return rng.choice([0, 1, size // 2, max(size - 1, 0), rng.randrange(size + 1)])


def kind_for(rng, t, kinds):
    """A fault kind that makes sense at the operation t."""
    op = t[0]
    ok = {'write': ['eio', 'enospc', 'edquot', 'short', 'eintr', 'diskfull', 'torn', 'eio+', 'enospc+', 'enomem'],
          'read': ['eio', 'eintr', 'short', 'eio+', 'enomem'],
          'open': ['eacces', 'emfile', 'enoent', 'eio', 'enospc', 'eintr', 'eacces+', 'enomem'],
          'close': ['eio', 'enospc', 'eintr', 'edquot'],
          'seek': ['eio'], 'stat': ['eacces', 'enoent', 'eio', 'enomem'], 'dir': ['eio', 'enomem'],
          'rename': ['eio', 'eacces', 'enospc', 'enoent'], 'unlink': ['eio', 'eacces'],
          'sync': ['eio', 'enospc']}.get(op, ['eio'])
    c = [k for k in kinds if k in ok or k in ('crash_before', 'crash_after')]
    return rng.choice(c) if c else None


ALL_ERR = ['eio', 'enospc', 'edquot', 'short', 'eintr', 'diskfull', 'eio+', 'enospc+', 'eacces', 'emfile',
           'enoent', 'eacces+', 'enomem']


def output_zone(b):
    """Operations from the first one that creates an output to the last on it."""
    wp = written_paths(b['trace'])
    return [n for n, t in enumerate(b['trace']) if t[2] in wp]


def injected(r):
    return any(t[1] for t in r.trace) or r.fired_alloc or r.kind == 'crash'


def std_ends(r, what):
    """Ends no fault justifies."""
    if r.kind == 'signal':
        return ['abort: %s ended by signal %d' % (what, r.code)]
    if r.kind in ('timeout', 'toolong'):
        return ['hang: %s did not end (%s, %d operations)' % (what, r.kind, r.nops)]
    return []


class WorkspaceProp(Prop):
    kinds = ['single', 'multi', 'project', 'solution', 'outdir', 'twoproj', 'large', 'twosol']
    weights = [4, 2, 2, 4, 2, 2, 2, 2]
    cmds = ['compile', 'run']

    def pick(self, rng, old=True):
        kind = rng.choices(self.kinds, self.weights)[0]
        return spec(kind, rng.choice([2, 5]), rng.choice([None, 1]) if old else None,
                    rng.choice(self.cmds), rng.choice([0, 0, 0, 2]))

    def nfaults(self, rng):
        return rng.choice([1, 1, 1, 1, 2, 2, 3])

    def old_new(self, case, ctx):
        b = ctx.baseline(case['ws'])
        w = b['ws']
        return {t: (b['before'].get(t), b['after'].get(t)) for t in w.targets}

    def env(self, rng, p):
        if rng.random() < .3:
            p['rndseed'] = rng.randrange(1, 1 << 30)
        if rng.random() < .2:
            p['dirseed'] = rng.randrange(1, 1 << 30)
        if rng.random() < .2:
            p['pipe'] = 1


class A01(WorkspaceProp):
    name = 'A01'
    quick, thorough = 3000, 60000
    rule = ('distinct = (workspace, operation number and kind of every injected fault, how the process ended); '
            'nontrivial = at least one fault or crash was injected')

    def gen(self, rng, ctx, n):
        s = self.pick(rng)
        b = ctx.baseline(s)
        case = base_case(s)
        p = case['steps'][0]['procs'][0]
        self.env(rng, p)
        zone = output_zone(b)
        ops = local_ops(b['root'], b['trace'])
        fl = []
        mode = rng.choice(['kill', 'kill', 'err', 'err', 'mixed'])
        for _ in range(self.nfaults(rng)):
            if not ops:
                break
            at = rng.choice(zone) if zone and rng.random() < .75 else rng.choice(ops)
            kinds = KILL if mode == 'kill' else ALL_ERR if mode == 'err' else KILL + ALL_ERR
            k = kind_for(rng, b['trace'][at], kinds)
            if k:
                fl.append([at, k, pick_param(rng, b['trace'][at])])
        p['faults'] = sorted(fl)
        return case

    def judge(self, case, obs, ctx):
        b = ctx.baseline(case['ws'])
        v = check_baseline(b, case['ws']['cmd'])
        if v:
            return v
        r = obs.last.res[0]
        for t, (old, new) in self.old_new(case, ctx).items():
            now = obs.last.after.get(t)
            if now is None and old is None:
                ctx.count('probe:target absent as before')
            elif now == new:
                ctx.count('probe:target is the new assembly')
            elif now == old:
                ctx.count('probe:target is the previous assembly')
            elif now is None:
                v.append('lost: %s is gone; the previous assembly had %d bytes (process: %s)' % (
                    t, len(old), r.brief()))
            else:
                v.append('torn: %s has %d bytes that are neither the previous assembly (%s) nor the new one (%d bytes), '
                         'after %s' % (t, len(now), 'none' if old is None else '%d bytes' % len(old), len(new), r.brief()))
        return v


class A02(WorkspaceProp):
    name = 'A02'
    quick, thorough = 2600, 60000
    rule = A01.rule

    def gen(self, rng, ctx, n):
        s = self.pick(rng)
        b = ctx.baseline(s)
        case = base_case(s)
        p = case['steps'][0]['procs'][0]
        self.env(rng, p)
        zone = output_zone(b)
        fl = []
        if zone and rng.random() > .03:
            first = rng.random() < .5
            for _ in range(self.nfaults(rng)):
                ws = [n for n in zone if b['trace'][n][0] == 'write']
                at = rng.choice(ws if first and ws else zone)
                k = kind_for(rng, b['trace'][at], ALL_ERR)
                if k:
                    fl.append([at, k, pick_param(rng, b['trace'][at])])
        p['faults'] = sorted(fl)
        return case

    def judge(self, case, obs, ctx):
        b = ctx.baseline(case['ws'])
        v = check_baseline(b, case['ws']['cmd'])
        if v:
            return v
        r = obs.last.res[0]
        v += std_ends(r, case['ws']['cmd'])
        if any(t[1] == 11 and t[2][len(obs.root) + 1:] not in obs.last.before for t in r.trace):
            # "no such directory" is an answer: a pattern in it matches nothing
            ctx.count('probe:directory vanished')
            return v
        if r.ok:
            ctx.count('probe:success reported')
            for t, (old, new) in self.old_new(case, ctx).items():
                now = obs.last.after.get(t)
                if now != new:
                    v.append('untrue: exit status 0, but %s %s' % (
                        t, 'does not exist' if now is None else 'is still the previous assembly' if now == old
                        else 'has %d bytes that are not the assembly (%d bytes)' % (len(now), len(new))))
            if case['ws']['cmd'] == 'run' and r.out != b['ws'].stdout:
                v.append('untrue: exit status 0, but the program printed %r' % r.out[-120:])
        else:
            ctx.count('probe:failure reported')
            if not injected(r) and r.kind == 'exit':
                v.append('refused: no fault was injected, yet exit status %d' % r.code)
            if r.kind == 'exit' and not (r.out.strip() or r.err.strip()):
                v.append('silent: exit status %d without a word' % r.code)
        return v


class A03(WorkspaceProp):
    name = 'A03'
    quick, thorough = 2600, 60000
    kinds = WorkspaceProp.kinds + ['dot', 'wildproj', 'reflibs']
    weights = WorkspaceProp.weights + [2, 2, 2]
    rule = A01.rule

    def gen(self, rng, ctx, n):
        s = self.pick(rng)
        b = ctx.baseline(s)
        case = base_case(s)
        p = case['steps'][0]['procs'][0]
        self.env(rng, p)
        wp = written_paths(b['trace'])
        ops = local_ops(b['root'], b['trace'], want=lambda t: t[2] not in wp or t[0] in ('read',))
        opened = [n for n, t in enumerate(b['trace']) if t[0] == 'open' and t[5] >= 0 and t[2].startswith(b['root'])]
        # reads of assemblies written in this very run count as input too
        for n in opened:
            if b['trace'][n][2] in wp and n > max(output_zone(b)[:1] or [0]):
                ops.append(n)
        fl = []
        if ops and rng.random() > .03:
            for _ in range(self.nfaults(rng)):
                at = rng.choice(ops)
                k = kind_for(rng, b['trace'][at], ['eio', 'eintr', 'short', 'eacces', 'emfile', 'enoent', 'eio+',
                                                   'eacces+', 'enomem'])
                if k:
                    fl.append([at, k, pick_param(rng, b['trace'][at])])
        # the file ends, as far as can be seen, where a definition ends, and what follows fails to be read
        if rng.random() < .12:
            cut = []
            for n, t in enumerate(b['trace']):
                rel = t[2][len(b['root']) + 1:]
                text = b['ws'].files.get(rel)
                if t[0] != 'read' or t[5] <= 0 or t[2] in wp or not isinstance(text, str) or text.startswith('@'):
                    continue
                cut += [[n, k + 1] for k in range(min(t[5], len(text)) - 1) if text[k] in ';}' and text[k + 1] == '\n' and k + 1 < t[5]]
            if cut:
                n, k = rng.choice(cut)
                fl = [[n, 'short', k], [n + 1, rng.choice(['eio', 'eio+', 'enomem']), 0]]
        p['faults'] = sorted(fl)
        return case

    judge = A02.judge


class A05(WorkspaceProp):
    name = 'A05'
    quick, thorough = 2600, 60000
    kinds = WorkspaceProp.kinds + ['dot', 'broken', 'brokensol', 'brokentwo', 'brokendot', 'brokenlarge']
    weights = WorkspaceProp.weights + [2, 2, 2, 2, 2, 1]
    rule = A01.rule + ' or the sources hold an error'

    def gen(self, rng, ctx, n):
        s = self.pick(rng)
        if n < 2 * len(W.ERRORS) or rng.random() < .1:
            s['kind'] = 'brokenx%d' % (n % len(W.ERRORS))
        b = ctx.baseline(s)
        case = base_case(s)
        p = case['steps'][0]['procs'][0]
        self.env(rng, p)
        if s['kind'].startswith('broken') and rng.random() < .6:
            p['alloc'] = rand_alloc(rng)
        ops = local_ops(b['root'], b['trace'], std=True)
        zone = output_zone(b)
        fl = []
        if n >= len(W.ERRORS) and rng.random() > (.5 if s['kind'].startswith('broken') else .03):
            mode = rng.choice(['kill', 'err', 'err', 'err', 'mixed'])
            for _ in range(self.nfaults(rng)):
                at = rng.choice(zone) if zone and rng.random() < .5 else rng.choice(ops)
                k = kind_for(rng, b['trace'][at], KILL if mode == 'kill' else ALL_ERR if mode == 'err' else KILL + ALL_ERR)
                if k:
                    fl.append([at, k, pick_param(rng, b['trace'][at])])
        p['faults'] = sorted(fl)
        return case

    def judge(self, case, obs, ctx):
        s = case['ws']
        b = ctx.baseline(s)
        v = []
        broken = s['kind'].startswith('broken')
        if not broken:
            v += check_baseline(b, s['cmd'])
            if v:
                return v
        r = obs.last.res[0]
        w = b['ws']
        if r.escaped:
            v.append('escape: wrote outside the workspace: %s' % r.escape_path)
        before, after = obs.last.before, obs.last.after
        for n in before:
            if n in w.targets:
                continue
            if after.get(n) != before[n]:
                v.append('input: %s was %s' % (n, 'removed' if n not in after else 'changed'))
        extra = [n for n in after if n not in before and n not in w.targets]
        # a temporary file that could not be looked at or removed is not the program's fault
        tried = [t for t in r.trace if t[0] in ('unlink', 'stat') and t[1]]
        if extra and r.kind == 'exit' and not tried:
            v.append('left: %s after exit status %d' % (', '.join(extra), r.code))
        if extra and r.kind == 'crash':
            ctx.count('probe:temporary file left by a crash')
        if broken:
            if r.ok:
                v.append('accepted: exit status 0 for sources with an error')
            for t in w.errtargets:
                if after.get(t) != before.get(t):
                    v.append('replaced: %s was written although its sources have an error' % t)
            if not injected(r):
                v += std_ends(r, 'april')
                if not v and not (r.out + r.err).strip():
                    v.append('silent: sources with an error were refused without a word')
            if r.kind == 'exit' and not r.ok:
                ctx.count('probe:compile error reported')
        return v

    def signature(self, case, obs):
        x = super().signature(case, obs)
        return x.replace('trivial ', '') if case['ws']['kind'].startswith('broken') else x


class A06(WorkspaceProp):
    """Crash, restart, crash again, then a run without faults."""
    name = 'A06'
    quick, thorough = 1400, 30000
    quick_cap = 45
    kinds = WorkspaceProp.kinds + ['dot']
    weights = WorkspaceProp.weights + [3]
    rule = A01.rule

    def gen(self, rng, ctx, n):
        s = self.pick(rng)
        b = ctx.baseline(s)
        case = base_case(s)
        final = copy.deepcopy(case['steps'][0])
        steps = []
        zone, ops = output_zone(b), local_ops(b['root'], b['trace'], std=True)
        for k in range(rng.choice([1, 1, 2, 3])):
            st = copy.deepcopy(final)
            p = st['procs'][0]
            p['rndseed'] = rng.randrange(1, 1 << 30)
            p['pid'] = 1000 + rng.choice([0, k + 1])
            at = rng.choice(zone) if zone and rng.random() < .7 else rng.choice(ops)
            kk = kind_for(rng, b['trace'][at], KILL if rng.random() < .7 else ALL_ERR)
            p['faults'] = [[at, kk or 'crash_before', pick_param(rng, b['trace'][at])]]
            steps.append(st)
        final['procs'][0]['rndseed'] = rng.choice([1, steps[-1]['procs'][0]['rndseed'], rng.randrange(1, 1 << 30)])
        case['steps'] = steps + [final]
        return case

    def judge(self, case, obs, ctx):
        b = ctx.baseline(case['ws'])
        v = check_baseline(b, case['ws']['cmd'])
        if v:
            return v
        if any(p.get('faults') for p in case['steps'][-1]['procs']):
            return v
        r = obs.last.res[0]
        if not r.ok:
            return ['stuck: after %s, the same command without faults ended with %s: %s' % (
                ' and '.join(x.res[0].brief() for x in obs.steps[:-1]), r.brief(),
                norm_text(r.out + r.err)[:200].decode(errors='replace'))]
        for t, (old, new) in self.old_new(case, ctx).items():
            if obs.last.after.get(t) != new:
                v.append('differs: after recovery %s is not the assembly a clean build makes' % t)
        if case['ws']['cmd'] == 'run' and r.out != b['ws'].stdout:
            v.append('differs: after recovery the program printed %r' % r.out[-120:])
        return v


class A04(WorkspaceProp):
    """Inputs torn by an earlier crash: sources, configuration files and assemblies cut short."""
    name = 'A04'
    quick, thorough = 2600, 50000
    rule = 'distinct = (workspace, file, length that survived, how the process ended); nontrivial = the file was cut'
    kinds = ['single', 'project', 'solution', 'twoproj', 'ref', 'exec']
    weights = [4, 2, 4, 1, 4, 4]

    def gen(self, rng, ctx, n):
        s = self.pick(rng, old=False)
        if s['kind'] == 'exec':
            s['cmd'] = 'run'
        case = base_case(s)
        files = ctx.files_of(case['files'])
        name = rng.choice(sorted(files))
        size = len(files[name])
        at = rng.choice([rng.randrange(size), rng.randrange(size), 0, size - 1, max(0, size - rng.randrange(1, 40)),
                         min(size - 1, rng.randrange(64)), size // 512 * 512 if size % 512 else size - 1])
        case['steps'][0]['cut'] = [name, at]
        if rng.random() < .3:
            case['steps'][0]['procs'][0]['alloc'] = {'fill': rng.choice([1, 2, 3]), 'seed': rng.randrange(1, 1 << 30)}
        return case

    def complete(self, name, text, n):
        """Whether the first n bytes still are a complete file of its kind."""
        if name.endswith('.apl'):
            return n == len(text)
        if name.endswith('.cs'):
            # a source that ends between two definitions is a complete, other program
            cut = text[:n]
            depth = cut.count(b'{') - cut.count(b'}')
            tail = cut.rstrip()
            return depth == 0 and (not tail or tail[-1:] in b';}')
        return text[:n].rstrip() == text.rstrip()

    def judge(self, case, obs, ctx):
        b = ctx.baseline(case['ws'])
        v = check_baseline(b, case['ws']['cmd'])
        if v:
            return v
        r = obs.last.res[0]
        files = ctx.files_of(case['files'])
        if 'cut' not in case['steps'][0]:
            return v
        name, n = case['steps'][0]['cut']
        full = files[name] if isinstance(files[name], bytes) else files[name].encode()
        if self.complete(name, full, n):
            ctx.count('probe:cut between definitions')
            return v
        if r.ok:
            v.append('accepted: exit status 0 with %s cut to %d of %d bytes' % (name, n, len(full)))
        if name.endswith('.apl'):
            ctx.count('probe:torn assembly')
            v += std_ends(r, 'reading %s cut to %d of %d bytes' % (name, n, len(full)))
            if r.kind == 'exit' and r.code and not (r.out.strip() or r.err.strip()):
                v.append('silent: exit status %d without a word' % r.code)
            lines = r.out.split(b'\n')
            if b['ws'].stdout and lines and case['ws']['cmd'] == 'run' and any(
                    x and x in b['ws'].stdout.split(b'\n') for x in lines):
                v.append('ran: program output although %s was cut' % name)
        else:
            ctx.count('probe:torn source or configuration')
            if r.kind in ('timeout', 'toolong'):
                v += std_ends(r, 'compiling')
        for t in b['ws'].targets:
            if t in case['files']:
                continue
            if t in obs.last.after and obs.last.after[t] != b['after'].get(t) and len(b['ws'].targets) == 1:
                v.append('written: %s was written from a torn input' % t)
        return v

    def signature(self, case, obs):
        c = case['steps'][0].get('cut')
        r = obs.last.res[0]
        return ('' if c else 'trivial ') + repr((case['ws'], c, r.kind, r.code))

    def reductions(self, case):
        yield from super().reductions(case)
        if case['ws'].get('opt'):
            c = copy.deepcopy(case)
            c['ws']['opt'] = 0
            d = base_case(c['ws'])
            d['steps'][0]['cut'] = case['steps'][0]['cut']
            yield d


class A08(WorkspaceProp):
    """Several april processes at work in the same folder."""
    name = 'A08'
    quick, thorough = 1500, 40000
    quick_cap = 45
    kinds = WorkspaceProp.kinds + ['dot']
    weights = WorkspaceProp.weights + [4]
    rule = ('distinct = (workspace, commands, order in which the processes ran, faults, how they ended); '
            'nontrivial = the processes alternated at least twice')
    PLAN = {'lib': 'a library is rebuilt while a program is compiled against it and run',
            'exec': 'a solution is rebuilt while its program is run', 'same': 'the same command several times at once',
            'apart': 'different commands that share a folder'}

    def gen(self, rng, ctx, n):
        plan = rng.choice(['same', 'same', 'lib', 'exec', 'apart'])
        opt = 0
        o = ['-O', str(opt)] if opt else []
        files, procs = {}, []
        if plan == 'same':
            s = spec(rng.choices(self.kinds, self.weights)[0], 2, rng.choice([None, 1]), rng.choice(self.cmds))
            c = base_case(s)
            files = c['files']
            procs = [copy.deepcopy(c['steps'][0]['procs'][0]) for _ in range(rng.choice([2, 2, 3]))]
            for p in procs:
                p['spec'] = s
        elif plan == 'lib':
            old, new = 1, 2
            files = dict(W.ws('ref', old).files)
            files.update(W.ws('apps', new).files)
            cmd = rng.choice(self.cmds)
            procs = [{'args': ['compile'] + o + W.ws('apps', new).args, 'lib': new}]
            procs += [{'args': [cmd] + o + W.ws('ref', old).args, 'user': old} for _ in range(rng.choice([1, 1, 2]))]
        elif plan == 'exec':
            old, new = 1, 2
            files = dict(W.ws('exec', old).files)
            files.update(W.ws('solution', new).files)
            procs = [{'args': ['compile'] + o + W.ws('solution', new).args, 'sol': new}]
            procs += [{'args': ['run'] + W.ws('exec', old).args, 'runner': old} for _ in range(rng.choice([1, 1, 2]))]
        else:
            for kind in rng.sample(['single', 'project', 'solution', 'outdir2', 'large'], rng.choice([2, 2, 3])):
                k = kind.rstrip('2')
                s = spec(k, 2, 1, rng.choice(self.cmds), opt)
                if k == 'outdir' and any(p['spec']['kind'] == 'single' for p in procs):
                    continue
                if k == 'single' and any(p['spec']['kind'] == 'outdir' for p in procs):
                    continue
                c = base_case(s)
                files.update(c['files'])
                procs.append(dict(c['steps'][0]['procs'][0], spec=s))
        for p in procs:
            p['rndseed'] = rng.randrange(1, 1 << 30)
        for k, p in enumerate(procs):
            p['pid'] = 1000 + k
            if rng.random() < .2:
                p['dirseed'] = rng.randrange(1, 1 << 30)
        case = {'plan': plan, 'opt': opt, 'files': files, 'steps': [{'procs': procs}]}
        key = 'a08' + json.dumps([files, [p['args'] for p in procs]], sort_keys=True)
        if key not in ctx.base:
            ctx.base[key] = [ctx.execute({'files': files, 'steps': [{'procs': [{'args': p['args']}]}]}).last.res[0].trace
                             for p in procs]
        tr = ctx.base[key]
        hot = []
        for t in tr:
            wp = written_paths(t)
            hot.append([k for k, x in enumerate(t) if x[2] in wp or x[2].endswith(('.apl', '/.')) or x[0] == 'dir'
                        or (x[0] in ('open', 'stat') and 'vsim' in x[2])])
        # the schedule: every process goes on until some operation of interest, then another one does
        at = [0] * len(procs)
        runs = []
        for _ in range(rng.choice([1, 2, 3, 4, 6, 10, 25])):
            k = rng.randrange(len(procs))
            if rng.random() < .3:
                m = rng.choice([1, 2, 5])
            else:
                later = [x for x in hot[k] if x >= at[k]]
                if not later:
                    continue
                m = (rng.choice(later) if rng.random() < .6 else later[0]) - at[k] + rng.choice([0, 1, 1, 2])
            at[k] += m
            if m:
                runs.append([k, m])
        for k in rng.sample(range(len(procs)), len(procs)):
            runs.append([k, len(tr[k]) + 200])
        case['steps'][0]['runs'] = runs
        if rng.random() < .35:
            k = rng.randrange(len(procs))
            zone = [n for n in hot[k]] or [0]
            a = rng.choice(zone)
            kind = kind_for(rng, tr[k][a], rng.choice([KILL, ALL_ERR]))
            if kind:
                procs[k]['faults'] = [[a, kind, pick_param(rng, tr[k][a])]]
        return case

    def judge(self, case, obs, ctx):
        v = []
        st = obs.last
        procs = case['steps'][0]['procs']
        allowed = {}                    # target -> contents it may have in the end
        crashed = any(r.kind == 'crash' for r in st.res)
        may_fail = [bool(p.get('faults')) and injected(r) for p, r in zip(procs, st.res)]

        def target(t, old, new, sure):
            allowed.setdefault(t, [set(), True])
            allowed[t][0].add(new)
            if not sure and allowed[t][1]:
                allowed[t][0].add(old)
            elif sure:
                allowed[t][1] = False
                allowed[t][0].discard(old if old != new else None)

        for p, r, fl in zip(procs, st.res, may_fail):
            outs = None
            if 'spec' in p:
                b = ctx.baseline(p['spec'])
                v += check_baseline(b, p['spec']['cmd'])
                for t in b['ws'].targets:
                    target(t, b['before'].get(t), b['after'].get(t), not fl)
                if p['spec']['cmd'] == 'run':
                    outs = {b['ws'].stdout}
            elif 'lib' in p:
                b = ctx.baseline(spec('apps', p['lib'], None, 'compile', case['opt']))
                v += check_baseline(b, 'compile')
                target('lib.apl', st.before['lib.apl'], b['after'].get('lib.apl'), not fl)
            elif 'user' in p:
                news = [q['lib'] for q in procs if 'lib' in q]
                vs = [p['user']] + news
                bs = [ctx.baseline(spec('ref', p['user'], None, p['args'][0], case['opt']))]
                v += check_baseline(bs[0], p['args'][0])
                bs += [self.mixed(ctx, p['user'], x, p['args'][0], case['opt']) for x in news]
                if p['args'][0] == 'run':
                    outs = {self.ref_out(p['user'], x) for x in vs}
                for b in bs:
                    target('prog.apl', None, b['after'].get('prog.apl'), True)
                if fl:
                    allowed['prog.apl'][0].add(None)
            elif 'sol' in p:
                b = ctx.baseline(spec('solution', p['sol'], None, 'compile', case['opt']))
                v += check_baseline(b, 'compile')
                for t in b['ws'].targets:
                    target(t, st.before[t], b['after'].get(t), not fl)
            elif 'runner' in p:
                new = [q['sol'] for q in procs if 'sol' in q][0]
                v += check_baseline(ctx.baseline(spec('exec', p['runner'], None, 'run')), 'run')
                outs = {self.sol_out(c, a, b) for c in (p['runner'], new) for a in (p['runner'], new) for b in (p['runner'], new)}
            if v:
                return v
            what = ' '.join(p['args'])
            v += std_ends(r, what)
            if r.kind == 'exit' and not fl:
                if r.code:
                    v.append('disturbed: %s ended with exit status %d beside other processes: %s' % (
                        what, r.code, norm_text(r.out + r.err)[-200:].decode(errors='replace')))
                elif outs is not None and r.out not in outs:
                    v.append('output: %s printed %r beside other processes' % (what, r.out[-120:]))
            elif r.ok and outs is not None and r.out not in outs:
                v.append('output: %s printed %r beside other processes' % (what, r.out[-120:]))
            if r.escaped:
                v.append('escape: wrote outside the workspace: %s' % r.escape_path)
        if any(t[1] == 11 for r in st.res for t in r.trace):
            return v
        for t, (ok, _) in allowed.items():
            if st.after.get(t) not in ok:
                v.append('torn: %s is %s, after %s' % (
                    t, 'gone' if t not in st.after else 'none of the assemblies the processes made' , ', '.join(r.brief() for r in st.res)))
        for n in st.before:
            if n not in allowed and st.after.get(n) != st.before[n]:
                v.append('input: %s was changed or removed' % n)
        extra = [n for n in st.after if n not in st.before and n not in allowed]
        if extra and not crashed and not any(t[1] and t[0] in ('unlink', 'stat') for r in st.res for t in r.trace):
            v.append('left: %s' % ', '.join(extra))
        if not crashed and not any(may_fail):
            ctx.count('probe:undisturbed by each other')
        return v

    def ref_out(self, v_main, v_lib):
        _, lines = W.main_class([('L0', 0)], v_main)
        lines = list(lines)
        lines[0] = str(W.lib_get(v_lib, 0, 2))
        lines[1] = str(W.lib_m(v_lib, 0, 0, 4))
        return ''.join(x + '\n' for x in lines).encode()

    def sol_out(self, c, a, b):
        _, lines = W.main_class([('L0', 0), ('L1', 1)], c)
        lines = list(lines)
        for n, v in ((0, a), (1, b)):
            lines[2 * n] = str(W.lib_get(v, n, n + 2))
            lines[2 * n + 1] = str(W.lib_m(v, 0, n, 4))
        return ''.join(x + '\n' for x in lines).encode()

    def mixed(self, ctx, v_main, v_lib, cmd, opt):
        """The program compiled against the newer library, undisturbed."""
        key = 'mixed%r' % ((v_main, v_lib, cmd, opt),)
        if key not in ctx.base:
            files = dict(W.ws('ref', v_main).files)
            files['lib.apl'] = '@apl:apps:%d:lib.apl' % v_lib
            s = spec('ref', v_main, None, cmd, opt)
            o = ctx.execute({'files': files, 'steps': [{'procs': [{'args': [cmd] + opt_args(s) + W.ws('ref', v_main).args}]}]})
            ctx.base[key] = {'after': o.last.after, 'res': o.last.res[0]}
        return ctx.base[key]

    def signature(self, case, obs):
        sw = len(obs.last.sched.split()) - 1
        p = [(p['args'], p.get('faults'), r.kind, r.code) for p, r in zip(case['steps'][0]['procs'], obs.last.res)]
        return ('' if sw >= 2 else 'trivial ') + core.sha(repr((p, obs.last.sched)).encode())

    def reductions(self, case):
        yield from super().reductions(case)
        st = case['steps'][0]
        for i in range(len(st['procs'])):
            if len(st['procs']) > 2 and not ({'lib', 'sol'} & set(st['procs'][i])):
                c = copy.deepcopy(case)
                del c['steps'][0]['procs'][i]
                c['steps'][0]['runs'] = [[k - (k > i), m] for k, m in st['runs'] if k != i]
                yield c
        for i in range(len(st['runs'])):
            c = copy.deepcopy(case)
            del c['steps'][0]['runs'][i]
            yield c
        for i in range(len(st['runs']) - 1):
            if st['runs'][i][0] == st['runs'][i + 1][0]:
                c = copy.deepcopy(case)
                c['steps'][0]['runs'][i][1] += st['runs'][i + 1][1]
                del c['steps'][0]['runs'][i + 1]
                yield c

    def brief_case(self, case):
        return {'plan': self.PLAN[case['plan']], 'steps': case['steps']}


def glob_match(pat, name):
    """april's wildcards: * any text, ? one character."""
    if not pat:
        return not name
    if pat[0] == '*':
        return any(glob_match(pat[1:], name[k:]) for k in range(len(name) + 1))
    return bool(name) and (pat[0] == '?' or pat[0] == name[0]) and glob_match(pat[1:], name[1:])


class X01(Prop):
    """Which files a command line, project or solution means."""
    name = 'X01'
    drop_steps = False
    level = 'exploration'
    quick, thorough = 2400, 60000
    rule = ('distinct = (files, command lines, project and solution files, directory order); nontrivial = a pattern or '
            'directory was expanded')
    STEMS = ['a', 'b', 'ab', 'ba', 'abc', 'x', 'xy', 'a1', 'a2', 'b1', 'main2', 'a+b', 'c$d', 'q(1)', 'r[2]', 'long_name_of_a_file', 'A', 'Z9', '_u',
             'a.b', 's{3}', 'b^c', 'm|n', 'w w', '0', 'a-b']
    PATS = ['*.cs', '*.cs', '*.cs', 'a*.cs', '?.cs', '??.cs', '*b*.cs', 'a?.cs', 'a*b*.cs', '*', '*.*', 'a+*.cs', 'c$*.cs', 'q(?).cs', 'r[*.cs',
            '[a-z].cs', 'a.?.cs', '(a|b).cs', 'a+.cs', 'b^*.cs', 's{*', 'm|*.cs', '*.c?', '.*', 'x*y.cs']

    def gen(self, rng, ctx, n):
        self.k = 0
        files, expect = {}, None
        mode = rng.choice(['sources', 'sources', 'sources', 'project', 'project', 'solution', 'projects', 'samedir', 'cwd'])
        steps = []
        state = {}
        ctrl = {'mode': mode, 'cmd': rng.choice(['compile', 'run', 'run']), 'opt': rng.choice([0, 0, 2])}
        if mode == 'samedir':
            return self.samedir(rng, ctrl)
        if mode == 'cwd':
            return self.cwd(rng, ctrl)
        ndirs = {'sources': rng.choice([1, 1, 2]), 'project': 1, 'solution': rng.choice([2, 3]), 'projects': 2}[mode]
        dirs = rng.sample(['src', 'lib', 'one', 'two', 'Zed', 'a.dir', 'x+y', 'd e'], ndirs)
        groups = []
        for d in dirs:
            names = rng.sample(self.STEMS, rng.randrange(1, 7))
            extra = ['.hid.swp', 'readme.md', 'noext', '.git/conf.cs', 'sub/deep.cs', 'a.cs.bak', 'b.CS', 'ab.css']
            groups.append({'dir': d, 'names': names, 'junk': rng.sample(extra, rng.randrange(0, 4))})
        pats = []
        for g in groups:
            pl = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                how = rng.choice(['pat', 'pat', 'pat', 'file', 'dir'] if mode in ('sources',) else ['pat', 'pat', 'pat', 'file'])
                if how == 'pat':
                    pl.append(rng.choice(self.PATS))
                elif how == 'file':
                    pl.append(rng.choice(g['names']) + '.cs')
                else:
                    pl.append('')
            pats.append(pl)
        for round_ in range(rng.choice([1, 1, 1, 2])):
            if round_:                          # files come and go between two builds
                for g in groups:
                    if rng.random() < .5 and len(g['names']) > 1:
                        g['names'].remove(rng.choice(g['names']))
                    if rng.random() < .5:
                        g['names'].append(rng.choice([x for x in self.STEMS if x not in g['names']]))
            st = self.make(rng, ctrl, groups, pats, state)
            if st is None:
                return None
            steps.append(st)
        steps[0].pop('remove', None)
        return {'ctrl': ctrl, 'files': {'System.apl': '@System'}, 'steps': steps}

    def cwd(self, rng, ctrl):
        """Patterns and files of the current directory, without any directory in their names."""
        names = [x + '.cs' for x in rng.sample(self.STEMS, rng.randrange(2, 8))]
        junk = rng.sample(['readme.md', 'noext', 'a.cs.bak', 'b.CS', 'ab.css', 'sub/deep.cs', 'sub/a.cs'], rng.randrange(0, 5))
        pats = [rng.choice(self.PATS) if rng.random() < .7 else rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))]
        pats = [p for p in pats if '*' in p or '?' in p or p in names]
        matched = []
        for p in pats:
            for x in sorted(x for x in names + [j for j in junk if '/' not in j] if glob_match(p, x) and ('*' in p or '?' in p) or x == p):
                if x not in matched:
                    matched.append(x)
        junk = [j for j in junk if j not in matched]
        matched = [x for x in matched if x in names]
        if not matched:
            return None
        v = rng.randrange(1, 50)
        main = rng.choice(matched)
        files = {j: 'junk { (' for j in junk}
        body = ''
        out = ''
        for k, x in enumerate(names):
            files[x] = HDR_ + 'public class K%d { public static int Get(int a) { return a * %d + %d; } }\n' % (k, v, k) if x in matched else 'this { is not a source'
        for k, x in enumerate(names):
            if x in matched:
                body += '        Console.WriteLine(K%d.Get(%d));\n' % (k, k + 3)
                out += '%d\n' % ((k + 3) * v + k)
        files[main] += 'class Program\n{\n    [EntryPoint]\n    public static void Main()\n    {\n%s    }\n}\n' % body
        args = [rng.choice(['', '', '', './']) + p for p in pats]
        st = {'files': files, 'procs': [{'args': [ctrl['cmd']] + (['-O', str(ctrl['opt'])] if ctrl['opt'] else []) + args + ['sys/System.apl'],
                                         'dirseed': rng.randrange(1, 1 << 30), 'rndseed': rng.randrange(1, 1 << 30)}],
              'expect': out if ctrl['cmd'] == 'run' else '', 'targets': ['r.apl'], 'matched': matched}
        return {'ctrl': ctrl, 'files': {'sys/System.apl': '@System'}, 'steps': [st]}

    def samedir(self, rng, ctrl):
        """Several projects in one directory: each has an assembly of its own, numbered in order."""
        n = rng.choice([2, 3, 4])
        d = rng.choice(['src', 'w', 'a.dir'])
        names = rng.sample(['one', 'two', 'aa', 'zz', 'B', 'm9'], n)
        explicit = rng.random() < .5
        order = names if explicit else sorted(names)
        main = rng.choice(names)
        v = rng.randrange(1, 50)
        files, matched = {}, []
        for k, x in enumerate(names):
            files['%s/%s.project' % (d, x)] = '<project><name>q</name><files><file><path>%s?.cs</path></file></files></project>\n' % x
            for z in 'xy':
                files['%s/%s%s.cs' % (d, x, z)] = HDR_ + 'public class K%s%s { public static int Get(int a) { return a * %d + %d; } }\n' % (x, z, v, k)
                matched.append('%s/%s%s.cs' % (d, x, z))
        k = names.index(main)
        files['%s/%sx.cs' % (d, main)] += ('class Program\n{\n    [EntryPoint]\n    public static void Main()\n    {\n        Console.WriteLine(K%sx.Get(2));\n'
                                           '        Console.WriteLine(K%sy.Get(7));\n    }\n}\n' % (main, main))
        o = ['-O', str(ctrl['opt'])] if ctrl['opt'] else []
        args = ['%s/%s.project' % (d, x) for x in names] if explicit else [d + '/*.project']
        env = {'dirseed': rng.randrange(1, 1 << 30), 'rndseed': rng.randrange(1, 1 << 30)}
        asm = [d + (str(k) if k else '') + '.apl' for k in range(n)]
        out = '%d\n%d\n' % (2 * v + k, 7 * v + k)
        steps = [{'files': files, 'procs': [dict(env, args=['compile'] + o + args + ['System.apl'])], 'expect': '', 'targets': sorted(asm), 'matched': matched},
                 # the assembly the main project must have got is the one that runs
                 {'files': {}, 'procs': [dict(env, args=['run', asm[order.index(main)], 'System.apl'])], 'expect': out, 'targets': [], 'matched': matched}]
        return {'ctrl': ctrl, 'files': {'System.apl': '@System'}, 'steps': steps}

    def make(self, rng, ctrl, groups, pats, state):
        mode = ctrl['mode']
        files, args, matched = {}, [], []
        glist = []
        uid = state.setdefault('uid', {})
        for gi, (g, pl) in enumerate(zip(groups, pats)):
            d = g['dir']
            here = {}
            for nm in g['names']:
                here[nm + '.cs'] = uid.setdefault((gi, nm), len(uid))
            all_names = list(here) + [j for j in g['junk'] if '/' not in j]
            m = []
            for p in pl:
                if p == '':
                    hit = [x for x in all_names if '.' in x and not x.startswith('.')]
                elif '*' in p or '?' in p:
                    hit = [x for x in all_names if glob_match(p, x)]
                else:
                    hit = [p] if p in here else None
                if hit is None:
                    return None
                for x in sorted(hit):
                    if x not in m:
                        m.append(x)
            glist.append((g, here, m))
        # a matched file that is no april source cannot be compiled: it must not be matched in this model
        for g, here, m in glist:
            if any(x not in here for x in m):
                g['junk'] = [j for j in g['junk'] if '/' in j or j not in m]
        glist = [(g, here, [x for x in m if x in here]) for g, here, m in glist]
        if mode != 'sources' and any(not m for _, _, m in glist):
            return None
        if not any(m for _, _, m in glist):
            return None
        order = []
        for gi, (g, here, m) in enumerate(glist):
            for x in m:
                order.append((gi, x, here[x]))
        mode_out = []
        names = ['P%d' % gi for gi in range(len(glist))]
        if mode in ('project', 'projects'):
            names = [g['dir'] for g, _, _ in glist]
        elif mode == 'sources':
            names = [glist[[gi for gi, (g, h, m) in enumerate(glist) if m][0]][0]['dir']] * len(glist)
        last = max(gi for gi, (g, h, m) in enumerate(glist) if m)
        v = rng.randrange(1, 50)
        for gi, (g, here, m) in enumerate(glist):
            for x, u in here.items():
                path = '%s/%s' % (g['dir'], x)
                if x in m:
                    cs = 'public class K%d { public static int Get(int a) { return a * %d + %d; } }\n' % (u, v, u)
                    files[path] = HDR_ + cs
                else:
                    files[path] = rng.choice(['this { is not a source', HDR_ + 'public class K%d { public int Get( }' % u,
                                              HDR_ + 'public class Program { public static int Bad(int a) { return nothing; } }'])
            for j in g['junk']:
                files['%s/%s' % (g['dir'], j)] = 'junk { ('
        vis = [o for o in order if o[0] == last or mode == 'sources'] if mode in ('project', 'projects') else order
        body = ''.join('        Console.WriteLine(K%d.Get(%d));\n' % (u, 3 + k) for k, (gi, x, u) in enumerate(vis))
        out = ''.join('%d\n' % ((3 + k) * v + u) for k, (gi, x, u) in enumerate(vis))
        imports = ''
        if mode == 'solution' and last:
            imports = ''.join('import %s;\n' % names[i] for i in range(last)) + '\nusing System;\n' + ''.join(
                'using %s;\n' % names[i] for i in range(last))
            hdr = 'import System;\n' + imports + '\n'
        else:
            hdr = HDR_
        main = 'class Program\n{\n    [EntryPoint]\n    public static void Main()\n    {\n%s    }\n}\n' % body
        gl, hl, ml = glist[last]
        mx = rng.choice(ml) if rng.random() < .7 else ml[-1]
        mp = '%s/%s' % (gl['dir'], mx)
        files[mp] = hdr + files[mp][len(HDR_):] + main
        if mode == 'sources':
            for g, pl in zip(groups, pats):
                for p in pl:
                    a = '%s/%s' % (g['dir'], p) if p else rng.choice([g['dir'], g['dir'] + '/', './' + g['dir']])
                    if p and rng.random() < .2:
                        a = rng.choice(['./', '%s/../' % g['dir']]) + a
                    args.append(a)
            targets = [names[0] + '.apl']
        elif mode in ('project', 'projects'):
            targets = []
            for g, pl in zip(groups, pats):
                files['%s/p.project' % g['dir']] = '<project><name>n</name><files>%s</files></project>\n' % ''.join(
                    '<file><path>%s</path></file>' % p for p in pl)
                args.append(rng.choice(['%s/p.project', '%s/*.project']) % g['dir'])
                targets.append(g['dir'] + '.apl')
        else:
            files['S.solution'] = '<solution><name>S</name><projects>%s</projects></solution>\n' % ''.join(
                '<project><path>%s/p.project</path></project>' % g['dir'] for g in groups)
            targets = []
            for gi, (g, pl) in enumerate(zip(groups, pats)):
                files['%s/p.project' % g['dir']] = '<project><name>%s</name><files>%s</files></project>\n' % (names[gi], ''.join(
                    '<file><path>%s</path></file>' % p for p in pl))
                targets.append(names[gi] + '.apl')
            args.append('S.solution')
        o = ['-O', str(ctrl['opt'])] if ctrl['opt'] else []
        files = dict(files)
        gone = [f for f in state.get('files', []) if f not in files]
        state['files'] = list(files)
        p = {'args': [ctrl['cmd']] + o + args + ['System.apl'], 'dirseed': rng.randrange(1, 1 << 30), 'rndseed': rng.randrange(1, 1 << 30)}
        return {'files': files, 'remove': gone, 'procs': [p], 'expect': out if ctrl['cmd'] == 'run' else '', 'targets': sorted(set(targets)),
                'matched': ['%s/%s' % (glist[gi][0]['dir'], x) for gi, x, u in order]}

    def judge(self, case, obs, ctx):
        v = []
        for st, o in zip(case['steps'], obs.steps):
            r = o.res[0]
            what = ' '.join(st['procs'][0]['args'])
            if not r.ok:
                v += std_ends(r, what) or ['files: %s ended with %s, its files are %s: %s' % (
                    what, r.brief(), ' '.join(st['matched']), norm_text(r.out + r.err)[-200:].decode(errors='replace'))]
                return v
            if r.out != st['expect'].encode():
                v.append('output: %s printed %r, expected %r' % (what, r.out[-100:], st['expect'][-100:]))
            new = sorted(n for n in o.after if n not in o.before)
            for t in st['targets']:
                if t not in o.after or (t in new and not o.after[t]):
                    v.append('target: %s left no %s, but %s' % (what, t, ' '.join(new)))
            for n in new:
                if n not in st['targets']:
                    v.append('target: %s made %s, expected %s' % (what, n, ' '.join(st['targets'])))
            if '*' in what or len(st['matched']) > 1:
                ctx.count('probe:pattern or directory expanded')
        return v

    def signature(self, case, obs):
        return core.sha(json.dumps([[s['files'], s['procs']] for s in case['steps']], sort_keys=True).encode())

    def brief_case(self, case):
        return {'ctrl': case['ctrl'], 'steps': [{'procs': s['procs'], 'matched': s['matched'], 'files': sorted(s['files'])} for s in case['steps']]}


HDR_ = W.HDR


def rand_alloc(rng):
    return {'down': rng.randrange(2), 'gap': rng.choice([0, 0, 3, 40, 900]), 'reuse': rng.randrange(3),
            'fill': rng.randrange(5), 'seed': rng.randrange(1, 1 << 30), 'pad': rng.choice([0, 16, 4096, 70000]),
            'base': rng.choice([0, 0, 1, 1, -1]) * rng.randrange(16, 6 << 20), 'align': rng.choice([0, 0, 8, 12, 16])}


class X02(Prop):
    """Which program runs, and which version of each assembly it gets."""
    name = 'X02'
    drop_steps = False
    level = 'exploration'
    quick, thorough = 2400, 60000
    rule = ('distinct = (sources, command lines, history, faults); nontrivial = an assembly on the disk was older than its sources, '
            'or there was more than one of a name, when a program ran')
    LIBS = ['L', 'M', 'Lib', 'Core2', 'net_x', 'Zz', 'a1', 'System2', 'LL']
    MAINS = ['A', 'B', 'App', 'main', 'x9']

    # -- sources
    def source(self, w, name, v, extra=()):
        a = w['asm'][name]
        deps = list(a['deps']) + list(extra)
        s = 'import System;\n' + ''.join('import %s;\n' % d for d in deps) + '\nusing System;\n' + ''.join('using %s;\n' % d for d in deps) + '\n'
        terms = ''.join(' + K%d.Get(a + %d)' % (w['asm'][d]['id'], w['asm'][d]['id'] + 1) for d in deps if d not in extra or not w['asm'][d]['main'])
        s += 'public class K%d\n{\n    public static int Get(int a)\n    {\n        return a * %d%s;\n    }\n}\n' % (a['id'], v, terms)
        if a['main']:
            s += ('\nclass Program\n{\n    [EntryPoint]\n    public static void Main()\n    {\n        Console.WriteLine("%s version %d");\n'
                  '        Console.WriteLine(K%d.Get(%d));\n    }\n}\n' % (name, v, a['id'], 3))
        return s

    def closure(self, w, names):
        out = []
        for n in names:
            for d in self.closure(w, w['asm'][n]['deps']) + [n]:
                if d not in out:
                    out.append(d)
        return out

    def value(self, w, vers, name, a):
        x = w['asm'][name]
        return a * vers[name] + sum(self.value(w, vers, d, a + w['asm'][d]['id'] + 1) for d in x['deps'])

    # -- histories
    def gen(self, rng, ctx, n):
        libs = rng.sample(self.LIBS, rng.choice([1, 2, 2, 3, 4]))
        mains = rng.sample(self.MAINS, rng.choice([1, 2, 2, 3]))
        asm = {}
        for k, x in enumerate(libs + mains):
            pool = libs[:k] if x in libs else libs
            deps = [d for d in pool if rng.random() < .55]
            if x in mains and not deps:
                deps = [rng.choice(libs)]
            rng.shuffle(deps)
            asm[x] = {'id': k, 'main': x in mains, 'deps': deps}
        w = {'asm': asm, 'libs': libs, 'mains': mains}
        ver = {x: 1 + rng.randrange(50) for x in asm}
        files = {}
        for x in asm:
            files['%s/s.cs' % x] = self.source(w, x, ver[x])
            files['%s/p.project' % x] = '<project><name>%s</name><files><file><path>*.cs</path></file></files></project>\n' % x
        for d in ('out', 'x'):
            files[d + '/keep.txt'] = 'keep\n'
        disk = {}                   # path -> True: what will be there
        steps = []

        def add(args, **k):
            st = {'files': dict(files), 'procs': [dict(self.env(rng), args=args)], 'ver': dict(ver)}
            files.clear()
            st.update(k)
            st['had'] = all(q in disk for _, q in st['build'])
            steps.append(st)
            return st

        def solution(names):
            names = list(names)
            rng.shuffle(names)
            files['S.solution'] = '<solution><name>S</name><projects>%s</projects></solution>\n' % ''.join(
                '<project><path>%s/p.project</path></project>' % x for x in names)
            return names

        def build_args(names, outdir):
            return (['-o', outdir] if outdir else []) + (['-O', str(rng.choice([1, 2, 3]))] if rng.random() < .2 else []), (outdir + '/' if outdir else '')

        def do_solution(cmd, names, outdir=None):
            solution(names)
            pre, d = build_args(names, outdir)
            e, main, fail = self.pick_main(rng, w, [x for x in names]) if cmd == 'run' else ([], None, False)
            stale = []
            if rng.random() < .3:       # older assemblies of what is compiled anyway, named too
                stale = [p for p in disk if p.rsplit('/', 1)[-1][:-4] in names and '/' in p][:1]
            st = add([cmd] + pre + e + ['S.solution'] + stale + ['System.apl'], build=[[x, d + x + '.apl'] for x in names], named=[], main=main, fail=fail)
            for x in names:
                disk[d + x + '.apl'] = True
            return st

        for _ in range(rng.choice([1, 2, 3, 4, 5])):
            for x in asm:
                if steps and rng.random() < .4:
                    ver[x] = rng.choice([v for v in range(1, 60) if v != ver[x]])
                    files['%s/s.cs' % x] = self.source(w, x, ver[x])
            kinds = ['solution', 'solution', 'solution']
            if disk:
                kinds += ['one', 'one', 'one', 'apl', 'apl', 'apl', 'apl', 'copy', 'wrong', 'circle', 'missing', 'projects']
            kind = rng.choice(kinds)
            if kind == 'solution':
                sub = self.closure(w, rng.sample(mains, rng.randrange(1, len(mains) + 1)) if steps else mains + libs)
                do_solution(rng.choice(['compile', 'run', 'run']), sub, rng.choice([None, None, None, 'out']) if steps else None)
            elif kind == 'projects':
                # projects on the command line do not know each other: one at a time
                x = rng.choice(list(asm))
                libs_ = self.named(rng, w, x, disk)
                if libs_ is None:
                    continue
                e, main, fail = self.pick_main(rng, w, [x])
                add(['run'] + e + ['%s/p.project' % x] + self.mix(rng, libs_) + ['System.apl'], build=[[x, x + '.apl']], named=libs_, main=main, fail=fail)
                disk[x + '.apl'] = True
            elif kind in ('one', 'copy'):
                x = rng.choice(libs) if kind == 'copy' else rng.choice(list(asm))
                libs_ = self.named(rng, w, x, disk)
                if libs_ is None:
                    continue
                out = 'x' if kind == 'copy' else rng.choice([None, None, 'out'])
                pre, d = build_args([x], out)
                cmd = rng.choice(['compile', 'run']) if asm[x]['main'] else 'compile'
                e, main, fail = self.pick_main(rng, w, [x]) if cmd == 'run' else ([], None, False)
                others = []
                if cmd == 'run' and rng.random() < .3:      # an older executable named beside: the one just compiled takes precedence
                    others = [[y, p] for y, p in self.at(disk) if asm[y]['main'] and y != x][:1]
                st = add([cmd] + pre + e + self.mix(rng, [[x, '%s/%s' % (x, rng.choice(['s.cs', '*.cs']))]] + libs_ + others) + ['System.apl'],
                         build=[[x, d + x + '.apl']], named=libs_ + others, main=main, fail=fail)
                disk[d + x + '.apl'] = True
            elif kind == 'apl':
                have = [[y, p] for y, p in self.at(disk) if asm[y]['main']]
                if not have:
                    continue
                by = {}
                for y, p in have:
                    by.setdefault(y, []).append(p)
                pick = [[y, rng.choice(ps)] for y, ps in by.items() if rng.random() < .6] or [rng.choice(have)]
                rng.shuffle(pick)
                e, main, fail = self.pick_main(rng, w, [y for y, p in pick])
                named = []
                for y, p in self.at(disk):
                    if not asm[y]['main'] and rng.random() < .35 and y not in [z for z, q in named]:
                        named.append([y, p])
                add(['run'] + e + self.mix(rng, pick + named) + ['System.apl'], build=[], named=pick + named, main=main, fail=fail)
            elif kind == 'wrong':
                what = rng.choice(['name', 'lib', 'none', 'file', 'input', 'input'])
                have = self.at(disk)
                if what in ('lib', 'none'):
                    have = [h for h in have if not asm[h[0]]['main']]
                if not have:
                    continue
                y, p = rng.choice(have)
                e = {'name': ['-e', rng.choice(['Nope', y + 'x', y[:-1] or 'Q', y + '.apl', y.swapcase() if y.swapcase() not in asm else 'Nope'])],
                     'lib': ['-e', rng.choice([y, 'System'])], 'none': [], 'file': [], 'input': []}[what]
                if len(e) == 2 and e[1] in asm and e[1] != y:
                    continue
                if what == 'input':
                    # what should be compiled is not there or is wrong: an executable named beside must not run instead
                    ex = [h for h in self.at(disk) if asm[h[0]]['main']]
                    if not ex:
                        continue
                    bad = rng.choice(['nowhere/s.cs', '%s/absent.cs' % y, 'nowhere/p.project', 'absent.solution', 'bad/s.cs', 'bad/p.project',
                                      'bad/q.project', 'bad/s.solution'])
                    if bad.startswith('bad'):
                        files['bad/s.cs'] = self.source(w, rng.choice(libs), 3).replace('return', 'return missing +')
                        files['bad/p.project'] = '<project><name>Bad</name><files><file><path>s.cs</path></file></files></project>\n'
                        files['bad/q.project'] = '<project><name>Bad</name><files><file><path>*.cs</path></file></files>\n'
                        files['bad/s.solution'] = '<solution><name>S</name><projects><project><path>p.project</path></project><project><path>z.project</path></project></projects></solution>\n'
                    x = rng.choice(ex)
                    add(['run'] + (['-e', x[0]] if rng.random() < .4 else []) + self.mix(rng, [[None, bad], x]) + ['System.apl'],
                        build=[], named=[x], main=None, fail=True)
                elif what == 'file':
                    add(['run', 'nowhere/' + p, 'System.apl'], build=[], named=[], main=None, fail=True)
                else:
                    add(['run'] + e + [p, 'System.apl'], build=[], named=[[y, p]], main=None, fail=True)
            elif kind == 'circle':
                # a library that imports one of those that import it
                users = [(a, b) for b in asm for a in self.closure(w, [b])[:-1]]
                if not users:
                    continue
                a, b = rng.choice(users)
                f = {'%s/s.cs' % a: self.source(w, a, ver[a], extra=[b])}
                back = {'%s/s.cs' % a: files.pop('%s/s.cs' % a, None) or self.source(w, a, ver[a])}
                files.update(f)
                names = self.closure(w, [b])
                solution(names)
                add([rng.choice(['compile', 'run']), 'S.solution', 'System.apl'], build=[], named=[], main=None, fail=True,
                    may=[[x, x + '.apl'] for x in names if a not in self.closure(w, [x])])
                files.update(back)
            elif kind == 'missing':
                # compiled against a library that is not named, though it lies beside
                users = [x for x in asm if asm[x]['deps']]
                if not users:
                    continue
                x = rng.choice(users)
                libs_ = self.named(rng, w, x, disk)
                if not libs_:
                    continue
                gone = rng.choice(asm[x]['deps'])
                libs_ = [l for l in libs_ if l[0] != gone]
                add([rng.choice(['compile', 'run']), '%s/s.cs' % x] + self.mix(rng, libs_) + ['System.apl'], build=[], named=libs_, main=None, fail=True)
            # a compilation that may be killed, where everything it makes is there already
            if not steps:
                continue
            st = steps[-1]
            if st.pop('had', False) and st['build'] and rng.random() < .25:
                st['procs'][0]['faults'] = [[rng.randrange(20, 900), rng.choice(KILL), rng.randrange(0, 400)]]
        return {'world': w, 'files': {'System.apl': '@System'}, 'steps': steps} if steps else None

    def env(self, rng):
        e = {'dirseed': rng.randrange(1, 1 << 30), 'rndseed': rng.randrange(1, 1 << 30), 'pid': rng.randrange(2, 30000)}
        if rng.random() < .5:
            e['alloc'] = rand_alloc(rng)
        return e

    def mix(self, rng, named):
        a = [p for _, p in named]
        rng.shuffle(a)
        return a

    def at(self, disk):
        return [[p.rsplit('/', 1)[-1][:-4], p] for p in sorted(disk)]

    def named(self, rng, w, x, disk):
        """One .apl of every library that x needs, or None."""
        out = []
        for d in self.closure(w, [x])[:-1]:
            ps = [p for y, p in self.at(disk) if y == d]
            if not ps:
                return None
            out.append([d, rng.choice(ps)])
        return out

    def pick_main(self, rng, w, names):
        """-e option, name of the assembly that runs (None: none must), fails"""
        ex = [x for x in names if w['asm'][x]['main']]
        if rng.random() < .35:
            if ex and rng.random() < .8:
                x = rng.choice(ex)
                return ['-e', x], x, False
            bad = [x for x in names if x not in ex] + ['Nope', 'System']
            return ['-e', rng.choice(bad)], None, True
        return [], (ex[0] if len(ex) == 1 else None), len(ex) != 1

    # -- what must be
    def judge(self, case, obs, ctx):
        w = case['world']
        v = []
        state = {}
        for st, o in zip(case['steps'], obs.steps):
            r = o.res[0]
            p = st['procs'][0]
            what = ' '.join(p['args'])
            run = p['args'][0] == 'run'
            v += std_ends(r, what)
            if v:
                return v
            targets = {q: x for x, q in st['build']}
            may = {q: x for x, q in st.get('may', ())}         # of a refused solution: what does not depend on the reason
            for q, x in may.items():
                if o.before.get(q) != o.after.get(q) and q in o.after:
                    state[q] = st['ver'][x]
            for n in set(o.before) | set(o.after):
                if n not in targets and n not in may and o.before.get(n) != o.after.get(n) and not (r.kind == 'crash' and n not in o.before):
                    v.append('files: %s %s %s' % (what, 'changed' if n in o.before and n in o.after else 'made' if n in o.after else 'removed', n))
            if r.kind == 'crash':
                ctx.count('probe:killed')
                for q, x in targets.items():
                    if o.before.get(q) != o.after.get(q):
                        state[q] = st['ver'][x]
                    if q not in o.after:
                        return v
                continue
            msg = norm_text(r.out + r.err)[-200:].decode(errors='replace')
            old = dict(state)
            if st['fail'] and not st['build']:
                if r.ok:
                    v.append('refuse: %s ended with success: %s' % (what, msg))
                elif not (r.out + r.err).strip():
                    v.append('refuse: %s failed without a word' % what)
                if ' version ' in msg:
                    v.append('refuse: %s ran a program: %s' % (what, msg))
                ctx.count('probe:refused')
                continue
            for q, x in targets.items():
                if q not in o.after:
                    v.append('target: %s (%s) left no %s: %s' % (what, r.brief(), q, msg))
                state[q] = st['ver'][x]
            if v:
                return v
            if st['fail']:
                if r.ok:
                    v.append('refuse: %s ended with success: %s' % (what, msg))
                if ' version ' in msg:
                    v.append('refuse: %s ran a program: %s' % (what, msg))
                ctx.count('probe:refused')
                continue
            if not run:
                if not r.ok:
                    v.append('compile: %s ended with %s: %s' % (what, r.brief(), msg))
                    return v
                continue
            m = st['main']
            built = {x: q for x, q in st['build']}
            named = {x: q for x, q in st['named']}
            mp = built.get(m) or named.get(m)
            d = mp[:mp.rfind('/') + 1]
            vers, lost, odd = {}, [], False
            for x in self.closure(w, [m]):
                q = built.get(x) or named.get(x) or d + x + '.apl'
                if q in state:
                    vers[x] = state[q]
                    odd = odd or state[q] != st['ver'][x] or len({state[z] for z in state if z.rsplit('/', 1)[-1] == x + '.apl'}) > 1
                else:
                    lost.append(q)
            if lost:
                if r.ok:
                    v.append('lost: %s ended with success though there is no %s: %s' % (what, ' '.join(lost), msg))
                ctx.count('probe:import missing')
                continue
            want = '%s version %d\n%d\n' % (m, vers[m], self.value(w, vers, m, 3))
            if not r.ok:
                v.append('run: %s ended with %s, expected %r: %s' % (what, r.brief(), want, msg))
            elif r.out != want.encode():
                v.append('version: %s printed %r, expected %r' % (what, r.out[-120:], want))
            if odd:
                ctx.count('probe:mixed versions ran')
        return v

    def signature(self, case, obs):
        return core.sha(json.dumps([[s['files'], s['procs']] for s in case['steps']], sort_keys=True).encode())

    def brief_case(self, case):
        return {'assemblies': case['world']['asm'], 'steps': [{'procs': s['procs'], 'files': sorted(s['files']), 'versions': s['ver']} for s in case['steps']]}

    def reductions(self, case):
        yield from super().reductions(case)
        if len(case['steps']) > 1:              # the last steps are not needed for what an earlier one shows
            c = copy.deepcopy(case)
            c['steps'].pop()
            yield c


class A07(WorkspaceProp):
    name = 'A07'
    level = 'exploration'
    quick, thorough = 1800, 40000
    kinds = WorkspaceProp.kinds + ['generics', 'system', 'dot', 'wildproj', 'reflibs']
    weights = WorkspaceProp.weights + [4, 4, 2, 3, 3]
    rule = ('distinct = (workspace, allocator behaviour, directory order, random bytes, pid, stack offset); '
            'nontrivial = the environment differs from the reference one')

    def gen(self, rng, ctx, n):
        s = self.pick(rng, old=False)
        if s['kind'] in ('system', 'generics'):
            s['cmd'] = 'compile'
        case = base_case(s)
        p = case['steps'][0]['procs'][0]
        p['alloc'] = rand_alloc(rng)
        p['dirseed'] = rng.randrange(0, 1 << 30)
        p['rndseed'] = rng.randrange(1, 1 << 30)
        p['pid'] = rng.randrange(2, 4000000)
        p['pipe'] = rng.randrange(2)
        return case

    def judge(self, case, obs, ctx):
        b = ctx.baseline(case['ws'])
        v = check_baseline(b, case['ws']['cmd'])
        if v:
            return v
        r = obs.last.res[0]
        if not r.ok:
            return ['fails: in another environment the same command ended with %s' % r.brief()]
        for t, (old, new) in self.old_new(case, ctx).items():
            now = obs.last.after.get(t)
            if now != new:
                d = next((i for i in range(min(len(now or b''), len(new))) if now[i] != new[i]), min(len(now or b''), len(new)))
                v.append('differs: %s (%d bytes, first difference at byte %d of %d)' % (t, len(now or b''), d, len(new)))
        if r.out != b['res'].out:
            v.append('output: printed %r instead of %r' % (r.out[-100:], b['res'].out[-100:]))
        if r.heap:
            v.append('heap: ' + r.heap)
        return v

    def signature(self, case, obs):
        p = case['steps'][0]['procs'][0]
        return core.sha(repr((case['ws'], {k: p.get(k) for k in ('alloc', 'dirseed', 'rndseed', 'pid')})).encode())

    def reductions(self, case):
        yield from super().reductions(case)
        for k, x in (case['steps'][0]['procs'][0].get('alloc') or {}).items():
            if x and k != 'seed':
                c = copy.deepcopy(case)
                c['steps'][0]['procs'][0]['alloc'][k] = {'reuse': 1}.get(k, 0)
                if c != case:
                    yield c


class C01(WorkspaceProp):
    """The console: what a program prints arrives completely, or the process says it did not."""
    name = 'C01'
    quick, thorough = 2400, 50000
    kinds = ['single', 'solution', 'exec', 'chatty', 'chattyexec']
    weights = [2, 1, 2, 5, 5]
    rule = A01.rule
    KINDS = ['eio', 'enospc', 'epipe', 'short', 'eintr', 'eio+', 'epipe+', 'edquot']

    def pick(self, rng, old=True):
        s = super().pick(rng, False)
        s['cmd'] = 'run'
        return s

    def gen(self, rng, ctx, n):
        s = self.pick(rng)
        case = base_case(s)
        p = case['steps'][0]['procs'][0]
        p['pipe'] = rng.randrange(2)
        p['rndseed'] = rng.randrange(1, 1 << 30)
        b = ctx.baseline(s)
        tr = b['trace']
        if p['pipe']:
            key = 'pipe' + json.dumps(s, sort_keys=True)
            if key not in ctx.base:
                c = base_case(s)
                c['files'] = ctx.files_of(c['files'])
                c['steps'][0]['procs'][0]['pipe'] = 1
                ctx.base[key] = ctx.execute(c).last.res[0].trace
            tr = ctx.base[key]
        ops = [n for n, t in enumerate(tr) if t[2] == '<stdout>' and t[0] == 'write']
        fl = []
        if ops and rng.random() > .05:
            mode = rng.choice(['short', 'err', 'err', 'err', 'kill', 'mixed'])
            for _ in range(rng.choice([1, 1, 2, 4]) if mode != 'short' else rng.choice([1, 3, 20])):
                at = rng.choice([rng.choice(ops), ops[-1], ops[0]])
                k = rng.choice({'short': ['short'], 'err': self.KINDS, 'kill': KILL,
                                'mixed': KILL + self.KINDS}[mode])
                fl.append([at + (rng.randrange(3) if len(fl) else 0), k, pick_param(rng, tr[at])])
        p['faults'] = sorted({f[0]: f for f in fl}.values())
        return case

    def judge(self, case, obs, ctx):
        b = ctx.baseline(case['ws'])
        v = check_baseline(b, 'run')
        if v:
            return v
        r = obs.last.res[0]
        want = b['ws'].stdout
        v += std_ends(r, 'run')
        bad = [t for t in r.trace if t[1] and core.FAULT_NAMES.get(t[1]) != 'short']
        sent = 0
        for t in r.trace:
            if t[2] == '<stdout>' and t[0] == 'write':
                if t[5] < 0:
                    break
                sent += t[5]
        if r.out[:sent] != want[:sent]:
            v.append('garbled: what was printed before the first failure is not what the program prints: %r'
                     % r.out[max(0, sent - 80):sent])
        if r.ok:
            ctx.count('probe:success reported')
            if r.out != want:
                v.append('untrue: exit status 0, but %d bytes arrived of %d the program printed' % (len(r.out), len(want)))
        elif r.kind == 'exit':
            ctx.count('probe:failure reported')
            if not bad:
                v.append('refused: no write failed, yet exit status %d' % r.code)
        return v


class R01(WorkspaceProp):
    """Memory exhaustion anywhere."""
    name = 'R01'
    quick, thorough = 2600, 60000
    kinds = WorkspaceProp.kinds + ['exec', 'chattyexec', 'broken']
    weights = WorkspaceProp.weights + [3, 2, 2]
    rule = 'distinct = (workspace, number of the failed allocation, how many failed, how the process ended)'

    def gen(self, rng, ctx, n):
        s = self.pick(rng)
        if s['kind'] in ('exec', 'chattyexec'):
            s['cmd'] = 'run'
        b = ctx.baseline(s)
        case = base_case(s)
        p = case['steps'][0]['procs'][0]
        self.env(rng, p)
        na = b['res'].nalloc
        at = rng.choice([rng.randrange(1, na + 1)] * 3 + [max(1, na - int(rng.expovariate(1 / 300.)))])
        p['alloc'] = {'fail_at': at, 'fail_n': rng.choice([1, 1, 1, 2, 5, 50, 1 << 30])}
        return case

    def judge(self, case, obs, ctx):
        s = case['ws']
        b = ctx.baseline(s)
        broken = s['kind'] == 'broken'
        v = [] if broken else check_baseline(b, s['cmd'])
        if v:
            return v
        r = obs.last.res[0]
        if r.kind == 'signal' and r.sigpc >= 0x7f0000000000 and r.fired_alloc:
            ctx.count('probe:a library crashed when an allocation failed')
        else:
            v += std_ends(r, s['cmd'])
        if r.heap:
            v.append('memory: ' + r.heap)
        swallowed = ' (every allocation that failed was one of a stream or of boost::format)' \
            if r.fired_alloc and r.fired_alloc == r.fired_swallowed else ''
        if r.ok and broken:
            v.append('accepted: exit status 0 for sources with an error')
        if r.escaped:
            v.append('escape: wrote outside the workspace: %s' % r.escape_path)
        for t, (old, new) in self.old_new(case, ctx).items():
            now = obs.last.after.get(t)
            if r.ok and now != new:
                v.append('untrue: exit status 0, but %s is not the assembly' % t)
            elif now != old and (now != new or broken):
                v.append('torn: %s is neither the previous assembly nor the new one, after %s' % (t, r.brief()))
        for n in obs.last.before:
            if n not in b['ws'].targets and obs.last.after.get(n) != obs.last.before[n]:
                v.append('input: %s was changed or removed' % n)
        if s['cmd'] == 'run' and r.ok and r.out != b['ws'].stdout:
            v.append('untrue: exit status 0, but the program printed %r' % r.out[-120:])
        if r.kind == 'exit' and r.code and not injected(r) and not broken:
            v.append('refused: no allocation failed, yet exit status %d' % r.code)
        return [x + swallowed for x in v]


def prog_case(src, out, uncaught, opt, mode, env):
    """A program compiled and run in one process, or compiled by one and run by another."""
    files = {'prog/a.cs': src, 'System.apl': '@System'}
    o = ['-O', str(opt)] if opt else []
    if mode == 'run':
        steps = [{'procs': [dict(env[0], args=['run'] + o + ['prog/a.cs', 'System.apl'])]}]
    else:
        steps = [{'procs': [dict(env[0], args=['compile'] + o + ['prog/a.cs', 'System.apl'])]},
                 {'procs': [dict(env[1], args=['run', 'prog.apl', 'System.apl'])]}]
    return {'files': files, 'steps': steps, 'expect': out, 'uncaught': uncaught}


def judge_prog(case, obs):
    v = []
    for k, s in enumerate(obs.steps[:-1]):
        r = s.res[0]
        if not r.ok:
            return ['compile: the program does not compile: %s %s' % (
                r.brief(), norm_text(r.out + r.err)[-200:].decode(errors='replace'))]
    r = obs.last.res[0]
    if r.kind != 'exit':
        v += std_ends(r, 'the program') or ['end: ' + r.brief()]
    want = ''.join(x + '\n' for x in case['expect']).encode()
    out = norm_text(r.out).replace(b'\r\n', b'\n')
    if case['uncaught']:
        head = want + ('Uncaught Exception: ' + case['uncaught']).encode()
        if not out.startswith(head) or out[len(head):len(head) + 1].isalnum():
            v.append('output: expected %r, got %r' % (diff_at(head, out)))
        if r.kind == 'exit' and r.code == 0:
            v.append('status: exit status 0 although %s was not caught' % case['uncaught'])
    else:
        if out != want:
            v.append('output: expected %r, got %r' % (diff_at(want, out)))
        if r.kind == 'exit' and r.code:
            v.append('status: exit status %d although nothing was thrown out of Main' % r.code)
    if r.heap:
        v.append('heap: ' + r.heap)
    return v


def diff_at(a, b):
    n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    n = max(0, n - 30)
    return a[n:n + 90].decode(errors='replace'), b[n:n + 90].decode(errors='replace')


class ProgProp(Prop):
    level = 'exploration'

    def make(self, rng, n):
        raise NotImplementedError

    def env(self, rng):
        e = {'rndseed': rng.randrange(1, 1 << 30), 'pipe': rng.randrange(2)}
        if rng.random() < .8:
            e['alloc'] = rand_alloc(rng)
        return e

    def gen(self, rng, ctx, n):
        prog = self.make(rng, n)
        c = self.case_of(prog, rng.choice([0, 0, 1, 2, 3]), rng.choice(['run', 'run', 'sep']),
                         [self.env(rng), self.env(rng)])
        return c

    def case_of(self, prog, opt, mode, env):
        out, unc = prog.run(20000)
        c = prog_case(prog.source(), out, unc, opt, mode, env)
        c.update(opt=opt, mode=mode, env=env, _prog=prog)
        return c

    def brief_case(self, case):
        return {k: v for k, v in case.items() if k in ('opt', 'mode', 'env', 'uncaught', 'info')}

    def dump(self, c):
        return {k: v for k, v in c.items() if k != '_prog'}

    def judge(self, case, obs, ctx):
        if case['uncaught']:
            ctx.count('probe:uncaught exception')
        if case.get('_prog') is not None:
            for k, x in (getattr(case['_prog'], 'stats', None) or {}).items():
                ctx.count('probe:' + k, x)
        return judge_prog(case, obs)

    def reductions(self, case):
        prog = case.get('_prog')
        if prog is None:
            return
        for opt, mode, env in ((0, case['mode'], case['env']), (case['opt'], 'run', case['env']),
                               (case['opt'], case['mode'], [{}, {}])):
            if (opt, mode, env) != (case['opt'], case['mode'], case['env']):
                yield self.case_of(prog, opt, mode, env)
        for q in self.shrink(prog):
            try:
                yield self.case_of(q, case['opt'], case['mode'], case['env'])
            except (progs.Budget, objs.Invalid, RecursionError, KeyError, IndexError):
                continue

    def signature(self, case, obs):
        return core.sha(repr((case['files']['prog/a.cs'], case['opt'], case['mode'])).encode())


class E01(ProgProp):
    """Guest exceptions, with an exception injected at a chosen point of the program's execution."""
    name = 'E01'
    quick, thorough = 2400, 60000
    rule = ('distinct = (generated program with its injected exception: point and type; optimisation level; '
            'compiled in the same or another process); nontrivial = at least one exception was thrown')

    def make(self, rng, n):
        while True:
            p = progs.exc_program(rng.randrange(1 << 40))
            p.at = rng.choice([0, rng.randrange(0, p.nticks + 2), rng.randrange(0, p.nticks + 2)])
            p.kind = rng.randrange(7)
            try:
                p.run(20000)
                return p
            except (progs.Budget, RecursionError):
                continue

    def shrink(self, p):
        return progs.shrink(p)

    def signature(self, case, obs):
        t = case.get('_prog')
        return ('' if t is None or t.stats.get('throw') else 'trivial ') + super().signature(case, obs)


class H01(ProgProp):
    """Objects, arrays, structs and boxes over a heap whose addresses and contents the simulator chooses."""
    name = 'H01'
    quick, thorough = 2400, 60000
    rule = ('distinct = (generated program; optimisation level; compiled in the same or another process; types in the same or '
            'another source file); nontrivial = the program allocates at least one object or array')

    def make(self, rng, n):
        return objs.program(rng.randrange(1 << 40))

    def shrink(self, p):
        return objs.shrink(p)

    def gen(self, rng, ctx, n):
        prog = self.make(rng, n)
        return self.case_of(prog, rng.choice([0, 0, 1, 2, 3]), rng.choice(['run', 'run2', 'sep', 'sep2']),
                            [self.env(rng), self.env(rng)])

    def case_of(self, prog, opt, mode, env):
        c = super().case_of(prog, opt, mode[:3], env)
        c['mode'] = mode
        if mode.endswith('2'):                  # the types in a source file of their own
            del c['files']['prog/a.cs']
            c['files']['prog/a.cs'], c['files']['prog/t.cs'] = prog.split()[::-1]
            p = c['steps'][0]['procs'][0]
            k = p['args'].index('prog/a.cs')
            p['args'] = p['args'][:k] + (['prog/a.cs', 'prog/t.cs'] if opt & 1 else ['prog/t.cs', 'prog/a.cs']) + p['args'][k + 1:]
        return c

    def signature(self, case, obs):
        t = case.get('_prog')
        return ('' if t is None or t.stats.get('object allocated') or t.stats.get('array allocated') else 'trivial ') + super().signature(case, obs)


ALL = {}
BUILDS = [build.build_simhost]


def register(cls):
    ALL[cls.name] = cls()


for _c in (A01, A02, A03, A04, A05, A06, A07, A08, C01, R01, E01, H01, X01, X02):
    register(_c)


def get(name):
    return ALL[name]
