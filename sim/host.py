"""Client of simhost: describes simulated executions, runs them, returns what happened."""
import dataclasses, os, subprocess

OPS = ['open', 'read', 'write', 'close', 'seek', 'stat', 'dir', 'rename', 'unlink', 'sync', 'other', 'exit']
FAULTS = {'none': 0, 'eintr': 1, 'eio': 2, 'enospc': 3, 'short': 4, 'crash_before': 5,
          'crash_after': 6, 'torn': 7, 'eacces': 8, 'emfile': 9, 'epipe': 10, 'enoent': 11,
          'diskfull': 12, 'edquot': 13, 'enomem': 14}
STICKY = 0x100
KINDS = ['exit', 'signal', 'crash', 'toolong', 'timeout']


@dataclasses.dataclass
class Alloc:
    down: int = 0
    gap: int = 0
    reuse: int = 1
    fill: int = 0
    seed: int = 1
    fail_at: int = 0
    fail_n: int = 0
    pad: int = 0
    base: int = 0
    align: int = 0


@dataclasses.dataclass
class Proc:
    args: list
    cwd: str
    root: str = ''
    alloc: Alloc = dataclasses.field(default_factory=Alloc)
    faults: list = dataclasses.field(default_factory=list)   # (op, kind, param)
    dirseed: int = 0
    rndseed: int = 1
    pid: int = 1000
    maxops: int = 200000
    pipe: int = 0


@dataclasses.dataclass
class Result:
    kind: str = ''
    code: int = 0
    nops: int = 0
    nalloc: int = 0
    hash: str = ''
    escaped: int = 0
    fired_alloc: int = 0
    peak: int = 0
    fired_swallowed: int = 0
    sigpc: int = 0
    out: bytes = b''
    err: bytes = b''
    heap: str = ''
    escape_path: str = ''
    opcount: list = dataclasses.field(default_factory=list)
    fired: list = dataclasses.field(default_factory=list)
    trace: list = dataclasses.field(default_factory=list)

    @property
    def ok(self):
        return self.kind == 'exit' and self.code == 0

    def brief(self):
        return '%s %d' % (self.kind, self.code)


class HostError(Exception):
    pass


class Host:
    def __init__(self, exe):
        self.exe = exe
        self.start()

    def start(self):
        self.p = subprocess.Popen([self.exe] + (['bt'] if os.environ.get('VSIM_BT') else []), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL,
                                  env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8'})

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()

    def run(self, procs, trace=False, sched_seed=1, runs=(), timeout=60):
        """Runs one simulated execution; returns ([Result], schedule)."""
        if isinstance(procs, Proc):
            procs = [procs]
        q = []
        for p in procs:
            q.append('P %d' % (len(p.args) + 1))
            q += [b'april'.hex()] + [a.encode().hex() for a in p.args]
            q.append('C ' + p.cwd.encode().hex())
            q.append('B ' + (p.root or p.cwd).encode().hex())
            a = p.alloc
            q.append('A %d %d %d %d %d %d %d %d %d %d' % (a.down, a.gap, a.reuse, a.fill, a.seed,
                                                    a.fail_at, a.fail_n, a.pad, a.base, a.align))
            for op, kind, param in p.faults:
                sticky = kind.endswith('+')
                q.append('F %d %d %d' % (op, FAULTS[kind.rstrip('+')] | (STICKY if sticky else 0), param))
            q += ['D %d' % p.dirseed, 'R %d' % p.rndseed, 'I %d' % p.pid, 'L %d' % p.maxops, 'M %d' % p.pipe]
        q.append('W %g' % timeout)
        q.append('T %d' % (1 if trace else 0))
        q.append('S %d' % sched_seed)
        for k, n in runs:
            q.append('H %d %d' % (k, n))
        q.append('GO')
        self.p.stdin.write(('\n'.join(q) + '\n').encode())
        self.p.stdin.flush()
        res, sched, paths = [], '', []
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise HostError('simhost ended: %s' % self.p.poll())
            tag, _, rest = line.decode().rstrip('\n').partition(' ')
            if tag == 'p':
                v = rest.split()
                res.append(Result(KINDS[int(v[0])], int(v[1]), int(v[2]), int(v[3]), v[4],
                                  int(v[5]), int(v[6]), int(v[7]), int(v[8]), int(v[9], 16)))
                paths = []
            elif tag == 'o':
                res[-1].out = bytes.fromhex(rest)
            elif tag == 'e':
                res[-1].err = bytes.fromhex(rest)
            elif tag == 'h':
                res[-1].heap = bytes.fromhex(rest).decode(errors='replace')
            elif tag == 'x':
                res[-1].escape_path = bytes.fromhex(rest).decode(errors='replace')
            elif tag == 'c':
                res[-1].opcount = [int(x) for x in rest.split()]
            elif tag == 'f':
                res[-1].fired = [int(x) for x in rest.split()]
            elif tag == 'n':
                paths.append(bytes.fromhex(rest).decode(errors='replace'))
            elif tag == 't':
                c, f, pa, fd, size, ret = map(int, rest.split())
                res[-1].trace.append((OPS[c], f, paths[pa] if 0 <= pa < len(paths) else '', fd, size, ret))
            elif tag == 's':
                sched = rest
            elif tag == 'done':
                return res, sched
