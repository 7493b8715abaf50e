#!/usr/bin/env python3
"""Out-of-tree, content-addressed build of /repo's working tree for the simulator.

The working tree (tracked and untracked, not ignored) is staged into /verif/.cache/src, every
translation unit is compiled there by the project's own compiler and flags, and an object is
reused only when the text of the unit and of every staged header it read is the same as when the
object was made, so a check always sees what /repo says now.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
SRC = os.path.join(CACHE, 'src')
OBJ = os.path.join(CACHE, 'obj')
SIM = os.path.join(VERIF, 'sim')
CXX = 'clang++-18'
BASE = ['-w', '-include', '/opt/vp/compat/compat.h', '-D__error_t_defined=1', '-O0', '-std=c++2a',
        '-DBOOST_LOG_DYN_LINK', '-DBOOST_FILESYSTEM_DYN_LINK', '-fno-pie',
        '-I%s/include' % SRC, '-I%s/include/modules' % SRC, '-I%s' % SRC,
        '-I%s/os/linux' % SRC, '-I%s/arch/x86_64' % SRC, '-I%s/global/default' % SRC]
LIBS = ['-lpthread', '-lboost_log', '-lboost_system', '-lboost_filesystem', '-ldl']
JOBS = int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 8)
HEAVY = ['modules/exec/commands.cpp', 'modules/core/core.cpp', 'modules/april/parser.cpp',
         'modules/compile/analyze_tree.cpp', 'modules/rt/rt.cpp', 'modules/compile/ast.cpp']


class BuildError(Exception):
    pass


def sha(data):
    return hashlib.sha256(data).hexdigest()


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def log(*a):
    print('[build]', *a, file=sys.stderr, flush=True)


def stage():
    """Copies /repo's working tree into SRC; returns {relative path: sha256}."""
    out = subprocess.run(['git', '-C', REPO, 'ls-files', '-coz', '--exclude-standard'],
                         check=True, stdout=subprocess.PIPE).stdout
    want = {}
    for name in out.decode().split('\0'):
        if not name or name.startswith('test/') or name.startswith('.git'):
            continue
        p = os.path.join(REPO, name)
        if os.path.isfile(p):
            want[name] = read(p)
    gen = {'include/config.h': b' \n#define CONFIG_NULLPTR_SUPPORTED 1\n'
                               b'#define CONFIG_BASE_NAMESPACE    april\n'
                               b'#define CONFIG_OPTIMIZE          0\n'}
    want.update(gen)
    hashes = {n: sha(d) for n, d in want.items()}
    # text.src -> text.csec, as build.sh does
    os.makedirs(CACHE, exist_ok=True)
    for n in list(want):
        if n.endswith('.src') and n.startswith('modules/'):
            key = sha(b''.join([want[n], want.get('tools/csec', b'')]))
            cached = os.path.join(CACHE, 'csec', key)
            if not os.path.exists(cached):
                os.makedirs(os.path.dirname(cached), exist_ok=True)
                r = subprocess.run(['bash', '-O', 'xpg_echo', os.path.join(REPO, 'tools/csec'),
                                    '--home', REPO], input=want[n], stdout=subprocess.PIPE)
                if not r.stdout:
                    raise BuildError('csec produced nothing for ' + n)
                with open(cached + '.tmp', 'wb') as f:
                    f.write(r.stdout)
                os.rename(cached + '.tmp', cached)
            want[n[:-4] + '.csec'] = read(cached)
            hashes[n[:-4] + '.csec'] = sha(want[n[:-4] + '.csec'])
    have = set()
    for d, _, files in os.walk(SRC):
        for f in files:
            have.add(os.path.relpath(os.path.join(d, f), SRC))
    for n in have - set(want):
        os.unlink(os.path.join(SRC, n))
    for n, data in want.items():
        p = os.path.join(SRC, n)
        if n in have and read(p) == data:
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.isdir(p):
            shutil.rmtree(p)
        with open(p, 'wb') as f:
            f.write(data)
        if n.startswith('tools/'):
            os.chmod(p, 0o755)
    return hashes


def module_sources(hashes):
    """The translation units of the shipped executable, by the project's own layout."""
    dirs = ['global/default', 'common', 'algorithm', 'arch/x86_64', 'os/linux', 'lib']
    mods = sorted({n.split('/')[1] for n in hashes if n.startswith('modules/') and n.count('/') >= 2})
    dirs += ['modules/' + m for m in mods]
    return [n for d in dirs for n in sorted(hashes)
            if n.endswith('.cpp') and os.path.dirname(n) == d]


def compile_one(tu, flags, hashes, variant, abspath=False):
    path = tu if abspath else os.path.join(SRC, tu)
    fkey = sha(('\0'.join([CXX] + flags) + '\0' + path + '\0' +
                sha(read('/opt/vp/compat/compat.h'))).encode())[:24]
    idx = os.path.join(OBJ, fkey + '.json')
    entries = []
    try:
        entries = json.load(open(idx))
    except Exception:
        pass

    def cur(dep):
        if dep.startswith(SRC + '/'):
            return hashes.get(dep[len(SRC) + 1:])
        try:
            return sha(read(dep))
        except OSError:
            return None
    for e in entries:
        if os.path.exists(e['obj']) and all(cur(d) == h for d, h in e['deps'].items()):
            return e['obj'], False
    tmp = os.path.join(OBJ, '%s.%d.tmp' % (fkey, os.getpid()))
    r = subprocess.run([CXX] + flags + ['-MMD', '-MF', tmp + '.d', '-c', path, '-o', tmp + '.o'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('cannot compile %s\n%s' % (path, r.stdout.decode(errors='replace')[-3000:]))
    deps = re.sub(r'\\\n', ' ', open(tmp + '.d').read()).split(':', 1)[1].split()
    deps = [d for d in map(os.path.normpath, deps) if d.startswith(SRC + '/') or d.startswith(SIM)]
    dh = {d: cur(d) for d in deps}
    obj = os.path.join(OBJ, sha(json.dumps([fkey, sorted(dh.items())]).encode())[:32] + '.o')
    os.rename(tmp + '.o', obj)
    os.unlink(tmp + '.d')
    entries = [e for e in entries if os.path.exists(e['obj'])][-3:] + [{'deps': dh, 'obj': obj}]
    for e in entries[:-4]:
        pass
    with open(idx + '.tmp%d' % os.getpid(), 'w') as f:
        json.dump(entries, f)
    os.rename(idx + '.tmp%d' % os.getpid(), idx)
    return obj, True


def compile_all(jobs):
    """jobs: [(tu, flags, variant, abspath)] -> [objects], heavy ones first."""
    hashes = jobs['hashes']
    items = jobs['items']
    order = sorted(range(len(items)), key=lambda i: (items[i][0] not in HEAVY,
                   HEAVY.index(items[i][0]) if items[i][0] in HEAVY else 0, i))
    res = [None] * len(items)
    built = 0
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, items[i][0], items[i][1], hashes, '', items[i][2]): i
                for i in order}
        err = None
        for f in concurrent.futures.as_completed(futs):
            try:
                o, fresh = f.result()
                res[futs[f]] = o
                built += fresh
            except BuildError as e:
                err = err or e
        if err:
            raise err
    return res, built


def link(name, objs, extra, libs):
    key = sha(json.dumps([objs, extra, libs]).encode())[:24]
    out = os.path.join(CACHE, 'bin', '%s-%s' % (name, key))
    if os.path.exists(out):
        os.utime(out)
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run([CXX, '-no-pie', '-fuse-ld=lld', '-Wl,--no-as-needed'] + extra +
                       ['-o', tmp] + objs + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('cannot link %s\n%s' % (name, r.stdout.decode(errors='replace')[-3000:]))
    os.rename(tmp, out)
    return out


def prune():
    """Keeps the cache from growing without bound."""
    try:
        objs = [os.path.join(OBJ, f) for f in os.listdir(OBJ) if f.endswith('.o')]
        total = sum(os.path.getsize(o) for o in objs)
        if total > 6 << 30:
            for o in sorted(objs, key=os.path.getmtime)[:len(objs) // 2]:
                os.unlink(o)
        b = os.path.join(CACHE, 'bin')
        bins = [os.path.join(b, f) for f in os.listdir(b)]
        for o in sorted(bins, key=os.path.getmtime)[:-24]:
            os.unlink(o)
    except OSError:
        pass


class Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


STREAMS = re.compile(r'^(_ZN5boost2io|_ZNK5boost2io|_ZN5boost12basic_formatI|_ZNK5boost12basic_formatI|_ZNSt?(7__cxx11)?'
                     r'(18basic_stringstream|19basic_ostringstream|15basic_stringbuf|13basic_ostream)|_ZStlsI)')


def stream_ranges(exe):
    """Address ranges of stream and boost::format code, which swallows std::bad_alloc by contract."""
    out = exe + '.streams'
    if os.path.exists(out):
        os.utime(out)
        return
    r = subprocess.run(['nm', '-S', '--defined-only', exe], stdout=subprocess.PIPE, check=True).stdout.decode()
    rows = []
    for line in r.splitlines():
        f = line.split()
        if len(f) == 4 and f[2] in 'tTwW' and STREAMS.match(f[3]):
            rows.append((int(f[0], 16), int(f[1], 16)))
    with open(out + '.tmp', 'w') as f:
        for a, n in sorted(set(rows)):
            f.write('%x %x\n' % (a, n))
    os.rename(out + '.tmp', out)


def build_simhost():
    """The whole system, main() renamed, linked with the simulated kernel and allocator."""
    with Lock():
        t0 = time.time()
        hashes = stage()
        os.makedirs(OBJ, exist_ok=True)
        items = []
        for tu in module_sources(hashes):
            fl = BASE + (['-Dmain=april_real_main'] if tu == 'modules/april/april.cpp' else [])
            items.append((tu, fl, False))
        simflags = ['-O2', '-g1', '-std=c++20', '-fno-pie', '-Wall', '-fno-exceptions']
        items.append((os.path.join(SIM, 'simhost.cpp'), simflags, True))
        objs, built = compile_all({'hashes': hashes, 'items': items})
        exe = link('simhost', objs, [], LIBS)
        stream_ranges(exe)
        prune()
        log('simhost: %d units, %d compiled, %.1f s' % (len(items), built, time.time() - t0))
        return exe


TSAN = ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-O1', '-g1', '-I' + SIM]
THRSIM = ['-O2', '-g1', '-std=c++20', '-fno-pie', '-Wall']


def build_thr_core():
    """The building blocks of algorithm/ with their scenarios, all of it instrumented."""
    with Lock():
        t0 = time.time()
        hashes = stage()
        os.makedirs(OBJ, exist_ok=True)
        items = [(os.path.join(SIM, 'thr_core.cpp'), BASE + TSAN, True)]
        items += [(tu, BASE + TSAN, False) for tu in module_sources(hashes) if not tu.startswith('modules/')]
        items.append((os.path.join(SIM, 'thrsim.cpp'), THRSIM, True))
        objs, built = compile_all({'hashes': hashes, 'items': items})
        exe = link('thrcore', objs, ['-rdynamic'], LIBS)
        prune()
        log('thrcore: %d units, %d compiled, %.1f s' % (len(items), built, time.time() - t0))
        return exe


def build_thr_full():
    """The whole system, the language registry's unit instrumented, with its scenarios."""
    with Lock():
        t0 = time.time()
        hashes = stage()
        os.makedirs(OBJ, exist_ok=True)
        tus = module_sources(hashes)
        inst = [t for t in tus if not t.startswith('modules/') or t == 'modules/compile/compile.cpp']
        items = [(os.path.join(SIM, 'thr_full.cpp'), BASE + TSAN, True)]
        items += [(tu, BASE + TSAN, False) for tu in inst]
        for tu in tus:
            if tu not in inst:
                fl = BASE + (['-Dmain=april_real_main'] if tu == 'modules/april/april.cpp' else [])
                items.append((tu, fl, False))
        items.append((os.path.join(SIM, 'thrsim.cpp'), THRSIM, True))
        objs, built = compile_all({'hashes': hashes, 'items': items})
        exe = link('thrfull', objs, ['-rdynamic'], LIBS)
        prune()
        log('thrfull: %d units, %d compiled, %.1f s' % (len(items), built, time.time() - t0))
        return exe


if __name__ == '__main__':
    try:
        print(build_simhost())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
