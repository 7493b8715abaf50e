"""Workspaces: small, versioned source trees with known targets and known program output."""

HDR = 'import System;\n\nusing System;\n\n'


def i32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x & 0x80000000 else x


def lib_class(name, v, k, methods=2):
    out = ['public class %s\n{' % name]
    out.append('    public int F%d;\n' % k)
    out.append('    public static int Get(int a)\n    {\n        return a * %d + %d;\n    }\n' % (v + 3, k))
    for m in range(methods):
        out.append('    public static int M%d(int a, int b)\n    {\n        int s = a;\n'
                   '        for (int i = 0; i < b; i++)\n        {\n            s = s + i * %d;\n        }\n'
                   '        return s;\n    }\n' % (m, v + m + 1))
    out.append('}\n')
    return '\n'.join(out)


def lib_get(v, k, a):
    return i32(a * (v + 3) + k)


def lib_m(v, m, a, b):
    s = a
    for i in range(b):
        s = i32(s + i * (v + m + 1))
    return s


def main_class(calls, v, extra=3):
    """calls: [(class name, k)]; prints one line per call and a few of its own."""
    body, out = [], []
    for n, (name, k) in enumerate(calls):
        body.append('        Console.WriteLine(%s.Get(%d));' % (name, n + 2))
        out.append(lib_get(v, k, n + 2))
        body.append('        Console.WriteLine(%s.M0(%d, %d));' % (name, n, 4))
        out.append(lib_m(v, 0, n, 4))
    for n in range(extra):
        body.append('        Console.WriteLine("line %d of version %d");' % (n, v))
        out.append('line %d of version %d' % (n, v))
    src = 'class Program\n{\n    [EntryPoint]\n    public static void Main()\n    {\n%s\n    }\n}\n' % '\n'.join(body)
    return src, [str(x) for x in out]


# sorts of errors that make a source wrong, each as a change to the library class L2
ERRORS = [
    ('field of an unknown type', lambda f: f.replace('    public int F2;','    public int F2;\n    public Unknown FU;')),
    ('class twice', lambda f: f+'\npublic class L1\n{\n    public int Q;\n}\n'),
    ('unknown base', lambda f: f.replace('public class L2','public class L2 : Missing')),
    ('unknown import', lambda f: f.replace('import System;','import System;\nimport Nowhere;')),
    ('method twice', lambda f: f.replace('    public static int Get(int a)','    public static int Get(int a)\n    {\n        return 1;\n    }\n\n    public static int Get(int a)')),
    ('return type', lambda f: f.replace('return s;','return "x";',1)),
    ('param type', lambda f: f.replace('M1(int a, int b)','M1(Unknown a, int b)')),
    ('brace', lambda f: f.rstrip()[:-1]),
    ('var twice', lambda f: f.replace('int s = a;','int s = a;\n        int s = 3;',1)),
    ('circular base', lambda f: f+'\npublic class X1 : X2\n{\n}\npublic class X2 : X1\n{\n}\n'),
    ('assign undefined', lambda f: f.replace('s = s + i','q = s + i',1)),
    ('args', lambda f: f.replace('return s;','return L0.Get();',1)),
    ('string to int', lambda f: f.replace('int s = a;','int s = "a";',1)),
    ('no such method', lambda f: f.replace('return s;','return L0.Nope(s);',1)),
    ('no such static class', lambda f: f.replace('return s;','return Nope.Get(s);',1)),
    ('missing semicolon', lambda f: f.replace('return s;','return s',1)),
    ('bad token', lambda f: f.replace('return s;','return s @ 3;',1)),
    ('unterminated string', lambda f: f.replace('int s = a;','string z = "abc;',1)),
    ('break outside', lambda f: f.replace('int s = a;','int s = a; break;',1)),
    ('missing return', lambda f: f.replace('return s;','',1)),
    ('dup field', lambda f: f.replace('    public int F2;','    public int F2;\n    public int F2;')),
    ('private access', lambda f: f.replace('return s;','return H9.F(1);',1)+'\npublic class H9\n{\n    private static int F(int a)\n    {\n        return a;\n    }\n}\n'),
    ('two entry points', lambda f: f+'\nclass P2\n{\n    [EntryPoint]\n    public static void Main()\n    {\n    }\n}\n'),
    ('stray brace', lambda f: f + '}\n'),
    ('stray text', lambda f: f + 'garbage\n'),
    ('late import', lambda f: f + 'import System;\n'),
    ('nested method', lambda f: f.replace('return s;', 'int F9(int z) { return z; }\n        return s;', 1)),
    ('empty parentheses', lambda f: f.replace('return s;', '();\n        return s;', 1)),
    ('words', lambda f: f.replace('return s;', 'a b c d;\n        return s;', 1)),
    ('operators', lambda f: f.replace('return s;', 's = s + * / s;\n        return s;', 1)),
    ('two braces', lambda f: f.replace('return s;', 'return s; } }', 1)),
    ('no name', lambda f: f + 'class\n{\n}\n'),
    ('loop header', lambda f: f.replace('return s;', 'for (int i = 0; i < ) { }\n        return s;', 1)),
    ('bad override', lambda f: f+'\npublic class O9\n{\n    public override int Nope(int a)\n    {\n        return a;\n    }\n}\n'),
]


class WS:
    def __init__(self, kind, v):
        self.kind, self.v = kind, v
        self.files = {}
        self.targets = []
        self.args = []
        self.out = []
        self.nosystem = False
        self.syspath = 'System.apl'
        self.raw = ''
        self.errtargets = []
        if kind.startswith('brokenx'):
            self.make_brokenx(v, int(kind[7:]))
        else:
            getattr(self, 'make_' + kind)(v)
        if not self.nosystem:
            self.files[self.syspath] = '@System'
            self.args = self.args + [self.syspath]
        self.stdout = (self.raw or ''.join(x + '\n' for x in self.out)).encode()

    def make_single(self, v):
        m, self.out = main_class([('L0', 0)], v)
        self.files['prog/a.cs'] = HDR + lib_class('L0', v, 0) + '\n' + m
        self.args = ['prog/a.cs']
        self.targets = ['prog.apl']

    def make_multi(self, v):
        names = ['L%d' % k for k in range(4)]
        m, self.out = main_class([(n, k) for k, n in enumerate(names)], v)
        self.files['prog/main.cs'] = HDR + m
        for k, n in enumerate(names):
            self.files['prog/%s.cs' % n.lower()] = HDR + lib_class(n, v, k)
        self.files['prog/zunused.cs'] = HDR + lib_class('Unused', v, 9)
        self.args = ['prog/main.cs'] + ['prog/%s.cs' % n.lower() for n in names] + ['prog/zunused.cs']
        self.targets = ['prog.apl']

    def make_project(self, v):
        names = ['L%d' % k for k in range(3)]
        m, self.out = main_class([(n, k) for k, n in enumerate(names)], v)
        self.files['proj/main.cs'] = HDR + m
        for k, n in enumerate(names):
            self.files['proj/sub/%s.cs' % n.lower()] = HDR + lib_class(n, v, k)
        self.files['proj/sub/aunused.cs'] = HDR + lib_class('Unused', v, 9)
        self.files['proj/zunused.cs'] = HDR + lib_class('Unused2', v, 8)
        self.files['proj/p.project'] = ('<?xml version="1.0" encoding="utf-8" ?>\n<project>\n<name>proj</name>\n<files>\n'
                                        '<file><path>*.cs</path></file>\n<file><path>sub/*.cs</path></file>\n'
                                        '</files>\n</project>\n')
        self.args = ['proj/p.project']
        self.targets = ['proj.apl']

    def make_solution(self, v):
        m, self.out = main_class([('L0', 0), ('L1', 1)], v)
        self.files['sol/S.solution'] = ('<?xml version="1.0" encoding="utf-8" ?>\n<solution>\n<name>S</name>\n<projects>\n'
                                        '<project><path>a/a.project</path></project>\n'
                                        '<project><path>b/b.project</path></project>\n'
                                        '<project><path>c/c.project</path></project>\n</projects>\n</solution>\n')
        for d, n in (('a', 'Alib'), ('b', 'Blib'), ('c', 'Capp')):
            self.files['sol/%s/%s.project' % (d, d)] = ('<project><name>%s</name><files><file><path>*.cs</path>'
                                                        '</file></files></project>\n' % n)
        self.files['sol/a/l0.cs'] = HDR + lib_class('L0', v, 0)
        self.files['sol/a/zunused.cs'] = HDR + lib_class('Unused', v, 9)
        self.files['sol/c/zunused.cs'] = HDR + lib_class('Unused2', v, 8)
        self.files['sol/b/l1.cs'] = HDR + lib_class('L1', v, 1)
        self.files['sol/c/main.cs'] = ('import System;\nimport Alib;\nimport Blib;\n\nusing System;\nusing Alib;\n'
                                       'using Blib;\n\n' + m)
        self.args = ['sol/S.solution']
        self.targets = ['Alib.apl', 'Blib.apl', 'Capp.apl']

    def make_large(self, v):
        names = ['L%d' % k for k in range(40)]
        m, self.out = main_class([(n, k) for k, n in enumerate(names)], v)
        self.files['big/main.cs'] = HDR + m
        for part in range(4):
            self.files['big/p%d.cs' % part] = HDR + '\n'.join(
                lib_class(n, v, k, 6) for k, n in enumerate(names) if k % 4 == part)
        self.args = ['big/main.cs', 'big/p0.cs', 'big/p1.cs', 'big/p2.cs', 'big/p3.cs']
        self.targets = ['big.apl']

    def make_outdir(self, v):
        m, self.out = main_class([('L0', 0)], v)
        self.files['prog/a.cs'] = HDR + lib_class('L0', v, 0) + '\n' + m
        self.files['out/keep.txt'] = 'keep\n'
        self.args = ['-o', 'out', 'prog/a.cs']
        self.targets = ['out/prog.apl']

    def make_twoproj(self, v):
        m, self.out = main_class([('L1', 1)], v)
        self.files['w/one.project'] = '<project><name>one</name><files><file><path>a.cs</path></file></files></project>\n'
        self.files['w/two.project'] = ('<project><name>two</name><files><file><path>b.cs</path></file>'
                                       '</files></project>\n')
        self.files['w/a.cs'] = HDR + lib_class('L0', v, 0)
        self.files['w/b.cs'] = HDR + lib_class('L1', v, 1) + '\n' + m
        self.args = ['w/one.project', 'w/two.project']
        self.targets = ['w.apl', 'w1.apl']

    def make_wildproj(self, v):
        """Projects of one directory, found by a pattern: their assemblies are numbered in the order of their names."""
        m, self.out = main_class([('L2', 2)], v)
        for k, n in enumerate(('one', 'two', 'zed')):
            self.files['w/%s.project' % n] = '<project><name>x</name><files><file><path>%s*.cs</path></file></files></project>\n' % n
            self.files['w/%s_l.cs' % n] = HDR + lib_class('L%d' % k, v, k) + ('\n' + m if k == 2 else '')
        self.args = ['w/*.project']
        self.targets = ['w.apl', 'w1.apl', 'w2.apl']

    def make_reflibs(self, v):
        """Main compiled against library assemblies found by a pattern."""
        m, self.out = main_class([('L0', 0), ('L1', 1)], v)
        for t in ('Alib.apl', 'Blib.apl'):
            self.files['libs/' + t] = '@apl:solution:%d:%s' % (v, t)
        self.files['prog/main.cs'] = ('import System;\nimport Alib;\nimport Blib;\n\nusing System;\nusing Alib;\nusing Blib;\n\n' + m)
        self.files['prog/other.cs'] = HDR + lib_class('Unused', v, 9)
        self.args = ['prog/*.cs', 'libs/*.apl']
        self.targets = ['prog.apl']

    def make_dot(self, v):
        """A directory argument; the assembly lands in the same directory."""
        names = ['L%d' % k for k in range(2)]
        m, self.out = main_class([(n, k) for k, n in enumerate(names)], v)
        self.files['main.cs'] = HDR + m
        for k, n in enumerate(names):
            self.files['%s.cs' % n.lower()] = HDR + lib_class(n, v, k)
        self.files['zunused.cs'] = HDR + lib_class('Unused', v, 9)
        self.files['.l0.cs.swp'] = 'not { a source'
        self.syspath = 'sys/System.apl'
        self.args = ['.']
        self.targets = ['r.apl']

    def make_twosol(self, v):
        """Two solutions on one command line."""
        m, self.out = main_class([('L2', 2)], v)
        for k, (d, n) in enumerate((('one', 'Done'), ('two', 'Eapp'))):
            self.files['%s/%s.solution' % (d, d)] = ('<solution><name>%s</name><projects><project><path>p/p.project</path>'
                                                     '</project></projects></solution>\n' % d)
            self.files['%s/p/p.project' % d] = ('<project><name>%s</name><files><file><path>*.cs</path></file></files>'
                                                '</project>\n' % n)
        self.files['one/p/a.cs'] = HDR + lib_class('L0', v, 0)
        self.files['one/p/b.cs'] = HDR + lib_class('L1', v, 1)
        self.files['two/p/a.cs'] = HDR + lib_class('L2', v, 2) + '\n' + m
        self.args = ['one/one.solution', 'two/two.solution']
        self.targets = ['Done.apl', 'Eapp.apl']

    def make_brokentwo(self, v):
        self.make_twosol(v)
        self.files['one/p/b.cs'] = self.files['one/p/b.cs'].replace('return s;', 'return noSuchThing(%d);' % v)
        self.errtargets = ['Done.apl']

    def make_brokendot(self, v):
        self.make_dot(v)
        self.files['l1.cs'] = self.files['l1.cs'].replace('return s;', 'return s + ;')
        self.errtargets = ['r.apl']

    def make_brokenlarge(self, v):
        """The error is in the last method of the last file."""
        self.make_large(v)
        f = self.files['big/p3.cs']
        k = f.rindex('return s;')
        self.files['big/p3.cs'] = f[:k] + 'return s + missing;' + f[k + 9:]
        self.errtargets = ['big.apl']

    def make_broken(self, v):
        self.make_multi(v)
        self.files['prog/l2.cs'] = self.files['prog/l2.cs'].replace('return s;', 'return undefinedName%d;' % v)
        self.errtargets = ['prog.apl']

    def make_brokenx(self, v, n):
        """One error of every sort in one of several files."""
        self.make_multi(v)
        f = self.files['prog/l2.cs']
        self.files['prog/l2.cs'] = ERRORS[n][1](f)
        assert self.files['prog/l2.cs'] != f
        self.errtargets = ['prog.apl']

    def make_brokensol(self, v):
        self.make_solution(v)
        self.files['sol/b/l1.cs'] = self.files['sol/b/l1.cs'].replace('return s;', 'return noSuchThing(%d);' % v)
        self.errtargets = ['Blib.apl']

    def make_ref(self, v):
        """Main compiled against a library assembly made before."""
        m, self.out = main_class([('L0', 0)], v)
        self.files['lib.apl'] = '@apl:apps:%d:lib.apl' % v
        self.files['prog/a.cs'] = ('import System;\nimport lib;\n\nusing System;\nusing lib;\n\n' + m)
        self.args = ['prog/a.cs', 'lib.apl']
        self.targets = ['prog.apl']

    def make_exec(self, v):
        """Nothing to compile: assemblies made before are run."""
        m, self.out = main_class([('L0', 0), ('L1', 1)], v)
        for t in ('Alib.apl', 'Blib.apl', 'Capp.apl'):
            self.files[t] = '@apl:solution:%d:%s' % (v, t)
        self.args = ['Capp.apl', 'Alib.apl', 'Blib.apl']
        self.targets = []

    def make_generics(self, v):
        body = []
        for k in range(12):
            body.append('class G%d { public int[] A; public string[] B; public G%d[] C; public long[,] D; }' % (k, (k + 5) % 12))
        for k in range(8):
            body.append('interface I%d { int F%d(int a, string b); }' % (k, k))
            body.append('class K%d : I%d { public int F%d(int a, string b) { G%d[] g = new G%d[a]; object o = g; '
                        'K%d[] q = new K%d[2]; int[,] m = new int[2, %d]; byte[] y = new byte[3]; return g.Length + m.Length; } }'
                        % (k, k, k, k, k, (k * 3) % 8, (k * 3) % 8, k + 1))
        m, self.out = main_class([('L0', 0)], v)
        self.files['prog/a.cs'] = HDR + '\n'.join(body) + '\n' + lib_class('L0', v, 0) + '\n' + m
        self.args = ['prog/a.cs']
        self.targets = ['prog.apl']

    def make_system(self, v):
        import core
        self.files.update(core.system_sources())
        self.args = ['System/System.project']
        self.targets = ['System.apl']
        self.nosystem = True

    def make_chatty(self, v):
        """Prints more than any buffer holds, in lines of every length."""
        src = ['class Program\n{\n    [EntryPoint]\n    public static void Main()\n    {']
        out = []
        n = 120 + 37 * v
        src.append('        int s = %d;' % v)
        src.append('        for (int i = 0; i < %d; i++)\n        {\n            s = s * 31 + i;\n'
                   '            Console.WriteLine(s);' % n)
        long = ('abcdefghijklmnopqrstuvwxyz0123456789' * 9)[:60 + 23 * v]
        src.append('            if ((i & 15) == 3)\n            {\n                Console.Write(i);\n'
                   '                Console.Write(" ");\n                Console.WriteLine("%s");\n            }' % long)
        src.append('        }\n        Console.Write("end of version %d");\n    }\n}\n' % v)
        x = v
        for i in range(n):
            x = i32(x * 31 + i)
            out.append(str(x))
            if (i & 15) == 3:
                out.append('%d %s' % (i, long))
        self.files['talk/a.cs'] = HDR + '\n'.join(src)
        self.args = ['talk/a.cs']
        self.targets = ['talk.apl']
        self.raw = '\n'.join(out) + '\nend of version %d' % v

    def make_chattyexec(self, v):
        self.make_chatty(v)
        self.files = {'talk.apl': '@apl:chatty:%d:talk.apl' % v}
        self.args = ['talk.apl']
        self.targets = []

    def make_apps(self, v):
        """A library assembly that was compiled before, referenced by file."""
        m, self.out = main_class([('L0', 0)], v)
        self.files['lib/l0.cs'] = HDR + lib_class('L0', v, 0)
        self.args = ['lib/l0.cs']
        self.targets = ['lib.apl']


KINDS = ['single', 'multi', 'project', 'solution', 'large', 'outdir', 'twoproj']
_cache = {}


def ws(kind, v):
    if (kind, v) not in _cache:
        _cache[kind, v] = WS(kind, v)
    return _cache[kind, v]
