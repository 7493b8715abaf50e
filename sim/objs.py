"""Generated April programs about objects, arrays, structs and boxes, and their reference model.

Main is a list of statements over typed paths (variable, field, array element); a statement is a
tuple, emitted as April source and executed by the interpreter below, which follows the documented
C#-like meaning.  A statement that would dereference null or index out of range is Invalid and
never generated (except inside the `guard` statements, which expect the documented exception).
"""
import random
import re

from progs import i32, i64


class Invalid(Exception):
    pass


SCALARS = ('int', 'long', 'bool', 'byte', 'short')
BITS = {'int': 32, 'long': 64, 'byte': -8, 'short': 16, 'sbyte': 8, 'ushort': -16, 'uint': -32, 'ulong': -64, 'char': -32}
PLAIN = ('sbyte', 'ushort', 'uint', 'ulong', 'char', 'double')       # stored, copied, boxed and printed, not calculated with
VALUES = SCALARS + PLAIN
WIDER = {'long': ('int', 'short', 'sbyte'), 'int': ('short', 'sbyte'), 'short': ('sbyte',)}
FUNS = {'Fun': ('int', ('int', 'int')), 'Gun': ('long', ('int', 'long', 'int'))}     # delegate types: result, parameters
NFUN = 3                             # static methods of each
SHOWN = tuple(t for t in VALUES if t != 'char')


def wrap(t, v):
    if t == 'bool':
        return bool(v)
    if t == 'double':
        return v
    b = BITS[t]
    if b < 0:
        return v & ((1 << -b) - 1)
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v


class Obj:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class Arr:
    __slots__ = ('typ', 'dims', 'v')

    def __init__(self, typ, dims, v):
        self.typ, self.dims, self.v = typ, dims, v


class SVal:
    __slots__ = ('typ', 'f')

    def __init__(self, typ, f):
        self.typ, self.f = typ, f

    def copy(self):
        return SVal(self.typ, {k: copyv(v) for k, v in self.f.items()})


class Box:
    __slots__ = ('typ', 'v')

    def __init__(self, typ, v):
        self.typ, self.v = typ, v


class Dlg:
    """A delegate: a static method, or a method of a class and its object."""
    __slots__ = ('typ', 'n', 'obj', 'cls')

    def __init__(self, typ, n, obj=None, cls=None):
        self.typ, self.n, self.obj, self.cls = typ, n, obj, cls


def copyv(v):
    return v.copy() if isinstance(v, SVal) else v


class Cls:
    def __init__(self, name, base, supers={}):
        self.name, self.base, self.supers = name, base, supers     # supers: interface -> the interfaces it extends, all of them
        self.expl = {}               # (interface, n) -> const: explicit implementation, reached through the interface only
        self.own = []                # (field, type)
        self.virt = {}               # slot -> (const, field or None): returns field * const + a
        self.ifaces = []             # interfaces declared by this class
        self.imeth = {}              # (interface, n) -> (const, field or None, '' | virtual | override)
        self.ctor = None             # [(field, type)] : parameters
        self.props = []              # (property, field, type)
        self.dmeth = {}              # delegate type -> (const, int field or None): methods M.. that delegates are made of

    def fields(self):
        return (self.base.fields() if self.base else []) + self.own

    def isa(self, name):
        c = self
        while c:
            if c.name == name or name in c.all_ifaces():
                return True
            c = c.base
        return False

    def all_ifaces(self):
        return [x for i in self.ifaces for x in [i] + self.supers.get(i, [])]

    def find_virt(self, slot):
        c = self
        while c:
            if slot in c.virt:
                return c.virt[slot]
            c = c.base

    def find_iface(self, i):
        c = self
        while c:
            if i in c.all_ifaces():
                return True
            c = c.base
        return False

    def find_imeth(self, key):
        c = self
        while c:
            if key in c.imeth:
                return c.imeth[key]
            c = c.base


def words(*xs):
    return ' '.join(x for x in xs if x)


class Prog:
    def __init__(self):
        self.classes, self.structs, self.slots, self.ifaces = [], {}, 0, {}   # interface -> number of methods
        self.vars = {}               # name -> type
        self.main = []
        self.isupers = {}            # interface -> interfaces it extends, transitively
        self.scoped = set()          # variables declared in a block
        self.funs = False
        self.stats = {}

    # ------------------------------------------------------------ types

    def cls(self, n):
        for c in self.classes:
            if c.name == n:
                return c

    def fields_of(self, t):
        if t in self.structs:
            return self.structs[t]
        c = self.cls(t)
        return c.fields() if c else []

    def is_ref(self, t):
        return not (t in VALUES or t in self.structs or t in FUNS)

    def default(self, t):
        if t == 'bool':
            return False
        if t == 'double':
            return 0.0
        if t in VALUES:
            return 0
        if t in self.structs:
            return SVal(t, {f: self.default(ft) for f, ft in self.structs[t]})
        return None

    # ------------------------------------------------------------ model

    def run(self, budget=0):
        self.start()
        self.stats = {}
        for s in self.main:
            self.do(s)
        return self.out, None

    def start(self):
        self.env = {n: Dlg(t, 0) if t in FUNS else self.default(t) for n, t in self.vars.items()}
        self.out = []

    def invoke(self, d, a):
        self.count('delegate called')
        if d.typ == 'Fun':
            if d.obj is None:
                return i32(a[0] + a[1] * 3 if d.n == 0 else a[0] * a[1] - 7 if d.n == 1 else a[0] - a[1])
            const, f = d.cls.dmeth['Fun']
            return i32(a[0] * const - a[1] + (d.obj.f[f] if f else 0))
        if d.obj is None:
            return i64(a[1] * 5 + a[0] - a[2] if d.n == 0 else a[1] - a[0] * a[2] if d.n == 1 else a[1] + a[2])
        const, f = d.cls.dmeth['Gun']
        return i64(a[1] * const + a[0] - a[2] + (d.obj.f[f] if f else 0))

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def put(self, v):
        if isinstance(v, bool):
            self.out.append('True' if v else 'False')
        elif isinstance(v, float):
            self.out.append('%g' % v)
        else:
            self.out.append(str(v))

    def container(self, p):
        """(dictionary-like, key) of an lvalue path."""
        k = p[0]
        if k == 'var':
            return self.env, p[1]
        if k == 'fld':
            o = self.get(p[1]) if not self.is_struct_path(p[1]) else self.raw(p[1])
            if o is None or not isinstance(o, (Obj, SVal)) or p[2] not in o.f:
                raise Invalid
            return o.f, p[2]
        if k == 'idx':
            a = self.get(p[1])
            if not isinstance(a, Arr):
                raise Invalid
            ix = [self.ev(e) for e in p[2]]
            n = 0
            for i, d in zip(ix, a.dims):
                if i < 0 or i >= d:
                    raise Invalid
                n = n * d + i
            if len(ix) != len(a.dims):
                raise Invalid
            return a.v, n
        raise AssertionError(p)

    def raw(self, p):
        c, k = self.container(p)
        return c[k]

    def is_struct_path(self, p):
        return isinstance(self.raw(p), SVal)

    def get(self, p):
        return copyv(self.raw(p))

    def set(self, p, v):
        c, k = self.container(p)
        c[k] = copyv(v)

    def new(self, cls, args=()):
        self.count('object allocated')
        o = Obj(cls, {f: self.default(t) for f, t in cls.fields()})
        if args:
            for (f, t), a in zip(cls.ctor, args):
                o.f[f] = wrap(t, a)
        return o

    def newarr(self, t, dims):
        n = 1
        for d in dims:
            n *= d
        self.count('array allocated')
        return Arr(t, tuple(dims), [self.default(t) for _ in range(n)])

    def ev(self, e):
        k = e[0]
        if k == 'c':
            return e[1]
        if k == 'p':
            return self.get(e[1])
        if k == 'null':
            return None
        if k == 'str':
            return e[1]
        if k == 'bin':
            t, op, a, b = e[1], e[2], self.ev(e[3]), self.ev(e[4])
            r = (a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else
                 a & b if op == '&' else a | b if op == '|' else a ^ b)
            return wrap(t, r)
        if k == 'cmp':
            a, b = self.ev(e[2]), self.ev(e[3])
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[e[1]]
        if k == 'same':
            a, b = self.ev(e[2]), self.ev(e[3])
            return (a is b) == (e[1] == '==')
        if k == 'conv':
            return wrap(e[1], int(self.ev(e[2])))
        if k == 'new':
            return self.new(self.cls(e[1]), [self.ev(a) for a in e[2]])
        if k == 'newarr':
            return self.newarr(e[1], e[2])
        if k == 'arrlit':
            a = self.newarr(e[1], [len(e[2])])
            for n, x in enumerate(e[2]):
                v = self.ev(x)
                a.v[n] = wrap(e[1], v) if e[1] in VALUES else copyv(v)
            return a
        if k == 'len':
            a = self.get(e[1])
            if a is None:
                raise Invalid
            return len(a.v)
        if k == 'virt':
            o = self.get(e[1])
            if o is None:
                raise Invalid
            self.count('virtual call')
            return self.method(o, o.cls.find_virt(e[2]), self.ev(e[3]))
        if k == 'icall':
            o = self.get(e[1])
            if o is None:
                raise Invalid
            self.count('interface call')
            if len(e) > 4:
                c = o.cls
                while c and e[2] not in c.expl:
                    c = c.base
                if c:
                    return i32(c.expl[e[2]] + self.ev(e[3]))
            return self.method(o, o.cls.find_imeth(e[2])[:2], self.ev(e[3]))
        if k == 'smeth':
            s = self.raw(e[1])
            if not isinstance(s, SVal):
                raise Invalid
            a = self.ev(e[3])
            s.f[e[2]] = i32(s.f[e[2]] + a)
            return s.f[e[2]]
        if k == 'prop':
            return self.get(('fld', e[1], e[3]))
        if k == 'is':
            o = self.ev(e[1])
            return self.isa(o, e[2])
        if k == 'as':
            o = self.ev(e[1])
            return o if self.isa(o, e[2]) else None
        if k == 'cast':
            o = self.ev(e[1])
            if o is not None and not self.isa(o, e[2]):
                raise Invalid
            return o
        if k == 'box':
            self.count('value boxed')
            return Box(e[1], copyv(self.ev(e[2])))
        if k == 'unbox':
            o = self.ev(e[2])
            if not isinstance(o, Box) or o.typ != e[1]:
                raise Invalid
            return copyv(o.v)
        if k == 'mk':
            return SVal(e[1], self.mkfields(e[1], self.ev(e[2])))
        if k == 'deep':          # list of n objects linked through field f; sum of field g
            return self.deep(e)
        if k == 'cond':
            return self.ev(e[2]) if self.ev(e[1]) else self.ev(e[3])
        if k == 'dst':
            return Dlg(e[1], e[2])
        if k in ('din', 'dself'):
            o = self.get(e[2])
            if not isinstance(o, Obj):
                raise Invalid
            return Dlg(e[1], -1, o, self.cls(e[3]))
        if k == 'dpick':
            return Dlg(e[1], 0 if self.ev(e[2]) > 0 else 1)
        if k == 'dcall':
            d = self.get(e[2])
            if d is None:
                raise Invalid
            return self.invoke(d, [self.ev(a) for a in e[3]])
        if k == 'wide':              # implicit conversion to a wider type
            self.count('implicit widening')
            return self.ev(e[1])
        raise AssertionError(k)

    def mkfields(self, t, a):
        r = {}
        for n, (f, ft) in enumerate(self.structs[t]):
            if ft == 'bool':
                r[f] = a > n
            elif ft == 'double':
                r[f] = n + .5
            elif ft in VALUES:
                r[f] = wrap(ft, i32(a + n))
            else:
                r[f] = self.default(ft)
        return r

    def deep(self, e):
        _, cname, link, val, n, seed = e
        tot = 0
        for k in range(n):
            tot = i32(tot * 3 + i32(seed + k))
            self.new(self.cls(cname))
        return tot

    def isa(self, o, t):
        if o is None:
            return False
        if isinstance(o, Obj):
            return t == 'object' or o.cls.isa(t)
        if isinstance(o, Box):
            return t in ('object', o.typ)
        if isinstance(o, Arr):
            return t == 'object'
        return t in ('object', 'string')

    def method(self, o, m, a):
        const, f = m
        if f is None:
            return i32(const + a)
        return i32(i32(int(o.f[f]) * const) + a)

    def do(self, s):
        k = s[0]
        if k == 'set':
            if s[1][0] == 'idx' and self.raw(s[1][1]) is None:
                raise Invalid
            self.container(s[1])
            v = self.ev(s[2])
            self.set(s[1], v)
        elif k == 'op':
            c, key = self.container(s[2])
            t, op = s[1], s[3]
            v = self.ev(s[4])
            c[key] = wrap(t, c[key] + v if op == '+=' else c[key] - v if op == '-=' else c[key] ^ v)
        elif k == 'inc':
            c, key = self.container(s[2])
            c[key] = wrap(s[1], c[key] + (1 if s[3] == '++' else -1))
        elif k == 'print':
            self.put(self.ev(s[1]))
        elif k == 'setprop':
            self.set(('fld', s[1], s[3]), self.ev(s[4]))
        elif k == 'swap':
            a, b = self.get(s[2]), self.get(s[3])
            self.set(s[2], b)
            self.set(s[3], a)
        elif k == 'refs':
            self.container(s[2])
            v = self.raw(s[2])
            v.f[s[3]] = i32(v.f[s[3]] + s[4])
        elif k == 'outs':
            self.container(s[1])
            self.container(s[2])
            a = self.ev(s[3])
            self.set(s[1], i32(a + 1))
            self.set(s[2], i64(i64(a) * 4294967296 + 5))
        elif k == 'byval':       # a struct passed by value: the callee's change is not seen
            v = self.get(s[2])
            if not isinstance(v, SVal):
                raise Invalid
            self.put(i32(v.f[s[3]] + s[4]))
        elif k == 'fill':
            a = self.get(s[2])
            if a is None or len(a.dims) != 1:
                raise Invalid
            for n in range(len(a.v)):
                a.v[n] = wrap(s[1], n * s[3] + s[4])
        elif k == 'sum':
            a = self.get(s[2])
            if a is None or len(a.dims) != 1:
                raise Invalid
            t = 0
            for n in range(len(a.v)):
                t = i64(t * 31 + a.v[n])
            self.put(t)
        elif k == 'filln':
            a = self.get(s[2])
            if a is None or a.dims != s[3]:
                raise Invalid
            for n in range(len(a.v)):
                a.v[n] = wrap(s[1], n * s[4] + s[5])
        elif k == 'dump2':
            a = self.get(s[2])
            if a is None or a.dims != s[3]:
                raise Invalid
            t = 0
            for n in range(len(a.v)):
                t = i64(t * 31 + a.v[n])
            self.put(t)
        elif k == 'loop':
            for n in range(s[2]):
                self.env[s[1]] = n
                for x in s[3]:
                    self.do(x)
        elif k == 'scope':
            for n, t, e in s[1]:
                self.env[n] = copyv(self.ev(e))
            for x in s[2]:
                self.do(x)
        elif k == 'mix':
            t = 0
            for (pt, e) in s[1]:
                v = self.ev(e)
                if pt in SCALARS:
                    t = i64(t * 31 + int(v))
                elif pt in self.structs:
                    for f, ft in self.structs[pt]:
                        if ft in SCALARS:
                            t = i64(t * 31 + int(v.f[f]))
                else:
                    t = i64(t * 31 + (v is None))
            self.put(t)
        elif k == 'if':
            for x in (s[2] if self.ev(s[1]) else s[3]):
                self.do(x)
        elif k == 'garbage':
            for _ in range(s[2]):
                self.new(self.cls(s[1])) if s[1] in [c.name for c in self.classes] else self.newarr('int', [3])
        elif k == 'oor':
            a = self.get(s[1])
            if a is None or len(a.dims) != 1 or 0 <= s[2] < len(a.v):
                raise Invalid
            self.out += ['oor']
            self.count('index out of range caught')
        elif k == 'badcast':
            o = self.get(s[1])
            if o is None or self.isa(o, s[2]):
                raise Invalid
            self.out += ['badcast']
            self.count('invalid cast caught')
        elif k == 'dumpo':
            o = self.raw(s[1])
            if o is None:
                raise Invalid
            if isinstance(o, (Obj, SVal)):
                for f in s[2]:
                    self.put(o.f[f])
        else:
            raise AssertionError(k)

    # ------------------------------------------------------------ emission

    def px(self, p):
        if p[0] == 'var':
            return p[1]
        if p[0] == 'fld':
            return self.px(p[1]) + '.' + p[2]
        return '%s[%s]' % (self.px(p[1]), ', '.join(self.ex(e) for e in p[2]))

    def ex(self, e):
        k = e[0]
        if k == 'c':
            v = e[1]
            if isinstance(v, bool):
                return 'true' if v else 'false'
            if isinstance(v, float):
                return '%.2f' % v if v >= 0 else '(%.2f)' % v
            return str(v) if v >= 0 else '(%d)' % v
        if k == 'p':
            return self.px(e[1])
        if k == 'null':
            return 'null'
        if k == 'str':
            return '"%s"' % e[1]
        if k == 'bin':
            return '(%s %s %s)' % (self.ex(e[3]), e[2], self.ex(e[4]))
        if k in ('cmp', 'same'):
            return '%s %s %s' % (self.ex(e[2]), e[1], self.ex(e[3]))
        if k == 'conv':
            return '(%s)%s' % (e[1], self.atom(e[2]))
        if k == 'new':
            return 'new %s(%s)' % (e[1], ', '.join(self.ex(a) for a in e[2]))
        if k == 'newarr':
            return 'new %s[%s]' % (e[1], ', '.join(str(d) for d in e[2]))
        if k == 'arrlit':
            return 'new %s[] { %s }' % (e[1], ', '.join(self.ex(x) for x in e[2]))
        if k == 'len':
            return self.px(e[1]) + '.Length'
        if k == 'virt':
            return '%s.V%d(%s)' % (self.px(e[1]), e[2], self.ex(e[3]))
        if k == 'icall':
            return '%s.C%s_%d(%s)' % (self.px(e[1]), e[2][0], e[2][1], self.ex(e[3]))
        if k == 'smeth':
            return '%s.Add%s(%s)' % (self.px(e[1]), e[2], self.ex(e[3]))
        if k == 'prop':
            return '%s.%s' % (self.px(e[1]), e[2])
        if k in ('is', 'as'):
            return '%s %s %s' % (self.ex(e[1]), k, e[2])
        if k == 'cast':
            return '(%s)%s' % (e[2], self.atom(e[1]))
        if k == 'box':
            return self.ex(e[2])
        if k == 'unbox':
            return '(%s)%s' % (e[1], self.atom(e[2]))
        if k == 'mk':
            return 'Fn.Make%s(%s)' % (e[1], self.ex(e[2]))
        if k == 'deep':
            return 'Fn.Deep%s(%d, %d)' % (e[1] + '_' + e[2] + '_' + e[3], e[4], e[5])
        if k == 'dst':
            return 'Fn.%s%d' % (e[1], e[2])
        if k == 'din':
            return '%s.M%s%s' % (self.px(e[2]), e[1], e[3])
        if k == 'dself':
            return '%s.Self%s%s()' % (self.px(e[2]), e[1], e[3])
        if k == 'dpick':
            return 'Fn.Pick%s(%s)' % (e[1], self.ex(e[2]))
        if k == 'dcall':
            a = ', '.join(self.ex(x) for x in e[3])
            return {'var': '%s(%s)', 'invoke': '%s.Invoke(%s)', 'arg': 'Fn.Call' + e[1] + '(%s, %s)', 'last': 'Fn.Last' + e[1] + '(%s, %s)'}[
                e[4]] % ((a, self.px(e[2])) if e[4] == 'last' else (self.px(e[2]), a))
        if k == 'wide':
            return self.ex(e[1])
        if k == 'cond':
            return '(%s ? %s : %s)' % (self.ex(e[1]), self.ex(e[2]), self.ex(e[3]))
        raise AssertionError(k)

    def atom(self, e):
        s = self.ex(e)
        return s if e[0] == 'p' or s.startswith('(') else '(%s)' % s

    def st(self, s, out, ind):
        p = '    ' * ind
        k = s[0]

        def w(x):
            out.append(p + x)
        if k == 'set':
            w('%s = %s;' % (self.px(s[1]), self.ex(s[2])))
        elif k == 'op':
            w('%s %s %s;' % (self.px(s[2]), s[3], self.ex(s[4])))
        elif k == 'inc':
            w('%s%s;' % (self.px(s[2]), s[3]))
        elif k == 'print':
            w('Console.WriteLine(%s);' % self.ex(s[1]))
        elif k == 'setprop':
            w('%s.%s = %s;' % (self.px(s[1]), s[2], self.ex(s[4])))
        elif k == 'swap':
            w('Fn.Swap%s(ref %s, ref %s);' % (s[1], self.px(s[2]), self.px(s[3])))
        elif k == 'refs':
            w('Fn.Ref%s%s(ref %s, %d);' % (s[1], s[3], self.px(s[2]), s[4]))
        elif k == 'outs':
            w('Fn.Outs(out %s, out %s, %s);' % (self.px(s[1]), self.px(s[2]), self.ex(s[3])))
        elif k == 'byval':
            w('Console.WriteLine(Fn.Val%s%s(%s, %d));' % (s[1], s[3], self.px(s[2]), s[4]))
        elif k == 'fill':
            w('Fn.Fill%s(%s, %d, %d);' % (s[1], self.px(s[2]), s[3], s[4]))
        elif k == 'sum':
            w('Console.WriteLine(Fn.Sum%s(%s));' % (s[1], self.px(s[2])))
        elif k == 'dump2':
            w('Console.WriteLine(Fn.Sum%d%s(%s, %s));' % (len(s[3]), s[1], self.px(s[2]), ', '.join(map(str, s[3]))))
        elif k == 'filln':
            w('Fn.Fill%d%s(%s, %s, %d, %d);' % (len(s[3]), s[1], self.px(s[2]), ', '.join(map(str, s[3])), s[4], s[5]))
        elif k == 'scope':
            w('{')
            for n, t, e in s[1]:
                out.append(p + '    %s %s = %s;' % (t, n, self.ex(e)))
            for x in s[2]:
                self.st(x, out, ind + 1)
            w('}')
        elif k == 'mix':
            w('Console.WriteLine(Fn.Mix%s(%s));' % (self.mixname(s), ', '.join(self.ex(e) for _, e in s[1])))
        elif k in ('loop', 'if'):
            if k == 'loop':
                w('for (int %s = 0; %s < %d; %s++)' % (s[1], s[1], s[2], s[1]))
                bodies = [s[3]]
            else:
                w('if (%s)' % self.ex(s[1]))
                bodies = [s[2], s[3]] if s[3] else [s[2]]
            for n, b in enumerate(bodies):
                if n:
                    w('else')
                w('{')
                for x in b:
                    self.st(x, out, ind + 1)
                w('}')
        elif k == 'garbage':
            w('Fn.Garbage%s(%d);' % (s[1], s[2]))
        elif k == 'oor':
            w('try { %s[%d] = %s; Console.WriteLine("no"); } catch (OutOfRangeException e%d) { Console.WriteLine("oor"); }'
              % (self.px(s[1]), s[2], s[3], s[4]))
        elif k == 'badcast':
            w('try { %s b%d = (%s)%s; Console.WriteLine("no"); } catch (InvalidCastException e%d) '
              '{ Console.WriteLine("badcast"); }' % (s[2], s[3], s[2], self.px(s[1]), s[3]))
        elif k == 'dumpo':
            for f in s[2]:
                w('Console.WriteLine(%s.%s);' % (self.px(s[1]), f))
        else:
            raise AssertionError(k)

    def mixname(self, s):
        return '_'.join(t for t, _ in s[1]).replace('[]', 'Arr')

    def types_source(self):
        o = []
        for i in self.ifaces:
            o.append('public interface %s%s\n{\n%s\n}\n' % (i, ' : ' + ', '.join(self.isupers[i]) if self.isupers.get(i) else '', '\n'.join('    int C%s_%d(int a);' % (i, m) for m in range(self.ifaces[i]))))
        for s, fs in self.structs.items():
            o.append('public struct %s\n{' % s)
            for f, t in fs:
                o.append('    public %s %s;' % (t, f))
            for f, t in fs:
                if t == 'int':
                    o.append('    public int Add%s(int a)\n    {\n        %s = %s + a;\n        return %s;\n    }' % (f, f, f, f))
            o.append('}\n')
        for c in self.classes:
            bases = ([c.base.name] if c.base else []) + list(c.ifaces)
            o.append('public class %s%s\n{' % (c.name, ' : ' + ', '.join(bases) if bases else ''))
            for f, t in c.own:
                o.append('    public %s %s;' % (t, f))
            if c.ctor:
                o.append('    public %s()\n    {\n    }' % c.name)
                o.append('    public %s(%s)\n    {\n%s\n    }' % (
                    c.name, ', '.join('%s p%d' % (t, n) for n, (f, t) in enumerate(c.ctor)),
                    '\n'.join('        %s = p%d;' % (f, n) for n, (f, t) in enumerate(c.ctor))))
            for pn, f, t in c.props:
                o.append('    public %s %s\n    {\n        get\n        {\n            return %s;\n        }\n        set\n        {\n'
                         '            %s = value;\n        }\n    }' % (t, pn, f, f))
            for slot, m in c.virt.items():
                ov = 'override' if c.base else 'virtual'
                o.append('    public %s int V%d(int a)\n    {\n        return %s;\n    }' % (ov, slot, self.mbody(c, m)))
            for (i, n), m in c.imeth.items():
                o.append('    public %s C%s_%d(int a)\n    {\n        return %s;\n    }' % (words(m[2], 'int'), i, n, self.mbody(c, m[:2])))
            for d, (const, f) in c.dmeth.items():
                if d == 'Fun':
                    o.append('    public int MFun%s(int a, int b)\n    {\n        return a * %d - b%s;\n    }' % (c.name, const, ' + ' + f if f else ''))
                else:
                    o.append('    public long MGun%s(int a, long b, int c)\n    {\n        return b * %d + a - c%s;\n    }' % (c.name, const, ' + ' + f if f else ''))
                o.append('    public %s Self%s%s()\n    {\n        return M%s%s;\n    }' % (d, d, c.name, d, c.name))
            for (i, n), m in c.expl.items():
                o.append('    int %s.C%s_%d(int a)\n    {\n        return %d + a;\n    }' % (i, i, n, m))
            o.append('}\n')
        return '\n'.join(o)

    def mbody(self, c, m):
        const, f = m
        if f is None:
            return '%s + a' % const
        t = dict(c.fields())[f]
        return '%s * %d + a' % (f if t == 'int' else '(int)' + f, const)

    def fns(self):
        """The helper methods that the statements use."""
        need = {}

        def visit(x):
            if not isinstance(x, (tuple, list)):
                return
            if x and x[0] in ('dst', 'dpick', 'dcall'):
                need[repr(('fun', x[1]))] = ('fun', x[1])
            if x and x[0] in ('mix', 'swap', 'refs', 'outs', 'byval', 'fill', 'filln', 'sum', 'dump2', 'garbage', 'mk', 'deep'):
                need[self.fkey(x)] = x
            for y in x:
                visit(y)
        visit(self.main)
        for t in self.vars.values():
            if t in FUNS:
                need[repr(('fun', t))] = ('fun', t)
        o = ['class Fn\n{']
        for key, x in sorted(need.items()):
            o.append(self.fn(x))
        o.append('    public static void Nothing()\n    {\n    }')
        o.append('}\n')
        return '\n'.join(o)

    def fkey(self, x):
        k = x[0]
        if k in ('refs', 'byval'):
            return repr((k, x[1], x[3]))
        if k == 'deep':
            return repr((k, x[1], x[2], x[3]))
        if k == 'outs':
            return repr((k,))
        if k in ('dump2', 'filln'):
            return repr((k, x[1], len(x[3])))
        if k == 'mix':
            return repr((k, self.mixname(x)))
        return repr((k, x[1]))

    def fn(self, x):
        k, h = x[0], '    public static '
        if k == 'fun':
            d = x[1]
            r, ps = FUNS[d]
            dec = ', '.join('%s %s' % (t, 'abc'[n]) for n, t in enumerate(ps))
            names = ', '.join('abc'[:len(ps)])
            b = ['a + b * 3', 'a * b - 7', 'a - b'] if d == 'Fun' else ['b * 5 + a - c', 'b - a * c', 'b + c']
            return '\n'.join(
                [h + '%s %s%d(%s)\n    {\n        return %s;\n    }' % (r, d, n, dec, e) for n, e in enumerate(b)] + [
                    h + '%s Pick%s(int n)\n    {\n        if (n > 0)\n        {\n            return %s0;\n        }\n        return %s1;\n    }' % (d, d, d, d),
                    h + '%s Call%s(%s f, %s)\n    {\n        return f(%s);\n    }' % (r, d, d, dec, names),
                    h + '%s Last%s(%s, %s f)\n    {\n        %s t = f(%s);\n        return t;\n    }' % (r, d, dec, d, r, names)])
        if k == 'mix':
            b = []
            for n, (t, _) in enumerate(x[1]):
                a = 'p%d' % n
                fs = [(a, t)] if t in SCALARS else [(a + '.' + f, ft) for f, ft in self.structs.get(t, []) if ft in SCALARS]
                for y, yt in fs:
                    b.append('t = t * 31 + %s;' % ('(%s ? 1 : 0)' % y if yt == 'bool' else y))
                if t not in SCALARS and t not in self.structs:
                    b.append('t = t * 31 + (%s == null ? 1 : 0);' % a)
            return h + 'long Mix%s(%s)\n    {\n        long t = 0;\n        %s\n        return t;\n    }' % (
                self.mixname(x), ', '.join('%s p%d' % (t, n) for n, (t, _) in enumerate(x[1])), '\n        '.join(b))
        if k == 'swap':
            return h + 'void Swap%s(ref %s a, ref %s b)\n    {\n        %s t = a;\n        a = b;\n        b = t;\n    }' % ((x[1],) * 4)
        if k == 'refs':
            return h + 'void Ref%s%s(ref %s s, int a)\n    {\n        s.%s = s.%s + a;\n    }' % (x[1], x[3], x[1], x[3], x[3])
        if k == 'byval':
            return h + 'int Val%s%s(%s s, int a)\n    {\n        s.%s = s.%s + a;\n        return s.%s;\n    }' % (
                x[1], x[3], x[1], x[3], x[3], x[3])
        if k == 'outs':
            return h + ('void Outs(out int x, out long y, int a)\n    {\n        x = a + 1;\n        long z = a;\n'
                        '        y = z * 4294967296 + 5;\n    }')
        if k == 'fill':
            return h + ('void Fill%s(%s[] a, int m, int k)\n    {\n        for (int i = 0; i < a.Length; i++)\n        {\n'
                        '            a[i] = (%s)(i * m + k);\n        }\n    }' % ((x[1],) * 3))
        if k == 'sum':
            return h + ('long Sum%s(%s[] a)\n    {\n        long t = 0;\n        for (int i = 0; i < a.Length; i++)\n        {\n'
                        '            t = t * 31 + a[i];\n        }\n        return t;\n    }' % ((x[1],) * 2))
        if k in ('dump2', 'filln'):
            d = len(x[3])
            ns = ', '.join('int n%d' % n for n in range(d))
            ix = ', '.join('i%d' % n for n in range(d))
            t = x[1]
            b = ''
            for n in range(d):
                b += '        %sfor (int i%d = 0; i%d < n%d; i%d++)\n' % ('    ' * n, n, n, n, n) + '        %s{\n' % ('    ' * n)
            u = '    ' * d
            if k == 'dump2':
                b += '        %st = t * 31 + a[%s];\n' % (u, ix)
            else:
                b += '        %sa[%s] = (%s)(c * m + k);\n        %sc = c + 1;\n' % (u, ix, t, u)
            for n in reversed(range(d)):
                b += '        %s}\n' % ('    ' * n)
            if k == 'dump2':
                return h + 'long Sum%d%s(%s[%s] a, %s)\n    {\n        long t = 0;\n%s        return t;\n    }' % (d, t, t, ',' * (d - 1), ns, b)
            return h + 'void Fill%d%s(%s[%s] a, %s, int m, int k)\n    {\n        int c = 0;\n%s    }' % (d, t, t, ',' * (d - 1), ns, b)
        if k == 'garbage':
            if self.cls(x[1]):
                b = '%s k = new %s();' % (x[1], x[1])
            else:
                b = 'int[] k = new int[3];'
            return h + 'void Garbage%s(int n)\n    {\n        for (int i = 0; i < n; i++)\n        {\n            %s\n        }\n    }' % (x[1], b)
        if k == 'mk':
            t = x[1]
            b = []
            for n, (f, ft) in enumerate(self.structs[t]):
                if ft == 'bool':
                    b.append('s.%s = a > %d;' % (f, n))
                elif ft == 'int':
                    b.append('s.%s = a + %d;' % (f, n))
                elif ft == 'double':
                    b.append('s.%s = %d.5;' % (f, n))
                elif ft in VALUES:
                    b.append('s.%s = (%s)(a + %d);' % (f, ft, n))
                elif ft in self.structs or ft in FUNS:
                    pass
                else:
                    b.append('s.%s = null;' % f)
            return h + '%s Make%s(int a)\n    {\n        %s s;\n        %s\n        return s;\n    }' % (t, t, t, '\n        '.join(b))
        if k == 'deep':
            c, link, val = x[1], x[2], x[3]
            n = 'Deep%s_%s_%s' % (c, link, val)
            return h + ('%s Build%s(int n, int v)\n    {\n        %s k = new %s();\n        k.%s = v;\n        if (n > 1)\n        {\n'
                        '            k.%s = Build%s(n - 1, v + 1);\n        }\n        return k;\n    }\n' % (c, n, c, c, val, link, n)
                        + h + 'int %s(int n, int v)\n    {\n        %s k = Build%s(n, v);\n        int t = 0;\n        while (k != null)\n        {\n'
                        '            t = t * 3 + k.%s;\n            k = k.%s;\n        }\n        return t;\n    }' % (n, c, n, val, link))
        raise AssertionError(k)

    def main_source(self):
        o = ['class Program\n{\n    [EntryPoint]\n    public static void Main()\n    {']
        for n, t in self.vars.items():
            if n in self.scoped:
                continue
            if t in self.structs:
                o.append('        %s %s = Fn.Zero%s();' % (t, n, t))
            elif t == 'loopvar':
                pass
            elif t in FUNS:
                o.append('        %s %s = Fn.%s0;' % (t, n, t))
            elif t == 'bool':
                o.append('        bool %s = false;' % n)
            elif t == 'double':
                o.append('        double %s = 0.0;' % n)
            elif t in ('byte', 'short') or t in PLAIN:
                o.append('        %s %s = (%s)0;' % (t, n, t))
            elif t in SCALARS:
                o.append('        %s %s = 0;' % (t, n))
            else:
                o.append('        %s %s = null;' % (t, n))
        for s in self.main:
            self.st(s, o, 2)
        o.append('    }\n}\n')
        return '\n'.join(o)

    def zero_fns(self):
        o = []
        for t in sorted({t for n, t in self.vars.items() if t in self.structs and n not in self.scoped}):
            o.append('    public static %s Zero%s()\n    {\n        %s[] s = new %s[1];\n        return s[0];\n    }' % (t, t, t, t))
        return '\n'.join(o)

    def source(self):
        return self.header() + self.types_source() + self.program_source()

    def header(self):
        return 'import System;\n\nusing System;\n' + ''.join(
            'using %s = System.Delegate<%s>;\n' % (d, ', '.join((r,) + ps)) for d, (r, ps) in FUNS.items() if self.funs) + '\n'

    def program_source(self):
        return self.fns().replace('class Fn\n{', 'class Fn\n{\n' + self.zero_fns(), 1) + '\n' + self.main_source()

    def split(self):
        """The types in a source file of their own."""
        h = self.header()
        # an alias counts for the whole assembly, so each file has its own
        return h + self.types_source(), re.sub(r'\b([FG]un)\b', r'\1s', h + self.program_source())


# ---------------------------------------------------------------- generation

class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0
        on = lambda q: r.random() < q
        self.f = dict(plain=on(.35), wide=on(.5), chain=on(.4), tower=on(.4), expl=on(.3), battery=on(.5), structs=on(.6), nested=on(.4), arrays=on(.7), multi=on(.35), box=on(.4), virt=on(.7), iface=on(.5),
                      narrow=on(.5), strings=on(.5), objs=on(.4), ctor=on(.3), props=on(.4), deep=on(.4), loops=on(.6),
                      refs=on(.5), guards=on(.4), many=on(.2), scopes=on(.5), mix=on(.5), funs=on(.35))
        self.hidden = {}

    def types(self):
        r, f = self.r, self.f
        p = self.p = Prog()
        p.funs = f['funs']
        scal = ['int', 'int', 'long', 'bool'] + (['byte', 'short'] if f['narrow'] else []) + (list(PLAIN) if f['plain'] else [])
        ncls = r.randrange(3, 8) if f['chain'] else r.randrange(1, 6)
        names = ['K%d' % n for n in range(ncls)]
        if f['structs']:
            for n in range(r.randrange(1, 3)):
                fs = [('s%d%s' % (n, chr(97 + j)), r.choice(scal)) for j in range(r.randrange(1, 5))]
                if n and f['nested']:
                    fs.insert(r.randrange(len(fs) + 1), ('s%dz' % n, 'S0'))
                if r.random() < .3:
                    fs.insert(r.randrange(len(fs) + 1), ('s%dk' % n, r.choice(names)))
                if f['funs'] and r.random() < .3:
                    fs.insert(r.randrange(len(fs) + 1), ('s%dy' % n, r.choice(list(FUNS))))
                p.structs['S%d' % n] = fs
        p.slots = r.randrange(1, 4) if f['virt'] else 0
        p.ifaces = {'I%d' % n: r.randrange(1, 4) for n in range(r.choice([1, 2, 3, 6]))} if f['iface'] else {}
        if f['tower']:
            for i in list(p.ifaces)[1:]:
                if r.random() < .6:
                    up = r.choice([x for x in p.ifaces if x < i])
                    p.isupers[i] = [up]
        every = p.everyi = {i: [] for i in p.ifaces}
        for i in p.ifaces:
            for u in p.isupers.get(i, []):
                every[i] += [u] + every[u]
        for n, name in enumerate(names):
            bases = [c for c in p.classes if not c.ctor]
            base = r.choice([None] + bases) if n and r.random() < .8 else None
            if f['chain'] and bases and r.random() < .7:
                base = bases[-1]
            c = Cls(name, base, every)
            p.classes.append(c)
            for j in range(r.randrange(0 if base else 1, 9 if f['many'] else 6)):
                x = r.random()
                if x < .55:
                    t = r.choice(scal)
                elif x < .7:
                    t = r.choice(names)
                elif x < .78 and f['arrays']:
                    t = r.choice(['int[]', 'long[]', r.choice(names) + '[]'])
                elif x < .86 and p.structs:
                    t = r.choice(list(p.structs))
                elif x < .92 and f['strings']:
                    t = 'string'
                elif x < .97 and f['objs']:
                    t = 'object'
                elif f['funs']:
                    t = r.choice(['Fun', 'Gun', 'Fun[]'])
                else:
                    t = 'int'
                c.own.append(('f%d%s' % (n, chr(97 + j)), t))
            ints = [x for x, t in c.own if t in ('int', 'long', 'byte', 'short')]
            for s in range(p.slots):
                if not base or r.random() < .5:
                    c.virt[s] = (r.randrange(1, 9), r.choice(ints) if ints else None)
            for i in p.ifaces:
                keys = [(i, m) for m in range(p.ifaces[i])]
                has = [k for k in keys if base and base.find_imeth(k)]

                def meth(k, v):
                    c.imeth[k] = (r.randrange(1, 9), r.choice(ints) if ints else None, v)
                for k in has:                       # overridden somewhere down the chain
                    if base.find_imeth(k)[2] and r.random() < (.3 if f['chain'] else .5):
                        meth(k, 'override')
                if base and base.find_iface(i):
                    continue
                takes = r.random() < .5 or any(i in every[x] for x in c.ifaces)
                if takes:
                    c.ifaces.append(i)
                if takes or r.random() < .1:        # methods may be there before the interface is
                    v = r.choice(['', 'virtual'])
                    for k in keys:
                        if k not in has:
                            meth(k, v)
                            if takes and f['expl'] and not v and r.random() < .4:
                                c.expl[k] = r.randrange(1000, 2000)
            for i in c.all_ifaces():                # what the interfaces extend
                for k in [(i, m) for m in range(p.ifaces[i])]:
                    if not c.find_imeth(k):
                        c.imeth[k] = (r.randrange(1, 9), r.choice(ints) if ints else None, r.choice(['', 'virtual']))
            if f['ctor'] and not base and r.random() < .4:
                c.ctor = [(x, t) for x, t in c.own if t in ('int', 'long', 'bool')][:3] or None
            if f['funs']:
                only = [x for x, t in c.own if t == 'int']
                c.dmeth = {d: (r.randrange(1, 9), r.choice(only) if only else None) for d in FUNS if r.random() < .7}
            if f['props']:
                for x, t in c.own:
                    if t in ('int', 'long', 'bool') and r.random() < .4:
                        c.props.append(('P' + x, x, t))
        # variables
        k = 0
        for c in p.classes:
            for _ in range(r.randrange(1, 3)):
                p.vars['k%d' % k] = c.name
                k += 1
        pool = ['int', 'int', 'long', 'bool'] + (['byte', 'short'] if f['narrow'] else []) + (list(PLAIN) if f['plain'] else [])
        pool += list(p.structs) * 2 + list(p.ifaces) * 2
        if f['arrays']:
            pool += ['int[]', 'long[]', names[0] + '[]', r.choice(names) + '[]'] + (['byte[]', 'short[]', 'bool[]'] if f['narrow'] else [])
            pool += [s + '[]' for s in p.structs]
            if f['plain']:
                pool += [t + '[]' for t in r.sample(PLAIN, 3)]
        if f['funs']:
            pool += ['Fun', 'Fun', 'Gun', 'Fun[]', 'Gun[]']
        if f['multi']:
            pool += ['int[,]', 'long[,]', 'int[,,]', 'int[,,,]', 'long[,,]', 'byte[,,,]', names[0] + '[,]', 'bool[,]'] + [s + '[,]' for s in p.structs] + [s + '[,,]' for s in p.structs]
        if f['box'] or f['objs']:
            pool += ['object', 'object']
        if f['strings']:
            pool += ['string'] + (['string[]'] if f['arrays'] else [])
        self.pool = pool
        for j, t in enumerate(['int', 'long', 'int'] + [r.choice(pool) for _ in range(r.randrange(3, 9))]):
            p.vars['v%d' % j] = t
        for s in p.structs:
            p.vars['q' + s] = s
        return p

    # --- paths by type, from the live state
    def paths(self, want, depth=3, lv=True):
        """A random readable path whose type satisfies want, or None."""
        p, r = self.p, self.r
        for _ in range(12):
            n, t = r.choice([x for x in p.vars.items() if x[1] != 'loopvar'])
            path = ('var', n)
            for _ in range(depth):
                if want(t) and r.random() < .6:
                    break
                nx = self.extend(path, t)
                if not nx:
                    break
                path, t = nx
            if want(t):
                try:
                    p.container(path)
                except Invalid:
                    continue
                return path, t
        return None

    def extend(self, path, t):
        p, r = self.p, self.r
        try:
            v = p.raw(path)
        except Invalid:
            return None
        if isinstance(v, (Obj, SVal)):
            fs = p.fields_of(t)
            if not fs:
                return None
            f, ft = r.choice(fs)
            return ('fld', path, f), ft
        if isinstance(v, Arr) and v.v:
            ix = [('c', r.randrange(d)) for d in v.dims]
            return ('idx', path, tuple(ix)), t[:t.index('[')]
        return None

    def num(self, t, depth=2):
        """An expression of scalar type t."""
        p, r = self.p, self.r
        if t == 'bool':
            x = r.random()
            if x < .3:
                return ('c', bool(r.randrange(2)))
            if x < .6:
                return ('cmp', r.choice(['<', '>', '<=', '>=', '==', '!=']), self.num('int', 0), self.num('int', 0))
            q = self.paths(lambda y: y == 'bool')
            return ('p', q[0]) if q else ('c', True)
        if t in ('byte', 'short'):
            q = self.paths(lambda y: y == t)
            if q and r.random() < .4:
                return ('p', q[0])
            return ('conv', t, self.num('int', 1))
        x = r.random()
        if depth and self.f['funs'] and t in ('int', 'long') and r.random() < .3:
            e = self.dcall(t, depth)
            if e:
                return e
        if depth and x < .3:
            a = self.num(t, depth - 1)
            if t == 'long' and a[0] == 'c' and -(1 << 31) <= a[1] < 1 << 31:
                a = ('c', a[1] + (1 << 33))       # a constant that fits is an int
            return ('bin', t, r.choice('++-*&|^'), a, self.num(t, depth - 1))
        if depth and x < .45 and t == 'int':
            y = r.random()
            if y < .35 and p.slots:
                q = self.paths(lambda y: p.cls(y) is not None)
                if q and p.get(q[0]) is not None:
                    return ('virt', q[0], r.randrange(p.slots), self.num('int', 0))
            elif y < .6 and p.ifaces:
                q = self.paths(lambda y: y in p.ifaces or (p.cls(y) is not None and any(p.cls(y).find_iface(i) for i in p.ifaces)))
                if q and p.get(q[0]) is not None:
                    i = q[1] if q[1] in p.ifaces else r.choice([i for i in p.ifaces if p.cls(q[1]).find_iface(i)])
                    return self.icall(q[0], q[1], (i, r.randrange(p.ifaces[i])), self.num('int', 0))
            elif y < .8:
                q = self.paths(lambda y: '[' in y)
                if q and p.get(q[0]) is not None:
                    return ('len', q[0])
            elif self.f['deep']:
                cs = [(c, [f for f, ft in c.fields() if ft == c.name], [f for f, ft in c.fields() if ft == 'int']) for c in p.classes]
                cs = [x for x in cs if x[1] and x[2]]
                if cs:
                    c, l, v = r.choice(cs)
                    return ('deep', c.name, r.choice(l), r.choice(v), r.choice([1, 2, 5, 20, 60]), r.randrange(100))
        if x < .55 and depth and t == 'int':
            q = self.paths(lambda y: y == 'long')
            if q:
                return ('conv', 'int', ('p', q[0]))
        if x < .6 and depth:
            q = [(c, pr) for c in p.classes for pr in c.props if pr[2] == t]
            if q:
                c, pr = r.choice(q)
                o = self.paths(lambda y: p.cls(y) is not None and any(z is c for z in self.chain(y)))
                if o and p.get(o[0]) is not None:
                    return ('prop', o[0], pr[0], pr[1])
        q = self.paths(lambda y: y == t)
        if q and x < .9:
            return ('p', q[0])
        lim = r.choice([3, 10, 1000, 1 << 20])
        v = r.randrange(-lim, lim + 1)
        if t == 'long' and r.random() < .4:
            v = r.randrange(1 << 33, 1 << 40)
        return ('c', v)

    def dcall(self, t, depth=1):
        """A call of a delegate that returns type t."""
        q = self.paths(lambda y: y in FUNS and FUNS[y][0] == t)
        if q and self.p.get(q[0]) is not None:
            how = self.r.choice(['var'] * 3 + ['invoke', 'arg', 'last'] if q[0][0] == 'var' else ['invoke', 'arg', 'last'])
            return ('dcall', q[1], q[0], tuple(self.num(x, depth - 1) for x in FUNS[q[1]][1]), how)

    def icall(self, path, t, key, arg):
        return ('icall', path, key, arg) + ((1,) if t in self.p.ifaces else ())

    def battery(self):
        """Every method of an object, through variables of the types it may be seen as."""
        p, r = self.p, self.r
        c = r.choice(p.classes)
        vs = [n for n, t in p.vars.items() if n not in p.scoped and t != 'loopvar' and (p.cls(t) is not None or t in p.ifaces) and c.isa(t)]
        if not vs:
            return
        a = r.choice(vs)
        self.add(('set', ('var', a), self.newobj(c)))
        for v in [a] + [x for x in vs if x != a and r.random() < .5]:
            t = p.vars[v]
            if v != a:
                if t == p.vars[a] or (p.cls(t) is not None and p.cls(p.vars[a]) is not None and p.cls(p.vars[a]).isa(t)):
                    self.add(('set', ('var', v), ('p', ('var', a))))
                elif p.cls(t) is not None and p.cls(p.vars[a]) is not None and p.cls(t).isa(p.vars[a]):
                    self.add(('set', ('var', v), (r.choice(['cast', 'as']), ('p', ('var', a)), t)))
                else:
                    self.add(('set', ('var', v), self.newobj(c)))
            if p.cls(t) is not None:
                for s in range(p.slots):
                    self.add(('print', ('virt', ('var', v), s, ('c', r.randrange(100)))))
                for x in p.classes + list(p.ifaces):
                    if r.random() < .3:
                        self.add(('print', ('is', ('p', ('var', v)), x if isinstance(x, str) else x.name)))
            for i in p.ifaces:
                if i == t or i in p.everyi.get(t, []) or (p.cls(t) is not None and p.cls(t).find_iface(i)):
                    for m in range(p.ifaces[i]):
                        self.add(('print', self.icall(('var', v), t, (i, m), ('c', r.randrange(100)))))

    def boxes(self):
        """A struct into a box, changed outside, and back out of the box."""
        p, r = self.p, self.r
        o = self.var(lambda t: t == 'object')
        for s in p.structs:
            fs = tuple(g for g, gt in p.structs[s] if gt in SHOWN)
            if o is None or not fs or r.random() < .3:
                continue
            simple = not any(ft in p.structs for _, ft in p.structs[s])
            q = ('var', 'q' + s)
            if simple:
                self.add(('set', q, ('mk', s, self.num('int', 1))))
            self.add(('set', ('var', o), ('box', s, ('p', q))))
            if simple:
                self.add(('set', q, ('mk', s, self.num('int', 1))))
            self.add(('set', q, ('unbox', s, ('p', ('var', o)))))
            self.add(('dumpo', q, fs))

    def chain(self, t):
        c = self.p.cls(t)
        while c:
            yield c
            c = c.base

    def subs(self, t):
        p = self.p
        if t in p.ifaces:
            return [c for c in p.classes if c.find_iface(t)]
        return [c for c in p.classes if c.isa(t)]

    def value(self, t):
        """An expression assignable to type t."""
        p, r = self.p, self.r
        if t in SCALARS:
            if t in WIDER and self.f['wide'] and r.random() < .3:
                q = self.paths(lambda y: y in WIDER[t])
                if q:
                    e = ('wide', ('p', q[0]))
                    if r.random() < .4:
                        q2 = self.paths(lambda y: y == q[1] or y == t)
                        if q2:
                            e = ('cond', self.num('bool'), e, ('p', q2[0]))
                    return e
            return self.num(t)
        if t in PLAIN:
            q = self.paths(lambda y: y == t)
            if q and r.random() < .5:
                return ('p', q[0])
            if t == 'double':
                return ('c', r.randrange(-4000, 4000) / 4)
            if t == 'char':
                return ('conv', t, ('c', r.randrange(97, 123)))
            return ('conv', t, self.num('int', 1))
        if t in FUNS:
            return self.dlg(t)
        if t in p.structs:
            q = self.paths(lambda y: y == t)
            x = r.random()
            if q and x < .6:
                return ('p', q[0])
            q = self.paths(lambda y: y == 'object')
            if q and isinstance(p.get(q[0]), Box) and p.get(q[0]).typ == t:
                return ('unbox', t, ('p', q[0]))
            if any(ft in p.structs for _, ft in p.structs[t]):
                return ('p', ('var', 'q' + t))
            return ('mk', t, self.num('int', 1))
        if t == 'string':
            return ('str', 't%d' % r.randrange(1000))
        if t == 'object':
            x = r.random()
            if x < .35 and self.f['box']:
                y = r.choice(['int', 'long', 'bool'] + list(p.structs) + (list(PLAIN) if self.f['plain'] else []))
                q = self.paths(lambda z: z == y)
                if q and (q[0][0] != 'idx' or self.f['wide']):
                    e = ('p', q[0])
                    if self.f['wide'] and r.random() < .25:
                        q2 = self.paths(lambda z: z == y)
                        e = ('cond', self.num('bool'), e, ('p', q2[0])) if q2 else e
                    return ('box', y, e)
            if x < .6:
                q = self.paths(lambda y: p.cls(y) is not None)
                if q:
                    return ('p', q[0])
            if x < .7:
                return ('null',)
            return self.newobj(r.choice(p.classes))
        if '[' in t:
            el = t[:t.index('[')]
            nd = t.count(',') + 1
            q = self.paths(lambda y: y == t)
            if q and r.random() < .25:
                return ('p', q[0])
            if nd == 1 and r.random() < .2:
                if el in ('int', 'long'):
                    return ('arrlit', el, tuple(self.num(el, 0) for _ in range(r.randrange(1, 6))))
                if el not in p.structs and el != 'object' and el not in FUNS:
                    vs = tuple(self.value(el) for _ in range(r.randrange(1, 6)))
                    return ('arrlit', el, tuple(('new', v[1], ()) if v[0] == 'new' else v for v in vs))   # no arguments there
            return ('newarr', el, tuple(r.choice([1, 2, 3, 4, 5, 7] + ([40, 200] if nd == 1 else [])) for _ in range(nd)))
        # class or interface
        x = r.random()
        cands = self.subs(t)
        if not cands or x < .06:
            return ('null',)
        if x < .35:
            q = self.paths(lambda y: p.cls(y) is not None and p.cls(y).isa(t))
            if q:
                return ('p', q[0])
        if x < .5:
            q = self.paths(lambda y: (p.cls(y) is not None and p.cls(t) is not None and p.cls(t).isa(y)) or y == 'object')
            if q and p.cls(t):
                v = p.get(q[0])
                if v is None or p.isa(v, t):
                    return (r.choice(['cast', 'as']), ('p', q[0]), t)
                if not isinstance(v, Box):
                    return ('as', ('p', q[0]), t)
        return self.newobj(r.choice(cands))

    def dlg(self, t, cond=True):
        p, r = self.p, self.r
        x = r.random()
        if x < .15:
            q = self.paths(lambda y: y == t)
            if q and p.get(q[0]) is not None:
                return ('p', q[0])
        if x < .6:
            q = self.paths(lambda y: p.cls(y) is not None)
            if q and p.get(q[0]) is not None:
                cs = [c.name for c in self.chain(q[1]) if t in c.dmeth]
                if cs:
                    return (r.choice(['din', 'din', 'dself']), t, q[0], r.choice(cs))
        if x < .7:
            return ('dpick', t, self.num('int', 0))
        if x < .8 and cond:
            return ('cond', self.num('bool'), self.dlg(t, False), self.dlg(t, False))
        return ('dst', t, r.randrange(NFUN))

    def show(self, path, t):
        return ('print', ('conv', 'int', ('p', path)) if t == 'char' else ('p', path))

    def newobj(self, c):
        if c.ctor and self.r.random() < .6:
            return ('new', c.name, tuple(self.num(t, 0) for f, t in c.ctor))
        return ('new', c.name, ())

    def statement(self, depth=1):
        p, r, f = self.p, self.r, self.f
        x = r.random()
        self.n += 1
        if x < .42:
            q = self.paths(lambda y: True, r.choice([1, 2, 3]))
            if q:
                if '[' in q[1] and p.get(q[0]) is not None and r.random() < .6:
                    return None
                return ('set', q[0], self.value(q[1]))
        if x < .6:
            q = self.paths(lambda y: y in VALUES)
            if q:
                return self.show(q[0], q[1])
        if x < .66:
            t = r.choice(['int', 'long'])
            return ('print', self.num(t))
        if x < .7:
            q = self.paths(lambda y: y in ('int', 'long'))
            if q:
                if r.random() < .4:
                    return ('inc', q[1], q[0], r.choice(['++', '--']))
                return ('op', q[1], q[0], r.choice(['+=', '-=', '^=']), self.num(q[1], 1))
        if x < .74:
            q = self.paths(lambda y: p.cls(y) is not None or y in p.structs)
            if q and p.get(q[0]) is not None:
                fs = [g for g, gt in p.fields_of(q[1]) if gt in SHOWN]
                if fs:
                    return ('dumpo', q[0], tuple(fs))
        if x < .78:
            q = self.paths(lambda y: y.endswith('[]') and y[:-2] in ('int', 'long', 'byte', 'short'))
            if q and p.get(q[0]) is not None:
                if r.random() < .5:
                    return ('fill', q[1][:-2], q[0], r.randrange(1, 50), r.randrange(100))
                return ('sum', q[1][:-2], q[0])
            q = self.paths(lambda y: '[,' in y and y[:y.index('[')] in ('int', 'long', 'byte'))
            if q and p.get(q[0]) is not None:
                el, dims = q[1][:q[1].index('[')], p.get(q[0]).dims
                if r.random() < .5:
                    return ('filln', el, q[0], dims, r.randrange(1, 50), r.randrange(100))
                return ('dump2', el, q[0], dims)
        if x < .83 and f['refs']:
            y = r.random()
            if y < .4:
                a = self.var(lambda t: p.cls(t) is not None or t in VALUES or t in p.structs or t in FUNS)
                if a:
                    b = self.var(lambda t: t == p.vars[a])
                    if b and a != b:
                        return ('swap', p.vars[a], ('var', a), ('var', b))
            elif y < .6:
                a, b = self.var(lambda t: t == 'int'), self.var(lambda t: t == 'long')
                return ('outs', ('var', a), ('var', b), self.num('int', 1))
            elif p.structs:
                s = r.choice(list(p.structs))
                fs = [g for g, gt in p.structs[s] if gt == 'int']
                if fs:
                    g = r.choice(fs)
                    if r.random() < .3:
                        q = self.paths(lambda t: t == s)
                        if q:
                            return ('byval', s, q[0], g, r.randrange(50))
                    if r.random() < .4:
                        q = self.paths(lambda t: t == s)
                        if q and q[0][0] != 'idx':
                            return ('print', ('smeth', q[0], g, self.num('int', 0)))
                    return ('refs', s, ('var', self.var(lambda t: t == s)), g, r.randrange(50))
        if x < .87:
            q = self.paths(lambda y: p.is_ref(y) and y != 'string')
            if q:
                v = p.get(q[0])
                y = r.random()
                cs = [c.name for c in p.classes] + list(p.ifaces)
                if y < .35:
                    return ('print', ('same', r.choice(['==', '!=']), ('p', q[0]), ('null',)))
                if y < .6:
                    q2 = self.paths(lambda t: t == q[1])
                    if q2 and p.cls(q[1]):
                        return ('print', ('same', r.choice(['==', '!=']), ('p', q[0]), ('p', q2[0])))
                if (p.cls(q[1]) or q[1] == 'object') and v is not None and not isinstance(v, Box):
                    return ('print', ('is', ('p', q[0]), r.choice(cs)))
        if x < .9 and f['box']:
            q = self.paths(lambda y: y == 'object')
            if q and isinstance(p.get(q[0]), Box):
                t = p.get(q[0]).typ
                if t in VALUES:
                    e = ('unbox', t, ('p', q[0]))
                    return ('print', ('conv', 'int', e) if t == 'char' else e)
        if x < .92 and f['guards']:
            if r.random() < .5:
                q = self.paths(lambda y: y in ('int[]', 'long[]'))
                if q and p.get(q[0]) is not None:
                    n = len(p.get(q[0]).v)
                    return ('oor', q[0], r.choice([n, n + 1, n + 1000, -1, -5]), '1', self.n)
            q = self.paths(lambda y: p.cls(y) is not None or y == 'object')
            if q and p.get(q[0]) is not None:
                t = r.choice(p.classes).name
                if isinstance(p.get(q[0]), Box) and r.random() < .7:
                    t = r.choice([y for y in VALUES if y != p.get(q[0]).typ])
                    return ('badcast', q[0], t, self.n)
                if not p.isa(p.get(q[0]), t) and (q[1] == 'object' or p.cls(t).isa(q[1])):
                    return ('badcast', q[0], t, self.n)
        if x < .93 and f['mix']:
            ps = []
            for _ in range(r.randrange(2, 9)):
                t = r.choice(self.pool + [c.name for c in p.classes])
                if t in SCALARS:
                    ps.append((t, self.num(t, 1)))
                else:
                    q = self.paths(lambda y: y == t)
                    if q and t not in ('string', 'object') and ',' not in t and t not in PLAIN and t not in FUNS:
                        ps.append((t, ('p', q[0])))
            if ps:
                return ('mix', tuple(ps))
        if x < .94:
            return ('garbage', r.choice([c.name for c in p.classes] + ['X']), r.choice([1, 5, 50]))
        if x < .98 and depth and f['loops']:
            v = 'i%d' % self.n
            p.vars[v] = 'loopvar'
            p.env[v] = 0
            q = self.paths(lambda y: '[' in y and y.count(',') == 0)
            body = []
            if q and p.get(q[0]) is not None and p.get(q[0]).v and r.random() < .7:
                el = q[1][:q[1].index('[')]
                n = min(len(p.get(q[0]).v), r.randrange(1, 8))
                val = self.value(el)
                if el in ('int', 'long'):
                    val = ('bin', el, r.choice('+*^'), ('p', ('var', v)), val)
                body = [('set', ('idx', q[0], (('p', ('var', v)),)), val)]
                if el in SHOWN:
                    body.append(('print', ('p', ('idx', q[0], (('p', ('var', v)),)))))
            else:
                n = r.randrange(1, 5)
                q2 = self.paths(lambda y: y == 'int')
                if q2:
                    body = [('op', 'int', q2[0], '+=', ('p', ('var', v)))]
            for _ in range(r.randrange(0, 3)):
                s = self.statement(0)
                if s:
                    body.append(s)
            if body:
                return ('loop', v, n, body)
        if depth and f['scopes'] and r.random() < .6:
            return self.scope(depth + 1)
        if depth:
            b = [s for s in (self.statement(0) for _ in range(2)) if s]
            e = [s for s in (self.statement(0) for _ in range(r.randrange(2))) if s]
            if b:
                return ('if', self.num('bool'), b, e)
        return None

    def scope(self, depth):
        """A block with variables of its own, which siblings and children may share memory with."""
        p, r = self.p, self.r
        decl, body = [], []
        snapshot = dict(p.vars)
        for _ in range(r.randrange(1, 5)):
            t = r.choice(self.pool)
            n = 'w%d' % self.n
            self.n += 1
            e = self.value(t)
            try:
                v = copyv(p.ev(e))
            except Invalid:
                continue
            if e == ('null',) or (t == 'object' and e[0] == 'box'):
                continue
            decl.append((n, t, e))
            p.env[n] = v
            p.vars[n] = t
            p.scoped.add(n)
        for _ in range(r.randrange(2, 6)):
            if depth and r.random() < .35:
                s = self.scope(depth - 1)
            else:
                s = self.statement(0)
            if s:
                # keep the live state roughly in step, so that later statements are valid
                body.append(s)
        for n, t, e in decl:
            if t in VALUES:
                body.append(self.show(('var', n), t))
            elif t in p.structs and [g for g, gt in p.structs[t] if gt in SHOWN]:
                body.append(('dumpo', ('var', n), tuple(g for g, gt in p.structs[t] if gt in SHOWN)))
        hidden = {n: t for n, t in p.vars.items() if n not in snapshot}
        for n in hidden:
            self.hidden[n] = hidden[n]
            del p.vars[n]
        return ('scope', decl, body)

    def var(self, want):
        c = [n for n, t in self.p.vars.items() if want(t) and n not in self.p.scoped]
        return self.r.choice(c) if c else None

    def program(self):
        p, r, f = self.types(), self.r, self.f
        p.start()
        # most variables start with something in them; some are read first
        first = list(p.vars.items())
        for n, t in first:
            if (p.is_ref(t) or t in FUNS) and r.random() < .85:
                self.add(('set', ('var', n), self.value(t)))
        for _ in range(r.randrange(8, 45)):
            s = self.statement()
            if s:
                self.add(s)
            if f['battery'] and r.random() < .1:
                self.battery()
        if f['battery']:
            self.battery()
        if f['box']:
            self.boxes()
        for n, t in first:
            if t in VALUES:
                self.add(self.show(('var', n), t))
            elif t in FUNS:
                self.add(('print', ('dcall', t, ('var', n), tuple(('c', r.randrange(50)) for _ in FUNS[t][1]), 'var')))
            else:
                v = p.env[n]
                if isinstance(v, (Obj, SVal)):
                    fs = [g for g, gt in p.fields_of(t) if gt in SHOWN]
                    if fs:
                        self.add(('dumpo', ('var', n), tuple(fs)))
                elif isinstance(v, Arr) and len(v.dims) == 1 and v.typ in ('int', 'long', 'byte', 'short'):
                    self.add(('sum', v.typ, ('var', n)))
                elif isinstance(v, Arr) and len(v.dims) > 1 and v.typ in ('int', 'long', 'byte'):
                    self.add(('dump2', v.typ, ('var', n), v.dims))
                    self.add(('filln', v.typ, ('var', n), v.dims, r.randrange(1, 50), r.randrange(100)))
                    self.add(('dump2', v.typ, ('var', n), v.dims))
        p.vars.update(self.hidden)
        return p

    def add(self, s):
        p = self.p
        n = len(p.out)
        try:
            p.do(s)
            p.main.append(s)
        except Invalid:
            if s[0] in ('loop', 'if', 'scope'):
                p.run()
            else:
                del p.out[n:]


def program(seed):
    n = 0
    while True:
        p = Gen(random.Random('obj%d/%d' % (seed, n))).program()
        n += 1
        try:
            p.run()
        except Invalid:
            continue
        if len(p.out) >= 3:
            return p


def closed(p):
    """No variable of a block is used outside of it, or before it is declared."""
    def walk(x, known):
        if isinstance(x, tuple) and x and x[0] == 'scope':
            k = set(known)
            for n, t, e in x[1]:
                if not walk(e, k):
                    return False
                k.add(n)
            return all(walk(y, k) for y in x[2])
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'var':
            return x[1] not in p.scoped or x[1] in known
        return not isinstance(x, (tuple, list)) or all(walk(y, known) for y in x)
    return walk(p.main, frozenset())


def shrink(p):
    for q in smaller(p):
        if closed(q):
            yield q


def smaller(p):
    import copy
    n = len(p.main)
    size = n // 2
    while size >= 1:
        for at in range(0, n, size):
            q = copy.copy(p)
            q.main = p.main[:at] + p.main[at + size:]
            yield q
        size //= 2
    for k, s in enumerate(p.main):
        if s[0] == 'scope':
            for j in range(len(s[2])):
                q = copy.copy(p)
                q.main = p.main[:k] + [('scope', s[1], s[2][:j] + s[2][j + 1:])] + p.main[k + 1:]
                yield q
                if s[2][j][0] == 'scope':
                    q = copy.copy(p)
                    q.main = p.main[:k] + [('scope', s[1] + s[2][j][1], s[2][:j] + s[2][j][2] + s[2][j + 1:])] + p.main[k + 1:]
                    yield q
            for j in range(len(s[1])):
                q = copy.copy(p)
                q.main = p.main[:k] + [('scope', s[1][:j] + s[1][j + 1:], s[2])] + p.main[k + 1:]
                yield q
        if s[0] in ('loop', 'if'):
            for b in ([s[3]] if s[0] == 'loop' else [s[2], s[3]]):
                for j in range(len(b)):
                    nb = b[:j] + b[j + 1:]
                    q = copy.copy(p)
                    if s[0] == 'loop':
                        ns = s[:3] + (nb,)
                    else:
                        ns = ('if', s[1], nb, s[3]) if b is s[2] else ('if', s[1], s[2], nb)
                    q.main = p.main[:k] + [ns] + p.main[k + 1:]
                    yield q
        if s[0] in ('print', 'set', 'op') and s[-1][0] in ('bin', 'conv', 'cond'):
            for sub in s[-1][1:]:
                if isinstance(sub, tuple) and sub[0] in ('c', 'p'):
                    q = copy.copy(p)
                    q.main = p.main[:k] + [s[:-1] + (sub,)] + p.main[k + 1:]
                    yield q
    import re
    text = '\n'.join(repr(s) for s in p.main)
    for v in list(p.vars):
        if not re.search(r"'%s'" % v, text):
            q = copy.copy(p)
            q.vars = {a: b for a, b in p.vars.items() if a != v}
            yield q
