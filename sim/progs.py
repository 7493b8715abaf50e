"""Generated April programs and their reference model.

A program is a small syntax tree, emitted as April source and evaluated by the interpreter below,
which is written from the language's documented C#-like meaning and knows nothing of the
repository's compiler or runtime.  Only constructs that work on the repository as it stands are
generated (no static fields, generics, string concatenation, `throw;`, null dereference, division).
"""
import random

M32 = 0xffffffff


def i32(x):
    x &= M32
    return x - (1 << 32) if x & 0x80000000 else x


def i64(x):
    x &= (1 << 64) - 1
    return x - (1 << 64) if x >> 63 else x


class Throw(Exception):
    def __init__(self, typ, val=0):
        self.typ, self.val = typ, val


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Budget(Exception):
    """The program takes too many steps: the generator discards it."""


BASES = {'Exception': None, 'SystemException': 'Exception', 'InvalidCastException': 'SystemException',
         'OutOfRangeException': 'SystemException', 'E0': 'Exception', 'E1': 'E0', 'E2': 'Exception',
         'E3': 'E1'}
THROWABLE = ['Exception', 'SystemException', 'E0', 'E1', 'E2', 'E3']
TICKABLE = ['Exception', 'E0', 'E1', 'E2', 'E3', 'OutOfRangeException', 'InvalidCastException']


def is_a(t, base):
    while t is not None:
        if t == base:
            return True
        t = BASES[t]
    return False


# ---------------------------------------------------------------- emission

# How a method is called: directly, through a delegate of it, or as a method of an object.
CALLS = {'static': 'Program.M%d(c, %s)', 'dlg': 'Program.D%d(c, %s)', 'inst': 'c.H.M%d(c, %s)', 'virt': 'c.B.M%d(c, %s)',
         'iface': 'c.I.M%d(c, %s)', 'dinst': 'c.H.D%d(c, %s)'}


def ex(e):
    k = e[0]
    if k == 'c':
        return str(e[1]) if e[1] >= 0 else '(%d)' % e[1]
    if k == 'v':
        return e[1]
    if k == 'bin':
        return '(%s %s %s)' % (ex(e[2]), e[1], ex(e[3]))
    if k == 'tick':
        return 'c.Tick(%s)' % ex(e[1])
    if k == 'call':
        return CALLS[e[3] if len(e) > 3 else 'static'] % (e[1], ', '.join(ex(a) for a in e[2]))
    if k == 'idx':
        return '%s[%s]' % (e[1], ex(e[2]))
    if k == 'cond':
        return '(%s ? %s : %s)' % (cx(e[1]), ex(e[2]), ex(e[3]))
    if k == 'excv':
        return '%s.V' % e[1]
    if k == 'raw':
        return e[1]
    raise AssertionError(k)


def cx(c):
    k = c[0]
    if k == 'cmp':
        return '%s %s %s' % (ex(c[2]), c[1], ex(c[3]))
    if k == 'and':
        return '(%s && %s)' % (cx(c[1]), cx(c[2]))
    if k == 'or':
        return '(%s || %s)' % (cx(c[1]), cx(c[2]))
    if k == 'not':
        return '!(%s)' % cx(c[1])
    raise AssertionError(k)


def st(s, out, ind):
    p = '    ' * ind
    k = s[0]

    def block(b):
        for x in b:
            st(x, out, ind + 1)
    if k == 'set':
        out.append('%s%s = %s;' % (p, s[1], ex(s[2])))
    elif k == 'seti':
        out.append('%s%s[%s] = %s;' % (p, s[1], ex(s[2]), ex(s[3])))
    elif k == 'print':
        out.append('%sConsole.WriteLine(%s);' % (p, ex(s[1])))
    elif k == 'prints':
        out.append('%sConsole.WriteLine("%s");' % (p, s[1]))
    elif k == 'do':
        out.append('%s%s;' % (p, ex(s[1])))
    elif k == 'if':
        out.append('%sif (%s)\n%s{' % (p, cx(s[1]), p))
        block(s[2])
        out.append(p + '}')
        if s[3]:
            out.append('%selse\n%s{' % (p, p))
            block(s[3])
            out.append(p + '}')
    elif k == 'for':
        out.append('%sfor (int %s = 0; %s < %d; %s++)\n%s{' % (p, s[1], s[1], s[2], s[1], p))
        block(s[3])
        out.append(p + '}')
    elif k == 'while':
        out.append('%s%s = 0;\n%swhile (%s < %d)\n%s{\n%s    %s = %s + 1;'
                   % (p, s[1], p, s[1], s[2], p, p, s[1], s[1]))
        block(s[3])
        out.append(p + '}')
    elif k == 'switch':
        out.append('%sswitch (%s)\n%s{' % (p, ex(s[1]), p))
        for val, body in s[2]:
            out.append('%s    %s:' % (p, 'default' if val is None else 'case %d' % val))
            for x in body:
                st(x, out, ind + 2)
            out.append(p + '        break;')
        out.append(p + '}')
    elif k == 'break':
        out.append(p + 'break;')
    elif k == 'continue':
        out.append(p + 'continue;')
    elif k == 'return':
        out.append(p + 'return%s;' % ('' if s[1] is None else ' ' + ex(s[1])))
    elif k == 'throw':
        if s[2] is None:
            out.append('%sthrow new %s();' % (p, s[1]))
        else:
            out.append('%s{ %s %s = new %s(); %s.V = %s; throw %s; }'
                       % (p, s[1], s[3], s[1], s[3], ex(s[2]), s[3]))
    elif k == 'rethrow':
        out.append('%sthrow %s;' % (p, s[1]))
    elif k == 'cast':
        out.append('%s{ object %so = new %s(); %s %st = (%s)%so; }'
                   % (p, s[3], s[1], s[2], s[3], s[2], s[3]))
    elif k == 'try':
        out.append('%stry\n%s{' % (p, p))
        block(s[1])
        out.append(p + '}')
        for typ, var, body in s[2]:
            out.append('%scatch%s\n%s{' % (p, '' if typ is None else ' (%s %s)' % (typ, var), p))
            block(body)
            out.append(p + '}')
        if s[3] is not None:
            out.append('%sfinally\n%s{' % (p, p))
            block(s[3])
            out.append(p + '}')
    else:
        raise AssertionError(k)


EXC_CLASSES = '''class E0 : Exception
{
    public int V;
}

class E1 : E0 { }

class E2 : Exception
{
    public int W;
}

class E3 : E1 { }

class Ctx
{
    public int N;
    public int At;
    public int Kind;

    public int Tick(int k)
    {
        N = N + 1;
        if (N == At)
        {
            if (Kind == 0) throw new Exception();
            if (Kind == 1) throw new E0();
            if (Kind == 2) throw new E1();
            if (Kind == 3) throw new E2();
            if (Kind == 4) throw new E3();
            if (Kind == 5) { int[] q = new int[2]; q[N + 2] = 1; }
            if (Kind == 6) { object o = new E2(); E0 z = (E0)o; }
        }
        return k;
    }
}
'''


class Program:
    """methods: [(nparams, locals, body)], the last of them Main."""

    def __init__(self):
        self.methods = []
        self.main = []
        self.hows = []
        self.locals = 4
        self.arr = 3
        self.at = 0
        self.kind = 0

    def method_source(self, name, params, body, ret, entry=False, how='static'):
        out = []
        sig = 'Ctx c, ' + ', '.join('int %s' % p for p in params)
        if entry:
            out.append('    [EntryPoint]')
            out.append('    public static void Main()\n    {')
            out.append('        Ctx c = new Ctx();\n        c.At = %d;\n        c.Kind = %d;'
                       % (self.at, self.kind))
            if self.hosted():
                out.append('        c.H = new Host();\n        c.B = c.H;\n        c.I = c.H;')
        else:
            out.append('    public %s %s %s(%s)\n    {' % (how, 'int' if ret else 'void', name, sig))
        for k in range(self.locals):
            out.append('        int v%d = %d;' % (k, k))
        for k in range(2):
            out.append('        int w%d = 0;' % k)
        out.append('        int[] z = new int[%d];' % self.arr)
        for s in body:
            st(s, out, 2)
        out.append('    }')
        return '\n'.join(out)

    def how(self, k):
        return self.hows[k] if k < len(self.hows) else 'static'

    def hosted(self):
        return any(self.how(k) not in ('static', 'dlg') for k in range(len(self.methods)))

    def source(self):
        parts = ['import System;\n\nusing System;\n', EXC_CLASSES, 'class Program\n{']
        host = []
        for k, (params, body) in enumerate(self.methods):
            h = self.how(k)
            w = {'inst': '', 'iface': '', 'dinst': '', 'virt': 'override'}
            if h in w:
                host.append(self.method_source('M%d' % k, params, body, True, how=w[h]))
            else:
                parts.append(self.method_source('M%d' % k, params, body, True))
            sig = 'D%d(Ctx c, %s)' % (k, ', '.join('int ' + x for x in params))
            call = '    {\n        Delegate<int, Ctx%s> f = M%d;\n        return f(c, %s);\n    }' % (', int' * len(params), k, ', '.join(params))
            if h == 'dlg':
                parts.append('    public static int %s\n%s' % (sig, call))
            elif h == 'dinst':
                host.append('    public int %s\n%s' % (sig, call))
        parts.append(self.method_source('Main', [], self.main, False, True))
        parts.append('}\n')
        if self.hosted():
            sig = lambda k: 'int M%d(Ctx c, %s)' % (k, ', '.join('int ' + x for x in self.methods[k][0]))
            ks = range(len(self.methods))
            parts.append('public interface IHost\n{\n%s\n}\n' % '\n'.join('    %s;' % sig(k) for k in ks if self.how(k) == 'iface'))
            parts.append('public class Base\n{\n%s\n}\n' % '\n'.join(
                '    public virtual %s\n    {\n        return %d;\n    }' % (sig(k), -k) for k in ks if self.how(k) == 'virt'))
            parts.append('public class Host : Base, IHost\n{\n' + '\n'.join(host) + '\n}\n')
            parts[1] = parts[1].replace('class Ctx\n{', 'class Ctx\n{\n    public Host H;\n    public Base B;\n    public IHost I;', 1)
        return '\n'.join(parts)

    # ------------------------------------------------------------ model
    def run(self, budget=4000):
        self.out = []
        self.steps = budget
        self.ticks = 0
        self.depth = 0
        self.stats = {'throw': 0, 'catch': 0, 'finally': 0, 'uncaught': 0, 'ret_in_try': 0}
        uncaught = None
        try:
            self.call_body(self.main, {})
        except Return:
            pass
        except Throw as t:
            uncaught = t.typ
            self.stats['uncaught'] += 1
        return self.out, uncaught

    def call_body(self, body, env):
        self.depth += 1
        if self.depth > 20:
            raise Budget()
        for k in range(self.locals):
            env['v%d' % k] = k
        env['w0'] = env['w1'] = 0
        env['z'] = [0] * self.arr
        try:
            self.block(body, env)
        finally:
            self.depth -= 1

    def block(self, b, env):
        for s in b:
            self.stmt(s, env)

    def throw(self, t, v=0):
        self.stats['throw'] += 1
        raise Throw(t, v)

    def ev(self, e, env):
        k = e[0]
        if k == 'c':
            return e[1]
        if k == 'v':
            return env[e[1]]
        if k == 'bin':
            a = self.ev(e[2], env)
            b = self.ev(e[3], env)
            op = e[1]
            return i32(a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else
                       a & b if op == '&' else a | b if op == '|' else a ^ b)
        if k == 'tick':
            v = self.ev(e[1], env)
            self.ticks += 1
            if self.ticks == self.at:
                self.throw(TICKABLE[self.kind])
            return v
        if k == 'call':
            self.steps -= 3
            args = [self.ev(a, env) for a in e[2]]
            params, body = self.methods[e[1]]
            try:
                self.call_body(body, dict(zip(params, args)))
            except Return as r:
                return r.v
            raise AssertionError('no return')
        if k == 'idx':
            i = self.ev(e[2], env)
            a = env[e[1]]
            if not 0 <= i < len(a):
                self.throw('OutOfRangeException')
            return a[i]
        if k == 'cond':
            return self.ev(e[2] if self.cond(e[1], env) else e[3], env)
        if k == 'excv':
            return env[e[1]][1]
        raise AssertionError(k)

    def cond(self, c, env):
        k = c[0]
        if k == 'cmp':
            a, b = self.ev(c[2], env), self.ev(c[3], env)
            return {'<': a < b, '>': a > b, '==': a == b, '!=': a != b, '<=': a <= b, '>=': a >= b}[c[1]]
        if k == 'and':
            return self.cond(c[1], env) and self.cond(c[2], env)
        if k == 'or':
            return self.cond(c[1], env) or self.cond(c[2], env)
        return not self.cond(c[1], env)

    def stmt(self, s, env):
        self.steps -= 1
        if self.steps < 0:
            raise Budget()
        k = s[0]
        if k == 'set':
            env[s[1]] = self.ev(s[2], env)
        elif k == 'seti':
            i, v = self.ev(s[2], env), self.ev(s[3], env)
            if not 0 <= i < len(env[s[1]]):
                self.throw('OutOfRangeException')
            env[s[1]][i] = v
        elif k == 'print':
            self.out.append(str(self.ev(s[1], env)))
        elif k == 'prints':
            self.out.append(s[1])
        elif k == 'do':
            self.ev(s[1], env)
        elif k == 'if':
            self.block(s[2] if self.cond(s[1], env) else s[3], env)
        elif k in ('for', 'while'):
            self.loop(k, s, env)
        elif k == 'switch':
            v = self.ev(s[1], env)
            body = next((b for val, b in s[2] if val == v), None)
            if body is None:
                body = next((b for val, b in s[2] if val is None), [])
            self.block(body, env)
        elif k == 'break':
            raise Break()
        elif k == 'continue':
            raise Continue()
        elif k == 'return':
            raise Return(None if s[1] is None else self.ev(s[1], env))
        elif k == 'throw':
            self.throw(s[1], 0 if s[2] is None else self.ev(s[2], env))
        elif k == 'rethrow':
            t, v = env[s[1]]
            self.throw(t, v)
        elif k == 'cast':
            if not is_a(s[1], s[2]):
                self.throw('InvalidCastException')
        elif k == 'try':
            self.do_try(s, env)
        else:
            raise AssertionError(k)

    def loop(self, k, s, env):
        if k == 'while':
            env[s[1]] = 0
            while env[s[1]] < s[2]:
                self.steps -= 1
                if self.steps < 0:
                    raise Budget()
                env[s[1]] = i32(env[s[1]] + 1)
                try:
                    self.block(s[3], env)
                except Break:
                    break
                except Continue:
                    pass
            return
        env[s[1]] = 0
        while env[s[1]] < s[2]:
            self.steps -= 1
            if self.steps < 0:
                raise Budget()
            try:
                self.block(s[3], env)
            except Break:
                break
            except Continue:
                pass
            env[s[1]] += 1

    def do_try(self, s, env):
        pending = None
        try:
            try:
                self.block(s[1], env)
            except Throw as t:
                for typ, var, body in s[2]:
                    if typ is None or is_a(t.typ, typ):
                        self.stats['catch'] += 1
                        if var:
                            env[var] = (t.typ, t.val)
                        self.block(body, env)
                        break
                else:
                    raise
        except (Throw, Break, Continue, Return) as e:
            pending = e
            if isinstance(e, Return):
                self.stats['ret_in_try'] += 1
        if s[3] is not None:
            self.stats['finally'] += 1
            self.block(s[3], env)      # anything it raises replaces what is pending
        if pending is not None:
            raise pending


class Gen:
    """Random programs; `w` turns features on and off (swarm style)."""

    def __init__(self, rng):
        self.r = rng
        self.nvar = 0
        self.mark = 0
        r = rng
        self.f = {k: r.random() < p for k, p in dict(
            catch=.95, fin=.9, nested=.8, loop=.7, leave=.7, ret=.7, calls=.85, recur=.4,
            throwcatch=.6, throwfin=.5, oor=.5, cast=.4, switch=.4, value=.5, tick=.9, kinds=.5).items()}

    def name(self, p):
        self.nvar += 1
        return '%s%d' % (p, self.nvar)

    def atom(self, vars):
        if self.r.random() < .4:
            return ('c', self.r.choice([0, 1, 2, 3, 5, 7, 100, -1, -9, 65536, 2147483647, self.r.randrange(-999, 999)]))
        return ('v', self.r.choice(vars))

    def expr(self, sc, d=2):
        x = self.r.random()
        if d <= 0 or x < .3:
            return self.atom(sc['vars'])
        if x < .6:
            return ('bin', self.r.choice(['+', '-', '*', '&', '|', '^', '+']), self.expr(sc, d - 1), self.expr(sc, d - 1))
        if x < .7 and self.f['tick']:
            return ('tick', self.expr(sc, d - 1))
        if x < .8 and self.f['calls'] and sc['callable']:
            return self.call(sc)
        if x < .87:
            return ('idx', 'z', ('bin', '&', self.expr(sc, 0), ('c', 1)))
        if x < .93:
            return ('cond', self.condition(sc), self.expr(sc, d - 1), self.expr(sc, d - 1))
        return self.atom(sc['vars'])

    def call(self, sc):
        m = self.r.choice(sc['callable'])
        h = self.hows[m]
        if m == sc.get('self'):
            return ('call', m, [('bin', '-', ('v', 'a'), ('c', 1)), self.atom(sc['vars'])], h)
        return ('call', m, [self.atom(sc['vars']), self.atom(sc['vars'])], h)

    def condition(self, sc):
        x = self.r.random()
        if x < .12:
            return ('and', self.condition(sc), self.condition(sc))
        if x < .2:
            return ('or', self.condition(sc), self.condition(sc))
        return ('cmp', self.r.choice(['<', '>', '==', '!=', '<=', '>=']),
                ('v', self.r.choice(sc['vars'])), self.atom(sc['vars']))

    def marker(self):
        self.mark += 1
        return ('prints', 'm%d' % self.mark)

    def body(self, sc, depth, n):
        out = []
        for _ in range(n):
            out += self.stmt(sc, depth)
        return out

    def sub(self, sc, **kw):
        d = dict(sc)
        d.update(kw)
        return d

    def stmt(self, sc, depth):
        r = self.r
        x = r.random()
        f = self.f
        if depth <= 0 or x < .22:
            y = r.random()
            if y < .35:
                return [('set', r.choice(sc['assign']), self.expr(sc))]
            if y < .6:
                return [('print', self.expr(sc, 1))]
            if y < .7:
                return [self.marker()]
            if y < .8:
                return [('seti', 'z', ('bin', '&', self.expr(sc, 0), ('c', 1)), self.expr(sc, 1))]
            if y < .9 and f['oor']:
                return [('seti', 'z', self.atom(sc['vars']), self.expr(sc, 1))]
            if f['tick']:
                return [('do', ('tick', ('c', 0)))]
            return [self.marker()]
        if x < .5 and (f['catch'] or f['fin']):
            return [self.try_(sc, depth)]
        if x < .6:
            return [('if', self.condition(sc), self.body(sc, depth - 1, r.randrange(1, 3)),
                     self.body(sc, depth - 1, 1) if r.random() < .4 else [])]
        if x < .7 and f['loop']:
            v = self.name('i')
            inner = self.sub(sc, vars=sc['vars'] + [v], loop=True)
            b = self.body(inner, depth - 1, r.randrange(1, 4))
            if r.random() < .3:
                w = r.choice(['w0', 'w1'])
                if w not in sc.get('busy', ()):
                    inner = self.sub(sc, vars=sc['vars'] + [w], loop=True, busy=tuple(sc.get('busy', ())) + (w,))
                    return [('while', w, r.randrange(1, 5), self.body(inner, depth - 1, r.randrange(1, 4)))]
            return [('for', v, r.randrange(1, 5), b)]
        if x < .75 and f['switch'] and not sc.get('nosw'):
            inner = self.sub(sc, insw=True)
            cases = [(k, self.body(inner, depth - 1, 1)) for k in range(r.randrange(1, 3))]
            if r.random() < .6:
                cases.append((None, self.body(inner, depth - 1, 1)))
            return [('switch', ('bin', '&', self.expr(sc, 1), ('c', 3)), cases)]
        if x < .83:
            return [('if', self.condition(sc), [self.thrower(sc)], [])]
        if x < .9 and f['leave'] and sc['loop'] and not sc['fin']:
            kinds = ['continue'] if sc.get('insw') else ['break', 'continue']
            return [('if', self.condition(sc), [(r.choice(kinds),)], [])]
        if x < .95 and f['ret'] and not sc['fin']:
            return [('if', self.condition(sc), [('return', None if sc['void'] else self.expr(sc, 1))], [])]
        if f['cast']:
            t1, t2 = r.choice([('E0', 'E2'), ('E1', 'E0'), ('E2', 'E2'), ('E3', 'E0'), ('E0', 'E3')])
            return [('cast', t1, t2, self.name('k'))]
        return [('print', self.expr(sc, 1))]

    def thrower(self, sc):
        t = self.r.choice(THROWABLE)
        if self.f['value'] and is_a(t, 'E0') and self.r.random() < .6:
            return ('throw', t, self.expr(sc, 0), self.name('x'))
        return ('throw', t, None, None)

    def try_(self, sc, depth):
        r, f = self.r, self.f
        d = depth - 1 if f['nested'] else 0
        body = self.body(self.sub(sc), d, r.randrange(1, 4))
        if r.random() < .3:
            body.append(('if', self.condition(sc), [self.thrower(sc)], []))
        catches = []
        want_fin = f['fin'] and r.random() < .6
        if f['catch'] and (not want_fin or r.random() < .6):
            types = r.sample(['E3', 'E1', 'E0', 'E2', 'OutOfRangeException', 'InvalidCastException',
                              'SystemException', 'Exception', None], r.randrange(1, 4))
            order = ['E3', 'E1', 'E0', 'E2', 'OutOfRangeException', 'InvalidCastException',
                     'SystemException', 'Exception', None]
            types.sort(key=order.index)
            for t in types:
                v = self.name('e') if t else None
                s2 = self.sub(sc)
                b = [self.marker()]
                if t and is_a(t, 'E0') and f['value']:
                    b.append(('print', ('excv', v)))
                b += self.body(s2, d if f['throwcatch'] else 0, r.randrange(0, 2))
                if f['throwcatch'] and r.random() < .25:
                    b.append(('if', self.condition(sc), [('rethrow', v) if v and r.random() < .5 else self.thrower(sc)], []))
                catches.append((t, v, b))
        fin = None
        if want_fin or not catches:
            s2 = self.sub(sc, fin=True)
            fin = [self.marker()] + self.body(s2, d if f['throwfin'] else 0, r.randrange(0, 2))
            if f['throwfin'] and r.random() < .15:
                fin.append(('if', self.condition(sc), [self.thrower(sc)], []))
        return ('try', body, catches, fin)

    def program(self):
        r = self.r
        p = Program()
        p.arr = r.randrange(2, 6)
        nm = r.randrange(0, 4)
        self.hows = p.hows = [r.choice(list(CALLS)) if self.f['kinds'] else 'static' for _ in range(nm)]
        for k in range(nm):
            callable_ = list(range(k))
            base = []
            if self.f['recur'] and r.random() < .5:
                base = [('if', ('cmp', '<=', ('v', 'a'), ('c', 0)),
                         [('return', ('c', k)) if r.random() < .6 else self.thrower(
                             {'vars': ['b', 'v0'], 'callable': []})], [])]
                callable_ = callable_ + [k]
            sc = dict(vars=['a', 'b', 'v0', 'v1', 'v2', 'v3'], assign=['b', 'v0', 'v1', 'v2', 'v3'],
                      callable=callable_, loop=False, fin=False, void=False,
                      self=k if base else None)
            if base:
                # the depth of a recursion is bounded: every outside caller passes a & 7
                base.insert(0, ('set', 'a', ('bin', '&', ('v', 'a'), ('c', 7))) if r.random() < 2 else None)
            body = base + self.body(sc, 3, r.randrange(2, 5)) + [('return', self.expr(sc, 1))]
            p.methods.append((['a', 'b'], body))
        sc = dict(vars=['v0', 'v1', 'v2', 'v3'], assign=['v0', 'v1', 'v2', 'v3'],
                  callable=list(range(nm)), loop=False, fin=False, void=True)
        p.main = self.body(sc, 3, r.randrange(3, 7))
        if nm:
            p.main.append(('try', [('print', self.call(sc))], [('Exception', self.name('e'), [self.marker()])], None))
        for k in range(4):
            p.main.append(('print', ('v', 'v%d' % k)))
        p.main.append(('prints', 'end'))
        return p


def exc_program(seed):
    """A program that terminates within the budget with no injected exception."""
    n = 0
    while True:
        r = random.Random('exc%d/%d' % (seed, n))
        n += 1
        p = Gen(r).program()
        try:
            out, unc = p.run()
        except (Budget, RecursionError):
            continue
        if len(out) < 3:
            continue
        p.nticks = p.ticks
        return p


# ---------------------------------------------------------------- reduction

def _blocks(s):
    """(rebuild, block) for every statement list directly inside s."""
    k = s[0]
    if k == 'if':
        yield (lambda b: ('if', s[1], b, s[3])), s[2]
        yield (lambda b: ('if', s[1], s[2], b)), s[3]
    elif k in ('for', 'while'):
        yield (lambda b: (k, s[1], s[2], b)), s[3]
    elif k == 'switch':
        for n, (v, body) in enumerate(s[2]):
            yield (lambda b, n=n, v=v: ('switch', s[1], s[2][:n] + [(v, b)] + s[2][n + 1:])), body
    elif k == 'try':
        yield (lambda b: ('try', b, s[2], s[3])), s[1]
        for n, (t, v, body) in enumerate(s[2]):
            yield (lambda b, n=n, t=t, v=v: ('try', s[1], s[2][:n] + [(t, v, b)] + s[2][n + 1:], s[3])), body
        if s[3] is not None:
            yield (lambda b: ('try', s[1], s[2], b)), s[3]


def _shrink_block(b):
    n = len(b)
    for size in sorted({n, n // 2, 1}, reverse=True):
        if size < 1:
            continue
        for at in range(0, n, size):
            yield b[:at] + b[at + size:]
    for k, s in enumerate(b):
        if s[0] == 'if':
            yield b[:k] + s[2] + b[k + 1:]
            if s[3]:
                yield b[:k] + [('if', s[1], s[2], [])] + b[k + 1:]
        elif s[0] == 'try':
            yield b[:k] + s[1] + b[k + 1:]
            if s[3] is not None:
                yield b[:k] + s[1] + s[3] + b[k + 1:]
                if s[2]:
                    yield b[:k] + [('try', s[1], s[2], None)] + b[k + 1:]
            for n2 in range(len(s[2])):
                if len(s[2]) > 1 or s[3] is not None:
                    yield b[:k] + [('try', s[1], s[2][:n2] + s[2][n2 + 1:], s[3])] + b[k + 1:]
        elif s[0] in ('for', 'while'):
            if s[2] > 1:
                yield b[:k] + [(s[0], s[1], 1, s[3])] + b[k + 1:]
        elif s[0] in ('set', 'print') and s[-1][0] not in ('c', 'v'):
            yield b[:k] + [s[:-1] + (('c', 1),)] + b[k + 1:]
        for rebuild, blk in _blocks(s):
            for nb in _shrink_block(blk):
                yield b[:k] + [rebuild(nb)] + b[k + 1:]


def shrink(p):
    """Simpler programs than p (their model may not terminate or differ: the caller checks)."""
    import copy

    def clone():
        q = copy.copy(p)
        q.methods = list(p.methods)
        return q
    for b in _shrink_block(p.main):
        q = clone()
        q.main = b
        yield q
    for k, (params, body) in enumerate(p.methods):
        for b in _shrink_block(body[:-1]):
            q = clone()
            q.methods[k] = (params, b + body[-1:])
            yield q
        if body[-1][1][0] != 'c':
            q = clone()
            q.methods[k] = (params, body[:-1] + [('return', ('c', 1))])
            yield q
    if p.at:
        q = clone()
        q.at = 0
        yield q
