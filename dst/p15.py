"""P15: programs that run code while being compiled do not depend on the scheduling of the compiler's threads."""
import re
from . import modeb as M
from .check import ddlist

HEAD = ('import "alusus_spp";\nimport "Spp";\n'
        'def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any) => Int[64];\n'
        'class C { def v: Int; handler this~init(v: Int) { this.v = v; printf("+ %d\\n", v); }; handler this~terminate() { printf("- %d\\n", this.v); }; };\n'
        'func tpl [T: type] (a: T): T { return a + 1; };\n'
        'class Box [T: type] { def x: T; handler this.twice(): T { return this.x + this.x; }; };\n')
LIM = 9973
# units, each one line of the program:
#  ['f', k, body, ret]            function fK; body: list of statements
#  ['pre', stmts]                 root preprocess block
#  ['run', stmts]                 root level statements
#  ['ins', k, e]                  root preprocess block that inserts a function nK returning e
#  ['insv', k, n]                 root preprocess block that inserts a variable vK
#  ['cls', k, fields]             class KK whose members a preprocess block inserts
#  ['g', k, n]                    global
#  ['bad', kind]                  an erroneous statement
# statements: ['pr', tag, e] ['inc', g, e] ['for', n, [..]] ['if', e, [..], [..]] ['pre', [..]] ['obj', e, [..]] ['insp', tag, n] (inserts n prints) ['cls', k, tag]
# expr: ['n', v] ['a'] ['i'] ['+', x, y] ['*', x, y] ['f', k, e] ['t', size, e] ['box', size, e] ['fp', k, e] ['c', n]: constant computed by a preprocess block


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.k = 0
        self.f = []
        self.n = []
        self.g = []
        self.c = []
        self.v = []

    def id(self):
        self.k += 1
        return self.k

    def expr(self, loc, d=0, fn=True):
        r = self.r
        w = r.random()
        if d > 2 or w < 0.2:
            return ['n', r.randrange(1, 60)]
        if w < 0.35 and loc:
            return [r.choice(loc)]
        if w < 0.6 and fn and (self.f or self.n):
            k = r.choice(self.f + self.n)
            return ['fp' if r.random() < 0.2 else 'f', k, self.expr(loc, d + 1, fn)]
        if w < 0.7:
            return ['t', r.choice([8, 16, 32, 64]), ['n', r.randrange(1, 100)]]
        if w < 0.78:
            return ['box', r.choice([16, 32, 64]), ['n', r.randrange(1, 100)]]
        if w < 0.84:
            return ['c', r.randrange(1, 100)]
        return [r.choice('+*'), self.expr(loc, d + 1, fn), self.expr(loc, d + 1, fn)]

    def stmts(self, loc, pre, d=0, n=None):
        return [self.stmt(loc, pre, d) for _ in range(n or self.r.choice([1, 1, 2, 3]))]

    def stmt(self, loc, pre, d):
        r = self.r
        w = r.random()
        if d < 2:
            if w < 0.12:
                k = self.id()
                return ['for', r.choice([0, 1, 2, 3]), self.stmts([x for x in loc if x == 'a'] + ['i%d' % k], pre, d + 1), k]
            if w < 0.22:
                return ['if', self.expr(loc), self.stmts(loc, pre, d + 1), self.stmts(loc, pre, d + 1)]
            if w < 0.45:
                return ['pre', self.stmts([], True, d + 1)]
            if w < 0.53:
                return ['obj', self.expr(loc), self.stmts(loc, pre, d + 1)]
        if w < 0.63 and self.g:
            return ['inc', r.choice(self.g), self.expr(loc, fn=False)]
        if w < 0.7:
            return ['insp', self.id(), r.choice([1, 2, 3])]
        if w < 0.76 and self.c:
            return ['cls', r.choice(self.c), self.id()]
        return ['pr', self.id(), self.expr(loc)]

    def unit(self):
        r = self.r
        w = r.random()
        if w < 0.28:
            k = self.id()
            u = ['f', k, self.stmts(['a'], False) if r.random() < 0.6 else [], self.expr(['a'])]
            self.f.append(k)
            return u
        if w < 0.5:
            return ['pre', self.stmts([], True)]
        if w < 0.7:
            return ['run', self.stmts([], False), self.id()]
        k = self.id()
        if w < 0.8:
            u = ['ins', k, self.expr(['a'])]
            self.n.append(k)
            return u
        if w < 0.87:
            self.g.append(k)
            return ['g', k, r.randrange(100)]
        if w < 0.93:
            self.c.append(k)
            return ['cls', k, r.choice([1, 2, 3])]
        return ['run', self.stmts([], False), self.id()]


class Prog:
    """Text of a program and the lines it prints (in an order that depends on when functions are built)."""

    def __init__(self, us):
        self.us = us
        self.f = {}
        for u in us:
            if u[0] == 'f':
                self.f[u[1]] = ('f%d' % u[1], u[2], u[3])
            if u[0] == 'ins':
                self.f[u[1]] = ('n%d' % u[1], [], u[2])
        self.cls = {u[1]: u[2] for u in us if u[0] == 'cls'}

    def ex(self, e):
        t = e[0]
        if t == 'n':
            return str(e[1])
        if t == 'a' or t[0] == 'i':
            return t
        if t == 'f':
            return '%s(%s)' % (self.f[e[1]][0], self.ex(e[2]))
        if t == 'fp':
            return '(%s~ptr)(%s)' % (self.f[e[1]][0], self.ex(e[2]))
        if t == 't':
            return '(tpl[Int[%d]](%s)~cast[Int])' % (e[1], self.ex(e[2]))
        if t == 'box':
            return 'box%d(%s)' % (e[1], self.ex(e[2]))
        if t == 'c':
            return '(preprocess { Spp.astMgr.insertAst(ast { %d }) })' % e[1]
        return '((%s %s %s) %% %d)' % (self.ex(e[1]), t, self.ex(e[2]), LIM)

    def st(self, s, ind='  '):
        t = s[0]
        if t == 'pr':
            return '%sprintf("p %d %%d\\n", %s);\n' % (ind, s[1], self.ex(s[2]))
        if t == 'inc':
            return '%sg%d = (g%d + %s) %% %d;\n' % (ind, s[1], s[1], self.ex(s[2]), LIM)
        if t == 'for':
            i = 'i%d' % s[3]
            return '%sdef %s: Int; for %s = 0, %s < %d, ++%s {\n%s%s};\n' % (ind, i, i, i, s[1], i, self.block(s[2], ind + '  '), ind)
        if t == 'if':
            return '%sif %s %% 2 == 0 {\n%s%s} else {\n%s%s};\n' % (ind, self.ex(s[1]), self.block(s[2], ind + '  '), ind, self.block(s[3], ind + '  '), ind)
        if t == 'pre':
            return '%spreprocess {\n%s%s};\n' % (ind, self.block(s[1], ind + '  '), ind)
        if t == 'obj':
            return '%sif 1 == 1 { def o: C(%s);\n%s%s};\n' % (ind, self.ex(s[1]), self.block(s[2], ind + '  '), ind)
        if t == 'insp':
            return '%spreprocess { def k: Int; for k = 0, k < %d, ++k { Spp.astMgr.insertAst(ast { printf("i %d\\n") }); }; };\n' % (ind, s[2], s[1])
        if t == 'cls':
            return '%sif 1 == 1 { def o: K%d; o.m0 = 3; printf("k %d %%d\\n", o.m0); };\n' % (ind, s[1], s[2])
        raise KeyError(t)

    def block(self, b, ind):
        return ''.join(self.st(s, ind) for s in b)

    def unit(self, u):
        t = u[0]
        if t == 'f':
            return 'func f%d (a: Int): Int {\n%s  return %s;\n};\n' % (u[1], self.block(u[2], '  '), self.ex(u[3]))
        if t == 'pre':
            return 'preprocess {\n%s};\n' % self.block(u[1], '  ')
        if t == 'run':
            return 'func r%d () {\n%s};\nr%d();\n' % (u[2], self.block(u[1], '  '), u[2])
        if t == 'ins':
            return 'preprocess { Spp.astMgr.insertAst(ast { func n%d (a: Int): Int { return %s; } }); };\n' % (u[1], self.ex(u[2]))
        if t == 'g':
            return 'def g%d: Int(%d);\n' % (u[1], u[2])
        if t == 'cls':
            return 'class K%d {\n%s};\n' % (u[1], ''.join('  preprocess { Spp.astMgr.insertAst(ast { def m%d: Int }); };\n' % j for j in range(u[2])))
        if t == 'bad':
            return BAD[u[1]]
        raise KeyError(t)

    def text(self):
        b = ''.join('func box%d (n: Int): Int { def b: Box[Int[%d]]; b.x = n; return b.twice()~cast[Int]; };\n' % (n, n) for n in (16, 32, 64))
        return HEAD + b + ''.join(self.unit(u) for u in self.us) + ''.join('printf("g %d %%d\\n", g%d);\n' % (u[1], u[1]) for u in self.us if u[0] == 'g')

    # ---- values
    def lines(self):
        """The lines a fault free run prints, as a sorted list (None: too many)."""
        self.val = {u[1]: u[2] for u in self.us if u[0] == 'g'}
        self.o = []
        self.built = set()
        self.steps = 0
        try:
            for u in self.us:
                if u[0] == 'pre':
                    self.exblock(u[1], {})
                elif u[0] == 'run':
                    self.build(u[1])
                    self.exblock(u[1], {}, False)
        except OverflowError:
            return None
        for u in self.us:
            if u[0] == 'g':
                self.o.append('g %d %d' % (u[1], self.val[u[1]]))
        return sorted(self.o)

    def build(self, b):
        """Run the preprocess blocks of b and of everything b calls."""
        todo = list(b)
        while todo:
            x = todo.pop(0)
            if not isinstance(x, list) or not x:
                continue
            if isinstance(x[0], list):
                todo += x
            elif x[0] == 'pre':
                self.exblock(x[1], {})
            else:
                if x[0] in ('f', 'fp') and x[1] not in self.built:
                    self.built.add(x[1])
                    todo += [self.f[x[1]][1], self.f[x[1]][2]]
                todo += [y for y in x[1:] if isinstance(y, list)]

    def exblock(self, b, loc, build=True):
        if build:
            self.build(b)
        for s in b:
            self.do(s, loc)

    def do(self, s, loc):
        t = s[0]
        self.steps += 1
        if self.steps > 20000 or len(self.o) > 2500:
            raise OverflowError
        if t == 'pr':
            self.o.append('p %d %d' % (s[1], self.ev(s[2], loc)))
        elif t == 'inc':
            self.val[s[1]] = (self.val[s[1]] + self.ev(s[2], loc)) % LIM
        elif t == 'for':
            for i in range(s[1]):
                for x in s[2]:
                    self.do(x, dict(loc, **{'i%d' % s[3]: i}))
        elif t == 'if':
            for x in s[2] if self.ev(s[1], loc) % 2 == 0 else s[3]:
                self.do(x, loc)
        elif t == 'obj':
            v = self.ev(s[1], loc)
            self.o.append('+ %d' % v)
            for x in s[2]:
                self.do(x, loc)
            self.o.append('- %d' % v)
        elif t == 'insp':
            self.o += ['i %d' % s[1]] * s[2]
        elif t == 'cls':
            self.o.append('k %d 3' % s[2])

    def ev(self, e, loc):
        t = e[0]
        self.steps += 1
        if self.steps > 20000:
            raise OverflowError
        if t in ('n', 'c'):
            return e[1]
        if t == 'a' or t[0] == 'i':
            return loc[t]
        if t in ('f', 'fp'):
            f = self.f[e[1]]
            l = {'a': self.ev(e[2], loc)}
            for s in f[1]:
                self.do(s, l)
            return self.ev(f[2], l)
        if t == 't':
            return e[2][1] + 1
        if t == 'box':
            return 2 * e[2][1]
        x, y = self.ev(e[1], loc), self.ev(e[2], loc)
        return (x + y if t == '+' else x * y) % LIM


BAD = {'pre': 'preprocess { printf("bad\\n"); undefinedThing(3); };\n',
       'nested': 'func bf (a: Int): Int { preprocess { printf("bad\\n"); preprocess { def q: NoSuchType; }; }; return a; };\nprintf("%d\\n", bf(3));\n',
       'ins': 'preprocess { Spp.astMgr.insertAst(ast { printf("x %d\\n", undefinedVar) }); };\n',
       'run': 'printf("%d\\n", undefinedVar);\n'}


def sched(rng):
    return [rng.randrange(1, 10 ** 9), rng.randrange(2), rng.choice([2, 3, 8, 20, 60]), rng.choice([0, 1, 1, 2, 5, 20, 100])]


class P15(M.ModeB):
    id = 'P15'
    level = 'exploration'
    rule = ('a case is one program that runs code while being compiled (generated functions, templates and classes with nested preprocess blocks that print, call, count and insert definitions; an interactive session of '
            'such statements with erroneous ones in between, so that several JIT engines and their threads are alive; or a test program of the repository) and three seeded schedules of all threads of the compiler')
    quick = 260
    batch = 2
    technique = ('deterministic simulation: every thread of the compiler runs under a baton; a seeded scheduler decides at every lock, condition variable, once block, future, thread start and end and at seeded allocations which '
                 'thread goes on (random preemption or changing strict priorities) and injects spurious wake-ups; output, notices and exit status are compared with the schedule without preemption and with an interpreter')
    note = 'Seeded search over programs and schedules; memory accesses between two decisions are not interleaved.'
    real = 'whole compiler, LLVM ORC and its thread pool, libstdc++ threads and futures'
    stub = 'pthread mutexes, condition variables, read-write locks, once blocks, joins and futexes; disk; clock'
    measure = 'distinct (program, schedule decisions) hashes'
    assumptions = ['threads interleave at synchronisation operations and allocations only, not between single memory accesses']

    def gen(self, rng, i):
        sc = [sched(rng) for _ in range(3)]
        w = rng.random()
        if w < 0.2:
            cs = self.pre()
            return {'k': 'corpus', 'n': rng.randrange(len(cs)), 'sc': sc}
        while True:
            g = Gen(rng)
            us = [g.unit() for _ in range(rng.choice([3, 6, 10, 16]))]
            if Prog(us).lines() is not None:
                break
        if w < 0.45:
            for _ in range(rng.choice([1, 2, 4])):
                us.insert(rng.randrange(1, len(us) + 1), ['bad', rng.choice(sorted(BAD))])
            return {'k': 'inter', 'us': us, 'sc': sc}
        return {'k': 'file', 'us': us, 'sc': sc}

    def pre(self):
        return [(n, t) for n, t in M.corpus() if re.search(rb'preprocess|ast_macros|macro', t) and n not in M.UNINIT]

    def one(self, ctx, c, s):
        if c['k'] == 'corpus':
            p = M.plan({M.MAIN: self.pre()[c['n']][1]}, budget=40000000).root('/tmp')
        elif c['k'] == 'file':
            p = M.plan({M.MAIN: Prog(c['us']).text()}, budget=40000000)
        else:
            t = Prog(c['us']).text()
            p = M.plan(budget=40000000).stdin(re.sub(r'\n(?=[ }])', ' ', t))
        p.add('sched', '%d %d %d %d' % tuple(s))
        if c.get('list') is not None and s is c['sc'][0]:
            p.add('schedlist', ','.join('%d,%d' % (a, b) for a, b in [[0, 0]] + c['list']))
        return self.exe(ctx, p, ['-i'] if c['k'] == 'inter' else [M.MAIN], env=M.corpus_env() if c['k'] == 'corpus' else None, cpu=100)

    def run(self, ctx, c):
        r = [self.one(ctx, c, [1, 0, 10 ** 8, 0])]
        for s in c['sc']:
            r.append(self.one(ctx, c, s))
        return r

    def judge(self, c, obs):
        b = obs[0]
        for n, r in enumerate(obs[1:]):
            v = self.compare(c, b, r)
            if v:
                if c.get('list') is None:
                    c['trace'] = [n] + [[int(x) for x in l.split()[1:3]] for l in r.lines if l.startswith('S ')]
                return v
        if b.crashed or b.hung:
            return 'status', 'without preemption: ' + b.how()
        if c['k'] == 'file':
            got = sorted(b.out.decode('utf-8', 'replace').split('\n')[:-1])
            want = Prog(c['us']).lines()
            if got != want:
                return 'lines', 'prints %r, expected %r' % ([x for x in got if x not in want][:5], [x for x in want if x not in got][:5])
        return None

    def compare(self, c, b, r):
        d = [l for l in r.lines if l.startswith(('DEADLOCK', 'BLOCKED'))]
        if d:
            return 'deadlock', '; '.join(d)
        if any(l.startswith('BUDGET') for l in r.lines) and not any(l.startswith('BUDGET') for l in b.lines):
            return 'endless', 'no end within the budget of scheduling decisions'
        if r.crashed and not b.crashed:
            return 'crash', r.how()
        if (r.status, r.crashed, r.hung) != (b.status, b.crashed, b.hung):
            return 'status', '%s, without preemption %s' % (r.how(), b.how())
        if r.out != b.out:
            return 'output', 'output ' + M.differs(r.out, b.out)
        return None

    def reduce(self, c):
        tr = c.get('trace')
        if tr and c.get('list') is None:
            d = dict(c, sc=[c['sc'][tr[0]]], list=tr[1:])
            d.pop('trace')
            yield d
        if len(c['sc']) > 1:
            for s in c['sc']:
                yield dict(c, sc=[s], trace=None)
        for l in ddlist(c.get('us', [])):
            yield dict(c, us=l)
        if c.get('list'):
            for l in ddlist(c['list']):
                yield dict(c, list=l)

    def states(self, c, obs):
        return [str(c.get('us', c.get('n'))) + h for r in obs[1:] for l in r.lines if l.startswith('SCHED') for h in [l.split()[-1]]]

    def describe(self, c):
        return {'program': Prog(c['us']).text() if 'us' in c else self.pre()[c['n']][0]}


CHECK = P15()
