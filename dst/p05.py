"""P05: globals are initialised once, when first needed, after what they need, and keep their state over the whole process history."""
import re
from . import modeb as M, script as SC, sim as S, build as B

HEAD = ('import "alusus_spp";\nimport "Core";\n'
        'def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any) => Int[64];\n'
        'func N(k: Int, v: Int): Int { printf("c %d %d\\n", k, v); return v; };\n'
        'class C { def v: Int; handler this~init(k: Int, v: Int) { this.v = v; printf("c %d %d\\n", k, v); }; };\n'
        'class D { def v: Int; handler this~init(k: Int, v: Int) { this.v = v; cnt = cnt + 1; printf("c %d %d\\n", k, v); }; };\n'
        'class E { def pad: array[Int, 700]; def v: Int; handler this~init(k: Int, v: Int) { this.v = v; printf("c %d %d\\n", k, v); }; };\n'
        'def cnt: Int(N(1, 0));\n'
        'func L(s: ptr[array[Word[8]]]): Int { def n: Int(0); while s~cnt(n) != 0 { ++n }; return n; };\n'
        'func bump(r: ptr[Int], d: Int): Int { r~cnt = r~cnt + d; return r~cnt; };\n')

# A world is a list of items, in the order in which they are run:
#  ['g', k, cls, place, prio, [terms]]       a global; cls: C D E or I (Int); place: 'root' | module name | class name
#  ['f', n, [stmts], [terms], pre, stat]     a function: statements, result, preprocess block, shared variable
#  ['u', [terms]]                            a statement that prints a sum
#  ['a', k, [terms]]                         assignment
#  ['p', [stmts]]                            root level preprocess block
#  ['i', name, [items]]                      import of a file; ['r', ...] from running code; ['m', name, [items]] module with statements
#  ['c', k, name, [items]]                   a global whose constructor imports a file
#  ['if', terms, [stmts]], ['x', ..] aliases by pointer
# terms: ['n', v] | ['g', k] | ['f', n] | ['s', k, size]  (template instance)
WRAP = {'': '%s', 'b': '{ %s }; ', 'i': 'if 1 == 1 { %s }; ', 'e': 'if 1 == 2 { } else { %s }; ', 'w': 'if 1 == 1 { def w: Int(0); while w < 1 { ++w; %s } }; ',
        'f': 'if 1 == 1 { def w: Int; for w = 0, w < 1, ++w { %s } }; ', 'bi': '{ if 1 == 1 { %s } }; ', 'ib': 'if 1 == 1 { { %s } }; '}
# parameters, arguments for the value v, value, members
PARAM = {'type': ('X: type', lambda v: 'Int[%d]' % (v * 8), 'X~size', 'def u: X;'),
         'int': ('X: integer', lambda v: str(v), 'X', ''),
         'str': ('X: string', lambda v: '"%s"' % ('a' * v), 'L(X)', ''),
         'two': ('Y: type, X: string', lambda v: 'Int, "%s"' % ('b' * v), 'L(X)', 'def u: Y;'),
         'nest': ('X: type', lambda v: 'array[Word[8], %d]' % v, 'X~size', 'def u: X;')}


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.k = 1
        self.nf = 0
        self.ng = 0
        self.gs = {}      # k -> (text of the value, is 32 bit int)
        self.fs = []
        self.ts = []
        self.al = []
        self.pure = []    # functions that change nothing
        self.files = 0
        self.mods = []

    def num(self):
        return ['n', self.r.randrange(1, 50)]

    def terms(self, depth=0, pure=False):
        r = self.r
        o = []
        # the order in which operands are evaluated is left open: a function that changes something stands alone
        if not pure and self.fs and r.random() < 0.2:
            return [['f', r.choice(self.fs)]] + ([self.num()] if r.random() < 0.3 else [])
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            w = r.random()
            if w < 0.15:
                o.append(self.num())
            elif w < 0.7 and self.gs:
                # prefer globals that may not have been needed before
                ks = list(self.gs)
                k = r.choice(ks[-6:]) if r.random() < 0.6 else r.choice(ks)
                o.append(['g', k])
            elif w < 0.9 and self.pure:
                o.append(['f', r.choice(self.pure)])
            elif self.ts:
                o.append(['s', r.choice(self.ts), r.choice([8, 16, 32, 64])])
            else:
                o.append(self.num())
        return o

    def new_global(self, place='root'):
        self.k += 1
        k = self.k
        r = self.r
        # initialisers only read: the value does not depend on the order among the globals needed together
        t = self.terms(pure=True) if r.random() < 0.6 else [self.num()]
        it = ['g', k, r.choice(['C', 'C', 'C', 'D', 'E', 'I', 'I']), place, r.random() < 0.15, t]
        return it

    def know(self, it):
        k, cls, place = it[1], it[2], it[3]
        self.gs[k] = ('' if place == 'root' else place + '.') + 'g%d' % k + ('' if cls == 'I' else '.v')

    def stmts(self, n, pure=False):
        r = self.r
        o = []
        for _ in range(n):
            w = r.random()
            if w < 0.4 or not self.gs or pure:
                o.append(['u', self.terms(pure=pure)])
            elif w < 0.75:
                o.append(['a', r.choice(list(self.gs)), self.terms(pure=pure)])
            elif w < 0.9:
                o.append(['if', self.terms(pure=pure), [['u', self.terms(pure=pure)]]])
            else:
                o.append(['x', r.choice(list(self.gs)), self.num()])
        return o

    def items(self, n, depth=0):
        r = self.r
        o = []
        pend = []
        while n > 0:
            n -= 1
            w = r.random()
            if w < 0.3:
                # a few globals, defined in any order: what one needs may come behind it
                gs = [self.new_global()]
                self.know(gs[0])
                while r.random() < 0.5:
                    g = self.new_global()
                    self.know(g)
                    gs.append(g)
                r.shuffle(gs)
                o += gs
            elif w < 0.45:
                self.nf += 1
                pure = r.random() < 0.5
                pre = self.stmts(r.choice([1, 2]), True) if r.random() < 0.3 else None
                stat = []
                if r.random() < 0.3 and not pure:
                    for _ in range(r.choice([1, 1, 2, 3])):
                        self.k += 1
                        stat.append([self.k, self.terms(pure=True), r.choice(['', 'b', 'i', 'e', 'w', 'f', 'bi', 'ib'])])
                f = ['f', self.nf, [] if pure else self.stmts(r.choice([0, 1, 2])), self.terms(pure=pure), pre, stat]
                self.fs.append(self.nf)
                if pure:
                    self.pure.append(self.nf)
                o.append(f)
            elif w < 0.5:
                self.k += 1
                o.append(['t', self.k, r.choice(['C', 'I', 'D']), r.choice(sorted(PARAM))])
                self.ts.append(self.k)
            elif w < 0.58 and depth < 2:
                name = 'M%d' % self.k if not self.mods or r.random() < 0.6 else r.choice(self.mods)
                new = name not in self.mods
                if new:
                    self.mods.append(name)
                inner = []
                for _ in range(r.choice([1, 2, 3])):
                    if r.random() < 0.6:
                        g = self.new_global(name)
                        self.know(g)
                        inner.append(g)
                    else:
                        inner += self.stmts(1)
                o.append(['m', name, inner, new])
                # the statements of a module belong to the next statement of the root
                o.append(['u', self.terms()])
            elif w < 0.62:
                # a class with shared members
                name = 'K%d' % self.k
                gs = []
                for _ in range(r.choice([1, 2])):
                    g = self.new_global(name)
                    gs.append(g)
                for g in gs:
                    self.know(g)
                o.append(['k', name, gs])
            elif w < 0.7 and depth < 3:
                self.files += 1
                name = 'part%d' % self.files
                o.append([r.choice(['i', 'r', 'r', 'ip']), name, self.items(r.choice([1, 2, 4]), depth + 1)])
                if o[-1][0] == 'ip':
                    o.append(['u', [self.num()]])
            elif w < 0.74 and depth < 3:
                self.files += 1
                self.k += 1
                k, name = self.k, 'part%d' % self.files
                # used next, alone or together with others: never by an initialiser
                use = ['u', [['g', k]] + (self.terms() if r.random() < 0.5 else [])]
                o.append(['c', k, name, self.items(r.choice([1, 2, 3]), depth + 1)])
                o.append(use)
            elif w < 0.82:
                o.append(['p', self.stmts(r.choice([1, 2, 3]))])
            else:
                o += self.stmts(1)
        return o


class Model:
    """Text of the files, and a checker that walks along the observed trace."""

    def __init__(self, items):
        self.files = {}
        self.g = {}     # k -> item
        self.f = {}
        self.t = {}
        self.txt = {}
        self.nstep = 0
        self.files[M.MAIN] = HEAD
        self.collect(items)
        self.write(items, M.MAIN)

    # text
    def collect(self, items):
        for it in items:
            if it[0] == 'g':
                self.g[it[1]] = it
                self.txt[it[1]] = ('' if it[3] == 'root' else it[3] + '.') + 'g%d' % it[1] + ('' if it[2] == 'I' else '.v')
            elif it[0] == 'f':
                self.f[it[1]] = it
                for x in it[5]:
                    self.g[x[0]] = ['g', x[0], 'I', 'f', False, x[1]]
            elif it[0] == 't':
                self.t[it[1]] = it
            elif it[0] == 'c':
                self.g[it[1]] = it
                self.txt[it[1]] = 'g%d.v' % it[1]
                self.collect(it[3])
            elif it[0] in ('i', 'r', 'ip', 'm', 'k'):
                self.collect(it[2])

    def term(self, t):
        if t[0] == 'n':
            return str(t[1])
        if t[0] == 'g':
            return self.txt[t[1]]
        if t[0] == 'f':
            return 'f%d()' % t[1]
        return 'T%d[%s].s%s' % (t[1], PARAM[self.t[t[1]][3]][1](t[2] // 8), '' if self.t[t[1]][2] == 'I' else '.v')

    def expr(self, ts):
        return ' + '.join(self.term(t) for t in ts)

    def gdef(self, it):
        cls = it[2]
        e = self.expr(it[5])
        d = ('@priority ' if it[4] else '')
        if cls == 'I':
            return d + 'def g%d: Int(N(%d, %s));\n' % (it[1], it[1], e)
        return d + 'def g%d: %s(%d, %s);\n' % (it[1], cls, it[1], e)

    def stext(self, s):
        if s[0] == 'u':
            return 'printf("u %%d\\n", %s);\n' % self.expr(s[1])
        if s[0] == 'a':
            return '%s = %s;\n' % (self.txt[s[1]], self.expr(s[2]))
        if s[0] == 'x':
            return 'printf("u %%d\\n", bump(%s~ptr, %s));\n' % (self.txt[s[1]], self.term(s[2]))
        return 'if (%s) / 2 * 2 == (%s) / 3 { %s };\n' % (self.expr(s[1]), self.expr(s[1]), self.stext(s[2][0]))

    def write(self, items, f):
        for it in items:
            w = it[0]
            if w == 'g':
                self.files[f] += self.gdef(it)
            elif w == 'f':
                b = ''
                if it[4]:
                    b += 'preprocess { printf("p %d\\n"); ' % it[1] + ''.join(self.stext(s) for s in it[4]) + ' } '
                if it[5]:
                    b += 'def q: Int(0); '
                for n, x in enumerate(it[5]):
                    # all of the same name where they do not meet
                    v = 's%d' % n if not x[2] else 's'
                    b += WRAP[x[2]] % ('@shared def %s: Int(N(%d, %s)); %s = %s + 1; q = q + %s; ' % (v, x[0], self.expr(x[1]), v, v, v))
                b += ''.join(self.stext(s) for s in it[2])
                self.files[f] += 'func f%d(): Int { %sreturn %s%s; };\n' % (it[1], b, self.expr(it[3]), ' + q' if it[5] else '')
            elif w == 't':
                ps, _, e, u = PARAM[it[3]]
                d = 'Int(N(%d, %s))' % (it[1], e) if it[2] == 'I' else '%s(%d, %s)' % (it[2], it[1], e)
                self.files[f] += 'class T%d [%s] { @shared def s: %s; %s };\n' % (it[1], ps, d, u)
            elif w == 'm':
                self.files[f] += ('' if it[3] else '@merge ') + 'module %s {\n' % it[1]
                self.write(it[2], f)
                self.files[f] += '};\n'
            elif w == 'k':
                self.files[f] += 'class %s { def own: Int;\n' % it[1] + ''.join('@shared ' + self.gdef(g) for g in it[2]) + '};\n'
            elif w in ('i', 'r', 'ip'):
                n = '/sim/w/%s.alusus' % it[1]
                self.files[n] = ''
                if w == 'i':
                    self.files[f] += 'import "%s";\n' % it[1]
                elif w == 'ip':
                    self.files[f] += 'preprocess { printf("u 1\\n"); Core.importFile("%s"); printf("u 2\\n"); };\n' % it[1]
                else:
                    self.files[f] += 'func r%s() { printf("u 1\\n"); Core.importFile("%s"); printf("u 2\\n"); };\nr%s();\n' % (it[1], it[1], it[1])
                self.write(it[2], n)
            elif w == 'c':
                n = '/sim/w/%s.alusus' % it[2]
                self.files[n] = ''
                self.files[f] += ('class X%d { def v: Int; handler this~init() { this.v = %d; printf("c %d %d\\n"); Core.importFile("%s"); printf("u 3\\n"); }; };\n'
                                  'def g%d: X%d();\n' % (it[1], it[1], it[1], it[1], it[2], it[1], it[1]))
                self.write(it[3], n)
            elif w == 'p':
                self.files[f] += 'preprocess { ' + ''.join(self.stext(s) for s in it[1]) + '};\n'
            else:
                self.files[f] += self.stext(it)

    # what a piece of code needs: keys of globals and preprocess blocks
    def direct(self, x, acc):
        """acc: {'g': set of keys, 'p': set of functions with preprocess blocks, 'f': visited}"""
        if isinstance(x[0], list):
            for y in x:
                self.direct(y, acc)
            return
        w = x[0]
        if w == 'g':
            acc['g'].add(str(x[1]))
        elif w == 's':
            acc['g'].add('%d/%d' % (x[1], x[2] // 8))
        elif w == 'f':
            if x[1] not in acc['f']:
                acc['f'].add(x[1])
                f = self.f[x[1]]
                for s in f[2]:
                    self.sneed(s, acc)
                self.direct(f[3], acc)
                if f[4]:
                    acc['p'].add(x[1])
                for x in f[5]:
                    acc['g'].add(str(x[0]))

    def sneed(self, s, acc):
        if s[0] == 'u':
            self.direct(s[1], acc)
        elif s[0] == 'a':
            acc['g'].add(str(s[1]))
            self.direct(s[2], acc)
        elif s[0] == 'x':
            acc['g'].add(str(s[1]))
        elif s[0] == 'if':
            self.direct(s[1], acc)
            for q in s[2]:
                self.sneed(q, acc)

    def acc(self):
        return {'g': set(), 'p': set(), 'f': set()}

    def need(self, stmts):
        a = self.acc()
        for s in stmts:
            self.sneed(s, a)
        return a

    def gneed(self, key):
        """What the initialisation of a global needs directly."""
        a = self.acc()
        if '/' in key:
            if self.t[int(key.split('/')[0])][2] == 'D':
                a['g'].add('1')
            return a
        if key == '1':
            return a
        it = self.g[int(key)]
        if it[0] == 'c':
            return a
        self.direct(it[5], a)
        if it[2] == 'D':
            a['g'].add('1')
        return a

    def pneed(self, fn):
        return self.need(self.f[fn][4])

    def closure(self, a):
        g, p = set(), set()
        todo = [('g', x) for x in a['g']] + [('p', x) for x in a['p']]
        while todo:
            w, x = todo.pop()
            if x in (g if w == 'g' else p):
                continue
            (g if w == 'g' else p).add(x)
            b = self.gneed(x) if w == 'g' else self.pneed(x)
            todo += [('g', y) for y in b['g']] + [('p', y) for y in b['p']]
        return g, p


class Wrong(Exception):
    pass


class Walk:
    def __init__(self, m, lines, inter=False):
        self.m, self.l, self.i, self.inter = m, lines, 0, inter
        self.val = {}          # key -> value
        self.done = set()
        self.ran = set()       # preprocess blocks of functions
        self.pend = []         # stack of sets of keys
        self.events = 0
        self.init = 0
        self.nested = 0
        self.late = []

    def peek(self):
        return self.l[self.i] if self.i < len(self.l) else None

    def take(self):
        self.i += 1
        return self.l[self.i - 1]

    def expect(self, s, why):
        if self.peek() != s:
            raise Wrong('line %d is %r, expected %r (%s)' % (self.i + 1, self.peek(), s, why))
        self.i += 1

    def inits(self, need, what, optional=False):
        """Consume the initialisations in front of a statement."""
        g, p = self.m.closure(need)
        g -= self.done
        p -= self.ran
        self.pend.append((g, p))
        prio = {k for k in need['g'] if '/' not in k and k != '1' and self.m.g[int(k)][0] == 'g' and self.m.g[int(k)][4]}
        prio = (prio & g)
        plain = set()
        for k in prio:
            plain |= self.m.closure({'g': {k}, 'p': set()})[0]
        # what the functions it calls need is initialised when they are built, in front of what it uses itself
        for fn in need['f']:
            plain |= self.m.closure(self.m.need([['u', [['f', fn]]]]))[0]
        if p or optional:
            # preprocess blocks run, with what they need, while the statement is built
            prio = set()
        while True:
            ln = self.peek()
            w = (ln or '').split(' ')
            if w[0] == 'c' and len(w) == 3:
                if not self.initev(w, ln, prio, plain):
                    break
            elif w[0] == 'p' and len(w) == 2:
                fn = int(w[1])
                if fn in self.ran:
                    raise Wrong('line %d: the preprocess block of f%d runs again (%s)' % (self.i + 1, fn, what))
                if not any(fn in q for _, q in self.pend):
                    break
                lack = self.m.closure(self.m.pneed(fn))[0] - self.done
                self.take()
                if lack:
                    raise Wrong('line %d: the preprocess block of f%d runs before the globals %s it uses' % (self.i, fn, sorted(lack)))
                self.ran.add(fn)
                for s in self.m.f[fn][4]:
                    self.stmt(s)
            else:
                break
        self.pend.pop()
        if optional:
            return
        lack = g - self.done
        if lack:
            raise Wrong('line %d: %s runs while the globals %s it uses are not initialised' % (self.i + 1, what, sorted(lack)))
        if p - self.ran:
            raise Wrong('line %d: %s runs although the preprocess blocks of %s did not' % (self.i + 1, what, sorted(p - self.ran)))

    def initev(self, w, ln, prio, plain):
        k, v = w[1], int(w[2])
        if int(k) in self.m.t:
            k = '%s/%d' % (k, v)
        if k in self.done:
            raise Wrong('line %d: global %s is initialised again' % (self.i + 1, k))
        if not any(k in q for q, _ in self.pend):
            # of a later statement, if this one prints nothing
            return False
        lack = self.m.closure(self.m.gneed(k))[0] - self.done
        if lack:
            raise Wrong('line %d: global %s is initialised before the globals %s it needs' % (self.i + 1, k, sorted(lack)))
        if k not in plain and '/' not in k and len(self.pend) == 1 and (prio - self.done):
            raise Wrong('line %d: global %s is initialised before the @priority globals %s' % (self.i + 1, k, sorted(prio - self.done)))
        self.take()
        self.init += 1
        it = self.m.g.get(int(k)) if '/' not in k and k != '1' else None
        self.done.add(k)
        if it and it[0] == 'c':
            if v != it[1]:
                raise Wrong('line %d: value' % self.i)
            self.val[k] = v
            self.nested += 1
            self.items(it[3])
            self.expect('u 3', 'end of the constructor of g%s' % k)
            return True
        if '/' in k:
            want = int(k.split('/')[1])
        elif k == '1':
            want = 0
        else:
            want = self.ev(it[5], False)
        if v != want:
            raise Wrong('line %d: global %s is initialised with %d, not %d' % (self.i, k, v, want))
        self.val[k] = v
        c = (self.m.t[int(k.split('/')[0])][2] if '/' in k else 'I' if k == '1' else it[2])
        if c == 'D':
            self.val['1'] += 1
        return True

    def wrap(self, v):
        return (v + 2 ** 31) % 2 ** 32 - 2 ** 31

    def ev(self, ts, run=True):
        """Left to right."""
        v = 0
        for t in ts:
            if t[0] == 'n':
                v += t[1]
            elif t[0] == 'g':
                v += self.val[str(t[1])]
            elif t[0] == 's':
                v += self.val['%d/%d' % (t[1], t[2] // 8)]
            else:
                v += self.call(t[1])
        return self.wrap(v)

    def call(self, n):
        f = self.m.f[n]
        self.events += 1
        if self.events > 20000:
            raise Wrong('model: too many steps')
        q = 0
        for x in f[5]:
            k = str(x[0])
            self.val[k] = self.wrap(self.val[k] + 1)
            q += self.val[k]
        for s in f[2]:
            self.stmt(s)
        return self.wrap(self.ev(f[3]) + q)

    def stmt(self, s):
        if s[0] == 'u':
            v = self.ev(s[1])
            self.expect('u %d' % v, 'statement %s' % self.m.stext(s).strip())
        elif s[0] == 'a':
            self.val[str(s[1])] = self.ev(s[2])
        elif s[0] == 'x':
            k = str(s[1])
            self.val[k] = self.wrap(self.val[k] + s[2][1])
            self.expect('u %d' % self.val[k], 'statement %s' % self.m.stext(s).strip())
        else:
            a = self.ev(s[1])
            b = self.ev(s[1])
            q = lambda x, y: abs(x) // y * (1 if x >= 0 else -1)
            if self.wrap(q(a, 2) * 2) == q(b, 3):
                for x in s[2]:
                    self.stmt(x)

    def defined(self, items, a):
        for it in items:
            if it[0] in ('g', 'c'):
                a['g'].add(str(it[1]))
            elif it[0] == 'f':
                self.m.direct(it, a)
            if it[0] in ('i', 'r', 'ip', 'm', 'k'):
                self.defined(it[2], a)
            elif it[0] == 'c':
                self.defined(it[3], a)
        return a

    def items(self, items):
        for it in items:
            w = it[0]
            if w in ('g', 'f', 't', 'k', 'c'):
                continue
            if w == 'm':
                self.late += [x for x in it[2] if x[0] != 'g']
            elif w == 'i':
                self.items(it[2])
            elif w in ('r', 'ip'):
                self.nested += 1
                self.expect('u 1', 'before the import of ' + it[1])
                self.items(it[2])
                self.expect('u 2', 'after the import of ' + it[1])
                if w == 'ip':
                    # what the file defined belongs to the statement that imported it
                    self.inits(self.defined(it[2], self.m.acc()), 'import of ' + it[1], True)
            elif w == 'p':
                self.inits(self.m.need(it[1]), 'a preprocess block')
                for s in it[1]:
                    self.stmt(s)
            else:
                late, self.late = self.late + [it], []
                if self.inter:
                    for x in late[:-1]:
                        self.inits(self.m.need([x]), 'statement %s' % self.m.stext(x).strip())
                        self.stmt(x)
                    late = late[-1:]
                self.inits(self.m.need(late), 'statement %s' % ' '.join(self.m.stext(x).strip() for x in late))
                for x in late:
                    self.stmt(x)


class P05(M.ModeB):
    id = 'P05'
    rule = ('a case is one seeded history of definitions (globals of classes and Ints in the root, modules, classes, functions and templates, with initialisers that use other globals and functions), '
            'uses, assignments, aliases by pointer, preprocess blocks and imports (at compile time, from running code, from constructors), delivered as files or as an interactive session')
    quick = 1800
    technique = ('deterministic simulation: the whole compiler on seeded histories of globals; the event trace (initialisations, preprocess blocks, statements, values) is walked by a reference '
                 'interpreter that accepts exactly the initialisation orders allowed by the dependencies')
    note = 'Seeded search over histories; initialisers only read, so that values do not depend on the order among globals needed together.'
    real = 'whole compiler: code generation, JIT and preprocess sessions, storage of globals, imports at run time'
    stub = 'file system, standard input'
    measure = 'distinct (program, history) hashes'
    assumptions = ['a statement needs every global it mentions, directly or in functions it can call, whether executed or not',
                   'preprocess blocks of a function run when the first statement that needs the function is built']

    def gen(self, rng, i):
        g = Gen(rng)
        c = {'it': g.items(rng.choice([3, 6, 12, 25])), 'mode': 'inter' if rng.random() < 0.3 else 'file'}
        if rng.random() < 0.3:
            c['d'] = {'chunks': [rng.randrange(1, 200)], 'heap': [rng.choice([10, 11, 12, 13]), rng.randrange(1, 1 << 20), rng.choice([0, 16, 64])]}
        return c

    def run(self, ctx, c):
        m = Model(c['it'])
        f = {k: v.encode() for k, v in m.files.items()}
        if c['mode'] == 'inter':
            p = M.plan({k: v for k, v in f.items() if k != M.MAIN})
            p.stdin(f[M.MAIN])
            return [self.exe(ctx, M.deliver(p, c.get('d', {})), ['-i'])]
        return [self.exe(ctx, M.deliver(M.plan(f), c.get('d', {})))]

    def judge(self, c, obs):
        r = obs[0]
        if r.hung:
            return 'hang', r.how()
        if r.crashed:
            return 'crash', r.how() + ' ' + r.err[-200:].decode('utf-8', 'replace')
        raw = M.strip_prompts(r.out) if c['mode'] == 'inter' else r.out.decode('utf-8', 'replace')
        got, ns = M.notices(raw.encode())
        if ns:
            return 'notice', 'a correct program gives %r' % [M.ANSI.sub('', n.raw) for n in ns][:3]
        m = Model(c['it'])
        lines = [l for l in got.split('\n')]
        while lines and (not lines[-1] or re.fullmatch(r'(\d+> )+', lines[-1])):
            lines.pop()
        w = Walk(m, lines, c['mode'] == 'inter')
        try:
            w.items(c['it'])
            if w.peek() is not None:
                return 'extra', 'line %d: unexpected %r' % (w.i + 1, w.peek())
        except Wrong as e:
            if str(e).startswith('model:'):
                return None
            return 'history', str(e)
        self.last = w
        return None

    def reduce(self, c):
        if c['mode'] == 'inter':
            yield dict(c, mode='file')
        for d in self.cuts(c['it']):
            # definitions that are still used stay
            try:
                m = Model(d)
                self.valid(m, d)
            except (KeyError, Wrong):
                continue
            yield dict(c, it=d)

    def valid(self, m, items):
        for it in items:
            if it[0] in ('i', 'r', 'ip', 'm', 'k'):
                self.valid(m, it[2])
            elif it[0] == 'c':
                self.valid(m, it[3])
            elif it[0] == 'f':
                for s in it[2] + (it[4] or []):
                    m.stext(s)
                m.expr(it[3])
                [m.f[t[1]] for t in it[3] if t[0] == 'f']
                m.closure(m.need([['u', [['f', it[1]]]]]))
            elif it[0] == 'g':
                m.closure(m.need([['u', [['g', it[1]]]]]))
            elif it[0] == 'p':
                m.closure(m.need(it[1]))
            elif it[0] != 't':
                m.closure(m.need([it]))

    def cuts(self, items):
        n = len(items)
        for a in (n // 2, n // 4):
            for b in range(0, n, a or n + 1):
                if a:
                    yield items[:b] + items[b + a:]
        for j in range(n - 1, -1, -1):
            yield items[:j] + items[j + 1:]
        for j, it in enumerate(items):
            if it[0] in ('i', 'r', 'ip', 'm'):
                for d in self.cuts(it[2]):
                    yield items[:j] + [it[:2] + [d] + it[3:]] + items[j + 1:]
            elif it[0] == 'c':
                for d in self.cuts(it[3]):
                    yield items[:j] + [it[:3] + [d]] + items[j + 1:]
            elif it[0] in ('u', 'g') and len(it[-1]) > 1:
                for q in range(len(it[-1])):
                    yield items[:j] + [it[:-1] + [it[-1][:q] + it[-1][q + 1:]]] + items[j + 1:]
            elif it[0] == 'f' and (it[2] or it[4] or len(it[3]) > 1):
                yield items[:j] + [['f', it[1], [], it[3], it[4], it[5]]] + items[j + 1:]
                yield items[:j] + [['f', it[1], it[2], it[3], None, it[5]]] + items[j + 1:]
                for q in range(len(it[3])):
                    if len(it[3]) > 1:
                        yield items[:j] + [['f', it[1], it[2], it[3][:q] + it[3][q + 1:], it[4], it[5]]] + items[j + 1:]

    def describe(self, c):
        m = Model(c['it'])
        return {'mode': c['mode'], 'files': {k: v[len(HEAD):][:3000] if k == M.MAIN else v[:1000] for k, v in m.files.items()}}


CHECK = P05()
