"""Random root level programs with a reference interpreter: statements as text plus the output each one produces."""

HEADER = 'import "alusus_spp";\ndef printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any) => Int[64];\nfunc I(x: Int): Int { return x; }\n'
# assigning to O prints: a statement that stays complete, with another meaning, when its end is cut
SINK = 'class Sink {\n    handler this = Int { printf("o %d\\n", value); }\n}\ndef O: Sink;\n'
ARABIC = 'سلام عدد قيمة مرحبا باب كتاب'.split()
WORDS = ['hello', 'a b', 'سلام', 'x%%y', 'tab\\tend', 'é', '漢字', '', '{}', '; //', '/*', "it's", '\\"q\\"', '日本語テキスト', 'ﷺ', '🙂']
OUTW = {'x%%y': 'x%y', 'tab\\tend': 'tab\tend', '\\"q\\"': '"q"'}


def rem(a, b):
    r = abs(a) % b
    return -r if a < 0 else r


class Script:
    """Keeps the model state while statements are generated one after another."""

    def __init__(self, rng, unicode_=True, noise=True, sink=0):
        self.r, self.uni, self.noise, self.sink = rng, unicode_, noise, sink
        self.n = 0
        self.pure = False
        self.ints = {}      # name -> value
        self.funcs = {}     # name -> (params, evaluator)
        self.objs = {}      # name -> value
        self.classes = {}
        self.macros = {}
        self.tfuncs = []
        self.tmpl = []
        self.mods = {}
        self.mdef = {}
        self.consts = {}

    def fresh(self, p):
        self.n += 1
        if self.uni and self.r.random() < 0.25:
            return '%s_%s%d' % (self.r.choice(ARABIC), p, self.n)
        return '%s%d' % (p, self.n)

    # expressions: (text, value)
    def expr(self, d=0, names=None):
        r = self.r
        w = r.random()
        if names is None:
            names = {}
        if d > 2 or w < 0.25:
            k = r.randrange(100)
            return str(k), k
        if w < 0.55:
            pool = list(names.items()) + list(self.consts.items())
            # initialisers of globals run at the first use: only what cannot change by then
            if not self.pure:
                pool += list(self.ints.items())
            for m, (v, _) in [] if self.pure else self.mods.items():
                pool.append((m + '.v', v))
            for o, v in [] if self.pure else self.objs.items():
                pool.append((o + '.v', v))
            if pool:
                n, v = r.choice(pool)
                return n, v
            return '7', 7
        if w < 0.78:
            a, x = self.expr(d + 1, names)
            b, y = self.expr(d + 1, names)
            op = r.choice('+-*')
            return '(%s %s %s)' % (a, op, b), {'+': x + y, '-': x - y, '*': x * y}[op]
        if w < 0.84:
            a, x = self.expr(d + 1, names)
            k = r.randrange(2, 50)
            return '(%s %% %d)' % (a, k), rem(x, k)
        if w < 0.9 and self.funcs:
            f = r.choice(list(self.funcs))
            args = [self.expr(d + 1, names) for _ in range(self.funcs[f][0])]
            return '%s(%s)' % (f, ', '.join(a for a, _ in args)), self.funcs[f][1]([v for _, v in args])
        if w < 0.94 and self.macros:
            m = r.choice(list(self.macros))
            a, x = self.expr(d + 1, names)
            return '%s[%s]' % (m, a), self.macros[m](x)
        if w < 0.97 and self.tfuncs:
            f = r.choice(self.tfuncs)
            a, x = self.expr(d + 1, names)
            b, y = self.expr(d + 1, names)
            return '%s[Int](%s, %s)' % (f, a, b), max(x, y)
        a, x = self.expr(d + 1, names)
        return '(-I(%s))' % a, -x

    def small(self, d=0, names=None):
        """an expression that cannot overflow"""
        while True:
            a, x = self.expr(d, names)
            if abs(x) < 100000:
                return a, x

    def show(self, x=None):
        a, v = x or self.small()
        tag = self.r.choice(['v', 'r', '='])
        return 'printf("%s %%d\\n", I(%s))' % (tag, a), ['%s %d' % (tag, v)]

    def comment(self):
        if not self.noise or self.r.random() < 0.6:
            return ''
        return self.r.choice(['// plain comment\n', '/* block */ ', '// تعليق عربي; {\n', '/* multi\n line "quoted */\n', '\n\n', '  \t', '// 🙂\n', '/* ** / */'])

    def statement(self):
        """-> dict(t=text without the final semicolon, out=[lines], kind)"""
        r = self.r
        k = r.choice(['show'] * 6 + ['int', 'int', 'assign', 'assign', 'assign', 'func', 'func', 'if', 'while', 'for', 'class', 'obj', 'obj', 'method', 'method',
                                     'macro', 'tfunc', 'tclass', 'tobj', 'module', 'mshow', 'str', 'str', 'const', 'merge', 'block', 'pre'] + ['sink'] * self.sink)
        s = getattr(self, 's_' + k)()
        if s is None:
            s = self.s_show()
        t, out = s
        return {'t': t, 'out': out, 'kind': k}

    def s_show(self):
        return self.show()

    def s_int(self):
        self.pure = True
        a, v = self.small()
        self.pure = False
        n = self.fresh('g')
        t = self.r.choice(['def %s: Int = %s', 'def %s: Int(%s)', 'def %s: int = %s'][:2]) % (n, a)
        self.ints[n] = v
        return t, []

    def s_const(self):
        n = self.fresh('K')
        k = self.r.randrange(100)
        self.consts[n] = k
        return 'def %s: %d' % (n, k), []

    def s_assign(self):
        if not self.ints:
            return None
        n = self.r.choice(list(self.ints))
        a, v = self.small()
        old = self.ints[n]
        op = self.r.choice(['=', '=', '+=', '-='])
        new = {'=': v, '+=': old + v, '-=': old - v}[op]
        if abs(new) > 90000:
            op, new = '=', v
        self.ints[n] = new
        return '%s %s %s' % (n, op, a), []

    def s_func(self):
        n = self.fresh('f')
        k = self.r.randrange(3)
        body = self.r.randrange(4)
        c = self.r.randrange(1, 20)
        ps = ', '.join('a%d: Int' % i for i in range(k))
        if body == 0 or k == 0:
            t = 'func %s(%s): Int { return %d; }' % (n, ps, c)
            f = lambda a, c=c: c
        elif body == 1:
            t = 'func %s(%s): Int { def x: Int = a0 %% 100; return x * %d + 1; }' % (n, ps, c)
            f = lambda a, c=c: rem(a[0], 100) * c + 1
        elif body == 2:
            t = 'func %s(%s): Int {\n    if a0 > %d return a0 - %d;\n    return %d - a0;\n}' % (n, ps, c, c, c)
            f = lambda a, c=c: a[0] - c if a[0] > c else c - a[0]
        else:
            t = 'func %s(%s): Int { def i: Int; def s: Int(0); for i = 0, i < %d, ++i s += a0 %% 7; return s; }' % (n, ps, c)
            f = lambda a, c=c: rem(a[0], 7) * c
        self.funcs[n] = (k, f)
        return t, []

    def s_if(self):
        a, v = self.small()
        k = self.r.randrange(100)
        t1, o1 = self.show()
        t2, o2 = self.show()
        if self.r.random() < 0.5:
            return 'if %s > %d { %s; } else { %s; }' % (a, k, t1, t2), o1 if v > k else o2
        return 'if %s > %d %s' % (a, k, t1), o1 if v > k else []

    def s_while(self):
        if not self.ints:
            return None
        n = self.r.choice(list(self.ints))
        self.ints[n] = 0
        k = self.r.randrange(1, 5)
        return '%s = %d; while %s > 0 { --%s; printf("w %%d\\n", %s); }' % (n, k, n, n, n), ['w %d' % i for i in range(k - 1, -1, -1)]

    def s_for(self):
        if not self.ints:
            return None
        n = self.r.choice(list(self.ints))
        k = self.r.randrange(1, 5)
        self.ints[n] = k
        return 'for %s = 0, %s < %d, ++%s printf("l %%d\\n", %s)' % (n, n, k, n, n), ['l %d' % i for i in range(k)]

    def s_class(self):
        n = self.fresh('C')
        c = self.r.randrange(50)
        m = self.r.choice(['get', 'جلب'] if self.uni else ['get'])
        self.classes[n] = (c, m)
        return ('class %s {\n    def v: Int;\n    handler this~init() { this.v = %d; }\n    handler this~init(x: Int) { this.v = x + %d; }\n'
                '    handler this.%s(k: Int): Int { return this.v + k; }\n}' % (n, c, c, m)), []

    def s_obj(self):
        if not self.classes:
            return None
        cn = self.r.choice(list(self.classes))
        c = self.classes[cn][0]
        n = self.fresh('o')
        if self.r.random() < 0.5:
            self.objs[n] = c
            t = 'def %s: %s' % (n, cn)
        else:
            k = self.r.randrange(30)
            self.objs[n] = k + c
            t = 'def %s: %s(%d)' % (n, cn, k)
        self.mdef[n] = cn
        return t, []

    def s_method(self):
        o = [x for x in self.objs if x in self.mdef]
        if not o:
            return None
        n = self.r.choice(o)
        if self.r.random() < 0.4:
            a, v = self.small()
            self.objs[n] = v
            return '%s.v = %s' % (n, a), []
        a, v = self.small()
        return self.show(('%s.%s(%s)' % (n, self.classes[self.mdef[n]][1], a), self.objs[n] + v))

    def s_macro(self):
        n = self.fresh('m')
        k = self.r.randrange(1, 9)
        self.macros[n] = lambda x, k=k: x * k + 1
        return 'macro %s [x] (x) * %d + 1' % (n, k), []

    def s_tfunc(self):
        n = self.fresh('t')
        self.tfuncs.append(n)
        return 'func %s [T: type] (a: T, b: T): T { if a >= b return a else return b; }' % n, []

    def s_tclass(self):
        n = self.fresh('B')
        self.tmpl.append(n)
        return 'class %s [T: type, k: integer] { def v: T; handler this~init() { this.v = k; } }' % n, []

    def s_tobj(self):
        if not self.tmpl:
            return None
        n = self.fresh('b')
        k = self.r.randrange(5)
        self.objs[n] = k
        return 'def %s: %s[Int, %d]' % (n, self.r.choice(self.tmpl), k), []

    def s_module(self):
        n = self.fresh('M')
        k = self.r.randrange(100)
        self.mods[n] = (k, None)
        self.funcs[n + '.f'] = (1, lambda a: rem(a[0], 10) + 3)
        return 'module %s {\n    def v: Int = %d;\n    func f(a: Int): Int { return a %% 10 + 3; }\n}' % (n, k), []

    def s_mshow(self):
        if not self.mods:
            return None
        n = self.r.choice(list(self.mods))
        if self.r.random() < 0.5:
            a, v = self.small()
            self.mods[n] = (v, None)
            return '%s.v = %s' % (n, a), []
        return self.show((n + '.v', self.mods[n][0]))

    def s_merge(self):
        if not self.mods:
            return None
        n = self.r.choice(list(self.mods))
        f = self.fresh('h')
        k = self.r.randrange(9)
        self.funcs[n + '.' + f] = (0, lambda a, k=k: k)
        return '@merge module %s { func %s(): Int { return %d; } }' % (n, f, k), []

    def s_str(self):
        w = self.r.choice(WORDS if self.uni else [x for x in WORDS if x.isascii()])
        return 'printf("[%s]\\n")' % w, ['[%s]' % OUTW.get(w, w)]

    def s_block(self):
        t1, o1 = self.show()
        t2, o2 = self.show()
        return '{ %s; %s; }' % (t1, t2), o1 + o2

    def s_sink(self):
        k = self.r.choice([self.r.randrange(1000), self.r.randrange(10 ** 8)])
        if self.ints and self.r.random() < 0.5:
            n = self.r.choice(list(self.ints))
            if abs(self.ints[n]) < 10 ** 6 and k < 10 ** 6:
                return 'O = %s + %d' % (n, k), ['o %d' % (self.ints[n] + k)]
        return 'O = %d' % k, ['o %d' % k]

    def s_pre(self):
        # a function that executes code while it is compiled, on its first use
        n = self.fresh('p')
        return 'func %s(): Int { preprocess { printf("pre %s\\n"); } return 5; }; printf("%%d\\n", %s())' % (n, n, n), ['pre ' + n, '5']


def generate(rng, n, **kw):
    s = Script(rng, **kw)
    return [s.statement() for _ in range(n)], s


def text(stmts, rng=None, s=None):
    """-> (text, [end position in bytes of each statement including its semicolon])"""
    out = HEADER.encode() + (SINK.encode() if any(x['kind'] == 'sink' for x in stmts) else b'')
    ends = []
    for x in stmts:
        out += x.get('c', '').encode() + x['t'].encode() + b';'
        ends.append(len(out))
        out += b'\n'
    return out, ends
