"""P11: on every way out of a scope every object is destroyed exactly once, and values survive until then."""
import random
from . import check as C
from .prog import PRELUDE
from .sim import Plan

PER = 16  # decision vectors per program

HEAD = '''import "Srl/Array";
use Srl;
''' + PRELUDE + '''
def live: Int(0);
def base: Int(0);
def serial: Int(0);
func born(x: ref[Int], m: ref[Int]) { m = 4660; x = ++serial; ++live; Sim.log(10, x); }
func dies(x: ref[Int], m: ref[Int]) { if m != 4660 Sim.log(98, m); m = 57005; --live; Sim.log(11, x); }
class X {
    def v: Int;
    def s: Int;
    def m: Int;
    handler this~init() { this.v = 0; born(this.s, this.m); }
    handler this~init(n: Int) { this.v = n; born(this.s, this.m); }
    handler this~init(x: ref[X]) { if x.m != 4660 Sim.log(98, x.m); this.v = x.v; born(this.s, this.m); }
    handler this = ref[X] { if value.m != 4660 or this.m != 4660 Sim.log(98, value.m); this.v = value.v; }
    handler this + ref[X] : X { return X(this.v + value.v); }
    handler this.dup(): X { if this.m != 4660 Sim.log(98, this.m); return this; }
    handler this.up(): X { def t: X = this; ++t.v; return t; }
    handler this~cast[Int] { if this.m != 4660 Sim.log(98, this.m); return this.v; }
    handler this~terminate() { this.v = 77777; dies(this.s, this.m); }
}
class Flag {
    def on: Bool;
    def s: Int;
    def m: Int;
    handler this~init(n: Int) { this.on = n % 2 == 1; born(this.s, this.m); }
    handler this~cast[Bool] { if this.m != 4660 Sim.log(98, this.m); return this.on; }
    handler this~terminate() { this.on = !this.on; dies(this.s, this.m); }
}
class Y {
    def a: X;
    def b: X;
    def s: Int;
    def m: Int;
    handler this~init() { born(this.s, this.m); }
    handler this~init(n: Int) { born(this.s, this.m); this.a.v = n; this.b.v = n + 1; }
    handler this~init(y: ref[Y]) { born(this.s, this.m); this.a = y.a; this.b = y.b; }
    handler this.getA(): X { return this.a; }
    handler this~terminate() { if this.a.m != 4660 or this.b.m != 4660 Sim.log(98, this.a.m); dies(this.s, this.m); }
}
class Z {
    @injection def x: X;
    def y: Y;
}
class Box [T: type] {
    def t: T;
    def s: Int;
    def m: Int;
    handler this~init() { born(this.s, this.m); }
    handler this~init(n: Int) { born(this.s, this.m); this.t.v = n; }
    handler this~init(b: ref[Box[T]]) { born(this.s, this.m); this.t = b.t; }
    handler this.get(): T { return this.t; }
    handler this~terminate() { dies(this.s, this.m); }
}
func mark(k: Int) { Sim.log(30, k * 1000 + live - base); }
func val(x: ref[X]): Int { if x.m != 4660 Sim.log(98, x.m); Sim.log(20, x.v); return x.v; }
func byval(x: X): Int { if x.m != 4660 Sim.log(98, x.m); Sim.log(20, x.v); x.v += 1000; return x.v - 1000; }
func num(n: Int): Int { Sim.log(20, n); return n; }
func flag(x: X): Flag { return Flag(x.v); }
func cpX(x: X): X { return x; }
func selX(x: ref[X], y: X, c: Int): X { def t: X = x; if c == 0 return t; if c == 1 { def u: X = y; return u; } return X(7); }
'''
TAIL = '''
func main() {
    if Sim.serve() == 0 return;
    base = live;
    Sim.track(1);
    main1();
    Sim.track(0);
    Sim.log(95, live - base);
    Sim.checkHeap();
    Sim.done();
}
main();
'''


# ---- programs as data -------------------------------------------------------------------------
# expression: ['new', k] ['p', path] ['add', e, e] ['dup', e] ['up', e] ['cp', e] ['sel', e, e, k] ['pack', k, k]
#             ['geta', y] ['bget', b] ['fp', e] ['call', f, args]
# integer:    ['k', n] ['val', e] ['byval', e] ['fld', e] ['cast', e]
# condition:  ['dec'] ['lt', i, k] ['flag', e] ['fcast', e] ['and', c, c] ['or', c, c] ['not', c]
# statement:  ['def', name, kind, init] ['do', i or e] ['set', path, e] ['aadd', a, e] ['arem', a] ['aval', a]
#             ['if', c, body, else or None, plain] ['while', c, body, plain] ['for', var, n, c, u, body]
#             ['break', n] ['continue', n] ['ret', e] ['block', body] ['packs', target e, body] ['callv', f, args]

class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.funcs = []

    def program(self):
        nf = self.r.choice([1, 2, 3, 4])
        for k in range(nf):
            self.funcs.append(self.func(k, last=k == nf - 1))
        return self.funcs

    def func(self, k, last):
        r = self.r
        self.n = 0
        self.kind = 'V' if last else r.choice('VIX')
        params = [] if last else [(r.choice(['x', 'r']), 'a%d' % i) for i in range(r.choice([0, 1, 2]))]
        scope = {'X': [p[1] for p in params], 'Y': [], 'Z': [], 'B': [], 'A': []}
        self.callable_ = list(range(k))
        body, term = self.block(scope, 0, 0, r.choice([6, 10, 14]), False)
        if not term and self.kind != 'V':
            body.append(['ret', self.retval(scope)])
        return {'name': 'f%d' % k if not last else 'main1', 'kind': self.kind, 'params': params, 'body': body}

    def name(self):
        self.n += 1
        return 'n%d' % self.n

    def paths(self, sc):
        p = list(sc['X'])
        for y in sc['Y']:
            p += [y + '.a', y + '.b']
        for z in sc['Z']:
            p += [z + '.x', z + '.y.a', z + '.y.b']
        for b in sc['B']:
            p.append(b + '.t')
        return p

    def lval(self, sc):
        p = self.paths(sc)
        return ['p', self.r.choice(p)] if p else None

    def X(self, sc, d=0):
        r = self.r
        w = r.random()
        l = self.lval(sc)
        if d > 2 or w < 0.3:
            return l if l and r.random() < 0.6 else ['new', r.randrange(10)]
        if w < 0.42:
            return ['add', self.X(sc, d + 1), self.X(sc, d + 1)]
        if w < 0.5:
            return ['dup', self.X(sc, d + 1)]
        if w < 0.56:
            return ['up', self.X(sc, d + 1)]
        if w < 0.66:
            return ['cp', self.X(sc, d + 1)]
        if w < 0.76:
            return ['sel', self.X(sc, d + 1), self.X(sc, d + 1), r.randrange(3)]
        if w < 0.84:
            return ['pack', r.randrange(10), r.randrange(10)]
        if w < 0.88 and sc['Y']:
            return ['geta', r.choice(sc['Y'])]
        if w < 0.92 and sc['B']:
            return ['bget', r.choice(sc['B'])]
        if w < 0.96:
            return ['fp', self.X(sc, d + 1)]
        return ['new', r.randrange(10)]

    def I(self, sc, d=0):
        w = self.r.random()
        return [self.r.choice(['val', 'val', 'byval', 'fld', 'cast']), self.X(sc, d)] if w < 0.9 else ['k', self.r.randrange(10)]

    def cond(self, sc, d=0):
        w = self.r.random()
        if d > 1 or w < 0.5:
            return ['dec']
        if w < 0.62:
            return [self.r.choice(['flag', 'fcast']), self.X(sc, 1)]
        if w < 0.75:
            return ['lt', self.I(sc, 1), self.r.randrange(12)]
        if w < 0.86:
            return ['and', self.cond(sc, d + 1), self.cond(sc, d + 1)]
        if w < 0.96:
            return ['or', self.cond(sc, d + 1), self.cond(sc, d + 1)]
        return ['not', self.cond(sc, d + 1)]

    def retval(self, sc):
        return None if self.kind == 'V' else self.I(sc) if self.kind == 'I' else self.X(sc)

    def call(self, sc):
        c = [k for k in self.callable_]
        if not c:
            return None
        k = self.r.choice(c)
        args = []
        for _ in self.funcs[k]['params']:
            l = self.lval(sc)
            if not l:
                return None
            args.append(l)
        return k, args

    def block(self, sc, depth, loops, n, pack):
        sc = {k: list(v) for k, v in sc.items()}
        out = []
        for _ in range(self.r.randint(n // 2 + 1, n)):
            s, term = self.stmt(sc, depth, loops, pack)
            if s is None:
                continue
            out.append(s)
            if term:
                return out, True
        return out, False

    def stmt(self, sc, depth, loops, pack):
        r = self.r
        w = r.random()
        small = 4 if depth < 2 else 2
        if w < 0.25:
            kind = r.choice('XXXXYZBAR')
            n = self.name()
            if kind == 'X':
                init = r.choice([None, ['k', r.randrange(10)], ['is', self.X(sc)], ['par', self.X(sc)]])
                c = self.call(sc)
                if c and self.funcs[c[0]]['kind'] == 'X' and r.random() < 0.4:
                    init = ['par', ['call', c[0], c[1]]]
            elif kind == 'R':
                l = self.lval(sc)
                if not l:
                    return None, False
                init = l
            elif kind in 'ZA':
                init = None
            elif kind == 'Y':
                init = r.choice([None, ['k', r.randrange(10)]] + ([['y', r.choice(sc['Y'])]] if sc['Y'] else []))
            else:
                init = r.choice([None, ['k', r.randrange(10)]] + ([['y', r.choice(sc['B'])]] if sc['B'] else []))
            sc['X' if kind == 'R' else kind].append(n)
            return ['def', n, kind, init], False
        if w < 0.38:
            return ['do', r.choice([self.I, self.X])(sc)], False
        if w < 0.46:
            l = self.lval(sc)
            return (['set', l[1], self.X(sc)], False) if l else (None, False)
        if w < 0.5 and sc['A']:
            a = r.choice(sc['A'])
            return r.choice([['aadd', a, self.X(sc)], ['aadd', a, self.X(sc)], ['arem', a], ['aval', a]]), False
        if w < 0.56:
            c = self.call(sc)
            if c:
                k = self.funcs[c[0]]['kind']
                if k == 'V' or r.random() < 0.3:
                    return ['do', ['call', c[0], c[1]]], False
                if k == 'I':
                    return ['do', ['num', ['call', c[0], c[1]]]], False
                l = self.lval(sc)
                if l and r.random() < 0.5:
                    return ['set', l[1], ['call', c[0], c[1]]], False
                return ['do', ['val', ['call', c[0], c[1]]]], False
            return None, False
        if w < 0.7:
            if r.random() < 0.35:
                b, e = self.plain(sc, loops), self.plain(sc, loops) if r.random() < 0.3 else None
                if e and b == ['ret', None]:
                    e = None
                return ['if', self.cond(sc), [b], e and [e], True], bool(e) and b[0] != 'do' and e[0] != 'do'
            if depth > 3:
                return None, False
            b, t = self.block(sc, depth + 1, loops, small, pack)
            e, te = (None, False) if r.random() < 0.5 else self.block(sc, depth + 1, loops, small, pack)
            return ['if', self.cond(sc), b, e, False], t and te and e is not None
        if w < 0.78 and depth < 4:
            if r.random() < 0.15:
                return ['while', ['and', ['dec'], self.cond(sc, 1)], [['do', ['byval', self.X(sc, 1)]]], True], False
            b, t = self.block(sc, depth + 1, loops + 1, small, pack)
            c = ['dec'] if r.random() < 0.5 else r.choice([['and', ['dec'], self.cond(sc, 1)], ['and', self.cond(sc, 1), ['dec']]])
            return ['while', c, b, False], False
        if w < 0.85 and depth < 4:
            b, t = self.block(sc, depth + 1, loops + 1, small, pack)
            return ['for', self.name(), r.choice([1, 2, 3]), self.cond(sc) if r.random() < 0.4 else None,
                    self.I(sc) if r.random() < 0.4 else None, b], False
        if w < 0.9 and depth < 4:
            b, t = self.block(sc, depth + 1, loops, small, pack)
            return ['block', b], t
        if w < 0.96 and depth < 4:
            tgt = self.lval(sc) if r.random() < 0.5 else None
            b, t = self.block(sc, depth + 1, loops, small, True)
            if t:
                b = b[:-1] + [['if', ['dec'], [b[-1]], None, False]]
            return ['packs', tgt or self.X(sc, 1), b], False
        if depth == 0:
            return None, False
        if loops and r.random() < 0.6:
            return [r.choice(['break', 'break', 'continue']), r.choice([1, 1, loops, r.randint(1, loops)])], True
        return ['ret', self.retval(sc)], True

    def plain(self, sc, loops):
        r = self.r
        w = r.random()
        if loops and w < 0.4:
            return [r.choice(['break', 'continue']), r.choice([1, loops])]
        if w < 0.7:
            return ['ret', self.retval(sc)]
        return ['do', ['val', self.X(sc)]]


# ---- rendering --------------------------------------------------------------------------------
class Render:
    explicit = False

    def __init__(self, funcs):
        self.funcs = funcs
        self.k = 0

    def source(self):
        out = [HEAD]
        for f in self.funcs:
            self.f = f
            ps = ', '.join('%s: %s' % (n, 'X' if k == 'x' else 'ref[X]') for k, n in f['params'])
            rt = {'V': '', 'I': ': Int', 'X': ': X'}[f['kind']]
            out.append('func %s(%s)%s {\n%s}\n' % (f['name'], ps, rt, self.body(f['body'], 1)))
        if self.funcs[-1]['name'] != 'main1':
            out.append('func main1() {}\n')
        out.append(TAIL)
        return ''.join(out)

    def body(self, b, d):
        o = []
        for s in b:
            self.k += 1
            o.append('    ' * d + 'mark(%d);\n' % self.k)
            o.append('    ' * d + self.stmt(s, d) + ';\n')
        return ''.join(o)

    def blk(self, b, d):
        return '{\n%s%s}' % (self.body(b, d + 1), '    ' * d)

    def stmt(self, s, d):
        t = s[0]
        if t == 'def':
            n, k, i = s[1:]
            if k == 'X':
                if i is None:
                    return 'def %s: X' % n
                if i[0] == 'k':
                    return 'def %s: X(%d)' % (n, i[1])
                return ('def %s: X = %s' if i[0] == 'is' else 'def %s: X(%s)') % (n, self.x(i[1]))
            if k == 'R':
                return 'def %s: ref[X](%s)' % (n, self.x(i))
            ty = {'Y': 'Y', 'Z': 'Z', 'B': 'Box[X]', 'A': 'Array[X]'}[k]
            return 'def %s: %s' % (n, ty) + ('' if i is None else '(%s)' % i[1])
        if t == 'do':
            return self.any(s[1])
        if t == 'set':
            return '%s = %s' % (s[1], self.x(s[2]))
        if t == 'aadd':
            return '%s.add(%s)' % (s[1], self.x(s[2]))
        if t == 'arem':
            return 'if %s.getLength() > 0 %s.remove(0)' % (s[1], s[1])
        if t == 'aval':
            return 'if %s.getLength() > 1 val(%s(0) + %s(1))' % (s[1], s[1], s[1])
        if t == 'if':
            c, b, e, plain = s[1:]
            if plain:
                # "break else" is not in the grammar, "break 1 else" is
                self.explicit = e is not None
                then = self.stmt(b[0], d)
                self.explicit = False
                return 'if %s %s' % (self.c(c), then) + ('' if e is None else ' else ' + self.stmt(e[0], d))
            return 'if %s %s' % (self.c(c), self.blk(b, d)) + ('' if e is None else ' else ' + self.blk(e, d))
        if t == 'while':
            return 'while %s ' % self.c(s[1]) + (self.stmt(s[2][0], d) if s[3] else self.blk(s[2], d))
        if t == 'for':
            v, n, c, u, b = s[1:]
            return 'def %s: Int; for %s = 0, %s < %d%s, %s %s' % (
                v, v, v, n, '' if c is None else ' and ' + self.c(c), '++' + v if u is None else '%s = %s + 1 + 0 * %s' % (v, v, self.i(u)), self.blk(b, d))
        if t in ('break', 'continue'):
            return '%s %d' % (t, s[1]) if s[1] > 1 or self.explicit else t
        if t == 'ret':
            return 'return' + ('' if s[1] is None else ' ' + self.any(s[1]))
        if t == 'block':
            return self.blk(s[1], d)
        if t == 'packs':
            return '%s.%s' % (self.x(s[1]), self.blk(s[2], d))
        raise KeyError(t)

    def any(self, e):
        return self.i(e) if e[0] in ('k', 'val', 'byval', 'fld', 'cast', 'num') else self.x(e)

    def x(self, e):
        t = e[0]
        if t == 'new':
            return 'X(%d)' % e[1]
        if t == 'p':
            return e[1]
        if t == 'add':
            return '(%s + %s)' % (self.x(e[1]), self.x(e[2]))
        if t in ('dup', 'up'):
            return '%s.%s()' % (self.x(e[1]), t)
        if t == 'cp':
            return 'cpX(%s)' % self.x(e[1])
        if t == 'sel':
            return 'selX(%s, %s, %d)' % (self.x(e[1]), self.x(e[2]), e[3])
        if t == 'pack':
            return 'X(%d).{ v = v + %d; }' % (e[1], e[2])
        if t == 'geta':
            return e[1] + '.getA()'
        if t == 'bget':
            return e[1] + '.get()'
        if t == 'fp':
            return 'ptr[func (x: X): X](cpX~ptr)(%s)' % self.x(e[1])
        if t == 'call':
            return 'f%d(%s)' % (e[1], ', '.join(self.x(a) for a in e[2]))
        raise KeyError(t)

    def i(self, e):
        t = e[0]
        if t == 'k':
            return str(e[1])
        if t in ('val', 'byval', 'num'):
            return '%s(%s)' % (t, self.x(e[1]))
        if t == 'fld':
            return self.x(e[1]) + '.v'
        if t == 'cast':
            return self.x(e[1]) + '~cast[Int]'
        raise KeyError(t)

    def c(self, e):
        t = e[0]
        if t == 'dec':
            return '(Sim.next() == 1)'
        if t == 'lt':
            return '(%s < %d)' % (self.i(e[1]), e[2])
        if t == 'flag':
            return 'flag(%s).on' % self.x(e[1])
        if t == 'fcast':
            return 'flag(%s)~cast[Bool]' % self.x(e[1])
        if t == 'not':
            return '(!%s)' % self.c(e[1])
        return '(%s %s %s)' % (self.c(e[1]), t, self.c(e[2]))


# ---- static validity (for reduced programs) -----------------------------------------------------
def valid(prog):
    def ex(e, sc):
        if not isinstance(e, list):
            return
        if e and e[0] == 'p':
            if e[1].split('.')[0] not in sc:
                raise KeyError(e[1])
        elif e and e[0] in ('geta', 'bget', 'y'):
            if e[1] not in sc:
                raise KeyError(e[1])
        else:
            for x in e:
                ex(x, sc)

    def body(b, sc, loops):
        sc = set(sc)
        term = False
        for s in b:
            if term:
                raise KeyError('unreachable')
            t = s[0]
            if t == 'def':
                ex(s[3], sc)
                sc.add(s[1])
            elif t in ('do', 'ret'):
                ex(s[1], sc)
                term = t == 'ret'
            elif t in ('set', 'aadd', 'arem', 'aval'):
                if s[1].split('.')[0] not in sc:
                    raise KeyError(s[1])
                ex(s[2:], sc)
            elif t == 'if':
                ex(s[1], sc)
                a = body(s[2], sc, loops)
                e = body(s[3], sc, loops) if s[3] is not None else False
                term = a and e
            elif t == 'while':
                ex(s[1], sc)
                body(s[2], sc, loops + 1)
            elif t == 'for':
                ex(s[3], sc), ex(s[4], sc)
                body(s[5], sc, loops + 1)
            elif t == 'block':
                term = body(s[1], sc, loops)
            elif t == 'packs':
                ex(s[1], sc)
                if body(s[2], sc, loops):
                    raise KeyError('terminal pack')
            elif t in ('break', 'continue'):
                if s[1] > loops:
                    raise KeyError('jump')
                term = True
        return term
    try:
        for f in prog:
            if not body(f['body'], {p[1] for p in f['params']}, 0) and f['kind'] != 'V':
                return False
    except KeyError:
        return False
    return True


# ---- the model --------------------------------------------------------------------------------
class Stop(Exception):
    pass


class Jump(Exception):
    def __init__(self, what, n=0, v=None):
        self.what, self.n, self.v = what, n, v


class Obj:
    def __init__(self, v):
        self.v = v


SIZE = {'X': 1, 'Y': 3, 'Z': 4, 'B': 2, 'A': 0, 'R': 0}


class Model:
    def __init__(self, funcs, dec):
        self.funcs, self.dec = funcs, list(dec)
        self.out = []
        self.live = 0
        self.arrs = []
        self.steps = 0
        self.number = {}
        self.k = 0
        for f in funcs:
            self.num(f['body'])

    def num(self, b):
        for s in b:
            self.k += 1
            self.number[id(s)] = self.k
            for x in s:
                if isinstance(x, list) and x and isinstance(x[0], list) and isinstance(x[0][0], str) and not (s[0] == 'if' and s[4] or s[0] == 'while' and s[3]):
                    if s[0] in ('if', 'while', 'for', 'block', 'packs'):
                        self.num(x)

    def run(self):
        if self.funcs[-1]['name'] == 'main1':
            self.call(len(self.funcs) - 1, [])
        self.out.append('L 95 0')

    def next(self):
        return self.dec.pop(0) if self.dec else -1

    def call(self, k, args):
        f = self.funcs[k]
        env = {}
        before = self.live
        for (kind, n), a in zip(f['params'], args):
            if kind == 'x':
                env[n] = Obj(a.v)
                self.live += 1
            else:
                env[n] = a
        r = None
        try:
            self.body(f['body'], env)
        except Jump as j:
            if j.what != 'ret':
                raise
            r = j.v
        self.live = before
        return r

    def body(self, b, env):
        env = dict(env)
        before, arrs = self.live, len(self.arrs)
        try:
            for s in b:
                self.steps += 1
                if self.steps > 1500:
                    raise Stop()
                self.out.append('L 30 %d' % (self.number[id(s)] * 1000 + self.live + sum(map(len, self.arrs))))
                self.stmt(s, env)
        finally:
            self.live = before
            del self.arrs[arrs:]

    def stmt(self, s, env):
        t = s[0]
        if t == 'def':
            n, k, i = s[1:]
            if k == 'X':
                v = 0 if i is None else i[1] if i[0] == 'k' else self.x(i[1], env).v
                env[n] = Obj(v)
            elif k == 'R':
                env[n] = self.x(i, env)
            elif k == 'A':
                env[n] = []
            else:
                parts = {'Y': ['.a', '.b'], 'Z': ['.x', '.y.a', '.y.b'], 'B': ['.t']}[k]
                vals = [0] * len(parts)
                if i is not None:
                    vals = [i[1] + j for j in range(len(parts))] if i[0] == 'k' else [env[i[1] + p].v for p in parts]
                env[n] = None
                for p, v in zip(parts, vals):
                    env[n + p] = Obj(v)
            self.live += SIZE[k]
            if k == 'A':
                self.arrs.append(env[n])
        elif t == 'do':
            self.any(s[1], env)
        elif t == 'set':
            # the target is evaluated first, the value next
            env[s[1]].v = self.x(s[2], env).v
        elif t == 'aadd':
            env[s[1]].append(self.x(s[2], env).v)
        elif t == 'arem':
            if env[s[1]]:
                env[s[1]].pop(0)
        elif t == 'aval':
            a = env[s[1]]
            if len(a) > 1:
                self.out.append('L 20 %d' % (a[0] + a[1]))
        elif t == 'if':
            if self.c(s[1], env):
                self.stmt(s[2][0], env) if s[4] else self.body(s[2], env)
            elif s[3] is not None:
                self.stmt(s[3][0], env) if s[4] else self.body(s[3], env)
        elif t == 'while':
            while self.c(s[1], env):
                self.steps += 1
                if self.loop(s[2], env, s[3]):
                    break
        elif t == 'for':
            v, n, c, u, b = s[1:]
            k = 0
            while k < n and (c is None or self.c(c, env)):
                if self.loop(b, env, False):
                    break
                if u is not None:
                    self.i(u, env)
                k += 1
        elif t in ('break', 'continue'):
            raise Jump(t, s[1])
        elif t == 'ret':
            v = None if s[1] is None else self.any(s[1], env)
            raise Jump('ret', 0, Obj(v.v) if isinstance(v, Obj) else v)
        elif t == 'block':
            self.body(s[1], env)
        elif t == 'packs':
            e = s[1]
            o = self.x(e, env)
            before = self.live
            self.live += self.temps(e)
            self.body(s[2], env)
            self.live = before

    def temps(self, e):
        """objects that exist while the pack runs on this expression: the target itself and the temporaries it was made from"""
        t = e[0]
        if t in ('p',):
            return 0
        return 1 + sum(self.temps(x) for x in e[1:] if isinstance(x, list))

    def loop(self, b, env, plain):
        """-> True to leave the loop"""
        try:
            if plain:
                self.stmt(b[0], env)
            else:
                self.body(b, env)
        except Jump as j:
            if j.what == 'ret':
                raise
            if j.n > 1:
                raise Jump(j.what, j.n - 1)
            return j.what == 'break'
        return False

    def any(self, e, env):
        return self.i(e, env) if e[0] in ('k', 'val', 'byval', 'fld', 'cast', 'num') else self.x(e, env)

    def x(self, e, env):
        t = e[0]
        if t == 'new':
            return Obj(e[1])
        if t == 'p':
            return env[e[1]]
        if t == 'add':
            a = self.x(e[1], env)
            b = self.x(e[2], env)
            return Obj(a.v + b.v)
        if t in ('dup', 'cp', 'fp'):
            return Obj(self.x(e[1], env).v)
        if t == 'up':
            return Obj(self.x(e[1], env).v + 1)
        if t == 'sel':
            a = self.x(e[1], env)
            b = self.x(e[2], env)
            return Obj([a.v, b.v, 7][e[3]])
        if t == 'pack':
            return Obj(e[1] + e[2])
        if t == 'geta':
            return Obj(env[e[1] + '.a'].v)
        if t == 'bget':
            return Obj(env[e[1] + '.t'].v)
        if t == 'call':
            return self.call(e[1], [self.x(a, env) for a in e[2]])
        raise KeyError(t)

    def i(self, e, env):
        t = e[0]
        if t == 'k':
            return e[1]
        v = self.x(e[1], env)
        if t != 'num':
            v = v.v
        if t in ('val', 'byval', 'num'):
            self.out.append('L 20 %d' % v)
        return v

    def c(self, e, env):
        t = e[0]
        if t == 'dec':
            return self.next() == 1
        if t == 'lt':
            return self.i(e[1], env) < e[2]
        if t in ('flag', 'fcast'):
            return self.x(e[1], env).v % 2 == 1
        if t == 'not':
            return not self.c(e[1], env)
        if t == 'and':
            return self.c(e[1], env) and self.c(e[2], env)
        return self.c(e[1], env) or self.c(e[2], env)


class P11(C.Check):
    id = 'P11'
    level = 'exploration'
    quick = 12800
    batch = PER
    technique = ('deterministic simulation: seeded programs of classes with life cycle events x seeded run-time decision vectors and allocator policies; '
                 'births, deaths, live counts at every statement and used values compared with a reference interpreter')
    note = 'Seeded search over programs and paths. When exactly a temporary dies within its statement is left open, as the language reference does.'
    rule = ('a case is a program of 1-4 functions (locals, references, members, injected bases, template boxes, arrays, by-value arguments and results, packs, '
            'nested loops with break/continue n, early returns) with 0-60 run-time decisions; distinct by complete event history')
    real = 'parser, generator, JIT, run-time library'
    stub = 'allocator (guard pages, immediate reuse, poison) and the source of decisions'
    measure = 'complete event histories'

    def fixed(self):
        d = lambda body: [{'name': 'main1', 'kind': 'V', 'params': [], 'body': body}]
        progs = [
            d([['def', 'n1', 'X', ['k', 1]], ['while', ['dec'], [['def', 'n2', 'X', ['k', 2]], ['packs', ['p', 'n2'], [['def', 'n3', 'X', None], ['if', ['dec'], [['break', 1]], None, True]]]], False]]),
            d([['while', ['dec'], [['packs', ['new', 3], [['if', ['dec'], [['continue', 1]], None, True]]]], False]]),
        ]
        return [{'prog': p, 'dec': v, 'heap': [1, 1, 0]} for p in progs for v in ([], [1, 0], [1, 1, 1, 0], [1, 0, 1, 1])]

    def gen(self, rng, i):
        pr = random.Random('%s/P11/prog/%d' % (self.seed, i // PER))
        prog = Gen(pr).program()
        n = rng.choice([0, 3, 10, 25, 60])
        bias = rng.choice([0.3, 0.5, 0.7])
        while True:
            dec = [1 if rng.random() < bias else 0 for _ in range(n)]
            m = Model(prog, dec)
            try:
                m.run()
                break
            except Stop:
                n //= 2
                if not n:
                    dec = []
                    break
        return {'prog': prog, 'dec': dec, 'heap': [rng.choice([1, 2, 3, 4]), rng.randrange(1 << 30), 0]}

    def run(self, ctx, case):
        src = Render(case['prog']).source()
        if getattr(ctx, 'p11', None) != src:
            ctx.drop('p11')
            ctx.p11 = src
        p = Plan().dir('/sim/w').add('heap', '%d %d %d' % tuple(case['heap'])).add('budget', 20000)
        return ctx.serve('p11', src, p.ops(case['dec']))

    def judge(self, case, r):
        m = Model(case['prog'], case['dec'])
        try:
            m.run()
        except Stop:
            return None
        alive, ever = set(), set()
        k = 0
        for l in r.lines:
            if l.startswith('L 10 '):
                if l in ever:
                    return 'life', 'an object is constructed twice: ' + l
                ever.add(l)
                alive.add(l[5:])
            elif l.startswith('L 11 '):
                if l[5:] not in alive:
                    return 'life', 'object %s is destroyed %s' % (l[5:], 'a second time' if 'L 10 ' + l[5:] in ever else 'without having been constructed')
                alive.discard(l[5:])
            elif l.startswith('L 98 '):
                return 'dead-object', 'an object that is not alive was used: ' + l
            elif l.startswith('L '):
                e = m.out[k] if k < len(m.out) else 'nothing'
                if l != e:
                    if l.startswith('L 30 ') and e.startswith('L 30 ') and int(l[5:]) // 1000 == int(e[5:]) // 1000:
                        return 'live', 'at statement %d %d objects are alive, expected %d' % (int(l[5:]) // 1000, int(l[5:]) % 1000, int(e[5:]) % 1000)
                    if l.startswith('L 95 '):
                        return 'live', '%s objects remain at the end' % l[5:]
                    return 'value', 'event %d is %s, expected %s' % (k, l, e)
                k += 1
            elif l.startswith('HEAPBAD'):
                return 'heap', l
            elif l.startswith('HEAP ') and not l.startswith('HEAP live=0 bytes=0 bad=0'):
                return 'leak', 'at the end: ' + l
        if r.status or r.lines[-1:] != ['DONE']:
            return ('hang' if r.hung else 'crash'), '%s; last events %s' % (r.how(), r.lines[-4:])
        if alive:
            return 'life', 'objects never destroyed: %s' % sorted(alive)[:5]
        return None

    def simplify(self, prog):
        """programs with one statement removed or one level unwrapped"""
        def walk(b):
            for k in range(len(b)):
                yield b[:k] + b[k + 1:]
                s = b[k]
                if s[0] in ('if', 'while') and s[4 if s[0] == 'if' else 3]:
                    continue
                for j, x in enumerate(s):
                    if s[0] in ('if', 'while', 'for', 'block', 'packs') and isinstance(x, list) and x and isinstance(x[0], list) and isinstance(x[0][0], str) and not (s[0] == 'packs' and j == 1):
                        if j == 1 and s[0] in ('if', 'while'):
                            continue
                        if s[0] == 'for' and j in (3, 4):
                            continue
                        for y in walk(x):
                            if y:
                                yield b[:k] + [s[:j] + [y] + s[j + 1:]] + b[k + 1:]
        for k, f in enumerate(prog):
            for y in walk(f['body']):
                if y or f['kind'] == 'V':
                    yield prog[:k] + [dict(f, body=y)] + prog[k + 1:]

    def reduce(self, case):
        yield from C.ddfield(case, 'dec')
        for p in self.simplify(case['prog']):
            if not valid(p):
                continue
            c = dict(case, prog=p)
            try:
                m = Model(p, case['dec'])
                m.run()
            except (Stop, KeyError, Jump, RecursionError):
                continue
            yield c

    def describe(self, case):
        return {'decisions': case['dec'], 'source': Render(case['prog']).source()[len(HEAD):][:1500]}


CHECK = P11()
