"""P06: generating an object file either succeeds completely or reports failure, and leaves the running program alone."""
import hashlib, os, re, shutil, subprocess, tempfile
from . import modeb as M, sim as S

HEAD = ('import "alusus_spp";\nimport "Spp";\n'
        'def printf: @expname[printf] function (fmt: ptr[Word[8]], args: ...any) => Int[64];\n'
        'class C { def i: Int; def v: Int; handler this~init() { this.i = 0; this.v = 0; }; handler this~init(i: Int, v: Int) { this.i = i; this.v = v; printf("+ %d %d\\n", i, v); };'
        ' handler this~terminate() { printf("- %d %d\\n", this.i, this.v); }; };\n'
        'class R { def x: Int; def y: Int[64]; def z: array[Int, 3]; };\n'
        'class B { def p: Int; @injection def c: C; handler this~init(i: Int, v: Int) { this.p = v; this.c.i = i; this.c.v = v; printf("+ %d %d\\n", i, v); }; };\n'
        'func tpl [T: type] (a: T): T { return a + 1; };\n')
LIM = 9973
# expr: ['n', v] ['g', G] ['l', name] ['+', a, b] ['*', a, b] ['f', F, e] (functions that change nothing) ['p', G, e] (through a pointer) ['t', size, e]
# stmt: ['set', G, e] ['pr', tag, e] ['if', e, [..], [..]] ['for', n, [..]] ['call', tag, F, e] ['tmp', id, e] ['obj', id, e, [..]] ['str', S] ['inc', G, e]
# unit: {'n': name, 'in': parent or None, 'g': [G...], 'f': [F...], 's': [stmt...]}
# G: {'k': number, 'kind': I O B A R S F P, 'e': expr, 'u': unit}; F: {'k':, 'u':, 'pure':, 's': [...], 'r': expr, 'x': exported}


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.g = []
        self.f = []
        self.u = []
        self.id = 0
        self.frozen = set()

    def nid(self):
        self.id += 1
        return self.id

    def num(self):
        return ['n', self.r.randrange(1, 60)]

    def expr(self, loc=(), init=False, depth=0, dep=None):
        """init: only what initialisers may use"""
        r = self.r
        w = r.random()
        if depth > 2 or w < 0.2:
            return self.num()
        if loc and w < 0.4:
            return ['l', r.choice(loc)]
        if w < 0.62 and self.g:
            c = [g for g in self.g if g['kind'] in 'IOBR' and (not init or not g['mut'])]
            if c:
                return ['g', r.choice(c[-5:] if r.random() < 0.5 else c)['k']]
        if w < 0.72 and self.f:
            c = [f for f in self.f if f['pure']]
            if c:
                return ['f', r.choice(c)['k'], self.expr(loc, init, depth + 1)]
        if w < 0.77:
            c = [g for g in self.g if g['kind'] == 'F']
            if c:
                return ['p', r.choice(c)['k'], self.expr(loc, init, depth + 1)]
        if w < 0.82:
            return ['t', r.choice([32, 64]), self.expr(loc, init, depth + 1)]
        return [r.choice('++*'), self.expr(loc, init, depth + 1), self.expr(loc, init, depth + 1)]

    def stmts(self, n, loc=(), depth=0, root=False):
        r = self.r
        o = []
        for _ in range(n):
            w = r.random()
            mut = [g for g in self.g if g['mut']]
            if w < 0.25:
                o.append(['pr', self.nid(), self.expr(loc)])
            elif w < 0.45 and mut:
                o.append([r.choice(['set', 'set', 'inc']), r.choice(mut)['k'], self.expr(loc)])
            elif w < 0.55 and depth < 2:
                o.append(['if', self.expr(loc), self.stmts(r.choice([1, 2]), loc, depth + 1, root), self.stmts(r.choice([0, 1]), loc, depth + 1, root)])
            elif w < 0.62 and depth < 2 and not root:
                v = 'i%d' % self.nid()
                o.append(['for', v, r.choice([1, 2, 3]), self.stmts(r.choice([1, 2]), tuple(loc) + (v,), depth + 1)])
            elif w < 0.75 and self.f:
                o.append(['call', self.nid(), r.choice(self.f)['k'], self.expr(loc)])
            elif w < 0.82:
                o.append(['tmp', self.nid(), self.expr(loc)])
            elif w < 0.9 and depth < 2 and not root:
                o.append(['obj', self.nid(), self.expr(loc), self.stmts(r.choice([1, 2]), loc, depth + 1)])
            else:
                s = [g for g in self.g if g['kind'] == 'S']
                o.append(['str', r.choice(s)['k'] if s and r.random() < 0.6 else -self.nid()])
        return o

    def make(self):
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3])):
            n = {'n': 'M%d' % self.nid(), 'in': None, 's': []}
            if self.u and r.random() < 0.4:
                n['in'] = r.choice([u['n'] for u in self.u])
            self.u.append(n)
        for _ in range(r.choice([2, 4, 8, 14])):
            u = r.choice(self.u)['n']
            if r.random() < 0.6:
                kind = r.choice('IIIOOOBARSF')
                if kind == 'F' and not [f for f in self.f if f['pure']]:
                    kind = 'I'
                k = self.nid()
                g = {'k': k, 'kind': kind, 'u': u, 'mut': kind in 'IOBAR' and r.random() < 0.5, 'prio': r.random() < 0.1, 'sh': r.random() < 0.05}
                if kind == 'F':
                    g['e'] = r.choice([f for f in self.f if f['pure']])['k']
                elif kind in 'IOB':
                    g['e'] = self.expr(init=True) if r.random() < 0.85 or kind != 'I' else None
                else:
                    g['e'] = None
                self.g.append(g)
            else:
                pure = r.random() < 0.45
                k = self.nid()
                if pure:
                    f = {'k': k, 'u': u, 'pure': True, 's': [], 'r': self.expr(('a',), init=True)}
                else:
                    f = {'k': k, 'u': u, 'pure': False, 's': self.stmts(r.choice([1, 2, 4]), ('a',)), 'r': self.expr(('a',))}
                f['x'] = r.random() < 0.4
                self.f.append(f)
        for u in self.u:
            if r.random() < 0.6:
                u['s'] = self.stmts(r.choice([1, 2, 3]), root=True)
        # every unit has an entry
        for u in self.u:
            self.f.append({'k': self.nid(), 'u': u['n'], 'pure': False, 'x': True, 'e': 1, 's': self.stmts(r.choice([1, 2, 4]), ('a',)), 'r': self.expr(('a',))})
        return {'u': self.u, 'g': self.g, 'f': self.f}


class Prog:
    def __init__(self, p):
        self.p = p
        self.g = {g['k']: g for g in p['g']}
        self.f = {f['k']: f for f in p['f']}
        self.u = {u['n']: u for u in p['u']}

    # ---- text
    def path(self, u):
        o = []
        while u:
            o.append(u)
            u = self.u[u]['in']
        return '.'.join(reversed(o))

    def gname(self, k):
        return self.path(self.g[k]['u']) + '.g%d' % k

    def fname(self, k):
        return self.path(self.f[k]['u']) + '.f%d' % k

    def ex(self, e):
        t = e[0]
        if t == 'n':
            return str(e[1])
        if t == 'l':
            return e[1]
        if t == 'g':
            return self.gname(e[1]) + {'I': '', 'O': '.v', 'B': '.c.v', 'R': '.x'}[self.g[e[1]]['kind']]
        if t == 'f':
            return '%s(%s)' % (self.fname(e[1]), self.ex(e[2]))
        if t == 'p':
            return '%s(%s)' % (self.gname(e[1]), self.ex(e[2]))
        if t == 't':
            return 'tpl[Int[%d]](%s)~cast[Int]' % (e[1], self.ex(e[2]))
        return '((%s %s %s) %% %d)' % (self.ex(e[1]), e[0], self.ex(e[2]), LIM)

    def st(self, s, ind='  '):
        t = s[0]
        if t == 'pr':
            return '%sprintf("p %d %%d\\n", %s);\n' % (ind, s[1], self.ex(s[2]))
        if t in ('set', 'inc'):
            k = s[1]
            n = self.gname(k) + {'I': '', 'O': '.v', 'B': '.c.v', 'R': '.x', 'A': '(2)'}[self.g[k]['kind']]
            if t == 'set':
                return '%s%s = %s;\n' % (ind, n, self.ex(s[2]))
            return '%s%s = (%s + %s) %% %d;\n' % (ind, n, n, self.ex(s[2]), LIM)
        if t == 'if':
            r = '%sif %s %% 2 == 0 {\n%s%s}' % (ind, self.ex(s[1]), ''.join(self.st(x, ind + '  ') for x in s[2]), ind)
            if s[3]:
                r += ' else {\n%s%s}' % (''.join(self.st(x, ind + '  ') for x in s[3]), ind)
            return r + ';\n'
        if t == 'for':
            return '%s{ def %s: Int; for %s = 0, %s < %d, ++%s {\n%s%s}; };\n' % (ind, s[1], s[1], s[1], s[2], s[1], ''.join(self.st(x, ind + '  ') for x in s[3]), ind)
        if t == 'call':
            return '%sprintf("c %d %%d\\n", %s(%s));\n' % (ind, s[1], self.fname(s[2]), self.ex(s[3]))
        if t == 'tmp':
            return '%sprintf("t %%d\\n", C(%d, %s).v);\n' % (ind, s[1], self.ex(s[2]))
        if t == 'obj':
            return '%s{ def o%d: C(%d, %s);\n%s%s};\n' % (ind, s[1], s[1], self.ex(s[2]), ''.join(self.st(x, ind + '  ') for x in s[3]), ind)
        if t == 'str':
            return '%sprintf("s %%s\\n", %s);\n' % (ind, self.gname(s[1]) if s[1] > 0 else '"str %d"' % -s[1])
        raise KeyError(t)

    def gdef(self, g):
        k = g['k']
        t = {'I': 'Int', 'O': 'C', 'B': 'B', 'A': 'array[Int, 5]', 'R': 'R', 'S': 'ptr[Word[8]]', 'F': 'ptr[function (a: Int): Int]'}[g['kind']]
        i = ''
        if g['kind'] == 'I' and g['e'] is not None:
            i = '(%s)' % self.ex(g['e'])
        elif g['kind'] in 'OB':
            i = '(%d, %s)' % (k, self.ex(g['e']))
        elif g['kind'] == 'S':
            i = '("text %d")' % k
        elif g['kind'] == 'F':
            i = '(%s~ptr)' % self.fname(g['e'])
        return '  %sdef g%d: %s%s;\n' % ('@priority ' if g['prio'] else '', k, t, i)

    def fdef(self, f):
        return '  %sfunc f%d (a: Int): Int {\n%s    return %s;\n  };\n' % (
            '@expname[x%d] ' % f['k'] if f['x'] else '', f['k'], ''.join(self.st(s, '    ') for s in f['s']), self.ex(f['r']))

    def unit(self, n):
        u = self.u[n]
        o = 'module %s {\n' % n
        d = [self.gdef(g) for g in self.p['g'] if g['u'] == n] + [self.fdef(f) for f in self.p['f'] if f['u'] == n]
        # any order
        d.sort(key=lambda x: hashlib.md5((n + x).encode()).hexdigest())
        o += ''.join(d)
        for v in self.p['u']:
            if v['in'] == n:
                o += ''.join('  ' + l + '\n' for l in self.unit(v['n']).split('\n') if l)
        o += ''.join(self.st(s, '  ') for s in u['s'])
        return o + '};\n'

    def text(self):
        return ''.join(self.unit(u['n']) for u in self.p['u'] if u['in'] is None)

    # ---- what is reached
    def reach(self, elems):
        """-> (functions, globals) reached from expressions and statements"""
        F, G = set(), set()
        todo = list(elems)
        while todo:
            x = todo.pop()
            if not isinstance(x, list) or not x:
                continue
            if isinstance(x[0], list):
                todo += x
                continue
            t = x[0]
            ks = []
            if t in ('g', 'p', 'set', 'inc') or (t == 'str' and x[1] > 0):
                ks = [('g', x[1])]
            elif t == 'f':
                ks = [('f', x[1])]
            elif t == 'call':
                ks = [('f', x[2])]
            for w, k in ks:
                if w == 'g' and k not in G:
                    G.add(k)
                    g = self.g[k]
                    if g['kind'] == 'F':
                        todo.append(['f', g['e'], ['n', 1]])
                    elif g['e'] is not None:
                        todo.append(g['e'])
                if w == 'f' and k not in F:
                    F.add(k)
                    f = self.f[k]
                    todo += f['s'] + [f['r']]
            todo += [y for y in x[1:] if isinstance(y, list)]
        return F, G

    def inside(self, n):
        r = [n]
        for u in self.p['u']:
            if u['in'] in r and u['n'] not in r:
                r.append(u['n'])
        return r

    def order(self, n):
        o = []
        for u in self.p['u']:
            if u['in'] == n:
                o += self.order(u['n'])
        return o + self.u[n]['s']

    def element(self, el):
        """('m', unit) or ('f', F) -> globals it must initialise, its statements"""
        if el[0] == 'f':
            return self.reach([['f', el[1], ['n', 0]]])[1], []
        ins = self.inside(el[1])
        todo = list(self.order(el[1]))
        todo += [['f', f['k'], ['n', 0]] for f in self.p['f'] if f['u'] in ins]
        todo += [['g', g['k']] for g in self.p['g'] if g['u'] in ins]
        return self.reach(todo)[1], self.order(el[1])

    # ---- values
    def init(self):
        self.val = {}
        for g in self.p['g']:
            if g['kind'] in 'IOB' and g['e'] is not None:
                self.val[g['k']] = self.ev(g['e'], {})
            else:
                self.val[g['k']] = 0
        self.out = []

    def ev(self, e, loc):
        t = e[0]
        if t == 'n':
            return e[1]
        if t == 'l':
            return loc[e[1]]
        if t == 'g':
            return self.val[e[1]]
        if t == 'f':
            return self.fn(e[1], self.ev(e[2], loc))
        if t == 'p':
            return self.fn(self.g[e[1]]['e'], self.ev(e[2], loc))
        if t == 't':
            return self.ev(e[2], loc) + 1
        a, b = self.ev(e[1], loc), self.ev(e[2], loc)
        return (a + b if t == '+' else a * b) % LIM

    def fn(self, k, a):
        f = self.f[k]
        loc = {'a': a}
        for s in f['s']:
            self.do(s, loc)
        return self.ev(f['r'], loc)

    def do(self, s, loc):
        t = s[0]
        o = self.out.append
        if len(self.out) > 3000:
            raise OverflowError
        if t == 'pr':
            o('p %d %d' % (s[1], self.ev(s[2], loc)))
        elif t == 'set':
            self.val[s[1]] = self.ev(s[2], loc)
        elif t == 'inc':
            self.val[s[1]] = (self.val[s[1]] + self.ev(s[2], loc)) % LIM
        elif t == 'if':
            for x in s[2] if self.ev(s[1], loc) % 2 == 0 else s[3]:
                self.do(x, loc)
        elif t == 'for':
            for i in range(s[2]):
                for x in s[3]:
                    self.do(x, dict(loc, **{s[1]: i}))
        elif t == 'call':
            v = self.fn(s[2], self.ev(s[3], loc))
            o('c %d %d' % (s[1], v))
        elif t == 'tmp':
            v = self.ev(s[2], loc)
            o('+ %d %d' % (s[1], v))
            o('t %d' % v)
            o('- %d %d' % (s[1], v))
        elif t == 'obj':
            v = self.ev(s[2], loc)
            o('+ %d %d' % (s[1], v))
            for x in s[3]:
                self.do(x, loc)
            o('- %d %d' % (s[1], v))
        elif t == 'str':
            o('s text %d' % s[1] if s[1] > 0 else 's str %d' % -s[1])


BAD_ELEM = 'module Bad { def q: Int(3); func h (): Int { return undefinedThing + q; }; };\n'
PRE = ('def __r: Bool; func bld (e: ref[Core.Basic.TiObject], f: ptr[array[Word[8]]], t: ptr[array[Word[8]]]): Bool { return Spp.buildMgr.buildObjectFileForElement(e, f, t); };\n')


class P06(M.ModeB):
    id = 'P06'
    level = 'fault_enumeration'
    rule = ('a case is a generated program of nested modules with globals (objects, integers, arrays, structures, strings, function pointers), functions, templates and module statements, and a seeded '
            'history that runs, changes and generates object files of its modules and functions (at root, in preprocess blocks, from running code, repeatedly, for two targets) on a disk where opening, '
            'writing, seeking or closing fails at seeded points, files are read-only, directories are missing or old content is in the way')
    quick = 440
    technique = ('deterministic simulation: the whole compiler generating object files onto a simulated faulty disk; result values, bytes of every file (against an undisturbed run), output of the running '
                 'program (against a run that generates nothing), and behaviour of the linked object (against a reference interpreter)')
    note = 'Seeded search over programs, histories and faults; only objects for the native target are linked and run.'
    real = 'whole compiler, LLVM object emission, system linker and the generated program'
    stub = 'disk holding the sources and the object files'
    measure = 'distinct (program, history, faults) hashes'
    assumptions = ['names of internal symbols may depend on what was built earlier in the session; bytes are compared between equal histories']

    def gen(self, rng, i):
        while True:
            p = Gen(rng).make()
            m = Prog(p)
            try:
                m.init()
                for f in p['f']:
                    m.fn(f['k'], 5)
                for u in p['u']:
                    for s in u['s']:
                        m.do(s, {})
                break
            except OverflowError:
                continue
        els = [['m', u['n']] for u in p['u']] + [['f', f['k']] for f in p['f'] if f['x']]
        h = []
        paths = 0
        faults = []
        files = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            w = rng.random()
            if w < 0.3:
                h.append(['j', rng.choice(p['f'])['k'], rng.randrange(1, 30)])
            if w < 0.15:
                mut = [g['k'] for g in p['g'] if g['mut']]
                if mut:
                    h.append(['set', rng.choice(mut), ['n', rng.randrange(1, 50)]])
            paths += 1
            el = rng.choice(els[:len(p['u'])] if rng.random() < 0.6 else els)
            path = '/sim/out/o%d.o' % paths
            ob = None
            w = rng.random()
            if w < 0.06:
                path, ob = '/sim/none/o%d.o' % paths, 'dir missing'
            elif w < 0.1:
                ob = 'is a directory'
                files.append([path, None, 0])
            elif w < 0.14:
                ob = 'read only'
                files.append([path, 10, 0o444])
            elif w < 0.3:
                files.append([path, rng.choice([1, 4000, 200000]), 0o644])
            elif w < 0.36:
                path = rng.choice(['o%d.o' % paths, '../out/o%d.o' % paths, '/sim/out/../out/o%d.o' % paths])
            h.append(['b', rng.choice(['root', 'root', 'root', 'pre', 'run', 'twice']), el, path, 0 if rng.random() < 0.85 else 1, ob])
            if not ob and rng.random() < 0.55:
                cls = rng.choice(['open', 'write', 'write', 'write', 'write', 'close', 'close', 'seek'])
                rp = path if path[0] == '/' else '/sim/w/' + path
                rp = os.path.normpath(rp)
                if cls == 'open':
                    f = ['open@' + rp, 1, rng.choice(['EACCES', 'ENOSPC', 'EMFILE', 'ENOENT', 'EROFS', 'EIO']), 0]
                elif cls == 'write':
                    a = rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'short', 'torn', 'EINTR', 'ENOSPC'])
                    f = ['write@' + rp, rng.choice([1, 1, 2, 3]), a, rng.randrange(1, 900) if a in ('short', 'torn') else 0 if a == 'EINTR' else 1]
                elif cls == 'close':
                    f = ['close@' + rp, 1, rng.choice(['EIO', 'ENOSPC', 'EDQUOT']), 0]
                else:
                    f = ['seek@' + rp, rng.choice([1, 2]), 'EIO', 0]
                faults.append(f)
        for _ in range(rng.choice([0, 1, 2])):
            h.append(['j', rng.choice(p['f'])['k'], rng.randrange(1, 30)])
        c = {'p': p, 'h': h, 'faults': faults, 'files': files}
        if rng.random() < 0.12:
            c['bad'] = 1
        if rng.random() < 0.3:
            c['heap'] = [rng.choice([10, 11, 12, 13]), rng.randrange(1, 1 << 20), rng.choice([0, 16, 64])]
        return c

    def source(self, c, build):
        m = Prog(c['p'])
        o = HEAD + PRE + (BAD_ELEM if c.get('bad') else '') + m.text()
        n = 0

        def one(el, path, tri):
            if not build:
                return '1'
            e = (m.path(el[1]) if el[0] == 'm' else m.fname(el[1])) + '~ast'
            return 'bld(%s, "%s", %s)' % (e, path, '"wasm32-unknown-unknown"' if tri else '0')
        for x in c['h']:
            if x[0] == 'j':
                o += 'printf("j %%d\\n", %s(%d));\n' % (m.fname(x[1]), x[2])
            elif x[0] == 'set':
                o += m.st(x, '')
            else:
                n += 1
                s = '{ printf("[b %d\\n"); __r = %s; printf("b %d %%d]\\n", __r); };\n' % (n, one(x[2], x[3], x[4]), n)
                if x[1] == 'pre':
                    o += 'preprocess ' + s
                elif x[1] == 'run':
                    o += 'func go%d () %sgo%d();\n' % (n, s, n)
                elif x[1] == 'twice':
                    n += 1
                    o += s + '{ printf("[b %d\\n"); __r = %s; printf("b %d %%d]\\n", __r); };\n' % (n, one(x[2], x[3] + 'x', x[4]), n)
                else:
                    o += s
        o += 'printf("end\\n");\n'
        if c.get('bad'):
            n += 1
            o += '{ printf("[b %d\\n"); __r = %s; printf("b %d %%d]\\n", __r); };\n' % (n, 'bld(Bad~ast, "/sim/out/bad.o", 0)' if build else '0', n)
        return o.encode()

    def plan(self, c, build, faults, clean=False):
        p = M.plan({M.MAIN: self.source(c, build)}, budget=20000000).dir('/sim/out')
        for path, n, mode in c['files']:
            if n is None:
                p.dir(path)
            else:
                p.file(path, b'\x7fELF old ' + b'o' * n, mode)
        p.add('dump', '/sim/')
        if faults:
            p.faults(c['faults'])
        if c.get('heap'):
            p.add('heap', '%d %d %d' % tuple(c['heap']))
        return p

    def run(self, ctx, c):
        a = self.exe(ctx, self.plan(c, False, False))
        b = self.exe(ctx, self.plan(c, True, False))
        r = [a, b]
        if c['faults']:
            r.append(self.exe(ctx, self.plan(c, True, True)))
        self.ran = []
        if all(x.status == 0 for x in r):
            fs = self.dumps(b)
            k = 0
            for e in self.builds(c):
                if e['ob'] or e['tri'] or e.get('bad') or not fs.get(e['rp']):
                    continue
                el = e['el']
                u = el[1] if el[0] == 'm' else None
                ent = [f for f in c['p']['f'] if f.get('e') and f['u'] == u][0]['k'] if u else el[1]
                self.ran.append((e['n'], ent, self.link(fs[e['rp']][-1], 'x%d' % ent)))
                k += 1
                if k == 2:
                    break
        return r

    def link(self, data, sym):
        d = tempfile.mkdtemp(prefix='simo-', dir='/tmp')
        try:
            with open(d + '/o.o', 'wb') as f:
                f.write(data)
            with open(d + '/m.c', 'w') as f:
                f.write('#include <stdio.h>\nint %s(int);\nint main() { printf("main\\n"); int r = %s(5); printf("ret %%d\\n", r); return 0; }\n' % (sym, sym))
            g = subprocess.run(['gcc', '-no-pie', '-w', '-o', d + '/e', d + '/m.c', d + '/o.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, timeout=100)
            if g.returncode:
                return 'link', g.stdout.decode('utf-8', 'replace')[-300:]
            x = subprocess.run([d + '/e'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=d, timeout=60)
            return x.returncode, x.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            return 'hang', ''
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def builds(self, c):
        o = []
        for x in c['h']:
            if x[0] != 'b':
                continue
            for q in range(2 if x[1] == 'twice' else 1):
                pa = x[3] + ('x' if q else '')
                ob = x[5]
                if ob in ('is a directory', 'read only') and q:
                    ob = None
                o.append({'n': len(o) + 1, 'el': x[2], 'path': pa, 'tri': x[4], 'ob': ob,
                          'rp': os.path.normpath(pa if pa[0] == '/' else '/sim/w/' + pa)})
        if c.get('bad'):
            o.append({'n': len(o) + 1, 'bad': 1, 'ob': 'erroneous', 'rp': '/sim/out/bad.o', 'tri': 0, 'el': ['m', 'Bad']})
        return o

    def dumps(self, r):
        fs = {}
        for l in r.lines:
            if l.startswith('D '):
                w = l.split(' ')
                fs.setdefault(w[1], []).append(bytes.fromhex(w[2]) if len(w) > 2 else b'')
        return fs

    def parse(self, r):
        """-> (output outside of the builds, {build: (result, text)})"""
        t = M.ANSI.sub('', r.out.decode('utf-8', 'replace'))
        bs = {}

        def f(m):
            bs[int(m.group(1))] = (int(m.group(3)), m.group(2))
            return '[%s]' % m.group(1)
        t = re.sub(r'\[b (\d+)\n((?:.|\n)*?)b \1 (\d+)\]\n', f, t)
        return t, bs

    def judge(self, c, obs):
        for r, w in zip(obs, ('without generation', 'undisturbed', 'with faults')):
            if r.hung:
                return 'hang', w + ': ' + r.how()
            if r.crashed or r.status:
                return 'crash', '%s: %s %s' % (w, r.how(), (r.err[-200:] + r.out[-200:]).decode('utf-8', 'replace'))
        base, _ = self.parse(obs[0])
        ref = self.dumps(obs[1])
        if M.NOTICE.search(obs[0].out.decode('utf-8', 'replace')):
            return 'workload', obs[0].out.decode('utf-8', 'replace')[-500:]
        for r, w in zip(obs[1:], ('undisturbed', 'with faults')):
            out, bs = self.parse(r)
            if out != base:
                return 'running', '%s: the running program behaves differently: %s' % (w, M.differs(out, base))
            fs = self.dumps(r)
            hit = {}
            for l in r.lines:
                if l.startswith('F '):
                    x = l.split(' ')
                    hit.setdefault(x[5], []).append(x[1] + ' ' + x[3])
            for e in self.builds(c):
                if e['n'] not in bs:
                    return 'running', '%s: generation %d has no result' % (w, e['n'])
                ok, txt = bs[e['n']]
                hf = [x for x in hit.get(e['rp'], []) if x.split(' ')[1] not in ('short', 'EINTR')]
                if ok:
                    if e['ob']:
                        return 'false-success', '%s: generation %d reports success although the file is %s' % (w, e['n'], e['ob'])
                    if not fs.get(e['rp']):
                        return 'false-success', '%s: generation %d reports success but wrote no file' % (w, e['n'])
                    if fs[e['rp']][-1] != ref.get(e['rp'], [b''])[-1]:
                        return 'false-success', '%s: generation %d reports success but the file has %d bytes instead of %d (faults %s)' % (
                            w, e['n'], len(fs[e['rp']][-1]), len(ref.get(e['rp'], [b''])[-1]), hit.get(e['rp']))
                    if 'close EIO' in hf or [x for x in hf if x.startswith('close')]:
                        return 'false-success', '%s: generation %d reports success although closing the file failed' % (w, e['n'])
                    if txt:
                        return 'noise', '%s: generation %d succeeds but prints %r' % (w, e['n'], txt)
                else:
                    if not e['ob'] and not hf:
                        return 'false-failure', '%s: generation %d reports failure, nothing went wrong: %r' % (w, e['n'], txt)
                    if not txt.strip():
                        return 'silent', '%s: generation %d fails without telling the user' % (w, e['n'])
        for n, ent, (st, txt) in self.ran:
            e = self.builds(c)[n - 1]
            v = self.native(c, e['el'], ent, st, txt)
            if v:
                return 'object', 'the object of generation %d (%s): %s' % (n, e['el'][1], v)
        return None

    def native(self, c, el, ent, st, txt):
        if st != 0:
            return 'status %s: %s' % (st, txt[-200:])
        m = Prog(c['p'])
        m.init()
        need, stm = m.element(el)
        objs = {k for k in need if m.g[k]['kind'] in 'OB'}
        first = dict(m.val)
        ls = txt.split('\n')[:-1]
        if 'main' not in ls:
            return 'never gets to main: %r' % txt[-200:]
        i = ls.index('main')
        pre, post = ls[:i], ls[i + 1:]
        done = []
        rest = []
        early = {k for k in m.reach(stm)[1] if k in objs} if stm else set()
        for l in pre:
            w = l.split(' ')
            if w[0] == '+' and int(w[1]) in m.g:
                k = int(w[1])
                if k not in objs:
                    return 'constructs %d, which it does not use' % k
                if k in done:
                    return 'constructs %d twice' % k
                if first[k] != int(w[2]):
                    return 'constructs %d with %s instead of %d' % (k, w[2], first[k])
                for d in m.reach([m.g[k]['e']])[1]:
                    if d in objs and d not in done:
                        return 'constructs %d before %d, which it needs' % (k, d)
                done.append(k)
            else:
                for k in early:
                    if k not in done:
                        return 'runs module statements before %d is constructed' % k
                rest.append(l)
        if set(done) != objs:
            return 'never constructs %s' % sorted(objs - set(done))
        for s in stm:
            m.do(s, {})
        if rest != m.out:
            return 'module statements print %r instead of %r' % (rest[-6:], m.out[-6:])
        m.out = []
        r = m.fn(ent, 5)
        want = m.out + ['ret %d' % r]
        if post[:len(want)] != want:
            q = next((j for j in range(min(len(want), len(post))) if want[j] != post[j]), min(len(want), len(post)))
            return 'prints %r instead of %r' % (post[q:q + 2], want[q:q + 2])
        end = sorted(post[len(want):])
        we = sorted('- %d %d' % (k, m.val[k]) for k in objs)
        if end != we:
            return 'at exit %r instead of %r' % (end, we)
        return None

    def reduce(self, c):
        for j in range(len(c['faults']) - 1, -1, -1):
            yield dict(c, faults=c['faults'][:j] + c['faults'][j + 1:])
        for j in range(len(c['h']) - 1, -1, -1):
            yield dict(c, h=c['h'][:j] + c['h'][j + 1:])
        if c.get('heap'):
            yield dict(c, heap=None)
        if c.get('bad'):
            yield dict(c, bad=0)
        for j, x in enumerate(c['h']):
            if x[0] == 'b' and x[1] != 'root':
                yield dict(c, h=c['h'][:j] + [[x[0], 'root'] + x[2:]] + c['h'][j + 1:])
        p = c['p']
        for d in self.cuts(p):
            if self.valid(d, c['h']):
                yield dict(c, p=d)

    def cuts(self, p):
        for j in range(len(p['f']) - 1, -1, -1):
            yield dict(p, f=p['f'][:j] + p['f'][j + 1:])
        for j in range(len(p['g']) - 1, -1, -1):
            yield dict(p, g=p['g'][:j] + p['g'][j + 1:])
        for j in range(len(p['u']) - 1, -1, -1):
            yield dict(p, u=p['u'][:j] + p['u'][j + 1:])
            if p['u'][j]['s']:
                yield dict(p, u=p['u'][:j] + [dict(p['u'][j], s=[])] + p['u'][j + 1:])
                for q in range(len(p['u'][j]['s'])):
                    yield dict(p, u=p['u'][:j] + [dict(p['u'][j], s=p['u'][j]['s'][:q] + p['u'][j]['s'][q + 1:])] + p['u'][j + 1:])
        for j, f in enumerate(p['f']):
            for q in range(len(f['s'])):
                yield dict(p, f=p['f'][:j] + [dict(f, s=f['s'][:q] + f['s'][q + 1:])] + p['f'][j + 1:])
            if f['r'][0] != 'n':
                yield dict(p, f=p['f'][:j] + [dict(f, r=['n', 1])] + p['f'][j + 1:])
        for j, g in enumerate(p['g']):
            if isinstance(g['e'], list) and g['e'][0] != 'n':
                yield dict(p, g=p['g'][:j] + [dict(g, e=['n', 1])] + p['g'][j + 1:])

    def valid(self, p, h):
        try:
            m = Prog(p)
            m.text()
            us = {u['n'] for u in p['u']}
            if any(u['in'] and u['in'] not in us for u in p['u']) or any(x['u'] not in us for x in p['g'] + p['f']):
                return False
            m.reach([['f', f['k'], ['n', 0]] for f in p['f']] + [['g', g['k']] for g in p['g']])
            for x in h:
                if x[0] == 'j':
                    m.f[x[1]]
                elif x[0] == 'set':
                    m.g[x[1]]
                elif x[2][0] == 'm':
                    m.u[x[2][1]]
                    if not [f for f in p['f'] if f.get('e') and f['u'] == x[2][1]]:
                        return False
                else:
                    m.f[x[2][1]]
            return True
        except KeyError:
            return False

    def describe(self, c):
        return {'source': self.source(c, True).decode()[len(HEAD + PRE):], 'faults': c['faults'], 'files': c['files']}


CHECK = P06()
