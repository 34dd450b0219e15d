"""P14: the same input gives the same result in any environment."""
import hashlib, random, re
from . import modeb as M, p04, p05, p06, p13, p15

DUMP = '\nSpp.buildMgr.dumpLlvmIrForElement(%s~ast);\n'
# what these print comes from outside of the program
OUTSIDE = M.UNINIT


def environ(rng, dims=None):
    """One environment; every part of it is unrelated to the program."""
    e = {}
    for d in dims or [x for x in DIMS if rng.random() < 0.5] or [rng.choice(DIMS)]:
        if d == 'heap':
            e['heap'] = [rng.choice([10, 11, 12, 13]), rng.randrange(1, 1 << 30), rng.choice([0, 16, 64, 4096])]
        elif d == 'clock':
            e['clock'] = [rng.choice([0, 1, 951782400, 1709164799, 4102444800, 1 << 33]), rng.choice([0, 1, 1000000, 86400000000])]
        elif d == 'vars':
            n = rng.choice([1, 5, 40])
            e['vars'] = {'UNRELATED_%d' % i: 'x' * rng.randrange(rng.choice([2, 50, 3000])) for i in range(n)}
            for k, v in (('TERM', ['dumb', 'xterm-256color', '']), ('USER', ['root', 'nobody', 'مستخدم']), ('TMPDIR', ['/nowhere', '/sim']), ('MALLOC_ARENA_MAX', ['1'])):
                if rng.random() < 0.3:
                    e['vars'][k] = rng.choice(v)
        elif d == 'dirs':
            e['dirs'] = rng.randrange(1, 1 << 20)
        elif d == 'layout':
            e['layout'] = 1
        elif d == 'delivery':
            e['chunks'] = rng.choice([[1], [rng.randrange(2, 40)], [rng.randrange(1, 9), rng.randrange(1, 900), 4096]])
    return e


DIMS = ['heap', 'clock', 'vars', 'dirs', 'layout', 'delivery']


class P14(M.ModeB):
    id = 'P14'
    level = 'exploration'
    rule = ('a case is one program (a test program of the repository, or a generated one: files with errors and warnings, an interactive session with errors, a history of globals, modules of which IR listings and object '
            'files are generated, code executed at compile time) and three seeded environments that differ in heap layout and heap contents, memory layout, clock, unrelated environment variables, '
            'order of directory entries and sizes of reads')
    quick = 350
    batch = 2
    technique = ('deterministic simulation: the whole compiler runs the same program in seeded environments whose heap, memory contents, clock, directories, environment block and reads are controlled; '
                 'output, notices, exit status, IR listings and the bytes of all files written are compared with the plain environment')
    note = 'Seeded search over programs and environments; addresses of compiled code vary with the layout of memory only, not at random.'
    real = 'whole compiler, standard library, LLVM'
    stub = 'disk, clock, standard input, heap layout and contents, environment block'
    measure = 'distinct (program, environment) hashes'
    assumptions = ['the language of messages and the search path for modules are part of the input']

    def gen(self, rng, i):
        ev = [environ(rng) for _ in range(3)]
        w = rng.random()
        if w < 0.2:
            return {'k': 'corpus', 'n': rng.choice(self.corpus())[0], 'env': ev}
        k, m = rng.choice([('p13', p13), ('p04', p04), ('p05', p05), ('p06', p06), ('p06', p06), ('p15', p15)])
        if k == 'p15':
            g = p15.Gen(rng)
            return {'k': k, 'c': {'us': [g.unit() for _ in range(rng.choice([3, 6, 10]))]}, 'env': ev}
        c = m.CHECK.gen(rng, i)
        for x in ('faults', 'd', 'heap', 'chunks'):
            if x in c:
                c[x] = {} if x == 'd' else []
        return {'k': k, 'c': c, 'env': ev}

    def corpus(self):
        return [x for x in M.corpus() if x[0] not in OUTSIDE]

    def plan(self, c):
        """-> (plan, interactive, environment)"""
        k = c['k']
        if k == 'corpus':
            return M.plan({M.MAIN: dict(M.corpus())[c['n']]}, budget=40000000).root('/tmp'), False, M.corpus_env()
        if k == 'p13':
            return M.plan(p13.CHECK.files(c['c'])[0]), False, None
        if k == 'p15':
            return M.plan({M.MAIN: p15.Prog(c['c']['us']).text()}, budget=40000000), False, None
        if k == 'p04':
            t, f, _ = p04.CHECK.files(c['c'])
            return M.plan(f).stdin(t.encode(), None), True, None
        if k == 'p05':
            m = p05.Model(c['c']['it'])
            f = {n: v.encode() for n, v in m.files.items()}
            if c['c']['mode'] == 'inter':
                return M.plan({n: v for n, v in f.items() if n != M.MAIN}).stdin(f[M.MAIN]), True, None
            return M.plan(f), False, None
        d = c['c']
        t = p06.CHECK.source(d, True)
        if not d.get('bad'):
            m = p06.Prog(d['p'])
            t += ''.join(DUMP % m.path(u['n']) for u in d['p']['u']).encode()
            t += ''.join(DUMP % m.fname(f['k']) for f in d['p']['f'] if f['x']).encode()
        p = M.plan({M.MAIN: t}, budget=40000000).dir('/sim/out')
        for path, n, mode in d['files']:
            if n is None:
                p.dir(path)
            else:
                p.file(path, b'\x7fELF old ' + b'o' * n, mode)
        return p, False, None

    def one(self, ctx, c, e):
        p, inter, env = self.plan(c)
        p.add('dump', '/sim/')
        M.deliver(p, {'heap': e.get('heap'), 'clock': e.get('clock'), 'dirseed': e.get('dirs'), 'chunks': e.get('chunks')})
        env = dict(env or {}, **e.get('vars', {}))
        return self.exe(ctx, p, ['-i'] if inter else [M.MAIN], env=env, cpu=100, legacy=bool(e.get('layout')))

    def run(self, ctx, c):
        return [self.one(ctx, c, {})] + [self.one(ctx, c, e) for e in c['env']]

    def written(self, r):
        return [l for l in r.lines if l.startswith('D ')]

    def judge(self, c, obs):
        b = obs[0]
        if b.hung:
            return None
        for e, r in zip(c['env'], obs[1:]):
            d = 'in the environment with %s: ' % ', '.join(sorted(e))
            if r.hung:
                return 'hang', d + r.how()
            if (r.status, r.crashed) != (b.status, b.crashed):
                return 'status', d + '%s, plain environment %s' % (r.how(), b.how())
            if b.crashed:
                continue
            if r.out != b.out:
                return 'output', d + 'output ' + M.differs(r.out, b.out)
            x, y = self.written(r), self.written(b)
            if x != y:
                n = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                return 'files', d + 'files differ, first %s' % (' '.join((x[n:n + 1] + y[n:n + 1])[0].split()[:2]))
        return None

    def reduce(self, c):
        if len(c['env']) > 1:
            for e in c['env']:
                yield dict(c, env=[e])
        for i, e in enumerate(c['env']):
            for k in e:
                if len(e) > 1:
                    yield dict(c, env=[{x: e[x] for x in e if x != k}])
                if k == 'vars' and len(e[k]) > 1:
                    ks = sorted(e[k])
                    for h in (ks[:len(ks) // 2], ks[len(ks) // 2:]):
                        yield dict(c, env=[dict(e, vars={x: e[k][x] for x in h})])
        if 'c' in c:
            if c['k'] == 'p15':
                for l in p15.ddlist(c['c']['us']):
                    yield dict(c, c={'us': l})
            else:
                for d in {'p13': p13, 'p04': p04, 'p05': p05, 'p06': p06}[c['k']].CHECK.reduce(c['c']):
                    yield dict(c, c=d)

    def states(self, c, obs):
        return [hashlib.md5(repr((c.get('n'), c.get('c'), e)).encode()).hexdigest() for e in c['env']]

    def nontrivial(self, c, obs):
        return bool(obs[0].out)

    def describe(self, c):
        return {'program': c.get('n') or c['k'], 'environments': [sorted(e) for e in c['env']]}


CHECK = P14()
