"""P01: how the source bytes arrive does not change what a program means."""
from . import modeb as M, script as SC
from .check import ddlist

FILL = ['x', 'é', '漢', '🙂', 'سلام ', '"', "'", ';', '{', '*', '/ ', '\\', '\t', 'def ', '\n']


def filler(rng, n):
    """A comment of about n bytes."""
    k = rng.randrange(3)
    body, size = [], 0
    pool = rng.sample(FILL, 4)
    while size < n:
        c = rng.choice(pool)
        if k != 1 and c == '\n':
            c = '_'
        body.append(c)
        size += len(c.encode())
    b = ''.join(body)
    if k == 1:
        return '/*' + b.replace('*/', '**').replace('/ ', '/_') + '_*/\n'
    return '//' + b.rstrip('\\') + '\n'


def chunks(rng):
    k = rng.randrange(6)
    if k == 0:
        return [1]
    if k == 1:
        return [rng.randrange(1, 8)]
    if k == 2:
        return [rng.randrange(1, 5) for _ in range(rng.randrange(2, 6))]
    if k == 3:
        return [rng.randrange(1, 300) for _ in range(rng.randrange(2, 6))]
    if k == 4:
        return [rng.choice([1, 2, 3, 4095, 4096, 8190, 8191, 8192]) for _ in range(rng.randrange(1, 5))]
    return []


def delivery(rng):
    d = {'chunks': chunks(rng)}
    fs = []
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        fs.append(['read@' + M.MAIN, rng.randrange(1, 40), 'EINTR' if rng.random() < 0.5 else 'short', 0])
    if fs:
        d['faults'] = fs
    if rng.random() < 0.25:
        d['fifo'] = True
    if rng.random() < 0.4:
        d['heap'] = [rng.choice([10, 11, 12, 13]), rng.randrange(1, 10000), rng.choice([0, 16, 48, 160, 4096])]
    if rng.random() < 0.3:
        d['clock'] = [rng.choice([0, 1, 951782400, 2147483647, 4102444800]), rng.choice([0, 1, 1000000, 1000000000])]
    return d


class P01(M.ModeB):
    id = 'P01'
    level = 'exploration'
    rule = ('a case is one program (a seeded sequence of root level statements with comments and padding, or a test program of the repository) and one delivery '
            '(a file or a pipe, read sizes, interruptions, heap and clock conditions, file or interactive session)')
    quick = 1100
    technique = 'deterministic simulation: seeded search over read sizes, interruptions, heap and clock conditions; differential against an undisturbed delivery and against a reference interpreter'
    note = 'Seeded search over programs and deliveries; the expected output comes from a reference interpreter of the generated statements, and for the repository test programs from an undisturbed run of the same build.'
    real = 'lexer, parser, handlers, code generation, JIT, notices, stream classes, C++ stream library'
    stub = 'read() sizes and interruptions, standard input, clock, heap placement and contents, files under /sim'
    measure = 'distinct (delivery, program, history) hashes'
    assumptions = ['the reference interpreter covers the generated statement kinds only',
                   'terminal input never fails with EINTR (no signal handlers are installed by alusus)']

    def gen(self, rng, i):
        w = rng.random()
        if w < 0.2:
            n = rng.randrange(10 ** 6)
            return {'k': 'corpus', 'n': n, 'd': delivery(rng)}
        st, s = SC.generate(rng, rng.choice([3, 8, 20, 40, 90]), unicode_=rng.random() < 0.8)
        for x in st:
            if rng.random() < 0.3:
                x['c'] = s.comment()
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            rng.choice(st)['c'] = filler(rng, rng.choice([3, 60, 500, 1020, 4090, 8180, 8190, rng.randrange(9000), 15900]))
        return {'k': 'inter' if w < 0.45 else 'file', 'st': st, 'd': delivery(rng), 'tail': rng.choice(['', '', '\n', ' ', '//end', '\n\n/* x */'])}

    def run(self, ctx, c):
        d = c['d']
        if c['k'] == 'corpus':
            cs = M.corpus()
            name, t = cs[c['n'] % len(cs)]
            env = M.corpus_env()
            if name in M.UNINIT:
                d = dict(d, heap=None)
            base = M.plan({M.MAIN: t}).root('/tmp')
            cache = ctx.__dict__.setdefault('p01', {})
            if name not in cache:
                cache[name] = self.exe(ctx, base, env=env)
            else:
                ctx.last.append(cache[name])
            return [cache[name], self.exe(ctx, M.deliver(M.plan({M.MAIN: t}).root('/tmp'), d), env=env)]
        t = SC.text(c['st'])[0] + c.get('tail', '').encode()
        if c['k'] == 'file':
            r = [self.exe(ctx, M.deliver(M.plan({M.MAIN: t}), d))]
        else:
            p = M.deliver(M.plan(), dict(d, faults=[]))
            p.stdin(t + b'\n', d.get('chunks') or None)
            r = [self.exe(ctx, p, ['-i'])]
        if c.get('nomodel'):
            r.append(self.exe(ctx, M.plan({M.MAIN: t})))
        return r

    def judge(self, c, obs):
        r = obs[-1] if c['k'] == 'corpus' else obs[0]
        if c['k'] == 'corpus':
            b = obs[0]
            if b.hung or r.hung:
                return None if b.hung == r.hung else ('hang', '%s, undisturbed %s' % (r.how(), b.how()))
            if b.status != r.status:
                return 'status', '%s, undisturbed %s' % (r.how(), b.how())
            if b.out != r.out:
                return 'output', 'output ' + M.differs(r.out, b.out)
            return None
        if c.get('nomodel'):
            b = obs[1]
            if c['k'] == 'inter':
                rl = M.notices(M.strip_prompts(r.out).encode())[0]
                bl = M.notices(b.out)[0]
                # an interactive session goes on after an error, so nothing can be said about these
                if b'ERROR' in b.out or b'BLOCKER' in b.out:
                    return None
                if rl != bl:
                    return 'output', 'interactive output ' + M.differs(rl, bl)
                return None
            if (b.status, b.out) != (r.status, r.out):
                return 'output', '%s; output %s' % (r.how(), M.differs(r.out, b.out))
            return None
        if r.crashed or r.hung or r.status != 0:
            return 'status', r.how() + ' ' + (r.err[-200:].decode('utf-8', 'replace'))
        want = ''.join(l + '\n' for x in c['st'] for l in x['out'])
        got = M.strip_prompts(r.out) if c['k'] == 'inter' else r.out.decode('utf-8', 'replace')
        if got != want:
            return 'output', 'output ' + M.differs(got, want)
        return None

    def reduce(self, c):
        d = c['d']
        for k in list(d):
            if d[k]:
                e = dict(d)
                del e[k]
                yield dict(c, d=e)
        if c['k'] == 'corpus':
            return
        st = c['st']
        n = len(st)
        for k in (n // 2, 3 * n // 4, n - 1):
            if 0 < k < n:
                yield dict(c, st=st[:k])
        if any(x.get('c') for x in st):
            yield dict(c, st=[{k: v for k, v in x.items() if k != 'c'} for x in st])
        for i, x in enumerate(st):
            if x.get('c'):
                yield dict(c, st=st[:i] + [{k: v for k, v in x.items() if k != 'c'}] + st[i + 1:])
        if c.get('tail'):
            yield dict(c, tail='')
        for s in ddlist(st):
            yield dict(c, st=s, nomodel=True)
        if len(d.get('faults') or []) > 1:
            for f in ddlist(d['faults']):
                yield dict(c, d=dict(d, faults=f))
        if len(d.get('chunks') or []) > 1:
            for x in d['chunks']:
                yield dict(c, d=dict(d, chunks=[x]))

    def describe(self, c):
        c = dict(c)
        if 'st' in c:
            c['st'] = [x['t'] for x in c['st'][:6]]
        return c


CHECK = P01()
