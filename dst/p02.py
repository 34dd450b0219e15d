"""P02: a source that cannot be read is an error, never a hang, and nothing that was not read executes."""
from . import modeb as M, script as SC
from .check import ddlist

SUB = '/sim/w/sub.alusus'
ERRS = ['EIO', 'EIO', 'EIO', 'EISDIR', 'EBADF', 'ESTALE', 'ENOMEM', 'EAGAIN']
OPEN = ['EACCES', 'EIO', 'ENOENT', 'EMFILE', 'ENFILE', 'ELOOP', 'ENOMEM']


class P02(M.ModeB):
    id = 'P02'
    level = 'fault_enumeration'
    rule = ('a case is one seeded program (a file, a file with imported files, or an interactive session), read sizes, and the read, open or standard input operation '
            'that fails, with its error')
    quick = 2500
    technique = 'deterministic simulation: injected open and read errors at seeded points of source files, imports and standard input; prefix check against a reference interpreter'
    note = 'Seeded search over programs, failing operations and errors; the output of the complete program comes from a reference interpreter.'
    real = 'stream classes, engine, lexer, parser, import lookup, start-up code, code generation, JIT'
    stub = 'open() and read() of files under /sim, standard input'
    measure = 'distinct (program, fault, history) hashes'
    assumptions = ['an import whose file cannot be opened may be reported with a notice or by ending the compilation']

    def gen(self, rng, i):
        k = rng.choice(['file', 'file', 'file', 'import', 'import', 'inter', 'inter', 'open', 'openimport'])
        n = rng.choice([2, 5, 12, 30])
        st, s = SC.generate(rng, n, sink=12)
        c = {'k': k, 'st': st, 'chunks': rng.choice([[1], [rng.randrange(2, 40)], [rng.randrange(20, 300)], [rng.randrange(1, 60) for _ in range(3)], []])}
        total = len(SC.text(st)[0])
        if k in ('import', 'openimport'):
            # statements before a, inside the imported file, after it
            a = rng.randrange(n + 1)
            b = rng.randrange(a, n + 1)
            c['cut'] = [a, b]
            c['deep'] = rng.randrange(3)
        if k in ('open', 'openimport'):
            c['err'] = rng.choice(OPEN)
            c['nth'] = 1
            return c
        ch = c['chunks'] or [8191]
        reads = max(1, total * len(ch) // sum(ch))
        c['nth'] = rng.randrange(1, min(reads + 2, 3000))
        if rng.random() < 0.15:
            c['nth'] = rng.choice([1, 2, max(1, reads), reads + 1])
        c['err'] = rng.choice(ERRS)
        c['sticky'] = rng.randrange(2)
        return c

    def files(self, c):
        st = c['st']
        if c['k'] not in ('import', 'openimport'):
            return {M.MAIN: SC.text(st)[0]}
        a, b = c['cut']
        head = SC.text([x for x in st if x['kind'] == 'sink'][:1])[0]
        head = head[:head.index(b'O = ')] if b'O = ' in head else SC.HEADER.encode()
        body = lambda xs: b''.join(x['t'].encode() + b';\n' for x in xs)
        f = {}
        deep = c.get('deep', 0)
        names = ['sub'] + ['sub%d' % (j + 1) for j in range(deep)]
        f[M.MAIN] = head + body(st[:a]) + b'import "sub";\n' + body(st[b:])
        for j, nm in enumerate(names):
            if j < len(names) - 1:
                f['/sim/w/%s.alusus' % nm] = b'// level\nimport "%s";\n' % names[j + 1].encode()
            else:
                f['/sim/w/%s.alusus' % nm] = body(st[a:b])
        return f

    def target(self, c):
        if c['k'] in ('import', 'openimport'):
            return '/sim/w/sub%s.alusus' % (c.get('deep', 0) or '')
        return M.MAIN

    def run(self, ctx, c):
        if c['k'] == 'inter':
            p = M.plan()
            p.stdin(SC.text(c['st'])[0], c['chunks'] or None)
            p.fault('stdin', c['nth'], c['err'], c.get('sticky', 1))
            return [self.exe(ctx, p, ['-i'])]
        p = M.plan(self.files(c))
        p.chunks(c['chunks'])
        if c['k'] in ('open', 'openimport'):
            p.fault('open@' + self.target(c), c['nth'], c['err'])
        else:
            p.fault('read@' + self.target(c), c['nth'], c['err'], c.get('sticky', 1))
        return [self.exe(ctx, p)]

    def judge(self, c, obs):
        r = obs[0]
        if r.hung:
            return 'hang', r.how()
        if r.crashed:
            return 'crash', r.how() + ' ' + r.err[-200:].decode('utf-8', 'replace')
        fired = sum(r.fired().values())
        full = ''.join(l + '\n' for x in c['st'] for l in x['out'])
        raw = M.strip_prompts(r.out) if c['k'] == 'inter' else r.out.decode('utf-8', 'replace')
        got, ns = M.notices(raw.encode())
        if not fired:
            if got != full:
                return 'output', 'no fault happened, output ' + M.differs(got, full)
            return None
        errs = [n for n in ns if n.sev in ('ERROR', 'BLOCKER')]
        # what the compiler itself says is on the last lines, after the output of the program
        k = 0
        while k < len(got) and k < len(full) and got[k] == full[k]:
            k += 1
        k = got.rfind('\n', 0, k) + 1
        rest = got[k:]
        if r.status == 0 and not errs:
            return 'success', 'a failed %s was not reported: exit 0, output %r' % (c['k'], got[-200:])
        if c['k'] != 'inter' and self.target(c).rsplit('/', 1)[1].split('.')[0] not in raw[k:]:
            return 'unreported', 'the report does not name the file: %r' % raw[-300:]
        if c['k'] == 'inter' and not rest.strip():
            return 'unreported', 'no report'
        # nothing of the program beyond the prefix: its output lines all have a tag
        for l in rest.split('\n'):
            if l[:2] in ('v ', 'r ', '= ', 'w ', 'l ', 'o ') or l[:4] == 'pre ' or (l[:1] == '[' and l[-1:] == ']'):
                return 'not-prefix', 'output %r is not part of %r' % (l, full[max(0, k - 100):k + 100])
        # reading stops soon after the failure
        t = 'stdin' if c['k'] == 'inter' else self.target(c)
        seen, more = False, 0
        for l in r.lines:
            if l.startswith('F '):
                seen = True
            elif seen and ((l.startswith('R ') and t in l) or (t == 'stdin' and l.startswith('IN '))):
                more += 1
        if more > 8:
            return 'goes-on', '%d more reads after the failure' % more
        return None

    def reduce(self, c):
        st = c['st']
        n = len(st)
        if c['k'] not in ('import', 'openimport'):
            for k in (n // 2, 3 * n // 4, n - 1):
                if 0 < k < n:
                    yield dict(c, st=st[:k])
        if c.get('deep'):
            yield dict(c, deep=0)
        if c['nth'] > 1:
            yield dict(c, nth=1)
            yield dict(c, nth=c['nth'] // 2)
        if len(c['chunks']) > 1:
            for x in c['chunks']:
                yield dict(c, chunks=[x])

    def describe(self, c):
        return dict(c, st=[x['t'] for x in c['st'][:6]])


CHECK = P02()
