"""P12: every source file is processed once, found by the search order, and failing imports stay local."""
import re
from . import modeb as M, script as SC, build as B, sim as S

HEAD = SC.HEADER + 'import "Core";\n'
EXTS = ['.alusus', '.source', '.الأسس', '.أسس', '.مصدر']
LIBS = ['/sim/lib1', '/sim/lib2']
CWD = '/sim/w'
LOC = re.compile(r'^  (?:- )?(/sim/\S+|user input) \((\d+),(\d+)\)$', re.M)


class Fs:
    """The files as the system sees them: directories, files, links; links are followed component by component."""

    def __init__(self, c):
        self.dirs = {'/'}
        for d in c['dirs'] + LIBS + [CWD]:
            p = ''
            for x in d.strip('/').split('/'):
                p += '/' + x
                self.dirs.add(p)
        self.files = {f['path'] for f in c['files']}
        self.links = dict(map(tuple, c['links']))
        self.bad = set(c['nostat'])

    def real(self, path, depth=0):
        """-> the real path or None"""
        if depth > 20:
            return None
        cur = ''
        parts = [x for x in path.split('/')]
        for k, x in enumerate(parts):
            if x in ('', '.'):
                continue
            if (cur or '/') not in self.dirs:
                return None
            if x == '..':
                cur = cur.rsplit('/', 1)[0] if cur else ''
                continue
            nxt = cur + '/' + x
            if nxt in self.links:
                t = self.links[nxt]
                rest = '/'.join(parts[k + 1:])
                t = t if t.startswith('/') else (cur + '/' + t)
                return self.real(t + ('/' + rest if rest else ''), depth + 1)
            cur = nxt
            if cur not in self.dirs and cur not in self.files:
                return None
            if cur in self.files and k < len(parts) - 1:
                return None
        return cur or '/'

    def isfile(self, path):
        r = self.real(path)
        return r is not None and r in self.files and r not in self.bad


class Ended(Exception):
    pass


class Model:
    """Executes the case. Output goes to out, places of expected notices to errs."""

    def __init__(self, c):
        self.c = c
        self.fs = Fs(c)
        self.byp = {f['path']: f for f in c['files']}
        self.inter = c['inter']
        self.stack = [B.OBJ + '/Core', CWD] + LIBS
        self.done = set()
        self.ready = set()
        self.out = []
        self.errs = []
        self.failed = False
        self.steps = 0
        self.uses = set()
        self.end = 0
        self.unknown = False
        self.opens = {}
        self.inpre = 0
        self.infun = 0
        self.nested = False

    def find(self, spec):
        for d in ([''] if spec.startswith('/') else self.stack[::-1]):
            p = d + '/' + spec if d else spec
            for e in [''] + EXTS:
                if self.fs.isfile(p + e):
                    return self.fs.real(p + e)
        return None

    def tryimp(self, spec):
        r = self.find(spec)
        if r is None or not any(r.endswith(e) for e in EXTS):
            return False
        if r in self.done:
            return True
        n = self.opens.get(r, 0) + 1
        self.opens[r] = n
        for p, nth in self.c['noopen']:
            if p == r and (nth == 0 or n == nth):
                return False
        self.done.add(r)
        self.stack.append(r.rsplit('/', 1)[0])
        self.items(self.byp[r], r)
        self.stack.pop()
        return True

    def error(self, where, line):
        self.errs.append((where, line))
        self.failed = True
        if self.inter and self.inpre:
            self.unknown = True

    def items(self, f, where):
        line = self.first(f)
        for k, it in enumerate(f['items']):
            self.steps += 1
            t = it[0]
            # the statement itself starts anew in an interactive session
            if self.inter and t != 'imp' and not self.inpre:
                self.failed = False
            go = not self.failed
            if self.infun and t != 'imp':
                self.nested = True
            if t == 'say':
                if go:
                    self.out.append('F%d.%d' % (f['id'], k))
            elif t == 'use':
                if (it[1] in self.ready or it[1] == f['id']) and it[1] is not None:
                    self.uses.add((f['id'], k))
                    if go:
                        self.out.append('use %d' % (it[1] * 10 + 3))
                elif go:
                    self.out.append('F%d.%d' % (f['id'], k))
            elif t == 'bad':
                self.error(where, line)
            elif t == 'imp':
                if not any(self.tryimp(s) for s in it[1]):
                    self.error(where, line)
            elif t in ('run', 'fun'):
                if go:
                    if t == 'fun':
                        self.out.append('enter %d' % k)
                    if not self.tryimp(it[1][0]):
                        self.end = 1
                        raise Ended
                    if t == 'fun':
                        self.out.append('leave %d' % k)
            elif t in ('pre', 'prefun'):
                if go:
                    self.inpre += 1
                    self.infun += t == 'prefun'
                    if not self.tryimp(it[1][0]):
                        self.end = 1
                        raise Ended
                    self.inpre -= 1
                    self.infun -= t == 'prefun'
                    if t == 'prefun' and not self.failed:
                        self.out.append('pre %d' % k)
            line += it_lines(it)
        self.ready.add(f['id'])

    def first(self, f):
        return 1 + (HEAD.count('\n') if f['id'] == 0 else 0) + 1

    def run(self):
        c = self.c
        try:
            if self.inter:
                self.items(c['files'][0], 'user input')
            else:
                r = self.fs.real(c['start'][1])
                self.done.add(r)
                self.stack.append(r.rsplit('/', 1)[0])
                self.items(self.byp[r], r)
        except Ended:
            pass
        return self


def it_lines(it):
    return imp(it).count('\n') if it[0] == 'imp' else 1


def imp(it):
    return 'import ' + (it[3] + ('\n' if it[2] > 1 else ' ')).join('"%s"' % s for s in it[1]) + ';\n'


def text(f, uses):
    t = HEAD if f['id'] == 0 else ''
    i = f['id']
    t += 'func f%d(): Int { return %d; };\n' % (i, i * 10 + 3)
    for k, it in enumerate(f['items']):
        w = it[0]
        if w == 'say' or w == 'use' and (i, k) not in uses:
            t += 'printf("F%d.%d\\n");\n' % (i, k)
        elif w == 'use':
            t += 'printf("use %%d\\n", f%d());\n' % it[1]
        elif w == 'bad':
            t += 'printf("bad %%d\\n", nothing%d_%d);\n' % (i, k)
        elif w == 'imp':
            # the notice is located where the statement starts
            t += imp(it)
        elif w == 'run':
            t += 'Core.importFile("%s");\n' % it[1][0]
        elif w == 'fun':
            t += 'func r%d_%d() { printf("enter %d\\n"); Core.importFile("%s"); printf("leave %d\\n"); }; r%d_%d();\n' % (i, k, k, it[1][0], k, i, k)
        elif w == 'pre':
            t += 'preprocess { Core.importFile("%s"); };\n' % it[1][0]
        elif w == 'prefun':
            t += 'func p%d_%d(): Int { preprocess { Core.importFile("%s"); } return %d; }; printf("pre %%d\\n", p%d_%d());\n' % (i, k, it[1][0], k, i, k)
    return t


def rel(base, path):
    a, b = base.strip('/').split('/'), path.strip('/').split('/')
    n = 0
    while n < min(len(a), len(b) - 1) and a[n] == b[n]:
        n += 1
    return '/'.join(['..'] * (len(a) - n) + b[n:])


class P12(M.ModeB):
    id = 'P12'
    level = 'exploration'
    rule = ('a case is a seeded tree of directories, source files importing each other (relative, absolute, through links, with and without extension, in cycles, as alternatives, '
            'while parsing, while preprocessing and at run time), search paths, files that cannot be seen or opened, errors in some of the files, '
            'a way of naming the start file (or an interactive session), and read sizes')
    quick = 1500
    technique = 'deterministic simulation: the whole compiler on seeded file trees of a simulated file system with faults, compared with a reference model of import resolution and execution'
    note = 'Seeded search over file trees, import graphs and faults.'
    real = 'import handling, path search, parser, build, execution, notices'
    stub = 'file system (real resolution of links and paths modelled inside the simulator)'
    measure = 'distinct (tree, imports, history) hashes'
    assumptions = ['the directories searched are, in this order: those of the files being imported (innermost first), ALUSUS_LIBS (last first), the working directory',
                   'in one directory the exact name comes before the name with one of the source extensions, in their documented order',
                   'a run-time import that fails ends the program with an error']

    def gen(self, rng, i):
        r = rng
        dirs = [CWD]
        for k in range(r.choice([0, 1, 2, 3, 4])):
            dirs.append(r.choice(dirs) + '/' + r.choice(['d', 'e', 'مجلد']))
        dirs = list(dict.fromkeys(dirs))
        inter = r.random() < 0.3
        names = ['a', 'b', 'c', 'lib', 'd']
        files = [{'id': 0, 'path': '/nowhere' if inter else r.choice(dirs) + '/start.alusus'}]
        taken = {files[0]['path']} | set(dirs)
        for k in range(r.choice([1, 2, 4, 7])):
            p = r.choice(dirs + dirs + LIBS) + '/' + r.choice(names) + (EXTS[0] if r.random() < 0.75 else r.choice(EXTS))
            if p not in taken:
                taken.add(p)
                files.append({'id': len(files), 'path': p})
        links = []
        for k in range(r.choice([0, 0, 1, 2, 3])):
            d = r.choice(dirs + LIBS)
            if r.random() < 0.3 and len(dirs) > 1:
                n, t = d + '/' + r.choice(['l', 'm', 'd']), r.choice(dirs)
            else:
                n, t = d + '/' + r.choice(names + ['l']) + r.choice(['.alusus', '.alusus', '.أسس', '']), r.choice(files)['path']
                if t == '/nowhere':
                    continue
            if r.random() < 0.1:
                t = '/sim/none'
            elif r.random() < 0.5:
                t = rel(d, t)
            if n not in taken and not any(x.startswith(n + '/') for x in taken):
                taken.add(n)
                links.append([n, t])
        everyd = dirs + LIBS + [l[0] for l in links if not l[0].endswith('.alusus')]

        def spec(f):
            w = r.random()
            if w < 0.08:
                return r.choice(['none', 'd/none', '/sim/none/x', '../none.alusus', './none'])
            t = r.choice([x['path'] for x in files] + [l[0] for l in links])
            if t == '/nowhere':
                return 'none'
            here = CWD if f['path'] == '/nowhere' else f['path'].rsplit('/', 1)[0]
            if r.random() < 0.3:
                # by way of a linked directory
                b = t.rsplit('/', 1)
                al = [l[0] for l in links if l[1] == b[0]]
                if al:
                    t = r.choice(al) + '/' + b[1]
            if w < 0.2:
                s = t
            elif w < 0.35:
                s = t.rsplit('/', 1)[1]
            else:
                base = r.choice([here, here, here, CWD] + LIBS)
                s = rel(base, t)
                if r.random() < 0.2 and not s.startswith('..'):
                    s = './' + s
                if r.random() < 0.1:
                    s = s.replace('/', '//')
            if r.random() < 0.6:
                for e in EXTS:
                    if s.endswith(e):
                        s = s[:-len(e)]
                        break
            return s
        for f in files:
            its = []
            for k in range(r.choice([1, 3, 5, 8] if f['id'] else [4, 8, 12])):
                w = r.random()
                if w < 0.3:
                    its.append(['say'])
                elif w < 0.4:
                    its.append(['use', r.choice(files)['id']])
                elif w < 0.42:
                    its.append(['bad'])
                elif w < 0.82:
                    n = r.choice([1, 1, 1, 2, 3])
                    its.append(['imp', [spec(f) for _ in range(n)], r.choice([1, 1, 2]), r.choice([' ||', ' or'])])
                else:
                    its.append([r.choice(['run', 'fun', 'pre', 'prefun']), [spec(f)]])
            its.append(['say'])
            f['items'] = its
        c = {'dirs': dirs, 'files': files, 'links': links, 'inter': inter, 'nostat': [], 'noopen': [],
             'chunks': r.choice([[], [], [], [r.randrange(1, 60)]])}
        if len(files) > 1 and r.random() < 0.3:
            p = r.choice(files[1:])['path']
            w = r.random()
            if w < 0.3:
                c['nostat'].append(p)
            elif w < 0.7:
                c['noopen'].append([p, 0])
            else:
                c['noopen'].append([p, 1])
        if not inter:
            s = files[0]['path']
            w = r.random()
            arg = s if w < 0.3 else rel(CWD, s)
            if w > 0.7:
                arg = arg[:-7]
            full = arg if arg.startswith('/') else CWD + '/' + arg
            c['start'] = [arg, full if full.endswith('.alusus') else full + '.alusus']
        if self.model(c).nested:
            # see the fixed case
            for f in files:
                for it in f['items']:
                    if it[0] == 'prefun':
                        it[0] = 'pre'
        return c

    def fixed(self):
        f = [{'id': 0, 'path': '/sim/w/start.alusus', 'items': [['say'], ['prefun', ['a']], ['say']]},
             {'id': 1, 'path': '/sim/w/a.alusus', 'items': [['say']]}]
        return [{'dirs': ['/sim/w'], 'files': f, 'links': [], 'inter': False, 'nostat': [], 'noopen': [], 'chunks': [], 'start': ['start', '/sim/w/start.alusus']}]

    def model(self, c):
        m = Model(c)
        m.run()
        return m

    def files(self, c, m):
        return {f['path']: text(f, m.uses).encode() for f in c['files'] if f['path'] != '/nowhere'}

    def run(self, ctx, c):
        m = self.model(c)
        p = M.plan(self.files(c, m)).chunks(c['chunks'])
        for d in c['dirs'] + LIBS:
            p.dir(d)
        for n, t in c['links']:
            p.link(n, t)
        for x in c['nostat']:
            p.fault('stat@' + x, 0, 'EACCES')
        for x, n in c['noopen']:
            p.fault('open@' + x, n, 'EACCES')
        env = {'ALUSUS_LIBS': '%s/Sources/Srt:%s/Spp:%s:%s' % (B.SRC, B.OBJ, S.STUB, ':'.join(LIBS))}
        if c['inter']:
            p.stdin(text(c['files'][0], m.uses).encode(), c['chunks'] or None)
            return [self.exe(ctx, p, ['-i'], env=env)]
        return [self.exe(ctx, p, [c['start'][0]], env=env)]

    def judge(self, c, obs):
        r = obs[0]
        m = self.model(c)
        if m.steps > 2000 or m.unknown:
            return None
        if r.hung:
            return 'hang', r.how()
        if r.crashed and m.nested:
            return 'nested-build', 'statements executed while the function importing them was being built: ' + r.how()
        if r.crashed:
            return 'crash', r.how() + ' ' + r.err[-200:].decode('utf-8', 'replace')
        raw = r.out.decode('utf-8', 'replace')
        if m.end:
            # the message of the exception follows
            got, ns = M.notices(r.out)
            k = re.search(r'(File not found: |File Exception: )', got)
            if r.status != 1 or not k:
                return 'missing', 'a run-time import that failed ended with %s: %s' % (r.how(), raw[-300:])
            got = got[:k.start()]
        else:
            if r.status:
                return 'status', '%s: %s' % (r.how(), raw[-300:])
            got, ns = M.notices(r.out)
        if c['inter']:
            got = M.strip_prompts(got.encode())
        want = ''.join(l + '\n' for l in m.out)
        if got != want:
            k = 'twice' if any(got.count(l + '\n') > want.count(l + '\n') for l in got.split('\n') if l.startswith('F')) else 'output'
            return k, 'output %s' % M.differs(got, want)
        places = [(a, int(b)) for a, b, _ in LOC.findall(M.ANSI.sub('', raw))]
        for w in set(m.errs):
            if w not in places:
                return 'silent', 'the error at %s:%d is not reported; places %s' % (w + (places[:5],))
        for w in places:
            if w not in m.errs:
                return 'alarm', 'reported at %s:%d, where nothing is wrong; expected %s: %s' % (w + (m.errs[:5], M.ANSI.sub('', raw)[-400:]))
        return None

    def reduce(self, c):
        for k in range(len(c['files']) - 1, 0, -1):
            yield dict(c, files=c['files'][:k] + c['files'][k + 1:])
        for k, f in enumerate(c['files']):
            its = f['items']
            n = len(its)
            for z in (n // 2, n // 4, 1):
                if z:
                    for a in range(0, n, z):
                        g = dict(f, items=its[:a] + its[a + z:])
                        yield dict(c, files=c['files'][:k] + [g] + c['files'][k + 1:])
            for j, it in enumerate(its):
                if it[0] == 'imp' and len(it[1]) > 1:
                    for q in range(len(it[1])):
                        g = dict(f, items=its[:j] + [['imp', it[1][:q] + it[1][q + 1:], it[2], it[3]]] + its[j + 1:])
                        yield dict(c, files=c['files'][:k] + [g] + c['files'][k + 1:])
        for key in ('links', 'nostat', 'noopen', 'chunks'):
            for k in range(len(c[key])):
                yield dict(c, **{key: c[key][:k] + c[key][k + 1:]})


CHECK = P12()
