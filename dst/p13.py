"""P13: statements before a build error run completely, the erroneous one and those after it not at all; every error is reported."""
import re
from . import modeb as M, script as SC, errs as E

HEAD = SC.HEADER + 'import "Spp";\n'
WARN = ['preprocess { Spp.buildMgr.raiseBuildNotice("SPPA1006", %d, Spp.astMgr.getCurrentPreprocessOwner()); }',
        'func wf%d(): Int { preprocess { Spp.buildMgr.raiseBuildNotice("SPPA1006", %d, Spp.astMgr.getCurrentPreprocessOwner()); } return 3; }; printf("v %%d\\n", wf%d())']
LOC = re.compile(r'^\s+(?:- )?(/sim/w/\S+) \((\d+),(\d+)\)$|^(/sim/w/\S+) \((\d+),(\d+)\)$', re.M)


class P13(M.ModeB):
    id = 'P13'
    level = 'exploration'
    rule = ('a case is one seeded program spread over a tree of imported files, with erroneous statements of seeded kinds at seeded places and warnings in between, '
            'and the read sizes it is delivered in')
    quick = 1200
    technique = 'deterministic simulation: the whole compiler on seeded programs with planted build errors; output compared with a reference interpreter that stops at the first error, notices matched to every planted error'
    note = 'Seeded search over programs, kinds of errors and places.'
    real = 'whole compiler: parser, preprocessing, code generation, JIT, execution gate, notices, imports'
    stub = 'file system, delivery of the sources'
    measure = 'distinct (program, errors, history) hashes'
    assumptions = ['statements of a module belong to the root level statement executed next',
                   'an error is reported by at least one notice located on a line of the statements that make it up']

    def fixed(self):
        return [{'st': [{'t': 'printf("a\\n")', 'out': ['a'], 'kind': 'show'},
                        {'bad': [['func endless [T: type] (a: T): Int { return endless[ptr[T]](a~ptr); }', 'quiet'], ['def ev: Int', 'quiet'],
                                 ['printf("bad %d\n", endless[Int](ev))', 'bad']], 'kind': 'endless-template', 'out': []}],
                 'cuts': [], 'chunks': [], 'pre': False}]

    def gen(self, rng, i):
        s = SC.Script(rng, unicode_=rng.random() < 0.7, sink=6)
        er = E.Errors(s)
        n = rng.choice([4, 8, 16, 30])
        k = rng.choice([0, 1, 1, 1, 2, 3])
        at = sorted(rng.randrange(2, n + 1) for _ in range(k))
        st = []
        w = 0
        for j in range(n):
            while at and at[0] == j:
                at.pop(0)
                ss, kind = er.bad()
                st.append({'bad': [list(x) for x in ss], 'kind': kind, 'out': []})
            if rng.random() < 0.03:
                # a token longer than the buffer of the lexer is clipped with a warning
                w += 1
                z = rng.choice([15997, 15998, 15999, 16000, 16500, 33000])
                t = 'func wl%d(a: ptr[array[Char]]): Int { return 4; }; printf("w %%d\\n", wl%d("' % (w, w)
                st.append({'t': t, 'long': z, 'out': ['w 4'], 'kind': 'warn'})
            if rng.random() < 0.08:
                w += 1
                lv = rng.choice([2, 2, 3])
                if rng.random() < 0.5:
                    st.append({'t': WARN[0] % lv, 'out': [], 'kind': 'warn'})
                else:
                    st.append({'t': WARN[1] % (w, lv, w), 'out': ['v 3'], 'kind': 'warn'})
            st.append(s.statement())
        st.append({'t': 'printf("end\\n")', 'out': ['end'], 'kind': 'end'})
        c = {'st': st, 'cuts': [], 'chunks': rng.choice([[], [], [rng.randrange(5, 90)]])}
        for d in range(rng.choice([0, 0, 1, 2])):
            a = rng.randrange(len(st) + 1)
            c['cuts'].append([a, rng.randrange(a, len(st) + 1)])
        c['pre'] = rng.random() < 0.2
        return c

    def files(self, c):
        """-> (files, [(file, first line, last line)] for each statement)"""
        st = c['st']
        where = [None] * len(st)
        owner = [0] * len(st)
        # nested or separate ranges: a later cut may only take a range inside or outside the former ones
        cuts = []
        for a, b in c['cuts']:
            if a < b and all(b <= x or a >= y or (x <= a and b <= y) for x, y in cuts):
                cuts.append((a, b))
        for k, (a, b) in enumerate(cuts):
            for j in range(a, b):
                owner[j] = k + 1
        parent = [0] * (len(cuts) + 1)
        for k, (a, b) in enumerate(cuts):
            for q in range(k):
                if cuts[q][0] <= a and b <= cuts[q][1]:
                    parent[k + 1] = q + 1
        names = [M.MAIN] + ['/sim/w/part%d.alusus' % (k + 1) for k in range(len(cuts))]
        text = [''] * len(names)
        text[0] = HEAD + SC.SINK
        started = set()

        def start(k):
            if k == 0 or k in started:
                return
            start(parent[k])
            started.add(k)
            text[parent[k]] += 'import "part%d";\n' % k
        for j, x in enumerate(st):
            start(owner[j])
            f = owner[j]
            l0 = text[f].count('\n') + 1
            if 'bad' in x:
                for t, _ in x['bad']:
                    text[f] += t + ';\n'
            else:
                text[f] += (x['t'] + 'x' * x['long'] + '"))' if 'long' in x else x['t']) + ';\n'
            where[j] = (names[f], l0, text[f].count('\n') + 1)
        return {n: t.encode() for n, t in zip(names, text)}, where

    def run(self, ctx, c):
        f, _ = self.files(c)
        p = M.plan(f).chunks(c['chunks'])
        return [self.exe(ctx, p)]

    def judge(self, c, obs):
        r = obs[0]
        if r.hung:
            return 'hang', r.how()
        if r.crashed:
            if any(x.get('kind') == 'endless-template' for x in c['st']):
                return 'endless-template', 'a function template that needs endlessly many instances of itself: ' + r.how()
            return 'crash', '%s, errors %s %s' % (r.how(), [x['kind'] for x in c['st'] if 'bad' in x], r.err[-200:].decode('utf-8', 'replace'))
        if b'\nLocation:\n' in r.out:
            return 'exception', 'ended by an internal exception: %r' % r.out[-300:].decode('utf-8', 'replace')
        raw = r.out.decode('utf-8', 'replace')
        got, ns = M.notices(r.out)
        want, bads = '', []
        for j, x in enumerate(c['st']):
            if 'bad' in x:
                bads.append(j)
            elif not bads:
                want += ''.join(l + '\n' for l in x['out'])
        if not bads:
            if got != want:
                return 'suppressed', 'no errors, output %s; notices %s' % (M.differs(got, want), [n for n in ns][:3])
            if any(n.sev in ('ERROR', 'BLOCKER') for n in ns):
                return 'alarm', 'errors reported in a correct program: %r' % [n.raw for n in ns if n.sev == 'ERROR'][:2]
            return None
        if got != want:
            first = c['st'][bads[0]]
            return ('executed' if got.startswith(want) else 'lost'), 'with the error %s %r: output %s' % (first['kind'], first['bad'], M.differs(got, want))
        _, where = self.files(c)
        places = [(m.group(1) or m.group(4), int(m.group(2) or m.group(5))) for m in LOC.finditer(M.ANSI.sub('', raw))]
        for j in bads:
            f, a, b = where[j]
            if c['st'][j]['kind'] == 'multi':
                # every line that is wrong by itself has a notice of its own
                t = ''.join(t + ';\n' for t, _ in c['st'][j]['bad']).split('\n')
                for n, l in enumerate(t):
                    if 'undef' in l and (f, a + n) not in places:
                        return 'silent', 'the error in %r at %s:%d is not reported' % (l, f, a + n)
            if not any(p == f and a <= l <= b for p, l in places):
                return 'silent', 'the error %s %r at %s:%d-%d is not reported: %r' % (c['st'][j]['kind'], c['st'][j]['bad'], f, a, b, M.ANSI.sub('', raw)[-400:])
        return None

    def reduce(self, c):
        st = c['st']
        for j in range(len(st) - 1, -1, -1):
            if len(st) > 1 and st[j].get('kind') != 'end':
                # earlier statements may be needed by later ones; the judge decides
                d = dict(c, st=st[:j] + st[j + 1:], cuts=[])
                if not c['cuts'] and j >= len(st) - 2 or 'bad' in st[j] or st[j]['kind'] in ('show', 'warn', 'str', 'block', 'sink', 'if'):
                    yield d
        if c['cuts']:
            yield dict(c, cuts=c['cuts'][1:])
        if c['chunks']:
            yield dict(c, chunks=[])

    def nontrivial(self, c, obs):
        return any('bad' in x for x in c['st'])

    def describe(self, c):
        return dict(c, st=[x.get('t') or x['bad'] for x in c['st'][:8]])


CHECK = P13()
