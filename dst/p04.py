"""P04: an interactive session behaves as if its erroneous statements had not been entered."""
import re
from . import modeb as M, script as SC, errs as E

HEAD = SC.HEADER + 'import "Core";\n'
LOC = re.compile(r'^\s+(?:- )?(/sim/w/\S+|user input) \((\d+),(\d+)\)$|^(/sim/w/\S+|user input) \((\d+),(\d+)\)$', re.M)


class Later:
    """Statements that fail because of something that is defined afterwards, and work then."""

    def __init__(self, s, r):
        self.s, self.r = s, r

    def make(self):
        """-> [first group, definition, use]: texts or {t, out}"""
        r, f = self.r, self.s.fresh
        u, k = f('late'), r.randrange(2, 90)
        fn = ('func %s(): Int { return %d; }' % (u, k), [])
        w = r.randrange(13)
        if w == 0:
            a = f('la')
            return [('func %s(): Int { return %s() + 1; }' % (a, u), 'quiet'), ('printf("bad %%d\\n", %s())' % a, 'bad')], fn, ('printf("la %%d\\n", %s())' % a, ['la %d' % (k + 1)])
        if w == 1:
            c, o = f('LC'), f('lo')
            return ([('class %s { def p: Int; def v: %s; }' % (c, u), 'quiet'), ('def %s: %s' % (o, c), 'quiet'), ('printf("bad %%d\\n", %s.v.w)' % o, 'bad')],
                    ('class %s { def w: Int; handler this~init() { this.w = %d; printf("made %s\\n"); } }' % (u, k, u), []),
                    ('printf("lo %%d\\n", %s.v.w)' % o, ['made ' + u, 'lo %d' % k]))
        if w == 2:
            g = f('lg')
            return [('def %s: Int(%s() + 2)' % (g, u), 'quiet'), ('printf("bad %%d\\n", %s)' % g, 'bad')], fn, ('printf("lg %%d\\n", %s)' % g, ['lg %d' % (k + 2)])
        if w == 3:
            c, o = f('LC'), f('lo')
            return ([('class %s { def v: Int; handler this~init() { printf("ctor %s\\n"); this.v = %s(); } }' % (c, c, u), 'quiet'), ('def %s: %s' % (o, c), 'quiet'),
                     ('printf("bad %%d\\n", %s.v)' % o, 'bad')], fn, ('printf("lo %%d\\n", %s.v)' % o, ['ctor ' + c, 'lo %d' % k]))
        if w == 4:
            t = f('lt')
            return ([('func %s [T: type] (a: T): T { return a + %s(); }' % (t, u), 'quiet'), ('printf("bad %%d\\n", %s[Int](1))' % t, 'bad')], fn,
                    ('printf("lt %%d\\n", %s[Int](1))' % t, ['lt %d' % (k + 1)]))
        if w == 5:
            m = f('lm')
            return ([('macro %s [x] I(x) + %s()' % (m, u), 'quiet'), ('printf("bad %%d\\n", %s[1])' % m, 'bad')], fn, ('printf("lm %%d\\n", %s[1])' % m, ['lm %d' % (k + 1)]))
        if w == 6:
            c, o = f('LC'), f('lo')
            return ([('class %s { def v: Int; handler this~init() { printf("ctor %s\\n"); this.v = 1; } handler this.m(): Int { return %s() + this.v; } }' % (c, c, u), 'quiet'),
                     ('def %s: %s' % (o, c), 'quiet'), ('printf("bad %%d\\n", %s.m())' % o, 'bad')], fn,
                    ('printf("lo %%d\\n", %s.m())' % o, ['ctor ' + c, 'lo %d' % (k + 1)]))
        if w == 7:
            return [('printf("bad %%d\\n", %s.v)' % u, 'bad')], ('module %s { def v: Int = %d; }' % (u, k), []), ('printf("lx %%d\\n", %s.v)' % u, ['lx %d' % k])
        if w == 8:
            return [('%s = 5' % u, 'bad')], ('def %s: Int(%d)' % (u, k), []), ('printf("lv %%d\\n", %s)' % u, ['lv %d' % k])
        if w == 9:
            a, b = f('la'), f('lb')
            return ([('func %s(): Int { return %s(); }' % (a, u), 'quiet'), ('func %s(): Int { return %s() * 2; }' % (b, a), 'quiet'), ('printf("bad %%d\\n", %s())' % b, 'bad'),
                     ('printf("bad %%d\\n", %s())' % a, 'bad')], fn, ('printf("lb %%d\\n", %s())' % b, ['lb %d' % (k * 2)]))
        if w == 10:
            o = f('lo')
            return ([('def %s: %s' % (o, u), 'quiet'), ('%s.v = 3' % o, 'bad')],
                    ('class %s { def v: Int; handler this~init() { this.v = %d; printf("made %s\\n"); } handler this~terminate() { printf("gone\\n"); } }' % (u, k, u), []),
                    ('printf("lo %%d\\n", %s.v)' % o, ['made ' + u, 'lo %d' % k]))
        if w == 11:
            # the executed part of a failing statement must not run
            g, h = f('lg'), f('lh')
            return ([('class %s { def v: Int; handler this~init() { printf("ctor %s\\n"); this.v = %d; } }' % (g, g, k), 'quiet'), ('def %s: %s' % (h, g), 'quiet'),
                     ('printf("bad %%d %%d\\n", %s.v, %s())' % (h, u), 'bad')], fn, ('printf("lh %%d %%d\\n", %s.v, %s())' % (h, u), ['ctor ' + g, 'lh %d %d' % (k, k)]))
        a = f('la')
        return ([('func %s(): Int { return %s[Int](1); }' % (a, u), 'quiet'), ('printf("bad %%d\\n", %s())' % a, 'bad')],
                ('func %s [T: type] (a: T): T { return a + %d; }' % (u, k), []), ('printf("la %%d\\n", %s())' % a, ['la %d' % (k + 1)]))


class P04(M.ModeB):
    id = 'P04'
    level = 'exploration'
    rule = ('a case is one seeded interactive session of correct statements, erroneous statements of seeded kinds, and statements that fail until a later definition, '
            'some of them in imported files, and the read sizes of the standard input')
    quick = 1000
    technique = 'deterministic simulation: seeded interactive sessions with planted errors on a simulated standard input, compared with a reference interpreter that skips the erroneous statements'
    note = 'Seeded search over sessions, kinds of errors and places.'
    real = 'whole compiler in interactive mode: parser, recovery, preprocessing, code generation, JIT, execution'
    stub = 'standard input, file system'
    measure = 'distinct (session, history) hashes'
    assumptions = ['statements of a module run one by one at the next executed statement of the root level, an erroneous one among them does not take the others with it']

    def gen(self, rng, i):
        s = SC.Script(rng, unicode_=rng.random() < 0.6)
        er, la = E.Errors(s, True), Later(s, rng)
        n = rng.choice([4, 8, 16, 30])
        st, wait, hold = [], [], []
        for j in range(n):
            w = rng.random()
            if w < 0.25:
                ss, kind = er.bad()
                st.append({'bad': [[x[0].replace('"bad\\n"', '"late\\n"') if x[1] == 'late' else x[0], x[1]] for x in ss], 'kind': kind, 'out': []})
            elif w < 0.4:
                a, b, c = la.make()
                st.append({'bad': [list(x) for x in a], 'kind': 'later', 'out': [], 'g': j})
                wait.append((j, b, c))
            elif w < 0.52 and wait:
                g, b, c = wait.pop(rng.randrange(len(wait)))
                st.append({'t': b[0], 'out': b[1], 'kind': 'def', 'g': g})
                if rng.random() < 0.3:
                    st.append(s.statement())
                st.append({'t': c[0], 'out': c[1], 'kind': 'use', 'g': g})
            elif w < 0.58:
                # values that refer to compiled code
                h = s.fresh('h')
                v = rng.randrange(3)
                if v == 0:
                    t = 'def %s: ptr[array[Word[8]]]; %s = "text %s"' % (h, h, h)
                    use = ('printf("%%s\\n", %s)' % h, ['text ' + h])
                elif v == 1:
                    t = 'func %sf(a: Int): Int { return a + 3; }; def %s: ptr[function (a: Int) => Int]; %s = %sf~ptr' % (h, h, h, h)
                    use = ('printf("%%d\\n", %s(4))' % h, ['7'])
                else:
                    t = ('class %sC { def v: Int; handler this~init() { this.v = 4; printf("ctor %s\\n"); } handler this~terminate() { printf("dtor\\n"); } }; '
                         'def %s: %sC; printf("%%d\\n", %s.v); %s.v = 6') % (h, h, h, h, h, h)
                    use = ('printf("%%d\\n", %s.v)' % h, ['6'])
                st.append({'t': t, 'out': ['ctor ' + h, '4'] if v == 2 else [], 'kind': 'hold', 'g': -j - 1})
                hold.append((-j - 1, use))
            elif w < 0.66 and hold:
                g, u = rng.choice(hold)
                st.append({'t': u[0], 'out': u[1], 'kind': 'held', 'g': g})
            else:
                st.append(s.statement())
        st.append({'t': 'printf("end\\n")', 'out': ['end'], 'kind': 'end'})
        c = {'st': st, 'chunks': rng.choice([[], [], [1], [rng.randrange(2, 90)]]), 'cuts': [], 'rt': []}
        if rng.random() < 0.35:
            a = rng.randrange(len(st))
            c['cuts'].append([a, rng.randrange(a, len(st))])
            c['rt'].append(rng.random() < 0.4)
        return c

    def files(self, c):
        st = c['st']
        files, where, text = {}, [], HEAD
        cut = [x for x in c['cuts'] if x[0] < x[1]]
        part = ''
        for j, x in enumerate(st):
            inside = bool(cut) and cut[0][0] <= j < cut[0][1]
            l0 = (part if inside else text).count('\n') + 1
            body = ''.join(t + ';\n' for t, _ in x['bad']) if 'bad' in x else x['t'] + ';\n'
            if inside:
                part += body
            else:
                text += body
            where.append(('/sim/w/part.alusus' if inside else 'user input', l0, l0 + body.count('\n') - 1))
            if inside and j == cut[0][1] - 1:
                if c['rt'][0]:
                    text += 'func doImport() { Core.importFile("part.alusus"); printf("imported\\n"); };\ndoImport();\n'
                else:
                    text += 'import "part";\nprintf("imported\\n");\n'
        if part:
            files['/sim/w/part.alusus'] = part.encode()
        return text, files, where

    def run(self, ctx, c):
        t, f, _ = self.files(c)
        return [self.exe(ctx, M.plan(f).stdin(t.encode(), c['chunks'] or None), ['-i'])]

    def judge(self, c, obs):
        r = obs[0]
        if r.hung:
            return 'hang', r.how()
        if r.crashed:
            return 'crash', '%s, errors %s %s' % (r.how(), [x['kind'] for x in c['st'] if 'bad' in x], r.err[-200:].decode('utf-8', 'replace'))
        if b'\nLocation:\n' in r.out:
            return 'exception', 'ended by an internal exception: %r' % r.out[-300:].decode('utf-8', 'replace')
        raw = M.strip_prompts(r.out)
        got, ns = M.notices(raw.encode())
        late = sum(1 for x in c['st'] if 'bad' in x for t, k in x['bad'] if k == 'late' and '"late' in t)
        lines = got.split('\n')
        if lines.count('late') > late:
            return 'executed', 'initialisation of a module executed more than once: %r' % got[-300:]
        got = '\n'.join(l for l in lines if l != 'late')
        cut = [x for x in c['cuts'] if x[0] < x[1]]
        want = ''
        for j, x in enumerate(c['st']):
            if 'bad' not in x:
                want += ''.join(l + '\n' for l in x['out'])
            if cut and j == cut[0][1] - 1:
                want += 'imported\n'
        if got != want:
            k = 'executed' if 'bad' in got.replace(want[:0], '') and re.search(r'(?m)^bad', got) else 'lost'
            return k, 'errors %s: output %s; %r' % ([x['kind'] for x in c['st'] if 'bad' in x], M.differs(got, want), [n.raw for n in ns][-2:])
        _, _, where = self.files(c)
        text = M.ANSI.sub('', raw)
        places = [(m.group(1) or m.group(4), int(m.group(2) or m.group(5))) for m in LOC.finditer(text)]
        ok = []
        for j, x in enumerate(c['st']):
            if 'bad' in x:
                f, a, b = where[j]
                ok.append((f, a, b))
                if not any(p == f and a <= l <= b for p, l in places):
                    return 'silent', 'the error %s %r at %s:%d-%d is not reported: %r' % (x['kind'], x['bad'], f, a, b, text[-400:])
        for n in ns:
            if n.sev in ('ERROR', 'BLOCKER'):
                at = [(m.group(1) or m.group(4), int(m.group(2) or m.group(5))) for m in LOC.finditer(M.ANSI.sub('', n.raw))]
                if not any(p == f and a <= l <= b for p, l in at for f, a, b in ok):
                    return 'alarm', 'error reported at a correct statement: %r' % n.raw
        return None

    def reduce(self, c):
        st = c['st']
        if c['cuts']:
            yield dict(c, cuts=[], rt=[])
        if c['chunks']:
            yield dict(c, chunks=[])
        if c['cuts']:
            return
        groups = sorted(set(x['g'] for x in st if 'g' in x))
        for g in groups:
            yield dict(c, st=[x for x in st if x.get('g') != g])
        for j in range(len(st) - 1, -1, -1):
            x = st[j]
            if 'g' not in x and x.get('kind') != 'end' and ('bad' in x or x['kind'] in ('show', 'str', 'block', 'if', 'held')):
                yield dict(c, st=st[:j] + st[j + 1:])
        n = len(st)
        for k in (n // 2, n - 2):
            if 0 < k < n - 1:
                yield dict(c, st=st[:k] + st[-1:])

    def nontrivial(self, c, obs):
        return any('bad' in x for x in c['st'])

    def describe(self, c):
        return dict(c, st=[x.get('t') or x['bad'] for x in c['st'][:8]])


CHECK = P04()
