"""P03: a program text that ends at any byte is processed to a clean end, with a prefix of the effects."""
from . import modeb as M, script as SC


def scan(t):
    """What is still open at the end of the text: list of brackets, '"' in a string, '*' in a block comment, '/' in a line comment."""
    st, i, n = [], 0, len(t)
    mode = ''
    while i < n:
        ch = t[i]
        if mode == '"':
            if ch == '\\':
                i += 1
            elif ch == '"':
                mode = ''
        elif mode == '*':
            if t.startswith('*/', i):
                mode = ''
                i += 1
        elif mode == '/':
            if ch == '\n':
                mode = ''
        elif ch == '"':
            mode = '"'
        elif t.startswith('//', i):
            mode = '/'
        elif t.startswith('/*', i):
            mode = '*'
            i += 1
        elif ch in '([{':
            st.append(ch)
        elif ch in ')]}':
            if st:
                st.pop()
        i += 1
    return st, mode


# one of every kind of statement, for cuts in the middle of each construct
SNIPPETS = [x.strip() for x in """
module Mx { def a: Int; func f(x: Int): Int { return x; } }
@merge module Mx2 { def b: Int }
class Cx { def v: Int; handler this~init() { this.v = 3; } handler this~init(x: Int) this.v = x; handler this~terminate() { } }
class Cy [T: type, n: integer] { def v: T; handler this + T: T { return this.v + value; } }
class Cz { @injection def m: Int; handler this.x: Int { return 5; } handler this.x = Int { this.m = value; return value; } }
class Cw { handler this(i: Int): ref[Int] { def q: ptr[Int]; return q~cnt; } handler this~cast[Int] return 3; handler (this == Int): Bool { return true; } }
class Cq { handler this.f(a: Int): Int as_ptr; handler this.g(a: Int): Int set_ptr { return a; } }
func fx(a: Int, b: ptr[Word[8]], args: ...any): Int { def i: Int; for i = 0, i < 3, ++i { if i == 2 break; continue; } while false { } return a; }
func fy [T: type] (a: T): T { return a~no_deref; }
def fz: @expname[strlen] function (ptr[Word[8]]) => Int[64];
def fw: function (a: Int, b: Float = 2.5) => Int { return a + b~cast[Int]; };
macro mx [a, b] a * b + mx2[a];
macro my { def z: Int; z = 5; };
def arr: array[Int, 5]; arr(1) = 3; arr(2) += arr(1) * 2;
def al: alias Mx.f; def cst: 5; def st: "text with \\"quotes\\" \\\\ and \\u0041";
use Mx;
import "nosuch1" || "nosuch2" or "nosuch3";
if 1 == 2 { def k: Int; } else if 3 == 4 { } else { printf("else\\n") };
while 1 == 2 { continue; };
def lit: 'c'; def num: 0x1F + 017 + 0b101 + 3.25 + 1e5 + 12f;
preprocess { printf("pp\\n"); };
def pt: ptr[Int]; pt = 0; pt~cast[ptr[Float]]; 5~size; Int~size;
{ def u: Int; u.{ this += 1 }; u.[x]{ x = 3 }; };
def cl: closure (a: Int) => Int; dump_ast Mx; ast { 5 + 3 }; func t(): Void { return; };
1 + 2 * (3 - 4) / -5 << 2 & 7 | 8 ^ 9 && true || !false;
def l: list { 1; 2 }; (1, 2, 3); @shared def s: Int; @expname[abc] func abc (); Root.Mx;
""".strip().split('\n')]


class P03(M.ModeB):
    id = 'P03'
    level = 'exploration'
    rule = ('a case is one seeded program or one of the test programs of the repository that only parse or build, the byte at which its text ends, the way the text is '
            'delivered (file, import, interactive session) and the read sizes')
    quick = 2600
    technique = 'deterministic simulation: input cut off at a seeded byte (file, imported file, standard input); the effects are compared with a reference interpreter of the complete statements'
    note = 'Seeded search over programs and cut positions; every cut of a generated program is judged statement by statement.'
    real = 'lexer, parser, all parsing handlers, code generation, JIT, notices'
    stub = 'files under /sim, standard input and its end, read sizes'
    measure = 'distinct (program, cut, history) hashes'
    assumptions = ['what the one shortened statement prints when it stays a complete statement is not restricted beyond its number of lines',
                   'for the repository test programs only termination without a crash is judged, and only for those that do not run code']

    def gen(self, rng, i):
        w = rng.random()
        ch = rng.choice([[], [], [1], [rng.randrange(2, 60)]])
        if w < 0.3:
            return {'k': 'corpus', 'n': rng.randrange(10 ** 6), 'at': rng.random(), 'chunks': ch, 'inter': rng.random() < 0.3}
        if w < 0.55:
            s = rng.choice(SNIPPETS)
            n = len(s.encode())
            cut = rng.randrange(n + 1)
            return {'k': 'snip', 's': s, 'cut': cut, 'chunks': ch, 'inter': rng.random() < 0.3}
        st, s = SC.generate(rng, rng.choice([2, 5, 10, 25]), sink=8, unicode_=rng.random() < 0.85)
        for x in st:
            if rng.random() < 0.3:
                x['c'] = s.comment()
        c = {'k': rng.choice(['file', 'file', 'file', 'import', 'inter', 'inter']), 'st': st, 'chunks': ch}
        t, ends = SC.text(st)
        lo = t.index(st[0]['t'].encode()) - 3
        c['cut'] = rng.randrange(max(0, lo), len(t))
        if rng.random() < 0.3:
            # close to an end of a statement
            c['cut'] = max(0, rng.choice(ends) - rng.randrange(0, 4))
        elif rng.random() < 0.1:
            c['cut'] = rng.randrange(len(t))
        return c

    def run(self, ctx, c):
        if c['k'] == 'corpus':
            cs = M.corpus('Spp/Parsing', 'Core', 'Spp/Building')
            name, t = cs[c['n'] % len(cs)]
            t = t[:int(len(t) * c['at'])]
            env = M.corpus_env()
            if c['inter']:
                p = M.plan().root('/tmp').stdin(t, c['chunks'] or None)
                return [self.exe(ctx, p, ['-i'], env=env)]
            return [self.exe(ctx, M.plan({M.MAIN: t}).root('/tmp').chunks(c['chunks']), env=env)]
        if c['k'] == 'snip':
            t = SC.HEADER.encode() + b'printf("first\\n");\n' + c['s'].encode()[:c['cut']]
            if c['inter']:
                return [self.exe(ctx, M.plan().stdin(t, c['chunks'] or None), ['-i'])]
            return [self.exe(ctx, M.plan({M.MAIN: t}).chunks(c['chunks']))]
        t = SC.text(c['st'])[0][:c['cut']]
        if c['k'] == 'inter':
            return [self.exe(ctx, M.plan().stdin(t, c['chunks'] or None), ['-i'])]
        if c['k'] == 'import':
            f = {M.MAIN: b'import "part";\nprintf("after\\n");\n', '/sim/w/part.alusus': t}
            return [self.exe(ctx, M.plan(f).chunks(c['chunks']))]
        return [self.exe(ctx, M.plan({M.MAIN: t}).chunks(c['chunks']))]

    def judge(self, c, obs):
        r = obs[0]
        if r.hung:
            return 'hang', r.how()
        if r.crashed:
            return 'crash', r.how() + ' ' + r.err[-300:].decode('utf-8', 'replace')
        if r.status not in (0, 1):
            return 'status', r.how()
        if b'\nLocation:\n' in r.out:
            return 'exception', 'ended by an internal exception: %r' % r.out[-400:].decode('utf-8', 'replace')
        if c['k'] == 'corpus':
            return None
        if c['k'] == 'snip':
            raw = M.strip_prompts(r.out) if c['inter'] else r.out.decode('utf-8', 'replace')
            got, ns = M.notices(raw.encode())
            if not got.startswith('first\n'):
                return 'lost', 'the complete statement before the cut one did not run: %r' % got[:200]
            part = c['s'].encode()[:c['cut']].decode('utf-8', 'replace')
            st, mode = scan(part)
            if (st or mode == '"') and not ns:
                return 'silent', 'an incomplete statement is not diagnosed: %r' % part[-200:]
            return None
        full, ends = SC.text(c['st'])
        cut = c['cut']
        raw = M.strip_prompts(r.out) if c['k'] == 'inter' else r.out.decode('utf-8', 'replace')
        got, ns = M.notices(raw.encode())
        done = [x for x, e in zip(c['st'], ends) if e <= cut]
        want = ''.join(l + '\n' for x in done for l in x['out'])
        if not got.startswith(want):
            return 'lost', 'complete statements printed %s' % M.differs(got, want)
        rest = got[len(want):]
        lines = rest.split('\n')
        if c['k'] == 'import' and rest.endswith('after\n'):
            lines = rest[:-6].split('\n')
        nxt = c['st'][len(done)] if len(done) < len(c['st']) else None
        limit = (len(nxt['out']) if nxt else 0) + 4
        if len([l for l in lines if l]) > limit:
            return 'extra', 'after the complete statements: %r' % rest[:300]
        for x in c['st'][len(done) + 1:]:
            for l in x['out']:
                if len(l) > 7 and l in lines and l not in (nxt['out'] if nxt else []) and c['k'] != 'import':
                    return 'extra', 'output %r of a statement that was never delivered' % l
        # is the cut statement incomplete without doubt?
        start = ends[len(done) - 1] if done else 0
        part = full[start:cut].decode('utf-8', 'replace')
        st, mode = scan(part)
        if (st or mode == '"') and not ns:
            return 'silent', 'an incomplete statement is not diagnosed: %r' % part[-200:]
        return None

    def reduce(self, c):
        if c['k'] in ('corpus', 'snip'):
            if c['chunks']:
                yield dict(c, chunks=[])
            if c['inter']:
                yield dict(c, inter=False)
            return
        st = c['st']
        full, ends = SC.text(st)
        d = sum(1 for e in ends if e <= c['cut'])
        if d + 1 < len(st):
            yield dict(c, st=st[:d + 1])
        if c['chunks']:
            yield dict(c, chunks=[])
        if c['k'] != 'file':
            yield dict(c, k='file')
        if any(x.get('c') for x in st) and False:
            yield c

    def describe(self, c):
        return dict(c, st=[x['t'] for x in c['st'][:6]]) if 'st' in c else c


CHECK = P03()
