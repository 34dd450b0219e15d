"""P09: console input functions are total: bounded, terminated and in sync."""
import re, struct
from . import check as C
from .prog import PRELUDE
from .sim import Plan

SOURCE = '''import "Srl/Console";
import "Srl/Memory";
use Srl;
''' + PRELUDE + '''
func doString(count: Int) {
    def n: Int = count;
    if n < 1 n = 1;
    def b: ptr[array[Char]] = Memory.alloc(n)~cast[ptr[array[Char]]];
    Memory.set(b, 0xEE, n);
    Console.getString(b, count);
    Sim.logb(3, b, n);
    Memory.free(b);
}
func doWord() {
    def b: array[Char, 16];
    Memory.set(b~ptr, 0, 16);
    def r: Int = Console.scan("%9s", b~ptr);
    Sim.log(2, r);
    Sim.logs(3, b~ptr);
}
func loop() {
    def op: Int;
    def k: Int(0);
    def a: Int;
    while 1 {
        op = Sim.next();
        if op < 1 break;
        a = Sim.next();
        Sim.mark(k);
        if op == 1 Sim.log(1, Console.getChar())
        else if op == 2 doString(a)
        else if op == 3 Sim.log(1, Console.getInt())
        else if op == 4 Sim.logf(1, Console.getFloat())
        else if op == 5 doWord();
        ++k;
        Sim.mark(1000000);
    }
}
func main() {
    if Sim.serve() == 0 return;
    Sim.track(1);
    loop();
    Sim.track(0);
    Sim.stdinRest();
    Sim.checkHeap();
    Sim.done();
}
main();
'''
NAMES = ['getChar', 'getString', 'getInt', 'getFloat', 'scanWord']
WS = b' \t\n\v\f\r'


class Eof(Exception):
    pass


class Model:
    """The documented behaviour over a byte sequence; `end` is where reads begin to fail for good."""

    def __init__(self, data):
        self.d, self.p = data, 0

    def peek(self):
        return self.d[self.p] if self.p < len(self.d) else -1

    def get(self):
        c = self.peek()
        if c >= 0:
            self.p += 1
        return c

    def string(self, count):
        out = b''
        while True:
            c = self.get()
            if c < 0 or c == 10:
                break
            if len(out) < count - 1:
                out += bytes([c])
        return out

    def skip(self):
        while self.peek() >= 0 and self.peek() in WS:
            self.p += 1

    def int(self):
        self.skip()
        s = b''
        if self.peek() in (43, 45):
            s += bytes([self.get()])
        digits = b''
        while self.peek() >= 0 and chr(self.peek()).isdigit() and self.peek() < 58:
            digits += bytes([self.get()])
        if not digits:
            return 0
        v = int(s + digits)
        if v > 2**63 - 1:
            v = 2**63 - 1
        if v < -2**63:
            v = -2**63
        return (v + 2**31) % 2**32 - 2**31

    def float(self):
        """Only for inputs made of [sign] digits [. digits] followed by something that cannot continue the number."""
        self.skip()
        s = b''
        if self.peek() in (43, 45):
            s += bytes([self.get()])
        n = 0
        while 48 <= self.peek() <= 57:
            s += bytes([self.get()])
            n += 1
        if self.peek() == 46:
            s += bytes([self.get()])
            while 48 <= self.peek() <= 57:
                s += bytes([self.get()])
                n += 1
        if not n:
            return 0.0
        return struct.unpack('f', struct.pack('f', float(s)))[0]

    def word(self):
        self.skip()
        if self.peek() < 0:
            return -1, b''
        s = b''
        while self.peek() >= 0 and self.peek() not in WS and len(s) < 9:
            s += bytes([self.get()])
        return 1, s


def line(rng):
    k = rng.randrange(8)
    if k == 0:
        return b'\n'
    if k == 1:
        return b'%d\n' % rng.choice([0, 7, -1, 42, 2**31 - 1, -2**31, rng.randrange(-10**6, 10**6)])
    if k == 2:
        return b'  \t%d %d\n' % (rng.randrange(1000), rng.randrange(1000))
    if k == 3:
        return b'%.3f\n' % rng.uniform(-1000, 1000)
    if k == 4:
        return bytes(rng.choice(b'abc xyz\t0-+.') for _ in range(rng.randrange(1, 30))) + b'\n'
    if k == 5:
        return bytes(rng.choice([0, 1, 127, 128, 200, 255, 65, 216, 167]) for _ in range(rng.randrange(1, 20))) + b'\n'
    if k == 6:
        return b'w' * rng.choice([1, 5, 9, 10, 100, 1023, 1024, 1025, 5000]) + b'\n'
    return rng.choice([b'-\n', b'+x\n', b'- 5\n', b'\r\n', b'12abc\n', b'\xc3\xa9t\xc3\xa9\n', b'99999999999999999999\n'])


class P09(C.Check):
    id = 'P09'
    level = 'fault_enumeration'
    quick = 60000
    technique = 'deterministic simulation: seeded input streams delivered in seeded pieces, ended or failing at any byte; every call is compared with a reference reader'
    note = 'Seeded search over histories of input calls; the C library behind getchar/scanf is the installed glibc and runs for real over a simulated descriptor.'
    rule = ('a case is 0-8 input lines, 1-10 calls of getChar/getString/getInt/getFloat/scan, delivery in seeded pieces, and an end of input or read '
            'error (transient or lasting) at a seeded read; distinct by complete event history')
    real = 'compiler, JIT, Srl.Console, glibc stdio'
    stub = 'console input device, allocator (guarded buffers of exactly the given size)'
    measure = 'complete event histories'

    def fixed(self):
        r = []
        for op in range(1, 6):
            for data in ('', 'abc', '5', '-', '7\n', 'hello\n', '  ', '3.5', '\n', '12 34\n'):
                for cnt in (0, 1, 2, 3, 6, 50):
                    if op != 2 and cnt != 50:
                        continue
                    for f in (None, ['stdin', 1, 'EIO', 0], ['stdin', 1, 'EIO', 1], ['stdin', 2, 'EIO', 1], ['stdin', 2, 'EIO', 0]):
                        for ch in (0, 1):
                            r.append({'data': data, 'ops': [[op, cnt], [1, 0]], 'faults': [f] if f else [], 'chunks': [ch] if ch else [], 'heap': [1, 1]})
        return r

    def gen(self, rng, i):
        data = b''.join(line(rng) for _ in range(rng.randrange(0, 9)))
        if rng.random() < 0.5 and data:
            data = data[:rng.randrange(len(data) + 1)]
        ops = [[rng.choice([1, 2, 2, 2, 3, 3, 4, 5]), rng.choice([0, 1, 2, 3, 5, 10, 11, 64, 1024, rng.randrange(1, 40)])] for _ in range(rng.randrange(1, 11))]
        faults = []
        if rng.random() < 0.5:
            faults.append(['stdin', rng.choice([1, 2, rng.randrange(1, 40)]), rng.choice(['EIO', 'EIO', 'eof', 'EINTR', 'EAGAIN']), rng.randrange(2)])
        return {'data': data.decode('latin-1'), 'ops': ops, 'faults': faults,
                'chunks': rng.choice([[], [1], [1, 2, 3], [rng.randrange(1, 9) for _ in range(5)], [4096]]), 'heap': [rng.choice([1, 1, 2, 4]), rng.randrange(1 << 30)]}

    def run(self, ctx, case):
        p = Plan().dir('/sim/w').add('heap', '%d %d 0' % tuple(case['heap'])).add('budget', 40000)
        p.stdin(case['data'].encode('latin-1'), case['chunks'])
        p.faults(case['faults'])
        ops = []
        for o, a in case['ops']:
            ops += [o, a]
        return ctx.serve('p09', SOURCE, p.ops(ops))

    def judge(self, case, r):
        segs, mode = [], None
        for l in r.lines:
            if l == 'MARK 1000000':
                mode = None
            elif l.startswith('MARK '):
                segs.append({'v': {}, 's': {}, 'in': [], 'f': []})
                mode = 1
            elif mode:
                if l.startswith('L '):
                    segs[-1]['v'][int(l.split(' ')[1])] = int(l.split(' ')[2])
                elif l.startswith('S '):
                    w = l.split(' ')
                    segs[-1]['s'][int(w[1])] = bytes.fromhex(w[2]) if len(w) > 2 else b''
                elif l.startswith('IN '):
                    segs[-1]['in'].append(l[3:])
                elif l.startswith('F '):
                    segs[-1]['f'].append(l)
        if r.status or r.lines[-1:] != ['DONE']:
            nm = NAMES[case['ops'][len(segs) - 1][0] - 1] if segs else 'start'
            return ('hang-' if r.hung else 'crash-') + nm, '%s; last events %s' % (r.how(), r.lines[-4:])
        for l in r.lines:
            if l.startswith('HEAPBAD'):
                return 'buffer-overrun', 'wrote outside the given buffer: ' + l
        data = case['data'].encode('latin-1')
        m = Model(data)
        # a read error ends the call in which it happens where it happens: what was delivered by then is known from the log
        delivered = 0
        stopped = False
        for k, ((op, a), sg) in enumerate(zip(case['ops'], segs)):
            errs = [x for x in sg['in'] if x in ('err', 'eof')]
            got = 0
            limit = None
            cut = len(data)
            for x in sg['in']:
                if x in ('err', 'eof'):
                    cut = delivered
                    if x == 'err':
                        continue
                    break
                delivered += int(x)
            view = Model(data[:cut] if errs else data)
            view.p = m.p
            nm = NAMES[op - 1]
            if op == 1:
                want = view.get()
                if want >= 128 and sg['v'].get(1) == want:
                    pass
                if sg['v'].get(1) != want:
                    return 'wrong-' + nm, 'call %d returned %s, the stream has %s' % (k, sg['v'].get(1), want)
            elif op == 2:
                want = view.string(a)
                b = sg['s'].get(3)
                if a <= 0:
                    if b != b'\xee':
                        return 'overrun-' + nm, 'call %d stored into a buffer of size 0' % k
                elif b is None or b[:len(want) + 1] != want + b'\0' or b[len(want) + 1:].strip(b'\xee'):
                    return 'wrong-' + nm, 'call %d(count %d) stored %r, expected %r' % (k, a, (b or b'')[:60], want[:60] + b'\0')
            elif op == 3:
                want = view.int()
                if sg['v'].get(1) != want:
                    return 'wrong-' + nm, 'call %d returned %s, expected %s' % (k, sg['v'].get(1), want)
            elif op == 4:
                if self.ambiguous(data, view.p):
                    return None
                want = struct.unpack('<q', struct.pack('<d', view.float()))[0]
                if (sg['v'].get(1) or 0) % 2**64 != want % 2**64:
                    return 'wrong-' + nm, 'call %d returned %s, expected %s' % (k, sg['v'].get(1), want)
            elif op == 5:
                want = view.word()
                if want[0] < 0:
                    if sg['v'].get(2) != -1:
                        return 'wrong-' + nm, 'call %d returned %s at the end' % (k, sg['v'].get(2))
                else:
                    s = want[1].split(b'\0')[0]
                    if sg['v'].get(2) != 1 or sg['s'].get(3) != s:
                        return 'wrong-' + nm, 'call %d read %r, expected %r' % (k, sg['s'].get(3), s)
            m.p = view.p
            if 'eof' in sg['in'] and any(' eof ' in x for x in sg['f']):
                data = data[:delivered]
        rest = [l for l in r.lines if l.startswith('REST')]
        if not any(x.startswith('F stdin') for x in r.lines):
            got = bytes.fromhex(rest[0][5:]) if rest else b''
            if got != data[m.p:][:4096]:
                return 'out-of-sync', 'the next reader gets %r..., expected %r...' % (got[:40], data[m.p:][:40])
        return None

    def ambiguous(self, data, p):
        """True when the text ahead could continue a number in a way the model leaves to the C library (exponents, hex, inf, nan)."""
        s = data[p:].lstrip(WS)[:80]
        mt = re.match(rb'[+-]?[0-9]*\.?[0-9]*', s)
        nxt = s[mt.end():mt.end() + 1]
        return nxt in (b'e', b'E', b'x', b'X', b'i', b'I', b'n', b'N', b'p', b'P') or len(mt.group()) > 30 or (b'0' == mt.group()[-1:] and nxt in b'xX' and nxt)

    def reduce(self, case):
        yield from C.ddfield(case, 'faults')
        yield from C.ddfield(case, 'ops')
        if case['chunks']:
            yield dict(case, chunks=[])
        for d in C.ddlist(case['data']):
            yield dict(case, data=d)

    def describe(self, case):
        return {'data': case['data'][:120], 'ops': [[NAMES[o - 1], a] for o, a in case['ops']], 'faults': case['faults'], 'chunks': case['chunks']}


CHECK = P09()
