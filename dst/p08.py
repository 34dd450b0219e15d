"""P08: a download either delivers the complete response or reports failure."""
from . import check as C
from .prog import PRELUDE
from .sim import Plan

SOURCE = '''import "Srl/Net";
import "Srl/Fs";
import "Srl/Memory";
use Srl;
''' + PRELUDE + '''
func doMem(u: ptr[array[Char]]) {
    def b: ptr;
    def n: Int;
    n = 77;
    b = b~ptr~cast[ptr];
    if Net.get(u, b~ptr, n~ptr) {
        Sim.log(1, 1);
        Sim.log(2, n);
        Sim.logb(3, b~cast[ptr[array[Char]]], n + 1);
        Memory.free(b);
    } else {
        Sim.log(1, 0);
        if b != 0 Sim.log(4, 1);
    }
}
func doFile(u: ptr[array[Char]], f: ptr[array[Char]]) {
    if Net.get(u, f) Sim.log(1, 1) else Sim.log(1, 0);
}
func loop() {
    def op: Int;
    def k: Int(0);
    def a: Int;
    def b: Int;
    while 1 {
        op = Sim.next();
        if op < 1 break;
        a = Sim.next();
        b = Sim.next();
        Sim.mark(k);
        if op == 1 doMem(Sim.str(a))
        else if op == 2 doFile(Sim.str(a), Sim.str(b));
        Sim.log(10, Sim.curls());
        Sim.log(11, Sim.handles());
        ++k;
        Sim.mark(1000000);
        Sim.dumpFs();
    }
}
func main() {
    if Sim.serve() == 0 return;
    Sim.track(1);
    if Sim.next() == 1 Memory.overrideAllocator(Sim.alloc2~ptr, Sim.realloc2~ptr, Sim.allocAligned2~ptr, Sim.free2~ptr);
    loop();
    Sim.track(0);
    Sim.checkHeap();
    Sim.done();
}
main();
'''
NAMES = ['getToMemory', 'getToFile']
FILES = ['/sim/w/out', '/sim/w/old', '/sim/w/dir', '/sim/w/none/out', 'out2']


def body(rng):
    k = rng.randrange(9)
    n = [0, 1, 2, rng.randrange(3, 64), 4095, 4096, 4097, rng.randrange(64, 40000), 16384][k]
    return rng.randbytes(n)


class P08(C.Check):
    id = 'P08'
    level = 'fault_enumeration'
    quick = 25000
    technique = 'deterministic simulation: a simulated network and disk deliver, cut, stall and fail downloads at seeded points; every result is compared with the served body'
    note = 'Seeded search. libcurl is replaced by a stub that honours its contract (callback or FILE delivery in pieces, result codes); the real TLS/HTTP stack is not run.'
    rule = ('a case is 1-6 downloads (to memory or file) of seeded bodies (0-40000 bytes) in seeded pieces with 0-2 faults on connection set-up, '
            'transfer (at a byte), opening, writing, closing the file; distinct by complete event history')
    real = 'compiler, JIT, Srl.Net, Srl.Fs, Srl.Memory, glibc stdio'
    stub = 'libcurl (stub with the documented contract), disk, allocator'
    measure = 'complete event histories'
    assumptions = ['libcurl reports success only after delivering the complete body', 'bodies stay below 2 GiB (ResponseContent.size is a 32 bit Int)']

    def fixed(self):
        r = []
        for op in (1, 2):
            for f in [None, ['curlinit', 1, 'x', 0], ['net', 1, 'refused', 0], ['net', 1, 'timeout', 0], ['net', 1, 'drop', 0], ['net', 1, 'drop', 3],
                      ['net', 1, 'partial', 5], ['net', 1, 'stall', 2], ['open', 1, 'EMFILE', 0], ['write', 1, 'ENOSPC', 1], ['write', 1, 'torn', 2],
                      ['close', 1, 'EIO', 0], ['write', 1, 'short', 3]]:
                for heap in (1, 3):
                    for n, chunk in ((0, 0), (10, 1), (10, 4), (9000, 0)):
                        for al in (0, 1):
                            r.append({'bodies': [('ab\0cdefghi' * 900)[:n]], 'chunk': chunk, 'ops': [[op, 0, '/sim/w/out']], 'faults': [f] if f else [],
                                      'heap': [heap, 5], 'alloc': al})
        return r

    def gen(self, rng, i):
        bodies = [body(rng).decode('latin-1') for _ in range(rng.randrange(1, 4))]
        ops = [[rng.choice([1, 2]), rng.randrange(-1, len(bodies)), rng.choice(FILES)] for _ in range(rng.randrange(1, 7))]
        faults = []
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            cls = rng.choice(['curlinit', 'net', 'net', 'net', 'open', 'write', 'write', 'close'])
            nth = rng.randrange(1, 5) if cls != 'write' else rng.randrange(1, 12)
            act, arg = 'EIO', 0
            if cls == 'net':
                act = rng.choice(['refused', 'timeout', 'drop', 'partial', 'stall'])
                arg = rng.choice([0, 1, rng.randrange(64), rng.randrange(40000)])
            elif cls == 'write':
                act = rng.choice(['EIO', 'ENOSPC', 'short', 'torn'])
                arg = rng.randrange(1, 5000) if act in ('short', 'torn') else rng.randrange(2)
            elif cls == 'open':
                act = rng.choice(['EIO', 'EMFILE', 'EACCES'])
            faults.append([cls, nth, act, arg])
        return {'bodies': bodies, 'chunk': rng.choice([0, 0, 1, 2, 7, 100, 5000]) if max(map(len, bodies)) < 500 else rng.choice([0, 500, 5000]),
                'ops': ops, 'faults': faults, 'heap': [rng.randrange(1, 5), rng.randrange(1 << 30)], 'alloc': rng.randrange(2)}

    def url(self, k):
        return 'http://host/f%d' % k if k >= 0 else 'http://nowhere/'

    def run(self, ctx, case):
        p = Plan().dir('/sim/w').dir('/sim/w/dir').file('/sim/w/old', 'an older, longer file ' * 30).add('heap', '%d %d 0' % tuple(case['heap']))
        for k, b in enumerate(case['bodies']):
            p.net(self.url(k), b.encode('latin-1'), case['chunk'])
        p.faults(case['faults'])
        ops = [case['alloc']]
        n = 0
        for op, u, f in case['ops']:
            p.str(self.url(u)).str(f)
            ops += [op, n, n + 1]
            n += 2
        return ctx.serve('p08', SOURCE, p.ops(ops))

    def judge(self, case, r):
        segs, fs, mode, i = [], {}, None, 0
        L = r.lines
        for i, l in enumerate(L):
            if l == 'MARK 1000000':
                mode = 'fs'
            elif l.startswith('MARK '):
                segs.append({'v': {}, 's': {}, 'f': [], 'fs': {}})
                mode = 'op'
            elif mode == 'fs' and l.startswith('FS '):
                w = l.split(' ', 4)
                segs[-1]['fs'][w[4]] = (int(w[1]), bytes.fromhex(L[i + 1][3:]))
            elif mode == 'op':
                if l.startswith('L '):
                    segs[-1]['v'][int(l.split(' ')[1])] = int(l.split(' ')[2])
                elif l.startswith('S '):
                    w = l.split(' ')
                    segs[-1]['s'][int(w[1])] = bytes.fromhex(w[2]) if len(w) > 2 and w[2] != 'NULL' else None
                elif l.startswith('F '):
                    segs[-1]['f'].append(l)
        if r.status or L[-1:] != ['DONE']:
            nm = NAMES[case['ops'][len(segs) - 1][0] - 1] if segs else 'start'
            return ('hang-' if r.hung else 'crash-') + nm, '%s; last events %s' % (r.how(), L[-4:])
        before = {'/sim/w': (2, b''), '/sim/w/dir': (2, b''), '/sim/w/old': (1, b'an older, longer file ' * 30)}
        for k, ((op, u, f), sg) in enumerate(zip(case['ops'], segs)):
            nm = NAMES[op - 1]
            ok, want = sg['v'].get(1), case['bodies'][u].encode('latin-1') if u >= 0 else None
            path = f if f[0] == '/' else '/sim/w/' + f
            msg = None
            if ok is None:
                msg = 'no-result', 'no result'
            elif ok:
                if want is None:
                    msg = 'false-success', 'success without a server'
                elif op == 1 and (sg['v'].get(2) != len(want) or sg['s'].get(3) != want + b'\0'):
                    msg = 'wrong-content', 'success with %s bytes, the response has %d' % (sg['v'].get(2), len(want))
                elif op == 2 and sg['fs'].get(path) != (1, want):
                    msg = 'false-success', 'success but the file holds %s of %d bytes' % (len(sg['fs'].get(path, (0, b''))[1]), len(want))
            else:
                able = want is not None and (op == 1 or path in ('/sim/w/out', '/sim/w/old', '/sim/w/out2'))
                if able and not sg['f']:
                    msg = 'false-failure', 'failure although nothing failed'
                if op == 1 and 4 in sg['v']:
                    msg = 'dangling-result', 'failure with a result pointer'
            if sg['v'].get(10):
                msg = 'connection-leak', 'connection handle not released'
            if sg['v'].get(11):
                msg = 'file-handle-leak', 'file left open'
            for p in set(before) | set(sg['fs']):
                if p != path and before.get(p) != sg['fs'].get(p):
                    msg = 'other-file', 'changed %s' % p
            if msg:
                return msg[0] + '-' + nm, 'operation %d %s(%s): %s; faults fired %s' % (k, nm, f, msg[1], sg['f'])
            before = sg['fs']
        for l in L:
            if l.startswith('HEAPBAD'):
                return 'heap-misuse', l
            if l.startswith('NBAD'):
                return 'connection-misuse', 'a released or foreign connection handle was used: ' + l
            if l.startswith('HEAP live=') and not l.startswith('HEAP live=0 '):
                return 'memory-leak', l
        return None

    def simtime(self, case, r):
        return sum(300.0 for l in r.lines if l == 'NR 28') + sum(0.001 for l in r.lines if l.startswith('W '))

    def reduce(self, case):
        yield from C.ddfield(case, 'faults')
        yield from C.ddfield(case, 'ops')
        for k, b in enumerate(case['bodies']):
            if len(b) > 1:
                yield dict(case, bodies=case['bodies'][:k] + [b[:len(b) // 2]] + case['bodies'][k + 1:])
        if case['chunk']:
            yield dict(case, chunk=0)

    def describe(self, case):
        return {'bodies': [len(b) for b in case['bodies']], 'chunk': case['chunk'], 'ops': case['ops'], 'faults': case['faults']}


CHECK = P08()
