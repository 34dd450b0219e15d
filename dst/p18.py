"""P18: time and system functions reflect the system they run on."""
import os, time
from . import check as C
from .prog import PRELUDE
from .sim import Plan

SOURCE = '''import "Srl/Time";
import "Srl/System";
import "Srl/Fs";
import "Srl/Memory";
use Srl;
''' + PRELUDE + '''
func logTime(t: ptr[Time.DetailedTime]) {
    Sim.log(20, t~cnt.second);
    Sim.log(21, t~cnt.minute);
    Sim.log(22, t~cnt.hour);
    Sim.log(23, t~cnt.day);
    Sim.log(24, t~cnt.month);
    Sim.log(25, t~cnt.year);
    Sim.log(26, t~cnt.weekDay);
    Sim.log(27, t~cnt.yearDay);
    Sim.log(28, t~cnt.daylightSaving);
    Sim.log(29, t~cnt.timezoneOffset);
    Sim.logs(30, t~cnt.timezone);
}
func doProc(cmd: ptr[array[Char]]) {
    def f: ptr[Fs.File] = Fs.openProcess(cmd, "r");
    if f == 0 { Sim.log(1, -1); return; }
    def b: array[Char, 64];
    while Fs.readLine(b~ptr, 64, f) != 0 Sim.logs(3, b~ptr);
    Sim.log(1, Fs.closeProcess(f));
}
func loop() {
    def op: Int;
    def k: Int(0);
    def a: Int;
    def b: Int;
    def l: ArchInt;
    def d: Time.DetailedTime;
    while 1 {
        op = Sim.next();
        if op < 1 break;
        Sim.mark(k);
        if op == 1 {
            l = 5;
            Sim.log(1, Time.getTimestamp(l~ptr));
            Sim.log(2, l);
        } else if op == 2 Sim.log(1, Time.getClock())
        else if op == 3 { l = Sim.nextl(); logTime(Time.getDetailedTime(l~ptr)); }
        else if op == 4 {
            l = Sim.nextl();
            Memory.set(d~ptr, 0xEE, Time.DetailedTime~size);
            Time.getDetailedTime(l~ptr, d~ptr);
            logTime(d~ptr);
        } else if op == 5 { l = Sim.nextl(); Sim.logs(3, Time.toString(l~ptr)); }
        else if op == 6 {
            a = Sim.next();
            Sim.log(40, Sim.clock());
            System.sleep(a);
            Sim.log(41, Sim.clock());
        } else if op == 7 {
            a = Sim.next(); b = Sim.next();
            Sim.log(1, System.setEnv(Sim.str(a), Sim.str(b), Sim.next()));
        } else if op == 8 Sim.logs(3, System.getEnv(Sim.str(Sim.next())))
        else if op == 9 Sim.log(1, System.exec(Sim.str(Sim.next())))
        else if op == 10 doProc(Sim.str(Sim.next()))
        else if op == 11 { System.exit(Sim.next()); Sim.log(99, 1); }
        else if op == 12 { System.fail(Sim.next(), "reason"); Sim.log(99, 1); }
        else if op == 13 {
            a = Sim.next();
            Sim.log(40, Sim.clock());
            l = Time.getTimestamp(0);
            Sim.log(1, l);
        };
        ++k;
        Sim.mark(1000000);
    }
}
func main() {
    if Sim.serve() == 0 return;
    Sim.track(1);
    loop();
    Sim.track(0);
    Sim.log(92, Sim.procs());
    Sim.checkHeap();
    Sim.done();
}
main();
'''
NAMES = ['getTimestamp', 'getClock', 'getDetailedTime', 'getDetailedTime_r', 'toString', 'sleep', 'setEnv', 'getEnv', 'exec', 'openProcess', 'exit', 'fail', 'timestampOnly']
ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'CET-1CEST,M3.5.0,M10.5.0/3', '<-0330>3:30', 'XXX24', 'AAA-24']
VARS = ['SIMV_A', 'SIMV_B', 'HOME', 'SIMV_LONG']
VALS = ['', 'x', 'a value', 'v' * 300, '\u0645\u0631\u062d\u0628\u0627', 'a=b']
CMDS = [('true', 0, ''), ('false', 1, ''), ('exit 3', 3, ''), ('exit 200', 200, ''), ('echo hello world', 0, 'hello world\n'),
        ('prog --one', 0, 'line 1\nline 2\n'), ('prog --fail', 7, 'partial\n'), ('prog --nonl', 0, 'no newline at the end'), ('nosuchprog', 127, ''),
        ('prog --long', 0, 'y' * 200 + '\n' + 'z' * 63 + '\n')]
BASE_ENV = {'HOME': '/sim/home'}


class P18(C.Check):
    id = 'P18'
    quick = 60000
    technique = 'deterministic simulation: a simulated clock, environment and process table with jumps and failing starts; results compared with a reference model'
    note = 'Seeded search. Broken-down time is compared with the C library evaluated by another process in the same zone; clocks, sleeping and processes are simulated.'
    rule = ('a case is a seeded clock, time zone, clock jumps, failing process starts and 1-12 calls of the time and system functions; distinct by '
            'complete event history')
    real = 'compiler, JIT, Srl.Time, Srl.System, Srl.Fs process functions, glibc time zone code and stdio'
    stub = 'clock and sleeping, processes, allocator'
    measure = 'complete event histories'

    def fixed(self):
        r = []
        for op in range(1, 14):
            for z in ZONES[:3]:
                r.append({'ops': [self.op(op, t) for t in (0,)], 'clock': [1700000000, 1000], 'zone': z, 'faults': [], 'heap': [1, 1]})
        for t in (-2**31, -1, 0, 951782400, 2**31, 4102444800, 253402300799):
            for z in ZONES:
                for op in (3, 4, 5):
                    r.append({'ops': [[op, t]], 'clock': [t, 1000], 'zone': z, 'faults': [], 'heap': [1, 1]})
        for k in range(len(CMDS)):
            for op in (9, 10):
                for f in ([], [['exec', 1, 'exit', 9]], [['exec', 1, 'nostart', 0]], [['popen', 1, 'EMFILE', 0]], [['exec', 1, 'signal', 0]]):
                    r.append({'ops': [[op, k]], 'clock': [0, 1000], 'zone': 'UTC0', 'faults': f, 'heap': [1, 1]})
        for c in (0, 1, 3, 255, 256, -1):
            r.append({'ops': [[11, c], [1]], 'clock': [0, 1000], 'zone': 'UTC0', 'faults': [], 'heap': [1, 1]})
            r.append({'ops': [[12, c], [1]], 'clock': [0, 1000], 'zone': 'UTC0', 'faults': [], 'heap': [1, 1]})
        return r

    def op(self, op, rng):
        import random
        if not isinstance(rng, random.Random):
            rng = random.Random(rng)
        if op in (3, 4, 5):
            return [op, rng.choice([rng.randrange(0, 2**32), rng.randrange(-2**33, 2**35), rng.choice([0, 1, -1, 59, 86399, 86400, 951868800])])]
        if op == 6:
            return [op, rng.choice([0, 1, 1000, 999999, 1000000, 1000001, rng.randrange(2**31)])]
        if op == 7:
            return [op, rng.randrange(len(VARS)), rng.randrange(len(VALS)), rng.randrange(2)]
        if op == 8:
            return [op, rng.randrange(len(VARS))]
        if op in (9, 10):
            return [op, rng.randrange(len(CMDS))]
        if op in (11, 12):
            return [op, rng.choice([0, 1, 2, 42, 255])]
        if op == 13:
            return [op, 0]
        return [op]

    def gen(self, rng, i):
        ops = [self.op(rng.choice([1, 1, 2, 3, 3, 4, 4, 5, 6, 7, 7, 8, 8, 9, 10, 13]), rng) for _ in range(rng.randrange(1, 13))]
        if rng.random() < 0.15:
            ops.append(self.op(rng.choice([11, 12]), rng))
            ops.append([1])
        faults = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = rng.randrange(3)
            if k == 0:
                faults.append(['clock', rng.randrange(1, 8), 'jump', rng.choice([-10**6, -1, 1, 3600, 10**9, -3600])])
            elif k == 1:
                faults.append(['exec', rng.randrange(1, 4), rng.choice(['exit', 'signal', 'nostart']), rng.choice([1, 2, 126, 255])])
            else:
                faults.append(['popen', rng.randrange(1, 3), 'EMFILE', 0])
        return {'ops': ops, 'clock': [rng.choice([0, 1, 1700000000, 2**31 - 1, 2**31, 2**32, rng.randrange(-10**6, 2**33)]), rng.choice([1, 1000, 10**6, 999999999])],
                'zone': rng.choice(ZONES), 'faults': faults, 'heap': [rng.randrange(1, 5), rng.randrange(1 << 30)]}

    def run(self, ctx, case):
        p = Plan().dir('/sim/w').add('heap', '%d %d 0' % tuple(case['heap'])).add('clock', '%d %d' % tuple(case['clock'])).env('TZ', case['zone'])
        strs = VARS + VALS + [c[0] for c in CMDS]
        for s in strs:
            p.str(s)
        for c, rc, out in CMDS:
            if c.startswith('prog') or c == 'nosuchprog':
                p.exec(c, rc, out)
        p.faults(case['faults'])
        ops = []
        for o in case['ops']:
            if o[0] == 7:
                ops += [7, o[1], len(VARS) + o[2], o[3]]
            elif o[0] in (9, 10):
                ops += [o[0], len(VARS) + len(VALS) + o[1]]
            else:
                ops += o
        return ctx.serve('p18', SOURCE, p.ops(ops))

    def judge(self, case, r):
        segs = []
        for l in r.lines:
            if l == 'MARK 1000000':
                pass
            elif l.startswith('MARK '):
                segs.append({'v': {}, 's': [], 'f': [], 't': []})
            elif segs:
                if l.startswith('L '):
                    segs[-1]['v'][int(l.split(' ')[1])] = int(l.split(' ')[2])
                elif l.startswith('S '):
                    w = l.split(' ')
                    segs[-1]['s'].append((int(w[1]), None if w[2:] == ['NULL'] else bytes.fromhex(w[2]) if len(w) > 2 else b''))
                elif l.startswith('F '):
                    segs[-1]['f'].append(l.split(' '))
                elif l.startswith('T '):
                    segs[-1]['t'].append(l.split(' '))
        ops = case['ops']
        ends = [k for k, o in enumerate(ops) if o[0] in (11, 12)]
        if ends and len(segs) > ends[0]:
            k = ends[0]
            if len(segs) > k + 1 or 99 in segs[k]['v']:
                return 'exit-continues', 'the program went on after exit(%s)' % ops[k][1]
            if r.status != ops[k][1] % 256:
                return 'exit-code', 'exit(%s) ended the process with %s' % (ops[k][1], r.how())
        elif r.status or r.lines[-1:] != ['DONE']:
            nm = NAMES[ops[len(segs) - 1][0] - 1] if segs else 'start'
            return ('hang-' if r.hung else 'crash-') + nm, '%s; last events %s' % (r.how(), r.lines[-4:])
        elif len(segs) != len(ops):
            return 'lost-operation', '%d of %d' % (len(segs), len(ops))
        env = dict(BASE_ENV)
        os.environ['TZ'] = case['zone']
        time.tzset()
        for k, (o, sg) in enumerate(zip(ops, segs)):
            nm = NAMES[o[0] - 1]
            v, bad = sg['v'], None
            fl = {f[1]: f for f in sg['f']}
            if o[0] in (1, 13):
                want = int(sg['t'][0][2]) if sg['t'] and sg['t'][0][1] == 'time' else None
                if v.get(1) != want or (o[0] == 1 and v.get(2) != want):
                    bad = 'returned %s and stored %s, the clock showed %s' % (v.get(1), v.get(2), want)
            elif o[0] == 2:
                want = int(sg['t'][0][2]) if sg['t'] and sg['t'][0][1] == 'clock' else None
                if v.get(1) != want:
                    bad = 'returned %s, the processor clock showed %s' % (v.get(1), want)
            elif o[0] in (3, 4):
                t = time.localtime(o[1])
                want = [t.tm_sec, t.tm_min, t.tm_hour, t.tm_mday, t.tm_mon - 1, t.tm_year - 1900, (t.tm_wday + 1) % 7, t.tm_yday - 1, t.tm_isdst, t.tm_gmtoff]
                got = [v.get(20 + j) for j in range(10)]
                z = dict(sg['s']).get(30)
                if got != want or z != t.tm_zone.encode():
                    bad = 'for %s in %s gave %s %s, right is %s %s' % (o[1], case['zone'], got, z, want, t.tm_zone)
            elif o[0] == 5:
                want = (time.strftime('%a %b ', time.localtime(o[1])) + '%2d ' % time.localtime(o[1]).tm_mday + time.strftime('%H:%M:%S ', time.localtime(o[1])) + '%d\n' % time.localtime(o[1]).tm_year).encode()
                if dict(sg['s']).get(3) != want:
                    bad = 'gave %r, right is %r' % (dict(sg['s']).get(3), want)
            elif o[0] == 6:
                if v.get(41, 0) - v.get(40, 0) < o[1] * 1000:
                    bad = 'waited %s ns for %d us' % (v.get(41, 0) - v.get(40, 0), o[1])
            elif o[0] == 7:
                n, x = VARS[o[1]], VALS[o[2]]
                if o[3] or n not in env:
                    env[n] = x
                if v.get(1) != 0:
                    bad = 'returned %s' % v.get(1)
            elif o[0] == 8:
                want = env.get(VARS[o[1]])
                want = None if want is None else want.encode()
                got = sg['s'][0][1] if sg['s'] else b'?'
                if got != want:
                    bad = '%s is %r, was set to %r' % (VARS[o[1]], got, want)
            elif o[0] in (9, 10):
                c, rc, out = CMDS[o[1]]
                st = rc << 8
                f = fl.get('exec')
                if f:
                    if f[3] == 'exit':
                        st, out = int(f[4]) << 8, ''
                    elif f[3] == 'signal':
                        # a recorded program that is killed is simulated as 128+9 by the shell
                        st, out = ((137 << 8) if c.startswith('prog') or c == 'nosuchprog' else 9), ''
                    else:
                        st, out = -1, ''
                if o[0] == 10:
                    if 'popen' in fl:
                        st, out = -1, ''
                    got = b''.join(s or b'' for t, s in sg['s'])
                    if got != out.encode():
                        bad = 'read %r from the process, it wrote %r' % (got, out)
                if v.get(1) != st:
                    bad = '%r gave status %s, right is %s' % (c, v.get(1), st)
            if bad:
                return 'wrong-' + nm, 'call %d %s: %s; faults fired %s' % (k, nm, bad, sg['f'])
        for l in r.lines:
            if l.startswith('HEAPBAD'):
                return 'heap-misuse', l
            if l.startswith('L 92 ') and l != 'L 92 0':
                return 'process-leak', l
        return None

    def simtime(self, case, r):
        return sum(int(l.split(' ')[2]) / 1e9 for l in r.lines if l.startswith('T sleep'))

    def reduce(self, case):
        yield from C.ddfield(case, 'faults')
        yield from C.ddfield(case, 'ops')
        if case['zone'] != 'UTC0':
            yield dict(case, zone='UTC0')


CHECK = P18()
