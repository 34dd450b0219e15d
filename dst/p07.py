"""P07: file functions report success only for what really happened on disk."""
from . import check as C
from .prog import PRELUDE
from .sim import Plan

SOURCE = '''import "Srl/Fs";
import "Srl/Memory";
import "Srl/String";
use Srl;
''' + PRELUDE + '''
func doReadDir(p: ptr[array[Char]]) {
    def names: ptr[Fs.FileNames];
    names = Fs.readDir(p);
    if names == 0 { Sim.log(1, 0); return; }
    Sim.log(1, 1);
    Sim.log(2, names~cnt.count);
    def i: Int;
    for i = 0, i < names~cnt.count, ++i Sim.logs(3, names~cnt.names(i)~ptr);
    Memory.free(names);
}
func doReadString(p: ptr[array[Char]], n: Int) {
    def s: String = Fs.readFile(p);
    Sim.log(1, s.getLength());
    if n < 0 Sim.logs(3, s.buf) else Sim.logb(3, s.buf, n + 1);
}
func doRead3(p: ptr[array[Char]]) {
    def b: ptr;
    def n: ArchInt;
    b = 0;
    n = 0;
    if Fs.readFile(p, b~ptr, n~ptr) {
        Sim.log(1, 1);
        Sim.log(2, n);
        Sim.logb(3, b~cast[ptr[array[Char]]], n + 1);
        Memory.free(b);
    } else Sim.log(1, 0);
}
func doRead2(p: ptr[array[Char]]) {
    def n: ArchInt;
    n = 0;
    def b: ptr[array[Char]];
    b = Fs.readFile(p, n~ptr);
    if b != 0 {
        Sim.log(1, 1);
        Sim.log(2, n);
        Sim.logb(3, b, n + 1);
        Memory.free(b);
    } else Sim.log(1, 0);
}
func loop() {
    def op: Int;
    def k: Int(0);
    def a: Int;
    def b: Int;
    while 1 {
        op = Sim.next();
        if op < 1 break;
        a = Sim.next();
        b = Sim.next();
        Sim.mark(k);
        if op == 1 Sim.log(1, Fs.createFile(Sim.str(a), Sim.str(b), Sim.strlen(b)))
        else if op == 2 doRead3(Sim.str(a))
        else if op == 3 doRead2(Sim.str(a))
        else if op == 4 doReadString(Sim.str(a), b)
        else if op == 5 Sim.log(1, Fs.exists(Sim.str(a)))
        else if op == 6 Sim.log(1, Fs.isDir(Sim.str(a)))
        else if op == 7 Sim.log(1, Fs.makeDir(Sim.str(a)))
        else if op == 8 doReadDir(Sim.str(a))
        else if op == 9 Sim.log(1, Fs.rename(Sim.str(a), Sim.str(b)))
        else if op == 10 Fs.remove(Sim.str(a));
        ++k;
        Sim.mark(1000000);
        Sim.dumpFs();
    }
}
func main() {
    if Sim.serve() == 0 return;
    Sim.track(1);
    loop();
    Sim.track(0);
    Sim.log(90, Sim.handles());
    Sim.log(91, Sim.dirs());
    Sim.checkHeap();
    Sim.done();
}
main();
'''

NAMES = ['create', 'read3', 'read2', 'readString', 'exists', 'isDir', 'makeDir', 'readDir', 'rename', 'remove']
PATHS = ['/sim/w/a', '/sim/w/b', '/sim/w/d', '/sim/w/d/x', '/sim/w/d/y', '/sim/w/e', '/sim/w/e/f', '/sim/w/missing/z', 'rel', 'd/x',
         '/sim/w/' + 'n' * 255, '/sim/w/l']
ERR = ['EIO', 'ENOSPC', 'EDQUOT', 'EACCES', 'EMFILE', 'ESTALE']


def content(rng):
    k = rng.randrange(8)
    n = [0, 1, rng.randrange(2, 40), rng.randrange(40, 300), 4095, 4096, 4097, rng.randrange(5000, 20000)][k]
    if rng.random() < 0.5:
        return bytes(rng.randrange(256) for _ in range(n)) if n < 600 else rng.randbytes(n)
    return (b'line %d\n' % rng.randrange(100)) * (n // 8 + 1)


def norm(p):
    return p if p[0] == '/' else '/sim/w/' + p


class P07(C.Check):
    id = 'P07'
    level = 'fault_enumeration'
    quick = 40000
    rule = ('a case is a seeded file tree, 1-14 file operations on 12 overlapping paths and 0-3 faults placed at random occurrences of '
            'open/read/write/close/seek/mkdir/opendir/readdir/rename; non-trivial: at least one operation ran to its result; distinct by '
            'the complete event history')
    real = 'compiler, JIT, Srl.Fs, Srl.String, Srl.Memory, glibc stdio'
    stub = 'disk (in-memory file system with fault injection), allocator (guarded), directory listing order'
    measure = 'distinct (operation, result, faults fired in it, kind of target) tuples and complete event histories'
    assumptions = ['Srl.Fs.remove hands the C result through as Bool (non-zero, i.e. true, on failure): its result is not judged',
                   'stdio buffering is that of the installed glibc']

    def fixed(self):
        r = []
        base = {'tree': [['f', '/sim/w/a', 'hello'], ['d', '/sim/w/d'], ['f', '/sim/w/d/x', 'xx'], ['f', '/sim/w/d/y', '']], 'heap': [1, 1], 'dirseed': 0,
                'dirend': 1}
        for op in range(1, 11):
            for f in [None, ['open', 1, 'EMFILE', 0], ['open', 1, 'vanish', 0], ['open', 2, 'EIO', 0], ['open', 2, 'vanish', 0], ['read', 1, 'EIO', 0], ['read', 1, 'trunc', 1],
                      ['read', 1, 'grow', 9], ['read', 1, 'short', 1], ['write', 1, 'ENOSPC', 1], ['write', 1, 'torn', 2], ['write', 1, 'short', 2],
                      ['close', 1, 'EIO', 0], ['close', 2, 'EIO', 0], ['seek', 1, 'EIO', 0], ['seek', 2, 'EIO', 0], ['opendir', 1, 'EMFILE', 0],
                      ['readdir', 1, 'EIO', 0], ['readdir', 3, 'EIO', 0], ['mkdir', 1, 'ENOSPC', 0], ['rename', 1, 'EIO', 0],
                      ['rewinddir', 1, 'vanish', 0], ['rewinddir', 1, 'appear', 0]]:
                for t in ('/sim/w/a', '/sim/w/d', '/sim/w/none', '/sim/w/d/y'):
                    c = dict(base)
                    c['ops'] = [[op, t, 'content of the file' if op == 1 else '/sim/w/q' if op == 9 else '']]
                    c['faults'] = [f] if f else []
                    r.append(c)
        return r

    def gen(self, rng, i):
        tree = []
        for p in PATHS:
            if p[0] != '/' or 'missing' in p:
                continue
            par = p.rsplit('/', 1)[0]
            if par != '/sim/w' and ['d', par] not in tree:
                continue
            x = rng.random()
            if p in ('/sim/w/d', '/sim/w/e'):
                tree.append(['d', p]) if x < 0.7 else x < 0.85 and tree.append(['f', p, content(rng).decode('latin-1')])
            elif p == '/sim/w/l':
                x < 0.3 and tree.append(['l', p, rng.choice(['a', '/sim/w/d', 'd/x', 'nowhere'])])
            elif x < 0.6:
                tree.append(['f', p, content(rng).decode('latin-1')])
        if rng.random() < 0.15:
            tree += [['f', '/sim/w/d/f%d' % k, ''] for k in range(rng.randrange(1, 70)) if ['d', '/sim/w/d'] in tree]
        ops = []
        for _ in range(rng.randrange(1, 15)):
            op = rng.choice([1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8, 8, 9, 10])
            p = rng.choice(PATHS)
            if op == 8 and rng.random() < 0.5:
                p = rng.choice(['/sim/w/d', '/sim/w', '/sim/w/e'])
            ops.append([op, p, content(rng).decode('latin-1') if op == 1 else rng.choice(PATHS) if op == 9 else ''])
        faults = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            cls = rng.choice(['open', 'open', 'read', 'read', 'write', 'write', 'write', 'close', 'close', 'seek', 'mkdir', 'opendir', 'readdir', 'rename', 'rewinddir', 'unlink'])
            nth = rng.choice([1, 1, 2, 3, rng.randrange(1, 30)])
            act, arg = rng.choice(ERR), 0
            if cls == 'read':
                act = rng.choice(['EIO', 'EIO', 'short', 'trunc', 'grow'])
                arg = {'EIO': rng.randrange(2)}.get(act, rng.randrange(1, 50) if rng.random() < .6 else rng.randrange(1, 9000))
            elif cls == 'write':
                act = rng.choice(['EIO', 'ENOSPC', 'EDQUOT', 'short', 'torn'])
                arg = rng.randrange(1, 50) if act in ('short', 'torn') and rng.random() < .6 else rng.randrange(1, 9000) if act in ('short', 'torn') else rng.randrange(2)
            elif cls == 'open':
                act = rng.choice(['EIO', 'EMFILE', 'EACCES', 'vanish', 'ENOMEM'])
            elif cls == 'readdir':
                act = 'EIO'
            elif cls == 'rewinddir':
                act, arg = rng.choice(['vanish', 'appear']), rng.randrange(3)
            faults.append([cls, nth, act, arg])
        return {'tree': tree, 'ops': ops, 'faults': faults, 'heap': [rng.randrange(1, 5), rng.randrange(1 << 30)], 'dirseed': rng.randrange(1 << 30),
                'dirend': rng.randrange(3)}

    def plan(self, case):
        p = Plan().add('heap', '%d %d 0' % tuple(case['heap'])).add('dirseed', case['dirseed']).add('dirend', case['dirend'])
        p.dir('/sim/w')
        for t in case['tree']:
            if t[0] == 'd':
                p.dir(t[1])
            elif t[0] == 'l':
                p.link(t[1], t[2])
            else:
                p.file(t[1], t[2].encode('latin-1'))
        p.faults(case['faults'])
        strs, ops = [], []

        def s(x):
            b = x.encode('latin-1')
            if b not in strs:
                strs.append(b)
            return strs.index(b)
        model = {t[1]: t[2] for t in case['tree'] if t[0] == 'f'}
        plain = not case['faults']
        for op, a, b in case['ops']:
            if op == 4:
                ops += [op, s(a), self.expect(case, a) if plain else -1]
            else:
                ops += [op, s(a), s(b)]
        for x in strs:
            p.str(x)
        p.ops(ops)
        return p

    def expect(self, case, a):
        """Size the file has throughout, when no operation of the case touches it; else -1."""
        a = norm(a)
        for op, x, y in case['ops']:
            if op in (1, 7, 10) or op == 9:
                return -1
        for t in case['tree']:
            if t[0] == 'f' and t[1] == a:
                return len(t[2])
        return -1

    def run(self, ctx, case):
        return ctx.serve('p07', SOURCE, self.plan(case))

    def parse(self, r):
        """-> list of (values, strings, fired, fs after, raw lines) per operation, and the tail lines"""
        segs, cur, fs, mode = [], None, {}, None
        lines = r.lines
        i = 0
        while i < len(lines):
            l = lines[i]
            if l == 'MARK 1000000':
                mode = 'fs'
                fs = {}
            elif l.startswith('MARK '):
                cur = {'v': [], 's': [], 'f': [], 'fs': None, 'raw': []}
                segs.append(cur)
                mode = 'op'
            elif mode == 'fs' and l.startswith('FS '):
                _, ty, md, n, path = l.split(' ', 4)
                d = lines[i + 1][3:]
                fs[path] = (int(ty), bytes.fromhex(d))
                cur['fs'] = fs
                i += 1
            elif cur is not None and mode == 'op':
                if l.startswith('L '):
                    cur['v'].append((int(l.split(' ')[1]), int(l.split(' ')[2])))
                elif l.startswith('S '):
                    x = l.split(' ')
                    cur['s'].append(None if x[2:] == ['NULL'] else bytes.fromhex(x[2]) if len(x) > 2 else b'')
                elif l.startswith('F '):
                    cur['f'].append(l)
                cur['raw'].append(l)
            i += 1
        return segs

    def tree0(self, case):
        fs = {'/sim/w': (2, b'')}
        for t in case['tree']:
            if t[0] == 'd':
                fs[t[1]] = (2, b'')
            elif t[0] == 'l':
                fs[t[1]] = (3, t[2].encode())
            else:
                fs[t[1]] = (1, t[2].encode('latin-1'))
        return fs

    def look(self, fs, p, n=0):
        """Follow links; returns (final path, entry or None, parent is a directory)."""
        p = norm(p)
        parts = p.strip('/').split('/')
        cur = ''
        for k, c in enumerate(parts):
            nxt = cur + '/' + c
            if nxt == '/sim':
                cur = nxt
                continue
            e = fs.get(nxt)
            last = k == len(parts) - 1
            if e and e[0] == 3:
                if n > 10:
                    return nxt, None, False
                t = e[1].decode()
                t = t if t[0] == '/' else cur + '/' + t
                return self.look(fs, '/'.join([t] + parts[k + 1:]), n + 1)
            if not last and (e is None or e[0] != 2):
                return p, None, False
            cur = nxt
        return cur, fs.get(cur), True

    def judge(self, case, r):
        if r.status != 0 or 'DONE' not in r.lines[-1:]:
            op = 'op'
            segs = self.parse(r)
            if segs and len(segs) <= len(case['ops']):
                op = NAMES[case['ops'][len(segs) - 1][0] - 1]
            if r.status == 98:
                return 'null-handle-' + op, 'a library function was called with a null handle: %s' % r.lines[-1]
            if r.hung:
                return 'hang-' + op, r.how()
            return 'crash-' + op, '%s during %s; last events %s' % (r.how(), op, r.lines[-4:])
        before = self.tree0(case)
        segs = self.parse(r)
        if len(segs) != len(case['ops']):
            return 'lost-operation', '%d operations ran, %d expected' % (len(segs), len(case['ops']))
        for k, (op, sg) in enumerate(zip(case['ops'], segs)):
            v = self.judge_op(op, sg, before, sg['fs'] or {})
            if v:
                return v[0], 'operation %d %s(%r): %s; faults fired: %s' % (k, NAMES[op[0] - 1], op[1][:60], v[1], sg['f'])
            before = sg['fs'] or {}
        for l in r.lines:
            if l.startswith('HEAPBAD'):
                return 'heap-misuse', l
            if l.startswith('HEAP live=') and not l.startswith('HEAP live=0 '):
                return 'memory-leak', l
            if l.startswith('L 90 ') and l != 'L 90 0':
                return 'file-handle-leak', l
            if l.startswith('L 91 ') and l != 'L 91 0':
                return 'directory-handle-leak', l
            if l.startswith('ESCAPE'):
                return 'escape', l
        return None

    def judge_op(self, op, sg, before, after):
        o, a, b = op
        nm = NAMES[o - 1]
        path, ent, parent = self.look(before, a)
        fired = bool(sg['f'])
        kinds = [x.split(' ')[1] + ':' + x.split(' ')[3] for x in sg['f']]
        vanish = {x.split(' ')[5] for x in sg['f'] if x.split(' ')[3] == 'vanish'}
        world = any(x.startswith(('VANISH', 'APPEAR')) for x in sg['raw']) or vanish

        def others(*skip):
            for p in set(before) | set(after):
                if p in skip or any(p.startswith(s + '/') for s in skip if o == 9):
                    continue
                if before.get(p) != after.get(p):
                    if world or any(k in ('read:trunc', 'read:grow') for k in kinds):
                        continue
                    return p
        ok = dict(sg['v']).get(1)
        if o != 10 and ok is None:
            return 'no-result-' + nm, 'no result was recorded'
        if o == 1:
            data = b.encode('latin-1')
            if ok:
                if after.get(path) != (1, data):
                    got = after.get(path)
                    return 'create-false-success', 'reported success but the file holds %s bytes of %d' % (None if got is None else len(got[1]), len(data))
            elif not fired and parent and (ent is None or ent[0] == 1):
                return 'create-false-failure', 'reported failure although nothing failed'
            x = others(path)
            return ('create-other', 'changed %s' % x) if x else None
        if o in (2, 3, 4):
            good = [before.get(path), after.get(path)]
            good = [g[1] for g in good if g and g[0] == 1]
            if 'read:grow' in kinds or 'read:trunc' in kinds:
                # content at any moment in between is acceptable
                full = before.get(path, (1, b''))[1]
                good += [g for g in [full]]
            x = others(path)
            if x:
                return 'read-changes-disk', 'changed %s' % x
            if o == 4:
                s = sg['s'][0] if sg['s'] else b''
                if s is None:
                    s = b''
                cut = [g.split(b'\0')[0] for g in good]
                if ent is not None and ent[0] == 1:
                    exact = any(s == g + b'\0' for g in good)
                    if s in cut and ok == len(s):
                        return None
                    if exact:
                        return None
                    if not s and ok == 0 and fired:
                        return None
                    return 'readString-wrong', 'returned %d bytes %r, the file holds %d' % (len(s), s[:40], len(good[0]) if good else -1)
                if s.strip(b'\0') or ok:
                    return 'readString-invented', 'returned %r for a path that is not a readable file' % s[:40]
                return None
            if ok:
                n, s = dict(sg['v']).get(2), sg['s'][0]
                if s is None or s[-1:] != b'\0':
                    return nm + '-unterminated', 'content is not zero terminated'
                if len(s) - 1 != n or s[:-1] not in good:
                    return nm + '-wrong', 'reported success with size %s and content %r..., the file holds %s bytes' % (n, s[:40], [len(g) for g in good])
                return None
            if not fired and ent is not None and ent[0] == 1:
                return nm + '-false-failure', 'reported failure although nothing failed'
            return None
        if o in (5, 6):
            x = others()
            if x:
                return nm + '-changes-disk', 'changed %s' % x
            want = ent is not None and (o == 5 or ent[0] == 2)
            if ok and not want:
                return nm + '-wrong', 'reported true'
            if not ok and want and not fired:
                return nm + '-wrong', 'reported false'
            return None
        if o == 7:
            p = norm(a)
            if ok:
                if p in before or after.get(p) != (2, b''):
                    return 'makeDir-false-success', 'reported success without a new directory'
            elif not fired and parent and ent is None and p not in before:
                return 'makeDir-false-failure', 'reported failure although nothing failed'
            x = others(*([p] if ok else []))
            return ('makeDir-other', 'changed %s' % x) if x else None
        if o == 8:
            x = others()
            if x:
                return 'readDir-changes-disk', 'changed %s' % x
            def kids(fs):
                return {p[len(path) + 1:].encode() for p in fs if p.startswith(path + '/') and '/' not in p[len(path) + 1:]}
            if ok:
                if ent is None or ent[0] != 2:
                    return 'readDir-false-success', 'listed something that is not a directory'
                got = sg['s']
                must = (kids(before) & kids(after)) | {b'.', b'..'}
                may = kids(before) | kids(after) | {b'.', b'..'}
                if len(got) != len(set(got)) or not must <= set(got) or not set(got) <= may or dict(sg['v']).get(2) != len(got):
                    sig = 'readDir-error-as-end' if 'readdir:EIO' in kinds and set(got) <= may and len(got) == len(set(got)) else 'readDir-wrong'
                    return sig, 'returned %s, the directory holds %s' % (sorted(got)[:12], sorted(must)[:12])
                return None
            if not fired and ent is not None and ent[0] == 2:
                return 'readDir-false-failure', 'reported failure although nothing failed'
            return None
        if o == 9:
            pa, pb = norm(a), norm(b)
            if ok == 0:
                if pa != pb and (pa in after and before.get(pa) is not None and after.get(pb) != before.get(pa) or after.get(pb) != before.get(pa)):
                    # links in the parents make the names differ: compare through look
                    qa, qb = self.parentpath(before, a), self.parentpath(before, b)
                    if qa != qb and (qa in after or after.get(qb) != before.get(qa)):
                        return 'rename-false-success', 'reported success but the name did not move'
            else:
                if before != after and not world:
                    return 'rename-false-failure', 'reported failure but the tree changed'
                if not fired and pa in before and pb not in before and parent and self.look(before, b)[2] and not (pb + '/').startswith(pa + '/'):
                    return 'rename-refused', 'reported failure although nothing failed'
            return None
        return None

    def parentpath(self, fs, p):
        p = norm(p)
        d, n = p.rsplit('/', 1)
        return self.look(fs, d)[0] + '/' + n

    def reduce(self, case):
        yield from C.ddfield(case, 'faults')
        yield from C.ddfield(case, 'ops')
        yield from C.ddfield(case, 'tree')
        for k, t in enumerate(case['tree']):
            if t[0] == 'f' and len(t[2]) > 4:
                d = dict(case)
                d['tree'] = case['tree'][:k] + [[t[0], t[1], t[2][:len(t[2]) // 2]]] + case['tree'][k + 1:]
                yield d
        for k, o in enumerate(case['ops']):
            if o[0] == 1 and len(o[2]) > 4:
                d = dict(case)
                d['ops'] = case['ops'][:k] + [[1, o[1], o[2][:len(o[2]) // 2]]] + case['ops'][k + 1:]
                yield d
        if case['dirseed']:
            yield dict(case, dirseed=0)
        if case['heap'] != [1, 1]:
            yield dict(case, heap=[1, 1])

    def states(self, case, r):
        out = {C.obs_hash(r)}
        before = self.tree0(case)
        for op, sg in zip(case['ops'], self.parse(r)):
            e = self.look(before, op[1])[1]
            out.add('%s/%s/%s/%s' % (op[0], dict(sg['v']).get(1) and 1, sorted({x.split(' ')[1] + x.split(' ')[3] for x in sg['f']}), e and e[0]))
            before = sg['fs'] or {}
        return out

    def describe(self, case):
        return {'tree': [[t[0], t[1][:40]] + ([len(t[2])] if t[0] == 'f' else t[2:]) for t in case['tree']],
                'ops': [[NAMES[o[0] - 1], o[1][:40], len(o[2]) if o[0] == 1 else o[2][:40]] for o in case['ops']], 'faults': case['faults']}


CHECK = P07()
