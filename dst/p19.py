"""P19: shared, weak and unique references and closures destroy their object exactly once."""
from . import check as C
from .prog import PRELUDE
from .sim import Plan

NR, NW, NU, NA, NC, NS, NT, NP = 6, 4, 2, 2, 3, 2, 3, 2

SOURCE = '''import "Srl/refs";
import "Srl/Array";
import "Srl/Map";
import "Srl/Memory";
import "Srl/String";
import "Srl/Possible";
import "Srl/errors";
import "closure";
use Srl;
''' + PRELUDE + '''
class Node {
    def magic: Int;
    def id: Int;
    def act: Int;
    def next: SrdRef[Node];
    def other: SrdRef[Node];
    def up: WkRef[Node];
    def name: String;
    handler this~init() { this.magic = 4660; this.id = 0; this.act = -1; }
    handler this~init(n: ref[Node]) { this.magic = 4660; Sim.log(97, n.id); this.act = -1; }
    handler this~terminate() {
        if this.magic != 4660 Sim.log(98, this.magic);
        Sim.log(10, this.id);
        this.magic = 57005;
        if this.act >= 0 victim(this.act);
    }
}
class Sub {
    @injection def node: Node;
    def extra: Int;
    handler this~terminate() { Sim.log(11, this.extra); }
}
def liveTrees: Int(0);
class Tree {
    def id: Int;
    def kids: Array[Tree];
    handler this~init() { this.id = 0; ++liveTrees; }
    handler this~init(t: ref[Tree]) { this.id = t.id; this.kids = t.kids; ++liveTrees; }
    handler this = ref[Tree] { this.id = value.id; this.kids = value.kids; }
    handler this~terminate() { --liveTrees; }
}
def G: array[SrdRef[Node], 2];
func victim(k: Int) { G(k).release(); }
func pass(r: SrdRef[Node]): SrdRef[Node] { return r; }
func pick(a: SrdRef[Node], b: SrdRef[Node], c: Int): SrdRef[Node] {
    def t: SrdRef[Node] = a;
    if c == 0 return t;
    if c == 1 { def u: SrdRef[Node] = b; return u; }
    return SrdRef[Node]();
}
func make(v: Int): SrdRef[Node] { return SrdRef[Node]().{ construct(); id = v; }; }
func closeOver(r: SrdRef[Node], k: Int): (closure (Int): Int) {
    def l: SrdRef[Node] = r;
    return closure (x: Int): Int { return l.id * 100 + k * 10 + x; };
}
func closeOver2(r: SrdRef[Node], q: SrdRef[Node]): (closure (Int): Int) {
    def l: SrdRef[Node] = r;
    def m: SrdRef[Node] = q;
    return closure (x: Int): Int { def t: SrdRef[Node] = m; return l.id * 100 + t.id * 10 + x; };
}
func runClosure(x: Int, c: closure (Int): Int): Int { return c(x); }
func raw(v: Int): ref[Node] {
    def n: ref[Node];
    n~ptr = Memory.alloc(Node~size)~cast[ptr[Node]];
    n~init();
    n.id = v;
    return n;
}
func weak(r: SrdRef[Node]): WkRef[Node] { return r; }
func strong(r: WkRef[Node]): SrdRef[Node] { return r; }
func ident(r: ref[SrdRef[Node]]): Int { if r.isNull() return -1; if r.magic != 4660 return -2; return r.id; }
func dumpTree(t: ref[Tree]) {
    Sim.log(30, t.id);
    Sim.log(31, t.kids.getLength());
    def i: Int;
    for i = 0, i < t.kids.getLength(), ++i dumpTree(t.kids(i));
}
func loop() {
    def R: array[SrdRef[Node], 6];
    def W: array[WkRef[Node], 4];
    def U: array[UnqRef[Node], 2];
    def A: array[Array[SrdRef[Node]], 2];
    def K: array[(closure (Int): Int), 3];
    def S: array[SrdRef[Sub], 2];
    def T: array[Tree, 3];
    def P: array[Possible[Int], 2];
    def M: Map[Int, SrdRef[Node]];
    def op: Int;
    def i: Int;
    def j: Int;
    def k: Int;
    def n: Int(0);
    for i = 0, i < 6, ++i R(i)~init();
    for i = 0, i < 4, ++i W(i)~init();
    for i = 0, i < 3, ++i { K(i)~init(); T(i)~init(); }
    for i = 0, i < 2, ++i { U(i)~init(); A(i)~init(); S(i)~init(); G(i)~init(); P(i)~init(); }
    while 1 {
        op = Sim.next();
        if op < 1 break;
        Sim.mark(n);
        ++n;
        i = Sim.next();
        j = Sim.next();
        k = Sim.next();
        if op == 1 { R(i).construct(); R(i).id = j; }
        else if op == 2 R(i) = R(j)
        else if op == 3 R(i).release()
        else if op == 4 R(i) = SrdRef[Node].construct()
        else if op == 5 R(i).own(raw(j))
        else if op == 6 R(i) = SrdRef[Node].own(raw(j))
        else if op == 7 W(i) = R(j)
        else if op == 8 R(i) = W(j)
        else if op == 9 W(i) = W(j)
        else if op == 10 Sim.log(1, W(i).id * 10 + W(i).magic)
        else if op == 11 { if !R(i).isNull() R(i).next = R(j); }
        else if op == 12 { if !R(i).isNull() R(i).other = R(j); }
        else if op == 13 { if !R(i).isNull() R(i).up = R(j); }
        else if op == 14 { if !R(j).isNull() R(i) = R(j).next; }
        else if op == 15 { if !R(i).isNull() { if !R(i).next.isNull() R(i).next = R(i).next.next; }; }
        else if op == 16 { if !R(i).isNull() R(i).next.release(); }
        else if op == 17 { if !R(j).isNull() R(i) = R(j).up; }
        else if op == 18 R(i) = pass(R(j))
        else if op == 19 R(i) = pick(R(j), R(k), Sim.next())
        else if op == 20 R(i) = pass(pass(make(j)))
        else if op == 21 R(i) = SrdRef[Node].construct().{ id = j; next = R(k); other = make(j + 500); }
        else if op == 22 { def t: SrdRef[Node] = R(i); def u: SrdRef[Node](t); t = R(j); R(j) = u; }
        else if op == 23 { if !W(i).isNull() W(i).next.release(); }
        else if op == 24 { if !W(i).isNull() W(i).next = R(j); }
        else if op == 25 { if !R(i).isNull() R(i).name += "some longer text"; }
        else if op == 26 { if !R(i).isNull() R(i).act = k; }
        else if op == 27 G(i) = R(j)
        else if op == 28 R(i) = G(j)
        else if op == 29 R(i).assign(R(j).refCounter, R(j).obj)
        else if op == 30 U(i).construct()
        else if op == 31 { U(i) = raw(j)~ptr; }
        else if op == 32 U(i).release()
        else if op == 33 { if !U(i).isNull() U(i).next = R(j); }
        else if op == 34 { if !U(i).isNull() { Sim.log(1, U(i).id); U(i).id = j; }; }
        else if op == 35 { U(i) = U(i).obj~ptr; }
        else if op == 36 { if !R(i).isNull() R(i).own(R(i).obj); }
        else if op == 37 { def t: SrdRef[Node](W(j)); R(i) = t; }
        else if op == 38 { def t: WkRef[Node](R(j)); def u: WkRef[Node](t); W(i) = u; }
        else if op == 39 { def t: SrdRef[Node](R(j).refCounter, R(j).obj); R(i) = t; }
        else if op == 53 W(i).release()
        else if op == 54 W(i).assign(R(j).refCounter, R(j).obj)
        else if op == 55 { R(i).alloc()~init(); R(i).id = j; }
        else if op == 56 { def t: ref[Node]; t~ptr = 0; R(i).own(t); }
        else if op == 57 W(i) = weak(R(j))
        else if op == 58 R(i) = strong(W(j))
        else if op == 59 { def t: WkRef[Node](R(j).refCounter, R(j).obj); def u: SrdRef[Node](R(j)); R(i) = t; }
        else if op == 40 A(i).add(R(j))
        else if op == 41 A(i).remove(j)
        else if op == 42 A(i) = A(j)
        else if op == 43 A(i).clear()
        else if op == 44 A(i).set(j, R(k))
        else if op == 45 { if j < A(k).getLength() R(i) = A(k)(j); }
        else if op == 46 A(i).insert(j, R(k))
        else if op == 47 A(i).add(make(j))
        else if op == 48 M.set(j, R(i))
        else if op == 49 M.remove(j)
        else if op == 50 { if M.findPos(j) != -1 R(i) = M(j); }
        else if op == 51 M.clear()
        else if op == 52 A(i) = A(j).slice(k, 2)
        else if op == 60 S(i) = SrdRef[Sub]().{ construct(); id = j; extra = k; }
        else if op == 61 { if !S(j).isNull() R(i) = castSrdRef[S(j), Node]; }
        else if op == 62 { if !S(j).isNull() R(i) = S(j); }
        else if op == 63 S(i).release()
        else if op == 64 S(i) = S(j)
        else if op == 65 { if !S(j).isNull() W(i) = S(j); }
        else if op == 66 { if !S(i).isNull() S(i).next = R(j); }
        else if op == 70 K(i) = closeOver(R(j), k)
        else if op == 71 K(i) = K(j)
        else if op == 72 { if !K(i).isNull() Sim.log(1, K(i)(j)); }
        else if op == 73 K(i).release()
        else if op == 74 { if !K(i).isNull() Sim.log(1, runClosure(j, K(i))); }
        else if op == 75 K(i) = closeOver2(R(j), R(k))
        else if op == 80 { def t: Tree; t.id = j; T(i).kids.add(t); }
        else if op == 81 { if T(i).kids.getLength() > 0 T(i).kids = T(i).kids(0).kids; }
        else if op == 82 T(i) = T(j)
        else if op == 83 { if k < T(j).kids.getLength() T(i) = T(j).kids(k); }
        else if op == 84 T(i).kids.add(T(j))
        else if op == 85 T(i).kids.remove(k)
        else if op == 90 P(i) = Possible[Int].success(j)
        else if op == 91 P(i) = Possible[Int].failure(GenericError.new(String("c"), String("message text")))
        else if op == 92 P(i) = P(j)
        else if op == 93 { def q: Possible[Int] = P(j); if q Sim.log(1, 1) else Sim.logs(2, q.error.getMessage().buf); P(i) = q; };
        for i = 0, i < 6, ++i Sim.log(20, ident(R(i)));
        if op >= 80 and op < 90 { for i = 0, i < 3, ++i dumpTree(T(i)); };
        Sim.mark(1000000);
    }
    for i = 0, i < 6, ++i R(i)~terminate();
    for i = 0, i < 2, ++i { U(i)~terminate(); A(i)~terminate(); S(i)~terminate(); G(i)~terminate(); P(i)~terminate(); }
    for i = 0, i < 3, ++i { K(i)~terminate(); T(i)~terminate(); }
    M.clear();
}
func main() {
    if Sim.serve() == 0 return;
    def before: Int = liveTrees;
    Sim.track(1);
    if Sim.next() == 1 Memory.overrideAllocator(Sim.alloc2~ptr, Sim.realloc2~ptr, Sim.allocAligned2~ptr, Sim.free2~ptr);
    loop();
    Sim.track(0);
    Sim.log(95, liveTrees - before);
    Sim.checkHeap();
    Sim.done();
}
main();
'''

# Copying a unique reference is a separate workload: see known-findings.txt
UNIQUE = '''import "Srl/refs";
import "Srl/Memory";
use Srl;
''' + PRELUDE + '''
class Node {
    def id: Int;
    handler this~init() { this.id = 7; }
    handler this~terminate() { Sim.log(10, this.id); }
}
func copy() {
    def x: UnqRef[Node];
    def y: UnqRef[Node];
    x.construct();
    y = x;
}
func main() {
    if Sim.serve() == 0 return;
    Sim.track(1);
    copy();
    Sim.track(0);
    Sim.checkHeap();
    Sim.done();
}
main();
'''


class Obj:
    __slots__ = ('kind', 'id', 'extra', 'act', 'cnt', 'next', 'other', 'up', 'named', 'blocks', 'alive', 'held')

    def __init__(self, kind, id, blocks):
        self.kind, self.id, self.blocks = kind, id, blocks
        self.extra, self.act, self.cnt = 0, -1, 0
        self.next = self.other = self.up = None
        self.named, self.alive, self.held = False, True, []


class Model:
    def __init__(self):
        self.R, self.W, self.U = [None] * 6, [None] * 4, [None] * 2
        self.A, self.M = [[], []], []
        self.S, self.G, self.K = [None] * 2, [None] * 2, [None] * 3
        self.T = [(0, ()) for _ in range(3)]
        self.P = [None, None]
        self.objs = []
        self.dead = []

    def new(self, kind, id, blocks=1):
        o = Obj(kind, id, blocks)
        self.objs.append(o)
        return o

    def drop(self, o):
        if o is None:
            return
        o.cnt -= 1
        if o.cnt == 0:
            self.die(o)

    def die(self, o):
        o.alive = False
        if o.kind == 'data':
            h, o.held = o.held, []
            for x in h:
                self.drop(x)
            return
        if o.kind == 'sub':
            self.dead.append('L 11 %d' % o.extra)
        self.dead.append('L 10 %d' % o.id)
        if o.act >= 0:
            self.put(self.G, o.act, None)
        for f in ('other', 'next'):
            x = getattr(o, f)
            setattr(o, f, None)
            self.drop(x)

    def put(self, l, i, o):
        """assigns an owning reference"""
        if o is not None:
            o.cnt += 1
        old, l[i] = l[i], o
        self.drop(old)

    def putf(self, x, f, o):
        if o is not None:
            o.cnt += 1
        old = getattr(x, f)
        setattr(x, f, o)
        self.drop(old)

    def valid(self, op):
        c, i, j, k = op[:4]
        if c in (8, 37, 58):
            return self.W[j] is None or self.W[j].alive
        if c == 10:
            return self.W[i] is not None and self.W[i].alive
        if c in (23, 24):
            return self.W[i] is None or self.W[i].alive
        if c == 17:
            return self.R[j] is None or self.R[j].up is None or self.R[j].up.alive
        if c == 27:
            return not any(o.alive and o.act == i for o in self.objs)
        if c in (80, 82, 83, 84):
            return sum(map(size, self.T)) < 150
        return True

    def add(self, l, o):
        if o is not None:
            o.cnt += 1
        l.append(o)

    def setall(self, l, v):
        for o in v:
            if o is not None:
                o.cnt += 1
        old, l[:] = list(l), v
        for o in old:
            self.drop(o)

    def step(self, op):
        """-> (values logged by the operation, objects destroyed)"""
        c, i, j, k = op[:4]
        R, W, U, A, S, G, K, T, P, M = self.R, self.W, self.U, self.A, self.S, self.G, self.K, self.T, self.P, self.M
        out = []
        self.dead = []
        if c == 1:
            self.put(R, i, None)
            self.put(R, i, self.new('node', j))
        elif c == 2:
            self.put(R, i, R[j])
        elif c == 3:
            self.put(R, i, None)
        elif c == 4:
            self.put(R, i, self.new('node', 0))
        elif c in (5, 6):
            self.put(R, i, self.new('node', j, 2))
        elif c == 7:
            W[i] = R[j]
        elif c == 8:
            self.put(R, i, W[j])
        elif c == 9:
            W[i] = W[j]
        elif c == 10:
            out.append('L 1 %d' % (W[i].id * 10 + 4660))
        elif c == 11 and R[i]:
            self.putf(R[i], 'next', R[j])
        elif c == 12 and R[i]:
            self.putf(R[i], 'other', R[j])
        elif c == 13 and R[i]:
            R[i].up = R[j]
        elif c == 14 and R[j]:
            self.put(R, i, R[j].next)
        elif c == 15 and R[i] and R[i].next:
            self.putf(R[i], 'next', R[i].next.next)
        elif c == 16 and R[i]:
            self.putf(R[i], 'next', None)
        elif c == 17 and R[j]:
            self.put(R, i, R[j].up)
        elif c == 18:
            self.put(R, i, R[j])
        elif c == 19:
            self.put(R, i, R[j] if op[4] == 0 else R[k] if op[4] == 1 else None)
        elif c == 20:
            self.put(R, i, self.new('node', j))
        elif c == 21:
            o = self.new('node', j)
            self.putf(o, 'next', R[k])
            self.putf(o, 'other', self.new('node', j + 500))
            self.put(R, i, o)
        elif c == 22:
            keep = R[j]
            if keep is not None:
                keep.cnt += 1
            self.put(R, j, R[i])
            self.drop(keep)
        elif c == 23 and W[i]:
            self.putf(W[i], 'next', None)
        elif c == 24 and W[i]:
            self.putf(W[i], 'next', R[j])
        elif c == 25 and R[i]:
            R[i].named = True
        elif c == 26 and R[i]:
            R[i].act = k
        elif c == 27:
            self.put(G, i, R[j])
        elif c == 28:
            self.put(R, i, G[j])
        elif c == 29:
            self.put(R, i, R[j])
        elif c == 30:
            self.put(U, i, None)
            self.put(U, i, self.new('node', 0))
        elif c == 31:
            self.put(U, i, self.new('node', j))
        elif c == 32:
            self.put(U, i, None)
        elif c == 33 and U[i]:
            self.putf(U[i], 'next', R[j])
        elif c == 34 and U[i]:
            out.append('L 1 %d' % U[i].id)
            U[i].id = j
        elif c in (37, 58):
            self.put(R, i, W[j])
        elif c in (38, 54, 57):
            W[i] = R[j]
        elif c in (39, 59):
            self.put(R, i, R[j])
        elif c == 53:
            W[i] = None
        elif c == 55:
            self.put(R, i, None)
            self.put(R, i, self.new('node', j))
        elif c == 56:
            self.put(R, i, None)
        elif c == 40:
            self.add(A[i], R[j])
        elif c == 41 and j < len(A[i]):
            self.drop(A[i].pop(j))
        elif c == 42:
            self.setall(A[i], list(A[j]))
        elif c == 43:
            self.setall(A[i], [])
        elif c == 44:
            if j < len(A[i]):
                self.put(A[i], j, R[k])
            else:
                self.add(A[i], R[k])
        elif c == 45 and j < len(A[k]):
            self.put(R, i, A[k][j])
        elif c == 46:
            if R[k] is not None:
                R[k].cnt += 1
            if j < len(A[i]):
                A[i].insert(j, R[k])
            else:
                A[i].append(R[k])
        elif c == 47:
            self.add(A[i], self.new('node', j))
        elif c == 48:
            for e in M:
                if e[0] == j:
                    self.put(e, 1, R[i])
                    break
            else:
                e = [j, None]
                M.append(e)
                self.put(e, 1, R[i])
        elif c == 49:
            for e in M:
                if e[0] == j:
                    M.remove(e)
                    self.drop(e[1])
                    break
        elif c == 50:
            for e in M:
                if e[0] == j:
                    self.put(R, i, e[1])
        elif c == 51:
            old, M[:] = list(M), []
            for e in old:
                self.drop(e[1])
        elif c == 52:
            self.setall(A[i], A[j][k:k + 2])
        elif c == 60:
            o = self.new('sub', j)
            o.extra = k
            self.put(S, i, o)
        elif c in (61, 62) and S[j]:
            self.put(R, i, S[j])
        elif c == 63:
            self.put(S, i, None)
        elif c == 64:
            self.put(S, i, S[j])
        elif c == 65 and S[j]:
            W[i] = S[j]
        elif c == 66 and S[i]:
            self.putf(S[i], 'next', R[j])
        elif c == 70 or c == 75:
            o = self.new('data', 0)
            o.extra = k if c == 70 else -1
            o.held = [R[j]] if c == 70 else [R[j], R[k]]
            for x in o.held:
                if x is not None:
                    x.cnt += 1
            self.put(K, i, o)
        elif c == 71:
            self.put(K, i, K[j])
        elif c in (72, 74) and K[i]:
            d = K[i]
            if all(x is not None for x in d.held):
                out.append('L 1 %d' % (d.held[0].id * 100 + (d.extra if len(d.held) == 1 else d.held[1].id) * 10 + j))
        elif c == 73:
            self.put(K, i, None)
        elif c == 80:
            T[i] = (T[i][0], T[i][1] + ((j, ()),))
        elif c == 81 and T[i][1]:
            T[i] = (T[i][0], T[i][1][0][1])
        elif c == 82:
            T[i] = T[j]
        elif c == 83 and k < len(T[j][1]):
            T[i] = T[j][1][k]
        elif c == 84:
            T[i] = (T[i][0], T[i][1] + (T[j],))
        elif c == 85 and k < len(T[i][1]):
            T[i] = (T[i][0], T[i][1][:k] + T[i][1][k + 1:])
        elif c == 90:
            P[i] = None
        elif c == 91:
            P[i] = b'message text'
        elif c == 92:
            P[i] = P[j]
        elif c == 93:
            out.append('L 1 1' if P[j] is None else 'S 2 ' + P[j].hex())
            P[i] = P[j]
        tail = ['L 20 %d' % (-1 if o is None else o.id) for o in R]
        if 80 <= c < 90:
            for t in T:
                dump(t, tail)
        return out, self.dead, tail

    def finish(self):
        self.dead = []
        for i in range(6):
            self.put(self.R, i, None)
        for i in range(2):
            self.put(self.U, i, None)
            self.setall(self.A[i], [])
            self.put(self.S, i, None)
            self.put(self.G, i, None)
        for i in range(3):
            self.put(self.K, i, None)
        for e in self.M:
            self.drop(e[1])
        left = [o for o in self.objs if o.alive]
        return self.dead, sum(o.blocks + (1 if o.named else 0) for o in left)


def size(t):
    return 1 + sum(map(size, t[1]))


def dump(t, out):
    out.append('L 30 %d' % t[0])
    out.append('L 31 %d' % len(t[1]))
    for x in t[1]:
        dump(x, out)


WEAK = [36, 37, 38, 39, 53, 54, 55, 56, 57, 58, 59]
GROUPS = {'shared': list(range(1, 30)) + WEAK, 'weak': [1, 1, 2, 3, 3, 7, 8, 10, 23, 24] + WEAK, 'unique': [30, 31, 31, 32, 33, 33, 34, 35, 1, 2, 3], 'array': list(range(40, 53)) + [1, 2, 3, 5, 14],
          'sub': [60, 60, 61, 62, 63, 64, 65, 66, 1, 2, 3, 8, 10], 'closure': [70, 70, 71, 72, 73, 74, 75, 1, 1, 2, 3], 'tree': [80, 80, 80, 81, 82, 83, 84, 85],
          'possible': [90, 91, 91, 92, 93]}
N = 94


class P19(C.Check):
    id = 'P19'
    level = 'exploration'
    quick = 30000
    technique = 'deterministic simulation: seeded histories of reference operations over a simulated allocator (guard pages, reuse, poison); destruction events, reachable objects and heap compared with a reference-counting model after every step'
    note = 'Seeded search over histories. Weak references are dereferenced only while their object lives (the library defines nothing else); ownership cycles are expected to stay, as documented.'
    rule = ('a case is 1-60 operations over 6 shared, 4 weak, 2 unique, 2 derived and 2 global references, arrays, a map, 3 closures, trees of arrays and possible values, '
            'with destructors that release other references and an allocator policy; distinct by complete event history')
    real = 'compiler, JIT, Srl.refs, closure library, Srl.Array, Srl.Map, Srl.Possible, Srl.Memory'
    stub = 'allocator (guard pages, immediate reuse, poison), optionally also through Memory.overrideAllocator'
    measure = 'complete event histories'

    def fixed(self):
        r = []
        for heap in ([1, 1, 0], [3, 1, 0]):
            for ops in ([[1, 0, 1, 0], [1, 1, 2, 0], [11, 0, 1, 0], [3, 1, 0, 0], [14, 0, 0, 0]],
                        [[1, 0, 1, 0], [11, 0, 0, 0], [7, 0, 0, 0], [3, 0, 0, 0], [23, 0, 0, 0]],
                        [[1, 0, 1, 0], [11, 0, 0, 0], [7, 0, 0, 0], [3, 0, 0, 0], [1, 1, 2, 0], [24, 0, 1, 0]],
                        [[80, 0, 1, 0], [80, 1, 2, 0], [84, 0, 1, 0], [81, 0, 0, 0], [81, 0, 0, 0]],
                        [[1, 0, 1, 0], [1, 1, 2, 0], [26, 0, 0, 0], [27, 0, 1, 0], [3, 1, 0, 0], [28, 0, 0, 0]]):
                r.append({'alloc': 0, 'heap': heap, 'ops': ops})
        r.append({'unique': 1, 'heap': [2, 1, 0], 'ops': []})
        return r

    def gen(self, rng, i):
        names = rng.sample(sorted(GROUPS), rng.choice([1, 1, 2, 3]))
        g = [c for n in names for c in GROUPS[n]]
        if rng.random() < 0.4:
            g = rng.sample(g, max(3, len(g) // 2))
            g += [1]
        few = rng.random() < 0.5
        nr = 3 if few else 6
        m = Model()
        ops = []
        serial = 0
        for _ in range(rng.choice([4, 8, 16, 30, 60])):
            c = rng.choice(g)
            r = rng.randrange
            serial += 1
            ia, ja, ka = r(nr), r(nr), r(nr)
            if c in (7, 9, 10, 23, 24, 65, 38, 53, 54, 57):
                ia = r(4)
            if c in (8, 9, 37, 58):
                ja = r(4)
            if c in (1, 5, 6, 20, 55, 21, 31, 34, 47, 60, 80):
                ja = serial
            if c == 26:
                ka = rng.choice([-1, 0, 1])
            if c == 27 or 30 <= c <= 35 or 40 <= c <= 47 and c != 45 or c in (52, 60, 63, 64, 66) or c >= 90:
                ia = r(2)
            if c in (28, 42, 52, 61, 62, 64, 65) or c >= 90:
                ja = r(2)
            if c in (45,):
                ka = r(2)
            if c in (41, 44, 45, 46, 48, 49, 50, 72, 74):
                ja = r(4)
            if c in (70, 71, 72, 73, 74, 75, 80, 81, 82, 83, 84, 85):
                ia = r(3)
            if c in (71, 82, 83, 84):
                ja = r(3)
            if c in (83, 85, 52):
                ka = r(3)
            if c == 70:
                ka = r(10)
            op = [c, ia, ja, ka]
            if c == 19:
                op.append(r(3))
            if c in (72, 74) and m.K[ia] is not None and any(x is None for x in m.K[ia].held):
                continue
            if not m.valid(op):
                continue
            m.step(op)
            ops.append(op)
        return {'alloc': rng.randrange(2), 'heap': [rng.choice([1, 2, 3, 4]), rng.randrange(1 << 30), rng.choice([0, 0, 16])], 'ops': ops}

    def run(self, ctx, case):
        if case.get('unique'):
            return ctx.serve('p19u', UNIQUE, Plan().dir('/sim/w').add('heap', '%d %d %d' % tuple(case['heap'])).add('budget', 4000))
        p = Plan().dir('/sim/w').add('heap', '%d %d %d' % tuple(case['heap'])).add('budget', 4000)
        ops = [case['alloc']]
        for o in case['ops']:
            ops += o
        return ctx.serve('p19', SOURCE, p.ops(ops + [0]))

    def judge(self, case, r):
        if case.get('unique'):
            gd = [x for x in r.lines if x.startswith('L 10 ')]
            if gd != ['L 10 7'] or r.status or r.lines[-1:] != ['DONE']:
                return 'unique-copy', 'a copied UnqRef destroys the object %d times; %s' % (len(gd), r.how())
            return None
        m = Model()
        lines = r.lines
        pos = 0
        for k, op in enumerate(case['ops']):
            if not m.valid(op) or op[0] in (72, 74) and m.K[op[1]] is not None and any(x is None for x in m.K[op[1]].held):
                return None
            out, dead, tail = m.step(op)
            try:
                end = lines.index('MARK 1000000', pos)
            except ValueError:
                end = len(lines)
            got = lines[pos + 1:end]
            if r.status and end == len(lines):
                return ('hang-' if r.hung else 'crash-') + str(op[0]), 'operation %d %s: %s' % (k, op, r.how())
            gd = [x for x in got if x.startswith(('L 10 ', 'L 11 '))]
            bad = [x for x in got if x.startswith(('L 97 ', 'L 98 '))]
            if bad:
                return 'dead-object', 'operation %d %s met an object that is not alive: %s' % (k, op, bad[0])
            if sorted(gd) != sorted(dead):
                return 'destroyed', 'operation %d %s destroyed %s, expected %s' % (k, op, gd, dead)
            rest = [x for x in got if not x.startswith(('L 10 ', 'L 11 '))]
            if rest != out + tail:
                x = [(a, b) for a, b in zip(rest, out + tail) if a != b][:1] or [(len(rest), len(out + tail))]
                return 'value-%d' % op[0], 'operation %d %s: got %s, expected %s' % (k, op, x[0][0], x[0][1])
            pos = end + 1
        dead, blocks = m.finish()
        if r.status or lines[-1:] != ['DONE']:
            return ('hang-' if r.hung else 'crash-') + 'end', '%s; last events %s' % (r.how(), lines[-4:])
        gd = [x for x in lines[pos:] if x.startswith(('L 10 ', 'L 11 '))]
        if sorted(gd) != sorted(dead):
            return 'destroyed', 'leaving the scope destroyed %s, expected %s' % (gd, dead)
        for l in lines[pos:]:
            if l.startswith('HEAPBAD'):
                return 'heap', l
            if l.startswith(('L 97 ', 'L 98 ')):
                return 'dead-object', 'leaving the scope met an object that is not alive: ' + l
            if l.startswith('L 95 ') and l != 'L 95 0':
                return 'trees', 'array elements alive at the end: ' + l
            if l.startswith('HEAP '):
                v = int(l.split(' ')[1][5:])
                if v != blocks or not l.endswith('bad=0'):
                    return 'leak', 'at the end: %s, expected %d blocks (ownership cycles)' % (l, blocks)
        return None

    def reduce(self, case):
        yield from C.ddfield(case, 'ops')
        if case.get('alloc'):
            yield dict(case, alloc=0)


CHECK = P19()
