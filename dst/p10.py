"""P10: library containers follow their model under any allocator behaviour."""
import struct
from . import check as C
from .prog import PRELUDE
from .sim import Plan

SOURCE = '''import "Srl/String";
import "Srl/WString";
import "Srl/Array";
import "Srl/Map";
import "Srl/StringBuilder";
import "Srl/Nullable";
import "Srl/Memory";
use Srl;
''' + PRELUDE + '''
def liveObjs: Int(0);
class Obj {
    def magic: Int;
    def id: Int;
    handler this~init() { this.magic = 4660; this.id = 0; ++liveObjs; }
    handler this~init(i: Int) { this.magic = 4660; this.id = i; ++liveObjs; }
    handler this~init(o: ref[Obj]) { if o.magic != 4660 Sim.log(97, o.magic); this.magic = 4660; this.id = o.id; ++liveObjs; }
    handler this = ref[Obj] {
        if this.magic != 4660 Sim.log(96, this.magic);
        if value.magic != 4660 Sim.log(97, value.magic);
        this.id = value.id;
    }
    handler this == ref[Obj]: Bool return this.id == value.id;
    handler this~terminate() { if this.magic != 4660 Sim.log(98, this.magic); this.magic = 57005; --liveObjs; }
}
def CStr: alias ptr[array[Char]];
def WStr: alias ptr[array[Word]];
func nstr(): CStr { return Sim.str(Sim.next()); }
func wstr(): WStr { return Sim.str(Sim.next())~cast[WStr]; }
func off(p: CStr, k: ArchInt): CStr {
    def l: ArchInt = String.getLength(p);
    if k > l k = l;
    return p~cnt(k)~ptr~cast[CStr];
}
func dumpStrs(s: ref[array[String, 5]]) {
    def i: Int;
    for i = 0, i < 5, ++i { Sim.logs(100 + i, s(i).buf); Sim.log(100 + i, s(i).getLength()); }
}
func dumpWs(s: ref[array[WString, 3]]) {
    def i: Int;
    for i = 0, i < 3, ++i { Sim.logb(150 + i, s(i).buf~cast[CStr], s(i).getLength() * 4); }
}
func dumpArys(a: ref[array[Array[String], 4]]) {
    def i: Int;
    def j: Int;
    for i = 0, i < 4, ++i {
        Sim.log(200 + i, a(i).getLength());
        for j = 0, j < a(i).getLength(), ++j Sim.logs(200 + i, a(i)(j).buf);
    }
}
func dumpObjs(a: ref[array[Array[Obj], 3]]) {
    def i: Int;
    def j: Int;
    for i = 0, i < 3, ++i {
        Sim.log(300 + i, a(i).getLength());
        for j = 0, j < a(i).getLength(), ++j Sim.log(300 + i, a(i)(j).id);
    }
}
func dumpMap(t: Int, m: ref[Map[String, Int]]) {
    def j: Int;
    Sim.log(t, m.getLength());
    Sim.log(t, m.values.getLength());
    for j = 0, j < m.getLength(), ++j {
        Sim.logs(t, m.keyAt(j).buf);
        Sim.log(t, m.valAt(j));
        Sim.log(t, m.findPos(m.keyAt(j)));
    }
}
func dumpNMap(t: Int, m: ref[Map[Int, String]]) {
    def j: Int;
    Sim.log(t, m.getLength());
    Sim.log(t, m.values.getLength());
    for j = 0, j < m.getLength(), ++j {
        Sim.log(t, m.keyAt(j));
        Sim.logs(t, m.valAt(j).buf);
        Sim.log(t, m.findPos(m.keyAt(j)));
    }
}
func strOp(op: Int, s: ref[array[String, 5]], a: ref[array[Array[String], 4]]) {
    def i: Int = Sim.next();
    def j: Int;
    def k: Int;
    if op == 1 s(i) = nstr()
    else if op == 2 { j = Sim.next(); s(i) = s(j); }
    else if op == 3 { j = Sim.next(); k = Sim.next(); s(i) = off(s(j).buf, k); }
    else if op == 4 { j = Sim.next(); k = Sim.next(); s(i).append(Sim.str(j), k); }
    else if op == 5 { j = Sim.next(); k = Sim.next(); s(i).append(off(s(j).buf, k)); }
    else if op == 6 s(i).append(Sim.next()~cast[Char])
    else if op == 7 s(i).append(Sim.nextl())
    else if op == 8 s(i).append(Sim.nextl()~cast[Float[64]] / 8.0f64)
    else if op == 9 { j = Sim.next(); s(i) = s(j) + nstr(); }
    else if op == 10 { j = Sim.next(); k = Sim.next(); s(i) = s(j).replace(Sim.str(k), nstr()); }
    else if op == 11 {
        j = Sim.next(); k = Sim.next();
        if k == 0 s(i) = s(j).trim() else if k == 1 s(i) = s(j).trimStart() else s(i) = s(j).trimEnd();
    }
    else if op == 12 { j = Sim.next(); s(i) = s(j).toUpperCase(); }
    else if op == 13 { j = Sim.next(); s(i) = s(j).toLowerCase(); }
    else if op == 14 { j = Sim.next(); k = Sim.next(); s(i) = s(j).slice(k, Sim.next()); }
    else if op == 15 { j = Sim.next(); a(j) = s(i).split(nstr()); }
    else if op == 16 { j = Sim.next(); s(i) = String.merge(a(j), nstr()); }
    else if op == 17 s(i).clear()
    else if op == 18 s(i).realloc(Sim.next())
    else if op == 19 { j = Sim.next(); k = Sim.next(); s(i).alloc(k); String.copy(s(i).buf, Sim.str(j)); }
    else if op == 20 {
        j = Sim.next();
        Sim.log(1, s(i).find(Sim.str(j)));
        Sim.log(1, s(i).findLast(Sim.str(j)));
        k = Sim.next();
        Sim.log(1, s(i).find(k, Sim.str(j)));
        k = Sim.next();
        Sim.log(1, s(i).find(k~cast[Char]));
        Sim.log(1, s(i).findLast(k~cast[Char]));
        k = s(i).compare(Sim.str(j));
        if k < 0 k = -1 else if k > 0 k = 1;
        Sim.log(1, k);
        if s(i) == Sim.str(j) Sim.log(1, 1) else Sim.log(1, 0);
        if s(i) < Sim.str(j) Sim.log(1, 1) else Sim.log(1, 0);
    }
    else if op == 21 {
        j = Sim.next();
        s(i) = String.format("%s|%i|%l|%c|%%|%d", s(j).buf, Sim.next(), Sim.nextl(), Sim.next()~cast[Char], Sim.nextl()~cast[Float[64]] / 8.0f64);
    }
    else if op == 22 { Sim.log(1, String.parseInt(s(i))); Sim.logf(1, String.parseFloat(s(i))); }
    else if op == 23 { j = Sim.next(); k = Sim.next(); s(i).assign(Sim.str(j), k); }
    else if op == 24 { def t: String(s(i).buf); j = Sim.next(); String.replace(t.buf, j~cast[Char], Sim.next()~cast[Char]); s(i) = t; }
    else if op == 25 { def t: String(s(i).buf); j = Sim.next(); String.remove(t.buf, j~cast[Char]); s(i) = t; }
    else if op == 26 { j = Sim.next(); k = Sim.next(); s(i) += s(j) + s(k).buf; }
    else if op == 27 { s(i) += Sim.nextl()~cast[Float[64]] / 10000000.0f64; }
    else if op == 28 { j = Sim.next(); a(j) = Array[String](3, s(i), String("mid"), s(i)); }
    else if op == 29 { def n: Nullable[String]; j = Sim.next(); n = s(j); n.value += "!"; s(i) = n.value; if n.isNull Sim.log(1, 1) else Sim.log(1, 0); n.nullify(); if n.isNull Sim.log(1, 1) else Sim.log(1, 0); };
}
func aryOp(op: Int, s: ref[array[String, 5]], a: ref[array[Array[String], 4]]) {
    def i: Int = Sim.next();
    def j: Int;
    def k: Int;
    if op == 40 a(i).add(String(nstr()))
    else if op == 41 a(i).add(s(Sim.next()))
    else if op == 42 { j = Sim.next(); a(i) = a(j); }
    else if op == 43 { j = Sim.next(); a(i).insert(j, String(nstr())); }
    else if op == 44 a(i).remove(Sim.next())
    else if op == 45 { j = Sim.next(); a(i).set(j, s(Sim.next())); }
    else if op == 46 { j = Sim.next(); k = Sim.next(); a(i) = a(j).slice(k, Sim.next()); }
    else if op == 47 a(i).add(a(Sim.next()))
    else if op == 48 a(i).reserve(Sim.next())
    else if op == 49 a(i).clear()
    else if op == 50 { j = Sim.next(); Sim.log(1, a(i).findPos(s(j))); }
    else if op == 51 { j = Sim.next(); if j < a(i).getLength() a(i).add(a(i)(j)); }
    else if op == 52 { j = Sim.next(); k = Sim.next(); if j < a(i).getLength() a(i).insert(k, a(i)(j)); }
    else if op == 53 { j = Sim.next(); k = Sim.next(); if j < a(i).getLength() a(i)(j) = s(k); }
    else if op == 54 { def t: Array[String] = a(i); j = Sim.next(); if j < t.getLength() { t.remove(j); t.add(String("t")); }; k = Sim.next(); a(k) = t; };
}
func objOp(op: Int, a: ref[array[Array[Obj], 3]]) {
    def i: Int = Sim.next();
    def j: Int;
    def k: Int;
    if op == 60 a(i).add(Obj(Sim.next()))
    else if op == 61 { j = Sim.next(); a(i) = a(j); }
    else if op == 62 { j = Sim.next(); k = Sim.next(); a(i).insert(j, Obj(k)); }
    else if op == 63 a(i).remove(Sim.next())
    else if op == 64 { j = Sim.next(); k = Sim.next(); a(i).set(j, Obj(k)); }
    else if op == 65 { j = Sim.next(); k = Sim.next(); a(i) = a(j).slice(k, Sim.next()); }
    else if op == 66 a(i).add(a(Sim.next()))
    else if op == 67 a(i).reserve(Sim.next())
    else if op == 68 a(i).clear()
    else if op == 69 { j = Sim.next(); def o: Obj(j); Sim.log(1, a(i).findPos(o)); }
    else if op == 70 { j = Sim.next(); k = Sim.next(); if j < a(i).getLength() a(i).insert(k, a(i)(j)); }
    else if op == 71 { j = Sim.next(); k = Sim.next(); if j < a(i).getLength() a(i).set(k, a(i)(j)); };
}
func mapOp(op: Int, m: ref[Map[String, Int]], o: ref[Map[String, Int]]) {
    def k: Int;
    if op == 80 { k = Sim.next(); m.set(String(Sim.str(k)), Sim.next()); }
    else if op == 81 { k = Sim.next(); Sim.log(1, m.findPos(String(Sim.str(k)))); }
    else if op == 82 { k = Sim.next(); if k < m.getLength() m.setAt(k, Sim.next()) else Sim.next(); }
    else if op == 83 { k = Sim.next(); if m.remove(String(Sim.str(k))) Sim.log(1, 1) else Sim.log(1, 0); }
    else if op == 84 { k = Sim.next(); if k < m.getLength() m.removeAt(k); }
    else if op == 85 m.clear()
    else if op == 86 m = o
    else if op == 87 { k = Sim.next(); m(String(Sim.str(k))) = Sim.next(); }
    else if op == 88 {
        def t: Map[String, Int](o, true);
        k = Sim.next(); t.set(String(Sim.str(k)), Sim.next());
        k = Sim.next(); t.remove(String(Sim.str(k)));
        dumpMap(490, t);
        m = t;
    }
    else if op == 89 { k = Sim.next(); if k < m.getLength() { m.insert(k, String(nstr()), Sim.next()); } else { Sim.next(); Sim.next(); }; }
    else if op == 90 { def t: Map[String, Int](o); k = Sim.next(); t.set(String(Sim.str(k)), Sim.next()); dumpMap(491, t); };
}
func nmapOp(op: Int, m: ref[Map[Int, String]], o: ref[Map[Int, String]]) {
    def k: Int;
    if op == 100 { k = Sim.next(); m.set(k, String(nstr())); }
    else if op == 101 Sim.log(1, m.findPos(Sim.next()))
    else if op == 102 { k = Sim.next(); if k < m.getLength() m.setAt(k, String(nstr())) else Sim.next(); }
    else if op == 103 { if m.remove(Sim.next()) Sim.log(1, 1) else Sim.log(1, 0); }
    else if op == 104 { k = Sim.next(); if k < m.getLength() m.removeAt(k); }
    else if op == 105 m.clear()
    else if op == 106 m = o
    else if op == 107 { k = Sim.next(); m(k) += nstr(); }
    else if op == 108 {
        def t: Map[Int, String](o, true);
        k = Sim.next(); t.set(k, String(nstr()));
        t.remove(Sim.next());
        dumpNMap(492, t);
        m = t;
    }
    else if op == 109 { k = Sim.next(); if k < m.getLength() { def x: Int = Sim.next(); m.insert(k, x, String(nstr())); } else { Sim.next(); Sim.next(); }; };
}
func sbOp(op: Int, b: ref[StringBuilder], s: ref[array[String, 5]]) {
    def j: Int;
    def k: Int;
    if op == 120 b.append(nstr())
    else if op == 121 { j = Sim.next(); k = Sim.next(); if k > String.getLength(Sim.str(j)) k = String.getLength(Sim.str(j)); b.append(Sim.str(j), k); }
    else if op == 122 b.append(Sim.next()~cast[Char])
    else if op == 123 b += Sim.nextl()
    else if op == 124 b += Sim.nextl()~cast[Float[64]] / 8.0f64
    else if op == 125 { j = Sim.next(); b.format("<%s,%i,%l,%c,%%,%d>", s(j).buf, Sim.next(), Sim.nextl(), Sim.next()~cast[Char], Sim.nextl()~cast[Float[64]] / 8.0f64); }
    else if op == 126 b.clear()
    else if op == 127 { j = Sim.next(); s(j) = b; }
    else if op == 128 { j = Sim.next(); b.init(s(j), Sim.next()); }
    else if op == 129 { j = Sim.next(); b.init(j, Sim.next()); }
    else if op == 130 b.append(off(b.string.buf, Sim.next()));
    Sim.log(1, b.getLength());
}
func wOp(op: Int, w: ref[array[WString, 3]]) {
    def i: Int = Sim.next();
    def j: Int;
    def k: Int;
    if op == 140 w(i) = wstr()
    else if op == 141 { j = Sim.next(); w(i) = w(j); }
    else if op == 142 { w(i).append(wstr()); }
    else if op == 143 { w(i).append(Sim.next()~cast[Word]); }
    else if op == 144 { j = Sim.next(); w(i) = w(j).trim(); }
    else if op == 145 { j = Sim.next(); k = Sim.next(); w(i) = w(j).slice(k, Sim.next()); }
    else if op == 146 { j = Sim.next(); k = Sim.next(); w(i) = w(j).replace(Sim.str(k)~cast[WStr], wstr()); }
    else if op == 147 { j = Sim.next(); Sim.log(1, w(i).find(Sim.str(j)~cast[WStr])); Sim.log(1, w(i).find(Sim.next()~cast[Word])); Sim.log(1, w(i).findLast(Sim.str(j)~cast[WStr])); }
    else if op == 148 {
        def ps: Array[WString] = w(i).split(wstr());
        Sim.log(1, ps.getLength());
        for j = 0, j < ps.getLength(), ++j Sim.logb(2, ps(j).buf~cast[CStr], ps(j).getLength() * 4);
    }
    else if op == 149 { j = Sim.next(); w(i).append(w(j).buf); }
    else if op == 150 { w(i).clear(); };
}
func loop() {
    def s: array[String, 5];
    def a: array[Array[String], 4];
    def o: array[Array[Obj], 3];
    def w: array[WString, 3];
    def m0: Map[String, Int];
    def m1: Map[String, Int](true);
    def n0: Map[Int, String];
    def n1: Map[Int, String](true);
    def b0: StringBuilder(4, 4);
    def b1: StringBuilder;
    def op: Int;
    def t: Int;
    def k: Int(0);
    for t = 0, t < 5, ++t s(t)~init();
    for t = 0, t < 4, ++t a(t)~init();
    for t = 0, t < 3, ++t { o(t)~init(); w(t)~init(); }
    while 1 {
        op = Sim.next();
        if op < 1 break;
        Sim.mark(k);
        ++k;
        if op < 40 strOp(op, s, a)
        else if op < 60 aryOp(op, s, a)
        else if op < 80 objOp(op, o)
        else if op < 100 {
            t = Sim.next();
            if t == 0 mapOp(op, m0, m1) else if t == 1 mapOp(op, m1, m0) else if t == 2 mapOp(op, m0, m0) else mapOp(op, m1, m1);
            dumpMap(400, m0); dumpMap(401, m1);
        } else if op < 120 {
            t = Sim.next();
            if t == 0 nmapOp(op, n0, n1) else if t == 1 nmapOp(op, n1, n0) else if t == 2 nmapOp(op, n0, n0) else nmapOp(op, n1, n1);
            dumpNMap(402, n0); dumpNMap(403, n1);
        } else if op < 140 {
            if Sim.next() == 0 sbOp(op, b0, s) else sbOp(op, b1, s);
            Sim.logs(500, b0.string.buf);
            Sim.logs(501, b1.string.buf);
        } else if op < 160 {
            wOp(op, w);
            dumpWs(w);
        };
        if op < 60 or op >= 120 and op < 140 { dumpStrs(s); };
        if op < 60 dumpArys(a);
        if op >= 60 and op < 80 dumpObjs(o);
        Sim.mark(1000000);
    }
    for t = 0, t < 5, ++t s(t)~terminate();
    for t = 0, t < 4, ++t a(t)~terminate();
    for t = 0, t < 3, ++t { o(t)~terminate(); w(t)~terminate(); }
}
func main() {
    if Sim.serve() == 0 return;
    Sim.track(1);
    if Sim.next() == 1 Memory.overrideAllocator(Sim.alloc2~ptr, Sim.realloc2~ptr, Sim.allocAligned2~ptr, Sim.free2~ptr);
    loop();
    Sim.track(0);
    Sim.log(95, liveObjs);
    Sim.checkHeap();
    Sim.done();
}
main();
'''


def i32(v):
    return (v + 2**31) % 2**32 - 2**31


def i64(v):
    return (v + 2**63) % 2**64 - 2**63


def fmt_float(f):
    """The documented fixed format with six digits after the point."""
    o = b''
    if f < 0:
        f = -f
        o = b'-'
    n = int(f)
    fr = int((f - n) * 1000000.0 + 0.5)
    if fr >= 1000000:
        n, fr = n + 1, fr - 1000000
    return o + b'%d.%06d' % (n, fr)


def cfind(s, c, last=False):
    if c == 0:
        return len(s)
    return (s.rfind if last else s.find)(bytes([c]))


def wsplit(x, sep):
    if not sep:
        return [x]
    r, i, b = [], 0, 0
    while i <= len(x) - len(sep):
        if x[i:i + len(sep)] == sep:
            r.append(x[b:i])
            i += len(sep)
            b = i
        else:
            i += 1
    return r + [x[b:]]


def wfind(x, sep, last=False):
    rng = range(0, len(x) - len(sep) + 1)
    if not sep:
        return 0
    for i in (reversed(rng) if last else rng):
        if x[i:i + len(sep)] == sep:
            return i
    return -1


class Model:
    """Value semantics: a copy is independent of its original.  `shared` flags lists that may still share their elements
    with a copy; the generator keeps element references away from those (see the known finding)."""

    def __init__(self, pool):
        self.pool = [x.encode('latin-1') for x in pool]
        self.s = [b''] * 5
        self.a = [[] for _ in range(4)]
        self.ash = [False] * 4
        self.o = [[] for _ in range(3)]
        self.w = [() for _ in range(3)]
        self.m = [[], []]            # [key, value] pairs in order
        self.n = [[], []]
        self.msh = [False] * 4       # m0 m1 n0 n1
        self.b = [b'', b'']
        self.bstart = [False, False]
        self.out = []
        self.unsafe = False

    def L(self, t, v):
        self.out.append('L %d %d' % (t, v))

    def S(self, t, b):
        self.out.append('S %d %s' % (t, b.hex()))

    def wstr(self, i):
        b = self.pool[i]
        r = []
        for k in range(0, len(b) - 3, 4):
            v = struct.unpack('<I', b[k:k + 4])[0]
            if v == 0:
                break
            r.append(v)
        return tuple(r)

    def off(self, s, k):
        return s[min(k, len(s)):]

    def step(self, op):
        self.out = []
        a = iter(op[1:])
        nx = lambda: next(a)
        code = op[0]
        if code < 40:
            self.strop(code, nx)
        elif code < 60:
            self.aryop(code, nx)
        elif code < 80:
            self.objop(code, nx)
        elif code < 100:
            t = nx()
            self.mapop(code, nx, self.m, 0, *[(0, 1), (1, 0), (0, 0), (1, 1)][min(t, 3)], base=80)
            self.dumpm(400, self.m[0])
            self.dumpm(401, self.m[1])
        elif code < 120:
            t = nx()
            self.mapop(code, nx, self.n, 2, *[(0, 1), (1, 0), (0, 0), (1, 1)][min(t, 3)], base=100)
            self.dumpm(402, self.n[0])
            self.dumpm(403, self.n[1])
        elif code < 140:
            self.sbop(code, nx, 0 if nx() == 0 else 1)
            self.S(500, self.b[0])
            self.S(501, self.b[1])
        else:
            self.wop(code, nx)
            for i in range(3):
                self.S(150 + i, b''.join(struct.pack('<I', c) for c in self.w[i]))
        if code < 60 or 120 <= code < 140:
            for i in range(5):
                self.S(100 + i, self.s[i])
                self.L(100 + i, len(self.s[i]))
        if code < 60:
            for i in range(4):
                self.L(200 + i, len(self.a[i]))
                for x in self.a[i]:
                    self.S(200 + i, x)
        if 60 <= code < 80:
            for i in range(3):
                self.L(300 + i, len(self.o[i]))
                for x in self.o[i]:
                    self.L(300 + i, x)
        return self.out

    def dumpm(self, t, m):
        self.L(t, len(m))
        self.L(t, len(m))
        for j, (k, v) in enumerate(m):
            for x in (k, v):
                if isinstance(x, bytes):
                    self.S(t, x)
                else:
                    self.L(t, x)
            self.L(t, j)

    def strop(self, op, nx):
        s, P = self.s, self.pool
        i = nx()
        if op == 1:
            s[i] = P[nx()]
        elif op == 2:
            s[i] = s[nx()]
        elif op == 3:
            j, k = nx(), nx()
            s[i] = self.off(s[j], k)
        elif op == 4:
            j, k = nx(), nx()
            s[i] += P[j][:k]
        elif op == 5:
            j, k = nx(), nx()
            s[i] += self.off(s[j], k)
        elif op == 6:
            s[i] += bytes([nx()])
        elif op == 7:
            s[i] += b'%d' % nx()
        elif op == 8:
            s[i] += fmt_float(float(nx()) / 8.0)
        elif op == 9:
            j = nx()
            s[i] = s[j] + P[nx()]
        elif op == 10:
            j, k = nx(), nx()
            r = P[nx()]
            s[i] = s[j].replace(P[k], r) if P[k] else s[j]
        elif op == 11:
            j, k = nx(), nx()
            ws = b' \n\r\t'
            s[i] = s[j].strip(ws) if k == 0 else s[j].lstrip(ws) if k == 1 else s[j].rstrip(ws)
        elif op == 12:
            s[i] = s[nx()].upper()
        elif op == 13:
            s[i] = s[nx()].lower()
        elif op == 14:
            j, k, n = nx(), nx(), nx()
            s[i] = s[j][k:k + n]
        elif op == 15:
            j = nx()
            sep = P[nx()]
            self.a[j] = s[i].split(sep) if sep else [s[i]]
            self.ash[j] = False
        elif op == 16:
            j = nx()
            s[i] = P[nx()].join(self.a[j])
        elif op == 17:
            s[i] = b''
        elif op == 18:
            s[i] = s[i][:nx()]
        elif op == 19:
            j = nx()
            nx()
            s[i] = P[j]
        elif op == 20:
            x, y = s[i], P[nx()]
            self.L(1, x.find(y))
            self.L(1, 0 if not y else x.rfind(y))
            k = nx()
            self.L(1, -1 if k > len(x) else x.find(y, k))
            k = nx()
            self.L(1, cfind(x, k))
            self.L(1, cfind(x, k, True))
            self.L(1, (x > y) - (x < y))
            self.L(1, x == y)
            self.L(1, x < y)
        elif op == 21:
            j, a, b, c, d = nx(), nx(), nx(), nx(), nx()
            s[i] = s[j] + b'|%d|%d|%c|%%|' % (a, b, c) + fmt_float(float(d) / 8.0)
        elif op == 22:
            x = s[i]
            neg = x[:1] == b'-'
            p = 1 if neg else 0
            v, f = 0, 0.0
            q = p
            while q < len(x) and 48 <= x[q] <= 57:
                v = i64(v * 10 + x[q] - 48)
                f = f * 10.0 + float(x[q] - 48)
                q += 1
            if q < len(x) and x[q] == 46:
                q += 1
                m = 1.0
                while q < len(x) and 48 <= x[q] <= 57:
                    m /= 10.0
                    f += m * float(x[q] - 48)
                    q += 1
            self.L(1, i64(-v) if neg else v)
            if neg and f != 0:
                f = -f
            self.out.append('L 1 %d' % struct.unpack('<Q', struct.pack('<d', f))[0])
        elif op == 23:
            j, k = nx(), nx()
            s[i] = P[j][:k]
        elif op == 24:
            j, k = nx(), nx()
            s[i] = s[i].replace(bytes([j]), bytes([k]))
        elif op == 25:
            s[i] = s[i].replace(bytes([nx()]), b'')
        elif op == 26:
            j, k = nx(), nx()
            s[i] += s[j] + s[k]
        elif op == 27:
            s[i] += fmt_float(float(nx()) / 10000000.0)
        elif op == 28:
            j = nx()
            self.a[j] = [s[i], b'mid', s[i]]
            self.ash[j] = False
        elif op == 29:
            s[i] = s[nx()] + b'!'
            self.L(1, 0)
            self.L(1, 1)

    def insert(self, l, i, v):
        if i < 0 or i >= len(l):
            l.append(v)
        else:
            l.insert(i, v)

    def aryop(self, op, nx):
        a, s, P, sh = self.a, self.s, self.pool, self.ash
        i = nx()
        own = False
        if op == 40:
            a[i].append(P[nx()])
            own = True
        elif op == 41:
            a[i].append(s[nx()])
            own = True
        elif op == 42:
            j = nx()
            a[i] = list(a[j])
            sh[i] = sh[j] = True
        elif op == 43:
            j = nx()
            self.insert(a[i], j, P[nx()])
            own = True
        elif op == 44:
            j = nx()
            if 0 <= j < len(a[i]):
                a[i].pop(j)
                own = True
        elif op == 45:
            j = nx()
            v = s[nx()]
            if 0 <= j < len(a[i]):
                a[i][j] = v
            else:
                a[i].append(v)
            own = True
        elif op == 46:
            j, k, n = nx(), nx(), nx()
            a[i] = a[j][k:k + n]
            own = True
        elif op == 47:
            j = nx()
            a[i].extend(list(a[j]))
            own = own or bool(a[j])
        elif op == 48:
            nx()
        elif op == 49:
            a[i] = []
            own = True
        elif op == 50:
            v = s[nx()]
            self.L(1, a[i].index(v) if v in a[i] else -1)
        elif op == 51:
            j = nx()
            if j < len(a[i]):
                a[i].append(a[i][j])
                own = True
        elif op == 52:
            j, k = nx(), nx()
            if j < len(a[i]):
                self.insert(a[i], k, a[i][j])
                own = True
        elif op == 53:
            j = nx()
            v = s[nx()]
            if j < len(a[i]):
                a[i][j] = v
            if sh[i]:
                self.unsafe = True
        elif op == 54:
            j, k = nx(), nx()
            t = list(a[i])
            if j < len(t):
                t.pop(j)
                t.append(b't')
            else:
                sh[i] = sh[k] = True
            a[k] = t
        if own:
            sh[i] = False

    def objop(self, op, nx):
        o = self.o
        i = nx()
        if op == 60:
            o[i].append(nx())
        elif op == 61:
            o[i] = list(o[nx()])
        elif op == 62:
            j, k = nx(), nx()
            self.insert(o[i], j, k)
        elif op == 63:
            j = nx()
            if 0 <= j < len(o[i]):
                o[i].pop(j)
        elif op == 64:
            j, k = nx(), nx()
            if 0 <= j < len(o[i]):
                o[i][j] = k
            else:
                o[i].append(k)
        elif op == 65:
            j, k, n = nx(), nx(), nx()
            o[i] = o[j][k:k + n]
        elif op == 66:
            o[i].extend(list(o[nx()]))
        elif op == 67:
            nx()
        elif op == 68:
            o[i] = []
        elif op == 69:
            v = nx()
            self.L(1, o[i].index(v) if v in o[i] else -1)
        elif op == 70:
            j, k = nx(), nx()
            if j < len(o[i]):
                self.insert(o[i], k, o[i][j])
        elif op == 71:
            j, k = nx(), nx()
            if j < len(o[i]):
                if 0 <= k < len(o[i]):
                    o[i][k] = o[i][j]
                else:
                    o[i].append(o[i][j])

    def put(self, m, k, v):
        for e in m:
            if e[0] == k:
                e[1] = v
                return
        m.append([k, v])

    def find(self, m, k):
        for j, e in enumerate(m):
            if e[0] == k:
                return j
        return -1

    def mapop(self, op, nx, M, sb, x, y, base):
        P = self.pool
        m, o = M[x], M[y]
        sh = self.msh
        K = (lambda: P[nx()]) if base == 80 else nx
        V = nx if base == 80 else (lambda: P[nx()])
        op -= base
        if op == 0:
            k = K()
            self.put(m, k, V())
            sh[sb + x] = False
        elif op == 1:
            self.L(1, self.find(m, K()))
        elif op == 2:
            k = nx()
            v = V()
            if k < len(m):
                m[k][1] = v
                sh[sb + x] = False
        elif op == 3:
            j = self.find(m, K())
            if j >= 0:
                m.pop(j)
                sh[sb + x] = False
            self.L(1, j >= 0)
        elif op == 4:
            k = nx()
            if k < len(m):
                m.pop(k)
                sh[sb + x] = False
        elif op == 5:
            del m[:]
            sh[sb + x] = False
        elif op == 6:
            M[x] = [list(e) for e in o]
            sh[sb + x] = sh[sb + y] = True
        elif op == 7:
            k = K()
            v = V()
            j = self.find(m, k)
            if base == 80:
                self.put(m, k, v)
            else:
                self.put(m, k, (m[j][1] if j >= 0 else b'') + v)
            if j >= 0 and sh[sb + x]:
                self.unsafe = True
            if j < 0:
                sh[sb + x] = False
        elif op == 8:
            t = [list(e) for e in o]
            k = K()
            self.put(t, k, V())
            j = self.find(t, K())
            if j >= 0:
                t.pop(j)
            self.dumpm(490 if base == 80 else 492, t)
            M[x] = t
            sh[sb + x] = False
        elif op == 9:
            k = nx()
            key = K() if k < len(m) else nx()
            v = V()
            if k < len(m):
                if self.find(m, key) >= 0:
                    self.unsafe = True      # a second entry for a key is outside the model
                m.insert(k, [key, v])
                sh[sb + x] = False
        elif op == 10:
            t = [list(e) for e in o]
            k = K()
            self.put(t, k, V())
            self.dumpm(491, t)

    def sbop(self, op, nx, x):
        b, s, P = self.b, self.s, self.pool
        if op == 120:
            b[x] += P[nx()]
        elif op == 121:
            j, k = nx(), nx()
            b[x] += P[j][:k]
        elif op == 122:
            b[x] += bytes([nx()])
        elif op == 123:
            b[x] += b'%d' % nx()
        elif op == 124:
            b[x] += fmt_float(float(nx()) / 8.0)
        elif op == 125:
            j, a, c, d, e = nx(), nx(), nx(), nx(), nx()
            b[x] += b'<' + s[j] + b',%d,%d,%c,%%,' % (a, c, d) + fmt_float(float(e) / 8.0) + b'>'
        elif op == 126:
            b[x] = b''
        elif op == 127:
            s[nx()] = b[x]
        elif op == 128:
            j = nx()
            nx()
            b[x] = s[j]
        elif op == 129:
            nx(), nx()
            b[x] = b''
        elif op == 130:
            b[x] += self.off(b[x], nx())
        self.L(1, len(b[x]))

    def wop(self, op, nx):
        w = self.w
        i = nx()
        if op == 140:
            w[i] = self.wstr(nx())
        elif op == 141:
            w[i] = w[nx()]
        elif op == 142:
            w[i] += self.wstr(nx())
        elif op == 143:
            w[i] += (nx() % 2**32,)
        elif op == 144:
            x = list(w[nx()])
            while x and x[0] in (32, 10, 13, 9):
                x.pop(0)
            while x and x[-1] in (32, 10, 13, 9):
                x.pop()
            w[i] = tuple(x)
        elif op == 145:
            j, k, n = nx(), nx(), nx()
            w[i] = w[j][k:k + n]
        elif op == 146:
            j, k = nx(), nx()
            r = self.wstr(nx())
            parts = wsplit(w[j], self.wstr(k))
            x = parts[0]
            for q in parts[1:]:
                x += r + q
            w[i] = x
        elif op == 147:
            y = self.wstr(nx())
            self.L(1, wfind(w[i], y))
            c = nx()
            self.L(1, len(w[i]) if c == 0 else wfind(w[i], (c % 2**32,)))
            self.L(1, wfind(w[i], y, True))
        elif op == 148:
            ps = wsplit(w[i], self.wstr(nx()))
            self.L(1, len(ps))
            for q in ps:
                self.S(2, b''.join(struct.pack('<I', c) for c in q))
        elif op == 149:
            w[i] += w[nx()]
        elif op == 150:
            w[i] = ()


NAMES = {1: 's=lit', 2: 's=s', 3: 's=part', 4: 's.append(p,n)', 5: 's.append(own)', 6: 's.append(c)', 7: 's.append(int)', 8: 's.append(float)', 9: 's+lit',
         10: 'replace', 11: 'trim', 12: 'upper', 13: 'lower', 14: 'slice', 15: 'split', 16: 'merge', 17: 'clear', 18: 'realloc', 19: 'alloc', 20: 'find/compare',
         21: 'format', 22: 'parse', 23: 'assign(p,n)', 24: 'replaceChar', 25: 'removeChar', 26: 's+=s+s', 27: 'append(float)', 28: 'Array(n,...)', 29: 'Nullable',
         40: 'a.add', 41: 'a.add(s)', 42: 'a=a', 43: 'a.insert', 44: 'a.remove', 45: 'a.set', 46: 'a.slice', 47: 'a.add(a)', 48: 'a.reserve', 49: 'a.clear',
         50: 'a.findPos', 51: 'a.add(a(j))', 52: 'a.insert(k,a(j))', 53: 'a(j)=', 54: 'a copy',
         60: 'o.add', 61: 'o=o', 62: 'o.insert', 63: 'o.remove', 64: 'o.set', 65: 'o.slice', 66: 'o.add(o)', 67: 'o.reserve', 68: 'o.clear', 69: 'o.findPos',
         70: 'o.insert(k,o(j))', 71: 'o.set(k,o(j))'}
for _b in (80, 100):
    for _i, _n in enumerate(['set', 'findPos', 'setAt', 'remove', 'removeAt', 'clear', 'm=m', 'm(k)=', 'copy(index)', 'insert', 'copy']):
        NAMES[_b + _i] = ('map.' if _b == 80 else 'nmap.') + _n
for _i, _n in enumerate(['append', 'append(p,n)', 'append(c)', 'int', 'float', 'format', 'clear', 's=b', 'init(s)', 'init(n)', 'append(own)']):
    NAMES[120 + _i] = 'sb.' + _n
for _i, _n in enumerate(['=lit', '=', 'append', 'append(c)', 'trim', 'slice', 'replace', 'find', 'split', 'append(own)', 'clear']):
    NAMES[140 + _i] = 'w.' + _n


def wlit(s):
    return (''.join(s).encode('utf-32-le') + b'\0\0\0\0').decode('latin-1')


class P10(C.Check):
    id = 'P10'
    level = 'exploration'
    quick = 50000
    technique = 'deterministic simulation: seeded operation histories on the library containers over a simulated allocator (guard pages, reuse, poison); every state compared with a value-semantics reference model'
    note = 'Seeded search over operation histories, allocator placement and reuse. Element references into an array or map that still shares storage with a copy are excluded (recorded known finding).'
    rule = ('a case is 1-40 operations over strings, wide strings, string builders, arrays, object arrays and maps that copy, alias and modify each other, '
            'with an allocator policy; distinct by complete event history')
    real = 'compiler, JIT, Srl.String, Srl.WString, Srl.StringBuilder, Srl.Array, Srl.Map, Srl.ArrayIndex, Srl.Nullable, Srl.Memory'
    stub = 'allocator (guard pages at either end, immediate reuse, poison), optionally also through Memory.overrideAllocator'
    measure = 'complete event histories'

    def fixed(self):
        r = []
        # what copies do, per container; the first two are the recorded finding
        r.append({'alloc': 0, 'heap': [1, 1, 0], 'pool': ['a', 'b'], 'ops': [[40, 0, 0], [42, 1, 0], [1, 0, 1], [53, 0, 0, 0]]})
        r.append({'alloc': 0, 'heap': [1, 1, 0], 'pool': ['a', 'b'], 'ops': [[80, 0, 0, 5], [86, 1], [87, 0, 0, 6]]})
        for heap in ([1, 1, 0], [2, 1, 0], [3, 1, 0], [4, 1, 0]):
            for ops in ([[1, 0, 0], [2, 0, 0]], [[1, 0, 0], [5, 0, 0, 0]], [[1, 0, 0], [3, 0, 0, 1]], [[40, 0, 0], [42, 0, 0]], [[1, 0, 0], [2, 1, 0], [18, 0, 2]],
                        [[7, 0, -2**63]], [[7, 0, -2**63 + 1]], [[7, 0, 2**63 - 1]], [[27, 0, 9999999]], [[1, 0, 0], [10, 0, 0, 2, 1]], [[1, 0, 0], [15, 0, 0, 2]],
                        [[120, 0, 0], [130, 0, 0], [130, 0, 1], [130, 0, 2]], [[123, 1, -2**63]]):
                r.append({'alloc': 0, 'heap': heap, 'pool': ['hello', 'l', ''], 'ops': ops})
        return r

    def gen(self, rng, i):
        al = rng.choice(['ab', 'abc', 'ab \n', 'aB1-.', 'a\xff\x80b'])
        pool = ['', ''.join(rng.choice(al) for _ in range(rng.randrange(1, 4))), ''.join(rng.choice(al) for _ in range(rng.choice([1, 2, 5, 20, 63, 200]))),
                rng.choice(['-12.375', '123456789012345678901', '-', '0.5x', '7', ' 5']), rng.choice([' x ', '\t\n', '%', 'ab']), rng.choice(list(al)), rng.choice(list(al)) * 2]
        wl = ['a', 'b', ' ', '\u0633', '\u0644', '\U0001f600']
        wp = [len(pool) + k for k in range(4)]
        pool += [wlit([]), wlit([rng.choice(wl)]), wlit([rng.choice(wl[:3]) for _ in range(2)]), wlit([rng.choice(wl) for _ in range(rng.choice([3, 8, 40]))])]
        P = lambda: rng.randrange(7)
        num = lambda: rng.choice([0, 1, -1, 9, 10, -10, 99, 2**31 - 1, -2**31, rng.randrange(-1000, 1000)])
        lng = lambda: rng.choice([num(), 2**63 - 1, -2**63, -2**63 + 1, 10**18, -10**18, rng.getrandbits(63) - 2**62])
        flt = lambda: rng.choice([0, 1, 7, -7, 8, -8, 12345678, rng.randrange(-10**9, 10**9)])
        ix = lambda: rng.choice([0, 0, 1, 1, 2, 3, 5, rng.randrange(12)])
        ixn = lambda: rng.choice([ix(), ix(), ix(), -1, 100])
        ch = lambda: rng.choice([97, 98, 32, 65, 49, 255, 10])
        r = lambda n: rng.randrange(n)
        alpha = lambda: {
            1: lambda: [r(5), P()], 2: lambda: [r(5), r(5)], 3: lambda: [r(5), r(5), ix()], 4: lambda: [r(5), P(), ix()], 5: lambda: [r(5), r(5), ix()],
            6: lambda: [r(5), ch()], 7: lambda: [r(5), lng()], 8: lambda: [r(5), flt()], 9: lambda: [r(5), r(5), P()], 10: lambda: [r(5), r(5), P(), P()],
            11: lambda: [r(5), r(5), r(3)], 12: lambda: [r(5), r(5)], 13: lambda: [r(5), r(5)], 14: lambda: [r(5), r(5), ix(), ix()], 15: lambda: [r(5), r(4), P()],
            16: lambda: [r(5), r(4), P()], 17: lambda: [r(5)], 18: lambda: [r(5), rng.choice([0, 1, 5, 50, 300])], 19: None,
            20: lambda: [r(5), P(), ix(), ch() if r(4) else 0], 21: lambda: [r(5), r(5), num(), lng(), ch(), flt()], 22: lambda: [r(5)],
            23: lambda: [r(5), P(), ix()], 24: lambda: [r(5), ch(), ch()], 25: lambda: [r(5), ch()], 26: lambda: [r(5), r(5), r(5)],
            27: lambda: [r(5), rng.choice([flt(), 9999999, 99999995, -9999999, 9999994, 19999996])], 28: lambda: [r(5), r(4)], 29: lambda: [r(5), r(5)],
            40: lambda: [r(4), P()], 41: lambda: [r(4), r(5)], 42: lambda: [r(4), r(4)], 43: lambda: [r(4), ixn(), P()], 44: lambda: [r(4), ixn()],
            45: lambda: [r(4), ixn(), r(5)], 46: lambda: [r(4), r(4), ix(), ix()], 47: lambda: [r(4), r(4)], 48: lambda: [r(4), rng.choice([0, 1, 2, 3, 8, 30])],
            49: lambda: [r(4)], 50: lambda: [r(4), r(5)], 51: lambda: [r(4), ix()], 52: lambda: [r(4), ix(), ixn()], 53: lambda: [r(4), ix(), r(5)],
            54: lambda: [r(4), ix(), r(4)],
            60: lambda: [r(3), r(6)], 61: lambda: [r(3), r(3)], 62: lambda: [r(3), ixn(), r(6)], 63: lambda: [r(3), ixn()], 64: lambda: [r(3), ixn(), r(6)],
            65: lambda: [r(3), r(3), ix(), ix()], 66: lambda: [r(3), r(3)], 67: lambda: [r(3), rng.choice([0, 1, 2, 3, 8, 30])], 68: lambda: [r(3)],
            69: lambda: [r(3), r(6)], 70: lambda: [r(3), ix(), ixn()], 71: lambda: [r(3), ix(), ixn()],
            80: lambda: [r(4), P(), num()], 81: lambda: [r(4), P()], 82: lambda: [r(4), ix(), num()], 83: lambda: [r(4), P()], 84: lambda: [r(4), ix()], 85: lambda: [r(4)],
            86: lambda: [r(4)], 87: lambda: [r(4), P(), num()], 88: lambda: [r(4), P(), num(), P()], 89: lambda: [r(4), ix(), P(), num()], 90: lambda: [r(4), P(), num()],
            100: lambda: [r(4), r(8), P()], 101: lambda: [r(4), r(8)], 102: lambda: [r(4), ix(), P()], 103: lambda: [r(4), r(8)], 104: lambda: [r(4), ix()], 105: lambda: [r(4)],
            106: lambda: [r(4)], 107: lambda: [r(4), r(8), P()], 108: lambda: [r(4), r(8), P(), r(8)], 109: lambda: [r(4), ix(), r(8), P()],
            120: lambda: [r(2), P()], 121: lambda: [r(2), P(), ix()], 122: lambda: [r(2), ch()], 123: lambda: [r(2), lng()], 124: lambda: [r(2), flt()],
            125: lambda: [r(2), r(5), num(), lng(), ch(), flt()], 126: lambda: [r(2)], 127: lambda: [r(2), r(5)], 128: lambda: [r(2), r(5), 1 + r(9)],
            129: lambda: [r(2), r(9), 1 + r(9)], 130: lambda: [r(2), ix()],
            140: lambda: [r(3), rng.choice(wp)], 141: lambda: [r(3), r(3)], 142: lambda: [r(3), rng.choice(wp)], 143: lambda: [r(3), rng.choice([97, 32, 0x633, 0x1f600])],
            144: lambda: [r(3), r(3)], 145: lambda: [r(3), r(3), ix(), ix()], 146: lambda: [r(3), r(3), rng.choice(wp), rng.choice(wp)],
            147: lambda: [r(3), rng.choice(wp), rng.choice([97, 32, 0x633, 0])], 148: lambda: [r(3), rng.choice(wp)], 149: lambda: [r(3), r(3)], 150: lambda: [r(3)],
        }
        A = alpha()
        groups = [list(range(1, 30)), list(range(40, 55)) + [1, 2, 15, 16, 28], list(range(60, 72)), list(range(80, 91)), list(range(100, 110)),
                  list(range(120, 131)) + [1, 2, 4, 7], list(range(140, 151)), sorted(A)]
        g = rng.choice(groups)
        if rng.random() < 0.5:
            g = rng.sample(g, max(2, len(g) // 2))
        m = Model(pool)
        ops = []
        for _ in range(rng.choice([2, 4, 8, 16, 30, 60])):
            c = rng.choice(g)
            if c == 19:
                j = P()
                op = [19, r(5), j, len(pool[j]) + r(5)]
            else:
                op = [c] + A[c]()
            trial = Model([])
            trial.__dict__.update({k: (list(map(list, v)) if k in 'ao' else [[list(e) for e in x] for x in v] if k in 'mn' else list(v) if isinstance(v, list) else v)
                                   for k, v in m.__dict__.items()})
            trial.step(op)
            if trial.unsafe or sum(map(len, trial.s)) + sum(map(len, trial.b)) > 6000 or sum(map(len, trial.a)) + sum(map(len, trial.o)) > 300 or sum(map(len, trial.w)) > 2000:
                continue
            m = trial
            ops.append(op)
        return {'alloc': r(2), 'heap': [rng.choice([1, 2, 3, 4]), rng.randrange(1 << 30), rng.choice([0, 0, 16])], 'pool': pool, 'ops': ops}

    def run(self, ctx, case):
        p = Plan().dir('/sim/w').add('heap', '%d %d %d' % tuple(case['heap'])).add('budget', 4000)
        for x in case['pool']:
            p.str(x.encode('latin-1'))
        ops = [case['alloc']]
        for o in case['ops']:
            ops += o
        return ctx.serve('p10', SOURCE, p.ops(ops + [0]))

    def judge(self, case, r):
        m = Model(case['pool'])
        lines = r.lines
        pos = 0
        for k, op in enumerate(case['ops']):
            want = ['MARK %d' % k] + m.step(op) + ['MARK 1000000']
            got = lines[pos:pos + len(want)]
            nm = NAMES.get(op[0], str(op[0]))
            if got != want:
                for j, x in enumerate(want):
                    if j >= len(got) or got[j] != x:
                        break
                g = got[j] if j < len(got) else None
                if r.status and pos + j >= len(lines) - 3 and not (g or '').startswith(('L ', 'S ')):
                    return ('hang-' if r.hung else 'crash-') + nm, 'operation %d %s: %s' % (k, op, r.how())
                if op[0] in (53, 87, 107) and m.unsafe:
                    return 'ref-into-shared', 'operation %d %s through an element reference changed a copy: got %s, expected %s' % (k, op, g, x)
                return 'wrong-' + nm, 'operation %d %s: event %d is %s, expected %s' % (k, op, j, g, x)
            pos += len(want)
        if r.status or lines[-1:] != ['DONE']:
            return ('hang-' if r.hung else 'crash-') + 'end', '%s; last events %s' % (r.how(), lines[-4:])
        for l in lines[pos:]:
            if l.startswith('HEAPBAD'):
                return 'heap', l
            if l.startswith('L 95 ') and l != 'L 95 1':
                return 'objects', 'objects alive after everything was destroyed: %s (1 is the shared dummy)' % l[5:]
            if l.startswith(('L 96 ', 'L 97 ', 'L 98 ')):
                return 'objects', 'an operation met an object that is not alive: ' + l
            if l.startswith('HEAP ') and l != 'HEAP live=0 bytes=0 bad=0':
                return 'leak', 'after everything was destroyed: ' + l
        return None

    def reduce(self, case):
        yield from C.ddfield(case, 'ops')
        if case['alloc']:
            yield dict(case, alloc=0)
        for k, x in enumerate(case['pool']):
            if len(x) > 1:
                yield dict(case, pool=case['pool'][:k] + [x[:len(x) // 8 * 4]] + case['pool'][k + 1:])

    def describe(self, case):
        return {'alloc': case['alloc'], 'heap': case['heap'], 'pool': [x[:40] for x in case['pool']], 'ops': [[NAMES.get(o[0], o[0])] + o[1:] for o in case['ops']]}


CHECK = P10()
