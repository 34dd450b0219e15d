"""Running one simulated execution of alusus (a plan in, an event log and the output out)."""
import ctypes, hashlib, os, resource, select, shutil, signal, struct, subprocess, tempfile
from . import build as B

LIBC = ctypes.CDLL(None, use_errno=True)
STUB = os.path.join(B.BUILD, 'stub')


class SimError(Exception):
    """The machinery failed (never a verdict)."""


class Plan:
    """A plan is a list of (keyword, text, payload or None); its text form is what libsim reads."""

    def __init__(self, lines=None):
        self.lines = list(lines or [])

    def add(self, kw, text='', payload=None):
        self.lines.append((kw, str(text), payload))
        return self

    def root(self, *rs):
        for r in rs:
            self.add('root', r)
        return self

    def file(self, path, data, mode=0o644):
        if isinstance(data, str):
            data = data.encode()
        return self.add('file', '%o %d %s' % (mode, len(data), path), data)

    def dir(self, p):
        return self.add('dir', p)

    def link(self, p, t):
        return self.add('link', '%s %s' % (p, t))

    def fault(self, cls, nth, act, arg=0):
        return self.add('fault', '%s %d %s %d' % (cls, nth, act, arg))

    def faults(self, fs):
        for f in fs:
            self.fault(*f)
        return self

    def stdin(self, data, chunks=None):
        if isinstance(data, str):
            data = data.encode()
        self.add('stdin', len(data), data)
        if chunks:
            self.add('stdinchunks', ','.join(map(str, chunks)))
        return self

    def chunks(self, c):
        return self.add('chunks', ','.join(map(str, c))) if c else self

    def ops(self, o):
        return self.add('ops', ','.join(str(int(x)) for x in o))

    def str(self, s):
        if isinstance(s, str):
            s = s.encode()
        return self.add('str', len(s), s)

    def net(self, url, data, chunk=0):
        if isinstance(data, str):
            data = data.encode()
        return self.add('net', '%d %d %s' % (chunk, len(data), url), data)

    def exec(self, match, code, out=b''):
        if isinstance(out, str):
            out = out.encode()
        return self.add('exec', '%d %d %s' % (code, len(out), match), out)

    def env(self, k, v):
        return self.add('env', '%s=%s' % (k, v))

    def text(self):
        out = []
        for kw, t, p in self.lines:
            out.append((kw + ' ' + t).rstrip().encode() + b'\n')
            if p is not None:
                out.append(p + b'\n')
        return b''.join(out)

    def dump(self):
        return [[k, t, None if p is None else p.decode('latin-1')] for k, t, p in self.lines]

    @staticmethod
    def load(d):
        return Plan([(k, t, None if p is None else p.encode('latin-1')) for k, t, p in d])


class Result:
    __slots__ = ('status', 'out', 'err', 'log', 'lines')

    def __init__(self, status, out, err, log):
        self.status, self.out, self.err, self.log = status, out, err, log
        self.lines = log.decode('latin-1').split('\n')[:-1] if log else []

    @property
    def crashed(self):
        return self.status < 0 and self.status not in (-signal.SIGXCPU, -signal.SIGPROF, -signal.SIGKILL)

    @property
    def hung(self):
        return self.status in (-signal.SIGXCPU, -signal.SIGPROF) or self.status == 99

    def how(self):
        if self.status in (-signal.SIGXCPU, -signal.SIGPROF):
            return 'hang: out of processor time'
        if self.status == 99:
            return 'hang: step budget exceeded (%s)' % next((l for l in reversed(self.lines) if l.startswith('BUDGET')), '')
        if self.status < 0:
            return 'crash: signal %d' % -self.status
        return 'exit %d' % self.status

    def hash(self):
        h = hashlib.sha256()
        h.update(b'%d\n' % self.status)
        h.update(self.out or b'')
        h.update(b'\0')
        h.update(self.log or b'')
        return h.hexdigest()[:16]

    def fired(self):
        r = {}
        for l in self.lines:
            if l.startswith('F '):
                w = l.split(' ')
                k = w[1] + ':' + w[3]
                r[k] = r.get(k, 0) + 1
            elif l.startswith('S ') and (l.endswith(' preempt') or l.endswith(' spurious')):
                k = 'thread:' + ('preemption' if l[-1] == 't' else 'spurious wake-up')
                r[k] = r.get(k, 0) + 1
        return r


def scratch(tag='s'):
    d = tempfile.mkdtemp(prefix='simw-', dir='/tmp')
    return d


def _env(extra):
    e = {
        'LANG': 'C.UTF-8', 'HOME': '/sim/home', 'PATH': '/usr/bin:/bin', 'TZ': 'UTC',
        'LD_LIBRARY_PATH': '%s/Core:%s/Spp' % (B.OBJ, B.OBJ),
        'ALUSUS_LIBS': '%s/Sources/Srt:%s/Spp:%s' % (B.SRC, B.OBJ, STUB),
        'LD_PRELOAD': B.LIBSIM,
    }
    for k, v in (extra or {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    return e


def _pre(cpu, legacy=False):
    def f():
        # no address randomisation; the legacy layout maps memory upwards from the middle instead of downwards from the stack
        LIBC.personality(0x0040000 | (0x0200000 if legacy else 0))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        os.umask(0o022)
    return f


class Runner:
    """Fresh process per run."""

    def __init__(self):
        self.dir = scratch()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def run(self, plan, args, env=None, cpu=25, wall=120, binary=None, legacy=False):
        pf, lf = os.path.join(self.dir, 'plan'), os.path.join(self.dir, 'log')
        with open(pf, 'wb') as f:
            f.write(plan.text() if isinstance(plan, Plan) else plan)
        e = _env(env)
        e['SIM_PLAN'], e['SIM_LOG'] = pf, lf
        p = subprocess.Popen([binary or B.ALUSUS] + list(args), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=e, cwd='/', preexec_fn=_pre(cpu, legacy))
        try:
            out, err = p.communicate(timeout=wall)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            # blocked without using processor time: a deadlock the simulator did not see
            p.returncode = -signal.SIGKILL
        if p.returncode in (96, 97):
            raise SimError('simulator start-up failed: %r' % err[-300:])
        if p.returncode == -signal.SIGKILL:
            raise SimError('run killed (wall clock or memory)')
        log = b''
        try:
            with open(lf, 'rb') as f:
                n = struct.unpack('<Q', f.read(8))[0]
                f.seek(64)
                log = f.read(n)
        except (OSError, struct.error):
            pass
        return Result(p.returncode, out, err, log)


class Server:
    """One compiled program, forked once per plan (the program calls sim_serve / sim_done)."""

    def __init__(self, source, env=None, files=None):
        self.dir = scratch()
        self.source, self.envx = source, env
        base = Plan().root('/sim', '/tmp').add('cwd', '/sim/w').dir('/sim/w').dir('/sim/home')
        for k, v in (files or {}).items():
            base.file(k, v)
        base.file('/sim/w/main.alusus', source)
        base.add('budget', 4000000)
        self.base = base
        pf, lf = os.path.join(self.dir, 'plan'), os.path.join(self.dir, 'log')
        with open(pf, 'wb') as f:
            f.write(base.text())
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()
        e = _env(env)
        e['SIM_PLAN'], e['SIM_LOG'] = pf, lf
        # fixed descriptor numbers keep the environment identical between servers
        def pre():
            _pre(36000)()
            os.dup2(a_r, 200)
            os.dup2(b_w, 201)
        e['SIM_SERVE'] = '200,201'
        self.outf = open(os.path.join(self.dir, 'out'), 'wb')
        self.p = subprocess.Popen([B.ALUSUS, '/sim/w/main.alusus'], stdin=subprocess.DEVNULL, stdout=self.outf,
                                  stderr=self.outf, env=e, cwd='/', preexec_fn=pre, close_fds=False, pass_fds=())
        os.close(a_r)
        os.close(b_w)
        self.w, self.r = a_w, b_r
        if not select.select([self.r], [], [], 200)[0] or len(self._rd(4, True)) < 4:
            self.p.kill()
            self.p.wait()
            self.outf.close()
            with open(os.path.join(self.dir, 'out'), 'rb') as f:
                o = f.read()
            self.startup_output = o
            shutil.rmtree(self.dir, ignore_errors=True)
            raise WorkloadBuildFailed(o)

    def _rd(self, n, part=False):
        b = b''
        while len(b) < n:
            c = os.read(self.r, n - len(b))
            if not c:
                if part:
                    return b
                raise SimError('server died')
            b += c
        return b

    def run(self, plan):
        t = plan.text()
        os.write(self.w, struct.pack('<I', len(t)))
        o = 0
        while o < len(t):
            o += os.write(self.w, t[o:o + 65536])
        st, n = struct.unpack('<II', self._rd(8))
        log = self._rd(n)
        status = -(st & 127) if st & 127 else (st >> 8) & 255
        if status in (96, 97):
            raise SimError('bad plan')
        if status == -9:
            raise SimError('run killed')
        return Result(status, b'', b'', log)

    def close(self):
        try:
            os.close(self.w)
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()
            self.p.wait()
        os.close(self.r)
        self.outf.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class WorkloadBuildFailed(Exception):
    """The workload program of a check did not start (it failed to compile or crashed on the way)."""

    def __init__(self, out):
        super().__init__(out[-2000:].decode('utf-8', 'replace'))
        self.out = out
