"""P20: the state of the message catalogue and the locale never change what a program does or which diagnostics appear where."""
import os, re
from . import build as B
from . import modeb as M, script as SC, errs as E

SRC = os.path.join(B.SRC, 'Notices_L18n')
LANGS = ['en', 'ar', 'en_US.UTF-8', 'ar_IQ.UTF-8', 'ar', 'en', 'C', 'POSIX', 'de_DE.UTF-8', 'fr', 'x', 'e', 'a', '', '..', '/', '%s', 'ar:en', 'enormous', 'a' * 3000, '\u0639\u0631\u0628\u064a', 'AR', 'EN_us', 'zh_CN.GB18030']
N = re.compile(rb'\x1b\[(0;31|1;33|0;34)m((?:(?!\x1b)[^\n])*?) ?([A-Z]{2,}[0-9]{4}): ((?:(?!\x1b)(?:.|\n))*)\x1b\[0m\n((?:  .*\n?)+)')
WORDS = {b'0;31': [b'BLOCKER', b'ERROR'], b'1;33': [b'WARNING'], b'0;34': [b'ATTN']}
_cat = {}


def catalogue(lang):
    if lang not in _cat:
        with open(os.path.join(SRC, lang + '.txt'), 'rb') as f:
            _cat[lang] = f.read()
    return _cat[lang]


def entries(data, complete):
    """Entries of the lines that are whole; the last line of a cut catalogue is not."""
    ls = data.split(b'\n')
    if not complete:
        ls = ls[:-1]
    r = {}
    for l in ls:
        k, c, v = l.partition(b':')
        if c:
            r[k] = v.replace(b'\\n', b'\n')
    return r


class P20(M.ModeB):
    id = 'P20'
    level = 'fault_enumeration'
    rule = ('a case is one program (generated with planted build errors and warnings, or a test program of the repository), the locale variables of the environment, and the state of the '
            'catalogue: missing, a directory, cut at a byte, failing to open, failing at a read, delivered in seeded pieces')
    quick = 1300
    technique = ('deterministic simulation: the whole compiler with injected open/read faults, truncations and locales for the message catalogue; output and (code, severity, place) of every notice '
                 'compared with a run with the healthy catalogue, texts with the entries that were readable')
    note = 'Seeded search over programs, locales and catalogue states; the texts of unreadable entries are not judged.'
    real = 'whole compiler including start-up and message code'
    stub = 'disk holding the catalogue and the program'
    measure = 'distinct (program, catalogue state, history) hashes'
    assumptions = ['a message whose catalogue entry could not be read completely may have any text']

    def gen(self, rng, i):
        c = {}
        if rng.random() < 0.3:
            names = [n for n, d in M.corpus('Core', 'Spp') if n not in M.UNINIT]
            c['corpus'] = rng.choice(names)
        else:
            s = SC.Script(rng, unicode_=rng.random() < 0.5, sink=6)
            er = E.Errors(s)
            st = []
            for j in range(rng.choice([3, 6, 12])):
                st.append(s.statement()['t'])
                if rng.random() < 0.35:
                    st += [x[0] for x in er.bad()[0]]
                if rng.random() < 0.1:
                    st.append('preprocess { Spp.buildMgr.raiseBuildNotice("SPPA1006", %d, Spp.astMgr.getCurrentPreprocessOwner()); }' % rng.choice([2, 3, 4]))
            if rng.random() < 0.15:
                st.append(rng.choice(['import "nothere"', 'import "%s"' % ('n' * 300), 'import "\u0644\u0627"', 'import "a%sb%n"']))
            if rng.random() < 0.15:
                st.append(rng.choice(['def zz: Int = \\', '\x01\x02', '$$ \\\\ \\', 'def q: Int = `']))
            c['st'] = st
        env = {}
        if rng.random() < 0.5:
            env['LANG'] = rng.choice(LANGS)
        else:
            env['LANG'] = rng.choice(['ar', 'en'])
        if rng.random() < 0.3:
            env['LANGUAGE'] = rng.choice(LANGS)
        if rng.random() < 0.2:
            env['LC_ALL'] = rng.choice(LANGS)
        c['env'] = env
        kind = rng.choice(['healthy', 'missing', 'dir', 'cut', 'cut', 'cut', 'cut', 'open', 'read', 'read', 'short'])
        c['kind'] = kind
        size = len(catalogue('ar'))
        if kind == 'cut':
            # at a seeded byte; often just behind a colon, a percent sign or inside a character
            c['at'] = rng.randrange(size + 1)
            c['near'] = rng.choice([None, None, ':', '%', '\\', 'line'])
            if rng.random() < 0.5:
                # inside the entry of a message this program prints
                c['key'] = rng.choice(['ERROR', 'ERROR', 'WARNING', 'SPPA1007', 'SPPA1007', 'CG1003', 'CL1001', 'SPPA1005', 'SPPA1006', 'SPPG1012'])
                c['at'] = rng.choice([0, 0, 1, 2, 3, rng.randrange(60)])
                c['near'] = rng.choice([None, None, '%', ' '])
        elif kind == 'open':
            c['err'] = rng.choice(['EACCES', 'ENOENT', 'EMFILE', 'ENFILE', 'EIO', 'ELOOP', 'ENOMEM', 'ENAMETOOLONG'])
        elif kind == 'read':
            c['chunk'] = rng.choice([0, 0, 1, 17, 100, 1000])
            c['nth'] = rng.randrange(1, 4 if not c['chunk'] else max(2, min(3000, size // c['chunk'])))
            c['err'] = rng.choice(['EIO', 'EISDIR', 'EINTR', 'EAGAIN', 'ENOMEM', 'ESTALE', 'trunc'])
            c['sticky'] = rng.randrange(2) if c['err'] != 'EINTR' else 0
        elif kind == 'short':
            c['chunk'] = rng.choice([1, 2, 3, 7, 64, 500])
        return c

    def lang(self, c):
        l = c['env'].get('LANGUAGE') or c['env'].get('LANG') or 'en'
        l = l.encode()[:2].decode('latin-1')
        return l if l in ('en', 'ar') else None

    def data(self, c, lang):
        d = catalogue(lang)
        if c['kind'] != 'cut':
            return d
        at = min(c['at'], len(d))
        if c.get('key'):
            k = d.find(b'\n' + c['key'].encode() + b':')
            at = k + len(c['key']) + 2 + c['at']
        near = c.get('near')
        if near == 'line':
            at = d.rfind(b'\n', 0, at) + 1
        elif near:
            k = d.find(near.encode(), at)
            at = k + 1 if k >= 0 else at
        return d[:at]

    def prog(self, c):
        if 'corpus' in c:
            return None, ['%s/Sources/Tests/%s' % (B.SRC, c['corpus'])]
        return {M.MAIN: ('import "Spp";\n' + SC.HEADER + SC.SINK + ''.join(t + ';\n' for t in c['st'])).encode()}, [M.MAIN]

    def one(self, ctx, c, state):
        files, args = self.prog(c)
        p = M.plan(files)
        env = dict(M.corpus_env() if 'corpus' in c else {})
        p.root(M.CATALOG)
        if 'corpus' in c:
            p.root('/tmp').dir('/tmp')
        p.dir(M.CATALOG)
        if not state:
            for l in ('en', 'ar'):
                p.file('%s/%s.txt' % (M.CATALOG, l), catalogue(l))
            env['LANG'] = 'en'
            return self.exe(ctx, p, args, env=env)
        for l in ('en', 'ar'):
            f = '%s/%s.txt' % (M.CATALOG, l)
            if c['kind'] == 'missing':
                continue
            if c['kind'] == 'dir':
                p.dir(f)
                continue
            p.file(f, self.data(c, l))
            if c['kind'] == 'open':
                p.fault('open@' + f, 0, c['err'])
            elif c['kind'] == 'read':
                p.fault('read@' + f, c['nth'], c['err'], c['sticky'] if c['err'] != 'trunc' else 0)
        if c.get('chunk'):
            p.chunks([c['chunk']])
        env.update(c['env'])
        return self.exe(ctx, p, args, env=env)

    def run(self, ctx, c):
        return [self.one(ctx, c, False), self.one(ctx, c, True)]

    def parse(self, out):
        ns = []

        def f(m):
            ns.append(m.groups())
            return b''
        return N.sub(f, out), ns

    def judge(self, c, obs):
        ref, r = obs
        if ref.hung or ref.crashed:
            return None
        if r.hung:
            return 'hang', '%s, catalogue %s' % (r.how(), c['kind'])
        if r.crashed:
            return 'crash', '%s, catalogue %s, environment %r: %s' % (r.how(), c['kind'], c['env'], r.err[-200:].decode('utf-8', 'replace'))
        if r.status != ref.status:
            return 'status', 'exit %d instead of %d' % (r.status, ref.status)
        a, na = self.parse(ref.out)
        b, nb = self.parse(r.out)
        if a != b:
            return 'output', 'catalogue %s %s: output %s' % (c['kind'], c['env'], M.differs(b, a))
        sa = [(x[2], x[0], x[4]) for x in na]
        sb = [(x[2], x[0], x[4]) for x in nb]
        if sa != sb:
            return 'notices', 'catalogue %s %s: notices %r instead of %r' % (c['kind'], c['env'], [x for x in sb if x not in sa][:3], [x for x in sa if x not in sb][:3])
        lang = self.lang(c)
        en, ok = {}, {}
        if lang and c['kind'] in ('healthy', 'short', 'cut'):
            d = self.data(c, lang)
            ok = entries(d, d == catalogue(lang))
        refs = entries(catalogue('en'), True)
        for x, y in zip(na, nb):
            if not y[1].strip():
                return 'no-severity', 'a notice appears without its severity: %r' % (y,)
            words = WORDS[y[0]]
            if all(w in ok for w in words) and y[1] not in [ok[w] for w in words]:
                return 'severity', 'severity %r of %r' % (y[1], y)
            code = y[2]
            if code in ok:
                v = ok[code]
                pat = re.escape(v).replace(b'%s', b'(?:.|\n)*') + (b'(?:\n(?:.|\n)*)?' if code == b'CG1003' else b'')
                if not re.fullmatch(pat, y[3]):
                    return 'text', 'message %r of %s, the catalogue says %r' % (y[3], code.decode(), v)
        return None

    def reduce(self, c):
        if 'st' in c:
            for j in range(len(c['st']) - 1, -1, -1):
                yield dict(c, st=c['st'][:j] + c['st'][j + 1:])
        for k in ('LC_ALL', 'LANGUAGE'):
            if k in c['env']:
                e = dict(c['env'])
                del e[k]
                yield dict(c, env=e)
        if c.get('chunk'):
            yield dict(c, chunk=0)

    def nontrivial(self, c, obs):
        return b'\x1b[' in obs[1].out

    def describe(self, c):
        return dict(c, st=c.get('st', [])[:6])


CHECK = P20()
