"""Common parts of the checks that run the whole compiler in a fresh simulated process."""
import os, re
from . import build as B
from . import sim as S
from .check import Check

MAIN = '/sim/w/main.alusus'
ANSI = re.compile(r'\x1b\[[0-9;]*m')
CATALOG = os.path.join(B.BUILD, 'obj', 'Notices_L18n')
_corpus = {}
# prints a member that the program itself never initialises (test5)
UNINIT = ['Srt/Srl/smart_refs_test.alusus']


def corpus(*subs):
    """The repository's own test programs: [(name, bytes)], sorted."""
    key = subs
    if key not in _corpus:
        r = []
        base = os.path.join(B.SRC, 'Sources', 'Tests')
        for root, dirs, files in os.walk(base):
            dirs.sort()
            rel = os.path.relpath(root, base)
            if subs and not any(rel.startswith(s) for s in subs):
                continue
            for f in sorted(files):
                if f.endswith('.alusus') or f.endswith('.أسس'):
                    with open(os.path.join(root, f), 'rb') as fh:
                        r.append((os.path.join(rel, f), fh.read()))
        _corpus[key] = sorted(r)
    return _corpus[key]


def corpus_env():
    """Test programs import their neighbours: every test directory is a search path."""
    base = os.path.join(B.SRC, 'Sources', 'Tests')
    ds = sorted(r for r, d, f in os.walk(base))
    return {'ALUSUS_LIBS': '%s/Sources/Srt:%s/Spp:%s:%s' % (B.SRC, B.OBJ, S.STUB, ':'.join(ds))}


def plan(files=None, budget=4000000):
    p = S.Plan().root('/sim').add('cwd', '/sim/w').dir('/sim/w').dir('/sim/home')
    for k in sorted(files or {}):
        p.file(k, files[k])
    p.add('budget', budget)
    return p


def deliver(p, d):
    """Add the delivery conditions d to the plan."""
    if d.get('chunks'):
        p.chunks(d['chunks'])
    if d.get('fifo'):
        p.add('fifo', MAIN)
    if d.get('heap'):
        p.add('heap', '%d %d %d' % tuple(d['heap']))
    if d.get('clock'):
        p.add('clock', '%d %d' % tuple(d['clock']))
    for f in d.get('faults', []):
        p.fault(*f)
    for k, v in d.get('env', {}).items():
        p.env(k, v)
    if d.get('dirseed'):
        p.add('dirseed', d['dirseed'])
    return p


def strip_prompts(out):
    """What a session printed without the banner and the prompts."""
    t = out.decode('utf-8', 'replace')
    i = t.find('1> ')
    t = t[i:] if i >= 0 else t
    return re.sub(r'(?m)^(?:\d+> )+', '', t)


class Notice:
    __slots__ = ('sev', 'code', 'text', 'file', 'line', 'col', 'raw')

    def __repr__(self):
        return '%s %s (%s,%s)' % (self.sev, self.code, self.line, self.col)


NOTICE = re.compile(r'\x1b\[[0-9;]*m(BLOCKER|ERROR|WARNING|ATTN) ([A-Z]+[0-9]+): ((?:.|\n)*?)\x1b\[0m\n((?:  .*\n?)+)')


def notices(out):
    """-> (program output without the notices, [Notice])"""
    t = out.decode('utf-8', 'replace')
    ns = []

    def f(m):
        n = Notice()
        n.sev, n.code, n.text, n.raw = m.group(1), m.group(2), m.group(3), m.group(0)
        l = re.search(r'  (?:- )?(.*) \((\d+),(\d+)\)', m.group(4))
        n.file, n.line, n.col = (l.group(1), int(l.group(2)), int(l.group(3))) if l else (None, 0, 0)
        # the location lines end where the indentation does
        ns.append(n)
        return ''
    rest = MULTI.sub(f, NOTICE.sub(f, t))
    return rest, ns


# notices with a list of places have another layout
MULTI = re.compile(r'\x1b\[[0-9;]*m(BLOCKER|ERROR|WARNING|ATTN) ([A-Z]+[0-9]+): ((?:.|\n)*?)Called from:\n?\x1b\[0m\n((?:  .*\n?)+)')


class ModeB(Check):
    batch = 4

    def exe(self, ctx, p, args=None, **kw):
        return ctx.fresh(p, args if args is not None else [MAIN], **kw)


def differs(a, b):
    """First difference between two outputs, for messages."""
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return 'at byte %d: %r against %r' % (n, a[max(0, n - 40):n + 60], b[max(0, n - 40):n + 60])
