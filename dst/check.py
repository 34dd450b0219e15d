"""Seeded search over simulated runs for one property: generate, run, judge, re-run, minimise, report."""
import hashlib, json, multiprocessing, os, queue, random, re, signal, subprocess, sys, time, traceback
from . import build as B
from . import sim as S

VERIF = B.VERIF
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Ctx:
    """What one worker process keeps between cases: compiled workloads and a scratch directory."""

    def __init__(self):
        self.servers, self.runner_ = {}, None
        self.last = []

    def server(self, name, source, env=None, files=None):
        s = self.servers.get(name)
        if s is None:
            s = S.Server(source, env, files)
            self.servers[name] = s
        return s

    def serve(self, name, source, plan, env=None, files=None):
        try:
            r = self.server(name, source, env, files).run(plan)
        except (S.SimError, OSError):
            # the server process itself is gone (it is not part of any verdict): one fresh attempt
            self.drop(name)
            r = self.server(name, source, env, files).run(plan)
        self.last.append(r)
        return r

    def drop(self, name):
        s = self.servers.pop(name, None)
        if s:
            s.close()

    def fresh(self, plan, args, **kw):
        if self.runner_ is None:
            self.runner_ = S.Runner()
        try:
            r = self.runner_.run(plan, args, **kw)
        except S.SimError:
            r = self.runner_.run(plan, args, **kw)
        self.last.append(r)
        return r

    def close(self):
        for n in list(self.servers):
            self.drop(n)
        if self.runner_:
            self.runner_.close()


class Check:
    id = ''
    level = 'exploration'
    rule = ''
    quick = 1000            # cases
    batch = 1               # consecutive cases given to the same worker
    seed = 1
    quick_cap = 240         # seconds, a safety net only
    thorough_s = 900
    real = ''               # components that ran their real code
    stub = ''
    measure = ''            # what a distinct state or interleaving is
    assumptions = []

    def fixed(self):
        """Directed cases, run before the random ones."""
        return []

    def gen(self, rng, i):
        raise NotImplementedError

    def run(self, ctx, case):
        raise NotImplementedError

    def judge(self, case, obs):
        """None, or (signature, message)."""
        raise NotImplementedError

    def reduce(self, case):
        return iter(())

    def states(self, case, obs):
        """Strings naming the states or interleavings this run reached."""
        return [obs_hash(obs)]

    def nontrivial(self, case, obs):
        return True

    def simtime(self, case, obs):
        return 0.0

    def describe(self, case):
        return case


def results_of(obs):
    if isinstance(obs, S.Result):
        return [obs]
    if isinstance(obs, dict):
        obs = obs.values()
    return [r for r in obs if isinstance(r, S.Result)]


def obs_hash(obs):
    h = hashlib.sha256()
    for r in results_of(obs):
        h.update((('hung %s' % r.status) if r.hung else r.hash()).encode())
    return h.hexdigest()[:16]


def evaluate(check, ctx, case):
    """-> (verdict, hash, obs)"""
    ctx.last = []
    try:
        obs = check.run(ctx, case)
    except S.WorkloadBuildFailed as e:
        m = re.sub(r'\x1b\[[0-9;]*m', '', str(e))
        return ('workload', 'a correct program using this part of the system does not start: ' + m[-600:]), 'workload', []
    v = check.judge(case, obs)
    return v, obs_hash(ctx.last), obs


def case_of(check, seed, i):
    check.seed = seed
    fx = check.fixed()
    if i < len(fx):
        return fx[i]
    return check.gen(random.Random('%s/%s/%d' % (seed, check.id, i)), i)


def _worker(check, seed, counter, limit, stop_at, deadline, outq, twice_every, wid):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = Ctx()
    st = dict(n=0, nontriv=set(), states=set(), fired={}, simtime=0.0, nondet=[], samples=[], runs=0, cut=False)
    viol, todo = [], []
    err = None
    try:
        while True:
            if not todo:
                with counter.get_lock():
                    i = counter.value
                    counter.value += check.batch
                todo = list(range(i, i + check.batch))
            i = todo.pop(0)
            if (limit is not None and i >= limit) or (stop_at.value and i > stop_at.value - 1):
                break
            if time.time() > deadline:
                st['cut'] = True
                break
            case = case_of(check, seed, i)
            v, h, obs = evaluate(check, ctx, case)
            rs = results_of(ctx.last)
            st['runs'] += len(rs)
            if i % twice_every == 0 and h != 'workload':
                v2, h2, obs2 = evaluate(check, ctx, case)
                st['runs'] += len(ctx.last)
                if h2 != h:
                    st['nondet'].append(i)
            st['n'] += 1
            for r in rs:
                for k, c in r.fired().items():
                    st['fired'][k] = st['fired'].get(k, 0) + c
            if h != 'workload':
                try:
                    if check.nontrivial(case, obs):
                        st['nontriv'].add(h)
                    st['states'].update(check.states(case, obs))
                    st['simtime'] += check.simtime(case, obs)
                except Exception:
                    if not v:
                        raise
            if len(st['samples']) < 1 and v is None and i >= len(check.fixed()):
                st['samples'].append({'case': i, 'input': check.describe(case), 'hash': h})
            if v is not None:
                if known_match(check.id, v[0]):
                    viol.append((i, v, h, True))
                else:
                    viol.append((i, v, h, False))
                    with stop_at.get_lock():
                        if not stop_at.value or i + 1 < stop_at.value:
                            stop_at.value = i + 1
    except BaseException:
        err = traceback.format_exc()
    finally:
        try:
            ctx.close()
        except Exception:
            pass
        outq.put((wid, st, viol, err))


def known():
    r = []
    try:
        with open(KNOWN) as f:
            for l in f:
                m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', l.strip())
                if m:
                    r.append(m.groups())
    except OSError:
        pass
    return r


def known_match(pid, sig):
    for p, s, d in known():
        if p == pid and s == sig:
            return d
    return None


def minimise(check, ctx, case, sig, limit_s=60, limit_n=400):
    t0, n, steps = time.time(), 0, 0
    again = True
    while again and time.time() - t0 < limit_s and n < limit_n:
        again = False
        for c in check.reduce(case):
            if time.time() - t0 > limit_s or n >= limit_n:
                break
            n += 1
            try:
                v, h, obs = evaluate(check, ctx, c)
            except Exception:
                continue
            if v and v[0] == sig:
                case, again = c, True
                steps += 1
                break
    return case, n, steps


def replay(check, path):
    with open(path) as f:
        d = json.load(f)
    ctx = Ctx()
    try:
        v, h, obs = evaluate(check, ctx, d['case'])
    finally:
        ctx.close()
    if v is None:
        print('replay: the property held')
        return 0
    print('replay: %s: %s' % v)
    print('replay: hash %s (recorded %s)%s' % (h, d.get('hash'), '' if h == d.get('hash') else ' DIFFERENT'))
    print('VIOLATION property=%s replay=%s' % (check.id, path))
    return 1


def main(check):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--replay' in sys.argv:
        try:
            B.build()
        except B.BuildError as e:
            print('BUILD ERROR', e)
            return 2
        return replay(check, sys.argv[sys.argv.index('--replay') + 1])
    t0 = time.time()
    try:
        B.build()
    except B.BuildError as e:
        print('BUILD ERROR', e)
        return 2
    tb = time.time() - t0
    limit = check.quick
    deadline = t0 + tb + check.quick_cap
    if tier == 'thorough':
        limit = None
        deadline = time.time() + float(os.environ.get('VERIF_THOROUGH_S', check.thorough_s))
    if '--cases' in sys.argv:
        limit = int(sys.argv[sys.argv.index('--cases') + 1])
    ts = time.time()
    counter, stop_at = multiprocessing.Value('q', 0), multiprocessing.Value('q', 0)
    outq = multiprocessing.Queue()
    if '--only' in sys.argv:
        i = int(sys.argv[sys.argv.index('--only') + 1])
        ctx = Ctx()
        case = case_of(check, seed, i)
        v, h, obs = evaluate(check, ctx, case)
        print(json.dumps(case, indent=1))
        for r in ctx.last:
            print(r.how(), r.hash())
            sys.stdout.write(r.log.decode('latin-1')[-6000:])
            print(r.out.decode('utf8', 'replace')[-3000:], r.err.decode('utf8', 'replace')[-2000:])
        print('VERDICT', v, h)
        ctx.close()
        return 0
    ps = [multiprocessing.Process(target=_worker, args=(check, seed, counter, limit, stop_at, deadline, outq, 16, w))
          for w in range(WORKERS)]
    for p in ps:
        p.start()
    sts, viols, errs = [], [], []
    got = 0
    while got < len(ps):
        try:
            wid, st, viol, err = outq.get(timeout=5)
            got += 1
            sts.append(st)
            viols += viol
            if err:
                errs.append(err)
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                break
    for p in ps:
        p.join(20)
        if p.is_alive():
            p.kill()
    wall = time.time() - ts
    if errs or got < len(ps):
        print('CHECK ERROR', errs[:1] or 'a worker process died')
        return 3
    tot = sum(s['n'] for s in sts)
    runs = sum(s['runs'] for s in sts)
    fired, nontriv, states, nondet = {}, set(), set(), []
    for s in sts:
        for k, c in s['fired'].items():
            fired[k] = fired.get(k, 0) + c
        nontriv |= s['nontriv']
        states |= s['states']
        nondet += s['nondet']
    cov = {
        'evaluations': tot, 'distinct_nontrivial': len(nontriv), 'rule': check.rule,
        'samples': [x for s in sts for x in s['samples']][:3],
        'simulated_runs': runs, 'runs_per_hour': int(runs / max(wall, 0.01) * 3600),
        'seeds_per_hour': int(tot / max(wall, 0.01) * 3600), 'base_seed': seed,
        'simulated_seconds': round(sum(s['simtime'] for s in sts), 3),
        'faults_fired': dict(sorted(fired.items())), 'distinct_states': len(states), 'state_measure': check.measure,
        'real_components': check.real, 'stub_components': check.stub,
        'determinism_reruns': sum(1 for i in range(0, tot, 16)), 'determinism_mismatches': len(nondet),
        'cut_by_time': any(s['cut'] for s in sts), 'workers': WORKERS, 'build_s': round(tb, 1),
    }
    rc = 0
    new = sorted(v for v in viols if not v[3])
    for i, v, h, k in sorted(viols):
        if k:
            pass
    seen = set()
    for i, v, h, k in sorted(viols):
        if k and v[0] not in seen:
            seen.add(v[0])
            print('KNOWN-FINDING: property=%s %s' % (check.id, known_match(check.id, v[0])))
    nviol = 0
    if new:
        i, v, h, _ = new[0]
        rc = report(check, seed, i, v, h, cov)
        nviol = 1 if rc == 1 else 0
    elif nondet:
        print('CHECK ERROR: cases %s gave two different histories' % nondet[:5])
        rc = 3
    os.makedirs(EVID, exist_ok=True)
    ev = {'property': check.id, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': check.level,
          'coverage': cov, 'assumptions': list(check.assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    tmp = os.path.join(EVID, check.id + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.rename(tmp, os.path.join(EVID, check.id + '.json'))
    print('%s: %d cases, %d runs, %d distinct, %d states, %d faults fired, %.1fs (build %.1fs)' % (
        check.id, tot, runs, len(nontriv), len(states), sum(fired.values()), wall, tb))
    return rc


def report(check, seed, i, v, h, cov):
    case = case_of(check, seed, i)
    ctx = Ctx()
    try:
        hits = 0
        for attempt in range(3):
            v2, h2, _ = evaluate(check, ctx, case)
            if v2 and v2[0] == v[0]:
                hits += 1
                break
        if not hits:
            print('CHECK ERROR: case %d violated once (%s: %s) and did not repeat' % (i, v[0], v[1][:500]))
            return 3
        small, n, steps = minimise(check, ctx, case, v[0])
        v3, h3, _ = evaluate(check, ctx, small)
        if not v3:
            small, v3, h3 = case, v2, h2
    finally:
        ctx.close()
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    path = os.path.join(EVID, 'replays', '%s-%d-%d.json' % (check.id, seed, i))
    with open(path, 'w') as f:
        json.dump({'property': check.id, 'seed': seed, 'case_index': i, 'signature': v3[0], 'message': v3[1], 'hash': h3,
                   'minimised_in': n, 'reductions': steps, 'case': small}, f, indent=1)
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), check.id, '--replay', path], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, cwd=VERIF)
    o = p.stdout.decode('utf-8', 'replace')
    if p.returncode != 1 or 'VIOLATION' not in o:
        print('CHECK ERROR: the replay of case %d does not reproduce: %s' % (i, o[-1500:]))
        return 3
    cov['minimiser_runs'], cov['minimiser_reductions'] = n, steps
    cov['replay_identical'] = 'DIFFERENT' not in o
    print('case %d (seed %d): %s: %s' % (i, seed, v3[0], v3[1]))
    print('VIOLATION property=%s replay=%s' % (check.id, path))
    return 1


def ddlist(xs):
    """Smaller versions of a list: halves removed, quarters removed, ... single elements removed."""
    n = len(xs)
    k = n // 2
    while k >= 1:
        for a in range(0, n, k):
            yield xs[:a] + xs[a + k:]
        k //= 2


def ddfield(case, key):
    for c in ddlist(case.get(key) or []):
        d = dict(case)
        d[key] = c
        yield d
