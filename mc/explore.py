"""Enumerates the executions of scenarios: worker processes that run one execution per
fork, and a master that expands every choice up to the bound on deviations."""
import os, sys, time, json, zlib, pickle, struct, select, signal, heapq, shutil, traceback, importlib, resource, collections

BASE = os.environ.get('MC_BASE', '/tmp/mc')
NWORK = int(os.environ.get('MC_WORKERS', '8'))
TIER = os.environ.get('VERIF_TIER', 'quick')
SOFT_FD = 64


class Scen:
    """A scenario: fn(h) drives pieshell and reports problems through h.

    With items, fn(h, item) is called for every item, in chunks, instead of once."""
    def __init__(self, name, fn, policies=('loop', 'procs', 'fine', 'last'), bound=1, cap=400, backend='signalfd',
                 stdin='null', stdout='file', preempts=True, sched=True, items=None, chunk=20, timeout=30, kinds=None, **params):
        self.name, self.fn, self.policies, self.bound, self.cap = name, fn, policies, bound, cap
        self.backend, self.stdin, self.stdout, self.preempts, self.sched = backend, stdin, stdout, preempts, sched
        self.items, self.chunk, self.timeout, self.kinds = items, chunk, timeout, kinds
        self.params = params


# ---------------------------------------------------------------- worker

def send(fd, obj):
    d = pickle.dumps(obj)
    d = struct.pack('I', len(d)) + d
    off = 0
    while off < len(d):
        off += os_write(fd, d[off:])


def recv(fd):
    def n(k):
        b = b''
        while len(b) < k:
            d = os_read(fd, k - len(b))
            if not d:
                raise EOFError
            b += d
        return b
    return pickle.loads(n(struct.unpack('I', n(4))[0]))


os_read, os_write = os.read, os.write


class Worker:
    def __init__(self, num, rfd, wfd, module, backend):
        try:
            import pypyjit
            pypyjit.set_param('off')
        except ImportError:
            pass
        self.dir = '%s/w%d%s' % (BASE, num, backend[0])
        os.mkdir(self.dir)
        for d, prog in ((self.dir, 'vp'), (self.dir + '/free', 'vp')):
            os.makedirs(d, exist_ok=True)
            os.link(BASE + '/vp', d + '/' + prog)
        os.mkdir(self.dir + '/cwd')
        os.chdir(self.dir + '/cwd')
        os.environ['PATH'] = self.dir + ':' + os.environ['PATH']
        import fcntl
        self.rfd = fcntl.fcntl(rfd, 1030, 700)
        self.wfd = fcntl.fcntl(wfd, 1030, 700)
        null = os.open('/dev/null', os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        import gc
        gc.collect()                  # finalizers of the master's files would close ours
        os.closerange(3, 700)
        if backend == 'asyncio':
            sys.modules['signalfd'] = None
        from . import ctl
        self.ctl = ctl
        ctl.BACKEND_SIGNALFD = backend != 'asyncio'
        ctl.install()
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        resource.setrlimit(resource.RLIMIT_NOFILE, (SOFT_FD, hard))
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()) as out:
            sys.stdout.fileno = lambda: 1
            import pieshell
        resource.setrlimit(resource.RLIMIT_NOFILE, (min(4096, hard), hard))
        import pieshell.log
        self.logfd = getattr(pieshell.log, 'logfd', None)
        import tempfile, gc, asyncio, fcntl, hashlib, socket
        from . import harness
        ctl.waitid(os.getpid(), ctl.WEXITED | 1)
        asyncio.get_event_loop().run_until_complete(asyncio.sleep(0))
        self.module = importlib.import_module(module)
        self.scens = self.module.scenarios(TIER)
        if hasattr(self.module, 'prepare'):
            self.module.prepare()

    def serve(self):
        send(self.wfd, 'ready')
        while True:
            try:
                job = recv(self.rfd)
            except EOFError:
                os._exit(0)
            send(self.wfd, self.run(job))

    def run(self, job):
        scen = self.scens[job['scen']]
        for attempt in (0, 1):
            res = self.once(scen, job, max(scen.timeout, min(2 * scen.timeout, 150)) if attempt else scen.timeout)
            if res['outcome'] not in ('stuck', 'crash', 'harness', 'diverged'):
                break
            if os.environ.get('MC_DEBUG'):
                with open('/tmp/mc_debug', 'a') as f:
                    f.write('%s\n%s\n\n' % (res['outcome'], res['detail']))
        res['attempts'] = attempt + 1
        return res

    def once(self, scen, job, timeout):
        import fcntl
        execdir = self.dir + '/x'
        if os.path.exists(execdir):
            self.rmtree(execdir)
        os.mkdir(execdir)
        try:
            self.ctl.R.unlink(self.dir + '/escape')
        except FileNotFoundError:
            pass
        r, w = os.pipe()
        r2 = fcntl.fcntl(r, 1030, 720); os.close(r)
        w2 = fcntl.fcntl(w, 1030, 720); os.close(w)
        pid = self.ctl.R.fork()
        if pid == 0:
            try:
                os.close(r2); os.close(self.rfd); os.close(self.wfd)
                os.setsid()
                self.execution(scen, job, execdir, w2)
            except BaseException:
                try:
                    msg = traceback.format_exc()
                    if self.ctl.CTL is not None and self.ctl.R.getpid() == self.ctl.CTL.pid or self.ctl.CTL is None:
                        d = pickle.dumps(dict(outcome='harness', detail=msg, problems=[], obs=None, trace=[], trans=0, nproc=0, log=[], escaped=None, badkills=[]))
                        os_write(w2, d)
                except BaseException:
                    pass
            finally:
                os._exit(88)
        os.close(w2)
        data, end = b'', time.time() + timeout
        status = None
        while True:
            left = end - time.time()
            if left <= 0:
                break
            if not select.select([r2], [], [], left)[0]:
                break
            d = os_read(r2, 1 << 20)
            if not d:
                status = 'eof'
                break
            data += d
        look = status is None and self.look(pid)
        try:
            self.ctl.R.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            self.ctl.R.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        _, st = self.ctl.R.waitpid(pid, 0)
        os.close(r2)
        try:
            res = pickle.loads(data)
        except Exception:
            try:
                con = open(execdir + '/../console', errors='replace').read()[-2000:]
            except OSError:
                con = ''
            if job.get('items'):
                try:
                    con = 'in case %s; %s' % (open(execdir + '/../item').read()[:1000], con)
                except OSError:
                    pass
            con = '%s; %s' % (con, look)
            res = dict(outcome='crash' if status == 'eof' else 'stuck', detail='exit status %x; console: %s' % (st, con), problems=[], obs=None,
                       trace=[], trans=0, nproc=0, log=[], escaped=None, badkills=[])
        try:
            with open(self.dir + '/escape') as f:
                res['escaped'] = f.read()
        except FileNotFoundError:
            pass
        return res

    def look(self, sid):
        out = []
        for p in os.listdir('/proc'):
            try:
                if not p.isdigit() or os.getsid(int(p)) != sid:
                    continue
                fds = {f: os.readlink('/proc/%s/fd/%s' % (p, f)) for f in os.listdir('/proc/%s/fd' % p) if int(f) < 700}
                with open('/proc/%s/cmdline' % p) as f:
                    cmd = f.read()[-200:].replace('\0', ' ')
                with open('/proc/%s/wchan' % p) as f:
                    out.append('%s %s %s %s' % (p, cmd, f.read(), fds))
            except (OSError, ValueError):
                pass
        return '\n'.join(out)

    def rmtree(self, d):
        assert d.startswith(BASE + '/w') and '..' not in d
        try:
            shutil.rmtree(d)
        except OSError:
            self.ctl.R.system("chmod -R u+rwx '%s'" % d)
            shutil.rmtree(d, ignore_errors=True)

    def execution(self, scen, job, execdir, resfd):
        import tempfile, gc, asyncio, fcntl
        from . import ctl, harness
        gc.disable()
        os.chdir(execdir)
        tmp = self.dir + '/x/tmp'
        os.mkdir(tmp); os.mkdir(execdir + '/d')
        os.chdir(execdir + '/d')
        tempfile.tempdir = tmp
        tempfile._name_sequence = None
        os.environ.update(TMPDIR=tmp, HOME=execdir + '/home', PWD=execdir + '/d')
        os.mkdir(execdir + '/home')
        ctl.GUARD_ROOT = self.dir
        con = os.open(self.dir + '/console', os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o666)
        con2 = fcntl.fcntl(con, 1030, 730); os.close(con)
        for fd in (1, 2):
            os.dup2(con2, fd)
        if self.logfd is not None and self.logfd > 2:
            fl = fcntl.fcntl(self.logfd, fcntl.F_GETFD)
            os.dup2(con2, self.logfd)
            fcntl.fcntl(self.logfd, fcntl.F_SETFD, fl)
        os.close(con2)
        loop = asyncio.get_event_loop()
        if loop._ssock is not None:
            loop._close_self_pipe()
            loop._make_self_pipe()
            if not ctl.BACKEND_SIGNALFD:
                signal.set_wakeup_fd(loop._csock.fileno(), warn_on_full_buffer=False)
        loop._selector.renew()
        if scen.sched:
            c = ctl.Controller(job.get('prefix', ()), job.get('policy', 'loop'), execdir, self.dir, resfd)
            c.preempts = scen.preempts
            ctl.CTL = c
        else:
            os.environ['PATH'] = self.dir + '/free:' + os.environ['PATH'].split(':', 1)[1]
            c = None
        h = harness.H(scen, c, self.dir, execdir, resfd)
        if c:
            c.h = h
        h.go(job.get('items'))


def start_worker(num, module, backend):
    a, b = os.pipe(); c, d = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            Worker(num, a, d, module, backend).serve()
        except BaseException:
            tb = traceback.format_exc()
            with open(BASE + '/worker_error', 'a') as f:
                f.write(tb)
            try:
                os_write(d, struct.pack('I', len(pickle.dumps(('failed', tb)))) + pickle.dumps(('failed', tb)))
            except OSError:
                pass
        finally:
            os._exit(3)
    os.close(a); os.close(d)
    return dict(pid=pid, r=c, w=b, busy=None, num=num, backend=backend)


class StartFailure(Exception):
    pass


def sessions():
    """Parents and sessions of processes."""
    stats = {}
    for p in os.listdir('/proc'):
        if p.isdigit():
            try:
                with open('/proc/%s/stat' % p) as f:
                    x = f.read().rsplit(')', 1)[1].split()
                stats[int(p)] = int(x[1]), int(x[3])      # parent and session
            except (OSError, ValueError, IndexError):
                pass
    return stats


def end_executions(workers):
    """Ends what runs in the sessions of the executions under way."""
    stats = sessions()
    mine = {p for p, (parent, sid) in stats.items() if parent in workers and sid == p}
    kill([p for p, (_, sid) in stats.items() if sid in mine])


def end_session():
    """Ends everything but the caller."""
    kill([p for p, (_, sid) in sessions().items() if sid == os.getsid(0) and p != os.getpid()])


def kill(pids):
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except ProcessLookupError:
            pass


class Explorer:
    def __init__(self, module, scens, budget=None, stop_on_violation=True, is_known=lambda s: False, verbose=False):
        self.module, self.scens = module, scens
        self.budget = budget
        self.stop = stop_on_violation
        self.is_known = is_known
        self.verbose = verbose
        self.stats = {}
        self.violations, self.known = [], []
        self.states = set()
        self.transitions = self.execs = self.items_done = 0
        self.outcomes = collections.defaultdict(set)
        self.inconclusive = []
        self.samples = []
        self.distinct = set()

    def run(self):
        backends = sorted({s.backend for s in self.scens})
        t0 = time.time()
        for be in backends:
            self.run_backend(be, t0)
            if self.violations and self.stop:
                break
        self.wall = time.time() - t0
        return self

    def run_backend(self, be, t0):
        idx = [i for i, s in enumerate(self.scens) if s.backend == be]
        n = NWORK
        workers = [start_worker(k, self.module, be) for k in range(n)]
        try:
            for w in workers:
                try:
                    m = recv(w['r'])
                except EOFError:
                    m = (None, 'worker did not start')
                    if os.path.exists(BASE + '/worker_error'):
                        with open(BASE + '/worker_error') as f:
                            m = (None, f.read()[:3000])
                if m != 'ready':
                    raise StartFailure(m[1])
            self.loop(idx, workers, t0)
        finally:
            end_executions([w['pid'] for w in workers])
            for w in workers:
                os.close(w['w']); os.close(w['r'])
                try:
                    os.kill(w['pid'], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(w['pid'], 0)

    def loop(self, idx, workers, t0):
        heap, seq = [], 0
        expanded, cnt = {}, collections.Counter()
        pend = collections.Counter()
        for i in idx:
            s = self.scens[i]
            st = self.stats.setdefault(s.name, dict(executions=0, states=set(), bound=s.bound, completed_bound=None, capped=False, nproc=0, secs=0.0))
            if s.items is not None:
                items = list(s.items)
                for k in range(0, len(items), s.chunk):
                    heapq.heappush(heap, (0, 0, seq, dict(scen=i, items=items[k:k + s.chunk]))); seq += 1
            elif not s.sched:
                heapq.heappush(heap, (0, 0, seq, dict(scen=i))); seq += 1
            else:
                for pol in s.policies:
                    heapq.heappush(heap, (0, 0, seq, dict(scen=i, policy=pol, prefix=[], nd=0))); seq += 1
                    pend[i, 0] += 1
        busy = 0
        skip = set()
        while heap or busy:
            over = self.budget and time.time() - t0 > self.budget
            stopped = self.violations and self.stop
            while heap and not stopped and not over:
                w = next((w for w in workers if w['busy'] is None), None)
                if w is None:
                    break
                nd, _, _, job = heapq.heappop(heap)
                s = self.scens[job['scen']]
                if s.name in skip:
                    continue
                if s.sched and s.items is None:
                    if cnt[job['scen']] >= s.cap:
                        self.stats[s.name]['capped'] = True
                        continue
                    cnt[job['scen']] += 1
                send(w['w'], job)
                w['busy'] = job
                w['since'] = time.time()
                busy += 1
            if not busy:
                if over:
                    for _, _, _, j in heap:
                        self.stats[self.scens[j['scen']].name]['capped'] = True
                break
            rs, _, _ = select.select([w['r'] for w in workers if w['busy'] is not None], [], [], 600)
            if not rs:
                raise StartFailure('workers do not answer')
            for w in workers:
                if w['r'] not in rs:
                    continue
                try:
                    res = recv(w['r'])
                except EOFError:
                    raise StartFailure('worker died')
                job, w['busy'] = w['busy'], None
                busy -= 1
                i = job['scen']
                s = self.scens[i]
                st = self.stats[s.name]
                self.execs += 1
                st['executions'] += 1
                st['secs'] += time.time() - w['since']
                st['nproc'] = max(st['nproc'], res['nproc'])
                self.transitions += res['trans']
                self.account(s, job, res)
                if s.items is not None or not s.sched:
                    continue
                nd, prefix = job['nd'], job['prefix']
                chosen = [t[2] for t in res['trace']]
                for k, (kind, options, c, d, sh) in enumerate(res['trace']):
                    self.states.add((i, sh))
                    st['states'].add(sh)
                    if k < len(prefix) or nd >= s.bound:
                        continue
                    if s.kinds is not None and kind not in s.kinds:
                        continue
                    key = (i, job['policy'], sh)
                    if expanded.get(key, 99) <= nd:
                        continue
                    expanded[key] = nd
                    for o in options:
                        if o != c:
                            heapq.heappush(heap, (nd + 1, zlib.crc32(('%s %d %s' % (job['policy'], k, o)).encode()), seq, dict(scen=i, policy=job['policy'], prefix=chosen[:k] + [o], nd=nd + 1)))
                            seq += 1
        for i in idx:
            st = self.stats[self.scens[i].name]
            if not st['capped'] and not self.violations:
                st['completed_bound'] = self.scens[i].bound

    def account(self, s, job, res):
        probs = list(res['problems'])
        oc = res['outcome']
        if oc == 'stuck':
            probs.append('%s: the shell does not come to an end (stuck in real time): %s' % (s.name, res['detail'][:1500]))
        elif oc == 'crash':
            probs.append('%s: the shell process ended unexpectedly: %s' % (s.name, res['detail']))
        elif oc in ('harness', 'diverged'):
            self.inconclusive.append((s.name, oc, res['detail'][-1500:]))
        elif oc == 'livelock' and not probs:
            probs.append('%s: livelock: %s' % (s.name, res['detail']))
        if res.get('escaped'):
            probs.append('%s: %s' % (s.name, res['escaped'].strip()[:300]))
        for b in res.get('badkills') or ():
            if b[0] in (-1, 0, 1, 'group') :
                probs.append('%s: signal %s sent to %s' % (s.name, b[1], b[0]))
        obs = res['obs']
        self.items_done += res.get('items_done', 0)
        for d in res.get('distinct', ()):
            self.distinct.add(d)
        key = repr(obs)[:4000]
        if len(self.outcomes[s.name]) < 1000:
            self.outcomes[s.name].add(key)
        if len(self.samples) < 400 and (not self.samples or self.samples[-1]['scenario'] != s.name or len(self.samples) < 5):
            self.samples.append(dict(scenario=s.name, policy=job.get('policy'), outcome=oc, detail=res['detail'][:200], observed=key[:400],
                                     schedule=[t[2] for t in res['trace']][:60], sample=res.get('sample')))
        if not probs:
            return
        new = [p for p in probs if not self.is_known(p)]
        old = [p for p in probs if self.is_known(p)]
        self.known += old
        if new:
            self.violations.append(dict(scenario=s.name, policy=job.get('policy'), prefix=[t[2] for t in res['trace']][:len(job.get('prefix') or ())] or job.get('prefix'),
                                        items=job.get('items'), problems=new, outcome=oc, detail=res['detail'], log=res['log'],
                                        schedule=[t[2] for t in res['trace']], observed=key, backend=s.backend))
            if self.verbose:
                print('!!', s.name, job.get('policy'), job.get('prefix'), oc, res['detail'][:300], new[:3])
