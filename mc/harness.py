"""What a scenario sees: building environments, running things, recording observations."""
import os, sys, pickle, traceback, asyncio, stat, select
from . import ctl as C


class H:
    def __init__(self, scen, ctl, workdir, execdir, resfd):
        self.scen, self.ctl, self.workdir, self.execdir, self.resfd = scen, ctl, workdir, execdir, resfd
        self.name = scen.name
        self.dir = execdir + '/d'
        self.tmp = execdir + '/tmp'
        self.obs = {}
        self.problems = []
        self.pid = C.R.getpid()
        self.where = 'start'
        self.handlers = {}
        self.may_hang = False
        self.distinct = []
        self.items_done = 0
        self.sample = None
        self.ops = 0
        self.loop_errors = []
        self.p = scen.params

    # -- life cycle ------------------------------------------------------
    def go(self, items):
        loop = asyncio.get_event_loop()
        loop.set_exception_handler(lambda l, c: self.loop_errors.append(repr(c.get('exception') or c.get('message'))[:300]))
        try:
            if items is not None:
                for it in items:
                    self.item = it
                    with open(self.workdir + '/item', 'w') as f:
                        f.write(repr(it))
                    n = len(self.problems)
                    try:
                        self.scen.fn(self, it)
                    except Exception as e:
                        self.escape()
                        self.problem('unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
                    self.escape()
                    self.items_done += 1
                    self.ops += 1
                    if len(self.problems) > n:
                        self.problems[n:] = ['%s [case %r]' % (p, it) for p in self.problems[n:]]
                    if len(self.problems) > 5:
                        break
            else:
                self.scen.fn(self)
        except BaseException as e:
            self.escape()
            self.problem('unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        self.escape()
        self.end('ok')

    def escape(self):
        """A child must never get here."""
        if C.R.getpid() != self.pid:
            fd = C.R.open(self.workdir + '/escape', C.R.O_WRONLY | C.R.O_CREAT | C.R.O_APPEND)
            C.R.write(fd, ('a child process came back to the caller (%s)\n' % (sys.exc_info()[1],)).encode())
            C.R._exit(77)

    def end(self, outcome, detail=''):
        if self.ctl:
            self.ctl.finish(outcome, detail, self.problems, self.obs)
        esc = None
        try:
            with open(self.workdir + '/escape') as f:
                esc = f.read()
        except FileNotFoundError:
            pass
        res = dict(outcome=outcome, detail=detail, problems=self.problems, obs=self.obs, trace=[], trans=self.ops, nproc=0, log=[],
                   escaped=esc, badkills=[], items_done=self.items_done, distinct=self.distinct, sample=self.sample)
        data = pickle.dumps(res)
        off = 0
        while off < len(data):
            off += C.R.write(self.resfd, data[off:off + 65536])
        C.R._exit(0)

    def final_problems(self, outcome, detail):
        if self.may_hang:
            return list(self.problems)
        if os.environ.get('MC_DEBUG'):
            loop = asyncio.get_event_loop()
            sys.stderr.flush()
            C.R.write(2, ('fds %r\nmap %r\ntasks %r\nconsole %s\n' % (self.fds(), {k: v.data for k, v in loop._selector.get_map().items()},
                      [(t, t.get_stack()) for t in asyncio.all_tasks(loop)], [(p.idx, p.state, p.report and p.report['fds']) for p in self.ctl.procs])).encode())
            self.problems.append('console: ' + self.console().decode(errors='replace'))
        return list(self.problems) + ['%s: %s while %s: %s' % (self.name, outcome, self.where, detail)]

    def on_event(self, label):
        self.handlers[label]()

    def problem(self, text):
        self.problems.append('%s: %s' % (self.name, text))

    def expect(self, got, want, what):
        if got != want:
            self.problem('%s is %s, should be %s' % (what, short(got), short(want)))
            return False
        return True

    def count(self, key):
        """Record one distinct, non-trivial case."""
        self.distinct.append(key if isinstance(key, str) else repr(key))

    # -- pieshell --------------------------------------------------------
    def env(self, cwd=None, exports=None, interactive=False, **kw):
        import pieshell.environ
        if exports is None:
            exports = {'PATH': os.environ['PATH'], 'HOME': os.environ['HOME']}
        return pieshell.environ.Environment(cwd=cwd or self.dir, exports=exports, interactive=interactive, **kw)

    def attempt(self, fn):
        """Run fn and say how it ended: (kind, value)."""
        from pieshell.pipeline import running
        try:
            r = 'ok', fn()
        except running.PipelineFailed as e:
            r = 'failed', e
        except running.PipelineSuspended as e:
            r = 'suspended', e
        except running.PipelineInterrupted as e:
            r = 'interrupted', e
        except KeyboardInterrupt as e:
            r = 'keyboard', e
        except Exception as e:
            r = 'exc', e
        self.escape()
        return r

    def run(self, coro):
        return asyncio.get_event_loop().run_until_complete(coro)

    def spin(self, n=6):
        async def s():
            for _ in range(n):
                await asyncio.sleep(0)
        if self.ctl:
            save, self.ctl.sched = self.ctl.sched, False
        try:
            self.run(s())
        finally:
            if self.ctl:
                self.ctl.sched = save

    def bg(self, coro):
        return asyncio.get_event_loop().create_task(coro)

    # -- observation -----------------------------------------------------
    def fds(self):
        out = {}
        for name in C.R.listdir('/proc/self/fd'):
            if int(name) < C.HIGH:
                try:
                    out[int(name)] = C.R.readlink('/proc/self/fd/' + name)
                except OSError:
                    pass
        return out

    def snapshot(self):
        import pieshell.signalio as sio
        loop = asyncio.get_event_loop()
        sm = None
        try:
            sm = len(sio.manager.get_signal_manager().signal_handlers)
        except Exception:
            pass
        return dict(fds=self.fds(), tmp=sorted(os.listdir(self.tmp)), registered=len(loop._selector.get_map()), handlers=sm)

    def zombies(self):
        z = []
        if not self.ctl:
            return ['one of them'] if C.waitid(0, C.WEXITED | C.WNOHANG, 0) else []
        for p in self.ctl.procs:
            w = C.waitid(p.pid, C.WEXITED | C.WNOHANG)
            if w:
                z.append(p.idx)
        return z

    def leftovers(self, before, keep_tmp=0, envs=()):
        """Differences between now and the snapshot before, as text."""
        now = self.snapshot()
        out = []
        for fd in sorted(set(now['fds']) | set(before['fds'])):
            a, b = before['fds'].get(fd), now['fds'].get(fd)
            if a != b:
                out.append('descriptor %d: %s before, %s after' % (fd, kind(a), kind(b)))
        if len(now['tmp']) != len(before['tmp']) + keep_tmp:
            out.append('%d temporary files more than there should be' % (len(now['tmp']) - len(before['tmp']) - keep_tmp))
        if now['registered'] != before['registered']:
            out.append('%d descriptors registered with the event loop, %d before' % (now['registered'], before['registered']))
        if now['handlers'] is not None and now['handlers'] != before['handlers']:
            out.append('%d signal handlers registered, %d before' % (now['handlers'], before['handlers']))
        z = self.zombies()
        if z:
            out.append('children not reaped: %s' % z)
        for e in envs:
            if len(e.running_pipelines):
                out.append('%d pipelines still listed as running' % len(e.running_pipelines))
        return out

    def unended(self):
        return [p.idx for p in self.ctl.procs if p.state != 'dead']

    def console(self):
        sys.stdout.flush(); sys.stderr.flush()
        with open(self.workdir + '/console', 'rb') as f:
            return f.read()

    def write_file(self, name, data):
        with open(os.path.join(self.dir, name), 'wb') as f:
            f.write(data)

    def read_file(self, name):
        try:
            with open(os.path.join(self.dir, name), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None


def kind(link):
    if link is None:
        return 'closed'
    return link.split(':')[0] if not link.startswith('/') else link


def short(x, n=300):
    if isinstance(x, (bytes, str)) and len(x) > n:
        return '%r...(%d)...%r' % (x[:n // 2], len(x), x[-n // 3:])
    s = repr(x)
    return s if len(s) <= 2 * n else s[:n] + '...' + s[-n // 2:]
