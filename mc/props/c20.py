"""C20: every state change of every child reaches exactly its own pipeline."""
import os, re, sys, signal, itertools, time, asyncio
from ..explore import Scen
from .. import lib

LEVEL = 'model_checking'
ASSUMPTIONS = ['the kernel reports at least the latest change of state of each child that was not reported yet, and changes of one child in the order they happened']

# Changes of a child. A word is a sequence of: (child, change), '.' the shell advances to its next look at the kernel, '!' it runs until it is idle
RUN, STOP, END = 'running', 'stopped', 'ended'
CHANGES = {     # name: (signal sent, states it applies in, next state, (code, status) to be reported)
    's': (signal.SIGSTOP, (RUN,), STOP, (5, signal.SIGSTOP)),
    't': (signal.SIGTTIN, (RUN,), STOP, (5, signal.SIGTTIN)),
    'p': (signal.SIGTSTP, (RUN,), STOP, (5, signal.SIGTSTP)),
    'c': (signal.SIGCONT, (STOP,), RUN, (6, None)),
    'x': (signal.SIGUSR1, (RUN,), END, (1, 7)),
    'h': (signal.SIGHUP, (RUN,), END, (1, 0)),
    'f': (signal.SIGWINCH, (RUN,), END, (1, 255)),
    'k': (signal.SIGKILL, (RUN, STOP), END, (2, signal.SIGKILL)),
    'm': (signal.SIGTERM, (RUN,), END, (2, signal.SIGTERM)),
    'z': (signal.SIGUSR2, (RUN,), RUN, None),               # the child sends SIGTSTP to the shell
}


def words(n, changes, kids, tstp, lead=''):
    """All words up to length n that end with a change, children in the order of first use, with what makes no difference left out."""
    out = []

    def go(w, st):
        if w and w[-1] not in ('.', '!'):
            out.append(tuple(w))
        if len(w) == n:
            return
        used = len({x[0] for x in w if x[0] not in '.!T'})
        # kids: how many of them are members, the others are children of the program that belong to no pipeline
        for i in range(len(st)):
            if i < kids and i > 0 and not any(x[0] == str(i - 1) for x in w):
                continue
            for c in changes:
                if st[i] in CHANGES[c][1]:
                    go(w + [str(i) + c], st[:i] + (CHANGES[c][2],) + st[i + 1:])
        if tstp:
            go(w + ['T'], st)
        if w and w[-1] != '!':
            go(w + ['.'], st)
            if w[-1] != '.':
                go(w + ['!'], st)
    go([], (RUN,) * (kids + (1 if lead == 'other' else 0)))
    return out


def state(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            return f.read().rsplit(')', 1)[1].split()[0]
    except OSError:
        return None


def until(cond, what, h):
    for i in range(20000):
        if cond():
            return True
        if i > 50:
            time.sleep(0.0005)
    raise Exception('the child is not %s' % (what() if callable(what) else what))


class Machine:
    """Drives the children and the shell along a word."""
    def __init__(self, h, layout, kids, other):
        from mc import ctl
        self.h, self.R = h, ctl.R
        import pieshell
        from pieshell import signalio
        self.sio = signalio
        e = h.env(interactive=layout == 'waited')
        for n in os.listdir(h.dir):
            os.unlink(h.dir + '/' + n)
        cmds = [e.vp('L:live%d' % i) for i in range(kids)]
        null = pieshell.Redirect(0, '/dev/null')
        if layout in ('separate', 'waited'):
            self.running = [(null | c).run() for c in cmds]
        elif layout == 'pipe':
            self.running = [(null | __import__('functools').reduce(lambda a, b: a | b, cmds)).run()] * kids
        else:
            self.running = [(null | __import__('functools').reduce(lambda a, b: a + b, cmds)).run()] * kids
        self.procs = [p.processes[0] for p in self.running] if layout in ('separate', 'waited') else list(self.running[0].processes)
        self.pids = [p.pid for p in self.procs]
        if other:
            pid = self.R.fork()
            if pid == 0:
                try:
                    signal.pthread_sigmask(signal.SIG_SETMASK, [])
                    self.R.execv(h.workdir + '/free/vp', ['vp', 'L:live%d' % kids])
                finally:
                    self.R._exit(1)
            self.pids.append(pid)
        self.kids = kids
        for i in range(len(self.pids)):
            until(lambda: os.path.exists(h.dir + '/live%d' % i), 'started', h)
        self.st = [RUN] * len(self.pids)
        self.hist = [[] for _ in self.pids]         # what happened: (report, whether the shell was idle before the next one)
        self.tstps = 0
        self.settled = [0] * len(self.pids)
        # observers
        outer = self
        self.seen = {pid: [] for pid in self.pids}
        self.all = []
        self.own = []
        self.stops = []

        class O(signalio.SignalHandler):
            def __init__(self, filter, to):
                self.to = to
                signalio.SignalHandler.__init__(self, filter)

            def handle_event(self, ev):
                self.to(ev)
        self.observers = [O({'ssi_pid': pid, 'ssi_signo': signal.SIGCHLD}, self.seen[pid].append) for pid in self.pids]
        self.observers.append(O({}, self.all.append))
        self.observers += [O({'ssi_signo': signal.SIGTSTP}, self.stops.append) for _ in range(2)]
        self.iterated = {pid: [] for pid in self.pids}
        self.tasks = []
        for pid in self.pids:
            it = signalio.SignalIteratorHandler({'ssi_pid': pid})
            self.observers.append(it)
            self.tasks.append(h.bg(self.iterate(it, self.iterated[pid])))
        self.waiter = None
        if layout == 'waited':
            self.waiter = h.bg(self.wait())
            self.waited = None
        # the last pipeline of another program must not be affected
        h.spin(3)

    async def wait(self):
        try:
            await self.running[0].wait()
            self.waited = 'ok'
        except Exception as e:
            self.waited = type(e).__name__
        except KeyboardInterrupt:
            self.waited = 'interrupt'

    async def iterate(self, it, to):
        async for ev in it:
            to.append(ev)

    def change(self, op):
        if op == 'T':
            self.tstps += 1
            self.R.kill(os.getpid(), signal.SIGTSTP)
            return
        i, c = int(op[0]), op[1]
        sig, _, nxt, rep = CHANGES[c]
        pid = self.pids[i]
        if c == 'z':
            n = self.tstps
            self.tstps += 1
            self.R.kill(pid, sig)
            # has been sent once the child sleeps again with no signal pending
            until(lambda: quiet(pid), 'done', self.h)
            return
        self.R.kill(pid, sig)
        self.st[i] = nxt
        self.hist[i].append((rep, self.settled[i] == len(self.hist[i])))
        want = {RUN: 'SR', STOP: 'T', END: 'Z'}[nxt]
        # the shell may have looked before
        until(lambda: (state(pid) or 'Z') in want, lambda: '%s but %s after %s' % (nxt, state(pid), op), self.h)

    def complete(self):
        return all(not hist or (self.seen[pid] and self.matches(self.seen[pid][-1], hist[-1][0])) for pid, hist in zip(self.pids, self.hist)) and \
            (not self.tstps or self.stops)

    def matches(self, ev, rep):
        return ev['ssi_code'] == rep[0] and (rep[1] is None or ev['ssi_status'] == rep[1])

    def settle(self):
        """Lets the shell run until it has seen everything."""
        for i in range(300):
            self.h.spin(2)
            if self.complete():
                break
            if i > 5:
                time.sleep(0.001)
        self.h.spin(4)
        self.settled = [len(x) for x in self.hist]

    def advance(self):
        """Called when the shell looks at the kernel: what happens before it goes on."""
        while self.word and self.word[0] != '!':
            op = self.word.pop(0)
            if op == '.':
                return
            self.change(op)

    def go(self, word):
        self.word = list(word)
        real = os.waitpid
        me = os.getpid()

        def waitpid(*a):
            r = real(*a)
            if os.getpid() == me:
                self.advance()
            return r
        os.waitpid = waitpid
        mod = self.sio.manager
        sfd = getattr(mod, 'signalfd', None)
        if sfd is not None:
            rs = sfd.read_siginfo

            def read_siginfo(*a):
                r = rs(*a)
                self.advance()
                return r
            sfd.read_siginfo = read_siginfo
        try:
            while self.word:
                self.advance()
                if self.word and self.word[0] == '!':
                    self.word.pop(0)
                    self.settle()
                else:
                    self.h.spin(2)
            self.settle()
        finally:
            os.waitpid = real
            if sfd is not None:
                sfd.read_siginfo = rs

    def close(self):
        for t in self.tasks + [self.waiter]:
            if t is not None:
                t.cancel()
        for o in self.observers:
            o.destroy()
        for pid, st in zip(self.pids, self.st):
            if st != END:
                self.R.kill(pid, signal.SIGKILL)
        for i in range(400):
            self.h.spin(3)
            if all(state(p) is None for p in self.pids) and not any(p.is_running for p in self.procs):
                break
            time.sleep(0.001)
        self.h.spin(3)


def quiet(pid):
    try:
        with open('/proc/%d/status' % pid) as f:
            s = dict(x.split(':', 1) for x in f.read().split('\n') if ':' in x)
        return s['State'].split()[0] == 'S' and int(s['ShdPnd'], 16) == 0 and int(s['SigPnd'], 16) == 0 and int(s['SigBlk'], 16) & (1 << signal.SIGUSR2 - 1) == 0
    except OSError:
        return True


def selection(m, got, hist):
    """Whether what was noticed is what happened, in order, without any but what was followed by something else before the shell had time."""
    needed = [k == len(hist) - 1 or hist[k + 1][1] for k in range(len(hist))]

    def go(g, k):
        if k == len(hist):
            return g == len(got)
        if g < len(got) and m.matches(got[g], hist[k][0]) and go(g + 1, k + 1):
            return True
        return not needed[k] and go(g, k + 1)
    return go(0, 0)


def waited(h, m, what):
    asked, ended = bool(m.tstps), m.st[0] == END
    ok = {'PipelineFailed' if m.hist[0][-1][0][1] else 'ok'} if ended else set()
    if asked:
        ok.add('PipelineSuspended')
    if not ok:
        ok.add(None)
    for _ in range(200):
        if m.waited is not None or None in ok:
            break
        h.spin(2)
        time.sleep(0.001)
    if m.waited not in ok:
        h.problem('%s: waiting for child 0 gives %s, should %s' % (what, m.waited, sorted(map(str, ok))))
    if m.waited == 'PipelineSuspended' and m.st[0] == RUN:
        try:
            until(lambda: state(m.pids[0]) == 'T', 'stopped', h)
        except Exception:
            h.problem('%s: child 0 was not stopped' % what)
        m.hist[0].append((CHANGES['s'][3], False))
        m.st[0] = STOP
        m.settle()


def one(h, layout, kids, other, word):
    m = Machine(h, layout, kids, other)
    m.go(word)
    what = '%s %s' % (layout, ' '.join(word))
    if m.waiter:
        waited(h, m, what)
    pr = lambda evs: ['%s:%s' % (e['ssi_code'], e['ssi_status']) for e in evs]
    for i, pid in enumerate(m.pids):
        who = 'child %d' % i if i < kids else 'a child of no pipeline'
        got = m.seen[pid]
        hist = m.hist[i]
        # an order preserving selection of what happened, with what must be in it
        if not selection(m, got, m.hist[i]):
            h.problem('%s: %s was noticed for %s, happened: %s' % (what, pr(got), who, ['%s:%s%s' % (r + ('' if n else ' at once',)) for r, n in hist]))
        if [x for x in m.iterated[pid] if x['ssi_signo'] == signal.SIGCHLD] != got:
            h.problem('%s: an iterator sees %s instead of %s' % (what, pr(m.iterated[pid]), pr(got)))
        if [x for x in m.all if x['ssi_pid'] == pid and x['ssi_signo'] == signal.SIGCHLD] != got:
            h.problem('%s: a handler of everything sees %s instead of %s' % (what, pr(m.all), pr(got)))
        if i < kids:
            p = m.procs[i]
            h.expect(p.is_running, m.st[i] != END, '%s: is_running of child %d' % (what, i))
            if m.st[i] == END and hist:
                h.expect(p.exit_code, int(hist[-1][0][1]), '%s: exit_code of child %d' % (what, i))
                h.expect(p.is_failed, hist[-1][0][1] != 0, '%s: is_failed of child %d' % (what, i))
            else:
                h.expect(p.exit_code, None, '%s: exit_code of child %d' % (what, i))
            # what it shows
            ev = got[-1] if got else None
            s = re.search(r' as %d( \([^)]*\))?' % pid, repr(m.running[i]))
            s = s and (s.group(1) or '')
            if s is None or m.st[i] == STOP and 'signal=%s' % ev['ssi_status'] not in s or m.st[i] == RUN and s:
                h.problem('%s: child %d is %s and shown as %s' % (what, i, m.st[i], s))
    for r, idx in [(r, [j for j in range(kids) if m.running[j] is r]) for r in dict.fromkeys(m.running)]:
        h.expect(r.is_running, any(m.st[j] != END for j in idx), '%s: whether pipeline of %s is running' % (what, idx))
    strange = [x for x in m.all if x['ssi_signo'] == signal.SIGCHLD and x['ssi_pid'] not in m.pids]
    if strange:
        h.problem('%s: changes of others were noticed: %s' % (what, ['%s of %s' % x for x in zip(pr(strange), [e['ssi_pid'] for e in strange])], ))
    n = len(m.stops) / 2
    if not (n <= m.tstps and bool(n) == bool(m.tstps)):
        h.problem('%s: %s stop requests noticed of %d' % (what, n, m.tstps))
    m.close()
    for p in m.procs:
        if p.is_running:
            h.problem('%s: the end of %d was not noticed' % (what, p.pid))
    from pieshell import signalio
    left = [k for k in signalio.manager.get_signal_manager().signal_handlers if any(x == ('ssi_pid', p) for p in m.pids for x in flat(k))]
    if left:
        h.problem('%s: handlers of ended children stay: %s' % (what, left))
    if h.loop_errors:
        h.problem('errors in the event loop: %s' % h.loop_errors[:3])
        h.loop_errors = []
    h.count((h.scen.backend, layout, kids, other, word))
    h.ops += len(word)


def flat(k):
    if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], str):
        return [k]
    return [y for x in k for y in flat(x)] if isinstance(k, tuple) else []


def changes(h, item):
    one(h, *item)


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for backend in ('signalfd', 'asyncio'):
        items = []
        n = 6 if t else 5
        items += [('separate', 2, False, w) for w in words(n, 'scxk', 2, False)]
        items += [('separate', 3, False, w) for w in words(n, 'x' if not t else 'xs', 3, False)]
        items += [('separate', 1, True, w) for w in words(n, 'sckx' if t else 'skx', 1, False, 'other')]
        items += [('separate', 1, False, w) for w in words(n + 1, 'scxhfkm' if t else 'scx', 1, False)]
        items += [('separate', 1, False, w) for w in words(3, 'scxhfkm', 1, False)]
        items += [('separate', 2, False, w) for w in words(n - 1, 'skxz', 2, True)]
        items += [('waited', 2, False, w) for w in words(n - 1, 'scxhz', 2, True) if not any(x[-1] in 'zT' for x in w[:-1])]
        items += [('separate', 1, False, w) for w in words(n - 1, 'stpcx', 1, False)]
        items += [('separate', 2, False, w) for w in words(n - 2 + t, 'tpck', 2, False)]
        for lay in ('pipe', 'group'):
            items += [(lay, 2, False, w) for w in words(n - 1, 'scxh', 2, False)]
        items = list(dict.fromkeys(items))
        out.append(Scen('changes ' + backend, changes, sched=False, items=items, chunk=20 if not t else 50, timeout=100, backend=backend))
    return out
