"""Controlled execution of the real pieshell on the real kernel.

Everything in an execution is real - pieshell, fork, exec, pipes, signals - but nothing
runs unless the controller lets it: the commands are puppets (vprog/vp.c) that perform a
system call only when told to, a forked child stays in front of a gate until it is let
through, and the event loop polls through CtlSelector.  At every poll and before every
system call of the shell that could observe another process the controller makes a
recorded choice of who acts next.  mc/explore.py enumerates these choices.
"""
import os, sys, time, errno, fcntl, select, selectors, signal, socket, stat, struct, types
import hashlib, asyncio, pickle, traceback, gc, builtins
import cffi

R = types.SimpleNamespace(**{n: getattr(os, n) for n in dir(os) if callable(getattr(os, n, None)) or n.isupper()})
real_open = builtins.open

_ffi = cffi.FFI()
_ffi.cdef("int waitid(int, unsigned int, void *, int);")
_c = _ffi.dlopen(None)
WNOHANG, WSTOPPED, WEXITED, WCONTINUED, WNOWAIT = 1, 2, 4, 8, 0x1000000


def waitid(pid, options, idtype=1):
    """What a wait for pid would return now, without consuming it: (code, status) or None."""
    info = _ffi.new("int[64]")
    while True:
        r = _c.waitid(idtype, pid, info, options | WNOWAIT)
        if r == 0:
            break
        e = _ffi.errno
        if e == errno.EINTR:
            continue
        return None
    return (info[2], info[6]) if info[0] else None


CTL = None          # the controller of this process, if this is an execution
GUARD_ROOT = None   # nothing outside may be deleted
BAD_UNLINKS = []
HIGH = 600          # descriptors of the harness live from here on


def high(fd):
    n = fcntl.fcntl(fd, 1030, HIGH)
    R.close(fd)
    return n


def parse_report(text):
    rep = {'arg': [], 'env': {}, 'fds': {}, 'data': {}}
    for line in text.splitlines():
        k, _, v = line.partition(' ')
        if k == 'pid':
            rep['pid'], rep['ppid'] = map(int, v.split())
        elif k == 'cwd':
            rep['cwd'] = os.fsdecode(bytes.fromhex(v))
        elif k == 'arg':
            rep['arg'].append(os.fsdecode(bytes.fromhex(v)))
        elif k == 'data':
            n, _, d = v.partition(' ')
            rep['data'][int(n)] = bytes.fromhex(d)
        elif k == 'env':
            name, _, val = os.fsdecode(bytes.fromhex(v)).partition('=')
            rep['env'][name] = val
        elif k == 'fd':
            fd, fl, pos, kind, ino, *l = v.split(' ')
            rep['fds'][int(fd)] = (int(fl), int(pos), int(kind), int(ino), os.fsdecode(bytes.fromhex(l[0] if l else '')))
    return rep


class Proc:
    def __init__(self, idx, pid, gate):
        self.idx, self.pid, self.gate = idx, pid, gate
        self.state = 'gated'          # gated, live, stopped, dead
        self.conn = None
        self.digest = 0
        self.nsys = 0
        self.report = None
        self.core = False
        self.endop = None             # how it said it would end
        self.buf = b''
        self.qcache = None            # (version, answer)
        self.resumes = 0
        self.prog_state = 'r'

    @property
    def started(self):
        return self.report is not None


def pollfd(fd, ev):
    p = select.poll()
    p.register(fd, ev)
    return bool(p.poll(0))


class Controller:
    def __init__(self, prefix, policy, execdir, workdir, resfd, sched=True):
        self.prefix, self.policy = list(prefix), policy
        self.execdir, self.workdir, self.resfd = execdir, workdir, resfd
        self.pid = R.getpid()
        self.child = False
        self.procs, self.bypid = [], {}
        self.trace = []
        self.orders = {}
        self.parent = hashlib.md5()
        self.version = 0
        self.idle = 0                 # polls answered since anything happened
        self.progress = 0
        self.events = []              # user events still to offer: [label, function]
        self.full = 0                 # how often the event loop got everything that was ready
        self.intr = None              # Ctrl-C at the nth signal the shell sends
        self.blocked = 0              # how often it had to wait
        self.fired = {}               # user events: self.full and self.blocked when they happened
        self.h = None
        self.sched = sched
        self.nchoice = 0
        self.ntrans = 0
        self.log = []
        self.badkills, self.kills = [], []
        self.preempts = True
        self.rot = 0
        self.monitor = None           # called at every poll and every choice
        self.depth = 0
        path = workdir + '/ctl'
        try:
            R.unlink(path)
        except FileNotFoundError:
            pass
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.bind(path)
        s.listen(50)
        self.listener = socket.socket(fileno=high(s.detach()))
        self.listener.setblocking(False)

    # -- recording -------------------------------------------------------
    def note(self, *what):
        """Something the shell learned: part of its state."""
        self.parent.update(repr(what).encode())
        self.version += 1
        self.progress += 1
        self.idle = 0

    def statehash(self, kind):
        h = self.parent.copy()
        h.update(repr((kind, [(p.state, p.digest, p.resumes) for p in self.procs],
                       sorted(self.orders.items()), [e[0] for e in self.events], min(self.idle, 12), self.rot)).encode())
        return h.hexdigest()[:16]

    # -- processes -------------------------------------------------------
    def fork(self):
        r, w = R.pipe()
        r, w = high(r), high(w)
        idx = len(self.procs)
        sys.stdout.flush(); sys.stderr.flush()
        pid = R.fork()
        if pid == 0:
            self.child = True
            while True:
                try:
                    R.read(r, 1)
                    break
                except InterruptedError:
                    pass
            return 0
        R.close(r)
        p = Proc(idx, pid, w)
        self.procs.append(p)
        self.bypid[pid] = p
        self.note('fork', idx)
        self.log.append('fork P%d' % idx)
        if self.sched:
            self.preempt('fork')
        return pid

    def adopt(self, pid):
        """A process started without fork()."""
        p = Proc(len(self.procs), pid, None)
        self.procs.append(p)
        self.bypid[pid] = p
        self.note('spawn', p.idx)
        self.start(p)
        return p

    def recvn(self, p, n, timeout=15.0):
        end = time.time() + timeout
        while len(p.buf) < n:
            po = select.poll(); po.register(p.conn, select.POLLIN)
            if not po.poll(200):
                if self.refresh(p) in ('dead', 'stopped'):
                    return None
                if time.time() > end:
                    self.finish('harness', 'no answer from P%d' % p.idx)
                continue
            try:
                d = p.conn.recv(65536)
            except ConnectionError:
                d = b''
            if not d:
                self.waitdead(p)
                return None
            p.buf += d
        d, p.buf = p.buf[:n], p.buf[n:]
        return d

    def waitdead(self, p):
        waitid(p.pid, WEXITED)
        self.mark_dead(p)

    def mark_dead(self, p):
        if p.state != 'dead':
            p.state = 'dead'
            p.died = self.full
            w = waitid(p.pid, WEXITED | WNOHANG)
            p.ended = w
            self.version += 1
            self.progress += 1
            self.idle = 0
            self.log.append('P%d ended %s' % (p.idx, w))
            if p.conn:
                p.conn.close()
                p.conn = None

    def refresh(self, p):
        """Notice that a signal stopped, continued or ended p."""
        if p.state == 'dead':
            return 'dead'
        if waitid(p.pid, WEXITED | WNOHANG):
            self.mark_dead(p)
        return p.state

    def pstat(self, p):
        try:
            with real_open('/proc/%d/stat' % p.pid) as f:
                return f.read().rsplit(')', 1)[1].split()[0]
        except OSError:
            return 'Z'

    def accept(self):
        try:
            c, _ = self.listener.accept()
        except BlockingIOError:
            return None
        c = socket.socket(fileno=high(c.detach()))
        tmp = Proc(-1, 0, None)
        tmp.conn = c
        n = struct.unpack('I', self.recvn(tmp, 4))[0]
        text = self.recvn(tmp, n).decode()
        rep = parse_report(text)
        p = self.bypid.get(rep['pid'])
        if p is None:                 # a grandchild or a process started in some other way
            p = Proc(len(self.procs), rep['pid'], None)
            self.procs.append(p)
            self.bypid[rep['pid']] = p
        p.report, p.conn, p.state, p.buf = rep, c, 'live', b''
        self.version += 1
        return p

    def start(self, p):
        if p.gate is not None:
            R.write(p.gate, b'g')
            R.close(p.gate)
            p.gate = None
        po = select.poll(); po.register(self.listener, select.POLLIN)
        end = time.time() + 15
        p.state = 'starting'
        while p.state == 'starting':
            if po.poll(2):
                self.accept()
            elif waitid(p.pid, WEXITED | WNOHANG):
                if not po.poll(0):
                    self.mark_dead(p)
            elif self.pstat(p) == 'T':
                p.state = 'gated'     # stopped before it got anywhere
                p.stopped_early = True
                return
            elif time.time() > end:
                self.finish('harness', 'P%d did not start' % p.idx)
        self.progress += 1; self.idle = 0; self.version += 1
        self.log.append('P%d started' % p.idx if p.state == 'live' else 'P%d failed to start' % p.idx)

    def enabled(self, p):
        if p.state == 'dead':
            return False
        if p.state == 'gated':
            return self.pstat(p) != 'T'
        if p.state == 'stopped':
            return False
        if p.qcache and p.qcache[0] == self.version:
            return p.qcache[1] == 'r'
        r = self.command(p, b'Q')
        p.qcache = (self.version, r)
        return r == 'r'

    REPLY = struct.Struct('=c3xIIIQQ')

    def command(self, p, c):
        try:
            p.conn.send(c)
        except (ConnectionError, AttributeError):
            self.waitdead(p)
            return 'd'
        d = self.recvn(p, self.REPLY.size)
        if d is None:
            return 'd'
        st, nsys, opi, code, digest, wino = self.REPLY.unpack(d)
        st = st.decode()
        if nsys != p.nsys:
            p.nsys = nsys
            self.ntrans += 1
            self.progress += 1; self.idle = 0; self.version += 1
            if wino:
                o = self.orders.setdefault(wino, [])
                if not o or o[-1] != p.idx:
                    o.append(p.idx)
        p.digest = digest
        if st == 'X' or st == 'K':
            p.endop = (st, code)
            if st == 'K' and code >= 128:
                p.core = True
            self.waitdead(p)
            self.sigsync()
        elif st == 'Z':
            waitid(p.pid, WSTOPPED)
            p.state = 'stopped'
            self.version += 1; self.progress += 1; self.idle = 0
            self.log.append('P%d stopped itself' % p.idx)
            self.sigsync()
        return st

    def sigsync(self):
        """Make sure the SIGCHLD belonging to what just happened has been queued."""
        if not BACKEND_SIGNALFD:
            return
        for _ in range(100):
            if signal.SIGCHLD in signal.sigpending():
                return
            time.sleep(0.0002)

    def act(self, label):
        """Carry out a scheduling choice about a process."""
        p = self.procs[int(label[1:])]
        self.depth += 1
        if p.state == 'gated':
            self.start(p)
            if label[0] == 'B' and p.state == 'live':
                self.command(p, b'B')
        elif p.state == 'live':
            self.command(p, label[0].encode())
        self.log.append('%s -> %d syscalls, %s' % (label, p.nsys, p.state))

    # -- choices ---------------------------------------------------------
    def proc_options(self, steps=True):
        self.maybe_accept()
        out = []
        for p in list(self.procs):
            if self.enabled(p):
                out.append('B%d' % p.idx)
                if steps:
                    out.append('S%d' % p.idx)
        return out

    def maybe_accept(self):
        if pollfd(self.listener, select.POLLIN):
            self.accept()

    def default(self, kind, options):
        pol = self.policy
        procs = [o for o in options if o[0] == 'B']
        steps = [o for o in options if o[0] == 'S']
        go = [o for o in options if o in ('R', 'go')]
        if kind != 'poll' and go and pol in ('loop', 'fine', 'last'):
            return go[0]
        if pol == 'loop':
            return (go or procs or options)[0]
        if pol == 'fine':
            return (go or steps or options)[0]
        if pol == 'last':
            return go[0] if go else (procs[-1] if procs else options[0])
        if pol == 'procs':
            return (procs or go or options)[0]
        if pol == 'procslast':
            return procs[-1] if procs else (go or options)[0]
        if pol.startswith('starve'):  # one of the commands runs only if nothing else can
            rest = [o for o in procs if o[1:] != pol[6:]]
            return rest[-1] if rest else (go or procs or options)[0]
        if pol == 'finep':            # single steps, in turn, before the shell
            if steps and kind == 'poll':
                self.rot += 1
                return steps[self.rot % len(steps)] if self.rot % 2 else (go or steps)[0]
            return (go or steps or options)[0]
        raise ValueError(pol)

    def choose(self, kind, options):
        if len(options) == 1 and kind != 'must':
            return options[0]
        i = self.nchoice
        self.nchoice += 1
        sh = self.statehash(kind)
        d = self.default(kind, options)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c == '*':
                c = d
            if c not in options:
                self.finish('diverged', 'choice %d: %r not among %r' % (i, c, options))
        else:
            c = d
        self.trace.append((kind, tuple(options), c, d, sh))
        if len(self.trace) > 6000:
            self.finish('livelock', 'too many choices')
        return c

    def preempt(self, kind):
        """The shell is about to do something others can interfere with."""
        if not self.sched or not self.preempts or self.child:
            return
        self.version += 1
        while True:
            opts = ['go'] + [o for o in self.proc_options(steps=False)]
            c = self.choose(kind, opts)
            if c == 'go':
                return
            self.act(c)

    def block(self, what, ready):
        """The shell sits in a blocking system call."""
        while not ready():
            opts = self.proc_options()
            if not opts:
                self.finish('hang', 'the shell is blocked for ever in ' + what)
            self.act(self.choose('block', opts))

    def poll(self, sel, timeout):
        if not self.sched:
            return sel.real_select(timeout)
        self.version += 1             # the shell can have closed something
        while True:
            if self.monitor:
                self.monitor()
            ready = sorted(sel.real_select(0), key=lambda ke: ke[0].fd)
            now = bool(ready) or (timeout is not None and timeout <= 0)
            if now and self.idle < 8 and len(ready) < 2 and not self.events and all(p.state == 'dead' for p in self.procs):
                if ready:
                    self.parent.update(repr(('R', [(k.fd, e) for k, e in ready])).encode())
                self.idle += 1
                self.full += 1
                return ready
            opts = ['R'] if now else []
            self.blocked += not now
            procs = self.proc_options()
            if now and self.idle > 8 and procs:
                opts = []             # fairness: the loop only spins, let others run
            opts += procs
            if len(ready) > 1 and opts and opts[0] == 'R':
                opts += ['R1:%d' % k.fd for k, e in ready]
            opts += [e[0] for e in self.events if e[1] is None or e[1]()]
            loop = asyncio.get_event_loop()
            timers = [t for t in getattr(loop, '_scheduled', []) if not t._cancelled]
            if not now and timeout is not None and timers:
                opts.append('T')
            if not now and not [o for o in opts if o[0] in 'BSRT']:
                forced = [e[0] for e in self.events if len(e) > 2 and e[2]]
                if not forced:
                    self.finish('hang', 'nothing can happen any more')
                opts = forced
            if now and self.idle > 8 and not procs:
                if timers:
                    loop.vt = max(loop.vt, timers[0]._when)
                    self.idle = 0
                elif self.idle > 20 and [e for e in self.events if len(e) > 2 and e[2] and (e[1] is None or e[1]())]:
                    opts = [e[0] for e in self.events if len(e) > 2 and e[2] and (e[1] is None or e[1]())]
                elif self.idle > 400:
                    self.finish('livelock', 'the event loop spins for ever')
            c = self.choose('poll', opts)
            if c == 'R':
                if [k.fd for k, e in ready]:
                    self.parent.update(repr(('R', [(k.fd, e) for k, e in ready])).encode())
                self.idle += 1
                self.full += 1
                return ready
            if c[:3] == 'R1:':
                fd = int(c[3:])
                one = [(k, e) for k, e in ready if k.fd == fd]
                self.parent.update(repr(('R1', fd)).encode())
                self.idle += 1
                return one
            if c == 'T':
                loop.vt += timeout
                self.note('T')
                return []
            if c[0] in 'BS':
                self.act(c)
                continue
            # a user event
            for i, e in enumerate(self.events):
                if e[0] == c:
                    del self.events[i]
                    break
            self.note('event', c)
            self.fired[c] = self.full, self.blocked
            self.log.append('event %s' % c)
            self.event(c)

    def event(self, c):
        c = c.split('#')[0]
        if c == 'CtrlZ':
            R.kill(self.pid, signal.SIGTSTP)
        elif c == 'CtrlC':
            raise KeyboardInterrupt()
        elif c == 'CtrlC+':           # as a terminal does it: the commands get it, too
            for p in self.procs:
                if p.state in ('live', 'stopped'):
                    self.signal_proc(p, signal.SIGINT)
            raise KeyboardInterrupt()
        elif c.startswith('sig:'):    # sig:IDX:SIGNO - somebody else sends a signal
            _, i, s = c.split(':')
            if int(i) < len(self.procs) and self.procs[int(i)].state != 'dead':
                self.signal_proc(self.procs[int(i)], int(s))
        else:
            self.h.on_event(c)

    # -- signals ---------------------------------------------------------
    def signal_proc(self, p, signo):
        if p.state == 'dead':
            try:
                R.kill(p.pid, signo)   # a zombie
            except ProcessLookupError:
                raise
            return
        was = self.pstat(p)
        R.kill(p.pid, signo)
        self.version += 1; self.progress += 1; self.idle = 0
        p.digest = hash((p.digest, 'sig', int(signo)))
        if signo == signal.SIGSTOP:
            if was not in 'TZ':
                waitid(p.pid, WSTOPPED | WEXITED)
                end = time.time() + 5
                while self.pstat(p) not in 'TZ' and time.time() < end:
                    time.sleep(0.0002)
                if p.state == 'live':
                    p.state = 'stopped'
                self.sigsync()
            self.log.append('SIGSTOP P%d' % p.idx)
        elif signo == signal.SIGCONT:
            if was == 'T':
                end = time.time() + 5
                while self.pstat(p) == 'T' and time.time() < end:
                    time.sleep(0.0001)
                if p.state == 'stopped':
                    p.state = 'live'
                    p.resumes += 1
                    self.command(p, b'Q')
                self.sigsync()
                self.log.append('SIGCONT P%d' % p.idx)
        elif signo == 0:
            pass
        else:
            if was == 'T':
                return
            if p.state == 'live' and signo in (signal.SIGINT, signal.SIGTERM, signal.SIGKILL, signal.SIGHUP, signal.SIGQUIT):
                self.settle(p)
            elif p.state == 'gated':
                self.settle(p)
            self.log.append('signal %d P%d' % (signo, p.idx))
        if signo == signal.SIGKILL:
            self.waitdead(p)

    def settle(self, p):
        end = time.time() + 0.5
        while time.time() < end:
            if waitid(p.pid, WEXITED | WNOHANG):
                self.mark_dead(p)
                self.sigsync()
                return
            time.sleep(0.0005)

    def kill(self, pid, signo):
        """os.kill called by the shell."""
        if self.child:
            return R.kill(pid, signo) if pid > 1 else None
        if pid == self.pid:
            return R.kill(pid, signo)
        p = self.bypid.get(pid)
        if p is None:
            self.badkills.append((pid if pid <= 1 else 'stranger', int(signo)))
            self.note('kill', 'stranger')
            if pid <= 1:
                return
            raise ProcessLookupError(errno.ESRCH, 'No such process')
        self.preempt('kill')
        self.kills.append((p.idx, int(signo), p.state))
        if getattr(p, 'reaped', False):
            self.badkills.append(('reaped P%d' % p.idx, int(signo)))
            self.note('kill', p.idx, 'reaped')
            raise ProcessLookupError(errno.ESRCH, 'No such process')
        if self.intr == (len(self.kills), 'before'):
            self.kills.pop()
            self.intr = 'done'
            raise KeyboardInterrupt()
        self.signal_proc(p, signo)
        self.note('kill', p.idx, int(signo))
        if self.intr == (len(self.kills), 'after'):
            self.intr = 'done'
            raise KeyboardInterrupt()

    def waitpid(self, pid, options):
        if self.child:
            return R.waitpid(pid, options)
        self.preempt('waitpid')
        if not options & R.WNOHANG:
            self.block('waitpid', lambda: any(
                (p.pid == pid or pid == -1) and not getattr(p, 'reaped', False) and
                waitid(p.pid, WEXITED | WNOHANG | (WSTOPPED if options & os.WUNTRACED else 0)) for p in self.procs)
                or not any(not getattr(p, 'reaped', False) for p in self.procs))
        try:
            rpid, status = R.waitpid(pid, options)
        except ChildProcessError:
            self.parent.update(b'ECHILD')
            raise
        p = self.bypid.get(rpid)
        if p is not None:
            if os.WIFEXITED(status) or os.WIFSIGNALED(status):
                p.reaped = True
                if p.core:
                    status |= 0x80
            self.note('waitpid', p.idx, status)
            self.log.append('reaped P%d status %x' % (p.idx, status))
        else:
            self.parent.update(b'none')
        return rpid, status

    # -- data ------------------------------------------------------------
    def blocking_pipe(self, fd):
        st = R.fstat(fd)
        if not (stat.S_ISFIFO(st.st_mode) or stat.S_ISSOCK(st.st_mode)):
            return False
        return not fcntl.fcntl(fd, fcntl.F_GETFL) & R.O_NONBLOCK

    def read(self, fd, n):
        if self.child or fd >= HIGH:
            return R.read(fd, n)
        if self.blocking_pipe(fd):
            self.preempt('read')
            if not pollfd(fd, select.POLLIN):
                self.block('read', lambda: pollfd(fd, select.POLLIN))
        elif stat.S_ISFIFO(R.fstat(fd).st_mode):
            self.preempt('read')
        d = R.read(fd, n)
        self.note('read', fd, d)
        return d

    def write(self, fd, data):
        if self.child or fd >= HIGH:
            return R.write(fd, data)
        if not self.blocking_pipe(fd):
            st = R.fstat(fd)
            if stat.S_ISFIFO(st.st_mode):
                self.preempt('write')
            n = R.write(fd, data)
            if stat.S_ISFIFO(st.st_mode) and n:
                o = self.orders.setdefault(st.st_ino, [])
                if not o or o[-1] != -1:
                    o.append(-1)
                self.version += 1; self.progress += 1; self.idle = 0
            self.note('write', st.st_ino if stat.S_ISFIFO(st.st_mode) else fd, n)
            return n
        self.preempt('write')
        data = bytes(data)
        if not data:
            return R.write(fd, data)
        done = 0
        ino = R.fstat(fd).st_ino
        while done < len(data):
            if not pollfd(fd, select.POLLOUT):
                self.block('write', lambda: pollfd(fd, select.POLLOUT))
            try:
                done += R.write(fd, data[done:done + 4096])
            except OSError:
                self.note('write', fd, done, 'error')
                if done:
                    return done
                raise
            o = self.orders.setdefault(ino, [])
            if not o or o[-1] != -1:
                o.append(-1)
            self.version += 1; self.progress += 1; self.idle = 0
        self.note('write', fd, done)
        return done

    # -- ending ----------------------------------------------------------
    def escape_check(self):
        if R.getpid() != self.pid:
            fd = R.open(self.execdir + '/../escape', R.O_WRONLY | R.O_CREAT | R.O_APPEND)
            R.write(fd, ('child of the shell came back to the caller: %s\n' % (sys.exc_info()[1],)).encode())
            R._exit(77)

    def finish(self, outcome, detail='', problems=(), obs=None):
        self.escape_check()
        try:
            sys.stdout.flush(); sys.stderr.flush()
        except Exception:
            pass
        if outcome not in ('ok', 'harness', 'diverged') and self.h is not None:
            problems = list(problems) + self.h.final_problems(outcome, detail)
        esc = self.execdir + '/../escape'
        escaped = None
        if os.path.exists(esc):
            with real_open(esc) as f:
                escaped = f.read()
        res = dict(outcome=outcome, detail=detail, problems=list(problems), obs=obs, trace=self.trace,
                   trans=self.ntrans + self.progress, nproc=len(self.procs), log=self.log[-400:], escaped=escaped,
                   badkills=self.badkills)
        data = pickle.dumps(res)
        off = 0
        while off < len(data):
            off += R.write(self.resfd, data[off:off + 65536])
        R._exit(0)


class CtlSelector(selectors.EpollSelector):
    def real_select(self, timeout):
        return super().select(timeout)

    def select(self, timeout=None):
        if CTL is None or CTL.child or R.getpid() != CTL.pid:
            return super().select(timeout)
        return CTL.poll(self, timeout)

    def renew(self):
        """After fork: an epoll instance of our own under the same number."""
        ep = select.epoll()
        fd = self._selector.fileno()
        os.dup2(ep.fileno(), fd, inheritable=False)
        ep.close()
        for key in self._fd_to_key.values():
            self._selector.register(key.fd, (select.EPOLLIN if key.events & selectors.EVENT_READ else 0)
                                    | (select.EPOLLOUT if key.events & selectors.EVENT_WRITE else 0))


class VLoop(asyncio.SelectorEventLoop):
    vt = 1000.0

    def time(self):
        return self.vt


BACKEND_SIGNALFD = True


def _active():
    return CTL is not None and not CTL.child and R.getpid() == CTL.pid


def install():
    """Put the dispatchers in place.  Called before pieshell is imported."""
    def fork():
        return CTL.fork() if _active() else R.fork()

    def read(fd, n):
        return CTL.read(fd, n) if _active() else R.read(fd, n)

    def write(fd, data):
        return CTL.write(fd, data) if _active() else R.write(fd, data)

    def kill(pid, sig):
        if CTL is None:
            if pid <= 1 or pid != R.getpid() and not mychild(pid):
                raise ProcessLookupError(errno.ESRCH, 'No such process')
            return R.kill(pid, sig)
        return CTL.kill(pid, sig)

    def mychild(pid):
        try:
            with real_open('/proc/%d/stat' % pid) as f:
                return int(f.read().rsplit(')', 1)[1].split()[3]) == R.getsid(0)
        except OSError:
            return False

    def killpg(pg, sig):
        if CTL is None:
            raise ProcessLookupError(errno.ESRCH, 'No such process')
        p = CTL.bypid.get(pg)
        if p is None or R.getpgid(pg) != pg:
            CTL.badkills.append(('group', int(sig)))
            raise ProcessLookupError(errno.ESRCH, 'No such process')
        return CTL.kill(pg, sig)

    def waitpid(pid, options):
        return CTL.waitpid(pid, options) if _active() else R.waitpid(pid, options)

    def guard(name):
        f = getattr(R, name)

        def guarded(path, *a, **k):
            if GUARD_ROOT is not None and not isinstance(path, int) and not k.get('dir_fd'):
                full = os.path.abspath(os.fsdecode(path))
                if not full.startswith(GUARD_ROOT + '/'):
                    BAD_UNLINKS.append(full)
                    return None
            return f(path, *a, **k)
        guarded.__name__ = name
        return guarded
    os.fork, os.read, os.write, os.kill, os.killpg, os.waitpid = fork, read, write, kill, killpg, waitpid
    for n in ('unlink', 'remove', 'rmdir'):
        setattr(os, n, guard(n))
    for n in ('posix_spawn', 'posix_spawnp'):
        if hasattr(os, n):
            def spawn(*a, _f=getattr(R, n), **k):
                pid = _f(*a, **k)
                if _active():
                    CTL.adopt(pid)
                return pid
            setattr(os, n, spawn)
    selectors.DefaultSelector = CtlSelector
    try:
        import signalfd
        rs = signalfd.read_siginfo

        def read_siginfo(fd):
            if not _active():
                return rs(fd)
            CTL.preempt('siginfo')
            try:
                r = rs(fd)
            except (OSError, IOError):
                CTL.parent.update(b'EAGAIN')
                raise
            CTL.note('siginfo', r.ssi_signo)
            return r
        signalfd.read_siginfo = read_siginfo
    except ImportError:
        pass
    asyncio.set_event_loop(VLoop(CtlSelector()))
