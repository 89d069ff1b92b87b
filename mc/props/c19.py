"""C19: a child process never continues as a second shell."""
import os, sys, errno, signal, asyncio, itertools
from ..explore import Scen
from .. import lib

LEVEL = 'fault_enumeration'
RULE = 'distinct (program, caller, forked child, point between fork and exec or exit, fault) combinations injected into the real child'
ASSUMPTIONS = ['the faults of a child are: each of its system calls failing with an OSError or MemoryError, also with nowhere to report it to, and a SIGINT or a SIGTERM the caller handles arriving before any line of pieshell it executes (first and last time it gets there)']


# Programs: what to run in environment e, whose directory has the files file, plain (not executable), text (no program) and noperm/
def programs():
    class Lazy:         # not imported before the workers are set up
        def __getattr__(self, name):
            return getattr(__import__('pieshell.redir').redir if name in ('STRING', 'TMP') else __import__('pieshell.environ').environ, name)
    environ = redir = Lazy()

    def r(*a, **kw):
        import pieshell
        return pieshell.Redirect(*a, **kw)
    w = os.O_WRONLY | os.O_CREAT
    return {
        'command': lambda h, e: e.vp('o:x/'),
        'files': lambda h, e: (r(0, 'file') | e.vp('c')) > 'out',
        'many redirects': lambda h, e: e.vp('o:x/') | r(1, 'out') | r(2, 'err') | r(5, 'five', w) | r(3, 'file', os.O_RDONLY),
        'closed': lambda h, e: None | e.vp('o:x/') | None,
        'string': lambda h, e: e.vp('e:err/') | r(1, redir.STRING) | r(2, redir.TMP),
        'pipe': lambda h, e: e.vp('o:x/') | e.vp('c') | e.vp('u'),
        'group': lambda h, e: e.vp('o:x/') + e.vp('o:y/'),
        'argument': lambda h, e: e.vp(e.vp('o:x/'), e.vp('o:y/')),
        'function': lambda h, e: e.vp('o:x/') | lib.function('up') | e.vp('c'),
        'list': lambda h, e: ['a', 'b'] | e.vp('c'),
        'subshell': lambda h, e: e.subshell(e.vp('o:x/')),
        'subshell pipe': lambda h, e: e.vp('o:x/') | e.subshell(e.vp('c') | lib.function('up')) | e.vp('c'),
        'subshell fails': lambda h, e: e.subshell(e.vp('o:x/') | e.vp('c', 'x:3')),
        'subshell missing': lambda h, e: e.subshell(e.no_such_program()),
        'subshell raises': lambda h, e: e.subshell(e.vp('o:x/') | lib.function('raise', 1)),
        'subshell exits': lambda h, e: e.subshell(e.vp('o:x/') | exits),
        'subshell interrupt': lambda h, e: e.subshell(e.vp('o:x/') | interrupts),
        'subshell nested': lambda h, e: e.subshell(e.subshell(e.vp('o:x/'))),
        'subshell redirected': lambda h, e: e.subshell(e.vp('c')) | r(0, 'file') | r(1, 'out'),
        'subshell of an iterator': lambda h, e: e.subshell(['a'] | e.vp('c')),
        'subshell of cd': lambda h, e: e.subshell(e.cd('noperm')),
        'subshell of bad cd': lambda h, e: e.subshell(e.cd('missing')),
        'subshell of nothing': lambda h, e: e.subshell(),
        'subshell of a string': lambda h, e: e.subshell('abc'),
        'missing': lambda h, e: e.no_such_program('a'),
        'missing path': lambda h, e: e._('/no/such/program'),
        'not executable': lambda h, e: e._('./plain'),
        'no program': lambda h, e: e._('./text'),
        'directory': lambda h, e: e._('./noperm'),
        'bad interpreter': lambda h, e: e._('./script'),
        'missing in pipe': lambda h, e: e.vp('o:x/') | e.no_such_program() | e.vp('c'),
        'missing argument': lambda h, e: e.vp(e.no_such_program(), 'o:x/'),
        'missing file': lambda h, e: r(0, 'missing') | e.vp('c'),
        'missing directory of file': lambda h, e: e.vp('o:x/') | r(1, 'missing/out'),
        'bad descriptor': lambda h, e: e.vp('o:x/') | r(1, 15999, borrowed=True),
        'nul argument': lambda h, e: e.vp(environ.R('a\0b')),
        'surrogates': lambda h, e: e.vp(environ.R('a\ud800b')),
        'big argument': lambda h, e: e.vp(environ.R('x' * 3000000)),
        'empty name': lambda h, e: e._(''),
        'no name': lambda h, e: e._(),
        'export number': lambda h, e: exported(h, e, A=1).vp('o:x/'),
        'export nul': lambda h, e: exported(h, e, A='a\0b').vp('o:x/'),
        'export name': lambda h, e: exported(h, e, **{'A=B': 'x'}).vp('o:x/'),
        'no path': lambda h, e: exported(h, e, PATH='').vp('o:x/'),
        'directory gone': lambda h, e: gone(h, e).vp('o:x/'),
        'subshell directory gone': lambda h, e: gone(h, e).subshell(e.vp('o:x/')),
        'python name': lambda h, e: e._(5),
        'background': lambda h, e: ('bg', e.vp('o:x/') | None),
        'bashsource': lambda h, e: e.bashsource('script.sh'),
        'bashsource missing': lambda h, e: e.bashsource('no_such_script'),
    }


async def exits(stdin):
    async for x in stdin:
        sys.exit(0)


async def interrupts(stdin):
    async for x in stdin:
        raise KeyboardInterrupt()


def exported(h, e, **kw):
    return h.env(exports=dict(PATH=e._exports['PATH'], HOME=e._exports['HOME'], **kw) if 'PATH' not in kw else kw)


def gone(h, e):
    d = h.dir + '/gone'
    os.makedirs(d, exist_ok=True)
    e2 = h.env(cwd=d)
    os.rmdir(d)
    return e2


# Callers: code around that must not run in the child
def callers():
    def plain(h, go, mark):
        go()
        mark('returned')

    def handler(h, go, mark):
        try:
            go()
        except BaseException:
            mark('handler')
            raise
        else:
            mark('else')
        finally:
            mark('finally')

    def manager(h, go, mark):
        class M:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                mark('exit of with')
        with M():
            go()

    def generator(h, go, mark):
        def gen():
            try:
                yield go()
            finally:
                mark('finally of a generator')
        for x in gen():
            mark('body')

    def coroutine(h, go, mark):
        async def main():
            mark('first')
            asyncio.get_event_loop().call_soon(mark, 'callback')
            t = asyncio.ensure_future(other())
            try:
                go.start()
                mark('coroutine')
            finally:
                mark('finally in a coroutine')
            await t
            await go.finish()

        async def other():
            try:
                await asyncio.sleep(0)
            finally:
                mark('other task')
        h.run(main())

    def atexit_(h, go, mark):
        import atexit
        f = lambda: mark('atexit')
        atexit.register(f)
        try:
            go()
        finally:
            atexit.unregister(f)

    def signals(h, go, mark):
        def f(*a):
            mark('signal handler')
            raise SystemExit(0)
        old = signal.signal(signal.SIGTERM, f)
        try:
            go()
        finally:
            signal.signal(signal.SIGTERM, old)
    return dict(plain=plain, handler=handler, manager=manager, generator=generator, coroutine=coroutine, atexit=atexit_, signals=signals)


class Faults:
    """Wraps what the children call; injects one fault into one of them."""
    OPS = ['chdir', 'open', 'dup', 'dup2', 'close', 'set_inheritable', 'execve', 'execv', 'fstat', 'stat', 'access']

    def __init__(self, h):
        self.h = h
        self.main = os.getpid()
        self.saved = {n: getattr(os, n) for n in self.OPS + ['fork', '_exit']}
        self.sigs = {n: getattr(signal, n) for n in ('signal', 'pthread_sigmask', 'set_wakeup_fd')}
        self.log = h.tmp + '/childlog'
        self.err = sys.stderr

    def start(self, target, fault):
        """fault: None (record), ('op', index, exception), ('line', (file, line), which, signo), each perhaps with a stderr that fails."""
        self.path, self.n = (), 0
        self.target, self.fault = target, fault
        self.active = False
        self.ops, self.lines, self.seen = [], [], 0
        self.injected = False
        import pieshell
        self.dir = os.path.dirname(pieshell.__file__)
        for n in self.OPS:
            setattr(os, n, self.wrap(n, self.saved[n]))
        for n in self.sigs:
            setattr(signal, n, self.wrap('signal.' + n, self.sigs[n]))
        os.fork = self.fork
        os._exit = self.exit

    def stop(self):
        for n, f in self.saved.items():
            setattr(os, n, f)
        for n, f in self.sigs.items():
            setattr(signal, n, f)
        sys.stderr = self.err

    def record(self):
        """Appends what happened so far in this child to the log."""
        fd = self.saved['open'](self.log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.write(fd, (repr((self.path, self.ops, self.lines, self.injected)) + '\n').encode())
        self.saved['close'](fd)

    def fork(self):
        i = self.n
        self.n += 1
        frame = sys._getframe(1)
        pid = self.saved['fork']()
        if pid == 0:
            self.path, self.n = self.path + (i,), 0
            self.ops, self.lines, self.active = [], [], False
            if self.target == self.path or self.fault is None:
                self.active = True
                if self.fault is None or self.fault[0] == 'line':
                    f = frame
                    while f is not None and f.f_code.co_filename.startswith(self.dir):
                        f.f_trace = self.trace
                        f = f.f_back
                    sys.settrace(self.trace)
                if self.fault is not None and self.fault[-1] == 'mute':
                    sys.stderr = Mute()
        return pid

    def wrap(self, name, fn):
        def op(*a, **kw):
            if not self.active or os.getpid() == self.main:
                return fn(*a, **kw)
            i = len(self.ops)
            if self.fault is not None and self.fault[0] == 'op' and self.fault[1] == i:
                self.injected = True
                self.ops.append((name, 'fault'))
                if name == 'close':     # it is closed nevertheless
                    fn(*a, **kw)
                raise self.fault[2]
            if name.startswith('exec'):
                # may not come back
                self.ops.append((name, 'ok'))
                if self.fault is None or not self.injected:
                    self.record()
                return fn(*a, **kw)
            try:
                r = fn(*a, **kw)
            except BaseException:
                if name != 'close':
                    self.ops.append((name, 'failed'))
                raise
            self.ops.append((name, 'ok'))
            return r
        return op

    def exit(self, code=0):
        if self.active:
            sys.settrace(None)
            self.active = False
            self.record()
        self.saved['_exit'](code)

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.dir):
            return None
        if event == 'line' and self.active:
            key = fn[len(self.dir):], frame.f_lineno
            if self.fault is None:
                self.lines.append(key)
            elif self.fault[1] == key and not self.injected:
                self.seen += 1
                if self.seen == self.fault[2]:
                    self.injected = True
                    os.kill(os.getpid(), self.fault[3])
        return self.trace


class Mute:
    def write(self, s):
        raise OSError(errno.EPIPE, 'Broken pipe')

    def flush(self):
        raise OSError(errno.EPIPE, 'Broken pipe')


class Go:
    """Runs a pipeline."""
    def __init__(self, h, e, make):
        self.h, self.e, self.make = h, e, make
        self.result = None

    def start(self):
        p = self.make(self.h, self.e)
        if isinstance(p, tuple):
            p = p[1]
        self.running = p.run()

    async def finish(self):
        from pieshell.pipeline import running
        try:
            await self.running.wait()
            self.result = 'ok'
        except running.PipelineFailed as x:
            self.result = 'failed'
            self.exc = x

    def __call__(self):
        self.start()
        self.h.run(self.finish())


def once(h, f, name, caller, target, fault):
    """One execution: (how it ended, the children that reported)."""
    for n in os.listdir(h.dir):
        if n in ('out', 'err', 'five'):
            os.unlink(h.dir + '/' + n)
    for n in ('trail', 'childlog'):
        if os.path.exists(h.tmp + '/' + n):
            os.unlink(h.tmp + '/' + n)
    main = os.getpid()

    def mark(what):
        if os.getpid() != main:
            fd = f.saved['open'](h.tmp + '/trail', os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.write(fd, ('%s\n' % what).encode())
            f.saved['_exit'](77)
    e = h.env()
    go = Go(h, e, h.programs[name])
    # what is buffered must not be written by the child
    sys.stdout.write('PART OUT')
    sys.stderr.write('PART ERR')
    signal.signal(signal.SIGINT, signal.default_int_handler)
    from ..explore import end_session
    late = []

    def hangs(*a):
        late.append(1)
        end_session()
    signal.signal(signal.SIGALRM, hangs)
    f.start(target, fault)
    res = None
    signal.setitimer(signal.ITIMER_REAL, 10)
    try:
        callers()[caller](h, go, mark)
        res = go.result
    except BaseException as x:
        res = x
    finally:
        f.stop()
        mark('end of caller')
        signal.setitimer(signal.ITIMER_REAL, 0)
    sys.stdout.flush()
    sys.stderr.flush()
    what = '%s, %s, child %s, %s' % (name, caller, target, fault)
    if late:
        h.problem('%s: does not end' % what)
        return 'late', []
    if isinstance(res, BaseException) and not isinstance(res, (OSError, TypeError, ValueError, AttributeError, IndexError)):
        h.problem('%s: the caller sees %r' % (what, res))
    if os.path.exists(h.tmp + '/trail'):
        h.problem('%s: a child runs code of the caller: %s' % (what, h.read_file('../tmp/trail').decode().split('\n')[:-1]))
    con = h.console()
    for s in (b'PART OUT', b'PART ERR'):
        if con.count(s) != 1:
            h.problem('%s: %s was written %d times' % (what, s.decode(), con.count(s)))
    os.truncate(h.workdir + '/console', 0)
    log = []
    if os.path.exists(h.tmp + '/childlog'):
        with open(h.tmp + '/childlog') as g:
            log = [eval(line) for line in g]
    # its end: a fault lets it fail
    if fault is not None and fault[0] == 'op':
        hit = [x for x in log if x[0] == target]
        fate = hit[0][1] if hit else []
        if hit and hit[0][3] and res == 'ok' and fate[fault[1]][0] not in ('close', 'stat', 'fstat', 'access') and not (fate[fault[1]][0] == 'execve' and name == 'bashsource') and not name.startswith('subshell'):
            h.problem('%s: the pipeline succeeds though the child could not %s' % (what, fate[fault[1]][0]))
    if fault is None and name in FAILING and res == 'ok':
        h.problem('%s: succeeds' % what)
    if fault is None and name not in FAILING and name not in EITHER and res != 'ok':
        h.problem('%s: %r %s' % (what, res, str(getattr(go, 'exc', ''))[:300]))
    return res, log


FULL = ('command', 'missing', 'function', 'subshell', 'subshell fails')
FAILING = {'subshell fails', 'subshell missing', 'subshell raises', 'subshell of bad cd', 'missing', 'missing path', 'not executable', 'no program', 'directory', 'bad interpreter', 'missing in pipe', 'missing argument', 'missing file', 'missing directory of file',
           'nul argument', 'big argument', 'empty name', 'export nul', 'no path', 'directory gone', 'subshell directory gone', 'bad descriptor', 'export number', 'no name', 'surrogates', 'subshell interrupt', 'subshell exits'}
EITHER = {'export name', 'subshell of nothing', 'subshell of a string', 'python name', 'bashsource', 'bashsource missing', 'subshell of cd'}


def faults(h, item):
    name, caller, part, of, full, signals = item
    if not hasattr(h, 'programs'):
        h.programs = programs()
        h.write_file('file', b'one\n')
        h.write_file('plain', b'no program')
        h.write_file('text', b'\1\2no program')
        h.write_file('script', b'#!/no/such/interpreter\n')
        h.write_file('script.sh', b'export FROMSCRIPT=1\n')
        for n in ('text', 'script'):
            os.chmod(h.dir + '/' + n, 0o755)
        os.makedirs(h.dir + '/noperm', exist_ok=True)
        soft, hard = __import__('resource').getrlimit(__import__('resource').RLIMIT_NOFILE)
    f = Faults(h)
    res, log = once(h, f, name, caller, None, None)
    todo = []
    for path, ops, lines, _ in {x[0]: x for x in log}.values():         # the last record of each child
        if part == 0:
            h.count((name, caller, path, 'none'))
        names = [op for op, how in ops]
        for i, op in enumerate(names):
            if not full and i not in (names.index(op), len(names) - 1 - names[::-1].index(op)):
                continue
            todo.append((path, ('op', i, OSError(errno.EIO, 'Input/output error'), 'loud')))
            if full or i == names.index(op):
                todo.append((path, ('op', i, MemoryError(), 'loud')))
                todo.append((path, ('op', i, OSError(errno.EMFILE, 'Too many'), 'mute')))
        if signals:
            for key in dict.fromkeys(lines):
                if not full and not key[0].startswith('/pipeline/'):
                    continue
                for k in sorted({1, lines.count(key)}) if full and caller == 'handler' else (1,):
                    todo.append((path, ('line', key, k, signal.SIGINT, 'loud')))
                    if caller == 'signals':
                        todo.append((path, ('line', key, k, signal.SIGTERM, 'loud')))
    for path, fault in todo[part::of]:
        once(h, f, name, caller, path, fault)
        h.count((name, caller, path, fault[:2] + (repr(fault[2]), repr(fault[3]))))
    h.ops += len(todo[part::of])


def scenarios(tier):
    t = tier == 'thorough'
    items = []
    names = list(programs())
    for i, n in enumerate(names):
        for j, c in enumerate(callers()):
            main = c in ('handler', 'signals')
            if not t and (i + j) % 7 and not (n in FULL and main):
                continue
            if t and not main and (i + j) % 2:
                continue
            k = (16 if n.startswith('subshell') or n in ('pipe', 'argument') else 6) if t and main else 1
            items += [(n, c, p, k, t, main and (t or n in FULL)) for p in range(k)]
    return [Scen('faults', faults, sched=False, items=items, chunk=1, timeout=140)]
