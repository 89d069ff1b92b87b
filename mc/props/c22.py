"""C22: the command line does what it documents for every combination."""
import os, sys, re, itertools, base64, pickle, select, signal, subprocess, time
from ..explore import Scen
from .. import lib

LEVEL = 'exploration'
RULE = 'distinct combinations of action, options, home directory, arguments, kinds of standard input and output the real program was run with'
ASSUMPTIONS = ['an option that takes a value is given one', 'standard input and output are open', 'HOME is set']

RUNNER = 'import sys; sys.path[0:0] = %r; from pieshell.shell import main; main()'
INPUT = 'in one/\nin two\n'.replace('/', '')

# The configuration: name: (what is in the home directory, what it prints, whether it defines STARTED, whether it reports something)
GOOD = 'STARTED = 41 + 1\nprint("conf", sorted(args), sorted(kws))\n'
HOMES = {
    'new': (None, False, False), 'noconf': ('mkdir', False, False), 'good': (GOOD, True, False), 'raises': (GOOD + '1/0\nprint("not reached")\n', True, True), 'syntax': (GOOD + 'print(\n', False, True), 'open': (GOOD + 'def f():\n    pass', True, False),
    'bytes': (b'\xff\xfe\x00', False, True), 'dir': ('DIR', False, True), 'file in the way': ('FILE', False, False), 'no home': ('NOHOME', False, False), 'empty': ('', False, False), 'fails': (GOOD + 'ignored = [x for x in vp("x:3")]\n', True, True),
    'exports': (GOOD + 'exports["FROM_CONF"] = "yes"\n', True, False), 'pipeline': (GOOD + 'vp("o:from/conf/")\nprint(list(vp("o:l1/l2/")))\n', True, False), 'resource': (None, False, False), 'odd name': (None, False, False), 'history dir': ('mkdir', False, False), 'history bytes': ('mkdir', False, False), 'history': ('mkdir', False, False),
    'link': (GOOD, True, False), 'broken link': ('LINK', False, False), 'crlf': (GOOD.replace('\n', '\r\n'), True, False), 'unicode': (GOOD + 'print("\xe9\u20ac")\n', True, False),
}

# Actions: (arguments, input, output lines, whether something is reported, status, needs STARTED...)
FILES = {
    'a.pysh': 'print("file a", args, sorted(kws))\nA = 1\nprint(vp)\n', 'b.pysh': 'print("file b", "A" in globals(), A if "A" in globals() else 0)\nx = list(vp("o:p/q/"))\nprint(x)',
    'exit.pysh': 'print("before")\nraise SystemExit(7)\n', 'raise.pysh': 'print("before")\n1/0\nprint("after")\n', 'syntax.pysh': 'print("never")\nprint(\n', 'block.pysh': 'if True:\n    print("block")', 'comment.pysh': '# nothing', 'empty.pysh': '', 'crlf.pysh': 'print("c")\r\nprint("d")\r\n',
    'utf8.pysh': 'print("\xe9")\n', 'sub dir/c.pysh': 'import os\nprint("c", os.path.basename(os.getcwd()))\n', 'stdin.pysh': 'print([x for x in vp("c")])\n', 'fun.pysh': 'async def up(stdin):\n    async for x in stdin:\n        yield x.upper()\nprint(list(vp("o:a/b/") | up))\nprint(list(vp("c") | up | vp("c")))\n',
    'name': 'print("no extension")\n', 'cd.pysh': 'import os\ncd("sub dir")\ncd("sub dir").run_interactive()\nprint(os.path.basename(os.getcwd()))\nvp("D:%s" % "report")\n', 'started.pysh': 'print("started", "STARTED" in globals() and STARTED)\n', 'help.pysh': 'print("file named help")\n', 'future.pysh': 'from __future__ import annotations\nx: NoSuch = 1\nprint("future")\n',
}


def lines(*l):
    return ''.join(x + '\n' for x in l)


def actions():
    r = {}

    def a(name, argv, out, reports=False, status=0, stdin='', startup=True):
        r[name] = (argv, out, reports, status, stdin, startup)
    a('help', ['--help'], None, startup=False)
    a('help first', ['--help', '--cmd=print("no")', 'a.pysh'], None, startup=False)
    a('version', ['--version'], 'VERSION', startup=False)
    a('version file', ['a.pysh', '--version'], 'VERSION', startup=False)
    a('expr', ['--cmd=1+1'], '2\n')
    a('string', ['--cmd="a" + "b"'], "'ab'\n")
    a('statement', ['--cmd=x = 5'], '')
    a('for', ['--cmd=for x in [1, 2]: print(x)'], '1\n2\n')
    a('block', ['--cmd=if 1:\n    print("block")'], 'block\n')
    a('two', ['--cmd=print(1); print(2)'], '1\n2\n')
    a('command', ['--cmd=vp("o:hi/")'], 'hi\n')
    a('command name', ['--cmd=vp'], '')
    a('pipeline', ['--cmd=vp("o:hi/") | vp("u")'], 'HI\n')
    a('group', ['--cmd=vp("o:one/") + vp("o:two/")'], {'one\ntwo\n', 'two\none\n'})
    a('reads', ['--cmd=vp("c")'], 'INPUT')
    a('reads list', ['--cmd=print(list(vp("c")))'], 'LIST')
    a('function', ['--cmd=print(list(vp("o:a/b/") | (lambda: 0).__class__(fun.__code__, {}))) if 0 else print(str(vp("o:a/")))'], 'a\n\n')
    a('to file', ['--cmd=vp("o:x/") > "out"'], '')
    a('args', ['--cmd=print(args, sorted(kws.items()))', 'A', '--x=1', 'B b', '--y', '--z=a=b', '-q', '--_='], None)
    a('args are no files', ['--cmd=print("only")', 'a.pysh', 'b.pysh'], 'only\n')
    a('env', ['--cmd=env.vp("o:x/")'], 'x\n')
    a('fails', ['--cmd=vp("o:out/", "e:err/", "x:3")'], 'out\n', True)
    a('missing', ['--cmd=no_such_program()'], '', True)
    a('raises', ['--cmd=1/0'], '', True)
    a('syntax', ['--cmd=1 +'], '', True)
    a('open', ['--cmd=print('], '', True)
    a('exit', ['--cmd=raise SystemExit(3)'], '', False, 3)
    a('exit 0', ['--cmd=import sys; sys.exit()'], '')
    a('pcmd', ['--pcmd=PCMD0'], 'hi\n')
    a('pcmd pipe', ['--pcmd=PCMD1'], 'HI\n')
    a('pcmd reads', ['--pcmd=PCMD2'], 'INPUT')
    a('pcmd fails', ['--pcmd=PCMD3'], 'x\n', True, None)
    a('pcmd args', ['--pcmd=PCMD0', 'a.pysh'], 'hi\n')
    f = lambda n, out, **kw: a('file ' + n, [n], out, **kw)
    f('a.pysh', None)
    a('two files', ['a.pysh', 'b.pysh'], None)
    a('files in order', ['b.pysh', 'a.pysh'], None)
    a('file twice', ['b.pysh', 'b.pysh'], "file b False 0\n['p', 'q']\n" * 2)
    f('exit.pysh', 'before\n', status=7)
    f('raise.pysh', 'before\n', reports=True)
    f('syntax.pysh', '', reports=True)
    f('block.pysh', 'block\n')
    f('comment.pysh', '')
    f('empty.pysh', '')
    f('crlf.pysh', 'c\nd\n')
    f('utf8.pysh', '\xe9\n')
    f('sub dir/c.pysh', 'c d\n')
    f('./name', 'no extension\n')
    f('cd.pysh', 'sub dir\n')
    f('help.pysh', 'file named help\n')
    f('future.pysh', 'future\n')
    f('stdin.pysh', 'LIST')
    f('fun.pysh', 'FUN')
    f('started.pysh', None)
    f('missing.pysh', '', reports=True, status=1)
    f('sub dir', '', reports=True, status=1)
    a('file then missing', ['comment.pysh', 'missing.pysh'], '', True, 1)
    a('file then args', ['block.pysh', '--key=value', '--flag'], 'block\n')
    a('raise then file', ['raise.pysh', 'block.pysh'], 'before\nblock\n', True)
    # interactive: every line of the input is executed
    i = lambda n, stdin, *want, **kw: a('prompt ' + n, kw.pop('argv', []), ('PROMPT', want), stdin=stdin, **kw)
    i('nothing', '')
    i('statements', 'x = 5\nprint("M%d" % x)\n', 'M5')
    i('block', 'for x in [1, 2]:\n    print("M%d" % x)\n\nprint("M3")\n', 'M1', 'M2', 'M3')
    i('commands', 'vp("o:hi/")\nvp("o:lo/") | vp("u")\n', 'hi', 'LO')
    i('fails', 'vp("x:3")\n1/0\nprint("M" + "after")\n', 'Mafter')
    i('args', 'print(args, sorted(kws))\n', None, argv=['--key=value', '--flag'])
    i('exit', 'print("M1")\nraise SystemExit(4)\nprint("M2")\n', 'M1', status=4)
    i('no end', 'print("M1")', 'M1')
    i('builtins', 'cd("sub dir")\nvp("o:x/")\nimport os\nprint("M" + os.path.basename(os.getcwd()))\n', 'Msub dir')
    return r


ACTIONS = actions()
QUICK_HOMES = list(HOMES)
LOGS = {None: [], 'cmd': ['--log=cmd'], 'io,fd': ['--log=io,fd'], 'signal,signalreg': ['--log=signal,signalreg'], 'nosuch': ['--log=nosuch'], 'all': ['--log=cmd,io,ioevent,ioreg,fd,signal,signalreg,error,test'], '': ['--log=']}


def fresh(h):
    import shutil
    for n in os.listdir(h.dir):
        p = h.dir + '/' + n
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for n, text in FILES.items():
        os.makedirs(os.path.dirname(h.dir + '/' + n), exist_ok=True)
        with open(h.dir + '/' + n, 'w', newline='') as f:
            f.write(text)


def make_home(h, kind):
    """Prepares a home directory; returns its path, whether a configuration must be created there."""
    import shutil
    home = h.execdir + '/homes'
    if os.path.exists(home):
        shutil.rmtree(home)
    what = HOMES[kind][0]
    home += '/my home %%' if kind == 'odd name' else '/h'
    if what == 'NOHOME':
        return '/dev/null/home'
    os.makedirs(home)
    if what == 'FILE':
        open(home + '/.config', 'w').close()
        return home
    if what is None:
        return home
    os.makedirs(home + '/.config')
    conf = home + '/.config/pieshell'
    if what == 'DIR':
        os.makedirs(conf)
    elif what == 'LINK':
        os.symlink(home + '/nowhere/at/all', conf)
    elif kind == 'link':
        with open(home + '/real', 'w') as f:
            f.write(what)
        os.symlink('../real', conf)
    elif what != 'mkdir':
        with open(conf, 'wb') as f:
            f.write(what if isinstance(what, bytes) else what.encode())
    hist = home + '/.config/pieshell.history'
    if kind == 'history dir':
        os.makedirs(hist)
    if kind == 'history bytes':
        with open(hist, 'wb') as f:
            f.write(b'\xff\xfe\n')
    if kind == 'history':
        with open(hist, 'w') as f:
            f.write('old line\n')
    return home


def started(h, argv, data, stdin, stdout, env):
    """Runs the program: (status or None, output, errors)."""
    import pty, termios
    close, master, omaster = [], None, None
    if stdin == 'null':
        i = os.open('/dev/null', os.O_RDONLY)
    elif stdin == 'file':
        with open(h.tmp + '/stdin', 'w') as f:
            f.write(data)
        i = os.open(h.tmp + '/stdin', os.O_RDONLY)
    elif stdin == 'pipe':
        i, w = os.pipe()
        os.write(w, data.encode())
        os.close(w)
    else:
        master, i = os.openpty()
        a = termios.tcgetattr(i)
        a[3] &= ~termios.ECHO
        a[1] &= ~termios.OPOST
        termios.tcsetattr(i, termios.TCSANOW, a)
    r = None
    if stdout == 'null':
        o = os.open('/dev/null', os.O_WRONLY)
    elif stdout == 'file':
        o = os.open(h.tmp + '/stdout', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    elif stdout == 'append':
        o = os.open(h.tmp + '/stdout', os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    elif stdout == 'pipe':
        r, o = os.pipe()
    else:
        omaster, o = os.openpty()
        a = termios.tcgetattr(o)
        a[3] &= ~termios.ECHO
        a[1] &= ~termios.OPOST
        termios.tcsetattr(o, termios.TCSANOW, a)
        r = omaster
    e = os.open(h.tmp + '/stderr', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    pid = os.fork()
    if pid == 0:
        try:
            signal.pthread_sigmask(signal.SIG_SETMASK, [])
            for s in (signal.SIGINT, signal.SIGCHLD, signal.SIGTSTP, signal.SIGPIPE):
                signal.signal(s, signal.SIG_DFL)
            os.setsid()
            os.dup2(i, 0); os.dup2(o, 1); os.dup2(e, 2)
            os.closerange(3, 256)
            os.chdir(h.dir)
            os.execve('/opt/venv/bin/python', ['python', '-S', '-c', RUNNER % ([p for p in sys.path if p],)] + argv, env)
        finally:
            os._exit(99)
    for fd in (i, o, e):
        if fd not in (master, omaster):
            os.close(fd)
    out, todo, end, status = b'', data.encode(), time.time() + 25, None
    sent = False
    while time.time() < end:
        if master is not None and not sent:
            os.write(master, todo + b'\x04' if not todo or todo.endswith(b'\n') else todo + b'\x04\x04')
            sent = True
        if r is not None and select.select([r], [], [], 0.01)[0]:
            try:
                d = os.read(r, 65536)
            except OSError:
                d = b''
            out += d
            if not d:
                r2, r = r, None
        if r is None:
            time.sleep(0.005)
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
            break
    else:
        os.killpg(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    fdr = omaster if omaster is not None else r
    while r is not None and select.select([r], [], [], 0.05)[0]:
        try:
            d = os.read(r, 65536)
        except OSError:
            break
        if not d:
            break
        out += d
    for fd in {master, omaster, r} - {None}:
        os.close(fd)
    if stdout in ('file', 'append'):
        with open(h.tmp + '/stdout', 'rb') as f:
            out = f.read()
    with open(h.tmp + '/stderr', 'rb') as f:
        err = f.read()
    return status, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')


def setup(h):
    if hasattr(h, 'pcmds'):
        return
    from pieshell import environ
    e = h.env(interactive=True)
    ps = [e.vp('o:hi/'), e.vp('o:hi/') | e.vp('u'), e.vp('c'), e.vp('o:x/', 'x:3')]
    h.pcmds = [base64.b64encode(pickle.dumps(p)).decode() for p in ps]
    import pieshell, re
    with open(os.path.join(os.path.dirname(pieshell.__file__), 'version.py')) as f:
        h.version = str(eval(f.read().split('=', 1)[1]))


LOGLINE = re.compile(r'^\d+:[A-Z]+:([^:]*):')


def unlog(text):
    """The output without what was logged, which can have several lines; and the categories of what was logged."""
    out, cats, inlog = [], set(), False
    for l in text.split('\n'):
        m = LOGLINE.match(l)
        if m:
            cats.add(m.group(1))
        out.append((bool(m), l))
    return out, cats


def run(h, item):
    action, home, startup, log, stdin, stdout, position = item
    setup(h)
    fresh(h)
    argv, want, reports, status, data, starts = ACTIONS[action]
    hpath = make_home(h, home)
    opts = ([] if startup else ['--no-startup']) + LOGS[log]
    argv = [re.sub(r'PCMD(\d)', lambda m: h.pcmds[int(m.group(1))], a) for a in argv]
    full = opts + argv if position == 'first' else argv + opts
    prompt = isinstance(want, tuple)
    data = data if prompt else INPUT
    if stdin == 'null':
        data = ''
    env = dict(HOME=hpath, PATH=h.workdir + '/free:/usr/bin:/bin', TERM='vt100' if home == 'history' and 'tty' not in (stdin, stdout) else 'dumb', LC_ALL='C.UTF-8', TMPDIR=h.tmp, PYTHONDONTWRITEBYTECODE='1')
    what = '%s, %s home%s, input %s, output %s: pieshell %s' % (action, home, '' if startup else ' not used', stdin, stdout, full)
    st, out, err = started(h, full, data, stdin, stdout, env)
    if st is None:
        h.problem('%s does not end; output %r, errors %r' % (what, out[-300:], err[-600:]))
        return
    text, prints, confreports = HOMES[home]
    runs = starts and startup and 'HOME' not in str(text)
    names = sorted(['cmd' for a in full if a.startswith('--cmd')] + [a[2:].split('=')[0] for a in full if a.startswith('--') and not a.startswith('--cmd')])
    names = sorted(dict.fromkeys(names))
    words = [a for a in full if not a.startswith('--')]
    conf = ''
    if runs and prints:
        conf = 'conf %s %s\n' % (sorted(words), names)
        conf += {'pipeline': "from\nconf\n", 'unicode': '\xe9\u20ac\n'}.get(home, '')
        if home == 'pipeline':
            conf = 'conf %s %s\n' % (sorted(words), names) + "['l1', 'l2']\n"
    on = stdout != 'null'
    sep, cats = unlog(out)
    plain = '\n'.join(l for m, l in sep if not m)
    # what it logs
    named = set(','.join(LOGS[log]).replace('--log=', '').split(',')) if log else set()
    extra = cats - named - {'error', 'misc', 'test'} if on else set()
    if extra:
        h.problem('%s logs %s' % (what, extra))
    if on and log in ('cmd', 'all') and action in ('command', 'pipeline', 'pcmd', 'reads') and 'cmd' not in cats:
        h.problem('%s does not log commands: %r' % (what, out[-500:]))
    if on and log == 'signal,signalreg' and action in ('command', 'pipeline', 'pcmd') and 'signalreg' not in cats:
        h.problem('%s does not log signals: %r' % (what, out[-500:]))
    if on and log == 'io,fd' and action in ('command', 'pipeline') and 'fd' not in cats:
        h.problem('%s does not log descriptors: %r' % (what, out[-500:]))
    loud = bool(cats)
    # what it prints
    if action in ('help', 'help first'):
        if on and ('Usage:' not in out or '--pcmd' not in out or 'Traceback' in err):
            h.problem('%s prints %r %r' % (what, out, err))
        if hasattr(h, 'help') and on and out != h.help:
            h.problem('%s prints %r instead of %r' % (what, out, h.help))
        if on:
            h.help = out
    else:
        if want is None:
            want = {'args': '%r %r\n' % (words, sorted(dict([(a[2:].split('=', 1) + [True])[:2] for a in full if a.startswith('--')]).items(), key=lambda x: x[0])), 'file a.pysh': 'file a %r %r\n' % (words, names) + '\n',
                    'two files': "file a %r %r\n\nfile b True 1\n['p', 'q']\n" % (words, names), 'files in order': "file b False 0\n['p', 'q']\nfile a %r %r\n\n" % (words, names), 'file started.pysh': 'started %s\n' % ('42' if conf else 'False')}[action]
        if want == 'VERSION':
            want = h.version + '\n'
        if want == 'INPUT':
            want = data
        if want == 'LIST':
            want = '%r\n' % (data.split('\n')[:-1],)
        if want == 'FUN':
            want = "['A', 'B']\n%r\n" % (data.upper().split('\n')[:-1],)
        if prompt:
            if on:
                pos = 0
                for w in want[1] if stdin != 'null' else ():
                    if w is None:
                        w = '%r %r' % (words, names)
                    p = out.find(w, pos)
                    if p < 0:
                        h.problem('%s: %r is not in %r; errors %r' % (what, w, out, err[-500:]))
                        break
                    pos = p + len(w)
                if conf and conf not in out and not loud:
                    h.problem('%s: configuration did not print %r but %r' % (what, conf, out))
                if 'M2' in out and action == 'prompt exit':
                    h.problem('%s goes on after exit: %r' % (what, out))
            if stdin == 'null':
                status = 0
        elif on and not loud:
            # a command that is displayed makes an empty line
            for w in (want if isinstance(want, set) else [want]):
                if order(plain, stdout) == order(conf + w, stdout):
                    break
            else:
                h.problem('%s prints %r, should %r; errors %r' % (what, plain, conf + w, err[-500:]))
        elif on:
            for w in (want if isinstance(want, set) else [want]):
                if all(l in plain for l in (conf + w).split('\n')):
                    break
            else:
                h.problem('%s prints %r, should %r; errors %r' % (what, plain, conf + w, err[-500:]))
    if action == 'to file':
        try:
            with open(h.dir + '/out') as f:
                got = f.read()
        except OSError as e:
            got = e
        if got != 'x\n':
            h.problem('%s writes %r to the file' % (what, got))
    # what it reports
    ok = not reports and not (runs and confreports) and not prompt and home not in ('history dir',)
    if action in ('fails', 'pcmd fails'):
        reports = True
    if reports and not err:
        h.problem('%s reports nothing' % what)
    if runs and confreports and not err:
        h.problem('%s does not report its configuration' % what)
    if ok and err:
        h.problem('%s reports %r' % (what, err[-800:]))
    if status is not None and st != status:
        h.problem('%s ends with status %s instead of %s; errors %r' % (what, st, status, err[-500:]))
    if status is None and st == 0:
        h.problem('%s succeeds' % what)
    # its configuration
    conf = hpath + '/.config/pieshell'
    if starts and startup and home in ('new', 'noconf', 'odd name', 'resource', 'history', 'history bytes', 'history dir'):
        if not os.path.isfile(conf) or open(conf, 'rb').read() != h.default():
            h.problem('%s did not create the configuration' % what)
    elif (not starts or not startup) and home in ('new', 'noconf', 'odd name', 'resource', 'history', 'history bytes', 'history dir'):
        if os.path.exists(conf):
            h.problem('%s creates a configuration' % what)
    if isinstance(text, str) and text.startswith('STARTED') and open(conf, newline='').read() != text:
        h.problem('%s changes the configuration' % what)
    if not prompt and home == 'history' and open(hpath + '/.config/pieshell.history').read() != 'old line\n':
        h.problem('%s changes the history' % what)
    if prompt and home == 'history' and not open(hpath + '/.config/pieshell.history').read().startswith('old line\n'):
        h.problem('%s forgets the history' % what)
    h.count(item)


def squeeze(s):
    """Without empty lines: displaying a pipeline makes one."""
    return '\n'.join(l for l in s.split('\n') if l)


def order(s, stdout):
    """What is printed by Python is buffered unless it goes to a terminal, what commands write is not; so their order is only defined there."""
    l = squeeze(s).split('\n')
    return l if stdout == 'tty' else sorted(l)


def runs(h, item):
    if not hasattr(h, 'default'):
        import pieshell
        p = os.path.join(os.path.dirname(pieshell.__file__), 'resources', 'default_config.pysh')

        def default():
            with open(p, 'rb') as f:
                return f.read()
        h.default = default
    run(h, item)


STDIN, STDOUT = ['pipe', 'null', 'file', 'tty'], ['pipe', 'file', 'null', 'tty', 'append']


def scenarios(tier):
    t = tier == 'thorough'
    items = []
    acts = list(ACTIONS)
    core = ['command', 'file a.pysh', 'prompt statements', 'pcmd', 'help', 'version']
    # every action with everything ordinary, with and without startup
    for a in acts:
        items += [(a, 'good', s, None, 'pipe', 'pipe', 'first') for s in (True, False)]
    # every home
    for hm in HOMES:
        for a in core + ['file started.pysh', 'two files', 'prompt commands']:
            items += [(a, hm, s, None, 'pipe', 'pipe', 'first') for s in ((True, False) if a in core[:4] or t else (True,))]
    # every kind of input and output
    for i, o in itertools.product(STDIN, STDOUT):
        for a in acts if t else ['command', 'reads', 'reads list', 'pcmd reads', 'file stdin.pysh', 'file fun.pysh', 'prompt commands', 'prompt statements', 'group', 'fails', 'help', 'to file', 'file a.pysh']:
            if o == 'append' and not t and i != 'file':
                continue
            items.append((a, 'good', False, None, i, o, 'first'))
        for hm in ('new', 'pipeline', 'good') + (tuple(HOMES) if t else ()):
            items += [(a, hm, True, None, i, o, 'first') for a in ('command', 'prompt commands')]
    # a prompt keeps the history
    for a in [a for a in acts if a.startswith('prompt')] if t else ['prompt statements', 'prompt commands', 'prompt nothing', 'prompt exit']:
        items += [(a, 'history', False, None, 'tty', o, 'first') for o in ('tty', 'file')]
    # every log
    for l in LOGS:
        for a in acts if t else core + ['pipeline', 'reads', 'fails', 'args', 'two files', 'function']:
            for o in ('pipe', 'file') if t or a == 'command' else ('pipe',):
                items.append((a, 'good', a == 'args' or t, l, 'pipe', o, 'first'))
    # options after the action
    for a in acts:
        items += [(a, 'good', s, l, 'pipe', 'pipe', 'last') for s, l in ((False, 'cmd'), (True, 'nosuch')) if t or s == (len(a) % 2 == 0)]
    items = [x for x in dict.fromkeys(items)]
    if t:
        more = [x for x in itertools.product(['command', 'reads', 'prompt commands', 'file started.pysh', 'args', 'pcmd'], HOMES, (True, False), (None, 'cmd'), ('pipe', 'file', 'tty'), ('pipe', 'file', 'tty'), ('first', 'last'))]
        items += [x for x in more if x not in set(items)][::2]
    return [Scen('command line', runs, sched=False, items=items, chunk=3, timeout=110)]
