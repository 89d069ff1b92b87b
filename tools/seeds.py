"""The planted bugs: see mkseeds.py"""
SEEDS = {}


def seed(name, prop, edits, demo, needs, breaks, **kw):
    SEEDS[name] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw)


seed('c01-falsy-items', 'C01', [('pipeline/function.py', '            if x is None:\n                return x\n', '            if not x:\n                return None\n')], r'''
check(list(['a', '', 'b', 0, 'c'] | e.cat()) == ['a', '', 'b', '0', 'c'], 'items lost')
''', 'an iterator or function that yields an empty string or 0', 'items that are falsy are not sent to the next stage')

seed('c01-crlf', 'C01', [('iterio.py', "        ret, self.buffer = self.buffer.split(b\"\\n\", 1)\n        return ret.decode(\"utf-8\")", "        ret, self.buffer = self.buffer.split(b\"\\n\", 1)\n        return ret.decode(\"utf-8\").rstrip(\"\\r\")")], r'''
check(list(e.printf(R('a\\r\\nb\\n'))) == ['a\r', 'b'], 'carriage return lost')
''', 'lines that end with a carriage return', 'lines are modified: trailing carriage returns are dropped')

seed('c02-core', 'C02', [('signalio/__init__.py', '(CLD_EXITED, CLD_KILLED, CLD_DUMPED)', '(CLD_EXITED, CLD_KILLED)')], r'''
import resource
os.chdir(T)
resource.setrlimit(resource.RLIMIT_CORE, (1, resource.getrlimit(resource.RLIMIT_CORE)[1]))
# signal events as the kernel reports them for a core dump
real = os.waitpid
def waitpid(pid, flags):
    pid, status = real(pid, flags)
    if pid and os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGABRT:
        status |= 0x80
    return pid, status
os.waitpid = waitpid
try:
    e.sh('-c', R('kill -ABRT $$')).run_interactive()
except pipeline.running.PipelineFailed:
    pass
else:
    check(False, 'no failure')
''', 'a command that ends with a core dump', 'the wait for a pipeline never ends when a command dumps core', timeout=20)

seed('c03-exit-mask', 'C03', [('pipeline/running.py', '        return self.iohandler.last_event["ssi_status"]\n', '        return self.iohandler.last_event["ssi_status"] & 0x7f\n')], r'''
try:
    e.sh('-c', 'exit 128').run_interactive()
except pipeline.running.PipelineFailed:
    pass
else:
    check(False, 'exit status 128 is no failure')
''', 'an exit status of 128 (or one above, whose value is wrong)', 'a command that exits with status 128 counts as successful, statuses above are reported wrong')

seed('c03-killed-status', 'C03', [('signalio/signalutils.py', '''            elif os.WIFSIGNALED(status):
                res["ssi_code"] = CLD_KILLED
                res["ssi_status"] = os.WTERMSIG(status)
''', '''            elif os.WIFSIGNALED(status):
                res["ssi_code"] = CLD_KILLED
                res["ssi_status"] = os.WEXITSTATUS(status)
''')], r'''
try:
    e.sh('-c', R('kill -KILL $$')).run_interactive()
except pipeline.running.PipelineFailed:
    pass
else:
    check(False, 'a killed command is no failure')
''', 'a command that is killed by a signal', 'a command killed by a signal counts as successful')

seed('c04-move-clobber', 'C04', [('redir.py', '''                   + [redirect.source
                      for redirect in self.redirects.values()
                      if isinstance(redirect.source, int)]
                   + [2]) + 1''', '''                   + [2]) + 1''')], r'''
for n in 'ab':
    with open(n, 'w') as f:
        f.write(n + '\n')
# low descriptors of the caller, handed over in an order that collides with where they are moved first
# the first one moved goes to the number of another source
for target in range(30, 51):
    fd = os.dup2(os.open('a', os.O_RDONLY), 40, False)
    fd2 = os.dup2(os.open('b', os.O_RDONLY), 50, False)
    p = e.sh('-c', 'cat; cat /dev/fd/%s' % target) | redir.Redirect(0, fd, borrowed=True) | redir.Redirect(target, fd2, os.O_RDONLY, borrowed=True)
    check(list(p) == ['a', 'b'], 'wrong descriptors')
''', 'redirects of descriptors whose numbers are just above the highest redirected one', 'source descriptors are overwritten while being moved out of the way: the command gets the wrong file')

seed('c05-right-nested', 'C05', [('pipeline/pipe.py', '''        redirects.close_source_fds()

        return src + dst''', '''        return src + dst''')], r'''
def fds():
    return sorted(n for n in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + n))
(e.echo('x') | (e.cat() | e.cat() | redir.Redirect(1, 'out'))).run_interactive()
before = fds()
(e.echo('x') | (e.cat() | e.cat() | redir.Redirect(1, 'out'))).run_interactive()
check(fds() == before, 'descriptors leaked: %s %s' % (before, fds()))
''', 'a pipe whose destination is itself a pipe (right nested)', 'the read end of the outer pipe is leaked in the shell', timeout=30)

seed('c06-arg-pipe-end', 'C06', [('pipeline/command.py', """            {"stdin": os.O_WRONLY, "stdout": os.O_RDONLY}[direction])
""", """            {"stdin": os.O_WRONLY, "stdout": os.O_RDONLY}[direction],
            borrowed = direction == "stdout")
""")], r'''
r = e.head('-n', '1', e.yes()) | redir.Redirect(1, '/dev/null')
async def main():
    try:
        await asyncio.wait_for(r.run().wait(), 15)
    except pipeline.running.PipelineFailed:
        pass
loop.run_until_complete(main())
''', 'a command that reads only some of a big argument pipe', 'the shell keeps the read end of argument pipes open: the writer is never told that nobody reads', timeout=40)

seed('c07-stale', 'C07', [('pipeline/running.py', '''            # Reported by is_failed
        self.running_pipeline.handle_finish()''', '''            # Reported by is_failed
        self.handle_pipeline_finish()
        self.running_pipeline.handle_finish()'''), ('pipeline/running.py', '''            if not isinstance(redirect.pipe, redir.STRING): continue
            # Yes, reread''', '''            if not isinstance(redirect.pipe, redir.STRING): continue
            if fd in self.output_content: continue
            # Yes, reread''')], r'''
p = e.sh('-c', R('cat "$1"; echo later >&2'), '--', e.sh('-c', 'echo first >&2; echo x')).run()
try:
    loop.run_until_complete(p.wait())
except pipeline.running.PipelineFailed:
    pass
check(p.finished, 'finished')
p = e.sh('-c', R('sleep 1; cat "$1"; echo later >&2'), '--', e.sh('-c', 'echo first >&2; echo x')).run()
loop.run_until_complete(p.wait())
for proc in p.processes:
    check(proc.output_content[2] == 'first\nlater\n', 'captured %r' % proc.output_content)
''', 'a member that ends before another one that writes to the same captured file (argument pipes)', 'captured output is read when the member ends instead of when the pipeline does, so that it lacks what was written later', timeout=30)

seed('c08-restart', 'C08', [('pipeline/running.py', '''    def restart(self):
        self.pipeline_suspended = False
        for process in self.processes:
            process.restart()''', '''    def restart(self):
        for process in self.processes:
            process.restart()
        if not self.is_running:
            self.pipeline_suspended = False''')], r'''
i = e(interactive=True)
r = i.sh('-c', 'sleep 1; echo done > out').run()
loop.call_later(0.3, os.kill, os.getpid(), signal.SIGTSTP)
try:
    loop.run_until_complete(r.wait())
except pipeline.running.PipelineSuspended:
    pass
else:
    check(False, 'not suspended')
try:
    loop.run_until_complete(r.wait())
except pipeline.running.PipelineSuspended:
    check(False, 'still suspended')
check(os.path.exists('out'), 'result')
''', 'suspending a pipeline and waiting for it again', 'a suspended pipeline can not be resumed by waiting for it', timeout=30)

seed('c09-shared-arg', 'C09', [('pipeline/command.py', 'return type(self)(self._env, copy.deepcopy(self._arg))', 'return type(self)(self._env, self._arg)')], r'''
inner = e.echo('x')
p = e.cat(inner)
check(list(p) == ['x'], 'first')
check(not inner._started, 'running a pipeline changed its argument')
''', 'an argument pipe, looked at after running the command', 'running a command changes the pipelines that are its arguments')

seed('c10-group-started', 'C10', [('pipeline/group.py', "        base.Pipeline._run(self, redirects, sess, indentation)\n", "")], r'''
i = e(interactive=True)
r = (i.sh('-c', 'echo x >> out') + i.true()).run()
loop.run_until_complete(r.wait())
type(r.pipeline).__repr__(r.pipeline)
check(open('out').read() == 'x\n', 'displaying a group that has been run ran it again')
''', 'displaying a group that has been started, in an interactive environment', 'a running group is run once more when it is displayed')

seed('c11-relative-cwd', 'C11', [('environ.py', '''        res = type(self)(cwd = self._cwd, exports = exports, interactive = interactive, redirects = redirects)
        if cwd is not None:
            res._cd(cwd)
        return res''', '''        return type(self)(cwd = self._cwd if cwd is None else cwd, exports = exports, interactive = interactive, redirects = redirects)''')], r'''
os.makedirs('a/b')
os.makedirs('b')
e2 = e('a')
check(str(e2('b').pwd()).strip() == T + '/a/b', 'wrong directory')
''', 'a copy in a relative directory of an environment whose directory is not that of the process', 'relative directories of copies refer to the directory of the process')

seed('c12-builtin-first', 'C12', [('environ.py', '''            if parent is not None and name in parent:
                return parent[name]
            if hasattr(builtins, name):
                return getattr(builtins, name)
''', '''            if hasattr(builtins, name):
                return getattr(builtins, name)
            if parent is not None and name in parent:
                return parent[name]
''')], r'''
scope = environ.EnvScope(env=e)
exec("""
filter = 'mine'
@env.pyshfunction
def f():
    return filter
""", scope)
check(scope['f']() == 'mine', 'a variable is hidden by the builtin of the same name')
''', 'a pysh function that uses a variable of the enclosing scope named like a Python builtin', 'reading the name gives the builtin instead of the variable')

seed('c13-tilde-first', 'C13', [('environ.py', '''        arg = arg % scope
        arg = os.path.expanduser(arg)
''', '''        arg = os.path.expanduser(arg)
        arg = arg % scope
''')], r'''
e2 = e(exports=dict(os.environ, DIR='~/x'))
check(list(e2.printf(R('%s\\n'), '%(DIR)s')) == [os.environ['HOME'] + '/x'], 'order of expansions')
''', 'a variable whose value starts with a tilde', 'the tilde of a substituted variable is not expanded')

seed('c14-empty-value', 'C14', [('pipeline/command.py', 'if value is False: # Flag', 'if not value: # Flag')], r'''
check(list(e.printf(R('%s\\n'), 'x', name='', other='1')) == ['x', '--name=', '--other=1'], 'a parameter is missing')
''', 'a named parameter whose value is the empty string', 'parameters with empty values are left out')

seed('c14-flag-dash', 'C14', [('pipeline/command.py', '"--%s" % (name.replace("_", "-"),)', '"--%s" % (name,)')], r'''
check(list(e.printf(R('%s\\n'), dry_run=True)) == ['--dry-run'], 'dash')
''', 'a flag (named parameter that is True) with an underscore in its name', 'underscores in the names of flags are not replaced by dashes')

seed('c15-empty-values', 'C15', [('pipeline/builtins.py', """        self._env._exports.update(vars)
""", """        self._env._exports.update((name, value) for name, value in vars.items() if value)
""")], r'''
with open('s.sh', 'w') as f:
    f.write("export A=''\n")
r, w = os.pipe()
os.dup2(r, 0)
e2 = e(exports=dict(os.environ, A='before'))
e2.bashsource('./s.sh').run_interactive()
check(e2._exports['A'] == '', 'value %r' % e2._exports['A'])
''', 'a script that exports a variable with an empty value', 'variables that a script empties keep the value they had before')

seed('c16-module-env', 'C16', [('module.py', 'env = environ.envScope["env"]()', 'env = environ.envScope["env"]')], r'''
os.makedirs('d')
with open('modx.pysh', 'w') as f:
    f.write('exports["FROM_MODULE"] = "1"\n')
sys.path.insert(0, T)
import modx
check('FROM_MODULE' not in environ.envScope['env']._exports, 'the module changed the exports of the importer')
''', 'a pysh module that changes an exported variable', 'modules share the environment of the importer')

seed('c17-pcmd-padding', 'C17', [('shell.py', 'name, value = arg.split("=", 1)', 'name, value = arg.split("=")[:2]')], r'''
import pickle, base64
for k in range(1, 4):
    cmd = base64.b64encode(pickle.dumps(e.echo('x' * k))).decode('ascii')
    out = subprocess.run([sys.executable, '-c', 'from pieshell.shell import main; main()', '--no-startup', '--pcmd=' + cmd], stdout=subprocess.PIPE).stdout
    check(out == b'x' * k + b'\n', '%r' % out)
''', 'a pickled pipeline whose base64 encoding ends with padding', 'remote pipelines fail depending on their length')

seed('c18-same-function', 'C18', [('pipeline/running.py', '''        elif level == 2:
            return repr(self.cmd)
        return str(id(self))
''' + '''
class RunningProcess(RunningItem):''', '''        return repr(self.cmd)

class RunningProcess(RunningItem):''')], r'''
async def f(stdin):
    async for x in stdin:
        yield x
r = (e.sleep('1') | f | f | f | e.cat() | redir.Redirect(1, '/dev/null')).run()
def leaves(x):
    res = []
    for n in dir(x):
        y = getattr(x, n)
        if type(y).__name__ == 'TreeGroup':
            res += leaves(y)
        else:
            res.append(y)
    return res
got = leaves(r._children)
check(len(got) == 5, '%d of 5 members' % len(got))
loop.run_until_complete(r.wait())
''', 'a pipeline that has the same function several times', 'members are not reachable: the same function several times is listed once', timeout=30)

seed('c19-open-error', 'C19', [('redir.py', '''            source = os.open(source, self.flag, self.mode)
''', '''            try:
                source = os.open(source, self.flag, self.mode)
            except OSError as exc:
                raise OSError("Unable to redirect %s to %s" % (self.fd, self.source), exc.strerror) from exc
''')], r'''
main = os.getpid()
os.chdir(T)
e2 = environ.Environment(exports=dict(os.environ), cwd=T)
try:
    try:
        (redir.Redirect(0, 'missing') | e2.cat()).run_interactive()
    except BaseException:
        if os.getpid() != main:
            with open(T + '/second', 'w') as f:
                f.write('x')
finally:
    if os.getpid() != main:
        os._exit(9)
check(not os.path.exists(T + '/second'), 'the child runs the code of the caller')
''', 'a redirect to a file that cannot be opened in the child', 'the child of a command whose file cannot be opened fails in os._exit (its errno is not a number) and continues as a second shell')

seed('c20-asyncio-dict', 'C20', [('signalio/manager_asyncio.py', 'for key, signal_handler in list(self.signal_handlers.items()):', 'for key, signal_handler in self.signal_handlers.items():')], r'''
demo = """
import sys
sys.modules['signalfd'] = None
import asyncio, os, signal
import pieshell
from pieshell import environ, redir
assert pieshell.signalio.manager.__name__.endswith('asyncio')
e = environ.Environment(exports=dict(os.environ))
rs = [e.sleep('10').run() for i in range(10)]
async def main():
    await asyncio.sleep(0.2)
    # they all end before the signal is delivered
    signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGCHLD])
    for r in rs:
        os.kill(r.processes[0].pid, signal.SIGKILL)
    import time
    time.sleep(0.5)
    signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGCHLD])
    for r in rs:
        try:
            await asyncio.wait_for(r.wait(), 5)
        except pieshell.pipeline.running.PipelineFailed:
            pass
asyncio.get_event_loop().run_until_complete(main())
"""
signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGCHLD, signal.SIGTSTP])
r = subprocess.run([sys.executable, '-c', demo])
check(r.returncode == 0, 'ends of children lost')
''', 'several children ending at the same time, with the plain asyncio signal backend', 'the end of a child is lost when another one ended just before: the wait never ends', timeout=60)

seed('c21-cd-relative', 'C21', [('pipeline/builtins.py', 'if os.path.isdir(os.path.join(pth, name))] +', 'if os.path.isdir(self._env._expand_path(name))] +')], r'''
os.makedirs('a/sub')
os.makedirs('b')
with open('a/b', 'w') as f:
    pass
names = dir(e.cd('a'))
check('sub' in names, 'subdirectory missing')
check('b' not in names, 'a file is offered')
''', 'cd completion of a directory other than the current one', 'cd offers files that have the name of a directory elsewhere, and misses subdirectories')

seed('c22-log-value', 'C22', [('shell.py', '            if not kws.get("no-startup", False):\n                environ.envScope.execute_startup()\n', '            if not kws.get("no-startup", False) and not args:\n                environ.envScope.execute_startup()\n')], r'''
with open('f.pysh', 'w') as f:
    f.write('print(STARTED)\n')
os.makedirs(os.environ['HOME'] + '/.config')
with open(os.environ['HOME'] + '/.config/pieshell', 'w') as f:
    f.write('STARTED = "yes"\n')
out = subprocess.run([sys.executable, '-c', 'from pieshell.shell import main; main()', 'f.pysh'], stdout=subprocess.PIPE).stdout
check(out == b'yes\n', 'startup configuration not executed: %r' % out)
''', 'running a file', 'startup configuration is not executed when a file is run')


seed('c20-one-per-signal', 'C20', [('signalio/signalutils.py', """            if pid == 0:
                return

            res = {""", """            if pid == 0 or res is not None and res["ssi_code"] != CLD_CONTINUED and res["ssi_pid"] == pid:
                return

            res = {"""), ('signalio/signalutils.py', """    try:
        while True:
            (pid, status)""", """    res = None
    try:
        while True:
            (pid, status)""")], r'''
r = e.sleep('0.5').run()
pid = r.processes[0].pid
time.sleep(0.2)
# stopped and killed before the shell looks
os.kill(pid, signal.SIGSTOP)
time.sleep(0.2)
os.kill(pid, signal.SIGKILL)
time.sleep(0.2)
r2 = e.sleep('10').run()
pid = r2.processes[0].pid
os.kill(pid, signal.SIGSTOP)
real = os.waitpid
seen = []
def waitpid(*a):
    x = real(*a)
    if x[0] == pid and os.WIFSTOPPED(x[1]) and not seen:
        seen.append(1)
        os.kill(pid, signal.SIGKILL)
        time.sleep(0.3)
        # the kernel merges the signals of both
        signal.sigtimedwait([signal.SIGCHLD], 0) if hasattr(signal, 'sigtimedwait') else None
    return x
os.waitpid = waitpid
async def main():
    for x in (r, r2):
        try:
            await asyncio.wait_for(x.wait(), 5)
        except pipeline.running.PipelineFailed:
            pass
loop.run_until_complete(main())
''', 'two state changes of one child noticed with the same signal', 'the second of two state changes of one child is lost', timeout=40)

seed('c03-first-failure', 'C03', [('pipeline/running.py', "return self.processes[-1].exit_code", "return next((p.exit_code for p in self.processes if p.exit_code), 0)")], r'''
try:
    (e.sh('-c', 'exit 3') | e.sh('-c', 'cat; exit 0')).run_interactive()
except pipeline.running.PipelineFailed as x:
    check(x.pipeline.exit_code == 0, 'exit code %s' % x.pipeline.exit_code)
else:
    check(False, 'no failure')
''', 'a pipeline whose first command fails but whose last one succeeds', 'the exit code of a pipeline is not that of its last member')

seed('c04-copied-mode', 'C04', [('redir.py', "fd, source, flag, mode, pipe, borrowed = fd.fd, fd.source, fd.flag, fd.mode, fd.pipe, fd.borrowed", "fd, source, flag, pipe, borrowed = fd.fd, fd.source, fd.flag, fd.pipe, fd.borrowed")], r'''
os.umask(0)
loop.run_until_complete((e.echo('x') | redir.Redirect(redir.Redirect(1, 'out', mode=0o600))).run().wait())
check(os.stat('out').st_mode & 0o777 == 0o600, 'mode %o' % os.stat('out').st_mode)
''', 'a redirect made from another redirect which has a mode of its own', 'files are made with the default permissions instead of those asked for')

seed('c04-high-descriptors', 'C04', [('redir.py', "for i in range(0, MAXFD):", "for i in range(0, 64):")], r'''
r, w = os.pipe()
import fcntl
hi = fcntl.fcntl(w, fcntl.F_DUPFD, 200)
os.set_inheritable(hi, True)
out = str(e.sh('-c', R('test -e /proc/self/fd/200 && echo leaked; true')))
check('leaked' not in out, 'descriptor 200 is open in the command')
''', 'a shell with an inheritable descriptor of 64 or above', 'commands get descriptors nobody redirected to them')

seed('c07-kept-file', 'C07', [('pipeline/running.py', "            except FileNotFoundError:\n                pass\n    def __getattr__", "            except FileNotFoundError:\n                break\n    def __getattr__")], r'''
S = redir.STRING
def other():
    return redir.Redirect(3, S, os.O_WRONLY)
before = len(os.listdir(T))
inner = e.sh('-c', 'echo 1 >&2; echo x; echo i >&3') | other()
p = e.sh('-c', R('cat "$1" > /dev/null; echo o >&3'), '--', inner) | other()
r = p.run()
loop.run_until_complete(r.wait())
d = os.environ['TMPDIR']
left = [f for f in os.listdir(d) if f.startswith('tmp')]
check(not left, 'temporary files left: %s' % left)
''', 'a command that shares a captured descriptor with its argument pipe, but captures another one on its own', 'the temporary file of the second captured descriptor is never removed')

seed('c08-suspend-one', 'C08', [('pipeline/running.py', "        self.pipeline_suspended = True\n        for process in self.processes:\n            process.suspend()", "        self.pipeline_suspended = True\n        for process in self.running_processes[:1]:\n            process.suspend()")], r'''
i = e(interactive=True)
r = (i.sh('-c', 'sleep 1; echo a') | i.sh('-c', 'sleep 1; cat > out')).run()
loop.call_later(0.3, os.kill, os.getpid(), signal.SIGTSTP)
try:
    loop.run_until_complete(r.wait())
except pipeline.running.PipelineSuspended:
    pass
time.sleep(0.3)
for q in r.processes:
    s = open('/proc/%d/stat' % q.iohandler.pid).read().rsplit(')', 1)[1].split()[0]
    check(s == 'T', 'a member is in state %s' % s)
loop.run_until_complete(r.wait())
check(open('out').read() == 'a\n', 'result')
''', 'suspending a pipeline of several commands', 'only the first command is stopped', timeout=30)

seed('c08-bg-argument', 'C08', [('pipeline/builtins.py', "        if len(self._arg) > 1:\n            pipeline = self._arg[1]\n        pipeline.restart()", "        pipeline.restart()")], r'''
i = e(interactive=True)
a = i.sleep('3').run()
b = i.sleep('3').run()
async def pause(t):
    await asyncio.sleep(t)
a.suspend(); b.suspend()
loop.run_until_complete(pause(0.3))
i.bg(a).run()
loop.run_until_complete(pause(0.3))
def state(r):
    return open('/proc/%d/stat' % r.processes[0].iohandler.pid).read().rsplit(')', 1)[1].split()[0]
s = state(a), state(b)
a.restart(); b.restart()
check(s[0] != 'T' and s[1] == 'T', 'states %s %s' % s)
''', 'bg with a pipeline as its argument while another one was started last', 'bg resumes the wrong pipeline', timeout=30)

seed('c09-function-kw', 'C09', [('pipeline/function.py', "*copy.deepcopy(self._arg), **copy.deepcopy(self._kw))", "*copy.deepcopy(self._arg))")], r'''
from pieshell.pipeline import function
async def f(stdin, end=''):
    async for l in stdin:
        yield l + end
p = e.echo('a') | function.Function(e, f, end='!')
check(list(p) == ['a!'], 'got %s' % list(p))
''', 'a function with keyword arguments that is part of a pipeline', 'a pipeline that is run forgets the keyword arguments of its functions')

seed('c10-leaked-state', 'C10', [('pipeline/base.py', "    try:\n        return standard_repr(obj)\n    except:\n        return \"<Failed to print: \" + standard_repr(type(obj)) + \" @ \" + str(id(obj)) + \">\"\n    finally:\n        repr_state.in_repr -= 1\nbuiltins", "    try:\n        res = standard_repr(obj)\n    except Exception:\n        return \"<Failed to print: \" + standard_repr(type(obj)) + \" @ \" + str(id(obj)) + \">\"\n    repr_state.in_repr -= 1\n    return res\nbuiltins")], r'''
class Bad:
    def __repr__(self):
        raise ValueError()
repr(Bad())
i = e(interactive=True)
sys.displayhook(i.sh('-c', 'echo x > out'))
check(os.path.exists('out'), 'the pipeline was not run')
''', 'an object whose repr() fails, followed by the display of a pipeline', 'interactive pipelines are not run any more once any repr() failed')

seed('c11-not-interactive', 'C11', [('environ.py', "        if interactive is None:\n            interactive = self._interactive\n", "        interactive = interactive or self._interactive\n")], r'''
os.mkdir('d')
i = e(interactive=True)
n = i(interactive=False)
n._cd('d')
check(os.getcwd() == T, 'the process has moved')
''', 'a non-interactive copy of an interactive environment', 'the copy is interactive as well: its directory changes move the shell')

seed('c08-lost-stop', 'C08', [('pipeline/running.py', "        if self.current_pipeline is not None:\n            self.current_pipeline.pipeline_suspended = True\n            if self", "        if self.current_pipeline is not None and self.current_pipeline.finish_future is not None:\n            self.current_pipeline.pipeline_suspended = True\n            if self")], r'''
i = e(interactive=True)
for n in range(8):
    r = (i.sleep('0.2') + i.sleep('1')).run()
    def hop(k):
        if k:
            loop.call_soon(hop, k - 1)
        else:
            os.kill(os.getpid(), signal.SIGTSTP)
    def busy():
        time.sleep(0.5)
        hop(n)
    loop.call_later(0.1, busy)
    try:
        loop.run_until_complete(r.wait())
        k = 'finished'
    except pipeline.running.PipelineSuspended:
        k = 'suspended'
    r.restart()
    loop.run_until_complete(r.wait_finish() if hasattr(r, 'wait_finish') else r.wait())
    check(k == 'suspended', '%s: %s' % (n, k))
''', 'a stop request that is handled right after the end of another command of the pipeline, before the wait for it goes on', 'the stop request is ignored', timeout=30)
