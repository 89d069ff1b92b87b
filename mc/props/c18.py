"""C18: process navigation reaches every process exactly once."""
import os, sys, keyword, itertools, signal
from ..explore import Scen
from .. import lib

LEVEL = 'exploration'
RULE = 'distinct multisets of processes, logins or pipeline members whose whole attribute tree was walked'
ASSUMPTIONS = ['process details come from stand-ins for psutil.Process in the scenarios processes, logins and deep, from real processes in real and members',
               'names other than those of attributes the objects have themselves']

DENIED, GONE, ZOMBIE = 'DENIED', 'GONE', 'ZOMBIE'
EXES = ['/bin/a', '/usr/bin/a', '/bin/b', '/x/A', '/x/1', '/x/a-b', '/x/a_b', '/x/--', '', '/x/as', '/x/n1', '/x/\xe9', '/x/children', DENIED, GONE, ZOMBIE]
CMDS = [['a'], ['a', 'b'], ['a b'], [], [''], ['1', '2'], ['/bin/a'], DENIED, ZOMBIE, ['lambda']]


class Fake:
    """What psutil knows of a process."""
    def __init__(self, pid, exe, cmdline, children=()):
        self.pid = pid
        self._exe = exe
        self._cmdline = cmdline
        self._children = list(children)

    def _get(self, v):
        import psutil
        if v == DENIED:
            raise psutil.AccessDenied(self.pid)
        if v == GONE:
            raise psutil.NoSuchProcess(self.pid)
        if v == ZOMBIE:
            raise psutil.ZombieProcess(self.pid)
        return v

    def exe(self):
        return self._get(self._exe)

    def name(self):
        return os.path.basename(self.exe())

    def cmdline(self):
        return list(self._get(self._cmdline))

    def children(self, recursive=False):
        return list(self._children)

    def threads(self):
        return []

    def parent(self):
        return None

    def username(self):
        return 'user'


def slug(s):
    """The identifier a plain name is listed under: None if that is up to the tree."""
    s = s.lower()
    return s if s.isidentifier() and not keyword.iskeyword(s) and s.isascii() and s.strip('_') == s and '__' not in s else None


def walk(h, node, leaf, what, own=(), depth=0, path=''):
    """Everything reached: [(path, leaf)]."""
    if depth > 6:
        h.problem('%s: the tree does not end at %s' % (what, path))
        return []
    try:
        names = [n for n in dir(node) if n not in own]
    except Exception as e:
        h.problem('%s: listing %r gives %r' % (what, path, e))
        return []
    out = []
    if len(set(names)) != len(names):
        h.problem('%s: %r lists %r' % (what, path, names))
    for n in names:
        if not n.isidentifier() or keyword.iskeyword(n):
            h.problem('%s: %r is listed at %r, and no identifier' % (what, n, path))
        try:
            x = getattr(node, n)
        except Exception as e:
            h.problem('%s: %s.%s is listed, but gives %r' % (what, path, n, e))
            continue
        key = leaf(x)
        if key is not None:
            out.append((path + '.' + n, key))
        else:
            out += walk(h, x, leaf, what, (), depth + 1, path + '.' + n)
    return out


def reached(h, got, want, what):
    keys = sorted(k for _, k in got)
    if keys != sorted(want):
        h.problem('%s: reaches %r, should be %r (through %r)' % (what, keys, sorted(want), [p for p, _ in got]))


def tree_leaf(x):
    from pieshell import ps
    return x.INFO.pid if isinstance(x, ps.PstreeProcess) else x.process.INFO.pid if isinstance(x, ps.PstreeLogin) else None


def names_of(f):
    """The names a process could be listed under."""
    out = set()
    if f._exe not in (DENIED, GONE, ZOMBIE):
        out.add(os.path.basename(f._exe).lower())
    if isinstance(f._cmdline, list) and f._cmdline:
        out |= {f._cmdline[0].lower(), os.path.basename(f._cmdline[0]).lower(), ' '.join(f._cmdline).lower()}
    return {x for y in out for x in (y, y.replace('-', '_'), y.replace(' ', '_'), y.replace('-', '_').replace(' ', '_'))} | {'n' + x for x in out if x[:1].isdigit()}


def alone(h, fakes, root, what, prefix=''):
    for f in fakes:
        if f._exe in (DENIED, GONE, ZOMBIE):
            continue
        s = slug(os.path.basename(f._exe))
        if s is None or any(s in names_of(g) for g in fakes if g is not f):
            continue
        try:
            x = getattr(root, s)
        except Exception as e:
            x = e
        if isinstance(x, Exception) or tree_leaf(x) != f.pid:
            h.problem('%s: %s is %r' % (what, s, x))


def make(types):
    return [Fake(1000 + i * 7, *KINDS[t]) for i, t in enumerate(types)]


KINDS = list(itertools.product(EXES, CMDS))


def processes(h, item):
    """All multisets of processes below another one."""
    from pieshell import ps
    first, n, kinds = item
    if kinds == 'all':
        kinds = range(len(KINDS))
    for rest in itertools.combinations_with_replacement([k for k in kinds if k >= first], n - 1):
        types = (first,) + rest
        fakes = make(types)
        what = repr([KINDS[t] for t in types])
        p = ps.PstreeProcess(Fake(1, '/sbin/init', ['init'], fakes))
        got = walk(h, p, tree_leaf, what)
        reached(h, got, [f.pid for f in fakes], what)
        alone(h, fakes, p, what)
        h.count(types)


def deep(h, item):
    """Trees of processes: navigation through several generations, and names of psutil."""
    from pieshell import ps
    a, b = item
    grand = make((b, a))
    for i, f in enumerate(grand):
        f.pid = 5000 + i
    top = make((a, b))
    top[0]._children = grand
    p = ps.PstreeProcess(Fake(1, '/sbin/init', ['init'], top))
    what = repr([KINDS[t] for t in item])
    found = []

    def leaf(x):
        if not isinstance(x, ps.PstreeProcess):
            return None
        found.append(x)
        return x.INFO.pid
    reached(h, walk(h, p, leaf, what), [f.pid for f in top], what)
    for x in list(found):
        below = walk(h, x, leaf, what + ' below %s' % x.INFO.pid)
        reached(h, below, [f.pid for f in x.INFO._children], what + ' below %s' % x.INFO.pid)
        if x.pid != x.INFO.pid or x.username() != 'user' or not any(f._exe == '/x/children' or 'children' in f._cmdline for f in x.INFO._children) and [c.pid for c in x.children()] != [c.pid for c in x.INFO._children]:
            h.problem('%s: members of the details are not available' % what)
        x.PARENT
    h.count(item)


LOGINS = [(n, host) for n in ('joe', 'ann', 'j-d', '0', 'class', 'JOE') for host in ('localhost', '', '10.0.0.1', 'some.host', 'SOME-HOST', ':0', None)]
LPROC = [('/bin/sh', ['sh']), ('/bin/bash', ['-bash']), (DENIED, DENIED), (GONE, GONE)]


def logins(h, item):
    """All multisets of logins."""
    import collections
    from pieshell import ps
    first, n, kinds = item
    pool = [(l, p) for l in range(len(LOGINS)) for p in range(len(LPROC))]
    User = collections.namedtuple('suser', 'name terminal host started pid')
    saved = ps.psutil.users, ps.psutil.Process
    try:
        for rest in itertools.combinations_with_replacement([k for k in range(len(pool))[::kinds] if k >= first], n - 1):
            types = [pool[k] for k in (first,) + rest]
            table = {}
            users = []
            for i, (l, p) in enumerate(types):
                table[100 + i] = Fake(100 + i, *LPROC[p], children=[Fake(900 + i, '/bin/child', ['child'])])
                users.append(User(LOGINS[l][0], 'pts/%d' % i, LOGINS[l][1], 0.0, 100 + i))

            def process(pid):
                if table[pid]._exe == GONE:
                    raise saved_exc(pid)
                return table[pid]
            saved_exc = ps.psutil.NoSuchProcess
            ps.psutil.users = lambda: users
            ps.psutil.Process = process
            what = repr([(LOGINS[l], LPROC[p]) for l, p in types])
            got = walk(h, ps.USERS, lambda x: x.details.pid if isinstance(x, ps.PstreeLogin) else None, what)
            # the logins of which the process is gone may be left out
            keys = [k for _, k in got]
            want = [u.pid for u in users if table[u.pid]._exe != GONE]
            reached(h, [x for x in got if x[1] in want or keys.count(x[1]) > 1], want, what)
            for u, (l, p) in zip(users, types):
                s = slug(u.name)
                if s and [v.name.lower() for v in users].count(s) == 1 and u.pid in want:
                    x = getattr(ps.USERS, s, None)
                    if not isinstance(x, ps.PstreeLogin) or x.details.pid != u.pid:
                        h.problem('%s: USERS.%s is %r' % (what, s, x))
                    elif dir(x) != ['child'] or x.child.INFO.pid != u.pid + 800 or x.terminal != u.terminal:
                        h.problem('%s: USERS.%s lists %r' % (what, s, dir(x)))
            h.count(tuple(types))
    finally:
        ps.psutil.users, ps.psutil.Process = saved


MEMBERS = ['vp', 'vp2', 'vp.attr', 'VP', 'as', '1x', 'a-b', '...', 'lambda', 'R', 'missing', 'f:up', 'f:lambda', 'f:vp', 'f:method', 'list', 'list2', 'gen', 'group']


def member(h, e, m, i):
    """A part of a pipeline and the number of its members."""
    from pieshell import environ
    a = ('o:m%d/' % (0 if m != 'vp2' else i), 'c')
    if m in ('vp', 'vp2'):
        return e.vp(*a), ['vp']
    if m == 'vp.attr':
        return e.vp.o('c'), ['vp']
    if m == 'R':
        return e._(environ.R('vp'), *a), ['']
    if m == 'missing':
        return e.no_such('c'), ['']
    if m.startswith('f:') or m in ('list', 'list2', 'gen'):
        async def up(stdin):
            async for x in stdin:
                yield x
        f = {'f:up': up, 'f:lambda': lambda stdin: up(stdin), 'f:vp': None, 'f:method': Callable().method, 'list': ['x'], 'list2': [str(i)], 'gen': iter(['g'])}[m]
        if m == 'f:vp':
            async def vp(stdin):
                async for x in stdin:
                    yield x
            f = vp
        return f, {'f:up': ['up'], 'f:vp': ['vp'], 'f:method': ['method']}.get(m, [''])
    if m == 'group':
        return e.vp('o:g/') + e.vp('c'), ['vp', 'vp']
    return e._(m, *a), [m if slug(m) == m else '']


class Callable:
    async def method(self, stdin):
        async for x in stdin:
            yield x


def members(h, item):
    """Members of real pipelines, while they run and after they ended."""
    import asyncio
    from pieshell import function, running
    from pieshell.pipeline import running
    e = h.env(exports={'PATH': h.dir + ':' + os.environ['PATH']})
    if not os.path.exists(h.dir + '/as'):
        for n in ('VP', 'as', '1x', 'a-b', '...', 'lambda'):
            os.symlink(h.workdir + '/free/vp', h.dir + '/' + n)
    own = set(object.__dir__(running.RunningPipeline([], e.vp())))
    parts = [member(h, e, m, i) for i, m in enumerate(item)]
    what = ' | '.join(item)
    r, w = os.pipe()
    os.set_inheritable(r, False)
    from pieshell import Redirect
    p, names = parts[0][0], list(parts[0][1])
    if not hasattr(p, '_env'):
        if callable(p):
            p, names = e.vp('o:start', 'c') | p, ['vp'] + names
        elif len(parts) == 1 or not hasattr(parts[1][0], '_env'):
            p, names = p | e.vp('c'), names + ['vp']
    for q, n in parts[1:]:
        p = p | q
        names += n
    p = Redirect(0, r, borrowed=True) | p | Redirect(1, '/dev/null')
    run = p.run()

    def look(when):
        got = walk(h, run, lambda x: id(x) if isinstance(x, running.BaseRunningItem) else None, what + when, own)
        reached(h, got, [id(x) for x in run.processes], what + when)
        if len(run.processes) != len(names):
            h.problem('%s has %d members, should have %d' % (what, len(run.processes), len(names)))
        known = [n for n in names if n]
        for n in set(known):
            if known.count(n) == 1 and (known == names or n in ('up', 'method')):
                x = getattr(run, n, None)
                if id(x) not in [id(m) for m in run.processes]:
                    h.problem('%s%s: %s is %r' % (what, when, n, x))
        return sorted(p for p, _ in got)
    a = look(' running')
    os.close(w)
    os.close(r)
    h.attempt(lambda: h.run(run.wait()))
    b = look(' ended')
    h.count(item)


REAL = ['vp', 'vp', 'a-b', '1x', 'as', '...', 'VP', 'zombie', 'other user', 'nested']


def alive(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            return f.read().rsplit(')', 1)[1].split()[0] != 'Z'
    except OSError:
        return False


def comm(pid):
    with open('/proc/%d/comm' % pid) as f:
        return f.read().strip()


def real(h, item):
    """Children of a real member and of this process."""
    from pieshell import ps
    from pieshell import environ
    e = h.env(exports={'PATH': h.dir + ':' + os.environ['PATH']})
    for n in ('VP', 'as', '1x', 'a-b', '...'):
        if not os.path.exists(h.dir + '/' + n):
            os.link(h.workdir + '/free/vp', h.dir + '/' + n) if os.stat(h.workdir + '/free').st_dev == os.stat(h.dir).st_dev else __import__('shutil').copy(h.workdir + '/free/vp', h.dir + '/' + n)
    os.chmod(h.dir, 0o755)
    r, w = os.pipe()
    os.set_inheritable(r, False)
    os.set_inheritable(w, False)
    script = []
    for i, n in enumerate(item):
        script.append({'zombie': "sh -c 'while [ \"$(cat /proc/$PPID/comm)\" = sh ]; do :; done' & echo $! >>pids", 'other user': "setpriv --reuid=65534 --regid=65534 --clear-groups vp c <&3 & echo $! >>pids", 'nested': "{ vp c <&3 & wait; } & echo $! >>pids"}.get(n, "'%s' c arg%d <&3 & echo $! >>pids" % (n, i % 2)))
    with open(h.dir + '/pids', 'w'):
        pass
    # sh becomes a reader of the pipe that does not wait for its children
    with open(h.dir + '/script', 'w') as f:
        f.write('exec 3<&0\n' + '\n'.join(script) + '\necho ready >>pids\nexec vp c\n')
    from pieshell import Redirect
    run = (Redirect(0, r, borrowed=True) | e.sh('script') | Redirect(1, '/dev/null')).run()
    import time, psutil
    end = time.time() + 20
    while time.time() < end:
        pids = h.read_file('pids').split()
        if pids and pids[-1] == b'ready':
            break
        time.sleep(0.005)
    pids = [int(x) for x in pids[:-1]]
    # the zombie ends once its parent does not wait for children, and all have executed their programs
    while time.time() < end and (any(alive(pid) for n, pid in zip(item, pids) if n == 'zombie') or comm(run.processes[0].pid) != 'vp' or any(comm(pid) == 'sh' for n, pid in zip(item, pids) if n not in ('nested', 'zombie'))):
        time.sleep(0.002)
    main = run.processes[0].pid
    want = [main]
    got = walk(h, ps.PstreeProcess(os.getpid()), tree_leaf, 'children of the shell with %r' % (item,))
    if main not in [k for _, k in got]:
        h.problem('%r: the member is not reached from the shell, only %r' % (item, got))
    for how, root in (('process', ps.PstreeProcess(main)), ('member', run.processes[0].details), ('by name', run.sh)):
        own = () if how != 'by name' else set(object.__dir__(run.processes[0]))
        got = walk(h, root, tree_leaf, '%s with children %r' % (how, item), own)
        reached(h, got, pids, '%s with children %r' % (how, item))
        if how != 'by name':
            for pid in pids:
                x = ps.PstreeProcess(pid)
                h.expect((x.PARENT.INFO.pid, x.GROUP.INFO.pid, x.SESS.INFO.pid), (main, os.getpgid(pid), os.getsid(pid)), 'parent, group and session of a child of %r' % (item,))
    for i, n in enumerate(item):
        if n == 'vp' and item.count('vp') == 1 and 'VP' not in item and 'other user' not in item:
            x = getattr(run.sh, 'vp', None)
            h.expect(getattr(x, 'INFO', x) and x.INFO.pid, pids[i], 'the child called vp of %r' % (item,))
    os.close(w)
    os.close(r)
    h.attempt(lambda: h.run(run.wait()))
    # ended processes list nothing and do not fail
    try:
        dir(run.processes[0])
        dir(run)
    except Exception as x:
        h.problem('%r: listing an ended member gives %r' % (item, x))
    end = time.time() + 20
    while any(alive(p) for p in pids) and time.time() < end:
        time.sleep(0.005)
    h.count(item)


def scenarios(tier):
    t = tier == 'thorough'
    few = [KINDS.index(k) for k in itertools.product(['/bin/a', '/usr/bin/a', '/x/A', '/x/--', '', '/x/1', DENIED], [['a'], ['a', 'b'], [], DENIED])]
    both = sorted(set(few) | set(range(0, len(KINDS), 7)))
    items = [(k, n, 'all') for n in (1, 2) for k in range(len(KINDS))] + [(k, 3, tuple(both)) for k in both] + [(k, 4, tuple(few[::2])) for k in few[::2]]
    if t:
        items += [(k, 3, 'all') for k in range(len(KINDS))] + [(k, 4, tuple(both)) for k in both] + [(k, 5, tuple(few[::2])) for k in few[::2]]
    out = [Scen('processes', processes, sched=False, items=items, chunk=6, timeout=60)]
    out.append(Scen('deep', deep, sched=False, items=list(itertools.product(range(len(KINDS)), few)), chunk=200))
    nl = len(LOGINS) * len(LPROC)
    out.append(Scen('logins', logins, sched=False, items=[(k, n, s) for n, s in ((1, 1), (2, 1), (3, 11 if not t else 4)) for k in range(nl)[::s]], chunk=6, timeout=60))
    ms = [(m,) for m in MEMBERS] + list(itertools.product(MEMBERS, repeat=2)) + list(itertools.product(MEMBERS[::1 if t else 4], repeat=3))
    # the first member must be a command or data
    ms = [m for m in ms if not (len(m) > 1 and any(x in ('list', 'list2', 'gen') for x in m[1:]))]
    out.append(Scen('members', members, sched=False, items=list(dict.fromkeys(ms)), chunk=25, timeout=60))
    rs = [()] + [(x,) for x in REAL[1:]] + list(itertools.combinations_with_replacement(REAL[1:], 2)) + (list(itertools.combinations_with_replacement(REAL[1:], 3)) if t else list(itertools.combinations(REAL, 3))[::2])
    out.append(Scen('real', real, sched=False, items=list(dict.fromkeys(rs)), chunk=4, timeout=60))
    return out
