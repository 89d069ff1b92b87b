"""C04: a command gets exactly the descriptors its redirects specify."""
import os, sys, signal, time, stat, itertools
from ..explore import Scen
from .. import lib

LEVEL = 'model_checking'
ASSUMPTIONS = ['redirects: all combinations listed in `combos`, on up to four descriptors; pipelines: schedules with at most `deviation_bound` departures from each base policy']
C, I, F, P, G, R, X = [lambda *a, k=k: (k,) + a for k in 'CIFPGRX']
NB = os.O_NONBLOCK
FLAGS = {'R': os.O_RDONLY, 'W': os.O_WRONLY | os.O_CREAT, 'A': os.O_WRONLY | os.O_CREAT | os.O_APPEND, 'T': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
         'RW': os.O_RDWR | os.O_CREAT, 'X': os.O_WRONLY | os.O_CREAT | os.O_EXCL, 'w': os.O_WRONLY}
LENT = (20, 21, 23)
SEEN = 3 | os.O_APPEND | os.O_NONBLOCK


def lend(h):
    for n in LENT:
        fd = os.open(h.execdir + '/lent%d' % n, os.O_RDWR | os.O_CREAT)
        os.dup2(fd, n, inheritable=n != 21)
        os.close(fd)


def make(spec):
    from pieshell import redir
    fd, src, *more = spec
    src = {'STRING': redir.STRING, 'TMP': redir.TMP}.get(src, src)
    flag = FLAGS[more[0]] if more and more[0] else None
    kw = dict(flag=flag, borrowed=isinstance(src, int))
    if len(more) > 1:
        kw['mode'] = more[1]
    return redir.Redirect(fd, src, **kw)


def effective(layers):
    """The redirects in force: the environment's, those of the run, those of the command (outermost first)."""
    m = {0: (0, 0), 1: (1, 1), 2: (2, 'STRING')}
    for layer in layers:
        for r in layer:
            if r[1] is None:
                m.pop(r[0], None)
            else:
                m[r[0]] = r
    return m


def flag(r):
    return FLAGS[r[2]] if len(r) > 2 and r[2] else {0: os.O_RDONLY, 1: FLAGS['W'], 2: FLAGS['W']}[r[0]]


def combo(h, item):
    """One command with redirects on every layer."""
    layers, cwd = item
    from .. import ctl
    from pieshell import redir
    if not hasattr(h, 'n'):
        lend(h)
        h.n = 0
    h.n += 1
    d = h.dir + '/%d' % h.n
    os.makedirs(d + '/sub')
    for n in ('f1', 'f2'):
        with open(d + '/' + n, 'wb') as f:
            f.write(n.encode() + b' old content')
    e = h.env(cwd=d)
    if cwd == 'sub':
        e = h.env(cwd=d + '/sub')
        d += '/sub'
        for n in ('f1', 'f2'):
            with open(d + '/' + n, 'wb') as f:
                f.write(n.encode() + b' old content')
    env, run, chain = layers
    for r in env:
        if cwd == 'op':
            # The same through the operators of environments
            if not isinstance(r[1], str) or r[1] in ('STRING', 'TMP') or len(r) > 2 or r[0] > 1:
                e | make(r)
            elif r[0]:
                e | (None if r[1] == '/dev/null' else r[1])
            else:
                (None if r[1] == '/dev/null' else r[1]) | e
        else:
            e._redirects.register(make(r))
    p = e.vp('D:desc')
    for i, r in enumerate(chain):
        p = p | make(r)
    m = effective([env, run] + [[r] for r in reversed(chain)])
    # can it be set up?
    ok = True
    inos = {}
    exists = {'f1', 'f2', 'sub', 'desc'}
    content = {'f1': b'f1 old content', 'f2': b'f2 old content'}
    for fd, r in m.items():
        src = r[1]
        if isinstance(src, int):
            try:
                inos[fd] = os.fstat(src).st_ino
            except OSError:
                ok = False
        elif src in ('STRING', 'TMP'):
            pass
        else:
            fl = flag(r)
            if src == 'sub' and fl & 3 or src.startswith('nodir'):
                ok = False
            elif os.path.basename(src) in exists and os.path.dirname(src) in ('', d):
                if fl & os.O_EXCL:
                    ok = False
                elif fl & os.O_TRUNC:
                    content[src] = b''
            elif not os.path.dirname(src):
                if not fl & os.O_CREAT:
                    ok = False
                exists.add(src)
    before = h.fds()
    try:
        r = p.run([make(x) for x in run])
        h.escape()
        k, v = h.attempt(lambda: h.run(r.wait()))
    except Exception as ex:
        h.escape()
        return h.problem('starting with redirects %r raises %s: %s' % (layers, type(ex).__name__, ex))
    desc = h.read_file('%s/desc' % d)
    h.count(repr(layers))
    if not ok:
        if desc is not None:
            h.problem('the command was run although its redirects %r cannot be set up' % (layers,))
        if k != 'failed':
            h.problem('redirects %r cannot be set up, but waiting gives %s %s' % (layers, k, v))
    elif desc is None:
        h.problem('the command was not run with redirects %r: %s %s' % (layers, k, v))
    else:
        if k != 'ok':
            h.problem('redirects %r: %s %s' % (layers, k, v))
        got = ctl.parse_report(desc.decode())['fds']
        if set(got) != set(m):
            h.problem('redirects %r: descriptors %s are open, should be %s' % (layers, sorted(got), sorted(m)))
        for fd in sorted(set(got) & set(m)):
            fl, pos, kind, ino, link = got[fd]
            r_ = m[fd]
            if isinstance(r_[1], int):
                if ino != inos[fd]:
                    h.problem('redirects %r: %d is %s, should be the shell\'s %d, %s' % (layers, fd, link, r_[1], before.get(r_[1])))
            elif r_[1] in ('STRING', 'TMP'):
                if not link.startswith(h.tmp + '/') or not fl & 3:
                    h.problem('redirects %r: %d is %s, should be a temporary file' % (layers, fd, link))
            else:
                want = os.path.join(d, r_[1])
                if link != os.path.realpath(want):
                    h.problem('redirects %r: %d is %s, should be %s' % (layers, fd, link, want))
                if fl & SEEN != flag(r_) & SEEN:
                    h.problem('redirects %r: %d is open with flags %o, should be %o' % (layers, fd, fl & SEEN, flag(r_) & SEEN))
                if len(r_) > 3 and os.path.basename(want) not in ('f1', 'f2'):
                    mode = stat.S_IMODE(os.stat(want).st_mode)
                    um = os.umask(0); os.umask(um)
                    if mode != r_[3] & ~um:
                        h.problem('redirects %r: %s has mode %o, should be %o' % (layers, want, mode, r_[3] & ~um))
        for n, c in content.items():
            if h.read_file(d + '/' + n) != c:
                h.problem('redirects %r: %s contains %r, should be %r' % (layers, n, h.read_file(d + '/' + n), c))
    r.remove_output_files()
    now = h.fds()
    if now != before:
        h.problem('redirects %r: the descriptors of the shell are %s, were %s' % (layers, now, before))
    for n, old in zip(LENT, (True, False, True)):
        if os.get_inheritable(n) != old or os.get_blocking(n) != True:
            h.problem('redirects %r changed the lent descriptor %d' % (layers, n))
    e2 = [x for x in e._redirects.redirects.values()]
    if {x.fd: x.source for x in e2} != {x[0]: {'STRING': redir.STRING, 'TMP': redir.TMP}.get(x[1], x[1]) for x in effective([env]).values()}:
        h.problem('redirects %r: those of the environment are now %r' % (layers, e._redirects))


def combos(tier):
    t = tier == 'thorough'
    out = []
    fds = [0, 1, 2, 3, 4, 20, 22]
    def srcs(fd):
        fl = 'W' if fd > 2 else None
        s = [(None,), (0, 'W'), (1, 'W'), (2, 'W'), (20, 'W'), (21, 'W'), (24, 'W'), ('f1', 'R'), ('f2', 'A'), ('new', 'W'), ('new2', 'T'), ('STRING', fl) if fd else ('sub', 'R')]
        return s
    single = [(fd,) + (s + ('W',) if s == (None,) else s) for fd in fds for s in srcs(fd)]
    other = [(0, 'f1'), (1, 'new'), (1, 'f1'), (2, 'new'), (1, 'f1', 'T'), (1, 'f1', 'X'), (1, 'new', 'X'), (0, 'nope', 'R'), (0, 'nodir/f', 'R'), (1, 'nodir/f', 'W'), (1, 'sub', 'W'),
             (3, 'f1', 'RW'), (1, 'new', 'W', 0o600), (5, 'new', 'RW', 0o640), (2, 'f1', 'A'), (1, 'new', 'w'), (1, 'TMP'), (2, 'TMP'), (5, 'TMP', 'W'), (0, 'sub', 'R'), (63, 'f1', 'R'),
             (30, 20, 'W'), (19, 21, 'R'), (1, '/dev/null'), (0, '/dev/null'), (2, '/dev/null'), (1, 'f 1/../new') and (1, 'nodir/../new'), (22, 'new', 'A', 0o444)]
    for r in single + other:
        if r[1] != 24 and not (isinstance(r[1], int) and len(r) < 3):
            out.append((([r], [], []), 'op'))
            out.append((([(1, 'f2'), r], [], []), 'op'))
        out += [(([], [], [r]), ''), (([], [r], []), ''), (([r], [], []), '')] + [(([], [], [r]), 'sub')] * (r[1] != 'sub')
    for a in single:
        for b in single:
            if t or a[0] in (0, 1, 2, 20) and b[0] in (1, 2, 20, 22) and a[1] not in (2, 'new2') and b[1] not in (0, 'new'):
                out.append((([], [], [a, b]), ''))
    ints = [0, 1, 2, 20]
    for m in itertools.product([0, 1, 2, 20] if not t else [0, 1, 2, 20, 21, None], repeat=4):
        out.append((([], list(zip(ints, m, ['W'] * 4)), []), ''))
        if t:
            out.append((([], [], list(zip(ints, m, ['W'] * 4))[::-1]), ''))
    for m in itertools.permutations([0, 1, 2, 20, 21], 3):
        for f in itertools.combinations([0, 1, 2, 20, 21, 22], 3) if t else [(1, 20, 21), (0, 21, 22), (2, 1, 20)]:
            out.append((([], [], [(a, b, 'W') for a, b in zip(f, m)]), ''))
    over = [(1, 'f1', 'A'), (1, 20, 'W'), (1, None, 'W'), (2, 'new', 'W'), (20, 21, 'W')]
    for a, b, c in itertools.product(over, repeat=3):
        if t or a[0] == 1:
            out.append((([a], [b], [c]), ''))
            out.append((([a], [], [b, c]), ''))
            out.append((([], [a, b, c], []), ''))
    return out


# ---------------------------------------------------------------- pipelines

NODES = [
    (P(C('o:a/'), C('c')), [dict([(0, 'in'), (1, 'p1'), (2, 's1')]), {0: 'p1', 1: 'out', 2: 's2'}]),
    (P(C('o:a/'), C('c'), C('c')), [{0: 'in', 1: 'p1', 2: 's1'}, {0: 'p1', 1: 'p2', 2: 's2'}, {0: 'p2', 1: 'out', 2: 's3'}]),
    (G(C('o:a/'), C('o:b/')), [{0: 'in', 1: 'out', 2: 's1'}, {0: 'in', 1: 'out', 2: 's2'}]),
    (P(G(C('o:a/'), C('o:b/')), C('c')), [{0: 'in', 1: 'p1', 2: 's1'}, {0: 'in', 1: 'p1', 2: 's2'}, {0: 'p1', 1: 'out', 2: 's3'}]),
    (P(C('o:a/'), G(C('t:1'), C('c'))), [{0: 'in', 1: 'p1', 2: 's1'}, {0: 'p1', 1: 'out', 2: 's2'}, {0: 'p1', 1: 'out', 2: 's3'}]),
    (P(C('o:a/'), F('up'), C('c')), [{0: 'in', 1: 'p1', 2: 's1'}, {0: 'p2', 1: 'out', 2: 's2'}]),
    (P(I('list', ['a']), C('c'), F('up')), [{0: 'p1', 1: 'p2', 2: 's1'}]),
    (C(C('o:a/')), [{0: 'in', 1: 'p1', 2: 'S'}, {0: 'in', 1: 'out', 2: 'S', 'arg': 'p1'}]),
    (C(C('o:a/'), I('list', ['b']), C('o:c/')), [{0: 'in', 1: 'p1', 2: 'S'}, {0: 'in', 1: 'p2', 2: 'S'}, {0: 'in', 1: 'out', 2: 'S', 'args': ['p1', 'p9', 'p2']}]),
    (P(C('o:a/'), C('c', C('o:b/'))), [{0: 'in', 1: 'p1', 2: 'S'}, {0: 'p1', 1: 'p2', 2: 'S'}, {0: 'p1', 1: 'out', 2: 'S', 'arg': 'p2'}]),
    (P(C('o:a/'), C(F('sink'), 'c')), [{0: 'in', 1: 'p1', 2: 'S'}, {0: 'p1', 1: 'out', 2: 'S', 'arg': 'p2'}]),
    (C(P(C('o:a/'), C('u'))), [{0: 'in', 1: 'p1', 2: 'S'}, {0: 'p1', 1: 'p2', 2: 'S'}, {0: 'in', 1: 'out', 2: 'S', 'arg': 'p2'}]),
    (R(C('c'), (0, 'in1'), (1, 'outf')), [{0: 'file:in1', 1: 'file:outf', 2: 's1'}]),
    (P(R(C('c'), (0, 'in1')), R(C('c'), (1, 'outf'))), [{0: 'file:in1', 1: 'p1', 2: 's1'}, {0: 'p1', 1: 'file:outf', 2: 's2'}]),
    (R(P(C('c'), C('c')), (0, 'in1'), (1, 'outf')), [{0: 'file:in1', 1: 'p1', 2: 's1'}, {0: 'p1', 1: 'file:outf', 2: 's2'}]),
    (P(C('o:a/', 'e:b/'), R(C('c'), (2, 'err', os.O_WRONLY | os.O_CREAT))), [{0: 'in', 1: 'p1', 2: 's1'}, {0: 'p1', 1: 'out', 2: 'file:err'}]),
    (R(P(C('o:a/'), C('c')), (2, 'err', os.O_WRONLY | os.O_CREAT)), [{0: 'in', 1: 'p1', 2: 'file:err'}, {0: 'p1', 1: 'out', 2: 'file:err'}]),
    (P(R(C('o:a/'), (3, 'in1', os.O_RDONLY)), C('c')), [{0: 'in', 1: 'p1', 2: 's1', 3: 'file:in1'}, {0: 'p1', 1: 'out', 2: 's2'}]),
    (P(C('o:a/'), R(C('c', C('o:x/')), (3, 'in1', os.O_RDONLY))), [{0: 'in', 1: 'p1', 2: 'S'}, {0: 'p1', 1: 'p2', 2: 'S', 3: 'file:in1'}, {0: 'p1', 1: 'out', 2: 'S', 3: 'file:in1', 'arg': 'p2'}]),
    (P(R(C('o:a/'), (1, 'outf')), C('c')), [{0: 'in', 1: 'file:outf', 2: 's1'}, {0: 'any', 1: 'out', 2: 's2'}]),
    (R(G(C('o:a/'), P(C('c'), C('c'))), (0, 'in1')), [{0: 'file:in1', 1: 'out', 2: 's1'}, {0: 'file:in1', 1: 'p1', 2: 's2'}, {0: 'p1', 1: 'out', 2: 's3'}]),
]


def graph(h):
    h.write_file('in1', b'one\n')
    lend(h)
    e = h.env()
    node, want = h.p['node'], h.p['want']
    fds = h.fds()
    shell = {'in': os.fstat(0).st_ino, 'out': os.fstat(1).st_ino}
    mode = h.p['mode']
    if mode == 'fg':
        k, v = h.attempt(lib.build(e, node, []).run_interactive)
    else:
        k, v = h.attempt(lambda: bytes(lib.build(e, node, [])))
    if k != 'ok':
        return h.problem('%r: %s %s' % (node, k, v))
    procs = h.ctl.procs
    if len(procs) != len(want):
        return h.problem('%d commands were started for %r, should be %d' % (len(procs), node, len(want)))
    tokens, inos = {}, {}
    for i, (p, w) in enumerate(zip(procs, want)):
        w = dict(w)
        got = p.report['fds']
        args = w.pop('args', [])
        if 'arg' in w:
            args = [w.pop('arg')]
        paths = [a for a in p.report['arg'] if a.startswith('/dev/fd/')]
        if len(paths) != len(args):
            return h.problem('command %d of %r has arguments %r' % (i, node, p.report['arg']))
        for path, a in zip(paths, args):
            w[int(path[8:])] = a
        if set(got) != set(w):
            h.problem('command %d of %r has descriptors %s, should be %s' % (i, node, {k: v[4] for k, v in got.items()}, w))
            continue
        for fd, tok in w.items():
            fl, pos, kind, ino, link = got[fd]
            if tok == 'any':
                continue
            if tok == 'out' and mode == 'pipe':
                tok = 'pout'
            if tok in shell:
                if ino != shell[tok]:
                    h.problem('descriptor %d of command %d of %r is %s, should be %s of the shell' % (fd, i, node, link, tok))
                continue
            if tok.startswith('file:'):
                if link != os.path.realpath(h.dir + '/' + tok[5:]):
                    h.problem('descriptor %d of command %d of %r is %s, should be %s' % (fd, i, node, link, tok))
                continue
            if tok[0] == 'p':
                if stat.S_IFMT(kind) != stat.S_IFIFO:
                    h.problem('descriptor %d of command %d of %r is %s, should be a pipe' % (fd, i, node, link))
                if fl & os.O_NONBLOCK:
                    h.problem('descriptor %d of command %d of %r does not block' % (fd, i, node))
            elif not link.startswith(h.tmp):
                h.problem('descriptor %d of command %d of %r is %s, should be a temporary file' % (fd, i, node, link))
            if tok == 'S':               # an argument inherits what the command has
                continue
            if tokens.setdefault(tok, ino) != ino:
                h.problem('descriptor %d of command %d of %r should be %s, which is another %s' % (fd, i, node, tok, link))
            if inos.setdefault(ino, tok) != tok:
                h.problem('descriptor %d of command %d of %r is the same as %s' % (fd, i, node, inos[ino]))
            end = os.O_WRONLY if fd in (1, 2) else os.O_RDONLY
            if fd > 2 and 'sink' in repr(node):
                end = os.O_WRONLY
            if tok[0] == 'p' and fl & 3 != end:
                h.problem('descriptor %d of command %d of %r is open with flags %o' % (fd, i, node, fl))
    now = h.fds()
    if now != fds:
        h.problem('%r: the descriptors of the shell are %s, were %s' % (node, now, fds))
    h.obs['fds'] = sorted(len(p.report['fds']) for p in procs)


def own(h):
    """Pipes and lent descriptors given by the caller."""
    from pieshell import redir
    e = h.env()
    lend(h)
    before = h.fds()
    mode = h.p['mode']
    if mode == 'pipe3':
        r = e.vp('w:3:three/', 'o:one/').run([redir.Redirect(3, redir.PIPE, os.O_WRONLY), redir.Redirect(1, 'o1')])
        fd = r.processes[0].redirects.redirects[3].pipe
        k, v = h.attempt(lambda: h.run(r.wait()))
        got = os.read(fd, 100)
        eof = os.read(fd, 100)
        os.close(fd)
        if (k, got, eof) != ('ok', b'three\n', b''):
            h.problem('a pipe for descriptor 3 gave %r %r %s' % (got, eof, k))
    elif mode == 'pipe0':
        r = e.vp('c').run([redir.Redirect(0, redir.PIPE), redir.Redirect(1, 'o1')])
        fd = r.processes[0].redirects.stdin.pipe
        os.write(fd, b'input\n')
        os.close(fd)
        k, v = h.attempt(lambda: h.run(r.wait()))
        if (k, h.read_file('o1')) != ('ok', b'input\n'):
            h.problem('a pipe for standard input gave %r %s' % (h.read_file('o1'), k))
    elif mode == 'given':         # not lent: closed after use, so the reader sees the end
        a, b = os.pipe()
        r = e.vp('o:x/').run([redir.Redirect(1, b)])
        k, v = h.attempt(lambda: h.run(r.wait()))
        try:
            os.fstat(b)
            h.problem('a descriptor given to the pipeline stays open')
        except OSError:
            pass
        d = os.read(a, 10), os.read(a, 10)
        os.close(a)
        if (k, d) != ('ok', (b'x\n', b'')):
            h.problem('a descriptor given to the pipeline got %r %s' % (d, k))
    elif mode == 'lentpipe':
        a, b = os.pipe()
        node = e.vp('o:x/') | e.vp('u')
        k, v = h.attempt(lambda: h.run(node.run([redir.Redirect(1, b, borrowed=True)]).wait()))
        k2, v = h.attempt(lambda: h.run((e.vp('o:y/') + e.vp('n')).run([redir.Redirect(1, b, borrowed=True)]).wait()))
        k3, v = h.attempt(lambda: h.run((['z'] | e.vp('c')).run([redir.Redirect(1, b, borrowed=True)]).wait()))
        os.close(b)
        d = os.read(a, 100), os.read(a, 10)
        os.close(a)
        if (k, k2, k3, d) != ('ok', 'ok', 'ok', (b'X\ny\nz\n', b'')):
            h.problem('a descriptor lent to pipelines got %r %s %s %s' % (d, k, k2, k3))
    elif mode == 'lentin':
        a, b = os.pipe()
        os.write(b, b'1234\n5678\n')
        os.close(b)
        out = []
        for node in (e.vp('t:5', 'D:x'), e.vp('t:2') | e.vp('c'), e.vp('c')):
            out.append(bytes(redir.Redirect(0, a, borrowed=True) | node))
        os.close(a)
        if out != [b'1234\n', b'56', b'78\n']:
            h.problem('pipelines that share a lent input read %r' % out)
    h.spin()
    now = h.fds()
    if now != before:
        h.problem('%s: the descriptors of the shell are %s, were %s' % (mode, now, before))


MANY = """import os, sys
sys.path[0:0] = %r
import pieshell
from pieshell import environ, redir
e = environ.Environment(cwd=%r, exports=dict(os.environ))
async def up(stdin):
    async for x in stdin:
        yield x.upper()
shape = %r
p = {'one': lambda: e.vp('D:d0'), 'pipe': lambda: e.vp('o:a/', 'D:d0') | e.vp('c', 'D:d1'), 'group': lambda: e.vp('D:d0') + e.vp('D:d1'), 'arg': lambda: e.vp('D:d0', e.vp('o:a/', 'D:d1')),
     'func': lambda: e.vp('o:a/', 'D:d0') | up | e.vp('c', 'D:d1'), 'redirect': lambda: e.vp('D:d0') | redir.Redirect(40, 'new', os.O_WRONLY | os.O_CREAT), 'sub': lambda: e.subshell(e.vp('D:d0'))}[shape]()
p.run_interactive()
"""


def many(h, item):
    """A program with its own limit on descriptors that already has the given ones open, none of them marked close-on-exec."""
    import resource, subprocess
    from .. import ctl
    limit, fds, shape = item
    for n in ('d0', 'd1', 'new'):
        if os.path.exists(h.dir + '/' + n):
            os.unlink(h.dir + '/' + n)
    pid = os.fork()
    if pid == 0:
        try:
            signal.pthread_sigmask(signal.SIG_SETMASK, [])
            for s in (signal.SIGINT, signal.SIGCHLD, signal.SIGTSTP, signal.SIGPIPE):
                signal.signal(s, signal.SIG_DFL)
            os.closerange(3, 1024)
            resource.setrlimit(resource.RLIMIT_NOFILE, (limit, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
            n = os.open('/dev/null', os.O_RDWR)
            os.dup2(n, 0)
            for fd in fds:
                os.dup2(n, fd)
            for fd in (1, 2):
                os.dup2(os.open(h.tmp + '/many%d' % fd, os.O_WRONLY | os.O_CREAT | os.O_TRUNC), fd, True)
            if n not in fds:
                os.close(n)
            os.chdir(h.dir)
            os.execve('/opt/venv/bin/python', ['python', '-S', '-c', MANY % ([p for p in sys.path if p], h.dir, shape)], dict(HOME=h.dir, PATH=h.workdir + '/free:/usr/bin:/bin', TMPDIR=h.tmp, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1'))
        finally:
            os._exit(99)
    end = time.time() + 40
    while time.time() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        time.sleep(0.01)
    else:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return h.problem('a program with the limit %d and descriptors %s open does not end' % (limit, fds))
    if st:
        with open(h.tmp + '/many2') as f:
            return h.problem('a program with the limit %d and descriptors %s open ends with %d: %s' % (limit, fds, st, f.read()[-500:]))
    for n in ('d0', 'd1'):
        d = h.read_file(h.dir + '/' + n)
        if d is None:
            if n == 'd0' or shape in ('pipe', 'group', 'arg', 'func'):
                h.problem('%s: %s was not run by a program with the limit %d' % (shape, n, limit))
            continue
        got = set(ctl.parse_report(d.decode())['fds'])
        if shape == 'arg' and n == 'd0':
            got -= {max(got)} if max(got) > 2 else set()
        want = {0, 1, 2} | ({40} if shape == 'redirect' else set())
        if got != want:
            h.problem('%s in a program with the limit %d and descriptors %s open: %s sees %s' % (shape, limit, fds, n, sorted(got)))
    h.count(item)


def scenarios(tier):
    t = tier == 'thorough'
    few = [(), (3,), (40,), (63,), (64,), (100,), (254,), (255,), (256,), (298,), (3, 64, 255, 257)]
    shapes = ['one', 'pipe', 'group', 'arg', 'func', 'redirect', 'sub']
    ms = [(l, f, s) for l in (64, 300, 1024, 4096) + ((65536,) if t else ()) for i, f in enumerate(few + [(l - 2,), tuple(range(3, 30))]) for j, s in enumerate(shapes) if max(f + (0,)) < l - 1 and not (s == 'redirect' and 40 in f) and (t or (i + j) % 7 == l % 7)]
    out = [Scen('many', many, sched=False, items=ms, chunk=4, timeout=100)]
    out += [Scen('combos', combo, sched=False, items=combos(tier), chunk=25, timeout=90)]
    for i, (n, w) in enumerate(NODES):
        for m in ('fg', 'pipe'):
            if m == 'pipe' and (i == 6 or 'outf' in repr(n) and i != 19):
                continue
            if not t and m == 'pipe' and i % 2:
                continue
            out.append(Scen('graph %d %s' % (i, m), graph, node=n, want=w, mode=m, bound=1, cap=700 if t else 30, policies=('loop', 'procs', 'fine', 'finep', 'last', 'procslast') if t else ('loop', 'finep', 'procslast')))
    for m in ('pipe3', 'pipe0', 'given', 'lentpipe', 'lentin'):
        out.append(Scen('own %s' % m, own, mode=m, bound=1, cap=500 if t else 40))
    return out
