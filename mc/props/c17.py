"""C17: subshell and remote runs equal running the pipeline directly; so do pickled pipelines."""
import os, re, shlex, sys, pickle, itertools, asyncio
from ..explore import Scen
from .. import lib
from . import c09
from .c09 import C, I, F, P, G, R, X

LEVEL = 'model_checking'
ASSUMPTIONS = ['oracle: the meaning of the pipeline in the reference model and the same pipeline run directly',
               'remote: the ssh on the PATH is a stand-in that runs the command with sh on this machine, the pieshell on the PATH is the code under test',
               'arguments refer to exported variables only (variables of a scope are not pickled); the default environment, which has no exports of its own, uses those of the process it is in']
FILES = {'in1': b'one\ntwo\n', 'sub/in1': b'sub one\nsub two\n'}

GOOD = [C('o:a/', 'o:b/'), C('u'), C('f:in1'), C('O:70000:50'), C('e:err/', 'o:x/'), C('c', 'o:tail')]
BAD = [C('o:e/', 'c', 'x:3'), C('x:1'), C('k:9'), X('no_such_program', '1'), C('c', 'k:15')]
PY = [F('up'), I('list', ('p', 'q')), F('dup')]


def nodes(tier):
    """Pipelines of commands."""
    t = tier == 'thorough'
    leaves = GOOD[:4] + BAD[:4]
    out = list(GOOD + BAD)
    red = [((1, 'out1'),), ((0, 'in1'),), ((0, 'in1'), (1, 'out1')), ((2, 'err1'),), ((1, None),), ((0, None),), ((2, None), (1, 'out2'))]
    out += [R(l, *r) for l in leaves for r in red]
    two = [P(a, b) for a in leaves for b in leaves] + [G(a, b) for a in leaves for b in leaves]
    out += two
    out += [C(a, 'o:end/') for a in leaves] + [C(a, 'o:mid/', ('kw', 'file', b)) for a in leaves[:3] for b in leaves[:5]] + [C(P(GOOD[0], GOOD[1]), 'x:2')]
    out += [R(x, *red[2]) for x in two[::3]] + [R(x, (2, 'err1')) for x in two[::5]]
    if t:
        out += [P(a, b, c) for a in leaves for b in leaves for c in leaves] + [G(P(a, b), c) for a in leaves for b in leaves for c in leaves] + [P(G(a, b), GOOD[1]) for a in leaves for b in leaves] + [R(x, *r) for x in two for r in red]
    else:
        out += [P(a, b, c) for a in leaves[:6] for b in leaves[1:6:2] for c in leaves[1:7:3]] + [P(G(a, b), GOOD[1]) for a in leaves[:5] for b in leaves[:5]]
    return [n for n in dict.fromkeys(out) if ok(n)]


def python_nodes():
    out = [P(a, b) for a in PY for b in (GOOD[1], PY[0], PY[2]) if not (a[0] == 'F' and a == b)] + [P(GOOD[0], a) for a in PY if a[0] == 'F'] + [P(PY[1], PY[0], GOOD[1]), P(GOOD[0], F('raise', 1), GOOD[1]), P(C('o:a/'), F('coro')), P(C('u'), F('raiseread')), C(PY[1], 'o:x/'), G(P(PY[1], GOOD[1]), GOOD[0])]
    return [n for n in out if ok(n)]


def ok(n):
    try:
        m = lib.Meaning({'in1': b'1\n'})
        m.of(n, [b'x\n'])
        m.of(n)
    except ValueError:
        return False
    if 'O:' in repr(n) and "'G'" in repr(n):        # its lines may be split
        return False
    # of a group at most one member may take the input
    for x in c09.walk(n):
        if x[0] == 'G' and c09.readers(x) > 1:
            return False
        # writers that fail do so having written everything
        if x[0] == 'P' and any(m[0] in 'CG' and not c09.readers(m) for m in x[1:]) and fails(x):
            return False
    return True


def fresh(h, cwd=''):
    for f in os.listdir(h.dir):
        if f != 'sub' and not f.startswith('bin'):
            os.unlink(h.dir + '/' + f)
    os.makedirs(h.dir + '/sub', exist_ok=True)
    for f in os.listdir(h.dir + '/sub'):
        os.unlink(h.dir + '/sub/' + f)
    for n, d in FILES.items():
        h.write_file(n, d)


def files(h):
    out = {}
    for d in ('', 'sub/'):
        for f in os.listdir(h.dir + '/' + d):
            if os.path.isfile(h.dir + '/' + d + f):
                out[d + f] = h.read_file(d + f)
    return out


def environment(h, cwd='', **kw):
    return h.env(cwd=h.dir + ('/' + cwd if cwd else ''), exports={'PATH': h.dir + '/bin:' + os.environ['PATH'], 'HOME': h.execdir + '/home', 'LC_ALL': 'C.UTF-8', 'VAR': 'a "b"\n', 'PYTHONPATH': os.environ.get('PYTHONPATH', ''),
                 'PYTHONDONTWRITEBYTECODE': '1', 'TMPDIR': h.tmp, 'PATTERN': '*'}, **kw)


def remote_tools(h):
    if os.path.exists(h.dir + '/bin'):
        return
    os.mkdir(h.dir + '/bin')
    for name, text in (('ssh', '#!/bin/sh\n[ "$1" = -p ] && shift 2\n[ "$1" = some.host ] || exit 255\ncd / && exec /bin/sh -c "$2"\n'),
                       ('pieshell', '#!/bin/sh\nexec /opt/venv/bin/python -S -c \'import sys; sys.path[0:0] = %r; from pieshell.shell import main; main()\' --no-startup "$@"\n')):
        if name == 'pieshell':
            text = text % ([p for p in sys.path if p],)
            text = text.replace("'", '"').replace('-c "', "-c '").replace('main()"', "main()'")
        with open(h.dir + '/bin/' + name, 'w') as f:
            f.write(text)
        os.chmod(h.dir + '/bin/' + name, 0o755)


PLACES = {
    'plain': lambda e, p: p, 'input': lambda e, p: e.vp('o:in/put/') | p, 'output': lambda e, p: p | e.vp('u'), 'group': lambda e, p: p + e.vp('o:z/'), 'redirected': lambda e, p: p > 'redir', 'from file': lambda e, p: 'in1' | p,
    'argument': lambda e, p: e.vp(p), 'to function': lambda e, p: p | lib.function('up'), 'from list': lambda e, p: ['l1', 'l2'] | p, 'stderr': lambda e, p: p | __import__('pieshell').Redirect(2, 'errors'), 'null': lambda e, p: None | p | None,
}


def place_node(node, place):
    return {'plain': node, 'input': P(C('o:in/put/'), node), 'output': P(node, C('u')), 'group': G(node, C('o:z/')), 'redirected': R(node, (1, 'redir')), 'from file': R(node, (0, 'in1')), 'argument': C(node), 'to function': P(node, F('up')),
            'from list': P(I('list', ('l1', 'l2')), node), 'stderr': R(node, (2, 'errors')), 'null': R(R(node, (0, None)), (1, None))}[place]


def to_file(node):
    return node[0] == 'R' and any(r[0] == 1 for r in node[2:])


def fails(node):
    """Does any member fail?"""
    for x in lib.flat(node):
        if x[0] == 'X' or x[0] == 'C' and any(isinstance(a, str) and a[0] in 'xk' and a != 'x:0' for a in x) or x[0] == 'F' and x[1].startswith('raise'):
            return True
    return False


def observe(h, p, mode, node, cwd, what, exact=True):
    """Runs p and compares with what node means."""
    fresh(h)
    if mode == 'bytes' and fails(node):
        mode = 'list'
    if mode == 'bytes':
        out, k, v = lib.consume(h, p, 'bytes')
    elif mode == 'list':
        out, k, v = lib.consume(h, p, 'list')
    elif mode == 'foreground':
        out, (k, v) = None, h.attempt(p.run_interactive)
    elif mode == 'wait':
        out, (k, v) = None, h.attempt(lambda: h.run(p.run().wait()))
    m = lib.Meaning({'in1': FILES[(cwd + '/' if cwd else '') + 'in1']})
    want = m.of(node)
    bad = fails(node)
    if k != ('failed' if bad else 'ok'):
        h.problem('%s %s: %s, should have %s' % (what, k, str(v)[:300], 'failed' if bad else 'succeeded'))
    if out is not None and mode == 'list' and len([s for s in want if s]) <= 1 and want:
        want = [lib.unlines(lib.lines(s)) for s in want]
    if out is not None and not lib.matches(out, want):
        h.problem('%s gave %r, should be %r' % (what, out[:200], [w[:200] for w in want]))
    got = files(h)
    for n, streams in m.files.items():
        n = (cwd + '/' if cwd else '') + n
        if isinstance(streams, bytes):
            streams = [streams]
        if not lib.matches(got.pop(n, b'missing'), streams):
            h.problem('%s wrote %r to %s, should be %r' % (what, files(h).get(n), n, streams))
    for n in got:
        if n not in FILES and not n.split('/')[-1].startswith('err'):
            h.problem('%s created %s' % (what, n))
    return k


def subshells(h, item):
    node, place, mode, how, cwd = item
    fresh(h)
    e2 = environment(h, cwd)
    e = environment(h) if how in ('other env',) else e2
    p = lib.build(e2, node)
    inner = e.subshell(p)
    if how == 'nested':
        inner = e.subshell(inner)
    if how == 'nested env':
        inner = environment(h, 'sub' if not cwd else '').subshell(inner)
    whole = PLACES[place](e2, inner)
    what = 'subshell (%s, %s, %s) of %r' % (place, mode, how, node)
    k = observe(h, whole, mode, place_node(node, place), cwd, what)
    if how == 'again':
        observe(h, whole, mode, place_node(node, place), cwd, what + ', second time')
        if not to_file(node):
            observe(h, PLACES[place](e2, p), mode, place_node(node, place), cwd, what + ', then directly')
    if how == 'status' and fails(node):
        # the status of the subshell is that of the pipeline
        r = inner.run()
        h.attempt(lambda: h.run(r.wait()))
        d = p.run()
        h.attempt(lambda: h.run(d.wait()))
        a, b = r.exit_code, d.exit_code
        if b and b > 0 and a != b:
            h.problem('%s has status %s instead of %s' % (what, a, b))
    if h.zombies():
        h.problem('%s left a child behind' % what)
    h.count(item)


def remotes(h, item):
    node, place, mode, how, cwd = item
    fresh(h)
    remote_tools(h)
    e2 = environment(h, cwd)
    e = environment(h) if how == 'other env' else e2
    p = lib.build(e2, node)
    inner = e.remote('-p', '22', 'some.host', p) if how == 'options' else e.remote('some.host', p)
    if how == 'subshell':
        inner = e.remote('some.host', e.subshell(p))
    if how == 'in subshell':
        inner = e.subshell(inner)
    if how == 'unpickled':
        inner = pickle.loads(pickle.dumps(inner))
    observe(h, PLACES[place](e2, inner), mode, place_node(node, place), cwd, 'remote (%s, %s, %s) of %r' % (place, mode, how, node))
    h.count(item)


def sourced(h, e):
    """(what the profile of the system sets is of no concern here)"""
    path = h.tmp + '/s.sh'
    with open(path, 'w') as f:
        f.write("export PATH=%s FROMBASH='f \"rom'\n" % shlex.quote(e._exports['PATH']))
    h.attempt(lambda: h.run(e.bashsource(path).run().wait()))


REPORTS = {
    'args': lambda e, d: e.vp(d, 'pl ain', '--q="\'\\', '%(VAR)s', long_name='v\n', flag=True), 'glob': lambda e, d: e.vp(d, '*', 'i?1', '%(PATTERN)s'), 'tilde': lambda e, d: e.vp(d, '~/x'), 'R': lambda e, d: e.vp(d, __import__('pieshell').environ.R('* %(VAR)s ~')),
    'dict': lambda e, d: e.vp(d, {'a_b': 'c', 'f': True}), 'attr': lambda e, d: e.vp(d).some.attr('x'), 'minus': lambda e, d: e.vp(d) - e.l, 'arg pipe': lambda e, d: e.vp(d, e.vp('o:x'), f=e.vp('o:y')), 'redirects': lambda e, d: e.vp(d) | __import__('pieshell').Redirect(5, 'in1', os.O_RDONLY),
    'redirect tables': lambda e, d: ((e.vp(d) | __import__('pieshell').Redirect(4, 'o4', os.O_WRONLY | os.O_CREAT)) | __import__('pieshell').Redirect(2, 1, borrowed=True)) > 'o1', 'null': lambda e, d: None | e.vp(d) | None, 'pipe': lambda e, d: e.vp('o:a') | e.vp(d) | e.vp('s'), 'group': lambda e, d: e.vp(d) + e.vp('o:x'),
}
HISTORIES = {
    'cd': lambda h, e: e._cd('sub'), 'export': lambda h, e: e._exports.update(NEW='n"ew', VAR='changed'), 'unexport': lambda h, e: e._exports.pop('VAR'), 'run': lambda h, e: h.run(e.vp('o:x').run().wait()), 'fail': lambda h, e: h.attempt(lambda: h.run(e.vp('x:1').run().wait())),
    'background': lambda h, e: setattr(h, 'bgp', (__import__('pieshell').Redirect(0, h.fifo) | e.vp('c')).run()), 'display': lambda h, e: (repr([e.vp('o:x')]), str(e), dir(e)), 'iterate': lambda h, e: list(e.vp('o:a/o:b')), 'default redirect': lambda h, e: e._redirects.redirect(2, h.tmp + '/errdef'),
    'bashsource': lambda h, e: sourced(h, e), 'pickle': lambda h, e: pickle.dumps(e), 'clear': lambda h, e: h.run(e.clear_dir_cache().run().wait()), 'new scope': lambda h, e: __import__('pieshell').environ.EnvScope(env=e).__setitem__('somevar', 1), 'suspend': lambda h, e: None,
}


def text(p):
    """Texts without the number of the environment."""
    return re.sub(r'\[\d+:', '[', repr([p]))


def report_of(h, fn, rep):
    from .. import ctl
    if os.path.exists(rep):
        os.unlink(rep)
    k, v = h.attempt(fn)
    if not os.path.exists(rep):
        return 'no report: %s %s' % (k, str(v)[:300])
    with open(rep) as f:
        r = ctl.parse_report(f.read())
    args = [(a.split('/dev/fd/')[0] + '/dev/fd/', 'file') if '/dev/fd/' in a else a for a in r['arg']]
    env = {k: v for k, v in r['env'].items()}
    given = [int(a.split('/dev/fd/')[1]) for a in r['arg'] if '/dev/fd/' in a]         # their numbers are of no consequence
    fds = [fd for fd in r['fds'] if int(fd) not in given]
    return args, r['cwd'], env, sorted(fds), k


def reports(h, item):
    """What the commands see: directly, in a subshell, remote, and after pickling in an environment with a history."""
    kind, hist, ways = item
    fresh(h)
    if 'remote' in ways:
        remote_tools(h)
    e = environment(h)
    h.fifo = h.tmp + '/fifo'
    if not os.path.exists(h.fifo):
        os.mkfifo(h.fifo)
    keep = os.open(h.fifo, os.O_RDWR)
    for x in hist:
        HISTORIES[x](h, e)
    rep = h.tmp + '/rep'
    p = REPORTS[kind](e, __import__('pieshell').environ.R('D:' + rep))
    want = report_of(h, lambda: h.run(p.run().wait()), rep)
    if isinstance(want, str):
        h.problem('%s directly: %s' % (kind, want))
    before = dict(e._exports), e._cwd, repr([p]), repr(e._redirects)
    for way in ways:
        if way[6:].isdigit():
            q = pickle.loads(pickle.dumps(p, int(way[6:])))
            h.expect(text(q), text(p), 'text of the unpickled %s after %s' % (kind, hist))
            h.expect((dict(q._env._exports), q._env._cwd, q._env._interactive), (before[0], before[1], False), 'environment of the unpickled %s' % kind)
        elif way == 'subshell':
            q = e.subshell(p)
        elif way == 'pickled subshell':
            q = pickle.loads(pickle.dumps(e.subshell(p)))
        elif way == 'remote':
            q = e.remote('some.host', p)
        elif way == 'copied env':
            q = pickle.loads(pickle.dumps(e))
            q = REPORTS[kind](q, __import__('pieshell').environ.R('D:' + rep))
        for name in ('o4', 'o1', 'sub/o4', 'sub/o1'):
            if os.path.exists(h.dir + '/' + name):
                os.unlink(h.dir + '/' + name)
        got = report_of(h, lambda: h.run(q.run().wait()), rep)
        h.expect(got, want, 'what the command of %s sees, %s after %s' % (kind, way, hist))
        if way[6:].isdigit():
            q._env._exports['LEAK'] = '1'
            q._env._cd('/')
    h.expect((dict(e._exports), e._cwd, repr([p]), repr(e._redirects)), before, 'the original after %s %s' % (kind, hist))
    if getattr(h, 'bgp', None) is not None:
        fd = os.open(h.fifo, os.O_RDWR)
        os.close(keep)
        os.close(fd)
        h.run(h.bgp.wait())
        h.bgp = None
    else:
        os.close(keep)
    h.count(item)


def pickled(h, item):
    """Pickled pipelines print and run the same."""
    node, cwd, hist, mode, interactive = item
    fresh(h)
    e = environment(h, cwd, interactive=interactive)
    h.fifo = h.tmp + '/fifo'
    if 'background' in hist and not os.path.exists(h.fifo):
        os.mkfifo(h.fifo)
    keep = os.open(h.fifo, os.O_RDWR) if 'background' in hist else None
    p = lib.build(e, node)
    for x in hist:
        if x == 'self':
            h.attempt(lambda: h.run(p.run().wait()))
        elif x == 'self running':
            h.bgp2 = p.run()
        else:
            HISTORIES[x](h, e)
    if 'self running' in hist:
        data = pickle.dumps(p)
        h.attempt(lambda: h.run(h.bgp2.wait()))
    else:
        data = pickle.dumps(p)
    q = pickle.loads(data)
    h.expect(text(q), text(p), 'text of the unpickled %r after %s' % (node, hist))
    h.expect(len(q._env.running_pipelines), 0, 'running pipelines of the unpickled environment')
    if interactive:
        os.chdir(h.dir)
    observe(h, q, mode, node, 'sub' if 'cd' in hist else cwd, 'unpickled %r after %s' % (node, hist))
    observe(h, pickle.loads(pickle.dumps(q)), mode, node, 'sub' if 'cd' in hist else cwd, 'twice pickled %r after %s' % (node, hist))
    observe(h, p, mode, node, 'sub' if 'cd' in hist else cwd, '%r, after pickling it' % (node,))
    if keep is not None:
        os.close(keep)
        h.run(h.bgp.wait())
        h.bgp = None
    h.count(item)


FILED = ('redirected', 'null')


async def tagged(stdin, before='', *more, after='', **opts):
    async for line in stdin:
        yield before + line + ''.join(more) + after + ''.join('%s=%s' % x for x in sorted(opts.items()))


def numbers(stdin=None, n=2, *, step=1):
    return iter([str(i * step) for i in range(n)])


class Tag:
    def __init__(self, tag):
        self.tag = tag

    async def each(self, stdin, end='.'):
        async for line in stdin:
            yield self.tag + line + end


def parts():
    from pieshell.pipeline.function import Function as Fn
    return {
        'positional': (lambda e: e.vp('o:a/b/') | Fn(e, tagged, '<', '!', '?'), b'<a!?\n<b!?\n'),
        'keywords': (lambda e: e.vp('o:a/b/') | Fn(e, tagged, '<', after='>', x=1, y='z') | e.vp('c'), b'<a>x=1y=z\n<b>x=1y=z\n'),
        'keyword before': (lambda e: e.vp('o:a/') | Fn(e, tagged, before='(') | Fn(e, tagged, after=')'), b'(a)\n'),
        'function': (lambda e: e.vp('o:a/') | tagged | e.vp('u'), b'A\n'), 'method': (lambda e: e.vp('o:a/') | Tag('#').each, b'#a.\n'),
        'method with': (lambda e: e.vp('o:a/') | Fn(e, Tag('#').each, end='$') | e.vp('u'), b'#A$\n'),
        'source': (lambda e: Fn(e, numbers) | e.vp('c'), b'0\n1\n'), 'source with': (lambda e: Fn(e, numbers, 3, step=5) | e.vp('c'), b'0\n5\n10\n'),
        'argument': (lambda e: e.vp(e.vp('o:q/') | Fn(e, tagged, after='+')), b'q+\n'), 'group': (lambda e: e.vp('o:w/') + Fn(e, numbers, 1), [b'w\n', b'0\n']),
        'redirected': (lambda e: ('in1' | e.vp('c') | Fn(e, tagged, after='+')), b'one+\ntwo+\n'), 'list': (lambda e: ['x', 'y'] | Fn(e, tagged, '-') | e.vp('c'), b'-x\n-y\n'),
    }


def parts_names():
    return ['positional', 'keywords', 'keyword before', 'function', 'method', 'method with', 'source', 'source with', 'argument', 'group', 'redirected', 'list']


def pieces(h, item):
    """Functions and their arguments move with the pipeline."""
    kind, way, place, hist = item
    fresh(h)
    if 'remote' in way:
        remote_tools(h)
    make, want = parts()[kind]
    e = environment(h)
    p = make(e)
    if hist == 'run':
        h.attempt(lambda: h.run(p.run().wait()))
    shown = text(p)
    q = p
    for w in way:
        if w[6:].isdigit():
            q = pickle.loads(pickle.dumps(q, int(w[6:])))
            if q is not p and way[0] == w:
                h.expect(re.sub('0x[0-9a-f]+', '', text(q)), re.sub('0x[0-9a-f]+', '', shown), 'text of the unpickled %s' % kind)
        elif w == 'subshell':
            q = e.subshell(q)
        elif w == 'remote':
            q = e.remote('some.host', q)
    want = [want] if isinstance(want, bytes) else want
    if place == 'piped':
        q, want = q | e.vp('u'), [w.upper() for w in want]
    for i in range(2):
        out, k, v = lib.consume(h, q, 'bytes')
        h.expect((k, lib.matches(out, want)), ('ok', True), '%s, %s, %s (%s), run %d: %r' % (kind, way, place, hist, i, out))
    out, k, v = lib.consume(h, p, 'bytes')
    h.expect((k, lib.matches(out, parts()[kind][1] if isinstance(parts()[kind][1], list) else [parts()[kind][1]])), ('ok', True), 'the original %s after %s: %r' % (kind, way, out))
    h.count(item)


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    ns = nodes(tier)
    modes = ('bytes', 'wait')
    items = [(n, 'plain', m, 'once', '') for n in ns for m in modes] + [(n, 'plain', 'list', 'status', '') for n in ns if fails(n) and len(repr(n)) < 60]
    few = GOOD[:4] + BAD[:4] + [P(GOOD[0], GOOD[1]), P(GOOD[0], BAD[1]), P(BAD[0], GOOD[1]), G(GOOD[0], GOOD[2]), R(GOOD[0], (1, 'out1')), R(GOOD[1], (0, 'in1')), C(GOOD[0], 'o:end/')]
    places = [(n, pl) for n in few for pl in PLACES if ok(place_node(n, pl)) and not (pl == 'from list' and not c09.readers(n)) and not (pl == 'to function' and n[0] == 'G' and 0)]
    items += [(n, pl, 'wait' if pl in FILED else 'list' if pl == 'to function' else 'bytes', how, cwd) for n, pl in places for how in ('once', 'nested', 'other env', 'nested env', 'again') for cwd in ('', 'sub') if (t or not (cwd and how in ('nested', 'again'))) and not (how.endswith('env') and pl in ('from file',) + FILED)]
    items += [(n, pl, 'foreground', 'once', '') for n, pl in places if pl in ('redirected', 'stderr', 'null')]
    items += [(n, 'plain', m, how, '') for n in python_nodes() for m in modes for how in ('once', 'nested', 'again')]
    out.append(Scen('subshells', subshells, sched=False, items=[x for x in dict.fromkeys(items)], chunk=20, timeout=60))
    rn = few + [P(GOOD[0], GOOD[1], BAD[0]), R(P(GOOD[1], GOOD[1]), (0, 'in1'), (1, 'out1')), G(BAD[0], GOOD[0]), C(P(GOOD[0], GOOD[1]), 'o:x/'), GOOD[4], GOOD[5]]
    items = [(n, 'plain', 'bytes', 'once', cwd) for n in rn for cwd in ('', 'sub')]
    items += [(n, pl, 'wait' if pl in FILED else 'bytes', 'once', '') for n, pl in places if pl in ('input', 'redirected', 'from file') and n in few[:3] + few[8:10]]
    items += [(n, 'plain', 'bytes', how, '') for n in (few[0], few[4], few[9]) for how in ('options', 'subshell', 'in subshell', 'unpickled', 'other env')]
    if t:
        items += [(n, pl, 'wait' if pl in FILED else 'bytes', 'once', '') for n, pl in places] + [(n, 'plain', 'wait', 'once', '') for n in ns[::4]] + [(n, 'plain', 'bytes', how, 'sub') for n in few for how in ('options', 'subshell', 'in subshell', 'unpickled', 'other env')]
    out.append(Scen('remotes', remotes, sched=False, items=list(dict.fromkeys(items)), chunk=4, timeout=120))
    hs = [x for x in HISTORIES if x != 'suspend']
    hist = [()] + [(x,) for x in hs] + [x for x in itertools.product(hs, repeat=2) if not x.count('background') > 1 and x.count('unexport') < 2 and x.count('cd') < 2]
    fast = ('pickle0', 'pickle2', 'pickle4', 'subshell', 'pickled subshell', 'copied env')
    items = [(k, x, fast) for k in REPORTS for x in (hist if t else hist[:1 + len(hs)])] + [(k, x, fast) for k in ('args', 'redirect tables') for x in (hist if t else hist[::3])]
    items += [(k, x, ('remote',)) for k in REPORTS for x in [(), ('cd', 'export')] + ([(y,) for y in hs] if t else [])]
    items = [x for x in items if not (x[0] == 'args' and 'unexport' in x[1])]      # it uses the variable
    out.append(Scen('reports', reports, sched=False, items=list(dict.fromkeys(items)), chunk=8, timeout=120))
    ways = [()] + [('pickle%d' % i,) for i in range(6)] + [('subshell',), ('pickle2', 'subshell'), ('subshell', 'pickle4'), ('pickle0', 'pickle3'), ('subshell', 'subshell')]
    items = [(k, w, pl, x) for k in parts_names() for w in ways for pl in ('plain', 'piped') for x in ('', 'run')]
    items += [(k, w, 'plain', '') for k in parts_names() for w in [('remote',)] + [('pickle2', 'remote'), ('subshell', 'remote'), ('remote', 'pickle4'), ('remote', 'subshell')][:4 if t else 0]]
    out.append(Scen('functions', pieces, sched=False, items=items, chunk=12, timeout=100))
    h2 = ['self', 'self running', 'run', 'fail', 'background', 'cd', 'export', 'display']
    items = [(n, '', x, 'wait' if to_file(n) else 'bytes', i) for n in few for i in (False, True) for x in [()] + [(y,) for y in h2] + [z for z in itertools.permutations(h2, 2)][::1 if t else 3]]
    items += [(n, 'sub', (), 'wait', False) for n in ns]
    items = [x for x in items if not ('cd' in x[2] and 'self running' in x[2][x[2].index('cd'):])]
    out.append(Scen('pickled', pickled, sched=False, items=list(dict.fromkeys(items)), chunk=20, timeout=60))
    return out
