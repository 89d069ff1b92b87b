"""C06: no amount of data and no early stop can block a pipeline."""
import asyncio, os
from ..explore import Scen
from .. import lib
from . import c03

ASSUMPTIONS = ['schedules: all with at most `deviation_bound` departures from each of the listed base policies',
               'in the scenarios named "small" every pipe holds one page (4096 bytes) only, in the others the usual 65536',
               'a pipeline is blocked if the controlled world can make no further step, or makes no end of steps, though every command would come to an end']
C, I, F, P, G, R, X = [lambda *a, k=k: (k,) + a for k in 'CIFPGRX']
CAP = 4096


def small_pipes():
    import fcntl
    orig = os.pipe

    def pipe():
        r, w = orig()
        fcntl.fcntl(w, 1031, CAP)
        return r, w
    os.pipe = pipe


def function(kind, par):
    """Functions and iterators that do not end on their own."""
    if kind == 'endless':
        async def f():
            i = 0
            while True:
                i += 1
                yield 'e%d' % i + '.' * par
                if i % 50 == 0:
                    await asyncio.sleep(0)
        return f()
    if kind == 'endlesslist':
        import itertools
        return ('i%d' % i + '.' * par for i in itertools.count())
    if kind == 'gen':
        async def f(stdin):
            i = 0
            while True:
                i += 1
                yield 'g%d' % i + '.' * par
        return f
    if kind == 'noread':              # never touches its input
        async def f(stdin):
            yield 'done'
        return f
    if kind == 'noreadcoro':
        async def f(stdin):
            return 'done'
        return f
    if kind == 'noreadplain':
        def f(stdin):
            return ['done']
        return f
    if kind == 'first':
        async def f(stdin):
            async for line in stdin:
                return line
        return f
    if kind == 'each':                # an item of par bytes per line
        async def f(stdin):
            async for line in stdin:
                yield line[:1] * par
        return f
    raise ValueError(kind)


def build(e, node):
    if isinstance(node, tuple) and node and node[0] == 'Z':
        return ('Y', function(node[1], node[2]))
    if isinstance(node, tuple):
        return tuple(build(e, x) if isinstance(x, tuple) else x for x in node)
    return node


def blocked(h):
    if h.p.get('small'):
        small_pipes()
    h.write_file('in', b'i1\ni2\n')
    h.write_file('big', lib.pattern(3 * CAP + 17, 450))
    e = h.env()
    node, mode, want = h.p['node'], h.p['mode'], h.p.get('want')
    p = lib.build(e, build(e, node), [])
    if mode in ('aiter', 'list', 'bytes', 'str', 'next', 'iterb', 'aslow', 'raiter'):
        got, k, v = lib.consume(h, p, mode)
    elif mode.startswith('take'):
        got = b''

        async def go():
            nonlocal got
            from pieshell import redir
            r = p.run([redir.Redirect('stdout', redir.PIPE)])
            it = r.__aiter__()
            for i in range(int(mode[4:])):
                got += (await it.__anext__()).encode() + b'\n'
            it.destroy()
            await r.wait()
        k, v = h.attempt(lambda: h.run(go()))
    elif mode == 'fore':
        k, v = h.attempt(p.run_interactive)
        got = h.console()
    else:                              # a file
        k, v = h.attempt(p.run_interactive)
        got = h.read_file(mode)
    if k not in ('ok', 'failed'):
        h.problem('%s of %r: %s %s' % (mode, node, k, v))
    if k == 'failed' and h.p.get('ok'):
        h.problem('%s of %r failed: %s' % (mode, node, v))
    if want and mode in lib.LINE_MODES and not want.endswith(b'\n'):
        want += b'\n'
    if want is not None and got != want and (k == 'ok' or mode not in ('bytes', 'str')):
        h.problem('%s of %r gave %r, should be %r' % (mode, node, got[:300], want[:300]))
    h.obs['got'] = (k, len(got))
    if h.unended():
        h.problem('%s of %r: commands %s still run' % (mode, node, h.unended()))


Z = lambda k, n=0: ('Z', k, n)
Y = lambda n=63: C('y:%s/' % ('y' * n))


def cases():
    """(node, mode, expected output or None, must succeed)"""
    pat = lib.pattern
    N = 3 * CAP + 17
    big = 'O:%d:450:%d' % (N, CAP)
    lines = [x.decode() for x in lib.lines(pat(N, 500))]
    whole = lib.unlines(lib.lines(pat(N, 450)))
    out = [
        # much data
        (P(C(big), C('c')), 'bytes', pat(N, 450), True),
        (P(C(big), F('id')), 'bytes', whole, True),
        (P(C(big), F('id'), C('c')), 'bytes', whole, True),
        (P(C(big), F('id'), F('id')), 'bytes', whole, True),
        (P(C(big), C(F('sink'))), 'bytes', b'', True),
        (P(I('list', lines), C('c')), 'bytes', lib.unlines(lib.lines(pat(N, 500))), True),
        (P(I('list', lines), F('id'), C('c')), 'bytes', lib.unlines(lib.lines(pat(N, 500))), True),
        (C(I('list', lines)), 'bytes', lib.unlines(lib.lines(pat(N, 500))), True),
        (P(I('list', ['L' * N]), C('c')), 'bytes', b'L' * N + b'\n', True),
        (P(I('list', ['L' * N]), F('id')), 'list', b'L' * N + b'\n', True),
        (P(I('list', ['L' * N]), F('ex'), C('c')), 'aiter', b'L' * N + b'!\n', True),
        (P(C('o:' + 'm' * 2 + '/'), Z('each', N), C('c')), 'bytes', b'm' * N + b'\n', True),
        (P(C('o:a/b/c/'), Z('each', CAP)), 'bytes', b''.join(c * CAP + b'\n' for c in (b'a', b'b', b'c')), True),
        (P(C('O:%d:%d' % (N, N)), F('ex')), 'bytes', lib.lines(pat(N, N))[0] + b'!\n', True),
        (G(C(big), C(big)), 'bytes', None, True),
        (P(G(C(big), I('list', lines)), C('s')), 'bytes', b'', True),
        (P(G(C(big), I('list', lines)), C('c')), 'bytes', None, True),
        (P(G(I('list', lines), C(big)), C('c'), F('id')), 'bytes', None, True),
        (P(C('o:a/b/c/'), G(C('c'), Z('each', CAP - 1)), C('c'), F('id')), 'bytes', None, True),
        (C(C(big), 'o:z/'), 'bytes', pat(N, 450) + b'z\n', True),
        (C(C(big), C(big)), 'bytes', pat(N, 450) * 2, True),
        (C(I('list', lines), 'n', C(big)), 'bytes', lib.unlines(lib.lines(pat(N, 500))) + pat(N, 450), True),
        (C('W:2:%d:450' % N, big), 'bytes', pat(N, 450), True),
        (P(I('list', ['l1', 'l2', 'l3']), G(F('id'), C('c'))), 'bytes', None, True),
        (P(I('slow', ['l1', 'l2', 'l3']), G(C('c'), F('id'), F('up')), C('c')), 'bytes', None, True),
        (P(C('o:a/', 'n', 'o:b/'), G(F('id'), C('c'))), 'bytes', None, True),
        # early stops
        (P(Y(), C('r:1')), 'list', b'', False),
        (P(Y(), C('t:5')), 'list', b'yyyyy', False),
        (P(Y(), C('c'), C('t:5')), 'list', b'yyyyy', False),
        (P(Y(), C('n', 'o:k/')), 'list', b'k\n', False),
        (P(Y(), C('q:0', 'o:k/')), 'list', b'k\n', False),
        (P(Y(), F('take', 2)), 'list', (b'y' * 63 + b'\n') * 2, False),
        (P(Y(), F('take', 0), C('c')), 'list', b'', False),
        (P(Y(), C('c'), F('take', 1), C('c')), 'list', b'y' * 63 + b'\n', False),
        (P(Y(), F('id'), F('take', 1)), 'list', b'y' * 63 + b'\n', False),
        (P(Y(), Z('noread')), 'list', b'done\n', False),
        (P(Y(), Z('noreadcoro')), 'list', b'done\n', False),
        (P(Y(), Z('noreadplain')), 'list', b'done\n', False),
        (P(Y(), Z('first')), 'list', b'y' * 63 + b'\n', False),
        (P(Y(), F('raise', 1)), 'fore', None, False),
        (P(Y(), F('raise0'), C('c')), 'fore', None, False),
        (P(Y(), F('raiseread', 2), C('c')), 'fore', None, False),
        (P(Z('endless', 60), C('r:1')), 'list', b'', False),
        (P(Z('endless', 60), C('t:3')), 'list', b'e1.', False),
        (P(Z('endless', 60), F('take', 1)), 'list', b'e1' + b'.' * 60 + b'\n', False),
        (P(Z('endlesslist', 60), C('t:3')), 'list', b'i0.', False),
        (P(Z('endlesslist', 60), F('id'), C('t:3')), 'list', b'i0.', False),
        (P(C('n'), Z('gen', 60), C('t:3')), 'list', b'g1.', False),
        (P(Y(), F('id'), C('t:3')), 'list', b'yyy', False),
        (C(Z('endlesslist', 60), 'x:0'), 'take1', b'i0' + b'.' * 60 + b'\n', False),
        (C('x:0', Z('endlesslist', 60)), 'list', b'', False),
        (C('x:0', Y()), 'list', b'', False),
        (C('o:k/', 'x:0', P(Y(), F('id'))), 'list', b'k\n', False),
        (P(C('o:k/', 'x:0', F('sink')), C('c')), 'list', b'k\n', False),
        (P(G(Y(), Y()), C('r:1')), 'list', b'', False),
        (P(G(Y(), Z('endless', 60)), C('r:1', 'o:k/')), 'list', b'k\n', False),
        (P(Y(), C('k:9')), 'fore', None, False),
        (P(Y(), C('k:15'), F('id')), 'fore', None, False),
        (P(Y(), X('nonexistent_command')), 'fore', None, False),
        (P(Z('endless', 60), X('nonexistent_command')), 'fore', None, False),
        (P(Y(), X('nonexistent_command'), C('c')), 'fore', None, False),
        (P(X('nonexistent_command'), C('c')), 'fore', None, False),
        (P(X('nonexistent_command'), F('id'), C('c')), 'fore', None, False),
        (Y(), 'take1', b'y' * 63 + b'\n', False),
        (P(Y(), C('c')), 'take2', (b'y' * 63 + b'\n') * 2, False),
        (P(Y(), F('id')), 'take2', (b'y' * 63 + b'\n') * 2, False),
        (P(Z('endless', 60), C('c')), 'take1', b'e1' + b'.' * 60 + b'\n', False),
        (P(Y(), F('id'), C('c')), 'take1', b'y' * 63 + b'\n', False),
        # files and devices
        (R(P(C('o:a/b/'), F('ex')), (1, 'out')), 'out', b'a!\nb!\n', True),
        (R(P(C('o:a/b/'), F('ex')), (1, None)), 'fore', b'', True),
        (R(P(F('ex'), C('c')), (0, 'in')), 'bytes', b'i1!\ni2!\n', True),
        (R(P(F('ex'), C('c')), (0, None)), 'bytes', b'', True),
        (R(F('id'), (0, 'big')), 'bytes', whole, True),
        (R(R(F('id'), (0, 'big')), (1, 'out')), 'out', whole, True),
        (R(R(F('ex'), (0, 'in')), (1, None)), 'fore', b'', True),
        (R(P(R(F('id'), (0, 'big')), C('c')), (1, 'out')), 'out', whole, True),
        (R(F('take', 1), (0, 'big')), 'bytes', lib.lines(pat(N, 450))[0] + b'\n', True),
        (R(I('list', lines), (1, 'out')), 'out', lib.unlines(lib.lines(pat(N, 500))), True),
        (R(I('list', lines), (1, None)), 'fore', b'', True),
        (R(G(F('ex'), C('n')), (0, 'in')), 'bytes', b'i1!\ni2!\n', True),
        (R(C('c'), (0, 'big')), 'bytes', pat(N, 450), True),
        (R(C(big), (1, 'out')), 'out', pat(N, 450), True),
        (R(R(C('c'), (0, 'big')), (1, 'out')), 'out', pat(N, 450), True),
        (R(P(C('c'), C('u')), (0, 'in'), (1, 'out')), 'out', b'I1\nI2\n', True),
        (P(C('n'), F('list', ['a'])), 'fore', b'a\n', True),
        (F('ex'), 'fore', b'', True),       # standard input is /dev/null
        (P(F('ex'), C('c')), 'bytes', b'', True),
    ]
    return out


def sizes(tier):
    """Free running: every kind of connection with every size around the capacity of a pipe."""
    ns = [0, 1, CAP - 1, CAP, CAP + 1, 65535, 65536, 65537, 70000, 131072, 200000]
    if tier == 'thorough':
        ns += [2, 1023, 1024, 1025, 2 * CAP - 1, 2 * CAP, 2 * CAP + 1, 32768, 61440, 61441, 65536 + CAP, 131071, 131073, 300000, 1000000]
    out = []
    for n in ns:
        o = C('O:%d:%d' % (n, n or 1))          # one line
        m = C('O:%d:64' % n)
        it = ('I1', n)
        for node in [P(o, C('c')), P(o, F('id')), P(o, F('id'), C('c')), P(m, F('id'), F('ex'), C('c')), P(it, C('c')), P(it, F('id')), P(it, F('ex'), C('c')), C(o), C(it), C(m, it),
                     P(m, C(F('sink'))), P(it, C('c'), F('cnt')), G(o, m), G(it, it), P(G(m, it), C('c'), F('id')), C('W:2:%d:64' % n), P(C('W:2:%d:64' % n), F('id')),
                     P(m, C('t:1')), P(m, F('take', 1)), P(it, C('r:1')), P(it, C('n')), P(m, C('n')), P(m, C('c'), C('n')), P(m, F('id'), C('n')), C('n', m), C('n', it), C('x:0', m), C('x:0', it),
                     R(P(m, F('id')), (1, 'out')), R(it, (1, 'out')), P(o, X('nonexistent_command')), P(it, X('nonexistent_command')), C(F('sink')), P(m, G(C('s'), C('s')))]:
            for mode in ('fore', 'bytes', 'aiter'):
                if mode != 'fore' and node[0] == 'R':
                    continue
                out.append((node, mode))
    return out


def sized(h, item):
    node, mode = item

    def sub(x):
        if not isinstance(x, tuple):
            return x
        if x and x[0] == 'I1':
            return ('I', 'list', ['q' * x[1]])
        return tuple(sub(y) for y in x)
    if not hasattr(h, 'e'):
        h.e = h.env()
    p = lib.build(h.e, sub(node), [])
    if mode == 'fore':
        k, v = h.attempt(p.run_interactive)
    else:
        got, k, v = lib.consume(h, p, mode)
    if k not in ('ok', 'failed'):
        h.problem('%s of %r: %s %s' % (mode, node, k, v))
    h.count(item)


WRITERS = ['while :; do echo x; done', 'yes x', 'cat /dev/zero | tr "\\\\0" x | fold', 'perl -e "while(1){print qq(x\\n)}"', 'while :; do echo x; done | cat', '(while :; do echo x; done); echo y >&2', 'yes x | while read x; do echo $x; done', 'yes xx | dd bs=7 status=none',
           'sleep 0.05 & wait; echo done', '{ sleep 0.05 & wait; } & wait; echo done', '{ { sleep 0.05 & wait $!; } & wait $!; echo done; }', "trap 'echo child' CHLD; true; (sleep 0.02) & wait $!; wait; echo done",
           'perl -e \'$SIG{CHLD}=sub{print "chld\\n"; exit}; if(!fork()){exit} sleep 10\'', 'sh -c "kill -PIPE \\$\\$"; echo $?', 'echo a; echo b', 'seq 1 20000', 'printf abc', 'trap "" PIPE; echo a; echo b', 'bash -c "sleep 0.02 & wait -n; echo done"']
READERS = ['head -1', 'head -c 3', 'true', 'read x; echo $x', 'sed 1q', 'perl -ne "print; exit"', 'exec <&-; sleep 0.02; echo k', 'grep -q x', 'cat', 'cat; echo e', 'tail -1', 'head -1 | cat', 'tail -n +2 | head -1']


def scripts(h, item):
    """Ordinary programs, that rely on the signals they are started with: compared with what an ordinary shell makes of them."""
    import subprocess, signal
    w, r, mid = item
    e = h.env()
    ref = subprocess.Popen(['/bin/bash', '-c', '\n'.join(['sh -c "$1" < /dev/null | sh -c "$2"', 'sh -c "$1" </dev/null | cat | sh -c "$2"', 'sh -c "$1" </dev/null'][mid:mid + 1]), 'x', w, r],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=lambda: signal.signal(signal.SIGPIPE, signal.SIG_DFL))
    want = ref.communicate(timeout=20)[0]
    from pieshell import environ
    a = None | e._('sh', '-c', environ.R(w))
    b = e._('sh', '-c', environ.R(r))
    p = a | b if mid == 0 else a | e.cat | b if mid == 1 else a
    if mid == 3:
        async def take(stdin):
            async for x in stdin:
                yield x
                return
        p = a | take
        want = want[:want.find(b'\n') + 1] if b'\n' in want else want

    out = []

    async def consume():
        async for x in p.run([__import__('pieshell').Redirect('stdout', __import__('pieshell').PIPE)]).iterbytes():
            out.append(x)
    from ..explore import end_session
    late = []

    def hangs(*a):
        late.append(1)
        end_session()
    signal.signal(signal.SIGALRM, hangs)
    signal.setitimer(signal.ITIMER_REAL, 8)
    try:
        k, got = h.attempt(lambda: h.run(consume()))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if late:
        h.problem('%r does not end' % (item,))
        return
    if k not in ('ok', 'failed'):
        h.problem('%r: %s %s' % (item, k, got))
    
    else:
        h.expect(b''.join(out), want, 'output of %r' % (item,))
    h.count(item)


def script_items():
    finite = [w for w in WRITERS[8:] if 'PIPE; echo' not in w]
    out = [(w, r, m) for w in WRITERS for r in READERS[:8] for m in (0, 1)] + [(w, r, m) for w in finite for r in READERS[8:] for m in (0, 1)] + [(w, '', 2) for w in WRITERS[8:]]
    # commands that would go on without output, or end at some time
    return [x for x in out if not (x[0].startswith('(while') or 'yes x |' in x[0] and 'done' in x[0]) or x[2] < 2]


def socket(h, item):
    """Output to a socket that the program itself reads."""
    import socket, signal, asyncio
    import pieshell
    n, kind = item
    if not hasattr(h, 'e'):
        h.e = h.env()
    a, b = socket.socketpair()
    a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4608)
    node = {'iterator': ('I', 'list', ['q' * n]), 'function': P(C('O:%d:%d' % (n, n or 1)), F('id')), 'lines': P(C('O:%d:64' % n), F('id')), 'command': C('O:%d:64' % n), 'group': G(P(C('O:%d:%d' % (n, n or 1)), F('id')), P(C('O:%d:%d' % (n, n or 1)), F('id')))}[kind]
    p = lib.build(h.e, node, [])
    got = []
    loop = asyncio.get_event_loop()
    loop.add_reader(b.fileno(), lambda: got.append(b.recv(1000)))

    def hangs(*a):
        raise TimeoutError('hangs')

    async def go():
        r = p.run([pieshell.Redirect(1, a.fileno(), borrowed=True)])
        await r.wait()
    old = signal.signal(signal.SIGALRM, hangs)
    signal.setitimer(signal.ITIMER_REAL, 20)
    try:
        k, v = h.attempt(lambda: h.run(go()))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    loop.remove_reader(b.fileno())
    a.close()
    while True:
        d = b.recv(65536)
        if not d:
            break
        got.append(d)
    b.close()
    want = lib.Meaning({}).of(node)
    if k != 'ok':
        h.problem('output of %r to a socket: %s %s' % (item, k, v))
    elif kind == 'group':
        # The parts of the two outputs may come in any order.
        if sorted(b''.join(got)) != sorted(b''.join(want)):
            h.problem('output of %r to a socket is wrong: %d bytes' % (item, len(b''.join(got))))
    elif not lib.matches(b''.join(got), want):
        h.problem('output of %r to a socket is wrong: %d bytes' % (item, len(b''.join(got))))
    h.count(item)


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for i, (n, m, want, ok) in enumerate(cases()):
        pol = ('loop', 'procs', 'fine', 'finep', 'last', 'procslast', 'starve0', 'starve1')
        out.append(Scen('small %d %s' % (i, m), blocked, node=n, mode=m, want=want, ok=ok, small=True, bound=2 if t else 1, cap=int(os.environ.get('CAP', 0)) or (1200 if t else 160 if "'G'" in repr(n) and ok else 40), policies=pol if t else pol[:4:3] + pol[5:7]))
        if t and i % 2:
            out.append(Scen('usual %d %s' % (i, m), blocked, node=n, mode=m, want=want, ok=ok, bound=1, cap=60, policies=pol[:2]))
    for b in ('signalfd', 'asyncio'):
        out.append(Scen('scripts ' + b, scripts, sched=False, backend=b, items=[x for x in script_items() if t or x[2] != 1 or len(x[1]) < 7], chunk=10, timeout=100))
    out.append(Scen('socket', socket, sched=False, items=[(n, k) for n in (0, 1, 100, 4095, 4097, 20000) + ((100000, 300000) if t else ()) for k in ('iterator', 'function', 'lines', 'command', 'group')], chunk=3, timeout=60))
    out.append(Scen('sizes', sized, sched=False, items=sizes(tier), chunk=20, timeout=100))
    return out
