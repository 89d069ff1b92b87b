"""C03: failure is reported exactly when a member failed."""
import asyncio, os, signal
from ..explore import Scen
from .. import lib

ASSUMPTIONS = ['schedules: all with at most `deviation_bound` departures from each of the listed base policies',
               'for a member killed by a signal the reported status may be the number of the signal, its negative, or 128 more']
C, I, F, P, G, R, X = [lambda *a, k=k: (k,) + a for k in 'CIFPGRX']


def outcome(node, redirects=()):
    """How a leaf ends: 0, ('x', status), ('k', signal), ('s',) cannot start, ('e', type)."""
    if any(r[1] and '/' in str(r[1]) and r[1].startswith('nodir') for r in redirects):
        return ('s',)
    if node[0] == 'X':
        return ('s',)
    if node[0] == 'C':
        for a in node[1:]:
            if isinstance(a, tuple):
                continue
            f = a.split(':')
            if f[0] == 'x':
                return ('x', int(f[1])) if int(f[1]) else 0
            if f[0] == 'k':
                return ('k', int(f[1]))
            if f[0] == 'K':
                return ('k', 11)
        return 0
    if node[0] == 'F' and node[1].startswith('raisex'):
        return ('e', lib.Boom)
    return {'raise0': ('e', lib.Boom), 'raise': ('e', lib.Boom), 'raisecoro': ('e', lib.Boom), 'raiseread': ('e', lib.Boom), 'araise': ('e', lib.Boom)}.get(node[1], 0)


def leaves(node, redirects=()):
    k = node[0]
    if k == 'C':
        for a in node[1:]:
            if isinstance(a, tuple):
                yield from leaves(a[2] if a[0] == 'kw' else a)
        yield node, redirects
    elif k in 'IFXY':
        yield node, redirects
    elif k == 'R':
        yield from leaves(node[1], redirects + node[2:])
    else:
        for a in node[1:]:
            yield from leaves(a, redirects)


def agrees(proc, want):
    if want == 0:
        return not proc.is_failed
    if not proc.is_failed:
        return False
    if want[0] == 'e':
        return isinstance(proc.exception, want[1]) or isinstance(proc.iohandler.exception, want[1])
    c = proc.exit_code
    if want[0] == 's':
        return bool(c)
    if want[0] == 'x':
        return c == want[1]
    return c in (want[1], -want[1], 128 + want[1])


def verify(h, node, r, kind, exc, what):
    """r: the running pipeline."""
    from pieshell.pipeline import running
    exp = [outcome(*l) for l in leaves(node)]
    fails = any(exp)
    if kind != ('failed' if fails else 'ok'):
        h.problem('%s of %r: %s %s, should have %s' % (what, node, kind, short(exc), 'failed' if fails else 'succeeded'))
    if r is None:
        return
    if len(r.processes) != len(exp):
        return h.problem('%r has %d members, should be %d' % (node, len(r.processes), len(exp)))
    bad = [i for i, (p, w) in enumerate(zip(r.processes, exp)) if not agrees(p, w)]
    for i in bad:
        p = r.processes[i]
        h.problem('member %d of %r: failed %s, exit code %s, should be %s' % (i, node, p.is_failed, getattr(p, 'exit_code', None), exp[i]))
    fp = [i for i, p in enumerate(r.processes) if any(p is q for q in r.failed_processes)]
    if fp != [i for i, w in enumerate(exp) if w] or len(r.failed_processes) != len(fp):
        h.problem('failed members of %r: %s, should be %s' % (node, fp, [i for i, w in enumerate(exp) if w]))
    if bool(r.is_failed) != fails:
        h.problem('is_failed of %r is %s' % (node, r.is_failed))
    if r.is_running:
        h.problem('%r says it is running after it was waited for' % (node,))
    last = exp[-1]
    if last == 0 and r.exit_code != 0 or isinstance(last, tuple) and last[0] in 'xks' and not r.exit_code:
        h.problem('exit code of %r is %s though its last member ended with %s' % (node, r.exit_code, last))
    if kind == 'failed':
        if exc.pipeline is not r:
            h.problem('the exception of %r does not carry its pipeline' % (node,))
        try:
            text = str(exc)
        except BaseException as e:
            return h.problem('the failure message of %r cannot be printed: %s %s' % (node, type(e).__name__, e))
        for (n, _), w in zip(leaves(node), exp):
            if w and n[0] in 'CX' and isinstance(n[-1], str) and n[-1] not in text:
                h.problem('the failure message of %r does not name %r:\n%s' % (node, n, text))
            for t in n[1:] if w and n[0] == 'C' else ():
                # stderr is captured in all of those that use eh
                shown = bytes.fromhex(t[3:]).decode('latin-1') if isinstance(t, str) and t[:3] == 'eh:' else ''
                if shown.isprintable() and shown.isascii() and shown not in text:
                    h.problem('the failure message of %r does not show what was captured, %r:\n%s' % (node, shown, text))
            if w and w[0] == 'e' and 'Boom' not in text:
                h.problem('the failure message of %r does not name the exception:\n%s' % (node, text))


def short(e):
    from ..harness import short
    return short(e, 200)


def finish(h, e, p, mode):
    """Run p in some way: (running pipeline, kind, exception)."""
    from pieshell import redir
    runs = []

    def start(*redirects):
        r = p.run(list(redirects))
        runs.append(r)
        return r
    n = len(e.__dict__.get('_seen', ()))
    if mode == 'foreground':
        k, v = h.attempt(p.run_interactive)
        r = v.pipeline if k == 'failed' else v
    elif mode == 'wait':
        k, v = h.attempt(lambda: h.run(start().wait()))
    elif mode == 'await':
        async def f():
            await p
        k, v = h.attempt(lambda: h.run(f()))
        runs.append(v.pipeline if k == 'failed' else None)
    elif mode in ('list', 'bytes', 'str', 'next'):
        got, k, v = lib.consume(h, p, mode)
        runs.append(v.pipeline if k == 'failed' else None)
    elif mode == 'iter':
        async def f():
            async for x in start(redir.Redirect('stdout', redir.PIPE)):
                pass
        k, v = h.attempt(lambda: h.run(f()))
    elif mode == 'iterbytes':
        async def f():
            async for x in start(redir.Redirect('stdout', redir.PIPE)).iterbytes():
                pass
        k, v = h.attempt(lambda: h.run(f()))
    else:
        raise ValueError(mode)
    if mode == 'foreground':
        runs.append(r)
    return runs[-1], k, v


def sched(h):
    h.write_file('in', b'one\ntwo\n')
    e = h.env()
    node, mode = h.p['node'], h.p['mode']
    p = lib.build(e, node, [])
    orig = type(e).__dict__
    started = []

    def monitor():
        """A member that has not ended is not counted as failed."""
        for r in list(e.running_pipelines):
            for q in r.processes:
                if q.is_running and (q.is_failed or any(q is x for x in r.failed_processes)):
                    h.problem('%r counts as failed while it is running' % q)
                    h.ctl.monitor = None
                pid = getattr(q.iohandler, 'pid', None)
                if pid in h.ctl.bypid and h.ctl.bypid[pid].state != 'dead' and (not q.is_running or any(q is x for x in r.failed_processes)):
                    h.problem('command P%d counts as ended or failed before it has ended' % h.ctl.bypid[pid].idx)
                    h.ctl.monitor = None
    h.ctl.monitor = monitor
    h.ctl.events = [tuple(x) for x in h.p.get('events', ())]
    if h.p.get('stop') is not None:
        i = h.p['stop']
        h.ctl.events = [('sig:%d:19' % i, lambda: len(h.ctl.procs) > i and h.ctl.procs[i].state == 'live'),
                        ('sig:%d:18' % i, lambda: len(h.ctl.procs) > i and h.ctl.procs[i].state == 'stopped', True)]
    r, k, v = finish(h, e, p, mode)
    h.ctl.monitor = None
    verify(h, node, r, k, v, mode)
    h.obs['k'] = k


def free(h, item):
    node, mode = item
    if not hasattr(h, 'ready'):
        h.write_file('in', b'one\ntwo\n')
        h.ready = True
    e = h.env()
    r, k, v = finish(h, e, lib.build(e, node, []), mode)
    verify(h, node, r, k, v, mode)
    h.count((node, mode))


W = os.O_WRONLY | os.O_CREAT
OK, BAD = C('c'), C('c', 'x:3')
NODES = [
    BAD, C('o:a/'), C('k:15'), C('K'), X('nosuchcommand'), R(C('o:a/'), (1, 'nodir/f')), R(C('c'), (0, 'nodir/f')),
    P(C('o:a/', 'x:2'), OK), P(C('o:a/'), BAD), P(C('o:a/', 'x:2'), BAD), P(C('o:a/', 'k:9'), OK, C('c')), P(C('o:a/'), OK, C('c', 'k:11')),
    P(X('nosuchcommand'), OK), P(C('n'), X('nosuchcommand')), P(C('o:a/', 'x:0'), OK),
    G(C('o:a/', 'x:1'), C('o:b/')), G(C('o:a/'), C('o:b/', 'x:1')), G(C('o:a/'), C('o:b/')), G(C('x:1'), C('k:2')),
    P(G(C('o:a/', 'x:7'), C('o:b/')), OK), P(C('o:a/'), F('up')), P(C('o:a/', 'x:9'), F('up')), P(C('o:a/'), F('raise', 1)), P(F('raise0'), OK),
    P(F('raise', 2), OK), P(C('n'), F('raisecoro')), P(C('n'), F('raise0')), P(C('o:a/b/'), F('raiseread', 1)), P(I('araise', ['a']), OK), P(I('list', ['a']), BAD),
    P(C('n', 'x:1'), F('raise', 0)), C(C('o:a/', 'x:4')), C(C('o:a/'), 'x:4'), C(I('araise', ['a'])), C(P(C('o:a/', 'k:15'), C('c'))),
    P(C('o:a/'), C(F('sink'), 'c', 'x:6')), P(C('o:a/', 'x:255'), C('c', 'n', 'n')), P(C('n', 'n', 'x:1'), C('n'), C('n')),
    R(P(C('c'), C('c', 'x:8')), (0, 'in')), P(F('list', ['a']), F('raise', 1)), G(F('raise', 1), F('list', ['b'])),
]
MODES = ['foreground', 'wait', 'list', 'iter', 'bytes', 'await', 'next', 'iterbytes', 'str']
SAFE = ('foreground', 'wait', 'await')


def statuses(tier):
    sig = [s for s in range(1, 32) if s not in (17, 18, 19, 20, 21, 22, 23, 28)]
    ways = [('x:%d' % i,) for i in range(256)] + [('k:%d' % s,) for s in sig] + [()]
    out = []
    for i, w in enumerate(ways):
        for j, m in enumerate(MODES):
            if tier == 'thorough' or (i + j) % 9 == 0:
                out.append((C('o:a/', *w), m))
            if tier == 'thorough' or (i + j) % 9 == 4:
                out.append((P(C('o:a/', *w), OK), m))
    few = [(), ('x:1',), ('x:126',), ('x:255',), ('k:13',), ('k:9',), ('k:34',), None]
    import itertools
    for ws in itertools.product(few, repeat=3):
        cs = [X('nosuchcommand') if w is None else C('s', *w) for w in ws]
        i = hash(str(ws)) if False else len(str(ws))
        ms = MODES if tier == 'thorough' else [MODES[i % 9]]
        for m in ms:
            out.append((P(R(cs[0], (0, 'in')), *cs[1:]), m))
            out.append((G(*[R(c, (0, 'in')) for c in cs]), m))
            out.append((P(R(cs[0], (0, 'in')), F('id'), cs[1], F('up'), cs[2]) if None not in ws[1:] else G(cs[0], P(R(cs[1], (0, 'in')), cs[2])), m))
    fn = [F('id'), F('raise', 0), F('raise', 2), F('raise0'), F('raisecoro'), F('raiseread', 1), F('cnt'), F('sink'), F('int'), F('list', ['x'])]
    for f in fn:
        for w in few[:3] + [('k:9',)]:
            for m in (MODES if tier == 'thorough' else MODES[len(str(f)) % 4::4]):
                if f[1] in ('raise0', 'raisecoro', 'raiseread', 'int', 'list', 'raise'):
                    src = C(*(w or ('n',)))       # writes nothing, so does not notice that nobody reads
                else:
                    src = C('o:a/b/', *w)
                out += [(P(src, f), m), (P(src, f, C('c')), m), (P(R(C('c', *w), (0, '/dev/null')), f, C('c', 'x:5')), m)]
    # functions raising anything
    ks = ('raisex0', 'raisexcoro', 'raisex', 'raisexread')
    for i, x in enumerate(lib.EXCS):
        for j, k in enumerate(ks):
            for n in (P(C('n'), F(k, x)), P(C('n'), F(k, x), C('c')), G(P(C('n'), F(k, x)), C('n', 'x:3')), P(C('n', 'x:4'), F(k, x), C('c', 'x:5'))):
                out += [(n, m) for l, m in enumerate(MODES) if tier == 'thorough' or (i + j + l) % 9 == 0]
    # what was captured is part of the message
    for t in ('e:err/', 'eh:ff', 'eh:00ff0a', 'eh:c3a9', 'eh:c3', 'eh:2573257b7d', 'eh:'):
        h = t.split(':')[1] if t[1] == 'h' else '6162'
        for fds in ((), (3,), (2, 3), (7, 2, 3)):
            c = C(t, *['wh:%d:%s' % (fd, h) for fd in fds if fd != 2], 'x:1')
            for n in (R(c, *[(fd, 'STRING', W) for fd in fds]) if fds else c, P(c, OK) if not fds else P(R(c, *[(fd, 'STRING', W) for fd in fds]), BAD)):
                out += [(n, m) for l, m in enumerate(MODES) if tier == 'thorough' or (len(t) + len(fds) + l) % 5 == 0]
    return out


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for i, n in enumerate(NODES):
        for j, m in enumerate(MODES):
            if n == NODES[5] and m not in SAFE:
                continue
            if not t and (i + j) % 4:
                continue
            out.append(Scen('fail %d %s' % (i, m), sched, node=n, mode=m, bound=1, cap=400 if t else 40, backend='asyncio' if (i + j // 4) % 5 == 4 else 'signalfd',
                            policies=('loop', 'procs', 'fine', 'finep', 'last', 'procslast') if t else ('loop', 'finep', 'procslast')))
    for i, (n, w) in enumerate([(P(C('n', 'n'), C('n')), 0), (P(C('n', 'n', 'x:1'), C('n')), 0), (P(C('n'), C('n', 'n')), 1), (G(C('n'), C('n', 'n', 'k:9')), 1)]):
        out.append(Scen('stopped %d' % i, sched, node=n, mode='wait', stop=w + 0, bound=2, cap=1500 if t else 80))
    out.append(Scen('statuses', free, sched=False, items=statuses(tier), chunk=25, timeout=90))
    return out
