"""C08: suspending, resuming, background and interrupt act on the right pipeline."""
import asyncio, os
from ..explore import Scen
from .. import lib
from . import c03

ASSUMPTIONS = ['schedules and moments of the user requests: all with at most `deviation_bound` departures from each of the listed base policies; a request can come at every poll of the event loop',
               'an interrupt reaches the shell as a KeyboardInterrupt raised while it waits for events (as from a signal handler), with (CtrlC+) or without (CtrlC) SIGINT to the commands']
C, I, F, P, G, R, X = [lambda *a, k=k: (k,) + a for k in 'CIFPGRX']
STOPS = (19, 20)


def pids(r):
    return [q.iohandler.pid for q in r.processes if hasattr(q.iohandler, 'pid')]


def members(h, r):
    return [h.ctl.bypid[p] for p in pids(r)]


def check_kills(h, rs, stopped, start=0):
    """Signals only went to live commands of the pipelines concerned."""
    for bad in h.ctl.badkills:
        h.problem('signal %s sent to %s' % (bad[1], bad[0]))
    allowed = {p.idx for r in rs for p in members(h, r)}
    stoppable = {p.idx for r in stopped for p in members(h, r)}
    for idx, signo, state in h.ctl.kills[start:]:
        if signo in STOPS and idx not in stoppable:
            h.problem('P%d was sent signal %d though its pipeline was not asked to stop' % (idx, signo))
        if idx not in allowed:
            h.problem('P%d was sent signal %d, it is not of the pipeline concerned' % (idx, signo))
        if signo not in (18, 19, 20):
            h.problem('P%d was sent signal %d' % (idx, signo))


def suspended(h, e, exc, what, others=()):
    from pieshell.pipeline import running
    r = exc.pipeline
    if not isinstance(r, running.RunningPipeline):
        h.problem('%s: the exception carries %r' % (what, r))
        return None
    try:
        str(exc)
    except Exception as x:
        h.problem('%s: the message cannot be printed: %r' % (what, x))
    return r


def all_stopped(h, r, what):
    for p in members(h, r):
        if p.state == 'live':
            h.problem('%s: P%d is still running in the suspended pipeline' % (what, p.idx))
    if not r.is_running and any(p.state == 'stopped' for p in members(h, r)):
        h.problem('%s: the suspended pipeline says it does not run' % what)
    if [q for q in r.failed_processes if q.is_running]:
        h.problem('%s: a stopped member counts as failed' % what)


def ignored(h, label, k, start, what):
    """A stop request was handled while commands of the pipeline waited for still ran, or too late."""
    if label not in h.ctl.fired:
        return
    at, blocked = h.ctl.fired[label]
    if h.ctl.blocked > blocked:
        h.problem('%s: the shell went on waiting after a stop request (%s)' % (what, k))
    if k == 'suspended':
        return
    late = [p.idx for p in h.ctl.procs[start:] if p.state != 'dead' or p.died > at + 3]
    if late:
        h.problem('%s: the stop request was ignored while P%s ran (%s)' % (what, late, k))


def not_stopped(h, r, what):
    for p in members(h, r):
        if p.state == 'stopped':
            h.problem('%s: P%d is stopped' % (what, p.idx))


def result(h, node, r, k, v, what):
    exp = [c03.outcome(*l) for l in c03.leaves(node)]
    if k != ('failed' if any(exp) else 'ok'):
        return h.problem('%s: %r ended with %s %s, should be %s' % (what, node, k, v, exp))
    if r is not None:
        c03.verify(h, node, r, 'failed' if any(exp) else 'ok', type('E', (), dict(pipeline=r, __str__=lambda s: 'Boom' + ' '.join(map(str, lib.flat(node)))))(), what)


def output(h, node, what):
    want = lib.Meaning(dict(h.files)).of(node)
    m = lib.Meaning(dict(h.files))
    m.of(node)
    for name, streams in m.files.items():
        if name in h.files:
            continue
        got = h.read_file(name)
        if got is None or not lib.matches(got, streams):
            h.problem('%s: the output of %r is %r, should be %r' % (what, node, got, streams))


def setup(h, **kw):
    h.files = {'in': b'one\ntwo\n'}
    for n, d in h.files.items():
        h.write_file(n, d)
    return h.env(**kw)


def resume(h, e, r, how, what):
    """Resume r in some way and wait for it: (kind, value)"""
    n = len(h.ctl.kills)
    if how == 'wait':
        return h.attempt(lambda: h.run(r.wait()))
    if how == 'await':
        async def f():
            await r
        return h.attempt(lambda: h.run(f()))
    if how in ('restart', 'bg', 'bgarg', 'restartwait'):
        k, v = h.attempt(r.restart if how[:7] == 'restart' else e.bg().run_interactive if how == 'bg' else lambda: e.bg(r).run_interactive())
        if k != 'ok':
            h.problem('%s: %s gave %s %s' % (what, how, k, v))
        not_stopped(h, r, '%s: after %s' % (what, how))
        if how == 'restart':           # it continues without anybody waiting

            async def until():
                while r.is_running:
                    await asyncio.sleep(0)
            k, v = h.attempt(lambda: h.run(until()))
            if k not in ('ok',):
                return k, v
        return h.attempt(lambda: h.run(r.wait()))
    if how in ('fg', 'fgarg'):
        k, v = h.attempt((e.fg() if how == 'fg' else e.fg(r)).run_interactive)
        if k in ('ok', 'failed'):
            if r.is_running:
                h.problem('%s: fg returned (%s) while the pipeline still runs' % (what, k))
            if k == 'failed':
                try:
                    str(v)
                except Exception as x:
                    h.problem('%s: the message of fg cannot be printed: %r' % (what, x))
        elif k == 'suspended':
            v = type('E', (), dict(pipeline=r))()
        return k, v
    raise ValueError(how)


def stop(h):
    """Ctrl-Z at any time, once or twice, while another pipeline is in the background; then resume."""
    e = setup(h, interactive=True)
    node, how, times = h.p['node'], h.p['how'], h.p.get('times', 1)
    bg = None
    if h.p.get('bg'):
        bg = lib.build(e, h.p['bg']).run()
    nb = len(h.ctl.kills)
    p = lib.build(e, node, [])
    n0 = len(h.ctl.procs)
    h.ctl.events = [('CtrlZ' if not i else 'CtrlZ#%d' % i, lambda: len(h.ctl.procs) > n0) for i in range(times)]
    if h.p.get('start') == 'wait':
        r0 = p.run()
        k, v = h.attempt(lambda: h.run(r0.wait()))
    else:
        k, v = h.attempt(p.run_interactive)
    ignored(h, 'CtrlZ', k, n0, 'run')
    kinds, r, n = [k], None, 0
    stopped = []
    while k == 'suspended' and n < 4:
        what = 'stop %d, %s' % (n, how)
        if n == 0:
            r = suspended(h, e, v, what)
            if r is None:
                return
            if r is not e.last_pipeline and bg is None:
                h.problem('%s: the suspended pipeline is not the last pipeline' % what)
        elif how not in ('fg', 'fgarg') and v.pipeline is not r:
            h.problem('%s: the second time another pipeline was suspended' % what)
        stopped = [r]
        all_stopped(h, r, what)
        if bg is not None:
            not_stopped(h, bg, 'background, ' + what)
        if h.p.get('other'):           # something else runs in between
            k2, v2 = h.attempt(e.vp('n').run_interactive)
            if k2 == 'suspended':
                k2, v2 = h.attempt(lambda: h.run(v2.pipeline.wait()))
            if k2 not in ('ok', 'suspended'):
                h.problem('%s: another pipeline in between: %s %s' % (what, k2, v2))
            all_stopped(h, r, what + ' (after another pipeline)')
            how = {'bg': 'bgarg', 'fg': 'fgarg'}.get(how, how)
        n += 1
        fired = set(h.ctl.fired)
        k, v = resume(h, e, r, how, what)
        kinds.append(k)
        if how in ('wait', 'await', 'fg', 'fgarg'):
            for x in set(h.ctl.fired) - fired:
                ignored(h, x, k, n0, what)
    h.ctl.events = []
    h.obs['kinds'] = kinds
    if n == 0:
        r = v if k == 'ok' and h.p.get('start') != 'wait' else v.pipeline if k == 'failed' else None
    result(h, node, r, k, v, 'after %d stops and %s' % (n, how))
    output(h, node, 'after %d stops and %s' % (n, how))
    rs = [x for x in (r, bg) if x is not None]
    if not h.p.get('other'):
        if r is not None:
            check_kills(h, rs, stopped)
    if bg is not None:
        k, v = h.attempt(lambda: h.run(bg.wait()))
        result(h, h.p['bg'], bg, k, v, 'background')
        output(h, h.p['bg'], 'background')
    h.spin()
    left = h.unended()
    if left:
        h.problem('commands %s still run' % left)


def noninteractive(h):
    """Ctrl-Z does nothing to a pipeline of a non-interactive environment, nor to one nobody waits for, nor for later ones."""
    e = setup(h, interactive=h.p['interactive'])
    node = h.p['node']
    if h.p['interactive']:             # nobody waits for it
        r = lib.build(e, node, []).run()
        h.ctl.events = [('CtrlZ', None)]

        async def until():
            while r.is_running:
                await asyncio.sleep(0)
        k, v = h.attempt(lambda: h.run(until()))
        if k != 'ok':
            h.problem('%s %s' % (k, v))
        h.ctl.events = []
        k, v = h.attempt(lambda: h.run(r.wait()))
    else:
        h.ctl.events = [('CtrlZ', None)]
        k, v = h.attempt(lib.build(e, node, []).run_interactive)
        h.ctl.events = []
        r = v if k == 'ok' else v.pipeline
    result(h, node, r, k, v, 'Ctrl-Z for others')
    check_kills(h, [r], [])
    k, v = h.attempt(lib.build(e, node, []).run_interactive)
    r2 = v if k == 'ok' else v.pipeline
    result(h, node, r2, k, v, 'the one after Ctrl-Z')
    check_kills(h, [r, r2], [])


def interrupt(h):
    e = setup(h, interactive=h.p.get('interactive', True))
    node, ev, how = h.p['node'], h.p['event'], h.p['how']
    bg = None
    if h.p.get('bg'):
        bg = lib.build(e, h.p['bg']).run()
    n0 = len(h.ctl.procs)
    h.ctl.events = [(ev, lambda: len(h.ctl.procs) > n0)]
    k, v = h.attempt(lib.build(e, node, []).run_interactive)
    fired = not h.ctl.events
    h.ctl.events = []
    h.obs['k'] = k
    if k == 'keyboard' or fired and k != 'interrupted':
        h.problem('an interrupt gave %s %s' % (k, v))
        return
    if k == 'interrupted':
        r = suspended(h, e, v, 'interrupt')
        if r is None:
            return
        if [p.idx for p in members(h, r)] != list(range(n0, n0 + len(members(h, r)))):
            h.problem('the interrupt carries another pipeline: %r' % r)
        if how == 'stop':
            h.attempt(r.suspend)
            all_stopped(h, r, 'suspend()')
            if bg is not None:
                not_stopped(h, bg, 'suspend() of another')
            how = 'wait'
        k, v = resume(h, e, r, how, 'interrupt')
        if ev == 'CtrlC':
            result(h, node, r, k, v, 'after an interrupt, %s' % how)
            output(h, node, 'after an interrupt')
        else:
            if k not in ('ok', 'failed'):
                h.problem('waiting after an interrupt: %s %s' % (k, v))
            if r.is_running or k == 'ok' and r.failed_processes or k == 'failed' and not r.failed_processes:
                h.problem('after an interrupt: %s, failed %r, running %s' % (k, r.failed_processes, r.is_running))
    else:
        r = v if k == 'ok' else v.pipeline
        result(h, node, r, k, v, 'not interrupted')
    if bg is not None:
        k, v = h.attempt(lambda: h.run(bg.wait()))
        if ev == 'CtrlC':
            result(h, h.p['bg'], bg, k, v, 'background')
        elif k not in ('ok', 'failed'):
            h.problem('background: %s %s' % (k, v))
    check_kills(h, [x for x in (r, bg) if x is not None], [r] if h.p['how'] == 'stop' else [])
    k, v = h.attempt(e.vp('n').run_interactive)
    if k != 'ok':
        h.problem('the pipeline after an interrupt: %s %s' % (k, v))
    h.spin()
    if h.unended():
        h.problem('commands %s still run' % h.unended())


def busyinterrupt(h):
    """Ctrl-C while the shell executes something, not while it waits for events."""
    e = setup(h, interactive=h.p['interactive'])
    node, mode = h.p['node'], h.p['mode']
    p = lib.build(e, node, [])
    if mode == 'run':
        start = p.run_interactive
    else:
        r0 = p.run()

        async def wait():
            if mode == 'await':
                return await r0
            return await r0.wait()
        start = lambda: h.run(wait())
    h.ctl.intr = h.p['at']
    k, v = h.attempt(start)
    fired = h.ctl.intr == 'done'
    h.ctl.intr = None
    h.obs['k'] = k
    if fired and k != 'interrupted' or k == 'keyboard':
        return h.problem('an interrupt while the shell is busy gave %s %s' % (k, v))
    if fired:
        r = suspended(h, e, v, 'interrupt')
        if r is None:
            return
        if [p.idx for p in members(h, r)] != list(range(len(h.ctl.procs))):
            h.problem('the interrupt carries another pipeline: %r' % r)
        k, v = h.attempt(lambda: h.run(r.wait()))
    else:
        r = (v if mode == 'run' else r0) if k == 'ok' else v.pipeline
    result(h, node, r, k, v, 'after an interrupt of a busy shell')
    output(h, node, 'after an interrupt of a busy shell')
    check_kills(h, [r], [])
    k, v = h.attempt(e.vp('n').run_interactive)
    if k != 'ok':
        h.problem('the pipeline after an interrupt: %s %s' % (k, v))
    h.spin()
    if h.unended():
        h.problem('commands %s still run' % h.unended())


def inner(h):
    """Ctrl-Z for a pipeline that is waited for after the end of another that was waited for at the same time."""
    e = setup(h, interactive=True)
    first = h.p['first']
    done = []
    if first == 'nested':
        async def f(stdin):
            async for l in stdin:
                if not done:
                    await e.vp('n')
                    done.append(1)
                yield l
        p = (e.vp('o:a/', 'n', 'o:b/', 'n', 'o:c/') | f | e.vp('c')) > 'out'
        h.ctl.events = [('CtrlZ', lambda: done)]
        k, v = h.attempt(p.run_interactive)
    else:
        r = (e.vp('o:a/', 'n', 'o:b/', 'n', 'o:c/') > 'out').run()
        o = e.vp('n').run()
        h.ctl.events = [('CtrlZ', lambda: done)]

        async def other():
            await o
            done.append(1)

        async def both():
            ts = [asyncio.ensure_future(x) for x in ((r.wait(), other()) if first == 'second' else (other(), r.wait()))]
            await asyncio.wait(ts)
            await ts[first != 'second']
        k, v = h.attempt(lambda: h.run(both()))
    h.ctl.events = []
    h.obs['k'] = k
    ignored(h, 'CtrlZ', k, 0, first)
    if k == 'suspended':
        s = suspended(h, e, v, first)
        if first == 'nested':
            r = s
        if s is not r or len(members(h, r)) != (2 if first == 'nested' else 1):
            return h.problem('%s: the wrong pipeline was suspended: %r' % (first, s))
        all_stopped(h, r, first)
        k, v = h.attempt(lambda: h.run(r.wait()))
    if k != 'ok':
        h.problem('%s: %s %s' % (first, k, v))
    if h.read_file('out') != b'a\nb\nc\n':
        h.problem('%s: the output is %r' % (first, h.read_file('out')))


def fginterrupt(h):
    """Ctrl-C and Ctrl-Z during fg."""
    e = setup(h, interactive=True)
    node = h.p['node']
    r = lib.build(e, node, []).run()
    h.ctl.events = [(h.p['event'], None)]
    k, v = h.attempt(e.fg().run_interactive)
    h.ctl.events = []
    h.obs['k'] = k
    ignored(h, 'CtrlZ', k, 0, 'fg')
    if k == 'suspended':
        all_stopped(h, r, 'Ctrl-Z in fg')
        if e.last_pipeline is not r:
            h.problem('after Ctrl-Z in fg the last pipeline is %r' % e.last_pipeline)
        k, v = h.attempt(e.fg().run_interactive)
    if k in ('interrupted', 'keyboard'):
        k, v = h.attempt(e.fg().run_interactive)
    if k not in ('ok', 'failed'):
        return h.problem('fg: %s %s' % (k, v))
    if r.is_running:
        h.problem('fg returned %s while the pipeline runs' % k)
    result(h, node, r, k, None, 'fg')
    output(h, node, 'fg')
    check_kills(h, [r], [r])


def background(h):
    e = setup(h, interactive=True)
    node = h.p['node']
    p = lib.build(e, node, [])
    n0 = len(h.ctl.procs)
    how = h.p['how']
    k, r = h.attempt(lambda: (p & True) if how == 'True' else (p & None) if how == 'None' else ~p if how == 'invert' else p & 'out2')
    if k != 'ok' or not hasattr(r, 'processes'):
        return h.problem('& %s gave %s %r' % (how, k, r))
    if h.p.get('fg'):                 # something in the foreground at the same time, stopped
        h.ctl.events = [('CtrlZ', lambda: len(h.ctl.procs) > n0 + len(pids(r)))]
        n1 = len(h.ctl.procs)
        k, v = h.attempt(lib.build(e, h.p['fg']).run_interactive)
        h.ctl.events = []
        ignored(h, 'CtrlZ', k, n1, 'the foreground')
        if k == 'suspended':
            not_stopped(h, r, 'background')
            k, v = h.attempt(lambda: h.run(v.pipeline.wait()))
        result(h, h.p['fg'], None, k, v, 'foreground')
    if h.p.get('wait', True):
        k, v = h.attempt(lambda: h.run(r.wait()))
    else:
        async def until():
            while r.is_running:
                await asyncio.sleep(0)
        h.run(until())
        k = 'failed' if r.is_failed else 'ok'
        v = None
    result(h, node, r, k, v, 'background')
    want = lib.Meaning(dict(h.files)).of(node)
    if h.p.get('fg') is None:
        got = h.console()
        if how in ('True', 'invert'):
            if not lib.matches(got, want):
                h.problem('& %s of %r wrote %r, should be %r' % (how, node, got, want))
        elif got:
            h.problem('& %s of %r wrote %r' % (how, node, got))
        if how == 'file':
            got = h.read_file('out2')
            if got is None or not lib.matches(got, want):
                h.problem('& file of %r wrote %r, should be %r' % (node, got, want))
    if sorted(os.listdir(h.dir)) != sorted(['in'] + (['out2'] if how == 'file' else [])):
        h.problem('files: %s' % os.listdir(h.dir))


def external(h):
    """Members stopped and continued by somebody else; the others go on."""
    e = setup(h, interactive=True)
    node, i = h.p['node'], h.p['member']
    h.ctl.events = [('sig:%d:%d' % (i, h.p.get('signo', 19)), lambda: len(h.ctl.procs) > i and h.ctl.procs[i].state == 'live'),
                    ('sig:%d:18' % i, lambda: len(h.ctl.procs) > i and h.ctl.procs[i].state == 'stopped', True)]
    k, v = h.attempt(lib.build(e, node, []).run_interactive)
    h.ctl.events = []
    r = v if k == 'ok' else getattr(v, 'pipeline', None)
    result(h, node, r, k, v, 'stopped by others')
    output(h, node, 'stopped by others')
    if any(s in STOPS for _, s, _ in h.ctl.kills):
        h.problem('stop signals sent: %s' % h.ctl.kills)


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    pol = ('loop', 'procs', 'fine', 'finep', 'last', 'procslast')
    O = (1, 'out')
    nodes = [R(C('o:a/', 'n', 'o:b/'), O), R(P(C('o:a/', 'o:b/'), C('u')), O), R(C('o:a/', 'n', 'x:3'), O), R(P(C('o:a/', 'x:2'), C('c', 'n')), O), R(G(C('o:a/'), C('o:b/', 'n')), O),
             R(P(I('slow', ['a', 'b']), C('c')), O), P(C('o:a/', 'o:b/'), F('sink')), R(P(C('o:a/', 'n'), F('ex'), C('c')), O), R(C(I('slow', ['a', 'b'])), O), R(P(C('o:a/', 'n', 'k:9'), C('c')), O)]
    bgs = [None, R(C('o:q/', 'n', 'o:r/'), (1, 'outb')), R(P(C('o:q/', 'n'), C('c', 'x:4')), (1, 'outb'))]
    hows = ['wait', 'restart', 'restartwait', 'bg', 'fg', 'await', 'bgarg', 'fgarg']
    for i, n in enumerate(nodes):
        for j, how in enumerate(hows):
            bg = bgs[(i + j) % 3]
            if bg is not None and how in ('bg', 'fg') and j % 2:
                pass
            if not t and (i + j) % 3 == 2:
                continue
            out.append(Scen('stop %d %s' % (i, how), stop, node=n, how=how, bg=bg, times=1 + (i + j) % 2, other=(i + j) % 5 == 4, start='wait' if (i + j) % 7 == 6 else 'run',
                            bound=2, cap=900 if t else 40, policies=pol if t else pol[::2] if (i + j) % 2 else pol[1::2], backend='asyncio' if (i + 2 * j) % 9 == 8 else 'signalfd'))
    for i, n in enumerate(nodes):
        for inter in (0, 1):
            out.append(Scen('not stopped %d %d' % (i, inter), noninteractive, node=n, interactive=bool(inter), bound=1, cap=300 if t else 30, policies=pol if t else pol[:3]))
    for i, n in enumerate(nodes):
        for j, ev in enumerate(('CtrlC', 'CtrlC+')):
            for how in ('wait', 'fg', 'restart', 'stop'):
                if not t and (i + len(how) + j) % 2:
                    continue
                out.append(Scen('interrupt %d %s %s' % (i, ev, how), interrupt, node=n, event=ev, how=how, bg=bgs[(i + len(how)) % 3], interactive=(i + j) % 3 != 2,
                                bound=2, cap=600 if t else 30, policies=pol if t else pol[1::2]))
    for f in ('nested', 'first', 'second'):
        out.append(Scen('inner ' + f, inner, first=f, bound=2, cap=600 if t else 40, policies=pol if t else pol[:4]))
    for i, n in enumerate(nodes):
        for j, mode in enumerate(('run', 'wait', 'await')):
            for at in (1, 2):
                for w in ('before', 'after'):
                    if t or (i + j + at + len(w)) % 4 == 0:
                        out.append(Scen('busy interrupt %d %s %d %s' % (i, mode, at, w), busyinterrupt, node=n, mode=mode, at=(at, w), interactive=(i + at) % 3 != 2, bound=1, cap=200 if t else 6, policies=pol if t else pol[i % 6:][:2]))
    for i, n in enumerate(nodes):
        for j, ev in enumerate(('CtrlC', 'CtrlZ')):
            out.append(Scen('fg %d %s' % (i, ev), fginterrupt, node=n, event=ev, bound=2, cap=500 if t else 30, policies=pol if t else pol[::2]))
    plain = [n[1] if n[0] == 'R' else n for n in nodes]
    for i, n in enumerate(plain[:6] + plain[7:]):
        for j, how in enumerate(('True', 'None', 'invert', 'file')):
            if not t and (i + j) % 2:
                continue
            out.append(Scen('background %d %s' % (i, how), background, node=n, how=how, wait=(i + j) % 4 < 2, fg=None, bound=1, cap=200 if t else 25))
        out.append(Scen('background %d foreground' % i, background, node=n, how='None', fg=C('n', 'x:%d' % (i % 2)), bound=2, cap=600 if t else 40))
    for i, n in enumerate(nodes):
        for m in (0, 1):
            if len([1 for l in c03.leaves(n) if l[0][0] == 'C']) > m:
                out.append(Scen('external %d %d' % (i, m), external, node=n, member=m, bound=2, cap=500 if t else 40, policies=pol if t else pol[::2]))
    return out
