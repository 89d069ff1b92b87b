"""C02: waiting ends exactly when every member of the pipeline has ended."""
import asyncio, os, signal
from ..explore import Scen
from .. import lib

ASSUMPTIONS = ['schedules: all with at most `deviation_bound` departures from each of the listed base policies',
               'commands are puppets; a core dump is reported by setting the flag in the status, as no core file may be written']
C, I, F, P, G, R, X, Y = [lambda *a, k=k: (k,) + a for k in 'CIFPGRXY']


class Track:
    """Functions that say when they have begun and when they have ended."""
    def __init__(self):
        self.alive, self.made = set(), 0

    def fn(self, kind):
        self.made += 1
        n = self.made
        alive = self.alive

        async def reads(stdin):
            alive.add(n)
            try:
                async for l in stdin:
                    yield l
            finally:
                alive.discard(n)

        async def slow(stdin):
            alive.add(n)
            try:
                async for l in stdin:
                    await asyncio.sleep(0)
                    yield l
                    await asyncio.sleep(0)
                await asyncio.sleep(0)
            finally:
                alive.discard(n)

        async def raises(stdin):
            alive.add(n)
            try:
                async for l in stdin:
                    yield l
                raise lib.Boom('x')
            finally:
                alive.discard(n)

        async def raiseslate(stdin):
            alive.add(n)
            try:
                async for l in stdin:
                    yield l
                await asyncio.sleep(0)
                await asyncio.sleep(0)
                raise lib.Boom('x')
            finally:
                alive.discard(n)

        def produces(stdin):
            alive.add(n)
            try:
                yield 'one'
                yield 'two'
            finally:
                alive.discard(n)

        async def sinks(stdin):
            alive.add(n)
            try:
                async for l in stdin:
                    pass
                await asyncio.sleep(0)
            finally:
                alive.discard(n)

        async def asks(stdin):             # waits for another pipeline
            alive.add(n)
            try:
                async for l in stdin:
                    async for x in self.env.vp('o:' + l + '/'):
                        yield x
            finally:
                alive.discard(n)
        return dict(reads=reads, slow=slow, raises=raises, raiseslate=raiseslate, produces=produces, sinks=sinks, asks=asks)[kind]


def tracked(track, node):
    if node[0] == 'F' and node[1] in ('reads', 'slow', 'raises', 'raiseslate', 'produces', 'sinks', 'asks'):
        return Y(track.fn(node[1]))
    return tuple(tracked(track, x) if isinstance(x, tuple) else x for x in node)


def wait(h):
    e = h.env(interactive=h.p.get('interactive', False))
    track = Track()
    track.env = h.env()
    node = tracked(track, h.p['node'])
    mode = h.p['mode']
    p = lib.build(e, node)
    fails = h.p.get('fails', False)
    runs = []
    seen = []

    def over(what, kind=None):
        """A wait has just ended: is it true?"""
        left = [x.idx for x in h.ctl.procs if h.ctl.refresh(x) != 'dead']
        if left:
            h.problem('%s ended while commands %s have not' % (what, left))
        if track.alive:
            h.problem('%s ended while functions %s have not' % (what, sorted(track.alive)))
        for r in runs:
            if r.is_running or r.running_processes:
                h.problem('%s ended while the pipeline says it is running' % what)
        if kind not in (None, 'failed' if fails else 'ok'):
            h.problem('%s ended with %r, should be %s' % (what, kind, 'failed' if fails else 'ok'))

    def done(what, fn):
        k, v = h.attempt(fn)
        over(what, k if k != 'exc' else v)
        seen.append(k)
        return v

    from pieshell import redir
    if mode == 'foreground':
        v = done('run_interactive', p.run_interactive)
        runs.append(getattr(v, 'pipeline', v) if fails else v)
    elif mode == 'pos':
        done('+pipeline', lambda: +p)
    elif mode == 'await':
        async def f():
            return await p
        done('await', lambda: h.run(f()))
    elif mode in ('wait', 'awaitrun', 'late', 'again'):
        async def start():
            runs.append(p.run())
        h.run(start())
        if mode == 'late':
            async def late():
                while h.unended() or track.alive:
                    await asyncio.sleep(0)
                for _ in range(5):
                    await asyncio.sleep(0)
            h.run(late())
        if mode == 'awaitrun':
            async def f():
                await runs[0]
            done('await of the running pipeline', lambda: h.run(f()))
        else:
            done('wait', lambda: h.run(runs[0].wait()))
        if mode == 'again':
            for i in range(2):
                done('wait once more', lambda: h.run(runs[0].wait()))
    elif mode in ('list', 'bytes'):
        done('exhausting the output', (lambda: list(p)) if mode == 'list' else (lambda: bytes(p)))
    elif mode == 'iter':
        async def f():
            runs.append(p.run([redir.Redirect('stdout', redir.PIPE)]))
            async for l in runs[0]:
                pass
        done('exhausting the output', lambda: h.run(f()))
    elif mode == 'iterwait':
        async def f():
            runs.append(p.run([redir.Redirect('stdout', redir.PIPE)]))
            try:
                async for l in runs[0]:
                    pass
            except Exception:
                pass
            await runs[0].wait()
        done('wait after the output', lambda: h.run(f()))
    elif mode in ('many', 'cancel', 'timeout'):
        async def waiter(i):
            try:
                await runs[0].wait()
                k = 'ok'
            except asyncio.CancelledError:
                return 'canceled'
            except Exception as ex:
                from pieshell.pipeline import running
                k = 'failed' if isinstance(ex, running.PipelineFailed) else ex
            over('waiter %d' % i, k)
            return k

        async def f():
            runs.append(p.run())
            ts = [asyncio.ensure_future(waiter(i)) for i in range(3)]
            if mode == 'timeout':
                ts.append(asyncio.ensure_future(asyncio.wait_for(waiter(9), 1)))
            if mode == 'cancel':
                await asyncio.sleep(0)
                ts[1].cancel()
            r = await asyncio.gather(*ts, return_exceptions=True)
            r += [await waiter(4)]
            return r
        k, v = h.attempt(lambda: h.run(f()))
        if k != 'ok':
            h.problem('several waiters: %s %s' % (k, v))
        seen.append([str(x) for x in v] if k == 'ok' else k)
        over('the last waiter')
    else:
        raise ValueError(mode)
    h.obs['seen'] = seen
    h.obs['log'] = [x for x in h.ctl.log if 'ended' in x]


NODES = [
    (C('n'), 0), (C('o:a/', 'x:3'), 1), (C('k:15'), 1), (C('K'), 1), (X('nosuchcommand'), 1),
    (P(C('o:a/b/'), C('c')), 0), (P(C('o:a/', 'k:9'), C('c', 'n')), 1), (P(C('o:a/', 'n', 'n'), C('n')), 0),
    (P(C('n', 'o:a/'), X('nosuchcommand')), 1), (P(X('nosuchcommand'), C('c', 'n')), 1),
    (G(C('n'), C('n', 'n')), 0), (G(C('x:1'), C('o:a/', 'K')), 1), (G(P(C('o:a/'), C('c')), C('n', 'k:6')), 1),
    (P(C('o:a/', 'o:b/'), F('reads'), C('c')), 0), (P(C('o:a/', 'n'), F('slow')), 0), (P(C('o:a/'), F('sinks')), 0),
    (P(C('o:a/'), F('raises')), 1), (P(C('o:a/'), F('raiseslate'), C('c', 'n')), 1), (P(C('n'), F('produces'), C('c', 'x:4')), 1),
    (P(I('slow', ['a', 'b']), C('c', 'n')), 0), (P(I('list', []), C('c', 'n')), 0), (P(I('araise', ['a']), C('c', 'n', 'n')), 1), (C(I('slow', ['a', 'b']), 'n'), 0),
    (C(C('o:a/', 'n'), 'n'), 0), (P(C('o:a/'), C(F('sinks'), 'c')), 0), (P(C('o:a/b/'), F('asks')), 0),
    (G(F('produces'), C('n', 'n')), 0), (P(C('o:a/', 'n', 'n', 'x:5'), C('t:1', 'n')), 1), (R(C('n', 'o:x/', 'n'), (1, 'out')), 0),
    (R(P(C('o:a/'), C('c', 'n')), (1, 'nodir/out')), 1),
]
MODES = ['foreground', 'pos', 'await', 'wait', 'awaitrun', 'late', 'again', 'list', 'bytes', 'iter', 'iterwait', 'many', 'cancel', 'timeout']


def stopped(h):
    """A member stopped and continued by somebody else."""
    e = h.env()
    p = lib.build(e, h.p['node'])
    n = h.p.get('who', 0)
    h.ctl.events = [('sig:%d:19' % n, lambda: len(h.ctl.procs) > n),
                    ('sig:%d:18' % n, lambda: len(h.ctl.procs) > n and h.ctl.procs[n].state == 'stopped', True)]
    k, v = h.attempt(p.run_interactive)
    if h.unended():
        h.problem('the wait ended (%s) while commands %s have not' % (k, h.unended()))
    if k != ('failed' if h.p.get('fails') else 'ok'):
        h.problem('the wait ended with %s %r' % (k, v))
    h.obs['k'] = k


def others(h):
    """Waiting for one pipeline while others run, end and are waited for."""
    e = h.env()
    a, b = [lib.build(e, n) for n in h.p['nodes']]
    fa, fb = h.p['fails']

    async def one(p, mine, fails):
        from pieshell.pipeline import running
        r = p.run()
        procs = [x for x in h.ctl.procs if x.pid in [q.pid for q in r.processes if hasattr(q, 'pid') and not isinstance(q.pid, property)]]
        try:
            await r.wait()
            k = 0
        except running.PipelineFailed:
            k = 1
        left = [x.idx for x in procs if h.ctl.refresh(x) != 'dead']
        if left or r.is_running:
            h.problem('waiting for pipeline %d ended while %s have not' % (mine, left))
        if k != fails:
            h.problem('waiting for pipeline %d: failure %d, should be %d' % (mine, k, fails))

    async def f():
        await asyncio.gather(one(a, 0, fa), one(b, 1, fb))
    k, v = h.attempt(lambda: h.run(f()))
    if k != 'ok':
        h.problem('two pipelines: %s %r' % (k, v))
    h.obs['log'] = [x for x in h.ctl.log if 'ended' in x]


def ends(h, item):
    """Every way of ending, any position, free running."""
    shape, ways, mode = item
    e = h.env()
    cmds = [{'x': C('x:%d' % v), 'k': C('k:%d' % v)}.get(w) or X('nosuchcommand') for w, v in ways]
    node = cmds[0] if len(cmds) == 1 else (P if shape == 'P' else G)(*cmds)
    p = lib.build(e, node)
    fails = any(w != 'x' or v for w, v in ways)
    if mode == 'wait':
        def fn():
            r = p.run()
            h.run(r.wait())
    elif mode == 'late':
        def fn():
            import time
            r = p.run()
            from .. import ctl
            for q in r.processes:
                ctl.waitid(q.pid, ctl.WEXITED)
            h.run(r.wait())
    elif mode == 'fg':
        fn = p.run_interactive
    else:
        fn = lambda: list(p)
    k, v = h.attempt(fn)
    if k != ('failed' if fails else 'ok'):
        h.problem('%s %s: %s %s, should have %s' % (mode, node, k, v, 'failed' if fails else 'succeeded'))
    h.count((shape, tuple(ways), mode))


def all_ends(tier):
    one = [('x', v) for v in range(256)] + [('k', v) for v in range(1, 32) if v not in (17, 18, 19, 20, 21, 22, 23, 28)] + [('u', 0)]
    few = [('x', 0), ('x', 1), ('x', 127), ('x', 128), ('x', 255), ('k', 1), ('k', 2), ('k', 6), ('k', 9), ('k', 11), ('k', 13), ('k', 15), ('u', 0)]
    out = [('P', (w,), m) for w in (one if tier == 'thorough' else few + one[2:20]) for m in ('wait', 'late', 'fg', 'list')]
    out += [(s, (a, b), m) for a in few for b in few for s in 'PG' for m in (('wait', 'late', 'fg', 'list') if tier == 'thorough' else ('wait', 'late'))]
    if tier == 'thorough':
        out += [(s, (a, b, c), m) for a in few[::2] for b in few[1::2] for c in few[::3] for s in 'PG' for m in ('wait', 'list')]
    return out


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for i, (n, f) in enumerate(NODES):
        for j, m in enumerate(MODES):
            if not t and (j + i) % 3 and m not in ('foreground', 'late'):
                continue
            if n[0] == 'R' and n[2][0] == 1 and m in ('list', 'bytes', 'iter', 'iterwait'):
                continue
            out.append(Scen('wait %d %s' % (i, m), wait, node=n, mode=m, fails=f, bound=1, cap=600 if t else 40,
                            backend='asyncio' if t and (i + j) % 4 == 0 else 'signalfd',
                            policies=('loop', 'procs', 'fine', 'finep', 'last', 'procslast') if t else ('loop', 'finep', 'procslast')))
    for i, (n, w, f) in enumerate([(C('n', 'n'), 0, 0), (P(C('o:a/', 'n'), C('c')), 0, 0), (P(C('o:a/', 'n'), C('c', 'x:2')), 1, 1), (C('n', 'k:15'), 0, 1)]):
        out.append(Scen('stopped %d' % i, stopped, node=n, who=w, fails=f, bound=3 if t else 2, cap=2000 if t else 150))
    for i, (a, b, fa, fb) in enumerate([(C('n'), C('x:1'), 0, 1), (P(C('n'), C('n')), P(C('k:15'), C('n')), 0, 1), (C('n', 'n'), P(C('o:a/'), F('up')), 0, 0)]):
        out.append(Scen('others %d' % i, others, nodes=(a, b), fails=(fa, fb), bound=2, cap=2000 if t else 120))
    out.append(Scen('ends', ends, sched=False, items=all_ends(tier), chunk=20, timeout=60))
    return out
