"""C05: a finished pipeline leaves nothing behind in the shell."""
import asyncio, os
from ..explore import Scen
from .. import lib
from . import c01, c03

ASSUMPTIONS = ['schedules: all with at most `deviation_bound` departures from each of the listed base policies',
               'compared before and after: every open descriptor of the shell and what it refers to, the directory of temporary files, the descriptors registered with the event loop, '
               'the signal handlers registered, children waiting to be reaped, the list of running pipelines']
C, I, F, P, G, R, X = [lambda *a, k=k: (k,) + a for k in 'CIFPGRX']


def listed(h, e, runs):
    """While a pipeline runs it is listed exactly once."""
    def monitor():
        now = list(e.running_pipelines)
        if len({id(x) for x in now}) != len(now):
            h.problem('a pipeline is listed more than once among the running pipelines')
            h.ctl.monitor = None
        for r in runs:
            n = len([x for x in now if x is r])
            pids = [q.iohandler.pid for q in r.processes if hasattr(q.iohandler, 'pid')]
            alive = [p.idx for p in h.ctl.procs if p.pid in pids and p.state != 'dead']
            if alive and n != 1:
                h.problem('a running pipeline (commands %s are alive) is listed %d times' % (alive, n))
                h.ctl.monitor = None
            if r.is_running and n != 1:
                h.problem('a pipeline is listed %d times, is_running is %s' % (n, r.is_running))
                h.ctl.monitor = None
    return monitor


def run(h):
    """Run a pipeline in some way, again and again."""
    c01.setup(h)
    h.write_file('in', b'one\ntwo\n')
    e = h.env()
    node, mode = h.p['node'], h.p['mode']
    before = h.snapshot()
    for i in range(h.p.get('times', 1)):
        p = lib.build(e, node, [])
        runs = []
        orig = p.run
        h.ctl.monitor = listed(h, e, runs)
        if mode == 'wait':
            def fn():
                runs.append(p.run())
                h.run(runs[0].wait())
            k, v = h.attempt(fn)
        elif mode == 'bg':              # never waited for
            runs.append(p.run())

            async def until():
                while h.unended() or runs[0].is_running:
                    await asyncio.sleep(0)
            h.run(until())
            k = 'failed' if runs[0].is_failed else 'ok'
        else:
            r, k, v = c03.finish(h, e, p, mode)
        h.ctl.monitor = None
        h.obs['k%d' % i] = k
        if k not in ('ok', 'failed'):
            h.problem('%s of %r ended with %s %s' % (mode, node, k, v))
        if h.p.get('twice') and k == 'failed':
            h.attempt(lambda: str(v))
        h.spin()
        left = h.leftovers(before, envs=[e])
        if left:
            h.problem('%s of %r (%s) left behind: %s' % (mode, node, k, '; '.join(left)))
            break
        del p, runs


def interrupted(h):
    """Ctrl-C or Ctrl-Z while it is in the foreground."""
    from pieshell.pipeline import running
    c01.setup(h)
    e = h.env(interactive=h.p.get('interactive', True))
    node = h.p['node']
    before = h.snapshot()
    h.ctl.events = [(h.p['event'], lambda: len(h.ctl.procs) >= h.p.get('after', 1))]
    p = lib.build(e, node, [])
    kinds = []
    k, v = h.attempt(p.run_interactive)
    kinds.append(k)
    n = 0
    while k in ('interrupted', 'suspended') and n < 4:
        n += 1
        r = v.pipeline
        k, v = h.attempt(lambda: h.run(r.wait()))
        kinds.append(k)
    h.ctl.events = []
    h.obs['kinds'] = kinds
    if k not in ('ok', 'failed'):
        h.problem('%r ended with %s %s %s' % (node, kinds, type(v), v))
    h.spin()
    left = h.leftovers(before, envs=[e])
    if left:
        h.problem('%r (%s) left behind: %s' % (node, kinds, '; '.join(left)))


def early(h):
    """The caller stops iterating: closing the iteration ends its side; the commands end on their own."""
    c01.setup(h)
    e = h.env()
    node, n = h.p['node'], h.p['n']
    before = h.snapshot()
    p = lib.build(e, node, [])

    async def go():
        from pieshell import redir
        r = p.run([redir.Redirect('stdout', redir.PIPE)])
        it = r.__aiter__()
        for i in range(n):
            await it.__anext__()
        it.destroy()
        try:
            await r.wait()
        except Exception:
            pass
    k, v = h.attempt(lambda: h.run(go()))
    if k != 'ok':
        h.problem('stopping early: %s %s' % (k, v))
    h.spin()
    left = h.leftovers(before, envs=[e])
    if left:
        h.problem('%r of which %d lines were read left behind: %s' % (node, n, '; '.join(left)))


def builtins(h):
    """Pipelines that consist of a builtin, which run inside the shell."""
    c01.setup(h)
    os.mkdir(h.dir + '/sub')
    e = h.env(interactive=h.p.get('interactive', False))
    before = h.snapshot()
    for what, fn in [('cd', lambda: e.cd('sub').run_interactive()), ('cd back', lambda: e.cd('..').run_interactive()), ('cd missing', lambda: e.cd('nodir').run_interactive()),
                     ('clear_dir_cache', lambda: e.clear_dir_cache().run_interactive()), ('run cd', lambda: h.run(e.cd('.').run().wait())), ('invert', lambda: ~e.cd('.')),
                     ('command', lambda: e.vp('n').run_interactive()), ('bg', lambda: e.bg().run_interactive()), ('fg', lambda: e.fg().run_interactive())]:
        k, v = h.attempt(fn)
        h.obs[what] = k
        h.spin()
        if k == 'exc' and what != 'cd missing':
            h.problem('%s: %r' % (what, v))
        left = h.leftovers(before, envs=[e])
        if left:
            h.problem('%s (%s %r) left behind: %s' % (what, k, v, '; '.join(left)))
            before = h.snapshot()


def tmp(h):
    """Only the files the caller asked for remain, until he removes them."""
    from pieshell import redir
    c01.setup(h)
    e = h.env()
    before = h.snapshot()
    T = redir.TMP
    mode = h.p['mode']
    if mode == 'one':
        p = e.vp('o:a/', 'e:b/', 'x:%d' % h.p.get('x', 0)) | redir.Redirect(1, T) | redir.Redirect(2, T)
        keep = 2
    elif mode == 'pipe':
        p = (e.vp('o:a/', 'e:b/') | redir.Redirect(2, T)) | (e.vp('c', 'w:3:x/') | redir.Redirect(3, T, os.O_WRONLY) | redir.Redirect(1, redir.STRING))
        keep = 2
    elif mode == 'group':
        p = (e.vp('o:a/') + e.vp('o:b/')) | redir.Redirect(1, T)
        keep = 2
    elif mode == 'string':
        p = e.vp('o:a/', 'e:b/') | redir.Redirect(1, redir.STRING)
        keep = 0
    elif mode == 'func':
        p = ['a'] | e.vp('c') | redir.Redirect(1, T)
        keep = 1
    r = p.run()
    k, v = h.attempt(lambda: h.run(r.wait()))
    h.spin()
    left = h.leftovers(before, keep_tmp=keep, envs=[e])
    if left:
        h.problem('%s (%s) left behind: %s' % (mode, k, '; '.join(left)))
    r.remove_output_files()
    left = h.leftovers(before, envs=[e])
    if left:
        h.problem('%s after removing the files left behind: %s' % (mode, '; '.join(left)))


def free(h, item):
    node, mode = item
    if not hasattr(h, 'ready'):
        c01.setup(h)
        h.write_file('in', b'one\ntwo\n')
        h.e = h.env()
        h.ready = True
        h.attempt(lambda: h.e.vp('n').run_interactive())
    before = h.snapshot()
    if mode in ('aiter', 'aslow', 'iterb', 'raiter'):
        got, k, v = lib.consume(h, lib.build(h.e, node, []), mode)
    else:
        r, k, v = c03.finish(h, h.e, lib.build(h.e, node, []), mode)
    if k not in ('ok', 'failed'):
        h.problem('%s of %r: %s %s' % (mode, node, k, v))
    h.spin()
    left = h.leftovers(before, envs=[h.e])
    if left:
        h.problem('%s of %r (%s) left behind: %s' % (mode, node, k, '; '.join(left)))
    h.count((node, mode))


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    modes = ['wait', 'foreground', 'list', 'bg', 'iterbytes', 'await']
    nodes = [n for n in c03.NODES] + [n for n, m in c01.SHAPES if '70000' not in repr(n) and 'zzz' not in repr(n)][::1 if t else 3]
    nodes += [n for n, m in c01.NESTED if n not in nodes]
    for i, n in enumerate(nodes):
        for j, m in enumerate(modes):
            if m in ('list', 'iterbytes') and n[0] == 'R' and n[2][0] == 1:
                continue
            if m == 'list' and 'ff80' in repr(n):     # not text
                continue
            if not t and (i + j) % 4:
                continue
            out.append(Scen('run %d %s' % (i, m), run, node=n, mode=m, bound=1, cap=400 if t else 25, times=1 + (i + j) % 2, backend='asyncio' if (i + j // 4) % 6 == 5 else 'signalfd',
                            policies=('loop', 'procs', 'fine', 'finep', 'last', 'procslast') if t else ('loop', 'finep', 'procslast')))
    for i, n in enumerate([C('n', 'n'), P(C('o:a/', 'n'), C('c')), P(C('o:a/'), F('up'), C('c')), P(I('slow', ['a', 'b']), C('c', 'x:3')), G(C('n'), F('list', ['a'])), C(I('slow', ['a']))]):
        for ev in ('CtrlC', 'CtrlC+', 'CtrlZ'):
            if t or (i + len(ev)) % 2 or i == 1:
                out.append(Scen('%s %d' % (ev, i), interrupted, node=n, event=ev, bound=2, cap=1500 if t else 120, policies=('loop', 'procs', 'finep')))
    for i, n in enumerate([C('o:a/', 'o:b/', 'o:c/'), P(C('o:a/b/c/'), C('c')), P(C('y:%s/' % ('a' * 3999)), C('c')), P(C('o:a/b/c/d/'), F('up')), P(I('list', ['a', 'b', 'c']), C('c')), G(C('o:a/b/'), C('o:c/'))]):
        out.append(Scen('early %d' % i, early, node=n, n=1, bound=1, cap=400 if t else 30))
    out += [Scen('builtins %d' % i, builtins, interactive=bool(i), bound=1, cap=200 if t else 30) for i in (0, 1)]
    out += [Scen('tmp %s' % m, tmp, mode=m, x=3 * (m == 'one'), bound=1, cap=300 if t else 30) for m in ('one', 'pipe', 'group', 'string', 'func')]
    items = c01.composed(tier) + c03.statuses(tier)[::1 if t else 4]
    out.append(Scen('all compositions', free, sched=False, items=items[::2] if t else items, chunk=25, timeout=90))
    return out
