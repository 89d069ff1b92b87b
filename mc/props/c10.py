"""C10: displaying a pipeline runs it once if it is interactive, and never otherwise."""
import asyncio, code, os, sys, itertools
from ..explore import Scen
from .. import lib
from . import c03, c09

LEVEL = 'exploration'
RULE = 'distinct (pipeline composition, environment, history of displays) cases, each executed on the real code'
ASSUMPTIONS = ['compositions: all sequences of composition steps up to the bound over the listed base pipelines; displays: all listed ways',
               'a container that is not displayed with repr() is outside (Python gives the pipeline no way to know about it)']
C, I, F, P, G, R, X = [lambda *a, k=k: (k,) + a for k in 'CIFPGRX']


class Count:
    """How many processes were started."""
    def __init__(self, h):
        self.n = 0
        names = [n for n in ('fork', 'posix_spawn', 'posix_spawnp', 'system', 'forkpty') if hasattr(os, n)]
        self.saved = {n: getattr(os, n) for n in names}
        for n in names:
            def f(*a, _f=self.saved[n], **k):
                self.n += 1
                return _f(*a, **k)
            setattr(os, n, f)

    def stop(self):
        for n, f in self.saved.items():
            setattr(os, n, f)


def display(h, x, how):
    """What the user sees: (kind, exception, text on the standard output)"""
    before = len(h.console())
    scope = None
    if how == 'hook':
        k, v = h.attempt(lambda: sys.displayhook(x))
    elif how == 'console':               # as the interactive shell does it
        from pieshell import environ
        scope = dict(value=x)
        c = code.InteractiveConsole(locals=scope)
        tb = []
        c.showtraceback = lambda: tb.append(sys.exc_info()[1])
        k, v = h.attempt(lambda: c.runsource('value', '<t>'))
        if tb:
            def again():
                raise tb[0]
            k, v = h.attempt(again)
    elif how == 'type':
        k, v = h.attempt(lambda: sys.stdout.write(type(x).__repr__(x)))
    elif how == 'repr':
        k, v = h.attempt(lambda: sys.stdout.write(repr(x)))
    return k, v, h.console()[before:].decode(errors='replace')


QUIET = {
    'repr': lambda p: p, 'list': lambda p: [p], 'dict': lambda p: {'a': (p, [p])}, 'exception': lambda p: ValueError('x', p),
    'pipe': lambda p: p | p._env.vp('c') if hasattr(p, '_env') else [p], 'group': lambda p: p + p._env.vp('n') if hasattr(p, '_env') else [p],
    'redirected': lambda p: p | 'nothere' if hasattr(p, '_env') else [p], 'argument': lambda p: p._env.vp(p) if hasattr(p, '_env') else [p],
}


def check_text(h, node, text, what, env=None):
    if 'Failed to print' in text:
        return h.problem('%s of %s gave %s' % (what, short(node), short(text)))
    for n in outer(node):
        if n[0] in 'CX':
            for i, a in enumerate(n[1:]):
                if isinstance(a, str) and a not in text and repr(a) not in text:
                    h.problem('%s of %s does not name %r: %s' % (what, short(node), a, text))
            if n[0] == 'C' and 'vp' not in text:
                h.problem('%s of %s does not name the command: %s' % (what, short(node), text))
        elif n[0] == 'F' and '.f' not in text:
            h.problem('%s of %s does not name the function: %s' % (what, short(node), text))
        elif n[0] == 'I' and n[1] == 'list' and repr(list(n[2])) not in text and 'fd/X' not in text:
            h.problem('%s of %s does not name the items: %s' % (what, short(node), text))
        elif n[0] == 'R' and 'fd/X' not in text:
            for r in n[2:]:
                if (str(r[1]) if r[1] is not None else '/dev/null') not in text or str(r[0]) not in text:
                    h.problem('%s of %s does not name the redirect %r: %s' % (what, short(node), r, text))
    names = lambda n: {} if isinstance(n, str) else n
    if env is not None and env._cwd not in text:
        h.problem('%s of %s does not name the environment: %s' % (what, short(node), text))


def outer(n):
    """The parts of n that its text shows (argument pipelines are shown as a file name)."""
    yield n
    if n[0] in 'PGR':
        for a in n[1:]:
            if isinstance(a, tuple) and a and a[0] in tuple('CIFPGRX'):
                yield from outer(a)


def noargs(n):
    return not any(x[0] == 'C' and any(isinstance(a, tuple) for a in x[1:]) for x in c09.walk(n))


def short(x):
    from ..harness import short
    return short(x, 200)


def nothing(h, count, n, out, what):
    if count.n != n:
        h.problem('%s started %d processes' % (what, count.n - n))
    new = [f for f in os.listdir(h.dir) if f not in ('in1', 'sub')]
    if new:
        h.problem('%s made files %s' % (what, new))


def case(h, item):
    base, seq, interactive, history = item
    from pieshell import redir
    c09.setup(h)
    os.makedirs(h.dir + '/sub', exist_ok=True)
    e = h.env(interactive=interactive)
    given = {'stderr': redir.Redirect(2, redir.STRING)}
    nodes = [c09.BASE[i] for i in base]
    sink = []
    objs = [lib.build(e, n, sink) for n in nodes]
    count = Count(h)
    try:
        con = len(h.console())
        for st in seq:
            nodes.append(c09.node_of(nodes, st))
            objs.append(c09.object_of(e, objs, st, given))
        nothing(h, count, 0, b'', 'composing')
        node, p = nodes[-1], objs[-1]
        leaves = [l for l in c03.leaves(node)]
        ncmd = len([l for l in leaves if l[0][0] in 'CX'])
        fails = any(c03.outcome(*l) for l in leaves)
        r = None
        for how in history:
            for f in os.listdir(h.dir):
                if f.startswith('out'):
                    os.unlink(h.dir + '/' + f)
            n = count.n
            what = '%s in a%s environment' % (how, 'n interactive' if interactive else ' non-interactive')
            if how in QUIET:
                text = None
                k, v, text = display(h, QUIET[how](p), 'repr')
                if k != 'ok':
                    h.problem('%s: %s %s' % (what, k, v))
                nothing(h, count, n, b'', what)
                if how != 'argument':
                    check_text(h, node, text, what, e)
            elif how in ('hook', 'console', 'type') and interactive:
                m = lib.Meaning(h.files)
                want = m.of(node)
                k, v, text = display(h, p, how)
                if k != ('failed' if fails else 'ok'):
                    h.problem('%s: %s %s' % (what, k, v))
                if k == 'failed' and v.pipeline.is_running:
                    h.problem('%s returned while it runs' % what)
                if count.n - n != ncmd:
                    h.problem('%s started %d processes instead of %d' % (what, count.n - n, ncmd))
                if not fails:
                    text = text[:-1] if how != 'type' and text.endswith('\n') else text
                    if not lib.matches(text.encode(), want):
                        h.problem('%s of %s: %r, should be %r' % (what, short(node), text, want))
                c09.check_output(h, node, b'', m, [b''], what)
                if e.running_pipelines:
                    h.problem('%s: still running: %s' % (what, e.running_pipelines))
            elif how in ('hook', 'console', 'type'):
                k, v, text = display(h, p, how)
                if k != 'ok':
                    h.problem('%s: %s %s' % (what, k, v))
                nothing(h, count, n, b'', what)
                check_text(h, node, text, what, e)
            elif how == 'run':
                c09.one(h, p, node, 'file', what)
                for f in os.listdir(h.dir):
                    if f.startswith(('out', 'cap')):
                        os.unlink(h.dir + '/' + f)
            elif how == 'bad':           # something that cannot be displayed

                class Bad:
                    def __repr__(self):
                        raise ValueError('bad')
                repr(Bad()), repr([p, Bad()])
                nothing(h, count, n, b'', what)
            elif how == 'tab':           # the TAB key before displaying
                import readline
                from pieshell import environ, jedi_completion
                scope = environ.EnvScope(env=e)
                dict.__setitem__(scope, 'pipeline', p)
                jedi_completion.setup_readline([scope])
                for text in ('pipel', 'env.vp', '('):
                    h.attempt(lambda: [readline.get_completer()(text, i) for i in range(3)])
                nothing(h, count, n, b'', 'completion')
            elif how in ('started', 'during'):
                # objects that stand for a run
                r = p.run([redir.Redirect(1, 'cap')])
                if how == 'started':
                    h.attempt(lambda: h.run(r.wait()))
                n = count.n
                out = h.read_file('cap')
                for w, x in [('the running pipeline', r), ('its pipeline', r.pipeline), ('the last pipeline', e.last_pipeline), ('running pipelines', e.running_pipelines)] + [
                        ('member', q) for q in r.processes] + [('command', q.cmd) for q in r.processes]:
                    for d in ('hook', 'repr', 'type'):
                        k, v, text = display(h, x, d)
                        if k != 'ok':
                            h.problem('%s: %s with %s: %s %s' % (what, w, d, k, v))
                        if count.n != n:
                            h.problem('%s: displaying %s with %s started %d processes' % (what, w, d, count.n - n))
                            n = count.n
                        if w in ('the running pipeline', 'its pipeline', 'the last pipeline'):
                            check_text(h, node, text, '%s: %s' % (what, w))
                            if noargs(node):
                                for q in r.processes:
                                    if hasattr(q.iohandler, 'pid') and str(q.pid) not in text:
                                        h.problem('%s: %s does not name the process %s: %s' % (what, w, 'PID', text))
                k, v = h.attempt(lambda: h.run(r.wait()))
                if k == 'failed':
                    k2, v2, text = display(h, v, 'hook')
                    if k2 != 'ok':
                        h.problem('%s: displaying the failure: %s %s' % (what, k2, v2))
                    k2, v2 = h.attempt(lambda: str(v))
                    if k2 != 'ok':
                        h.problem('%s: printing the failure: %s %s' % (what, k2, v2))
                    if count.n != n:
                        h.problem('%s: displaying the failure started %d processes' % (what, count.n - n))
                h.read_file('cap') and os.unlink(h.dir + '/cap')
                for f in os.listdir(h.dir):
                    if f.startswith(('out', 'cap')):
                        os.unlink(h.dir + '/' + f)
            else:
                raise ValueError(how)
    finally:
        count.stop()
    h.count(item)
    for f in os.listdir(h.dir):
        if f != 'sub':
            os.unlink(h.dir + '/' + f)


def builtin(h, item):
    """Builtins run when displayed, too."""
    interactive, how = item
    os.makedirs(h.dir + '/sub', exist_ok=True)
    os.chdir(h.dir)
    e = h.env(interactive=interactive)
    k, v, text = display(h, e.cd('sub'), how)
    runs = interactive and how != 'repr'
    if k != 'ok':
        h.problem('displaying cd: %s %s' % (k, v))
    if (e._cwd == h.dir + '/sub') != runs:
        h.problem('after displaying cd with %s in an environment with interactive=%s the directory is %s' % (how, interactive, e._cwd))
    if not runs and ('cd' not in text or 'sub' not in text):
        h.problem('cd is displayed as %s' % text)
    h.count(item)


def requests(h):
    """Ctrl-Z or Ctrl-C while a displayed pipeline runs."""
    e = h.env(interactive=True)
    node = h.p['node']
    p = lib.build(e, node, [])
    h.ctl.events = [(h.p['event'], lambda: len(h.ctl.procs) > 0)]
    k, v = h.attempt(lambda: sys.displayhook(p))
    fired = not h.ctl.events
    h.ctl.events = []
    h.obs['k'] = k, fired
    if k != 'ok':
        return h.problem('displaying with %s: %s %s' % (h.p['event'], k, v))
    n = len([l for l in c03.leaves(node) if l[0][0] in 'CX'])
    if len(h.ctl.procs) > n or len(h.ctl.procs) < n and not fired:
        h.problem('displaying with %s started %d processes instead of %d' % (h.p['event'], len(h.ctl.procs), n))
    if not fired and h.unended():
        h.problem('the display ended before the pipeline')
    k, v = h.attempt(lambda: sys.displayhook(e.running_pipelines))
    if len(h.ctl.procs) > n:
        h.problem('displaying the running pipelines starts processes')
    if fired and e.running_pipelines:
        r = e.running_pipelines[0]
        k, v = h.attempt(lambda: h.run(r.wait()))
        if k not in ('ok', 'failed'):
            h.problem('waiting afterwards: %s %s' % (k, v))


def watched(h):
    """The running pipeline is displayed at every moment of its life."""
    e = h.env(interactive=h.p['interactive'])
    node = h.p['node']
    seen = set()
    state = {}

    def monitor():
        r = state.get('r')
        if r is None:
            return
        n = len(h.ctl.procs)
        pre, h.ctl.preempts = h.ctl.preempts, False
        mon, h.ctl.monitor = h.ctl.monitor, None
        try:
            for x in [r, r.pipeline, e.running_pipelines] + list(r.processes) + [q.cmd for q in r.processes]:
                try:
                    text = type(x).__repr__(x)
                except BaseException as ex:
                    h.problem('displaying %s: %s %s' % (type(x).__name__, type(ex).__name__, ex))
                    state['r'] = None
                    break
                if x is r.pipeline:
                    for a in c09.walk(node):
                        if a[0] == 'C' and a[-1] not in text:
                            h.problem('%r is displayed as %s' % (node, text))
                            state['r'] = None
        finally:
            h.ctl.preempts = pre
            h.ctl.monitor = mon
        if len(h.ctl.procs) != n:
            h.problem('displaying a running pipeline started something')
            state['r'] = None
    h.ctl.monitor = monitor
    p = lib.build(e, node, [])
    h.ctl.events = [(x, lambda: len(h.ctl.procs) > 0 and h.ctl.procs[0].state == 'live') for x in h.p.get('events', ())]
    if h.p.get('events'):
        h.ctl.events.append(('sig:0:18', lambda: len(h.ctl.procs) > 0 and h.ctl.procs[0].state == 'stopped', True))
    state['r'] = p.run()
    h.attempt(lambda: h.run(state['r'].wait()) if state['r'] else None)
    monitor()


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    items = []
    hists = [('hook', 'repr', 'hook'), ('list', 'console', 'pipe'), ('bad', 'type', 'group', 'hook'), ('run', 'exception', 'hook', 'dict'), ('tab', 'console', 'tab', 'repr', 'hook'), ('started', 'hook', 'redirected'), ('during', 'argument', 'console')]
    comps = [((b,), ()) for b in range(8)] + c09.compositions(2, (0, 1, 2, 3)) + c09.compositions(2, (0, 4, 5, 6))
    comps = [x for x in comps if c09.valid_seq(x)]
    if not t:
        comps = [x for i, x in enumerate(comps) if len(x[1]) < 2 or i % 8 == 0]
    for i, (b, s) in enumerate(comps):
        for inter in (False, True):
            hs = hists if t else [hists[(i + 3 * inter) % 7], hists[(i + 3 * inter + 2) % 7]] if len(s) < 2 else [hists[(i + inter) % 7]]
            items += [(b, s, inter, x) for x in hs]
    some = [((0, 1, 2, 3), (('|', 0, 1),)), ((0, 1, 2, 3), (('|', 0, 2), ('+', 4, 3))), ((4, 1, 2, 3), (('2>', 0),)), ((0, 1, 2, 3), (('>', 0, 0),))]
    ops = ['hook', 'console', 'type', 'run', 'bad', 'tab', 'started', 'during'] + sorted(QUIET)
    for n in (1, 2) if not t else (1, 2, 3):
        for j, x in enumerate(itertools.product(ops, repeat=n)):
            for i, (b, s) in enumerate(some):
                if n < 2 or t or (j + i) % 3 == 0:
                    items += [(b, s, inter, x) for inter in (False, True)]
    out.append(Scen('display', case, sched=False, items=items, chunk=8, timeout=90))
    out.append(Scen('builtin', builtin, sched=False, items=[(i, d) for i in (False, True) for d in ('hook', 'console', 'type', 'repr')]))
    nodes = [C('o:a/', 'n', 'o:b/'), P(C('o:a/', 'o:b/'), C('u')), P(I('slow', ['a', 'b']), C('c')), P(C('o:a/', 'n'), F('ex'), C('c')), P(C('n', 'x:1'), C('c', 'n'))]
    for i, n in enumerate(nodes):
        for ev in ('CtrlZ', 'CtrlC'):
            if i == 4:
                continue
            out.append(Scen('%s %d' % (ev, i), requests, node=n, event=ev, bound=2 if t else 1, cap=500 if t else 40))
        for inter in (False, True):
            out.append(Scen('watched %d %s' % (i, inter), watched, node=n, interactive=inter, events=(), bound=2 if t else 1, cap=400 if t else 30))
            out.append(Scen('watched stopped %d %s' % (i, inter), watched, node=n, interactive=inter, events=('sig:0:19',), bound=2, cap=400 if t else 30))
    return out
