"""C11: environments are isolated from each other."""
import os, posixpath
from ..explore import Scen
from .. import lib, model

ASSUMPTIONS = ['states: all states of the reference model (at most three environments) reachable with the listed number of operations, each reached by a shortest path, and every operation in each of them',
               'directories named in histories: existing, missing, no directory, relative, absolute, below the home directory, through ..; the dictionaries given as exports are not used for anything else']
TOP = 'R/p/p/p/p'
D = TOP + '/t'
HOME = TOP + '/h'
DIRS = [D, D + '/sub', D + '/sub/deep', D + '/other', D + '/od[d] *', HOME, HOME + '/x'] + ['R' + '/p' * n for n in range(5)]
BASE = (('A', '1'), ('B', 'two words'))
E0 = (D, BASE, False, 'null', 'tty', 'STRING')     # directory, exports (None: those of the process), interactive, stdin, stdout, stderr


def init(interactive=False, shared=False):
    return (D, BASE, (((D, None if shared else BASE, interactive) + E0[3:]),))


def resolve(cwd, path):
    path = path.replace('PARENT', '..')
    if path.startswith('~'):
        path = HOME + path[1:]
    if path[:2] == 'D/':
        path = D + path[1:]
    if path[:1] not in 'R/':
        path = cwd + '/' + path
    return posixpath.normpath(path)


def good(path):
    return path in DIRS


def exports(st, e):
    return st[1] if e[1] is None else e[1]


def put(pairs, *new):
    d = dict(pairs)
    for k, v in new:
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
    return tuple(sorted(d.items()))


def step(st, op):
    proc, penv, envs = st
    kind, i = op[0], op[1]
    if i >= len(envs):
        return None
    e = envs[i]
    if kind == 'cd':
        to = resolve(e[0], op[2])
        if not good(to):
            return st
        if e[2]:
            proc = to
        e = (to,) + e[1:]
    elif kind in ('copy', 'item'):
        if len(envs) >= 3:
            return None
        kw = dict(op[2])
        cwd = resolve(e[0], kw['cwd']) if 'cwd' in kw else e[0]
        inter = kw.get('interactive', e[2])
        if inter:
            proc = e[0]
        if not good(cwd):
            return (proc, penv, envs)
        if inter:
            proc = cwd
        new = (cwd, kw.get('exports', exports(st, e)), inter) + (('null', 'tty', 'STRING') if 'redirects' in kw else e[3:])
        return (proc, penv, envs + (new,))
    elif kind in ('exp', 'unexp', 'upd'):
        ch = dict(exp=lambda: ((op[2], op[3]),), unexp=lambda: ((op[2], None),), upd=lambda: op[2])[kind]()
        if e[1] is None:
            penv = put(penv, *ch)
        else:
            e = (e[0], put(e[1], *ch)) + e[2:]
    elif kind == 'clear':
        if e[1] is None:
            return None
        e = (e[0], ()) + e[2:]
    elif kind == 'set':
        e = (e[0], tuple(sorted(op[2]))) + e[2:]
    elif kind == 'del':
        e = (e[0], None) + e[2:]
    elif kind == 'red':
        e = list(e)
        e[3 + op[2]] = op[3]
        e = tuple(e)
    elif kind == 'penv':
        penv = put(penv, (op[2], op[3]))
    elif kind == 'chdir':
        proc = op[2]
    else:
        raise ValueError(kind)
    return (proc, penv, envs[:i] + (e,) + envs[i + 1:])


CDS = [('cd', 'sub', 'builtin'), ('cd', '..', 'builtin'), ('cd', 'PARENT', 'attr'), ('cd', 'sub/deep', 'builtin'), ('cd', 'sub/deep', 'attr'), ('cd', 'D/other', 'run'), ('cd', 'nothere', 'builtin'), ('cd', 'file', 'builtin'),
       ('cd', '~', 'none'), ('cd', '~/x', 'builtin'), ('cd', 'sub/../other', '_cd'), ('cd', D, 'builtin'), ('cd', 'D/od[d] *', 'builtin'), ('cd', 'D/nothere', '_cd'), ('cd', '.', 'builtin'), ('cd', 'sub/nothere', 'attr')]
COPIES = [('copy', ()), ('copy', (('cwd', 'sub'),)), ('copy', (('cwd', 'nothere'),)), ('copy', (('cwd', 'D/other'), ('interactive', True))), ('copy', (('exports', (('C', '3'),)),)), ('copy', (('exports', ()),)),
          ('copy', (('interactive', True),)), ('copy', (('interactive', False),)), ('copy', (('redirects', True),)), ('item', (('cwd', 'sub'),)), ('item', (('cwd', '..'),)), ('item', (('cwd', 'file'),)), ('item', (('cwd', '~/x'),))]
EXPS = [('exp', 'A', '9'), ('exp', 'NEW', 'n e w'), ('exp', 'A', ''), ('unexp', 'A'), ('upd', (('A', 'u'), ('U', 'x=y\n'))), ('clear',), ('set', (('Z', 'z'),)), ('del',), ('exp', 'B', 'y')]
REDS = [('red', 1, 'out'), ('red', 0, 'in'), ('red', 1, '/dev/null'), ('red', 0, '/dev/null'), ('red', 2, 'err'), ('red', 1, 'sub/out'), ('red', 1, 'D/other/out')]
OUTER = [('penv', 'A', 'p'), ('penv', 'P', 'q'), ('chdir', D + '/other')]


def ops(which):
    def f(st):
        one = CDS + COPIES + EXPS + REDS
        one = [one[k] for k in which or range(len(one))]
        for i in range(len(st[2])):
            for o in one:
                if (o[0] == 'clear' or o[0] == 'unexp') and st[2][i][1] is None:
                    continue
                yield (o[0], i) + o[1:]
        for o in OUTER if which is ALL else OUTER[:1]:
            yield (o[0], 0) + o[1:]
    return f


ALL = ()
TINY = (0, 5, 6, 16, 17, 29, 38)
SMALL = (0, 1, 5, 6, 8, 16, 17, 20, 22, 29, 30, 32, 34, 38, 40)


class Real:
    def __init__(self, h, interactive=False, shared=False):
        from pieshell import environ
        self.h = h
        if not hasattr(h, 'environ0'):
            h.environ0 = dict(os.environ)
            for d in DIRS:
                os.makedirs(self.path(d), exist_ok=True)
            for d in DIRS:
                for f, data in (('file', b''), ('in', b'input/\n')):
                    with open(self.path(d) + '/' + f, 'wb') as fd:
                        fd.write(data + d.encode())
        self.reset()
        e = environ.Environment(cwd=self.path(D), exports=None if shared else self.dict(BASE), interactive=interactive)
        self.envs = [e]

    def reset(self):
        os.chdir(self.path(D))
        os.environ.clear()
        os.environ.update(self.dict(BASE))
        os.environ.update(PATH=self.h.environ0['PATH'], HOME=self.path(HOME), TMPDIR=self.h.tmp)

    def restore(self):
        os.chdir(self.h.dir)
        os.environ.clear()
        os.environ.update(self.h.environ0)

    def path(self, p):
        if p[:2] == 'D/':
            p = D + p[1:]
        if p[:1] == 'R':
            return self.h.dir + p[1:]
        return p

    def dict(self, pairs):
        return dict(pairs)

    def do(self, op):
        from pieshell import redir
        kind, e = op[0], self.envs[op[1]]
        if kind == 'cd':
            path, how = self.path(op[2]), op[3]
            if how == 'builtin':
                p = e.cd(path)
            elif how == 'attr':
                p = e.cd
                for part in path.split('/'):
                    p = getattr(p, part) if part.isidentifier() else p(part)
            elif how == 'none':
                p = e.cd
            elif how == 'run':
                p = e.cd(path)
            if how == '_cd':
                return e._cd(path)
            if how == 'run':
                return self.h.run(p.run().wait())
            return p.run_interactive()
        elif kind in ('copy', 'item'):
            kw = dict(op[2])
            if 'cwd' in kw:
                kw['cwd'] = self.path(kw['cwd'])
            if 'exports' in kw:
                kw['exports'] = self.dict(kw['exports'])
            if 'redirects' in kw:
                r = redir.Redirects()
                r.redirect(0, 0, borrowed=True)
                r.redirect(1, 1, borrowed=True)
                r.redirect(2, redir.STRING)
                kw['redirects'] = r
            self.envs.append(e[kw['cwd']] if kind == 'item' else e(**kw))
        elif kind == 'exp':
            e._exports[op[2]] = op[3]
        elif kind == 'unexp':
            e._exports.pop(op[2], None)
        elif kind == 'upd':
            e._exports.update(dict(op[2]))
        elif kind == 'clear':
            e._exports.clear()
        elif kind == 'set':
            e._exports = self.dict(op[2])
        elif kind == 'del':
            del e._exports
        elif kind == 'red':
            name = self.path(op[3])
            if op[2] == 0:
                name | e
            elif op[2] == 1:
                e | (None if name == '/dev/null' else name)
            else:
                e | redir.Redirect(2, name)
        elif kind == 'penv':
            os.environ[op[2]] = op[3]
        elif kind == 'chdir':
            os.chdir(self.path(op[2]))


EXTRA = ('PATH', 'HOME', 'TMPDIR')


def check(h, real, st, item, mode):
    from .. import ctl
    proc, penv, envs = st
    h.expect(os.getcwd(), real.path(proc), 'the directory of the shell')
    h.expect({k: v for k, v in os.environ.items() if k not in EXTRA}, dict(penv), 'the environment of the shell')
    for i, (e, m) in enumerate(zip(real.envs, envs)):
        h.expect(e._cwd, real.path(m[0]), 'the directory of environment %d' % i)
        h.expect({k: v for k, v in dict(e._exports).items() if k not in EXTRA}, dict(exports(st, m)), 'exports of environment %d' % i)
        h.expect(e._interactive, m[2], 'interactive of environment %d' % i)
        if real.path(m[0]) not in repr(e):
            h.problem('environment %d is displayed as %r' % (i, repr(e)))
    if len(real.envs) != len(envs):
        return h.problem('%d environments' % len(real.envs))
    vp = BASEVP
    reps = [h.tmp + '/rep%d' % i for i in range(len(envs))]
    outs = {}
    for i, m in enumerate(envs):
        if m[4] not in ('tty', '/dev/null'):
            f = real.path(resolve(m[0], m[4]))
            d = os.path.dirname(f)
            if not os.path.isdir(d):
                return                    # commands can not run with this redirect
            if os.path.exists(f):
                os.unlink(f)
    before = set(os.listdir(h.tmp))
    idx = range(len(envs))
    if mode == 'single':
        runs = [[i] for i in idx]
    else:
        runs = [list(idx)] if mode != 'func' else [[i] for i in idx]
    for run in runs:
        cmds = [real.envs[i]._(vp(h), 'D:' + reps[i]) for i in run]
        if mode == 'single':
            p = cmds[0]
        elif mode == 'pipe':
            p = cmds[0]
            for c in cmds[1:]:
                p = p | c
        elif mode == 'group':
            p = cmds[-1]
            for c in cmds[-2::-1]:
                p = p + c
        elif mode == 'arg':
            p = cmds[0]
            for c in cmds[1:]:
                p = c(p)
        elif mode == 'func':
            p = cmds[0]('o:abc/') | lib.function('up')
        k, v = h.attempt(lambda: h.run(p.run().wait()))
        if k != 'ok':
            h.problem('running commands in %s: %s %s' % (run, k, v))
        for i in run:
            m = envs[i]
            try:
                with open(reps[i]) as f:
                    rep = ctl.parse_report(f.read())
                os.unlink(reps[i])
            except OSError as ex:
                h.problem('the command of environment %d did not run' % i)
                continue
            h.expect(os.path.realpath(rep['cwd']), os.path.realpath(real.path(m[0])), 'the directory of a command of environment %d' % i)
            want = dict(exports(st, m))
            h.expect({k: v for k, v in rep['env'].items() if k not in EXTRA}, want, 'the variables of a command of environment %d' % i)
            if mode in ('single', 'func'):
                link = {fd: x[4] for fd, x in rep['fds'].items()}
                inp = {'null': '/dev/null', 'in': real.path(resolve(m[0], 'in')), '/dev/null': '/dev/null'}[m[3]]
                h.expect(link.get(0), inp, 'the standard input of a command of environment %d' % i)
                out = h.workdir + '/console' if m[4] == 'tty' else m[4] if m[4] == '/dev/null' else real.path(resolve(m[0], m[4]))
                if mode == 'single':
                    h.expect(link.get(1), out, 'the standard output of a command of environment %d' % i)
                elif m[4] not in ('tty', '/dev/null'):
                    with open(out, 'rb') as f:
                        h.expect(f.read(), b'ABC\n', 'the output of a function in environment %d' % i)
                if m[5] == 'STRING':
                    if not link.get(2, '').startswith(h.tmp):
                        h.problem('the standard error of a command of environment %d is %s' % (i, link.get(2)))
                else:
                    h.expect(link.get(2), real.path(resolve(m[0], m[5])), 'the standard error of a command of environment %d' % i)
    for f in os.listdir(h.tmp):
        if f not in before:
            h.problem('left %s' % f)


def BASEVP(h):
    return h.workdir + '/free/vp'


def case(h, item):
    path, mode, kw = item
    kw = dict(kw)
    real = Real(h, **kw)
    st = init(**kw)
    try:
        for op in path:
            st2 = step(st, op)
            fails = op[0] == 'cd' and not good(resolve(st[2][op[1]][0], op[2])) or op[0] in ('copy', 'item') and 'cwd' in dict(op[2]) and not good(resolve(st[2][op[1]][0], dict(op[2])['cwd']))
            k, v = h.attempt(lambda: real.do(op))
            if (k == 'exc') != fails or k not in ('ok', 'exc') or k == 'exc' and not isinstance(v, OSError):
                h.problem('%s: %s %s' % (op, k, v))
            st = st2
            h.ops += 1
        check(h, real, st, item, mode)
    finally:
        real.restore()
    h.count(st)


def lookup(h, item):
    """Commands are looked up with the PATH of their environment, as it is when they run."""
    first, second, how = item
    for d in ('p1', 'p2', 'sub/p1'):
        os.makedirs(h.dir + '/' + d, exist_ok=True)
        with open(h.dir + '/' + d + '/where', 'w') as f:
            f.write('#!/bin/sh\necho %s\n' % d)
        os.chmod(h.dir + '/' + d + '/where', 0o755)
    full = lambda p: ':'.join(h.dir + '/' + x[1:] if x[:1] == '/' else x for x in p)
    def found(cwd, p):
        for x in p:
            d = x[1:] if x[:1] == '/' else posixpath.normpath(posixpath.join(cwd, x))
            if d in ('p1', 'p2', 'sub/p1'):
                return d
    a = h.env(exports={'PATH': full(first)})
    b = {'copy': lambda: a(exports={'PATH': full(second)}), 'set': lambda: a(), 'cd': lambda: a('sub'), 'new': lambda: h.env(exports={'PATH': full(second)})}[how]()
    pa, pb = a.where, b.where
    if how == 'set':
        b._exports['PATH'] = full(second)
    for name, p, cwd, path in (('first', pa, '', first), ('second', pb, 'sub' if how == 'cd' else '', first if how == 'cd' else second), ('first', pa, '', first)):
        want = found(cwd, path)
        k, v = h.attempt(lambda: list(p))
        if k != ('ok' if want else 'failed') or want and v != [want]:
            h.problem('the command found in the %s environment: %s %s, should be %s' % (name, k, v, want))
    h.ops += 3
    h.count(('path', item))


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    others = ('pipe', 'group', 'arg', 'func')
    for name, kw in (('plain', ()), ('interactive', (('interactive', True),)), ('shared', (('shared', True),))):
        plain = name == 'plain'
        first = init(**dict(kw))
        items = {}

        def add(which, depth, full, modes):
            for p in model.transitions(first, ops(which), step, depth, full)[0]:
                items.update(((p, m, kw), 1) for m in modes)
        add(ALL, 2, 2 if t or plain else 1, ('single',) + (others if t else ()))
        if t or plain:
            add(SMALL, 2, 2, others)
            add(SMALL, 3, 2, ('single',) + (others if t and plain else ()))
        if t and plain:
            add(TINY, 4, 2, ('single',))
        out.append(Scen('histories ' + name, case, sched=False, items=list(items), chunk=30, timeout=120))
    ps = [(), ('/p1',), ('/p2',), ('p1',), ('/p1', '/p2'), ('/p2', 'p1'), ('nothere', '/p2')]
    out.append(Scen('PATH', lookup, sched=False, items=[(x, y, z) for x in ps for y in ps for z in ('copy', 'set', 'cd', 'new')], chunk=30))
    return out

