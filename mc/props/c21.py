"""C21: completion lists are complete and never fail."""
import os, sys, itertools
from ..explore import Scen
from .. import lib

LEVEL = 'model_checking'
ASSUMPTIONS = ['the tool get_completions is a stand-in that reports the command line it was given, as bash reads it',
               'what the jedi package makes of the names offered is its own affair']


# ---------------------------------------------------------------- names on PATH

DIRS = {        # entry of PATH: directory below the scratch directory it means, with the environment in home or in other (None: there is none)
    '{d}/bin': ('bin', 'bin'), '{d}/sbin': ('sbin', 'sbin'), '{d}/missing': (None, None), '{d}/file': (None, None), '{d}/loop': (None, None),
    '{d}/locked': (None, None), '{d}/link': ('bin', 'bin'), '{d}/bin/': ('bin', 'bin'), '{d}/sbin/../bin': ('bin', 'bin'), '{d}/empty': ('empty', 'empty'), 'rel': ('home/rel', 'other/rel'),
    '../sbin': ('sbin', 'sbin'), '.': ('home', 'other'), '': ('home', 'other'), '{d}/sp ace': ('sp ace', 'sp ace'), './rel/.': ('home/rel', 'other/rel'), 'late': ('home/late', None), '~': (None, None), '{d}/%s': (None, None),
}
TREE = {'bin': ['one', 'two', 'dup'], 'sbin': ['three', 'dup', '.hidden', 'with space', 'sub/'], 'empty': [], 'home': ['own', 'rel/'], 'other': ['others', 'rel/'], 'home/rel': ['r1'], 'other/rel': ['r2'],
        'sp ace': ['s'], '.': ['file', 'loop@loop', 'link@bin']}


def tree(h):
    for n in os.listdir(h.dir):
        p = h.dir + '/' + n
        if os.path.islink(p) or not os.path.isdir(p):
            os.unlink(p)
        else:
            import shutil
            shutil.rmtree(p)
    for d, names in TREE.items():
        os.makedirs(h.dir + '/' + d, exist_ok=True)
        for n in names:
            if n.endswith('/'):
                os.makedirs('%s/%s/%s' % (h.dir, d, n), exist_ok=True)
            elif '@' in n:
                os.symlink(n.split('@')[1], '%s/%s/%s' % (h.dir, d, n.split('@')[0]))
            else:
                open('%s/%s/%s' % (h.dir, d, n), 'w').close()


def subclasses(cls):
    for c in type.__subclasses__(cls):
        yield c
        yield from subclasses(c)


def builtin_names(extra=()):
    from pieshell.pipeline import builtin
    return {c.name for c in subclasses(builtin.Builtin) if getattr(c, 'name', None) and (c.__module__.startswith('pieshell.') or c.name in extra)}


REAL = os.listdir


def listdir(h):
    """Root can read everything: a stand-in for a directory without permissions."""
    def f(p='.'):
        if os.path.abspath(os.fsdecode(p) if isinstance(p, bytes) else p) == h.dir + '/locked':
            raise PermissionError(13, 'Permission denied', p)
        return REAL(p)
    return f


def listed(h, path, where, extra=()):
    names = builtin_names(extra)
    for p in path:
        d = DIRS[p][where]
        if d is not None and os.path.isdir(h.dir + '/' + d):
            names |= set(REAL(h.dir + '/' + d))
    return names


def paths(h, item):
    path, where, clear, repeat = item
    if not hasattr(h, 'made'):
        tree(h)
        os.makedirs(h.dir + '/locked')
        h.made = True
        os.listdir = listdir(h)
    ex = dict(HOME=h.dir) if path is None else dict(HOME=h.dir, PATH=':'.join(path).replace('{d}', h.dir))
    e = h.env(cwd=h.dir + '/' + ('home', 'other')[where], exports=ex)
    want = listed(h, path, where) if path is not None else builtin_names() | {n for p in os.defpath.split(':') if os.path.isdir(p) for n in REAL(p)}
    k, got = h.attempt(lambda: dir(e))
    if k != 'ok':
        h.problem('dir of an environment with PATH %r: %s %r' % (path, k, got))
    else:
        h.expect(sorted(set(got)), sorted(want), 'names with PATH %r in %s' % (path, ('home', 'other')[where]))
    # a scope
    from pieshell import environ
    s = environ.EnvScope(env=e)
    dict.__setitem__(s, 'local', 1)
    k, got = h.attempt(lambda: (list(s), list(s.keys()), set(dict(s)) and None))
    if k != 'ok':
        h.problem('names of a scope with PATH %r: %s %r' % (path, k, got))
    else:
        for g in got[:2]:
            h.expect(sorted(set(g)), sorted(want | {'local', 'env'} | set(ex)), 'names of a scope with PATH %r' % (path,))
    h.count(item)


# Histories: what happens to an environment, its PATH and the directories between listings
OPS = ['add', 'del', 'path', 'unset', 'cd', 'mkdir', 'clear', 'list', 'reg', 'copy', 'back']


def histories(h, ops):
    from pieshell import pipeline
    from pieshell.pipeline import builtin
    tree(h)
    e = h.env(cwd=h.dir + '/home', exports=dict(HOME=h.dir, PATH=':'.join(['{d}/bin', 'rel', 'late']).replace('{d}', h.dir)))
    envs = [e]
    st = dict(path=['{d}/bin', 'rel', 'late'], where=[0], cur=0, reg=(), n=0)
    possible = [[]]                  # what each environment may list
    since = [[]]                     # the states since its cache was cleared
    saved = dict(builtin.BuiltinRegistry.builtins)

    def now(i):
        return frozenset((listed(h, st['path'], st['where'][i], st['reg']) if st['path'] is not None else listed(h, [], 0, st['reg']) | {n for p in os.defpath.split(':') if os.path.isdir(p) for n in REAL(p)}))
    fresh = [True]
    cached = [None]
    try:
        for op in list(ops) + ['list', 'clear', 'list']:
            i = st['cur']
            e = envs[i]
            if op == 'add':
                st['n'] += 1
                open('%s/bin/new%d' % (h.dir, st['n']), 'w').close()
            elif op == 'del':
                for f in REAL(h.dir + '/bin'):
                    os.unlink(h.dir + '/bin/' + f)
                os.rmdir(h.dir + '/bin')
                os.makedirs(h.dir + '/bin')
            elif op == 'path':
                st['path'] = ['{d}/sbin', '.']
                for x in envs:
                    x._exports['PATH'] = ':'.join(st['path']).replace('{d}', h.dir)
            elif op == 'unset':
                st['path'] = None
                for x in envs:
                    x._exports.pop('PATH', None)
            elif op == 'cd':
                st['where'][i] = 1 - st['where'][i]
                e.cd('../' + ('home', 'other')[st['where'][i]]).run_interactive()
            elif op == 'mkdir':
                os.makedirs(h.dir + '/home/late', exist_ok=True)
                open(h.dir + '/home/late/l%d' % st['n'], 'w').close()
            elif op == 'clear':
                e.clear_dir_cache().run_interactive()
                cached[i] = None
            elif op == 'reg':
                st['reg'] = ('magic',)

                class Magic(builtin.Builtin):
                    name = 'magic'
                pipeline.BuiltinRegistry.register(Magic)
            elif op == 'copy':
                if len(envs) < 2:
                    envs.append(e(exports=e._exports))
                    st['where'].append(st['where'][i])
                    cached.append(None)
                st['cur'] = 1
            elif op == 'back':
                st['cur'] = 0
            # any state since the first listing after the cache was cleared is what it may show; a listing right after clearing must be current
            for j in range(len(envs)):
                if cached[j] is not None:
                    cached[j].add(now(j))
            if op == 'list':
                cur = now(i)
                k, got = h.attempt(lambda: frozenset(dir(e)))
                if k != 'ok':
                    h.problem('%s: dir fails: %r' % (ops, got))
                elif cached[i] is None and got != cur or got not in (cached[i] or ()) and got != cur:
                    h.problem('%s: names of environment %d are wrong: missing %s, too many %s' % (ops, i, sorted(cur - got)[:5], sorted(got - cur)[:5]))
                if cached[i] is None:
                    cached[i] = {cur}
    finally:
        builtin.BuiltinRegistry.builtins.clear()
        builtin.BuiltinRegistry.builtins.update(saved)
    h.count(ops)
    h.ops += len(ops)


# ---------------------------------------------------------------- cd

CDTREE = ['a/', 'a/sub/', 'a/sub/deep/', 'a/file', 'b/', 'b/.hidden/', 'b/sp ace/', 'file', 'home/', 'home/h/', 'link@a', 'broken@nowhere', 'tofile@file', 'a/PARENT/', 'loop@loop', 'b/same/', 'same', 'in/', 'in/x/', '%s/', '%s/p/', '*/', '*/star/']
WORDS = ['a', 'b', 'sub', 'PARENT', 'ROOT', '~', '{d}', 'a/sub', '..', '.', 'file', 'missing', 'link', 'broken', '', 'home', '%s', '*']


def cds(h, item):
    if not hasattr(h, 'made'):
        h.made = True
        for n in CDTREE:
            p = h.dir + '/' + n.split('@')[0]
            if n.endswith('/'):
                os.makedirs(p)
            elif '@' in n:
                os.symlink(n.split('@')[1], p)
            else:
                open(p, 'w').close()
    args, cwd, interactive = item
    old = os.getcwd()
    h.env(cwd=h.dir + '/in', interactive=True)          # where the process is
    was = os.getcwd()
    saved = os.environ.get('HOME')
    os.environ['HOME'] = h.dir + '/home'
    try:
        e = h.env(cwd=h.dir + cwd)
        c = e.cd(*[a.replace('{d}', h.dir) for a in args]) if args else e.cd
        pth = h.dir + cwd
        if args:
            p = os.path.join(*[{'PARENT': '..', 'ROOT': '/'}.get(a, a.replace('{d}', h.dir)) for a in args])
            p = os.path.expanduser(p) if p.startswith('~') else os.path.join(pth, p)
            pth = os.path.abspath(p)
        want = {n for n in REAL(pth) if os.path.isdir(os.path.join(pth, n))} if os.path.isdir(pth) else set()
        if args and args[0].startswith('~') and len(args) > 1 and '~' in args[1:]:
            pass
        k, got = h.attempt(lambda: dir(c))
        if k != 'ok':
            h.problem('dir(cd%r): %s %r' % (args, k, got))
        else:
            h.expect(sorted(set(got)), sorted(want | {'PARENT', 'ROOT'}), 'directories after cd%r in %r' % (args, cwd))
        if os.getcwd() != was or e._cwd != h.dir + cwd:
            h.problem('listing directories of cd%r changes the directory' % (args,))
        if args:
            k, got = h.attempt(c.run_interactive)
            if (k == 'ok') != os.path.isdir(pth) or e._cwd != (pth if os.path.isdir(pth) else h.dir + cwd) or os.getcwd() != was:
                h.problem('cd%r in %r: %s %r, in %r now, should be %r' % (args, cwd, k, got, e._cwd, pth))
    finally:
        os.environ['HOME'] = saved
    h.count(item)


# ---------------------------------------------------------------- arguments of commands

STANDIN = '''#!/bin/bash
printf '%%s\\0' "$#" "$1" > '%(log)s'
shopt -u failglob nullglob
eval set -- "$1"
printf '%%s\\0' "$@" >> '%(log)s'
%(out)s
'''
RAW = ['a', 'a b', "it's", '$(touch pwned)', '`touch pwned`', ';touch pwned', '*', '%x', '%', '~', 'a\nb', '\\', '"', '#', '&', '$HOME', '{a,b}', '\xe9', '-l', '', '[ab', '!x', 'a\tb', '>pwned', '$\'x\'']
OUT = {'lines': ("printf 'one\\n two \\nthree'", ['one', 'two', 'three']), 'none': ('true', []), 'empty': ("echo", ['']), 'fails': ('exit 1', None), 'half': ('echo one; exit 3', None), 'bytes': ("printf '\\xff\\n'", None), 'killed': ('kill -9 $$', None), 'long': ("for ((i=0;i<3000;i++)); do echo name$i; done", ['name%d' % i for i in range(3000)])}


def commands(h, item):
    from pieshell import environ
    R = environ.R
    args, out, kind = item
    d = h.dir + '/tools'
    log = h.tmp + '/args'
    if not os.path.exists(d):
        os.makedirs(d)
    if os.path.exists(log):
        os.unlink(log)
    for n in ('pwned', 'f1', 'f2'):
        if os.path.exists(h.dir + '/' + n):
            os.unlink(h.dir + '/' + n)
    for n in ('f1', 'f2'):
        open(h.dir + '/' + n, 'w').close()
    tool = d + '/get_completions'
    if out == 'missing':
        if os.path.exists(tool):
            os.unlink(tool)
    else:
        with open(tool, 'w') as f:
            f.write(STANDIN % dict(log=log, out=OUT[out][0]))
        os.chmod(tool, 0o755)
    e = h.env(exports=dict(PATH=d + ':/usr/bin:/bin', HOME=h.dir))
    if kind == 'args':
        c, want = e.tool(*[R(a) for a in args]), ['tool'] + list(args)
    elif kind == 'path':
        c, want = e.tool, ['tool', *args]
        for a in args:
            c = getattr(c, a)
    elif kind == 'kw':
        c, want = e.tool(**{'key_%d' % i: R(a) for i, a in enumerate(args)}), ['tool'] + ['--key-%d=%s' % x for x in enumerate(args)]
    elif kind == 'flags':
        c, want = e.tool(all=True, none=False, *[R(a) for a in args]), ['tool', *args, '--all']
    elif kind == 'glob':
        c, want = e.tool('f*', *[R(a) for a in args]), ['tool', './f1', './f2', *args]
    elif kind == 'pipe':
        c, want = e.tool(*[R(a) for a in args]) | e.other('x'), None
    elif kind == 'nested':
        c, want = e.tool(e.other(*[R(a) for a in args])), None
    con = len(h.console())
    k, got = h.attempt(lambda: list(type(c).__dir__(c)))
    if k != 'ok':
        h.problem('completing %r: %s %r' % (item, k, got))
    if os.path.exists(h.dir + '/pwned'):
        h.problem('completing %r executes its arguments' % (item,))
    if k == 'ok' and want is not None:
        if out in OUT and OUT[out][1] is not None:
            h.expect(got, OUT[out][1], 'completions of %r' % (item,))
        elif not all(isinstance(x, str) for x in got):
            h.problem('completions of %r are %r' % (item, got))
        if out != 'missing':
            with open(log, 'rb') as f:
                rep = f.read().decode().split('\0')[:-1]
            h.expect(rep[0], '1', 'arguments of get_completions for %r' % (item,))
            h.expect(rep[2:], want, 'command line completed for %r' % (item,))
            if not rep[1].endswith(' '):
                h.problem('command line completed for %r: %r' % (item, rep[1]))
    import time
    for i in range(400):                # it need not have been read to its end
        if not e.running_pipelines:
            break
        h.spin(3)
        time.sleep(0.005)
    else:
        h.problem('completing %r leaves %r running' % (item, e.running_pipelines))
    h.count(item)


# ---------------------------------------------------------------- the prompt

TEXTS = ['to', 'tool.', 'tool().', 'tool("x").', 'tool.a.b.', 'cd.', 'cd.in.', 'cd.PAR', '(tool|other).', '(tool+other).', 'tool(other).', 'clear', 'clear_dir_cache.', 'loc', 'EXPO', 'nothing_like_it', 'nothing_like_it.', 'local.', 'tool(', 'cd(', 'pri', 'print(to', 'x = tool.', 'for x in tool.', '(tool > "f").', '(None | tool).', 'env.too', 'env.tool.', '~tool.', '-tool.', '', ' ', ')', '"', 'tool.é', '(lambda: tool)().', 'started.', 'running.', 'bashsource.', 'fg.', 'bg.', 'subshell(tool).', 'fun.', '(tool | fun).', '(listed | tool).']


def tab(h, item):
    import readline, asyncio
    from pieshell import environ
    text, interactive, engine = item
    log = h.tmp + '/ran'
    d = h.dir + '/tools'
    if not os.path.exists(d):
        os.makedirs(d)
        os.makedirs(h.dir + '/in/x')
        for n in ('tool', 'other', 'tool2', 'get_completions'):
            with open(d + '/' + n, 'w') as f:
                f.write('#!/bin/bash\nprintf \'%%s\\0\' "${0##*/}" "$@" >> \'%s\'; echo >> \'%s\'\n%s\n' % (log, log, 'echo one; echo two' if n == 'get_completions' else 'echo "  --opt  --value=X"'))
            os.chmod(d + '/' + n, 0o755)
    if os.path.exists(log):
        os.unlink(log)
    e = h.env(cwd=h.dir + '/in', exports=dict(PATH=d, HOME=h.dir, EXPORTED='x'), interactive=interactive)
    s = environ.EnvScope(env=e)

    async def fun(stdin):
        async for x in stdin:
            yield x
    s.update(local=5, fun=fun, listed=['a'])
    dict.__setitem__(s, 'local', 5)
    dict.__setitem__(s, 'fun', fun)
    dict.__setitem__(s, 'listed', ['a'])
    was = os.getcwd()
    if engine == 'jedi':
        from pieshell import jedi_completion
        jedi_completion.setup_readline([s])
        complete = readline.get_completer()
    else:
        import rlcompleter
        complete = rlcompleter.Completer(s).complete
    path = list(sys.path)
    got = []

    def go():
        while len(got) < 5000:
            r = complete(text, len(got))
            if r is None:
                return
            got.append(r)
    k, v = h.attempt(go)
    if k != 'ok' and not (engine != 'jedi' and isinstance(v, (SyntaxError, TypeError))):
        h.problem('completing %r: %s %r' % (text, k, v))
    ran = []
    if os.path.exists(log):
        with open(log) as f:
            ran = [tuple(x.split('\0')[:-1]) for x in f.read().split('\n')[:-1]]
    for r in ran:
        if r[0] != 'get_completions' and r[-1] != '--help':
            h.problem('completing %r with %s runs %r' % (text, engine, r))
    if os.getcwd() != was or e._cwd != h.dir + '/in':
        h.problem('completing %r with %s changes the directory' % (text, engine))
    h.expect(sys.path, path, 'sys.path after completing %r' % text)
    want = {'to': ['tool', 'tool2'], 'cd.': ['cd.x', 'cd.PARENT', 'cd.ROOT'], 'clear': ['clear_dir_cache'], 'loc': ['local', 'locals'], 'EXPO': ['EXPORTED'], 'tool.': ['tool.one', 'tool.two'], 'cd.PAR': ['cd.PARENT'], 'tool.a.b.': ['tool.a.b.one'],
            'pri': ['print'], 'env.too': ['env.tool', 'env.tool2'], 'print(to': ['print(tool']}.get(text, [])
    for w in want:
        if engine == 'jedi' and w not in got:
            h.problem('completing %r offers %r, without %r' % (text, got[:20], w))
    h.count(item)
    h.drain() if hasattr(h, 'drain') else h.spin(3)


def scenarios(tier):
    t = tier == 'thorough'
    names = list(DIRS)
    items = [(None, w, False, 0) for w in (0, 1)]
    for n in range(0, 4 if t else 3):
        for p in itertools.product(names, repeat=n):
            if n and p != ('',):
                items += [(p, w, False, 0) for w in ((0, 1) if t or n < 2 or any(DIRS[x][0] != DIRS[x][1] for x in p) else (0,))]
    items.append((('',), 0, False, 0))
    hist = []
    for n in range(1, 6 if t else 5):
        for w in itertools.product(OPS, repeat=n):
            if any(a == b and a not in ('add', 'cd') for a, b in zip(w, w[1:])) or ('back' in w and 'copy' not in w[:w.index('back')]):
                continue
            if n >= 4 and w.count('list') < 1 or w[-1] in ('list', 'copy', 'back'):
                continue
            if n >= 5 and 'clear' not in w[w.index('list'):]:
                continue
            hist.append(w)
    cd = [((), c, False) for c in ('', '/a', '/b', '/in')]
    for n in range(1, 4 if t else 3):
        for a in itertools.product(WORDS, repeat=n):
            cd += [(a, c, False) for c in (('', '/a', '/b') if t or n < 2 else ('/a',))]
    if not t:
        cd += [((a, b, c), '/b', False) for a in ('a', 'PARENT', '{d}', '..') for b in ('a', 'sub', '..', 'missing') for c in WORDS]
    cmd = [((), o, 'args') for o in list(OUT) + ['missing']]
    for o in ('lines', 'fails', 'missing', 'bytes'):
        for k in ('path', 'kw', 'flags', 'glob', 'pipe', 'nested'):
            cmd.append((('a',), o, k))
    for a in RAW:
        cmd += [((a,), 'lines', k) for k in ('args', 'kw', 'flags', 'glob', 'pipe', 'nested')]
    for a in itertools.product(RAW, repeat=2):
        if t or RAW.index(a[0]) % 3 == 0:
            cmd.append((a, 'lines', 'args'))
    if t:
        cmd += [(a, 'lines', k) for a in itertools.product(RAW, repeat=2) for k in ('kw', 'flags', 'glob', 'pipe')]
    tabs = [(x, i, g) for x in TEXTS for i in (True, False) for g in ('jedi', 'rl')]
    return [Scen('paths', paths, sched=False, items=items, chunk=60, timeout=60), Scen('histories', histories, sched=False, items=hist, chunk=100, timeout=60), Scen('cd', cds, sched=False, items=cd, chunk=60, timeout=60),
            Scen('commands', commands, sched=False, items=list(dict.fromkeys(cmd)), chunk=12, timeout=60), Scen('tab', tab, sched=False, items=tabs, chunk=6, timeout=90)]
