"""C16: pysh modules and functions behave like Python ones."""
import os, sys, itertools, importlib, inspect, types
from ..explore import Scen
from .. import lib, model

LEVEL = 'model_checking'
ASSUMPTIONS = ['oracle: the same source imported as a plain Python module, the same function without pyshfunction, and for commands and variables the reference table in the check',
               'modules are imported in one thread; the directory of the process follows an interactive environment and is not compared',
               'packages have an ordinary __init__.py']

T = []        # what the statements of the modules did, in order

# Statements that mean the same in Python and pysh.  {n} is the name of the other module.
STATEMENTS = [
    't("s"); a = 1', 'a = 2; b = a + 1; t(a)', 'def f(x, y=5): return (x, y)', 'def g(): return a', 'class C:\n    z = 3\n    def m(self): return self.z', 'for i in range(3): t(i)', 't([k * 2 for k in range(3)])',
    'b = (lambda: a)', 'try:\n    t(1); 1 / 0\nexcept ZeroDivisionError as e:\n    t("caught")\nfinally:\n    t("fin")', 'import {n}; t({n}.a)', 'from {n} import a', 'from {n} import a as c, f', 'import os.path as path',
    'import missing_module_x', 'raise ValueError("no")', '1 / 0', 'raise SystemExit(3)', 'raise KeyboardInterrupt()', 'a: int = 4', 'if a == 1:\n    t("one")\nelse:\n    t("other")', 'del a', 't(__name__)', 't("x" "y")\n\n\n# comment\n', 'def d(*, k=[]):\n    k.append(1)\n    return len(k)\nt(d()); t(d())', 'a, *b = [1, 2, 3]; t(b)', 'assert a == 1, "assertion"', 'with open(__file__) as fh: t(len(fh.read()) > 0)', 'global a; a = 7', 'class E(Exception): pass\nraise E("own")', 'x = yield_ = 1', 'def gen():\n    yield a\nt(list(gen()))', '(', 'return 1', '"doc"', '__all__ = ["a"]', 'a = "é\\u1234"; t(a)', 't(len("é"))', 'from {n} import *; t(a)',
]
BASIC = list(range(0, 13)) + [15, 17, 21, 26, 36]
SKIP = {'t', 'env', '__builtins__', '__spec__', '__loader__', '__cached__', '__file__', '__package__', '__doc__', 'E', 'C', 'fh'}


def setup(h):
    if hasattr(h, 'mods'):
        return
    h.mods = h.dir + '/mods'
    os.mkdir(h.mods)
    sys.path.insert(0, h.mods)
    sys.dont_write_bytecode = True
    tr = types.ModuleType('mc_trace')
    tr.t = lambda x: T.append(repr(x))
    sys.modules['mc_trace'] = tr
    h.base = set(sys.modules)
    os.mkdir(h.mods + '/sub')


def clean(h):
    import shutil
    for n in set(sys.modules) - h.base:
        if n.split('.')[0].startswith(('m_', 'p_')):
            del sys.modules[n]
    for n in os.listdir(h.mods):
        if n == 'sub':
            continue
        if os.path.isdir(h.mods + '/' + n):
            shutil.rmtree(h.mods + '/' + n)
        else:
            os.unlink(h.mods + '/' + n)
    importlib.invalidate_caches()
    del T[:]


def write(h, name, text, ext):
    path = h.mods + '/' + name.replace('.', '/') + ext
    if text is None:
        if os.path.exists(path):
            os.unlink(path)
    else:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text)
    importlib.invalidate_caches()


def show(v, depth=0):
    """A value, so that those of the two kinds of modules can be compared."""
    if isinstance(v, types.ModuleType):
        return 'module ' + v.__name__.replace('p_', 'm_')
    if isinstance(v, types.FunctionType):
        try:
            inspect.signature(v).bind()
            r = v()
            if inspect.isgenerator(r):
                r = list(r)
        except BaseException as e:
            r = kindof(e)
        return 'function %s%s -> %r' % (v.__name__, inspect.signature(v), r)
    if isinstance(v, type):
        return 'class %s' % v.__name__
    return repr(v).replace('p_', 'm_')


def kindof(e):
    return '%s %s' % (type(e).__name__, str(e).replace('p_', 'm_').replace('.pysh', '.py') if not isinstance(e, (NameError, SyntaxError)) else '')


def names(mod):
    d = mod.__dict__ if not hasattr(type(mod), '__getattr__') else {n: getattr(mod, n) for n in dir(mod)}
    return {n.replace('p_', 'm_'): show(v) for n, v in d.items() if n not in SKIP and not (n.startswith('__') and n not in ('__all__', '__name__'))}


def attempt(fn):
    del T[:]
    try:
        r = fn()
    except BaseException as e:
        r = kindof(e)
    return r, [x.replace('p_', 'm_') for x in T]


def loaded(prefix):
    return sorted(n.replace('p_', 'm_') for n in sys.modules if n.split('.')[0].startswith(prefix))


HEAD = 'from mc_trace import t\n'


def body(h, item):
    """One module made of the statements, imported in some way."""
    stmts, how = item
    setup(h)
    clean(h)
    results = []
    for prefix, ext in (('p_', '.py'), ('m_', '.pysh')):
        write(h, prefix + 'other', HEAD + 't("other"); a = 11\ndef f(): return a\n', ext)
        text = HEAD + '\n'.join(s.replace('{n}', prefix + 'other') for s in stmts) + '\n'
        name = prefix + 'main'
        if how == 'submodule':
            name = prefix + 'pkg.main'
            write(h, prefix + 'pkg.__init__', 'p = 1\n', '.py')
        write(h, name, text, ext)
        obs = []

        def imp():
            if how == 'from':
                scope = {}
                exec('from %s import a' % name, scope)
                return [show(scope['a'])]
            m = importlib.import_module(name)
            # what other code sees
            if how == 'submodule':
                obs.append(sys.modules[prefix + 'pkg'].main is m)
            return [names(m), m.__name__.replace('p_', 'm_')]
        r = attempt(imp)
        obs.append(r)
        obs.append(loaded(prefix))
        obs.append(attempt(imp))     # again
        obs.append(loaded(prefix))
        results.append(obs)
    # commands are what undefined names are in pysh
    a, b = results
    if 'NameError' in repr(a) or how == 'from' and 'cannot import name' in repr(a):
        h.ops += 1
        return
    if a != b:
        h.problem('the module %r, imported with %s: %s' % (stmts, how, ' '.join('%r instead of %r' % (y, x) for x, y in zip(a, b) if x != y)))
    h.count(item)


VERSIONS = {
    'one': 't("one"); a = 1; only_one = 1\n', 'two': 't("two"); a = 2; only_two = [a]\n', 'fails': 't("fails"); a = 3; raise ValueError("bad")\n', 'syntax': 't("syntax"); a = (\n', 'missing': None,
    'imports': 't("imports"); import {p}b; a = {p}b.a if "a" in dir({p}b) else "partial"\n', 'circular': 't("circ"); a = 5; import {p}b; c = {p}b.c if "c" in dir({p}b) else "none"\n', 'late': 't("late"); import {p}b; a = 6\n',
}
HOPS = [('write', m, v) for m in 'ab' for v in VERSIONS if not (m == 'b' and v in ('only',))] + [('import', m) for m in 'ab'] + [('reload', m) for m in 'ab'] + [('forget', m) for m in 'ab'] + [('set', 'a')]


def h_ops(tier):
    keep = HOPS if tier == 'thorough' else [o for o in HOPS if not (o[0] == 'write' and (o[1] == 'b' and o[2] in ('syntax', 'imports', 'late') or o[2] == 'late'))]
    return [o for o in keep if not (o[0] == 'write' and o[1] == 'b' and o[2] == 'imports')]


def history(h, item):
    """A history of writing, importing, reloading and forgetting two modules."""
    seq, spelling = item
    setup(h)
    clean(h)
    res = []
    for prefix, ext in (('p_', '.py'), ('m_', '.pysh')):
        ns = {'p_': 'pkgp_', 'm_': 'pkgm_'}[prefix] and prefix
        write(h, prefix + 'b', HEAD + 't("b0"); a = 10\n', ext)
        obs = []
        for op in seq:
            name = prefix + op[1]
            if op[0] == 'write':
                other = prefix + {'a': 'b', 'b': 'a'}[op[1]]
                text = VERSIONS[op[2]]
                write(h, name, text if text is None else HEAD + text.replace('{p}b', other), ext)
                continue
            if op[0] == 'import':
                if spelling == 'exec':
                    def f():
                        exec('import ' + name, {})
                        return names(sys.modules[name])
                else:
                    f = lambda: names(importlib.import_module(name))
            elif op[0] == 'reload':
                if name not in sys.modules:
                    continue
                f = lambda: names(importlib.reload(sys.modules[name]))
            elif op[0] == 'forget':
                f = lambda: sys.modules.pop(name, None) is None
            elif op[0] == 'set':
                if name not in sys.modules:
                    continue
                f = lambda: (setattr(sys.modules[name], 'extra', 1), names(sys.modules[name]))
            obs.append((op, attempt(f), loaded(prefix)))
        res.append(obs)
    a, b = res
    if a != b:
        h.problem('after %s: %s' % (seq, ' '.join('%r instead of %r' % (y, x) for x, y in zip(a, b) if x != y)))
    h.count(item)


# -- environments of modules
ENVOPS = {
    'plain': ('v = 5', {}), 'export': ('exports["VAR_X"] = "x1"', dict(VAR_X='x1')), 'assign': ('VAR_Y = "y1"', dict(VAR_Y='y1')), 'unexport': ('del exports["VAR_Y"]', dict(VAR_Y=None)),
    'cd': ('cd(SUBDIR).run_interactive()', 'sub'), 'env cd': ('env._cd(SUBDIR)', 'sub'), 'update': ('exports.update(VAR_X="x2", VAR_Z="z")', dict(VAR_X='x2', VAR_Z='z')), 'redirect': ('env._redirects = env._redirects.__class__(env._redirects); env._redirects.redirect(1, "/dev/null")', None),
    'temporary': ('with env.temporary_env(env(exports={"VAR_Q": "q"})): pass', {}), 'bashsource': ('bashsource(SCRIPT).run_interactive()', dict(VAR_B='from bash', VAR_Y='bash y')), 'function': ('@env.pyshfunction\ndef f(): exports["VAR_X"] = "fx"\nf()', dict(VAR_X='fx')), 'run': ('list(vp("o:hello"))', {}),
    'new env': ('env = env(SUBDIR)\nexports["VAR_X"] = "new"', dict(VAR_X='new')),
}


def isolation(h, item):
    """Modules that change their environment, and one that looks."""
    ops, importer = item
    setup(h)
    clean(h)
    from pieshell import environ
    from .. import ctl
    main = environ.envScope
    e = main['env']
    top = h.mods
    e._cd(top)
    h.write_file('script.sh', b'export VAR_B="from bash" VAR_Y="bash y"\n')
    e._exports = {'PATH': os.environ['PATH'], 'HOME': os.environ['HOME'], 'VAR_Y': 'y0'}
    e._redirects.redirect(2, '/dev/null')
    rep = h.tmp + '/rep'
    pre = 'VP = %r; REP = %r; SUBDIR = %r; SCRIPT = %r\nfrom pieshell.environ import R\n' % (h.workdir + '/free/vp', rep, 'sub', h.dir + '/script.sh')
    look = '_(VP, R("D:" + REP)).run_interactive()\n'
    write(h, 'm_first', pre + '\n'.join(ENVOPS[o][0] for o in ops) + '\n' + look, '.pysh')
    write(h, 'm_second', pre + look, '.pysh')
    want_e = dict(e._exports)
    want_c = top
    for o in ops:
        eff = ENVOPS[o][1]
        if eff == 'sub' or o == 'new env':
            want_c = top + '/sub' if want_c == top else None     # there is no sub/sub
        if o == 'unexport' and 'VAR_Y' not in want_e:
            want_c = None                # an error
        if want_c is None:
            break
        if isinstance(eff, dict) and not (o == 'assign' and 'VAR_Y' not in want_e):
            want_e.update(eff)
        want_e = {k: v for k, v in want_e.items() if v is not None}
    if want_c is None:
        want_e = None
    before = dict(e._exports), e._cwd, repr(e._redirects), dict.copy(main)
    def imp(name):
        if importer == 'python':
            return importlib.import_module(name)
        if importer == 'scope':
            exec('import ' + name, main)
            m = dict.pop(main, name)
            return m
        if importer == 'star':
            # All names but those of the module itself
            exec('from %s import *' % name, main)
            m = sys.modules[name]
            h.expect(sorted(k for k in dict.keys(main) if k not in before[3] and not k.startswith('_')), sorted(k for k in dict.keys(m._scope) if k not in before[3] and not k.startswith('_')), 'names imported')
            for n in [n for n in dict.keys(main) if n not in before[3]]:
                dict.pop(main, n)
            return m
        star = importer == 'star module'
        write(h, 'm_importer', 'import %s\nmod = %s\nlocal = 1\n%s' % (name, name, 'from %s import *\n' % name if star else ''), '.pysh')
        sys.modules.pop('m_importer', None)
        m = importlib.import_module('m_importer')
        h.expect((m.local, m.env._cwd, dict(m.env._exports)), (1, top, before[0]), 'the importing module')
        return m.mod
    env0 = dict(os.environ)
    for name in ('m_first', 'm_second'):
        k, m = h.attempt(lambda: imp(name))
        if name == 'm_first' and want_e is None:
            continue
        if k != 'ok':
            h.problem('importing a module with %s: %s %s' % (ops, k, m))
            break
        with open(rep) as f:
            r = ctl.parse_report(f.read())
        os.unlink(rep)
        got = {k: v for k, v in r['env'].items() if k.startswith('VAR_')}
        we, wc = (want_e, want_c) if name == 'm_first' else (before[0], top)
        what = 'a module%s' % (' imported after one' if name == 'm_second' else '')
        if not (name == 'm_first' and 'bashsource' in ops):
            h.expect(got, {k: v for k, v in we.items() if k.startswith('VAR_')}, 'variables of a command in %s with %s' % (what, ops))
        h.expect(r['cwd'], wc, 'directory of a command in %s with %s' % (what, ops))
        h.expect(m.env is not e, True, 'the module having its own environment')
        if we is not None and name == 'm_second' or 'v' not in dir(m):
            # Names set from outside are those of the module
            m.fresh, m.VAR_Y = 'new', 'set'
            h.expect((m.fresh, m.VAR_Y, m._scope['fresh'], 'VAR_Y' in m.env._exports and m.env._exports['VAR_Y']), ('new', 'set', 'new', 'VAR_Y' in (we if isinstance(we, dict) else {}) and 'set'), 'attributes set from outside, in %s with %s' % (what, ops))
    h.expect((dict(e._exports), e._cwd, repr(e._redirects)), before[:3], 'environment of the importer after %s' % (ops,))
    h.expect(sorted(k for k in dict.keys(main) if k != '__builtins__'), sorted(k for k in before[3] if k != '__builtins__'), 'names of the interactive scope')
    h.expect(main['env'] is e, True, 'environment of the interactive scope')
    h.expect(dict(os.environ), env0, 'variables of the process')
    h.count(item)


# -- functions
SHAPES = []
for pos in ('', 'p, /, ', 'p=1, /, '):
    for nrm in ('', 'a, ', 'a, b=2, ', 'a=3, b="x", '):
        for star in ('', '*args, ', '*, '):
            for kwo in ('', 'k, ', 'k=4, ', 'k=5, l, '):
                for kw in ('', '**kw'):
                    if star == '*, ' and not kwo or kwo and not star:
                        continue
                    sig = (pos + nrm + star + kwo + kw).rstrip(', ')
                    if pos == 'p=1, /, ' and nrm.startswith(('a, ',)):
                        continue
                    SHAPES.append(sig)
BODIES = {
    'locals': 'return sorted(locals().items())', 'closure': 'return (free, sorted(locals().items()))', 'nonlocal': 'nonlocal free; free += 1; return free', 'nested': 'def inner(q=free): return (q, len(locals()))\n    return inner()', 'generator': 'yield 1\n    yield free',
    'recursive': 'return REC', 'raises': 'raise ValueError(free)', 'comprehension': 'return [free + i for i in range(3) if i]', 'class': 'class Q:\n        z = free\n    return Q().z', 'builtin': 'return len(str(max(1, free)))', 'global': 'return GLOBAL + free', 'lambda': 'return (lambda v=free: v)()',
    'later': 'return (later, [later for q in range(2)])', 'sets': 'nonlocal later\n    later = (later or 0) + free\n    return later',
    'command': 'return (free, list(vp("o:from/command/")))', 'exports': 'return exports["VAR"] + VAR', 'async': 'ASYNC',
}


def functions(h, item):
    """A function, and the same one wrapped: all ways of calling it."""
    sig, bname, place = item
    setup(h)
    text = BODIES[bname]
    isasync = text == 'ASYNC'
    src = 'def make(free=10, wrap=lambda f: f):\n  %s\n  %sdef fun(%s):\n    """doc"""\n    %s\n  return fun\n' % ('@wrap', 'async ' if isasync else '', sig, 'return (free, sorted(locals()))' if isasync else text)
    # What the function shares with others
    src = src.replace('  return fun\n', '  later = free * 2\n  def peek(): return free, later\n  make.peek = peek\n  return fun\n')
    e = h.env(exports={'PATH': os.environ['PATH'], 'HOME': '/', 'VAR': 'value'})
    pairs = []
    for wrapped in (False, True):
        g = {'GLOBAL': 100, '__name__': 'm_x', '__builtins__': __builtins__}
        src2 = src
        if not wrapped:
            g['vp'] = lambda *a: ['from', 'command']
            g['exports'] = {'VAR': 'value'}
            g['VAR'] = 'value'
        if place == 'scope' and wrapped:
            from pieshell import environ
            g2 = environ.EnvScope(env=e)
            for k, v in g.items():
                dict.__setitem__(g2, k, v)
            g = g2
        exec(src2.replace('REC', '"end" if free > 11 else make(free + 1)(*[1] * 0)') if sig == '' else src2.replace('REC', 'GLOBAL'), g)
        kw = {'wrap': e.pyshfunction} if wrapped else {}
        pairs.append((g['make'], kw))
    calls = []
    for n in range(0, 4):
        for ks in ([], ['k'], ['a'], ['k', 'l'], ['b', 'k'], ['z'], ['p'], ['a', 'b', 'k', 'l']):
            calls.append((n, ks))
    outs = []
    for make, kw in pairs:
        f = make(**kw)
        s = inspect.signature(f)
        o = [f.__name__, f.__doc__, [(p.name, str(p.kind), repr(p.default)) for p in s.parameters.values()], f.__defaults__, f.__kwdefaults__]
        if inspect.isgeneratorfunction(f):
            o.append('generator')
        for n, ks in calls:
            try:
                r = f(*['pos%d' % i for i in range(n)], **{k: k.upper() for k in ks})
                if isasync:
                    r = h.run(r)
                elif inspect.isgenerator(r):
                    r = list(r)
            except Exception as ex:
                r = '%s %s' % (type(ex).__name__, ex)
            o.append(((n, ks), repr(r), make.peek()))
        o.append(('other closure', repr(callit(h, make(20, **kw)))))
        outs.append(o)
    if outs[0] != outs[1]:
        h.problem('def fun(%s): %s: %s' % (sig, text, ' '.join('%r instead of %r' % (y, x) for x, y in zip(*outs) if x != y)[:800]))
    h.count(item)


def callit(h, f):
    try:
        r = f()
        if inspect.isawaitable(r):
            r = h.run(r)
        return list(r) if inspect.isgenerator(r) else r
    except Exception as e:
        return '%s %s' % (type(e).__name__, e)


PATHS = ['first', 'second', 'relative', 'missing dir', 'both', 'empty', 'py too', 'dir of that name', 'package sub', 'package missing sub', 'package missing shadowed', 'nested package', 'unreadable', 'not utf8', 'python only', 'package from', 'package two', 'shadowed', 'dotted']


def paths(h, item):
    """Where modules are found."""
    case, importer = item
    setup(h)
    clean(h)
    results = []
    path0 = list(sys.path)
    cwd = os.getcwd()
    from pieshell import environ
    for prefix, ext in (('p_', '.py'), ('m_', '.pysh')):
        sys.path[:] = list(path0)
        name = prefix + 'mod'
        d1, d2 = h.dir + '/' + prefix + 'd1', h.dir + '/' + prefix + 'd2'
        for d in (d1, d2):
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(d):
                if os.path.isfile(d + '/' + f):
                    os.unlink(d + '/' + f)
        def put(d, n, text, x=ext):
            os.makedirs(os.path.dirname(d + '/' + n), exist_ok=True)
            with open(d + '/' + n + x, 'wb') as f:
                f.write(text if isinstance(text, bytes) else text.encode())
            importlib.invalidate_caches()
        sys.path[0:0] = [d1, d2]
        if case == 'first':
            put(d1, name, 'w = 1\n')
        elif case == 'second':
            put(d2, name, 'w = 2\n')
        elif case in ('relative', 'empty'):
            os.chdir(d1)
            sys.path[0:2] = ['.' if case == 'relative' else '']
            put(d1, name, 'w = 3\n')
        elif case == 'missing dir':
            sys.path.insert(0, h.dir + '/nowhere')
            put(d1, name, 'w = 4\n')
        elif case == 'both':
            put(d1, name, 'w = 5\n')
            put(d2, name, 'w = 6\n')
        elif case == 'dir of that name':
            os.makedirs(d2 + '/' + name + ext + '.d', exist_ok=True)
            put(d2, name, 'w = 7\n')
        elif case.startswith('package') or case in ('nested package', 'dotted', 'shadowed'):
            put(d1, prefix + 'pk/__init__', 'w = 8\n', '.py')
            if not case.startswith('package missing'):
                put(d1, prefix + 'pk/sub', 'w = 9\n')
            put(d1, prefix + 'pk/two', 'from %spk import sub\nw = sub.w + 1\n' % prefix)
            put(d1, prefix + 'pk/in/__init__' if case == 'nested package' else prefix + 'pk/inn/__init__', '', '.py')
            put(d1, prefix + 'pk/inn/deep', 'w = 12\n')
            put(d1, 'sub' if case in ('shadowed', 'package missing shadowed') else prefix + 'unrelated', 'w = 99\n')
            put(d1, prefix + 'pk/inn/__init__', '', '.py')
            name = {'package two': prefix + 'pk.two', 'nested package': prefix + 'pk.inn.deep'}.get(case, prefix + 'pk.sub')
        elif case == 'unreadable':
            os.symlink('/nonexistent/x', d1 + '/' + name + ext) if not os.path.lexists(d1 + '/' + name + ext) else None
        elif case == 'python only':
            put(d1, name, 'w = 10\n', '.py')
        elif case == 'py too':
            put(d1, name, 'w = 11\n', '.py')
            put(d1, name, 'w = 11\n')
        elif case == 'not utf8':
            put(d1, name, b'w = "\xff\xfe"\n')

        def imp():
            code = 'import %s' % name
            if case == 'package from':
                code = 'from %s import sub' % (prefix + 'pk')
            if importer == 'python':
                exec(code, {})
            elif importer == 'scope':
                exec(code, environ.EnvScope(env=h.env()))
            else:
                n = '__import__("%s", fromlist=["w"])' % name
                eval(n)
            m = sys.modules[name]
            return m.w, m.__name__.split('_')[-1], os.path.basename(m.__file__).split('.')[0].split('_')[-1]
        r = attempt(imp)
        if isinstance(r[0], str) and r[0].startswith(('UnicodeDecodeError', 'SyntaxError')):
            r = ('cannot be decoded',)
        elif isinstance(r[0], str):
            r = (r[0].replace('p_', 'm_'),)
        results.append((r, loaded(prefix)))
        os.chdir(cwd)
        for n in list(sys.modules):
            if n == 'sub' or n.startswith((prefix,)):
                del sys.modules[n]
    sys.path[:] = path0
    import shutil
    for prefix in ('p_', 'm_'):
        for d in ('d1', 'd2'):
            shutil.rmtree(h.dir + '/' + prefix + d)
    h.expect(results[1], results[0], 'importing (%s, %s)' % item)
    h.count(item)


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    hows = ['import', 'submodule', 'from']
    items = [((s,), how) for s in STATEMENTS for how in hows] + [(x, 'import') for x in itertools.product(STATEMENTS, repeat=2)]
    items += [(x, 'import') for x in itertools.product([STATEMENTS[k] for k in (BASIC if t else BASIC[::2])], repeat=3)]
    if t:
        items += [(x, how) for x in itertools.product(STATEMENTS, repeat=2) for how in hows[1:]]
    out.append(Scen('bodies', body, sched=False, items=items, chunk=60, timeout=60))
    ops = h_ops(tier)
    seqs = [(('write', 'a', v),) + x for v in ('one', 'fails', 'imports', 'circular') for n in (1, 2) for x in itertools.product(ops, repeat=n)]
    small = [('write', 'a', 'two'), ('write', 'a', 'fails'), ('write', 'b', 'circular'), ('import', 'a'), ('import', 'b'), ('reload', 'a'), ('forget', 'a')]
    seqs += [(('write', 'a', v),) + x for v in ('one', 'fails', 'circular') for x in itertools.product(small if not t else ops, repeat=3)]
    if t:
        seqs += [(('write', 'a', v),) + x for v in ('one', 'fails', 'circular') for x in itertools.product(small, repeat=5)]
    # histories that never import decide nothing
    seqs = [s for s in seqs if s[-1][0] != 'write' and any(o[0] == 'import' for o in s)]
    out.append(Scen('histories', history, sched=False, items=[(s, 'import') for s in seqs] + [(s, 'exec') for s in seqs[::7]], chunk=60, timeout=60))
    envs = [(o, i) for i in ('python', 'scope', 'module', 'star', 'star module') for o in [()] + [(x,) for x in ENVOPS] + list(itertools.product(ENVOPS, repeat=2))]
    # VAR_Y is then a name of the module, that the importer assigns to its own
    envs = [(o, i) for o, i in envs if not (i.startswith('star') and 'unexport' in o and 'assign' in o)]
    if t:
        envs += [(o, 'python') for o in itertools.product(ENVOPS, repeat=3)]
    out.append(Scen('isolation', isolation, sched=False, items=envs, chunk=10, timeout=60))
    fs = [(s, b, 'python') for s in SHAPES for b in (BODIES if t else ('locals', 'closure', 'generator', 'async'))] + [(s, b, pl) for s in SHAPES[::6] + [''] for b in BODIES for pl in ('python', 'scope')]
    out.append(Scen('functions', functions, sched=False, items=fs, chunk=20, timeout=60))
    out.append(Scen('search path', paths, sched=False, items=[(c, i) for c in PATHS for i in ('python', 'scope', 'dunder')], chunk=6, timeout=60))
    return out
