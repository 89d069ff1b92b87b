"""C12: names resolve and assign consistently in pieshell scopes."""
import os, sys, types, itertools, builtins, textwrap
from ..explore import Scen
from .. import lib

ASSUMPTIONS = ['histories: all sequences of the listed length over the listed kinds of statements on each name (and pairs of names), in every kind of scope',
               'exported variables are only given strings; `_` and attributes of the environment are not assigned']
NAMES = ('a', 'EX', 'len', 'vp', 'cd', 'par')
KINDS = ('exec', 'one', 'expr', 'file', 'module', 'pyshfn', 'process')
EXPORTS = {'EX': 'ex1'}
EXPORTS2 = {'EX': 'ex2', 'a': 'a2'}
PARENT = {'par': 'parent', 'EX': 'hidden', 'len': 'parent len'}
OPS = ('assign', 'for', 'with', 'tuple', 'walrus', 'aug', 'global', 'inner', 'compr', 'def', 'class', 'import', 'except', 'del', 'export', 'exportupd', 'unexport', 'delexport', 'switch', 'temp', 'oassign', 'oexport')
CORE = ('assign', 'global', 'del', 'export', 'unexport', 'switch', 'temp', 'oassign')
FUNC = object()


class M:
    """The reference model."""
    def __init__(self, kind):
        self.loc, self.loc2 = {}, {}
        self.exp = [dict(EXPORTS), dict(EXPORTS2)]
        self.cur = 0
        self.parent = dict(PARENT) if kind == 'pyshfn' else {}
        self.kind = kind

    def key(self):
        return repr((sorted(self.loc.items()), sorted(self.loc2.items()), [sorted(e.items()) for e in self.exp], self.cur))

    def read(self, n, loc=None):
        loc = self.loc if loc is None else loc
        if n in loc:
            return loc[n]
        if n in self.exp[self.cur]:
            return self.exp[self.cur][n]
        if n in self.parent:
            return self.parent[n]
        if hasattr(builtins, n):
            return ('builtin', n)
        return ('command', n)

    def set(self, n, v, loc=None, cur=None):
        loc = self.loc if loc is None else loc
        exp = self.exp[self.cur if cur is None else cur]
        if n in exp:
            exp[n] = v
            loc.pop(n, None)
        else:
            loc[n] = v

    def do(self, op, n, k):
        """Returns the source of the statement, or None if it does not apply."""
        v = 'v%d' % k
        ex = n in self.exp[self.cur]
        if op == 'assign':
            self.set(n, v)
            return '%s = %r' % (n, v)
        if op == 'for':
            self.set(n, v)
            return 'for %s in ("x", %r): pass' % (n, v)
        if op == 'with':
            self.set(n, v)
            return 'with seen_.cm(%r) as %s: pass' % (v, n)
        if op == 'tuple':
            self.set(n, v)
            return '%s, seen_.x = %r, 1' % (n, v)
        if op == 'list':
            self.set(n, v)
            return '[seen_.x, *seen_.y, %s] = 1, 2, %r' % (n, v)
        if op == 'walrus':
            self.set(n, v)
            return 'seen_.x = (%s := %r)' % (n, v)
        if op == 'aug':
            old = self.read(n)
            if not isinstance(old, str):
                return None
            self.set(n, old + v)
            return '%s += %r' % (n, v)
        if op == 'global':
            self.set(n, v)
            return 'def f_():\n    global %s\n    %s = %r\nf_()' % (n, n, v)
        if op == 'inner':                # a local variable of a function is no business of ours
            return 'def f_():\n    %s = %r\n    return %s\nseen_.x = f_()' % (n, v, n)
        if op == 'compr':
            return 'seen_.x = [%s for %s in (%r,)]' % (n, n, v)
        if op in ('def', 'class', 'import'):
            if ex:
                return None
            self.set(n, ('object', op))
            return {'def': 'def %s(): pass', 'class': 'class %s: pass', 'import': 'import seen_ as %s'}[op] % n
        if op == 'except':
            if ex:
                return None
            self.loc.pop(n, None)
            return 'try:\n    raise ValueError(%r)\nexcept ValueError as %s:\n    pass' % (v, n)
        if op == 'del':
            if n not in self.loc:
                return None
            del self.loc[n]
            return 'del %s' % n
        if op == 'export':
            self.exp[self.cur][n] = v
            return 'exports[%r] = %r' % (n, v)
        if op == 'exportupd':
            self.exp[self.cur][n] = v
            return 'env._exports.update({%r: %r})' % (n, v)
        if op == 'unexport':
            self.exp[self.cur].pop(n, None)
            return 'seen_.x = exports.pop(%r, None)' % n
        if op == 'delexport':
            if not ex:
                return None
            del self.exp[self.cur][n]
            return 'del exports[%r]' % n
        if op == 'switch':
            self.cur = 1 - self.cur
            return 'env = seen_.envs[%d]' % self.cur
        if op == 'temp':
            if self.kind == 'pyshfn':
                return None
            self.set(n, v, cur=1 - self.cur)
            return 'with env.temporary_env(seen_.envs[%d]):\n    %s = %r' % (1 - self.cur, n, v)
        if op == 'oassign':               # in another scope of the same environment
            if self.cur or self.kind == 'pyshfn':
                return None
            self.set(n, v, self.loc2)
            return 'seen_.other(%r)' % ('%s = %r' % (n, v))
        if op == 'oexport':
            if self.cur or self.kind == 'pyshfn':
                return None
            self.exp[0][n] = v
            return 'seen_.other(%r)' % ('exports[%r] = %r' % (n, v))
        raise ValueError(op)


READS = ['seen_.got(%(n)s)', 'def f_(): return %(n)s\nseen_.got(f_())', 'seen_.got((lambda: %(n)s)())', 'class K_:\n    q = %(n)s\nseen_.got(K_.q)', 'seen_.got([%(n)s for i_ in (1,)][0])',
         'seen_.got(eval(%(n)r))', 'def f_():\n    def g(): return %(n)s\n    return g()\nseen_.got(f_())', 'exec("seen_.got(%(n)s)")']


class CM:
    def __init__(self, v):
        self.v = v

    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        pass


def classify(v):
    from pieshell.pipeline import base, builtin
    if isinstance(v, base.Pipeline):
        return ('command', v)
    if v is sys.modules.get('seen_'):
        return ('object', 'import')
    if isinstance(v, type):
        return ('object', 'class')
    if isinstance(v, types.FunctionType):
        return ('object', 'def')
    return v


def same(got, want, env):
    """Is what was read what it should be?"""
    if isinstance(want, str):
        return got == want and type(got) is str
    if want[0] == 'builtin':
        return got is getattr(builtins, want[1])
    got = classify(got)
    if want[0] == 'command':
        from pieshell.pipeline import builtin
        return isinstance(got, tuple) and got[0] == 'command' and got[1]._arg == ([want[1]] if want[1] else []) and got[1]._env is env and isinstance(got[1], builtin.Builtin) == (want[1] == 'cd')
    return got == want


def case(h, item):
    kind, seq = item
    from pieshell import environ
    m = M(kind)
    h.nmod = getattr(h, 'nmod', 0) + 1
    extra = {'PATH': os.environ['PATH']}
    saved = dict(os.environ)
    seen = types.ModuleType('seen_')
    sys.modules['seen_'] = seen
    got = []
    seen.got = got.append
    seen.cm = CM
    if kind == 'process':
        for k in NAMES:
            os.environ.pop(k, None)
        os.environ.update(EXPORTS)
        e1 = environ.Environment(cwd=h.dir)
    else:
        e1 = environ.Environment(cwd=h.dir, exports=dict(EXPORTS, **extra))
    e2 = environ.Environment(cwd=h.dir, exports=dict(EXPORTS2, **extra))
    seen.envs = [e1, e2]
    try:
        execute(h, kind, seq, m, seen, got, e1, e2)
    finally:
        for k in set(os.environ) - set(saved):
            del os.environ[k]
        for k, v in saved.items():
            os.environ[k] = v
    h.count(kind + m.key())
    h.ops += len(seq)


def execute(h, kind, seq, m, seen, got, e1, e2):
    from pieshell import environ
    if kind == 'module':
        saved = environ.envScope['env']
        dict.__setitem__(environ.envScope, 'env', e1)
    scope = environ.EnvScope(env=e1)
    other = environ.EnvScope(env=e1)
    scope['env'] = e1

    def in_other(src):
        exec(src, other)
    seen.other = in_other
    names = sorted({n for _, n in seq})
    parts = ['import seen_']
    wants = []

    def reads(full):
        for n in names:
            for r in READS if full else READS[:2]:
                parts.append(r % dict(n=n))
                wants.append((n, m.read(n), m.cur))
    if len(seq) == 1:
        reads(False)
    for k, (op, n) in enumerate(seq):
        src = m.do(op, n, k)
        parts.append(src)
        reads(k == len(seq) - 1)
    parts.append('seen_.got(exports)\nseen_.got(_)\nseen_.got(env)\nseen_.got(nothing_at_all)')
    mod = None
    con = len(h.console())
    try:
        if kind in ('exec', 'process'):
            for p in parts:
                exec(compile(p, '<t>', 'exec'), scope)
        elif kind == 'one':
            exec(compile('\n'.join(parts), '<t>', 'exec'), scope)
        elif kind == 'expr':
            for p in parts:
                # Not to be displayed
                for stmt in split(p):
                    scope.execute_expr(stmt)
        elif kind == 'file':
            with open(h.dir + '/f.pysh', 'w') as f:
                f.write('\n'.join(parts) + '\n')
            scope.execute_file(h.dir + '/f.pysh')
        elif kind == 'module':
            name = 'mod%d' % h.nmod
            src = '\n'.join(parts + ['seen_.envs[0] = env']).replace('import seen_\n', 'import seen_\nseen_.envs[0] = env\nseen_.start(env)\n', 1)

            def start(env):
                nonlocal other
                other = environ.EnvScope(env=env)
                seen.own = env
            seen.start = start
            with open(h.dir + '/%s.pysh' % name, 'w') as f:
                f.write(src)
            sys.path.insert(0, h.dir)
            try:
                mod = __import__(name)
            finally:
                sys.path.remove(h.dir)
                os.unlink(h.dir + '/%s.pysh' % name)
                sys.modules.pop(name, None)
        elif kind == 'pyshfn':
            g = dict(PARENT, seen_=seen)
            decl = 'global ' + ', '.join(names + ['env', 'f_', 'K_'])
            exec('def body():\n' + textwrap.indent('\n'.join([decl] + parts[1:]), '    '), g)
            before = dict(g)
            e1.pyshfunction(g['body'])()
            h.expect({k for k in g if g[k] is not before.get(k)}, set(), 'names changed in the scope around the function')
    except Exception as ex:
        import traceback
        return h.problem('%s: %s %s %s' % (kind, type(ex).__name__, ex, traceback.format_exc()[-400:]))
    finally:
        if kind == 'module':
            dict.__setitem__(environ.envScope, 'env', saved)
    if kind == 'module':
        e1 = seen.own
    envs = [e1, e2]
    text = h.console()[con:].decode()
    if text:
        h.problem('%s: printed %s' % (kind, text[-500:]))
    if len(got) != len(wants) + 4:
        return h.problem('%s: %d names read, should be %d' % (kind, len(got), len(wants) + 4))
    for g, (n, want, cur) in zip(got, wants):
        if not same(g, want, envs[cur]):
            h.problem('%s: %s is %s, should be %s, in\n%s' % (kind, n, show(g), want, '\n'.join(parts)))
            break
    env = envs[m.cur]
    if got[-4] is not env._exports:
        h.problem('%s: exports is not the environment of commands' % kind)
    if not same(got[-3], ('command', ''), env):
        h.problem('%s: _ is %s' % (kind, show(got[-3])))
    if got[-2] is not env:
        h.problem('%s: env is %s' % (kind, got[-2]))
    if not same(got[-1], ('command', 'nothing_at_all'), env):
        h.problem('%s: nothing_at_all is %s' % (kind, show(got[-1])))
    for i, e in enumerate(envs):
        have = {k: v for k, v in dict(e._exports).items() if k in NAMES}
        h.expect(have, m.exp[i], '%s: exports of environment %d' % (kind, i))
    if mod is not None:
        for n in names:
            if n in m.loc:
                try:
                    v = getattr(mod, n)
                except Exception as ex:
                    v = ex
                if not same(v, m.loc[n], env):
                    h.problem('%s: attribute %s of the module is %s, should be %s' % (kind, n, show(v), m.loc[n]))
    # what commands get
    from .. import ctl
    rep = h.tmp + '/rep'
    exec('run_ = _(%r, %r).run()' % (h.workdir + '/free/vp', 'D:' + rep), scope if kind not in ('module', 'pyshfn') else {'_': env._, 'seen_': seen} if False else (s2 := environ.EnvScope(env=env)))
    r = dict.__getitem__(scope if kind not in ('module', 'pyshfn') else s2, 'run_')
    h.run(r.wait())
    with open(rep) as f:
        have = {k: v for k, v in ctl.parse_report(f.read())['env'].items() if k in NAMES}
    os.unlink(rep)
    h.expect(have, m.exp[m.cur], '%s: variables of a command' % kind)


def show(x):
    from ..harness import short
    return short(x, 100) if not isinstance(x, type) else type(x).__repr__(x)


def split(src):
    """Statements for the interactive interpreter."""
    import ast
    lines = src.split('\n')
    out = []
    for node in ast.parse(src).body:
        out.append('\n'.join(lines[node.lineno - 1:node.end_lineno]) + '\n')
    return out


def applicable(kind, seq):
    m = M(kind)
    return all(m.do(op, n, k) is not None for k, (op, n) in enumerate(seq))


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for kind in KINDS:
        items = []
        for n in NAMES:
            for d in (1, 2) if not t else (1, 2, 3):
                items += [tuple((o, n) for o in seq) for seq in itertools.product(OPS, repeat=d)]
            for d in (3,) if not t else (4,):
                items += [tuple((o, n) for o in seq) for seq in itertools.product(CORE if t else CORE[:6], repeat=d)]
        if kind == 'exec' or t:
            for x, y in (('a', 'EX'), ('EX', 'len'), ('a', 'cd')):
                items += [tuple(zip(s, ns)) for s in itertools.product(CORE, repeat=2) for ns in ((x, y), (y, x))]
                if t:
                    items += [tuple(zip(s, ns)) for s in itertools.product(CORE, repeat=3) for ns in ((x, y, x), (y, x, y))]
        items = [(kind, s) for s in dict.fromkeys(items) if applicable(kind, s)]
        out.append(Scen('scope ' + kind, case, sched=False, items=items, chunk=40, timeout=120))
    return out
