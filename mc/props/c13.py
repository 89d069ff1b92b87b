"""C13: arguments are expanded exactly as documented."""
import os, re, itertools, fnmatch, pwd
from ..explore import Scen
from .. import lib

LEVEL = 'exploration'
RULE = 'distinct (string, spelling, directory, kind of scope) cases that contain an expansion character'
ASSUMPTIONS = ['strings: all concatenations of up to the listed number of tokens; a % that does not start a reference to an existing variable is an error and outside',
               'patterns are those of glob.glob(); the home directory is that of the process']

TOKENS = ['a', 'b', '*', '?', '[ab]', '[!a]', '[', ']', '~', '~root', '~nouser', '/', '.', '..', '%(V)s', '%(T)s', '%(P)s', '%(Q)s', '%%', ' ', '\n', '$V', '"', "'", '\\', '{a,b}', '-', '\xe9', '#', '**', 'sub']
VARS = {'V': 'a b', 'T': '~', 'P': '*', 'Q': '%(V)s %% ~ [ab', 'N': 'exported', 'E': ''}
TREE = ['a', 'b', 'ab', 'ba', '.h', '-x', 'a b', '[a]', 'a*', '\xe9', '#', 'x.py', 'y.py', 'n\nl', '~', 'sub/', 'sub/a', 'sub/.h', 'sub/b/', 'sub/b/a', 'sub/x.py', '.hid/', '.hid/a', 'a.d/', 'a.d/a', 'a.d/b', "q'\"", 'sub/sub/', '%(V)s', 'aa b']
CWDS = ['m', 'm/sub', 'w[ab]*?', 'sp ace', 'm/a.d', 'x!%(V)s~']


def make_tree(top):
    os.makedirs(top)
    for n in TREE:
        if n.endswith('/'):
            os.makedirs(top + '/' + n, exist_ok=True)
        else:
            open(top + '/' + n, 'w').close()
    os.symlink('sub', top + '/link')
    os.symlink('nowhere', top + '/dang')
    with open(os.fsencode(top) + b'/\xffbin', 'w'):
        pass


def setup(h):
    if hasattr(h, 'ready'):
        return
    h.ready = True
    for c in ('m', 'w[ab]*?', 'sp ace', 'x!%(V)s~'):
        make_tree(h.dir + '/' + c)
    make_tree(h.dir + '/home')
    os.environ['HOME'] = h.dir + '/home'
    os.makedirs(h.dir + '/w', exist_ok=True)   # what w[ab]*? would match as a pattern, and where the process is
    for n in ('wa1', 'wbxx', 'other'):
        make_tree(h.dir + '/' + n)
    os.chdir(h.dir + '/other')
    for n in ('aaa', 'bbb'):
        open(n, 'w').close()


def magic(s):
    return any(c in s for c in '*?[')


def files(cwd, pat):
    """The paths that match, as (directory, components)."""
    absolute = pat.startswith('/')
    comps = pat.split('/')
    last = len(comps) - 1
    found = [()]
    path = lambda p: ('/' if absolute else cwd + '/') + '/'.join(p)
    for i, c in enumerate(comps):
        nxt = []
        for p in found:
            if c == '':
                if i == last and not os.path.isdir(path(p)):
                    continue
                nxt.append(p)
            elif magic(c):
                try:
                    names = os.listdir(path(p) or '/')
                except OSError:
                    continue
                nxt += [p + (n,) for n in names if fnmatch.fnmatchcase(n, c) and (c[0] == '.' or n[0] != '.')]
            else:
                if os.path.lexists(path(p + (c,))) and (i == last or os.path.isdir(path(p + (c,)))):
                    nxt.append(p + (c,))
        found = nxt
    return [path(p) for p in found]


def norm(cwd, w):
    """A path, made absolute without looking at the file system."""
    if not w.startswith('/'):
        w = cwd + '/' + w
    return '/' + '/'.join(c for c in w.split('/') if c not in ('', '.'))


def substitute(s, vars):
    out, i = '', 0
    while i < len(s):
        if s.startswith('%%', i):
            out += '%'
            i += 2
        elif s.startswith('%(', i):
            j = s.index(')s', i)
            out += str(vars[s[i + 2:j]])
            i = j + 2
        elif s[i] == '%':
            raise KeyError(s)
        else:
            out += s[i]
            i += 1
    return out


def expand(s, cwd, vars):
    """What s expands to: a word, or a list of paths."""
    s = substitute(s, vars)
    if s.startswith('~'):
        user, sl, rest = s[1:].partition('/')
        if not user:
            s = os.environ['HOME'] + sl + rest
        else:
            try:
                s = pwd.getpwnam(user).pw_dir + sl + rest
            except KeyError:
                pass
    if not magic(s):
        return s, None
    found = files(cwd, s)
    return s, found or None


def check(h, e, cwd, strings, spelling, vars, wrap=lambda p: p):
    """Runs one command with all the strings and compares."""
    from .. import ctl
    from pieshell import environ
    rep = h.tmp + '/rep'
    p = e.vp(environ.R('D:' + rep), 'x:0')
    for k, s in enumerate(strings):
        p = p(environ.R('|%d|' % k))
        if spelling == 'pos':
            p = p(s)
        elif spelling == 'named':
            p = p(some_name=s)
        elif spelling == 'dict':
            p = p({'n': s})
        elif spelling == 'R':
            p = p(environ.R(s))
        elif spelling == 'namedR':
            p = p(some_name=environ.R(s))
        elif spelling == 'attr':
            p = getattr(p, s)
    p = p(environ.R('|end|'))
    k, v = h.attempt(lambda: h.run(wrap(p).run().wait()))
    if k != 'ok':
        return h.problem('running a command with %r: %s %s' % (strings[:3], k, v))
    with open(rep) as f:
        args = ctl.parse_report(f.read())['arg']
    os.unlink(rep)
    args = args[args.index('|0|'):]
    pre = {'named': '--some-name=', 'namedR': '--some-name=', 'dict': '--n='}.get(spelling, '')
    for k, s in enumerate(strings):
        a = args.index('|%d|' % k)
        b = args.index('|%d|' % (k + 1) if k + 1 < len(strings) else '|end|')
        got = args[a + 1:b]
        if not all(g.startswith(pre) for g in got):
            h.problem('%r as %s in %s became %r' % (s, spelling, cwd, got))
            continue
        got = [g[len(pre):] for g in got]
        if spelling in ('R', 'namedR'):
            ok = got == [s]
            want = [s]
        else:
            word, found = expand(s, cwd, vars)
            if found is None:
                want = [word]
                ok = got == want
            else:
                want = sorted(norm(cwd, x) for x in found)
                ok = sorted(norm(cwd, x) for x in got) == want and not any(x.startswith('-') for x in got)
        if not ok:
            h.problem('%r as %s in %s became %r, should be %r' % (s, spelling, cwd, got, want))
        if any(c in s for c in '%~*?[') and s in strings[:400]:
            h.count('%s %s %s %r' % (cwd[len(h.dir):], spelling, type(vars).__name__, s))
        h.ops += 1


def case(h, item):
    cwd, spelling, scope, strings = item
    from pieshell import environ
    setup(h)
    if cwd == 'mirror':                   # a directory whose own path appears below it
        strings = [s.replace('@', h.dir[2:]) for s in strings]
        os.makedirs(h.dir + '/mirror' + h.dir + '/mirror/a', exist_ok=True)
    cwd = h.dir + '/' + cwd if cwd != '/' else cwd
    vars = dict(VARS)
    exports = dict(VARS, PATH=os.environ['PATH'])
    if scope == 'scope':
        for n in 'TPQ':
            del exports[n]
    e = h.env(cwd=h.dir, exports=exports)
    e._cwd = cwd                          # cd would expand its argument, too
    if scope == 'scope':
        s = environ.EnvScope(env=e)
        for n in 'TPQ':
            s[n] = VARS[n]
    check(h, e, cwd, strings, spelling, vars)


def later(h, item):
    """Strings are expanded when the command is run, in the environment as it is then."""
    from pieshell import environ
    string, change = item
    setup(h)
    e = h.env(cwd=h.dir + '/m', exports=dict(VARS, PATH=os.environ['PATH']))
    vars = dict(VARS)

    def wrap(p):
        if 'cd' in change:
            e._cd('sub')
        if 'var' in change:
            e._exports['V'] = vars['V'] = 'x*'
            e._exports['P'] = vars['P'] = '?'
        if 'run' in change:
            h.run(p.run().wait())
        if 'file' in change:
            open(e._cwd + '/new', 'w').close()
            open(e._cwd + '/z', 'w').close()
        return p
    try:
        cwd = h.dir + ('/m/sub' if 'cd' in change else '/m')
        if 'file' in change:
            for n in ('new', 'z'):
                open(cwd + '/' + n, 'w').close()
                os.unlink(cwd + '/' + n)
        check2(h, e, cwd, string, vars, wrap)
    finally:
        for d in ('m', 'm/sub'):
            for n in ('new', 'z'):
                if os.path.exists(h.dir + '/' + d + '/' + n):
                    os.unlink(h.dir + '/' + d + '/' + n)


def check2(h, e, cwd, string, vars, wrap):
    # the words are compared after `wrap` has changed the environment
    check(h, e, cwd, [string, 'q' + string, string], 'pos', vars, wrap)


CACHE = {}


def strings(tokens, n):
    key = tuple(tokens), n
    if key not in CACHE:
        CACHE[key] = all_strings(tokens, n)
    return CACHE[key]


def all_strings(tokens, n):
    out = {}
    for k in range(0, n + 1):
        for t in itertools.product(tokens, repeat=k):
            s = ''.join(t)
            try:
                substitute(s, VARS)
            except (KeyError, ValueError):
                continue
            w = substitute(s, VARS)
            if w.startswith('~root') and magic(w) or w.startswith('/') and magic(w):
                continue                  # would look all over the real system
            try:
                for c in w.split('/') if '[' in w and '-' in w else ():
                    re.compile(fnmatch.translate(c))
            except re.error:
                continue                  # [b-a]: glob.glob() itself refuses these
            out[s] = 1
    return list(out)


ROOT = ['*', '?*', 'u*', '/u*', '[e]tc', '/[u]sr', './e*', 'usr/../e*', '/usr/*/../../e*', '*/', 'etc/host*', '/etc/host*', '~', '~root', '~root/nothere', '/', '/a', '/%(V)s']


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    items = []

    def add(cwd, spelling, scope, ss, n=60):
        for k in range(0, len(ss), n):
            items.append((cwd, spelling, scope, ss[k:k + n]))
    two = strings(TOKENS, 2)
    short = ['a', 'b', '*', '?', '[', ']', '~', '/', '.', '..', '%(P)s', '-']
    for cwd in CWDS:
        for sp in ('pos', 'named', 'dict', 'R', 'namedR', 'attr'):
            ss = [s for s in two if s.isidentifier()] if sp == 'attr' else two
            add(cwd, sp, 'exports', ss)
        add(cwd, 'pos', 'scope', two)
        add(cwd, 'pos', 'exports', strings(TOKENS if t else short, 3))
    add('m', 'pos', 'exports', strings(TOKENS, 3))
    add('/', 'pos', 'exports', ROOT)
    add('/', 'named', 'exports', ROOT)
    for sp in ('pos', 'named'):
        add('mirror', sp, 'exports', ['?@/mirror/*', '?@/*', '?@/*/', '?@/mirror/?', './?@/*/a', '?@/mirror/../*', '../mirror/?@/m*/a', '?@/mirror/b*', '*', '*/*'])
    if t:
        for cwd in CWDS:
            add(cwd, 'named', 'scope', strings(TOKENS, 3))
            add(cwd, 'pos', 'exports', strings(short, 4))
        add('m', 'pos', 'exports', strings(TOKENS[:20], 4))
    out.append(Scen('strings', case, sched=False, items=items, chunk=20, timeout=120))
    ss = ['*', '%(V)s', '?', './*', 'x%(V)s', '%(P)s', 'a*', '*/', '..', '../*', 'plain']
    changes = [c for n in range(0, 4) for c in itertools.combinations(('cd', 'var', 'run', 'file'), n)]
    out.append(Scen('later', later, sched=False, items=[(s, c) for s in ss for c in changes], chunk=20))
    return out
