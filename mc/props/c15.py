"""C15: bashsource imports exactly the variables the script exports."""
import os, itertools, subprocess
from ..explore import Scen
from .. import lib

LEVEL = 'exploration'
RULE = 'distinct (value, locale), (function, options) and (script histories) cases that are compared with what bash itself passes on to a command'
ASSUMPTIONS = ['oracle: the environment that the installed bash 5.2 passes to a command at the end of the same scripts, started the same way',
               'scripts do not replace the builtins declare and source, do not print in DEBUG traps and do not leave daemons behind that keep the report open',
               'exported variables without a value, arrays and functions (which have no value in the environment of a command) and _ are not compared']

ALPHA = [b'a', b'"', b"'", b'\\', b'$', b'`', b'!', b'\n', b'\t', b' ', b'=', b'(', b')', b'{', b'}', b'#', b';', b'\xc3\xa9', b'\xff', b'\x01', b'%', b'~', b'*', b'\r', b'\x7f', b'1', b'&', b'[']
TOUGH = [b'\ndeclare -x EVIL="1"\n', b'"\ndeclare -x EVIL="1', b'f () \n{ \n', b'\n}\n', b'$(echo x)', b'${HOME}', b"$'\\n'", b'<<EOF\n', b'\\n', b'\\033', b'\\x41', b'x' * 5000, b'\n' * 300, b'declare -f', b'\xe2\x82', b'\xf0\x9f\x98\x80', b'\\"', b'"$\'', b'']
FUNCTIONS = [
    'f() { echo a; }', 'f-g() { :; }', 'a.b() { :; }', 'a::b() { :; }', '+x() { :; }', 'f() ( echo sub )', 'f() { cat <<EOF\ndeclare -x EVIL="1"\n}\nEOF\n}', 'f() { cat <<\'EOF\'\nf () \n{ \n}\nEOF\n}',
    'f() {\n# comment "\necho "it\'s"; }', "f() { echo '\ndeclare -x EVIL=\"1\"\n'; }", 'f() { g() { echo inner; }; }', 'declarex() { :; }', 'f() { :; } >/dev/null', 'function f { echo $1 | while read x; do echo "$x"; done; }',
    'f() { export IN_F=1; }; f', 'f() { local -x L=1; echo $L >/dev/null; }; f', '\xe9() { :; }', 'f() { case x in a) ;; *) ;; esac; }', 'f() { for ((i=0;i<2;i++)); do :; done; }; f', 'f() { :; }; export -f f', 'unset -f f', 'f() { :; }; readonly -f f',
]
OPTIONS = ['', 'set -e', 'set -u', 'set -f', 'set -C', 'set -o posix', 'set -x', 'set -v', 'set -a; AUTO="a b"', 'shopt -s nullglob failglob', 'shopt -s extglob', 'IFS=/', "IFS=''", 'IFS=56789', 'cd /', 'umask 077', 'exec </dev/null', 'exec >/dev/null', 'exec 2>&1', 'exec 3>/dev/null', 'set -- a b c', 'set +m', 'set +H', 'trap "" PIPE HUP', 'false', 'trap "echo bye >&2" EXIT', 'LC_ALL=C', 'export LC_ALL=C', 'echo noise', 'echo -n noise; echo more >&2', 'sleep 0 &', 'alias declare=true source=false', 'PROMPT_COMMAND="echo p"', 'PS1="x"', 'unset HOME PATH', 'return 0', 'return 3', 'shopt -s expand_aliases; alias x=y', 'set -o vi', 'ulimit -c 0', 'declare -A M=([a]=b)', 'history -c; HISTFILE=/dev/null', '(exit 3)', 'hash -r', 'BASH_ENV=/dev/null', 'exec 9<&0']
DECLS = ['export {n}={v}', 'declare -x {n}={v}', '{n}={v}; export {n}', 'export {n}; {n}={v}', 'readonly {n}={v}; export {n}', 'declare -ix {n}=12', 'declare -ux {n}={v}', 'declare -lx {n}={v}', 'declare -tx {n}={v}', 'declare -rx {n}={v}', 'declare -gx {n}={v}', 'export {n}=old; {n}={v}', 'export {n}={v}; {n}+=more', 'export {n}=old; unset {n}; export {n}={v}', 'typeset -x {n}={v}', 'export {n}={v} {n}2={v}', '{n}=(1 2); export {n}', 'declare -ax {n}=({v} "b c")', 'declare -Ax {n}=([k]={v} ["a b"]=c)', 'declare -x {n}', 'declare -nx {n}=HOME', 'export {n}=', 'export {n}=x; unset {n}', 'export {n}=x; export -n {n}', '{n}={v}']
SCRIPTNAMES = ['s.sh', 'a b.sh', "q'uote.sh", 'd"quote.sh', '$HOME.sh', 'semi;colon.sh', 'new\nline.sh', 'back\\slash.sh', '!bang.sh', '`x`.sh', '-n.sh', '\xe9.sh', '&.sh', '#.sh', '(p).sh', 'sub/x.sh', '{a,b}.sh']
SKIP = {'_'}


def quote(b):
    return b"$'" + b''.join(b'\\%03o' % c for c in b) + b"'"


def environment(h, locale, extra=None):
    exports = {'PATH': os.environ['PATH'], 'HOME': h.execdir + '/home', 'KEPT': 'before "\n', 'TERM': 'dumb'}
    if locale:
        exports['LC_ALL'] = locale
    exports.update(extra or {})
    return h.env(exports=exports)


def oracle(h, exports, cwd, scripts, names=True):
    """What bash itself exports at the end of the scripts, or None if it does not get there."""
    out = h.tmp + '/oracle'
    src = b''.join(b'source ' + quote(os.fsencode(s)) + b'; ' for s in scripts)
    p = subprocess.run([b'/bin/bash', b'-l', b'-i', b'-c', src + b'/usr/bin/env -0 >"$0"', os.fsencode(out)], cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, env={os.fsencode(k): os.fsencode(v) for k, v in exports.items()})
    if not os.path.exists(out):
        return None, p.returncode
    with open(out, 'rb') as f:
        data = f.read()
    os.unlink(out)
    res = {}
    for item in data.split(b'\0')[:-1]:
        n, _, v = item.partition(b'=')
        n = os.fsdecode(n)
        if n.isidentifier() and n not in SKIP:
            res[n] = os.fsdecode(v)
    return res, p.returncode


def source(h, e, scripts, how='wait', other=None, args=None):
    """Runs bashsource and compares the variables with those of bash."""
    from pieshell import environ
    before = dict(e._exports)
    want, code = oracle(h, before, e._cwd, scripts)
    p = e.bashsource(*[environ.R(s) for s in scripts] if args is None else args)
    if how == 'wait':
        k, v = h.attempt(lambda: h.run(p.run().wait()))
    elif how == 'twice':
        k, v = h.attempt(lambda: (h.run(p.run().wait()), h.run(p.run().wait())))
        want, code = oracle(h, want, e._cwd, scripts)
    elif how == 'concurrent':
        import asyncio

        async def both():
            a, b = p.run(), p.run()
            await asyncio.gather(a.wait(), b.wait())
        k, v = h.attempt(lambda: h.run(both()))
    elif how == 'pipe':
        k, v = h.attempt(lambda: list(e._(h.workdir + '/free/vp', 'o:x') | p))
    elif how == 'group':
        k, v = h.attempt(lambda: list(p + e._(h.workdir + '/free/vp', 'o:x')))
    what = 'bashsource(%r)' % (scripts,)
    if want is None:
        if k != 'failed' and code:
            h.problem('%s: bash does not get to the end of the scripts (status %s), but bashsource %s %s' % (what, code, k, v))
        h.expect(dict(e._exports), before, 'exports after a failed %s' % what)
        return None
    if k != 'ok':
        h.problem('%s: %s %s' % (what, k, v))
        return None
    got = dict(e._exports)
    for n in sorted(want):
        if n in SKIP:
            continue
        if got.get(n) != want[n] and not n.startswith('ARRAY'):
            h.problem('%s: %s is %r in bash, but %r in the environment' % (what, n, want[n][:200], got.get(n) and got[n][:200]))
    for n in sorted(got):
        if n not in want and n not in before and n not in SKIP and got[n] and not n.startswith('ARRAY'):   # '' for those without a value
            h.problem('%s: %s=%r was not exported by bash' % (what, n, got[n]))
        if n not in want and n in before and n != 'X' and got[n] != before[n]:
            h.problem('%s: %s changed from %r to %r, not exported by bash' % (what, n, before[n], got[n]))
    return want


def script(h, name, lines):
    path = os.path.join(h.dir, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(b'\n'.join(lines) + b'\n')
    return path


def values(h, item):
    """Many variables at once, each with its own value."""
    locale, vals = item
    script(h, 's.sh', [b'export V%d=' % i + quote(v) for i, v in enumerate(vals)])
    e, e2 = environment(h, locale), environment(h, locale)
    before = dict(os.environ)
    want = source(h, e, ['./s.sh'])
    if want is not None:
        for i, v in enumerate(vals):
            if want.get('V%d' % i) != os.fsdecode(v):
                h.problem('the script itself is wrong for %r: %r' % (v, want.get('V%d' % i)))
    h.expect(dict(os.environ), before, 'the variables of the process')
    h.expect(e2._exports.get('V0'), None, 'the variable in another environment')
    # as commands see it
    names = ['V%d' % i for i in range(len(vals))]
    rep = h.tmp + '/envdump'
    k, v = h.attempt(lambda: h.run((e._('/usr/bin/env', '-0') > rep).run().wait()))
    if k != 'ok':
        return h.problem('env: %s %s' % (k, v))
    with open(rep, 'rb') as f:
        got = dict(x.partition(b'=')[::2] for x in f.read().split(b'\0')[:-1])
    os.unlink(rep)
    for i, v in enumerate(vals):
        if got.get(b'V%d' % i) != v:
            h.problem('a command run after bashsource sees V=%r instead of %r' % (got.get(b'V%d' % i), v))
        h.count((locale, v))


def declared(h, item):
    """One variable, declared in a special way, between others."""
    decl, v, n, locale = item
    e = environment(h, locale, {'X': 'inherited'} if n == 'X' else None)
    lines = [b'export A_FIRST=1 ZLAST=' + quote(b'2 "\n\'')]
    if '(' in decl:
        n = 'ARRAY'
    lines.append(decl.format(n=n, v='@@').encode().replace(b'@@', quote(v)))
    lines.append(b'export M_MID=$\'3 \\n declare -x M_MID="4"\'')
    lines.append(b'a_function() { echo "it\'s"; }')
    script(h, 's.sh', lines)
    if n == 'ARRAY' or decl in ('export {n}=x; unset {n}', 'export {n}=x; export -n {n}', '{n}={v}'):
        e._exports.pop('X', None)
    source(h, e, ['./s.sh'])
    h.count(item)


def functions(h, item):
    funcs, opt, where = item
    e = environment(h, 'C.UTF-8')
    lines = [b'export FIRST=1', opt.encode()] if where == 'before' else [b'export FIRST=1']
    lines += [f.encode() for f in funcs]
    lines += [b'export LAST=' + quote(b'2 "\n}\n')]
    if where == 'after':
        lines.append(opt.encode())
    if where == 'first script':
        script(h, 's1.sh', [opt.encode()])
        script(h, 's2.sh', lines)
        source(h, e, ['./s1.sh', './s2.sh'])
    elif where == 'profile':
        with open(h.execdir + '/home/.bash_profile', 'wb') as f:
            f.write(b'\n'.join(lines) + b'\n')
        source(h, e, [])
        os.unlink(h.execdir + '/home/.bash_profile')
    else:
        script(h, 's.sh', lines)
        source(h, e, ['./s.sh'])
    h.count(item)


def scripts(h, item):
    """Script names, several scripts, relative to the environment, repeatedly."""
    names, how, sub = item
    e = environment(h, 'C.UTF-8')
    if sub:
        os.makedirs(h.dir + '/' + sub, exist_ok=True)
        e._cd(h.dir + '/' + sub)
    for i, n in enumerate(names):
        with open(os.path.join(h.tmp, 'src'), 'wb') as f:
            f.write(b'export N%d=%d COMMON="$COMMON-%d" SEEN="$PWD"\n' % (i, i, i))
        path = os.path.join(e._cwd, n)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        os.replace(h.tmp + '/src', path)
    source(h, e, ['./' + n for n in names], how)
    h.count(item)


def failing(h, item):
    """Scripts that end bash, cannot be read or parsed."""
    bad, before, after = item
    e, e2 = environment(h, 'C.UTF-8'), environment(h, 'C.UTF-8')
    e2b = dict(e2._exports)
    names = []
    for i, lines in enumerate(before + (bad,) + after):
        n = './s%d.sh' % i
        names.append(n)
        path = h.dir + '/' + n
        if os.path.isdir(path):
            os.rmdir(path)
        elif os.path.exists(path):
            os.unlink(path)
        if lines == 'MISSING':
            continue
        if lines == 'DIR':
            os.mkdir(path)
            continue
        script(h, n, [lines.encode()])
    source(h, e, names)
    h.expect(dict(e2._exports), e2b, 'exports of another environment')
    # still works afterwards
    script(h, 'ok.sh', [b'export FINE=1'])
    source(h, e, ['./ok.sh'])
    for i, n in enumerate(names):
        path = h.dir + '/' + n
        if os.path.isdir(path):
            os.rmdir(path)
    h.count(item)


BAD = ['exit 3', 'exit 1', 'kill -9 $$', 'kill -SEGV $$', 'set -e; false', 'set -u; set -e; echo $UNSET', 'MISSING', 'DIR', 'if then', 'export X="unterminated', 'f() {', 'export B=1; (', '${', 'export 1bad=2', 'exec false', 'exec /nonexistent', 'set -e; source ./missing', 'trap "exit 7" EXIT; exit', 'return 1', 'nonexistent_command', ': ${UNSET?error}', 'readonly R=1; R=2', 'exec 0<&-', 'exec 1>&- 2>&-', 'cat <<EOF', 'trap "exit 4" ERR; false']


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    pool = [b''.join(x) for n in (0, 1, 2) for x in itertools.product(ALPHA, repeat=n)] + TOUGH + [a + b for a in TOUGH for b in TOUGH if len(a + b) < 100]
    pool += [b''.join(x) for x in itertools.product(ALPHA if t else ALPHA[:14], repeat=3)]
    if t:
        pool += [b''.join(x) for x in itertools.product(ALPHA[:14], repeat=4)]
    items = []
    for loc in ('C.UTF-8', '', 'C'):
        p = pool if loc == 'C.UTF-8' or t and loc == '' else pool[:1 + 28 + 28 * 28 + len(TOUGH)]
        items += [(loc, p[i:i + 150]) for i in range(0, len(p), 150)]
    out.append(Scen('values', values, sched=False, items=items, chunk=2, timeout=120))
    items = [(d, v, n, 'C.UTF-8') for d in DECLS for v in (b'v', b'a "b"\n$', b"it's\\", b'\xff\xc3\xa9') for n in ('N', 'X', 'lower_2')]
    out.append(Scen('declarations', declared, sched=False, items=items, chunk=10, timeout=60))
    items = [((f,), o, w) for f in FUNCTIONS for o in OPTIONS[:1] for w in ('before', 'profile', 'first script')] + [((f,), o, 'before') for f in FUNCTIONS[::4] for o in OPTIONS]
    items += [((FUNCTIONS[0],), o, w) for o in OPTIONS for w in ('before', 'after', 'first script', 'profile')]
    items += [(fs, '', 'before') for fs in itertools.product(FUNCTIONS[:20], repeat=2)]
    if t:
        items += [((f,), o, w) for f in FUNCTIONS for o in OPTIONS for w in ('after', 'before', 'profile', 'first script')] + [(fs, '', 'before') for fs in itertools.product(FUNCTIONS[1:14], repeat=3)]
    out.append(Scen('functions', functions, sched=False, items=items, chunk=20, timeout=60))
    items = [((n,), how, sub) for n in SCRIPTNAMES for how in ('wait', 'twice') for sub in ('', 'in a "dir"', '$x')] + [((a, b), 'wait', '') for a in SCRIPTNAMES for b in SCRIPTNAMES if a != b]
    items += [(('s.sh',), how, '') for how in ('concurrent', 'pipe', 'group')] + [((), how, '') for how in ('wait', 'twice', 'concurrent', 'pipe', 'group')]
    if t:
        items += [(x, 'wait', '') for x in itertools.permutations(SCRIPTNAMES[:10], 3)]
    out.append(Scen('scripts', scripts, sched=False, items=items, chunk=20, timeout=60))
    items = [(b, pre, post) for b in BAD for pre in ((), ('export P=1',)) for post in ((), ('export Q=1',))]
    if t:
        items += [(b, (b2,), ()) for b in BAD for b2 in BAD]
    out.append(Scen('failing', failing, sched=False, items=items, chunk=4, timeout=60))
    return out
