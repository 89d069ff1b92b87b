"""C14: all spellings of a command line give the same argument vector."""
import os, itertools
from ..explore import Scen
from .. import lib

LEVEL = 'exploration'
RULE = 'distinct sequences of construction steps, each run as a real command whose argument vector is compared'
ASSUMPTIONS = ['attribute names: identifiers that are no attributes of pipelines; strings without expansion characters (see C13)']

# A step: (kind, ...).  Steps are applied to the command one after the other.
STEPS = [
    ('attr', 'foo'), ('attr', 'Long_name2'), ('attr', 'l'),
    ('call', ()), ('call', ('a b',)), ('call', ('-x', '')), ('call', ('--k=v', "q'\"\\ $x", '\xe9\n')), ('call', (('R', '* %s ~'),)),
    ('kw', (('name', 'v'),)), ('kw', (('long_name', 'a=b c'), ('flag', True), ('off_flag', False))), ('kw', (('n', 4), ('f', 1.5), ('_x_', ''))), ('kw', (('z', 'last'), ('a', ('R', '*')))),
    ('kw', (('one', 1), ('zero', 0), ('o', 1.0))), ('minus', 'a_b'), ('call', (('neg', '_c_d'),)),
    ('mix', ('p1', 'p2'), (('k_1', 'v'), ('t_', True))), ('mix', (('neg', 'w'),), (('no', False),)),
    ('minus', 'l'), ('minus', 'Xyz'), ('call', (('neg', 'w'), 'arg', ('neg', 'name'))),
    ('dict', (('d_e', 'v'), ('g', True))), ('dict2', (('first', 'x'),), (('second', 'y'),)),
    ('call', (('list', ('i1', 'i 2')),)), ('kw', (('in_file', ('pipe', 'out/put/')),)), ('mix', (('pipe', 'x/'), 'mid', ('gen', ('g',))), (('f', ('list', ('k',))),)), ('call', (('func', 0),)), ('kw', (('out', ('func', 1)),)),
    ('call', (('group', ('a/', 'b/')),)), ('call', (('same', 0), ('same', 0))),
]
CHEAP = list(range(0, 22))
STARTS = ['attr', 'root', 'rootattr', 'env', 'scope', 'path', 'getattr', 'list']


def value(h, e, v, seen):
    """The value to pass and what should be seen: a string or ('data', bytes) or ('sink', list)."""
    from pieshell import environ
    if not isinstance(v, tuple):
        return v, v
    k, x = v
    if k == 'R':
        return environ.R(x), x
    if k == 'neg':
        return -getattr(e, x), '-' + x
    if k == 'list':
        return list(x), ('data', b''.join(i.encode() + b'\n' for i in x))
    if k == 'gen':
        return iter(list(x)), ('data', b''.join(i.encode() + b'\n' for i in x))
    if k == 'pipe':
        return h.other._(h.workdir + '/free/vp', 'o:' + x), ('data', x.replace('/', '\n').encode())
    if k == 'group':
        return h.other._(h.workdir + '/free/vp', 'o:' + x[0]) | h.other._(h.workdir + '/free/vp', 'c', 'o:' + x[1]), ('data', ''.join(x).replace('/', '\n').encode())
    if k == 'same':
        if 'same' not in seen:
            seen['same'] = h.other._(h.workdir + '/free/vp', 'o:same/')
        return seen['same'], ('data', b'same\n')
    if k == 'func':
        got = []

        async def f(stdin):
            async for line in stdin:
                got.append(line)
        return f, ('sink', got)
    raise ValueError(v)


def apply(h, e, p, st, seen):
    """The longer command and the arguments it should add."""
    kind = st[0]
    if kind == 'attr':
        return getattr(p, st[1]), [st[1]]
    if kind == 'minus':
        return p - getattr(e, st[1]), ['-' + st[1]]
    pos = [value(h, e, v, seen) for v in (st[1] if kind in ('call', 'mix') else ())]
    kws = [(n, value(h, e, v, seen)) for n, v in (st[1] if kind in ('kw', 'dict', 'dict2') else st[2] if kind == 'mix' else ())]
    if kind == 'dict2':
        kws2 = [(n, value(h, e, v, seen)) for n, v in st[2]]
    want = [w for _, w in pos]

    def add(kws):
        for n, (v, w) in kws:
            n = n.replace('_', '-')
            if v is True:
                want.append('--' + n)
            elif v is not False:
                want.append(('kw', '--%s=' % n, w))
    add(kws)
    if kind == 'dict':
        return p({n: v for n, (v, w) in kws}), want
    if kind == 'dict2':
        add(kws2)
        return p({n: v for n, (v, w) in kws}, {n: v for n, (v, w) in kws2}), want
    return p(*[v for v, _ in pos], **{n: v for n, (v, _) in kws}), want


def start(h, e, how):
    from pieshell import environ, pipeline
    full = h.workdir + '/free/vp'
    if how == 'attr':
        return e.vp, ['vp']
    if how == 'root':
        return e._('vp'), ['vp']
    if how == 'rootattr':
        return e._.vp, ['vp']
    if how == 'env':
        return e('.').vp, ['vp']
    if how == 'scope':
        return environ.EnvScope(env=e)['_'].vp, ['vp']
    if how == 'path':
        return e._(full), [full]
    if how == 'getattr':
        return environ.EnvScope(env=e)['vp'], ['vp']
    if how == 'list':
        return pipeline.command.Command(e, ['vp', 'in list']), ['vp', 'in list']
    raise ValueError(how)


def run(h, p, want, what, outer=lambda p: p):
    """Runs the command and compares its arguments."""
    from .. import ctl
    rep = h.tmp + '/rep'
    for w in want:
        w = w[2] if isinstance(w, tuple) and w[0] == 'kw' else w
        if isinstance(w, tuple) and w[0] == 'sink':
            del w[1][:]
    k, v = h.attempt(lambda: h.run(outer(p).run().wait()))
    if k != 'ok':
        return h.problem('%s: %s %s' % (what, k, v))
    with open(rep) as f:
        rep_ = ctl.parse_report(f.read())
    os.unlink(rep)
    got = rep_['arg']
    if len(got) != len(want):
        return h.problem('%s gave the arguments %r instead of %r' % (what, got, want))
    fds = set()
    for i, (g, w) in enumerate(zip(got, want)):
        pre = ''
        if isinstance(w, tuple) and w[0] == 'kw':
            pre, w = w[1:]
        if isinstance(w, (str, int, float)):
            ok = g == pre + str(w)
        else:
            ok = g.startswith(pre + '/dev/fd/') and g not in fds
            if ok:
                fd = int(g[len(pre) + 8:])
                fds.add(g)
                ok = fd in rep_['fds'] and fd > 2
                if w[0] == 'data':
                    if rep_['data'].get(i) != w[1]:
                        h.problem('%s: the file %s contains %r instead of %r' % (what, g, rep_['data'].get(i), w[1]))
                elif w[1] != ['to %d' % i, 'end']:
                    h.problem('%s: the function behind %s got %r' % (what, g, w[1]))
        if not ok:
            return h.problem('%s gave the arguments %r instead of %r' % (what, got, want))
    files = [fd for fd in rep_['fds'] if fd > 2 and fd < 600]
    if len(files) != len(fds):
        h.problem('%s: open files %s' % (what, rep_['fds']))
    h.ops += 1


def case(h, item):
    how, seq = item
    e = h.env(exports=dict(os.environ, VA_REPORT=h.tmp + '/rep'))
    h.other = h.env()
    p, args = start(h, e, how)
    seen = {}
    chain = [(p, args)]
    for st in seq:
        p0, a0 = chain[-1]
        p1, a1 = apply(h, e, p0, st, seen)
        # others made from the same one
        p0.sibling, p0('sibling', x='y'), p0 - e.s, -e.s
        chain.append((p1, a0 + a1))
    once = any(isinstance(x, tuple) and x[0] == 'gen' for st in seq for x in st[1])
    run(h, *chain[-1], '%s %s' % (how, seq))
    for k, (p, a) in enumerate(chain[:-1]):
        if not (once and k):
            run(h, p, a, '%s %s after building %s from it' % (how, seq[:k], seq))
    if not once:
        run(h, *chain[-1], '%s %s, second run' % (how, seq))
    h.count((how, seq))


def within(h, item):
    """The command as part of a pipeline."""
    how, st, place = item
    e = h.env(exports=dict(os.environ, VA_REPORT=h.tmp + '/rep'))
    e2 = h.other = h.env()
    vp = e2._(h.workdir + '/free/vp')
    p, args = start(h, e, how)
    p, a = apply(h, e, p, st, {})
    outer = {'first': lambda p: p | vp('c'), 'last': lambda p: vp('o:in/') | p, 'list': lambda p: [] | p, 'to function': lambda p: p | lib.function('up'), 'redirected': lambda p: p | None,
             'from file': lambda p: '/dev/null' | p, 'group': lambda p: p + vp('o:x/'), 'second of group': lambda p: vp('o:x/') + p, 'argument': lambda p: vp(p), 'named argument': lambda p: vp(f=p)}[place]
    run(h, p, args + a, '%s %s as %s' % (how, st, place), outer)
    h.count(item)


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    items = [(s, ()) for s in STARTS] + [(s, (x,)) for s in STARTS for x in STEPS]
    items += [('attr', (x, y)) for x in STEPS for y in STEPS]
    if t:
        items += [(s, (x, y)) for s in STARTS[1:] for x in STEPS for y in STEPS]
    items += [('attr', x) for x in itertools.product([STEPS[k] for k in (CHEAP if t else (0, 4, 6, 9, 12, 14, 17, 20))], repeat=3)]
    out.append(Scen('constructions', case, sched=False, items=items, chunk=20, timeout=120))
    places = ['first', 'last', 'list', 'to function', 'redirected', 'from file', 'group', 'second of group', 'argument', 'named argument']
    out.append(Scen('within', within, sched=False, items=[(s, x, p) for s in (STARTS if t else ('attr', 'path')) for x in STEPS for p in places], chunk=20))
    return out
