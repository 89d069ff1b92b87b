"""C01: data passes through a pipeline complete, in order and unmodified."""
import asyncio
from ..explore import Scen
from .. import lib

ASSUMPTIONS = ['schedules: all with at most `deviation_bound` departures from each of the listed base policies; data: the listed sizes and line lengths',
               'commands are puppets doing real system calls on real pipes']
C, I, F, P, G, R = [lambda *a, k=k: (k,) + a for k in 'CIFPGR']
FILES = {'in1': b'one\ntwo\n\nthree', 'big': lib.pattern(5000, 41), 'empty': b'',
         # Characters of two to four bytes at all offsets; lines of all kinds of lengths
         'utf': b''.join((b'x' * (i % 7) + '\u00e9\u20ac\U0001f600\u0416'.encode() * (i % 90)) + b'\n' for i in range(260))}


def setup(h):
    for n, d in FILES.items():
        h.write_file(n, d)


def check(h, node, mode):
    e = h.env()
    sink = []
    m = lib.Meaning(FILES)
    want = m.of(node)
    got, k, v = lib.consume(h, lib.build(e, node, sink), mode)
    if k != 'ok':
        return h.problem('%s of %r ended with %s: %s' % (mode, node, k, v))
    if mode in lib.LINE_MODES:
        want = [lib.unlines(lib.lines(s)) for s in want]
    if not lib.matches(got, want):
        h.problem('%s of %r gave %s, should be %s' % (mode, node, lib_short(got), lib_short(want)))
    if m.sink:
        w = [l for s in m.sink for l in lib.lines(s)]
        if len([s for s in m.sink if s]) > 1:
            ok = lib.shuffle_of([s.encode() for s in sink], [lib.lines(s) for s in m.sink])
        else:
            ok = [s.encode() for s in sink] == w
        if not ok:
            h.problem('the function in %r received %s, should be %s' % (node, lib_short(sink), lib_short(w)))
    check_files(h, m, node)
    h.obs['got'] = hash(got)
    h.count((repr(node)[:200], mode, len(got)))


def check_files(h, m, node):
    for name, data in m.files.items():
        if isinstance(data, list):
            h.spin()
            f = h.read_file(name)
            if not lib.matches(f if f is not None else b'(missing)', data):
                h.problem('%r wrote %s to %s, should be %s' % (node, lib_short(f), name, lib_short(data)))


def lib_short(x):
    from ..harness import short
    return short(x, 160)


def shape(h):
    setup(h)
    check(h, h.p['node'], h.p['mode'])


def sized(h, item):
    if not hasattr(h, 'set_up'):
        setup(h)
        h.set_up = True
    node, mode = item
    check(h, node, mode)


def two(h):
    """Two pipelines being consumed at the same time."""
    setup(h)
    e = h.env()
    a, b = h.p['nodes']
    res = {}

    async def one(i, node):
        from pieshell import redir
        out = []
        async for l in lib.build(e, node).run([redir.Redirect('stdout', redir.PIPE)]):
            out.append(l.encode() + b'\n')
        res[i] = b''.join(out)

    async def both():
        await asyncio.gather(one(0, a), one(1, b))
    k, v = h.attempt(lambda: h.run(both()))
    if k != 'ok':
        return h.problem('consuming two pipelines ended with %s: %s' % (k, v))
    for i, n in enumerate((a, b)):
        want = lib.Meaning(FILES).of(n)
        if not lib.matches(res[i], [lib.unlines(lib.lines(s)) for s in want]):
            h.problem('pipeline %d of two at the same time, %r, gave %s, should be %s' % (i, n, lib_short(res[i]), lib_short(want)))


def nested(h):
    """A function that itself runs a pipeline for every line."""
    setup(h)
    e = h.env()

    async def f(stdin):
        async for line in stdin:
            async for x in e.vp('o:%s/' % line) | e.vp('u'):
                yield x
    got, k, v = lib.consume(h, e.vp('o:a/b/c/') | f | e.vp('c'), 'list')
    if (got, k) != (b'A\nB\nC\n', 'ok'):
        h.problem('pipelines within a function gave %r %s %s' % (got, k, v))


def foreground(h):
    """Output that goes to the environment's own standard output."""
    setup(h)
    e = h.env()
    node = h.p['node']
    setup(h)
    m = lib.Meaning(FILES)
    want = m.of(node)
    k, v = h.attempt(lambda: lib.build(e, node).run_interactive())
    if k != 'ok':
        return h.problem('foreground run of %r ended with %s: %s' % (node, k, v))
    got = h.console()
    if not lib.matches(got, want):
        h.problem('foreground run of %r wrote %s, should be %s' % (node, lib_short(got), lib_short(want)))
    check_files(h, m, node)


SHAPES = [
    (P(C('O:3000:50:900'), C('c')), 'list'),
    (P(C('O:3000:50'), C('u')), 'bytes'),
    (P(C('o:a/b/', 'o:c/'), C('u'), C('c')), 'aiter'),
    (P(C('o:a/b/', 'n', 'o:c'), C('c::1')), 'str'),
    (P(C('o:x/', 'o:y/', 'o:z/'), F('up')), 'list'),
    (P(C('o:x/', 'o:y', 'o:z//w'), F('ex')), 'str'),
    (P(C('O:2500:60'), F('id'), C('c')), 'bytes'),
    (P(I('list', ['a', 'b', 'c']), C('u')), 'list'),
    (P(I('gen', ['a', None, b'b', 3, '', 'c']), C('c')), 'str'),
    (P(I('agen', ['a', None, b'b', 'c']), C('c')), 'list'),
    (P(I('slow', ['aa', 'bb', 'cc']), F('up'), C('c')), 'list'),
    (P(I('aiter', ['aa', 'bb']), F('dup'), F('ex')), 'aslow'),
    (P(I('coros', ['aa', None, 'bb']), C('c')), 'list'),
    (P(I('list', ['x' * 3000, 'y' * 3000]), C('c:0:1000')), 'list'),
    (P(I('list', ['%04d' % i * 10 for i in range(40)]), C('c'), F('id')), 'list'),
    (P(C('o:a/', 'o:b/'), F('cnt')), 'list'),
    (P(C('o:a/', 'o:b/'), F('coro'), C('c')), 'list'),
    (P(C('o:a/', 'o:b/'), F('sink')), 'list'),
    (P(C('o:a/', 'o:b/'), F('sinkcoro'), C('c')), 'list'),
    (P(C('n'), F('gen', ['p', 'q'])), 'list'),
    (P(F('list', ['p', 'q']), C('u')), 'list'),
    (P(F('int'), C('c')), 'list'),
    (G(C('o:a1/', 'o:a2/'), C('o:b1/', 'o:b2/')), 'list'),
    (G(C('o:a1/'), C('o:b1/'), C('o:c1/')), 'str'),
    (G(C('o:a1/', 'n'), I('list', ['b1', 'b2'])), 'list'),
    (G(I('list', ['a1', 'a2']), I('gen', ['b1', 'b2'])), 'bytes'),
    (P(G(C('o:a1/', 'o:a2/'), C('o:b1/')), C('c')), 'list'),
    (P(G(C('o:a1/', 'o:a2/'), P(C('o:b1/'), C('u'))), F('up')), 'list'),
    (P(G(I('list', ['a1', 'a2']), C('o:b1/')), F('ex'), C('c')), 'list'),
    (G(P(C('o:a/', 'o:b/'), C('u')), P(I('list', ['c', 'd']), F('ex'))), 'iterb'),
    (C(I('list', ['a', 'b'])), 'list'),
    (C(I('agen', ['a', 'b']), 'o:c/'), 'list'),
    (C(C('o:a/', 'o:b/')), 'list'),
    (C(P(C('o:a/', 'o:b/'), C('u')), 'o:z/'), 'list'),
    (C('o:0/', I('list', ['a', 'b']), C('o:c/'), ('kw', 'file', I('gen', ['d']))), 'list'),
    (P(C('o:a/b/'), C('c', ('kw', 'in', P(I('list', ['q']), F('up'))))), 'list'),
    (P(C('o:a/', 'o:b/'), C(F('sink'))), 'list'),
    (P(C(C(I('list', ['x', 'y']))), C('u')), 'list'),
    (P(C(I('list', ['x', 'y'])), F('up')), 'aiter'),
    (R(P(C('c'), C('u')), (0, 'in1')), 'str'),
    (R(C('c'), (0, 'in1')), 'list'),
    (P(R(C('c'), (0, 'in1')), F('ex'), C('c')), 'list'),
    (P(C('o:a/'), R(C('c'), (1, 'out')), C('c', 'o:end/')), 'list'),
    (P(C('o:x/'), R(G(C('o:a1/'), C('o:b1/')), (1, 'out')), C('c', 'o:end/')), 'list'),
    (P(C('f:big'), C('c')), 'bytes'),
    (P(C('O:9000:1000'), C('c:0:500')), 'iterb'),
    (P(C('o:a/b/'), C('o:x/', 'c')), 'raiter'),
    (P(C('oh:c3a90ae282ac0af09f98800a'), F('ex'), C('c')), 'list'),
    (P(C('oh:610d0a0d0a620a0a0a'), F('id'), C('c')), 'bytes'),
    (P(C('oh:00ff800a010d'), C('c:0:2')), 'bytes'),
    (P(C('O:70000:100'), F('id'), C('c')), 'bytes'),
    (P(I('list', ['z' * 70000, 'tail']), C('c')), 'list'),
    (P(I('list', ['z' * 70000, 'tail']), F('ex')), 'list'),
    (G(C('O:70000:100'), C('n')), 'list'),
]
# Pipes whose destination is a pipe or a group
NESTED = [
    (P(C('o:a/', 'o:b/'), P(C('c'), C('u'))), 'list'),
    (P(I('list', ['a', 'b']), P(C('u'), F('ex'))), 'bytes'),
    (P(P(C('o:a/'), C('c')), P(F('up'), P(C('c'), F('ex')))), 'list'),
    (P(C('o:a/'), P(C('c'), P(C('u'), P(C('c'), C('c'))))), 'str'),
    (P(C('o:a/'), G(C('u'), C('o:k/'))), 'list'),
    (P(G(C('o:a/'), C('n')), P(G(C('u'), C('n')), C('c'))), 'list'),
    (P(C('o:a/'), R(P(C('u'), C('c')), (1, 'out')), C('o:end/', 'c')), 'list'),
    (P(C('o:a/'), C(P(C('o:b/'), P(C('c'), C('u'))), 'c')), 'list'),
]
SHAPES += NESTED

FORE = [P(C('o:a/', 'o:b/'), C('u')), P(I('list', ['a', 'b']), F('ex'), C('c')), G(C('o:a1/', 'o:a2/'), C('o:b/')),
        P(C('o:a/', 'o:b/'), F('ex')), C(I('list', ['a', 'b'])),
        R(G(C('o:a1/', 'o:a2/'), C('o:b1/')), (1, 'out')),
        R(G(C('o:a1/', 'o:a2/'), P(C('o:b1/'), C('c'))), (1, 'out')),
        R(G(I('list', ['a1', 'a2']), C('o:b1/', 'o:b2/')), (1, 'out')), P(C('O:66000:64'), C('c'))]

TWO = [(P(C('o:a/', 'o:b/'), C('c')), P(C('o:c/', 'o:d/'), F('up'))),
       (P(I('list', ['a', 'b']), C('c')), P(I('list', ['c', 'd']), C('u'))),
       (C('o:a/', 'n'), C('n', 'o:b/'))]


def sizes(tier):
    ns = [0, 1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131073]
    ls = [1, 2, 3, 1023, 1024, 1025, 2048, 4096, 4097, 70000]
    if tier == 'thorough':
        ns += [3, 511, 512, 513, 3071, 3072, 3073, 8191, 8193, 16384, 32768, 61440, 65540, 131071, 131072, 262144, 500001]
        ls += [5, 512, 1000, 1026, 4095, 5000, 8192, 65536, 65537, 131072]
    out = []
    for n in ns:
        for l in ls:
            if n > 70000 and l < 3 or n > 9000 and l == 1 or tier != 'thorough' and n / l > 1500:
                continue
            o = 'O:%d:%d' % (n, l)
            out += [(C(o), 'bytes'), (C(o), 'list'), (P(C(o), C('c')), 'str'), (P(C(o), F('id')), 'bytes'), (P(C(o), F('id'), C('c')), 'list'),
                    (C(C(o)), 'list'), (P(C(o), C(F('sink'))), 'list')]
            if n <= 140000:
                items = [x.decode() for x in lib.lines(lib.pattern(n, l))]
                if len(items) < 6000:
                    out += [(P(('ITEMS', n, l), C('c')), 'bytes'), (P(('ITEMS', n, l), F('ex')), 'list'), (C(('ITEMS', n, l)), 'bytes')]
    return out


def long(tier):
    """Many stages, many members, many arguments."""
    out = []
    for n in (5, 7, 9, 12, 16, 20):
        kinds = [lambda i: C('c'), lambda i: [C('c'), F('id')][i % 2], lambda i: [F('id'), C('u'), C('c')][i % 3]] + ([lambda i: F('id')] if n < 13 else [])
        for k, f in enumerate(kinds):
            st = [f(i) for i in range(n)]
            out += [(P(C('o:a/b/', 'o:c'), *st), 'list'), (P(C('f:utf'), *st), 'list'), (P(I('list', ['p', 'q']), *st, F('ex')), 'list')]
            if tier == 'thorough':
                out += [(P(C('O:70000:1000'), *st), 'bytes'), (P(C('o:a/b/'), *st, F('sink')), 'list')]
        out += [(G(*[C('o:%d/' % i, 'o:%d+/' % i) for i in range(n)][:8]), 'list'), (P(C('o:a/'), G(C('u'), *[C('o:%d/' % i) for i in range(5)]), C('c')), 'list')]
        out += [(C(*[I('list', ['i%d' % i, 'j']) if i % 3 else C('o:c%d/' % i) for i in range(min(n, 9))]), 'list'),
                (P(C('o:x/'), C('c', *[C('o:c%d/' % i) for i in range(min(n, 9))]), F('ex')), 'list')]
    for m in ('list', 'bytes', 'aiter', 'str', 'next', 'iterb', 'aslow', 'raiter'):
        for st in ((), (C('c'),), (F('id'),), (F('ex'),), (C('c:0:1023'), F('id')), (C('c:0:4095'), F('ex'), C('c')), (F('id'), C('c:0:1001'))):
            out.append((P(C('f:utf'), *st) if st else C('f:utf'), m))
        out.append((P(I('list', [x.decode() for x in lib.lines(FILES['utf'])]), C('c:0:1021')), m))
    for n in ((1000003,) if tier != 'thorough' else (1000003, 3000017)):
        for st in ((C('c'),), (F('id'),), (C('c'), F('id'), C('c'))):
            out.append((P(C('O:%d:777' % n), *st), 'bytes'))
    return out


def expand(node):
    if node[0] == 'ITEMS':
        return ('I', 'list', [x.decode() for x in lib.lines(lib.pattern(node[1], node[2]))])
    return tuple(expand(x) if isinstance(x, tuple) else x for x in node)


def sized2(h, item):
    node, mode = item
    sized(h, (expand(node), mode))


def composed(tier):
    """All pipelines of up to three stages over a set of stages, free running."""
    src = [C('o:a/b/', 'o:c'), I('list', ['a', None, b'b', 7]), I('agen', ['x', 'y']), F('gen', ['g1', 'g2']), R(C('c'), (0, 'in1')),
           G(C('o:a1/a2/'), I('list', ['b1'])), C(I('iter', ['p', 'q'])), G(I('tuple', ['t']), P(C('o:k/'), F('ex')))]
    mid = [C('c'), C('u'), F('up'), F('dup'), F('bytes'), F('method'), F('args', ['<', '>']), C('o:head/', 'c'), C('c', I('list', ['arg']))]
    end = [C('c'), F('ex'), F('cnt'), F('coro'), F('sink'), C(F('sink'))]
    out = []
    modes = ['list', 'bytes', 'aiter', 'str', 'next', 'iterb', 'aslow', 'raiter']
    i = 0
    for s in src:
        cand = [s] + [P(s, x) for x in mid + end] + [P(s, x, y) for x in mid for y in mid + end] + [P(s, P(x, y)) for x in mid[::1 if tier == 'thorough' else 3] for y in mid[::2] + end]
        if tier == 'thorough':
            cand += [P(s, x, y, z) for x in mid for y in mid for z in end]
        for n in cand:
            try:
                lib.Meaning(FILES).of(n)
            except ValueError:
                continue
            for m in (modes if tier == 'thorough' and len(n) < 4 else [modes[i % 8], modes[(i + 3) % 8]]):
                out.append((n, m))
            i += 1
    return out


def scenarios(tier):
    t = tier == 'thorough'
    out = [Scen('shape %d %s' % (i, m), shape, node=n, mode=m, bound=2 if t else 1, cap=2500 if t else 12 if '70000' in repr(n) else 50,
                policies=('loop', 'procs', 'fine', 'finep', 'last')) for i, (n, m) in enumerate(SHAPES)]
    out += [Scen('foreground %d' % i, foreground, node=n, bound=2 if t else 1, cap=1500 if t else 40) for i, n in enumerate(FORE)]
    out += [Scen('two at once %d' % i, two, nodes=n, bound=2 if t else 1, cap=2500 if t else 80) for i, n in enumerate(TWO)]
    out += [Scen('nested', nested, bound=1, cap=1500 if t else 80)]
    out += [Scen('sizes', sized2, sched=False, items=sizes(tier), chunk=10, timeout=120),
            Scen('long', sized2, sched=False, items=long(tier), chunk=6, timeout=120),
            Scen('compositions', sized, sched=False, items=composed(tier), chunk=12, timeout=120)]
    return out
