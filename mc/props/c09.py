"""C09: running a pipeline does not change it; runs are independent."""
import asyncio, copy, itertools, os
from ..explore import Scen
from .. import lib
from . import c03

ASSUMPTIONS = ['compositions: all sequences of the listed number of composition steps over shared base pipelines; histories: all of the listed length over the listed operations',
               'schedules of concurrent runs: all with at most `deviation_bound` departures from each base policy']
C, I, F, P, G, R, X = [lambda *a, k=k: (k,) + a for k in 'CIFPGRX']

BASE = [C('o:a/', 'o:b/'), C('u'), F('ex'), I('list', ['p', 'q']), C('E:3', 'o:e/', 'c', 'x:3'), X('no_such_program', '1'), F('raise', 1), C('f:in1')]
NAMES = 'AUFLEXRI'


def make(e, node):
    from pieshell.pipeline import function as pf
    return lib.build(e, node)


def steps(nslots, n):
    """One more composition step over the slots that exist."""
    s = range(nslots)
    for a in s:
        for b in s:
            yield ('|', a, b)
            yield ('+', a, b)
            yield ('arg2', a, b)
    for a in s:
        yield ('arg', a)
        yield ('kw', a)
        yield ('call', a)
        yield ('>', a, n)
        yield ('<', a)
        yield ('2>', a)


def node_of(nodes, st):
    op = st[0]
    if op == '|':
        a, b = nodes[st[1]], nodes[st[2]]
        return P(*(a[1:] if a[0] == 'P' else (a,)), *(b[1:] if b[0] == 'P' else (b,)))
    if op == '+':
        return G(nodes[st[1]], nodes[st[2]])
    if op == 'arg':
        return C(nodes[st[1]], 'o:end/')
    if op == 'arg2':
        return C(nodes[st[1]], 'o:mid/', ('kw', 'file', nodes[st[2]]))
    if op == 'kw':
        return C('o:x/', ('kw', 'in', nodes[st[1]]))
    if op == 'call':
        n = nodes[st[1]]
        return n + ('o:z/',) if n[0] == 'C' and not any(isinstance(a, str) and a[0] == 'x' for a in n) else None
    if op == '>':
        return R(nodes[st[1]], (1, 'out%d' % st[2]))
    if op == '<':
        return R(nodes[st[1]], (0, 'in1'))
    if op == '2>':
        return R(nodes[st[1]], (2, 'STRING'))


def object_of(e, objs, st, given):
    from pieshell import redir
    op = st[0]
    a = objs[st[1]]
    if op == '|':
        return a | objs[st[2]]
    if op == '+':
        return a + objs[st[2]]
    if op == 'arg':
        return e.vp(a, 'o:end/')
    if op == 'arg2':
        return e.vp(a, 'o:mid/', file=objs[st[2]])
    if op == 'kw':
        kw = {'in': a}
        r = e.vp('o:x/', **kw)
        return r
    if op == 'call':
        return a('o:z/')
    if op == '>':
        return a | 'out%d' % st[2]
    if op == '<':
        return 'in1' | a
    if op == '2>':
        return a | given['stderr']


def readers(n):
    """How many members would read what comes into n."""
    k = n[0]
    if k == 'C':
        r = sum(readers(a[2] if a[0] == 'kw' else a) for a in n[1:] if isinstance(a, tuple))
        return r + any(isinstance(a, str) and a[0] in 'cu' for a in n[1:])
    if k == 'F':
        return 1
    if k in 'IX':
        return 0
    if k == 'P':
        return readers(n[1])
    if k == 'G':
        return sum(readers(a) for a in n[1:])
    return 0 if any(r[0] == 0 for r in n[2:]) else readers(n[1])


def python(n):
    return [x for x in lib.flat(n) if x[0] in 'IF']


def lists(n):
    k = n[0]
    if k == 'C':
        for a in n[1:]:
            if isinstance(a, tuple):
                yield from lists(a[2] if a[0] == 'kw' else a)
    elif k == 'R':
        for r in n[2:]:
            if r[0] == 1:
                yield r[1]
        yield from lists(n[1])
    elif k in 'PG':
        for a in n[1:]:
            yield from lists(a)


def good(n, top=True):
    """Does n mean something definite that ends by itself?"""
    k = n[0]
    if k == 'C':
        for a in n[1:]:
            if isinstance(a, tuple):
                s = a[2] if a[0] == 'kw' else a
                if s[0] == 'F' or not good(s) or any(lists(s)) or s[0] in 'XP' and 'X' in repr(s[-1:]):
                    return False
        # with input, only one may take it
        return True
    if k == 'P':
        for i, s in enumerate(n[1:]):
            if not good(s):
                return False
            if i:
                before = n[i]
                # the reader must be there, and must be the whole stage reading
                if readers(s) != 1:
                    return False
                if s[0] == 'G' or s[0] == 'C' and any(isinstance(a, tuple) for a in s[1:]):
                    pass
        return True
    if k == 'G':
        return all(good(s) for s in n[1:])
    if k == 'R':
        return good(n[1])
    return True


def valid(n):
    if not good(n) or sum(1 for _ in lib.flat(n)) > 8:
        return False
    outs = list(lists(n))
    if len(outs) != len(set(outs)):
        return False
    try:
        m = lib.Meaning({'in1': b'one\ntwo\n'})
        m.of(n)
        m.of(P(I('list', ['q']), n)) if readers(n) else None
    except ValueError:
        return False
    for x in walk(n):                  # what an argument reads depends on who is first
        fed = x[2:] if x[0] == 'P' else x[1:2] if x[0] == 'R' and any(r[0] == 0 for r in x[2:]) else ()
        if any(y[0] == 'C' and any(isinstance(a, tuple) and readers(a[2] if a[0] == 'kw' else a) for a in y[1:]) for s in fed for y in walk(s)):
            return False
    # a failing or input ignoring stage breaks the writers before it
    if n[0] == 'P' or any(x[0] == 'P' for x in walk(n)):
        for x in walk(n):
            if x[0] == 'P':
                for i, s in enumerate(x[2:]):
                    if any(y[0] == 'X' or y[:2] == ('F', 'raise') for y in lib.flat(s)) and python(P(*x[1:i + 2], x[1])):
                        return False
    return True


def walk(n):
    yield n
    for a in n[1:]:
        if isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] in 'CIFPGRX' and len(a[0]) == 1:
            yield from walk(a)
        elif isinstance(a, tuple) and a and a[0] == 'kw':
            yield from walk(a[2])


def compositions(depth, base, every=1):
    """All sequences of steps where each uses the one before, as (base, steps)."""
    out = []

    def go(nodes, seq):
        if len(seq) == depth:
            return
        for st in steps(len(nodes), len(seq)):
            if seq and len(nodes) - 1 not in st[1:3 if st[0] in ('|', '+', 'arg2') else 2]:
                continue
            n = node_of(nodes, st)
            if n is None or not valid(n):
                continue
            out.append(tuple(seq) + (st,))
            go(nodes + [n], seq + [st])
    go([BASE[i] for i in base], [])
    return [(base, s) for s in out[::every]]


def texts(objs):
    return [repr(o) for o in objs]


def setup(h):
    h.files = {'in1': b'one\ntwo\n'}
    for n, d in h.files.items():
        h.write_file(n, d)
    h.nrun = getattr(h, 'nrun', 0)


def check_output(h, node, got, m, want, what):
    got = b'' if got is None else got
    if not lib.matches(got, want):
        h.problem('%s of %s gave %r, should be %r' % (what, short(node), got, want))
    for name, data in m.files.items():
        if isinstance(data, list):
            f = h.read_file(name)
            if not lib.matches(f or b'', data):
                h.problem('%s of %s wrote %r to %s, should be %r' % (what, short(node), f, name, data))


def short(x):
    from ..harness import short
    return short(x, 200)


def fails(node):
    return any(c03.outcome(*l) for l in c03.leaves(node))


def one(h, p, node, how, what):
    """Run p once in some way and check everything about this run."""
    from pieshell import redir
    m = lib.Meaning(h.files)
    want = m.of(node)
    for name in m.files:                # output does not truncate (as documented)
        if isinstance(m.files[name], list) and os.path.exists(h.dir + '/' + name):
            os.unlink(h.dir + '/' + name)
    what = '%s, %s' % (what, how)
    if how in ('list', 'bytes') and list(lists(node)):
        how = 'file'
    if how == 'file':
        h.nrun += 1
        name = 'cap%d' % h.nrun
        k, v = h.attempt(lambda: p.run([redir.Redirect(1, name)]))
        if k != 'ok':
            return h.problem('%s of %s: starting: %s %s' % (what, short(node), k, v))
        r = v
        k, v = h.attempt(lambda: h.run(r.wait()))
        c03.verify(h, node, r, k, v, what)
        check_output(h, node, h.read_file(name), m, want, what)
    elif how == 'two':
        rs = []
        for i in (0, 1):
            h.nrun += 1
            rs.append(p.run([redir.Redirect(1, 'cap%d' % h.nrun)]))

        async def both():
            return await asyncio.gather(*[r.wait() for r in rs], return_exceptions=True)
        k, v = h.attempt(lambda: h.run(both()))
        if k != 'ok':
            return h.problem('%s of %s: %s %s' % (what, short(node), k, v))
        if set(map(id, rs[0].processes)) & set(map(id, rs[1].processes)):
            h.problem('%s of %s: two runs share members' % (what, short(node)))
        for i, (r, x) in enumerate(zip(rs, v)):
            c03.verify(h, node, r, 'failed' if isinstance(x, Exception) else 'ok', x, '%s (%d)' % (what, i))
            if not list(lists(node)):
                check_output(h, node, h.read_file('cap%d' % (h.nrun - 1 + i)), m, want, '%s (%d)' % (what, i))
    elif how in ('list', 'bytes'):
        got, k, v = lib.consume(h, p, how)
        if k != ('failed' if fails(node) else 'ok'):
            h.problem('%s of %s ended with %s %s' % (what, short(node), k, v))
        if k == 'ok' or how != 'bytes':
            check_output(h, node, got, m, want, what)
    elif how == 'change':               # what it reads changes, the next runs give the new content
        h.files['in1'] = b'new %d\n' % h.nrun
        h.write_file('in1', h.files['in1'])
    elif how == 'show':
        repr(p), repr([p]), p.__name__ if hasattr(type(p), '__name__') else None
    else:
        raise ValueError(how)


def shared(h, item):
    """Compose objects that share parts, run them in some order, then everything again."""
    base, seq, history = item
    from pieshell import redir
    setup(h)
    e = h.env()
    given = {'stderr': redir.Redirect(2, redir.STRING)}
    nodes = [BASE[i] for i in base]
    objs = [make(e, n) for n in nodes]
    before = texts(objs)
    for st in seq:
        nodes.append(node_of(nodes, st))
        objs.append(object_of(e, objs, st, given))
        now = texts(objs[:-1])
        if now != before:
            h.problem('composing %s changed %s into %s' % (short(nodes[-1]), before, now))
        before = now + [repr(objs[-1])]
    g = repr(given['stderr'])
    for how in history:
        one(h, objs[-1], nodes[-1], how, 'running')
    now = texts(objs)
    if now != before:
        h.problem('running %s changed\n%s into\n%s' % (short(nodes[-1]), before, now))
    if repr(given['stderr']) != g:
        h.problem('running %s changed the redirect %s into %s' % (short(nodes[-1]), g, given['stderr']))
    used = {i for st in seq for i in st[1:3] if st[0] in ('|', '+', 'arg2')} | {st[1] for st in seq}
    for i in sorted(used):
        if valid(nodes[i]) and i != len(objs) - 1:
            one(h, objs[i], nodes[i], 'file', 'running the part %d of %s after it' % (i, short(nodes[-1])))
    one(h, objs[-1], nodes[-1], 'file', 'running again')
    h.count((base, seq))
    for f in os.listdir(h.dir):
        os.unlink(h.dir + '/' + f)


def arguments(h, item):
    """Objects given as arguments and redirects are not changed, and changing them later is no concern of the pipeline."""
    kind, how = item
    from pieshell import redir
    from pieshell.pipeline import function as pf
    setup(h)
    e = h.env()
    data = ['a', 'b']
    args = ['o:x/', 'o:y/']
    want = {'list': b'a\nb\n', 'argpipe': b'a\nb\n', 'args': b'x\ny\n', 'fargs': b'<x>\n', 'redirects': b'x\ny\n'}[kind]
    if kind == 'list':
        p, obj = (data | e.vp('c')), data
    elif kind == 'argpipe':
        p, obj = e.vp(data), data
    elif kind == 'args':
        p, obj = e.vp(*args), args
    elif kind == 'fargs':
        obj = {'l': ['<'], 'k': ['>']}

        async def f(stdin, par, end=None):
            async for l in stdin:
                yield par['l'][-1] + l + end[-1]
            # the function may change what it was given in this run only
            par['l'].append('changed')
            end.append('changed')
        p = e.vp('o:x/') | pf.Function(e, f, obj, end=obj['k'])
    elif kind == 'redirects':
        p, obj = e.vp(*args), [redir.Redirect(2, redir.STRING)]
    before = repr(obj)
    for i in range(3):
        if kind == 'redirects':
            if how == 'same':
                lst = obj + [redir.Redirect(1, redir.PIPE)]
            got = []

            async def go():
                async for l in p.run(obj + [redir.Redirect('stdout', redir.PIPE)]):
                    got.append(l.encode() + b'\n')
            k, v = h.attempt(lambda: h.run(go()))
            got = b''.join(got)
        else:
            got, k, v = lib.consume(h, p, how if how != 'same' else 'list')
        if (k, got) != ('ok', want):
            h.problem('run %d of %s: %s %s %r, should be %r' % (i, kind, k, v, got, want))
        if repr(obj) != before:
            h.problem('running %s changed what it was given, %s, into %s' % (kind, before, obj))
    h.count(item)


def rows(h):
    """The same object run twice at the same time, interleaved in all ways; one of the runs is killed by somebody."""
    from pieshell import redir
    setup(h)
    e = h.env()
    node = h.p['node']
    p = lib.build(e, node)
    text = repr(p)
    rs = [p.run([redir.Redirect(1, 'cap%d' % i)]) for i in (0, 1)]
    n = len(h.ctl.procs) // 2
    mine = [[q for q in h.ctl.procs[:n]], [q for q in h.ctl.procs[n:]]]
    kill = h.p.get('kill')
    if kill is not None:
        h.ctl.events = [('sig:%d:9' % kill, lambda: h.ctl.procs[kill].state == 'live')]
    res = {}

    async def w(i):
        try:
            await rs[i].wait()
            res[i] = 'ok', None
        except Exception as x:
            res[i] = 'failed', x

    async def both():
        await asyncio.gather(w(1), w(0))
    k, v = h.attempt(lambda: h.run(both()))
    killed = kill is not None and not h.ctl.events
    h.ctl.events = []
    if k != 'ok':
        return h.problem('two runs of %r: %s %s' % (node, k, v))
    want = lib.Meaning(h.files).of(node)
    for i in (0, 1):
        if i == 1 or not killed:
            c03.verify(h, node, rs[i], res[i][0], res[i][1], 'run %d of two' % i)
            got = h.read_file('cap%d' % i)
            if not lib.matches(got, want):
                h.problem('run %d of two of %r wrote %r' % (i, node, got))
        elif res[i][0] != 'failed' or not rs[0].failed_processes:
            h.problem('the run with the killed command did not fail: %s' % (res[i],))
    h.obs['killed'] = killed
    if repr(p) != text:
        h.problem('running changed %s into %s' % (text, p))


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    hist = [('file', 'list', 'two'), ('show', 'two', 'change', 'bytes')]
    two = compositions(2, (0, 1, 2, 3))
    two = two if t else [x for i, x in enumerate(two) if i % 4 == 0 or len(x[1]) == 1]
    items = [(b, s, hist[i % 2]) for i, (b, s) in enumerate(two)]
    fail = compositions(2, (0, 1, 4, 5, 7)) + compositions(2, (0, 1, 3, 6))
    fail = fail if t else [x for i, x in enumerate(fail) if i % 9 == 0 or len(x[1]) == 1]
    items += [(b, s, hist[i % 2]) for i, (b, s) in enumerate(fail)]
    if t:
        items += [(b, s, hist[i % 2]) for i, (b, s) in enumerate(compositions(3, (0, 1, 2), 1)[::29])]
    # all short histories of the operations on a few pipelines
    ops = ('file', 'list', 'two', 'show', 'change')
    some = [((0, 1, 2, 3), ((('|', 0, 1)), ('|', 4, 4))), ((0, 1, 2, 3), (('+', 0, 3), ('|', 4, 2))), ((0, 1, 2, 3), (('arg', 3), ('arg2', 4, 4))),
            ((7, 1, 2, 4), (('|', 0, 1), ('+', 4, 4))), ((7, 4, 2, 1), (('|', 0, 1), ('2>', 4))), ((7, 1, 2, 3), (('<', 1), ('>', 4, 1)))]
    some = [x for x in some if valid_seq(x)]
    for n in (1, 2, 3) if not t else (1, 2, 3, 4):
        for b, s in some:
            items += [(b, s, x) for x in itertools.product(ops, repeat=n)][::1 if t or n < 3 else 3]
    out.append(Scen('shared', shared, sched=False, items=items, chunk=8, timeout=90))
    out.append(Scen('arguments', arguments, sched=False, items=[(k, m) for k in ('list', 'argpipe', 'args', 'fargs', 'redirects') for m in ('list', 'bytes', 'aiter', 'same')], chunk=4))
    nodes = [P(C('o:a/', 'n'), C('u')), P(C('o:a/'), F('ex')), C(I('list', ['a', 'b'])), G(C('o:a/'), C('o:b/')), P(C('o:a/', 'x:1'), C('c', 'n')), P(I('slow', ['a', 'b']) if False else C('o:a/', 'o:b/'), F('up'), C('c'))]
    for i, n in enumerate(nodes):
        out.append(Scen('two runs %d' % i, rows, node=n, bound=2 if t else 1, cap=1200 if t else 60, policies=('loop', 'procs', 'fine', 'last', 'procslast')))
        if n[0] != 'C':
            out.append(Scen('two runs, one killed %d' % i, rows, node=n, kill=0, bound=2, cap=1200 if t else 60, policies=('loop', 'procs', 'fine', 'last')))
    return out


def valid_seq(x):
    base, seq = x
    nodes = [BASE[i] for i in base]
    for st in seq:
        n = node_of(nodes, st)
        if n is None or not valid(n):
            return False
        nodes.append(n)
    return True
