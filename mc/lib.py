"""Pipelines as plain data: building them with pieshell and saying what they mean.

A node is one of
  ('C', arg...)          the puppet command; arg is a string, or a node (argument pipe), or ('kw', name, node)
  ('X', name, arg...)    some other command, for instance one that does not exist
  ('Y', function)        a function or iterator as it is; means nothing here
  ('I', kind, items)     an iterator: list, tuple, iter, gen, agen, aiter, coros
  ('F', kind, parameter) a function
  ('P', a, b, ...)       a | b | ...
  ('G', a, b, ...)       a + b + ...
  ('R', node, (fd, source[, flags])...)   redirects; source: file name, None, 'STRING', 'TMP'
Data is bytes; the meaning of a node is the list of streams it writes, each in order and
interleaved with the others in any way.
"""
import builtins
import os, asyncio, itertools

PIPE_BUF = 4096


def pattern(n, l):
    line = {}
    out = bytearray()
    k = 0
    while len(out) < n:
        out += bytes([97 + (k * 7 + i) % 26 for i in range(l - 1)]) + b'\n'
        k += 1
    return bytes(out[:n])


def text(t):
    return t.replace('/', '\n').replace('_', ' ').encode()


def lines(b):
    r = b.split(b'\n')
    if r and r[-1] == b'':
        r.pop()
    return r


def unlines(ls):
    return b''.join(l + b'\n' for l in ls)


# ---------------------------------------------------------------- building

class Boom(Exception):
    pass


def conv(x):
    return x.encode() if isinstance(x, str) else x


def iterator(kind, items):
    items = list(items)
    if kind == 'list':
        return items
    if kind == 'tuple':
        return tuple(items)
    if kind == 'iter':
        return iter(items)
    if kind == 'gen':
        return (x for x in items)
    if kind == 'coros':
        async def value(x):
            return x

        class It:
            def __iter__(self):
                return (value(x) for x in items)
        return It()
    if kind == 'agen':
        async def agen():
            for x in items:
                yield x
        return agen()
    if kind == 'slow':                # gives the others a turn before every item
        async def agen():
            for x in items:
                await asyncio.sleep(0)
                yield x
        return agen()
    if kind == 'aiter':
        class A:
            def __init__(self):
                self.it = iter(items)

            def __aiter__(self):
                return self

            async def __anext__(self):
                try:
                    return next(self.it)
                except StopIteration:
                    raise StopAsyncIteration
        return A()
    if kind == 'raise':               # fails after its items
        def gen():
            yield from items
            raise Boom('iterator')
        return gen()
    if kind == 'araise':
        async def gen():
            for x in items:
                yield x
            raise Boom('iterator')
        return gen()
    raise ValueError(kind)


class BoomUnprintable(Boom):
    def __str__(self):
        raise ValueError('no text')


EXCS = ('KeyError', 'OSError', 'BrokenPipeError', 'BlockingIOError', 'TimeoutError', 'RecursionError', 'AssertionError', 'MemoryError', 'EOFError', 'AttributeError', 'PermissionError', 'Unprintable')


def exception(name):
    return BoomUnprintable if name == 'Unprintable' else type('Boom' + name, (Boom, getattr(builtins, name)), {})


def function(kind, par=None, sink=None):
    if kind in ('raisex0', 'raisexcoro', 'raisex', 'raisexread'):
        exc = exception(par)
        if kind == 'raisex0':
            def f(stdin):
                raise exc('\xe9%s')
        elif kind == 'raisexcoro':
            async def f(stdin):
                raise exc('\xe9%s')
        elif kind == 'raisexread':
            async def f(stdin):
                async for line in stdin:
                    raise exc('\xe9%s')
                raise exc('\xe9%s')
                yield
        else:
            async def f(stdin):
                yield 'r0'
                raise exc('\xe9%s')
        return f
    if kind == 'id':
        async def f(stdin):
            async for line in stdin:
                yield line
    elif kind == 'up':
        async def f(stdin):
            async for line in stdin:
                yield line.upper()
    elif kind == 'ex':
        async def f(stdin):
            async for line in stdin:
                yield line + '!'
    elif kind == 'bytes':
        async def f(stdin):
            async for line in stdin:
                yield line.encode()
    elif kind == 'dup':
        async def f(stdin):
            async for line in stdin:
                yield line
                yield None
                yield line
    elif kind == 'take':
        async def f(stdin):
            n = par
            if n:
                async for line in stdin:
                    yield line
                    n -= 1
                    if not n:
                        break
    elif kind == 'cnt':
        async def f(stdin):
            n = 0
            async for line in stdin:
                n += 1
            yield n
    elif kind == 'coro':
        async def f(stdin):
            r = []
            async for line in stdin:
                r.append(line)
            return ','.join(r)
    elif kind == 'list':
        def f(stdin):
            return list(par)
    elif kind == 'gen':
        def f(stdin):
            for x in par:
                yield x
    elif kind == 'int':
        def f(stdin):
            return 42
    elif kind == 'sink':
        async def f(stdin):
            async for line in stdin:
                sink.append(line)
            if False:
                yield
    elif kind == 'sinkcoro':
        async def f(stdin):
            async for line in stdin:
                sink.append(line)
    elif kind == 'raise0':
        def f(stdin):
            raise Boom('at once')
    elif kind == 'raise':
        async def f(stdin):
            for i in range(par):
                yield 'r%d' % i
            raise Boom('later')
    elif kind == 'raiseread':          # reads par lines, then fails
        async def f(stdin):
            n = 0
            async for line in stdin:
                n += 1
                if n >= par:
                    break
            raise Boom('read')
            yield
    elif kind == 'raisecoro':
        async def f(stdin):
            raise Boom('coroutine')
    elif kind == 'method':
        class M:
            async def f(self, stdin):
                async for line in stdin:
                    yield '<' + line
        return M().f
    elif kind == 'args':               # with extra arguments, see build
        async def f(stdin, a, b=None):
            async for line in stdin:
                yield '%s%s%s' % (a, line, b)
    else:
        raise ValueError(kind)
    return f


def flat(node):
    """Leaves in the order pieshell starts them."""
    k = node[0]
    if k == 'C':
        for a in node[1:]:
            if isinstance(a, tuple):
                yield from flat(a[2] if a[0] == 'kw' else a)
        yield node
    elif k in 'IFXY':
        yield node
    elif k == 'R':
        yield from flat(node[1])
    else:
        for a in node[1:]:
            yield from flat(a)


def build(e, node, sink=None, top=True):
    from pieshell import redir
    from pieshell.pipeline import function as pf
    k = node[0]
    if k == 'C':
        args, kw = [], {}
        for a in node[1:]:
            if isinstance(a, tuple) and a[0] == 'kw':
                kw[a[1]] = build(e, a[2], sink, False)
            elif isinstance(a, tuple):
                args.append(build(e, a, sink, False))
            else:
                args.append(a)
        return e.vp(*args, **kw)
    if k == 'X':
        return getattr(e, node[1])(*node[2:])
    if k == 'Y':
        return pf.Function(e, node[1]) if top else node[1]
    if k == 'I':
        it = iterator(node[1], node[2])
        return pf.Function(e, it) if top else it
    if k == 'F':
        f = function(node[1], node[2] if len(node) > 2 else None, sink)
        if node[1] == 'args':
            return pf.Function(e, f, node[2][0], b=node[2][1])
        return pf.Function(e, f) if top else f
    if k == 'P':
        r = build(e, node[1], sink, node[1][0] not in 'IFY' or node[2][0] in 'IFY')
        for n in node[2:]:
            r = r | build(e, n, sink, False)
        return r
    if k == 'G':
        r = build(e, node[1], sink, True)
        for n in node[2:]:
            r = r + build(e, n, sink, True)
        return r
    if k == 'R':
        r = build(e, node[1], sink, True)
        for fd, source, *flags in node[2:]:
            source = {'STRING': redir.STRING, 'TMP': redir.TMP}.get(source, source)
            if flags:
                r = r | redir.Redirect(fd, source, flags[0])
            elif fd == 0:
                r = source | r
            elif fd == 1 and not isinstance(source, type):
                r = r | source
            else:
                r = r | redir.Redirect(fd, source)
        return r
    raise ValueError(k)


# ---------------------------------------------------------------- meaning

class Meaning:
    def __init__(self, files=None):
        self.files = dict(files or {})
        self.sink = []

    def of(self, node, inp=None):
        """inp: list of streams, or None for an empty input.  Returns the list of streams written."""
        k = node[0]
        inp = [b''] if inp is None else inp
        if k == 'C':
            return self.command(node, inp)
        if k == 'X':
            return [b'']
        if k == 'I':
            return [unlines(tolines(node[2]))]
        if k == 'F':
            return self.function(node, inp)
        if k == 'P':
            for n in node[1:]:
                inp = self.of(n, inp)
            return inp
        if k == 'G':
            return [s for n in node[1:] for s in self.of(n, inp)]
        if k == 'R':
            out = None
            for r in node[2:]:
                fd, source = r[:2]
                if fd == 0:
                    inp = [self.files.get(source, b'') if source is not None else b'']
            res = self.of(node[1], inp)
            for r in node[2:]:
                if r[0] == 1:
                    if isinstance(r[1], str) and r[1] not in ('STRING', 'TMP'):
                        self.files[r[1]] = res
                    res = [b'']
            return res
        raise ValueError(k)

    def command(self, node, inp):
        """All ops but the copying ones ignore the input."""
        out = [b'']
        for a in node[1:]:
            if isinstance(a, tuple):
                n = a[2] if a[0] == 'kw' else a
                if n[0] == 'F':        # the command writes to it
                    self.of(n, inp)
                    inp = [b'']
                else:
                    out = self.append(out, self.of(n, None))
                continue
            op, *f = a.split(':')
            if op == 'o':
                out = self.append(out, [text(a[2:])])
            elif op == 'oh':
                out = self.append(out, [bytes.fromhex(f[0])])
            elif op == 'O':
                out = self.append(out, [pattern(int(f[0]), int(f[1]))])
            elif op == 'c':
                out, inp = self.append(out, inp), [b'']
            elif op == 'u':
                out, inp = self.append(out, [s.upper() for s in inp]), [b'']
            elif op == 's':
                inp = [b'']
            elif op == 't':
                out, inp = self.append(out, [s[:int(f[0])] for s in inp]), [b'']
            elif op == 'r':
                inp = [s[int(f[0]):] for s in inp]
            elif op == 'f':
                out = self.append(out, [self.files.get(f[0], b'')])
        return out

    @staticmethod
    def append(a, b):
        if len(a) == 1 and len(b) == 1:
            return [a[0] + b[0]]
        if a == [b'']:
            return b
        if b == [b'']:
            return a
        raise ValueError('order undefined')

    def function(self, node, inp):
        kind, par = node[1], node[2] if len(node) > 2 else None
        per = {'id': lambda l: [l], 'bytes': lambda l: [l], 'up': lambda l: [l.upper()], 'ex': lambda l: [l + b'!'], 'dup': lambda l: [l, l],
               'method': lambda l: [b'<' + l]}
        if kind == 'args':
            per['args'] = lambda l: [str(par[0]).encode() + l + str(par[1]).encode()]
        if kind in per:
            return [unlines([o for l in lines(s) for o in per[kind](l)]) for s in inp]
        if kind in ('list', 'gen'):
            return [unlines(tolines(par))]
        if kind == 'int':
            return [b'42\n']
        if kind == 'cnt':
            return [b'%d\n' % sum(len(lines(s)) for s in inp)]
        if kind in ('sink', 'sinkcoro'):
            self.sink += inp
            return [b'']
        if kind == 'raise':
            return [unlines([b'r%d' % i for i in range(par)])]
        if kind in ('raise0', 'raiseread', 'raisecoro', 'raisex0', 'raisexread', 'raisexcoro', 'raisex'):
            return [b'']
        if len(inp) != 1:
            raise ValueError('order undefined')
        if kind == 'take':
            return [unlines(lines(inp[0])[:par])]
        if kind == 'coro':
            return [b','.join(lines(inp[0])) + b'\n']
        raise ValueError(kind)


def tolines(items):
    return [conv(x) if isinstance(x, (str, bytes)) else str(x).encode() for x in items if x is not None]


def shuffle_of(got, streams):
    """Is the list got an interleaving of the lists in streams?"""
    streams = [s for s in streams if s]
    if len(got) != sum(map(len, streams)):
        return False
    if len(streams) == 1:
        return got == streams[0]
    seen, todo = set(), [tuple(0 for _ in streams)]
    while todo:
        pos = todo.pop()
        n = sum(pos)
        if n == len(got):
            return True
        for i, s in enumerate(streams):
            if pos[i] < len(s) and s[pos[i]] == got[n]:
                q = pos[:i] + (pos[i] + 1,) + pos[i + 1:]
                if q not in seen:
                    seen.add(q)
                    todo.append(q)
    return not got


def matches(got, streams):
    """Is got (bytes) the streams in some order of their lines?"""
    full = [s for s in streams if s]
    if len(full) <= 1:
        return got == (full[0] if full else b'')
    return shuffle_of(got.split(b'\n')[:-1], [s.split(b'\n')[:-1] for s in full]) and got.endswith(b'\n')


# ---------------------------------------------------------------- consuming

def consume(h, p, mode):
    """Run pipeline p and collect its output: (bytes, how it ended).  Line modes end every line with a newline."""
    got = []
    if mode == 'list':
        k, v = h.attempt(lambda: [got.append(l.encode() + b'\n') for l in p])
    elif mode == 'next':
        def go():
            it = iter(p)
            while True:
                try:
                    got.append(next(it).encode() + b'\n')
                except StopIteration:
                    return
        k, v = h.attempt(go)
    elif mode == 'str':
        k, v = h.attempt(lambda: got.append(str(p).encode()))
    elif mode == 'bytes':
        k, v = h.attempt(lambda: got.append(bytes(p)))
    elif mode == 'aiter':
        async def go():
            async for l in p:
                got.append(l.encode() + b'\n')
        k, v = h.attempt(lambda: h.run(go()))
    elif mode == 'aslow':
        async def go():
            async for l in p:
                await asyncio.sleep(0)
                got.append(l.encode() + b'\n')
        k, v = h.attempt(lambda: h.run(go()))
    elif mode == 'iterb':
        async def go():
            from pieshell import redir
            async for b in p.run([redir.Redirect('stdout', redir.PIPE)]).iterbytes():
                got.append(b)
        k, v = h.attempt(lambda: h.run(go()))
    elif mode == 'raiter':             # from a running pipeline
        async def go():
            from pieshell import redir
            r = p.run([redir.Redirect('stdout', redir.PIPE)])
            async for l in r:
                got.append(l.encode() + b'\n')
        k, v = h.attempt(lambda: h.run(go()))
    else:
        raise ValueError(mode)
    return b''.join(got), k, v


LINE_MODES = ('list', 'next', 'aiter', 'aslow', 'raiter')
