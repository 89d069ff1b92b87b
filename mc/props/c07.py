"""C07: captured output is exact and available when the pipeline ends."""
import asyncio, os, itertools
from ..explore import Scen
from .. import lib
from . import c03

ASSUMPTIONS = ['schedules: all with at most `deviation_bound` departures from each of the listed base policies',
               'captured text that is not valid UTF-8 may be represented with surrogates (surrogateescape) or backslashes (backslashreplace); nothing is demanded beyond that there is a one-to-one representation',
               'the members of a group that share a descriptor redirected to TMP or STRING have a file each']
C, I, F, P, G, R, X = [lambda *a, k=k: (k,) + a for k in 'CIFPGRX']


def content(node):
    """What a command writes to each descriptor: {fd: bytes}."""
    out = {}

    def add(fd, d):
        out[fd] = out.get(fd, b'') + d
    for a in node[1:]:
        if isinstance(a, tuple):
            continue
        op, *f = a.split(':')
        if op == 'o': add(1, lib.text(a[2:]))
        elif op == 'e': add(2, lib.text(a[2:]))
        elif op == 'oh': add(1, bytes.fromhex(f[0]))
        elif op == 'eh': add(2, bytes.fromhex(f[0]))
        elif op == 'w': add(int(f[0]), lib.text(':'.join(f[1:])))
        elif op == 'wh': add(int(f[0]), bytes.fromhex(f[1]))
        elif op == 'O': add(1, lib.pattern(int(f[0]), int(f[1])))
        elif op == 'W': add(int(f[0]), lib.pattern(int(f[1]), int(f[2])))
        elif op in 'xkK': break
    return out


def chunks(node, fd):
    """What a command writes to a descriptor, write by write."""
    out = []
    for a in node[1:]:
        if isinstance(a, str):
            d = content(('C', a)).get(fd)
            if d is not None:
                out.append(d)
            if a[0] in 'xkK':
                break
    return out


def merged(data, seqs):
    """Is data a merge of the sequences of writes?"""
    todo = {(0,) * len(seqs)}
    for _ in range(sum(len(s) for s in seqs)):
        now = set()
        for pos in todo:
            at = sum(len(b''.join(s[:i])) for s, i in zip(seqs, pos))
            for k, (s, i) in enumerate(zip(seqs, pos)):
                if i < len(s) and data.startswith(s[i], at):
                    now.add(pos[:k] + (i + 1,) + pos[k + 1:])
        todo = now
    return bool(todo) and len(data) == sum(len(b''.join(s)) for s in seqs)


def same(text, data):
    if not isinstance(text, str):
        return text == data
    try:
        return text == data.decode('utf-8')
    except UnicodeDecodeError:
        pass
    return text in (data.decode('utf-8', 'surrogateescape'), data.decode('utf-8', 'backslashreplace'))


def captured(node, inherited=()):
    """For every leaf, in order: (leaf, {fd: 'STRING'|'TMP'} in effect)."""
    k = node[0]
    if k in 'CX':
        for a in node[1:]:
            if isinstance(a, tuple):
                # (an argument pipe shares the files of the command it is given to)
                for l, c in captured(a[2] if a[0] == 'kw' else a):
                    yield l, ('own', c)
        yield node, dict(inherited)
    elif k in 'IFY':
        yield node, {}
    elif k == 'R':
        yield from captured(node[1], tuple(inherited) + tuple((r[0], r[1]) for r in reversed(node[2:])))
    elif k == 'P':
        n = len(node) - 1
        for i, a in enumerate(node[1:]):
            yield from captured(a, [x for x in inherited if not (x[0] == 1 and i < n - 1)])
    else:
        for a in node[1:]:
            yield from captured(a, inherited)


def verify(h, e, r, node, before, what):
    keep = []
    exp = list(captured(node))
    if len(exp) != len(r.processes):
        return h.problem('%d members in %r' % (len(r.processes), node))
    args = []           # commands in arguments of the next one share its files
    shared = {}
    for (leaf, red), proc in zip(exp, r.processes):
        if type(red) is tuple:
            args.append((leaf, proc, red[1]))
            continue
        mine, args = args, []
        if not mine:
            continue
        for fd in [fd for fd, s in red.items() if s == 'TMP' and fd != 1]:
            shared[id(proc), fd] = [chunks(l, fd) for l, q, own in mine if l[0] == 'C' and fd not in own] + [chunks(leaf, fd)]
        for fd in [fd for fd, s in {2: 'STRING', **red}.items() if s == 'STRING' and fd != 1]:
            # (but for those that are redirected to something of their own)
            cmds = [(l, q) for l, q, own in mine if l[0] == 'C' and fd not in own] + [(leaf, proc)]
            got = [q.output_content.get(fd) for l, q in cmds]
            if None in got or len(set(got)) != 1 or not merged(got[0].encode('utf-8', 'surrogateescape'), [chunks(l, fd) for l, q in cmds]):
                h.problem('%s: captured %s for descriptor %d of %s, should be a merge of %s' % (what, got, fd, [l for l, q in cmds], [chunks(l, fd) for l, q in cmds]))
    for (leaf, red), proc in zip(exp, r.processes):
        if leaf[0] not in 'CX':
            continue
        want = content(leaf)
        oc = proc.output_content
        if type(red) is tuple:
            for fd, s in red[1].items():
                if s == 'STRING' and not same(oc.get(fd), want.get(fd, b'')):
                    h.problem('%s: captured %s for descriptor %d of the argument %r, should be %s' % (what, ascii(oc.get(fd)), fd, leaf, want.get(fd, b'')[:200]))
            continue
        red.setdefault(2, 'STRING')
        names = {fd for fd, s in red.items() if s == 'STRING'}
        if set(oc) != names:
            h.problem('%s: captured descriptors of %r are %s, should be %s' % (what, leaf, sorted(oc), sorted(names)))
            continue
        for fd in names:
            if leaf[0] == 'X':
                if fd == 2 and not oc[fd]:
                    h.problem('%s: no message captured for %r' % (what, leaf))
            elif not any(isinstance(a, tuple) for a in leaf) and not same(oc[fd], want.get(fd, b'')):
                h.problem('%s: captured %s for descriptor %d of %r, should be %s' % (what, ascii(oc[fd][:200]), fd, leaf, want.get(fd, b'')[:200]))
        tmps = {fd for fd, s in red.items() if s == 'TMP'}
        of = proc.output_files
        if set(of) != tmps:
            h.problem('%s: output files of %r are %s, should be %s' % (what, leaf, sorted(of), sorted(tmps)))
            continue
        for fd in tmps:
            path = getattr(of[fd], 'path', of[fd])
            keep.append(os.path.basename(path))
            try:
                with open(path, 'rb') as f:
                    got = f.read()
            except OSError as e2:
                h.problem('%s: output file of descriptor %d of %r: %s' % (what, fd, leaf, e2))
                continue
            if not merged(got, shared[id(proc), fd]) if (id(proc), fd) in shared else got != want.get(fd, b''):
                h.problem('%s: the file of descriptor %d of %r contains %s, should be %s' % (what, fd, leaf, got[:200], want.get(fd, b'')[:200]))
    if len(set(keep)) != len(keep):
        h.problem('%s: members share output files in %r' % (what, node))
    now = sorted(os.listdir(h.tmp))
    if now != sorted(before + keep):
        h.problem('%s: temporary files %s, should be the %d asked for' % (what, [x for x in now if x not in before + keep], len(keep)))
    try:
        text = [proc.__repr__(display_output=True) for (leaf, red), proc in zip(exp, r.processes)]
        [t.encode('utf-8') for t in text]
    except Exception as e2:
        h.problem('%s: the captured output of %r cannot be displayed: %r' % (what, node, e2))
    r.remove_output_files()
    left = sorted(os.listdir(h.tmp))
    if left != before:
        h.problem('%s: %d temporary files remain after removing the output files' % (what, len(left) - len(before)))


def run(h):
    h.write_file('in', b'one\ntwo\n')
    e = h.env()
    node = h.p['node']
    mode = h.p['mode']
    for i in range(h.p.get('times', 1)):
        before = sorted(os.listdir(h.tmp))
        p = lib.build(e, node, [])
        if mode == 'wait':
            r = p.run()
            k, v = h.attempt(lambda: h.run(r.wait()))
        else:
            r, k, v = c03.finish(h, e, p, mode)
            if r is None:
                r = v.pipeline if k == 'failed' else e.last_pipeline
        h.obs['k'] = k
        if k not in ('ok', 'failed'):
            return h.problem('%s of %r: %s %s' % (mode, node, k, v))
        verify(h, e, r, node, before, mode)


def free(h, item):
    node, mode = item
    if not hasattr(h, 'e'):
        h.e = h.env()
    h.p = dict(node=node, mode=mode)
    before = sorted(os.listdir(h.tmp))
    p = lib.build(h.e, node, [])
    if mode == 'wait':
        r = p.run()
        k, v = h.attempt(lambda: h.run(r.wait()))
    else:
        r, k, v = c03.finish(h, h.e, p, mode)
        if r is None:
            r = v.pipeline if k == 'failed' else h.e.last_pipeline
    if k not in ('ok', 'failed'):
        return h.problem('%s of %r: %s %s' % (mode, node, k, v))
    verify(h, h.e, r, node, before, mode)
    h.count(item)


def two(h):
    """Two pipelines at the same time, each with its own."""
    e = h.env()
    before = sorted(os.listdir(h.tmp))
    nodes = h.p['nodes']
    rs = [lib.build(e, n, []).run() for n in nodes]
    for r in rs if not h.p.get('reverse') else rs[::-1]:
        k, v = h.attempt(lambda: h.run(r.wait()))
        if k not in ('ok', 'failed'):
            h.problem('%s %s' % (k, v))
    for r, n in zip(rs, nodes):
        exp = list(captured(n))
        for (leaf, red), proc in zip(exp, r.processes):
            if leaf[0] != 'C':
                continue
            red.setdefault(2, 'STRING')
            want = content(leaf)
            for fd in [f for f, s in red.items() if s == 'STRING']:
                if not same(proc.output_content.get(fd), want.get(fd, b'')):
                    h.problem('captured %r for descriptor %d of %r, should be %r' % (proc.output_content.get(fd), fd, leaf, want.get(fd, b'')))
    if sorted(os.listdir(h.tmp)) != before:
        h.problem('temporary files remain')


def byte_strings(tier):
    alpha = [b'a', b'\n', b'\r', b'\xc3\xa9', b'\xff', b'\x00', b'\\']
    out = []
    for n in range(0, 4 if tier == 'thorough' else 3):
        for s in itertools.product(alpha, repeat=n):
            out.append(b''.join(s))
    out += [b'\xe2\x82', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'\xed\xb2\x80', b'\xef\xbb\xbfa', b'a\r\nb\r\n', b'a\rb', b'a\x0bb\x0cc\x85d', b'\xc2\x85', b'\xe2\x80\xa8', b'%s', b'%(a)s', b'{}', b'$x ~ *', b'x' * 10000]
    out += [bytes([b]) for b in range(256)] if tier == 'thorough' else []
    return out


def scenarios(tier):
    t = tier == 'thorough'
    S, T = 'STRING', 'TMP'
    W = os.O_WRONLY
    both = lambda *a, **k: R(C(*a), (1, S), (2, S))
    nodes = [
        C('e:a/', 'o:x/', 'e:b/'), C('e:a/', 'x:3'), C('e:a/', 'k:9'), C('o:x/'), both('o:a/', 'e:b/', 'o:c/', 'x:2'), R(C('o:a/', 'e:b/'), (1, T), (2, T)),
        R(C('w:3:a/', 'w:4:b/', 'e:c/'), (3, S, W), (4, T, W)), P(C('e:1/', 'o:x/'), C('c', 'e:2/')), P(C('e:1/', 'x:1'), C('e:2/', 'x:2'), C('e:3/')),
        P(C('e:1/', 'o:a/'), F('up'), C('c', 'e:2/')), R(P(C('e:1/', 'o:a/'), C('s', 'o:r/', 'e:2/')), (1, S)), R(P(C('o:a/'), C('s', 'o:r/', 'e:2/', 'o:t')), (1, T)),
        G(C('e:1/'), C('e:2/', 'x:1')), R(G(C('o:1/', 'e:a/'), C('o:2/')), (1, S)), R(G(C('o:1/'), C('o:2/'), C('o:3/', 'x:9')), (1, T), (2, T)),
        P(G(C('e:1/', 'o:a/'), C('e:2/', 'o:b/')), C('s', 'e:3/')), P(I('slow', ['a', 'b']), C('c', 'e:1/')), P(C('e:1/'), F('raise', 1), C('c', 'e:2/')), P(I('raise', ['a']), C('c', 'e:2/')),
        G(C('e:1/'), X('nonexistent_command')), X('vp', 'nul\0byte'), P(C('o:a/'), X('vp', 'nul\0byte')), R(X('vp', '\0'), (1, S)), P(C('e:1/'), X('nonexistent_command'), C('s', 'e:3/')), C('e:1/', I('list', ['a'])), C('e:1/', C('e:2/', 'o:a/'), 'e:3/'), C(C('e:1/', 'o:a/', 'e:2/'), 'c', 'e:3/', C('n', 'o:b/', 'e:4/', 'x:1')),
        C('e:1/', P(C('e:2/', 'o:a/'), C('c', 'e:3/')), 'e:4/', 'x:2'), R(C(C('e:1/', 'w:3:p/'), 'w:3:q/', 'n', 'e:2/'), (3, S, W)), P(C('e:0/', 'o:a/'), C('c', C('e:1/'), 'e:2/')),
        R(C('o:w/', 'e:1/', 'x:0', C('o:a/')), (1, S)),
        R(C(R(C('e:1/', 'w:3:p/', 'o:a/'), (3, S, W)), 'e:2/', 'w:3:q/'), (3, S, W)), R(C(C('e:1/', 'o:a/'), 'e:2/', 'w:3:q/'), (3, T, W)), R(C(C('w:3:p/', 'o:a/'), 'e:2/', C('w:3:s/', 'x:1')), (3, T, W)), R(C('n', R(C('e:1/', 'w:4:p/', 'o:a/'), (2, S), (4, S, W)), 'e:2/', 'w:5:r/'), (5, S, W)),
        P(C('o:a/', 'e:0/'), R(C(R(P(C('e:1/', 'w:3:p/'), C('c', 'e:2/')), (3, S, W)), 'c', 'w:3:q/', 'x:1'), (3, S, W))),
        R(C('W:3:9000:100', 'e:end/'), (3, S, W)), R(C('O:70000:50', 'e:end/'), (1, S)), C('W:2:70000:64', 'x:1'), R(C('c', 'o:q/'), (0, None), (1, S)),
        P(R(C('o:a/', 'e:b/'), (2, T)), R(C('c', 'w:3:x/', 'e:d/'), (3, S, W))), R(P(R(C('o:a/', 'e:b/'), (2, T)), C('s', 'e:d/')), (2, S)),
        R(R(C('o:a/', 'e:b/'), (1, S)), (1, T)), P(R(C('o:a/', 'e:b/'), (1, S)), C('s', 'e:d/')), P(R(C('o:a/', 'e:b/'), (1, T)), C('s', 'e:d/'), F('up')),
    ]
    out = []
    pol = ('loop', 'procs', 'fine', 'finep', 'last', 'procslast')
    for i, n in enumerate(nodes):
        for j, m in enumerate(['wait', 'foreground', 'await', 'list']):
            if m == 'list' and n[0] == 'R' and any(x[0] == 1 for x in n[2:]) or not t and (i + j) % 2:
                continue
            out.append(Scen('run %d %s' % (i, m), run, node=n, mode=m, times=1 + (i + j) % 2, bound=1, cap=400 if t else 30, policies=pol if t else pol[::2], backend='asyncio' if (i + j) % 9 == 8 else 'signalfd'))
    for i, ns in enumerate([(both('o:a/', 'e:b/'), both('o:c/', 'e:d/', 'x:1')), (P(C('e:1/', 'o:x/'), C('c', 'e:2/')), C('e:3/', 'x:1')), (both('o:a/', 'n'), both('n', 'o:b/'), both('o:c/'))]):
        for rev in (0, 1):
            out.append(Scen('two %d %d' % (i, rev), two, nodes=ns, reverse=rev, bound=1, cap=600 if t else 40))
    items = []
    for s in byte_strings(tier):
        hx = s.hex()
        items += [(C('eh:' + hx, 'x:1') if hx else C('x:1'), 'wait'), (R(C('oh:' + hx, 'eh:' + hx) if hx else C('n'), (1, S)), 'wait'),
                  (R(C('wh:3:' + hx, 'oh:' + hx) if hx else C('n'), (3, T, W), (1, T)), 'foreground')]
    for n in [0, 1, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 200001]:
        for l in (1000, 7, 100000):
            items += [(R(C('O:%d:%d' % (n, l), 'W:2:%d:%d' % (n // 2, l)), (1, S)), 'foreground'), (R(P(C('W:2:%d:%d' % (n, l)), C('O:%d:%d' % (n, l))), (1, T)), 'wait')]
    out.append(Scen('contents', free, sched=False, items=items, chunk=25, timeout=60))
    items = [(n, m) for n, m in c03.statuses(tier)[::1 if t else 3] if "'R'" not in repr(n) and m not in ('list', 'next', 'iter') and "('C', ('" not in repr(n)]
    out.append(Scen('outcomes', free, sched=False, items=items, chunk=25, timeout=60))
    return out
