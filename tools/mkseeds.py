"""Writes /verif/seeded/<id>/ from tools/seeds.py, confirming each planted bug in a scratch copy of /repo:
mkseeds.py [ID...]   (ids that exist already are skipped unless named)"""
import json, os, shutil, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(__file__))
import seeds
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = ROOT + '/seeded'
WORK = '/tmp/seedwork.%d' % os.getpid()

DEMO_SH = '''#!/bin/bash
# Run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/home" "$T/work"
export HOME=$T/home TMPDIR=$T PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 LC_ALL=C.UTF-8 TERM=dumb
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset PYTHONHOME
cd "$T/work" && timeout -k 5 %(timeout)d /opt/venv/bin/python "$D/demo.py" </dev/null
'''

PRE = '''import os, sys, asyncio, signal, subprocess, time
T = os.getcwd()
import pieshell
from pieshell import *
from pieshell import redir, environ, pipeline, signalio
loop = asyncio.get_event_loop()
e = environ.Environment(cwd=T, exports=dict(os.environ))


def check(ok, what):
    if not ok:
        print('FAILED:', what)
        sys.stdout.flush()
        os._exit(1)


'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def demo(folder, copy):
    try:
        r = run(['bash', folder + '/demo.sh'], cwd=copy, timeout=300)
    except subprocess.TimeoutExpired:
        return 99, b'timeout'
    return r.returncode, r.stdout[-600:]


def tests(copy):
    d = WORK + '/vp'
    os.makedirs(d, exist_ok=True)
    for n in ('test.sh', 'env.sh', 'results.py', 'build.sh', 'parsecheck.py'):
        s = open('/opt/vp/' + n).read().replace('/opt/vp/', d + '/').replace('/repo', copy).replace('unset PYTHONPATH', 'export PYTHONPATH=' + copy + '; unset')
        open(d + '/' + n, 'w').write(s)
    b = run(['bash', d + '/build.sh'])
    if b.returncode:
        return ['build: %s' % b.stdout[-500:]]
    r = run(['bash', '-x', d + '/test.sh', d + '/out.json'])
    if not os.path.exists(d + '/out.json'):
        return ['no result: %s %s' % (r.returncode, r.stdout.decode()[-1500:])]
    out = json.load(open(d + '/out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = base.get('stable') or base.get('passed')
    base = [x if isinstance(x, str) else x['id'] for x in base]
    return [x for x in base if x not in out['passed']]


def main():
    names = sys.argv[1:] or [n for n in seeds.SEEDS if not os.path.exists(OUT + '/' + n + '/ok')]
    os.makedirs(WORK)
    try:
        for n in names:
            if not sys.argv[1:] and os.path.exists(OUT + '/' + n):
                continue
            one(n)
    finally:
        shutil.rmtree(WORK)


def one(n):
    s = seeds.SEEDS[n]
    copy = WORK + '/copy'
    if os.path.exists(copy):
        shutil.rmtree(copy)
    run(['cp', '-a', '/repo', copy], check=True)
    run(['git', 'checkout', '-q', '--', '.'], cwd=copy, check=True)
    folder = WORK + '/folder'
    if os.path.exists(folder):
        shutil.rmtree(folder)
    os.makedirs(folder)
    open(folder + '/demo.sh', 'w').write(DEMO_SH % dict(timeout=s.get('timeout', 60)))
    os.chmod(folder + '/demo.sh', 0o755)
    open(folder + '/demo.py', 'w').write(PRE + s['demo'].strip('\n') + '\nos._exit(0)\n')
    for _ in range(2):
        code, out = demo(folder, copy)
        if code:
            print(n, 'BAD: demo fails on the unchanged tree:', code, out.decode())
            return
    for path, old, new in s['edits']:
        p = copy + '/pieshell/' + path
        t = open(p).read()
        if t.count(old) != 1:
            print(n, 'BAD: %d times in %s: %s' % (t.count(old), path, old))
            return
        open(p, 'w').write(t.replace(old, new))
    diff = run(['git', 'diff'], cwd=copy).stdout
    open(folder + '/patch.diff', 'wb').write(diff)
    missing = tests(copy)
    if missing:
        print(n, 'BAD: tests', missing)
        return
    # which lines of the original repository are changed
    orig = 0
    for path in sorted(set(x[0] for x in s['edits'])):
        gone = [l[1:] for l in run(['git', 'diff', '-U0', '--', 'pieshell/' + path], cwd=copy).stdout.decode().split('\n') if l.startswith('-') and not l.startswith('---')]
        base = run(['git', 'show', '1aeb740:pieshell/' + path], cwd=copy).stdout.decode().split('\n')
        orig += sum(1 for l in gone if l in base and l.strip())
        if not gone:
            orig += 1
    for _ in range(2):
        code, out = demo(folder, copy)
        if not code:
            print(n, 'BAD: demo passes with the change')
            return
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(folder + '/meta.json', 'w'), indent=1)
    os.makedirs(OUT, exist_ok=True)
    if os.path.exists(OUT + '/' + n):
        shutil.rmtree(OUT + '/' + n)
    shutil.copytree(folder, OUT + '/' + n)
    print(n, 'ok, %d original lines; with the change: %d %s' % (orig, code, out.decode().strip().split('\n')[-1][:150]))


main()
