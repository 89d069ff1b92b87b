"""python -m mc.main PROPERTY [--replay FILE] [--only NAME] [--verbose]: run a check."""
import os, sys, json, time, re, importlib, hashlib, argparse

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    pats = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            text = f.read()
        for line in text.splitlines():
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)', line.strip())
            if m and m.group(1) == prop:
                pats.append((re.compile(m.group(2)), m.group(3)))
    return pats


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation')
    ap.add_argument('--stats', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import explore
    modname = 'mc.props.' + prop.lower()
    mod = importlib.import_module(modname)
    scens = mod.scenarios(tier)
    known = known_findings(prop)
    seen_known = {}

    def is_known(text):
        for pat, desc in known:
            if pat.search(text):
                seen_known[desc] = seen_known.get(desc, 0) + 1
                return True
        return False

    if a.replay:
        return replay(explore, modname, scens, a.replay)
    if a.only:
        for i, s in enumerate(scens):
            if not re.search(a.only, s.name):
                s.policies, s.items = (), (() if s.items is not None or not s.sched else None)
        if True:
            for s in scens:
                if s.items == ():
                    s.sched = True
    t0 = time.time()
    budget = getattr(mod, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 780)
    ex = explore.Explorer(modname, scens, budget=budget, is_known=is_known, stop_on_violation=not a.all, verbose=a.verbose)
    ex.run()
    wall = time.time() - t0
    level = getattr(mod, 'LEVEL', 'model_checking')
    capped = [n for n, st in ex.stats.items() if st['capped']]
    if level == 'model_checking':
        cov = dict(states=len(ex.states) + len(ex.distinct), transitions=ex.transitions,
                   traces_validated_against_impl=ex.execs if not ex.items_done else ex.items_done + sum(1 for _ in ()) + ex.execs - sum(
                       st['executions'] for s in scens if s.items is not None and s.name in ex.stats for st in [ex.stats[s.name]]),
                   samples=samples(ex))
    else:
        cov = dict(evaluations=ex.items_done + sum(ex.stats[s.name]['executions'] for s in scens if s.items is None and s.name in ex.stats),
                   distinct_nontrivial=len(ex.distinct), rule=mod.RULE, samples=samples(ex))
    cov['exhaustive'] = not capped and not ex.inconclusive and not ex.violations
    cov['executions'] = ex.execs
    cov['bound_not_completed_in'] = capped
    cov['inconclusive'] = len(ex.inconclusive)
    if ex.inconclusive:
        cov['inconclusive_detail'] = [list(x) for x in ex.inconclusive[:3]]
    cov['distinct_outcomes'] = {n: len(v) for n, v in sorted(ex.outcomes.items())}
    cov['scenarios'] = {n: dict(executions=st['executions'], states=len(st['states']), deviation_bound=st['bound'], capped=st['capped'], processes=st['nproc'], worker_seconds=round(st['secs'], 1))
                        for n, st in sorted(ex.stats.items())}
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []) , wall_s=round(wall, 2),
              violations=len(ex.violations))
    if not a.only:
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % prop, 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d executions, %d cases, %d states, %d transitions, %d distinct outcomes, %.1f s%s%s' % (
        prop, tier, ex.execs, ex.items_done, len(ex.states) + len(ex.distinct), ex.transitions, sum(len(v) for v in ex.outcomes.values()), wall,
        ', %d of %d scenarios not exhausted to their bound' % (len(capped), len(ex.stats)) if capped else '', ', %d inconclusive' % len(ex.inconclusive) if ex.inconclusive else ''))
    if a.stats:
        for n, st in cov['scenarios'].items():
            if not st['executions']: continue
            print('  %-40s %s outcomes=%d' % (n, st, cov['distinct_outcomes'].get(n, 0)))
        for x in ex.inconclusive[:5]:
            print('  INCONCLUSIVE', x)
    for pat, desc in known:
        if desc in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, desc))
    if ex.violations:
        os.makedirs(VERIF + '/replays', exist_ok=True)
        for v in ex.violations[:5 if not a.all else 40]:
            key = hashlib.md5(repr((v['scenario'], v['policy'], v['prefix'], v['items'])).encode()).hexdigest()[:10]
            path = VERIF + '/replays/%s-%s.json' % (prop, key)
            v['property'] = prop
            v['tier'] = tier
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=repr)
            for p in v['problems'][:4]:
                print('  ' + p[:1200])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def samples(ex):
    out = ex.samples[:6]
    seen = set()
    for s in ex.samples:
        if s['scenario'] not in seen and len(out) < 14:
            seen.add(s['scenario'])
            out.append(s)
    return out


def replay(explore, modname, scens, path):
    with open(os.path.join(VERIF, path)) as f:
        v = json.load(f)
    idx = next(i for i, s in enumerate(scens) if s.name == v['scenario'])
    w = explore.start_worker(0, modname, v['backend'])
    m = explore.recv(w['r'])
    if m != 'ready':
        print(m[1]); return 1
    items = v['items']
    if items is not None:
        items = [it for it in scens[idx].items if json.loads(json.dumps(it, default=repr)) in items]
    explore.send(w['w'], dict(scen=idx, policy=v['policy'] or 'loop', prefix=v['prefix'] or [], nd=0, items=items))
    res = explore.recv(w['r'])
    os.close(w['w'])
    print('scenario %s, policy %s, deviations %s' % (v['scenario'], v['policy'], v['prefix']))
    for l in res['log']:
        print('   ', l)
    print('outcome:', res['outcome'], res['detail'])
    print('observed:', repr(res['obs'])[:3000])
    for p in res['problems']:
        print('PROBLEM:', p)
    return 1 if res['problems'] or res['outcome'] != 'ok' else 0


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
