"""Development aid, not a check: analyses one source tree once and says which properties would report it.

python3 -m vp.allprops DIR [PROPERTY...]     (DIR is a copy of /repo; the checks themselves always read /repo)"""
import sys, os, time, json, collections
from . import mir, check
from .check import PROPS, Key, OPT, PROGS


def main(argv):
    mir.REPO = argv[0]
    want = argv[1:]
    t0 = time.time()
    OPT.update(maxiter=3, budget=60000, secs=60)
    check.load(['debug', 'release'])
    from .specs import key_of
    from .harness import item_kind
    jobs, index = [], {}
    for cfg, prog in PROGS.items():
        for i, r in enumerate(prog.roots):
            k = Key(key_of(r))
            if 'inputs' not in r or prog.only is not None and r['key'] not in prog.only:
                continue
            if not check.wanted(r) and k.fam != 'index' and k.trait != 'Drop':
                continue
            jobs.append((cfg, i, True))
            if any(item_kind(r, t['name']) for t in r['inputs'] if t['k'] == 'param'):
                jobs.append((cfg, i, False))
    bypath = {(c, PROGS[c].roots[i]['path']): PROGS[c].roots[i] for c, i, _ in jobs}
    res = check.run_jobs(jobs)
    out = collections.OrderedDict()
    slow = sorted(((r['wall'], r['key'], r['cfg']) for r in res), reverse=True)[:6]
    und = sum(sum(r['undecided'].values()) for r in res)
    for pid, P in PROPS.items():
        if want and pid not in want:
            continue
        hits = []
        for r in res:
            root = bypath[r['cfg'], r['path']]
            k = Key(r['key'])
            mine = check.wanted(root) and P['roots'](k, root)
            for f in r['findings']:
                if not r['honest'] and not P.get('dishonest'):
                    continue
                if P['takes'](k, None, f) and (mine or k.trait == 'Drop' or k.fam == 'index'):
                    hits.append(f)
        kn = [x[0] for x in check.known(pid)]
        out[pid] = [f for f in hits if check.fingerprint(f) not in kn]
    from . import structural
    for pid in ('C10', 'C16', 'C17', 'C20', 'C21'):
        if want and pid not in want:
            continue
        got = []

        def fin(p, tier, hits, cov, level, t):
            kn = [x[0] for x in check.known(p)]
            got.extend(f for f in hits if check.fingerprint(f) not in kn)
            return 0
        r = structural.main(pid, 'quick', t0, fin)
        out[pid] = got if not r else [dict(kind='exit%s' % r, msg='no answer', path='?', at='?')]
    for pid, hits in out.items():
        if hits:
            f = hits[0]
            print('%s: %d findings, e.g. %s: %s: %s' % (pid, len(hits), f.get('path'), f['kind'], f['msg'][:140]))
    if os.environ.get('UNDECIDED'):
        json.dump({'%s %s %s' % (r['cfg'], r['honest'], r['path']): [r['status'], r['undecided'], r['exits'], r['visited'], r.get('cutat'), r.get('loops'), r['wall']] for r in res},
                  open(os.environ['UNDECIDED'], 'w'))
    print('undecided %d, %.0f s, slowest %s' % (und, time.time() - t0, slow[:4]))


if __name__ == '__main__':
    main(sys.argv[1:])
