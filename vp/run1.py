"""Development driver: analyse the roots whose key or path contains a substring."""
import sys, time, collections, traceback
from . import mir
from .interp import Interp
from .state import *
from .harness import *
from .specs import SPEC, key_of


def analyse(prog, root, honest=True, maxiter=3, budget=60000, secs=60):
    I = Interp(prog)
    I.root = root['path']
    I.maxiter = maxiter
    I.budget = budget
    I.deadline = time.time() + secs
    sts, descr = initial(I, root, honest)
    spec = SPEC.get(key_of(root))
    outs = collections.Counter()

    def fin(s):
        r = judge(s, root, s.aux.get('descr', descr), spec, honest)
        outs[r] += 1
    try:
        I.run(sts, fin)
        if I.ptrcompared and selfcompare(root):
            sts, descr = initial(I, root, honest, alias=True)
            I.run(sts, fin)
    except Exception:
        I.undecided.append((traceback.format_exc(), 'crash'))
    return I, outs, spec


def main():
    cfg = sys.argv[1]
    pats = [a for a in sys.argv[2:] if not a.startswith('-')]
    quiet = '-q' in sys.argv
    honest = '-d' not in sys.argv
    import os, pickle
    for a in sys.argv:
        if a.startswith('--repo='):
            mir.REPO = a[7:]
    c = '/tmp/dump_%s%s.pickle' % (cfg, mir.REPO.replace('/', '_') if mir.REPO != '/repo' else '')
    src = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(mir.REPO + '/src') for f in fs)
    if os.path.exists(c) and os.path.getmtime(c) > src:
        prog = pickle.load(open(c, 'rb'))
    else:
        prog = mir.dump(cfg)
        pickle.dump(prog, open(c, 'wb'))
    for root in prog.roots:
        if 'inputs' not in root:
            continue
        k = key_of(root)
        if not any(p in k if not p.startswith('=') else p[1:] == k for p in pats):
            continue
        if quiet and not (root['public'] or root.get('trait')):
            continue
        if not honest and not any(item_kind(root, t['name']) for t in root['inputs'] if t['k'] == 'param'):
            continue
        t = time.time()
        try:
            I, outs, spec = analyse(prog, root, honest)
        except Unsupported as e:
            print('%-40s UNSUPPORTED %s' % (k, e))
            continue
        except Imprecise as e:
            print('%-40s IMPRECISE initial %s' % (k, e.why))
            continue
        except Kill:
            print('%-40s KILL in initial' % k)
            continue
        except Exception:
            print('%-40s CRASH %s' % (k, traceback.format_exc()))
            continue
        if quiet and not I.findings and not I.undecided and spec:
            continue
        und = collections.Counter(I.undecided)
        print('%-40s %s%s findings=%d undecided=%d capped=%d states=%d %.2fs%s' % (
            k, dict(outs), '' if spec else ' NOSPEC', len(I.findings), len(I.undecided), I.capped, I.nstates,
            time.time() - t, '' if not I.findings and not und else ''))
        if '-l' in sys.argv:
            print('   loops', I.loopstat, 'cut', I.cutat)
        seen = set()
        for f in I.findings:
            key = (f['kind'], f['msg'])
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 4:
                break
            print('    FINDING', f['kind'], '|', f['msg'], '|', f['at'], f['unw'])
            print('        ', f['model'])
        for (w, a), n in und.most_common(4):
            print('    undecided x%d: %s @ %s' % (n, w, a))


if __name__ == '__main__':
    main()
