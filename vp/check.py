"""Command line: python3 -m vp.check PROPERTY [--tier quick|thorough]

Analyses /repo's current source and decides one property.  Exit 0: held on everything analysed; exit 1: a
VIOLATION line; exit 2: the analysis could not be carried out."""
import sys, os, json, time, traceback, multiprocessing, re, collections

from . import mir
from .mir import VERIF, DumpError

EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

FAM = {'Chunk': 'chunk', 'CIter': 'chunk', 'CDrain': 'chunk',
       'Ring': 'ring', 'RIter': 'ring', 'RIterMut': 'ring', 'ROwned': 'ring', 'RDrain': 'ring',
       'Slice': 'slice', 'SliceMut': 'slice', 'Index': 'index', 'Raw': 'index',
       'Sparse': 'sparse', 'SIter': 'sparse', 'SIterMut': 'sparse', 'SDrain': 'sparse', 'SOIter': 'sparse',
       'SOIterMut': 'sparse', 'SODrain': 'sparse',
       'Inline': 'inline', 'IIter': 'inline', 'IDrain': 'inline'}
ITERS = {'CIter', 'CDrain', 'RIter', 'RIterMut', 'ROwned', 'RDrain', 'SIter', 'SIterMut', 'SDrain', 'SOIter',
         'SOIterMut', 'SODrain', 'IIter', 'IDrain'}
MAKERS = {'iter', 'iter_mut', 'drain', 'entries', 'indices', 'option_iter', 'option_iter_mut', 'option_drain'}

MEM = {'uninit-read', 'oob'}
OWN = {'double', 'leak', 'uninit-drop'}
FUNC = {'result', 'contents', 'invalid-state', 'hang'}


class Key:
    """a short root name taken apart: 'Chunk.PartialEq.eq' -> type, trait, method"""

    def __init__(self, k):
        self.k = k
        self.ref = k.startswith('&')
        p = k.replace('&mut ', '').replace('&', '').split('.')
        self.type = p[0] if len(p) > 1 else None
        self.method = p[-1]
        self.trait = p[1] if len(p) > 2 else None
        self.fam = FAM.get(self.type)


def too_strict(f):
    return f['kind'] == 'refusal' and f['msg'].startswith('refused')


def optional(f):
    return f['kind'] == 'result' and re.search(r'None instead of Some|Some\(\.\.\) instead of None|is an error', f['msg'])


def user_unwind(f):
    return bool(f['unw']) and f['unw'][0] == 'user'


def panicking(f):
    return bool(f['unw']) and f['unw'][0] != 'user'


def seqprop(fam):
    fams = (fam,) if type(fam) is str else fam

    def roots(k, r):
        return k.fam in fams and k.trait not in OWNPROP

    def takes(k, r, f):
        return not user_unwind(f) and (f['kind'] in FUNC | MEM or f['kind'] == 'double' or too_strict(f))
    return dict(roots=roots, takes=takes)


def ownprop(fam):
    fams = (fam,) if type(fam) is str else fam

    def roots(k, r):
        return k.fam in fams

    def takes(k, r, f):
        return not user_unwind(f) and f['kind'] in OWN | MEM | {'invalid-state'}
    return dict(roots=roots, takes=takes)


def sized(root):
    """takes a count, index, range, buffer length or iterator from the caller"""
    from .harness import is_usize, item_kind, tyname
    for t in root['inputs']:
        if is_usize(t) or t['k'] == 'param' and t['name'] not in ('A', 'T', 'H', 'S'):
            return True
        if 'Range' in tyname(t):
            return True
    return False


def notuser(k, r, f):
    return not user_unwind(f)


CMP = ('PartialEq', 'Eq', 'PartialOrd', 'Ord', 'Hash')
VIEWS = ('Deref', 'DerefMut', 'Borrow', 'BorrowMut', 'AsRef', 'AsMut')
OWNPROP = ('Debug', 'Arbitrary')        # their results are properties of their own
CONV = ('Clone', 'From', 'Into', 'TryFrom', 'PoolClone', 'PoolDefault', 'ToOwned')

PROPS = {
    'C01': dict(seqprop('chunk')),
    'C02': dict(ownprop('chunk')),
    'C03': dict(seqprop('ring')),
    'C04': dict(ownprop('ring')),
    'C05': dict(roots=lambda k, r: k.fam == 'slice' or k.k in ('Ring.slice', 'Ring.slice_mut'), takes=notuser),
    'C06': dict(seqprop('sparse')),
    'C07': dict(ownprop('sparse')),
    'C08': dict(seqprop('inline')),
    'C09': dict(ownprop('inline')),
    'C11': dict(roots=lambda k, r: k.fam and k.fam != 'index', takes=lambda k, r, f: user_unwind(f)),
    'C12': dict(roots=lambda k, r: k.fam and k.fam != 'index' and sized(r), dishonest=True,
                takes=lambda k, r, f: not user_unwind(f) and
                (not f['honest'] or f['kind'] in OWN | MEM | {'refusal', 'invalid-state'})),
    'C13': dict(roots=lambda k, r: bool(k.fam) and k.fam != 'index',
                takes=lambda k, r, f: not user_unwind(f) and (f['kind'] == 'refusal' or optional(f) or panicking(f))),
    'C14': dict(roots=lambda k, r: k.trait in CMP or k.trait in VIEWS or k.method in ('as_slice', 'as_mut_slice'),
                takes=notuser),
    'C15': dict(roots=lambda k, r: k.type in ITERS or k.method in MAKERS or k.trait == 'IntoIterator' or k.type == 'Index',
                takes=notuser),
    'C18': dict(roots=lambda k, r: k.trait in ('Read', 'Write'), takes=notuser),
    'C24': dict(roots=lambda k, r: k.trait == 'Debug', takes=notuser),
    'C25': dict(roots=lambda k, r: k.trait == 'Arbitrary', takes=lambda k, r, f: True),
    'C19': dict(roots=lambda k, r: k.trait in CONV or k.method in ('to_owned', 'clone', 'from', 'into_inner'),
                takes=notuser),
}


# ------------------------------------------------------------------ abstract interpretation jobs
PROGS = {}
OPT = {}
NOTES = []


def job(j):
    cfg, ri, honest = j
    from .interp import Interp
    from .harness import initial, judge, selfcompare, Unsupported, item_kind
    from .specs import SPEC, key_of
    from .state import Imprecise, Kill
    prog = PROGS[cfg]
    root = prog.roots[ri]
    key = key_of(root)
    out = dict(cfg=cfg, key=key, path=root['path'], honest=honest, findings=[], undecided={}, exits={}, states=0,
               capped=0, deps=[], visited=[], spec=key in SPEC, status='analysed', at=root.get('at'))
    t0 = time.time()
    try:
        I = Interp(prog)
        I.root = root['path']
        I.maxiter = OPT['maxiter']
        I.cost = OPT.get('cost')
        I.budget = OPT['budget']
        now = time.time()
        # (so that a tree which is hard to analyse everywhere still gets an answer in time)
        I.deadline = min(now + OPT['secs'], max(OPT.get('end') or now + OPT['secs'], now + 2))
        sts, descr = initial(I, root, honest)
        spec = SPEC.get(key)
        exits = collections.Counter()

        def fin(s):
            exits[judge(s, root, s.aux.get('descr', descr), spec, honest)] += 1
        try:
            I.run(sts, fin)
            if I.ptrcompared and selfcompare(root):
                sts, descr = initial(I, root, honest, alias=True)
                I.run(sts, fin)
        except Exception:
            I.undecided.append((traceback.format_exc().strip().splitlines()[-1], 'analyser'))
        out['findings'] = [dict(kind=f['kind'], msg=f['msg'], at=f['at'], trail=f['trail'][-12:],
                                unw=list(f['unw']) if f['unw'] else None,
                                model={k: v for k, v in f['model'].items()}, honest=honest, cfg=cfg, root=key,
                                path=root['path']) for f in I.findings]
        out['undecided'] = dict(collections.Counter('%s @ %s' % u for u in I.undecided))
        out['exits'] = dict(exits)
        out['states'], out['capped'], out['cutat'] = I.nstates, I.capped, I.cutat
        out['loops'] = I.loopstat
        out['deps'], out['visited'] = sorted(I.deps), sorted(x for x in I.visited)
    except Unsupported as e:
        out['status'] = 'unsupported: %s' % e
    except Imprecise as e:
        out['status'] = 'unsupported: %s' % e.why
    except Kill:
        out['status'] = 'no initial state'
    except Exception:
        out['status'] = 'analyser: ' + traceback.format_exc().strip().splitlines()[-1]
    out['wall'] = round(time.time() - t0, 2)
    return out


def dump_one(a):
    cfg, feats = a
    import subprocess
    try:
        return mir.dump(cfg, feats)
    except DumpError as e:
        return str(e)


def load(cfgs, variants=True):
    from concurrent.futures import ThreadPoolExecutor
    mir.ensure_driver()
    todo = [(c, '--all-features') for c in cfgs] + [(c + '-nostd', mir.NOSTD) for c in cfgs if variants]
    with ThreadPoolExecutor(len(todo)) as ex:
        got = dict(zip([c for c, _ in todo], ex.map(dump_one, todo)))
    for c in cfgs:
        if isinstance(got[c], str):
            raise DumpError(got[c])
        PROGS[c] = got[c]
    for c in cfgs if variants else ():
        v = got[c + '-nostd']
        if isinstance(v, str):
            NOTES.append('without std: ' + v.strip().splitlines()[-1])
            continue
        v = mir.changed_in(PROGS[c], v)
        if v.only:
            PROGS[v.cfg] = v
    for p in PROGS.values():
        p.text = None


def wanted(root):
    if root.get('unsafe') and not root.get('trait'):
        # the caller's obligations are known only for the accessors that exist; another may state any
        from .specs import SPEC, key_of
        if SPEC.get(key_of(root)) is None:
            return False
    return 'inputs' in root and (root['public'] or bool(root.get('trait')))


def run_jobs(jobs):
    # long ones first
    from .specs import key_of

    def weight(j):
        k = key_of(PROGS[j[0]].roots[j[1]])
        return ('PartialEq' in k) + 2 * ('Sparse.PartialEq' in k) + ('insert' in k) + ('Slice' in k)
    jobs = sorted(jobs, key=weight, reverse=True)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, max(1, os.cpu_count() or 1)), maxtasksperchild=None) as p:
        return p.map(job, jobs, chunksize=1)


def analyse_property(pid, tier):
    from .specs import key_of
    from .harness import item_kind
    P = PROPS[pid]
    jobs, deproots = [], {}
    for cfg, prog in PROGS.items():
        for i, r in enumerate(prog.roots):
            k = Key(key_of(r))
            if k.fam == 'index' and 'inputs' in r:
                deproots.setdefault((cfg, r['path']), []).append(i)
            if k.trait == 'Drop':
                deproots.setdefault((cfg, 'drop:' + ((r.get('self') or {}).get('path') or '?')), []).append(i)
            if not wanted(r) or not P['roots'](k, r) or prog.only is not None and r['key'] not in prog.only:
                continue
            it = any(item_kind(r, t['name']) for t in r['inputs'] if t['k'] == 'param')
            jobs.append((cfg, i, True))
            if it and P.get('dishonest'):
                jobs.append((cfg, i, False))
    res = run_jobs(jobs)
    # what the analysed functions rely on through a summary
    done = set((j[0], j[1]) for j in jobs)
    need = {}
    for r in res:
        for d in r['deps']:
            for i in deproots.get((r['cfg'], d), ()):
                if (r['cfg'], i) not in done:
                    need[(r['cfg'], i)] = True
    dep = run_jobs([(c, i, True) for c, i in need]) if need else []
    hits = []
    for r in res:
        for f in r['findings']:
            if P['takes'](Key(r['key']), None, f):
                hits.append(f)
    for r in dep:
        for f in r['findings']:
            # a broken summary breaks every operation that relies on it
            if (r['key'].startswith(('Raw.', 'Index.')) and pid not in ('C11', 'C12', 'C13', 'C21')) or P['takes'](Key(r['key']), None, f):
                hits.append(f)
    hits += exposed(pid)
    return res, dep, hits


OWNERS_OF = {'C02': 'sized_chunk::', 'C04': 'ring_buffer::', 'C07': 'sparse_chunk::', 'C09': 'inline_array::', 'C12': ''}


def exposed(pid):
    """fields of a container, slice or iterator that any safe program could overwrite"""
    out = []
    for cfg, prog in PROGS.items():
        for s in prog.shapes if pid in OWNERS_OF and prog.only is None else ():
            if s['public'] and s['path'].startswith(OWNERS_OF[pid]) and any(v[1] == 'type' for v in s['variances']):
                for f in s.get('exposed') or ():
                    out.append(dict(kind='exposed-field', msg='any safe program can overwrite the field %s' % f, at=s['at'],
                                    path=s['path'], cfg=cfg, model=None, unw=None))
    return out


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                body = l.split(' ', 2)[2]
                ident, _, text = body.partition(' :: ')
                out.append((ident.strip(), text.strip()))
    return out


def fingerprint(f):
    # what the lifetimes are called does not matter
    return re.sub(r"'\w+", "'a", f.get('id') or '%s|%s' % (f['path'], f['kind']))


def finish(pid, tier, hits, cov, level, t0):
    """print the verdict, write evidence and replay; returns the exit code"""
    kn = known(pid)
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    seen, new, old = set(), [], []
    for f in hits:
        fp = fingerprint(f)
        hit = next((k for k in kn if k[0] == fp), None)
        if hit:
            if fp not in seen:
                old.append((fp, hit[1]))
            seen.add(fp)
            continue
        new.append(f)
    groups = collections.OrderedDict()
    for f in new:
        groups.setdefault((fingerprint(f), re.sub(r'\d+', '#', f['msg'])[:60]), []).append(f)
    for fp, text in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, text, fp))
    rep = os.path.join(EVID, 'replay', pid + '.json')
    if os.path.exists(rep):
        os.unlink(rep)
    if groups:
        with open(rep, 'w') as o:
            json.dump(dict(property=pid, findings=[g[0] for g in groups.values()],
                           counts=[len(g) for g in groups.values()]), o, indent=1, default=str)
        for n, (g, fs) in enumerate(groups.items()):
            f = fs[0]
            if n < 12:
                print('  %s: %s: %s' % (f.get('path'), f['kind'], f['msg']))
                print('      at %s%s' % (f['at'], '' if not f.get('model') else
                                          '   e.g. ' + ', '.join('%s=%s' % kv for kv in list(f['model'].items())[:10])))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
    cov['violations'] = len(groups)
    cov['known_findings'] = [o[0] for o in old]
    with open(os.path.join(EVID, pid + '.json'), 'w') as o:
        json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
                       coverage=cov, wall_s=round(time.time() - t0, 1)), o, indent=1, default=str)
    if not groups:
        print("ok: property=%s" % pid)
    return 1 if groups else 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    if tier == 'quick':
        OPT.update(maxiter=3, budget=60000, secs=60, end=t0 + 480)
    else:
        OPT.update(maxiter=4, budget=400000, secs=240, end=t0 + 3000)
    try:
        if pid in PROPS:
            load(['debug', 'release'])
            res, dep, hits = analyse_property(pid, tier)
            ok = [r for r in res if r['status'] == 'analysed' and r['spec']]
            if not ok:
                print('ERROR: nothing could be analysed for ' + pid)
                sys.exit(2)
            sys.exit(finish(pid, tier, hits, coverage(pid, res, dep), 'other', t0))
        from . import structural
        sys.exit(structural.main(pid, tier, t0, finish))
    except DumpError as e:
        print('ERROR: %s' % e)
        sys.exit(2)


def coverage(pid, res, dep):
    und = collections.Counter()
    for r in res + dep:
        for w, n in r['undecided'].items():
            und[w] += n
    fns = set()
    for r in res + dep:
        fns.update(r['visited'])
        fns.add(r['path'])
    exits = collections.Counter()
    for r in res + dep:
        exits.update(r['exits'])
    return dict(
        explanation='Path-sensitive abstract interpretation of the compiler\'s MIR of every listed operation, from '
                    'every valid state of its container (symbolic length, position and capacity), callees inlined; '
                    'each exit state compared with the sequence/map model and with the ownership ledger.  Loops are '
                    'summarised by induction over the iteration count (back edges covered by the summary end there), '
                    'otherwise unrolled to the loop bound and the rest counted as cut.',
        rule='exit states: returned value, contents, ownership of every element and refusal must equal the model',
        configurations=sorted(PROGS), notes=NOTES,
        operations=len(set(r['key'] for r in res if r['status'] == 'analysed')),
        analyses=len(res) + len(dep),
        operation_list=['%s [%s%s] exits=%s undecided=%d' % (
            r['key'], r['cfg'], '' if r['honest'] else ', dishonest iterator', r['exits'], sum(r['undecided'].values()))
            if r['status'] == 'analysed' else '%s [%s] %s' % (r['key'], r['cfg'], r['status']) for r in res],
        relied_on=sorted(set(r['key'] for r in dep)),
        functions_visited=len(fns),
        exit_states=dict(exits),
        abstract_states=sum(r['states'] for r in res + dep),
        loops_summarised=len(set(w for r in res + dep for w, v in (r.get('loops') or {}).items() if v[0])),
        loop_summaries=sum(v[0] for r in res + dep for v in (r.get('loops') or {}).values()),
        back_edges_closed_by_induction=sum(v[1] for r in res + dep for v in (r.get('loops') or {}).values()),
        paths_cut_at_loop_bound=sum(r['capped'] for r in res + dep),
        loops_with_cut_paths=sorted(set(w for r in res + dep for w in (r.get('cutat') or {})))[:20],
        loop_bound=OPT['maxiter'],
        undecided=sum(und.values()),
        undecided_samples=[w for w, _ in und.most_common(8)],
    )


if __name__ == '__main__':
    from vp.check import main as real
    real()
