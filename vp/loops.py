"""Loop summaries by inductive generalisation.

At a loop head the states after two successive iterations are compared.  Where every live value changed by a constant
(in a linear expression), the state after any number K of further iterations is described by one state in which K is a
symbol (facts that tightened by a constant tighten linearly in K).  The body is then analysed once from that state: a
path that comes back to the head with K+1 in the place of K is covered by the induction hypothesis and ends there; one
that comes back as something else is analysed on (a new phase of the loop, e.g. after the storage position wrapped).
So all iteration counts are covered, not a bounded number.

A summary is *exact* when the facts a path brings back to the head are no stronger than what the summary says of K+1:
then every state it describes is reached by some execution and a violation found from it is genuine.  From an inexact
summary only violations that also occur with K = 0 (an unrolled, hence reachable, state) are reported."""
from collections import namedtuple
from .lin import *
from .values import *
from .state import Kill, CONTAINERS, N
from .tokens import mergetoks

MAXACC = 6


class Mismatch(Exception):
    pass


class Summary:
    __slots__ = ('k', 'state', 'cands', 'exact', 'where', 'closed')

    def __init__(self, k, state, cands, where):
        self.k, self.state, self.cands, self.where = k, state, cands, where
        self.exact = False
        self.closed = 0


def _locals_of(x, out):
    """every local mentioned in a MIR statement or operand (JSON form)"""
    if isinstance(x, dict):
        l = x.get('l')
        if isinstance(l, int):
            out.add(l)
            for e in x.get('proj', ()):
                if isinstance(e, (list, tuple)) and e and e[0] == 'index':
                    out.add(e[1])
                elif isinstance(e, dict):
                    for k in ('index', 'local'):
                        if isinstance(e.get(k), int):
                            out.add(e[k])
        for k, v in x.items():
            if k not in ('ty', 'proj', 'args_ty') and isinstance(v, (dict, list)):
                _locals_of(v, out)
    elif isinstance(x, list):
        for v in x:
            _locals_of(v, out)


def liveness(body):
    """({block: locals that may be read after its start}, {block: address-taken locals with storage at its start})"""
    r = LIVE.get(id(body))
    if r is not None:
        return r
    n = len(body.blocks)
    use, dfn, taken = [set() for _ in range(n)], [set() for _ in range(n)], set()
    sgen, skill, managed = [set() for _ in range(n)], [set() for _ in range(n)], set()
    for i, b in enumerate(body.blocks):
        u, d = use[i], set()
        for s in b['st']:
            m = set()
            whole = None
            if s['s'] == 'assign':
                _locals_of(s['v'], m)
                if not s['p'].get('proj'):
                    whole = s['p']['l']
                else:
                    _locals_of(s['p'], m)
                if s['v'].get('r') in ('ref', 'rawptr'):
                    _locals_of(s['v'], taken)
            elif s['s'] in ('live', 'dead'):
                d.add(s['l'])
                managed.add(s['l'])
                (sgen if s['s'] == 'live' else skill)[i].add(s['l'])
                (skill if s['s'] == 'live' else sgen)[i].discard(s['l'])
                continue
            else:
                _locals_of(s, m)
            u |= m - d
            if whole is not None:
                d.add(whole)
        t = b['term']
        m = set()
        whole = None
        for k, v in t.items():
            if k == 'dest' and isinstance(v, dict) and not v.get('proj'):
                whole = v.get('l')
                continue
            if isinstance(v, (dict, list)):
                _locals_of(v, m)
        if t['t'] == 'return':
            m.add(0)
        u |= m - d
        if whole is not None:
            d.add(whole)
        dfn[i] = d
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in reversed(range(n)):
            o = set()
            for s in body.succs(i, True):
                o |= live[s]
            v = use[i] | (o - dfn[i])
            if v != live[i]:
                live[i] = v
                ch = True
    sto = [None] * n
    sto[0] = taken - managed
    ch = True
    while ch:
        ch = False
        for i in range(n):
            if sto[i] is None:
                continue
            o = (sto[i] - skill[i]) | (sgen[i] & taken)
            for s in body.succs(i, True):
                v = o if sto[s] is None else sto[s] | o
                if v != sto[s]:
                    sto[s] = set(v)
                    ch = True
    r = (live, [x or set() for x in sto])
    LIVE[id(body)] = r
    KEEP.append(body)
    return r


LIVE = {}
KEEP = []


def gen(a, b, nf, K):
    """the value K iterations after b, when a came one iteration before b"""
    if a is b:
        return b
    if isinstance(b, Lin):
        if not isinstance(a, Lin):
            raise Mismatch()
        x, y = nf(a), nf(b)
        d = y - x
        if any(s != 'SA' for s, _ in d.t):
            raise Mismatch()
        return b if d.c == 0 and not d.t else b + K.mul(d)
    if isinstance(b, tuple):
        if type(a) is not type(b) or len(a) != len(b):
            raise Mismatch()
        o = [gen(x, y, nf, K) for x, y in zip(a, b)]
        if all(x is y for x, y in zip(o, b)):
            return b
        return type(b)(*o) if hasattr(b, '_fields') else tuple(o)
    if isinstance(b, dict):
        if type(a) is not dict or set(a) != set(b):
            raise Mismatch()
        return {k: gen(a[k], b[k], nf, K) for k in b}
    if type(a) is not type(b) or a != b:
        raise Mismatch()
    return b


def shift(k, d):
    """the substitution of k + d for k, also where k counts elements of size SA"""
    m = L(k).mul(L('SA'))
    return {k: L(k) + d, m.t[0][0]: m + L('SA').scale(d)}


def same(t, v, sub, f):
    """t with the substitution applied equals v under the facts f"""
    if isinstance(t, Lin):
        if not isinstance(v, Lin):
            return False
        return f.eq(t.subst(sub) - v)
    if isinstance(t, tuple):
        return type(t) is type(v) and len(t) == len(v) and all(same(x, y, sub, f) for x, y in zip(t, v))
    if isinstance(t, dict):
        return type(v) is dict and set(t) == set(v) and all(same(t[k], v[k], sub, f) for k in t)
    return t is v or (type(t) is type(v) and t == v)


COMP = ('iters', 'drops', 'created', 'log', 'unw', 'toks', 'lens', 'imprecise', 'masks', 'hf', 'user')
SKIPAUX = ('fid', 'nfresh', 'snap', 'sums')


def auxcore(st):
    return {k: v for k, v in st.aux.items()
            if k not in SKIPAUX and not (type(k) is tuple and k[0] in ('it', 'snap', 'sum', 'nsum', 'go', 'ext'))}


def relevant(st, fr):
    """cells that can be read from here on"""
    stack = {}
    for g in st.frames:
        stack[g.fid] = g
    out = {}
    for c, v in st.cells.items():
        g = stack.get(c[0])
        if g is not None:
            live, taken = liveness(g.body)
            # (a caller waits inside a block: all its locals are kept)
            if g is fr:
                ok = c[1] in live[fr.bb] or c[1] in taken[fr.bb]
            else:
                ok = True
            if not ok:
                continue
        out[c] = v
    return out


def summarise(I, a, b, fr):
    """the generalised state, or None"""
    if len(a.frames) != len(b.frames):
        return None
    for x, y in zip(a.frames, b.frames):
        if x.fid != y.fid or x.bb != y.bb or x.idx != y.idx or x.body is not y.body:
            return None
    if len(b.facts.sub) > len(a.facts.sub) and any(x in a.facts.syms() for x in b.facts.sub if x not in a.facts.sub):
        b.aux[('ext', fr.fid, fr.bb)] = True
        return None         # this iteration fixed a value: it will not repeat
    nf = b.facts.norm
    a, b = a.clone(), b.clone()
    mergetoks(a)
    mergetoks(b)
    g = b.clone()
    k = g.fresh('k')
    K = L(k)
    try:
        if auxcore(a) != auxcore(b):
            raise Mismatch()
        ca, cb = relevant(a, fr), relevant(b, fr)
        stack = {f.fid for f in b.frames}
        for c in list(g.cells):
            if c not in cb:
                g.cells[c] = VPoison
                continue
            if c not in ca:
                if c[0] in stack or type(c[0]) is not int:
                    raise Mismatch()
                g.cells[c] = VPoison
                continue
            try:
                g.cells[c] = gen(ca[c], cb[c], nf, K)
            except Mismatch:
                if type(c[0]) is int and c[0] not in stack:
                    g.cells[c] = VPoison
                else:
                    raise
        for n in COMP:
            x, y = getattr(a, n), getattr(b, n)
            if n == 'toks':
                g.toks = dict(gen(tuple(x.items()), tuple(y.items()), nf, K))
            else:
                setattr(g, n, gen(x, y, nf, K))
    except Mismatch:
        return None
    cands = [K]
    old = {}
    for l in a.facts.all():
        l = nf(l)
        if l.t:
            old[l.t] = min(old.get(l.t, l.c), l.c)
    for l in b.facts.all():
        o = old.get(l.t)
        if o is not None and l.c < o:
            cands.append(l + K.scale(l.c - o))
    bounds(g.cells.values(), k, b, cands)
    for kind, src, total, taken, ended in g.iters.values():
        l = total - taken
        if l.coef(k) < 0 and l not in cands and b.facts.ge(l.subst({k: ZERO})):
            cands.append(l)
    try:
        for l in cands:
            g.add('ge', l)
    except Kill:
        return None
    return g, k, cands


def bounds(vals, k, b, out):
    """bounds on the integers an iteration changes, where they hold now: not negative, within the capacity, in order
    with the integers beside them (a range, the ends of a chunk)"""
    base = {k: ZERO}

    def cand(l):
        if l.coef(k) < 0 and l not in out and b.facts.ge(l.subst(base)):
            out.append(l)

    def walk(v):
        if type(v) is VInt:
            cand(v.l)
        elif isinstance(v, VAgg):
            ints = [x.l for x in v.fs if type(x) is VInt]
            if v.path in CONTAINERS:
                ints.append(N)
            for i, x in enumerate(ints):
                for y in ints[i + 1:]:
                    d = y - x
                    cand(d)
                    cand(-d)
            for x in v.fs:
                walk(x)
        elif type(v) is VInl:
            if type(v.len) is VInt:
                cand(L('CAP') - v.len.l)
            walk(v.sto)
        elif type(v) in (VSto, VBits):
            for x in v.segs:
                if len(x) == 3 and isinstance(x[0], Lin):
                    cand(x[1] - x[0])
        elif isinstance(v, tuple):
            for x in v:
                walk(x)
    for v in vals:
        walk(v)


def covered(sm, st, fr):
    """st is an instance of the summary with K+1 for K"""
    t = sm.state
    if len(t.frames) != len(st.frames):
        return False
    for x, y in zip(t.frames, st.frames):
        if x.fid != y.fid or x.bb != y.bb or x.idx != y.idx or x.body is not y.body:
            return False
    sub = shift(sm.k, 1)
    f = st.facts
    st = st.clone()
    mergetoks(st)
    for l in sm.cands:
        if not f.ge(l.subst(sub)):
            return False
    if auxcore(t) != auxcore(st):
        return False
    rt, rs = relevant(t, fr), relevant(st, fr)
    for c, v in rt.items():
        if v is VPoison:
            continue
        if c not in rs or not same(v, rs[c], sub, f):
            return False
    for n in COMP:
        if n == 'toks':
            for x in t.toks.items():
                if not any(same(x, y, sub, f) for y in st.toks.items()):
                    return False
            continue
        if not same(getattr(t, n), getattr(st, n), sub, f):
            return False
    # exactness: this path shows every instance for K+1 to be reached from one for K
    if not sm.exact:
        sm.exact = attains(sm, st)
    return True


def attains(sm, st):
    t = sm.state
    back = shift(sm.k, -1)
    h = t.facts.add_ge(L(sm.k) - 1)
    if h is None or len(st.toks) != len(t.toks):
        return False
    known = h.syms()
    for l in st.facts.all():
        if not h.ge(l.subst(back)):
            return False
    return not any(s in known and s not in h.sub for s in st.facts.sub)


def endless(sm, st):
    """st, an iteration later, is again the summarised state, and nothing bounds the number of iterations"""
    f = sm.state.facts
    if not sm.exact or sm.k in f.sub or any(v.coef(sm.k) for v in f.sub.values()):
        return False
    return not any(l.coef(sm.k) < 0 for l in f.all())


def loop_head(I, st, fr):
    """called on arrival at a loop head; False ends the path, True continues, None leaves it to the counter"""
    if I.cost is not None:
        return None
    key = (fr.fid, fr.bb)
    sm = st.aux.get(('sum',) + key)
    where = '%s bb%d' % (fr.body.path, fr.bb)
    if sm is not None:
        if covered(sm, st, fr):
            sm.closed += 1
            if endless(sm, st):
                I.finding(st, 'hang', 'a loop repeats for ever: %s' % where)
            I.loopstat.setdefault(where, [0, 0, 0])[1] += 1
            return False
        st.aux.pop(('sum',) + key)
        st.aux.pop(('snap',) + key, None)
        st.aux[('it',) + key] = 0
    c = st.aux.get(('it',) + key, 0)
    if c < I.maxiter - 2:
        return None
    snap = st.aux.get(('snap',) + key)
    ns = st.aux.get(('nsum',) + key, 0)
    if snap is not None and ns < MAXACC and st.imprecise is None:
        r = summarise(I, snap, st, fr)
        if r is not None:
            g, k, cands = r
            sm = Summary(k, None, cands, where)
            tmpl = g.clone()
            sm.state = tmpl
            for s in (g, tmpl):
                s.aux.pop(('snap',) + key, None)
                s.aux[('sum',) + key] = sm
                s.aux[('nsum',) + key] = ns + 1
                s.aux['sums'] = s.aux.get('sums', ()) + (sm,)
            I.loopstat.setdefault(where, [0, 0, 0])[0] += 1
            return g
    s = st.clone()
    for k in [k for k in s.aux if type(k) is tuple and k[0] == 'snap']:
        del s.aux[k]
    st.aux[('snap',) + key] = s
    return None
