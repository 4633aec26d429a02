"""Linear expressions over named integer symbols and the convex-polyhedra domain used by the
abstract interpreter (inequalities + solved equalities; emptiness by Fourier-Motzkin with integer
tightening).  No external solver is involved."""
from math import gcd

class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            n = d.get(s, 0) + k
            if n:
                d[s] = n
            else:
                d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, n):
        if n == 0:
            return Lin(0)
        return Lin(self.c * n, tuple((s, k * n) for s, k in self.t))

    def mul(self, o):
        """product; products of symbols become monomial symbols"""
        if isinstance(o, int):
            return self.scale(o)
        if not o.t:
            return self.scale(o.c)
        if not self.t:
            return o.scale(self.c)
        r = Lin(self.c * o.c)
        for s, k in self.t:
            r = r + Lin(0, ((s, k * o.c),)) if o.c else r
            for s2, k2 in o.t:
                m = '*'.join(sorted(s.split('*') + s2.split('*')))
                r = r + Lin(0, ((m, k * k2),))
        if self.c:
            r = r + Lin(0, o.t).scale(self.c)
        return r

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for x, k in self.t:
            if x == s:
                return k
        return 0

    def is_const(self):
        return not self.t

    def subst(self, m):
        hit = False
        for s, _ in self.t:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        r = {}
        c = self.c
        for s, k in self.t:
            e = m.get(s)
            if e is None:
                r[s] = r.get(s, 0) + k
            else:
                c += e.c * k
                for s2, k2 in e.t:
                    r[s2] = r.get(s2, 0) + k * k2
        return Lin(c, tuple(sorted((s, k) for s, k in r.items() if k)))

    def ev(self, m):
        return self.c + sum(k * m.get(s, 0) for s, k in self.t)

    def __repr__(self):
        o = ''
        for s, k in self.t:
            if k == 1:
                o += '+' + s
            elif k == -1:
                o += '-' + s
            else:
                o += '%+d*%s' % (k, s)
        if self.c or not o:
            o += '%+d' % self.c
        return o[1:] if o[0] == '+' else o


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, str):
        return Lin(0, ((x, 1),))
    return Lin(x)


ZERO = Lin(0)
ONE = Lin(1)
MAX = 2 ** 64 - 1
ISZMAX = 2 ** 63 - 1


def _tighten(l):
    if not l.t:
        return l
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
        if g == 1:
            return l
    return Lin(l.c // g, tuple((s, k // g) for s, k in l.t))


class Infeasible(Exception):
    pass


LIMIT = 600


def _component(rows, seed):
    """rows (dict coefs->const) reachable from the seed symbols"""
    syms = set(seed)
    rest = list(rows.items())
    out = {}
    changed = True
    while changed and rest:
        changed = False
        nr = []
        for t, c in rest:
            for s, _ in t:
                if s in syms:
                    out[t] = c
                    for s2, _ in t:
                        syms.add(s2)
                    changed = True
                    break
            else:
                nr.append((t, c))
        rest = nr
    return out


def _addrow(rows, l):
    """add l>=0 to the row dict; False if contradictory"""
    l = _tighten(l)
    if not l.t:
        return l.c >= 0
    o = rows.get(l.t)
    if o is None or l.c < o:
        rows[l.t] = l.c
        n = tuple((s, -k) for s, k in l.t)
        oc = rows.get(n)
        if oc is not None and oc + l.c < 0:
            return False
    return True


def fm_infeasible(rows, trail=None):
    """True if the system is certainly infeasible (over the integers, incomplete but sound)."""
    rows = dict(rows)
    while True:
        if not rows:
            return False
        # equalities first: pairs t, -t with c + c' == 0 and a unit coefficient
        occ = {}
        for t in rows:
            for s, k in t:
                a = occ.get(s)
                if a is None:
                    a = occ[s] = [0, 0, 0]
                a[0 if k > 0 else 1] += 1
                if abs(k) > 1:
                    a[2] += 1
        eqv = None
        for t, c in rows.items():
            n = tuple((s, -k) for s, k in t)
            oc = rows.get(n)
            if oc is not None and oc + c == 0:
                for s, k in t:
                    if abs(k) == 1:
                        eqv = (s, k, t, c)
                        break
                if eqv:
                    break
        if eqv:
            s, k, t, c = eqv
            # s = -(rest + c)/k
            e = Lin(-c * k, tuple((x, -y * k) for x, y in t if x != s))
            m = {s: e}
            nr = {}
            if trail is not None:
                trail.append((s, ('eq', e)))
            for t2, c2 in rows.items():
                l = Lin(c2, t2).subst(m)
                if not _addrow(nr, l):
                    return True
            rows = nr
            continue
        best = None
        for s, (p, n, b) in occ.items():
            cost = p * n - p - n + b
            if best is None or cost < best[0]:
                best = (cost, s)
        s = best[1]
        pos, neg, nr = [], [], {}
        for t, c in rows.items():
            k = 0
            for x, y in t:
                if x == s:
                    k = y
                    break
            if k > 0:
                pos.append((k, Lin(c, t)))
            elif k < 0:
                neg.append((-k, Lin(c, t)))
            else:
                nr[t] = c
        if trail is not None:
            trail.append((s, ('b', pos, neg)))
        for a, p in pos:
            for b, n in neg:
                if a == 1 and b == 1:
                    l = p + n
                else:
                    g = gcd(a, b)
                    l = p.scale(b // g) + n.scale(a // g)
                if not _addrow(nr, l):
                    return True
        if len(nr) > LIMIT:
            return False
        rows = nr


def int_model(rows, tries=400):
    """an integer point of the system, or None (search is bounded)"""
    trail = []
    if fm_infeasible(rows, trail):
        return None
    budget = [tries]

    def go(i, m):
        if i < 0:
            for t, c in rows.items():
                if c + sum(k * m.get(s, 0) for s, k in t) < 0:
                    return None
            return m
        s, how = trail[i]
        if how[0] == 'eq':
            m2 = dict(m)
            m2[s] = how[1].ev(m)
            return go(i - 1, m2)
        lo, hi = None, None
        for a, p in how[1]:
            v = p.ev({**m, s: 0})
            b = -(v // a)      # a*s + v >= 0 -> s >= ceil(-v/a)
            lo = b if lo is None else max(lo, b)
        for a, n in how[2]:
            v = n.ev({**m, s: 0})
            b = v // a
            hi = b if hi is None else min(hi, b)
        if lo is not None and hi is not None and lo > hi:
            return None
        if lo is None and hi is None:
            cand = [0]
        elif lo is None:
            cand = [min(hi, 0), hi]
        elif hi is None:
            cand = [max(lo, 0), lo, lo + 1, lo + 2]
        else:
            cand = [lo, lo + 1, lo + 2, (lo + hi) // 2, hi - 1, hi]
            if lo <= 0 <= hi:
                cand.insert(0, 0)
        seen = set()
        for v in cand:
            if v in seen or (lo is not None and v < lo) or (hi is not None and v > hi):
                continue
            seen.add(v)
            budget[0] -= 1
            if budget[0] < 0:
                return None
            m2 = dict(m)
            m2[s] = v
            r = go(i - 1, m2)
            if r is not None:
                return r
        return None

    return go(len(trail) - 1, {})


class Facts:
    """immutable conjunction of linear facts"""
    __slots__ = ('rows', 'sub', 'cache')
    stats = {'entail': 0, 'fm': 0}

    def __init__(self, rows=None, sub=None):
        self.rows = rows or {}
        self.sub = sub or {}
        self.cache = {}

    def norm(self, l):
        return l.subst(self.sub) if self.sub else l

    def add_ge(self, l):
        """facts and l>=0, or None when that is empty"""
        l = _tighten(self.norm(l))
        if not l.t:
            return self if l.c >= 0 else None
        o = self.rows.get(l.t)
        if o is not None and o <= l.c:
            return self
        r = dict(self.rows)
        if not _addrow(r, l):
            return None
        comp = _component(r, l.syms())
        Facts.stats['fm'] += 1
        if fm_infeasible(comp):
            return None
        n = tuple((s, -k) for s, k in l.t)
        if r.get(n) is not None and r[n] + l.c == 0:
            return Facts(r, self.sub)._solve(l)
        return Facts(r, self.sub)

    def _solve(self, l):
        """l==0 is known; eliminate a symbol if one has a unit coefficient"""
        pick = None
        for s, k in l.t:
            if abs(k) == 1 and '*' not in s:
                rank = (s == 'N', s.startswith('k'), s)
                if pick is None or (s != 'N' and (pick[0] == 'N' or s > pick[0])):
                    pick = (s, k)
        if pick is None:
            r = dict(self.rows)
            if not _addrow(r, l) or not _addrow(r, -l):
                return None
            if fm_infeasible(_component(r, l.syms())):
                return None
            return Facts(r, self.sub)
        s, k = pick
        e = Lin(-l.c * k, tuple((x, -y * k) for x, y in l.t if x != s))
        m = {s: e}
        nr, touched = {}, set(e.syms())
        for t, c in self.rows.items():
            o = Lin(c, t)
            n = o.subst(m)
            if n is not o:
                touched.update(n.syms())
            if not _addrow(nr, n):
                return None
        ns = {x: y.subst(m) for x, y in self.sub.items()}
        ns[s] = e
        if touched:
            Facts.stats['fm'] += 1
            if fm_infeasible(_component(nr, touched)):
                return None
        return Facts(nr, ns)

    def add_eq(self, l):
        l = _tighten_eq(self.norm(l))
        if l is None:
            return None
        if not l.t:
            return self if l.c == 0 else None
        return self._solve(l)

    def ge(self, l):
        """True when l>=0 is entailed"""
        l = _tighten(self.norm(l))
        if not l.t:
            return l.c >= 0
        o = self.rows.get(l.t)
        if o is not None and o <= l.c:
            return True
        k = l
        r = self.cache.get(k)
        if r is None:
            Facts.stats['entail'] += 1
            neg = -l - 1
            rows = dict(self.rows)
            if not _addrow(rows, neg):
                r = True
            else:
                r = fm_infeasible(_component(rows, l.syms()))
            self.cache[k] = r
        return r

    def eq(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        return self.ge(l) and self.ge(-l)

    def model(self, extra=()):
        rows = dict(self.rows)
        for l in extra:
            if not _addrow(rows, self.norm(l)):
                return None
        m = int_model(rows)
        if m is None:
            return None
        for s, e in self.sub.items():
            m[s] = e.ev(m)
        return m

    def syms(self):
        o = set(self.sub)
        for t in self.rows:
            o.update(s for s, _ in t)
        for e in self.sub.values():
            o.update(e.syms())
        return o

    def all(self):
        for t, c in self.rows.items():
            yield Lin(c, t)


def _tighten_eq(l):
    if not l.t:
        return l
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if g > 1:
        if l.c % g:
            return None
        return Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
    return l
