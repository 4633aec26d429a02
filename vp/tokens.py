"""Comparisons of elements: those of neighbours that came out equal are one comparison of a run."""
from .lin import *
from .values import *


# ------------------------------------------------------------------ comparisons of runs
def _parts(t, v):
    if type(t) is not tuple or not t:
        return None
    if v is True and t[0] == 'eq' and len(t) == 3 and type(t[1]) is VElem and type(t[2]) is VElem:
        return 'seqeq', [(ONE, ('E', t[1].src, t[1].off, None))], [(ONE, ('E', t[2].src, t[2].off, None))]
    if v is True and t[0] == 'seqeq' or v == '=' and t[0] == 'ord':
        return t[0], list(t[1]), list(t[2])
    return None


def _follows(f, p, q):
    if not p or not q:
        return False
    (n, c), (m, d) = p[-1], q[0]
    return bool(c and d and c[0] == 'E' == d[0] and c[1] == d[1] and c[3] is None and d[3] is None and
                f.eq(c[2] + n - d[2]))


def _join(p, q):
    (n, c), (m, d) = p[-1], q[0]
    return p[:-1] + [(n + m, c)] + q[1:]


def mergetoks(st):
    f = st.facts
    out = []
    for t, v in st.toks.items():
        p = _parts(t, v)
        if p is not None:
            for i, (u, w, q) in enumerate(out):
                if q is None or q[0] != p[0]:
                    continue
                if _follows(f, q[1], p[1]) and _follows(f, q[2], p[2]):
                    r = (p[0], _join(q[1], p[1]), _join(q[2], p[2]))
                elif _follows(f, p[1], q[1]) and _follows(f, p[2], q[2]):
                    r = (p[0], _join(p[1], q[1]), _join(p[2], q[2]))
                else:
                    continue
                out[i] = (_key(f, r), '=' if p[0] == 'ord' else True, r)
                break
            else:
                out.append((t, v, p))
        else:
            out.append((t, v, None))
    if len(out) != len(st.toks):
        st.toks = {t: v for t, v, _ in out}


def _key(f, r):
    n = f.norm
    return (r[0],) + tuple(tuple((n(k), (c[0], c[1], n(c[2]), c[3])) for k, c in p) for p in r[1:])


def known_equal(st, t):
    """an element comparison that is part of a run found equal"""
    if t[0] != 'eq' or len(t) != 3 or type(t[1]) is not VElem or type(t[2]) is not VElem:
        return False
    return in_run(st, 'seqeq', (t[1].src, t[1].off), (t[2].src, t[2].off))


def in_run(st, kind, x, y):
    f = st.facts
    for u, v in st.toks.items():
        if type(u) is tuple and u and u[0] == kind and v == ('=' if kind == 'ord' else True):
            if len(u[1]) == len(u[2]) == 1:
                (n, c), (m, d) = u[1][0], u[2][0]
                if not c or not d or c[0] != 'E' or d[0] != 'E':
                    continue
                for a, b in ((x, y), (y, x)):
                    if c[1] == a[0] and d[1] == b[0] and f.eq(a[1] - c[2] - b[1] + d[2]) and \
                            f.ge(a[1] - c[2]) and f.ge(c[2] + n - 1 - a[1]):
                        return True
    return False


def known_order(st, a, b):
    """the same for the order of two single elements (sequences of one piece)"""
    if len(a) != 1 or len(b) != 1:
        return False
    (n, c), (m, d) = a[0], b[0]
    f = st.facts
    return bool(c and d and c[0] == 'E' == d[0] and c[3] is None and d[3] is None and f.eq(n - 1) and f.eq(m - 1)
                and in_run(st, 'ord', (c[1], c[2]), (d[1], d[2])))
