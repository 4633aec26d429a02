"""Initial abstract states for every analysed function, and the judgement of its exits against the
sequence model (vp/specs.py)."""
import copy
import re
from .lin import *
from .values import *
from .state import *
from .interp import Interp, Frame, strip_wrappers, is_usize
from .models import SLIT, canon

IDXITER = 'ring_buffer::index::IndexIter'
RIT, RITM = 'ring_buffer::iter::Iter', 'ring_buffer::iter::IterMut'
RSL, RSLM = 'ring_buffer::slice::Slice', 'ring_buffer::slice::SliceMut'
RDR, ROW = 'ring_buffer::iter::Drain', 'ring_buffer::iter::OwnedIter'
CIT, CDR = 'sized_chunk::iter::Iter', 'sized_chunk::iter::Drain'
IIT, IDR = 'inline_array::iter::Iter', 'inline_array::iter::Drain'


# ---------------------------------------------------------------- sequences
def slen(p):
    r = ZERO
    for n, _ in p:
        r = r + n
    return r


def one(c):
    return [(ONE, c)]


def take(st, p, k):
    """first k elements; 0<=k<=len decided by the caller"""
    o = []
    for n, c in p:
        if st.eqv(k, ZERO):
            return o
        if st.ge(k - n) or (not st.ge(n - k) and st.dec(k - n)):
            o.append((n, c))
            k = k - n
        else:
            if st.dec(k - 1):
                o.append((k, c))
            return o
    return o


def skip(st, p, k):
    o = []
    p = list(p)
    while p:
        n, c = p[0]
        if st.eqv(k, ZERO):
            break
        if st.ge(k - n) or (not st.ge(n - k) and st.dec(k - n)):
            k = k - n
            p.pop(0)
        else:
            p[0] = (n - k, st.cadj(c, k))
            break
    return p


def at(st, p, k):
    r = skip(st, p, k)
    while r and not st.dec(r[0][0] - 1):
        r.pop(0)
    return r[0][1] if r else None


def seq_diff(st, got, want):
    """None when equal, else a description"""
    if any(c is not None and c[0] == 'E' and c[3] is not None for _, c in list(got) + list(want)):
        from .sparse import expand
        got, want = expand(st, got, True), expand(st, want, True)
    got, want = list(got), list(want)
    lg, lw = slen(got), slen(want)
    if not st.dec_eq(lg - lw):
        return 'length %r instead of %r' % (st.facts.norm(lg), st.facts.norm(lw))
    pos = ZERO
    while want:
        n, c = want[0]
        if not st.dec(n - 1):
            want.pop(0)
            continue
        while got and not st.dec(got[0][0] - 1):
            got.pop(0)
        if not got:
            return None
        m, d = got[0]
        if not same_content(st, d, c):
            return 'position %r holds %s instead of %s' % (st.facts.norm(pos), cstr(st, d), cstr(st, c))
        k = n if (st.ge(m - n) or (not st.ge(n - m) and st.dec(m - n))) else m
        pos = pos + k
        if st.eqv(n, k):
            want.pop(0)
        else:
            want[0] = (n - k, st.cadj(c, k))
        if st.eqv(m, k):
            got.pop(0)
        else:
            got[0] = (m - k, st.cadj(d, k))
    return None


def same_content(st, a, b):
    if a is None or b is None:
        return a is b
    if a[0] != b[0]:
        return False
    if a[0] == 'E':
        return a[1] == b[1] and a[3] == b[3] and st.dec_eq(a[2] - b[2])
    return a[1] == b[1]


def cstr(st, c):
    if c is None:
        return 'nothing'
    if c[0] == 'E':
        return '%s[%r]' % (c[1], st.facts.norm(c[2]))
    return repr(c[1])


# ---------------------------------------------------------------- arguments
class Arg:
    __slots__ = ('kind', 'path', 'pieces', 'len', 'l', 'name', 'mut', 'cell', 'ref', 'extra')

    def __init__(self, kind, **kw):
        self.kind = kind
        for k in Arg.__slots__[1:]:
            setattr(self, k, kw.get(k))


class Unsupported(Exception):
    pass


def item_kind(root, pname):
    """what the caller-supplied iterator parameter yields"""
    b = root.get('bounds') or ''
    names = {pname}
    for part in split_bounds(b):
        if part.startswith('<%s as std::iter::IntoIterator>::IntoIter == ' % pname):
            names.add(part.split(' == ')[1])
    for part in split_bounds(b):
        for nm in names:
            for tr in ('std::iter::Iterator', 'std::iter::IntoIterator'):
                if part.startswith('<%s as %s>::Item == ' % (nm, tr)):
                    t = part.split(' == ')[1]
                    if t == 'A':
                        return 'own'
                    if t.startswith('&'):
                        return 'ref'
                    if t.endswith('Option<A>'):
                        return 'opt'
    return None


def split_bounds(b):
    out, d, cur = [], 0, ''
    for ch in b:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


def mkcont(st, i, path, args):
    """an arbitrary container argument; returns its logical value"""
    n, src = L('n%d' % i), 'c%d' % i
    if path == SP:
        from . import sparse
        return sparse.arbitrary(st, i, args)
    st.add('ge', n)
    st.add('ge', st.cap(path) - n)
    if path == IA:
        # the constructor refuses smaller hosts and zero-sized elements it cannot align
        st.add('ge', L('size_T') - 9)
        if st.ge(-L('size_A')):
            st.add('ge', L('align_Self') - L('align_A'))
    pieces = ((n, E(src)),)
    st.created = st.created + ((src, ZERO, n),)
    return VCont(path, pieces)


def raw(l, st):
    return VAgg(RAW, 0, (VInt(ZERO) if st.aux.get('n0') else VMod(l),))


def mkraw(st, i):
    r = L('r%d' % i)
    st.add('ge', r)
    if st.aux.get('n0'):
        st.add('eq', r)
    else:
        st.add('ge', N - 1 - r)
    return r


def ring_at(st, cell, i):
    """materialised arbitrary ring buffer in the cell; returns origin"""
    v = mkcont(st, i, RB, None)
    st.cells[cell] = v
    p = st.materialize(cell, ())
    o = p.fs[st.fld(RB, 'origin')]
    return o.fs[0].l, v


def mkstruct(I, path, **kw):
    m = I.prog.fields.get(path)
    if m is None:
        raise Unsupported('no struct ' + path)
    fs = [UNIT] * len(m)
    for k, v in kw.items():
        if k not in m:
            raise Unsupported('no field %s in %s' % (k, path))
        fs[m[k]] = v
    return VAgg(path, 0, tuple(fs))


def ends(I, p, kw):
    """an iterator that keeps its length may do without one of its two ends"""
    m = I.prog.fields.get(p) or {}
    if ('left_index' in m) != ('right_index' in m):
        kw.pop('right_index' if 'left_index' in m else 'left_index')
    return kw


def firstindex(I, st, v, rem):
    """the position an iterator's next element has, from those of its fields that are in use; None if it has none"""
    m = I.prog.fields.get(v.path) or {}
    at = []
    for nm, d in (('left_index', ZERO), ('right_index', rem)):
        if nm in m and I.prog.reads(v.path, nm):
            x = v.fs[m[nm]]
            at.append((x.fs[0] if type(x) is VAgg else x).l - d)
    if not at:
        raise Imprecise('ends of ' + v.path)
    if len(at) > 1 and not I.cong0(st, at[1] - at[0]):
        raise Mismatch('iterator ends disagree with its count')
    return at[0]


def precondition(st, root, i, a):
    """documented obligations of the caller: offsets of ring indices are at most one turn, and the index handed to
    an unchecked accessor is in range"""
    if root['path'].startswith(('ring_buffer::index::', '<ring_buffer::index::')) and i == 1:
        st.add('ge', N - a)
    elif root['path'].startswith('<ring_buffer::index::') and root['name'] == 'from':
        st.add('ge', N - 1 - a)
    elif root['name'] in ('get_unchecked', 'get_unchecked_mut') and root.get('unsafe'):
        c = st.aux.get('len0')
        if c is not None:
            st.add('ge', c - 1 - a)


def mkvalue(st, root, t, i, nested=False):
    """abstract value of type t for argument i, plus its description"""
    I = st.I
    k = t['k']
    if is_usize(t):
        a = L('a%d' % i)
        st.add('ge', a)
        st.add('ge', L(MAX) - a)
        precondition(st, root, i, a)
        return VInt(a), Arg('int', l=a)
    if k == 'param':
        nm = t['name']
        if nm == 'A':
            src = 'v%d' % i
            st.created = st.created + ((src, ZERO, ONE),)
            return VElem(src, ZERO), Arg('elem', pieces=[(ONE, E(src))], name=src)
        ik = item_kind(root, nm)
        if ik:
            src, T = 'it%d' % i, L('T%d' % i)
            st.add('ge', T)
            st.add('ge', L(MAX) - T)
            st.iters['i%d' % i] = (ik, src, T, ZERO, False)
            if ik == 'opt':
                from . import sparse
                sparse.new_mask(st, 'm' + src, T)
                return VIter('i%d' % i), Arg('iter', name='i%d' % i, len=T, pieces=[(T, E(src, ZERO, 'm' + src))],
                                             extra=ik)
            if ik == 'ref':
                st.cells[('user', src)] = VSto(T, ((ZERO, T, E(src)),))
            return VIter('i%d' % i), Arg('iter', name='i%d' % i, len=T, pieces=[(T, E(src))], extra=ik)
        b = root.get('bounds') or ''
        if '%s: std::ops::RangeBounds<usize>' % nm in b:
            return VOp(('range', 'r%d' % i)), Arg('range', name='r%d' % i)
        if '%s: std::borrow::Borrow<[A]>' % nm in b:
            src = 'u%d' % i
            n = L('len_' + src)
            st.add('ge', n)
            st.add('ge', L(ISZMAX) - n)
            return VOp(('userslice', src)), Arg('uslice', pieces=[(n, E(src))], len=n)
        if '%s: std::hash::Hasher' % nm in b:
            return VOp(('hasher',)), Arg('hasher')
        if re.search(r'(?:^|,)%s: (?:std::ops::)?Fn(?:Mut|Once)?[(<]' % re.escape(nm), b):
            return VOp(('userfn',)), Arg('fn')
        if nm == 'B' or not re.search(r'(?:^|,)%s: (?!std::marker::\w*Sized(?:,|$))' % re.escape(nm), b):
            return VOp(('param', nm)), Arg('opaque')
        if 'std::slice::SliceIndex<[A]>' in b:
            return VOp(('sliceindex',)), Arg('sliceindex')
        raise Unsupported('parameter type ' + nm)
    if k == 'ref':
        to = t['to']
        if to['k'] == 'slice':
            n = L('b%d' % i)
            st.add('ge', n)
            st.add('ge', L(ISZMAX) - n)
            cell = ('in', i)
            st.cells[cell] = VSto(n, ((ZERO, n, E('buf%d' % i)),))
            return VSl(VEl(cell, (), VInt(ZERO), 'E', None), n), \
                Arg('buf', cell=cell, len=n, pieces=[(n, E('buf%d' % i))], mut=t['mut'])
        cell = ('in', i)
        if (to.get('path') or '') in ('std::fmt::Formatter', 'arbitrary::Unstructured'):
            st.cells[cell] = VOp((to['path'],))
            return VPtr(cell, ()), Arg('fmt')
        inner = strip_wrappers(to)
        if inner is not to:
            # MaybeUninit<Container> out-parameter
            st.cells[cell] = uninit_cont(st, inner)
            return VPtr(cell, ()), Arg('out', cell=cell, path=inner['path'], mut=True)
        v, a = mkvalue(st, root, to, i, True)
        st.cells[cell] = v
        a.cell = cell
        a.ref = True
        a.mut = t['mut']
        return VPtr(cell, ()), a
    if k == 'adt':
        p = t['path']
        if p == 'arbitrary::Unstructured':
            return VOp((p,)), Arg('fmt')
        if p in CONTAINERS:
            v = mkcont(st, i, p, t['args'])
            if p == SP:
                return v, Arg('sparse', path=p, pieces=[(N, E('c%d' % i, ZERO, 'm%d' % i))],
                              len=L('card_m%d' % i), name='m%d' % i)
            return v, Arg('cont', path=p, pieces=list(v.pieces), len=slen(v.pieces))
        if p in (RSL, RSLM):
            bc = ('buf', i)
            o, v = ring_at(st, bc, i)
            s, e = L('s%d' % i), L('e%d' % i)
            st.add('ge', s)
            st.add('ge', e - s)
            st.add('ge', slen(v.pieces) - e)
            r = VAgg('std::ops::Range', 0, (VInt(s), VInt(e)))
            return mkstruct(I, p, buffer=VPtr(bc, ()), range=r), \
                Arg('slice', path=p, pieces=[(e - s, E('c%d' % i, s))], len=e - s, cell=None,
                    extra={'buf': bc, 's': s, 'e': e, 'all': list(v.pieces)})
        if p in (RIT, RITM):
            bc = ('buf', i)
            o, v = ring_at(st, bc, i)
            s, e = L('s%d' % i), L('e%d' % i)
            st.add('ge', s)
            st.add('ge', e - s)
            st.add('ge', slen(v.pieces) - e)
            kw = dict(left_index=raw(o + s, st), right_index=raw(o + e, st), remaining=VInt(e - s))
            if p == RIT:
                kw['buffer'] = VPtr(bc, ())
            else:
                kw['data'] = VEl(bc, (st.fld(RB, 'data'),), VInt(ZERO), 'E', None)
            return mkstruct(I, p, **ends(I, p, kw)), \
                Arg('iterator', path=p, pieces=[(e - s, E('c%d' % i, s))], len=e - s,
                    extra={'buf': bc, 'all': list(v.pieces)})
        if p in (RDR, CDR, IDR):
            bc = ('buf', i)
            path = {RDR: RB, CDR: CH, IDR: IA}[p]
            v = mkcont(st, i, path, None)
            st.cells[bc] = v
            f = {RDR: 'buffer', CDR: 'chunk', IDR: 'array'}[p]
            return mkstruct(I, p, **{f: VPtr(bc, ())}), \
                Arg('iterator', path=p, pieces=list(v.pieces), len=slen(v.pieces), extra={'own': bc})
        if p in (ROW, CIT, IIT):
            path = {ROW: RB, CIT: CH, IIT: IA}[p]
            v = mkcont(st, i, path, None)
            f = {ROW: 'buffer', CIT: 'chunk', IIT: 'array'}[p]
            return mkstruct(I, p, **{f: v}), Arg('iterator', path=p, pieces=list(v.pieces), len=slen(v.pieces),
                                                 extra={'own': None})
        if p == RAW:
            r = mkraw(st, i)
            # plain integer: the operations of the index type itself are being examined
            return VAgg(RAW, 0, (VInt(r),)), Arg('raw', l=r)
        if p == IDXITER:
            l, n = mkraw(st, i), L('m%d' % i)
            st.add('ge', n)
            st.add('ge', N - n)
            return mkstruct(I, p, **ends(I, p, dict(remaining=VInt(n), left_index=raw(l, st),
                                                    right_index=raw(l + n, st)))), \
                Arg('idxiter', l=l, len=n)
        from . import sparse
        r = sparse.mkvalue(st, root, t, i)
        if r is not None:
            return r
    raise Unsupported('argument type ' + tyname(t))


def uninit_cont(st, t):
    p = t.get('path')
    if p not in CONTAINERS:
        raise Unsupported('uninitialised ' + tyname(t))
    if p == CH:
        return st.mk(CH, data=VSto(N, ((ZERO, N, None),)))
    if p == RB:
        o = L(st.fresh('o'))
        return st.mk(RB, data=VSto(N if st.aux.get('n0') else 'ring', ((ZERO, N, None),)))
    if p == SP:
        return st.mk(SP, data=VSto(N, ((ZERO, N, None),)))
    raise Unsupported('uninitialised ' + tyname(t))


INDEXFN = ('ring_buffer::index::', '<ring_buffer::index::')


def initial(I, root, honest=True, over=None, alias=False):
    """the initial states (one per layout case for inline arrays) and the description of the arguments"""
    body = I.prog.bodies.get(root['key'])
    if body is None:
        raise Unsupported('no body')
    tys = [tyname(t) for t in root['inputs'] + [root['output']]] + [root['path']]
    if root['name'] == 'entries' and 'res' in root.get('next', ()):
        I.drive = root['next']
    starts = []
    if any('inline_array' in t for t in tys):
        from . import inline
        for facts, consts, sizes, aux in inline.cases(I):
            st = State(I)
            st.facts, st.consts, st.sizes = facts, dict(consts), dict(sizes)
            st.aux.update(aux)
            starts.append(st)
    else:
        starts.append(State(I))
        if any('ring_buffer' in t for t in tys) and not root['path'].startswith(INDEXFN):
            # a ring buffer without capacity: no position exists, so it is a start of its own
            st = State(I)
            st.aux['n0'] = True
            starts.append(st)
    out, descr = [], None
    for st in starts:
        if alias:
            st.aux['alias'] = True
        try:
            descr = setup(st, root, body, honest, tys)
        except Kill:
            continue
        out.append(st)
    if root['inputs']:
        t = root['inputs'][0]
        p = (t.get('to') or t).get('path')
        from .sparse import SOIT, SOITM, SODR
        if over is None and p in (SOIT, SOITM, SODR) and overruns(I, p):
            st = State(I)
            st.aux['over'] = True
            st.aux['descr'] = setup(st, root, body, honest, tys)
            out.append(st)
    return out, descr


def overruns(I, path):
    """does an exhausted iterator of this type advance past the last index when it is polled again? Then the states
    beyond the end are reachable and are examined as well."""
    memo = I.prog.__dict__.setdefault('overruns', {})
    if path in memo:
        return memo[path]
    memo[path] = False
    for r in I.prog.roots:
        if r['name'] != 'next' or 'inputs' not in r or not r['inputs']:
            continue
        if (r['inputs'][0].get('to') or {}).get('path') != path:
            continue
        J = Interp(I.prog)
        J.maxiter, J.budget = I.maxiter, 2000
        sts, descr = initial(J, r, True, over=False)
        for st in sts:
            st.add('eq', N - descr[0].l)

        def fin(st):
            for f in st.cells[('in', 0)].fs:
                if type(f) is VInt and not st.facts.ge(N - f.l):
                    memo[path] = True
        J.run(sts, fin)
    return memo[path]


def setup(st, root, body, honest, tys):
    I = st.I
    st.aux['honest'] = honest
    st.add('ge', L(ISZMAX) - N)
    if st.aux.get('n0'):
        st.add('eq', N)
    else:
        st.add('ge', N - (1 if any('ring_buffer' in t or 'sparse_chunk' in t for t in tys) else 0))
    args, descr = [], []
    for i, t in enumerate(root['inputs']):
        r = aliased(st, root, args, descr) if i == 1 and st.aux.get('alias') else None
        v, a = r or mkvalue(st, root, t, i)
        args.append(v)
        descr.append(a)
        if i == 0 and a.kind in ('cont', 'slice'):
            st.aux['len0'] = a.len
        if i == 0 and a.kind == 'sparse':
            st.aux['len0'] = N
    fid = I.newfid(st)
    for i, a in enumerate(args):
        st.cells[(fid, i + 1)] = a
    st.frames = (Frame(body, 0, 0, fid, None, None, 'continue'),)
    return descr


def selfcompare(root):
    """can both things compared be parts of one object? Only where an element may differ from itself does that matter"""
    return root.get('trait') in ('std::cmp::PartialEq', 'std::cmp::PartialOrd') and len(root['inputs']) == 2


def aliased(st, root, args, descr):
    """the second argument as (a part of) the object the first one is, or is a part of"""
    I = st.I
    x, y = ((t.get('to') or t) for t in root['inputs'])
    a = descr[0]
    if x == y and a.kind != 'slice':
        b = copy.copy(a)
        b.cell, b.extra = None, None
        return args[0], b
    bc = a.extra['buf'] if a.kind == 'slice' else a.cell
    if y.get('path') in (RSL, RSLM) and (a.kind == 'slice' or a.path == RB):
        al = a.extra['all'] if a.kind == 'slice' else list(a.pieces)
        s, e = L('s1'), L('e1')
        st.add('ge', s)
        st.add('ge', e - s)
        st.add('ge', slen(al) - e)
        st.cells[('in', 1)] = mkstruct(I, y['path'], buffer=VPtr(bc, ()),
                                       range=VAgg('std::ops::Range', 0, (VInt(s), VInt(e))))
        return VPtr(('in', 1), ()), Arg('shown', path=y['path'], pieces=[(e - s, E('c0', s))], len=e - s, cell=None)
    if y.get('path') == RB and a.kind == 'slice':
        al = a.extra['all']
        return VPtr(bc, ()), Arg('shown', path=RB, pieces=list(al), len=slen(al), cell=None)
    if y['k'] == 'param' and a.kind == 'cont' and a.path in (CH, IA):
        # the argument borrows the elements as a slice
        st.cells[('in', 1)] = VOp(('userslice', None))
        return VPtr(('in', 1), ()), Arg('shown', path=None, pieces=list(a.pieces), len=a.len, cell=None)
    raise Kill()


# ---------------------------------------------------------------- exits
def owned(st, v, out):
    """element intervals owned by value v"""
    t = type(v)
    if t is VElem:
        out.append((v.src, v.off, v.off + 1))
    elif t is VCont or (t is VAgg and v.path in (CH, RB, IA)):
        for n, c in st.pieces(v):
            if c is None:
                st.finding('uninit-read', 'a container covers slots that hold no element')
            if c[0] == 'E':
                out.append((c[1], c[2], c[2] + n))
    elif t is VAgg:
        if v.path == SP:
            from . import sparse
            sparse.owned(st, v, out)
            return
        if v.path in ('std::mem::ManuallyDrop',):
            return
        for f in v.fs:
            owned(st, f, out)


def conservation(st, descr, normal, tag=''):
    # dropping an element that needs no drop does nothing
    nd = ('nd', L('nd_A')) in st.sizes and st.ge(-L('nd_A'))
    sinks = [] if nd else [(s, a, b) for s, a, b in st.drops]
    for a in descr:
        if a.kind == 'out' and not normal:
            continue        # a MaybeUninit the caller will not look at
        if a.kind in ('cont', 'iterator', 'out', 'sparse', 'slice', 'sparseit') and a.cell is not None:
            owned(st, st.cells.get(a.cell, VJunk), sinks)
        x = a.extra if type(a.extra) is dict else {}
        if x.get('own'):
            owned(st, st.cells[x['own']], sinks)
        if x.get('buf'):
            owned(st, st.cells[x['buf']], sinks)
        if a.kind == 'elem' and a.ref:
            owned(st, st.cells[a.cell], sinks)
    if normal:
        owned(st, st.aux.get('ret'), sinks)
    created = st.created
    if st.aux.get('maskof'):
        from .sparse import clip_created
        sinks, created = clip_created(st, sinks), clip_created(st, created)
    by = {}
    for s, a, b in sinks:
        if st.dec(b - a - 1):
            by.setdefault(s, []).append((a, b))
    cr = {}
    for s, a, b in created:
        if st.dec(b - a - 1):
            cr.setdefault(s, []).append((a, b))
    kind = 'double' if normal or st.unw[0] == 'panic' else 'unwind-double'
    for s in set(by) | set(cr):
        if s not in cr:
            if s.startswith(('u', 'buf', 'it')):
                continue
            st.finding(kind, 'an element of %s appears that was never created' % s)
        rest = list(by.get(s, ()))
        tile(st, s, merge(st, cr[s]), rest, normal, kind)


def merge(st, ivs):
    ivs = list(ivs)
    i = 0
    while i < len(ivs):
        for j in range(len(ivs)):
            if i != j and st.eqv(ivs[i][1], ivs[j][0]):
                ivs[i] = (ivs[i][0], ivs[j][1])
                ivs.pop(j)
                i = -1
                break
        i += 1
    return ivs


def order(st, ivs):
    """insertion sort by start, deciding comparisons"""
    o = []
    for iv in ivs:
        k = 0
        while k < len(o) and not st.dec(o[k][0] - iv[0] - 1):
            k += 1
        o.insert(k, iv)
    return o


def tile(st, s, created, sinks, normal, kind):
    # forgetting an element that needs no drop is dropping it
    normal = normal and not (('nd', L('nd_A')) in st.sizes and st.ge(-L('nd_A')))
    created = order(st, created)
    sinks = order(st, merge_free(st, sinks))
    prev = None
    for a, b in sinks:
        if prev is not None and not st.dec(a - prev):
            st.finding(kind, 'element %s[%r] is held or destroyed twice' % (s, st.facts.norm(a)))
        prev = b
    ci = 0
    p = created[0][0] if created else None
    for a, b in sinks:
        # advance over created
        while True:
            if ci >= len(created):
                st.finding(kind, 'element %s[%r] appears that was never created' % (s, st.facts.norm(a)))
            ca, cb = created[ci]
            if st.dec(a - cb):
                if normal and st.dec(cb - p - 1):
                    st.finding('leak', 'element %s[%r] is lost' % (s, st.facts.norm(p)))
                ci += 1
                if ci < len(created):
                    p = created[ci][0]
                continue
            break
        if not st.dec(a - created[ci][0]):
            st.finding(kind, 'element %s[%r] appears that was never created' % (s, st.facts.norm(a)))
        if not st.dec(created[ci][1] - b):
            st.finding(kind, 'element %s[%r] appears that was never created' % (s, st.facts.norm(created[ci][1])))
        if normal and st.dec(a - p - 1):
            st.finding('leak', 'element %s[%r] is lost' % (s, st.facts.norm(p)))
        p = b
    if normal:
        while ci < len(created):
            if st.dec(created[ci][1] - p - 1):
                st.finding('leak', 'element %s[%r] is lost' % (s, st.facts.norm(p)))
            ci += 1
            if ci < len(created):
                p = created[ci][0]


def merge_free(st, ivs):
    return list(ivs)


class Mismatch(Exception):
    pass


def view(st, v):
    """contents designated by a slice, iterator or container value"""
    I = st.I
    if type(v) is VPtr:
        return view(st, st.get(v.cell, v.path))
    if type(v) is VSl:
        return I.sl_pieces(st, v, 'exposure')
    if type(v) is VCont or (type(v) is VAgg and v.path in (CH, RB, IA)):
        return st.pieces(v)
    if type(v) is not VAgg:
        raise Imprecise('view of %r' % (type(v).__name__,))
    p = v.path
    m = I.prog.fields.get(p, {})
    if p == SP:
        from .sparse import logical
        return logical(st, v)
    if p.startswith('sparse_chunk::iter::') or p == 'bitmaps::Iter':
        from .sparse import itview
        return itview(st, v)
    if p == SLIT:
        return I.sl_pieces(st, v.fs[0], 'exposure')
    if p in (RSL, RSLM):
        r = v.fs[m['range']]
        a, b = I.num(st, r.fs[0]), I.num(st, r.fs[1])
        bp = v.fs[m['buffer']]
        buf = st.pieces(st.get(bp.cell, bp.path))
        if not st.dec(b - a):
            raise Mismatch('slice range %r..%r is inverted' % (a, b))
        if not st.dec(slen(buf) - b) or not st.dec(a):
            raise Mismatch('slice range %r..%r leaves the buffer' % (a, b))
        return take(st, skip(st, buf, a), b - a)
    if p in (RIT, RITM):
        rem = I.num(st, v.fs[m['remaining']])
        if not st.dec(rem) or not st.dec(N - rem):
            raise Mismatch('iterator claims %r elements' % (rem,))
        at = firstindex(I, st, v, rem)
        if not st.dec(rem - 1):
            return []
        if p == RIT:
            bp = v.fs[m['buffer']]
            buf = st.get(bp.cell, bp.path)
            if type(buf) is VCont:
                raise Imprecise('iterator over abstract buffer')
            d = buf.fs[st.fld(RB, 'data')]
        else:
            q = v.fs[m['data']]
            if type(q) is not VEl or not st.eqv(I.num(st, q.pos), ZERO):
                raise Imprecise('mutable iterator base')
            d = I.sto(st, q)
        return st.read_range(d, at, rem)
    if p in (RDR, CDR, IDR):
        f = v.fs[0]
        return st.pieces(st.get(f.cell, f.path))
    if p in (ROW, CIT, IIT):
        return st.pieces(v.fs[0])
    raise Imprecise('view of ' + p)


def match(st, want, got, what='result'):
    """raise Mismatch unless the value agrees with the template"""
    k = want[0]
    if k == 'any':
        return
    if k == 'unit':
        return
    if k == 'int':
        if type(got) not in (VInt, VMod):
            raise Imprecise('integer result %s' % type(got).__name__)
        g = st.I.num(st, got)
        if not st.dec_eq(g - want[1]):
            raise Mismatch('%s is %r instead of %r' % (what, st.facts.norm(g), st.facts.norm(want[1])))
        return
    if k == 'raw':
        x = got.fs[0] if type(got) is VAgg else got
        if type(x) not in (VInt, VMod):
            raise Imprecise('index result')
        g = st.I.num(st, x)
        if not (st.dec(g) and st.dec(N - 1 - g)):
            raise Mismatch('%s %r is not below the capacity' % (what, g))
        if not st.I.cong0(st, g - want[1]):
            raise Mismatch('%s is %r, not congruent to %r' % (what, g, want[1]))
        return
    if k == 'bool':
        c = got.c if type(got) is VBool else None
        if c is None:
            raise Imprecise('boolean result')
        a, b = st.decide(want[1]), st.decide(c)
        if a != b:
            raise Mismatch('%s is %s instead of %s' % (what, b, a))
        return
    if k == 'el':
        if type(got) is not VElem:
            if got is VJunk:
                raise Mismatch('%s is uninitialised' % what)
            raise Imprecise('element result %s' % type(got).__name__)
        c = want[1]
        if got.src != c[1] or not st.dec_eq(got.off - c[2]):
            raise Mismatch('%s is %s[%r] instead of %s' % (what, got.src, st.facts.norm(got.off), cstr(st, c)))
        return
    if k == 'ref':
        if type(got) is VPtr:
            raise Imprecise('reference result')
        if type(got) is not VEl:
            raise Imprecise('reference result %s' % type(got).__name__)
        e = st.I.read_el(st, got, 'exposure')
        if type(e) is not VElem:
            raise Imprecise('reference result')
        match(st, ('el', want[1]), e, what + ' (referent)')
        return
    if k == 'none':
        if type(got) is not VAgg or got.path != OPTION:
            raise Imprecise('option result')
        if got.v != 0:
            raise Mismatch('%s is Some(..) instead of None' % what)
        return
    if k == 'some':
        if type(got) is not VAgg or got.path != OPTION:
            raise Imprecise('option result %r' % (got,))
        if got.v != 1:
            raise Mismatch('%s is None instead of Some(..)' % what)
        match(st, want[1], got.fs[0], what)
        return
    if k == 'ok':
        if type(got) is not VAgg or not got.path.endswith('Result'):
            raise Imprecise('Result')
        if got.v != 0:
            raise Mismatch('%s is an error' % what)
        match(st, want[1], got.fs[0], what)
        return
    if k == 'tup':
        if type(got) is not VAgg:
            raise Imprecise('tuple')
        for i, (w, g) in enumerate(zip(want[1], got.fs)):
            match(st, w, g, '%s.%d' % (what, i))
        return
    if k == 'seq' or k == 'view':
        d = seq_diff(st, view(st, got), want[1])
        if d:
            raise Mismatch('%s: %s' % (what, d))
        return
    if k == 'cmp':
        match_cmp(st, want, got, what)
        return
    raise Imprecise('template ' + k)


def where(st, seq, src, off, ln):
    """position in seq of the run of ln elements of src that starts at off (None when it is not there), and its
    extent within the piece found"""
    at = ZERO
    for n, c in seq:
        if c and c[0] == 'E' and c[1] == src and c[3] is None:
            if st.dec(off - c[2]) and st.dec(c[2] + n - off - 1):
                r = c[2] + n - off
                return at + off - c[2], (ln if st.dec(r - ln) else r)
        at = at + n
    return None


def aligned(st, pa, pb, a, b):
    """split a comparison of the parts pa and pb into runs [(position, length)] over which it compares a[i] with b[i];
    None when it compares anything else"""
    xa, xb = list(pa), list(pb)
    out = []
    first = None
    while xa and xb:
        (na, ca), (nb, cb) = xa[0], xb[0]
        if not (ca and cb and ca[0] == 'E' == cb[0] and ca[3] is None and cb[3] is None):
            return None
        n = na if st.dec(nb - na) else nb
        w = where(st, a, ca[1], ca[2], n)
        if w is None:
            return None
        n = w[1]
        v = where(st, b, cb[1], cb[2], n)
        if v is None or not st.dec_eq(w[0] - v[0]):
            return None
        n = v[1]
        if out and st.dec_eq(out[-1][0] + out[-1][1] - w[0]):
            out[-1] = (out[-1][0], out[-1][1] + n)
        else:
            out.append((w[0], n))
        for x, k, c in ((xa, na, ca), (xb, nb, cb)):
            if st.dec(k - n - 1):
                x[0] = (k - n, ('E', c[1], c[2] + n, None))
            else:
                x.pop(0)
    return out


def evidence(st, a, b):
    """what the comparisons made on this path say: [(kind, runs, outcome, same length)]"""
    out = []
    for t, v in st.toks.items():
        if type(t) is not tuple or not t:
            continue
        if t[0] == 'seqeq' or t[0] == 'ord':
            pa, pb = t[1], t[2]
        elif t[0] == 'eq' and type(t[1]) is VElem and type(t[2]) is VElem:
            pa, pb = [[(ONE, ('E', x.src, x.off, None))] for x in t[1:]]
        else:
            continue
        kind = 'ord' if t[0] == 'ord' else 'eq'
        r = aligned(st, pa, pb, a, b)
        if r is None:
            r = aligned(st, pb, pa, a, b)
            if r is not None and kind == 'ord':
                v = {'<': '>', '>': '<'}.get(v, v)
                pa, pb = pb, pa
        out.append((kind, r, v, pa, pb))
    return out


REL = {'seqlt': '<', 'seqle': '<=', 'seqgt': '>', 'seqge': '>='}


def match_cmp(st, want, got, what):
    """want = ('cmp', 'seqeq'|'seqcmp'|'seqpcmp', a, b): the outcome must follow from comparisons of corresponding
    elements (and the lengths), and every element that can matter must have been compared"""
    kind, a, b = want[1:]
    la, lb = slen(a), slen(b)
    if kind in ('seqeq', 'seqne'):
        if type(got) is not VBool:
            raise Imprecise('boolean result')
        c = st.decide(got.c) == (kind == 'seqeq')
        what = what + ' (equality)' * (kind == 'seqne')
        if not st.dec_eq(la - lb):
            if c:
                raise Mismatch('%s is true for contents of different lengths' % what)
            return
        ev = evidence(st, a, b)
        if any(k == 'ord' for k, *_ in ev):
            raise Imprecise('equality by ordering')
        if any(r is not None and v is False for _, r, v, _, _ in ev):
            if c:
                raise Mismatch('%s is true although two elements differ' % what)
            return
        if not c:
            raise Mismatch('%s is false although no two corresponding elements were found to differ' % what)
        cur = ZERO
        while st.dec(la - cur - 1):
            for _, r, v, _, _ in ev:
                for s, n in r or ():
                    if v and st.dec(cur - s) and st.dec(s + n - cur - 1):
                        cur = s + n
                        break
                else:
                    continue
                break
            else:
                raise Mismatch('%s is true although elements from %r on were not compared' % (what, st.facts.norm(cur)))
        return
    want = None
    if kind in REL:
        if type(got) is not VBool:
            raise Imprecise('boolean result')
        g = st.decide(got.c)
        want = REL[kind]
    elif kind == 'seqpcmp':
        if type(got) is not VAgg or got.path != OPTION:
            raise Imprecise('ordering result')
        g = '?' if got.v == 0 else got.fs[0]
    else:
        g = got
    if want is None and g != '?':
        if type(g) is not VAgg or g.path != 'std::cmp::Ordering':
            raise Imprecise('ordering result')
        g = '<=>'[g.v]
    ev = evidence(st, a, b)
    if any(k == 'eq' for k, *_ in ev):
        raise Imprecise('ordering by equality')
    cur = ZERO
    while True:
        if not st.dec(la - cur - 1) or not st.dec(lb - cur - 1):
            e = '=' if st.dec_eq(la - lb) else ('<' if st.dec(lb - la) else '>')
            if g != (e if want is None else e in want):
                raise Mismatch('%s is %s although no elements differ and the lengths compare %s' % (what, g, e))
            return
        for _, r, v, pa, pb in ev:
            if not r or len(r) != 1:
                continue
            s, n = r[0]
            if not st.dec_eq(s - cur):
                if st.dec(cur - s) and st.dec(s + n - cur - 1) and v == '=':
                    cur = s + n
                    break
                continue
            if v == '=':
                cur = s + n
                break
            na, nb = slen(pa), slen(pb)
            if not st.dec_eq(na - nb) and not (st.dec_eq(s + na - la) and st.dec_eq(s + nb - lb)):
                raise Mismatch('%s depends on how long the compared parts are, not only on the contents' % what)
            if g != (v if want is None else v in want):
                raise Mismatch('%s is %s although the first difference found is %s' % (what, g, v))
            return
        else:
            raise Mismatch('%s is decided without comparing the elements from %r on' % (what, st.facts.norm(cur)))


def judge(st, root, descr, spec, honest):
    """examine one exit state; reports through st.finding"""
    ex = st.aux.get('exit')
    I = st.I
    if ex == 'unwind' and st.unw[0] == 'user':
        conservation_safe(st, root, descr, False)
        return 'unwind'
    refused = ex == 'unwind'
    want = spec(Ctx(st, root, descr)) if spec is not None else None
    if want is None:
        conservation_safe(st, root, descr, not refused)
        if not refused:
            disjoint(st, root)
            if not root.get('unsafe'):
                inhabited(st, root['output'], st.aux.get('ret'))
        return 'safe'
    if want.refuse is not None:
        if want.refuse and not refused:
            try:
                st.finding('refusal', 'accepted although it must be refused (%s)' % want.why)
            except Kill:
                # what it did instead may have lost or duplicated elements as well
                conservation_safe(st, root, descr, True)
                raise
        if not want.refuse and refused:
            st.finding('refusal', 'refused (%s) although it must be accepted' % st.unw[1])
    conservation_safe(st, root, descr, not refused)
    try:
        if refused:
            if want.keep:
                unchanged(st, descr)
            return 'refused'
        if want.ret is not None:
            try:
                match(st, want.ret, st.aux.get('ret'))
            except Mismatch as e:
                st.finding('result', str(e))
        for i, p in want.out.items():
            a = descr[i]
            if p is None:
                continue
            v = st.cells.get(a.cell) if a.cell is not None else None
            if a.kind in ('slice', 'iterator') and type(a.extra) is dict and a.extra.get('own') and \
                    a.path in (RDR, CDR, IDR):
                v = st.cells[a.extra['own']]
            d = seq_diff(st, view(st, v), p)
            if d:
                st.finding('contents', 'argument %d afterwards: %s' % (i, d))
        unchanged(st, [a for i, a in enumerate(descr) if i not in want.out])
        for chk in want.checks:
            m = chk(st)
            if m:
                st.finding(m[0], m[1])
    except Mismatch as e:
        st.finding('contents', str(e))
    return 'ok'


def exclusive(t, v, out):
    """the exclusive references to elements in a value of type t"""
    k = t['k']
    if k == 'ref' and t['mut'] and type(v) in (VEl, VSl):
        out.append((v.p, v.len) if type(v) is VSl else (v, ONE))
    elif type(v) is VAgg and k == 'tuple':
        for x, y in zip(t['args'], v.fs):
            exclusive(x, y, out)
    elif type(v) is VAgg and v.path == OPTION and v.v == 1 and t.get('args'):
        exclusive(t['args'][0], v.fs[0], out)


def inhabited(st, t, v):
    """every element a returned reference designates exists"""
    k = t['k']
    if k == 'ref' and type(v) in (VEl, VSl):
        to = t['to']
        try:
            if to['k'] == 'param' and type(v) is VEl:
                st.I.read_el(st, v, 'exposure')
            elif to['k'] == 'slice' and to['of']['k'] == 'param' and type(v) is VSl:
                st.I.sl_pieces(st, v, 'exposure')
        except (Imprecise, Mismatch):
            pass
    elif type(v) is VAgg and k == 'tuple':
        for x, y in zip(t['args'], v.fs):
            inhabited(st, x, y)
    elif type(v) is VAgg and v.path == OPTION and v.v == 1 and t.get('args'):
        inhabited(st, t['args'][0], v.fs[0])


def disjoint(st, root):
    """no two exclusive references that are returned designate the same element"""
    out = []
    exclusive(root['output'], st.aux.get('ret'), out)
    for i, (p, n) in enumerate(out):
        for q, m in out[:i]:
            if (p.cell, p.path) != (q.cell, q.path) or p.u != q.u or p.view != q.view:
                continue
            if not (st.dec(n - 1) and st.dec(m - 1)):
                continue
            if type(p.pos) is VInt and type(q.pos) is VInt:
                hit = st.dec(q.pos.l + m - 1 - p.pos.l) and st.dec(p.pos.l + n - 1 - q.pos.l)
            elif n == ONE and m == ONE:
                hit = st.I.modeq(st, p.pos, q.pos)
                if hit is None:
                    raise Imprecise('positions of two references')
            else:
                raise Imprecise('positions of two references')
            if hit:
                st.finding('alias', 'two of the exclusive references returned designate the same element')


def unchanged(st, descr):
    for a in descr:
        if a.kind in ('cont', 'sparse', 'sparseit') and a.cell is not None:
            d = seq_diff(st, view(st, st.cells[a.cell]), a.pieces)
            if d:
                st.finding('contents', 'contents changed: %s' % d)
        if type(a.extra) is dict and a.extra.get('buf'):
            d = seq_diff(st, view(st, st.cells[a.extra['buf']]), a.extra['all'])
            if d:
                st.finding('contents', 'buffer contents changed: %s' % d)
        if a.kind == 'buf' and not a.mut:
            d = seq_diff(st, st.read_range(st.cells[a.cell], ZERO, a.len), a.pieces) if st.dec(a.len - 1) else None
            if d:
                st.finding('contents', 'input bytes changed: %s' % d)


def conservation_safe(st, root, descr, normal):
    if 'u8' in (root.get('selfname') or ''):
        # bytes are Copy; still require every container to be valid and initialised
        o = []
        for a in descr:
            if a.kind == 'cont' and a.cell is not None:
                owned(st, st.cells[a.cell], o)
        return
    if root['path'].endswith('::drop') and 'ops::Drop' in root['path']:
        st2descr = []
        for a in descr:
            x = Arg(a.kind, **{k: getattr(a, k) for k in Arg.__slots__[1:]})
            x.cell = None
            st2descr.append(x)
        descr = st2descr
    conservation(st, descr, normal)


class Want:
    __slots__ = ('ret', 'out', 'refuse', 'why', 'keep', 'checks')

    def __init__(self, ret=None, out=None, refuse=False, why='', keep=True, checks=()):
        self.ret = ret
        self.out = out or {}
        self.refuse = refuse
        self.why = why
        self.keep = keep
        self.checks = checks


def REF(why, keep=True):
    return Want(refuse=True, why=why, keep=keep)


class Ctx:
    """what a specification may look at"""

    def __init__(self, st, root, descr):
        self.st = st
        self.root = root
        self.a = descr

    def seq(self, i):
        return list(self.a[i].pieces)

    def n(self, i):
        return self.a[i].len

    def int(self, i):
        return self.a[i].l

    def take(self, p, k):
        return take(self.st, p, k)

    def skip(self, p, k):
        return skip(self.st, p, k)

    def at(self, p, k):
        return at(self.st, p, k)

    def dec(self, l):
        return self.st.dec(l)

    def dec_eq(self, l):
        return self.st.dec_eq(l)

    def cap(self, i=0):
        return self.st.cap(self.a[i].path)
