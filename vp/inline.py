"""InlineArray: a length header and elements laid out inside the host type `T`.

Pointers into the host are formal byte offsets from its start (VEl with u='B'); the size of an element
is the formal unit SA, so that element positions stay distinct even for zero-sized elements.  Where the
header and the elements live is read off the public accessors `len` and `deref` once per case; every
other access must agree with that."""
from .lin import *
from .values import *
from .state import *
from .interp import strip_wrappers, is_usize, factor, Frame, Multi

SA = 'SA'
CAPC = 'inline_array::InlineArray::<A, T>::CAPACITY'
PRIMAL = {'u64': 8, 'i64': 8, 'usize': 8, 'isize': 8, 'f64': 8, 'u32': 4, 'i32': 4, 'u16': 2, 'u8': 1, 'u128': 16,
          'i128': 16}


def unit(st, view):
    if view == 'A':
        return L(SA)
    if view == 'usize':
        return L(8)
    if view == 'u8':
        return ONE
    raise Imprecise('pointer to %s inside the host' % view)


def view_of(t):
    if t is None:
        raise Imprecise('pointer cast inside the host')
    if t['k'] == 'param' and t['name'] == 'A':
        return 'A'
    if is_usize(t):
        return 'usize'
    if t['k'] == 'other' and t.get('name') == 'u8':
        return 'u8'
    if t['k'] == 'param' and t['name'] == 'T':
        return 'T'
    raise Imprecise('pointer to %s inside the host' % tyname(t))


def cast(I, st, v, t):
    w = view_of(t)
    if type(v) is VPtr:
        if w == 'T':
            return v
        return VEl(v.cell, v.path, VInt(ZERO), 'B', w)
    return VEl(v.cell, v.path, v.pos, 'B', w)


def padd(I, st, p, n):
    pos = p.pos.l + formal(n).mul(unit(st, p.view))
    return VEl(p.cell, p.path, VInt(pos), 'B', p.view)


def formal(l):
    """size_A -> SA inside products"""
    r = Lin(l.c)
    for m, k in l.t:
        ps = ['SA' if x == 'size_A' else x for x in m.split('*')]
        q = Lin(k)
        for x in ps:
            q = q.mul(L(x))
        r = r + q
    return r


def index(st, p):
    """element index of an element pointer"""
    el = st.aux.get('el')
    if el is None:
        raise Imprecise('no element area')
    d = formal(p.pos.l) - formal(el)
    q = factor(d, SA)
    if q is not None:
        return q
    if d.is_const() and d.c == 0:
        return ZERO
    if d.is_const():
        if st.dec(L('size_A') - abs(d.c) - 1):
            st.finding('oob', 'element pointer at byte offset %r, which is not where elements are (%r)' % (p.pos.l, el))
    raise Imprecise('element pointer off the element grid')


def header(st, p):
    h = st.aux.get('hdr')
    if h is None:
        st.aux['hdr'] = p.pos.l
        return
    d = formal(p.pos.l) - formal(h)
    if d.is_const() and d.c == 0:
        return
    x = subst(st, d)
    if st.dec_eq(x):
        return
    st.finding('oob', 'length header accessed at byte offset %r instead of %r' % (p.pos.l, h))


def subst(st, d):
    """value of a formal offset: SA -> size_A"""
    r = Lin(d.c)
    for m, k in d.t:
        q = Lin(k)
        for x in m.split('*'):
            q = st.facts.norm(q).mul(st.facts.norm(L('size_A' if x == SA else x)))
        r = r + q
    return r


def host(I, st, p):
    v = st.get(p.cell, p.path)
    if type(v) is not VInl:
        raise Imprecise('host')
    return v


def read_header(I, st, p):
    header(st, p)
    v = host(I, st, p)
    if v.len is VJunk:
        st.finding('uninit-read', 'the length header is read before it is written')
    return v.len


def write_header(I, st, p, x):
    header(st, p)
    v = host(I, st, p)
    if type(x) is VMod:
        x = VInt(st.reduce_mod(x))
    st.put(p.cell, p.path, VInl(x, v.sto))


def chk(I, st, p, n, what):
    if p.view != 'A':
        raise Imprecise('access through a pointer to ' + str(p.view))
    i = index(st, p)
    s = I.sto(st, p)
    st.ensure(i, 'oob', '%s at element %r: before the elements' % (what, i))
    st.ensure(L('CAP') - i - n, 'oob', '%s of %r element(s) at %r: beyond CAPACITY' % (what, n, i))
    return s, i


def is_align(x):
    return (x.is_const() and x.c > 0 and x.c & (x.c - 1) == 0) or \
        (x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1 and x.t[0][0].startswith('align_'))


def aligned(I, st, p, y):
    """is the address of p a multiple of the power of two y?  None if unknown"""
    if type(p) is VAgg and len(p.fs) == 1:
        p = p.fs[0]
    if type(p) is VEl and p.view == 'dangling':
        return True
    if type(p) is VPtr:
        off = ZERO
    elif type(p) is VEl and p.u == 'B':
        off = p.pos.l
    else:
        return None
    if not st.dec(L('align_Self') - y):
        return None
    off = formal(off)
    c = off.c
    if c:
        low = c & -c
        if not st.dec(L(low) - y):
            return None
    for m, k in off.t:
        x = subst(st, Lin(0, ((m, k),)))
        if x.is_const() and x.c == 0:
            continue
        if SA not in m.split('*'):
            return None
        if not (L('align_A') - y).is_const() and not st.dec(L('align_A') - y):
            return None
    return True


def addr_op(I, st, op, a, b):
    if op in ('Eq', 'Ne') and type(a) is VAddr and type(b) is VAddr:
        x, y = a.p, b.p
        if type(x) is VPtr and type(y) is VPtr and x.cell == y.cell:
            # a wrapper and its only sized field
            return VBool(op == 'Eq')
    if op == 'Rem' and type(a) is VAddr and type(b) is VInt:
        r = aligned(I, st, a.p, st.facts.norm(b.l))
        if r:
            return VInt(ZERO)
        t = ('misaligned', repr(a.p), repr(b.l))
        if st.decide(('tok', t)):
            return VInt(ONE)
        return VInt(ZERO)
    if op in ('Eq', 'Ne') and (type(a) is VAddr or type(b) is VAddr):
        return VBool(('tok', ('addr', op, repr(a), repr(b))))
    if op == 'BitAnd':
        return addr_op(I, st, 'Rem', a, VInt(b.l + 1)) if type(b) is VInt else None
    raise Imprecise('address arithmetic')


def field_align(prog):
    """alignment every InlineArray has because of its own fields"""
    import re
    a = prog.adts.get(IA)
    best = 1
    for f in a['variants'][0]['fields']:
        t = f['ty']
        if t.startswith('std::marker::PhantomData') or t.startswith('std::mem::MaybeUninit'):
            continue
        for w in re.findall(r'[a-z0-9]+', t):
            best = max(best, PRIMAL.get(w, 1))
    return best


def cases(I):
    """the (facts, consts, sizes, aux) every InlineArray analysis starts from"""
    c = getattr(I.prog, '_inline_cases', None)
    if c is None:
        c = I.prog._inline_cases = compute(I)
    return c


def body_of(I, path):
    for k, b in I.prog.bodies.items():
        if b.path == path and '[A: std::marker::Sized,T: std::marker::Sized]' in k:
            return b
    for b in I.prog.bodies.values():
        if b.path == path:
            return b
    return None


def compute(I):
    from .interp import Interp
    J = Interp(I.prog)
    st = State(J)
    st.add('ge', L('size_A'))
    st.add('ge', L('size_T'))
    for x in ('align_A', 'align_T', 'align_Self'):
        st.add('ge', L(x) - 1)
        st.add('ge', L(2 ** 29) - L(x))
    for x in ('size_A', 'size_T', 'size_Self'):
        st.add('ge', L(ISZMAX) - L(x))
        st.sizes[('size', L(x))] = True
    for x in ('align_A', 'align_T', 'align_Self'):
        st.sizes[('size', L(x))] = True
    fa = field_align(I.prog)
    s1, s2 = st.clone(), st.clone()
    starts = []
    s1.add('ge', L('align_T') - fa)
    s1.add('eq', L('align_T') - L('align_Self'))
    s1.add('eq', L('size_T') - L('size_Self'))
    starts.append(s1)
    if fa > 1:
        s2.add('ge', L(fa) - L('align_T') - 1)
        s2.add('eq', L('align_Self') - fa)
        s2.add('ge', L('size_Self') - L('size_T'))
        starts.append(s2)
    # a size is a multiple of the alignment
    more = []
    for s in starts:
        a, b = s.clone(), s.clone()
        a.add('eq', L('size_A'))
        b.add('ge', L('size_A') - L('align_A'))
        more += [a, b]
    body = body_of(I, CAPC)
    if body is None:
        raise Imprecise('no CAPACITY')
    for s in more:
        s.frames = (Frame(body, 0, 0, ('const', 'CAP'), None, None, 'continue', 'const'),)
    outs = []
    J.run(more, lambda s: outs.append(s))
    if J.undecided:
        raise Imprecise('CAPACITY: %s' % (J.undecided[0][0],))
    res = []
    for s in outs:
        if s.aux.get('exit') != 'ret':
            raise Imprecise('CAPACITY panics')
        v = s.aux.pop('ret')
        s.aux.pop('exit')
        s.aux['capval'] = v.l
        s.add('eq', L('CAP') - v.l)
        s.aux['inline'] = True
        res.append(s)
    # probe the header through len() and the elements through deref()
    res = probe(J, res, 'len')
    res = probe(J, res, 'deref')
    out = []
    for s in res:
        aux = {k: s.aux[k] for k in ('capval', 'inline', 'hdr', 'el') if k in s.aux}
        out.append((s.facts, dict(s.consts), dict(s.sizes), aux))
    return out


def probe(J, states, name):
    root = [r for r in J.prog.roots if r.get('selfname', '').startswith(IA) and r.get('name') == name and 'inputs' in r
            and r['self'] and r['self']['k'] == 'adt' and r['self']['path'] == IA]
    if not root:
        raise Imprecise('no InlineArray::' + name)
    body = J.prog.bodies.get(root[0]['key'])
    work = []
    small = []
    for s in states:
        t = s.clone()
        try:
            t.add('ge', L(8) - L('size_T'))
            small.append(t)
        except Kill:
            pass
        s = s.clone()
        n = L('probe_n')
        try:
            s.add('ge', L('size_T') - 9)
            s.add('ge', n)
            s.add('ge', L('CAP') - n)
        except Kill:
            continue
        s.cells[('in', 0)] = s.mk(IA, data=VInl(VInt(n), VSto(L('CAP'), ((ZERO, L('CAP'), E('probe')),))))
        s.cells[(1, 1)] = VPtr(('in', 0), ())
        s.aux['fid'] = 1
        s.frames = (Frame(body, 0, 0, 1, None, None, 'continue'),)
        work.append(s)
    outs = []

    def fin(s):
        outs.append(s)
    und = len(J.undecided)
    J.run(work, fin)
    if len(J.undecided) > und:
        raise Imprecise('%s: %s' % (name, J.undecided[-1][0]))
    r = small
    for s in outs:
        v = s.aux.get('ret')
        if s.aux.get('exit') != 'ret':
            continue
        if name == 'deref' and type(v) is VSl:
            if v.p.u == 'B':
                s.aux['el'] = v.p.pos.l
        t = s.clone()
        for k in ('exit', 'ret', 'fid', 'nfresh'):
            t.aux.pop(k, None)
        t.cells, t.frames, t.trail = {}, (), ()
        r.append(t)
    # one representative per case: drop facts about the probe itself is not possible; keep the weakest
    return dedupe(r)


def dedupe(states):
    """cases that differ only in what was decided about the probe"""
    seen = {}
    for s in states:
        key = (repr(s.aux.get('hdr')), repr(s.aux.get('el')), repr(s.aux.get('capval')), case_key(s))
        seen.setdefault(key, s)
    return list(seen.values())


def case_key(s):
    probes = [L('size_A') - 1, L('size_T') - 9, L('align_A') - 9, L('align_Self') - L('align_A'), L('CAP') - 1,
              L('align_T') - 8]
    return tuple((s.facts.ge(p), s.facts.ge(-p - 1)) for p in probes)
