"""Bitmap-indexed storage (SparseChunk): occupancy maps, their iterators, and optional items.

A mask is an unknown set of positions.  What is known about it is a list of segments (a, b, kind, card):
kind '0' (none set), '1' (all set), '?' (unknown, `card` of them are set).  Bitmaps and element storage
refer to masks by name, so learning about a position refines every place that mentions it."""
from .lin import *
from .values import *
from .state import *
from .interp import Multi, UNWIND

BIT = 'bitmaps::Iter'
BM = 'bitmaps::Bitmap::<SIZE>::'
SIT, SITM, SDR = 'sparse_chunk::iter::Iter', 'sparse_chunk::iter::IterMut', 'sparse_chunk::iter::Drain'
SOIT, SOITM, SODR = ('sparse_chunk::iter::OptionIter', 'sparse_chunk::iter::OptionIterMut',
                     'sparse_chunk::iter::OptionDrain')


# ---------------------------------------------------------------- masks
def new_mask(st, name, n):
    c = L('card_' + name)
    st.add('ge', c)
    st.add('ge', n - c)
    st.masks[name] = ((ZERO, n, '?', c),)


def resolve(st, m):
    while type(st.masks.get(m)) is str:
        m = st.masks[m]
    if m not in st.masks:
        raise Imprecise('unknown mask')
    return m


def kind_of(st, a, b, k, c):
    if k != '?':
        return k
    if st.eqv(c, ZERO):
        return '0'
    if st.eqv(c, b - a):
        return '1'
    return '?'


def msplit(st, m, p):
    """put a segment boundary at p"""
    segs = list(st.masks[m])
    for i, (a, b, k, c) in enumerate(segs):
        if st.eqv(a, p) or st.eqv(b, p):
            return
    for i, (a, b, k, c) in enumerate(segs):
        if not st.dec(p - a):
            raise Imprecise('mask position')
        if st.dec(b - 1 - p):
            if st.dec_eq(p - a):
                return
            if k == '?':
                c1 = L(st.fresh('card'))
                st.add('ge', c1)
                st.add('ge', p - a - c1)
                st.add('ge', c - c1)
                st.add('ge', b - p - (c - c1))
                segs[i:i + 1] = [(a, p, k, c1), (p, b, k, c - c1)]
            else:
                segs[i:i + 1] = [(a, p, k, None), (p, b, k, None)]
            st.masks[m] = tuple(segs)
            return


def mrange(st, m, lo, hi):
    """known segments of the mask clipped to [lo,hi): (a,b,kind,card)"""
    m = resolve(st, m)
    if not st.dec(hi - lo - 1):
        return []
    msplit(st, m, lo)
    msplit(st, m, hi)
    out = []
    on = False
    for a, b, k, c in st.masks[m]:
        if st.eqv(a, b):
            continue
        if not on and (st.eqv(a, lo) or (not st.ge(lo - a - 1) and st.dec_eq(a - lo))):
            on = True
        if on:
            if st.ge(a - hi) or (not st.ge(hi - a - 1) and st.dec(a - hi)):
                break
            out.append((a, b, kind_of(st, a, b, k, c), c))
    return out


def mset(st, m, lo, hi, parts):
    """replace the knowledge about [lo,hi), which is one '?' segment"""
    m = resolve(st, m)
    out = []
    for s in st.masks[m]:
        if st.eqv(s[0], lo) and st.eqv(s[1], hi):
            out += [p for p in parts if not st.eqv(p[0], p[1])]
        else:
            out.append(s)
    st.masks[m] = tuple(out)


def mget(st, m, i):
    """is position i in the mask?  learns by splitting"""
    r = mrange(st, m, i, i + 1)
    if len(r) != 1:
        raise Imprecise('mask position')
    a, b, k, c = r[0]
    if k != '?':
        return k == '1'
    outs = []
    for v in (1, 0):
        s = st.clone()
        try:
            s.add('eq', c - v)
            mset(s, m, a, b, [(a, b, str(v), None)])
            outs.append(s)
        except Kill:
            pass
    if not outs:
        raise Kill()
    raise Fork(outs)


def walk(st, bits, lo, hi):
    """segments of a bitmap over [lo,hi): (a,b,kind,card,mask)"""
    out = []
    if not st.dec(hi - lo - 1):
        return out
    for a, b, c in clip(st, bits.segs, lo, hi):
        if c[0] == 'M':
            for x, y, k, n in mrange(st, c[1], a, b):
                out.append((x, y, k, n, c[1]))
        else:
            out.append((a, b, c[0], None, None))
    return out


def clip(st, segs, lo, hi):
    segs, i = st.cut(segs, lo)
    segs, j = st.cut(segs, hi)
    segs, i = st.cut(segs, lo)
    return [s for s in segs[i:j] if st.dec(s[1] - s[0] - 1)]


def bget(st, bits, i):
    r = walk(st, bits, i, i + 1)
    if len(r) != 1:
        raise Imprecise('bitmap position')
    a, b, k, c, m = r[0]
    if k == '?':
        return mget(st, m, i)
    return k == '1'


def bset(st, bits, i, v):
    segs, a = st.cut(bits.segs, i)
    segs, b = st.cut(segs, i + 1)
    segs, a = st.cut(segs, i)
    return VBits(st.norm_segs(segs[:a] + [(i, i + 1, ('1',) if v else ('0',))] + segs[b:]))


def find(st, bits, lo, hi, back=False, want='1'):
    """first (last) position in [lo,hi) that is set, or None; learns by splitting"""
    w = walk(st, bits, lo, hi)
    for a, b, k, c, m in reversed(w) if back else w:
        if k == '?':
            x = st.clone()
            y = st.clone()
            outs = []
            try:
                i = L(x.fresh('bit'))
                x.add('ge', i - a)
                x.add('ge', b - 1 - i)
                other = '0' if want == '1' else '1'
                used = ZERO if want == '1' else None
                # positions passed over are all `other`
                lo_part, hi_part = (a, i), (i + 1, b)
                passed, rest = (hi_part, lo_part) if back else (lo_part, hi_part)
                if want == '1':
                    rc = c - 1
                else:
                    rc = c - (passed[1] - passed[0])
                x.add('ge', rc)
                x.add('ge', rest[1] - rest[0] - rc)
                parts = [(passed[0], passed[1], other, None), (i, i + 1, want, None), (rest[0], rest[1], '?', rc)]
                if back:
                    parts = [parts[2], parts[1], parts[0]]
                mset(x, m, a, b, parts)
                outs.append(x)
            except Kill:
                pass
            try:
                y.add('eq', c if want == '1' else c - (b - a))
                mset(y, m, a, b, [(a, b, '0' if want == '1' else '1', None)])
                outs.append(y)
            except Kill:
                pass
            if not outs:
                raise Kill()
            raise Fork(outs)
        if k == want:
            return b - 1 if back else a
    return None


def count(st, bits, lo=ZERO, hi=N):
    n = ZERO
    for a, b, k, c, m in walk(st, bits, lo, hi):
        if k == '1':
            n = n + (b - a)
        elif k == '?':
            n = n + c
    return n


# ---------------------------------------------------------------- contents
def expand(st, pieces, force=False):
    """masked pieces with everything that is known about the mask made explicit"""
    out = []
    for n, c in pieces:
        if c is None or c[0] != 'E' or c[3] is None:
            out.append((n, c))
            continue
        for a, b, k, card in mrange(st, c[3], c[2], c[2] + n):
            if k == '?' and force:
                # not empty and not full, or else known
                if not st.dec(card - 1) or st.dec(card - (b - a)):
                    return expand(st, pieces, force)
            if k == '0':
                out.append((b - a, None))
            else:
                out.append((b - a, ('E', c[1], a, resolve(st, c[3]) if k == '?' else None)))
    return out


def logical(st, v, lo=ZERO, hi=N):
    """[(n, content)] of a SparseChunk over [lo,hi): content None where there is no value"""
    bits, sto = st.sparse(v)
    out = []
    for a, b, k, c, m in walk(st, bits, lo, hi):
        if k == '0':
            out.append((b - a, None))
            continue
        for n, x in st.read_range(sto, a, b - a):
            if x is None:
                if k == '1':
                    st.finding('uninit-read', 'the occupancy map claims slots that hold no element')
                raise_if_any(st, m, a, b, c)
                out.append((n, None))
                continue
            if x[0] != 'E':
                raise Imprecise('contents')
            if x[3] is None:
                if k == '?':
                    raise Imprecise('element under an unknown bit')
                out.append((n, x))
                continue
            for p, q, kk, cc in mrange(st, x[3], x[2], x[2] + n):
                if k == '1':
                    if kk == '0':
                        st.finding('uninit-read', 'the occupancy map claims slots that hold no element')
                    if kk == '?':
                        raise Imprecise('claimed slots of unknown state')
                    out.append((q - p, ('E', x[1], p, None)))
                else:
                    if resolve(st, m) != resolve(st, x[3]):
                        raise Imprecise('different masks')
                    out.append((q - p, None) if kk == '0' else
                               (q - p, ('E', x[1], p, resolve(st, x[3]) if kk == '?' else None)))
    return out


def raise_if_any(st, m, a, b, c):
    if st.dec(c - 1):
        st.finding('uninit-read', 'the occupancy map claims slots that hold no element')


def merge_none(st, p):
    out = []
    for n, c in p:
        if c is None and out and out[-1][1] is None:
            out[-1] = (out[-1][0] + n, None)
        else:
            out.append((n, c))
    return out


def owned(st, v, out):
    for n, c in logical(st, v):
        if c is not None:
            out.append((c[1], c[2], c[2] + n))


def clip_created(st, ivs):
    """ownership intervals of masked sources without the positions known to be empty"""
    mo = st.aux.get('maskof')
    if not mo:
        return ivs
    out = []
    for s, a, b in ivs:
        m = mo.get(s)
        if m is None:
            out.append((s, a, b))
            continue
        for x, y, k, c in mrange(st, m, a, b):
            if k != '0':
                out.append((s, x, y))
    return out


def drop_contents(I, st, v):
    bits, sto = st.sparse(v)
    I.deps.add('drop:' + SP)
    any_ = False
    for n, c in logical_drop(st, v):
        if c is not None:
            st.drops = st.addiv(st.drops, c[1], c[2], c[2] + n)


def logical_drop(st, v):
    return logical(st, v)


def maskof(st, src, m):
    d = dict(st.aux.get('maskof', {}))
    d[src] = m
    st.aux['maskof'] = d


def arbitrary(st, i, args=None):
    """an arbitrary SparseChunk"""
    st.add('ge', L(1024) - N)
    st.add('ge', N - 1)
    m, src = 'm%d' % i, 'c%d' % i
    new_mask(st, m, N)
    maskof(st, src, m)
    st.created = st.created + ((src, ZERO, N),)
    return st.mk(SP, map=VBits(((ZERO, N, ('M', m)),)), data=VSto(N, ((ZERO, N, E(src, ZERO, m)),)))


def uninit(st):
    return st.mk(SP, map=VJunk, data=VSto(N, ((ZERO, N, None),)))


def mkvalue(st, root, t, i):
    from .harness import Arg, mkstruct
    p = t.get('path')
    I = st.I
    if p not in (SIT, SITM, SDR, SOIT, SOITM, SODR) and p not in ('std::collections::BTreeMap',
                                                                 'std::collections::HashMap'):
        return None
    if p.startswith('std::'):
        src, m = 'u%d' % i, 'mu%d' % i
        new_mask(st, m, L(MAX))
        st.add('ge', L(ISZMAX) - L('card_' + m))
        st.cells[('user', src)] = VSto(L(MAX), ((ZERO, L(MAX), E(src)),))
        return VOp(('map', src, m)), Arg('map', name=m, len=L('card_' + m), extra=src)
    bc = ('buf', i)
    v = arbitrary(st, i)
    src, m = 'c%d' % i, 'm%d' % i
    lo = L('lo%d' % i)
    st.add('ge', lo)
    over = st.aux.get('over')
    if over:
        # polled again after its end, a few times
        st.add('ge', lo - N - 1)
        st.add('ge', N + 8 - lo)
        rest = [(N, None)]
    else:
        st.add('ge', N - lo)
        rest = [(lo, None), (N - lo, E(src, lo, m))]
    if p in (SDR, SODR):
        f = {'chunk': v}
        if p == SODR:
            f['index'] = VInt(lo)
            # what has been passed was removed
            if over:
                done = VBits(((ZERO, N, ('0',)),))
            else:
                done = VBits(((ZERO, lo, ('0',)), (lo, N, ('M', m))))
            v = st.mk(SP, map=done,
                      data=VSto(N, ((ZERO, N, E(src, ZERO, m)),)))
            f['chunk'] = v
            st.created = tuple(c if c[0] != src else (src, N if over else lo, N) for c in st.created)
        else:
            rest = [(N, E(src, ZERO, m))]
        return mkstruct(I, p, **f), Arg('sparseit', path=p, pieces=rest, l=lo, extra={'own': None, 'src': src})
    st.cells[bc] = v
    x = {'buf': bc, 'all': [(N, E(src, ZERO, m))], 'src': src}
    a = Arg('sparseit', path=p, pieces=rest, l=lo, extra=x)
    if p == SIT:
        bp = VPtr(bc, (st.fld(SP, 'map'),))
        it = VAgg(BIT, 0, (VInt(lo), VInt(N), bp))
        return mkstruct(I, p, indices=it, chunk=VPtr(bc, ())), a
    if p == SITM:
        bits = VBits(((ZERO, lo, ('0',)), (lo, N, ('M', m))))
    else:
        bits = VBits(((ZERO, N, ('M', m)),))
    return bytype(st, p, bc, bits, lo), a


def bytype(st, p, bc, bits, lo):
    """an iterator whose fields are told apart by their types: position, occupancy, reference to the chunk or pointer
    to its values"""
    I = st.I
    a = I.prog.adts.get(p)
    if a is None:
        from .harness import Unsupported
        raise Unsupported('no struct ' + p)
    fs = []
    for f in a['variants'][0]['fields']:
        t = f['ty']
        if 'PhantomData' in t:
            fs.append(UNIT)
        elif t == 'usize':
            fs.append(VInt(lo))
        elif 'Bitmap' in t:
            fs.append(bits)
        elif t.startswith('&') and 'SparseChunk' in t:
            fs.append(VPtr(bc, ()))
        elif t in ('*mut A', '*const A'):
            fs.append(VEl(bc, (st.fld(SP, 'data'),), VInt(ZERO), 'E', None))
        else:
            from .harness import Unsupported
            raise Unsupported('field %s: %s of %s' % (f['name'], t, p))
    return VAgg(p, 0, tuple(fs))


def chunk_of(st, v):
    """the chunk an iterator works on"""
    for f in v.fs:
        if type(f) is VPtr:
            f = st.get(f.cell, f.path)
        elif type(f) is VEl and f.path:
            f = st.get(f.cell, f.path[:-1])
        if type(f) is VAgg and f.path == SP:
            return f
    raise Imprecise('iterator without a chunk')


def itview(st, v):
    """what an iterator over a sparse chunk will still produce: pieces over [0,N)"""
    m = st.I.prog.fields.get(v.path, {})
    if v.path == BIT:
        return bitpieces(st, v)
    ch = chunk_of(st, v)
    if v.path == SDR:
        return logical(st, ch)
    if v.path == SIT:
        it = v.fs[m['indices']]
        return under(st, bits_of_iter(st, it), ch)
    bits = [f for f in v.fs if type(f) is VBits]
    if v.path == SITM:
        if len(bits) != 1:
            raise Imprecise('iterator without occupancy')
        return under(st, bits[0], ch)
    if v.path == SOITM and bits:
        ch = st.mk(SP, map=bits[0], data=st.sparse(ch)[1])
    ix = [f for f in v.fs if type(f) in (VInt, VMod)]
    if len(ix) != 1:
        raise Imprecise('iterator without position')
    ix = st.I.num(st, ix[0])
    if not st.dec(N - ix):
        ix = N
    return [(ix, None)] + (logical(st, ch, ix, N) if st.dec(N - ix - 1) else [])


def bits_of_iter(st, it):
    if type(it) is not VAgg or it.path != BIT:
        raise Imprecise('index iterator')
    lo, hi = it.fs[0].l, it.fs[1].l
    b = st.get(it.fs[2].cell, it.fs[2].path)
    if type(b) is not VBits:
        raise Imprecise('bitmap')
    if not st.dec(N - lo):
        lo = N
    segs = [(ZERO, lo, ('0',))] + (clip(st, b.segs, lo, hi) if st.dec(hi - lo - 1) else []) + [(hi, N, ('0',))]
    return VBits(st.norm_segs(segs))


def bitpieces(st, it):
    """the positions an index iterator will produce, as pieces of the pseudo source 'index'"""
    out = []
    for a, b, k, c, m in walk(st, bits_of_iter(st, it), ZERO, N):
        out.append((b - a, None if k == '0' else ('E', 'index', a, resolve(st, m) if k == '?' else None)))
    return out


def under(st, bits, chunk):
    """elements of the chunk selected by the bitmap"""
    b0, sto = st.sparse(chunk)
    return logical(st, st.mk(SP, map=bits, data=sto))


# ---------------------------------------------------------------- models
def install(I, reg, ureg):
    def bits_at(c, v):
        if type(v) is VBits:
            return v
        if type(v) is VPtr:
            b = c.I.read(c.st, c.I.deref(c.st, v))
            if type(b) is VBits:
                return b
            if b is VJunk:
                c.st.finding('uninit-read', 'the occupancy map is read before it is written')
        raise Imprecise('bitmap expected, got %s' % type(v).__name__)

    @reg(BM + 'new', '<bitmaps::Bitmap<SIZE> as std::default::Default>::default')
    def new(c):
        return VBits(((ZERO, N, ('0',)),))

    @reg('<bitmaps::Bitmap<SIZE> as std::clone::Clone>::clone')
    def clone(c):
        return bits_at(c, c.args[0])

    @reg(BM + 'mask')
    def mask(c):
        k = c.I.num(c.st, c.args[0])
        c.st.ensure(N - k, 'oob', 'mask of %r bits' % (k,))
        return VBits(c.st.norm_segs(((ZERO, k, ('1',)), (k, N, ('0',)))))

    @reg(BM + 'len')
    def blen(c):
        return VInt(count(c.st, bits_at(c, c.args[0])))

    @reg(BM + 'is_empty')
    def bempty(c):
        return VBool(find(c.st, bits_at(c, c.args[0]), ZERO, N) is None)

    @reg(BM + 'is_full')
    def bfull(c):
        return VBool(find(c.st, bits_at(c, c.args[0]), ZERO, N, want='0') is None)

    def inrange(c, i, what):
        c.st.ensure(i, 'oob', 'bit %r %s' % (i, what))
        c.st.ensure(N - 1 - i, 'oob', 'bit %r %s: outside the bitmap' % (i, what))

    @reg(BM + 'get')
    def get(c):
        i = c.I.num(c.st, c.args[1])
        inrange(c, i, 'read')
        return VBool(bget(c.st, bits_at(c, c.args[0]), i))

    @reg(BM + 'set')
    def set_(c):
        i = c.I.num(c.st, c.args[1])
        inrange(c, i, 'set')
        b = bits_at(c, c.args[0])
        old = bget(c.st, b, i)
        v = c.st.decide(c.args[2].c)
        c.I.write(c.st, c.I.deref(c.st, c.args[0]), bset(c.st, b, i, v))
        return VBool(old)

    def opt(i):
        return NONE if i is None else some(VInt(i))

    @reg(BM + 'first_index')
    def first(c):
        return opt(find(c.st, bits_at(c, c.args[0]), ZERO, N))

    @reg(BM + 'last_index')
    def last(c):
        return opt(find(c.st, bits_at(c, c.args[0]), ZERO, N, back=True))

    @reg(BM + 'first_false_index')
    def ffirst(c):
        return opt(find(c.st, bits_at(c, c.args[0]), ZERO, N, want='0'))

    @reg(BM + 'last_false_index')
    def flast(c):
        return opt(find(c.st, bits_at(c, c.args[0]), ZERO, N, back=True, want='0'))

    def nxt(want):
        def f(c):
            i = c.I.num(c.st, c.args[1])
            if not c.st.dec(N - 1 - i):
                return NONE
            return opt(find(c.st, bits_at(c, c.args[0]), i + 1, N, want=want))
        return f

    def prv(want):
        def f(c):
            i = c.I.num(c.st, c.args[1])
            if not c.st.dec(N - 1 - i):
                return NONE
            return opt(find(c.st, bits_at(c, c.args[0]), ZERO, i, back=True, want=want))
        return f
    I.natives[BM + 'next_index'], I.natives[BM + 'prev_index'] = nxt('1'), prv('1')
    I.natives[BM + 'next_false_index'], I.natives[BM + 'prev_false_index'] = nxt('0'), prv('0')

    @reg('<bitmaps::Bitmap<SIZE> as std::cmp::PartialEq>::eq')
    def beq(c):
        a, b = bits_at(c, c.args[0]), bits_at(c, c.args[1])
        return VBool(bits_equal(c.st, a, b))

    @reg("<&'a bitmaps::Bitmap<SIZE> as std::iter::IntoIterator>::into_iter")
    def into(c):
        p = c.args[0]
        if type(p) is not VPtr:
            raise Imprecise('bitmap reference')
        bits_at(c, p)
        return VAgg(BIT, 0, (VInt(ZERO), VInt(N), p))

    def it_at(c):
        p = c.args[0]
        loc = c.I.deref(c.st, p)
        it = c.I.read(c.st, loc)
        if type(it) is not VAgg or it.path != BIT:
            raise Imprecise('index iterator')
        return loc, it

    @reg("<bitmaps::Iter<'a, SIZE> as std::iter::Iterator>::next")
    def it_next(c):
        loc, it = it_at(c)
        lo, hi = it.fs[0].l, it.fs[1].l
        i = find(c.st, bits_at(c, it.fs[2]), lo, hi)
        c.I.write(c.st, loc, VAgg(BIT, 0, (VInt(hi if i is None else i + 1), it.fs[1], it.fs[2])))
        return opt(i)

    @reg("<bitmaps::Iter<'a, SIZE> as std::iter::DoubleEndedIterator>::next_back")
    def it_back(c):
        loc, it = it_at(c)
        lo, hi = it.fs[0].l, it.fs[1].l
        i = find(c.st, bits_at(c, it.fs[2]), lo, hi, back=True)
        c.I.write(c.st, loc, VAgg(BIT, 0, (it.fs[0], VInt(lo if i is None else i), it.fs[2])))
        return opt(i)

    def mapval(c):
        v = c.args[0]
        if type(v) is VPtr:
            v = c.I.read(c.st, c.I.deref(c.st, v))
        if type(v) is not VOp or type(v.tag) is not tuple or v.tag[0] != 'map':
            raise Imprecise('map expected')
        return v.tag[1:]

    for ty in ('std::collections::BTreeMap::<K, V, A>::', 'std::collections::HashMap::<K, V, S>::',
               'std::collections::BTreeMap::<K, V>::', 'std::collections::HashMap::<K, V>::',
               'std::collections::HashMap::<K, V, S, A>::'):
        @reg(ty + 'len')
        def mlen(c):
            src, m = mapval(c)
            return VInt(L('card_' + m))

        @reg(ty + 'is_empty')
        def mempty(c):
            src, m = mapval(c)
            return VBool(('eq', L('card_' + m)))

        @reg(ty + 'get')
        def mget_(c):
            src, m = mapval(c)
            k = c.I.num(c.st, c.I.read(c.st, c.I.deref(c.st, c.args[1])))
            if mget(c.st, m, k):
                return some(VEl(('user', src), (), VInt(k), 'E', None))
            return NONE

        @reg(ty + 'contains_key')
        def mhas(c):
            src, m = mapval(c)
            k = c.I.num(c.st, c.I.read(c.st, c.I.deref(c.st, c.args[1])))
            return VBool(mget(c.st, m, k))


def bits_equal(st, a, b):
    """are two bitmaps equal?  whole unknown masks are unified when they are"""
    wa, wb = walk(st, a, ZERO, N), walk(st, b, ZERO, N)
    if len(wa) == 1 and len(wb) == 1 and wa[0][2] == '?' and wb[0][2] == '?':
        ma, mb = resolve(st, wa[0][4]), resolve(st, wb[0][4])
        if ma == mb:
            return True
        key = ('bitseq', ma, mb)
        if key in st.toks:
            return st.toks[key]
        x, y = st.clone(), st.clone()
        x.toks[key] = True
        y.toks[key] = False
        outs = [y]
        try:
            x.add('eq', wa[0][3] - wb[0][3])
            x.masks[mb] = ma
            outs.append(x)
        except Kill:
            pass
        raise Fork(outs)
    # position by position over the known segments
    i = 0
    wa, wb = list(wa), list(wb)
    while wa and wb:
        a0, b0 = wa[0], wb[0]
        if not st.dec(a0[1] - a0[0] - 1):
            wa.pop(0)
            continue
        if not st.dec(b0[1] - b0[0] - 1):
            wb.pop(0)
            continue
        e = a0[1] if st.dec(b0[1] - a0[1]) else b0[1]
        ka, kb = a0[2], b0[2]
        if ka != '?' and kb != '?':
            if ka != kb:
                return False
        elif ka == '?' and kb == '?' and a0[4] is not None and b0[4] is not None and \
                resolve(st, a0[4]) == resolve(st, b0[4]):
            pass
        else:
            raise Imprecise('comparison of bitmaps')
        wa[0] = (e,) + a0[1:]
        wb[0] = (e,) + b0[1:]
    return True


def opt_item(st, src, off):
    """the two possible outcomes of pulling an optional item: [(state, value)]"""
    m = 'm' + src
    out = []
    r = mrange(st, m, off, off + 1)
    if len(r) != 1:
        raise Imprecise('optional item')
    a, b, k, c = r[0]
    for v in ((1, 0) if k == '?' else ((1,) if k == '1' else (0,))):
        s = st.clone()
        try:
            if k == '?':
                s.add('eq', c - v)
                mset(s, m, a, b, [(a, b, str(v), None)])
        except Kill:
            continue
        if v:
            s.created = s.addiv(s.created, src, off, off + 1)
            out.append((s, some(VElem(src, off))))
        else:
            out.append((s, NONE))
    return out
