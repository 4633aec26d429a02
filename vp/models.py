"""Transfer functions for the standard library, `bitmaps`, and caller-supplied (trait) code."""
from .lin import *
from .values import *
from .tokens import known_equal, known_order
from .state import *
from .interp import Multi, UNWIND, PUSHED, Call, strip_wrappers, is_usize, FnBox

SLIT = 'slice-iter'      # VAgg(SLIT, mut, (VSl,))   remaining window of a slice iterator


def install(I):
    n = I.natives

    def reg(*names):
        def d(f):
            for x in names:
                n[x] = f
            return f
        return d

    def ureg(*names):
        def d(f):
            for x in names:
                I.unresolved[x] = f
            return f
        return d

    ident = lambda c: c.args[0]

    # ------------------------------------------------------------------ raw pointers
    CP, MP = 'std::ptr::const_ptr::<impl *const T>::', 'std::ptr::mut_ptr::<impl *mut T>::'

    @reg(CP + 'add', MP + 'add', CP + 'wrapping_add', MP + 'wrapping_add', CP + 'offset', MP + 'offset')
    def padd(c):
        p = c.args[0]
        if type(p) is VPtr:
            # element pointer arithmetic on a pointer to a whole array / single slot
            if type(c.args[1]) is VInt and c.st.eqv(c.args[1].l, ZERO):
                return p
            p = c.I.cast_ptr(c.st, p, c.targs()[0])
        return c.I.padd(c.st, p, c.args[1])

    @reg(CP + 'sub', MP + 'sub', CP + 'wrapping_sub', MP + 'wrapping_sub')
    def psub(c):
        m = VInt(-c.I.num(c.st, c.args[1]))
        return c.I.padd(c.st, c.args[0], m)

    @reg(CP + 'cast', MP + 'cast')
    def pcast(c):
        return c.I.cast_ptr(c.st, c.args[0], c.targs()[-1])

    @reg(CP + 'is_null', MP + 'is_null')
    def isnull(c):
        if type(c.args[0]) not in (VPtr, VEl):
            raise Imprecise('is_null of %s' % type(c.args[0]).__name__)
        return VBool(False)

    @reg(CP + 'as_ref', MP + 'as_ref', MP + 'as_mut')
    def pasref(c):
        if type(c.args[0]) not in (VPtr, VEl):
            raise Imprecise('as_ref of %s' % type(c.args[0]).__name__)
        return some(c.args[0])

    n[CP + 'cast_mut'] = n[MP + 'cast_const'] = ident

    @reg('std::ptr::read', CP + 'read', MP + 'read', 'intrinsic:read_via_copy', 'std::ptr::read_unaligned')
    def pread(c):
        return c.I.read(c.st, c.I.deref(c.st, c.args[0]))

    @reg('std::ptr::write', MP + 'write', 'intrinsic:write_via_move')
    def pwrite(c):
        c.I.write(c.st, c.I.deref(c.st, c.args[0]), c.args[1])
        return UNIT

    @reg(MP + 'replace', 'std::ptr::replace', 'std::mem::replace')
    def preplace(c):
        loc = c.I.deref(c.st, c.args[0])
        old = c.I.read(c.st, loc)
        c.I.write(c.st, loc, c.args[1])
        return old

    @reg('std::mem::swap', 'std::ptr::swap', MP + 'swap')
    def mswap(c):
        a, b = c.I.deref(c.st, c.args[0]), c.I.deref(c.st, c.args[1])
        x, y = c.I.read(c.st, a), c.I.read(c.st, b)
        c.I.write(c.st, a, y)
        c.I.write(c.st, b, x)
        return UNIT

    @reg('std::mem::take')
    def mtake(c):
        if not is_usize(c.targs()[0]):
            return NotImplemented
        loc = c.I.deref(c.st, c.args[0])
        old = c.I.read(c.st, loc)
        c.I.write(c.st, loc, VInt(ZERO))
        return old

    @reg('std::mem::forget')
    def mforget(c):
        v = c.args[0]
        c.st.aux['forgot'] = c.st.aux.get('forgot', ()) + (v,)
        return UNIT

    @reg('std::mem::needs_drop', 'intrinsic:needs_drop')
    def needs_drop(c):
        t = c.targs()[0]
        if t['k'] == 'other':
            return VBool(False)
        while t['k'] in ('slice', 'array') and (t.get('of') or t.get('elem') or t.get('to')):
            t = t.get('of') or t.get('elem') or t.get('to')
        if t['k'] == 'param':
            # both kinds of element are possible
            s = L('nd_' + tyname(t))
            if ('nd', s) not in c.st.sizes:
                c.st.sizes[('nd', s)] = True
                c.st.add('ge', s)
                c.st.add('ge', ONE - s)
            return VBool(('ge', s - 1))
        return VBool(True)

    @reg('std::mem::size_of', 'intrinsic:size_of', 'std::mem::align_of', 'intrinsic:align_of',
         'std::mem::min_align_of', 'intrinsic:min_align_of')
    def size_of(c):
        nm = (c.fn.get('rpath') or c.fn['path']).rsplit('::', 1)[-1]
        return VInt(sizesym(c.st, 'size' if nm.startswith('size') else 'align', c.targs()[0]))

    n['std::mem::SizedTypeProperties::SIZE'] = None
    n.pop('std::mem::SizedTypeProperties::SIZE')

    @reg('std::ptr::copy', 'intrinsic:copy', CP + 'copy_to', MP + 'copy_to')
    def pcopy(c):
        c.I.copy(c.st, c.args[0], c.args[1], c.I.num(c.st, c.args[2]), False)
        return UNIT

    @reg('std::ptr::copy_nonoverlapping', 'intrinsic:copy_nonoverlapping', CP + 'copy_to_nonoverlapping',
         MP + 'copy_to_nonoverlapping')
    def pcopyn(c):
        c.I.copy(c.st, c.args[0], c.args[1], c.I.num(c.st, c.args[2]), True)
        return UNIT

    @reg(MP + 'copy_from', MP + 'copy_from_nonoverlapping')
    def pcopyf(c):
        nm = (c.fn.get('rpath') or c.fn['path'])
        c.I.copy(c.st, c.args[1], c.args[0], c.I.num(c.st, c.args[2]), nm.endswith('nonoverlapping'))
        return UNIT

    @reg('std::ptr::drop_in_place', 'std::ptr::drop_glue', MP + 'drop_in_place')
    def drop_in_place(c):
        t = c.targs()[0]
        if t['k'] == 'other' and t.get('name') not in ('dyn',):
            return UNIT
        p = c.args[0]
        st = c.st
        if type(p) is VSl:
            r = c.I.drop_pieces(st, p)
            return c.user(UNIT) if r else UNIT
        loc = c.I.deref(st, p)
        v = c.I.read_el(st, p, 'drop') if loc[0] == 'e' and strip_wrappers(t) is t else c.I.read(st, loc)
        guards, k = [], [False]
        c.I.drop_value(st, v, p, guards, k)
        if guards:
            if len(guards) > 1:
                raise Imprecise('several destructors')
            c.I.push(st, guards[0][1], [guards[0][0]], c.dest, c.to, c.unwind)
            return PUSHED
        return c.user(UNIT) if k[0] else UNIT

    @reg('std::ptr::NonNull::<T>::dangling', 'std::ptr::dangling', 'std::ptr::dangling_mut',
         'std::ptr::without_provenance_mut', 'std::ptr::null', 'std::ptr::null_mut')
    def dangling(c):
        nm = c.fn.get('rpath') or c.fn['path']
        cell = ('dangling',)
        c.st.cells[cell] = VSto(ZERO, ((ZERO, ZERO, None),))
        v = VEl(cell, (), VInt(ZERO), 'E', 'dangling')
        return VAgg('std::ptr::NonNull', 0, (v,)) if 'NonNull' in nm else v

    @reg('std::ptr::NonNull::<T>::as_ptr')
    def nn_as_ptr(c):
        v = c.args[0]
        return v.fs[0] if type(v) is VAgg else v

    @reg('std::ptr::eq', 'std::ptr::addr_eq')
    def ptr_eq(c):
        return c.I.binop(c.st, 'Eq', c.args[0], c.args[1], None)

    # ------------------------------------------------------------------ MaybeUninit
    MU = 'std::mem::MaybeUninit::<T>::'

    @reg(MU + 'uninit', 'std::mem::MaybeUninit::<[T; N]>::uninit')
    def mu_uninit(c):
        return uninit(c.st, c.targs()[0])

    @reg(MU + 'as_ptr', MU + 'as_mut_ptr')
    def mu_ptr(c):
        return c.args[0]

    @reg(MU + 'assume_init', MU + 'new')
    def mu_init(c):
        return c.args[0]

    @reg(MU + 'assume_init_ref', MU + 'assume_init_mut')
    def mu_ref(c):
        return c.args[0]

    @reg(MU + 'assume_init_read')
    def mu_read(c):
        return c.I.read(c.st, c.I.deref(c.st, c.args[0]))

    @reg(MU + 'assume_init_drop')
    def mu_drop(c):
        return drop_in_place(c)

    @reg(MU + 'write')
    def mu_write(c):
        c.I.write(c.st, c.I.deref(c.st, c.args[0]), c.args[1])
        return c.args[0]

    MD = 'std::mem::ManuallyDrop::<T>::'

    @reg(MD + 'new')
    def md_new(c):
        return VAgg('std::mem::ManuallyDrop', 0, (c.args[0],))

    @reg(MD + 'into_inner')
    def md_inner(c):
        return c.args[0].fs[0] if type(c.args[0]) is VAgg else c.args[0]

    @reg('<std::mem::ManuallyDrop<T> as std::ops::Deref>::deref',
         '<std::mem::ManuallyDrop<T> as std::ops::DerefMut>::deref_mut')
    def md_deref(c):
        p = c.args[0]
        if type(p) is VPtr:
            return VPtr(p.cell, p.path + (0,))
        raise Imprecise('ManuallyDrop deref')

    @reg(MD + 'drop')
    def md_drop(c):
        p = c.args[0]
        c.args = [VPtr(p.cell, p.path + (0,))]
        return drop_in_place(c)

    @reg(MD + 'take')
    def md_take(c):
        p = c.args[0]
        return c.st.get(p.cell, p.path + (0,))

    # ------------------------------------------------------------------ slices
    SL = 'core::slice::<impl [T]>::'

    def asl(c, v):
        if type(v) is VSl:
            return v
        if type(v) is VPtr:
            s = c.I.as_slice(c.st, ('c', v.cell, v.path))
            if s is not None:
                return s
        raise Imprecise('slice expected, got %s' % type(v).__name__)

    @reg('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'std::ptr::slice_from_raw_parts',
         'std::ptr::slice_from_raw_parts_mut')
    def raw_parts(c):
        p = c.args[0]
        if type(p) is VPtr:
            p = c.I.cast_ptr(c.st, p, c.targs()[0])
        if type(p) is not VEl:
            raise Imprecise('from_raw_parts of %s' % type(p).__name__)
        ln = c.I.num(c.st, c.args[1])
        if type(p.pos) is VMod and not c.st.eqv(ln, ONE):
            p = p._replace(pos=VInt(c.st.reduce_mod(p.pos)))
        return VSl(p, ln)

    @reg(SL + 'len')
    def sl_len(c):
        return VInt(asl(c, c.args[0]).len)

    @reg(SL + 'is_empty')
    def sl_empty(c):
        return VBool(('eq', asl(c, c.args[0]).len))

    @reg(SL + 'as_ptr', SL + 'as_mut_ptr')
    def sl_ptr(c):
        return asl(c, c.args[0]).p

    @reg(SL + 'iter', SL + 'iter_mut', "<&'a [T] as std::iter::IntoIterator>::into_iter",
         "<&'a mut [T] as std::iter::IntoIterator>::into_iter",
         'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
         'core::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter')
    def sl_iter(c):
        nm = c.fn.get('rpath') or c.fn['path']
        return VAgg(SLIT, 1 if 'mut' in nm else 0, (asl(c, c.args[0]),))

    def sl_index(c, s, ix, checked):
        """element pointer / subslice, or None when out of bounds"""
        st = c.st
        if type(ix) in (VInt, VMod):
            i = c.I.num(st, ix)
            if not st.dec(s.len - i - 1):
                return None
            return c.I.padd(st, s.p, i)
        if type(ix) is VAgg:
            k = ix.path.rsplit('::', 1)[-1]
            if k == 'RangeFull':
                return s
            a, b = ZERO, s.len
            if k == 'Range':
                a, b = c.I.num(st, ix.fs[0]), c.I.num(st, ix.fs[1])
            elif k == 'RangeTo':
                b = c.I.num(st, ix.fs[0])
            elif k == 'RangeFrom':
                a = c.I.num(st, ix.fs[0])
            elif k == 'RangeToInclusive':
                b = c.I.num(st, ix.fs[0]) + 1
            elif k == 'RangeInclusive':
                a, b = c.I.num(st, ix.fs[0]), c.I.num(st, ix.fs[1]) + 1
            else:
                raise Imprecise('slice index ' + k)
            if not st.dec(s.len - b) or not st.dec(b - a):
                return None
            return VSl(c.I.padd(st, s.p, a), b - a)
        raise Imprecise('slice index')

    def panic(c, why):
        st = c.st
        s2 = st
        r = c.I.panic(s2, c.unwind, why)
        raise Multi([(s2, [r])])

    @reg('core::slice::index::<impl std::ops::Index<I> for [T]>::index',
         'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')
    def slice_index(c):
        s = asl(c, c.args[0])
        ix = c.args[1]
        if type(ix) is VOp:
            # caller-supplied SliceIndex: delegates to the slice
            return VOp(('index', s, ix.tag))
        r = sl_index(c, s, ix, True)
        if r is None:
            panic(c, 'slice index out of bounds')
        return r

    @ureg('std::slice::SliceIndex::index', 'std::slice::SliceIndex::index_mut')
    def uslice_index(c):
        return VOp(('index', asl(c, c.args[1]), c.args[0]))

    @reg(SL + 'get', SL + 'get_mut')
    def sl_get(c):
        r = sl_index(c, asl(c, c.args[0]), c.args[1], True)
        return NONE if r is None else some(r)

    @reg(SL + 'get_unchecked', SL + 'get_unchecked_mut')
    def sl_getu(c):
        s = asl(c, c.args[0])
        r = sl_index(c, s, c.args[1], False)
        if r is None:
            if type(c.args[1]) in (VInt, VMod):
                return c.I.padd(c.st, s.p, c.I.num(c.st, c.args[1]))
            raise Imprecise('get_unchecked range')
        return r

    @reg(SL + 'first', SL + 'last', SL + 'first_mut', SL + 'last_mut')
    def sl_first(c):
        s = asl(c, c.args[0])
        if not c.st.dec(s.len - 1):
            return NONE
        nm = c.fn.get('rpath') or c.fn['path']
        return some(c.I.padd(c.st, s.p, ZERO if 'first' in nm else s.len - 1))

    @reg(SL + 'split_at', SL + 'split_at_mut')
    def sl_split(c):
        s = asl(c, c.args[0])
        i = c.I.num(c.st, c.args[1])
        if not c.st.dec(s.len - i):
            panic(c, 'split_at')
        return VAgg('tuple', 0, (VSl(s.p, i), VSl(c.I.padd(c.st, s.p, i), s.len - i)))

    @reg(SL + 'copy_from_slice', SL + 'clone_from_slice')
    def sl_copyfrom(c):
        d, s = asl(c, c.args[0]), asl(c, c.args[1])
        if not c.st.dec_eq(d.len - s.len):
            panic(c, 'copy_from_slice')
        c.I.copy(c.st, s.p, d.p, d.len, True)
        return UNIT

    @reg(SL + 'swap')
    def sl_swap(c):
        s = asl(c, c.args[0])
        a = sl_index(c, s, c.args[1], True)
        b = sl_index(c, s, c.args[2], True)
        if a is None or b is None:
            panic(c, 'swap')
        x, y = c.I.read_el(c.st, a), c.I.read_el(c.st, b)
        c.I.write_el(c.st, a, y)
        c.I.write_el(c.st, b, x)
        return UNIT

    @reg(SL + 'rotate_left', SL + 'rotate_right')
    def sl_rotate(c):
        s = asl(c, c.args[0])
        k = c.I.num(c.st, c.args[1])
        if not c.st.dec(s.len - k):
            panic(c, 'rotate')
        if (c.fn.get('rpath') or '').endswith('right'):
            k = s.len - k
        st = c.st
        a = c.I.sl_pieces(st, VSl(s.p, k), 'read', True)
        b = c.I.sl_pieces(st, VSl(c.I.padd(st, s.p, k), s.len - k), 'read', True)
        c.I.work(st, s.len, 'rotates')
        if st.dec(s.len - 1):
            sto, pos = c.I.chk(st, s.p, s.len, 'write')
            c.I.setsto(st, s.p, st.write_range(sto, pos, b + a))
        return UNIT

    @reg(SL + 'binary_search')
    def sl_bsearch(c):
        s = asl(c, c.args[0])
        pieces = c.I.sl_pieces(c.st, s)
        return binsearch(c, s.len)

    # slice comparison
    @reg('core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq',
         'core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::ne',
         'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq',
         'std::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::eq')
    def sl_eq(c):
        c.I.work(c.st, asl(c, c.args[0]).len, 'compares')
        a = c.I.sl_pieces(c.st, asl(c, c.args[0]), 'compare')
        b = c.I.sl_pieces(c.st, asl(c, c.args[1]), 'compare')
        nm = c.fn.get('rpath') or c.fn['path']
        return c.user(eqval(c, a, b, nm.endswith('ne')))

    @reg('core::slice::cmp::<impl std::cmp::Ord for [T]>::cmp',
         'core::slice::cmp::<impl std::cmp::PartialOrd for [T]>::partial_cmp')
    def sl_cmp(c):
        c.I.work(c.st, asl(c, c.args[0]).len, 'compares')
        a = c.I.sl_pieces(c.st, asl(c, c.args[0]), 'compare')
        b = c.I.sl_pieces(c.st, asl(c, c.args[1]), 'compare')
        nm = c.fn.get('rpath') or c.fn['path']
        return c.user(ordval(order(c, a, b, 'partial' in nm), 'partial' in nm))

    @reg('core::slice::<impl std::hash::Hash for [T]>::hash', 'std::hash::impls::<impl std::hash::Hash for [T]>::hash',
         'core::hash::impls::<impl std::hash::Hash for [T]>::hash')
    def sl_hash(c):
        s = asl(c, c.args[0])
        c.I.work(c.st, s.len, 'hashes')
        r = c.I.sl_pieces(c.st, s, 'hash')
        c.st.log = c.st.log + (('len', s.len),) + tuple(('run', k, x) for k, x in r)
        return c.user(UNIT)

    # ------------------------------------------------------------------ iterators over slices
    def place_of(c):
        return c.I.deref(c.st, c.args[0])

    @reg("<std::slice::Iter<'a, T> as std::iter::Iterator>::next",
         "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
    def slit_next(c):
        loc = place_of(c)
        v = c.I.read(c.st, loc)
        s = v.fs[0]
        if not c.st.dec(s.len - 1):
            return NONE
        c.I.write(c.st, loc, VAgg(SLIT, v.v, (VSl(c.I.padd(c.st, s.p, ONE), s.len - 1),)))
        return some(s.p)

    @reg("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back",
         "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")
    def slit_back(c):
        loc = place_of(c)
        v = c.I.read(c.st, loc)
        s = v.fs[0]
        if not c.st.dec(s.len - 1):
            return NONE
        c.I.write(c.st, loc, VAgg(SLIT, v.v, (VSl(s.p, s.len - 1),)))
        return some(c.I.padd(c.st, s.p, s.len - 1))

    @reg("<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len",
         "<std::slice::IterMut<'a, T> as std::iter::ExactSizeIterator>::len")
    def slit_len(c):
        return VInt(c.I.read(c.st, place_of(c)).fs[0].len)

    @reg("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint",
         "<std::slice::IterMut<'a, T> as std::iter::Iterator>::size_hint")
    def slit_hint(c):
        l = VInt(c.I.read(c.st, place_of(c)).fs[0].len)
        return VAgg('tuple', 0, (l, some(l)))

    @reg("std::slice::Iter::<'a, T>::as_slice", "std::slice::IterMut::<'a, T>::into_slice")
    def slit_slice(c):
        v = c.args[0]
        if type(v) is not VAgg:
            v = c.I.read(c.st, place_of(c))
        return v.fs[0]

    # ------------------------------------------------------------------ ranges
    @reg('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
    def range_next(c):
        loc = place_of(c)
        v = c.I.read(c.st, loc)
        a, b = c.I.num(c.st, v.fs[0]), c.I.num(c.st, v.fs[1])
        if not c.st.dec(b - a - 1):
            return NONE
        c.I.write(c.st, loc, VAgg(v.path, v.v, (VInt(a + 1), v.fs[1])))
        return some(VInt(a))

    @reg('std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back')
    def range_back(c):
        loc = place_of(c)
        v = c.I.read(c.st, loc)
        a, b = c.I.num(c.st, v.fs[0]), c.I.num(c.st, v.fs[1])
        if not c.st.dec(b - a - 1):
            return NONE
        c.I.write(c.st, loc, VAgg(v.path, v.v, (v.fs[0], VInt(b - 1))))
        return some(VInt(b - 1))

    @reg('std::cmp::impls::<impl std::cmp::Ord for usize>::min', 'std::cmp::min', 'std::cmp::Ord::min',
         'intrinsic:integer_min')
    def omin(c):
        if type(c.args[0]) not in (VInt, VMod):
            return NotImplemented
        a, b = c.I.num(c.st, c.args[0]), c.I.num(c.st, c.args[1])
        return VInt(a if c.st.dec(b - a) else b)

    @reg('std::cmp::impls::<impl std::cmp::Ord for usize>::max', 'std::cmp::max', 'std::cmp::Ord::max',
         'intrinsic:integer_max')
    def omax(c):
        if type(c.args[0]) not in (VInt, VMod):
            return NotImplemented
        a, b = c.I.num(c.st, c.args[0]), c.I.num(c.st, c.args[1])
        return VInt(a if c.st.dec(a - b) else b)

    @reg('std::cmp::impls::<impl std::cmp::Ord for usize>::cmp', 'std::cmp::impls::<impl std::cmp::PartialOrd for usize>::partial_cmp')
    def ocmp(c):
        a = c.I.num(c.st, c.I.read(c.st, c.I.deref(c.st, c.args[0])))
        b = c.I.num(c.st, c.I.read(c.st, c.I.deref(c.st, c.args[1])))
        v = 1 if c.st.dec_eq(a - b) else (0 if c.st.dec(b - a - 1) else 2)
        r = VAgg('std::cmp::Ordering', v, ())
        return some(r) if (c.fn.get('rpath') or '').endswith('partial_cmp') else r

    NU = 'core::num::<impl usize>::'

    def numfn(name):
        def d(f):
            n[NU + name] = lambda c: f(c, *[c.I.num(c.st, x) for x in c.args])
            return f
        return d

    @numfn('checked_add')
    def _(c, a, b):
        return some(VInt(a + b)) if c.st.dec(L(MAX) - a - b) else NONE

    @numfn('is_power_of_two')
    def _(c, a):
        a = c.st.facts.norm(a)
        if a.is_const():
            return VBool(a.c > 0 and a.c & (a.c - 1) == 0)
        if not c.st.eqv(a, N):
            raise Imprecise('is_power_of_two of other than the capacity')
        return VBool(c.I.pow2(c.st))

    @numfn('checked_sub')
    def _(c, a, b):
        return some(VInt(a - b)) if c.st.dec(a - b) else NONE

    @numfn('checked_mul')
    def _(c, a, b):
        p = c.I.mul(c.st, a, b)
        return some(VInt(p)) if c.st.dec(L(MAX) - p) else NONE

    @numfn('saturating_add')
    def _(c, a, b):
        return VInt(a + b) if c.st.dec(L(MAX) - a - b) else VInt(L(MAX))

    @numfn('saturating_sub')
    def _(c, a, b):
        return VInt(a - b) if c.st.dec(a - b) else VInt(ZERO)

    @numfn('wrapping_add')
    def _(c, a, b):
        return VInt(c.I.wrapped(c.st, a + b))

    @numfn('wrapping_sub')
    def _(c, a, b):
        return VInt(c.I.wrapped(c.st, a - b))

    @numfn('overflowing_add')
    def _(c, a, b):
        o = not c.st.dec(L(MAX) - a - b)
        return VAgg('tuple', 0, (VInt(c.I.wrapped(c.st, a + b)), VBool(o)))

    @numfn('overflowing_sub')
    def _(c, a, b):
        o = not c.st.dec(a - b)
        return VAgg('tuple', 0, (VInt(c.I.wrapped(c.st, a - b)), VBool(o)))

    @numfn('abs_diff')
    def _(c, a, b):
        return VInt(a - b) if c.st.dec(a - b) else VInt(b - a)

    @numfn('rem_euclid')
    def _(c, a, b):
        return c.I.divrem(c.st, 'Rem', a, b)

    n['core::num::<impl usize>::unchecked_add::precondition_check'] = lambda c: UNIT
    n['core::num::<impl usize>::unchecked_sub::precondition_check'] = lambda c: UNIT
    n['intrinsic:cold_path'] = lambda c: UNIT
    n['intrinsic:assert_inhabited'] = lambda c: UNIT

    @reg('intrinsic:select_unpredictable')
    def selu(c):
        return c.args[1] if c.st.decide(c.args[0].c) else c.args[2]

    # ------------------------------------------------------------------ whole-sequence iterator consumers
    @reg('std::iter::Iterator::eq', 'std::iter::Iterator::ne')
    def it_eq(c):
        a, b = iter_seq(c, c.args[0]), iter_seq(c, c.args[1])
        if a is None or b is None:
            return NotImplemented
        nm = c.fn.get('rpath') or c.fn['path']
        return c.user(eqval(c, a, b, nm.endswith('ne')))

    @reg('std::iter::Iterator::cmp', 'std::iter::Iterator::partial_cmp', 'std::iter::Iterator::lt',
         'std::iter::Iterator::le', 'std::iter::Iterator::gt', 'std::iter::Iterator::ge')
    def it_cmp(c):
        a, b = iter_seq(c, c.args[0]), iter_seq(c, c.args[1])
        if a is None or b is None:
            return NotImplemented
        nm = (c.fn.get('rpath') or c.fn['path']).rsplit('::', 1)[-1]
        return c.user(ordres(nm, order(c, a, b, nm != 'cmp')))

    # ------------------------------------------------------------------ formatting, panics
    for x in ("std::fmt::Arguments::<'a>::", "std::fmt::Arguments::<'_>::"):
        n[x + 'from_str'] = n[x + 'new_const'] = lambda c: VOp(('fmtargs', None))
        n[x + 'new'] = n[x + 'new_v1'] = n[x + 'new_v1_formatted'] = lambda c: VOp(('fmtargs', c.args[-1]))
    for x in ('new_display', 'new_debug'):
        n["core::fmt::rt::Argument::<'_>::" + x] = lambda c: VOp(('fmtarg', c.args[0]))
    n['std::any::type_name'] = lambda c: VOp('type_name')

    @reg('core::str::<impl str>::len')
    def strlen(c):
        if type(c.args[0]) is not VOp or c.args[0].tag != 'type_name':
            raise Imprecise('length of a string')
        l = L('length of the type\'s name')
        c.st.add('ge', l - 1)
        return VInt(l)

    # whether the thread is unwinding: it is while this library's own callees unwind, and may be on entry
    @reg('std::rt::panic_count::count_is_zero', 'std::panicking::panicking', 'std::thread::panicking',
         'std::panicking::panic_count::count_is_zero')
    def quiet(c):
        zero = c.fn['path'].endswith('count_is_zero')
        if c.st.unw is not None:
            return VBool(not zero)
        return VBool(('ntok' if zero else 'tok', ('unwinding on entry',)))

    # what other calls and threads left in a static: anything
    def atomic(c):
        if type(c.args[0]) in (VPtr, VEl):
            raise Imprecise('atomic access')
        if c.fn['path'].startswith('std::intrinsics::atomic_store'):
            return UNIT
        l = L(c.st.fresh('static'))
        c.st.add('ge', l)
        return VInt(l)
    for x in ('load', 'store', 'xchg', 'xadd', 'xsub', 'and', 'or', 'xor', 'umax', 'umin'):
        n['std::intrinsics::atomic_' + x] = atomic

    # the formatter is the caller's: writing may fail or unwind.  What is shown is logged: ('len', n) for an index,
    # ('run', 1, element) for an element
    RESULT = 'std::result::Result'

    def fallible(c):
        st = c.st
        e = st.clone()
        e.aux['fmterr'] = True
        o = [(st, VAgg(RESULT, 0, (UNIT,))), (e, VAgg(RESULT, 1, (VAgg('std::fmt::Error', 0, ()),)))]
        if st.unw is None:
            o.append((st.clone(), UNWIND))
        raise Multi(o)

    def show(c, p):
        def dyn(p):
            return p.tag[1] if type(p) is VOp and type(p.tag) is tuple and p.tag[0] == 'unsize' else p
        v = val_at(c, dyn(p))
        for _ in range(4):
            if type(v) in (VPtr, VEl):
                v = val_at(c, v)
        st = c.st
        if type(v) is VElem:
            st.log = log_add(st, st.log, ('run', ONE, ('E', v.src, v.off, None)))
        elif type(v) is VInt:
            st.log = st.log + (('len', v.l),)
        else:
            raise Imprecise('formatting of %s' % type(v).__name__)

    FM = "std::fmt::Formatter::<'a>::"

    @reg(FM + 'write_str', '<std::fmt::Formatter<\'_> as std::fmt::Write>::write_str', FM + 'pad',
         '<std::fmt::Formatter<\'_> as std::fmt::Write>::write_char', FM + 'write_char', FM + 'pad_integral')
    def fwrite(c):
        fallible(c)

    @reg(FM + 'write_fmt', '<std::fmt::Formatter<\'_> as std::fmt::Write>::write_fmt')
    def fwritefmt(c):
        a = c.args[1]
        if type(a) is not VOp or type(a.tag) is not tuple or a.tag[0] != 'fmtargs':
            raise Imprecise('formatted text')
        if a.tag[1] is not None:
            p = a.tag[1]
            if type(p) is VOp and type(p.tag) is tuple and p.tag[0] == 'unsize':
                p = p.tag[1]
            v = val_at(c, p)
            if type(v) is not VAgg or len(v.fs) != 1 or type(v.fs[0]) is not VOp:
                raise Imprecise('formatted text')
            show(c, v.fs[0].tag[1])
        fallible(c)

    @reg(FM + 'alternate', FM + 'sign_plus', FM + 'sign_minus', FM + 'sign_aware_zero_pad')
    def falt(c):
        return VBool(('tok', ('fmtflag', c.fn['path'])))

    # what the caller asked for in the format string: absent, or any number
    @reg(FM + 'precision', FM + 'width')
    def fopt(c):
        w = c.fn['path'].rsplit('::', 1)[1]
        if not c.st.decide(('tok', ('fmtflag', w))):
            return NONE
        c.st.add('ge', L('fmt_' + w))
        return some(VInt(L('fmt_' + w)))

    @reg(FM + 'debug_list', FM + 'debug_set', FM + 'debug_map', FM + 'debug_tuple', FM + 'debug_struct')
    def flist(c):
        return VOp(('shower',))

    for x, k in (('DebugList', 1), ('DebugSet', 1), ('DebugTuple', 1), ('DebugMap', 2), ('DebugStruct', 2)):
        for p in ("std::fmt::%s::<'_, '_>::", "std::fmt::%s::<'a, 'b>::", "std::fmt::builders::%s::<'a, 'b>::"):
            p = p % x

            def entry(c, k=k, x=x):
                if k == 2 and x == 'DebugMap':
                    show(c, c.args[1])
                show(c, c.args[k])
                return c.user(c.args[0])
            n[p + 'entry'] = n[p + 'field'] = entry
            n[p + 'key'] = n[p + 'value'] = lambda c: (show(c, c.args[1]), c.user(c.args[0]))[1]
            n[p + 'finish'] = fallible

    @reg('<[T] as std::fmt::Debug>::fmt', 'core::slice::<impl std::fmt::Debug for [T]>::fmt',
         'std::slice::<impl std::fmt::Debug for [T]>::fmt')
    def sl_fmt(c):
        r = c.I.sl_pieces(c.st, asl(c, c.args[0]), 'format')
        for k, x in r:
            c.st.log = log_add(c.st, c.st.log, ('run', k, x))
        fallible(c)

    @ureg('std::fmt::Debug::fmt')
    def ufmt(c):
        show(c, c.args[0])
        fallible(c)

    for x in ('<std::io::Error as std::convert::From<std::io::ErrorKind>>::from', 'std::io::Error::other',
              'alloc::io::error::<impl std::io::Error>::new', 'std::io::Error::new',
              'alloc::io::error::<impl std::io::Error>::other',
              '<std::io::ErrorKind as std::convert::Into<std::io::Error>>::into'):
        n[x] = lambda c: VOp(('ioerror',))

    # ------------------------------------------------------------------ closures
    def call_closure(c):
        p = c.fn['path']
        if not (p.startswith('std::ops::Fn') or p.startswith('core::ops::Fn')):
            return NotImplemented
        f = c.args[0]
        st = c.st
        fv = f
        if type(f) in (VPtr,):
            fv = c.I.read(st, c.I.deref(st, f))
        if type(fv) is VFn:
            a = list(c.args[1].fs)
            r = c.I.invoke(st, fv.info.d, a, c.dest, c.to, c.unwind)
            raise Multi([(st, r if type(r) is list else [r] if r is not None else [])])
        if fv == VOp(('userfn',)):
            # the caller's closure: takes what it is given by value, looks at what it is given by reference
            for x in c.args[1].fs:
                if type(x) is VElem:
                    st.log = log_add(st, st.log, ('run', ONE, ('E', x.src, x.off, None)))
                    st.drops = st.addiv(st.drops, x.src, x.off, x.off + 1)
                elif type(x) in (VPtr, VEl):
                    show(c, x)
                elif type(x) is not VOp:
                    raise Imprecise('argument of the closure')
            return c.user(VOp(('userres',)))
        if type(fv) is VOp and type(fv.tag) is tuple and fv.tag[0] == 'fndef':
            raise Imprecise('function item call')
        if type(fv) is not VAgg or not fv.path.startswith('closure:'):
            raise Imprecise('call of unknown closure')
        body = c.I.prog.bodies.get(fv.path[8:])
        if body is None:
            raise Imprecise('closure body missing')
        env = f
        t0 = body.locals[1]
        if t0['k'] == 'ref' and type(f) is VAgg:
            cell = ('tmp', c.I.newfid(st))
            st.cells[cell] = fv
            env = VPtr(cell, ())
        elif t0['k'] != 'ref' and type(f) is VPtr:
            env = fv
        args = [env] + list(c.args[1].fs)
        c.I.push(st, body, args, c.dest, c.to, c.unwind)
        return PUSHED
    for x in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call', 'shim'):
        n[x] = call_closure

    @reg('arbitrary::size_hint::recursion_guard')
    def guard(c):
        if c.st.decide(('tok', ('deep', c.st.facts.norm(c.I.num(c.st, c.args[0]))))):
            return VAgg('tuple', 0, (VInt(ZERO), NONE))
        c.fn = dict(c.fn, path='std::ops::FnOnce::call_once')
        d = L(c.st.fresh('depth'))
        c.st.add('ge', d)
        c.st.add('ge', L(MAX) - d)
        c.args = [c.args[1], VAgg('tuple', 0, (VInt(d),))]
        return call_closure(c)

    # ------------------------------------------------------------------ bitmaps
    from . import sparse
    sparse.install(I, reg, ureg)

    # ------------------------------------------------------------------ caller-supplied code
    @ureg('std::clone::Clone::clone')
    def uclone(c):
        v = val_at(c, c.args[0])
        if type(v) is VElem:
            src = 'clone:' + v.src
            cl = VElem(src, v.off)
            st = c.st
            s2 = st.clone()
            st.created = st.addiv(st.created, src, v.off, v.off + 1)
            if st.unw is not None:
                return cl
            raise Multi([(st, cl), (s2, UNWIND)])
        if type(v) is VOp:
            return c.user(VOp(('clone', v)))
        raise Imprecise('clone of %s' % type(v).__name__)

    @ureg('std::clone::Clone::clone_from')
    def uclonefrom(c):
        v = val_at(c, c.args[1])
        old = val_at(c, c.args[0])
        if type(v) is not VElem or type(old) is not VElem:
            raise Imprecise('clone of %s' % type(v).__name__)
        st = c.st
        s2 = st.clone()
        src = 'clone:' + v.src
        st.created = st.addiv(st.created, src, v.off, v.off + 1)
        st.drops = st.addiv(st.drops, old.src, old.off, old.off + 1)
        c.I.write(st, c.I.deref(st, c.args[0]), VElem(src, v.off))
        if st.unw is not None:
            return UNIT
        raise Multi([(st, UNIT), (s2, UNWIND)])

    def val_at(c, p):
        if type(p) is VEl:
            return c.I.read_el(c.st, p, 'expose')
        if type(p) in (VPtr,):
            return c.I.read(c.st, c.I.deref(c.st, p))
        if type(p) is VOp:
            return VOp(('deref', p))
        if type(p) is VElem:
            return VOp(('deref', p))
        raise Imprecise('value behind %s' % type(p).__name__)
    I.val_at = val_at

    @ureg('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
    def ueq(c):
        a, b = val_at(c, c.args[0]), val_at(c, c.args[1])
        return c.user(VBool(('tok' if c.fn['path'].endswith('eq') else 'ntok', ('eq', a, b))))

    @ureg('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp', 'std::cmp::PartialOrd::lt',
          'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
    def ucmp(c):
        a, b = val_at(c, c.args[0]), val_at(c, c.args[1])
        nm = c.fn['path'].rsplit('::', 1)[-1]
        if type(a) is not VElem or type(b) is not VElem:
            raise Imprecise('ordering of %s' % type(a).__name__)
        return c.user(ordres(nm, order(c, [(ONE, ('E', a.src, a.off, None))], [(ONE, ('E', b.src, b.off, None))], nm != 'cmp')))

    @ureg('std::hash::Hash::hash')
    def uhash(c):
        v = val_at(c, c.args[0])
        if type(v) is VElem:
            c.st.log = log_add(c.st, c.st.log, ('run', ONE, ('E', v.src, v.off, None)))
            return c.user(UNIT)
        raise Imprecise('hash of %s' % type(v).__name__)

    @reg('std::hash::impls::<impl std::hash::Hash for usize>::hash', 'core::hash::impls::<impl std::hash::Hash for usize>::hash')
    def hash_usize(c):
        v = val_at(c, c.args[0])
        c.st.log = c.st.log + (('len', c.I.num(c.st, v)),)
        return UNIT

    @ureg('std::hash::Hasher::write_usize', 'std::hash::Hasher::write_length_prefix')
    def write_usize(c):
        c.st.log = c.st.log + (('len', c.I.num(c.st, c.args[1])),)
        return UNIT
    n['std::hash::Hasher::write_length_prefix'] = write_usize

    # caller's iterators
    @ureg('std::iter::IntoIterator::into_iter')
    def uinto(c):
        v = c.args[0]
        if type(v) is VIter:
            return c.user(v)
        if type(v) is VSl:
            return VAgg(SLIT, 0, (v,))
        raise Imprecise('into_iter of %s' % type(v).__name__)

    @reg('<I as std::iter::IntoIterator>::into_iter')
    def idinto(c):
        return c.args[0]

    def iter_at(c):
        v = c.args[0]
        for _ in range(4):
            if type(v) in (VPtr,):
                v = c.I.read(c.st, c.I.deref(c.st, v))
        if type(v) is not VIter:
            raise Imprecise('caller iterator expected, got %s' % type(v).__name__)
        return v.id

    @ureg('std::iter::Iterator::next')
    def unext(c):
        i = iter_at(c)
        st = c.st
        d = st.iters[i]        # (kind, src, total, taken, ended)
        kind, src, total, taken, ended = d
        outs = []
        if st.unw is None:
            s3 = st.clone()
            outs.append((s3, UNWIND))
        if not ended:
            try:
                s1 = st.clone()
                s1.add('ge', total - taken - 1)
                s1.iters[i] = (kind, src, total, taken + 1, False)
                if kind in ('res', 'resopt'):
                    # an element built from the input, or the failure to build one
                    e = st.clone()
                    e.aux['arberr'] = True
                    outs.append((e, some(VAgg(RESULT, 1, (VOp('error'),)))))
                if kind in ('opt', 'resopt'):
                    from .sparse import opt_item
                    outs.extend((s, some(v if kind == 'opt' else VAgg(RESULT, 0, (v,))))
                                for s, v in opt_item(s1, src, taken))
                else:
                    v = item(s1, kind, src, taken)
                    outs.append((s1, some(v)))
            except Kill:
                pass
        try:
            s2 = st.clone()
            if not ended:
                s2.add('eq', total - taken)
            s2.iters[i] = (kind, src, total, taken, True)
            outs.append((s2, NONE))
        except Kill:
            pass
        raise Multi(outs)

    def item(st, kind, src, off):
        if kind == 'res':
            return VAgg(RESULT, 0, (item(st, 'own', src, off),))
        if kind == 'own':
            st.created = st.addiv(st.created, src, off, off + 1)
            return VElem(src, off)
        if kind == 'ref':
            # a shared reference to an element owned elsewhere
            return VEl(('user', src), (), VInt(off), 'E', None)
        raise Imprecise('iterator kind')

    @ureg('std::iter::ExactSizeIterator::len')
    def ulen(c):
        i = iter_at(c)
        st = c.st
        kind, src, total, taken, ended = st.iters[i]
        if st.aux.get('honest'):
            return c.user(VInt(total - taken))
        k = L(st.fresh('reported'))
        st.add('ge', k)
        st.add('ge', L(MAX) - k)
        st.lens = st.lens + ((i, k, total - taken),)
        return c.user(VInt(k))

    @ureg('std::iter::Iterator::size_hint')
    def uhint(c):
        i = iter_at(c)
        st = c.st
        a, b = L(st.fresh('hint')), L(st.fresh('hint'))
        for k in (a, b):
            st.add('ge', k)
            st.add('ge', L(MAX) - k)
        return c.user(VAgg('tuple', 0, (VInt(a), some(VInt(b)))))

    # elements built from unstructured input: any number of them, and building one may fail or unwind
    AU = "arbitrary::Unstructured::<'a>::"

    @reg(AU + 'arbitrary_iter', AU + 'arbitrary_take_rest_iter')
    def arbiter(c):
        st = c.st
        e = st.clone()
        e.aux['arberr'] = True
        i = st.fresh('arb')
        src, T = 'e' + i, L('T' + i)
        st.add('ge', T)
        st.add('ge', L(MAX) - T)
        o = strip_wrappers(c.targs()[0]) if c.targs() else None
        if o is None or not (o['k'] == 'param' and o['name'] == 'A' or o.get('path') == OPTION):
            raise Imprecise('elements of type %s' % tyname(o))
        opt = o.get('path') == OPTION
        if opt:
            from . import sparse
            sparse.new_mask(st, 'm' + src, T)
        st.iters[i] = ('resopt' if opt else 'res', src, T, ZERO, False)
        raise Multi([(st, VAgg(RESULT, 0, (VIter(i),))), (e, VAgg(RESULT, 1, (VOp('error'),)))])

    AI = "<arbitrary::unstructured::Arbitrary%sIter<'a, %sElementType> as std::iter::Iterator>::next"
    n[AI % ('', "'_, ")] = n[AI % ('', "'b, ")] = n[AI % ('TakeRest', '')] = unext

    @ureg('arbitrary::Arbitrary::size_hint')
    def arbhint(c):
        st = c.st
        lo, hi = L('hintlo'), L('hinthi')
        for k in (lo, hi):
            st.add('ge', k)
            st.add('ge', L(MAX) - k)
        s = st.clone()
        st.aux['hint'] = True
        s.aux['hint'] = False
        o = [(st, VAgg('tuple', 0, (VInt(lo), some(VInt(hi))))), (s, VAgg('tuple', 0, (VInt(lo), NONE)))]
        if st.unw is None:
            o.append((s.clone(), UNWIND))
        raise Multi(o)

    TAKE, SKIP, ENUM = 'std::iter::Take', 'std::iter::Skip', 'std::iter::Enumerate'

    @ureg('std::iter::Iterator::take')
    def utake(c):
        return struct(c.I, TAKE, {'iter': c.args[0], 'n': c.args[1]})

    @ureg('std::iter::Iterator::skip')
    def uskip(c):
        return struct(c.I, SKIP, {'iter': c.args[0], 'n': c.args[1]})

    @ureg('std::iter::Iterator::enumerate')
    def uenum(c):
        return struct(c.I, ENUM, {'iter': c.args[0], 'count': VInt(ZERO)})

    def zipnew(c):
        return struct(c.I, 'std::iter::Zip', {'a': c.args[0], 'b': c.args[1], 'index': VInt(ZERO), 'len': VInt(ZERO)})
    n['std::iter::adapters::zip::ZipImpl::new'] = zipnew

    @ureg('std::iter::Iterator::by_ref')
    def ubyref(c):
        return c.args[0]

    def struct(I, path, kv):
        a = I.prog.adts.get(path)
        if a is None:
            raise Imprecise('no layout for ' + path)
        return VAgg(path, 0, tuple(kv.get(f['name'], VJunk) for f in a['variants'][0]['fields']))

    @ureg('std::borrow::Borrow::borrow')
    def uborrow(c):
        v = c.args[0]
        x = c.I.read(c.st, c.I.deref(c.st, v)) if type(v) is VPtr else v
        if type(x) is VOp and x.tag and x.tag[0] == 'userslice' and x.tag[1] is None:
            # all of the elements of the first argument
            v = c.st.cells[('in', 0)]
            for r in c.I.prog.roots:
                if r['name'] == 'deref' and r.get('trait') == 'std::ops::Deref' and 'inputs' in r and \
                        (r['inputs'][0].get('to') or {}).get('path') == v.path:
                    c.I.push(c.st, c.I.prog.bodies[r['key']], [VPtr(('in', 0), ())], c.dest, c.to, c.unwind)
                    return PUSHED
            raise Imprecise('borrow')
        if type(x) is VOp and x.tag and x.tag[0] == 'userslice':
            cell = ('user', x.tag[1])
            n_ = L('len_' + x.tag[1])
            if cell not in c.st.cells:
                c.st.cells[cell] = VSto(n_, ((ZERO, n_, ('E', x.tag[1], ZERO, None)),))
            return c.user(VSl(VEl(cell, (), VInt(ZERO), 'E', None), n_))
        if type(x) is VSl:
            return x
        raise Imprecise('borrow')

    @ureg('std::ops::RangeBounds::start_bound', 'std::ops::RangeBounds::end_bound')
    def ubound(c):
        st = c.st
        v = c.args[0]
        x = c.I.read(st, c.I.deref(st, v)) if type(v) is VPtr else v
        end = c.fn['path'].endswith('end_bound')
        tag = x.tag if type(x) is VOp else None
        if not tag or tag[0] != 'range':
            raise Imprecise('bounds')
        nm = ('hi_' if end else 'lo_') + tag[1]
        key = ('bound', nm)
        if key not in st.toks:
            r = []
            for k in (0, 1, 2):
                s = st.clone()
                s.toks[key] = k
                r.append(s)
            raise Fork(r)
        k = st.toks[key]
        if k == 2:
            return VAgg('std::ops::Bound', 2, ())
        cell = ('bound', nm)
        st.cells[cell] = VInt(L(nm))
        st.add('ge', L(nm))
        st.add('ge', L(MAX) - L(nm))
        return VAgg('std::ops::Bound', k, (VPtr(cell, ()),))

    # Array::binary_search of array-ops: Ok(i<len) / Err(i<=len) from comparisons through get()
    @reg('array_ops::Array::binary_search')
    def arr_bs(c):
        v = c.I.read(c.st, c.I.deref(c.st, c.args[0]))
        ln = logical_len(c, v)
        return binsearch(c, ln)

    def logical_len(c, v):
        st = c.st
        if type(v) is VCont:
            t = ZERO
            for k, _ in v.pieces:
                t = t + k
            return t
        if type(v) is VAgg and v.path in CONTAINERS:
            return st.valid_window(v)[1]
        if type(v) is VAgg and v.path in ('ring_buffer::slice::Slice', 'ring_buffer::slice::SliceMut',
                                          'ring_buffer::Slice', 'ring_buffer::SliceMut'):
            r = v.fs[st.fld(v.path, 'range')]
            return c.I.num(st, r.fs[1]) - c.I.num(st, r.fs[0])
        raise Imprecise('length of %r' % (getattr(v, 'path', v),))
    I.logical_len = logical_len

    @reg('array_ops::HasLength::is_empty')
    def hl_empty(c):
        v = c.I.read(c.st, c.I.deref(c.st, c.args[0]))
        return VBool(('eq', logical_len(c, v)))

    @ureg('array_ops::HasLength::len')
    def hl_len(c):
        v = c.I.read(c.st, c.I.deref(c.st, c.args[0]))
        return VInt(logical_len(c, v))

    def binsearch(c, ln):
        st = c.st
        c.I.work(st, ln, 'searches')
        s1, s2, s3 = st.clone(), st.clone(), st.clone()
        i = L(st.fresh('found'))
        outs = []
        try:
            s1.add('ge', i)
            s1.add('ge', ln - 1 - i)
            s1.aux['bs'] = ('ok', i)
            outs.append((s1, VAgg('std::result::Result', 0, (VInt(i),))))
        except Kill:
            pass
        try:
            s2.add('ge', i)
            s2.add('ge', ln - i)
            s2.aux['bs'] = ('err', i)
            outs.append((s2, VAgg('std::result::Result', 1, (VInt(i),))))
        except Kill:
            pass
        outs.append((s3, UNWIND))
        raise Multi(outs)

    # ------------------------------------------------------------------ ring index iterator
    @reg('std::iter::Iterator::nth', 'std::iter::Iterator::advance_by')
    def it_nth(c):
        loc = place_of(c)
        v = c.I.read(c.st, loc)
        IX = 'ring_buffer::index::IndexIter'
        if type(v) is not VAgg or v.path not in (IX, 'ring_buffer::iter::Iter', 'ring_buffer::Iter'):
            return NotImplemented
        if v.path != IX:
            return NotImplemented
        st = c.st
        m = c.I.prog.fields[v.path]
        if not {'remaining', 'left_index'} <= set(m) or st.aux.get('n0'):
            return NotImplemented
        k = c.I.num(st, c.args[1])
        rem = c.I.num(st, v.fs[m['remaining']])
        li = v.fs[m['left_index']]
        if type(li) is VAgg:
            li = li.fs[0]
        nm = c.fn.get('rpath') or c.fn['path']
        fs = list(v.fs)
        c.I.work(st, k, 'steps over')
        c.I.deps.add('ring_buffer::index::IndexIter::next')
        if nm.endswith('nth'):
            if st.dec(rem - k - 1):
                fs[m['remaining']] = VInt(rem - k - 1)
                fs[m['left_index']] = VAgg(RAW, 0, (VMod(li.l + k + 1),))
                c.I.write(st, loc, VAgg(v.path, v.v, tuple(fs)))
                return some(VAgg(RAW, 0, (VMod(li.l + k),)))
            fs[m['remaining']] = VInt(ZERO)
            fs[m['left_index']] = VAgg(RAW, 0, (VMod(li.l + rem),))
            c.I.write(st, loc, VAgg(v.path, v.v, tuple(fs)))
            return NONE
        return NotImplemented

    # raw ring indices
    RI = 'ring_buffer::index::'

    def raw(v):
        if type(v) is VAgg and v.path == RAW:
            v = v.fs[0]
        if type(v) in (VMod, VInt):
            return v
        raise Imprecise('ring index')

    def mkraw(l):
        return VAgg(RAW, 0, (VMod(l),))

    def contract(name):
        def d(f):
            I.contracts[name] = f
            return f
        return d

    def impl(tr, m):
        return '<ring_buffer::index::RawIndex<N> as %s>::%s' % (tr, m)

    def inrange(st, b):
        # the contracts below are established for offsets of at most one turn
        return type(b) is VMod or (st.ge(b.l) and st.ge(N - b.l))

    def both(c, sign):
        a, b = raw(c.args[0]), c.args[1]
        b = raw(b) if type(b) is VAgg else b
        if type(b) not in (VInt, VMod) or not inrange(c.st, b):
            return NotImplemented
        return mkraw(a.l + b.l if sign > 0 else a.l - b.l)

    @contract(impl('std::ops::Add<usize>', 'add'))
    def _(c):
        return both(c, 1)

    @contract(impl('std::ops::Sub<usize>', 'sub'))
    def _(c):
        return both(c, -1)

    I.contracts[impl('std::ops::Add', 'add')] = lambda c: both(c, 1)
    I.contracts[impl('std::ops::Sub', 'sub')] = lambda c: both(c, -1)

    def assign(sign):
        def f(c):
            loc = place_of(c)
            a, b = raw(c.I.read(c.st, loc)), raw(c.args[1])
            if not inrange(c.st, b):
                return NotImplemented
            c.I.write(c.st, loc, mkraw(a.l + b.l if sign > 0 else a.l - b.l))
            return UNIT
        return f
    I.contracts[impl('std::ops::AddAssign<usize>', 'add_assign')] = assign(1)
    I.contracts[impl('std::ops::SubAssign<usize>', 'sub_assign')] = assign(-1)

    @contract('ring_buffer::index::RawIndex::<N>::inc')
    def _(c):
        loc = place_of(c)
        a = raw(c.I.read(c.st, loc))
        c.I.write(c.st, loc, mkraw(a.l + 1))
        return mkraw(a.l)

    @contract('ring_buffer::index::RawIndex::<N>::dec')
    def _(c):
        loc = place_of(c)
        a = raw(c.I.read(c.st, loc))
        c.I.write(c.st, loc, mkraw(a.l - 1))
        return mkraw(a.l - 1)

    @contract('ring_buffer::index::RawIndex::<N>::to_usize')
    def _(c):
        return raw(c.args[0])

    @contract(impl('std::cmp::PartialEq', 'eq'))
    def _(c):
        a = raw(c.I.read(c.st, c.I.deref(c.st, c.args[0])))
        b = raw(c.I.read(c.st, c.I.deref(c.st, c.args[1])))
        return VBool(c.I.cong0(c.st, a.l - b.l))

    @contract(impl('std::clone::Clone', 'clone'))
    def _(c):
        return c.I.read(c.st, c.I.deref(c.st, c.args[0]))

    @reg('std::cmp::PartialEq::ne')
    def ne_default(c):
        # provided method: !self.eq(other)
        t = c.targs()[0]
        if t.get('k') == 'adt' and t.get('path') == RAW:
            a = raw(c.I.read(c.st, c.I.deref(c.st, c.args[0])))
            b = raw(c.I.read(c.st, c.I.deref(c.st, c.args[1])))
            c.I.deps.add(impl('std::cmp::PartialEq', 'eq'))
            return VBool(not c.I.cong0(c.st, a.l - b.l))
        return ueq(c) if c.fn.get('trait') and not c.fn.get('local') and 'res' not in c.fn else NotImplemented


def sizesym(st, kind, t):
    nm = tyname(t)
    if nm == 'usize':
        return L(8)
    if nm == 'u8':
        return ONE
    nm = {'inline_array::InlineArray<A, T>': 'Self'}.get(nm, nm)
    s = L('%s_%s' % (kind, nm))
    if ('size', s) not in st.sizes:
        st.sizes[('size', s)] = True
        st.add('ge', s - (1 if kind == 'align' else 0))
        st.add('ge', L(ISZMAX) - s)
    return s


def uninit(st, t):
    s = strip_wrappers(t)
    if s['k'] == 'array':
        ln = N if s['len'].split('/')[0] == 'N' else None
        if ln is None:
            raise Imprecise('array length ' + s['len'])
        return VSto(ln, ((ZERO, ln, None),))
    if s['k'] == 'param' and s['name'] == 'T':
        # host area of an inline array
        return VInl(VJunk, VSto(L('CAP'), ((ZERO, L('CAP'), None),)))
    return VJunk


def canon(st, pieces):
    o = []
    for n, c in pieces:
        n = st.facts.norm(n)
        if st.eqv(n, ZERO):
            continue
        if c and c[0] == 'E':
            c = ('E', c[1], st.facts.norm(c[2]), c[3])
        o.append((n, c))
    return tuple(o)


ORDERING = 'std::cmp::Ordering'


def plen(p):
    n = ZERO
    for k, _ in p:
        n = n + k
    return n


def eqval(c, a, b, neg):
    """outcome of comparing two sequences for equality: the lengths decide, or the caller's PartialEq does"""
    st = c.st
    la = plen(a)
    if not st.dec_eq(la - plen(b)):
        return VBool(neg)
    if not st.dec(la - 1):
        return VBool(not neg)
    return VBool(('ntok' if neg else 'tok', ('seqeq', canon(st, a), canon(st, b))))


def order(c, a, b, partial):
    """lexicographic order of two sequences as the caller's (Partial)Ord decides it: one of < = > ?"""
    st = c.st
    la, lb = plen(a), plen(b)
    same = st.dec_eq(la - lb)
    if not st.dec(la - 1):
        return '=' if same else '<'
    if not st.dec(lb - 1):
        return '>'
    key = ('ord', canon(st, a), canon(st, b))
    if key not in st.toks:
        if known_order(st, key[1], key[2]):
            return '='
        r = []
        for o in ('<', '=', '>') + (('?',) if partial else ()):
            if o == '=' and not same:
                continue
            s = st.clone()
            s.toks[key] = o
            r.append(s)
        raise Fork(r)
    return st.toks[key]


def ordval(o, partial):
    if o == '?':
        return NONE
    v = VAgg(ORDERING, '<=>'.index(o), ())
    return some(v) if partial else v


def ordres(nm, o):
    if nm in ('cmp', 'partial_cmp'):
        return ordval(o, nm != 'cmp')
    return VBool(o in {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[nm])


def iter_seq(c, v):
    """pieces of the elements an iterator over references will yield; None when it is not such an iterator"""
    I, st = c.I, c.st
    if type(v) is VPtr:
        x = I.read(st, I.deref(st, v))
        # a reference to a container: IntoIterator
        v2 = x
        if type(x) is VCont or (type(x) is VAgg and x.path in CONTAINERS):
            return st.pieces(x)
        v = v2
    if type(v) is VSl:
        return I.sl_pieces(st, v, 'compare')
    if type(v) is VAgg and v.path == SLIT:
        return I.sl_pieces(st, v.fs[0], 'compare')
    if type(v) is VAgg and v.path.endswith('::Iter') and 'ring_buffer' in v.path:
        m = I.prog.fields.get(v.path, {})
        if not {'buffer', 'remaining'} <= set(m):
            raise Imprecise('ring iterator layout')
        from .harness import firstindex, Mismatch
        I.deps.add('ring_buffer::iter::Iter::next')
        rem = I.num(st, v.fs[m['remaining']])
        if not st.dec(rem - 1):
            return []
        try:
            at = firstindex(I, st, v, rem)
        except Mismatch as e:
            raise Imprecise(str(e))
        st.ensure(N - rem, 'oob', 'iterator over more slots than the buffer has')
        bp = v.fs[m['buffer']]
        buf = I.read(st, I.deref(st, bp))
        if type(buf) is VCont:
            buf = st.materialize(bp.cell, bp.path)
        d = buf.fs[st.fld(RB, 'data')]
        r = st.read_range(d, at, rem)
        for k, x in r:
            if x is None:
                st.finding('uninit-read', 'iteration over slots that hold no element')
        return r
    if type(v) is VAgg and v.path in ADAPT:
        m = I.prog.fields.get(v.path)
        if m is None:
            return None
        if v.path.endswith('Chain'):
            a, b = v.fs[m['a']], v.fs[m['b']]
            r = []
            for x in (a, b):
                if type(x) is not VAgg or x.path != OPTION:
                    return None
                if x.v == 1:
                    y = iter_seq(c, x.fs[0])
                    if y is None:
                        return None
                    r += y
            return r
        y = iter_seq(c, v.fs[m['it' if v.path.endswith(('Copied', 'Cloned')) else 'iter']])
        if y is None or v.path.endswith(('Copied', 'Cloned')):
            return y
        k = I.num(st, v.fs[m['n']])
        t = plen(y)
        if not st.dec(t - k):
            k = t
        return cutp(st, y, ZERO, k) if v.path.endswith('Take') else cutp(st, y, k, t - k)
    return None


ADAPT = ('std::iter::Take', 'std::iter::Skip', 'std::iter::Chain', 'std::iter::Copied', 'std::iter::Cloned')


def cutp(st, p, pos, n):
    """the part [pos, pos+n) of a piece list"""
    out = []
    for k, x in p:
        if not st.dec(n - 1):
            break
        if not st.dec(k - pos - 1):
            pos = pos - k
            continue
        h = k - pos
        t = h if st.dec(n - h) else n
        if x and x[0] == 'E':
            out.append((t, ('E', x[1], x[2] + pos, x[3])))
        elif x is None or st.eqv(pos, ZERO) and st.eqv(t, k):
            out.append((t, x))
        else:
            raise Imprecise('part of a sequence')
        n = n - t
        pos = ZERO
    return out


def log_add(st, log, e):
    if log and log[-1][0] == 'run' and e[0] == 'run':
        _, n0, c0 = log[-1]
        _, n1, c1 = e
        if c0[0] == 'E' and c1[0] == 'E' and c0[1] == c1[1] and st.eqv(c0[2] + n0, c1[2]):
            return log[:-1] + (('run', n0 + n1, c0),)
    return log + (e,)
