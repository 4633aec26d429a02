"""The sequence model: what every operation must return and leave behind.  A specification sees only
the logical arguments; None means "no functional claim, safety only"."""
from .lin import *
from .values import *
from .state import CH, RB, SP, IA, N
from .harness import *
from . import sparse

SPEC = {}


def spec(*keys):
    def d(f):
        for k in keys:
            SPEC[k] = f
        return f
    return d


ALL = (CH, RB, IA)
SHORT = {CH: 'Chunk', RB: 'Ring', IA: 'Inline', SP: 'Sparse', RSL: 'Slice', RSLM: 'SliceMut', RIT: 'RIter',
         RITM: 'RIterMut', RDR: 'RDrain', ROW: 'ROwned', CIT: 'CIter', CDR: 'CDrain', IIT: 'IIter', IDR: 'IDrain',
         IDXITER: 'Index', RAW: 'Raw',
         'sparse_chunk::iter::Iter': 'SIter', 'sparse_chunk::iter::IterMut': 'SIterMut',
         'sparse_chunk::iter::Drain': 'SDrain', 'sparse_chunk::iter::OptionIter': 'SOIter',
         'sparse_chunk::iter::OptionIterMut': 'SOIterMut', 'sparse_chunk::iter::OptionDrain': 'SODrain'}
OWNERS = ('Chunk', 'Ring', 'Inline')


def key_of(root):
    """short name of a root, e.g. 'Chunk.insert', 'Chunk.PartialEq.eq', '&Ring.IntoIterator.into_iter'"""
    t = root.get('self')
    pre = ''
    if t and t['k'] == 'ref':
        pre = '&mut ' if t['mut'] else '&'
        t = t['to']
    s = SHORT.get(t.get('path')) if t else None
    if s is None:
        return root['path']
    tr = root.get('trait')
    if tr:
        tr = tr['path'] if isinstance(tr, dict) else tr
        tr = tr.split('<')[0].rsplit('::', 1)[-1]
        return '%s%s.%s.%s' % (pre, s, tr, root['name'])
    return '%s%s.%s' % (pre, s, root['name'])


def for_each(fmt, types=OWNERS):
    return [fmt % t for t in types]


# ------------------------------------------------------------------ construction
def inline_refuses(c):
    """the host cannot hold the header, or zero-sized elements cannot be aligned"""
    if c.root['self'].get('path') != IA:
        return False
    if not c.dec(L('size_T') - 9):
        return True
    return not c.dec(L('size_A') - 1) and not c.dec(L('align_Self') - L('align_A'))


@spec(*for_each('%s.new'), *for_each('%s.Default.default'))
def _(c):
    if inline_refuses(c):
        return REF('host too small or misaligned')
    return Want(ret=('seq', []))


@spec(*for_each('%s.unit', ('Chunk', 'Ring')))
def _(c):
    if not c.dec(N - 1):
        return REF('capacity below 1')
    return Want(ret=('seq', c.seq(0)))


@spec(*for_each('%s.pair', ('Chunk', 'Ring')))
def _(c):
    if not c.dec(N - 2):
        return REF('capacity below 2')
    return Want(ret=('seq', c.seq(0) + c.seq(1)))


@spec(*for_each('%s.drain_from', ('Chunk', 'Ring')))
def _(c):
    return Want(ret=('seq', c.seq(0)), out={0: []})


@spec(*for_each('%s.from_front', ('Chunk', 'Ring')))
def _(c):
    k, s = c.int(1), c.seq(0)
    if not c.dec(c.n(0) - k):
        return REF('more elements requested than held')
    return Want(ret=('seq', c.take(s, k)), out={0: c.skip(s, k)})


@spec(*for_each('%s.from_back', ('Chunk', 'Ring')))
def _(c):
    k, s = c.int(1), c.seq(0)
    if not c.dec(c.n(0) - k):
        return REF('more elements requested than held')
    return Want(ret=('seq', c.skip(s, c.n(0) - k)), out={0: c.take(s, c.n(0) - k)})


def taken_is(i, k):
    def f(st):
        kind, src, total, taken, ended = st.iters[i]
        if not st.dec_eq(taken - k):
            return ('result', '%r elements taken from the iterator instead of %r' % (taken, k))
    return f


@spec(*for_each('%s.collect_from', ('Chunk', 'Ring')))
def _(c):
    k, T = c.int(1), c.n(0)
    if not c.dec(T - k):
        return REF('iterator too short')
    if not c.dec(N - k):
        return REF('capacity exceeded')
    return Want(ret=('seq', c.take(c.seq(0), k)), checks=[taken_is(c.a[0].name, k)])


@spec(*for_each('%s.FromIterator.from_iter'))
def _(c):
    T = c.n(0)
    if inline_refuses(c):
        return REF('host too small or misaligned')
    cap = L('CAP') if c.root['self']['path'] == IA else N
    if not c.dec(cap - T):
        return REF('capacity exceeded')
    return Want(ret=('seq', c.seq(0)))


@spec(*for_each('%s.Extend.extend'))
def _(c):
    T = c.n(1)
    p = c.seq(1)
    if c.a[1].extra == 'ref' and cloning(c.root):
        p = [(n, ('E', 'clone:' + x[1], x[2], None)) for n, x in p]
    if not c.dec(c.cap() - c.n(0) - T):
        return REF('capacity exceeded', keep=False)
    return Want(ret=('unit',), out={0: c.seq(0) + p})


def cloning(root):
    return 'A: std::clone::Clone' in root['bounds'] and 'A: std::marker::Copy' not in root['bounds']


# ------------------------------------------------------------------ queries
@spec(*for_each('%s.len'), 'Ring.HasLength.len')
def _(c):
    return Want(ret=('int', c.n(0)))


@spec(*for_each('%s.is_empty'))
def _(c):
    return Want(ret=('bool', ('eq', c.n(0))))


@spec(*for_each('%s.is_full'))
def _(c):
    return Want(ret=('bool', ('eq', c.cap() - c.n(0))))


@spec('Chunk.as_slice', 'Chunk.as_mut_slice', *for_each('%s.Deref.deref', ('Chunk', 'Inline')),
      *for_each('%s.DerefMut.deref_mut', ('Chunk', 'Inline')), *for_each('%s.AsRef.as_ref', ('Chunk', 'Inline')),
      *for_each('%s.AsMut.as_mut', ('Chunk', 'Inline')), *for_each('%s.Borrow.borrow', ('Chunk', 'Inline')),
      *for_each('%s.BorrowMut.borrow_mut', ('Chunk', 'Inline')))
def _(c):
    return Want(ret=('view', c.seq(0)))


@spec(*for_each('&%s.IntoIterator.into_iter', OWNERS + ('Slice', 'SliceMut')),
      *for_each('&mut %s.IntoIterator.into_iter', OWNERS + ('SliceMut',)),
      *for_each('%s.iter', ('Ring', 'Slice', 'SliceMut')), *for_each('%s.iter_mut', ('Ring', 'SliceMut')),
      *for_each('%s.drain'))
def _(c):
    return Want(ret=('view', c.seq(0)))


@spec(*for_each('%s.IntoIterator.into_iter'))
def _(c):
    return Want(ret=('view', c.seq(0)))


# ------------------------------------------------------------------ ends
@spec('Chunk.push_back', 'Ring.push_back', 'Inline.push')
def _(c):
    if not c.dec(c.cap() - c.n(0) - 1):
        return REF('full')
    return Want(ret=('unit',), out={0: c.seq(0) + c.seq(1)})


@spec('Chunk.push_front', 'Ring.push_front')
def _(c):
    if not c.dec(c.cap() - c.n(0) - 1):
        return REF('full')
    return Want(ret=('unit',), out={0: c.seq(1) + c.seq(0)})


def popper(front, opt):
    def f(c):
        s, n = c.seq(0), c.n(0)
        if not c.dec(n - 1):
            if opt:
                return Want(ret=('none',), out={0: []})
            return REF('empty')
        if front:
            r, s = c.at(s, ZERO), c.skip(s, ONE)
        else:
            r, s = c.at(s, n - 1), c.take(s, n - 1)
        w = ('el', r)
        return Want(ret=('some', w) if opt else w, out={0: s})
    return f


SPEC['Chunk.pop_front'] = popper(True, False)
SPEC['Chunk.pop_back'] = popper(False, False)
SPEC['Ring.pop_front'] = popper(True, True)
SPEC['Ring.pop_back'] = popper(False, True)
SPEC['Inline.pop'] = popper(False, True)
for _t in ('CIter', 'CDrain', 'RDrain', 'ROwned'):
    SPEC[_t + '.Iterator.next'] = popper(True, True)
    SPEC[_t + '.DoubleEndedIterator.next_back'] = popper(False, True)
for _t in ('IIter', 'IDrain'):
    SPEC[_t + '.Iterator.next'] = popper(True, True)
    SPEC[_t + '.DoubleEndedIterator.next_back'] = popper(False, True)


def stepper(front):
    def f(c):
        s, n = c.seq(0), c.n(0)
        if not c.dec(n - 1):
            return Want(ret=('none',), out={0: []})
        if front:
            r, s = c.at(s, ZERO), c.skip(s, ONE)
        else:
            r, s = c.at(s, n - 1), c.take(s, n - 1)
        return Want(ret=('some', ('ref', r)), out={0: s})
    return f


for _t in ('RIter', 'RIterMut'):
    SPEC[_t + '.Iterator.next'] = stepper(True)
    SPEC[_t + '.DoubleEndedIterator.next_back'] = stepper(False)


@spec(*for_each('%s.Iterator.size_hint', ('CIter', 'CDrain', 'RDrain', 'ROwned', 'RIter', 'RIterMut', 'IIter', 'IDrain')))
def _(c):
    n = c.n(0)
    return Want(ret=('tup', [('int', n), ('some', ('int', n))]))


# ------------------------------------------------------------------ middle
@spec(*for_each('%s.insert'))
def _(c):
    k, n, s = c.int(1), c.n(0), c.seq(0)
    if not c.dec(c.cap() - n - 1):
        return REF('full')
    if not c.dec(n - k):
        return REF('index beyond the end')
    return Want(ret=('unit',), out={0: c.take(s, k) + c.seq(2) + c.skip(s, k)})


@spec(*for_each('%s.insert_ordered', ('Chunk', 'Ring')))
def _(c):
    n, s = c.n(0), c.seq(0)
    if not c.dec(c.cap() - n - 1):
        return REF('full')
    bs = c.st.aux.get('bs')
    if bs is None:
        if not c.dec(n - 1):
            return Want(ret=('unit',), out={0: c.seq(1)})
        return None
    # the search reported where equal or larger elements start
    return Want(ret=('unit',), out={0: c.take(s, bs[1]) + c.seq(1) + c.skip(s, bs[1])})


@spec(*for_each('%s.insert_from', ('Chunk', 'Ring')))
def _(c):
    k, n, s, T = c.int(1), c.n(0), c.seq(0), c.n(2)
    if not c.st.aux.get('honest'):
        return None
    if not c.dec(N - n - T):
        return REF('does not fit')
    if not c.dec(n - k):
        return REF('index beyond the end')
    return Want(ret=('unit',), out={0: c.take(s, k) + c.seq(2) + c.skip(s, k)})


def remover(opt):
    def f(c):
        k, n, s = c.int(1), c.n(0), c.seq(0)
        if not c.dec(n - k - 1):
            if opt:
                return Want(ret=('none',), out={0: s})
            return REF('index out of bounds')
        w = ('el', c.at(s, k))
        return Want(ret=('some', w) if opt else w, out={0: c.take(s, k) + c.skip(s, k + 1)})
    return f


SPEC['Chunk.remove'] = SPEC['Ring.remove'] = remover(False)
SPEC['Inline.remove'] = remover(True)


@spec('Chunk.set')
def _(c):
    k, n, s = c.int(1), c.n(0), c.seq(0)
    if not c.dec(n - k - 1):
        return REF('index out of bounds')
    return Want(ret=('el', c.at(s, k)), out={0: c.take(s, k) + c.seq(2) + c.skip(s, k + 1)})


# ------------------------------------------------------------------ sides
@spec(*for_each('%s.drop_left', ('Chunk', 'Ring')))
def _(c):
    k, n = c.int(1), c.n(0)
    if not c.dec(n - k):
        return REF('index beyond the end')
    return Want(ret=('unit',), out={0: c.skip(c.seq(0), k)})


@spec(*for_each('%s.drop_right', ('Chunk', 'Ring')))
def _(c):
    k, n = c.int(1), c.n(0)
    if not c.dec(n - k):
        return REF('index beyond the end')
    return Want(ret=('unit',), out={0: c.take(c.seq(0), k)})


@spec(*for_each('%s.split_off'))
def _(c):
    k, n, s = c.int(1), c.n(0), c.seq(0)
    if not c.dec(n - k):
        return REF('index beyond the end')
    return Want(ret=('seq', c.skip(s, k)), out={0: c.take(s, k)})


@spec(*for_each('%s.append', ('Chunk', 'Ring')))
def _(c):
    if not c.dec(N - c.n(0) - c.n(1)):
        return REF('does not fit')
    return Want(ret=('unit',), out={0: c.seq(0) + c.seq(1), 1: []})


@spec(*for_each('%s.drain_from_front', ('Chunk', 'Ring')))
def _(c):
    k, s = c.int(2), c.seq(1)
    if not c.dec(N - c.n(0) - k):
        return REF('does not fit')
    if not c.dec(c.n(1) - k):
        return REF('more elements requested than held')
    return Want(ret=('unit',), out={0: c.seq(0) + c.take(s, k), 1: c.skip(s, k)})


@spec(*for_each('%s.drain_from_back', ('Chunk', 'Ring')))
def _(c):
    k, s, n = c.int(2), c.seq(1), c.n(1)
    if not c.dec(N - c.n(0) - k):
        return REF('does not fit')
    if not c.dec(n - k):
        return REF('more elements requested than held')
    return Want(ret=('unit',), out={0: c.skip(s, n - k) + c.seq(0), 1: c.take(s, n - k)})


@spec(*for_each('%s.clear'))
def _(c):
    return Want(ret=('unit',), out={0: []})


@spec(*for_each('%s.Drop.drop'))
def _(c):
    return Want(ret=('unit',), out={0: None})


# ------------------------------------------------------------------ copies and conversions
def cloned(p):
    return [(n, x and ('E', 'clone:' + x[1], x[2], x[3])) for n, x in p]


@spec(*for_each('%s.Clone.clone'))
def _(c):
    return Want(ret=('seq', cloned(c.seq(0))))


@spec('Slice.to_owned', 'SliceMut.to_owned')
def _(c):
    return Want(ret=('seq', cloned(c.seq(0))))


@spec(*for_each('%s.PoolClone.clone_uninit', ('Chunk', 'Ring')))
def _(c):
    return Want(ret=('unit',), out={1: cloned(c.seq(0))})


@spec(*for_each('%s.PoolDefault.default_uninit', ('Chunk', 'Ring')))
def _(c):
    return Want(ret=('unit',), out={0: []})


@spec('Chunk.From.from')
def _(c):
    if not c.dec(N - c.n(0)):
        return REF('does not fit')
    w = Want(ret=('seq', c.seq(0)))
    if c.a[0].ref:
        w.out = {0: []}
    return w


# ------------------------------------------------------------------ access
@spec('Ring.Array.get', 'Ring.ArrayMut.get_mut', 'Slice.Array.get', 'SliceMut.Array.get', 'SliceMut.ArrayMut.get_mut')
def _(c):
    k, n = c.int(1), c.n(0)
    if not c.dec(n - k - 1):
        return Want(ret=('none',))
    return Want(ret=('some', ('ref', c.at(c.seq(0), k))))


@spec('Ring.Index.index', 'Ring.IndexMut.index_mut', 'Slice.Index.index', 'SliceMut.Index.index',
      'SliceMut.IndexMut.index_mut')
def _(c):
    k, n = c.int(1), c.n(0)
    if not c.dec(n - k - 1):
        return REF('index out of bounds')
    return Want(ret=('ref', c.at(c.seq(0), k)))


@spec('Chunk.Index.index', 'Chunk.IndexMut.index_mut')
def _(c):
    st = c.st

    def chk(st):
        v = st.aux.get('ret')
        if type(v) is VOp and v.tag and v.tag[0] == 'index':
            d = seq_diff(st, st.I.sl_pieces(st, v.tag[1], 'exposure'), c.seq(0))
            if d:
                return ('result', 'indexing applies to the wrong slice: ' + d)
            return None
        raise Imprecise('indexing result')
    return Want(refuse=None, checks=[chk])


# ------------------------------------------------------------------ slices
def parse(c, nm, n):
    """(start, end) of the caller's range relative to a window of n elements; None = refused"""
    st = c.st
    lo, hi = st.toks.get(('bound', 'lo_' + nm)), st.toks.get(('bound', 'hi_' + nm))
    if lo is None or hi is None:
        if lo == 1:
            return None
        raise Imprecise('range bounds not inspected')
    if lo == 1:
        return None
    a = ZERO if lo == 2 else L('lo_' + nm)
    b = n if hi == 2 else (L('hi_' + nm) + 1 if hi == 0 else L('hi_' + nm))
    if not c.dec(n - b) or not c.dec(b - a):
        return None
    return a, b


@spec('Ring.slice', 'Ring.slice_mut', 'Slice.slice', 'SliceMut.slice')
def _(c):
    r = parse(c, c.a[1].name, c.n(0))
    if r is None:
        return REF('range out of bounds')
    a, b = r
    return Want(ret=('view', c.take(c.skip(c.seq(0), a), b - a)))


@spec('Slice.split_at', 'SliceMut.split_at')
def _(c):
    k, n, s = c.int(1), c.n(0), c.seq(0)
    if not c.dec(n - k):
        return REF('index beyond the end')
    return Want(ret=('tup', [('view', c.take(s, k)), ('view', c.skip(s, k))]))


@spec('SliceMut.unmut', 'SliceMut.Into.into', 'Slice.Clone.clone', 'Slice.From.from', 'SliceMut.From.from')
def _(c):
    return Want(ret=('view', c.seq(0)))


@spec('Slice.HasLength.len', 'SliceMut.HasLength.len')
def _(c):
    return Want(ret=('int', c.n(0)))


# ------------------------------------------------------------------ comparison and hashing
CMPT = OWNERS + ('Slice', 'SliceMut')


@spec(*for_each('%s.PartialEq.eq', CMPT))
def _(c):
    return Want(ret=('cmp', 'seqeq', c.seq(0), c.seq(1)))


@spec(*for_each('%s.Ord.cmp', CMPT))
def _(c):
    return Want(ret=('cmp', 'seqcmp', c.seq(0), c.seq(1)))


@spec(*for_each('%s.PartialOrd.partial_cmp', CMPT))
def _(c):
    return Want(ret=('cmp', 'seqpcmp', c.seq(0), c.seq(1)))


def hasher(prefix):
    """prefix: 'must' for types that can be borrowed as a slice, 'any' otherwise"""
    def f(c):
        def chk(st):
            log = list(st.log)
            n, s = c.n(0), c.seq(0)
            if log and log[0][0] == 'len':
                if not st.dec_eq(log[0][1] - n):
                    return ('result', 'hashes length %r instead of %r' % (log[0][1], n))
                log.pop(0)
            elif prefix == 'must':
                return ('result', 'hash lacks the length prefix a slice has, though the type borrows as a slice')
            runs = []
            for e in log:
                if e[0] != 'run':
                    return ('result', 'hashes %r after the elements began' % (e,)) if e[0] == 'len' else None
                runs.append((e[1], e[2]))
            d = seq_diff(st, runs, s)
            if d:
                return ('result', 'hashes a different sequence: ' + d)
        return Want(ret=('unit',), checks=[chk])
    return f


for _t in ('Chunk', 'Inline'):
    SPEC[_t + '.Hash.hash'] = hasher('must')
for _t in ('Ring', 'Slice', 'SliceMut'):
    SPEC[_t + '.Hash.hash'] = hasher('any')


# ------------------------------------------------------------------ Debug
@spec(*for_each('%s.Debug.fmt', CMPT + ('Sparse',)))
def _(c):
    """exactly the elements, in order (a map shows each with its index); a failure of the formatter is passed on"""
    def chk(st):
        v = st.aux['ret']
        if type(v) is not VAgg or v.path != 'std::result::Result':
            raise Imprecise('formatting result')
        if v.v != 0:
            return None if st.aux.get('fmterr') else ('result', 'formatting fails although the formatter did not')
        if st.aux.get('fmterr'):
            return ('result', 'a failure of the formatter is not passed on')
        runs, pos, idx = [], ZERO, None
        sparse_ = c.root['self'].get('path') == SP
        for e in st.log:
            if e[0] == 'len':
                if not sparse_:
                    return ('result', 'the output holds a number that is not an element')
                if idx is not None:
                    return ('result', 'the output holds an index without an element')
                idx = e[1]
                continue
            if sparse_:
                if idx is None:
                    return ('result', 'the output holds an element without its index')
                if not st.dec(idx - pos):
                    return ('result', 'the output is not in ascending order of indices')
                runs.append((idx - pos, None))
                pos = idx + 1
                idx = None
            runs.append((e[1], e[2]))
        if sparse_:
            if idx is not None:
                return ('result', 'the output holds an index without an element')
            runs.append((N - pos, None))
        d = seq_diff(st, runs, c.seq(0))
        if d:
            return ('result', 'the output shows a different sequence: ' + d)
    return Want(checks=[chk])


# ------------------------------------------------------------------ Arbitrary
@spec(*for_each('%s.Arbitrary.arbitrary', OWNERS + ('Sparse',)), *for_each('%s.Arbitrary.arbitrary_take_rest', OWNERS + ('Sparse',)))
def _(c):
    """the elements built from the input, in order, at most CAPACITY of them; fails exactly when building one fails"""
    if not c.st.aux.get('arberr') and inline_refuses(c):
        return REF('no such array can be constructed')

    def chk(st):
        v = st.aux['ret']
        if type(v) is not VAgg or v.path != 'std::result::Result':
            raise Imprecise('result')
        if v.v != 0:
            return None if st.aux.get('arberr') else ('result', 'fails although every element was built')
        if st.aux.get('arberr'):
            return ('result', 'an element could not be built and no failure is reported')
        got = view(st, v.fs[0])
        its = list(st.iters.values())
        if len(its) != 1:
            raise Imprecise('input')
        kind, src, total, taken, ended = its[0]
        want = [(taken, E(src, ZERO, 'm' + src if kind == 'resopt' else None))]
        if kind == 'resopt':
            want.append((N - taken, None))
        d = seq_diff(st, got, want)
        if d:
            return ('contents', 'generated: ' + d)
    return Want(checks=[chk])


@spec(*for_each('%s.Arbitrary.size_hint', OWNERS + ('Sparse',)))
def _(c):
    """never more than needed as the lower bound (nothing is needed: an empty container), and no upper bound below
    what a full container takes: for each element its own and the one that says another follows"""
    def chk(st):
        v = st.aux['ret']
        if type(v) is not VAgg or v.path != 'tuple' or len(v.fs) != 2:
            raise Imprecise('result')
        if type(v.fs[0]) is not VInt or type(v.fs[1]) is not VAgg or v.fs[1].path != OPTION:
            raise Imprecise('result')
        if not st.dec(-v.fs[0].l):
            return ('result', 'lower bound above zero')
        u = v.fs[1]
        if u.v == 0:
            return None
        if st.aux.get('hint') is None:
            raise Imprecise('upper bound from elsewhere')
        if st.aux.get('hint') is False:
            return ('result', 'an upper bound although elements have none')
        from .inline import subst
        need = (L('hinthi') + 1).mul(L('CAP') if c.root['self'].get('path') == IA else N)
        if not st.dec(subst(st, u.fs[0].l - need)):
            return ('result', 'upper bound below what CAPACITY elements take')
    return Want(checks=[chk])


# ------------------------------------------------------------------ bytes
@spec(*for_each('%s.Write.write', ('Chunk', 'Ring')))
def _(c):
    n, b = c.n(0), c.n(1)
    k = b if c.dec(N - n - b) else N - n
    return Want(ret=('ok', ('int', k)), out={0: c.seq(0) + c.take(c.seq(1), k)})


@spec(*for_each('%s.Write.flush', ('Chunk', 'Ring')))
def _(c):
    return Want(ret=('ok', ('unit',)))


@spec(*for_each('%s.Read.read', ('Chunk', 'Ring')))
def _(c):
    n, b, s = c.n(0), c.n(1), c.seq(0)
    k = b if c.dec(n - b) else n

    def chk(st):
        if not st.dec(b - 1):
            return None
        got = st.read_range(st.cells[c.a[1].cell], ZERO, b)
        d = seq_diff(st, got, take(st, s, k) + skip(st, c.seq(1), k))
        if d:
            return ('contents', "caller's buffer afterwards: " + d)
    return Want(ret=('ok', ('int', k)), out={0: c.skip(s, k)}, checks=[chk])


# ------------------------------------------------------------------ methods with a default an edit may override
@spec(*for_each('%s.PartialEq.ne', CMPT))
def _(c):
    return Want(ret=('cmp', 'seqne', c.seq(0), c.seq(1)))


for _m in ('lt', 'le', 'gt', 'ge'):
    for _t in CMPT:
        SPEC['%s.PartialOrd.%s' % (_t, _m)] = lambda c, _m=_m: Want(ret=('cmp', 'seq' + _m, c.seq(0), c.seq(1)))


@spec(*for_each('%s.Clone.clone_from', OWNERS + ('Sparse',)))
def _(c):
    return Want(ret=('unit',), out={0: cloned(c.seq(1))})


@spec(*for_each('%s.HasLength.is_empty', ('Ring', 'Slice', 'SliceMut')))
def _(c):
    return Want(ret=('bool', ('eq', c.n(0))))


def end_of(front):
    def f(c):
        n = c.n(0)
        if not c.dec(n - 1):
            return Want(ret=('none',))
        return Want(ret=('some', ('ref', c.at(c.seq(0), ZERO if front else n - 1))))
    return f


for _t in ('Ring', 'Slice', 'SliceMut'):
    SPEC[_t + '.Array.first'] = SPEC[_t + '.ArrayMut.first_mut'] = end_of(True)
    SPEC[_t + '.Array.last'] = SPEC[_t + '.ArrayMut.last_mut'] = end_of(False)


def window(c, p):
    """the contents of a slice's whole buffer when the slice's own are p"""
    x = c.a[0].extra
    if type(x) is not dict:
        return p
    return c.take(x['all'], x['s']) + p + c.skip(x['all'], x['e'])


@spec(*for_each('%s.ArrayMut.set', ('Ring', 'SliceMut')))
def _(c):
    k, n, s = c.int(1), c.n(0), c.seq(0)
    if not c.dec(n - k - 1):
        return Want(ret=('none',))
    return changed(c, Want(ret=('some', ('el', c.at(s, k)))), c.take(s, k) + c.seq(2) + c.skip(s, k + 1))


@spec(*for_each('%s.ArrayMut.swap', ('Ring', 'SliceMut')))
def _(c):
    i, j, n, s = c.int(1), c.int(2), c.n(0), c.seq(0)
    if c.dec_eq(i - j) and not c.dec(n - i - 1):
        return Want(refuse=None)
    if not c.dec(n - i - 1) or not c.dec(n - j - 1):
        return REF('index out of bounds')
    x, y = (i, j) if c.dec(j - i) else (j, i)
    p = s if c.dec_eq(i - j) else c.take(s, x) + [(ONE, c.at(s, y))] + c.take(c.skip(s, x + 1), y - x - 1) + \
        [(ONE, c.at(s, x))] + c.skip(s, y + 1)
    return changed(c, Want(ret=('unit',)), p)


def changed(c, w, p):
    x = c.a[0].extra
    if type(x) is dict:
        def chk(st):
            d = seq_diff(st, view(st, st.cells[x['buf']]), window(c, p))
            if d:
                return ('contents', 'buffer afterwards: ' + d)
        w.out = {0: None}
        w.checks = [chk]
    else:
        w.out = {0: p}
    return w


def skipper(front, kind):
    """nth and nth_back: what is passed over is given up"""
    def f(c):
        k, n, s = c.int(1), c.n(0), c.seq(0)
        if not c.dec(n - k - 1):
            return Want(ret=('none',), out={0: []})
        r, s = (c.at(s, k), c.skip(s, k + 1)) if front else (c.at(s, n - k - 1), c.take(s, n - k - 1))
        return Want(ret=('some', (kind, r)), out={0: s})
    return f


def lastof(kind):
    def f(c):
        n, s = c.n(0), c.seq(0)
        out = {0: None}
        if not c.dec(n - 1):
            return Want(ret=('none',), out=out)
        return Want(ret=('some', (kind, c.at(s, n - 1))), out=out)
    return f


def folder(c):
    def chk(st):
        d = seq_diff(st, [(e[1], e[2]) for e in st.log], c.seq(0))
        if d:
            return ('result', 'the closure was given a different sequence: ' + d)
    return Want(checks=[chk], out={0: None})


def counter(c):
    return Want(ret=('int', c.n(0)), out={0: None})


for _t in ('CIter', 'CDrain', 'RDrain', 'ROwned', 'IIter', 'IDrain', 'RIter', 'RIterMut'):
    _k = 'ref' if _t in ('RIter', 'RIterMut') else 'el'
    SPEC[_t + '.Iterator.nth'] = skipper(True, _k)
    SPEC[_t + '.DoubleEndedIterator.nth_back'] = skipper(False, _k)
    SPEC[_t + '.Iterator.last'] = lastof(_k)
    SPEC[_t + '.Iterator.count'] = counter
    SPEC[_t + '.Iterator.fold'] = SPEC[_t + '.Iterator.for_each'] = folder
    SPEC[_t + '.ExactSizeIterator.len'] = lambda c: Want(ret=('int', c.n(0)))


@spec(*for_each('%s.Write.write_all', ('Chunk', 'Ring')))
def _(c):
    n, b = c.n(0), c.n(1)
    if c.dec(N - n - b):
        return Want(ret=('ok', ('unit',)), out={0: c.seq(0) + c.seq(1)})
    return Want(checks=[isbad], out={0: c.seq(0) + c.take(c.seq(1), N - n)})


def isbad(st):
    v = st.aux['ret']
    if type(v) is not VAgg or v.path != 'std::result::Result':
        raise Imprecise('result')
    if v.v == 0:
        return ('result', 'reports success although not everything was moved')


@spec(*for_each('%s.Read.read_exact', ('Chunk', 'Ring')))
def _(c):
    n, b, s = c.n(0), c.n(1), c.seq(0)
    if not c.dec(n - b):
        return Want(checks=[isbad], out={0: None})

    def chk(st):
        if not st.dec(b - 1):
            return None
        d = seq_diff(st, st.read_range(st.cells[c.a[1].cell], ZERO, b), take(st, s, b))
        if d:
            return ('contents', "caller's buffer afterwards: " + d)
    return Want(ret=('ok', ('unit',)), out={0: c.skip(s, b)}, checks=[chk])


# ------------------------------------------------------------------ ring indices
def rawval(c, i):
    a = c.a[i]
    return a.l


@spec('Raw.Add.add')
def _(c):
    return Want(ret=('raw', rawval(c, 0) + rawval(c, 1)))


@spec('Raw.Sub.sub')
def _(c):
    return Want(ret=('raw', rawval(c, 0) - rawval(c, 1)))


@spec('Raw.Clone.clone', 'Raw.From.from')
def _(c):
    return Want(ret=('raw', rawval(c, 0)))


@spec('Raw.to_usize')
def _(c):
    return Want(ret=('int', rawval(c, 0)))


@spec('Raw.PartialEq.eq')
def _(c):
    return Want(ret=('bool', ('eq', rawval(c, 0) - rawval(c, 1))))


def rawafter(c, want):
    def chk(st):
        match(st, ('raw', want), st.cells[c.a[0].cell], 'the index afterwards')
    return chk


@spec('Raw.AddAssign.add_assign')
def _(c):
    return Want(ret=('unit',), checks=[rawafter(c, rawval(c, 0) + rawval(c, 1))])


@spec('Raw.SubAssign.sub_assign')
def _(c):
    return Want(ret=('unit',), checks=[rawafter(c, rawval(c, 0) - rawval(c, 1))])


@spec('Raw.inc')
def _(c):
    return Want(ret=('raw', rawval(c, 0)), checks=[rawafter(c, rawval(c, 0) + 1)])


@spec('Raw.dec')
def _(c):
    return Want(ret=('raw', rawval(c, 0) - 1), checks=[rawafter(c, rawval(c, 0) - 1)])


def indexafter(c, dl, dr, dn):
    def chk(st):
        v = st.cells[c.a[0].cell]
        m = st.I.prog.fields[v.path]
        a = c.a[0]
        match(st, ('int', a.len + dn), v.fs[m['remaining']], 'the number of remaining indices')
        if 'left_index' in m and dl is not None and st.I.prog.reads(v.path, 'left_index'):
            match(st, ('raw', a.l + dl), v.fs[m['left_index']], 'the front index')
        if 'right_index' in m and dr is not None and st.I.prog.reads(v.path, 'right_index'):
            match(st, ('raw', a.l + a.len + dr), v.fs[m['right_index']], 'the back index')
    return chk


@spec('Index.Iterator.next')
def _(c):
    if c.dec(c.n(0) - 1):
        return Want(ret=('some', ('raw', c.a[0].l)), checks=[indexafter(c, 1, 0, -1)])
    return Want(ret=('none',), checks=[indexafter(c, 0, 0, 0)])


@spec('Index.DoubleEndedIterator.next_back')
def _(c):
    if c.dec(c.n(0) - 1):
        return Want(ret=('some', ('raw', c.a[0].l + c.n(0) - 1)), checks=[indexafter(c, 0, -1, -1)])
    return Want(ret=('none',), checks=[indexafter(c, 0, 0, 0)])


@spec('Index.Iterator.size_hint')
def _(c):
    return Want(ret=('tup', [('int', c.n(0)), ('some', ('int', c.n(0)))]))


@spec('Ring.get_unchecked', 'Slice.get_unchecked', 'SliceMut.get_unchecked',
      'Ring.get_unchecked_mut', 'SliceMut.get_unchecked_mut')
def _(c):
    i = c.int(1)
    if not c.dec(c.n(0) - 1 - i):
        return None         # only a caller that keeps to the range may ask
    return Want(ret=('ref', c.at(c.seq(0), i)))


@spec('Sparse.get_unchecked', 'Sparse.get_unchecked_mut')
def _(c):
    k = c.int(1)
    x = slot(c, c.seq(0), k)
    if x is None:
        return None         # the caller must not ask for an empty slot
    return Want(ret=('ref', x))


# ------------------------------------------------------------------ sparse chunks
def slot(c, p, k):
    """what sits at index k: content or None"""
    x = c.at(p, k)
    if x is None:
        return None
    if x[3] is not None and not sparse.mget(c.st, x[3], x[2]):
        return None
    return ('E', x[1], x[2], None)


def firstslot(c, p):
    """(position, content) of the first value"""
    pos = ZERO
    st = c.st
    for n, x in sparse.expand(st, p):
        if x is not None:
            if x[3] is None:
                if st.dec(n - 1):
                    return pos, x
            else:
                sparse.find(st, VBits(((ZERO, x[2], ('0',)), (x[2], x[2] + n, ('M', x[3])), (x[2] + n, N, ('0',)))),
                            x[2], x[2] + n)
                raise Imprecise('first value')
        pos = pos + n
    return None


def lastslot(c, p):
    """(position, content) of the last value"""
    pos, st = slen(p), c.st
    for n, x in reversed(list(sparse.expand(st, p))):
        pos = pos - n
        if x is not None:
            if x[3] is None:
                if st.dec(n - 1):
                    return pos + n - 1, x
            else:
                sparse.find(st, VBits(((ZERO, x[2], ('0',)), (x[2], x[2] + n, ('M', x[3])), (x[2] + n, N, ('0',)))),
                            x[2], x[2] + n, back=True)
                raise Imprecise('last value')
    return None


def put(c, p, k, x):
    return c.take(p, k) + [(ONE, x)] + c.skip(p, k + 1)


def opt(kind, x):
    return ('none',) if x is None else ('some', (kind, x))


EMPTY = [(N, None)]


@spec('Sparse.new', 'Sparse.Default.default')
def _(c):
    return Want(ret=('seq', EMPTY))


@spec('Sparse.PoolDefault.default_uninit')
def _(c):
    return Want(ret=('unit',), out={0: EMPTY})


@spec('Sparse.PoolClone.clone_uninit')
def _(c):
    return Want(ret=('unit',), out={1: cloned(c.seq(0))})


@spec('Sparse.unit')
def _(c):
    k = c.int(0)
    if not c.dec(N - k - 1):
        return REF('index out of bounds')
    return Want(ret=('seq', put(c, EMPTY, k, c.seq(1)[0][1])))


@spec('Sparse.pair')
def _(c):
    k, l = c.int(0), c.int(2)
    if not c.dec(N - k - 1) or not c.dec(N - l - 1):
        return REF('index out of bounds')
    return Want(ret=('seq', put(c, put(c, EMPTY, k, c.seq(1)[0][1]), l, c.seq(3)[0][1])))


@spec('Sparse.len')
def _(c):
    return Want(ret=('int', c.n(0)))


@spec('Sparse.is_empty')
def _(c):
    return Want(ret=('bool', ('eq', c.n(0))))


@spec('Sparse.is_full')
def _(c):
    return Want(ret=('bool', ('eq', N - c.n(0))))


@spec('Sparse.insert')
def _(c):
    k, s = c.int(1), c.seq(0)
    if not c.dec(N - k - 1):
        return REF('index out of bounds')
    return Want(ret=opt('el', slot(c, s, k)), out={0: put(c, s, k, c.seq(2)[0][1])})


@spec('Sparse.remove')
def _(c):
    k, s = c.int(1), c.seq(0)
    if not c.dec(N - k - 1):
        return REF('index out of bounds')
    return Want(ret=opt('el', slot(c, s, k)), out={0: put(c, s, k, None)})


def takefirst(c):
    s = c.seq(0)
    f = firstslot(c, s)
    if f is None:
        return Want(ret=('none',))
    return Want(ret=('some', ('el', f[1])), out={0: put(c, s, f[0], None)})


SPEC['Sparse.pop'] = SPEC['SDrain.Iterator.next'] = takefirst


@spec('SIter.Iterator.next', 'SIterMut.Iterator.next')
def _(c):
    s = c.seq(0)
    f = firstslot(c, s)
    if f is None:
        return Want(ret=('none',), out={0: EMPTY})
    return Want(ret=('some', ('ref', f[1])), out={0: put(c, s, f[0], None)})


@spec('SIter.Iterator.last', 'SIterMut.Iterator.last', 'SDrain.Iterator.last')
def _(c):
    s = c.seq(0)
    f = lastslot(c, s)
    if f is None:
        return Want(ret=('none',), out={0: None})
    return Want(ret=('some', ('el' if c.a[0].path == sparse.SDR else 'ref', f[1])), out={0: None})


@spec('SOIter.Iterator.last', 'SOIterMut.Iterator.last', 'SODrain.Iterator.last')
def _(c):
    s, lo = c.seq(0), c.a[0].l
    if not c.dec(N - lo - 1):
        return Want(ret=('none',), out={0: None})
    kind = 'el' if c.a[0].path == sparse.SODR else 'ref'
    return Want(ret=('some', opt(kind, slot(c, s, N - 1))), out={0: None})


@spec('SOIter.Iterator.next', 'SOIterMut.Iterator.next', 'SODrain.Iterator.next')
def _(c):
    s, lo = c.seq(0), c.a[0].l
    if not c.dec(N - lo - 1):
        return Want(ret=('none',), out={0: EMPTY})
    kind = 'el' if c.a[0].path == sparse.SODR else 'ref'
    return Want(ret=('some', opt(kind, slot(c, s, lo))), out={0: put(c, s, lo, None)}, checks=[at_index(lo + 1)])


@spec(*for_each('%s.Iterator.nth', ('SOIter', 'SOIterMut', 'SODrain')))
def _(c):
    s, lo, k = c.seq(0), c.a[0].l, c.int(1)
    if not c.dec(N - lo - k - 1):
        return Want(ret=('none',), out={0: EMPTY})
    kind = 'el' if c.a[0].path == sparse.SODR else 'ref'
    return Want(ret=('some', opt(kind, slot(c, s, lo + k))), out={0: [(lo + k + 1, None)] + c.skip(s, lo + k + 1)},
                checks=[at_index(lo + k + 1)])


@spec(*for_each('%s.Iterator.count', ('SOIter', 'SOIterMut', 'SODrain')),
      *for_each('%s.ExactSizeIterator.len', ('SOIter', 'SOIterMut', 'SODrain')))
def _(c):
    return Want(ret=('int', N - c.a[0].l if c.dec(N - c.a[0].l) else ZERO))


@spec(*for_each('%s.Iterator.count', ('SIter', 'SIterMut', 'SDrain')),
      *for_each('%s.ExactSizeIterator.len', ('SIter', 'SIterMut', 'SDrain')))
def _(c):
    return Want(ret=('int', left(c)))


def position(st, v):
    ix = [x for x in v.fs if type(x) in (VInt, VMod)]
    if len(ix) != 1:
        raise Imprecise('iterator without position')
    return st.I.num(st, ix[0])


def at_index(k):
    def f(st):
        v = st.cells[('in', 0)]
        g = position(st, v)
        if not st.dec_eq(g - k):
            return ('contents', 'the iterator continues at index %r instead of %r' % (g, k))
    return f


def hint(count):
    """lower bound <= what is left <= upper bound"""
    def f(c):
        def chk(st):
            v = st.aux['ret']
            n = count(c)
            lo = st.I.num(st, v.fs[0])
            if not st.dec(n - lo):
                return ('result', 'size_hint promises at least %r of %r remaining items' % (lo, n))
            if v.fs[1].v == 1:
                hi = st.I.num(st, v.fs[1].fs[0])
                if not st.dec(hi - n):
                    return ('result', 'size_hint promises at most %r of %r remaining items' % (hi, n))
        return Want(checks=[chk])
    return f


def left(c):
    n = ZERO
    for k, x in c.a[0].pieces:
        if x is not None:
            for a, b, kk, cc in sparse.mrange(c.st, x[3], x[2], x[2] + k):
                n = n + (b - a if kk == '1' else cc if kk == '?' else ZERO)
    return n


for _t in ('SIter', 'SIterMut', 'SDrain'):
    SPEC[_t + '.Iterator.size_hint'] = hint(left)
for _t in ('SOIter', 'SOIterMut', 'SODrain'):
    SPEC[_t + '.Iterator.size_hint'] = hint(lambda c: N - c.a[0].l if c.dec(N - c.a[0].l) else ZERO)


@spec('Sparse.get', 'Sparse.get_mut')
def _(c):
    k = c.int(1)
    if not c.dec(N - k - 1):
        return Want(ret=('none',))
    return Want(ret=opt('ref', slot(c, c.seq(0), k)))


@spec('Sparse.Index.index', 'Sparse.IndexMut.index_mut')
def _(c):
    k = c.int(1)
    if not c.dec(N - k - 1):
        return REF('index out of bounds')
    x = slot(c, c.seq(0), k)
    if x is None:
        return REF('no value at the index')
    return Want(ret=('ref', x))


@spec('Sparse.first_index')
def _(c):
    f = firstslot(c, c.seq(0))
    return Want(ret=('none',) if f is None else ('some', ('int', f[0])))


@spec('Sparse.iter', 'Sparse.iter_mut', 'Sparse.drain', 'Sparse.option_iter', 'Sparse.option_iter_mut',
      'Sparse.option_drain', 'Sparse.IntoIterator.into_iter')
def _(c):
    w = Want(ret=('view', c.seq(0)))
    if c.root['name'].startswith('option'):
        def chk(st):
            v = st.aux['ret']
            if not st.dec_eq(position(st, v)):
                return ('result', 'the iterator starts at index %r' % (position(st, v),))
        w.checks = [chk]
    return w


def indexed(p):
    return [(n, x and ('E', 'index', x[2], x[3])) for n, x in p]


@spec('Sparse.indices')
def _(c):
    return Want(ret=('view', indexed(c.seq(0))))


@spec('Sparse.entries')
def _(c):
    """the first three items, as the iterator yields them; when it pairs the indices with the iterator of the values,
    what these two have left after that"""
    def chk(st):
        v = st.aux['ret']
        got = st.aux.get('driven')
        if got is None:
            raise Imprecise('entries')
        want = slots(c, c.seq(0), len(got))
        for i, x in enumerate(got):
            w = ('none',) if i >= len(want) else ('some', ('tup', [('int', want[i][0]), ('ref', want[i][1])]))
            match(st, w, x, 'item %d' % i)
        if len(want) < len(got):
            return None
        if type(v) is not VAgg or v.path != "std::iter::Zip" or len(v.fs) < 2:
            raise Imprecise('entries beyond the third')
        k = want[-1][0] + 1
        left = [(k, None)] + c.skip(c.seq(0), k)
        d = seq_diff(st, view(st, v.fs[0]), indexed(left)) or seq_diff(st, view(st, v.fs[1]), left)
        if d:
            return ('result', 'after the third item: ' + d)
    return Want(checks=[chk])


def slots(c, p, k):
    """(position, content) of the first k values"""
    pos, st, out = ZERO, c.st, []
    for n, x in sparse.expand(st, p):
        if x is not None and len(out) < k:
            if x[3] is not None:
                sparse.find(st, VBits(((ZERO, x[2], ('0',)), (x[2], x[2] + n, ('M', x[3])), (x[2] + n, N, ('0',)))),
                            x[2], x[2] + n)
                raise Imprecise('first value')
            i = 0
            while len(out) < k and st.dec(n - 1 - i):
                out.append((pos + i, ('E', x[1], x[2] + i, None)))
                i += 1
        pos = pos + n
    return out


@spec('Sparse.Clone.clone')
def _(c):
    return Want(ret=('seq', cloned(c.seq(0))))


for _t in ('CDrain', 'RDrain', 'IDrain'):
    # what a draining iterator over a borrowed container has not yielded stays in the container
    SPEC[_t + '.Drop.drop'] = lambda c: Want(ret=('unit',), out={0: c.seq(0)})


SPEC['Sparse.Drop.drop'] = lambda c: Want(ret=('unit',), out={0: None})


@spec('Sparse.FromIterator.from_iter')
def _(c):
    T, s = c.n(0), c.seq(0)
    if c.dec(N - T):
        return Want(ret=('seq', s + [(N - T, None)]))
    for a, b, k, n in sparse.mrange(c.st, s[0][1][3], N, T):
        if k == '1' or (k == '?' and c.dec(n - 1)):
            return REF('a value lies beyond the capacity')
    return Want(ret=('seq', c.take(s, N)))


def run_compared(st, src, p, q):
    """were the values at [p,q) found equal (True), some different (False), or some not looked at (None)?"""
    while st.dec(q - p - 1):
        nxt = None
        for t, v in st.toks.items():
            if type(t) is not tuple or len(t) != 3:
                continue
            if t[0] == 'eq' and type(t[1]) is VElem and type(t[2]) is VElem:
                xs = [(ONE, (t[i].src, t[i].off)) for i in (1, 2)]
            elif t[0] == 'seqeq' and len(t[1]) == len(t[2]) == 1 and t[1][0][1] and t[2][0][1]:
                xs = [(t[i][0][0], t[i][0][1][1:3]) for i in (1, 2)]
            else:
                continue
            for (n, a), (_, b) in (xs, xs[::-1]):
                if a[0] == 'c0' and b[0] == src and st.eqv(a[1], b[1]):
                    if v is False and st.dec(a[1] - p) and st.dec(q - a[1] - n):
                        return False
                    if v is True and st.dec(p - a[1]) and st.dec(a[1] + n - p - 1):
                        nxt = a[1] + n
        if nxt is None:
            return None
        p = nxt
    return True


@spec('Sparse.PartialEq.eq')
def _(c):
    def chk(st):
        got = st.decide(st.aux['ret'].c)
        why = None
        unknown = None
        o = c.a[1]
        if o.kind == 'map':
            src, m = o.extra, o.name
            if not st.dec_eq(c.n(0) - o.len):
                why = 'the sizes differ'
        else:
            src, m = ('c0', 'm0') if st.aux.get('alias') else ('c1', 'm1')
            if sparse.resolve(st, m) != sparse.resolve(st, 'm0'):
                k = ('bitseq', 'm0', 'm1')
                r = ('bitseq', 'm1', 'm0')
                if st.toks.get(k, st.toks.get(r)) is False:
                    why = 'the occupied indices differ'
                elif not st.dec_eq(c.n(0) - c.n(1)):
                    why = 'the sizes differ'
                else:
                    unknown = 'the occupied indices were not compared'
        if why is None:
            for n, x in sparse.expand(st, c.seq(0), True):
                if x is None:
                    continue
                if x[3] is None and not st.dec_eq(n - 1):
                    if o.kind == 'map' or unknown:
                        for p, q, k, card in sparse.mrange(st, m, x[2], x[2] + n):
                            if k == '0' and st.dec(q - p - 1) or k == '?' and not st.dec_eq(q - p - card):
                                why = 'an index is occupied on one side only'
                    r = run_compared(st, src, x[2], x[2] + n)
                    if r is None:
                        unknown = 'not all values were compared'
                    elif r is False:
                        why = 'two values differ'
                    continue
                if x[3] is not None:
                    unknown = 'not all values were compared'
                    continue
                if o.kind == 'map' or unknown:
                    if not sparse.mget(st, m, x[2]):
                        why = 'an index is occupied on one side only'
                        continue
                r = run_compared(st, src, x[2], x[2] + 1)
                if r is None:
                    unknown = 'not all values were compared'
                elif r is False:
                    why = 'two values differ'
        if got and why:
            return ('result', 'equal although ' + why)
        if got and unknown:
            return ('result', 'equal although ' + unknown)
        if not got and not why:
            return ('result', 'unequal although nothing differs')
    return Want(checks=[chk])
