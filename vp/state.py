"""Abstract state: frames, memory cells, facts, element accounting, element storage segments."""
from .lin import *
from .values import *
from .tokens import known_equal, known_order


class NeedSplit(Exception):
    """the state must be partitioned; alts is a list of lists of ('ge'|'eq', lin)"""
    def __init__(self, alts):
        self.alts = alts


class Fork(Exception):
    """replace the state by these states (each re-executes the current step)"""
    def __init__(self, states):
        self.states = states


class Kill(Exception):
    """the state is unreachable or was reported"""


class Imprecise(Exception):
    def __init__(self, why):
        self.why = why


CH = 'sized_chunk::Chunk'
RB = 'ring_buffer::RingBuffer'
SP = 'sparse_chunk::SparseChunk'
IA = 'inline_array::InlineArray'
RAW = 'ring_buffer::index::RawIndex'
CONTAINERS = (CH, RB, SP, IA)
N = L('N')


class State:
    __slots__ = ('I', 'frames', 'cells', 'facts', 'iters', 'drops', 'created', 'log', 'unw', 'toks',
                 'consts', 'lens', 'imprecise', 'trail', 'masks', 'hf', 'user', 'sizes', 'aux')

    def __init__(self, I):
        self.I = I
        self.frames = ()
        self.cells = {}
        self.facts = Facts()
        self.iters = {}
        self.drops = ()
        self.created = ()
        self.log = ()
        self.unw = None
        self.toks = {}
        self.consts = {}
        self.lens = ()
        self.imprecise = None
        self.trail = ()
        self.masks = {}
        self.hf = None
        self.user = 0
        self.sizes = {}
        self.aux = {}

    def clone(self):
        s = State.__new__(State)
        for k in State.__slots__:
            v = getattr(self, k)
            if type(v) is dict:
                v = dict(v)
            setattr(s, k, v)
        return s

    def fresh(self, p='x'):
        # numbered per state: a step that is re-executed after a case split names the same things again
        n = self.aux.get('nfresh', 0) + 1
        self.aux['nfresh'] = n
        return '%s_%d' % (p, n)

    # ---------------------------------------------------------- facts
    def add(self, kind, l):
        """assume; raises Kill when contradictory"""
        f = self.facts.add_ge(l) if kind == 'ge' else self.facts.add_eq(l)
        if f is None:
            raise Kill()
        self.facts = f

    def ge(self, l):
        return self.facts.ge(l)

    def dec(self, l):
        """decide l>=0, splitting if open"""
        if self.facts.ge(l):
            return True
        if self.facts.ge(-l - 1):
            return False
        raise NeedSplit([[('ge', l)], [('ge', -l - 1)]])

    def dec_eq(self, l):
        if self.facts.eq(l):
            return True
        if self.facts.ge(l - 1) or self.facts.ge(-l - 1):
            return False
        alts = [[('eq', l)]]
        alts.append([('ge', l - 1)])
        alts.append([('ge', -l - 1)])
        raise NeedSplit(alts)

    def eqv(self, a, b):
        return self.facts.eq(a - b)

    def decide(self, c):
        """decide a VBool condition"""
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'ge':
            return self.dec(c[1])
        if k == 'eq':
            return self.dec_eq(c[1])
        if k == 'ne':
            return not self.dec_eq(c[1])
        if k in ('tok', 'ntok'):
            t = c[1]
            if t in self.toks:
                v = self.toks[t]
            elif known_equal(self, t):
                v = True
            else:
                r = []
                for b in (True, False):
                    s = self.clone()
                    s.toks[t] = b
                    r.append(s)
                raise Fork(r)
            return v if k == 'tok' else not v
        raise Imprecise('condition %r' % (c,))

    def finding(self, kind, msg):
        self.I.finding(self, kind, msg)
        raise Kill()

    def ensure(self, l, kind, msg):
        """obligation l>=0"""
        if not self.dec(l):
            self.finding(kind, msg)

    # ---------------------------------------------------------- cells
    def get(self, cell, path=()):
        v = self.cells.get(cell, VJunk)
        for i, f in enumerate(path):
            if type(v) is VCont:
                v = self.materialize(cell, path[:i])
            if type(v) is VAgg:
                if f < len(v.fs):
                    v = v.fs[f]
                else:
                    raise Imprecise('field %s of %s' % (f, v.path))
            elif v is VJunk:
                return VJunk
            elif type(v) in (VSto, VInl, VBits):
                # MaybeUninit / ManuallyDrop / bitmap wrapper fields are transparent
                continue
            elif type(v) is VOp:
                return VOp(('field', f, v.tag))
            elif v is VMoved or v is VPoison:
                raise Imprecise('field of %r' % (v,))
            else:
                raise Imprecise('field %s of %r' % (f, type(v).__name__))
        if v is VPoison:
            raise Imprecise('value lost in loop summary')
        return v

    def put(self, cell, path, val):
        if not path:
            self.cells[cell] = val
            return
        v = self.cells.get(cell, VJunk)
        if type(v) is VCont:
            v = self.materialize(cell, ())
        self.cells[cell] = self._put(v, path, val, cell, ())

    def _put(self, v, path, val, cell, pre):
        if not path:
            return val
        if type(v) is VCont:
            self.materialize(cell, pre)
            v = self.get(cell, pre)
        f = path[0]
        if v is VJunk or v is VMoved:
            fs = [VJunk] * (f + 1)
            v = VAgg('?', 0, tuple(fs))
        if type(v) is not VAgg:
            if type(v) in (VSto, VInl, VBits):
                return self._put(v, path[1:], val, cell, pre + (f,))
            raise Imprecise('write into field of %s' % type(v).__name__)
        fs = list(v.fs)
        while len(fs) <= f:
            fs.append(VJunk)
        fs[f] = self._put(fs[f], path[1:], val, cell, pre + (f,))
        return VAgg(v.path, v.v, tuple(fs))

    # ---------------------------------------------------------- containers
    def fld(self, path, name):
        m = self.I.prog.fields.get(path)
        if m is None or name not in m:
            raise Imprecise('no field %s in %s' % (name, path))
        return m[name]

    def mk(self, path, **kw):
        m = self.I.prog.fields.get(path)
        if m is None:
            raise Imprecise('no struct %s' % path)
        fs = [VJunk] * len(m)
        for k, v in kw.items():
            if k not in m:
                raise Imprecise('no field %s in %s' % (k, path))
            fs[m[k]] = v
        return VAgg(path, 0, tuple(fs))

    def materialize(self, cell, path):
        v = self.cells[cell]
        for f in path:
            v = v.fs[f]
        if type(v) is not VCont:
            return v
        nv = self.physical(v)
        self.put(cell, path, nv)
        return nv

    def physical(self, v):
        ln = ZERO
        for n, c in v.pieces:
            ln = ln + n
        self.add('ge', ln)
        if v.path == CH:
            l = L(self.fresh('left'))
            self.add('ge', l)
            self.add('ge', N - l - ln)
            segs = [(ZERO, l, None)]
            p = l
            for n, c in v.pieces:
                segs.append((p, p + n, c))
                p = p + n
            segs.append((p, N, None))
            return self.mk(CH, left=VInt(l), right=VInt(l + ln), data=VSto(N, tuple(segs)))
        if v.path == RB:
            if self.aux.get('n0'):
                self.add('eq', ln)
                return self.mk(RB, origin=VAgg(RAW, 0, (VInt(ZERO),)), length=VInt(ZERO), data=VSto(N, ((ZERO, N, None),)))
            o = L(self.fresh('origin'))
            self.add('ge', o)
            self.add('ge', N - o - 1)
            self.add('ge', N - ln)
            segs = []
            p = o
            for n, c in v.pieces:
                segs.append((p, p + n, c))
                p = p + n
            segs.append((p, o + N, None))
            return self.mk(RB, origin=VAgg(RAW, 0, (VMod(o),)), length=VInt(ln), data=VSto('ring', tuple(segs)))
        if v.path == IA:
            cap = self.cap(IA)
            self.add('ge', cap - ln)
            segs = []
            p = ZERO
            for n, c in v.pieces:
                segs.append((p, p + n, c))
                p = p + n
            segs.append((p, cap, None))
            return self.mk(IA, data=VInl(VInt(ln), VSto(cap, tuple(segs))))
        raise Imprecise('materialize ' + v.path)

    def cap(self, path):
        return L('CAP') if path == IA else N

    def valid_window(self, v, kind='invalid-state'):
        """(start,len,sto) of the initialised window; reports an invalid window"""
        if v.path == CH:
            l, r, d = (v.fs[self.fld(CH, x)] for x in ('left', 'right', 'data'))
            if type(l) is not VInt or type(r) is not VInt or type(d) is not VSto:
                if l is VJunk or r is VJunk:
                    self.finding('invalid-state', 'chunk bounds are uninitialised')
                raise Imprecise('chunk fields %r %r' % (l, r))
            self.ensure(l.l, kind, 'left bound negative')
            self.ensure(r.l - l.l, kind, 'left bound %r exceeds right bound %r' % (l.l, r.l))
            self.ensure(N - r.l, kind, 'right bound %r exceeds the capacity' % (r.l,))
            return l.l, r.l - l.l, d
        if v.path == RB:
            o, n, d = (v.fs[self.fld(RB, x)] for x in ('origin', 'length', 'data'))
            if type(o) is VAgg and o.path == RAW:
                o = o.fs[0]
            if o is VJunk or n is VJunk:
                self.finding('invalid-state', 'ring buffer start or length is uninitialised')
            if type(o) not in (VMod, VInt) or type(n) is not VInt or type(d) is not VSto:
                raise Imprecise('ring fields')
            if type(o) is VInt:
                self.ensure(o.l, kind, 'start negative')
                if self.aux.get('n0'):
                    self.ensure(-o.l, kind, 'start %r in a buffer without capacity' % (o.l,))
                else:
                    self.ensure(N - 1 - o.l, kind, 'start %r not below the capacity' % (o.l,))
            self.ensure(n.l, kind, 'negative length')
            self.ensure(N - n.l, kind, 'length %r exceeds the capacity' % (n.l,))
            return o.l, n.l, d
        if v.path == IA:
            d = v.fs[self.fld(IA, 'data')]
            if type(d) is not VInl:
                raise Imprecise('inline data')
            if d.len is VJunk:
                self.finding('invalid-state', 'length header is uninitialised')
            if type(d.len) is not VInt:
                raise Imprecise('inline length')
            self.ensure(d.len.l, kind, 'negative length')
            self.ensure(L('CAP') - d.len.l, kind, 'length %r exceeds CAPACITY' % (d.len.l,))
            return ZERO, d.len.l, d.sto
        raise Imprecise('window of ' + v.path)

    def pieces(self, v):
        """logical contents [(len, content)] of Chunk / RingBuffer / InlineArray"""
        if type(v) is VCont:
            return [(n, c) for n, c in v.pieces]
        if type(v) is not VAgg or v.path not in (CH, RB, IA):
            raise Imprecise('contents of %r' % (v,))
        s, n, d = self.valid_window(v)
        if not self.dec(n - 1):
            return []
        return self.read_range(d, s, n)

    def sparse(self, v):
        m, d = (v.fs[self.fld(SP, x)] for x in ('map', 'data'))
        if m is VJunk:
            self.finding('invalid-state', 'occupancy map is uninitialised')
        if type(m) is not VBits or type(d) is not VSto:
            raise Imprecise('sparse fields')
        return m, d

    # ---------------------------------------------------------- segments
    def cadj(self, c, d):
        """content at distance d into a segment with content c"""
        if c is None or c[0] in ('0', '1', 'M'):
            return c
        if c[0] == 'E':
            return ('E', c[1], c[2] + d, c[3])
        return c

    def cut(self, segs, p):
        """segs with a boundary at p; index of the segment starting at p (len(segs) if p is the end)"""
        for i, (a, b, c) in enumerate(segs):
            if self.eqv(a, p):
                return list(segs), i
        if segs and self.eqv(segs[-1][1], p):
            return list(segs), len(segs)
        for i, (a, b, c) in enumerate(segs):
            if not self.dec(p - a):
                raise Imprecise('position before storage window')
            if self.dec(b - 1 - p):
                # a <= p < b
                if self.dec_eq(p - a):
                    return list(segs), i
                o = list(segs)
                o[i:i + 1] = [(a, p, c), (p, b, self.cadj(c, p - a))]
                return o, i + 1
        if not self.dec_eq(p - segs[-1][1]):
            raise Imprecise('position behind storage window')
        return list(segs), len(segs)

    def norm_segs(self, segs):
        o = []
        for a, b, c in segs:
            if self.eqv(a, b):
                continue
            if o:
                a0, b0, c0 = o[-1]
                if c0 is None and c is None:
                    o[-1] = (a0, b, None)
                    continue
                if c0 and c and c0[0] == c[0] and c[0] in ('0', '1', 'M') and c0 == c:
                    o[-1] = (a0, b, c)
                    continue
                if c0 and c and c0[0] == 'E' and c[0] == 'E' and c0[1] == c[1] and c0[3] == c[3] \
                        and self.eqv(c0[2] + (b0 - a0), c[2]):
                    o[-1] = (a0, b, c0)
                    continue
            o.append((a, b, c))
        return tuple(o)

    def to_window(self, segs, p, n):
        """ring storage: representative p' of p (mod N) such that [p',p'+n) lies in the window, and the
        (possibly rotated) segments"""
        w = segs[0][0]
        best = None
        for q in (0, 1, -1, 2, -2):
            r = p - N.scale(q)
            a, b = self.ge(r - w), self.ge(w + N - 1 - r)
            if a and b:
                best = r
                break
        if best is None:
            for q in (0, 1, -1, 2, -2):
                r = p - N.scale(q)
                if self.ge(w - 1 - r) or self.ge(r - w - N):
                    continue
                if not self.dec(r - w) or not self.dec(w + N - 1 - r):
                    continue
                best = r
                break
        if best is None:
            raise Imprecise('ring position out of reach')
        if n is not None and not self.ge(w + N - best - n):
            if self.dec(w + N - best - n):
                return best, list(segs)
            s, i = self.cut(segs, best)
            s = s[i:] + [(a + N, b + N, c) for a, b, c in s[:i]]
            return best, s
        return best, list(segs)

    def read_range(self, sto, p, n):
        """contents of [p,p+n) as [(len,content)]; the caller has checked bounds"""
        segs = sto.segs
        if sto.cap == 'ring':
            p, segs = self.to_window(segs, p, n)
        segs, i = self.cut(segs, p)
        segs, j = self.cut(segs, p + n)
        segs, i = self.cut(segs, p)
        o = []
        for a, b, c in self.norm_segs(segs[i:j]):
            o.append((b - a, c))
        return o

    def write_range(self, sto, p, pieces):
        n = ZERO
        for k, c in pieces:
            n = n + k
        segs = sto.segs
        if sto.cap == 'ring':
            p, segs = self.to_window(segs, p, n)
        segs, i = self.cut(segs, p)
        segs, j = self.cut(segs, p + n)
        segs, i = self.cut(segs, p)
        mid = []
        q = p
        for k, c in pieces:
            mid.append((q, q + k, c))
            q = q + k
        return VSto(sto.cap, self.norm_segs(segs[:i] + mid + segs[j:]))

    # ---------------------------------------------------------- element accounting
    def addiv(self, lst, src, a, b):
        for i, (s, x, y) in enumerate(lst):
            if s == src:
                if self.eqv(y, a):
                    return lst[:i] + ((s, x, b),) + lst[i + 1:]
                if self.eqv(x, b):
                    return lst[:i] + ((s, a, y),) + lst[i + 1:]
        return lst + ((src, a, b),)

    def reduce_mod(self, v):
        """the actual index in [0,N) of a VMod"""
        if type(v) is VInt:
            return v.l
        for q in (0, 1, -1, 2, -2):
            r = v.l - N.scale(q)
            if self.ge(r) and self.ge(N - 1 - r):
                return r
        for q in (0, 1, -1, 2, -2):
            r = v.l - N.scale(q)
            if self.ge(-r - 1) or self.ge(r - N):
                continue
            if self.dec(r) and self.dec(N - 1 - r):
                return r
        raise Imprecise('index too far out for modular reduction')
