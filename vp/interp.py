"""Abstract interpreter over the dumped MIR.

State: memory cells holding abstract values, a conjunction of linear facts over symbolic integers, and
an account of every element.  Element storage is abstracted by array segmentation with symbolic bounds.
Control is partitioned by trace; loops are summarised (vp/loops.py)."""
import time
from .lin import *
from .values import *
from .state import *

WRAP = Lin(2 ** 64)
UNWIND = object()


class Multi(Exception):
    """outcome of a call: list of (state, value | UNWIND)"""
    def __init__(self, outs):
        self.outs = outs


class Frame:
    __slots__ = ('body', 'bb', 'idx', 'fid', 'dest', 'to', 'unwind', 'kind')

    def __init__(self, body, bb, idx, fid, dest, to, unwind, kind=None):
        self.body = body
        self.bb = bb
        self.idx = idx
        self.fid = fid
        self.dest = dest
        self.to = to
        self.unwind = unwind
        self.kind = kind

    def at(self, bb, idx):
        return Frame(self.body, bb, idx, self.fid, self.dest, self.to, self.unwind, self.kind)


def strip_wrappers(t):
    while t and t['k'] == 'adt' and t['path'] in ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop',
                                                  'std::mem::MaybeDangling',
                                                  'std::cell::UnsafeCell'):
        t = t['args'][0]
    return t


def is_usize(t):
    return t is not None and t.get('k') == 'other' and t.get('name') == 'usize'


PRIMS = ('u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'char')


class Interp:
    def __init__(self, prog, specs=None):
        self.prog = prog
        self.root = None
        self.findings = []
        self.undecided = []
        self.capped = 0
        self.cutat = {}
        self.loopstat = {}      # loop -> [summaries, paths closed by induction, summaries found inexact]
        self.deps = set()
        self.nsteps = 0
        self.nstates = 0
        self.maxiter = 3
        self.ptrcompared = False    # did the code compare pointers into different objects?
        self.drive = None           # `next` of the iterator the root returns, when its first items are wanted
        self.cost = None        # largest number of elements one step may touch (None: not counted)
        self.deadline = None
        self.budget = 60000
        self.contracts = {}
        self.natives = {}
        self.unresolved = {}
        from . import loops
        self.loopmgr = loops.loop_head
        self.report_enabled = True
        from . import models
        models.install(self)
        self.visited = set()

    # ------------------------------------------------------------ reporting
    def finding(self, st, kind, msg):
        if st.imprecise:
            self.undecided.append((st.imprecise, self.where(st)))
            return
        m = product_model(st.facts)
        if m is None:
            self.undecided.append(('no integer witness', self.where(st)))
            return
        if not self.report_enabled:
            return
        sums = [s for s in st.aux.get('sums', ())]
        self.findings.append({'kind': kind, 'msg': msg, 'at': self.where(st), 'trail': list(st.trail),
                              'unw': st.unw, 'sums': sums, 'facts': st.facts if sums else None,
                              'model': {k: v for k, v in sorted(m.items()) if '*' not in k}})

    def where(self, st):
        for f in reversed(st.frames):
            if f.body.local:
                b = f.body.blocks[f.bb]
                if f.idx < len(b['st']) and 'at' in b['st'][f.idx]:
                    return b['st'][f.idx]['at'] + ' in ' + f.body.path
                return b['term'].get('at', '?') + ' in ' + f.body.path
        return st.trail[-1] if st.trail else '?'

    def settle(self):
        """drop findings that rest on an inexact loop summary and have no unrolled witness"""
        keep = []
        for f in self.findings:
            bad = [s for s in f['sums'] if not s.exact]
            if bad:
                h = f['facts']
                for s in bad:
                    h = h and h.add_eq(L(s.k))
                m = h and product_model(h)
                if m is None:
                    self.undecided.append(('only from an inexact loop summary: ' + f['kind'], f['at']))
                    continue
                f['model'] = {k: v for k, v in sorted(m.items()) if '*' not in k}
            keep.append(f)
        self.findings = keep
        for f in keep:
            f['facts'] = None
            f['sums'] = []

    # ------------------------------------------------------------ driver
    def run(self, states, on_exit):
        r = self.run_all(states, on_exit)
        self.settle()
        return r

    def run_all(self, states, on_exit):
        work = list(states)
        n = 0
        while work:
            s = work.pop()
            n += 1
            self.nstates += 1
            if n > self.budget or (self.deadline and time.time() > self.deadline):
                self.undecided.append(('analysis budget exhausted', self.root or '?'))
                self.capped += 1
                return False
            while True:
                if not s.frames:
                    try:
                        c = s.clone()
                        r = on_exit(c)
                        if r:
                            work.extend(r)
                    except NeedSplit as e:
                        self.split(s, e, work)
                    except Fork as e:
                        work.extend(e.states)
                    except Kill:
                        pass
                    except Imprecise as e:
                        self.undecided.append((e.why, 'exit'))
                    break
                t = s.clone()
                try:
                    t = self.block(t)
                    if t is None:
                        break
                    if type(t) is list:
                        work.extend(t)
                        break
                    s = t
                except NeedSplit as e:
                    self.split(s, e, work)
                    break
                except Fork as e:
                    work.extend(e.states)
                    break
                except Kill:
                    break
                except Imprecise as e:
                    self.undecided.append((e.why, self.where(t)))
                    break
        return True

    def split(self, s, e, work):
        for alt in reversed(e.alts):
            c = s.clone()
            try:
                for k, l in alt:
                    c.add(k, l)
            except Kill:
                continue
            work.append(c)

    # ------------------------------------------------------------ places
    def place(self, st, p, fr):
        """resolve to ('c',cell,path) | ('e',VEl) | ('s',VSl)"""
        loc = ('c', (fr.fid, p['l']), ())
        for e in p['proj']:
            k = e['p']
            if k == 'deref':
                v = self.read(st, loc)
                loc = self.deref(st, v)
            elif k == 'field':
                if loc[0] == 'c':
                    loc = ('c', loc[1], loc[2] + (e['i'],))
                elif loc[0] == 'x':
                    # a value read through an element pointer
                    loc = ('x', self.getfield(st, loc[1], e['i']))
                else:
                    v = self.read(st, loc)
                    loc = ('x', self.getfield(st, v, e['i']))
            elif k == 'downcast' or k == 'cast':
                pass
            elif k == 'index' or k == 'cindex':
                if k == 'index':
                    iv = self.read(st, ('c', (fr.fid, e['local']), ()))
                    iv = VInt(self.num(st, iv))
                else:
                    iv = VInt(L(e['off']))
                    if e.get('end'):
                        iv = None
                sl = self.as_slice(st, loc)
                if sl is None or iv is None:
                    raise Imprecise('index projection')
                loc = ('e', self.padd(st, sl.p, iv.l))
            else:
                raise Imprecise('projection ' + k)
        return loc

    def getfield(self, st, v, i):
        if type(v) is VAgg and i < len(v.fs):
            return v.fs[i]
        if v is VJunk:
            return VJunk
        if type(v) is VOp:
            return VOp(('field', i, v.tag))
        if type(v) is VElem:
            raise Imprecise('field of element')
        raise Imprecise('field of %s' % type(v).__name__)

    def deref(self, st, v):
        t = type(v)
        if t is VPtr:
            return ('c', v.cell, v.path)
        if t is VEl:
            return ('e', v)
        if t is VSl:
            return ('s', v)
        if t is VOp or t is VStr:
            return ('x', VOp(('deref', v)))
        if t is VElem:
            return ('x', VOp(('deref', v)))
        if t is VAgg and len(v.fs) == 1:
            return self.deref(st, v.fs[0])
        raise Imprecise('deref of %r' % (t.__name__,))

    def as_slice(self, st, loc):
        if loc[0] == 's':
            return loc[1]
        if loc[0] == 'c':
            v = st.get(loc[1], loc[2])
            if type(v) is VSto:
                if v.cap == 'ring':
                    return VSl(VEl(loc[1], loc[2], VInt(ZERO), 'E', None), N)
                return VSl(VEl(loc[1], loc[2], VInt(ZERO), 'E', None), v.segs[-1][1] if v.segs else ZERO)
        return None

    def read(self, st, loc):
        if loc[0] == 'c':
            return st.get(loc[1], loc[2])
        if loc[0] == 'e':
            return self.read_el(st, loc[1])
        if loc[0] == 'x':
            return loc[1]
        raise Imprecise('read of unsized place')

    def write(self, st, loc, v):
        if loc[0] == 'c':
            st.put(loc[1], loc[2], v)
        elif loc[0] == 'e':
            self.write_el(st, loc[1], v)
        elif loc[0] == 'x':
            pass
        else:
            raise Imprecise('write to unsized place')

    # ------------------------------------------------------------ element pointers
    def sto(self, st, p):
        v = st.get(p.cell, p.path)
        if type(v) is VInl:
            v = v.sto
        if type(v) is not VSto:
            raise Imprecise('element pointer into %s' % type(v).__name__)
        return v

    def setsto(self, st, p, s):
        v = st.get(p.cell, p.path)
        if type(v) is VInl:
            s = VInl(v.len, s)
        st.put(p.cell, p.path, s)

    def padd(self, st, p, n):
        """p + n elements"""
        if type(p) is VEl:
            pos = p.pos
            if type(n) is VMod:
                if type(pos) is VInt and st.eqv(pos.l, ZERO):
                    return VEl(p.cell, p.path, n, p.u, p.view)
                n = st.reduce_mod(n)
            if type(n) is VInt:
                n = n.l
            if p.u != 'E':
                return self.inline_padd(st, p, n)
            if type(pos) is VMod:
                pos = VInt(st.reduce_mod(pos))
            return VEl(p.cell, p.path, VInt(self.wrap_ptr(st, pos.l + n)), p.u, p.view)
        if type(p) is VSl:
            return self.padd(st, p.p, n)
        raise Imprecise('pointer arithmetic on %s' % type(p).__name__)

    def wrap_ptr(self, st, l):
        # address arithmetic is modulo 2^64
        c = l.c
        if c >= 2 ** 63:
            return l - WRAP
        return l

    def chk(self, st, p, n, what):
        """bounds obligation for n>=1 elements at p; returns (sto, pos)"""
        s = self.sto(st, p)
        pos = p.pos
        if p.u != 'E':
            return self.inline_chk(st, p, n, what)
        if s.cap == 'ring':
            if type(pos) is VMod:
                if not st.eqv(n, ONE):
                    pos = VInt(st.reduce_mod(pos))
                else:
                    return s, pos.l
            lo, hi = ZERO, N
        else:
            if type(pos) is VMod:
                pos = VInt(st.reduce_mod(pos))
            lo, hi = (s.segs[0][0], s.segs[-1][1]) if s.segs else (ZERO, ZERO)
        st.ensure(pos.l - lo, 'oob', '%s at %r: before the storage' % (what, pos.l))
        st.ensure(hi - pos.l - n, 'oob', '%s of %r element(s) at %r: past the end of the storage (%r)' %
                  (what, n, pos.l, hi))
        return s, pos.l

    def inline_padd(self, st, p, n):
        from . import inline
        return inline.padd(self, st, p, n)

    def inline_chk(self, st, p, n, what):
        from . import inline
        return inline.chk(self, st, p, n, what)

    def read_el(self, st, p, what='read'):
        if p.view == 'usize' and p.u == 'B':
            from . import inline
            return inline.read_header(self, st, p)
        s, pos = self.chk(st, p, ONE, what)
        r = st.read_range(s, pos, ONE)
        if len(r) != 1:
            raise Imprecise('element read spans segments')
        c = r[0][1]
        if c is None:
            st.finding('uninit-read', '%s of a slot that holds no element (slot %r)' % (what, pos))
        if c[0] == 'E':
            if c[3] is not None:
                from .sparse import mget
                if not mget(st, c[3], c[2]):
                    st.finding('uninit-read', '%s of a slot that holds no element (slot %r)' % (what, pos))
            return VElem(c[1], c[2])
        if c[0] == 'V':
            return c[1]
        raise Imprecise('content')

    def write_el(self, st, p, v):
        if p.view == 'usize' and p.u == 'B':
            from . import inline
            return inline.write_header(self, st, p, v)
        s, pos = self.chk(st, p, ONE, 'write')
        self.setsto(st, p, st.write_range(s, pos, [(ONE, self.content(v))]))

    def content(self, v):
        if type(v) is VElem:
            return ('E', v.src, v.off, None)
        if v is VJunk:
            return None
        return ('V', v)

    def sl_pieces(self, st, sl, what='read', allow_uninit=False):
        if not st.dec(sl.len - 1):
            return []
        s, pos = self.chk(st, sl.p, sl.len, what)
        r = st.read_range(s, pos, sl.len)
        if not allow_uninit:
            for n, c in r:
                if c is None:
                    st.finding('uninit-read', '%s of slots that hold no element' % what)
        return r

    # ------------------------------------------------------------ operands
    def operand(self, st, o, fr):
        k = o['o']
        if k in ('copy', 'move'):
            return self.read(st, self.place(st, o['p'], fr))
        if k == 'rtcheck':
            return VBool(self.prog.overflow if 'Overflow' in o.get('c', '') else False)
        if 'fn' in o:
            return VFn(FnBox(o['fn']))
        t = o.get('ty')
        if 'cagg' in o:
            a = o['cagg']
            return VAgg(a['path'], a['v'], tuple(self.operand(st, x, fr) for x in a['fs']))
        if 'int' in o:
            n = t.get('name')
            if n == 'bool':
                return VBool(bool(o['int']))
            return VInt(L(o['int']))
        if 'zst' in o:
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt':
                return VAgg(t['path'], 0, ())
            return zst(t)
        if 'str' in o:
            return VStr(o['str'])
        if 'param' in o:
            p = o['param']
            if p == 'N' or p.startswith('N/'):
                return VInt(N)
            try:
                return VInt(L(int(p.split('_')[0].replace('usize', ''))))
            except ValueError:
                return VInt(L('const_' + p)) if is_usize(t) else VOp(('param', p))
        if 'uneval' in o:
            return self.constant(st, o)
        if o.get('cpath'):
            return VOp(('const', o['cpath']))
        return VOp(('opaque', tyname(t)))

    def constant(self, st, o):
        key = o['uneval']
        if key in st.consts:
            return st.consts[key]
        h = self.natives.get(o.get('cpath'))
        body = self.prog.bodies.get(key)
        if body is None:
            return VOp(('const', key))
        if body.path == 'inline_array::InlineArray::<A, T>::CAPACITY' and st.aux.get('inline'):
            return VInt(L('CAP'))
        sub = st.clone()
        fid = ('const', key)
        sub.frames = (Frame(body, 0, 0, fid, None, None, 'continue', 'const'),)
        outs = []

        def fin(s):
            if s.aux.get('exit') != 'ret':
                raise Imprecise('panic in constant')
            outs.append(s)
        und = len(self.undecided)
        ok = self.run([sub], fin)
        if not ok or len(self.undecided) > und:
            del self.undecided[und:]
            raise Imprecise('constant ' + key.split('@')[0])
        res = []
        for s in outs:
            s.frames = st.frames
            v = s.aux.pop('ret')
            s.aux.pop('exit', None)
            s.consts[key] = v
            # promoted constants may point to their own cells
            res.append(s)
        if len(res) == 1:
            r = res[0]
            st.facts = r.facts
            st.consts = r.consts
            st.cells = r.cells
            st.aux = r.aux
            st.sizes = r.sizes
            return st.consts[key]
        if not res:
            raise Kill()
        raise Fork(res)

    # ------------------------------------------------------------ numbers
    def num(self, st, v):
        if type(v) is VInt:
            return v.l
        if type(v) is VMod:
            return st.reduce_mod(v)
        if type(v) is VAgg and len(v.fs) == 1:
            return self.num(st, v.fs[0])
        if v is VJunk:
            st.finding('uninit-read', 'uninitialised integer used')
        raise Imprecise('number expected, got %s' % (type(v).__name__,))

    def wrapped(self, st, l, n=0):
        """l reduced into [0,2^64)"""
        if n > 2 or any('*' in x for x in l.syms()):
            if n == 0 and st.facts.ge(l) and st.facts.ge(L(MAX) - l):
                return l
            k = L(st.fresh('wrapped'))
            st.add('ge', k)
            st.add('ge', L(MAX) - k)
            return k
        if st.dec(l):
            if st.dec(L(MAX) - l):
                return l
            return self.wrapped(st, l - WRAP, n + 1)
        return self.wrapped(st, l + WRAP, n + 1)

    def binop(self, st, op, a, b, ty):
        name = ty.get('name') if ty else None
        if type(a) is VAddr or type(b) is VAddr:
            return self.addr_op(st, op, a, b)
        if type(a) is VBool or type(b) is VBool:
            return self.boolop(st, op, a, b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and (type(a) in (VPtr, VEl) or type(b) in (VPtr, VEl)):
            if a == b and op in ('Eq', 'Ne'):
                return VBool(op == 'Eq')
            if type(a) is VEl and type(b) is VEl and (a.cell, a.path) == (b.cell, b.path) and \
                    type(a.pos) is VInt and type(b.pos) is VInt:
                return self.cmpop(op, a.pos.l, b.pos.l)
            self.ptrcompared = True
            if type(a) is type(b) and a[:2] != b[:2] and op in ('Eq', 'Ne'):
                return VBool(op == 'Ne')
            return VBool(('tok', ('ptrcmp', op, a, b)))
        if type(a) is VSl and type(b) is VSl and op in ('Eq', 'Ne'):
            r = st.decide(self.binop(st, 'Eq', a.p, b.p, None).c) and st.dec_eq(a.len - b.len)
            return VBool(r if op == 'Eq' else not r)
        if op == 'Offset':
            return self.padd(st, a, b)
        if type(a) is VMod or type(b) is VMod:
            if op in ('Eq', 'Ne'):
                r = self.modeq(st, a, b)
                if r is not None:
                    return VBool(r if op == 'Eq' else not r)
            if type(a) is VMod and op not in ('Eq', 'Ne') or True:
                a = VInt(self.num(st, a))
                b = VInt(self.num(st, b))
        if type(a) is not VInt or type(b) is not VInt:
            if a is VJunk or b is VJunk:
                st.finding('uninit-read', 'uninitialised integer used')
            if type(a) in (VOp, VElem, VInt, VAgg, VStr) and type(b) in (VOp, VElem, VInt, VAgg, VStr):
                if op in ('Eq', 'Ne'):
                    return VBool(('tok' if op == 'Eq' else 'ntok', ('eq', a, b)))
                if op in ('Lt', 'Le', 'Gt', 'Ge'):
                    return VBool(('tok', (op, a, b)))
                r = VOp((op, a, b))
                if op.endswith('WithOverflow'):
                    return VAgg('tuple', 0, (r, VBool(('tok', ('ovf', op, a, b)))))
                return r
            raise Imprecise('binop %s on %s,%s' % (op, type(a).__name__, type(b).__name__))
        x, y = a.l, b.l
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.cmpop(op, x, y)
        if op == 'Cmp':
            if st.dec_eq(x - y):
                return VAgg('std::cmp::Ordering', 1, ())
            return VAgg('std::cmp::Ordering', 0 if st.dec(y - x - 1) else 2, ())
        if not is_usize(ty) and name not in ('u64',):
            if x.is_const() and y.is_const() and op in ('Add', 'Sub', 'AddWithOverflow', 'SubWithOverflow',
                                                        'AddUnchecked', 'SubUnchecked', 'Mul', 'MulUnchecked'):
                r = VInt({'A': x + y, 'S': x - y, 'M': x.mul(y)}[op[0]])
                return VAgg('tuple', 0, (r, VBool(False))) if op.endswith('WithOverflow') else r
            if op == 'BitAnd' and x == y:
                return a
            r = VOp((op, x, y))
            if op.endswith('WithOverflow'):
                return VAgg('tuple', 0, (r, VBool(('tok', ('ovf', op, x, y)))))
            return r
        if op in ('Add', 'Sub', 'Mul', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow',
                  'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            if op[0] == 'A':
                r = x + y
            elif op[0] == 'S':
                r = x - y
            else:
                r = self.mul(st, x, y)
            if op.endswith('Unchecked'):
                return VInt(r)
            if op.endswith('WithOverflow'):
                if op[0] == 'S':
                    over = not st.dec(r)
                else:
                    over = not st.dec(L(MAX) - r)
                return VAgg('tuple', 0, (VInt(self.wrapped(st, r)) if over else VInt(r), VBool(over)))
            return VInt(self.wrapped(st, r))
        if op in ('Div', 'Rem'):
            return self.divrem(st, op, x, y)
        if op in ('Shr',) and y.is_const() and 0 <= y.c < 64:
            return self.divrem(st, 'Div', x, Lin(2 ** y.c))
        if op in ('Shl',) and y.is_const() and 0 <= y.c < 64:
            return VInt(self.wrapped(st, x.scale(2 ** y.c)))
        if op == 'BitAnd' and y.is_const() and (y.c & (y.c + 1)) == 0:
            return self.divrem(st, 'Rem', x, Lin(y.c + 1))
        if op in ('BitAnd', 'BitOr', 'BitXor') and x.is_const() and y.is_const():
            return VInt(L({'BitAnd': x.c & y.c, 'BitOr': x.c | y.c, 'BitXor': x.c ^ y.c}[op]))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            # the low bits cleared, set or flipped: the remainder by a power of two
            for a, b in ((x, y), (y, x)):
                if b.is_const() and b.c >= 0:
                    m = MAX - b.c if op == 'BitAnd' else b.c
                    if m & (m + 1) == 0 and m < MAX:
                        low = self.divrem(st, 'Rem', a, Lin(m + 1)).l
                        return VInt({'BitAnd': a - low, 'BitOr': a - low + m, 'BitXor': a - low.scale(2) + m}[op])
        if op == 'BitAnd':
            for a, b in ((x, y), (y, x)):
                if st.eqv(b, N - 1) and st.ge(N - 1):
                    return self.maskn(st, a)
        raise Imprecise('operator ' + op)

    def pow2(self, st):
        """is the capacity a power of two?  (an unknown of the type, split once per path)"""
        n = st.facts.norm(N)
        if n.is_const():
            return n.c > 0 and n.c & (n.c - 1) == 0
        if not st.dec(N - 1):
            return False
        return st.dec(L('pow2') - 1)

    def maskn(self, st, x):
        """x & (N-1).  For a capacity that is no power of two the case 3 stands for all
        of them: what goes wrong there is reported, what goes right there decides nothing"""
        if self.pow2(st):
            return self.divrem(st, 'Rem', x, N)
        if not st.dec_eq(N - 3):
            raise Imprecise('mask by a capacity that is no power of two')
        for k in range(9):
            if st.dec_eq(x - k):
                return VInt(L(k & 2))
        raise Imprecise('mask of a large value')

    def mul(self, st, x, y):
        x, y = st.facts.norm(x), st.facts.norm(y)
        return x.mul(y)

    def cmpop(self, op, x, y):
        if op == 'Eq':
            d = x - y
            return VBool(d.c == 0 if d.is_const() else ('eq', d))
        if op == 'Ne':
            d = x - y
            return VBool(d.c != 0 if d.is_const() else ('ne', d))
        d = {'Lt': y - x - 1, 'Le': y - x, 'Gt': x - y - 1, 'Ge': x - y}[op]
        return VBool(d.c >= 0 if d.is_const() else ('ge', d))

    def modeq(self, st, a, b):
        """a,b in [0,N): equality modulo N"""
        for v in (a, b):
            if type(v) is VInt:
                if not (st.ge(v.l) and st.ge(N - 1 - v.l)):
                    return None
            elif type(v) is not VMod:
                return None
        return self.cong0(st, a.l - b.l)

    def cong0(self, st, d):
        """is d congruent 0 modulo N?  splits on the quotient"""
        d = st.facts.norm(d)
        if d.is_const() and d.c == 0:
            return True
        # |d| is bounded by a small multiple of N on every path of interest
        for q in (0, 1, -1, 2, -2):
            e = d - N.scale(q)
            if st.eqv(e, ZERO):
                return True
        lo = None
        for q in (-2, -1, 0, 1):
            # d >= q*N ?
            if st.ge(d - N.scale(q)):
                lo = q
        if lo is None:
            raise Imprecise('cyclic comparison out of reach')
        for q in range(lo, 4):
            if st.dec_eq(d - N.scale(q)):
                return True
            if st.dec(N.scale(q) - d):
                return False
        raise Imprecise('cyclic comparison out of reach')

    def divrem(self, st, op, x, y):
        x, y = st.facts.norm(x), st.facts.norm(y)
        if op == 'Rem' and (y == N or st.eqv(y, N)):
            if st.ge(x) and st.ge(N - 1):
                return VMod(x)
        if y.is_const() and y.c == 1:
            return VInt(x if op == 'Div' else ZERO)
        if x.is_const() and y.is_const() and y.c:
            return VInt(L(x.c // y.c if op == 'Div' else x.c % y.c))
        # exact divisibility of monomials
        if len(y.t) == 1 and y.c == 0 and y.t[0][1] == 1:
            q = factor(x, y.t[0][0])
            if q is not None and st.ge(y - 1):
                return VInt(q if op == 'Div' else ZERO)
        if op == 'Rem':
            from .inline import is_align
            if is_align(x) and is_align(y):
                # both are powers of two
                return VInt(ZERO if st.dec(x - y) else x)
        key = ('div', x, y)
        qs = st.sizes.get(key)
        if qs is None:
            if not st.dec(y - 1):
                raise Imprecise('division by zero')
            for q in range(3):
                if st.ge(x - y.scale(q)) and st.ge(y.scale(q + 1) - 1 - x):
                    return VInt(L(q) if op == 'Div' else x - y.scale(q))
            nm = st.aux.get('divname', {}).get((x, y)) or st.fresh('q')
            qs = L(nm)
            st.sizes[key] = qs
            p = qs.mul(y)
            st.add('ge', qs)
            st.add('ge', x - p)
            st.add('ge', p + y - 1 - x)
            st.add('ge', x - qs)     # y>=1
        return VInt(qs if op == 'Div' else x - qs.mul(y))

    def boolop(self, st, op, a, b):
        if type(a) is not VBool or type(b) is not VBool:
            return VBool(('tok', (op, a, b)))
        x, y = st.decide(a.c), st.decide(b.c)
        r = {'Eq': x == y, 'Ne': x != y, 'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y,
             'Lt': (not x) and y, 'Gt': x and not y, 'Le': (not x) or y, 'Ge': x or not y}.get(op)
        if r is None:
            raise Imprecise('bool op ' + op)
        return VBool(r)

    def addr_op(self, st, op, a, b):
        from . import inline
        if op in ('Eq', 'Ne') and type(a) is type(b):
            self.ptrcompared = True
        return inline.addr_op(self, st, op, a, b)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, r, fr):
        k = r['r']
        if k == 'use':
            return self.operand(st, r['a'], fr)
        if k in ('ref', 'rawptr'):
            loc = self.place(st, r['p'], fr)
            if loc[0] == 'c':
                return VPtr(loc[1], loc[2])
            if loc[0] == 'x':
                v = loc[1]
                if type(v) is VOp and v.tag[0] == 'deref':
                    return v.tag[1]
                return VOp(('ref', v))
            return loc[1]
        if k == 'bin':
            return self.binop(st, r['op'], self.operand(st, r['a'], fr), self.operand(st, r['b'], fr), r.get('ty'))
        if k == 'un':
            v = self.operand(st, r['a'], fr)
            if r['op'] == 'Not':
                if type(v) is VBool:
                    return VBool(neg(v.c))
                if type(v) is VInt and (is_usize(r.get('ty')) or (r.get('ty') or {}).get('name') == 'u64'):
                    return VInt(L(MAX) - v.l)
                raise Imprecise('not')
            if r['op'] == 'PtrMetadata':
                if type(v) is VSl:
                    return VInt(v.len)
                if type(v) is VStr:
                    return VInt(L(len(v.s)))
                return VOp(('meta', v)) if type(v) is VOp else UNIT
            if type(v) is VInt and r['op'] == 'Neg':
                return VInt(-v.l)
            raise Imprecise('unary ' + r['op'])
        if k == 'discr':
            loc = self.place(st, r['p'], fr)
            v = self.read(st, loc)
            return self.discr(st, v)
        if k == 'agg':
            ops = tuple(self.operand(st, o, fr) for o in r['ops'])
            if r['kind'] == 'adt':
                if 'union' in r:
                    return ops[0]
                v = VAgg(r['path'], r['v'], ops)
                if r['path'] == RB:
                    v = ring_form(st, v)
                return v
            if r['kind'] == 'tuple':
                return VAgg('tuple', 0, ops)
            if r['kind'] == 'closure':
                return VAgg('closure:' + r['body'], 0, ops)
            if r['kind'] == 'rawptr':
                p, m = ops
                if type(p) is VEl and type(m) in (VInt, VMod):
                    return VSl(p, self.num(st, m))
                if m == UNIT:
                    return p
                raise Imprecise('raw pointer aggregate')
            if r['kind'] == 'array':
                return VAgg('array', 0, ops)
            raise Imprecise('aggregate ' + r['kind'])
        if k == 'cast':
            return self.cast(st, r['kind'], self.operand(st, r['a'], fr), r['from'], r['ty'])
        if k == 'repeat':
            return VOp('repeat')
        raise Imprecise('rvalue ' + str(r.get('d', k))[:60])

    def discr(self, st, v):
        if type(v) is VAgg:
            a = self.prog.adts.get(v.path)
            if a is None:
                return VInt(L(v.v))
            return VInt(L(a['variants'][v.v]['discr']))
        if type(v) in (VOp, VElem):
            return VOp(('discr', v))
        if v is VJunk:
            # niche in an uninitialised value: only unreachable drop-flag paths read it
            return VOp(('discr', 'junk'))
        if type(v) is VBool:
            return v
        raise Imprecise('discriminant of %s' % type(v).__name__)

    def cast(self, st, kind, v, frm, to):
        if kind.startswith('PtrToPtr') or kind.startswith('PointerCoercion') or kind == 'Transmute':
            if kind.startswith('PointerCoercion') and 'Unsize' in kind:
                if type(v) is VPtr:
                    sl = self.as_slice(st, ('c', v.cell, v.path))
                    if sl is not None:
                        return sl
                    x = st.get(v.cell, v.path)
                    if type(x) is VAgg and x.path == 'array':
                        return VOp(('slice', v))
                    return VOp(('unsize', v))
                return v
            if kind == 'Transmute':
                return self.transmute(st, v, frm, to)
            if kind.startswith('PtrToPtr'):
                return self.cast_ptr(st, v, to['to'] if to['k'] in ('ptr', 'ref') else None)
            return v
        if kind.startswith('IntToInt'):
            if type(v) is VBool:
                return VInt(ONE if st.decide(v.c) else ZERO)
            if type(v) in (VInt, VMod):
                if is_usize(to) or (to.get('name') in ('u64', 'u128', 'i128')):
                    if type(v) is VInt and not st.ge(v.l):
                        return VOp(('cast', v))
                    return v
                if type(v) is VInt and v.l.is_const():
                    return v
                if to.get('name') == 'isize' and type(v) is VInt:
                    # values of interest are below 2^63; larger ones become negative
                    if st.dec(L(ISZMAX) - v.l):
                        return v
                    return VInt(v.l - WRAP)
                return VOp(('cast', to.get('name'), v))
            return VOp(('cast', to.get('name'), v))
        if 'ExposeProvenance' in kind:
            return VAddr(v)
        if kind.startswith('Subtype'):
            return v
        raise Imprecise('cast ' + kind)

    def transmute(self, st, v, frm, to):
        # pointer-like newtypes (NonNull, Unique, references, raw pointers)
        def ptrlike(t):
            return t['k'] in ('ptr', 'ref') or (t['k'] == 'adt' and t['path'].endswith('NonNull'))
        if ptrlike(frm) and ptrlike(to):
            if type(v) is VAgg and v.path.endswith('NonNull'):
                v = v.fs[0]
            if to['k'] == 'adt':
                return VAgg(to['path'], 0, (v,))
            return v
        if is_usize(frm) and to['k'] == 'adt' and to['path'].endswith('Option') and type(v) is VInt:
            # Option<NonZero<usize>>
            if st.dec_eq(v.l):
                return NONE
            return some(VAgg('std::num::NonZero', 0, (v,)))
        if type(v) in (VElem, VSto, VInl, VCont) or v is VJunk:
            return v
        if type(v) is VAgg and v.path == 'std::num::NonZero' and is_usize(to):
            return v.fs[0]
        if is_usize(frm) and to['k'] == 'adt':
            return VAgg(to['path'], 0, (v,))
        if is_usize(frm) and to['k'] in ('ptr',):
            return VAddr(v)
        raise Imprecise('transmute %s -> %s' % (tyname(frm), tyname(to)))

    def cast_ptr(self, st, v, to):
        """pointer v reinterpreted as pointer to `to`"""
        t = strip_wrappers(to) if to else None
        if type(v) is VSl:
            if to is None or t['k'] in ('slice',) or (t['k'] == 'other' and t.get('name') == 'str'):
                return v
            return self.cast_ptr(st, v.p, to)
        if type(v) is VPtr:
            x = st.get(v.cell, v.path)
            if type(x) is VCont:
                if to and strip_wrappers(to).get('path') == x.path:
                    return v
                x = st.materialize(v.cell, v.path)
            if type(x) is VSto:
                if t is not None and t['k'] == 'array':
                    return v
                if t is not None and t['k'] == 'slice':
                    raise Imprecise('array to slice cast')
                return VEl(v.cell, v.path, VInt(ZERO), 'E', None)
            if type(x) is VInl:
                return self.inline_cast(st, v, t)
            if type(x) is VAgg and t is not None:
                if t['k'] == 'adt' and t.get('path') == x.path or x.path == '?':
                    return v
                # first-field cast
                if x.path in self.prog.fields and t['k'] != 'adt':
                    for i, f in enumerate(x.fs):
                        if type(f) is VSto and i == 0:
                            return VEl(v.cell, v.path + (i,), VInt(ZERO), 'E', None)
                    raise Imprecise('cast of struct pointer')
                return v
            return v
        if type(v) is VEl:
            if v.u != 'E':
                return self.inline_cast(st, v, t)
            if t is not None and t['k'] == 'array':
                return VOp(('arrayptr', v))
            return v
        return v

    def inline_cast(self, st, v, t):
        from . import inline
        return inline.cast(self, st, v, t)

    # ------------------------------------------------------------ execution of one block
    def block(self, st):
        fr = st.frames[-1]
        b = fr.body.blocks[fr.bb]
        if fr.idx == 0 and fr.bb in fr.body.find_loops():
            r = self.loop_head(st, fr)
            if not r:
                return None
            if type(r) is list:
                return r
        stm = b['st']
        n = len(stm)
        i = fr.idx
        while i < n:
            s = stm[i]
            k = s['s']
            self.nsteps += 1
            if i != fr.idx:
                fr = fr.at(fr.bb, i)
                st.frames = st.frames[:-1] + (fr,)
            if k == 'assign':
                v = self.rvalue(st, s['v'], fr)
                self.write(st, self.place(st, s['p'], fr), v)
            elif k == 'live':
                st.cells.pop((fr.fid, s['l']), None)
            elif k == 'dead':
                pass
            elif k == 'setdiscr':
                loc = self.place(st, s['p'], fr)
                v = self.read(st, loc)
                if type(v) is VAgg:
                    self.write(st, loc, VAgg(v.path, s['v'], v.fs))
                else:
                    raise Imprecise('set discriminant')
            elif k == 'assume':
                v = self.operand(st, s['a'], fr)
                if type(v) is VBool and (v.c is True or v.c is False or v.c[0] in ('ge', 'eq')):
                    if v.c is False:
                        raise Kill()
                    if v.c is not True:
                        if not st.decide(v.c):
                            st.finding('oob', 'assumption %r violated (unreachable_unchecked)' % (v.c,))
            elif k == 'copynonoverlapping':
                self.copy(st, self.operand(st, s['src'], fr), self.operand(st, s['dst'], fr),
                          self.num(st, self.operand(st, s['n'], fr)), True)
            i += 1
        if i != fr.idx:
            fr = fr.at(fr.bb, i)
            st.frames = st.frames[:-1] + (fr,)
        self.nsteps += 1
        return self.term(st, b['term'], fr)

    def loop_head(self, st, fr):
        """True: go on; a list: go on from these states; False: the path ends here.  Runs once per arrival: a block
        that is re-executed after a case split finds its mark."""
        go = ('go', fr.fid, fr.bb)
        if st.aux.pop(go, None):
            return True
        if self.cost is None:
            r = self.loopmgr(self, st, fr)
            if r is False:
                return False
            if r is not None:
                r.aux[go] = True
                return [r]
        k = ('it', fr.fid, fr.bb)
        c = st.aux.get(k, 0)
        if c > self.maxiter + (3 if st.aux.get(('nsum',) + go[1:]) or st.aux.get(('ext',) + go[1:]) else 0):
            if self.cost is not None:
                st.finding('cost', 'a loop that runs more than %d times' % self.maxiter)
            self.capped += 1
            w = '%s bb%d' % (fr.body.path, fr.bb)
            self.cutat[w] = self.cutat.get(w, 0) + 1
            return False
        st.aux[k] = c + 1
        st.aux[go] = True
        return [st]

    def goto(self, st, bb):
        fr = st.frames[-1]
        st.frames = st.frames[:-1] + (fr.at(bb, 0),)
        return st

    def note(self, st, at):
        if at and (not st.trail or st.trail[-1] != at) and len(st.trail) < 60:
            st.trail = st.trail + (at,)

    def term(self, st, t, fr):
        k = t['t']
        if k == 'goto':
            return self.goto(st, t['to'])
        if k == 'switch':
            return self.switch(st, t, fr)
        if k == 'assert':
            v = self.operand(st, t['a'], fr)
            if type(v) is not VBool:
                raise Imprecise('assert on %s' % type(v).__name__)
            if st.decide(v.c) == t['expected']:
                return self.goto(st, t['to'])
            self.note(st, t.get('at'))
            return self.panic(st, t['unwind'], 'assert: ' + t['msg'])
        if k == 'return':
            return self.ret(st, fr)
        if k == 'call':
            return self.call(st, t, fr)
        if k == 'drop':
            return self.drop(st, t, fr)
        if k == 'resume':
            return self.pop_unwind(st)
        if k == 'terminate':
            raise Kill()
        if k == 'unreachable':
            if st.aux.get('junk'):
                raise Kill()
            raise Imprecise('unreachable reached')
        raise Imprecise('terminator ' + k)

    def switch(self, st, t, fr):
        v = self.operand(st, t['a'], fr)
        if fr.body.local:
            self.note(st, t.get('at'))
        if type(v) is VBool:
            b = 1 if st.decide(v.c) else 0
            for n, to in t['arms']:
                if n == b:
                    return self.goto(st, to)
            return self.goto(st, t['else'])
        if type(v) is VMod:
            v = VInt(st.reduce_mod(v))
        if type(v) is VInt:
            for n, to in t['arms']:
                if v.l.is_const():
                    if (v.l.c - n) % (1 << 128) == 0 or v.l.c == n or (v.l.c < 0 and (v.l.c & 0xff) == n):
                        return self.goto(st, to)
                elif st.dec_eq(v.l - n):
                    return self.goto(st, to)
            return self.goto(st, t['else'])
        if type(v) is VOp:
            key = ('sw', v.tag)
            arms = list(t['arms'])
            els = fr.body.blocks[t['else']]
            if key not in st.toks:
                r = []
                opts = [n for n, _ in arms]
                if els['term']['t'] != 'unreachable':
                    opts.append('else')
                for n in opts:
                    c = st.clone()
                    c.toks[key] = n
                    r.append(c)
                raise Fork(r)
            n = st.toks[key]
            for a, to in arms:
                if a == n:
                    return self.goto(st, to)
            return self.goto(st, t['else'])
        if v is VJunk:
            st.finding('uninit-read', 'uninitialised value inspected')
        raise Imprecise('switch on %s' % type(v).__name__)

    def ret(self, st, fr):
        v = st.cells.get((fr.fid, 0), UNIT if fr.body.locals[0]['k'] == 'tuple' else VJunk)
        if fr.kind != 'const':
            for j in range(len(fr.body.locals)):
                st.cells.pop((fr.fid, j), None)
        st.frames = st.frames[:-1]
        if not st.frames and fr.kind is None and self.drive is not None:
            # what the iterator that was made yields first
            st.cells[('drive', 0)] = v
            st.aux['driven'] = ()
            return self.drivestep(st)
        if not st.frames and type(fr.kind) is tuple and fr.kind[0] == 'k':
            return fr.kind[1](st, v)
        if fr.kind == 'const' or not st.frames:
            st.aux['ret'] = v
            st.aux['exit'] = 'ret'
            st.frames = ()
            return st
        return self.resume_call(st, fr, v)

    def drivestep(self, st):
        def got(st, x):
            st.aux['driven'] += (x,)
            if (type(x) is VAgg and x.v == 0) or len(st.aux['driven']) == 3:
                st.aux['ret'] = st.cells[('drive', 0)]
                st.aux['exit'] = 'ret'
                return st
            return self.drivestep(st)
        return self.invoke(st, self.drive, [VPtr(('drive', 0), ())], None, 0, 'continue', ('k', got))

    def resume_call(self, st, fr, v):
        c = st.frames[-1]
        if fr.kind is not None and fr.kind[0] == 'k':
            # continuation: ('k', fn)
            return fr.kind[1](st, v)
        if fr.dest is not None:
            self.write(st, self.place(st, fr.dest, c), v)
        if fr.to is None:
            raise Imprecise('return from diverging call')
        return self.goto(st, fr.to)

    def panic(self, st, unwind, why, user=False):
        if st.unw is not None:
            raise Kill()       # panic while unwinding aborts
        st.unw = ('user' if user else 'panic', why)
        return self.unwind(st, unwind)

    def unwind(self, st, unwind):
        if type(unwind) is int:
            return self.goto(st, unwind)
        if unwind == 'continue':
            return self.pop_unwind(st)
        raise Kill()            # terminate / unreachable

    def pop_unwind(self, st):
        fr = st.frames[-1]
        for j in range(len(fr.body.locals)):
            st.cells.pop((fr.fid, j), None)
        st.frames = st.frames[:-1]
        if not st.frames:
            st.aux['exit'] = 'unwind'
            return st
        return self.unwind(st, fr.unwind)

    # ------------------------------------------------------------ calls
    def newfid(self, st):
        n = st.aux.get('fid', 0) + 1
        st.aux['fid'] = n
        return n

    def push(self, st, body, args, dest, to, unwind, kind=None):
        if len(st.frames) > 40:
            raise Imprecise('call depth')
        fid = self.newfid(st)
        for i, a in enumerate(args):
            st.cells[(fid, i + 1)] = a
        st.frames = st.frames + (Frame(body, 0, 0, fid, dest, to, unwind, kind),)
        self.visited.add(body.path)
        return st

    def call(self, st, t, fr):
        f = self.operand(st, t['f'], fr)
        args = [self.operand(st, a, fr) for a in t['args']]
        if fr.body.local:
            self.note(st, t.get('at'))
        if type(f) is not VFn:
            raise Imprecise('indirect call')
        return self.invoke(st, f.info.d, args, t['dest'], t['to'], t['unwind'])

    def invoke(self, st, fn, args, dest, to, unwind, kind=None):
        """call fn; result handled through dest/to"""
        name = fn.get('rpath') or fn['path']
        h = self.natives.get(name)
        if h is None and 'intrinsic' in fn:
            h = self.natives.get('intrinsic:' + fn['intrinsic'])
        if h is None and fn.get('trait') and not fn.get('local') and 'res' not in fn:
            h = self.unresolved.get(fn['path'])
        if h is None and 'res' not in fn and 'shim' in fn:
            h = self.natives.get('shim')
        outs = None
        if 'ctor' in fn:
            h = lambda c: VAgg(fn['ctor'][0], fn['ctor'][1], tuple(c.args))
        try:
            if h is not None:
                v = h(Call(self, st, fn, args, dest, to, unwind))
                if v is not NotImplemented:
                    outs = [(st, v)]
        except Multi as m:
            outs = m.outs
        if outs is None:
            # (a buffer without capacity has no positions: the index operations are followed as they are written)
            c = None if st.aux.get('n0') else self.contracts.get(name)
            if c is not None:
                try:
                    v = c(Call(self, st, fn, args, dest, to, unwind))
                    if v is not NotImplemented:
                        outs = [(st, v)]
                        self.deps.add(name)
                except Multi as m:
                    outs = m.outs
                    self.deps.add(name)
        if outs is None and to is None and not (fn.get('res') and fn.get('local')):
            return self.panic(st, unwind, name)
        if outs is None:
            body = self.prog.bodies.get(fn.get('res') or fn.get('provided'))
            if body is None:
                raise Imprecise('call of unknown function ' + name)
            return self.push(st, body, self.untuple(body, args, fn), dest, to, unwind, kind)
        res = []
        for s, v in outs:
            if type(v) is list:       # states already advanced
                res.extend(v)
                continue
            if v is UNWIND:
                try:
                    r = self.panic(s, unwind, 'unwinding from %s' % name, True)
                except Kill:
                    continue
                res.append(r)
                continue
            if isinstance(v, Pushed):
                res.append(s)
                continue
            if kind is not None and kind[0] == 'k':
                r = kind[1](s, v)
            else:
                if dest is not None:
                    self.write(s, self.place(s, dest, s.frames[-1]), v)
                if to is None:
                    raise Imprecise('return from diverging call')
                r = self.goto(s, to)
            if type(r) is list:
                res.extend(r)
            else:
                res.append(r)
        if len(res) == 1:
            return res[0]
        if not res:
            return None
        return res

    def untuple(self, body, args, fn=None):
        if fn is not None and len(args) == 2 and body.argc == 2 and fn.get('path', '').startswith(('std::ops::Fn', 'core::ops::Fn')) \
                and '{closure' in body.path and type(args[1]) is VAgg and args[1].path == 'tuple' and len(args[1].fs) == 1:
            return [args[0], args[1].fs[0]]
        if body.argc == len(args):
            return args
        if len(args) == 2 and type(args[1]) is VAgg and args[1].path == 'tuple' and body.argc == 1 + len(args[1].fs):
            return [args[0]] + list(args[1].fs)
        raise Imprecise('argument count')

    # ------------------------------------------------------------ drop
    def drop(self, st, t, fr):
        if not t['needs']:
            return self.goto(st, t['to'])
        loc = self.place(st, t['p'], fr)
        if fr.body.local:
            self.note(st, t.get('at'))
        if loc[0] == 'c':
            v = st.get(loc[1], loc[2])
            ptr = VPtr(loc[1], loc[2])
        elif loc[0] == 'e':
            v = self.read_el(st, loc[1], 'drop')
            ptr = loc[1]
        elif loc[0] == 's':
            v = None
            ptr = loc[1]
        else:
            return self.goto(st, t['to'])
        return self.drop_at(st, ptr, v, t['to'], t['unwind'])

    def drop_at(self, st, ptr, v, to, unwind):
        guards = []
        n = [False]
        if type(ptr) is VSl:
            for k, c in self.drop_pieces(st, ptr):
                n[0] = True
        else:
            self.drop_value(st, v, ptr, guards, n)
        if guards:
            if len(guards) > 1:
                raise Imprecise('several destructors')
            gp, body = guards[0]
            return self.push(st, body, [gp], None, to, unwind)
        if not n[0] or st.unw is not None:
            return self.goto(st, to)
        s2 = st.clone()
        r = [self.goto(st, to)]
        try:
            r.append(self.panic(s2, unwind, "an element's destructor", True))
        except Kill:
            pass
        return r

    def drop_pieces(self, st, sl):
        self.work(st, sl.len, 'drops')
        r = self.sl_pieces(st, sl, 'drop', True)
        self.record_drops(st, r)
        return r

    def record_drops(self, st, pieces):
        for k, c in pieces:
            if c is None:
                st.finding('uninit-drop', 'a slot that holds no element is dropped')
            if c[0] == 'E':
                if c[3] is not None:
                    from .sparse import mrange
                    for a, b, kk, cc in mrange(st, c[3], c[2], c[2] + k):
                        if kk == '0' or (kk == '?' and not st.dec_eq(cc - (b - a))):
                            st.finding('uninit-drop', 'a slot that holds no element is dropped')
                st.drops = st.addiv(st.drops, c[1], c[2], c[2] + k)
            elif type(c[1]) in (VElem,):
                raise Imprecise('drop content')

    def drop_value(self, st, v, ptr, guards, n):
        """record the destruction of value v (at ptr); destructors written in the crate go to guards"""
        t = type(v)
        if t is VElem:
            st.drops = st.addiv(st.drops, v.src, v.off, v.off + 1)
            n[0] = True
            return
        if t is VCont or (t is VAgg and v.path in CONTAINERS):
            path = v.path
            if path == SP:
                self.drop_sparse(st, v)
                n[0] = True
                return
            self.deps.add('drop:' + path)
            r = st.pieces(v)
            if r:
                for k, _ in r:
                    self.work(st, k, 'drops')
                self.record_drops(st, r)
                n[0] = True
            return
        if t is VAgg:
            if v.path in ('std::mem::ManuallyDrop', 'std::mem::MaybeUninit'):
                return
            a = self.prog.adts.get(v.path)
            if a is not None and a['drop'] and a['local']:
                for r in self.prog.by_path.get(a['drop'], ()):
                    body = self.prog.bodies.get(r['key'])
                    if body is not None:
                        guards.append((ptr, body))
                        break
                else:
                    raise Imprecise('destructor of ' + v.path)
            for i, f in enumerate(v.fs):
                self.drop_value(st, f, VPtr(ptr.cell, ptr.path + (i,)) if type(ptr) is VPtr else None, guards, n)
            return
        if t is VIter:
            n[0] = True
            return
        if v is VPoison:
            raise Imprecise('drop of lost value')
        return

    def drop_sparse(self, st, v):
        from . import sparse
        sparse.drop_contents(self, st, v)

    # ------------------------------------------------------------ bulk copy
    def work(self, st, n, what):
        if self.cost is not None and st.dec(n - self.cost - 1):
            st.finding('cost', '%s %r elements' % (what, st.facts.norm(n)))

    def copy(self, st, src, dst, n, disjoint):
        if not st.dec(n - 1):
            return
        self.work(st, n, 'moves')
        if type(src) is VSl:
            src = src.p
        if type(dst) is VSl:
            dst = dst.p
        if type(src) is not VEl or type(dst) is not VEl:
            if type(src) in (VPtr, VEl) and type(dst) in (VPtr, VEl) and st.eqv(n, ONE):
                self.write(st, self.deref(st, dst), self.read(st, self.deref(st, src)))
                return
            raise Imprecise('copy between %s and %s' % (type(src).__name__, type(dst).__name__))
        if type(src.pos) is VMod and not st.eqv(n, ONE):
            src = src._replace(pos=VInt(st.reduce_mod(src.pos)))
        if type(dst.pos) is VMod and not st.eqv(n, ONE):
            dst = dst._replace(pos=VInt(st.reduce_mod(dst.pos)))
        s, p = self.chk(st, src, n, 'copy from')
        r = st.read_range(s, p, n)
        d, q = self.chk(st, dst, n, 'copy to')
        if disjoint and (src.cell, src.path) == (dst.cell, dst.path):
            if type(src.pos) is VInt and type(dst.pos) is VInt:
                if not (st.ge(p - q - n) or st.ge(q - p - n)):
                    if not st.dec(p - q - n) and not st.dec(q - p - n):
                        st.finding('oob', 'copy_nonoverlapping with overlapping ranges')
        self.setsto(st, dst, st.write_range(d, q, r))


class Pushed:
    """marker: the model pushed a frame itself"""


PUSHED = Pushed()


def zst(t):
    """the value of a type that has only one"""
    if t['k'] == 'tuple':
        return VAgg('tuple', 0, tuple(zst(x) for x in t['args']))
    if t['k'] == 'adt':
        return VAgg(t['path'], 0, ())
    if t['k'] == 'fndef':
        return VFn(FnBox(t['fn']))
    if t['k'] == 'closure':
        return VAgg('closure:' + t['key'], 0, tuple(zst(x) for x in t['upvars']))
    return VAgg('zst', 0, ())


class FnBox:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return type(o) is FnBox and (self.d is o.d or (self.d['path'], self.d.get('res'), self.d.get('rpath')) ==
                                     (o.d['path'], o.d.get('res'), o.d.get('rpath')))

    def __hash__(self):
        return hash(self.d['path'])

    def __repr__(self):
        return 'fn ' + (self.d.get('rpath') or self.d['path'])


class Call:
    __slots__ = ('I', 'st', 'fn', 'args', 'dest', 'to', 'unwind')

    def __init__(self, I, st, fn, args, dest, to, unwind):
        self.I = I
        self.st = st
        self.fn = fn
        self.args = args
        self.dest = dest
        self.to = to
        self.unwind = unwind

    def targs(self):
        a = self.fn.get('rargs') or self.fn.get('args') or []
        return [x for x in a if x.get('k') != 'region']

    def user(self, v, note='user'):
        """outcome of caller-supplied code: value v, or unwinding"""
        if self.st.unw is not None:
            return v
        s2 = self.st.clone()
        raise Multi([(self.st, v), (s2, UNWIND)])


def neg(c):
    if c is True or c is False:
        return not c
    if c[0] == 'ge':
        return ('ge', -c[1] - 1)
    if c[0] == 'eq':
        return ('ne', c[1])
    if c[0] == 'ne':
        return ('eq', c[1])
    if c[0] == 'tok':
        return ('ntok', c[1])
    if c[0] == 'ntok':
        return ('tok', c[1])
    raise Imprecise('negation')


def factor(x, s):
    """x / s when every term of x contains the symbol s, else None"""
    if x.c != 0:
        return None
    r = Lin(0)
    for m, k in x.t:
        ps = m.split('*')
        if s not in ps:
            return None
        ps.remove(s)
        r = r + (Lin(0, (('*'.join(ps), k),)) if ps else Lin(k))
    return r


def ring_form(st, v):
    """fresh linear storage inside a new ring buffer becomes cyclic storage"""
    m = st.I.prog.fields.get(RB, {})
    if 'data' not in m or 'origin' not in m or st.aux.get('n0'):
        return v
    fs = list(v.fs)
    d, o = fs[m['data']], fs[m['origin']]
    if type(o) is VAgg:
        o = o.fs[0]
    if type(d) is VSto and d.cap != 'ring' and type(o) in (VMod, VInt):
        if all(c is None for _, _, c in d.segs):
            # slots are N consecutive residues starting anywhere
            fs[m['data']] = VSto('ring', ((o.l, o.l + N, None),))
        else:
            fs[m['data']] = VSto('ring', d.segs)
        return VAgg(v.path, v.v, tuple(fs))
    return v


def product_model(facts):
    """an integer model in which the products of symbols the facts speak about are products"""
    m = facts.model()
    for _ in range(4):
        if m is None:
            return None
        bad = None
        for mono in m:
            if '*' in mono:
                p = 1
                for f in mono.split('*'):
                    p *= m.get(f, 0)
                if p != m[mono]:
                    bad = mono
                    break
        if bad is None:
            return m
        # fix all factors but one; the products with the rest become linear
        count = {}
        for mono in m:
            if '*' in mono:
                for f in set(mono.split('*')):
                    count[f] = count.get(f, 0) + 1
        fs = sorted(set(bad.split('*')), key=lambda f: -count[f])
        fixed = fs[:-1] or fs
        best = None
        for delta in (0, 1, 2):
            vals = {f: m.get(f, 0) + delta for f in fixed}
            if len(fs) > 2 and delta:
                break
            h = facts
            for f, v in vals.items():
                h = h and h.add_eq(L(f) - v)
            for mono in [x for x in m if '*' in x]:
                q, rest = 1, []
                for f in mono.split('*'):
                    if f in vals:
                        q *= vals[f]
                    else:
                        rest.append(f)
                if len(rest) <= 1 and h:
                    h = h.add_eq(L(mono) - (L(rest[0]).scale(q) if rest else q))
            best = h and h.model()
            if best is not None:
                facts = h
                break
        m = best
    return None
