"""C10: where InlineArray puts its header and its elements, for every element and host type.

The offsets come from the abstract interpretation in vp/inline.py (symbolic size and alignment of element
and host).  Each rule is first proved from the path's facts; a rule that is not proved is looked for a
concrete type pair that satisfies the path's facts and breaks it."""
import itertools

from .lin import *
from .values import *
from .state import *
from .inline import SA, subst, formal, aligned, field_align
from .harness import initial, Unsupported
from .interp import Interp
from .specs import key_of

HDR = 8
MAXU = 2 ** 64 - 1


def evalf(x, m):
    """value of a formal offset at a concrete point"""
    r = x.c
    for mono, k in x.t:
        v = k
        for f in mono.split('*'):
            v *= m['size_A' if f == SA else f]
        r += v
    return r


def rules(m, hdr, el, cap):
    """concrete layout rules; None or what is broken"""
    sa, aa, st_, ase = m['size_A'], m['align_A'], m['size_T'], m['align_Self']
    if hdr is None:
        return 'no length header'
    if hdr < 0 or hdr + HDR > st_:
        return 'the length header [%d,%d) is outside the %d bytes of the host' % (hdr, hdr + HDR, st_)
    if hdr % 8 or ase % 8:
        return 'the length header at offset %d of a host aligned to %d is not aligned' % (hdr, ase)
    fits = cap_fits(m)
    if cap != fits and not (cap == 0 and aa > ase):
        return 'CAPACITY is %d where %d element(s) fit beside the header' % (cap, fits)
    if cap and el is None:
        return 'no element area'
    if cap:
        if el % aa or ase % aa:
            return 'elements aligned to %d at offset %d of a host aligned to %d' % (aa, el, ase)
        if sa:
            if el < 0 or el + cap * sa > st_:
                return 'elements [%d,%d) are outside the %d bytes of the host' % (el, el + cap * sa, st_)
            if el < hdr + HDR and hdr < el + cap * sa:
                return 'elements [%d,%d) overlap the header [%d,%d)' % (el, el + cap * sa, hdr, hdr + HDR)
    return None


def cap_fits(m):
    if m['size_A'] == 0:
        return MAXU
    if m['align_A'] > m['align_Self'] or m['size_T'] <= HDR:
        return 0
    return (m['size_T'] - HDR) // m['size_A']


def grid(fa, deep):
    al = (1, 8, 16, 2, 4, 32) if deep else (1, 8, 16, 4)
    for at, aa in itertools.product(al, al):
        sas = sorted({0, aa, 2 * aa, 3 * aa, 5 * aa} | ({7 * aa, 11 * aa} if deep else set()))
        sts = sorted({k for k in (0, 1, 4, 5, 7, 8, 9, 10, 12, 13, 15, 16, 17, 20, 24, 25, 28, 32, 36, 40, 48, 56, 64, 72, 80, 96, 112,
                                  128, 160, 256) if k % at == 0})
        for sa, st_ in itertools.product(sas, sts):
            ase = max(at, fa)
            yield dict(size_A=sa, align_A=aa, size_T=st_, align_T=at, align_Self=ase, size_Self=-(-st_ // ase) * ase)


def close(t):
    """products of symbols the facts speak about, rewritten with what is known of their factors"""
    for _ in range(3):
        for l in list(t.facts.all()):
            l = l[1] if isinstance(l, tuple) else l
            for mono in [x for x, _ in l.t if '*' in x]:
                q = Lin(1)
                for f in mono.split('*'):
                    q = t.facts.norm(q).mul(t.facts.norm(L(f)))
                if repr(q) != mono:
                    t.add('eq', L(mono) - q)
                if all(t.facts.ge(L(f)) for f in mono.split('*')):
                    t.add('ge', L(mono))


def point(s, g):
    """a full model of the state's facts at a grid point, products included; None if inconsistent"""
    t = s.clone()
    try:
        for k, v in g.items():
            t.add('eq', L(k) - v)
        close(t)
        m = t.facts.model()
    except Kill:
        return None
    if m is None:
        return None
    m = dict(m)
    m.update(g)
    for k, v in list(m.items()):
        if '*' in k:
            p = 1
            for f in k.split('*'):
                if f not in m:
                    return None
                p *= m[f]
            if p != v:
                return None
    n = t.facts.norm(L('CAP'))
    if n.is_const():
        m['CAP'] = n.c
    return m


def proved(I, s):
    """the rules that the path's facts entail, and those they do not"""
    a = s.aux
    hdr, el, cap = a.get('hdr'), a.get('el'), a.get('capval')
    res = {}
    s = s.clone()
    close(s)

    def ge(x):
        return s.ge(x)
    if hdr is None:
        return {'header': False}
    h = subst(s, formal(hdr))
    st_ = L('size_T')
    res['header inside the host'] = ge(h) and ge(st_ - h - HDR)

    def al(off, y):
        try:
            return aligned(I, s, VEl(('x',), (), VInt(off), 'B', 'u8'), y) is True
        except (Imprecise, Kill, NeedSplit, Fork):
            return False
    res['header aligned'] = al(hdr, L(8))
    c = subst(s, formal(cap))
    zero = ge(-c)
    if el is None:
        res['capacity zero without an element area'] = zero
    zst = s.ge(-L('size_A'))
    if zst:
        res['capacity exact'] = ge(c - MAXU) or (zero and ge(L('align_A') - L('align_Self') - 1))
    elif zero:
        res['capacity exact'] = ge(L('align_A') - L('align_Self') - 1) or ge(L('size_A') - 1 - (st_ - HDR))
    else:
        used = subst(s, formal(cap.mul(L(SA))))
        res['capacity exact'] = ge(st_ - HDR - used) and ge(L('size_A') - 1 - (st_ - HDR - used))
    if el is not None and not zero:
        res['elements aligned'] = al(el, L('align_A'))
        if not zst:
            e = subst(s, formal(el))
            end = e + subst(s, formal(cap.mul(L(SA))))
            res['elements inside the host'] = ge(e) and ge(st_ - end)
            res['elements and header disjoint'] = ge(e - h - HDR) or ge(h - end)
    return res


def layout_findings(prog, cfg, tier):
    roots = [r for r in prog.roots if key_of(r) == 'Inline.new' and 'inputs' in r]
    if not roots:
        return [], 0, ['no constructor'], 0
    root = roots[0]
    I = Interp(prog)
    I.root = root['path']
    I.maxiter, I.budget = 3, 60000
    und = []
    try:
        sts, descr = initial(I, root, True)
    except (Unsupported, Imprecise) as e:
        return [], 0, [str(e)], 0
    outs = []
    I.run(sts, lambda s: outs.append(s))
    und += ['%s @ %s' % u for u in I.undecided]
    fa = field_align(prog)
    for f in prog.adts['inline_array::InlineArray']['variants'][0]['fields']:
        t = f['ty'].replace(' ', '')
        if not (t.startswith('std::marker::PhantomData') or t.startswith('std::mem::MaybeUninit') or t.endswith(';0]')):
            und.append('field %s: %s may move the host area' % (f['name'], f['ty']))
    hits, obl, ncase = [], 0, 0
    pts = list(grid(fa, tier == 'thorough'))
    for f in I.findings:
        if f['kind'] in ('oob', 'uninit-read'):
            hits.append(dict(kind='layout', msg=f['msg'], at=f['at'], path=root['path'], cfg=cfg, model=f['model'], unw=None))
    for s in outs:
        ok = s.aux.get('exit') == 'ret'
        if not ok:
            # refused: fine unless elements could have been arranged
            if s.ge(L('align_A') - L('align_Self') - 1) or s.ge(L(HDR) - L('size_T')):
                obl += 1
                continue
            for g in pts:
                if g['align_A'] <= g['align_Self'] and g['size_T'] > HDR and cap_fits(g) > 0:
                    m = point(s, g)
                    if m is not None:
                        hits.append(dict(kind='layout', msg='construction is refused although element(s) fit: ' + descr_(g),
                                         at=root['at'], path=root['path'], cfg=cfg, model=g, unw=None))
                        break
            obl += 1
            continue
        ncase += 1
        res = proved(I, s)
        obl += len(res)
        if all(res.values()):
            continue
        bad = None
        for g in pts:
            m = point(s, g)
            if m is None:
                continue
            try:
                hdr = evalf(formal(s.aux['hdr']), m) if s.aux.get('hdr') is not None else None
                el = evalf(formal(s.aux['el']), m) if s.aux.get('el') is not None else None
                cap = evalf(formal(s.aux['capval']), m)
            except KeyError:
                continue
            bad = rules(m, hdr, el, cap)
            if bad:
                hits.append(dict(kind='layout', msg=bad, at=root['at'], path=root['path'], cfg=cfg, model=g, unw=None))
                break
        if not bad:
            und.append('not proved: ' + ', '.join(k for k, v in res.items() if not v))
    return hits, obl, und, ncase


def descr_(g):
    return 'element of size %d, alignment %d in a host of size %d, alignment %d' % (
        g['size_A'], g['align_A'], g['size_T'], g['align_T'])
