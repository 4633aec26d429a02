"""Properties decided by rules over the type-checked program: signatures, layouts, effects and work.

'C10' InlineArray layout, 'C16' reference provenance, 'C17' auto traits and variance, 'C20' no allocation,
'C21' constant work."""
import collections, json, os, re, time, traceback

from . import check
from .check import PROGS, OPT, Key, ITERS, wanted

ADVANCE = ('std::iter::Iterator', 'std::iter::DoubleEndedIterator')


# ------------------------------------------------------------------ types
def subs(t):
    for x in t.get('args') or ():
        yield x
    for k in ('to', 'of', 'hidden'):
        if isinstance(t.get(k), dict):
            yield t[k]


def regions(t, out=None):
    out = set() if out is None else out
    if t['k'] in ('ref', 'region'):
        out.add(t['r'])
    for x in subs(t):
        regions(x, out)
    return out


def mentions(t, name):
    if t['k'] == 'param' and t['name'] == name:
        return True
    if t['k'] in ('proj', 'other', 'alias') and re.search(r'\b%s\b' % name, t.get('name') or ''):
        return True
    return any(mentions(x, name) for x in subs(t))


def show(t):
    k = t['k']
    if k == 'ref':
        return '&%s%s %s' % (rname(t['r']), ' mut' if t['mut'] else '', show(t['to']))
    if k == 'region':
        return rname(t['r'])
    if k in ('adt', 'opaque'):
        n = t['path'].rsplit('::', 1)[-1] if k == 'adt' else 'impl'
        a = [show(x) for x in t.get('args') or ()]
        return n + ('<%s>' % ', '.join(a) if a else '')
    if k == 'tuple':
        return '(%s)' % ', '.join(show(x) for x in t['args'])
    if k == 'const':
        return 'N'
    if k == 'seq':
        return '[%s]' % ', '.join(show(x) for x in subs(t))
    return t.get('name') or k


def rname(r):
    m = re.search(r"('\w+)\)*$", r)
    return m[1] if m else r


# std types that hand out references through a lifetime parameter
STD = {'std::slice::Iter': 'shared', 'std::slice::IterMut': 'mut', 'std::slice::Chunks': 'shared',
       'std::slice::ChunksMut': 'mut', 'std::slice::ChunksExact': 'shared', 'std::slice::ChunksExactMut': 'mut',
       'std::slice::Windows': 'shared', 'std::vec::Drain': 'mut', 'bitmaps::Iter': 'index'}


class Sigs:
    """classifies every local type by what it hands out: 'owned', 'shared' or 'mut' access to elements"""

    def __init__(self, prog):
        self.prog = prog
        self.roots = [r for r in prog.roots if 'routput' in r and wanted(r)]
        self.local = {s['path']: s for s in prog.shapes}
        self.lifetimed = {s['path'] for s in prog.shapes if any(v[1] == 'lifetime' for v in s['variances'])}
        self.items = {}
        for r in self.roots:
            # what <X as Iterator>::Item and <X as Deref>::Target are, from the method that returns it
            tr, nm = r.get('trait'), r.get('name')
            k = {('std::iter::Iterator', 'next'): 'std::iter::Iterator>::Item',
                 ('std::ops::Deref', 'deref'): 'std::ops::Deref>::Target',
                 ('std::ops::Index', 'index'): None}.get((tr, nm))
            if k:
                o = r['routput']
                o = o['args'][0] if o['k'] == 'adt' else o['to'] if o['k'] == 'ref' else o
                self.items[re.match(r'<(.*) as ', r['path'])[1] + ' as ' + k] = o
        self.kind = {p: 'index' for p in self.lifetimed}
        again = True
        while again:
            again = False
            for r in self.roots:
                ks = {l[0] for l in self.loans(r['routput'])}
                own = self.yields_owned(r)
                for t in r['rinputs'][:1]:
                    c = self.carrier(t)
                    if c is None:
                        continue
                    new = 'mut' if 'mut' in ks or own else 'shared' if 'shared' in ks else None
                    # a value consumed or borrowed mutably may give exclusive access
                    if new == 'mut' and (self.kind[c] != 'mut'):
                        self.kind[c] = 'mut'
                        again = True
                    elif new == 'shared' and self.kind[c] == 'index':
                        self.kind[c] = 'shared'
                        again = True

    def carrier(self, t):
        """path of the lifetime-carrying local type t is, or refers to"""
        if t['k'] == 'ref':
            t = t['to']
        if t['k'] == 'adt' and t['path'] in self.lifetimed:
            return t['path']
        return None

    def yields_owned(self, r):
        """next() of a borrowing iterator hands over elements by value: it removes them from the container"""
        if r.get('trait') != 'std::iter::Iterator' or r['name'] != 'next':
            return False
        o = r['routput']
        return o['k'] == 'adt' and self.byvalue(o)

    def byvalue(self, t):
        if t['k'] == 'param' and t['name'] == 'A':
            return True
        if t['k'] == 'adt' and t['path'] == 'std::option::Option' or t['k'] == 'tuple':
            return any(self.byvalue(x) for x in t['args'])
        return False

    def resolve(self, t):
        if t['k'] != 'ref' and t.get('name') and t['name'].startswith('<'):
            m = re.match(r'<(.*)>::\w+$', t['name'])
            if m:
                k = t['name'][1:]
                if k in self.items:
                    return self.items[k]
        return t

    def loans(self, t):
        """(kind, region, type) of every loan of elements in t"""
        t = self.resolve(t)
        k = t['k']
        if k == 'ref':
            o = [('mut' if t['mut'] else 'shared', t['r'], t)] if self.elems(t['to']) else []
            return o + self.loans(t['to'])
        if k == 'adt':
            rs = [x['r'] for x in t.get('args') or () if x['k'] == 'region']
            kd = self.kind.get(t['path']) if hasattr(self, 'kind') else None
            if kd is None and rs:
                kd = STD.get(t['path'], 'shared' if mentions(t, 'A') else None)
            o = [(kd, r, t) for r in rs if kd in ('mut', 'shared', 'index')]
            for x in t.get('args') or ():
                o += self.loans(x)
            return o
        if k == 'opaque':
            return self.loans(t['hidden'])
        if k == 'alias':
            return []
        o = []
        for x in subs(t):
            o += self.loans(x)
        return o

    def elems(self, t):
        """does a reference to t designate elements (or something that holds them)?"""
        t = self.resolve(t)
        return mentions(t, 'A') or mentions(t, 'T') or t['k'] not in ('other',)


def signature_findings(prog, cfg):
    """rules on the types alone; returns findings and the obligations looked at"""
    S = Sigs(prog)
    out, n = [], 0
    for r in S.roots:
        ls = S.loans(r['routput'])
        if not ls:
            continue
        inputs = [S.resolve(t) for t in r['rinputs']]
        inreg = set()
        for t in inputs:
            regions(t, inreg)
        for kind, reg, ty in ls:
            if kind == 'index' and not inreg and "'static" not in reg:
                continue
            n += 1
            why = None
            if reg not in inreg:
                why = 'hands out %s, whose lifetime %s is not that of any argument: it outlives the container' % (
                    show(ty), rname(reg))
            elif kind == 'mut':
                ok = False
                for i, t in enumerate(inputs):
                    if t['k'] == 'ref' and t['mut'] and t['r'] == reg:
                        ok = True
                    elif t['k'] == 'ref' and t['mut'] and S.carrier(t) and S.kind[S.carrier(t)] == 'mut' and \
                            reg in regions(t['to']) and r.get('trait') in ADVANCE:
                        ok = True
                    elif t['k'] != 'ref' and any(k == 'mut' and g == reg for k, g, _ in S.loans(t)):
                        ok = True
                if not ok:
                    why = 'hands out exclusive access %s for %s although it only borrows %s: it can be called twice' % (
                        show(ty), rname(reg), ', '.join(show(t) for t in inputs))
            elif kind == 'shared':
                ok = False
                for t in inputs:
                    if t['k'] == 'ref':
                        if t['r'] == reg:
                            ok = True
                        elif reg in regions(t['to']):
                            c = S.carrier(t)
                            if c is None or S.kind[c] != 'mut':
                                ok = True
                            elif t['to']['k'] == 'adt' and r.get('trait') in ADVANCE and t['mut']:
                                ok = True
                    elif reg in regions(t):
                        ok = True
                if not ok:
                    why = 'hands out %s for the whole of %s while the exclusive access it was borrowed from stays ' \
                          'usable' % (show(ty), rname(reg))
            if why:
                out.append(dict(kind='lifetime', msg=why, at=r['at'], path=r['path'], cfg=cfg, model=None, unw=None))
    # exclusive access must not be duplicable
    for i in prog.impls:
        pass
    for r in S.roots:
        if r.get('trait') == 'std::clone::Clone' and r['name'] == 'clone' and r['rinputs']:
            c = S.carrier(r['rinputs'][0])
            n += 1
            if c and S.kind[c] == 'mut':
                out.append(dict(kind='lifetime', msg='exclusive access can be cloned', at=r['at'], path=r['path'],
                                cfg=cfg, model=None, unw=None))
    return S, out, n


# ------------------------------------------------------------------ call graph
class Calls:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.reach = {}

    def live_blocks(self, b):
        """blocks on some path from entry to a normal return"""
        if b.key in self.reach:
            return self.reach[b.key]
        n = len(b.blocks)
        preds = [[] for _ in range(n)]
        fwd, w = {0}, [0]
        while w:
            x = w.pop()
            for y in b.succs(x):
                preds[y].append(x)
                if y not in fwd:
                    fwd.add(y)
                    w.append(y)
        w = [i for i in range(n) if b.blocks[i]['term']['t'] == 'return' and i in fwd]
        bwd = set(w)
        while w:
            x = w.pop()
            for y in preds[x]:
                if y not in bwd:
                    bwd.add(y)
                    w.append(y)
        self.reach[b.key] = bwd
        return bwd

    def out(self, b):
        """(callee key or None, name, fn, at) for every call on a path that returns"""
        if b.key in self.memo:
            return self.memo[b.key]
        o = []
        for i in sorted(self.live_blocks(b)):
            t = b.blocks[i]['term']
            for x in b.blocks[i]['st'] if b.local else ():
                # a closure built or a function turned into a pointer may be called wherever it goes
                v = x.get('v') if x.get('s') == 'assign' else None
                if isinstance(v, dict) and v.get('r') == 'agg' and v.get('kind') == 'closure' and v.get('body') in self.prog.bodies:
                    o.append((v['body'], v['path'], None, x.get('at')))
                elif isinstance(v, dict) and v.get('r') == 'cast':
                    for g in fnrefs(v):
                        o.append((g['res'] if g.get('res') in self.prog.bodies else None, g.get('rpath') or g['path'], g, x.get('at')))
            if t['t'] == 'call':
                fn = t['f'].get('fn')
                if fn is None:
                    o.append((None, '<indirect>', None, t.get('at')))
                else:
                    res = fn.get('res')
                    nm = fn.get('rpath') or fn['path']
                    a0 = (fn.get('args') or [{}])[0]
                    if THROUGH.search(nm) and re.match(r'std::(string|vec|collections|boxed)::', a0.get('path') or ''):
                        res, nm = None, a0['path'] + ' as ' + nm
                    o.append((res if res in self.prog.bodies else None, nm, fn, t.get('at')))
                # functions and closures passed along may be called by the callee
                for a in [t['f']] + list(t.get('args') or ()):
                    for g in fnrefs(a):
                        if g is not fn:
                            res = g.get('res')
                            o.append((res if res in self.prog.bodies else None, g.get('rpath') or g['path'], g, t.get('at')))
            elif t['t'] == 'drop' and t.get('glue'):
                o.append((None, 'drop', None, t.get('at')))
        self.memo[b.key] = o
        return o


def fnrefs(x):
    if isinstance(x, dict):
        if 'fn' in x and isinstance(x['fn'], dict):
            yield x['fn']
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from fnrefs(v)
    elif isinstance(x, list):
        for v in x:
            yield from fnrefs(v)


# ------------------------------------------------------------------ C20: allocation
ALLOC_CRATE = re.compile(r'^<?&?(mut )?(std::(vec|boxed|string|rc|collections|alloc|ffi|path|thread|env|fs|net|process)::|'
                         r'std::sync::(Arc|Mutex|mpsc|RwLock|Condvar)|std::borrow::(ToOwned|Cow)|alloc::)|'
                         r'^std::fmt::format$|to_vec|into_boxed|std::slice::(sort|join|concat|repeat)|'
                         r'std::slice::<impl \[T\]>::(sort|sort_by|sort_by_key|sort_by_cached_key|to_vec|into_vec|'
                         r'concat|join|repeat)\b|std::str::<impl str>::(to_|into_|repeat|replace)|'
                         r'std::io::(stdout|stderr|stdin|_print|_eprint|copy)')
ALLOCATING = re.compile(r'__rust_alloc|__rust_realloc|exchange_malloc|box_new|Global.*alloc|finish_grow|alloc_impl|'
                        r'handle_alloc_error|io::(error::)?(<impl )?[\w:]*Error>?::(new|other)$|'
                        r'^std::(boxed::Box|rc::Rc|sync::Arc)::<[^>]*>::(new|pin|from)$|'
                        r'slice::(<impl \[T\]>::)?(sort|sort_by|sort_by_key|sort_by_cached_key)$')
FOREIGN = re.compile(r'(^|::)(malloc|calloc|realloc|reallocarray|aligned_alloc|memalign|posix_memalign|strdup|mmap)$')
# provided methods that write through a trait object
THROUGH = re.compile(r'^std::(fmt|io)::Write::(write_fmt|write_all|write_char)$|^std::iter::Extend::')
FREE = re.compile(r'::(len|get|is_empty|new|as_ptr|as_mut_ptr|as_slice|as_mut_slice|iter|iter_mut|deref|deref_mut|drop|'
                  r'next|next_back|size_hint|eq|ne|cmp|partial_cmp|hash|as_ref|as_mut|borrow|borrow_mut|capacity|'
                  r'contains_key|contains|first|last|into_iter|clear|truncate|pop|set_len|get_mut|range|keys|values|'
                  r'precondition_check|panicking|yield_now|abort|exit|id|fmt|remove|swap_remove|drain|index|index_mut|as_bytes|as_str|is_some|forget|'
                  r'into_raw|from_raw|leak|ptr|cap|dealloc|deallocate|dangling|default)$|Drop for|std::alloc::Layout')


def alloc_call(name, has_body):
    if ALLOCATING.search(name) or not has_body and FOREIGN.search(name):
        return True
    return not has_body and bool(ALLOC_CRATE.search(name)) and not FREE.search(name)


def allocations(prog, cfg):
    C = Calls(prog)
    out, edges, seenall, missing = [], 0, set(), collections.Counter()
    roots = [r for r in prog.roots if wanted(r) and r['key'] in prog.bodies and
             'arbitrary' not in (r.get('trait') or '').lower()]
    for r in roots:
        start = r['key']
        prev = {start: None}
        w = collections.deque([start])
        hit = None
        while w and hit is None:
            k = w.popleft()
            b = prog.bodies[k]
            for res, name, fn, at in C.out(b):
                edges += 1
                if alloc_call(name, res is not None):
                    hit = (k, name, at)
                    break
                if res is None:
                    missing[name] += 1
                elif res not in prev:
                    prev[res] = (k, at)
                    w.append(res)
        seenall.update(prev)
        if hit:
            k, name, at = hit
            path = ['%s at %s' % (name, at)]
            site = at if prog.bodies[k].local else None
            while k is not None:
                path.append(prog.bodies[k].path)
                if prev[k]:
                    if site is None and prog.bodies[prev[k][0]].local:
                        site = prev[k][1]
                    k = prev[k][0]
                else:
                    k = None
            out.append(dict(kind='allocates', msg='allocates: ' + ' <- '.join(path), at=site or at, path=r['path'],
                            cfg=cfg, model=None, unw=None))
    return out, len(roots), len(seenall), edges, sorted(missing)


# ------------------------------------------------------------------ C16: what a step borrows
def holds_many(t, S):
    """a place of type t holds several elements by value"""
    k = t['k']
    if k == 'adt':
        if t['path'] in S.local:
            return t['path'] not in S.lifetimed and mentions(t, 'A')
        if t['path'] in ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::cell::UnsafeCell'):
            return any(holds_many(x, S) for x in t['args'])
        if t['path'].endswith('SizedArray'):
            return True
        return False
    if k in ('seq', 'array', 'slice'):
        return mentions(t, 'A')
    return False


def yields_exclusive(S, r):
    return any(k == 'mut' and t['k'] == 'ref' for k, _, t in S.loans(r['routput']))


def step_findings(prog, S, cfg):
    """advancing an iterator over `&mut A` borrows no more than the element it is about to yield"""
    C = Calls(prog)
    out, n = [], 0
    for r in S.roots:
        c = S.carrier(r['rinputs'][0]) if r['rinputs'] else None
        if r.get('trait') not in ADVANCE or c is None or not r['rinputs'][0]['k'] == 'ref':
            continue
        nxt = next((x for x in S.roots if x.get('trait') == ADVANCE[0] and x['name'] == 'next' and
                    S.carrier(x['rinputs'][0]) == c), None)
        if nxt is None or not yields_exclusive(S, nxt):
            continue
        seen, w = {r['key']}, [r['key']]
        while w:
            b = prog.bodies.get(w.pop())
            if b is None:
                continue
            n += 1
            for i in sorted(C.live_blocks(b)):
                for s in b.blocks[i]['st']:
                    if s['s'] != 'assign' or s['v'].get('r') != 'ref':
                        continue
                    p = s['v']['p']
                    if any(e['p'] == 'deref' for e in p['proj']) and holds_many(p['ty'], S):
                        out.append(dict(
                            kind='reborrow', cfg=cfg, model=None, unw=None, path=r['path'], at=s.get('at'),
                            msg='a step of the iterator takes a reference to %s, which also covers the elements already '
                                'yielded as &mut (in %s)' % (show_mir(p['ty']), b.path)))
            for res, _, _, _ in C.out(b):
                if res and res not in seen:
                    seen.add(res)
                    w.append(res)
    return out, n


def show_mir(t):
    return t.get('path', t.get('name') or t['k'])


def split_findings(prog, S, cfg):
    """one call that hands out two exclusive views must not put the whole container in both"""
    out, n = [], 0
    for r in S.roots:
        ms = [t for k, _, t in S.loans(r['routput']) if k == 'mut']
        if len(ms) < 2:
            continue
        n += 1
        for t in ms:
            if t['k'] != 'adt' or t['path'] not in S.local:
                continue
            a = prog.adts.get(t['path'])
            for f in a['variants'][0]['fields'] if a else ():
                m = re.match(r"^&'?\w* ?mut ([\w:]+)<", f['ty'])
                if m and m[1] in S.local and m[1] not in S.lifetimed:
                    out.append(dict(kind='reborrow', cfg=cfg, model=None, unw=None, path=r['path'], at=r['at'],
                                    id=r['path'] + '|both parts hold `&mut`',
                                    msg='hands out two %s at once, each holding `&mut %s` to the same container' % (
                                        t['path'], m[1])))
                    break
            else:
                continue
            break
    return out, n


# ------------------------------------------------------------------ C17
def shape_findings(prog, S, cfg):
    """send/sync columns: the element type is neither, Send, Sync, both"""
    out, n = [], 0
    exclusive = {}
    for r in S.roots:
        c = S.carrier(r['rinputs'][0]) if r['rinputs'] else None
        if c and any(k == 'mut' and t['k'] == 'ref' and t['mut'] for k, _, t in S.loans(r['routput'])):
            exclusive[c] = True

    def bad(path, at, msg):
        out.append(dict(kind='auto-trait', cfg=cfg, model=None, unw=None, path=path, at=at, msg=msg))
    for s in prog.shapes:
        if not s['public'] or not any(v[0] == 'A' for v in s['variances']):
            continue
        p = s['path']
        kd = S.kind.get(p, 'owned')     # 'index': a borrowing type that no function takes elements from
        n += 1
        for env, has_send, has_sync in ((0, 0, 0), (1, 1, 0), (2, 0, 1), (3, 1, 1)):
            el = ('neither Send nor Sync', 'not Sync', 'not Send', 'Send and Sync')[env]
            need_send = has_sync if kd == 'shared' else has_send or kd == 'index' and has_sync
            if s['send'][env] and not need_send:
                bad(p, s['at'], '%s can be sent to another thread although its elements are %s' % (p, el))
            if s['sync'][env] and not has_sync:
                bad(p, s['at'], '%s can be shared between threads although its elements are %s' % (p, el))
        for nm, what, v in s['variances']:
            if what == 'const':
                continue
            if v in '-*' and (what == 'lifetime' or nm == 'A'):
                bad(p, s['at'], '%s is %s in %s' % (p, 'contravariant' if v == '-' else 'bivariant', nm))
            if nm == 'A' and p in exclusive and v != 'o':
                bad(p, s['at'], '%s gives out `&mut A` but is not invariant in A: a shorter-lived element can be '
                    'stored through it' % p)
    for r in S.roots:
        ops = r.get('opaques') or ()
        if not ops:
            continue
        o = r['routput']
        ls = {k for k, _, t in S.loans(o) if k in ('mut', 'shared') and mentions(t, 'A')}
        for q in ops:
            n += 1
            for env, has_send, has_sync in ((0, 0, 0), (1, 1, 0), (2, 0, 1), (3, 1, 1)):
                if 'shared' in ls and q['send'][env] and not has_sync or 'mut' in ls and q['send'][env] and not has_send:
                    bad(r['path'], r['at'], 'the iterator it returns can be sent to another thread although elements cannot')
                if ls and q['sync'][env] and not has_sync:
                    bad(r['path'], r['at'], 'the iterator it returns can be shared between threads although elements cannot')
    return out, n, exclusive


# ------------------------------------------------------------------ C21
O1 = ({'Ring.push_back', 'Ring.push_front', 'Ring.pop_back', 'Ring.pop_front', 'Ring.Array.get', 'Ring.ArrayMut.get_mut',
       'Ring.Index.index', 'Ring.IndexMut.index_mut', 'Ring.slice', 'Ring.slice_mut', 'Ring.get_unchecked',
       'Ring.get_unchecked_mut', 'Ring.HasLength.len', 'Ring.is_full', 'Ring.iter', 'Ring.iter_mut', 'Ring.drain',
       'Ring.IntoIterator.into_iter', 'Ring.new', 'Ring.unit', 'Ring.pair',
       'Slice.Array.get', 'Slice.Index.index', 'Slice.slice', 'Slice.split_at', 'Slice.HasLength.len', 'Slice.iter',
       'Slice.get_unchecked', 'Slice.Clone.clone', 'Slice.From.from',
       'SliceMut.Array.get', 'SliceMut.ArrayMut.get_mut', 'SliceMut.Index.index', 'SliceMut.IndexMut.index_mut',
       'SliceMut.slice', 'SliceMut.split_at', 'SliceMut.unmut', 'SliceMut.HasLength.len', 'SliceMut.iter',
       'SliceMut.iter_mut', 'SliceMut.From.from', 'SliceMut.get_unchecked', 'SliceMut.get_unchecked_mut',
       'Chunk.pop_front', 'Chunk.pop_back', 'Chunk.Deref.deref', 'Chunk.DerefMut.deref_mut', 'Chunk.Index.index',
       'Chunk.IndexMut.index_mut', 'Chunk.as_slice', 'Chunk.as_mut_slice', 'Chunk.len', 'Chunk.is_empty', 'Chunk.is_full',
       'Chunk.set', 'Chunk.new', 'Chunk.unit', 'Chunk.pair', 'Chunk.drain', 'Chunk.IntoIterator.into_iter',
       'Sparse.get', 'Sparse.get_mut', 'Sparse.insert', 'Sparse.remove', 'Sparse.Index.index', 'Sparse.IndexMut.index_mut',
       'Sparse.get_unchecked', 'Sparse.get_unchecked_mut', 'Sparse.len', 'Sparse.is_empty', 'Sparse.is_full',
       'Sparse.first_index', 'Sparse.pop', 'Sparse.new', 'Sparse.unit', 'Sparse.pair', 'Sparse.iter', 'Sparse.iter_mut',
       'Inline.push', 'Inline.pop', 'Inline.len', 'Inline.is_empty', 'Inline.is_full', 'Inline.Deref.deref',
       'Inline.DerefMut.deref_mut', 'Inline.drain', 'Inline.IntoIterator.into_iter', 'Inline.new'})


def constant_time(k):
    if k.k in O1:
        return True
    if k.type in ITERS and k.type not in ('IIter', 'IDrain') and k.trait in ('Iterator', 'DoubleEndedIterator') and \
            k.method in ('next', 'next_back'):
        return True
    return False


# ------------------------------------------------------------------ C10
from .inlinelayout import layout_findings  # noqa: E402


# ------------------------------------------------------------------ verdicts
def dedupe(fs):
    seen, out = set(), []
    for f in fs:
        k = (f['path'], f['kind'], f['msg'])
        if k not in seen:
            seen.add(k)
            out.append(f)
    return out


def main_configs():
    return [(c, p) for c, p in PROGS.items() if p.only is None]


def several(r):
    """hands out more than one exclusive reference"""
    def count(t):
        if t['k'] == 'ref':
            return 1 if t['mut'] else 0
        return sum(count(x) for x in (t.get('args') or ()))
    return bool(r.get('output')) and bool(r.get('inputs')) and count(r['output']) > 1


def main(pid, tier, t0, finish):
    if pid not in ('C10', 'C16', 'C17', 'C20', 'C21'):
        print('ERROR: unknown property ' + pid)
        return 2
    check.load(['debug', 'release'], variants=pid in ('C16', 'C21'))
    hits, cov = [], {}
    if pid == 'C10':
        obl, und, ncases = 0, [], 0
        for cfg, prog in main_configs():
            h, o, u, c = layout_findings(prog, cfg, tier)
            hits += h
            obl += o
            und += u
            ncases += c
        if not ncases:
            print('ERROR: no constructible layout could be analysed (%s)' % '; '.join(und[:2]))
            return 2
        cov = dict(explanation='Abstract interpretation of CAPACITY, new(), len() and deref() over symbolic size and '
                               'alignment of element and host; on every way out of new() the header and the element '
                               'area must satisfy the layout rules.',
                   rule='header and CAPACITY elements inside the host, aligned, disjoint; CAPACITY is the number that fits',
                   constructible_cases=ncases, obligations=obl, undecided=len(und), undecided_samples=und[:8])
    elif pid in ('C16', 'C17'):
        n = collections.Counter()
        classes = {}
        for cfg, prog in main_configs():
            S, h, k = signature_findings(prog, cfg)
            n['signatures'] += len(S.roots)
            classes = dict(S.kind)
            if pid == 'C16':
                n['loans handed out'] += k
                h2, k2 = step_findings(prog, S, cfg)
                h3, k3 = split_findings(prog, S, cfg)
                n['function bodies reachable from a mutable iterator step'] += k2
                n['functions handing out several exclusive loans'] += k3
                hits += h + h2 + h3
            else:
                h, k, ex = shape_findings(prog, S, cfg)
                n['types and opaque results'] += k
                hits += h
        if not n['signatures']:
            print('ERROR: no signatures')
            return 2
        cov = dict(explanation='Rules over the type-checked signatures, inferred variances and trait-solver answers of '
                               'every public type and function.',
                   rule='C16: every loan handed out is tied to a borrow that excludes conflicting access; C17: auto '
                        'traits and variance no stronger than the element type allows',
                   counts=dict(n), classification=classes)
        if pid == 'C16':
            # and the references really designate different elements, each once
            check.PROPS['C16'] = dict(
                roots=lambda k, r: (k.type in ('RIterMut', 'SIterMut', 'SOIterMut') and
                                    k.method in ('next', 'next_back', 'nth', 'nth_back', 'last'))
                or several(r) or k.k in ('SliceMut.split_at', 'SliceMut.slice', 'SliceMut.iter_mut', 'Ring.iter_mut', 'Ring.slice_mut',
                           'Sparse.iter_mut', 'Sparse.option_iter_mut', 'SliceMut.ArrayMut.get_mut',
                           'SliceMut.IndexMut.index_mut', 'Ring.ArrayMut.get_mut', 'Ring.IndexMut.index_mut',
                           'Sparse.get_mut', 'Sparse.IndexMut.index_mut', 'Chunk.as_mut_slice', 'Chunk.DerefMut.deref_mut',
                           'Inline.DerefMut.deref_mut'),
                takes=lambda k, r, f: f['kind'] in ('result', 'contents', 'invalid-state', 'oob', 'uninit-read', 'alias'))
            res, dep, h = check.analyse_property('C16', tier)
            hits += h
            cov['exclusive_access_operations'] = check.coverage('C16', res, dep)
    elif pid == 'C20':
        n = collections.Counter()
        miss = set()
        for cfg, prog in main_configs():
            h, r, f, e, m = allocations(prog, cfg)
            hits += h
            n['operations'] += r
            n['functions reachable'] += f
            n['call sites'] += e
            miss.update(m)
        if not n['operations']:
            print('ERROR: no operations')
            return 2
        cov = dict(explanation='Effect analysis over the MIR call graph: no operation reaches an allocating function on '
                               'a path that returns.', rule='alloc effect absent', counts=dict(n),
                   leaves_without_source=sorted(miss)[:120])
    else:
        check.PROPS['C21'] = dict(roots=lambda k, r: constant_time(k), takes=lambda k, r, f: f['kind'] == 'cost' and k.trait != 'Drop')
        OPT['cost'] = 4
        OPT['maxiter'] = 6
        res, dep, h = check.analyse_property('C21', tier)
        hits = [dict(f, msg='work grows with the number of elements: ' + f['msg']) for f in h]
        ok = [r for r in res if r['status'] == 'analysed']
        if not ok:
            print('ERROR: nothing analysed')
            return 2
        cov = check.coverage('C21', res, dep)
        cov['explanation'] = 'Abstract interpretation of every constant-time operation from every valid state, counting ' \
                             'loop turns and the elements moved, compared or dropped by bulk operations.'
        cov['rule'] = 'no path turns a loop more than %d times or touches more than %d elements in bulk' % (
            OPT['maxiter'], OPT['cost'])
    return finish(pid, tier, dedupe(hits), cov, 'other', t0)
