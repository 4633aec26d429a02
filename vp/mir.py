"""Builds the MIR driver, dumps /repo's current source, loads the dump."""
import json, os, re, subprocess, sys, hashlib, shutil, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')


class DumpError(Exception):
    pass


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def ensure_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'driver', 'main.rs')
    out = os.path.join(BUILD, 'mirdump')
    stamp = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    sf = out + '.stamp'
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.exists(sf) and open(sf).read() == stamp:
            return out
        r = subprocess.run(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', out + '.tmp'],
                           capture_output=True, text=True)
        if r.returncode:
            raise DumpError('driver build failed:\n' + r.stderr[-4000:])
        os.replace(out + '.tmp', out)
        open(sf, 'w').write(stamp)
    return out


NOSTD = '--no-default-features --features ringbuffer'


def dump(cfg, features='--all-features', main=None):
    """cfg: 'debug' (debug assertions + overflow checks) or 'release' (neither), with '-nostd' for the crate without
    its std feature.  Always re-runs the compiler on the current working tree."""
    profile = cfg.split('-')[0]
    drv = ensure_driver()
    tgt = os.path.join(BUILD, 'target-' + cfg)
    os.makedirs(tgt, exist_ok=True)
    out = os.path.join(BUILD, 'mir-%s-%d.json' % (cfg, os.getpid()))
    env = dict(os.environ)
    env['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
    env['RUSTC_WORKSPACE_WRAPPER'] = drv
    env['VP_CRATE'] = 'sized_chunks'
    env['VP_OUT'] = out
    env['CARGO_INCREMENTAL'] = '0'
    flags = '--cap-lints allow -Zmir-opt-level=0 -Zub-checks=no '
    flags += '-Cdebug-assertions=on -Coverflow-checks=on' if profile == 'debug' else \
             '-Cdebug-assertions=off -Coverflow-checks=off'
    env['RUSTFLAGS'] = flags
    env.pop('CARGO_TARGET_DIR', None)
    env['CARGO_NET_OFFLINE'] = 'true'
    with open(os.path.join(BUILD, 'lock-' + cfg), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for sub in ('.fingerprint', 'build', 'incremental', 'deps'):
            fp = os.path.join(tgt, 'debug', sub)
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.replace('_', '-').startswith(('sized-chunks', 'libsized-chunks')):
                        q = os.path.join(fp, n)
                        shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
        if os.path.exists(out):
            os.unlink(out)
        from . import canon
        scratch = os.path.join(BUILD, 'canon-%s-%d' % (cfg, os.getpid()))
        try:
            tree = canon.tree(REPO, scratch)
        except (OSError, ValueError, IndexError, re.error):
            tree = REPO
        for t in dict.fromkeys((tree, REPO)):
            r = subprocess.run(['cargo', '+nightly', 'check', '--offline', *features.split(), '--lib',
                                '--manifest-path', t + '/Cargo.toml', '--target-dir', tgt],
                               env=env, capture_output=True, text=True)
            if not r.returncode and os.path.exists(out):
                break
        shutil.rmtree(scratch, ignore_errors=True)
    if r.returncode or not os.path.exists(out):
        raise DumpError('compiling /repo (%s) failed:\n%s' % (cfg, r.stderr[-4000:]))
    with open(out) as f:
        text = f.read()
    os.unlink(out)
    d = json.loads(text)
    for old, new in settle(d):
        text = re.sub(r'(?<![\w:])' + re.escape(old) + r'(?!\w)', new, text)
        d = json.loads(text)
    if d['overflow_checks'] != (profile == 'debug') or d['debug_assertions'] != (profile == 'debug'):
        raise DumpError('profile flags were not honoured')
    p = Program(d, cfg)
    p.text = text
    return p


PLACES = ('inline_array::InlineArray', 'inline_array::iter::Drain', 'inline_array::iter::Iter', 'ring_buffer::RingBuffer',
          'ring_buffer::index::RawIndex', 'ring_buffer::index::IndexIter', 'ring_buffer::iter::Drain',
          'ring_buffer::iter::Iter', 'ring_buffer::iter::IterMut', 'ring_buffer::iter::OwnedIter',
          'ring_buffer::slice::Slice', 'ring_buffer::slice::SliceMut', 'sized_chunk::Chunk', 'sized_chunk::iter::Drain',
          'sized_chunk::iter::Iter', 'sparse_chunk::SparseChunk', 'sparse_chunk::iter::Drain', 'sparse_chunk::iter::Iter',
          'sparse_chunk::iter::IterMut', 'sparse_chunk::iter::OptionDrain', 'sparse_chunk::iter::OptionIter',
          'sparse_chunk::iter::OptionIterMut')


def settle(d):
    """types that live in another module, and the two private index types under another name: (path, path known here)"""
    have = [x['path'] for x in d['shapes']]
    adts = dict(d['adts'])
    free = [p for p in have if p not in PLACES]
    raw = 'ring_buffer::index::RawIndex'
    out = []

    def fields(p):
        a = adts.get(p)
        return sorted(f['ty'].split('<')[0] for f in a['variants'][0]['fields']) if a and a['variants'] else None
    for want in PLACES:
        if want in have:
            continue
        top, name = want.split('::')[0], want.split('::')[-1]
        hit = [p for p in free if p.split('::')[0] == top and p.split('::')[-1] == name]
        if not hit and '::index::' in want:
            shape = ['usize'] if name == 'RawIndex' else sorted(['usize', raw, raw])
            hit = [p for p in free if p.startswith('ring_buffer::') and fields(p) == shape]
        if len(hit) == 1:
            free.remove(hit[0])
            out.append((hit[0], want))
            if name == 'RawIndex':
                raw = hit[0]
    return out


def canonical(text):
    return re.sub(r'DefId\([^)]*\)', 'DefId', re.sub(r'\{impl#\d+\}', '{impl}', text))


def changed_in(main, var):
    """The program var (other features) with its paths spelled as in main, and the roots that reach a function body
    which is not the same in main."""
    full = set(re.findall(r'\bcore(?:::\w+)+', main.text))
    text = re.sub(r'\bcore(?:::\w+)+', lambda m: m[0] if m[0] in full else 'std' + m[0][4:], var.text)
    p = Program(json.loads(text), var.cfg)
    a = {canonical(k): canonical(json.dumps(v, sort_keys=True)) for k, v in json.loads(main.text)['bodies']}
    diff = set()
    for k, v in json.loads(text)['bodies']:
        if a.get(canonical(k)) != canonical(json.dumps(v, sort_keys=True)):
            diff.add(k)
    memo = {}

    def calls(k):
        if k not in memo:
            s = json.dumps([b['term'] for b in p.bodies[k].blocks])
            memo[k] = {json.loads(x) for x in re.findall(r'"res": ("(?:[^"\\]|\\.)*")', s)}
        return memo[k]
    only = set()
    for r in p.roots:
        seen, w = {r['key']}, [r['key']]
        while w:
            k = w.pop()
            if k in diff:
                only.add(r['key'])
                break
            for x in calls(k) if k in p.bodies else ():
                if x in p.bodies and x not in seen:
                    seen.add(x)
                    w.append(x)
    p.only = only
    return p


class Body:
    __slots__ = ('key', 'path', 'local', 'argc', 'spread', 'locals', 'names', 'at', 'blocks', 'loops')

    def __init__(self, key, j):
        self.key = key
        self.path = j['path']
        self.local = j['local']
        self.argc = j['argc']
        self.spread = j.get('spread')
        self.locals = j['locals']
        self.names = {n: s for n, s in reversed(j['names'])}
        self.at = j['at']
        self.blocks = j['blocks']
        self.loops = None

    def succs(self, i, unwind=False):
        t = self.blocks[i]['term']
        k = t['t']
        o = []
        if k == 'switch':
            o = [b for _, b in t['arms']] + [t['else']]
        elif k in ('goto', 'drop', 'assert'):
            o = [t['to']]
        elif k == 'call' and t['to'] is not None:
            o = [t['to']]
        if unwind and isinstance(t.get('unwind'), int):
            o.append(t['unwind'])
        return o

    def find_loops(self):
        """natural loops: {head: set(blocks)}"""
        if self.loops is not None:
            return self.loops
        n = len(self.blocks)
        color = [0] * n
        back = []
        stack = [(0, iter(self.succs(0, True)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if color[x] == 0:
                    color[x] = 1
                    stack.append((x, iter(self.succs(x, True))))
                    break
                elif color[x] == 1:
                    back.append((b, x))
            else:
                color[b] = 2
                stack.pop()
        preds = [[] for _ in range(n)]
        for i in range(n):
            for s in self.succs(i, True):
                preds[s].append(i)
        loops = {}
        for b, h in back:
            s = loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x not in s:
                    s.add(x)
                    w.extend(preds[x])
        self.loops = loops
        return loops


# what the analysis calls the private fields, and how their types tell them apart when they are called otherwise
ROLES = {
    'sized_chunk::Chunk': (('left', '=usize'), ('right', '=usize'), ('data', 'MaybeUninit')),
    'ring_buffer::RingBuffer': (('origin', 'RawIndex'), ('length', '=usize'), ('data', 'MaybeUninit')),
    'sparse_chunk::SparseChunk': (('map', 'Bitmap'), ('data', 'MaybeUninit')),
    'inline_array::InlineArray': (('data', 'MaybeUninit'),),
    'ring_buffer::index::IndexIter': (('remaining', '=usize'), ('left_index', 'RawIndex'), ('right_index', 'RawIndex')),
    'ring_buffer::iter::Iter': (('buffer', 'RingBuffer'), ('left_index', 'RawIndex'), ('right_index', 'RawIndex'),
                                ('remaining', '=usize')),
    'ring_buffer::iter::IterMut': (('data', '*mut A'), ('left_index', 'RawIndex'), ('right_index', 'RawIndex'),
                                   ('remaining', '=usize')),
    'ring_buffer::iter::Drain': (('buffer', 'RingBuffer'),),
    'ring_buffer::iter::OwnedIter': (('buffer', 'RingBuffer'),),
    'ring_buffer::slice::Slice': (('buffer', 'RingBuffer'), ('range', 'Range<usize>')),
    'ring_buffer::slice::SliceMut': (('buffer', 'RingBuffer'), ('range', 'Range<usize>')),
    'sized_chunk::iter::Iter': (('chunk', 'Chunk<'),),
    'sized_chunk::iter::Drain': (('chunk', 'Chunk<'),),
    'inline_array::iter::Iter': (('array', 'InlineArray<'),),
    'inline_array::iter::Drain': (('array', 'InlineArray<'),),
    'sparse_chunk::iter::Iter': (('indices', 'bitmaps::Iter'), ('chunk', 'SparseChunk<')),
    'sparse_chunk::iter::Drain': (('chunk', 'SparseChunk<'),),
    'sparse_chunk::iter::OptionIter': (('index', '=usize'), ('chunk', 'SparseChunk<')),
    'sparse_chunk::iter::OptionDrain': (('index', '=usize'), ('chunk', 'SparseChunk<')),
}
ENDS = (('left', 'start', 'begin', 'head', 'front', 'first', 'low', 'lo', 'from', 'bottom', 'lower', 'min'),
        ('right', 'end', 'stop', 'tail', 'back', 'last', 'high', 'hi', 'to', 'top', 'upper', 'max', 'limit', 'until'))


def side(name):
    w = re.split(r'[_0-9]+', name)
    k = [any(x in e for x in w) for e in ENDS]
    return None if k[0] == k[1] else 'left' if k[0] else 'right'


def field_roles(path, fields):
    m = {f['name']: i for i, f in enumerate(fields)}
    want = [r for r in ROLES.get(path, ()) if r[0] not in m]
    known = {r[0] for r in ROLES.get(path, ())}
    for kind in dict.fromkeys(k for n, k in want):
        need = [n for n, k in want if k == kind]
        have = [f['name'] for f in fields if f['name'] not in known and 'PhantomData' not in f['ty'] and
                (f['ty'] == kind[1:] if kind[0] == '=' else kind in f['ty'])]
        if len(have) != len(need):
            continue
        if len(need) == 2:
            s = [side(x) for x in have]
            if sorted(map(str, s)) != ['left', 'right']:
                continue
            if s[0] == 'right':
                have.reverse()
        for a, b in zip(need, have):
            m[a] = m.pop(b)
    return m


class Program:
    def __init__(self, d, cfg):
        self.cfg = cfg
        self.only = None
        self.overflow = d['overflow_checks']
        self.roots = d['roots']
        self.impls = d['impls']
        self.shapes = d['shapes']
        self.adts = dict((k, v) for k, v in d['adts'])
        self.bodies = {k: Body(k, v) for k, v in d['bodies']}
        self.by_path = {}
        for r in self.roots:
            self.by_path.setdefault(r['path'], []).append(r)
        self.readmemo = {}
        # field name -> index of every local struct
        self.fields = {}
        for p, a in self.adts.items():
            if a['kind'] == 'struct':
                self.fields[p] = field_roles(p, a['variants'][0]['fields'])

    def reads(self, path, field):
        """does any function look at this field of the local struct (other than to overwrite it or to copy the struct)?"""
        if path not in self.readmemo:
            got = set()
            for b in self.bodies.values():
                if b.local and not ('as std::clone::Clone>' in b.path and path in b.path):
                    for k in b.blocks:
                        for x in k['st'] + [k['term']]:
                            read_fields(x, b, path, got, False)
            self.readmemo[path] = {n for n, i in self.fields.get(path, {}).items() if i in got}
        return field in self.readmemo[path]


def read_fields(x, b, path, got, dest):
    if isinstance(x, list):
        for y in x:
            read_fields(y, b, path, got, False)
    elif isinstance(x, dict):
        if 'l' in x and 'proj' in x:
            t = b.locals[x['l']]
            for i, e in enumerate(x['proj']):
                if e['p'] == 'field' and t and t.get('k') == 'adt' and t.get('path') == path and \
                        not (dest and i == len(x['proj']) - 1):
                    got.add(e['i'])
                t = e.get('ty') if e['p'] in ('field', 'deref') else t
            return
        for k, y in x.items():
            read_fields(y, b, path, got, x.get('s') == 'assign' and k == 'p')
