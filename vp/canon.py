"""Generic parameters by role.

The analyses call the element type `A`, an inline array's host `T` and the capacity `N`, as the repository does.  Where a
declaration or an impl block names its parameters otherwise, the same program with the parameters renamed is analysed:
a copy of the tree is made in which, within that item only, the parameters carry their role's name."""
import os, re, shutil

MASK = re.compile(r"//[^\n]*|/\*.*?\*/|\bb?r(#*)\".*?\"\1|b?\"(?:\\.|[^\"\\])*\"|b?'(?:\\[^\n]{1,9}?|[^'\\\n])'", re.S)
KINDS = re.compile(r'\b(?:struct|enum|union)\s+(\w+)\s*<')
IMPL = re.compile(r'(?<![\w\'])impl\s*<')


def mask(s):
    return MASK.sub(lambda m: re.sub(r'[^\n]', ' ', m.group(0)), s)


def close(s, i, a, b):
    """index just past the bracket that closes the one at i"""
    d = 0
    while i < len(s):
        if s[i] == a:
            d += 1
        elif s[i] == b and not (b == '>' and s[i - 1] in '-='):
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return len(s)


def split(s):
    out, d, cur = [], 0, ''
    for i, c in enumerate(s):
        if c in '<([{':
            d += 1
        elif c in ')]}' or c == '>' and s[i - 1:i] not in ('-', '='):
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return [x for x in out + [cur.strip()] if x]


def params(s):
    """(name, is a constant) of the type and const parameters"""
    out = []
    for p in split(s):
        m = re.match(r'(?:#\[[^\]]*\]\s*)*(const\s+)?([A-Za-z_]\w*)', p)
        if m:
            out.append((m.group(2), bool(m.group(1))))
    return out


def mapping(ps, occurrences):
    """occurrences: argument lists of the crate's own types in the header, in order"""
    kind = dict(ps)
    to = {}
    for args in occurrences:
        types = consts = 0
        for a in args:
            if a.startswith("'"):
                continue
            c = kind.get(a)
            if c:
                role = 'N' if consts == 0 else None
                consts += 1
            else:
                role = ('A', 'T')[types] if types < 2 else None
                types += 1
            if c is not None and role and a not in to and role not in to.values():
                to[a] = role
    ren = {a: r for a, r in to.items() if a != r}
    for nm, _ in ps:
        if nm not in ren and nm in ren.values():
            ren[nm] = nm + '_other'
    return ren


def rewrite(s, names):
    m = mask(s)
    edits = []
    for k in KINDS.finditer(m):
        e = close(m, k.end() - 1, '<', '>')
        ps = params(m[k.end():e - 1])
        ren = mapping(ps, [[p for p, _ in ps]])
        if ren:
            j = re.compile(r'[{;]').search(m, e)
            end = len(m) if not j else j.end() if m[j.start()] == ';' else close(m, j.start(), '{', '}')
            edits.append((k.start(), end, ren))
    for k in IMPL.finditer(m):
        e = close(m, k.end() - 1, '<', '>')
        ps = params(m[k.end():e - 1])
        b = m.find('{', e)
        if b < 0:
            continue
        head = m[e:b]
        where = re.search(r'\bwhere\b', head)
        head = head[:where.start()] if where else head
        occ = []
        # the implementing type says the most about the roles
        cut = re.search(r'\bfor\b(?!\s*<)', head)
        for part in ((head[cut.end():], head[:cut.start()]) if cut else (head,)):
            for o in re.finditer(r'\b(\w+)\s*<', part):
                if o.group(1) in names:
                    occ.append(split(part[o.end():close(part, o.end() - 1, '<', '>') - 1]))
        ren = mapping(ps, occ)
        if ren:
            edits.append((k.start(), close(m, b, '{', '}'), ren))
    if not edits:
        return None
    out, at = [], 0
    for a, b, ren in sorted(edits):
        if a < at:
            continue
        out.append(s[at:a])
        rx = re.compile(r"(?<!['\w.])(%s)(?!\w)" % '|'.join(map(re.escape, ren)))
        seg, ms, i = s[a:b], m[a:b], 0
        for x in rx.finditer(ms):
            out.append(seg[i:x.start()] + ren[x.group(1)])
            i = x.end()
        out.append(seg[i:])
        at = b
    out.append(s[at:])
    return ''.join(out)


def tree(repo, scratch):
    """repo itself, or a copy in which the generic parameters carry the names of their roles"""
    files = {}
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in fs:
            if f.endswith('.rs'):
                p = os.path.join(d, f)
                with open(p, encoding='utf-8') as h:
                    files[p] = h.read()
    names = set()
    for s in files.values():
        names.update(k.group(1) for k in KINDS.finditer(mask(s)))
    new = {}
    for p, s in files.items():
        r = rewrite(s, names)
        if r is not None:
            new[p] = r
    if not new:
        return repo
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree(repo, scratch, symlinks=True, ignore=shutil.ignore_patterns('target', '.git'))
    for p, s in new.items():
        with open(os.path.join(scratch, os.path.relpath(p, repo)), 'w', encoding='utf-8') as h:
            h.write(s)
    return scratch
