"""Abstract values."""
from collections import namedtuple
from .lin import L, Lin, ZERO

VInt = namedtuple('VInt', 'l')                 # integer, linear expression
VMod = namedtuple('VMod', 'l')                 # the representative in [0,N) of l modulo N
VBool = namedtuple('VBool', 'c')               # True/False/('ge',l)/('eq',l)/('ne',l)/('tok',t)/('ntok',t)
VAgg = namedtuple('VAgg', 'path v fs')         # struct / tuple / enum variant
VPtr = namedtuple('VPtr', 'cell path')         # pointer or reference to a place
VEl = namedtuple('VEl', 'cell path pos u view')  # pointer into element storage (pos: VInt|VMod units of view)
VSl = namedtuple('VSl', 'p len')               # fat pointer: p is VEl, len Lin
VElem = namedtuple('VElem', 'src off')         # an element value: item `off` of source sequence `src`
VOp = namedtuple('VOp', 'tag')                 # opaque value
VIter = namedtuple('VIter', 'id')              # caller-supplied iterator
VCont = namedtuple('VCont', 'path pieces')     # container known only by its contents
VSto = namedtuple('VSto', 'cap segs')          # element storage; segs = ((a,b,content),...)
VInl = namedtuple('VInl', 'len sto')           # host area of an inline array
VBits = namedtuple('VBits', 'segs')            # bitmap over [0,N): segs of ('0',)|('1',)|('M',mask)
VFn = namedtuple('VFn', 'info')
VAddr = namedtuple('VAddr', 'p')
VStr = namedtuple('VStr', 's')


class _Junk:
    def __repr__(self):
        return 'JUNK'


class _Poison:
    def __repr__(self):
        return 'POISON'


class _Moved:
    def __repr__(self):
        return 'MOVED'


VJunk = _Junk()
VPoison = _Poison()
VMoved = _Moved()
UNIT = VAgg('tuple', 0, ())
OPTION = 'std::option::Option'


def some(x):
    return VAgg(OPTION, 1, (x,))


NONE = VAgg(OPTION, 0, ())


def VI(x):
    return VInt(L(x))


# storage content: None (junk) | ('E', src, off, mask) | ('V', value)
def E(src, off=ZERO, mask=None):
    return ('E', src, L(off), mask)


def tyname(t):
    if t is None:
        return '?'
    k = t['k']
    if k == 'adt':
        a = [tyname(x) for x in t['args'] if x.get('k') != 'region']
        return t['path'] + ('<' + ', '.join(a) + '>' if a else '')
    if k == 'ref':
        return '&' + ('mut ' if t['mut'] else '') + tyname(t['to'])
    if k == 'ptr':
        return '*' + ('mut ' if t['mut'] else 'const ') + tyname(t['to'])
    if k == 'tuple':
        return '(' + ', '.join(tyname(x) for x in t['args']) + ')'
    if k == 'slice':
        return '[' + tyname(t['of']) + ']'
    if k == 'array':
        return '[' + tyname(t['of']) + '; ' + t['len'] + ']'
    return t.get('name') or t.get('path') or k
