"""Value-graph terms: hash-consed, alpha-canonical, normalised by smart constructors.

A term is a node of a gated value graph.  Integer expressions are kept as polynomials, sequences as
literals / maps / flat-maps over index ranges, booleans as literals over atoms.  Binders (`lam`)
use height-indexed bound variables, so alpha-equivalent terms are the same object.
"""
import hashlib
import itertools


class T:
    __slots__ = ('op', 'args', 'dig', 'height', 'fvs', 'bvs', '_kind', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.dig < other.dig


_intern = {}
_fresh = itertools.count(1)
FVKIND = {}     # fresh variable id -> kind
FVLEN = {}      # fresh variable id -> known length term of the (sequence) placeholder


def mk(op, *args):
    """Raw interned node."""
    k = (op,) + tuple((id(a) if isinstance(a, T) else ('p', type(a).__name__, a)) for a in args)
    t = _intern.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t._kind = None
    h = hashlib.blake2b(digest_size=12)
    h.update(op.encode())
    height = 0
    fvs = frozenset()
    bvs = frozenset()
    for a in args:
        if isinstance(a, T):
            h.update(b'(' + a.dig + b')')
            if a.height > height:
                height = a.height
            if a.fvs:
                fvs = fvs | a.fvs
            if a.bvs:
                bvs = bvs | a.bvs
        else:
            h.update(('[%s:%r]' % (type(a).__name__, a)).encode())
    if op == 'fv':
        fvs = frozenset([args[0]])
    elif op == 'bv':
        bvs = frozenset([args[0]])
    elif op == 'lam':
        nparams, base = args[0], args[1]
        height = base + nparams - 1
        bvs = bvs - frozenset(range(base, base + nparams))
    t.dig = h.digest()
    t.height = height
    t.fvs = fvs
    t.bvs = bvs
    _intern[k] = t
    return t


_CACHES = []


def memo(f):
    """Memoise a function of interned terms; caches are dropped between obligations."""
    cache = {}
    _CACHES.append(cache)

    def g(*a):
        try:
            return cache[a]
        except KeyError:
            r = cache[a] = f(*a)
            return r
    g.__name__ = f.__name__
    g.__doc__ = f.__doc__
    g.raw = f
    return g


def clear_caches():
    """Forget everything of the obligation before: the verdict on one does not depend on which
    others were decided first."""
    global _fresh
    for c in _CACHES:
        c.clear()
    for k in [k for k, x in _intern.items() if x.fvs]:
        del _intern[k]
    FVKIND.clear()
    FVLEN.clear()
    _fresh = itertools.count(1)


# ---------------------------------------------------------------- basic nodes

def const(v):
    return mk('const', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
FALL = mk('FALL')
DC = mk('DC')
SKIP = mk('SKIP')
UNDEF = mk('undef')


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[1]


def is_int_const(t):
    return t.op == 'const' and t.args[0] == 'int'


def fresh(kind='any', length=None):
    i = next(_fresh)
    FVKIND[i] = kind
    if length is not None:
        FVLEN[i] = length
    return mk('fv', i)


def var(name, kind='any', cls=None):
    return mk('var', name, kind, cls)


_opq = itertools.count(1)


def opaque(why, *deps):
    return mk('opaque', next(_opq), why, *deps)


# ---------------------------------------------------------------- kinds
# 'int' 'nat' 'bool' 'str' 'none' 'any' 'func' 'dict' or ('seq', elemkind)

INTS = ('seq', 'int')
DIMS = ('seq', 'nat')

ATTR_KIND = {
    'shape': DIMS, 'strides': INTS, '_strides': INTS, 'offset': 'int', 'size': 'nat',
    'rdimensions': ('seq', DIMS), 'rshapes': ('seq', DIMS), 'rstrides': ('seq', INTS),
    'roffset': INTS, 'start': 'int', 'stop': 'int', 'step': 'int', 'indices': 'storage',
    'findices': 'storage', 'crow_indices': 'storage', 'col_indices': 'storage',
    '__name__': 'str', '__module__': 'str', '__qualname__': 'str',
}


def is_int(k):
    return k in ('int', 'nat')


def is_seq(k):
    return isinstance(k, tuple) and k[0] == 'seq'


def kjoin(a, b):
    if a == b:
        return a
    if is_int(a) and is_int(b):
        return 'int'
    if is_seq(a) and is_seq(b):
        return ('seq', kjoin(a[1], b[1]))
    return 'any'


def kind(t):
    k = t._kind
    if k is None:
        k = t._kind = _kindof(t)
    return k


def _kindof(t):
    op = t.op
    a = t.args
    if op == 'const':
        n = a[0]
        return {'int': 'nat' if n == 'int' and a[1] >= 0 else 'int', 'bool': 'bool',
                'str': 'str', 'NoneType': 'none'}.get(n, 'any')
    if op in ('poly', 'fdiv', 'abs'):
        return 'int'
    if op == 'max0':
        return 'nat'
    if op in ('sum', 'prod'):
        lam = a[1]
        b = kind(lam.args[2])
        return 'nat' if b == 'nat' else 'int'
    if op in ('len', 'firstidx'):
        return 'nat'
    if op in ('le0', 'eq0', 'eq', 'is', 'isinst', 'truth', 'not', 'and', 'or', 'any', 'in',
              'hasattr', 'lex', 'raises'):
        return 'bool'
    if op == 'fv':
        return FVKIND.get(a[0], 'any')
    if op == 'bv':
        return a[1]
    if op == 'var':
        return a[1]
    if op == 'ite':
        x, y = a[1], a[2]
        if x.op in ('DC', 'undef'):
            return kind(y)
        if y.op in ('DC', 'undef'):
            return kind(x)
        return kjoin(kind(x), kind(y))
    if op == 'lit':
        k = None
        for x in a:
            k = kind(x) if k is None else kjoin(k, kind(x))
        return ('seq', k if k is not None else 'any')
    if op == 'map':
        return ('seq', kind(a[1].args[2]))
    if op == 'fmap':
        k = kind(a[1].args[2])
        return k if is_seq(k) else ('seq', 'any')
    if op == 'concat':
        k = None
        for x in a:
            kx = kind(x)
            if not is_seq(kx):
                kx = ('seq', 'any')
            k = kx if k is None else kjoin(k, kx)
        return k
    if op == 'as':
        if a[0] == 'dict':
            return 'dict'
        k = kind(a[1])
        return k if is_seq(k) else ('seq', 'any')
    if op in ('sorted', 'rev'):
        k = kind(a[0])
        return k if is_seq(k) else ('seq', 'any')
    if op == 'cprod':
        k = kind(a[0])
        inner = 'any'
        if is_seq(k) and is_seq(k[1]):
            inner = k[1][1]
        return ('seq', ('seq', inner))
    if op in ('upd', 'scatter'):
        return kind(a[0])
    if op == 'dict':
        return 'dict'
    if op == 'subseq':
        k = kind(a[0])
        return k if is_seq(k) else ('seq', 'any')
    if op == 'ziptr':
        return ('seq', ('seq', 'any'))
    if op == 'strrep' or op == 'join':
        return 'str'
    if op == 'idx':
        k = kind(a[0])
        if is_seq(k):
            return k[1]
        if k == 'str' and a[1].op == 'slice':
            return 'str'
        return 'int' if k == 'storage' else 'any'
    if op == 'attr':
        return ATTR_KIND.get(a[1], 'any')
    if op in ('fmt', 'strcat', 'fstr', 'strrep', 'join'):
        return 'str'
    if op in ('call',):
        return CALL_KIND.get(a[0], 'any')
    if op == 'vcall':
        return VCALL_KIND.get(a[1], 'any')
    if op in ('ret', 'raise'):
        return 'any'
    return 'any'


CALL_KIND = {}
VCALL_KIND = {}

# ---------------------------------------------------------------- polynomials


def to_poly(t):
    """dict: tuple of atoms (sorted, with repetition) -> int coefficient"""
    if t.op == 'const' and t.args[0] in ('int', 'bool'):
        v = int(t.args[1])
        return {(): v} if v else {}
    if t.op == 'poly':
        d = {}
        for mono in t.args:
            d[mono.args[1:]] = mono.args[0]
        return d
    if t.op == 'mono':
        return {t.args[1:]: t.args[0]}
    return {(t,): 1}


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return const(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = sorted(d.items(), key=lambda mc: (len(mc[0]), [x.dig for x in mc[0]]))
    return mk('poly', *[mk('mono', c, *m) for m, c in items])


def add(*ts):
    d = {}
    for t in ts:
        for m, c in to_poly(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def neg(t):
    return from_poly({m: -c for m, c in to_poly(t).items()})


def sub(a, b):
    return add(a, neg(b))


@memo
def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.dig))
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def _mono_div(m, c, bm, bc):
    """(m,c) / (bm,bc) exact or None"""
    if c % bc:
        return None
    rest = list(m)
    for x in bm:
        if x in rest:
            rest.remove(x)
        else:
            return None
    return tuple(rest), c // bc


@memo
def fdiv(a, b):
    if is_int_const(a) and is_int_const(b) and cval(b) != 0:
        return const(cval(a) // cval(b))
    if b is ZERO:
        return mk('fdiv', a, b)
    if b is ONE:
        return a
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    if neg(a) is b:
        return const(-1)
    pb = to_poly(b)
    pa = to_poly(a)
    lead = max(pb.items(), key=lambda mc: (len(mc[0]), [x.dig for x in mc[0]]))
    if lead[1] < 0:
        return fdiv(neg(a), neg(b))         # (-a) // (-b) == a // b
    if len(pb) == 1:
        (bm, bc), = pb.items()
        q, r = {}, {}
        for m, c in pa.items():
            if not bm and abs(bc) > 1:
                x = (m, c // bc) if c // bc else None
                if c - (c // bc) * bc:
                    r[m] = c - (c // bc) * bc
                if x is not None:
                    q[m] = q.get(m, 0) + x[1]
                continue
            x = _mono_div(m, c, bm, bc)
            if x is None:
                r[m] = c
            else:
                q[x[0]] = q.get(x[0], 0) + x[1]
        if q:
            return add(from_poly(q), fdiv(from_poly(r), b))
    else:
        # a = k*b + r for an integer constant k: pull k out
        c = pa.get(lead[0], 0)
        if c and c % lead[1] == 0:
            k = c // lead[1]
            r = add(a, mul(const(-k), b))
            if len(to_poly(r)) < len(pa):
                return add(const(k), fdiv(r, b))
    return mk('fdiv', a, b)


def mod(a, b):
    return sub(a, mul(b, fdiv(a, b)))


# ---------------------------------------------------------------- booleans

NONNEG_OPS = ('len', 'max0', 'firstidx')


def lower_bound(t):
    """A constant lower bound of an integer term or None."""
    lo = 0
    for m, c in to_poly(t).items():
        if not m:
            lo += c
            continue
        if c > 0 and all(x.op in NONNEG_OPS or kind(x) == 'nat' for x in m):
            continue
        return None
    return lo


def nonneg(t):
    """t >= 0 for what the library indexes with: offsets of buffers are never negative."""
    for m, c in to_poly(t).items():
        if c < 0 or any(not (x.op in NONNEG_OPS or kind(x) == 'nat' or
                             (x.op == 'attr' and x.args[1] in ('offset', 'size'))) for x in m):
            return False
    return True


@memo
def le0(p):
    """p <= 0 over the integers."""
    if is_int_const(p):
        return TRUE if cval(p) <= 0 else FALSE
    d = to_poly(p)
    from math import gcd
    g = 0
    for m, c in d.items():
        if m:
            g = gcd(g, c)
    if g > 1:
        k = d.get((), 0)
        d = {m: c // g for m, c in d.items() if m}
        d[()] = -((-k) // g)     # ceil(k/g)
        p = from_poly(d)
    lb = lower_bound(p)
    if lb is not None and lb > 0:
        return FALSE
    ub = lower_bound(neg(p))
    if ub is not None and ub >= 0:
        return TRUE
    ms = [m for m in d if m]
    if len(ms) == 1 and d.get((), 0) == (0 if d[ms[0]] > 0 else 1):
        some = counted(ms[0])
        if some is not None:           # at most zero, at least one
            return not_(some) if d[ms[0]] > 0 else some
    return mk('le0', p)


def counted(m):
    """Is any of the conditions counted by this sum true?"""
    if len(m) == 1 and m[0].op == 'sum':
        vs, body = open_fresh(m[0].args[1])
        if body.op == 'ite' and body.args[1] is ONE and body.args[2] is ZERO:
            return anyf(m[0].args[0], lam(vs, body.args[0]))
    return None


@memo
def eq0(p):
    if is_int_const(p):
        return TRUE if cval(p) == 0 else FALSE
    d = to_poly(p)
    lb = lower_bound(p)
    if lb is not None and lb > 0:
        return FALSE
    ub = lower_bound(neg(p))
    if ub is not None and ub > 0:
        return FALSE
    if len(d) == 1:
        some = counted(next(iter(d)))
        if some is not None:
            return not_(some)          # a sum of ones and zeros is zero: none of them is one
    lead = max(d.items(), key=lambda mc: (len(mc[0]), [x.dig for x in mc[0]]))
    if lead[1] < 0:
        p = neg(p)
    return mk('eq0', p)


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def le(a, b):
    return le0(sub(a, b))


def strip(t):
    while t.op == 'as' and t.args[0] != 'dict':
        t = t.args[1]
    return t


@memo
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite' and (is_const(b) or b.op == 'lit'):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and (is_const(a) or a.op == 'lit'):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    ka, kb = kind(a), kind(b)
    if a.op == 'const' and b.op == 'const':
        return TRUE if cval(a) == cval(b) else FALSE
    if is_int(ka) and is_int(kb):
        return eq0(sub(a, b))
    if (is_int(ka) and is_int_const(b)) or (is_int(kb) and is_int_const(a)):
        return eq0(sub(a, b))
    if is_int(ka) and b is NONE or is_int(kb) and a is NONE:
        return FALSE
    sa, sb = strip(a), strip(b)
    if is_seq(ka) and is_seq(kb) and sa is sb and a.op == b.op == 'as' and \
            a.args[0] == b.args[0]:
        return TRUE
    if sa.op == 'lit' and sb.op == 'lit' and (a.op != 'as' or b.op != 'as'
                                              or a.args[0] == b.args[0]):
        if len(sa.args) != len(sb.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(sa.args, sb.args)])
    if (a.op == 'const' and is_seq(kb)) or (b.op == 'const' and is_seq(ka)):
        return FALSE
    # sequence against the empty literal
    if sb.op == 'lit' and not sb.args and is_seq(ka):
        return eq0(length(a))
    if sa.op == 'lit' and not sa.args and is_seq(kb):
        return eq0(length(b))
    x, y = sorted([a, b], key=lambda z: z.dig)
    return mk('eq', x, y)


IDENT_CONST = ('const', 'global', 'clsref', 'funcref', 'builtin', 'modref')


@memo
def is_(a, b):
    if a is b:
        return TRUE
    if a.op in IDENT_CONST and b.op in IDENT_CONST:
        return FALSE
    if a.op == 'ite' and b.op in IDENT_CONST:
        return ite(a.args[0], is_(a.args[1], b), is_(a.args[2], b))
    if b.op == 'ite' and a.op in IDENT_CONST:
        return ite(b.args[0], is_(a, b.args[1]), is_(a, b.args[2]))
    for x, y in ((a, b), (b, a)):
        if x.op in ('new', 'lam', 'as', 'lit', 'map', 'concat', 'fmap', 'poly', 'sum', 'prod',
                    'len', 'fdiv') and y.op in IDENT_CONST and not (
                        is_const(y) and y.args[0] == 'int'):
            return FALSE
        if x is NONE and (is_seq(kind(y)) and y.op not in ('var', 'attr', 'fv')):
            return FALSE
    x, y = sorted([a, b], key=lambda z: z.dig)
    return mk('is', x, y)


@memo
def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'le0':
        return le0(sub(ONE, c.args[0]))
    if c.op == 'and':
        return or_(*[not_(x) for x in c.args])
    if c.op == 'or':
        return and_(*[not_(x) for x in c.args])
    if c.op == 'ite':
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    if c.op == 'DC':
        return c
    return mk('not', c)


def _junction(op, unit, zero, cs):
    out = []
    seen = set()
    todo = list(cs)
    while todo:
        c = todo.pop(0)
        if c is unit or c.op == 'DC':
            continue
        if c is zero:
            return zero
        if c.op == op:
            todo = list(c.args) + todo
            continue
        if c not in seen:
            seen.add(c)
            out.append(c)
    for c in out:
        if not_(c) in seen:
            return zero
    if not out:
        return unit
    # absorption with bounds on the same linear form:  p+k1<=0 , p+k2<=0
    les = {}
    rest = []
    for c in out:
        if c.op == 'le0':
            d = dict(to_poly(c.args[0]))
            k = d.pop((), 0)
            key = from_poly(d)
            if key in les:
                les[key] = max(les[key], k) if op == 'and' else min(les[key], k)
            else:
                les[key] = k
        else:
            rest.append(c)
    for key in list(les):
        nk = neg(key)
        if key in les and nk in les:
            k = les[key]
            k2 = les[nk]
            # key + k <= 0 and -key + k2 <= 0  ->  k2 <= key <= -k
            if op == 'and' and k2 > -k:
                return zero
            if op == 'or' and k2 <= -k + 1:
                return zero       # key <= -k or key >= k2 covers everything
            if op == 'or' and k2 == -k + 2:
                les.pop(key, None)
                les.pop(nk, None)
                rest.append(not_(eq0(add(key, const(k - 1)))))
            if op == 'and' and k2 == -k:
                les.pop(key, None)
                les.pop(nk, None)
                rest.append(eq0(sub(key, const(k2))))
    out = rest + [le0(add(key, const(k))) for key, k in les.items()]
    out = sorted(set(out), key=lambda z: z.dig)
    if len(out) == 1:
        return out[0]
    return mk(op, *out)


@memo
def and_(*cs):
    return _junction('and', TRUE, FALSE, cs)


@memo
def or_(*cs):
    return _junction('or', FALSE, TRUE, cs)


@memo
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op == 'DC':
        return b
    if b.op == 'DC':
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    ka, kb = kind(a), kind(b)
    if ka == 'bool' and kb == 'bool':
        if a is TRUE or a is c:
            return or_(c, b)
        if b is FALSE or b is c:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == 'as' and b.op == 'as' and a.args[0] == b.args[0]:
        return as_(a.args[0], ite(c, a.args[1], b.args[1]))
    if c.op in ('le0', 'and', 'or', 'ite'):
        # canonical orientation for a two-way linear gate
        n = not_(c)
        if n.dig < c.dig:
            return mk('ite', n, b, a)
    return mk('ite', c, a, b)


# ---------------------------------------------------------------- binders

def lam(params, body):
    """Close `body` over the fresh variables `params`."""
    h = 1 + body.height
    kinds = tuple(FVKIND.get(p.args[0], 'any') for p in params)
    m = {p.args[0]: mk('bv', h + i, kinds[i]) for i, p in enumerate(params)}
    body = _close(body, m)
    return mk('lam', len(params), h, body, kinds)


def _resort(op, args):
    """Raw rebuild that restores the canonical order of commutative nodes."""
    if op == 'poly':
        d = {}
        for mono in args:
            k = tuple(sorted(mono.args[1:], key=lambda x: x.dig))
            d[k] = d.get(k, 0) + mono.args[0]
        return from_poly(d)
    if op in ('and', 'or', 'eq', 'is'):
        return mk(op, *sorted(args, key=lambda z: z.dig))
    if op == 'eq0':
        d = to_poly(args[0])
        lead = max(d.items(), key=lambda mc: (len(mc[0]), [x.dig for x in mc[0]]))
        return mk('eq0', neg(args[0]) if lead[1] < 0 else args[0])
    if op == 'ite' and args[0].op in ('le0', 'and', 'or', 'ite'):
        n = not_(args[0])
        if n.dig < args[0].dig:
            return mk('ite', n, args[2], args[1])
    return mk(op, *args)


def _close(t, m):
    memo = {}

    def go(t):
        if not (t.fvs and any(i in m for i in t.fvs)):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'fv':
            r = m.get(t.args[0], t)
        else:
            r = _resort(t.op, [go(a) if isinstance(a, T) else a for a in t.args])
        memo[t] = r
        return r
    return go(t)


def opn(l, *args):
    """Instantiate a lam with argument terms (normalising)."""
    n, h, body, _ = l.args
    m = {h + i: args[i] for i in range(n)}
    # first replace bound variables by fresh variables raw, then substitute with normalisation
    fr = {}
    sub_ = {}
    for k, a in m.items():
        if a.op == 'fv':
            fr[k] = a
        else:
            f = fresh(kind(a))
            fr[k] = f
            sub_[f] = a
    body = _open_raw(body, fr)
    if any(a.op == 'fv' for a in m.values()) and not sub_:
        return body
    return subst(body, sub_)


def _open_raw(t, m):
    memo = {}

    def go(t):
        if not (t.bvs and any(i in m for i in t.bvs)):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'bv':
            r = m.get(t.args[0], t)
        else:
            r = _resort(t.op, [go(a) if isinstance(a, T) else a for a in t.args])
        memo[t] = r
        return r
    return go(t)


def open_fresh(l, kinds=None):
    """Open a lam with fresh variables; returns (vars, body)."""
    n = l.args[0]
    vs = [fresh((kinds or l.args[3])[i]) for i in range(n)]
    return vs, opn(l, *vs)


def subst(t, m):
    """Substitute terms (fv or any subterm) by terms with re-normalisation."""
    if not m:
        return t
    memo = {}
    keys = set(m)
    fvk = set()
    other = False
    for k in keys:
        if k.op == 'fv':
            fvk.add(k.args[0])
        else:
            other = True

    def go(t):
        if not other and not (t.fvs & fvk):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        elif t.op == 'lam':
            n = t.args[0]
            vs = [fresh(k) for k in t.args[3]]
            body = _open_raw(t.args[2], {t.args[1] + i: vs[i] for i in range(n)})
            r = lam(vs, go(body))
        else:
            r = rebuild(t, [go(a) if isinstance(a, T) else a for a in t.args])
        memo[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- sequences

def lit(*items):
    return mk('lit', *items)


EMPTY = mk('lit')


def as_(k, s):
    s = strip(s)
    return mk('as', k, s)


def mapf(n, l):
    if is_int_const(n):
        k = cval(n)
        if k <= 0:
            return EMPTY
        if k <= 8:
            return lit(*[opn(l, const(i)) for i in range(k)])
    # eta: map(len(s), v -> s[v]) == s
    h, body = l.args[1], l.args[2]
    if body.op == 'idx' and body.args[1].op == 'bv' and body.args[1].args[0] == h:
        s = body.args[0]
        if h not in s.bvs and length(s) is n and (is_seq(kind(s))):
            return strip(s)
    return mk('map', n, l)


def fmapf(n, l):
    """Concatenation over v < n of a sequence-valued body."""
    if is_int_const(n):
        k = cval(n)
        if k <= 0:
            return EMPTY
        if k <= 8:
            return concat(*[opn(l, const(i)) for i in range(k)])
    body = l.args[2]
    if body.op == 'as':
        vs, b = open_fresh(l)
        return fmapf(n, lam(vs, strip(b)))
    if body.op == 'lit':
        if not body.args:
            return EMPTY
        if len(body.args) == 1:
            vs, b = open_fresh(l)
            return mapf(n, lam(vs, b.args[0]))
    if body.op == 'ite' and one_item(body):
        vs, b = open_fresh(l)
        return mapf(n, lam(vs, the_item(b)))
    return mk('fmap', n, l)


@memo
def one_item(x):
    """Does every branch hold exactly one item?"""
    if x.op == 'ite':
        return one_item(x.args[1]) and one_item(x.args[2])
    x = strip(x)
    return x.op == 'lit' and len(x.args) == 1


@memo
def the_item(x):
    if x.op == 'ite':
        return ite(x.args[0], the_item(x.args[1]), the_item(x.args[2]))
    return strip(x).args[0]


def concat(*ss):
    out = []
    for s in ss:
        s = strip(s)
        if s.op == 'concat':
            parts = s.args
        else:
            parts = (s,)
        for p in parts:
            if p.op == 'lit':
                if not p.args:
                    continue
                if out and out[-1].op == 'lit':
                    out[-1] = lit(*(out[-1].args + p.args))
                    continue
            out.append(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    # a constant literal next to a map continuing it is left alone
    return mk('concat', *out)


@memo
def length(s):
    s = strip(s)
    op = s.op
    if op == 'lit':
        return const(len(s.args))
    if op == 'map':
        return s.args[0]
    if op == 'concat':
        return add(*[length(x) for x in s.args])
    if op == 'fmap':
        vs, b = open_fresh(s.args[1])
        return sumf(s.args[0], lam(vs, length(b)))
    if op in ('sorted', 'rev', 'scatter') and kind(s.args[0]) != 'dict':
        return length(s.args[0])
    if op == 'upd':
        if kind(s) != 'dict':
            return length(s.args[0])
    if op == 'ite':
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if op == 'fv' and s.args[0] in FVLEN:
        return FVLEN[s.args[0]]
    if s in VARLEN:
        return VARLEN[s]
    if op == 'idx' and s.args[0] in ITEMLEN:
        return opn(ITEMLEN[s.args[0]], s.args[1])
    if op == 'idx' and s.args[0].op == 'cprod':
        return length(s.args[0].args[0])
    if op == 'idx' and s.args[0].op == 'sorted' and s.args[0].args[0].op == 'cprod':
        return length(s.args[0].args[0].args[0])
    if op == 'const' and s.args[0] == 'str':
        return const(len(cval(s)))
    if op == 'call' and s.args[0] in CALL_LEN:
        return CALL_LEN[s.args[0]](s)
    if op == 'iterget' and s.args[2].args[cval(s.args[0])].op in ('lit', 'map') and False:
        pass
    h = HOOKS.get('len')
    if h is not None:
        r = h(s)
        if r is not None:
            return r
    return mk('len', s)


VARLEN = {}            # lengths a specification assumes
ITEMLEN = {}           # lengths of the items, by position
CALL_LEN = {}


@memo
def idx(s, i):
    s = strip(s)
    op = s.op
    if op == 'ite' and not is_const(s.args[0]):
        return ite(s.args[0], idx(s.args[1], i), idx(s.args[2], i))
    if i.op == 'ite' and op in ('lit', 'map'):
        return ite(i.args[0], idx(s, i.args[1]), idx(s, i.args[2]))
    if op == 'DC':
        return DC
    if op == 'dict':
        for kv in s.args:
            if kv.args[0] is i:
                return kv.args[1]
        return mk('idx', s, i)
    if is_int_const(i) and cval(i) < 0 and op != 'upd' and (is_seq(kind(s))):
        return idx(s, add(length(s), i))
    if op == 'lit' and is_int_const(i):
        k = cval(i)
        if 0 <= k < len(s.args):
            return s.args[k]
        return mk('idx', s, i)
    if op == 'map' and is_int(kind(i)):
        return opn(s.args[1], i)
    if op == 'concat' and is_int(kind(i)):
        # resolve through a prefix of known length
        first = s.args[0]
        n = length(first)
        rest = concat(*s.args[1:])
        if is_int_const(n) and is_int_const(i):
            if cval(i) < cval(n):
                return idx(first, i)
            return idx(rest, sub(i, n))
        lb = lower_bound(sub(i, n))
        if lb is not None and lb >= 0:
            return idx(rest, sub(i, n))
        return mk('idx', s, i)
    if op == 'rev' and is_int(kind(i)) and kind(s.args[0]) != 'dict':
        return idx(s.args[0], sub(sub(length(s.args[0]), ONE), i))
    if op == 'idx' and s.args[1].op == 'slice' and is_int(kind(i)):
        lo, hi, st = s.args[1].args
        if st in (NONE, ONE) and nonneg(i) and (lo is NONE or nonneg(lo)):
            return idx(s.args[0], i if lo is NONE else add(lo, i))
    if op == 'upd':
        base, k, v = s.args
        if k is i:
            return v
        if is_int(kind(k)) and is_int(kind(i)):
            d = sub(k, i)
            if is_int_const(d) and cval(d) != 0:
                return idx(base, i)
            return ite(eq0(d), v, idx(base, i))
        if is_const(k) and is_const(i):
            return idx(base, i)
    return mk('idx', s, i)


def upd(s, i, v):
    if s.op == 'as':
        return as_(s.args[0], upd(s.args[1], i, v))
    if s.op == 'lit' and is_int_const(i) and 0 <= cval(i) < len(s.args):
        a = list(s.args)
        a[cval(i)] = v
        return lit(*a)
    if s.op == 'upd' and s.args[1] is i:
        return mk('upd', s.args[0], i, v)
    if s.op == 'dict' and is_const(i):
        return dict_set(s, i, v)
    return mk('upd', s, i, v)


def dict_set(d, k, v):
    items = [kv for kv in d.args if kv.args[0] is not k]
    items.append(mk('kv', k, v))
    return mk('dict', *sorted(items, key=lambda kv: repr(kv.args[0].args)))


def seqview(t):
    """(n, f): the sequence t as f(0), ..., f(n-1)."""
    s = strip(t)
    if s.op == 'map':
        l = s.args[1]
        return s.args[0], (lambda v: opn(l, v))
    return length(s), (lambda v: idx(s, v))


def _depends(l, which=0):
    return (l.args[1] + which) in l.args[2].bvs


def _flip_needed(n, body, v):
    """True if the first indexed access in body runs downwards in v."""
    res = []

    def go(t):
        if res or v.args[0] not in t.fvs:
            return
        if t.op == 'idx':
            c = to_poly(t.args[1]).get((v,), 0)
            if c:
                res.append(c)
                return
        for a in sorted([a for a in t.args if isinstance(a, T)], key=lambda z: z.op):
            go(a)
    go(body)
    return bool(res) and res[0] < 0


def unsort(n, body, v):
    """Sums and products over a sorted sequence are those over the sequence itself."""
    for s in {x for x in find_ops(body, ('idx',)) if x.args[1] is v
              and x.args[0].op == 'sorted'}:
        seq = s.args[0].args[0]
        if n is length(seq) or n is length(s.args[0]):
            body2 = subst(body, {s: idx(seq, v)})
            plain = fresh('any')
            if v.args[0] not in subst(body2, {idx(seq, v): plain}).fvs:
                return body2
    return body


def sumf(n, l):
    if n is ZERO:
        return ZERO
    vs, body = open_fresh(l)
    v = vs[0]
    body = unsort(n, body, v)
    if is_int_const(n):
        k = cval(n)
        if k <= 0:
            return ZERO
        if k <= 8:
            return add(*[opn(l, const(i)) for i in range(k)])
    if _flip_needed(n, body, v):
        return sumf(n, lam([v], subst(body, {v: sub(sub(n, ONE), v)})))
    # linear: split the summands, pull factors that do not depend on v
    d = to_poly(body)
    out = {}

    def acc(t, c=1):
        for m, k in to_poly(t).items():
            out[m] = out.get(m, 0) + k * c
    for m, c in d.items():
        dep = tuple(x for x in m if v.args[0] in x.fvs)
        ind = tuple(x for x in m if v.args[0] not in x.fvs)
        if not dep:
            acc(mul(n, from_poly({ind: 1})), c)
        else:
            depb = from_poly({dep: 1})
            if depb.op == 'ite' and v.args[0] not in depb.args[1].fvs and \
                    v.args[0] not in depb.args[2].fvs:
                # a count: how often the condition holds
                p, q = depb.args[1:]
                s = add(mul(n, q), mul(sub(p, q), mk('sum', n, lam(
                    [v], ite(depb.args[0], ONE, ZERO)))))
            else:
                s = mk('sum', n, lam([v], depb))
            acc(mul(from_poly({ind: 1}), s), c)
    return from_poly(out)


def prodf(n, l):
    if n is ZERO:
        return ONE
    vs, body = open_fresh(l)
    v = vs[0]
    body = unsort(n, body, v)
    if is_int_const(n):
        k = cval(n)
        if k <= 0:
            return ONE
        if k <= 8:
            r = ONE
            for i in range(k):
                r = mul(r, opn(l, const(i)))
            return r
    if body is ONE:
        return ONE
    if _flip_needed(n, body, v):
        return prodf(n, lam([v], subst(body, {v: sub(sub(n, ONE), v)})))
    return mk('prod', n, lam([v], body))


BOOL_CANON = [None]    # installed by region.py


def anyf(n, l):
    vs, body = open_fresh(l)
    v = vs[0]
    if is_int_const(n):
        k = cval(n)
        if k <= 0:
            return FALSE
        if k <= 8:
            return or_(*[opn(l, const(i)) for i in range(k)])
    if body is FALSE:
        return FALSE
    if v.args[0] not in body.fvs:
        return and_(lt(ZERO, n), body)
    if body.op == 'or':
        return or_(*[anyf(n, lam([v], c)) for c in body.args])
    if body.op == 'and':
        ind = [c for c in body.args if v.args[0] not in c.fvs]
        if ind:
            dep = [c for c in body.args if v.args[0] in c.fvs]
            return and_(anyf(n, lam([v], and_(*dep))), *ind)
    # exists v<n: v == e  ->  0 <= e < n
    if body.op == 'eq0':
        r = _solve_for(body.args[0], v)
        if r is not None:
            return and_(le(ZERO, r), lt(r, n))
    if body.op == 'and':
        for c in body.args:
            if c.op == 'eq0':
                r = _solve_for(c.args[0], v)
                if r is not None:
                    rest = and_(*[x for x in body.args if x is not c])
                    return and_(le(ZERO, r), lt(r, n), subst(rest, {v: r}))
    return mk('any', n, lam([v], body))


def _solve_for(p, v):
    d = to_poly(p)
    c = d.get((v,), 0)
    if c not in (1, -1):
        return None
    for m in d:
        if m != (v,) and any(v.args[0] in x.fvs for x in m):
            return None
    rest = from_poly({m: k for m, k in d.items() if m != (v,)})
    return neg(rest) if c == 1 else rest


def firstidxf(n, l):
    if is_int_const(n) and cval(n) == 1:
        return ZERO
    return mk('firstidx', n, l)


@memo
def in_(x, s):
    s = strip(s)
    if s.op == 'lit':
        return or_(*[eq(x, y) for y in s.args])
    if s.op == 'ite':
        return ite(s.args[0], in_(x, s.args[1]), in_(x, s.args[2]))
    if s.op == 'concat':
        return or_(*[in_(x, y) for y in s.args])
    if s.op in ('sorted', 'rev'):
        return in_(x, s.args[0])
    if s.op == 'map':
        v = fresh('nat')
        return anyf(s.args[0], lam([v], eq(opn(s.args[1], v), x)))
    if s.op == 'fmap':
        v = fresh('nat')
        return anyf(s.args[0], lam([v], in_(x, opn(s.args[1], v))))
    return mk('in', x, s)


@memo
def truth(t):
    k = kind(t)
    if k == 'bool':
        return t
    if t.op == 'const':
        return TRUE if cval(t) else FALSE
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == 'DC':
        return DC
    if is_int(k):
        return not_(eq0(t))
    if is_seq(k) and t.op not in ('var', 'attr', 'idx', 'call', 'vcall') or (
            is_seq(k) and t.op in ('var', 'attr', 'idx', 'call', 'vcall')):
        return lt(ZERO, length(t))
    if t.op in ('lam', 'clsref', 'funcref'):
        return TRUE
    if k == 'func':
        return not_(is_(t, NONE))          # functions and classes are true
    return mk('truth', t)


def max0(t):
    if is_int_const(t):
        return const(max(0, cval(t)))
    lb = lower_bound(t)
    if lb is not None and lb >= 0:
        return t
    return mk('max0', t)


def minmax(which, a, b):
    c = le(a, b)
    return ite(c, a, b) if which == 'min' else ite(c, b, a)


# hooks set by the front end
HOOKS = {}


def rebuild(t, args):
    """Re-apply the smart constructor of t to new arguments."""
    op = t.op
    f = _REBUILD.get(op)
    if f is not None:
        return f(*args)
    h = HOOKS.get(op)
    if h is not None:
        return h(*args)
    if all(x is y for x, y in zip(args, t.args)):
        return t
    return mk(op, *args)


def _re_poly(*monos):
    d = {}
    for m in monos:
        # m is a ('mono', c, atoms...) rebuilt raw or a normalised product
        for mm, c in to_poly(m).items():
            d[mm] = d.get(mm, 0) + c
    return from_poly(d)


def _re_mono(c, *atoms):
    r = const(c)
    for a in atoms:
        r = mul(r, a)
    return r


_REBUILD = {
    'poly': _re_poly, 'mono': _re_mono, 'fdiv': fdiv, 'le0': le0, 'eq0': eq0, 'eq': eq,
    'is': is_, 'not': not_, 'and': and_, 'or': or_, 'ite': ite, 'as': as_, 'map': mapf,
    'fmap': fmapf, 'concat': concat, 'len': length, 'idx': idx, 'upd': upd, 'sum': sumf,
    'prod': prodf, 'any': anyf, 'firstidx': firstidxf, 'in': in_, 'truth': truth, 'max0': max0,
}


def contains(t, s):
    """Does the closed or open term t contain the fresh variable s?"""
    return s.args[0] in t.fvs


def find_ops(t, ops, under_lam=True, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if t in seen:
        return acc
    seen.add(t)
    if t.op in ops:
        acc.append(t)
    if t.op == 'lam' and not under_lam:
        return acc
    for a in t.args:
        if isinstance(a, T):
            find_ops(a, ops, under_lam, acc, seen)
    return acc


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    if depth > 14:
        return '...'

    def s(x):
        return show(x, depth + 1) if isinstance(x, T) else str(x)
    op, a = t.op, t.args
    if op == 'const':
        return repr(a[1])
    if op == 'var':
        return a[0]
    if op == 'fv':
        return '$%d' % a[0]
    if op == 'bv':
        return 'v%d' % a[0]
    if op == 'poly':
        out = []
        for m in a:
            c = m.args[0]
            f = [s(x) for x in m.args[1:]]
            if not f:
                term = str(abs(c))
            else:
                term = '*'.join(([str(abs(c))] if abs(c) != 1 else []) + f)
            out.append((' - ' if c < 0 else ' + ') + term)
        r = ''.join(out)
        return '(' + (r[3:] if r.startswith(' + ') else '-' + r[3:]) + ')'
    if op == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if op == 'le0':
        d = to_poly(a[0])
        pos = from_poly({m: c for m, c in d.items() if c > 0})
        ng = from_poly({m: -c for m, c in d.items() if c < 0})
        return '%s <= %s' % (s(pos), s(ng))
    if op == 'eq0':
        d = to_poly(a[0])
        pos = from_poly({m: c for m, c in d.items() if c > 0})
        ng = from_poly({m: -c for m, c in d.items() if c < 0})
        return '%s == %s' % (s(pos), s(ng))
    if op == 'eq':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if op == 'is':
        return '%s is %s' % (s(a[0]), s(a[1]))
    if op == 'not':
        return 'not(%s)' % s(a[0])
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(s(x) for x in a) + ')'
    if op == 'ite':
        return 'if(%s, %s, %s)' % tuple(map(s, a))
    if op == 'lam':
        return '\\%s. %s' % (','.join('v%d' % (a[1] + i) for i in range(a[0])), s(a[2]))
    if op == 'lit':
        return '[' + ', '.join(map(s, a)) + ']'
    if op == 'global':
        return a[0].split(':')[-1]
    if op == 'clsref':
        return a[0]
    if op == 'isinst':
        return 'isinstance(%s, %s)' % (s(a[0]), a[1])
    if op == 'as':
        return '%s(%s)' % (a[0], s(a[1]))
    if op in ('call', 'new'):
        return '%s%s(%s)' % ('new ' if op == 'new' else '', a[0], ', '.join(map(s, a[1:])))
    if op == 'vcall':
        return '%s.%s(%s)' % (s(a[0]), a[1], ', '.join(map(s, a[2:])))
    if op == 'len':
        return 'len(%s)' % s(a[0])
    if op == 'fdiv':
        return '(%s // %s)' % (s(a[0]), s(a[1]))
    if op == 'ret':
        return 'return %s' % s(a[0])
    if op == 'raise':
        return 'raise %s' % s(a[0])
    return '%s(%s)' % (op, ', '.join(map(s, a)))
