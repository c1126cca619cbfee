"""Region-wise comparison of two gated value-graph terms.

EQUAL   - the terms denote the same value in every region of the gating conditions
DIFF    - in some feasible region they provably denote different values (distinct constructors,
          constants, access paths, or polynomials over free atoms)
UNKNOWN - neither was established (never reported as a violation)
"""
import itertools
import time

from . import terms as t
from .terms import T, mk, const, NONE, TRUE, FALSE, ZERO, ONE, DC, EMPTY
from . import front, witness

EQUAL, DIFF, UNKNOWN = 'EQUAL', 'DIFF', 'UNKNOWN'

AGG = ('sum', 'prod', 'iterget', 'wloop', 'wget', 'wret', 'wexit', 'wlast', 'fmap', 'opaque', 'any',
       'firstidx', 'scatter', 'cprod', 'sorted', 'join', 'binop', 'subseq', 'ziptr', 'undef',
       'newdyn', 'super', 'setdiff', 'getattr', 'raised', 'star')
FUZZY = ('opaque', 'iterget', 'wloop', 'wget', 'wret', 'wexit', 'wlast', 'binop', 'undef', 'subseq',
         'star', 'raised', 'ziptr')


# ---------------------------------------------------------------- linear arithmetic

def tighten(row):
    from math import gcd
    g = 0
    for k, c in row.items():
        if k is not None:
            g = gcd(g, abs(c))
    if g > 1:
        k = row.get(None, 0)
        row = {m: c // g for m, c in row.items() if m is not None}
        row[None] = -((-k) // g)
    return row


def row_of(p):
    """le0 polynomial -> {monomial key: coeff, None: const}"""
    r = {}
    for m, c in t.to_poly(p).items():
        r[m if m else None] = c
    r.setdefault(None, 0)
    return r


def nonneg_mono(m):
    return all(x.op in t.NONNEG_OPS or t.kind(x) == 'nat' for x in m)


_fm_cache = {}


def infeasible(rows):
    """Fourier-Motzkin over monomials-as-variables; True only when certainly infeasible."""
    key = frozenset(frozenset(r.items()) for r in rows)
    if key in _fm_cache:
        return _fm_cache[key]
    r = _fm_cache[key] = _infeasible(rows)
    return r


def products(rows):
    """Products of pairs of constraints that speak about the nonlinear monomials present."""
    mons = set()
    for r in rows:
        for k, c in r.items():
            if k is not None and c:
                mons.add(k)
    nl = [m for m in mons if len(m) == 2]
    if not nl or len(nl) > 12:
        return []
    atoms = {x for m in nl for x in m}
    lin = []
    seen = set()
    for r in rows:
        ks = [k for k, c in r.items() if k is not None and c]
        if ks and all(len(k) == 1 for k in ks) and any(k[0] in atoms for k in ks):
            f = frozenset(r.items())
            if f not in seen:
                seen.add(f)
                lin.append(r)
    if len(lin) > 24:
        return []
    out = []
    for i, p in enumerate(lin):
        for q in lin[i:]:
            r = {}
            ok = True
            for k1, c1 in p.items():
                for k2, c2 in q.items():
                    if not c1 or not c2:
                        continue
                    k = tuple(sorted((k1 or ()) + (k2 or ()), key=lambda z: z.dig))
                    r[k] = r.get(k, 0) - c1 * c2
            r = {(k if k else None): c for k, c in r.items() if c or not k}
            if any(k is not None and len(k) > 1 and k not in mons and not (
                    k[0] is k[1] and c > 0) for k, c in r.items()):
                ok = False
            if not ok or not any(k is not None and len(k) > 1 for k in r):
                continue
            r = {k: c for k, c in r.items() if k is None or len(k) < 2 or k in mons}
            r.setdefault(None, 0)
            out.append(r)
            if len(out) > 60:
                return out
    return out


def _infeasible(rows):
    rows = [tighten(dict(r)) for r in rows]
    seen = set()
    mons = set()
    for r in rows:
        for k, c in r.items():
            if k is not None and c:
                mons.add(k)
    for m in mons:
        if nonneg_mono(m):
            rows.append({m: -1, None: 0})
        elif len(m) == 2 and m[0] is m[1]:
            rows.append({m: -1, None: 0})
        for x in m:
            if len(m) == 1 and x.op == 'max0':
                # max0(p) >= p
                rr = row_of(t.sub(x.args[0], x))
                rows.append(rr)
                for k in rr:
                    if k is not None and k not in mons and nonneg_mono(k):
                        rows.append({k: -1, None: 0})
    rows += products(rows)
    work = []
    for r in rows:
        r = {k: c for k, c in r.items() if c or k is None}
        f = frozenset(r.items())
        if f in seen:
            continue
        seen.add(f)
        if len(r) == 1:
            if r[None] > 0:
                return True
            continue
        work.append(r)
    while True:
        cnt = {}
        for r in work:
            for k, c in r.items():
                if k is None:
                    continue
                a = cnt.setdefault(k, [0, 0])
                a[0 if c > 0 else 1] += 1
        if not cnt:
            return False
        k = min(cnt, key=lambda q: cnt[q][0] * cnt[q][1] - cnt[q][0] - cnt[q][1])
        pos = [r for r in work if r.get(k, 0) > 0]
        neg = [r for r in work if r.get(k, 0) < 0]
        rest = [r for r in work if not r.get(k, 0)]
        if len(pos) * len(neg) > 400 or len(work) > 300:
            return False
        new = []
        for p in pos:
            for q in neg:
                a, b = p[k], -q[k]
                r = {}
                for m in set(p) | set(q):
                    if m == k:
                        continue
                    c = p.get(m, 0) * b + q.get(m, 0) * a
                    if c or m is None:
                        r[m] = c
                r.setdefault(None, 0)
                r = tighten(r)
                if len(r) == 1:
                    if r[None] > 0:
                        return True
                    continue
                f = frozenset(r.items())
                if f not in seen:
                    seen.add(f)
                    new.append(r)
        work = rest + new


# ---------------------------------------------------------------- contexts

class Ctx:
    def __init__(self, rows=(), lits=(), neq=(), opts=None, univ=()):
        self.univ = tuple(univ)       # (n, lam): lam(v) is false for every v < n
        self.rows = tuple(rows)
        self.lits = tuple(lits)       # (atom, bool) for the report
        self.neq = tuple(neq)
        self.opts = opts or {}

    def with_rows(self, *ps):
        return Ctx(self.rows + tuple(row_of(p) for p in ps), self.lits, self.neq, self.opts,
                   self.univ)

    def implies_le0(self, p):
        if t.is_int_const(p):
            return t.cval(p) <= 0
        return self.refuted(t.sub(ONE, p))

    def refutes_le0(self, p):
        if t.is_int_const(p):
            return t.cval(p) > 0
        return self.refuted(p)

    def refuted(self, p):
        rows = list(self.rows) + [row_of(p)]
        return infeasible(rows) or any(
            k is not None and any(x.op == 'fdiv' for x in k) for k in rows[-1]) and \
            infeasible(rows + self.quotients(rows[-1]))

    def quotients(self, row):
        """Bounds of the quotients by unknown divisors, from the signs of both operands."""
        out = []
        for x in {x for k in row for x in (k or ()) if x.op == 'fdiv'}:
            p, q = x.args
            if t.is_int_const(q):
                continue
            rows = list(self.rows)

            def known(z):
                return infeasible(rows + [row_of(t.sub(ONE, z))])
            if known(t.sub(ONE, q)):
                pass
            elif known(t.add(q, ONE)):
                p, q = t.neg(p), t.neg(q)
            else:
                continue
            if known(t.neg(p)):
                out += [row_of(t.neg(x)), row_of(t.sub(x, p))]
                if known(t.sub(q, p)):
                    out.append(row_of(t.sub(ONE, x)))
            elif known(t.add(p, ONE)):
                out += [row_of(t.add(x, ONE)), row_of(t.sub(p, x))]
        return out

    def implies_eq0(self, p):
        return self.implies_le0(p) and self.implies_le0(t.neg(p))

    def decide(self, a):
        """TRUE / FALSE / None for an atom"""
        if a.op == 'le0':
            if self.implies_le0(a.args[0]):
                return TRUE
            if self.refutes_le0(a.args[0]):
                return FALSE
        elif a.op == 'eq0':
            p = a.args[0]
            if self.implies_eq0(p):
                return TRUE
            if self.refutes_le0(p) or self.refutes_le0(t.neg(p)):
                return FALSE
            for q in self.neq:
                if q is p or t.neg(q) is p:
                    return FALSE
                d = t.sub(p, q)
                if t.is_int_const(d) and t.cval(d) == 0:
                    return FALSE
        return None

    def divides(self):
        """Quotients by unknown divisors decide the region: linear facts do not suffice."""
        return any(x.op == 'fdiv' and not t.is_int_const(x.args[1])
                   for r in self.rows for k in r for x in (k or ()))

    def feasible(self):
        return not infeasible(list(self.rows))

    def assume(self, a, val):
        """-> (ctx, substitution) or None if contradictory"""
        m = {}
        rows = list(self.rows)
        neq = list(self.neq)
        if a.op == 'le0':
            p = a.args[0] if val else t.sub(ONE, a.args[0])
            rows.append(row_of(p))
            if self.implies_le0(t.neg(p)):
                s = solve_eq(p)
                if s:
                    m[s[0]] = s[1]
        elif a.op == 'eq0':
            p = a.args[0]
            if val:
                rows.append(row_of(p))
                rows.append(row_of(t.neg(p)))
                s = solve_eq(p)
                if s:
                    m[s[0]] = s[1]
            else:
                # p != 0: tighten when one side is already known
                if infeasible(rows + [row_of(t.sub(ONE, p))]):        # p <= 0
                    rows.append(row_of(t.add(p, ONE)))
                elif infeasible(rows + [row_of(t.add(p, ONE))]):      # p >= 0
                    rows.append(row_of(t.sub(ONE, p)))
                else:
                    neq.append(p)
        elif a.op == 'is' and val:
            x, y = a.args
            if y.op in t.IDENT_CONST and x.op not in t.IDENT_CONST:
                m[x] = y
            elif x.op in t.IDENT_CONST:
                m[y] = x
            elif x.op == y.op == 'var':
                if y.args[0] == 'self':
                    m[x] = y
                else:
                    m[y] = x
        elif a.op == 'eq' and val:
            x, y = a.args
            if t.is_const(y) and x.op not in ('const',):
                m[x] = y
            elif t.is_const(x):
                m[y] = x
            elif t.is_seq(t.kind(x)) and t.is_seq(t.kind(y)):
                # equal sequences have equal items
                if x.op == 'var' and not t.contains(y, x):
                    m[x] = y
                elif y.op == 'var' and not t.contains(x, y):
                    m[y] = x
        if rows != list(self.rows) and infeasible(rows):
            return None
        # disequalities recorded before may now tighten
        changed = True
        while changed:
            changed = False
            for q in list(neq):
                if infeasible(rows + [row_of(t.sub(ONE, q))]):
                    rows.append(row_of(t.add(q, ONE)))
                    neq.remove(q)
                    changed = True
                elif infeasible(rows + [row_of(t.add(q, ONE))]):
                    rows.append(row_of(t.sub(ONE, q)))
                    neq.remove(q)
                    changed = True
        if infeasible(rows):
            return None
        if a.op in ('le0', 'eq0') and len(rows) > len(self.rows):
            more = Ctx(rows).quotients(row_of(a.args[0]))
            if more:
                rows += more
                if infeasible(rows):
                    return None
        m[a] = TRUE if val else FALSE
        univ = self.univ
        if a.op == 'any' and not val:
            univ += (a.args,)
        return Ctx(rows, self.lits + ((a, val),), neq, self.opts, univ), m


def solve_eq(p):
    """x = e from p == 0 with a linear unit coefficient; prefers eliminating compound atoms."""
    d = t.to_poly(p)
    best = None
    for m, c in d.items():
        if len(m) == 1 and c in (1, -1):
            x = m[0]
            if any(x in mm for mm in d if mm != m):
                continue
            rest = t.from_poly({mm: k for mm, k in d.items() if mm != m})
            if contains_term(rest, x):
                continue
            e = t.neg(rest) if c == 1 else rest
            rank = (0 if t.is_int_const(e) else 1, x.op == 'fv', len(t.show(x)))
            if best is None or rank < best[0]:
                best = (rank, x, e)
    return best and (best[1], best[2])


def contains_term(x, s, seen=None):
    seen = set() if seen is None else seen
    if x is s:
        return True
    if x in seen:
        return False
    seen.add(x)
    return any(contains_term(a, s, seen) for a in x.args if isinstance(a, T))


# ---------------------------------------------------------------- atoms

BOOL_LEAF = ('le0', 'eq0', 'eq', 'is', 'isinst', 'truth', 'any', 'in', 'hasattr', 'lex',
             'wexit', 'isinstdyn', 'raises')


def atoms_of(c, acc):
    if c.op in ('and', 'or', 'not'):
        for a in c.args:
            atoms_of(a, acc)
    elif c.op == 'ite':
        for a in c.args:
            atoms_of(a, acc)
    elif c.op != 'const' and c.op != 'DC':
        if c not in acc:
            acc.append(c)
    return acc


def gate_atoms(x, acc=None, seen=None):
    """Atoms of gating conditions outside binders, outermost first."""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if x in seen:
        return acc
    seen.add(x)
    if x.op == 'ite':
        atoms_of(x.args[0], acc)
    elif x.op in ('and', 'or', 'not'):
        atoms_of(x, acc)
    elif x.op == 'lam':
        return acc
    elif x.op == 'max0':
        a = t.le0(x.args[0])
        if a.op == 'le0' and a not in acc:
            acc.append(a)
    for a in x.args:
        if isinstance(a, T):
            gate_atoms(a, acc, seen)
    return acc


def bound_free(a):
    return not a.bvs


@t.memo
def gated(x):
    """Does the atom itself contain gates (outside binders)?"""
    return any(gated_in(a) for a in x.args if isinstance(a, T))


@t.memo
def gated_in(x):
    if x.op in ('ite', 'max0', 'and', 'or', 'not'):
        return True
    if x.op == 'lam':
        return False
    return any(gated_in(a) for a in x.args if isinstance(a, T))


@t.memo
def divzero(x):
    if x.op == 'fdiv' and x.args[1] is ZERO:
        return True
    if x.op == 'lam':
        return False
    return any(divzero(a) for a in x.args if isinstance(a, T))


@t.memo
def is_agg_atom(a):
    return bool(t.find_ops(a, AGG))


def is_fuzzy(x):
    return bool(t.find_ops(x, FUZZY))


def text_length(x):
    """The number of characters of a part of a text, or None."""
    if x.op == 'const':
        return t.const(len(x.args[1])) if x.args[0] == 'str' else None
    if x.op == 'strrep' and x.args[0].op == 'const' and t.is_int(t.kind(x.args[1])):
        return t.mul(t.const(len(x.args[0].args[1])), t.max0(x.args[1]))
    if x.op == 'fmt':
        return mk('len', x)
    if x.op == 'idx' and x.args[1].op == 'slice' and t.kind(x.args[0]) == 'str':
        lo, hi, step = x.args[1].args
        n = mk('len', x.args[0])
        if step not in (NONE, ONE):
            return None
        if lo in (NONE, ZERO) and t.is_int_const(hi) and t.cval(hi) >= 0:
            return t.ite(t.le0(t.sub(n, hi)), n, hi)
        if hi is NONE and t.is_int_const(lo) and t.cval(lo) <= 0:
            k = t.neg(lo)
            return t.ite(t.le0(t.sub(n, k)), n, k) if k is not ZERO else n
        return None
    if t.kind(x) == 'str':
        return mk('len', x)
    return mk('len', mk('fmt', 's', x))      # a part of a text is a text


def short_text(x):
    """The value of a comparison of the length of a text with a positive number for a text of
    few characters, or None for any other condition."""
    if x.op != 'le0':
        return None
    pd = dict(t.to_poly(x.args[0]))
    c = pd.pop((), 0)
    if len(pd) != 1:
        return None
    (m, k), = pd.items()
    if len(m) == 1 and m[0].op == 'len' and t.kind(m[0].args[0]) == 'str' and abs(k) == 1 and \
            -k * c >= 8:
        return k > 0
    return None


def same_text_length(x, y):
    """Are both bounds on the number of characters of one text, of eight or more?"""
    out = []
    for z in (x, y):
        if z.op != 'le0':
            return False
        pd = dict(t.to_poly(z.args[0]))
        c = pd.pop((), 0)
        (m, k), = pd.items() if len(pd) == 1 else [(None, 0)]
        if abs(k) != 1 or len(m) != 1 or m[0].op != 'len' or t.kind(m[0].args[0]) != 'str' or \
                -k * c < 8:
            return False
        out.append(m[0])
    return out[0] is out[1]


@t.memo
def vague_len(x):
    """Does x depend on the number of components of an item some call returns?"""
    for y in t.find_ops(x, ('len',)):
        s = t.strip(y.args[0])
        item = False
        while s.op in ('idx', 'sorted', 'rev', 'as'):
            item = item or s.op == 'idx'
            s = s.args[0]
        if item and s.op in ('call', 'vcall', 'apply'):
            return True
    return False


@t.memo
def foreign(x):
    """The value of some function of a library or a builtin that is not modelled."""
    if x.op != 'apply' or not isinstance(x.args[0], T):
        return False
    f = x.args[0]
    while f.op in ('attr', 'idx', 'apply') and isinstance(f.args[0], T):
        f = f.args[0]
    return f.op in ('builtin', 'global', 'modref', 'opaque', 'call', 'vcall', 'const', 'clsref',
                    'funcref', 'dget')


@t.memo
def has_foreign(x):
    return any(foreign(y) for y in t.find_ops(x, ('apply',)))


@t.memo
def library_call(x):
    """Does a number depend on what a function of a library gives?"""
    return any(isinstance(y.args[0], str) and (
        ':' not in y.args[0] or y.args[0].partition(':')[0] not in front.PROG.modules)
        for y in t.find_ops(x, ('call',)))


@t.memo
def library_names(x):
    return frozenset(y.args[0] for y in t.find_ops(x, ('call',)) if isinstance(y.args[0], str) and (
        ':' not in y.args[0] or y.args[0].partition(':')[0] not in front.PROG.modules))


def protocol_calls(x):
    """Methods such as __eq__ called by name rather than through the operator."""
    return {y.args[1] for y in t.find_ops(x, ('vcall',)) if isinstance(y.args[1], str) and
            y.args[1].startswith('__') and y.args[1].endswith('__')}


INCLUSIONS = ('LtE of sets', 'GtE of sets', 'Lt of sets', 'Gt of sets')


def sorts_by_part(kw):
    """A key that reads one entry of the index in an (index, position) pair."""
    if kw.args[0] != 'key' or kw.args[1].op != 'lam' or kw.args[1].args[0] != 1:
        return False
    vs, x = t.open_fresh(kw.args[1])
    return x.op == 'idx' and x.args[0].op == 'idx' and x.args[0].args[0] is vs[0] and \
        t.is_int_const(x.args[1]) and x.args[0].args[1] is ZERO


def only_difference(a, b):
    """The two terms at the only place where a and b differ; None if there are several."""
    for _ in range(200):
        if a.op != b.op or a.op in ('poly', 'le0', 'eq0') or not a.args:
            return a, b
        xs, ys = list(a.args), list(b.args)
        if a.op in ('and', 'or', 'eq'):
            common = [x for x in xs if x in ys]
            xs = [x for x in xs if x not in common]
            ys = [y for y in ys if y not in common]
        if len(xs) != len(ys):
            return None
        bad = [(x, y) for x, y in zip(xs, ys) if x is not y and x != y]
        if len(bad) != 1 or not isinstance(bad[0][0], T) or not isinstance(bad[0][1], T):
            return None
        a, b = bad[0]
    return None


_accessed = {}


def accessed(x):
    """The attributes read whenever x is evaluated: not within bodies or branches."""
    if x not in _accessed:
        out, todo, seen = set(), [x], set()
        while todo:
            y = todo.pop()
            if y in seen or y.op in ('lam', 'ite', 'and', 'or', 'wloop', 'iterget'):
                continue
            seen.add(y)
            if y.op == 'attr':
                out.add((y.args[0], y.args[1]))
            todo += [z for z in y.args if isinstance(z, T)]
        _accessed[x] = frozenset(out)
    return _accessed[x]


def unmodelled(at, other):
    """Does an atom of one side call a method nothing is known of, which the other never calls?"""
    mine = {y for y in t.find_ops(at, ('apply',))
            if isinstance(y.args[0], T) and y.args[0].op == 'attr'}
    return bool(mine) and not mine & set(t.find_ops(other, ('apply',)))


def all_atoms(x, acc=None, seen=None):
    """Every boolean leaf in x without bound variables (also inside binders)."""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if x in seen:
        return acc
    seen.add(x)
    if x.op in BOOL_LEAF and not x.bvs:
        acc.append(x)
    for a in x.args:
        if isinstance(a, T):
            all_atoms(a, acc, seen)
    return acc


ALLOWED_FV = frozenset()


def outermost(x, op):
    """Terms headed by op not inside another such term, in order of occurrence."""
    acc, seen = [], set()

    def go(y):
        if y in seen:
            return
        seen.add(y)
        if y.op == op:
            acc.append(y)
            return
        for z in y.args:
            if isinstance(z, T):
                go(z)
    go(x)
    return acc


def group_iter(xs):
    out = []
    for x in xs:
        g = mk('lit', x.args[2], x.args[3])
        if g not in out:
            out.append(g)
    return out


class Budget(Exception):
    pass


class Result:
    def __init__(self, verdict, why='', ctx=None, a=None, b=None):
        self.verdict, self.why, self.ctx, self.a, self.b = verdict, why, ctx, a, b

    def describe(self):
        lits = []
        if self.ctx is not None:
            lits = [('' if v else 'not ') + t.show(x) for x, v in self.ctx.lits]
        return {'why': self.why, 'when': lits,
                'code': clip(self.a), 'specified': clip(self.b)}


def clip(x):
    if x is None:
        return None
    s = t.show(x) if isinstance(x, T) else str(x)
    return s if len(s) <= 900 else s[:900] + '...'


class Comparer:
    def __init__(self, opts=None, deadline=30.0, splits=6000):
        self.opts = opts or {}
        self.t0 = time.time()
        self.deadline = deadline
        self.left = splits
        self.leaves = 0
        self.memo = {}
        self.nested = False

    def tick(self):
        self.left -= 1
        if self.left < 0 or time.time() - self.t0 > self.deadline:
            raise Budget()

    def under(self, w, n, ctx, a, b):
        """Compare two bodies of a binder at w < n, using what is known of every index."""
        c2 = ctx.with_rows(t.neg(w), t.add(t.sub(w, n), ONE))
        if infeasible(list(c2.rows)):
            return Result(EQUAL)
        for m, l in ctx.univ:
            if c2.implies_le0(t.add(t.sub(w, m), ONE)):
                c = t.opn(l, w)
                if c is TRUE:
                    return Result(EQUAL)
                if c is not FALSE:
                    a, b = mk('ite', c, mk('SKIP'), a), mk('ite', c, mk('SKIP'), b)
        return self.go(a, b, c2)

    # ---- entry
    def compare(self, a, b, ctx):
        """a: code, b: specification"""
        try:
            r = self.go(a, b, ctx)
            if r.verdict == DIFF and t.find_ops(a, ('raised',)):
                r = Result(UNKNOWN, 'exceptions raised within expressions', ctx, a, b)
            if r.verdict == DIFF and r.ctx is not None:
                # the region depends on a function of a library that only one side calls
                own, want = library_names(a), library_names(b)
                used = set()
                for x, _ in r.ctx.lits:
                    used |= library_names(x)
                for row in r.ctx.rows:
                    for k in row:
                        for x in (k or ()):
                            used |= library_names(x)
                if used & (own ^ want):
                    r = Result(UNKNOWN, 'decided by a library function that is not modelled',
                               r.ctx, r.a, r.b)
            if r.verdict == DIFF and protocol_calls(a) - protocol_calls(b):
                r = Result(UNKNOWN, 'a method of the data model is called by name', r.ctx, r.a,
                           r.b)
            if r.verdict == UNKNOWN and not self.nested:
                self.nested = True
                r = self.unify(a, b, ctx) or r
            return r
        except Budget:
            return Result(UNKNOWN, 'budget exhausted', ctx, a, b)
        except RecursionError:
            return Result(UNKNOWN, 'recursion limit', ctx, a, b)

    def simplify(self, a, b, ctx):
        """Replace decided linear atoms and resolved divisions."""
        for _ in range(4):
            m = {}
            for x in set(all_atoms(a)) | set(all_atoms(b)):
                if x.op in ('le0', 'eq0'):
                    d = ctx.decide(x)
                    if d is not None:
                        m[x] = d
                elif x.op == 'eq' and self.sized(x.args[0]) and self.sized(x.args[1]):
                    d = t.sub(t.length(x.args[0]), t.length(x.args[1]))
                    if d is not ZERO and ctx.decide(mk('eq0', d)) is FALSE:
                        m[x] = FALSE        # not as many items
            for x, v in ctx.lits:
                if x.op in TYPE_LITS:
                    self.more_facts(x, v, a, b, m)
                    m[x] = TRUE if v else FALSE
            for x in set(t.find_ops(a, ('fdiv', 'max0'))) | set(t.find_ops(b, ('fdiv', 'max0'))):
                if x.bvs:
                    continue
                r = self.resolve(x, ctx)
                if r is not None:
                    m[x] = r
            if not m:
                return a, b
            a2, b2 = t.subst(a, m), t.subst(b, m)
            if a2 is a and b2 is b:
                return a, b
            a, b = a2, b2
        return a, b

    def sized(self, x):
        return x.op in ('scatter', 'dict', 'upd') or t.is_seq(t.kind(x))

    def resolve(self, x, ctx):
        if x.op == 'max0':
            if ctx.implies_le0(x.args[0]):
                return ZERO
            if ctx.implies_le0(t.neg(x.args[0])):
                return x.args[0]
            return None
        p, q = x.args
        if ctx.implies_le0(t.sub(ONE, q)):
            for k in (0, -1, 1, -2):
                r = t.sub(p, t.mul(const(k), q))
                if ctx.implies_le0(t.neg(r)) and ctx.implies_le0(t.add(t.sub(r, q), ONE)):
                    return const(k)
        elif ctx.implies_le0(t.add(q, ONE)):
            for k in (0, 1, -1, -2):
                r = t.sub(p, t.mul(const(k), q))
                if ctx.implies_le0(r) and ctx.implies_le0(t.add(t.sub(q, r), ONE)):
                    return const(k)
        return None

    def go(self, a, b, ctx):
        if a is b:
            self.leaves += 1
            return Result(EQUAL)
        if a.op in ('DC', 'SKIP') or b.op in ('DC', 'SKIP'):
            return Result(EQUAL)
        key = (a, b, ctx.rows and tuple(frozenset(r.items()) for r in ctx.rows), ctx.neq,
               ctx.univ, frozenset(x for x in ctx.lits if x[0].op in TYPE_LITS))
        if key in self.memo:
            return self.memo[key]
        self.tick()
        a, b = self.simplify(a, b, ctx)
        if a is b:
            self.leaves += 1
            return Result(EQUAL)
        r = self.split(a, b, ctx)
        self.memo[key] = r
        return r

    def split(self, a, b, ctx):
        ga, gb = gate_atoms(a), gate_atoms(b)
        ga = [x for x in ga if bound_free(x) and not gated(x)]
        gb = [x for x in gb if bound_free(x) and not gated(x)]
        if not ga and not gb:
            r = self.leaf(a, b, ctx)
            return r
        sb = set(gb)
        shared = [x for x in ga if x in sb]
        if shared:
            at = pick(shared)
        else:
            ua = [x for x in ga]
            ub = [x for x in gb]
            # complex gates on both sides may be two forms of the same condition
            ca = [x for x in ua if is_agg_atom(x)]
            cb = [x for x in ub if is_agg_atom(x)]
            pa = [x for x in ua if not is_agg_atom(x)]
            pb = [x for x in ub if not is_agg_atom(x)]
            if pa or pb:
                at = pick(pa + pb)
            elif ca and cb:
                for x in ca:
                    for y in cb:
                        r = self.atom_eq(x, y, ctx)
                        if r.verdict == EQUAL:
                            return self.go(t.subst(a, {x: y}), b, ctx)
                        if r.verdict == DIFF and len(ca) == len(cb) == 1 and \
                                r.why.startswith('bound shifted') and not self.same(
                                    t.subst(b, {y: TRUE}), t.subst(b, {y: FALSE}), ctx):
                            return r
                        if r.verdict == DIFF:
                            r2 = self.branch(x, a, b, ctx)
                            return r2
                lin = [x for x in ca if x.op in ('le0', 'eq0')]
                if lin and any(x.op in ('le0', 'eq0') for x in cb):
                    r = self.branch(lin[0], a, b, ctx)
                    if r.verdict == EQUAL:
                        return r
                short = [short_text(x) for x in ca + cb]
                if None not in short:
                    # texts of few characters: no bound on a length tells the sides apart
                    c2, m = ctx, {}
                    for x, val in zip(ca + cb, short):
                        r = c2 and c2.assume(x, val)
                        c2 = r and r[0]
                        m.update(r[1] if r else {})
                    if c2:
                        r = self.go(t.subst(a, m), t.subst(b, m), c2)
                        if r.verdict == DIFF:
                            return r
                if len(ca) == len(cb) == 1 and same_text_length(ca[0], cb[0]):
                    # the lengths between two bounds on the same text
                    for u, v in ((True, False), (False, True)):
                        c2, m = ctx, {}
                        for x, val in ((ca[0], u), (cb[0], v)):
                            r = c2 and c2.assume(x, val)
                            c2 = r and r[0]
                            m.update(r[1] if r else {})
                        if c2:
                            r = self.go(t.subst(a, m), t.subst(b, m), c2)
                            if r.verdict == DIFF:
                                return r
                return Result(UNKNOWN, 'conditions of different form', ctx, ca[0], cb[0])
            else:
                at = (ca or cb)[0]
                if is_fuzzy(at) or vague_len(at):
                    r = self.branch(at, a, b, ctx)
                    if r.verdict == DIFF:
                        return Result(UNKNOWN, 'undecidable condition: ' + r.why, ctx, r.a, r.b)
                    return r
                r = self.branch(at, a, b, ctx)
                if r.verdict == DIFF and self.opts.get('weak'):
                    return Result(UNKNOWN, r.why, r.ctx, r.a, r.b)
                return r
        r = self.branch(at, a, b, ctx)
        if r.verdict == DIFF and not shared and vague_len(at):
            return Result(UNKNOWN, 'a length not known: ' + r.why, ctx, r.a, r.b)
        if r.verdict == DIFF and not shared and unmodelled(at, b if at in ga else a):
            return Result(UNKNOWN, 'a method that is not modelled: ' + r.why, ctx, r.a, r.b)
        if r.verdict == DIFF and not shared:
            mine = t.find_ops(at, ('raises',))
            if mine:
                other = t.find_ops(b if at in ga else a, ('raises',))
                if other and not any(x.args[1] is y.args[1] for x in mine for y in other):
                    return Result(UNKNOWN, 'exceptions of different expressions', ctx, r.a, r.b)
        return r

    def branch(self, at, a, b, ctx):
        worst = Result(EQUAL)
        for val in (True, False):
            r = ctx.assume(at, val)
            if r is None:
                continue
            c2, m = r
            m = dict(m)
            self.more_facts(at, val, a, b, m)
            a2, b2 = t.subst(a, m), t.subst(b, m)
            if at.op == 'any' and val:
                c2 = self.first_facts(at, a2, b2, c2)
                if c2 is None:
                    continue
            if len(m) > 1:
                c2 = self.subst_ctx(c2, m, at)
                if c2 is None or not c2.feasible():
                    continue
            r = self.go(a2, b2, c2)
            if r.verdict == DIFF:
                return r
            if r.verdict == UNKNOWN:
                worst = r
        return worst

    def first_facts(self, at, a, b, ctx):
        """any(n, p) holds: p holds at its first index."""
        n, lam = at.args
        for x in t.find_ops(a, ('firstidx',)) + t.find_ops(b, ('firstidx',)):
            if x.args[0] is n and x.args[1] is lam and not x.bvs:
                ctx = ctx.with_rows(t.add(t.sub(x, n), ONE))
                c = t.opn(lam, x)
                todo = list(c.args) if c.op == 'and' else [c]
                for y in todo:
                    neg = y.op == 'not'
                    y = y.args[0] if neg else y
                    if y.op in ('le0', 'eq0'):
                        r = ctx.assume(y, not neg)
                        if r is None:
                            return None
                        ctx = Ctx(r[0].rows, ctx.lits, r[0].neq, ctx.opts, ctx.univ)
                return ctx
        return ctx

    def subst_ctx(self, ctx, m, at):
        m2 = {k: v for k, v in m.items() if k.op not in BOOL_LEAF}
        if not m2:
            return ctx
        rows = []
        for r in ctx.rows:
            p = t.from_poly({(k or ()): c for k, c in r.items()})
            q = t.subst(p, m2)
            if t.is_int_const(q):
                if t.cval(q) > 0:
                    return None
                continue
            rows.append(row_of(q))
        neq = []
        for p in ctx.neq:
            q = t.subst(p, m2)
            if q is ZERO:
                return None
            if not t.is_int_const(q):
                neq.append(q)
        univ = [(t.subst(n, m2), t.subst(l, m2)) for n, l in ctx.univ]
        return Ctx(rows, ctx.lits, neq, ctx.opts, univ)

    def more_facts(self, at, val, a, b, m):
        """Consequences of type and identity atoms."""
        others = set(all_atoms(a)) | set(all_atoms(b))
        if at.op == 'isinst' and val:
            x, name = at.args
            for o in others:
                if o.op == 'isinst' and o.args[0] is x and o is not at:
                    n2 = o.args[1]
                    if name in front.PROG.classes and n2 in front.PROG.classes:
                        if n2 in front.PROG.mro(name):
                            m[o] = TRUE
                        elif name not in front.PROG.mro(n2):
                            m[o] = FALSE
                    elif name != n2 and {name, n2} != {'int', 'bool'}:
                        m[o] = FALSE
                elif o.op == 'is' and x in o.args:
                    y = o.args[0] if o.args[1] is x else o.args[1]
                    if y.op in t.IDENT_CONST:
                        m[o] = FALSE
                elif o.op == 'eq' and x in o.args:
                    y = o.args[0] if o.args[1] is x else o.args[1]
                    if y is NONE:
                        m[o] = FALSE
                    elif name in ('int', 'slice') and t.is_seq(t.kind(y)):
                        m[o] = FALSE
                elif o.op == 'truth' and o.args[0] is x and name == 'slice':
                    m[o] = TRUE
                elif o.op == 'truth' and o.args[0] is x and \
                        name in ('tuple', 'list', 'str', 'dict', 'range'):
                    m[o] = t.lt(t.ZERO, t.length(x))
        elif at.op == 'isinst' and not val:
            x, name = at.args
            for o in others:
                if o.op == 'isinst' and o.args[0] is x and o is not at:
                    n2 = o.args[1]
                    if name in front.PROG.classes and n2 in front.PROG.classes and \
                            name in front.PROG.mro(n2):
                        m[o] = FALSE
        elif at.op == 'truth' and val and at.args[0].op == 'vcall' and \
                at.args[0].args[1] == 'endswith' and len(at.args[0].args) == 3 and \
                at.args[0].args[2].op == 'const' and at.args[0].args[2].args[0] == 'str':
            # where the text ends with c its last c starts len(c) before the end
            x, _, c = at.args[0].args
            k = len(t.cval(c))
            for side in (a, b):
                for o in t.find_ops(side, ('idx',)):
                    if o.args[0] is x and o.args[1].op == 'slice' and k:
                        lo, hi, st = o.args[1].args
                        if hi.op == 'vcall' and hi.args[0] is x and hi.args[2:] == (c,) and \
                                hi.args[1] in ('rindex', 'rfind'):
                            m[o] = mk('idx', x, mk('slice', lo, const(-k), st))
        elif at.op == 'truth' and val:
            for o in others:
                if o.op == 'is' and at.args[0] in o.args and NONE in o.args:
                    m[o] = FALSE

    # ---- leaves: no gates outside binders
    def leaf(self, a, b, ctx):
        r = self.leaf1(a, b, ctx)
        if r.verdict == DIFF and ctx.univ:
            r2 = self.with_univ(a, b, ctx)
            if r2 is not None:
                return r2
        return r

    def with_univ(self, a, b, ctx):
        """The comparison once a condition known of every index is applied to the indices here."""
        known = {x: (TRUE if v else FALSE) for x, v in ctx.lits}
        vs = {}
        for r in ctx.rows:
            for k in r:
                for x in (k or ()):
                    if x.op == 'fv' or x.op == 'firstidx':
                        vs[x.dig] = x
        for n, l in ctx.univ:
            for w in vs.values():
                if not ctx.implies_le0(t.add(t.sub(w, n), ONE)):
                    continue
                c = t.subst(t.opn(l, w), known)
                c, _ = self.simplify(c, c, ctx)
                if c is TRUE:
                    return Result(EQUAL)
                if c is FALSE or c.op == 'const':
                    continue
                rest = [u for u in ctx.univ if u[1] is not l]
                c2 = Ctx(ctx.rows, ctx.lits, ctx.neq, ctx.opts, rest)
                return self.go(mk('ite', c, mk('SKIP'), a), mk('ite', c, mk('SKIP'), b), c2)
        return None

    def leaf1(self, a, b, ctx):
        self.leaves += 1
        if a is b:
            return Result(EQUAL)
        ao, bo = a.op, b.op
        if divzero(b):
            return Result(EQUAL)          # outside the domain of the specification
        if divzero(a):
            return Result(DIFF, 'division by zero', ctx, a, b)
        if bo != 'raise' and ctx.lits:
            for x, name in accessed(a):
                if front.cls_of(x) is None and any(
                        v and l.op == 'isinst' and l.args[0] is x and
                        front.lacks(l.args[1], name) for l, v in ctx.lits):
                    return Result(DIFF, 'attribute %s is missing' % name, ctx, a, b)
        if ao == 'ret' and bo == 'ret':
            for i, what in ((1, 'effects'), (2, 'yielded items'), (0, 'returned value')):
                r = self.go(a.args[i], b.args[i], ctx)
                if r.verdict != EQUAL:
                    if r.verdict == DIFF and i == 1 and (
                            fresh_effects(a.args[1]) or fresh_effects(b.args[1])) and \
                            self.go(a.args[0], b.args[0], ctx).verdict != EQUAL:
                        # a new object filled in or built complete
                        r = Result(UNKNOWN, r.why, ctx, a, b)
                    r.why = what + ': ' + r.why if r.why else what
                    return r
            return Result(EQUAL)
        if {ao, bo} == {'ret', 'raise'} or (ao == 'raise' and bo == 'raise'):
            if ao == bo:
                if a.args[0] is b.args[0] or b.args[0].args[1] == 'Refused':
                    return Result(EQUAL)
                return Result(DIFF, 'raises a different exception', ctx, a, b)
            if ao == 'raise' and a.args[0].args[1] == 'AssertionError' and any(
                    is_fuzzy(x) for x, _ in ctx.lits):
                return Result(UNKNOWN, 'assertion', ctx, a, b)
            return Result(DIFF, 'raises where it must return' if ao == 'raise'
                          else 'returns where it must raise', ctx, a, b)
        ka, kb = t.kind(a), t.kind(b)
        if ao == 'as' or bo == 'as' or t.is_seq(ka) or t.is_seq(kb):
            return self.seqs(a, b, ctx)
        if (ao in ('poly', 'sum', 'prod', 'fdiv', 'len', 'max0', 'firstidx') or
                bo in ('poly', 'sum', 'prod', 'fdiv', 'len', 'max0', 'firstidx') or
                (t.is_int(ka) and t.is_int(kb))):
            return self.ints(a, b, ctx)
        if ka == 'bool' and kb == 'bool':
            return self.atom_eq(a, b, ctx)
        return self.nodes(a, b, ctx)

    def nodes(self, a, b, ctx):
        ao, bo = a.op, b.op
        if ao == 'slice' and bo == 'slice' and self.opts.get('slice_rel'):
            return self.slices(a, b, ctx)
        if ao == bo == 'dict' and all(k.args[0].op == 'const' for x in (a, b) for k in x.args
                                      if k.op == 'kv') and all(
                k.op == 'kv' for x in (a, b) for k in x.args):
            return self.dicts(a, b, ctx)
        if ao == bo and len(a.args) == len(b.args):
            if ao in ('const', 'var', 'fv', 'global', 'clsref', 'funcref', 'builtin'):
                return Result(DIFF, 'different value', ctx, a, b)
            if ao in ('call', 'vcall', 'new', 'attr', 'apply', 'slice', 'idx', 'setitem',
                      'setattr', 'mut', 'lam', 'kw', 'getattr', 'in', 'hasattr', 'fmt',
                      'join', 'sorted', 'rev', 'cprod', 'typeof', 'newdyn', 'kv', 'dict',
                      'dget', 'bound', 'ziptr', 'isinst', 'wloop', 'wget', 'wret', 'wexit', 'wlast',
                      'is', 'eq', 'truth', 'go', 'star', 'strrep', 'lex', 'raise', 'iterget', 'upd',
                      'scatter', 'subseq', 'setdiff', 'raised', 'any', 'firstidx', 'binop',
                      'spechelper', 'modattr', 'clsmeth', 'brk', 'cnt', 'super', 'isinstdyn'):
                return self.congruent(a, b, ctx)
        if ao == 'call' and bo == 'call' and a.args[0] == b.args[0]:
            return self.kwcalls(a, b, ctx)
        if self.other_class(a, b):
            return Result(DIFF, 'different class of object', ctx, a, b)
        if (foreign(a) or foreign(b)) and not (ao == bo and a.args[0] is b.args[0]):
            return Result(UNKNOWN, 'a function that is not modelled', ctx, a, b)
        if 'strcat' in (ao, bo) and not ({ao, bo} == {'const', 'strcat'} and
                                         (a if ao == 'const' else b).args[0] != 'str'):
            return self.strings(a, b, ctx)
        if self.distinct_ctor(a, b):
            return Result(DIFF, 'different kind of value', ctx, a, b)
        if ao == 'sorted' and self.same(a.args[0], b, ctx) or \
                bo == 'sorted' and self.same(b.args[0], a, ctx):
            return Result(DIFF, 'ordering applied on one side only', ctx, a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == 'vcall' and x.args[1] == 'copy' and self.same(x.args[0], y, ctx):
                return Result(DIFF, 'copied on one side only', ctx, a, b)
            if x.op == 'vcall' and x.args[1] == 'copy' and not is_fuzzy(x) and not is_fuzzy(y) \
                    and owner(x.args[0]) is not None and owner(x.args[0]) is owner(y):
                return Result(DIFF, 'a copy against existing storage', ctx, a, b)
        if path(a) and path(b) and not is_fuzzy(a) and not is_fuzzy(b):
            return Result(DIFF, 'different access', ctx, a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == y.op == 'sorted' and x.args[0] is y.args[0] and len(x.args) == 2 and \
                    len(y.args) == 1 and x.args[1].op == 'kw' and sorts_by_part(x.args[1]):
                return Result(DIFF, 'sorted by a part of the items only', ctx, a, b)
            if x.op == 'var' and base_op(y) in ('call', 'vcall') and not is_fuzzy(y) and \
                    not contains_term(y, x) and all(
                        l.op == 'is' and not v for l, v in ctx.lits if contains_term(l, x)):
                return Result(DIFF, 'an argument and a value that does not depend on it', ctx, a, b)
        return Result(UNKNOWN, 'incomparable values', ctx, a, b)

    def dicts(self, a, b, ctx):
        """Dictionaries with known keys, entry by entry."""
        da = {kv.args[0]: kv.args[1] for kv in a.args}
        db = {kv.args[0]: kv.args[1] for kv in b.args}
        worst = Result(EQUAL)
        for k in db:
            if k not in da:
                return Result(DIFF, 'entry %s is missing' % clip(k), ctx, a, b)
            r = self.go(da[k], db[k], ctx)
            if r.verdict == DIFF:
                return Result(DIFF, 'entry %s: %s' % (clip(k), r.why), r.ctx, r.a, r.b)
            if r.verdict != EQUAL:
                worst = r
        if worst.verdict == EQUAL and len(da) > len(db):
            return Result(UNKNOWN, 'additional entries', ctx, a, b)
        return worst

    def same(self, a, b, ctx):
        return self.go(a, b, ctx).verdict == EQUAL

    def kwcalls(self, a, b, ctx):
        da = {x.args[0]: x.args[1] for x in a.args[1:] if isinstance(x, T) and x.op == 'kw'}
        db = {x.args[0]: x.args[1] for x in b.args[1:] if isinstance(x, T) and x.op == 'kw'}
        sp = front.POLICY.specs.get(a.args[0])
        if sp is not None and set(da) ^ set(db):
            # the values the other side leaves to the specified defaults
            from .oblig import default_values
            given = default_values(sp.node.args, front.Frame(sp.module, spec=True))
            for k in set(da) ^ set(db):
                if k in given:
                    da.setdefault(k, given[k])
                    db.setdefault(k, given[k])
        missing = [k for k in db if k not in da]
        for k in da:
            if k in db:
                r = self.go(da[k], db[k], ctx)
                if r.verdict != EQUAL:
                    return r
        if set(da) == set(db) and all(isinstance(x, T) and x.op == 'kw'
                                      for x in a.args[1:] + b.args[1:]):
            return Result(EQUAL)
        if missing and not [k for k in da if k not in db]:
            return Result(DIFF, 'argument %s not passed on' % ', '.join(missing), ctx, a, b)
        return Result(UNKNOWN, 'calls with different arguments', ctx, a, b)

    def strings(self, a, b, ctx):
        """Texts put together from parts: without the common parts at both ends."""
        if is_fuzzy(a) or is_fuzzy(b):
            return Result(UNKNOWN, 'strings', ctx, a, b)
        pa = list(a.args if a.op == 'strcat' else (a,))
        pb = list(b.args if b.op == 'strcat' else (b,))
        for end in (0, -1):
            while pa and pb and self.same(pa[end], pb[end], ctx):
                pa.pop(end), pb.pop(end)
        if not pa and not pb:
            return Result(EQUAL)
        if not pa or not pb:
            for x in pa or pb:
                if x.op == 'const' and x.args[0] == 'str' and x is not t.const(''):
                    return Result(DIFF, 'text left out', ctx, a, b)
                if x.op == 'strrep' and x.args[0].op == 'const' and t.is_int(t.kind(x.args[1])):
                    if self.go(t.max0(x.args[1]), ZERO, ctx).verdict == DIFF:
                        return Result(DIFF, 'text left out', ctx, a, b)
            return Result(UNKNOWN, 'strings', ctx, a, b)
        if len(pa) == 1 and len(pb) == 1:
            x, y = pa[0], pb[0]
            if {x.op, y.op} != {'strcat'}:
                r = self.piece(x, y, ctx)
                return Result(r.verdict, 'text differs: ' + r.why, ctx, a, b)
        rep = ('strrep', 'const')
        if len(pa) == len(pb) and set(pa) == set(pb) and all(
                x.op in rep and (x.op == 'const' or x.args[0].op == 'const') for x in pa) and \
                len({x.args[0] if x.op == 'strrep' else x for x in pa}) == len(pa):
            return Result(DIFF, 'text in a different order', ctx, a, b)
        na, nb = ([text_length(x) for x in p] for p in (pa, pb))
        if None not in na + nb:
            if self.go(t.add(*na), t.add(*nb), ctx).verdict == DIFF:
                return Result(DIFF, 'text of a different length', ctx, a, b)
        known = ('const', 'fmt', 'idx', 'var', 'strcat', 'attr')
        if all(x.op in known for x in pa + pb):
            if len(pa) == len(pb):
                for x, y in zip(pa, pb):
                    r = self.go(x, y, ctx)
                    if r.verdict != EQUAL:
                        return Result(r.verdict, 'text differs: ' + r.why, ctx, a, b)
                return Result(EQUAL)
            return Result(DIFF, 'text differs', ctx, a, b)
        return Result(UNKNOWN, 'strings', ctx, a, b)

    def piece(self, x, y, ctx):
        """One part of a text against another."""
        if x.op == y.op == 'strrep':
            if x.args[0] is y.args[0] and x.args[0].op == 'const':
                return self.go(t.max0(x.args[1]), t.max0(y.args[1]), ctx)
            if self.same(x.args[1], y.args[1], ctx) and x.args[0].op == y.args[0].op == 'const' \
                    and self.go(t.max0(x.args[1]), ZERO, ctx).verdict == DIFF:
                return Result(DIFF, 'different text repeated', ctx, x, y)
            return Result(UNKNOWN, 'strings', ctx, x, y)
        if {x.op, y.op} == {'strrep', 'const'}:
            return Result(UNKNOWN, 'strings', ctx, x, y)
        return self.go(x, y, ctx)

    def other_class(self, a, b):
        ca, cb = result_class(a), result_class(b)
        return ca and cb and ca in front.PROG.classes and cb in front.PROG.classes and \
            ca not in front.PROG.mro(cb) and cb not in front.PROG.mro(ca)

    def distinct_ctor(self, a, b):
        def cls(x):
            if x.op == 'const':
                return 'const:' + x.args[0]
            if x.op in ('new', 'newdyn'):
                return 'new:' + (x.args[0] if x.op == 'new' else '?')
            if x.op in ('global', 'clsref', 'funcref', 'lam', 'slice', 'dict', 'strcat'):
                return x.op
            return None
        ca, cb = cls(a), cls(b)
        if ca and cb:
            if 'new:?' in (ca, cb) and ca.startswith('new') and cb.startswith('new'):
                return False
            if {ca.split(':')[0], cb.split(':')[0]} == {'const', 'strcat'}:
                return True
            return ca != cb or a.op == 'const'
        for x, y in ((a, b), (b, a)):
            # a fresh object against an existing one, None against a number
            if cls(x) and cls(x).startswith('new:') and path(y) and not is_fuzzy(y):
                return True
            if x is NONE and (t.is_int(t.kind(y)) or t.is_seq(t.kind(y))) and \
                    not y.op in ('opaque',):
                return True
            if x is NONE and (path(y) or y.op == 'builtin') and not is_fuzzy(y):
                return True
            if x.op == 'const' and x.args[0] in ('bool', 'str') and path(y) and \
                    not is_fuzzy(y):
                return True
            if x.op in ('global',) and path(y):
                return True
            if x is NONE and y.op in ('slice', 'lam', 'dict', 'call', 'vcall') and \
                    not is_fuzzy(y):
                return True
            if x.op == 'const' and y.op in ('lam', 'slice', 'dict', 'new'):
                return True
        return False

    def congruent(self, a, b, ctx):
        """Same head: equal if all arguments are, different if exactly one provably differs."""
        diffs = []
        unknown = []
        if a.op in ('wget', 'wexit', 'wret', 'wlast'):
            return self.wgets(a, b, ctx)
        # non-term arguments
        for x, y in zip(a.args, b.args):
            if not isinstance(x, T) or not isinstance(y, T):
                if x != y:
                    if self.other_class(a, b):
                        return Result(DIFF, 'different class of object', ctx, a, b)
                    if a.op in ('attr',):
                        # different attributes of something
                        if not is_fuzzy(a) and not is_fuzzy(b):
                            return Result(DIFF, 'different attribute', ctx, a, b)
                    if a.op == 'new':
                        return Result(DIFF, 'different class of object', ctx, a, b)
                    if a.op == 'fmt':
                        return Result(DIFF, 'different formatting', ctx, a, b)
                    if a.op == 'raise':
                        return Result(DIFF, 'different exception', ctx, a, b)
                    return Result(UNKNOWN, 'different heads', ctx, a, b)
        if a.op == 'lam':
            if a.args[0] != b.args[0]:
                return Result(UNKNOWN, 'binders', ctx, a, b)
            vs, x = t.open_fresh(a)
            y = t.opn(b, *vs)
            return self.go(x, y, ctx)
        if a.op == 'iterget' or a.op == 'wloop':
            return self.loops(a, b, ctx)
        if a.op in ('wget', 'wexit', 'wret', 'wlast'):
            return self.wgets(a, b, ctx)
        if a.op == 'scatter':
            return self.scatters(a, b, ctx)
        if a.op in ('any', 'firstidx'):
            return self.quant(a, b, ctx)
        for x, y in zip(a.args, b.args):
            if isinstance(x, T):
                r = self.go(x, y, ctx)
                if r.verdict == DIFF:
                    diffs.append(r)
                elif r.verdict == UNKNOWN:
                    unknown.append(r)
        if not diffs and not unknown:
            return Result(EQUAL)
        if diffs and a.op in ('idx', 'eq', 'in', 'lex', 'is', 'sorted', 'rev', 'upd', 'getattr',
                              'subseq', 'wget', 'wret', 'wexit', 'ziptr', 'binop', 'apply'):
            # heads that may coincide for different arguments
            if a.op == 'idx' and not unknown and len(diffs) == 1 and a.args[1].op == 'as' and \
                    t.strip(a.args[0]).op in ('iterget', 'wget') and \
                    self.same(a.args[0], b.args[0], ctx) and \
                    not is_fuzzy(a.args[1]) and not is_fuzzy(b.args[1]):
                return Result(DIFF, 'another entry of the table: ' + diffs[0].why, ctx, a, b)
            if a.op in ('idx', 'sorted', 'eq', 'is', 'apply') and len(diffs) == 1 and \
                    not unknown and not is_fuzzy(a) and not is_fuzzy(b):
                return diffs[0]
            return Result(UNKNOWN, diffs[0].why, ctx, a, b)
        if diffs and not (a.op in ('call', 'vcall') and unknown):
            return diffs[0]
        return (unknown or diffs)[0] if unknown else Result(UNKNOWN, 'arguments', ctx, a, b)

    def loops(self, a, b, ctx):
        if a.op == 'iterget':
            parts = [(a.args[1], b.args[1])]
            ia, ib = a.args[2], b.args[2]
            la, lb = a.args[3], b.args[3]
            if a.args[0] is not b.args[0] or len(ia.args) != len(ib.args) or \
                    la.args[0] != lb.args[0]:
                return Result(UNKNOWN, 'loops of different shape', ctx, a, b)
            vs, xa = t.open_fresh(la)
            xb = t.opn(lb, *vs)
            parts += list(zip(ia.args, ib.args)) + list(zip(xa.args, xb.args))
        else:
            return self.wloops(a, b, ctx)[0]
        rs = [self.go(x, y, ctx) for x, y in parts]
        bad = [r for r in rs if r.verdict != EQUAL]
        if not bad:
            return Result(EQUAL)
        if len(bad) == 1 and bad[0].verdict == DIFF and not self.opts.get('loose_loops'):
            return Result(DIFF, 'one step of the loop differs: ' + bad[0].why, bad[0].ctx,
                          bad[0].a, bad[0].b)
        return Result(UNKNOWN, 'loops differ', ctx, a, b)

    def wloops(self, a, b, ctx):
        """-> (result, for each component of b's state the matching component of a's)"""
        bad, perm = self.wparts(a, b, ctx)
        if bad is None:
            return Result(UNKNOWN, 'loops of different shape', ctx, a, b), None
        if not bad:
            return Result(EQUAL), perm
        if len(bad) == 1 and bad[0].verdict == DIFF and not self.opts.get('loose_loops'):
            return Result(DIFF, 'one step of the loop differs: ' + bad[0].why, bad[0].ctx,
                          bad[0].a, bad[0].b), perm
        return Result(UNKNOWN, 'loops differ', ctx, a, b), perm

    def wparts(self, a, b, ctx):
        n = len(a.args[0].args)
        if len(b.args[0].args) != n or n > 5:
            return None, None
        best = None
        for perm in itertools.permutations(range(n)):
            kinds = [None] * n
            for j, i in enumerate(perm):
                ka, kb = a.args[1].args[3][i], b.args[1].args[3][j]
                kinds[j] = ka if ka == kb else 'any'
            ws = [t.fresh(k) for k in kinds]
            va = [None] * n
            for j, i in enumerate(perm):
                va[i] = ws[j]
            parts = [(a.args[0].args[perm[j]], b.args[0].args[j]) for j in range(n)]
            xa, xb = t.opn(a.args[2], *va), t.opn(b.args[2], *ws)
            if xa.op != 'lit' or xb.op != 'lit':
                return None, None
            parts += [(t.opn(a.args[1], *va), t.opn(b.args[1], *ws))]
            ea, eb = t.opn(a.args[3], *va), t.opn(b.args[3], *ws)
            parts.append((ea, eb))
            out = exits(eb)
            for j in range(n):
                parts.append(tuple(mk('ite', out, mk('SKIP'), x) if out is not FALSE else x
                                   for x in (xa.args[perm[j]], xb.args[j])))
            c2 = ctx
            bad = []
            for i, (x, y) in enumerate(parts):
                r = self.go(x, y, c2)
                if r.verdict != EQUAL:
                    bad.append(r)
                if i == n and not bad and y.op == 'le0':
                    r = ctx.assume(y, True)
                    if r is not None:
                        c2 = r[0]
            if best is None or len(bad) < len(best[0]) or (
                    len(bad) == len(best[0]) and
                    sum(r.verdict == DIFF for r in bad) > sum(r.verdict == DIFF for r in best[0])):
                best = (bad, perm)
            if not bad:
                break
        return best

    def unify(self, a, b, ctx):
        """A result left open because a loop differs: when the loops of both sides correspond and
        exactly one part of one of them (initial value, condition, exit, one next value) differs,
        and everything else agrees once that loop is taken as given, that part is the difference."""
        for r in self.unify_loops(a, b, ctx, 'wloop'), self.unify_loops(a, b, ctx, 'iterget'):
            if r is not None:
                return r
        return None

    def unify_loops(self, a, b, ctx, op):
        la = [x for x in outermost(a, op) if not x.fvs - ALLOWED_FV]
        lb = [x for x in outermost(b, op) if not x.fvs - ALLOWED_FV]
        if op == 'iterget':
            la, lb = group_iter(la), group_iter(lb)
        both = set(la) & set(lb)
        la = [x for x in la if x not in both]
        lb = [x for x in lb if x not in both]
        if not la or len(la) != len(lb) or len(la) > 4:
            return None
        m = {}
        found = None
        for x, y in zip(la, lb):
            bad, perm = (self.wparts if op == 'wloop' else self.iterparts)(x, y, ctx)
            if bad is None:
                return None
            if len(bad) > 1 or (bad and (found or bad[0].verdict != DIFF)):
                return None
            if bad:
                found = bad[0]
            for z in t.find_ops(a, ('wget', 'wlast', 'wret', 'wexit') if op == 'wloop'
                                else ('iterget',)):
                if op == 'wloop' and z.args[0] is x:
                    if z.op == 'wget':
                        m[z] = mk('wget', y, str(perm.index(int(z.args[1]))))
                    elif z.op == 'wlast':
                        return None
                    else:
                        m[z] = mk(z.op, y)
                elif op == 'iterget' and z.args[2] is x.args[0] and z.args[3] is x.args[1]:
                    m[z] = mk('iterget', const(perm.index(t.cval(z.args[0]))), z.args[1],
                              y.args[0], y.args[1])
        if found is None:
            return None
        c = Comparer(self.opts, max(1.0, self.deadline - (time.time() - self.t0)), self.left)
        r = c.compare(t.subst(a, m), b, ctx)
        if r.verdict == EQUAL:
            return Result(DIFF, 'one part of the loop differs: ' + found.why, found.ctx, found.a,
                          found.b)
        return None

    def iterparts(self, x, y, ctx):
        """x, y: (inits, body) of sequential loops"""
        ia, la = x.args
        ib, lb = y.args
        n = len(ia.args)
        if len(ib.args) != n or n > 4 or la.args[0] != lb.args[0]:
            return None, None
        best = None
        for perm in itertools.permutations(range(n)):
            ks = la.args[3]
            kb = lb.args[3]
            i = t.fresh('nat')
            ws = [t.fresh(kb[j + 1] if kb[j + 1] == ks[perm[j] + 1] else 'any')
                  for j in range(n)]
            va = [None] * n
            for j, q in enumerate(perm):
                va[q] = ws[j]
            xa, xb = t.opn(la, i, *va), t.opn(lb, i, *ws)
            if xa.op != 'lit' or xb.op != 'lit':
                return None, None
            parts = [(ia.args[perm[j]], ib.args[j]) for j in range(n)]
            parts += [(xa.args[perm[j]], xb.args[j]) for j in range(n)]
            bad = [r for r in (self.go(p, q, ctx) for p, q in parts) if r.verdict != EQUAL]
            if best is None or len(bad) < len(best[0]) or (
                    len(bad) == len(best[0]) and
                    sum(r.verdict == DIFF for r in bad) > sum(r.verdict == DIFF for r in best[0])):
                best = (bad, perm)
            if not bad:
                break
        return best

    def wgets(self, a, b, ctx):
        la, lb = a.args[0], b.args[0]
        if a.op == 'wget':
            r, perm = self.wloops(la, lb, ctx)
            if r.verdict == EQUAL:
                if perm[int(b.args[1])] == int(a.args[1]):
                    return r
                return Result(DIFF, 'a different loop variable', ctx, a, b)
            return r
        if a.op == 'wlast':
            r, perm = self.wloops(la, lb, ctx)
            if r.verdict != EQUAL:
                return r
            ws = [t.fresh(k) for k in lb.args[1].args[3]]
            va = [None] * len(ws)
            for j, i in enumerate(perm):
                va[i] = ws[j]
            r = self.go(t.opn(a.args[1], *va), t.opn(b.args[1], *ws), ctx)
            return r if r.verdict != DIFF else Result(UNKNOWN, r.why, ctx, a, b)
        return self.go(la, lb, ctx)

    def scatters(self, a, b, ctx):
        r0 = self.go(a.args[0], b.args[0], ctx)
        r1 = self.go(a.args[1], b.args[1], ctx)
        bad = [r for r in (r0, r1) if r.verdict != EQUAL]
        if not bad:
            return Result(EQUAL)
        if len(bad) == 1 and bad[0].verdict == DIFF:
            return bad[0]
        return Result(UNKNOWN, 'updates differ', ctx, a, b)

    def quant(self, a, b, ctx):
        rn = self.go(a.args[0], b.args[0], ctx)
        vs, x = t.open_fresh(a.args[1])
        y = t.opn(b.args[1], *vs)
        if rn.verdict == EQUAL:
            return self.under(vs[0], a.args[0], ctx, x, y)
        vs, x = t.open_fresh(a.args[1])
        if rn.verdict == DIFF and self.go(x, t.opn(b.args[1], *vs), ctx).verdict == EQUAL:
            return rn
        return Result(UNKNOWN, 'quantified conditions differ', ctx, a, b)

    def atom_eq(self, a, b, ctx):
        if a is b:
            return Result(EQUAL)
        if a.op == 'const' and b.op == 'const':
            return Result(DIFF, 'different truth value', ctx, a, b)
        if a.op == b.op == 'any':
            r = self.quant(a, b, ctx)
            if r.verdict == UNKNOWN:
                p = only_difference(a, b)
                if p is not None and p[0].op == p[1].op == 'le0':
                    d = t.sub(p[0].args[0], p[1].args[0])
                    if t.is_int_const(d) and d is not ZERO:
                        return Result(DIFF, 'bound shifted by %d' % abs(t.cval(d)), ctx, a, b)
            return r
        r = self.sets(a, b, ctx)
        if r is not None:
            return r
        if a.op == b.op == 'wexit':
            return self.wgets(a, b, ctx)
        if a.op == b.op and a.op in ('le0', 'eq0'):
            r = self.go(a.args[0], b.args[0], ctx)
            if r.verdict == EQUAL:
                return r
        if a.op == b.op and a.op in ('isinst', 'is', 'eq', 'in', 'truth', 'lex', 'hasattr') and \
                len(a.args) == len(b.args):
            r = self.congruent(a, b, ctx)
            if r.verdict != UNKNOWN:
                return r
        if a.op == 'const' or b.op == 'const' or (
                not is_agg_atom(a) and not is_agg_atom(b)):
            x = a if b.op == 'const' else b
            if a.op != 'const' and b.op != 'const':
                # independent primitive atoms: look for a region separating them
                if a.op in ('le0', 'eq0') and any(
                        t.strip(y.args[0]).op == 'vcall' and not contains_term(b, y)
                        for y in t.find_ops(a, ('len',))):
                    return Result(UNKNOWN, 'the number of items a method gives', ctx, a, b)
                return self.sep(a, b, ctx)
            if is_fuzzy(x) or x.op in ('any', 'wexit', 'opaque'):
                if x.op == 'any' and not is_fuzzy(x):
                    return Result(DIFF, 'condition differs', ctx, a, b)
                return Result(UNKNOWN, 'condition', ctx, a, b)
            return Result(DIFF, 'condition differs', ctx, a, b)
        return Result(UNKNOWN, 'conditions of different form', ctx, a, b)

    def sets(self, a, b, ctx):
        """Sets and dictionaries compared by less, or by more, than equality."""
        x = a.args[0] if a.op == 'truth' else a
        if b.op != 'eq':
            return None
        of = None
        if x.op == 'binop' and x.args[0] in INCLUSIONS:
            of, why = x.args[1:], 'inclusion instead of equality'
        elif x.op == 'vcall' and x.args[1] in ('issubset', 'issuperset') and len(x.args) == 3:
            of, why = (x.args[0], x.args[2]), 'inclusion instead of equality'
        elif x.op == 'eq':
            y = [t.strip(z) for z in x.args]
            if all(z.op == 'as' and z.args[0] in ('list', 'tuple') for z in x.args) and all(
                    z.op == 'vcall' and z.args[1:] == ('items',) for z in y):
                of, why = [z.args[0] for z in y], 'the order of entries is compared'
        if of is None or set(of) != set(b.args) or any(
                v and (contains_term(l, of[0]) or contains_term(l, of[1])) for l, v in ctx.lits):
            return None
        return Result(DIFF, why, ctx, a, b)

    def sep(self, a, b, ctx):
        for val in (True, False):
            r = ctx.assume(a, val)
            if r is None:
                continue
            c2, m = r
            self.more_facts(a, val, a, b, m)
            b2 = t.subst(b, m)
            b2, _ = self.simplify(b2, b2, c2)
            if b2 is (TRUE if val else FALSE):
                continue
            if b2.op == 'const':
                return Result(DIFF, 'condition differs', c2, a, b)
            r = c2.assume(b2, not val)
            if r is None:
                continue
            return Result(DIFF, 'condition differs', r[0], a, b)
        return Result(EQUAL)

    # ---- integers
    def ints(self, a, b, ctx):
        if a.op in ('const', 'new', 'lam', 'dict', 'slice') and a.op != 'const' or \
                b.op in ('new', 'lam', 'dict', 'slice'):
            return Result(DIFF, 'different kind of value', ctx, a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == 'const' and x.args[0] not in ('int', 'bool'):
                if is_fuzzy(y):
                    return Result(UNKNOWN, 'value', ctx, a, b)
                return Result(DIFF, 'different kind of value', ctx, a, b)
        d = t.sub(a, b)
        return self.zero(d, ctx, a, b)

    def zero(self, d, ctx, a, b, depth=0):
        if d is ZERO:
            return Result(EQUAL)
        if t.is_int_const(d):
            return Result(DIFF, 'off by %d' % t.cval(d), ctx, a, b)
        if ctx.implies_eq0(d):
            return Result(EQUAL)
        if has_foreign(d) or library_call(d) or \
                any(t.strip(y.args[0]).op == 'vcall' and contains_term(a, y) != contains_term(b, y)
                    for y in t.find_ops(d, ('len',))):
            return Result(UNKNOWN, 'a function that is not modelled', ctx, a, b)
        pd = t.to_poly(d)
        if not is_fuzzy(d) and not t.find_ops(d, ('opaque',)) and not ctx.divides() and (
                ctx.implies_le0(t.add(d, ONE)) or ctx.implies_le0(t.sub(ONE, d))):
            return Result(DIFF, 'values differ by %s' % clip(d), ctx, a, b)
        # cancel pairs of aggregates
        agg = [(m, c) for m, c in pd.items() if any(x.op in AGG or x.op in ('fdiv', 'idx', 'apply',
                                                                          'call', 'vcall', 'attr')
                                                    for x in m)]
        if depth < 6:
            last = None
            for i, (m1, c1) in enumerate(agg):
                for m2, c2 in agg[i + 1:]:
                    if c1 != -c2:
                        continue
                    x, y = diff_factor(m1, m2)
                    if x is None or x.op != y.op:
                        continue
                    r = self.agg_eq(x, y, ctx)
                    rest = t.from_poly({m: c for m, c in pd.items() if m not in (m1, m2)})
                    if r.verdict == EQUAL:
                        return self.zero(rest, ctx, a, b, depth + 1)
                    if r.verdict == DIFF and rest is ZERO:
                        last = Result(DIFF, r.why or 'terms differ', r.ctx, a, b)
                    elif last is None or last.verdict != DIFF:
                        last = Result(UNKNOWN, r.why, r.ctx, a, b)
            if last is not None and last.verdict == DIFF:
                return last
            # linear combination of sums over the same range
            r = self.merge_sums(pd, ctx, a, b)
            if r is not None:
                return r
            r = self.peel(pd, ctx, a, b)
            if r is not None:
                return r
        if is_fuzzy(d):
            return Result(UNKNOWN, 'integer values', ctx, a, b)
        common = common_factor(pd)
        if common and depth < 6 and not any(ctx.implies_eq0(x) for x in common):
            r = self.zero(t.from_poly({without(m, common): c for m, c in pd.items()}), ctx, a, b,
                          depth + 1)
            if r.verdict == DIFF:
                return r
        n_agg = len({x for m in pd for x in m if t.find_ops(x, AGG)})
        n_div = len({x for m in pd for x in m if t.find_ops(x, ('fdiv', 'max0'))})
        n_call = len({y for m in pd for x in m for y in inside_div(x)
                      if t.find_ops(y, ('call', 'vcall', 'apply'))})
        if self.opts.get('weak') and (n_agg or n_div):
            return Result(UNKNOWN, 'aggregate values', ctx, a, b)
        if n_agg + n_call <= 1:
            w = witness.find(d, ctx.rows, ctx.neq)
            if w is not None:
                r = Result(DIFF, 'values differ by %s' % clip(d), ctx, a, b)
                r.witness = {t.show(x): v for x, v in w.items()}
                return r
            return Result(UNKNOWN, 'no example of a difference', ctx, a, b)
        return Result(UNKNOWN, 'integer values', ctx, a, b)

    def merge_sums(self, pd, ctx, a, b):
        sums = [(m[0], c) for m, c in pd.items() if len(m) == 1 and m[0].op == 'sum']
        if len(sums) < 2:
            return None
        n0 = sums[0][0].args[0]
        grp = [(s, c) for s, c in sums if s.args[0] is n0 or self.go(
            s.args[0], n0, ctx).verdict == EQUAL]
        if len(grp) < 2:
            return None
        v = t.fresh('nat')
        body = t.add(*[t.mul(const(c), t.opn(s.args[1], v)) for s, c in grp])
        r = self.under(v, n0, ctx, body, ZERO)
        rest = t.from_poly({m: c for m, c in pd.items()
                            if not (len(m) == 1 and m[0] in [s for s, _ in grp])})
        if r.verdict == EQUAL:
            return self.zero(rest, ctx, a, b, 5)
        if r.verdict == DIFF and rest is ZERO:
            return Result(DIFF, 'summands differ: ' + r.why, r.ctx, a, b)
        return None

    def peel(self, pd, ctx, a, b):
        """prod/sum over n against the same over n-1 (first or last item split off)."""
        aggs = [x for m in pd for x in m if x.op in ('sum', 'prod')]
        for i, x in enumerate(aggs):
            for y in aggs:
                if x is y or x.op != y.op:
                    continue
                dn = t.sub(x.args[0], y.args[0])
                dn, _ = self.simplify(dn, dn, ctx)
                if dn is not ONE:
                    continue
                n1 = y.args[0]
                v = t.fresh('nat')
                f, g = x.args[1], y.args[1]
                comb = t.mul if x.op == 'prod' else t.add
                c2 = ctx.with_rows(t.neg(v), t.add(t.sub(v, n1), ONE), t.neg(n1))
                if self.go(t.opn(f, t.add(v, ONE)), t.opn(g, v), c2).verdict == EQUAL:
                    rep = comb(t.opn(f, ZERO), y)
                elif self.go(t.opn(f, v), t.opn(g, v), c2).verdict == EQUAL:
                    rep = comb(t.opn(f, n1), y)
                else:
                    continue
                d = t.subst(t.from_poly(pd), {x: rep})
                return self.zero(d, ctx, a, b, 4)
        return None

    def agg_eq(self, x, y, ctx):
        if x.op in ('sum', 'prod'):
            rn = self.go(x.args[0], y.args[0], ctx)
            vs, p = t.open_fresh(x.args[1])
            q = t.opn(y.args[1], *vs)
            r = self.under(vs[0], x.args[0], ctx, p, q)
            if rn.verdict == EQUAL:
                return r
            if rn.verdict == DIFF and r.verdict == EQUAL:
                return Result(DIFF, 'different range: ' + rn.why, ctx, x, y)
            return Result(UNKNOWN, 'aggregates', ctx, x, y)
        if x.op == 'fdiv':
            r1 = self.go(x.args[0], y.args[0], ctx)
            r2 = self.go(x.args[1], y.args[1], ctx)
            if r1.verdict == r2.verdict == EQUAL:
                return Result(EQUAL)
            bad = [r for r in (r1, r2) if r.verdict != EQUAL]
            if len(bad) == 1 and bad[0].verdict == DIFF:
                return bad[0]
            return Result(UNKNOWN, 'quotients', ctx, x, y)
        return self.nodes(x, y, ctx)

    # ---- sequences
    def seqs(self, a, b, ctx):
        ta = a.args[0] if a.op == 'as' else None
        tb = b.args[0] if b.op == 'as' else None
        loose = ('iter', 'range', None)
        tagdiff = None
        if ta != tb and ta not in loose and tb not in loose:
            tagdiff = Result(DIFF, '%s instead of %s' % (ta, tb), ctx, a, b)
        elif ta != tb and (ta, tb) != (None, None):
            # a plain parameter / attribute is a tuple in this library
            ia = ta if ta not in loose else ('tuple' if path(t.strip(a)) else None)
            ib = tb if tb not in loose else ('tuple' if path(t.strip(b)) else None)
            if ia and ib and ia != ib and 'list' in (ia, ib) and ta not in ('iter', 'range') \
                    and tb not in ('iter', 'range'):
                tagdiff = Result(UNKNOWN, '%s instead of %s' % (ia, ib), ctx, a, b)
        sa, sb = t.strip(a), t.strip(b)
        r = self.seq_items(sa, sb, ctx)
        if r.verdict == EQUAL and tagdiff is not None:
            return tagdiff
        return r

    def viewable(self, s):
        s = t.strip(s)
        if s.op in ('map', 'lit'):
            return True
        if s.op == 'concat':
            return all(self.viewable(x) for x in s.args)
        if path(s) and t.is_seq(t.kind(s)):
            return True
        if s.op == 'idx' and s.args[1].op == 'slice' and s.args[0].op == 'attr' and \
                s.args[0].args[1] == 'data' and front.cls_of(s.args[0].args[0]) == 'Buffer':
            return True
        return False

    def elem(self, s, w):
        s = t.strip(s)
        if s.op == 'lit':
            if not s.args:
                return DC
            r = s.args[-1]
            for i in reversed(range(len(s.args) - 1)):
                r = t.ite(t.eq0(t.sub(w, const(i))), s.args[i], r)
            return r
        if s.op == 'concat':
            n = t.length(s.args[0])
            return t.ite(t.lt(w, n), self.elem(s.args[0], w),
                         self.elem(t.concat(*s.args[1:]), t.sub(w, n)))
        return t.idx(s, w)

    def seq_items(self, a, b, ctx):
        if a is b:
            return Result(EQUAL)
        for x, y in ((a, b), (b, a)):
            # the items of a copy, where the other side is built item by item
            if x.op == 'vcall' and x.args[1] == 'copy' and y.op in ('map', 'lit', 'concat') and \
                    x.args[0].op == 'idx' and self.viewable(x.args[0]):
                x = x.args[0]
                return self.seq_items(x, b, ctx) if y is b else self.seq_items(a, x, ctx)
        if a.op in ('fmap',) and b.op == 'fmap':
            rn = self.go(a.args[0], b.args[0], ctx)
            vs, x = t.open_fresh(a.args[1])
            y = t.opn(b.args[1], *vs)
            r = self.under(vs[0], a.args[0], ctx, x, y)
            if rn.verdict == EQUAL:
                return r
            if rn.verdict == DIFF and r.verdict == EQUAL and not any(
                    t.find_ops(z.args[0], ('firstidx', 'wget', 'wexit', 'wlast'))
                    for z in (a, b)):
                return Result(DIFF, 'different number of repetitions: ' + rn.why, ctx, a, b)
            return Result(UNKNOWN, 'loops differ', ctx, a, b)
        if a.op == 'lit' and b.op == 'lit':
            if len(a.args) != len(b.args):
                return Result(DIFF, '%d items instead of %d' % (len(a.args), len(b.args)),
                              ctx, a, b)
            worst = Result(EQUAL)
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                r = self.go(x, y, ctx)
                if r.verdict == DIFF:
                    return r
                if r.verdict == UNKNOWN:
                    worst = r
            return worst
        if self.viewable(a) and self.viewable(b) and not (a.op == 'lit' and not a.args) and \
                not (b.op == 'lit' and not b.args):
            na, nb = t.length(a), t.length(b)
            rn = self.go(na, nb, ctx)
            if rn.verdict == DIFF:
                return Result(DIFF, 'length: ' + rn.why, rn.ctx, a, b)
            if rn.verdict == EQUAL:
                w = t.fresh('nat')
                c2 = ctx.with_rows(t.neg(w), t.add(t.sub(w, na), ONE))
                if infeasible(list(c2.rows)):
                    return Result(EQUAL)
                if path(a) and path(b) and a.op != 'map' and b.op != 'map':
                    return self.nodes(a, b, ctx)
                return self.under(w, na, ctx, self.elem(a, w), self.elem(b, w))
            return Result(UNKNOWN, 'length: ' + rn.why, ctx, a, b)
        if (a.op == 'lit' and not a.args) or (b.op == 'lit' and not b.args):
            x = b if (a.op == 'lit' and not a.args) else a
            n = t.length(x)
            r = self.go(n, ZERO, ctx)
            if r.verdict == EQUAL:
                return r
            if x.op in ('concat',) and any(p.op == 'lit' for p in x.args):
                return Result(DIFF, 'items on one side only', ctx, a, b)
            walked = x.op == 'fmap' and t.find_ops(
                x.args[0], ('firstidx', 'wget', 'wexit', 'wlast'))
            if r.verdict == DIFF and not is_fuzzy(x) and not walked:
                return Result(DIFF, 'items on one side only', ctx, a, b)
            if x.op in ('map', 'fmap') and not is_fuzzy(x) and not t.find_ops(
                    x.args[0], ('firstidx', 'wget', 'wexit', 'wlast')):
                return Result(DIFF, 'items on one side only', ctx, a, b)
            return Result(UNKNOWN, 'sequences', ctx, a, b)
        if a.op == 'concat' and b.op == 'concat' and len(a.args) == len(b.args):
            rs = [self.go(x, y, ctx) for x, y in zip(a.args, b.args)]
            bad = [r for r in rs if r.verdict != EQUAL]
            if not bad:
                return Result(EQUAL)
            if len(bad) == 1 and bad[0].verdict == DIFF:
                return bad[0]
            return Result(UNKNOWN, 'sequences', ctx, a, b)
        if a.op == 'concat' or b.op == 'concat':
            # one side has a part more, all others match
            x, y = (a, b) if a.op == 'concat' else (b, a)
            px = list(x.args)
            py = list(y.args) if y.op == 'concat' else [y]
            if abs(len(px) - len(py)) == 1 and len(py) < len(px):
                for i in range(len(px)):
                    rest = px[:i] + px[i + 1:]
                    if all(p.op == q.op for p, q in zip(rest, py)) and all(
                            self.go(p, q, ctx).verdict == EQUAL for p, q in zip(rest, py)):
                        if px[i].op == 'lit' or not is_fuzzy(px[i]):
                            return Result(DIFF, 'items on one side only', ctx, a, b)
        if a.op in ('map', 'fmap') and b.op in ('map', 'fmap') and a.op != b.op:
            # filtered against unfiltered
            m, f = (a, b) if a.op == 'map' else (b, a)
            rn = self.go(m.args[0], f.args[0], ctx)
            if rn.verdict == EQUAL:
                vs, x = t.open_fresh(m.args[1])
                y = t.opn(f.args[1], *vs)
                p, q = (t.lit(x), y) if a is m else (y, t.lit(x))
                r = self.under(vs[0], m.args[0], ctx, p, q)
                if r.verdict != UNKNOWN:
                    return r
            return Result(UNKNOWN, 'sequences', ctx, a, b)
        return self.nodes(a, b, ctx)

    # ---- slices up to a clipped step (see S01)
    def slices(self, a, b, ctx):
        size = self.opts['slice_rel']
        for i, what in ((0, 'start'), (1, 'stop')):
            r = self.go(a.args[i], b.args[i], ctx)
            if r.verdict != EQUAL:
                return Result(r.verdict, what + ': ' + r.why, r.ctx, a, b)
        r = self.go(a.args[2], b.args[2], ctx)
        if r.verdict == EQUAL:
            return r
        both = [x for x in (a.args[2], b.args[2])]
        if all(ctx.implies_le0(t.sub(size, x)) for x in both) or \
                all(ctx.implies_le0(t.add(size, x)) for x in both):
            return Result(EQUAL)     # steps beyond the axis select the same single element
        return Result(r.verdict, 'step: ' + r.why, r.ctx, a, b)


def fresh_effects(x):
    return any(y.args[0].op in ('new', 'newdyn') or t.strip(y.args[0]).op in ('map', 'lit') or
               t.strip(y.args[0]).op == 'vcall' and t.strip(y.args[0]).args[1] == 'copy'
               for y in t.find_ops(x, ('setitem', 'mut', 'setattr')))


TYPE_LITS = ('is', 'isinst', 'truth', 'eq', 'isinstdyn')


def exits(tree):
    if tree.op == 'ite':
        return t.ite(tree.args[0], exits(tree.args[1]), exits(tree.args[2]))
    return FALSE if tree.op == 'go' else TRUE


def diff_factor(m1, m2):
    a, b = list(m1), list(m2)
    for x in list(a):
        if x in b:
            a.remove(x)
            b.remove(x)
    if len(a) == 1 and len(b) == 1:
        return a[0], b[0]
    return None, None


def inside_div(x):
    """The atoms a quotient is computed from, or the term itself."""
    if x.op not in ('fdiv', 'max0'):
        return {x}
    return {z for y in x.args for m in t.to_poly(y) for w in m for z in inside_div(w)}


def common_factor(pd):
    """The atoms which are factors of every monomial, of at least two."""
    ms = [list(m) for m in pd]
    if len(ms) < 2:
        return []
    out = []
    for x in list(ms[0]):
        if all(x in m for m in ms):
            out.append(x)
            for m in ms:
                m.remove(x)
    return out


def without(m, atoms):
    m = list(m)
    for x in atoms:
        m.remove(x)
    return tuple(m)


def owner(x):
    """The data attribute x is, or is a window of."""
    while x.op == 'idx' and x.args[1].op == 'slice':
        x = x.args[0]
    return x if x.op == 'attr' and x.args[1] == 'data' and path(x) else None


def result_class(x):
    """The class of which a value is a direct instance, if it shows."""
    if x.op == 'new':
        return x.args[0]
    if x.op == 'call' and isinstance(x.args[0], str) and x.args[0].endswith('.fromobject'):
        c = x.args[0].rpartition(':')[2].rpartition('.')[0]
        return c if c in front.PROG.classes else None
    if x.op == 'vcall' and x.args[1] == 'get_slice':
        c = result_class(x.args[0])
        return c if c in ('Strided', 'COO', 'FlatCOO') else None
    return None


def base_op(x):
    while x.op in ('idx', 'attr') and isinstance(x.args[0], T):
        x = x.args[0]
    return x.op


def path(x):
    """access path: variable, attribute or item of an access path"""
    while True:
        if x.op in ('var', 'fv'):
            return True
        if x.op == 'attr':
            x = x.args[0]
            continue
        if x.op == 'idx':
            i = x.args[1]
            if t.find_ops(i, FUZZY):
                return False
            x = x.args[0]
            continue
        if x.op in ('vcall', 'call', 'sorted', 'cprod'):
            return False
        return False


ORDER = {'is': 0, 'isinst': 1, 'eq': 2, 'truth': 3, 'eq0': 4, 'le0': 5}


def pick(atoms):
    return min(enumerate(atoms), key=lambda ia: (ORDER.get(ia[1].op, 6), ia[0]))[1]
