"""Interval searches: a while loop over two bounds that probes between them.

A loop that probes one position m between its bounds, leaves when the key there equals the
target and otherwise drops one side of the interval, finds the position of the key in sorted
data exactly when its step obligations hold for one reading of the bounds (each bound inside or
just outside the interval).  Such a loop is replaced by what it computes: whether a position in
the initial interval has the key, and that position.  The obligations are linear in the bounds
and the probe and are decided by the constraint test of sa/region.py."""
from . import front, region, terms as t
from .terms import T, mk, const, ONE, ZERO, TRUE, FALSE


class Search:
    def __init__(self, low, count, pred, value):
        self.low, self.count, self.pred, self.value = low, count, pred, value


def positions(i):
    i = t.strip(i)
    return list(i.args) if i.op == 'lit' else [i]


def first_facts(x):
    """The first position where a condition holds: the condition holds there."""
    for _ in range(3):
        m = {}
        for f in t.find_ops(x, ('firstidx',)):
            if f.bvs:
                continue
            c = t.opn(f.args[1], f)
            for y in (c.args if c.op == 'and' else (c,)):
                if y.op == 'not':
                    m[y.args[0]] = FALSE
                elif y.op != 'const':
                    m[y] = TRUE
        m = {k: v for k, v in m.items() if k.op in region.BOOL_LEAF}
        y = t.subst(x, m) if m else x
        if y is x:
            return x
        x = y
    return x


def leaves(x):
    return leaves(x.args[1]) | leaves(x.args[2]) if x.op == 'ite' else {x}


def cond_where(tree, leaf):
    if tree.op == 'ite':
        return t.or_(t.and_(tree.args[0], cond_where(tree.args[1], leaf)),
                     t.and_(t.not_(tree.args[0]), cond_where(tree.args[2], leaf)))
    return TRUE if tree is leaf else FALSE


def key_difference(pred, m):
    """pred(m) says key(m) == target: -> (key(m) - target, atoms that hold when they differ)"""
    neg = pred.op == 'not'
    x = pred.args[0] if neg else pred
    if x.op == 'eq0' and not neg:
        return orient(x.args[0], m), ()
    if x.op == 'any' and neg:
        n, lam = x.args
        v = t.fresh('nat')
        c = t.opn(lam, v)
        if c.op == 'not' and c.args[0].op == 'eq0':
            d = orient(c.args[0].args[0], m)
            return d and t.subst(d, {v: t.firstidxf(n, lam)}), (x,)
    return None, ()


def orient(d, m):
    sign = set()
    for mono, c in t.to_poly(d).items():
        if any(m.args[0] in x.fvs for x in mono):
            sign.add(c > 0)
    if len(sign) != 1:
        return None
    return d if sign.pop() else t.neg(d)


def analyse(w):
    """-> Search, or (why) when the loop has this form and its step is wrong, or None"""
    inits, cond, nxt, ex = w.args
    if len(inits.args) != 2 or any(t.find_ops(x, ('wloop',)) for x in inits.args):
        return None
    best = None
    for lo_i in (0, 1):
        r = reading(w, lo_i)
        if isinstance(r, Search):
            return r
        best = best or r
    return best


def reading(w, lo_i):
    inits, cond, nxt, ex = w.args
    vs = [t.fresh('int'), t.fresh('int')]
    lo, hi = vs[lo_i], vs[1 - lo_i]
    c = t.opn(cond, *vs)
    step = first_facts(t.opn(nxt, *vs))
    tree = first_facts(t.opn(ex, *vs))
    missing = None
    if c is TRUE and tree.op == 'ite':
        # the loop leaves by a test of its own when the interval is empty
        for leaf, rest, cc in ((tree.args[1], tree.args[2], t.not_(tree.args[0])),
                               (tree.args[2], tree.args[1], tree.args[0])):
            if leaf.op == 'ret' and not leaf.fvs & {lo.args[0], hi.args[0]} and \
                    rest.op == 'ite' and cc.op == 'le0':
                missing, tree, c = leaf, rest, cc
                step = t.subst(step, {cc: TRUE})
                break
    if c.op != 'le0' or step.op != 'lit':
        return None
    pc = t.to_poly(c.args[0])
    base = t.sub(lo, hi)
    k = t.sub(c.args[0], base)
    if not t.is_int_const(k):
        return None                       # the loop runs while lo - hi + k <= 0
    probes = {x for y in (step, tree) for x in t.find_ops(y, ('fdiv',))
              if lo.args[0] in x.fvs or hi.args[0] in x.fvs}
    if len(probes) > 1:
        return None
    m = t.fresh('int')
    half = t.fresh('int')
    probe = probes.pop() if probes else None
    if probe is not None:
        p, q = probe.args
        if not t.is_int_const(q) or t.cval(q) < 2 or probe.bvs:
            return None
        step, tree = t.subst(step, {probe: half}), t.subst(tree, {probe: half})
    # the position looked at: the midpoint, or a bound plus or minus half the distance
    vars_ = {half.args[0], lo.args[0], hi.args[0]}
    looked = {y for x in t.find_ops(tree, ('idx',)) for y in positions(x.args[1])
              if y.fvs & vars_}
    if len(looked) != 1:
        return None
    e = looked.pop()
    pe = t.to_poly(e)
    if not e.fvs <= vars_ or any(len(k) > 1 for k in pe):
        return None
    if probe is None:
        # the position is linear in the bounds
        step, tree = t.subst(step, {e: m}), t.subst(tree, {e: m})
        where = region.Ctx().with_rows(t.sub(m, e), t.sub(e, m))
    else:
        co = [v for k, v in pe.items() if k == (half,)]
        if co not in ([1], [-1]):
            return None
        half_of = t.mul(const(co[0]), t.sub(m, t.sub(e, t.mul(const(co[0]), half))))
        step, tree = t.subst(step, {half: half_of}), t.subst(tree, {half: half_of})
        times = t.mul(q, half_of)
        where = region.Ctx().with_rows(t.sub(times, p),
                                       t.sub(t.sub(p, times), t.sub(q, ONE)))
    ls = leaves(tree)
    rets = [x for x in ls if x.op == 'ret']
    if len(rets) != 1 or len(ls) != 2:
        return None
    pred = cond_where(tree, rets[0])
    if lo.args[0] in pred.fvs or hi.args[0] in pred.fvs:
        return None
    value = rets[0].args[0]
    if lo.args[0] in value.fvs or hi.args[0] in value.fvs or \
            rets[0].args[1] is not t.EMPTY or rets[0].args[2] is not t.EMPTY:
        return None
    d, ats = key_difference(pred, m)
    if d is None:
        return None
    inside = where.with_rows(c.args[0])
    after = {}
    for name, row in (('smaller', t.add(d, ONE)), ('larger', t.sub(ONE, d))):
        ctx = inside.with_rows(row)
        a = step
        for at in ats:
            r = ctx.assume(at, True)
            if r is None:
                return None
            ctx, sub = r
            a = t.subst(a, sub)
        # the tests of the step, decided by how the key compares with the target
        for _ in range(8):
            gates = [g for g in region.gate_atoms(a) if region.bound_free(g)]
            known = {g: ctx.decide(g) for g in gates if g.op in ('le0', 'eq0')}
            known = {g: v for g, v in known.items() if v is not None}
            if not known:
                break
            a = t.subst(a, known)
        if region.gate_atoms(a):
            return None
        nlo, nhi = a.args[lo_i], a.args[1 - lo_i]
        for new, old in ((nlo, lo), (nhi, hi)):
            if new is old or t.is_int_const(t.sub(new, m)):
                continue
            if not (new.fvs <= {lo.args[0], hi.args[0], m.args[0]}) or \
                    region.is_fuzzy(new):
                return None
            if any(len(mo) != 1 for mo in t.to_poly(new) if mo):
                return None
        after[name] = (ctx, nlo, nhi)
    whys = []
    for a in (0, 1):
        for b in (0, 1):
            why = obligations(lo, hi, m, c, inside, after, a, b)
            if why is None:
                low = t.add(inits.args[lo_i], const(a))
                high = t.sub(inits.args[1 - lo_i], const(b))
                n = t.max0(t.add(t.sub(high, low), ONE))
                i = t.fresh('nat')
                lam = t.lam([i], t.subst(pred, {m: t.add(low, i)}))
                pos = t.add(low, t.firstidxf(n, lam))
                found = t.anyf(n, lam)
                value = t.subst(value, {m: pos})
                if missing is not None:
                    return Search(low, n, TRUE, t.ite(found, value, missing.args[0]))
                return Search(low, n, found, value)
            whys.append((why[0], why[1]))
    # the reading that fails latest is the intended one
    return max(whys)[1]


def obligations(lo, hi, m, c, inside, after, a, b):
    """None, or (how far the checks got, which of them fails)"""
    first, last = t.add(lo, const(a)), t.sub(hi, const(b))
    out = region.Ctx().with_rows(t.sub(ONE, c.args[0]))
    good = 0

    def need(ctx, p, q):                  # p <= q
        return region.infeasible(list(ctx.rows)) or ctx.implies_le0(t.sub(p, q))
    checks = [
        ('the loop stops while positions are left',
         lambda: need(out, t.add(last, ONE), first)),
        ('the probed position can lie before the interval', lambda: need(inside, first, m)),
        ('the probed position can lie after the interval', lambda: need(inside, m, last))]
    ctx, nlo, nhi = after['smaller']
    checks += [
        ('after a smaller key, a position past the probe is skipped',
         lambda: need(ctx, t.add(nlo, const(a)), t.add(m, ONE))),
        ('after a smaller key, the upper bound drops positions', lambda: need(ctx, hi, nhi)),
        ('after a smaller key, the interval grows',
         lambda: need(ctx, lo, nlo) and need(ctx, nhi, hi)),
        ('after a smaller key, the interval need not shrink',
         lambda: need(ctx, t.add(t.sub(nhi, nlo), ONE), t.sub(hi, lo)))]
    ctx2, nlo2, nhi2 = after['larger']
    checks += [
        ('after a larger key, a position before the probe is skipped',
         lambda: need(ctx2, t.sub(m, ONE), t.sub(nhi2, const(b)))),
        ('after a larger key, the lower bound drops positions', lambda: need(ctx2, nlo2, lo)),
        ('after a larger key, the interval grows',
         lambda: need(ctx2, lo, nlo2) and need(ctx2, nhi2, hi)),
        ('after a larger key, the interval need not shrink',
         lambda: need(ctx2, t.add(t.sub(nhi2, nlo2), ONE), t.sub(hi, lo)))]
    fails = []
    for what, ok in checks:
        if ok():
            good += 1
        else:
            fails.append(what)
    return None if not fails else (good, '; '.join(fails))


def stuck(w):
    """A path through the body that neither leaves the loop nor changes anything it depends on."""
    inits, cond, nxt, ex = w.args
    vs = [t.fresh(k) for k in cond.args[3]] if cond.op == 'lam' else []
    c = t.opn(cond, *vs) if vs else cond
    step = first_facts(t.opn(nxt, *vs) if vs else nxt)
    tree = first_facts(t.opn(ex, *vs) if vs else ex)
    if step.op != 'lit' or c.op == 'wexit':
        return None
    ctx = region.Ctx()
    if c is FALSE:
        return None
    todo = [(mk('ite', c, t.lit(tree, *step.args), FALSE) if c is not TRUE
             else t.lit(tree, *step.args), ctx)]
    cmp = region.Comparer({}, 5.0, 2000)
    n = 0
    while todo:
        x, ctx = todo.pop()
        n += 1
        if n > 300:
            return None
        x, _ = cmp.simplify(x, x, ctx)
        gates = [g for g in region.gate_atoms(x) if region.bound_free(g) and not region.gated(g)]
        if gates:
            at = region.pick(gates)
            for val in (True, False):
                r = ctx.assume(at, val)
                if r is None:
                    continue
                y = t.subst(x, r[1])
                c2 = r[0]
                if at.op == 'any' and val:
                    c2 = cmp.first_facts(at, y, y, c2)
                    if c2 is None:
                        continue
                todo.append((y, c2))
            continue
        if x.op != 'lit' or x.args[0] is not GO:
            continue
        if all(a is b or (t.is_int(t.kind(a)) and t.is_int(t.kind(b)) and
                          ctx.implies_eq0(t.sub(a, b))) for a, b in zip(x.args[1:], vs)):
            if any(region.is_fuzzy(a) for a, _ in ctx.lits):
                continue
            return 'an iteration can leave the loop as it was: it then never ends'
    return None


GO = mk('go')


def once(w):
    """A loop whose body always leaves it runs at most once."""
    inits, cond, nxt, ex = w.args
    if t.find_ops(ex, ('go',)):
        return None
    at = inits.args
    c = t.opn(cond, *at) if cond.op == 'lam' else cond
    x = t.opn(ex, *at) if ex.op == 'lam' else ex
    ls = leaves(x)
    if any(y.op != 'ret' or y.args[1] is not t.EMPTY or y.args[2] is not t.EMPTY for y in ls):
        return None
    return {mk('wexit', w): c, mk('wret', w): values(x)}


def values(x):
    return t.ite(x.args[0], values(x.args[1]), values(x.args[2])) if x.op == 'ite' else x.args[0]


def canonical(x):
    """-> (term with interval searches replaced, reasons of searches that are wrong)"""
    m = {}
    wrong = []
    for w in t.find_ops(x, ('wloop',)):
        if w.bvs:
            continue
        r = once(w)
        if r is not None:
            m.update(r)
            continue
        r = analyse(w)
        if not isinstance(r, Search):
            r = stuck(w) or r
        if isinstance(r, str):
            wrong.append(r)
        elif r is not None:
            m[mk('wexit', w)] = r.pred
            m[mk('wret', w)] = r.value
    return (t.subst(x, m) if m else x), wrong
