"""Obligations: each specified function of the repository against its specification."""
import ast
import itertools
import glob
import os
import time

from . import search, terms as t
from . import front, region
from .terms import TRUE, FALSE, NONE, EMPTY, const, mk
from .front import PROG, POLICY, SpecFn, Func, Frame, Ev

SPEC_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class Spec(SpecFn):
    pass


def load_specs(spec_dir=SPEC_DIR):
    """Parse the specification texts (they are never executed)."""
    specs = {}
    POLICY.__init__()
    for path in sorted(glob.glob(os.path.join(spec_dir, '*.py'))):
        tree = ast.parse(open(path).read(), filename=path)
        module = None
        for st in tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                name = st.targets[0].id
                if name == 'MODULE':
                    module = ast.literal_eval(st.value)
                elif name == 'PROPERTIES':
                    POLICY.props |= set(ast.literal_eval(st.value))
            elif isinstance(st, ast.FunctionDef):
                deco = [d for d in st.decorator_list if isinstance(d, ast.Call)
                        and isinstance(d.func, ast.Name) and d.func.id == 'spec']
                if not deco:
                    POLICY.helpers[st.name] = (st, module)
                    continue
                d = deco[0]
                target = ast.literal_eval(d.args[0])
                if ':' not in target:
                    target = module + ':' + target
                opts = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                mode = opts.pop('mode', 'atomic')
                mod = opts.get('module', target.split(':')[0])
                sp = Spec(target, mode, st, mod, opts)
                name = opts.get('name') or target
                sp.name = name
                if name in specs:
                    raise Exception('duplicate spec ' + name)
                specs[name] = sp
                if mode == 'kept':
                    POLICY.specs[target] = sp
                    del specs[name]
                    continue        # kept as a call; no obligation of its own
                if opts.get('extra'):
                    continue        # an additional obligation, not the callers' view
                if mode == 'method':
                    m = target.split('.')[-1]
                    POLICY.methods.setdefault(m, st.args)
                    POLICY.specs.setdefault(target, sp)
                elif mode == 'prop':
                    POLICY.props.add(target.split('.')[-1])
                else:
                    POLICY.specs[target] = sp
                    k = items_returned(st)
                    like = opts.pop('length', None)      # as many items as this parameter
                    if like:
                        i = [a.arg for a in st.args.args].index(like) + 1
                        t.CALL_LEN[target] = lambda x, i=i: t.length(x.args[i])
                    elif k:
                        t.CALL_LEN[target] = lambda x, k=k: const(k)
    return specs


def items_returned(fn):
    """The number of items of the tuple a function returns, when every return tells it."""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Return):
            out.add(len(n.value.elts) if isinstance(n.value, ast.Tuple) and not any(
                isinstance(x, ast.Starred) for x in n.value.elts) else None)
    return out.pop() if len(out) == 1 else None


class Outcome:
    def __init__(self, name, verdict, why='', detail=None, func=None, leaves=0, splits=0,
                 wall=0.0):
        self.name, self.verdict, self.why = name, verdict, why
        self.detail, self.func = detail or {}, func
        self.leaves, self.splits, self.wall = leaves, splits, wall
        self.one_sided = set()


def find_target(target):
    f = PROG.funcs.get(target)
    if f is not None:
        return f
    mod, _, q = target.partition(':')
    if '.' in q:
        c, m = q.rsplit('.', 1)
        if c in PROG.classes:
            return PROG.lookup_method(c, m)
    r = PROG.resolve(mod, q)
    if r and r[0] == 'func':
        return PROG.funcs.get(r[1])
    return None


def returned_items(tree):
    """A function returning an iterator, seen as the generator of its items."""
    if tree.op == 'ite':
        return t.ite(tree.args[0], returned_items(tree.args[1]), returned_items(tree.args[2]))
    if tree.op == 'ret':
        v = tree.args[0]
        if not (v.op == 'as' and v.args[0] == 'iter'):
            raise front.Unsupported('a plain value is returned instead of an iterator')
        return mk('ret', NONE, tree.args[1], t.strip(v))
    return tree


def divisions(n):
    """The ways to divide n axes, in any order, into groups."""
    return [tuple(order[i:j] for i, j in zip((0,) + cuts, cuts + (n,)))
            for order in itertools.permutations(range(n))
            for m in range(n) for cuts in itertools.combinations(range(1, n), m)]


def instances(a, b, ctx, opts, deadline):
    """The regions in which every sequence has one, two or three items: loops over the items
    unroll there, so that a difference which only sums and maps hide shows.  The groups of axes
    of a dimension map are then each of the ways to divide so many axes."""
    for k in (1, 2, 3):
        maps = {x for y in (a, b) for x in t.find_ops(y, ('attr',))
                if x.args[1] == 'rdimensions' and not x.bvs and region.path(x)}
        for groups in (divisions(k) if maps else [None]):
            value = groups and t.as_('tuple', t.lit(*[
                t.as_('tuple', t.lit(*[const(i) for i in g])) for g in groups]))
            r = instance(a, b, ctx, opts, deadline / (3 if maps else 1), k,
                         {x: value for x in maps})
            if r is not None and r.verdict == 'DIFF':
                r.why = 'with %d items%s: %s' % (k, ' in groups %r' % (groups,) if groups else '',
                                                 r.why)
                return r
    return None


def instance(a, b, ctx, opts, deadline, k, given):
    c, a2, b2 = ctx, a, b
    cmp = region.Comparer(opts, deadline / 3, 1500)
    for _ in range(6):
        if given:
            a2, b2 = t.subst(a2, given), t.subst(b2, given)
            c = cmp.subst_ctx(c, given, None)
            if c is None:
                return None
        ls = {x for y in (a2, b2) for x in t.find_ops(y, ('len',))
              if not x.bvs and region.path(x.args[0])}
        if not ls:
            break
        m = {}
        for x in sorted(ls, key=lambda z: z.dig):
            m[x] = const(k)
            r = c.assume(mk_eq(x, k), True)
            if r is None:
                return None
            c = r[0]
        a2, b2 = unrolled(t.subst(a2, m)), unrolled(t.subst(b2, m))
    else:
        return None
    for n, l in c.univ:
        ls = t.find_ops(n, ('len',))
        n = t.subst(n, {x: const(k) for x in ls}) if all(
            region.path(x.args[0]) for x in ls) else n
        for j in range(t.cval(n) if t.is_int_const(n) else 0):
            x = t.opn(l, const(j))
            a2, b2 = t.ite(x, mk('SKIP'), a2), t.ite(x, mk('SKIP'), b2)
    return cmp.compare(a2, b2, c)


def unrolled(x):
    """The recurrences of a few known steps, step by step."""
    for _ in range(4):
        m = {}
        for y in t.find_ops(x, ('iterget',)):
            which, n, inits, body = y.args
            if y.bvs or not t.is_int_const(n) or not 0 <= t.cval(n) <= 3 or inits.op != 'lit':
                continue
            state = inits.args
            for j in range(t.cval(n)):
                step = t.opn(body, const(j), *state)
                if step.op != 'lit' or len(step.args) != len(state):
                    break
                state = step.args
            else:
                m[y] = state[t.cval(which)]
        if not m:
            break
        x = t.subst(x, m)
    return x


HIDDEN = ('opaque', 'undef', 'raised', 'super', 'newdyn')


def ignored(a, b, ctx, params, opts):
    """A region told apart by the classes of arguments and by which were given, in which the
    result does not depend on an argument the specified one depends on."""
    cmp = region.Comparer(opts, 5.0, 300)

    def about_argument(x):
        return (x.op == 'isinst' and x.args[0] in params) or \
            (x.op == 'is' and all(y in params or y.op in t.IDENT_CONST for y in x.args))

    def go(a, b, ctx):
        a, b = cmp.simplify(a, b, ctx)
        for x in region.gate_atoms(a) + region.gate_atoms(b):
            if about_argument(x):
                for val in (True, False):
                    r = ctx.assume(x, val)
                    if r is None:
                        continue
                    c2, m = r
                    m = dict(m)
                    cmp.more_facts(x, val, a, b, m)
                    r = go(t.subst(a, m), t.subst(b, m), c2)
                    if r is not None:
                        return r
                return None
        if a.op == 'raise' or b.op in ('raise', 'SKIP', 'DC') or t.find_ops(a, HIDDEN) or \
                t.find_ops(b, ('DC', 'SKIP')):
            return None
        for p in params:
            # not by how many items it has, which other arguments may tell
            inside = t.subst(b, {mk('len', p): const(0)}) if t.is_seq(t.kind(p)) else b
            if region.contains_term(inside, p) and not region.contains_term(a, p):
                if cmp.compare(a, b, ctx).verdict == 'EQUAL':
                    return None
                return region.Result('DIFF', 'argument %s is ignored' % p.args[0], ctx, a, b)
        return None
    try:
        return go(a, b, ctx)
    except (region.Budget, RecursionError):
        return None


def mk_eq(x, k):
    return t.mk('eq0', t.sub(x, const(k)))


def refusals(tree):
    """A function seen as the condition under which it raises."""
    if tree.op == 'ite':
        return t.ite(tree.args[0], refusals(tree.args[1]), refusals(tree.args[2]))
    if tree.op == 'raise':
        return mk('raise', const('Refused'))
    return mk('ret', NONE, EMPTY, EMPTY) if tree.op == 'ret' else tree


def as_property(cname, name, b, attrs, f):
    """The value of a property over the attributes a constructor sets."""
    p = PROG.lookup_method(cname, name) if cname in PROG.classes else None
    if p is None or 'property' not in p.deco:
        return None
    env = {p.node.args.args[0].arg: b[f.node.args.args[0].arg]}
    env.update(attrs)
    tree, more = front.run_body(p, env, Frame(p.module, p.cls, stack=(p.qual,)))
    if set(more) - set(attrs) or any(x.op == 'raise' for x in front.leaves(tree)):
        raise front.Unsupported('property ' + name)
    return front.value_only(tree)


def run_spec(sp, deadline=30.0, splits=6000, target=None):
    """The verdict; calls of specified functions which only one side makes are then replaced by
    what those functions are specified to give."""
    o = run_expanded(sp, deadline, splits, target)
    if o.verdict == 'UNKNOWN' and target is None:
        return for_each_format(sp, o, deadline, splits) or o
    if o.verdict == 'EQUAL' and target is None and sp.node.args.defaults:
        return left_out(sp, o, deadline, splits)
    return o


def left_out(sp, o, deadline, splits):
    """Arguments the specified function may be called without."""
    a, f = sp.node.args, o.func
    if sp.target in INTERFACE:
        named = {x.arg for x in f.node.args.args + f.node.args.kwonlyargs}
        for x in a.args[len(a.args) - len(a.defaults):]:
            if x.arg not in named:
                o.verdict = 'DIFF'
                o.why = 'argument %s cannot be given by name' % x.arg
                o.detail = {'why': o.why}
                return o
    wanted = default_values(a, Frame(sp.module, spec=True))
    given = default_values(f.node.args, Frame(f.module))
    skip = 1 if 'staticmethod' in f.deco and a.args[0].arg in ('self', 'cls') else 0
    omitted = {}
    for i in range(len(a.args) - len(a.defaults), len(a.args)):
        want, have = wanted[a.args[i].arg], None
        if i - skip < len(f.node.args.args):
            have = given.get(f.node.args.args[i - skip].arg)
        if have is None:
            o.verdict = 'DIFF' if public(sp) else 'UNKNOWN'
            o.why = 'argument %s cannot be left out' % a.args[i].arg
            o.detail = {'why': o.why}
            return o
        if have is not want:
            omitted[i] = want
    if not omitted:
        return o
    o2 = run_once(sp, deadline, splits, omitted=omitted)
    if o2.verdict != 'EQUAL':
        o2.why = o2.detail['why'] = 'without %s: %s' % (
            ', '.join(a.args[i].arg for i in omitted), o2.why)
        if o2.verdict == 'DIFF' and not public(sp):
            o2.verdict = 'UNKNOWN'
        return o2
    return o


# operations of the storage formats whose parameters users pass
INTERFACE = {'gcs.storage:' + x for x in (
    'Storage.copy', 'Buffer.copy', 'Strided.copy', 'Buffer.fromobject', 'Strided.fromobject',
    'COO.fromobject', 'FlatCOO.fromobject', 'CSR.fromobject', 'DM.fromobject',
    'Storage.as_Buffer', 'Storage.as_Strided', 'Storage.as_COO', 'Storage.as_FlatCOO',
    'Storage.as_CSR', 'Storage.as_DM')}


def default_values(args, fr):
    fr.aliased = set()
    ev = Ev(fr)
    env = {'__eff__': EMPTY, '__yield__': EMPTY}
    names = [x.arg for x in args.posonlyargs + args.args]
    out = {}
    for n, d in zip(names[len(names) - len(args.defaults):], args.defaults):
        out[n] = ev.ex(d, env)
    return out


def public(sp):
    """A documented operation of the storage formats or of the slice tools."""
    mod, _, q = sp.target.partition(':')
    m = q.rpartition('.')[2]
    return mod != 'gcs._version' and (not m.startswith('_') or m.startswith('__'))


def for_each_format(sp, o, deadline, splits):
    """A method of the base class that formats inherit, told for each of them."""
    mod, _, q = sp.target.partition(':')
    c, _, m = q.rpartition('.')
    if o.func is None or c not in PROG.classes or len(PROG.subclasses(c)) < 2 or \
            not sp.node.args.args or sp.node.args.args[0].arg != 'self' or compares_self(sp.node):
        return None
    POLICY.through = True
    try:
        for k in sorted(PROG.subclasses(c)):
            if k == c or len(PROG.subclasses(k)) > 1 or PROG.lookup_method(k, m) is not o.func:
                continue
            o2 = run_once(sp, deadline / 4, splits, None, k)
            o.wall += o2.wall
            if o2.verdict == 'DIFF':
                o2.why = o2.detail['why'] = 'of %s: %s' % (k, o2.why)
                o2.wall = o.wall
                return o2
    finally:
        POLICY.through = False
    return None


def compares_self(fn):
    """An operator of the receiver is specified, which its class may define."""
    return any(isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and
               isinstance(n.left, ast.Name) and n.left.id == 'self' for n in ast.walk(fn))


def run_expanded(sp, deadline, splits, target):
    o = run_once(sp, deadline, splits, target)
    if o.verdict not in ('DIFF', 'UNKNOWN'):
        return o
    return expand(sp, deadline, splits, target, o, o.one_sided)


def expand(sp, deadline, splits, target, o, names):
    if not names:
        return o
    changed = [POLICY.specs[q] for q in sorted(names) if q in POLICY.specs]
    modes = [x.mode for x in changed]
    for x in changed:
        x.mode = 'inline'
    try:
        o2 = run_once(sp, deadline, splits, target)
    finally:
        for x, m in zip(changed, modes):
            x.mode = m
    o2.wall += o.wall
    return o if o2.verdict == 'ERROR' else o2


def one_sided(a, b, target):
    called = [{x.args[0] for x in t.find_ops(y, ('call',)) if isinstance(x.args[0], str)}
              for y in (a, b)]
    return {q for q in called[0] ^ called[1] if q in POLICY.specs and q != target and
            POLICY.specs[q].mode == 'atomic'}


def run_once(sp, deadline=30.0, splits=6000, target=None, receiver=None, omitted=None):
    t0 = time.time()
    f = find_target(target or sp.target)
    if f is None:
        return Outcome(sp.name, 'MISSING', 'function not found')
    t.VARLEN.clear()
    t.ITEMLEN.clear()
    t.clear_caches()
    front.LOCALFV.clear()
    region._fm_cache.clear()
    cname = (target or sp.target).partition(':')[2].rpartition('.')[0] or None
    try:
        env = front.spec_params(sp.node)
    except Exception as e:
        return Outcome(sp.name, 'ERROR', 'spec parameters: %s' % e)
    for i, v in (omitted or {}).items():
        env[sp.node.args.args[i].arg] = v
    if receiver:
        env['self'] = t.var('self', 'any', receiver)
    if 'classmethod' in f.deco and cname:
        env[sp.node.args.args[0].arg] = mk('clsref', cname)
    senv = dict(env)
    frs = Frame(sp.module, cname, spec=True, stack=('spec',), asserts='domain')
    fr = Frame(f.module, f.cls, stack=(f.qual,), asserts='raise' if sp.opts.get('asserts', True)
               else 'ignore')
    try:
        fn_s = Func(sp.module, cname, sp.node, [], spec=True)
        stree, sattrs = front.run_body(fn_s, senv, frs)
    except (front.Unsupported, RecursionError) as e:
        return Outcome(sp.name, 'ERROR', 'specification: %s' % (e or type(e).__name__), func=f)
    try:
        ps = [a.arg for a in f.node.args.args]
        sps = [a.arg for a in sp.node.args.args]
        args = [env[p] for p in sps]
        for i in sorted(omitted or (), reverse=True):
            if i != len(args) - 1:
                raise front.Unsupported('arguments left out')
            args.pop()
        if f.node.args.vararg or f.node.args.kwarg:
            return Outcome(sp.name, 'UNKNOWN', 'variadic signature', func=f)
        if 'staticmethod' in f.deco and sps and sps[0] in ('self', 'cls'):
            args = args[1:]
        if len(ps) < len(args):
            why = 'signature: takes %d parameters, %d specified' % (len(ps), len(args))
            return Outcome(sp.name, 'DIFF' if sp.target in INTERFACE else 'UNKNOWN', why,
                           {'why': why}, func=f, wall=time.time() - t0)
        b = front.bind(f.node.args, args, {}, Frame(f.module), f)
        if b is None:
            return Outcome(sp.name, 'UNKNOWN', 'signature changed', func=f)
        itree, iattrs = front.run_body(f, b, fr)
        if fn_s.is_generator and not f.is_generator:
            itree = returned_items(itree)
    except front.Unsupported as e:
        return Outcome(sp.name, 'UNKNOWN', 'not analysable: %s' % e, func=f)
    except RecursionError:
        return Outcome(sp.name, 'UNKNOWN', 'recursion limit', func=f)
    opts = {}
    for k in ('weak', 'loose_loops'):
        if sp.opts.get(k):
            opts[k] = sp.opts[k]
    if sp.opts.get('slice_rel'):
        opts['slice_rel'] = env[sp.opts['slice_rel']]
    cmp = region.Comparer(opts, deadline, splits)
    ctx = region.Ctx(opts=opts)
    subst = {}
    for c in frs.assumed:
        todo = list(c.args) if c.op == 'and' else [c]
        for x in todo:
            neg = x.op == 'not'
            y = x.args[0] if neg else x
            if y.op == 'const':
                continue
            r = ctx.assume(y, not neg)
            if r is None:
                return Outcome(sp.name, 'ERROR', 'contradictory assumptions', func=f)
            c2, m = r
            univ = ctx.univ
            if y.op not in ('le0',):
                n = len(m)
                cmp.more_facts(y, not neg, itree, stree, m)
                subst.update(m)
                if len(m) == n:
                    univ = c2.univ
            ctx = region.Ctx(c2.rows, (), c2.neq, opts, univ)
    for x, y in frs.same:
        subst[x] = y
    pairs = [('', itree, stree)]
    if sp.mode == 'refuses':
        pairs = [('', refusals(itree), refusals(stree))]
    elif sp.mode == 'init':
        for k in sorted(sattrs):
            if k not in iattrs:
                v = as_property(cname, k[1:], b, iattrs, f)
                if v is not None:
                    pairs.append(('attribute %s: ' % k[1:], v, sattrs[k]))
                    continue
                return Outcome(sp.name, 'DIFF', 'attribute %s is not set' % k[1:],
                               {'why': 'attribute %s is not set by the constructor' % k[1:]},
                               func=f, wall=time.time() - t0)
            pairs.append(('attribute %s: ' % k[1:], iattrs[k], sattrs[k]))
    elif iattrs or sattrs:
        for k in sorted(set(sattrs) | set(iattrs)):
            pairs.append(('attribute %s: ' % k[1:], iattrs.get(k, mk('unset')),
                          sattrs.get(k, mk('unset'))))
    bad = None
    for what, a, b2 in pairs:
        if subst:
            a, b2 = t.subst(a, subst), t.subst(b2, subst)
        b2, wrong = search.canonical(b2)
        if wrong:
            return Outcome(sp.name, 'ERROR', 'specified search: %s' % wrong[0], func=f)
        a, wrong = search.canonical(a)
        r = cmp.compare(a, b2, ctx)
        if r.verdict == 'UNKNOWN' and opts.get('weak'):
            strict = {k: v for k, v in opts.items() if k != 'weak'}
            r = instances(a, b2, ctx, strict, deadline) or r
        elif r.verdict == 'UNKNOWN':
            args = [v for k, v in env.items() if v.op == 'var' and v.args[0] != 'self']
            r = ignored(a, b2, ctx, args, opts) or instances(a, b2, ctx, opts, deadline) or r
        if r.verdict != 'EQUAL':
            d = r.describe()
            if wrong and r.verdict == 'UNKNOWN':
                r.verdict = 'DIFF'
                d['why'] = 'search loop: ' + wrong[0]
            d['why'] = what + (d['why'] or '')
            if r.verdict == 'DIFF':
                bad = ('DIFF', d)
                break
            bad = bad or ('UNKNOWN', d)
    wall = time.time() - t0
    if bad is None:
        return Outcome(sp.name, 'EQUAL', func=f, leaves=cmp.leaves, splits=6000 - cmp.left,
                       wall=wall)
    o = Outcome(sp.name, bad[0], bad[1]['why'], bad[1], f, cmp.leaves, splits - cmp.left, wall)
    for what, a, b2 in pairs:
        o.one_sided |= one_sided(a, b2, sp.target)
    return o
