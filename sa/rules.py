"""Classical analyses over the resolved program: effects, ownership, interface, termination.

Every rule returns a Findings object: what was inspected (units), definite violations, and
constructs it could not decide (reported, never an alarm)."""
import ast
import builtins

from .front import PROG, dotted

STORAGE, SLICES, BASICS, VERSION = 'gcs.storage', 'gcs.slice_tools', 'gcs_basics', 'gcs._version'


class Findings:
    def __init__(self, rule):
        self.rule = rule
        self.units = []
        self.violations = []
        self.undecided = []

    def unit(self, what):
        self.units.append(what)

    def bad(self, construct, what, func=None, node=None, key=None):
        self.violations.append(dict(rule=self.rule, construct=construct, what=what,
                                    key=key or construct, where=where(func, node)))

    def unsure(self, construct, what, func=None, node=None):
        self.undecided.append(dict(rule=self.rule, construct=construct, what=what,
                                   where=where(func, node)))


def where(func, node=None):
    if func is None:
        return ''
    n = node if node is not None and hasattr(node, 'lineno') else func.node
    return '%s:%d (%s)' % (PROG.paths.get(func.module, func.module), n.lineno,
                           func.qual.partition(':')[2])


def storage_classes():
    """The storage formats: classes deriving from the storage base class, common bases of
    theirs that nothing constructs excluded."""
    out = [c for c in PROG.classes if c != 'Storage' and 'Storage' in PROG.mro(c)]
    made = constructed()
    return [c for c in out if PROG.subclasses(c) == [c] or c in made]


def constructed():
    """Names called anywhere in the program."""
    return {(dotted(n.func) or '').split('.')[-1] for f in PROG.funcs.values()
            for n in ast.walk(f.node) if isinstance(n, ast.Call)}


def module_funcs(*mods):
    return [f for q, f in PROG.funcs.items() if f.module in mods]


def params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + (
        [a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def is_stub(f):
    """A method whose body only raises NotImplementedError."""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr)
                                           and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Raise) or body[0].exc is None:
        return False
    e = body[0].exc
    e = e.func if isinstance(e, ast.Call) else e
    return isinstance(e, ast.Name) and e.id == 'NotImplementedError'


# ------------------------------------------------------------------ interface completeness

OPERATIONS = ('__len__', '__iter__', '__eq__', '__ne__', '__repr__', '__str__', '__getitem__',
              '__setitem__', 'copy', 'equal', 'elements', 'is_full', 'unspecified', 'strides',
              'as_Buffer', 'as_Strided', 'as_COO', 'as_FlatCOO', 'as_CSR', 'as_C2SR', 'as_DM')


def storage_methods():
    out = set()
    for c in ['Storage'] + storage_classes():
        out |= set(PROG.classes[c].methods)
    return out


def class_attributes(c):
    """Names an object of the class has: methods, class attributes, attributes its methods set."""
    names = set()
    for k in PROG.mro(c):
        k = PROG.classes[k]
        names |= set(k.methods) | set(k.attrs)
        for m in k.methods.values():
            ps = params(m)
            if not ps:
                continue
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                        isinstance(n.value, ast.Name) and n.value.id == ps[0]:
                    names.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                        n.func.id == 'setattr' and len(n.args) == 3:
                    if isinstance(n.args[1], ast.Constant):
                        names.add(n.args[1].value)
                    else:
                        return None
            if any(isinstance(n, ast.Attribute) and n.attr == '__dict__'
                   for n in ast.walk(m.node)):
                return None
    return names | set(dir(object))


def guarded_names(f):
    """Attribute names looked up with getattr(self, name, default) or hasattr."""
    return {n.args[1].value for n in ast.walk(f.node)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
            and n.func.id in ('getattr', 'hasattr') and len(n.args) >= 2
            and isinstance(n.args[1], ast.Constant)}


def not_in_class(test, sname, c):
    """The class test on self excludes class c: isinstance(self, X) with c not below X."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        r = not_in_class(test.operand, sname, c)
        return None if r is None else not r
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and \
            test.func.id == 'isinstance' and isinstance(test.args[0], ast.Name) and \
            test.args[0].id == sname:
        k = test.args[1]
        ks = [x.id for x in (k.elts if isinstance(k, ast.Tuple) else [k])
              if isinstance(x, ast.Name)]
        return not any(x in PROG.mro(c) for x in ks)
    return None


def self_uses(f, c):
    """(attribute, node) pairs read on self in the method as executed on an object of class c."""
    ps = params(f)
    if not ps or 'staticmethod' in f.deco:
        return []
    s = ps[0]
    out = []

    def skip_rest(stmts):
        res = []
        for st in stmts:
            if isinstance(st, ast.If):
                r = not_in_class(st.test, s, c)
                walk(st.test)
                if r is True:
                    if skip_rest(st.orelse):
                        return True
                elif r is False:
                    if skip_rest(st.body):
                        return True
                else:
                    a = skip_rest(st.body)
                    b = skip_rest(st.orelse)
                    if a and b:
                        return True
                continue
            if isinstance(st, (ast.For, ast.While, ast.With, ast.Try)):
                for fld in ('iter', 'test', 'target'):
                    if hasattr(st, fld):
                        walk(getattr(st, fld))
                for it in getattr(st, 'items', []):
                    walk(it)
                for fld in ('body', 'orelse', 'finalbody'):
                    skip_rest(getattr(st, fld, []))
                for h in getattr(st, 'handlers', []):
                    skip_rest(h.body)
                continue
            walk(st)
            if isinstance(st, (ast.Return, ast.Raise)):
                return True
        return False

    def walk(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                    x.value.id == s and isinstance(x.ctx, ast.Load):
                out.append((x.attr, x))
            elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and \
                    x.value.id == s:
                out.append(('__getitem__' if isinstance(x.ctx, ast.Load) else '__setitem__', x))
    skip_rest(f.node.body)
    return out


def interface():
    r = Findings('interface')
    methods = storage_methods()
    for c in storage_classes():
        attrs = class_attributes(c)
        fo = PROG.lookup_method(c, 'fromobject')
        r.unit('%s: construction from an object' % c)
        if fo is None or is_stub(fo):
            r.bad('%s.fromobject' % c, 'format %s has no construction from an object' % c,
                  key='%s lacks fromobject' % c)
        for op in OPERATIONS:
            m = PROG.lookup_method(c, op)
            r.unit('%s.%s' % (c, op))
            if m is None:
                if op in ('__str__', '__ne__'):
                    continue
                r.bad('%s.%s' % (c, op), 'format %s does not offer %s' % (c, op),
                      key='%s lacks %s' % (c, op))
                continue
            seen = set()
            todo = [(m, (op,))]
            while todo:
                f, path = todo.pop()
                if (f.qual) in seen:
                    continue
                seen.add(f.qual)
                if is_stub(f):
                    r.bad('%s.%s' % (c, op), '%s of %s ends in the unimplemented %s (%s)'
                          % (op, c, f.qual, ' -> '.join(path)), f,
                          key='%s lacks %s' % (c, f.name))
                    continue
                if 'classmethod' in f.deco:
                    continue
                for a, node in self_uses(f, c):
                    g = PROG.lookup_method(c, a)
                    if g is not None:
                        todo.append((g, path + (a,)))
                    elif attrs is not None and a not in attrs and a not in guarded_names(f) and \
                            PROG.lookup_method(c, '__getattr__') is None:
                        if a in ('__class__', '__dict__', '__getitem__', '__setitem__'):
                            continue
                        r.bad('%s.%s' % (c, op), '%s of %s uses the missing attribute %s'
                              % (op, c, a), f, node, key='%s lacks %s' % (c, a))
    # conversion methods lead to a constructor that accepts what is passed
    for c in ['Storage'] + storage_classes():
        for name, m in PROG.classes[c].methods.items():
            for n in ast.walk(m.node):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                        and isinstance(n.func.value, ast.Name)
                        and n.func.value.id in PROG.classes
                        and 'Storage' in PROG.mro(n.func.value.id)):
                    continue
                k = n.func.value.id
                g = PROG.lookup_method(k, n.func.attr)
                r.unit('%s.%s calls %s.%s' % (c, name, k, n.func.attr))
                if g is None:
                    r.bad('%s.%s' % (c, name), '%s.%s does not exist' % (k, n.func.attr), m, n,
                          key='%s lacks %s' % (k, n.func.attr))
                    continue
                bad = bad_call(g, n)
                if bad:
                    r.bad('%s.%s' % (c, name), '%s.%s %s' % (k, n.func.attr, bad), m, n)
    # the same for keywords handed over in a dictionary to a storage class chosen at run time
    for c in storage_classes():
        fo = PROG.lookup_method(c, 'fromobject')
        if fo is None or c == 'C2SR':
            continue
        r.unit('%s.fromobject signature' % c)
        have = set(params(fo))
        kw = fo.node.args.kwarg is not None
        for need in ('shape', 'get_seq_index', 'unspecified'):
            if need not in have and not kw:
                r.bad('%s.fromobject' % c, 'does not accept %s' % need, fo)
    return dedupe(r)


def bad_call(g, n):
    a = g.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if 'staticmethod' not in g.deco and ps and g.cls is not None:
        ps = ps[1:]
    if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
        return None
    if len(n.args) > len(ps) and not a.vararg:
        return 'takes at most %d arguments' % len(ps)
    names = set(ps) | {x.arg for x in a.kwonlyargs}
    for k in n.keywords:
        if k.arg not in names and not a.kwarg:
            return 'does not accept the argument %s' % k.arg
        if k.arg in ps[:len(n.args)]:
            return 'gets %s twice' % k.arg
    nd = len(a.defaults)
    required = ps[:len(ps) - nd] if nd else ps
    given = set(ps[:len(n.args)]) | {k.arg for k in n.keywords}
    miss = [p for p in required if p not in given]
    if miss:
        return 'misses the argument %s' % miss[0]
    return None


def dedupe(r):
    seen = set()
    out = []
    for v in r.violations:
        if v['key'] not in seen:
            seen.add(v['key'])
            out.append(v)
    r.violations = out
    return r


# ------------------------------------------------------------------ origins of objects

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update',
            'setdefault', 'popitem', 'add', 'discard', '__setitem__', '__delitem__',
            'appendleft', 'popleft', 'fill', 'put', 'resize', 'difference_update',
            'intersection_update', 'symmetric_difference_update', '__iadd__'}
FRESH_CALLS = {'list', 'dict', 'set', 'sorted', 'tuple', 'range', 'zip', 'map', 'filter', 'sum',
               'len', 'str', 'int', 'abs', 'min', 'max', 'any', 'all', 'isinstance', 'type',
               'enumerate', 'reversed', 'repr', 'slice', 'bytearray', 'frozenset', 'bool', 'hash',
               'divmod', 'round', 'format', 'print', 'super', 'object', 'id'}
IMMUTABLE_ATTRS = {'shape', 'size', 'offset', 'strides', '_strides', 'indices', 'findices',
                   'crow_indices', 'col_indices', 'rdimensions', 'rshapes', 'rstrides',
                   'roffset', 'channels', 'row_lengths', 'row_pointers', '_unspecified',
                   'unspecified'}


class Origin(tuple):
    """(root, path): the object itself when path is (), else something reached through it.

    root: ('param', name) | ('global', name) | ('fresh',)"""


FRESH = (('fresh',), ())


class Body:
    """Flow-insensitive origins of the names of one function (nested functions included)."""

    def __init__(self, f, summaries):
        self.f = f
        self.sum = summaries
        self.params = params(f)
        self.locals = {}        # name -> list of (kind, expr)
        self.nested = []
        self.globals = set()
        self.collect(f.node)
        self.memo = {}

    def collect(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for tg in n.targets:
                    self.bind(tg, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.bind(n.target, n.value)
            elif isinstance(n, ast.NamedExpr):
                self.bind(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    self.locals.setdefault(n.target.id, []).append(('value', n.value))
            elif isinstance(n, (ast.For, ast.comprehension)):
                self.bind(n.target, n.iter, elem=True)
            elif isinstance(n, ast.With):
                for it in n.items:
                    if it.optional_vars is not None:
                        self.bind(it.optional_vars, it.context_expr)
            elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
                a = n.args
                for x in a.posonlyargs + a.args + a.kwonlyargs:
                    self.locals.setdefault(x.arg, []).append(('unknown', None))
                ds = a.args[len(a.args) - len(a.defaults):]
                for x, d in zip(ds, a.defaults):
                    self.locals.setdefault(x.arg, []).append(('value', d))
                if isinstance(n, ast.FunctionDef):
                    self.locals.setdefault(n.name, []).append(('unknown', None))

    def bind(self, tg, value, elem=False):
        if isinstance(tg, ast.Name):
            if tg.id in self.globals:
                return
            self.locals.setdefault(tg.id, []).append(('elem' if elem else 'value', value))
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if not elem and isinstance(value, (ast.Tuple, ast.List)) and \
                    len(value.elts) == len(tg.elts):
                for x, y in zip(tg.elts, value.elts):
                    self.bind(x, y)
            else:
                for x in tg.elts:
                    if isinstance(x, ast.Starred):
                        x = x.value
                    if isinstance(x, ast.Name):
                        self.locals.setdefault(x.id, []).append(('elem', value))
                    else:
                        self.bind(x, value, True)

    def name(self, n, seen=frozenset()):
        if n in self.memo:
            return self.memo[n]
        if n in seen:
            return set()
        out = set()
        known = False
        if n in self.params:
            known = True
            if n in ('cls',):
                out.add((('class', n), ()))
            else:
                out.add((('param', n), ()))
        for kind, v in self.locals.get(n, ()):
            known = True
            if kind == 'unknown':
                continue
            o = self.origins(v, seen | {n})
            if kind == 'elem':
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                        v.func.id in ('zip', 'enumerate', 'reversed', 'sorted', 'map', 'iter'):
                    o = set()
                    for x in v.args:
                        o |= {step(y) for y in self.origins(x, seen | {n})}
                o = {step(x) for x in o}
            out |= o
        if not known:
            names = PROG.modules.get(self.f.module, {})
            if n in names and names[n][0] == 'expr':
                out.add((('global', n), ()))
        if not seen:
            self.memo[n] = out
        return out

    def origins(self, e, seen=frozenset()):
        """Objects an expression may denote (containers only matter)."""
        if isinstance(e, ast.Name):
            return self.name(e.id, seen)
        if isinstance(e, ast.Attribute):
            return {step(o, e.attr) for o in self.origins(e.value, seen)}
        if isinstance(e, ast.Subscript):
            base = self.origins(e.value, seen)
            if isinstance(e.slice, ast.Slice):
                return {FRESH} if not self.storage_like(e.value) else {step(o) for o in base}
            return {step(o) for o in base}
        if isinstance(e, ast.IfExp):
            return self.origins(e.body, seen) | self.origins(e.orelse, seen)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.origins(v, seen) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.origins(e.value, seen)
        if isinstance(e, ast.Starred):
            return self.origins(e.value, seen)
        if isinstance(e, ast.Call):
            return self.call_origins(e, seen)
        return {FRESH}

    def storage_like(self, e):
        return False

    def call_origins(self, e, seen):
        fn = e.func
        g = callee(self.f, fn)
        if g is not None and g.qual in self.sum:
            out = set()
            for root, path in self.sum[g.qual].returns:
                if root[0] == 'param':
                    a = argument(g, e, root[1])
                    if a is not None:
                        for o in self.origins(a, seen):
                            out.add((o[0], o[1] + path if len(o[1]) < 4 else o[1]))
                else:
                    out.add((root, path))
            return out or {FRESH}
        return {FRESH}


def step(o, attr='[]'):
    root, path = o
    if root[0] == 'fresh':
        return o
    return (root, (path + (attr,)) if len(path) < 4 else path)


def callee(f, fn):
    """The repository function a call expression certainly refers to, else None."""
    if isinstance(fn, ast.Name):
        r = PROG.resolve(f.module, fn.id)
        if r and r[0] == 'func':
            return PROG.funcs.get(r[1])
    elif isinstance(fn, ast.Attribute):
        if isinstance(fn.value, ast.Name):
            if fn.value.id in ('self', 'cls') and f.cls:
                g = PROG.lookup_method(f.cls, fn.attr)
                if g is not None:
                    return g
            if fn.value.id in PROG.classes:
                return PROG.lookup_method(fn.value.id, fn.attr)
            r = PROG.resolve(f.module, fn.value.id)
            if r and r[0] == 'mod':
                q = PROG.resolve(r[1], fn.attr)
                if q and q[0] == 'func':
                    return PROG.funcs.get(q[1])
    return None


def argument(g, call, p):
    ps = params(g)
    if p not in ps:
        return None
    i = ps.index(p)
    if g.cls and isinstance(call.func, ast.Attribute) and 'staticmethod' not in g.deco and ps:
        if isinstance(call.func.value, ast.Name) and call.func.value.id in PROG.classes and \
                'classmethod' not in g.deco:
            pass
        else:
            if i == 0:
                return call.func.value
            i -= 1
    for k in call.keywords:
        if k.arg == p:
            return k.value
    if any(isinstance(a, ast.Starred) for a in call.args):
        return None
    if i < len(call.args):
        return call.args[i]
    return None


class Summary:
    def __init__(self):
        self.effects = {}       # (kind, root, path, attr) -> node
        self.returns = set()


def analyse(mods):
    """Effect summaries of all functions of the modules, to a fixpoint over the call graph."""
    fs = module_funcs(*mods)
    sums = {f.qual: Summary() for f in fs}
    changed = True
    rounds = 0
    while changed and rounds < 12:
        changed = False
        rounds += 1
        for f in fs:
            s = summarise(f, sums)
            old = sums[f.qual]
            if set(s.effects) != set(old.effects) or s.returns != old.returns:
                changed = True
                sums[f.qual] = s
    return fs, sums


def summarise(f, sums):
    b = Body(f, sums)
    s = Summary()

    def effect(kind, expr, node, attr=''):
        for root, path in b.origins(expr):
            if root[0] in ('fresh',):
                continue
            s.effects.setdefault((kind, root, path, attr), (f, node))

    for n in ast.walk(f.node):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For)):
            tgs = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            todo = list(tgs)
            while todo:
                tg = todo.pop()
                if isinstance(tg, (ast.Tuple, ast.List)):
                    todo += tg.elts
                elif isinstance(tg, ast.Starred):
                    todo.append(tg.value)
                elif isinstance(tg, ast.Subscript):
                    effect('item', tg.value, n)
                elif isinstance(tg, ast.Attribute):
                    effect('attr', tg.value, n, tg.attr)
                elif isinstance(tg, ast.Name) and tg.id in b.globals:
                    s.effects.setdefault(('rebind', ('global', tg.id), (), ''), (f, n))
                elif isinstance(n, ast.AugAssign) and isinstance(tg, ast.Name) and \
                        isinstance(n.value, (ast.List, ast.ListComp)):
                    for root, path in b.name(tg.id):
                        if root[0] != 'fresh':
                            s.effects.setdefault(('item', root, path, ''), (f, n))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and \
                    callee(f, n.func) is None:
                effect('item', n.func.value, n)
            elif isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
                a = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) \
                    else '?'
                effect('attr', n.args[0], n, a)
            g = callee(f, n.func)
            if g is not None and g.qual in sums:
                for (kind, root, path, attr), (g0, n0) in sums[g.qual].effects.items():
                    if root[0] == 'param':
                        a = argument(g, n, root[1])
                        if a is None:
                            continue
                        for r2, p2 in b.origins(a):
                            if r2[0] == 'fresh':
                                continue
                            s.effects.setdefault((kind, r2, (p2 + path)[:4], attr), (g0, n0))
                    elif root[0] == 'global':
                        s.effects.setdefault((kind, root, path, attr), (g0, n0))
        elif isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
            s.returns |= {o for o in b.origins(n.value)}
    return s


# functions of today's interface: only through these do effects reach a user
ENTRY_MODULES = (STORAGE, SLICES, BASICS)


def effects(known):
    """No function of the interface changes an argument, a shared object or module state."""
    r = Findings('effects')
    fs, sums = analyse(ENTRY_MODULES)
    for f in fs:
        r.unit(f.qual)
        name = f.qual.partition(':')[2]
        meth = f.node.name
        helper = f.qual not in known
        for (kind, root, path, attr), (g, node) in sorted(
                sums[f.qual].effects.items(), key=str):
            if root[0] == 'global':
                if g is f:
                    state_cache(r, f, kind, root, node)
                continue
            if root[0] == 'class':
                if g is f:
                    r.bad(name, 'keeps state on the class (%s)' % attr, g, node)
                continue
            if helper:
                continue        # judged where an interface function calls it
            if root[0] == 'param' and root[1] == 'self':
                if meth == '__init__' and kind == 'attr' and path == ():
                    continue
                if meth == '__init__' and path and path[0] != 'data' and g is f:
                    continue
                if meth == '__setitem__' and kind == 'item' and path[:1] == ('data',):
                    continue
                if kind == 'attr' and path == () and g is f and meth != '__setitem__':
                    remembered(r, f, attr, node)
                    continue
                if meth == '__setitem__' and kind == 'attr':
                    r.bad(name, 'assignment replaces the attribute %s' % attr, g, node)
                    continue
                if kind == 'item' and path[:1] and path[0].startswith('_') and \
                        path[0] not in IMMUTABLE_ATTRS:
                    kept_table(r, name, g, path[0], node)
                    continue
            what = 'changes its argument %s' % '.'.join((root[1],) + path).replace('.[]', '[]')
            r.bad(name, what + (' (attribute %s)' % attr if attr else ''), g, node)
        defaults(r, f, sums)
        cached(r, f)
    return dedupe(r)


def deps(b, e, seen=None):
    """Names of parameters and attributes of self an expression depends on (flow-insensitive)."""
    seen = set() if seen is None else seen
    out = set()
    skip = set()
    for x, n in self_reads(b.f, 'self', e):
        out.add('self.' + x if x else '?')
        skip.add(id(n))
    for n in ast.walk(e):
        if not isinstance(n, ast.Name) or id(n) in skip:
            continue
        if n.id in b.params:
            out.add(n.id)
        if n.id in seen:
            continue
        seen.add(n.id)
        v = preceding(b.f, n)
        for v in [v] if v is not None else [v for _, v in b.locals.get(n.id, ())]:
            if v is not None:
                out |= deps(b, v, seen)
    return out


def preceding(f, use):
    """The value a name was assigned in front of its use within the same block, None if it was
    assigned elsewhere (or nowhere)."""
    def look(block):
        for k, st in enumerate(block):
            if not any(n is use for n in ast.walk(st)):
                continue
            if isinstance(st, (ast.Assign, ast.AnnAssign, ast.Expr, ast.Return, ast.AugAssign)):
                for prev in reversed(block[:k]):
                    if isinstance(prev, ast.Assign) and len(prev.targets) == 1 and isinstance(
                            prev.targets[0], ast.Name) and prev.targets[0].id == use.id:
                        return prev.value
                    if any(isinstance(n, ast.Name) and n.id == use.id and isinstance(
                            n.ctx, ast.Store) for n in ast.walk(prev)):
                        return None
                return None
            for part in ('body', 'orelse', 'finalbody'):
                v = look(getattr(st, part, []))
                if v is not None:
                    return v
            for h in getattr(st, 'handlers', []):
                v = look(h.body)
                if v is not None:
                    return v
            return None
        return None
    return look(f.node.body)


def self_reads(f, sname, e, seen=None):
    """(attribute, name node) pairs of the object named sname that evaluating e reads, through
    methods, properties and functions of the repository; attribute None: not known."""
    seen = set() if seen is None else seen
    out = []
    done = set()

    def through(g, p, n):
        if (g.qual, p) in seen:
            return
        seen.add((g.qual, p))
        for st in g.node.body:
            out.extend((x, n) for x, _ in self_reads(g, p, st, seen))

    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and \
                isinstance(n.value.value, ast.Name) and n.value.value.id == sname and \
                n.value.attr == 'data' and n.attr in CONSTANT_OF_DATA:
            done.add(id(n.value))
            done.add(id(n.value.value))
            out.append((n.attr, n.value.value))
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                'getattr', 'hasattr') and len(n.args) > 1 and isinstance(
                n.args[0], ast.Name) and n.args[0].id == sname and isinstance(
                n.args[1], ast.Constant):
            done.add(id(n.args[0]))
            out.append((n.args[1].value, n.args[0]))
            continue
        if isinstance(n, ast.Call):
            g = callee(f, n.func)
            for i, a in enumerate(list(n.args) + [k.value for k in n.keywords]):
                if isinstance(a, ast.Name) and a.id == sname and g is not None:
                    for p in params(g):
                        if argument(g, n, p) is a:
                            done.add(id(a))
                            through(g, p, a)
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                n.value.id == sname and id(n) not in done and isinstance(n.ctx, ast.Load):
            done.add(id(n.value))
            g = PROG.lookup_method(f.cls, n.attr) if f.cls else None
            if g is not None and params(g):
                if 'staticmethod' not in g.deco and 'classmethod' not in g.deco:
                    if is_stub(g):
                        out.append((n.attr, n.value))
                    through(g, params(g)[0], n.value)
            elif n.attr not in ('__class__',):
                out.append((n.attr, n.value))
    for n in ast.walk(e):
        x = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                'list', 'tuple', 'sorted', 'sum', 'len', 'iter', 'enumerate', 'any', 'all'):
            x = n.args[0] if n.args else None
        elif isinstance(n, ast.Subscript):
            x = n.value
        elif isinstance(n, (ast.For, ast.comprehension)):
            x = n.iter
        if isinstance(x, ast.Name) and x.id == sname and id(x) not in done:
            done.add(id(x))
            out.append(('elements', x))
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n.id == sname and id(n) not in done:
            out.append((None, n))
    return out


CONSTANT_OF_DATA = {'unspecified', '_unspecified', 'size'}


def remembered(r, f, attr, node):
    """An attribute set outside the constructor: sound only for values derived from immutables."""
    b = Body(f, {})
    name = f.qual.partition(':')[2]
    value = getattr(node, 'value', None)
    if value is None or not isinstance(node, (ast.Assign, ast.AnnAssign)):
        r.bad(name, 'changes the attribute %s' % attr, f, node)
        return
    if attr in IMMUTABLE_ATTRS - {'_strides'} or attr == 'data':
        r.bad(name, 'changes the attribute %s' % attr, f, node)
        return
    d = deps(b, value) - {'self.' + attr}
    bad = sorted(x for x in d if x != '?' and not (
        x.startswith('self.') and x[5:] in IMMUTABLE_ATTRS))
    if isinstance(value, ast.Tuple):
        # kept together with the arguments it belongs to: taken to be compared before its use
        kept = {x.id for x in value.elts if isinstance(x, ast.Name)}
        if kept & set(b.params) and set(bad) <= kept:
            r.unsure(name, 'remembers the result for the last %s in %s' % (
                ', '.join(sorted(bad)), attr), f, node)
            return
    if any(x in CONTENT for x in bad) or any(not x.startswith('self.') for x in bad):
        r.bad(name, 'remembers in %s a value that depends on %s' % (attr, ', '.join(bad)), f, node)
    elif bad or '?' in d:
        r.unsure(name, 'remembers %s, depending on %s' % (attr, ', '.join(sorted(d))), f, node)


def kept_table(r, name, f, attr, node):
    """A table kept on the object, or on its class: its key has to tell everything apart that the
    remembered value depends on and that is not fixed for the holder of the table."""
    b = Body(f, {})
    shared = f.cls is not None and attr in class_level(f.cls)
    if not (isinstance(node, ast.Assign) and len(node.targets) == 1 and
            isinstance(node.targets[0], ast.Subscript)):
        r.unsure(name, 'keeps a table on the object (%s)' % attr, f, node)
        return
    table = {'self.' + attr}
    key = deps(b, node.targets[0].slice) - table
    value = deps(b, node.value) - table
    missing = value - key
    if not shared:
        missing = {x for x in missing
                   if not (x.startswith('self.') and x[5:] in IMMUTABLE_ATTRS)}
    if shared and 'self.shape' in key and missing <= {'self.strides'}:
        missing = set()         # default strides follow from the shape
    if '?' not in value and '?' not in key and missing and all(
            not x.startswith('self.') or x in CONTENT or x[5:] in IMMUTABLE_ATTRS
            for x in missing):
        r.bad(name, 'results are remembered in %s%s under a key that leaves out %s' % (
            attr, ', shared by all objects,' if shared else '', ', '.join(sorted(missing))),
            f, node)
        return
    r.unsure(name, 'keeps a table on the object (%s)' % attr, f, node)


def class_level(c):
    """Attributes a class, or a base of it, holds for all its objects; not set by a constructor."""
    names, stored = set(), set()
    for k in PROG.mro(c):
        k = PROG.classes[k]
        names |= set(k.attrs)
        for m in k.methods.values():
            stored |= {n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute)
                       and isinstance(n.ctx, ast.Store)}
    return names - stored


CONTENT = {'self.data', 'self.elements', 'self.get_position', 'self.get_rposition', 'self.tolist'}


def state_cache(r, f, kind, root, node):
    """Module-level state written by a function: a table keyed by everything used, or a defect."""
    name = f.qual.partition(':')[2]
    b = Body(f, {})
    if kind == 'item' and isinstance(node, ast.Assign) and len(node.targets) == 1 and \
            isinstance(node.targets[0], ast.Subscript):
        key = deps(b, node.targets[0].slice)
        # everything the function can see takes part in the value
        used = {p for p in b.params
                if any(isinstance(n, ast.Name) and n.id == p for n in ast.walk(f.node))}
        if used <= key and 'self' not in used:
            r.unsure(name, 'table %s keyed by all arguments' % root[1], f, node)
            return
        r.bad(name, 'results are remembered in %s under a key that leaves out %s'
              % (root[1], ', '.join(sorted(used - key)) or 'the state of self'), f, node)
        return
    if kind == 'item' and isinstance(node, ast.Call) and node.func.attr == 'setdefault':
        r.unsure(name, 'table %s' % root[1], f, node)
        return
    r.bad(name, 'changes the module-level object %s' % root[1], f, node)


def defaults(r, f, sums):
    a = f.node.args
    ps = a.posonlyargs + a.args
    pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [
        (p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for p, d in pairs:
        mutable = isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (
            isinstance(d, ast.Call) and isinstance(d.func, ast.Name)
            and d.func.id in ('list', 'dict', 'set', 'bytearray'))
        if not mutable:
            continue
        name = f.qual.partition(':')[2]
        for (kind, root, path, attr), (g, node) in sums[f.qual].effects.items():
            if root == ('param', p.arg):
                r.bad(name, 'the default of %s is changed and kept between calls' % p.arg, g,
                      node, key=name + ' default ' + p.arg)
                break


def cached(r, f):
    name = f.qual.partition(':')[2]
    for d in f.deco:
        short = d.split('.')[-1]
        if short == 'cached_property':
            uses = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)
                    and isinstance(n.value, ast.Name) and n.value.id == 'self'}
            stale = sorted(x for x in uses if x not in IMMUTABLE_ATTRS and not (
                x == 'data' and only_constant_parts(f)))
            if stale:
                r.bad(name, 'remembers a value that depends on %s' % ', '.join(stale), f)
        elif short in ('lru_cache', 'cache'):
            if f.is_generator:
                r.bad(name, 'a remembered generator is exhausted by its first use', f)
            elif f.cls and 'staticmethod' not in f.deco:
                r.unsure(name, 'remembers results of a method', f)
            else:
                r.unsure(name, 'remembers results per arguments', f)


def only_constant_parts(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == 'data' and \
                isinstance(n.value, ast.Name) and n.value.id == 'self':
            ok = False
            for m in ast.walk(f.node):
                if isinstance(m, ast.Attribute) and m.value is n and m.attr in IMMUTABLE_ATTRS:
                    ok = True
            if not ok:
                return False
    return True


# ------------------------------------------------------------------ ownership of element values

ALIAS, OWN, WINDOW, OTHER = 'alias', 'own', 'window', 'other'


class Values:
    """What the list handed to a buffer constructor is: the list of another buffer, a new one."""

    def __init__(self, f, depth=0):
        self.f = f
        self.b = Body(f, {})
        self.depth = depth

    def classify(self, e, seen=frozenset()):
        if isinstance(e, ast.Name):
            if e.id in seen:
                return set()
            out = set()
            for kind, v in self.b.locals.get(e.id, ()):
                if kind == 'value':
                    out |= self.classify(v, seen | {e.id})
                else:
                    out.add(OTHER)
            if e.id in self.b.params:
                out.add(('param', e.id))
            return out or {OTHER}
        if isinstance(e, ast.Attribute):
            return {ALIAS} if e.attr == 'data' else {OTHER}
        if isinstance(e, ast.Subscript):
            inner = self.classify(e.value, seen)
            if isinstance(e.slice, ast.Slice):
                return {WINDOW if x == ALIAS else x for x in inner}
            return {OTHER}
        if isinstance(e, ast.IfExp):
            return self.classify(e.body, seen) | self.classify(e.orelse, seen)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.classify(v, seen) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.classify(e.value, seen)
        if isinstance(e, (ast.List, ast.ListComp, ast.BinOp)):
            return {OWN}
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute) and fn.attr in ('copy', '__copy__', 'tolist'):
                return {OWN}
            if isinstance(fn, ast.Attribute) and fn.attr in ('copy', 'deepcopy'):
                return {OWN}
            if isinstance(fn, ast.Name) and fn.id in ('list', 'sorted', 'sum', 'bytearray'):
                return {OWN}
            g = callee(self.f, fn)
            if g is not None and self.depth < 4:
                v = Values(g, self.depth + 1)
                out = set()
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        for k in v.classify(n.value):
                            if isinstance(k, tuple):
                                a = argument(g, e, k[1])
                                out |= self.classify(a, seen) if a is not None else {OTHER}
                            else:
                                out.add(k)
                return out or {OTHER}
        return {OTHER}


def buffer_sites(f):
    """Buffer constructor calls with the expression of their values argument."""
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        fn = n.func
        buf = isinstance(fn, ast.Name) and (fn.id == 'Buffer' or (
            fn.id == 'cls' and f.cls == 'Buffer'))
        if not buf and f.cls == 'Buffer' and isinstance(fn, ast.Call) and \
                isinstance(fn.func, ast.Name) and fn.func.id == 'type':
            buf = True
        if not buf:
            continue
        data = n.args[2] if len(n.args) > 2 else next(
            (k.value for k in n.keywords if k.arg == 'data'), None)
        if data is not None:
            yield n, data


def reach(names):
    """The functions and everything of the storage module they certainly call."""
    seen = []
    todo = [PROG.funcs[n] for n in names if n in PROG.funcs]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.append(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                g = callee(f, n.func)
                if g is not None and g.module == STORAGE and g.node.name.startswith('_') \
                        and not g.node.name.startswith('__'):
                    todo.append(g)
    return seen


def sharing():
    """Copies, conversions and sparse slices build their buffers on lists of their own."""
    r = Findings('sharing')
    owners = []
    for c in ['Storage'] + storage_classes():
        for m, f in PROG.classes[c].methods.items():
            if m in ('copy', 'fromobject') or m.startswith('as_') or (
                    m == 'get_slice' and c in ('COO', 'FlatCOO', 'CSR')):
                owners.append(f.qual)
    for f in reach(owners):
        v = Values(f)
        for call, data in buffer_sites(f):
            kinds = v.classify(data)
            r.unit('%s line %d' % (f.qual, call.lineno))
            name = f.qual.partition(':')[2]
            if ALIAS in kinds:
                r.bad(name, 'the new buffer uses the value list of an existing buffer', f, call)
            elif WINDOW in kinds:
                r.unsure(name, 'a slice of the values, a copy for lists only', f, call)
        for call in ast.walk(f.node):
            # the shallow duplication of an object keeps its value list
            if isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and \
                    isinstance(call.func.value, ast.Name) and call.func.value.id == 'copy' and \
                    call.func.attr == 'copy':
                r.bad(f.qual.partition(':')[2], 'a shallow duplicate shares element storage', f,
                      call)
    own_copy(r)
    return dedupe(r)


def own_copy(r):
    """Storage-level copies do not return the object itself."""
    for c in ['Storage'] + storage_classes():
        f = PROG.classes[c].methods.get('copy')
        if f is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and \
                    n.value.id == 'self':
                r.bad('%s.copy' % c, 'a copy returns the array itself', f, n)


def views():
    """Buffer slices are windows on the very list of their source; nothing rebinds it."""
    r = Findings('views')
    f = PROG.lookup_method('Buffer', '__getitem__')
    if f is None:
        return r
    for g in reach([f.qual]):
        v = Values(g)
        for call, data in buffer_sites(g):
            kinds = v.classify(data)
            r.unit('%s line %d' % (g.qual, call.lineno))
            if kinds & {OWN, WINDOW}:
                r.bad(g.qual.partition(':')[2],
                      'a slice of the buffer is built on values of its own', g, call)
    init = PROG.lookup_method('Buffer', '__init__')
    if init is not None:
        v = Values(init)
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and any(
                    isinstance(x, ast.Attribute) and x.attr == 'data' for x in n.targets):
                r.unit('%s line %d' % (init.qual, n.lineno))
                kinds = v.classify(n.value)
                if OWN in kinds or any(isinstance(x, ast.Subscript) for x in ast.walk(n.value)):
                    r.bad('Buffer.__init__', 'the constructor duplicates the values it is given',
                          init, n)
    return dedupe(r)


# ------------------------------------------------------------------ new overrides

def override(specs, run):
    """A format that replaces an inherited operation must implement the same specification."""
    r = Findings('override')
    have = {s.target for s in specs.values()}
    for c in storage_classes():
        for m, f in PROG.classes[c].methods.items():
            q = '%s:%s.%s' % (f.module, c, m)
            if q in have or m.startswith('_') and not m.startswith('__'):
                continue
            base = next(('%s:%s.%s' % (STORAGE, k, m) for k in PROG.mro(c)[1:]
                         if '%s:%s.%s' % (STORAGE, k, m) in have), None)
            if base is None:
                continue
            r.unit(q)
            o = run(specs[base] if base in specs else next(
                s for s in specs.values() if s.target == base), q)
            if o.verdict != 'EQUAL':
                r.unsure('%s.%s' % (c, m), 'replaces %s: %s' % (base, o.why or o.verdict), f)
    return r


# ------------------------------------------------------------------ iteration and termination

def iteration():
    r = Findings('iteration')
    for c in ['Storage'] + storage_classes():
        has_get = PROG.lookup_method(c, '__getitem__') is not None
        it = PROG.lookup_method(c, '__iter__')
        r.unit('%s iteration' % c)
        if has_get and it is None:
            r.bad('%s.__iter__' % c, 'iteration falls back on indexing, which accepts every '
                  'integer and never ends', key='%s lacks __iter__' % c)
    return r


INFINITE = {('itertools', 'count'), ('itertools', 'cycle'), ('itertools', 'repeat')}


def leaves_loop(body, in_loop=False):
    """A statement that leaves the loop occurs in its body."""
    for st in body:
        for n in walk_same_loop(st):
            if isinstance(n, (ast.Return, ast.Raise)):
                return True
            if isinstance(n, ast.Break):
                return True
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                pass
    return False


def walk_same_loop(st):
    """Nodes of the statement; breaks of nested loops are left out."""
    todo = [(st, False)]
    while todo:
        n, inner = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, ast.Break) and inner:
            continue
        yield n
        deeper = inner or isinstance(n, (ast.For, ast.While))
        for c in ast.iter_child_nodes(n):
            todo.append((c, deeper))


def termination():
    r = Findings('termination')
    for f in module_funcs(STORAGE, SLICES, BASICS, VERSION):
        name = f.qual.partition(':')[2]
        for n in ast.walk(f.node):
            if isinstance(n, ast.While):
                r.unit('%s: while loop at line %d' % (f.qual, n.lineno))
                const_true = isinstance(n.test, ast.Constant) and bool(n.test.value)
                if const_true and not leaves_loop(n.body):
                    r.bad(name, 'a loop without exit', f, n)
                elif not const_true and not leaves_loop(n.body):
                    names = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
                    stable = not any(isinstance(x, (ast.Attribute, ast.Subscript, ast.Call))
                                     for x in ast.walk(n.test))
                    assigned = set()
                    for st in n.body + [n.test]:
                        for x in ast.walk(st):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                                assigned.add(x.id)
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) \
                                    and isinstance(getattr(x, 'ctx', None), ast.Load):
                                assigned.add(x.value.id)     # a method may change it
                            if isinstance(x, ast.Call):
                                for y in x.args:
                                    if isinstance(y, ast.Name):
                                        assigned.add(y.id)
                            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and \
                                    not isinstance(x.ctx, ast.Load):
                                assigned.add(x.value.id)
                    if stable and not (names & assigned):
                        r.bad(name, 'nothing in the loop changes its condition', f, n)
            elif isinstance(n, ast.For):
                r.unit('%s: for loop at line %d' % (f.qual, n.lineno))
                it = n.iter
                if isinstance(it, ast.Call) and infinite(f, it) and not leaves_loop(n.body):
                    r.bad(name, 'iterates over an endless iterator without leaving', f, n)
                if isinstance(it, ast.Name) and not leaves_loop(n.body):
                    for st in n.body:
                        # unconditional growth of the list being iterated
                        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                                isinstance(st.value.func, ast.Attribute) and \
                                st.value.func.attr in ('append', 'insert') and \
                                isinstance(st.value.func.value, ast.Name) and \
                                st.value.func.value.id == it.id:
                            r.bad(name, 'every iteration extends the list being iterated', f, n)
            elif isinstance(n, ast.comprehension) and isinstance(n.iter, ast.Call) and \
                    infinite(f, n.iter):
                r.bad(name, 'a comprehension over an endless iterator', f)
        recursion(r, f, name)
    return r


def infinite(f, call):
    fn = call.func
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
        names = PROG.modules.get(f.module, {}).get(fn.value.id)
        if names and names[0] == 'mod' and (names[1], fn.attr) in INFINITE:
            return not (fn.attr == 'repeat' and len(call.args) > 1)
    if isinstance(fn, ast.Name):
        names = PROG.modules.get(f.module, {}).get(fn.id)
        if names and names[0] == 'from' and (names[1], names[2]) in INFINITE:
            return not (names[2] == 'repeat' and len(call.args) > 1)
    return False


def recursion(r, f, name):
    """A function calling itself with exactly its own arguments on an unconditional path."""
    ps = params(f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and callee(f, n.func) is f and \
                f.node.name not in ('__init__',):
            r.unit('%s: recursive call at line %d' % (f.qual, n.lineno))
            args = []
            if isinstance(n.func, ast.Attribute) and f.cls and 'staticmethod' not in f.deco:
                args.append(n.func.value)
            args += n.args
            rebound = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)
                       and isinstance(x.ctx, ast.Store)}
            if len(args) == len(ps) and not n.keywords and all(
                    isinstance(a, ast.Name) and a.id == p and p not in rebound
                    for a, p in zip(args, ps)):
                if 'classmethod' in f.deco:
                    continue
                r.bad(name, 'calls itself with unchanged arguments', f, n)
    # mutual recursion of a new cycle is out of scope of this rule


ROUNDERS = {'int', 'round', 'math.floor', 'math.ceil', 'math.trunc', 'floor', 'ceil', 'trunc'}


# ------------------------------------------------------------------ names that exist nowhere

def bound_names(tree):
    """Every name some construct of the tree binds, whatever its scope."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.alias):
            out.add(n.asname or n.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            out |= set(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
    return out


def dynamic(tree):
    """Names may come from places the text does not show."""
    for n in ast.walk(tree):
        if isinstance(n, ast.alias) and n.name == '*':
            return True
        if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in (
                'exec', 'eval', 'globals', 'locals', 'vars', 'setattr', '__import__', 'update',
                'import_module', 'update_wrapper', 'wraps', 'namedtuple', 'dataclass'):
            if dotted(n.func) == 'setattr' and len(n.args) == 3 and isinstance(
                    n.args[1], ast.Constant):
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and not (
                    isinstance(n.func.value, ast.Attribute) and n.func.value.attr == '__dict__'):
                continue
            return True
        if isinstance(n, ast.Attribute) and n.attr == '__dict__':
            return True
    return False


def stored_attributes():
    """Attributes some statement of the program stores, on any object."""
    out = set()
    for tree in PROG.trees.values():
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and (dotted(n.func) or '').endswith('setattr') and \
                    len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


def plain_class(c):
    """Every attribute of an object of the class is visible in its text."""
    for k in PROG.mro(c):
        n = PROG.classes[k].node
        if n.decorator_list or n.keywords or any(b != 'object' and b not in PROG.classes
                                                 for b in PROG.classes[k].bases):
            return False
        if {'__getattr__', '__getattribute__', '__new__', '__init_subclass__'} & set(
                PROG.classes[k].methods):
            return False
    return True


def names(targets):
    """A function reads no name and no attribute of its object that nothing binds, and creates
    objects of its own class with as many arguments as the class takes."""
    r = Findings('names')
    attrs = stored_attributes()
    open_ended = {m: dynamic(t) for m, t in PROG.trees.items()}
    for q in sorted(set(targets)):
        f = PROG.funcs.get(q)
        if f is None or f.module not in PROG.trees:
            continue
        if open_ended[f.module]:
            continue
        r.unit('%s: names' % q)
        name = q.partition(':')[2]
        known = bound_names(PROG.trees[f.module]) | set(dir(builtins)) | {
            '__name__', '__file__', '__doc__', '__class__', '__package__', '__spec__'}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in known:
                r.bad(name, 'the name %s is bound nowhere' % n.id, f, n)
        here = rebound(f) | set(params(f))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                    n.value.id not in here and isinstance(n.ctx, ast.Load):
                e = PROG.modules[f.module].get(n.value.id)
                m = e and (e[1] if e[0] == 'mod' else '%s.%s' % e[1:3] if e[0] == 'from' else None)
                if m in PROG.trees and not open_ended[m] and n.attr not in attrs and \
                        n.attr not in bound_names(PROG.trees[m]) and not n.attr.startswith('__'):
                    r.bad(name, 'module %s has no %s' % (m, n.attr), f, n)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id not in here:
                g = callee(f, n.func)
                if g is not None and g.cls is None and not g.deco and g.node.name == n.func.id \
                        and sum(isinstance(x, ast.FunctionDef) and x.name == g.node.name
                                for x in ast.walk(PROG.trees[g.module])) == 1:
                    bad = bad_call(g, n)
                    if bad:
                        r.bad(name, '%s %s' % (n.func.id, bad), f, n)
        if f.cls is None or any(open_ended.values()):
            continue
        users = [c for c in storage_classes() if PROG.lookup_method(c, f.name) is f]
        ps = params(f)
        if not users or not ps or not all(map(plain_class, users)) or 'staticmethod' in f.deco:
            continue
        if 'classmethod' not in f.deco:
            guarded = guarded_names(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(
                        n.value, ast.Name) and n.value.id == ps[0] and n.attr not in attrs and \
                        n.attr not in guarded and not hasattr(object, n.attr) and not any(
                            n.attr in bound_names(PROG.classes[k].node) for c in users
                            for k in PROG.mro(c)) and ps[0] not in rebound(f):
                    r.bad(name, 'the attribute %s is bound nowhere' % n.attr, f, n)
        own = own_class(f, ps[0])
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
                    n.func.value, ast.Name) and n.func.value.id == ps[0] and \
                    'classmethod' not in f.deco and ps[0] not in rebound(f):
                gs = [PROG.lookup_method(c, n.func.attr) for c in users]
                if None not in gs and not any(g.deco for g in gs) and n.func.attr not in attrs:
                    bad = [bad_call(g, n) for g in gs]
                    if all(bad):
                        r.bad(name, '%s %s' % (n.func.attr, bad[0]), f, n)
            if isinstance(n, ast.Call) and ast.dump(n.func) in own and ps[0] not in rebound(f):
                inits = [PROG.lookup_method(c, '__init__') for c in users]
                if None in inits:
                    continue
                bad = [bad_call(g, n) for g in inits]
                if all(bad):
                    r.bad(name, 'a new object %s' % bad[0], f, n)
    return dedupe(r)


def rebound(f):
    return {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)
            and not isinstance(n.ctx, ast.Load)} | {
        a.arg for n in ast.walk(f.node) if n is not f.node and isinstance(
            n, (ast.FunctionDef, ast.Lambda)) for a in n.args.args + n.args.kwonlyargs}


def own_class(f, s):
    """Expressions denoting the class of the object a method runs on."""
    texts = [s] if 'classmethod' in f.deco else ['type(%s)' % s, '%s.__class__' % s]
    return {ast.dump(ast.parse(x, mode='eval').body) for x in texts}


def exact(names):
    """Integers are computed by integer operations: a quotient of floating point rounded back to
    an integer is wrong once its operands exceed the 53 bits of a float."""
    r = Findings('exact')
    fs = []
    todo = [PROG.funcs[n] for n in names if n in PROG.funcs]
    while todo:
        f = todo.pop()
        if f in fs or f.module == VERSION:
            continue
        fs.append(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                g = callee(f, n.func)
                if g is not None:
                    todo.append(g)
    for f in sorted(fs, key=lambda f: f.qual):
        name = f.qual.partition(':')[2]
        r.unit('%s: integer arithmetic' % f.qual)
        floats = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                    n.targets[0], ast.Name) and quotient(n.value):
                floats[n.targets[0].id] = n.value
        stores = sorted((x.lineno, x.col_offset, x.id) for x in ast.walk(f.node)
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or '') in ROUNDERS and n.args:
                a = n.args[0]
                if quotient(a) or (isinstance(a, ast.Name) and a.id in floats
                                   and last_store(stores, n, a.id) == floats[a.id].lineno):
                    r.bad(name, 'an integer is computed through a floating-point quotient: wrong '
                          'for operands beyond 2**53', f, n)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.FloorDiv) and (
                    quotient(n.left) or isinstance(n.left, ast.Call)
                    and dotted(n.left.func) == 'float'):
                r.bad(name, 'an integer is computed through a floating-point quotient', f, n)
    return r


def last_store(stores, n, name):
    """Line of the last assignment of a name in front of the statement holding n."""
    lines = [line for line, _, x in stores if x == name and line < n.lineno]
    return lines[-1] if lines else None


def quotient(e):
    if isinstance(e, ast.Constant):
        return isinstance(e.value, float)
    if isinstance(e, ast.Call):
        f = dotted(e.func) or ''
        if f == 'float':
            return True
        if f in ('math.prod', 'sum', 'prod'):
            return any(quotient(x) for x in e.args[1:2] + [
                k.value for k in e.keywords if k.arg == 'start'])
    if isinstance(e, ast.UnaryOp):
        return quotient(e.operand)
    if isinstance(e, ast.BinOp):
        if isinstance(e.op, ast.Div):
            return True
        if isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
            return quotient(e.left) or quotient(e.right)
    return False


# ------------------------------------------------------------------ findings about today's code

def assignment(equal):
    """Every assigned value is stored: the traversal behind assignment covers every addressed
    element.  Sparse formats only visit the elements they store."""
    r = Findings('assignment')
    for c in storage_classes():
        f = PROG.lookup_method(c, '__setitem__')
        tr = PROG.lookup_method(c, 'slice_indices_and_data_position')
        st = PROG.lookup_method(c, 'indices_and_data_position')
        if f is None or tr is None or st is None or is_stub(st):
            continue
        r.unit('%s assignment' % c)
        if f.qual != STORAGE + ':Storage.__setitem__' or not equal(f.qual):
            continue
        if tr.qual != STORAGE + ':Storage.slice_indices_and_data_position' or not equal(tr.qual):
            continue
        # the stored-element traversal does not run over the whole shape
        if not equal(st.qual):
            continue
        whole = any(isinstance(n, ast.Attribute) and n.attr == 'product'
                    for n in ast.walk(st.node))
        if not whole:
            r.bad('%s.__setitem__' % c, 'a value assigned to an element that %s does not store is '
                  'silently dropped' % c, st, key='%s drops assignments to unstored elements' % c)
    return r


def sizes(equal):
    """The size of a view counts its own elements."""
    r = Findings('sizes')
    f = PROG.funcs.get(STORAGE + ':DM.__init__')
    g = PROG.funcs.get(STORAGE + ':DM.__getitem__')
    if f is not None and g is not None:
        r.unit('DM size')
        takes_all = any(
            isinstance(n, ast.Assign) and any(
                isinstance(x, ast.Attribute) and x.attr == 'size' for x in n.targets)
            and isinstance(n.value, ast.Attribute) and n.value.attr == 'size'
            for n in ast.walk(f.node))
        if takes_all and equal(f.qual) and equal(g.qual):
            r.bad('DM.__init__', 'a sliced dimension-mapped array reports the number of elements '
                  'of the whole underlying storage', f, key='DM slices report the size of the '
                  'underlying storage')
    return r
