"""Front end: Python source -> value-graph terms (syntax-directed, nothing is executed)."""
import ast
import builtins
import collections
import os

from . import terms as t
from . import desugar
from .terms import T, mk, const, NONE, TRUE, FALSE, ZERO, ONE, FALL, DC, EMPTY

UNDEF = t.UNDEF


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- program

class Func:
    def __init__(self, module, cls, node, deco, spec=False):
        self.module = module
        self.cls = cls
        self.node = desugar.function(node)
        self.name = node.name
        self.deco = deco
        self.spec = spec
        self.qual = module + ':' + ((cls + '.') if cls else '') + node.name

    @property
    def is_generator(self):
        g = getattr(self, '_gen', None)
        if g is None:
            g = self._gen = _has_yield(self.node)
        return g

    def __repr__(self):
        return self.qual


def _has_yield(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, module, name, bases, node):
        self.module, self.name, self.bases, self.node = module, name, bases, node
        self.methods = {}
        self.attrs = {}


class Program:
    def __init__(self):
        self.modules = {}       # module name -> dict of names
        self.trees = {}
        self.paths = {}
        self.classes = {}       # class name -> Class  (class names are unique in this program)
        self.funcs = {}         # qual -> Func

    def load(self, name, path, is_pkg=False):
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src, filename=path)
        self.trees[name] = tree
        self.paths[name] = path
        names = {}
        self.modules[name] = names
        pkg = name if is_pkg else name.rpartition('.')[0]
        self._load_body(tree.body, name, pkg, names)

    def _load_body(self, body, name, pkg, names):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                f = Func(name, None, st, [_deco_name(d) for d in st.decorator_list])
                self.funcs[f.qual] = f
                names[st.name] = ('func', f.qual)
            elif isinstance(st, ast.ClassDef):
                bases = [b.id if isinstance(b, ast.Name) else
                         (b.attr if isinstance(b, ast.Attribute) else '?') for b in st.bases]
                c = Class(name, st.name, bases, st)
                self.classes[st.name] = c
                names[st.name] = ('class', st.name)
                for m in st.body:
                    if isinstance(m, ast.FunctionDef):
                        f = Func(name, st.name, m, [_deco_name(d) for d in m.decorator_list])
                        if m.name in c.methods and any(
                                d.endswith('.setter') for d in f.deco):
                            continue
                        self.funcs[f.qual] = f
                        c.methods[m.name] = f
                    elif isinstance(m, ast.Assign) and len(m.targets) == 1 and \
                            isinstance(m.targets[0], ast.Name):
                        if isinstance(m.value, ast.Name) and m.value.id in c.methods:
                            c.methods[m.targets[0].id] = c.methods[m.value.id]
                        else:
                            c.attrs[m.targets[0].id] = m.value
            elif isinstance(st, ast.Import):
                for a in st.names:
                    names[a.asname or a.name.split('.')[0]] = ('mod', a.name)
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    p = pkg.split('.') if pkg else []
                    p = p[:len(p) - (st.level - 1)] if st.level > 1 else p
                    base = '.'.join([x for x in p if x] + ([base] if base else []))
                for a in st.names:
                    names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Name):
                names[st.targets[0].id] = ('expr', st.value, name)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                names[st.target.id] = ('expr', st.value, name)
            elif isinstance(st, (ast.If, ast.Try)):
                for f in ('body', 'orelse', 'finalbody'):
                    self._load_body(getattr(st, f, []), name, pkg, names)

    def mro(self, cname):
        out = []
        todo = [cname]
        while todo:
            c = todo.pop(0)
            if c in out or c not in self.classes:
                continue
            out.append(c)
            todo = list(self.classes[c].bases) + todo if False else todo + list(
                self.classes[c].bases)
        return out

    def lookup_method(self, cname, mname):
        for c in self.mro(cname):
            m = self.classes[c].methods.get(mname)
            if m is not None:
                return m
        return None

    def definers(self, mname):
        return [c.methods[mname] for c in self.classes.values() if mname in c.methods]

    def subclasses(self, cname):
        return [c for c in self.classes if cname in self.mro(c)]

    def resolve(self, module, name, depth=0):
        """name in a module -> entry ('func', qual) / ('class', n) / ('mod', n) / ('expr', ..)"""
        e = self.modules.get(module, {}).get(name)
        if e is None or depth > 8:
            return e
        if e[0] == 'from':
            base, nm = e[1], e[2]
            if (base + '.' + nm) in self.modules:
                return ('mod', base + '.' + nm)
            if base in self.modules:
                return self.resolve(base, nm, depth + 1)
            return ('ext', base, nm)
        if e[0] == 'expr' and isinstance(e[1], ast.Name):
            r = self.resolve(module, e[1].id, depth + 1)
            if r is not None:
                return r
        if e[0] == 'expr' and isinstance(e[1], ast.Attribute) and isinstance(
                e[1].value, ast.Name):
            m = self.resolve(module, e[1].value.id, depth + 1)
            if m and m[0] == 'mod' and m[1] in self.modules:
                r = self.resolve(m[1], e[1].attr, depth + 1)
                if r is not None:
                    return r
        return e


def lacks(cname, name):
    """No object of the class (nor of one derived from it) has an attribute of that name."""
    if cname not in PROG.classes:
        return False
    for c in set(PROG.mro(cname)) | {k for s in PROG.subclasses(cname) for k in PROG.mro(s)}:
        k = PROG.classes[c]
        if any(b not in PROG.classes and b != 'object' for b in k.bases) or k.node.keywords or \
                k.node.decorator_list or name in k.methods or name in k.attrs:
            return False
        for n in ast.walk(k.node):
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load) and \
                    n.attr == name or isinstance(n, ast.FunctionDef) and n.name in (
                    name, '__getattr__', '__getattribute__') or \
                    isinstance(n, ast.Name) and (n.id in ('setattr', '__slots__') or n.id == name
                                                 and not isinstance(n.ctx, ast.Load)) or \
                    isinstance(n, ast.Attribute) and n.attr in ('__dict__', '__setattr__') or \
                    isinstance(n, ast.Constant) and n.value == name:
                return False
    return not hasattr(object, name) and not any(
        isinstance(n, ast.Attribute) and n.attr == name and not isinstance(n.ctx, ast.Load)
        and not (isinstance(n.value, ast.Name) and n.value.id == 'self') for tree in PROG.trees.values() for n in ast.walk(tree))


def _deco_name(d):
    try:
        return ast.unparse(d)
    except Exception:
        return '?'


PROG = Program()
BUILTIN_TYPES = ('int', 'slice', 'tuple', 'list', 'dict', 'str', 'set', 'float', 'bool', 'type')


# ---------------------------------------------------------------- class knowledge

ATTR_CLS = {}      # (class, attr) -> class name; filled from __init__ annotations / asserts
LEN_OF_SHAPE = ('strides', '_strides')
LEN_OF_RDIMS = ('rshapes', 'rstrides', 'roffset')


def learn_attr_classes(prog):
    for c in prog.classes.values():
        init = c.methods.get('__init__')
        if init is None:
            continue
        ann = {}
        for a in init.node.args.args:
            if isinstance(a.annotation, ast.Name) and a.annotation.id in prog.classes:
                ann[a.arg] = a.annotation.id
        for st in ast.walk(init.node):
            if isinstance(st, ast.Assert) and isinstance(st.test, ast.Call) and isinstance(
                    st.test.func, ast.Name) and st.test.func.id == 'isinstance' and isinstance(
                    st.test.args[0], ast.Name) and isinstance(st.test.args[1], ast.Name) and \
                    st.test.args[1].id in prog.classes:
                ann[st.test.args[0].id] = st.test.args[1].id
        for st in ast.walk(init.node):
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Attribute) and \
                    isinstance(st.value, ast.Name) and st.value.id in ann:
                ATTR_CLS[c.name, st.targets[0].attr] = ann[st.value.id]


def cls_of(x):
    """Exact-or-base class of a term if known."""
    op = x.op
    if op == 'as':
        return None
    if op == 'var':
        return x.args[2]
    if op == 'new':
        return x.args[0]
    if op == 'attr':
        c = cls_of(x.args[0])
        if c:
            for k in PROG.mro(c):
                r = ATTR_CLS.get((k, x.args[1]))
                if r:
                    return r
        if x.args[1] in ('findices', 'crow_indices', 'col_indices', 'row_lengths',
                         'row_pointers'):
            return 'Buffer'
        return None
    if op == 'call':
        q = x.args[0]
        cname, _, m = q.rpartition('.')
        cname = cname.rpartition(':')[2]
        if m == 'fromobject' and cname in PROG.classes:
            return cname
        return None
    if op == 'vcall':
        if x.args[1] in ('copy', 'get_slice'):
            return cls_of(x.args[0])
        if x.args[1].startswith('as_') and x.args[1][3:] in PROG.classes:
            return x.args[1][3:]
        return None
    if op == 'idx' and x.args[1].op == 'slice':
        c = cls_of(x.args[0])
        return c if c == 'Buffer' else None
    if op == 'ite':
        a, b = cls_of(x.args[1]), cls_of(x.args[2])
        return a if a == b else None
    return None


@t.memo
def attrf(o, name):
    if o.op == 'DC':
        return DC
    if o.op == 'ite':
        return t.ite(o.args[0], attrf(o.args[1], name), attrf(o.args[2], name))
    if name == '__class__':
        return typef(o)
    if o.op == 'slice' and name in ('start', 'stop', 'step'):
        return o.args[('start', 'stop', 'step').index(name)]
    c = cls_of(o)
    if c == 'Buffer':
        if name == 'shape':
            return t.as_('tuple', t.lit(attrf(o, 'size')))
        if name == '_unspecified':
            name = 'unspecified'
        if name == 'size' and o.op == 'attr':
            # lengths the constructors of the sparse formats assert
            if o.args[1] in ('findices', 'col_indices'):
                return attrf(attrf(o.args[0], 'data'), 'size')
            if o.args[1] in ('row_lengths', 'row_pointers'):
                return t.idx(attrf(o.args[0], 'shape'), ZERO)
            if o.args[1] == 'crow_indices':
                return t.add(t.idx(attrf(o.args[0], 'shape'), ZERO), ONE)
    elif c is not None and name == 'unspecified':
        return attrf(attrf(o, 'data'), name)
    elif c in ('COO', 'FlatCOO', 'CSR', 'C2SR', 'DM') and name == 'size':
        return attrf(attrf(o, 'data'), 'size')
    if c is not None and name == '_strides':
        name = 'strides'
    if name == 'strides' and c in ('COO', 'FlatCOO', 'CSR', 'C2SR', 'DM'):
        # only strided storages are given strides; the others have those of their shape
        shape = attrf(o, 'shape')
        n = t.length(shape)
        i, j = t.fresh('nat'), t.fresh('nat')
        return t.as_('tuple', t.mapf(n, t.lam([i], t.prodf(
            t.max0(t.sub(t.sub(n, i), ONE)),
            t.lam([j], t.idx(shape, t.add(i, j, ONE)))))))
    if o.op == 'new' and o.args[0] in PROG.classes:
        r = new_attr(o, name)
        if r is not None:
            return r
    return mk('attr', o, name)


def typef(o):
    c = cls_of(o)
    if c and len(PROG.subclasses(c)) == 1:
        return mk('clsref', c)
    if o.op == 'var' and o.args[0] == 'cls':
        return o
    return mk('typeof', o)


def isinstdynf(x, c):
    if c.op == 'typeof' and c.args[0] is x:
        return TRUE
    return mk('isinstdyn', x, c)


def rebuild_call(q, *args):
    if q == 'gcs.slice_tools:normalize_index' and len(args) == 2:
        # normalised twice is normalised once (S02, S03: the results are already reduced)
        x = args[0]
        if x.op == 'call' and x.args[0] == q and x.args[2] is args[1]:
            return x
    if q == 'gcs.slice_tools:index_strided' and len(args) == 4 and args[3] is not ZERO:
        # the offset is added to the position and nothing else depends on it (S05)
        base = mk('call', q, *args[:3], ZERO)
        return t.as_('tuple', t.lit(t.idx(base, ZERO), t.idx(base, ONE),
                                    t.add(args[3], t.idx(base, const(2)))))
    if q == 'gcs.slice_tools:axpy' and len(args) == 3 and not any(a.op == 'star' for a in args):
        # only the items of the sequences matter; zeros added change nothing
        a, x, y = args[0], t.strip(args[1]), t.strip(args[2])
        if y.op == 'map' and t.opn(y.args[1], t.fresh('nat')) is ZERO:
            i = t.fresh('nat')
            return t.as_('tuple', t.mapf(t.length(x), t.lam([i], t.mul(a, t.idx(x, i)))))
        args = (a, x, y)
    return mk('call', q, *args)


def new_attr(o, name):
    cls = PROG.classes[o.args[0]]
    init = PROG.lookup_method(cls.name, '__init__')
    if init is None:
        return None
    params = [a.arg for a in init.node.args.args][1:]
    for st in init.node.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(
                st.targets[0], ast.Attribute) and st.targets[0].attr == name:
            if isinstance(st.value, ast.Name) and st.value.id in params:
                i = params.index(st.value.id)
                if i + 1 < len(o.args):
                    return o.args[i + 1]
    return None


def len_hook(s):
    """length of non-literal sequence-like terms; None if nothing special is known"""
    if s.op == 'attr':
        o, name = s.args
        if name in LEN_OF_SHAPE:
            return t.length(attrf(o, 'shape'))
        if name in LEN_OF_RDIMS:
            return t.length(attrf(o, 'rdimensions'))
        if name == 'shape':
            c = cls_of(o)
            if c in ('CSR', 'C2SR'):
                return const(2)
            if o.op == 'attr' and o.args[1] == 'indices':
                return const(2)
    if s.op == 'idx' and s.args[1].op == 'slice' and s.args[0].op == 'attr' and \
            s.args[0].args[1] == 'data':
        o = s.args[0].args[0]
        lo, hi, st = s.args[1].args
        if cls_of(o) == 'Buffer' and st in (NONE, ONE) and lo in (attrf(o, 'offset'), ZERO) and \
                hi is t.add(lo, attrf(o, 'size')):
            return attrf(o, 'size')           # offset + size <= len(data), as asserted
    if s.op == 'idx' and s.args[1] is ZERO and s.args[0].op == 'idx':
        # the index of an item of a traversal has an entry for each axis
        y = t.strip(s.args[0].args[0])
        while y.op in ('sorted', 'rev', 'as'):
            y = t.strip([z for z in y.args if isinstance(z, T)][0])
        if y.op == 'vcall' and y.args[1] == 'slice_indices_and_data_position':
            return t.length(y.args[2])
        if y.op == 'vcall' and y.args[1] in ('indices_and_data_position', 'elements') and \
                len(y.args) == 2:
            return t.length(attrf(y.args[0], 'shape'))
    if s.op == 'idx' and s.args[0].op == 'attr' and s.args[0].args[1] in ('rshapes', 'rstrides'):
        return t.length(t.idx(attrf(s.args[0].args[0], 'rdimensions'), s.args[1]))
    c = cls_of(s)
    if c == 'Buffer':
        return attrf(s, 'size')
    if c is not None:
        return t.idx(attrf(s, 'shape'), ZERO)
    if s.op == 'vcall' and s.args[1] == 'copy':
        return t.length(s.args[0])
    return None


t.HOOKS['len'] = len_hook

EXCL = {'int', 'slice', 'tuple', 'list', 'dict', 'str', 'set', 'NoneType', 'float'}


@t.memo
def isinstf(x, name):
    if x.op == 'ite':
        return t.ite(x.args[0], isinstf(x.args[1], name), isinstf(x.args[2], name))
    if x.op == 'DC':
        return DC
    c = cls_of(x)
    if c is not None:
        if name in PROG.mro(c):
            return TRUE
        if name not in PROG.classes or c not in PROG.mro(name):
            return FALSE
    if x.op == 'slice':
        return TRUE if name == 'slice' else FALSE
    if x.op == 'const':
        n = x.args[0]
        if n == 'bool':
            return TRUE if name in ('bool', 'int') else FALSE
        return TRUE if n == name else FALSE
    if x.op in ('global', 'clsref', 'funcref', 'builtin', 'lam'):
        return FALSE
    k = t.kind(x)
    if t.is_int(k) and x.op not in ('attr',):
        return TRUE if name == 'int' else FALSE
    if x.op == 'as' and name in EXCL:
        tag = x.args[0]
        if tag in ('tuple', 'list', 'set', 'dict'):
            return TRUE if tag == name else FALSE
    if t.is_seq(k) and (name in PROG.classes or name in ('int', 'slice', 'dict', 'str')):
        return FALSE
    if k == 'str':
        return TRUE if name == 'str' else FALSE
    if x.op == 'call' and name in PROG.classes and False:
        return FALSE
    return mk('isinst', x, name)


def slicef(a, b, c):
    return mk('slice', a, b, c)


def applyf(f, *args):
    if f.op == 'ite':
        return t.ite(f.args[0], applyf(f.args[1], *args), applyf(f.args[2], *args))
    if f.op == 'lam' and f.args[0] == len(args):
        return t.opn(f, *args)
    if f.op == 'bound' and f.args[1] == '__getitem__' and len(args) == 1:
        return t.idx(f.args[0], args[0])
    if f is DC:
        return DC
    return mk('apply', f, *args)


def dispatch_table(d):
    return d.op == 'dict' and d.args and all(
        kv.args[0].op == 'const' and kv.args[1].op in ('funcref', 'lam', 'clsref', 'clsmeth',
                                                       'unbound') for kv in d.args)


def strcat(*parts):
    out = []
    for p in parts:
        if p.op == 'strcat':
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if q.op == 'fmt' and q.args[0] == 's' and len(parts) > 1:
                q = q.args[1]           # a part of a text is a text
            if q.op == 'const' and q.args[0] == 'str':
                if q.args[1] == '':
                    continue
                if out and out[-1].op == 'const':
                    out[-1] = const(out[-1].args[1] + q.args[1])
                    continue
            out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and t.kind(out[0]) == 'str':
        return out[0]
    return mk('strcat', *out)


def fmtf(spec, x):
    if x.op == 'const' and spec in ('s', 'd', '') and x.args[0] in ('str', 'int'):
        return const(str(x.args[1]))
    if spec == 'd':
        spec = 's'          # the decimal form of an integer
    if t.kind(x) == 'str' and spec in ('s', ''):
        return x
    return mk('fmt', spec if spec else 's', x)


def lexlt(a, b):
    """a < b on sequences (lexicographic), folded for literals of constants."""
    sa, sb = t.strip(a), t.strip(b)
    if sa.op == 'lit' and sb.op == 'lit' and all(map(t.is_const, sa.args + sb.args)):
        return TRUE if [t.cval(x) for x in sa.args] < [t.cval(x) for x in sb.args] else FALSE
    return mk('lex', a, b)


def sortedf(s, *extra):
    if t.strip(s).op == 'lit' and len(t.strip(s).args) <= 1 and not extra:
        return t.strip(s)
    return mk('sorted', s, *extra)


def revf(s):
    s = t.strip(s)
    if s.op == 'rev':
        return s.args[0]
    if s.op == 'lit':
        return t.lit(*reversed(s.args))
    n, f = t.seqview(s)
    if s.op in ('map',):
        v = t.fresh('nat')
        return t.mapf(n, t.lam([v], f(t.sub(t.sub(n, ONE), v))))
    return mk('rev', s)


def scatterf(base, pairs):
    """base with base[i] = x for the (i, x) of `pairs`, in order."""
    if pairs.op == 'lit' and not pairs.args:
        return base
    if base.op == 'as' and base.args[0] != 'dict':
        return t.as_(base.args[0], scatterf(base.args[1], pairs))
    if base.op == 'scatter':
        return scatterf(base.args[0], t.concat(base.args[1], pairs))
    if base.op == 'dict' and pairs.op == 'lit' and all(
            t.strip(p).op == 'lit' and len(t.strip(p).args) == 2 and t.strip(p).args[0].op == 'const'
            for p in pairs.args) and all(kv.args[0].op == 'const' for kv in base.args):
        for p in pairs.args:
            base = t.dict_set(base, *t.strip(p).args)
        return base
    # dense pointwise updates
    if pairs.op in ('map', 'fmap') and not _is_dict(base):
        l = pairs.args[1]
        vs, b = t.open_fresh(l)
        v = vs[0]
        n = pairs.args[0]
        if pairs.op == 'map':
            b = t.lit(b)
        if all(_own_pair(x, v) for x in leaves(b)) and all(c.op != 'opaque' for c in (n,)):
            N = t.length(base)

            def val(x, w):
                if x.op == 'ite':
                    return t.ite(x.args[0], val(x.args[1], w), val(x.args[2], w))
                return t.idx(base, w) if x is EMPTY else t.idx(x.args[0], ONE)
            inner = val(b, v)
            if N is n:
                return t.mapf(N, t.lam([v], inner))
            return t.mapf(N, t.lam([v], t.ite(t.lt(v, n), inner, t.idx(base, v))))
    return mk('scatter', base, pairs)


def _own_pair(x, v):
    """no update, or one update of element v itself"""
    if x is EMPTY:
        return True
    return x.op == 'lit' and len(x.args) == 1 and t.idx(x.args[0], ZERO) is v


def _is_dict(base):
    return t.kind(base) == 'dict' or base.op == 'dict' or (base.op == 'as'
                                                           and base.args[0] == 'dict')


t._REBUILD.update({
    'attr': attrf, 'isinst': isinstf, 'apply': applyf, 'strcat': strcat, 'fmt': fmtf,
    'lex': lexlt, 'rev': revf, 'scatter': scatterf, 'call': rebuild_call, 'typeof': typef,
    'isinstdyn': isinstdynf,
})


# ---------------------------------------------------------------- evaluator

class SpecFn:
    def __init__(self, target, mode, node, module, opts):
        self.target = target      # qualified name of the function specified
        self.mode = mode          # inline | atomic | method
        self.node = node
        self.module = module      # module whose names the spec text uses
        self.opts = opts


class Policy:
    """Which callees are replaced by their specification."""
    def __init__(self):
        self.specs = {}          # qual -> SpecFn (for callers)
        self.methods = {}        # method name -> signature names (vcall)
        self.helpers = {}        # spec-level helper functions name -> node
        self.props = set()       # properties kept as attribute nodes
        self.through = False     # methods of one class looked through


POLICY = Policy()
SKIP_CALLS = {'print', 'warnings.warn'}
MAXDEPTH = 40


class Frame:
    def __init__(self, module, cls=None, spec=False, stack=(), asserts='ignore', selfname=None):
        self.module = module
        self.cls = cls
        self.spec = spec
        self.stack = stack
        self.asserts = asserts
        self.snaps = {}
        self.nsnap = 0
        self.assumed = []
        self.same = []          # conditions a specification takes to be equivalent
        self.pend = []          # exceptions raised by inlined calls of the current statement
        self.guards = []        # conditions under which the current expression is evaluated
        self.multi = 0          # > 0 inside expressions evaluated repeatedly or later
        self.call_env = None    # environment and argument nodes of the call being applied
        self.call_nodes = ()
        self.aliased = set()
        self.moves = frozenset()


@t.memo
def graft(tree, t2):
    """Replace FALL leaves."""
    if tree is FALL:
        return t2
    if tree.op == 'ite':
        return t.ite(tree.args[0], graft(tree.args[1], t2), graft(tree.args[2], t2))
    return tree


MEMO_UNSET = mk('global', 'gcs.storage:DEFAULT')
RISKY = ('call', 'vcall', 'apply', 'new', 'newdyn', 'opaque', 'mut', 'fdiv', 'idx', 'getattr')


def exc_names(node):
    if node is None:
        return 'BaseException'
    ns = node.elts if isinstance(node, ast.Tuple) else [node]
    out = sorted({dotted(n) or '?' for n in ns})
    return ','.join('OSError' if n in ('EnvironmentError', 'IOError') else n for n in out)


def catches(exc, raised):
    """Does a handler of `exc` catch the exception `raised`? None: unknown."""
    import builtins
    if not t.is_const(raised):
        return None
    r = raised.args[1]
    if r == 'reraise':
        return None

    def bases(n):
        if n in PROG.classes:
            yield n
            for x in PROG.classes[n].bases:
                yield from bases(x)
            return
        b = getattr(builtins, n, None)
        if isinstance(b, type):
            for k in b.__mro__:
                yield k.__name__
        else:
            yield n
    names = set(bases(r))
    return any(n in names or n in ('BaseException', 'Exception') for n in exc.split(','))


def where_raised(tree, exc):
    if tree.op == 'ite':
        return t.ite(tree.args[0], where_raised(tree.args[1], exc),
                     where_raised(tree.args[2], exc))
    return TRUE if tree.op == 'raise' and catches(exc, tree.args[0]) else FALSE


def replace_raise(tree, exc, th):
    if tree.op == 'ite':
        return t.ite(tree.args[0], replace_raise(tree.args[1], exc, th),
                     replace_raise(tree.args[2], exc, th))
    return th if tree.op == 'raise' and catches(exc, tree.args[0]) else tree


@t.memo
def has_leaf(tree, *ops):
    if tree.op == 'ite':
        return has_leaf(tree.args[1], *ops) or has_leaf(tree.args[2], *ops)
    return tree.op in ops


def merge(c, a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = {}
    for k in set(a) | set(b):
        x, y = a.get(k, UNDEF), b.get(k, UNDEF)
        if x is y:
            out[k] = x
        elif x.op == 'undef' or y.op == 'undef':
            z = y if x.op == 'undef' else x
            out[k] = z      # a variable bound on one side only: using it elsewhere is an error
        else:
            out[k] = t.ite(c, x, y)
    return out


def exception_of(x):
    """raise of a computed exception object or class"""
    if x.op == 'ite':
        return t.ite(x.args[0], exception_of(x.args[1]), exception_of(x.args[2]))
    name = None
    if x.op == 'call' and isinstance(x.args[0], str) and x.args[0].startswith('builtins:'):
        name = x.args[0].partition(':')[2]
    elif x.op == 'new':
        name = x.args[0]
    elif x.op in ('clsref', 'builtin', 'global'):
        name = str(x.args[0]).rpartition(':')[2].rpartition('.')[2]
    if name is None or not (name in PROG.classes or
                            isinstance(getattr(builtins, name, None), type)):
        raise Unsupported('raise of a computed value')
    return mk('raise', const(name))


def hoist_raised(tree, e2, env):
    """Exceptions inside the items of a computed sequence are raised by the statement."""
    if not t.find_ops(tree, ('raised',)) and not (e2 and any(
            t.find_ops(x, ('raised',)) for k, x in e2.items() if x is not env.get(k))):
        return tree, e2, []
    if e2 is None:
        ls = leaves(tree)
        if len(ls) != 1 or ls[0].op != 'ret':
            return tree, e2, []
        vals = [ls[0].args[0]]
    else:
        vals = [x for k, x in sorted(e2.items()) if x is not env.get(k) and
                t.find_ops(x, ('raised',))]
        if tree is not FALL or len(vals) != 1:
            return tree, e2, []
    excs = t.find_ops(vals[0], ('raised',))
    if len({x.args[0] for x in excs}) != 1:
        return tree, e2, []
    c = raised_when(vals[0])
    if c is None:
        return tree, e2, []
    m = {x: DC for x in excs}
    if e2 is not None:
        e2 = {k: t.subst(x, m) if x is vals[0] else x for k, x in e2.items()}
    return t.subst(tree, m), e2, [(c, excs[0].args[0])]


@t.memo
def raised_when(x):
    if not t.find_ops(x, ('raised',)):
        return FALSE
    if x.op == 'raised':
        return TRUE
    if x.op == 'ite':
        if t.find_ops(x.args[0], ('raised',)):
            return None
        a, b = raised_when(x.args[1]), raised_when(x.args[2])
        return None if a is None or b is None else t.or_(
            t.and_(x.args[0], a), t.and_(t.not_(x.args[0]), b))
    if x.op in ('map', 'fmap', 'sum', 'prod'):
        vs, body = t.open_fresh(x.args[1])
        n, c = raised_when(x.args[0]), raised_when(body)
        return None if n is not FALSE or c is None else t.anyf(x.args[0], t.lam(vs, c))
    if x.op in ('lit', 'concat', 'as', 'poly', 'ret'):
        cs = [raised_when(y) for y in x.args if isinstance(y, T)]
        return None if None in cs else t.or_(*cs)
    return None


def silent(x):
    """A call that only prints or warns."""
    return x.op == 'call' and x.args[0] in ('builtins:print', 'warnings.warn', 'warnings:warn')


def is_class(x):
    if x.op == 'ite':
        return is_class(x.args[1]) and is_class(x.args[2])
    return x.op in ('clsref', 'typeof')


class Ev:
    def __init__(self, frame):
        self.fr = frame

    # ---- statements
    def block(self, stmts, env):
        """-> (tree, env at FALL leaves or None)"""
        tree = FALL
        for st in stmts:
            t2, env = self.stmt(st, env)
            tree = graft(tree, t2)
            if env is None:
                break
        return tree, env

    def stmt(self, st, env):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (type(st).__name__, st.lineno))
        saved = self.fr.pend
        self.fr.pend = []
        try:
            tree, e2 = m(st, dict(env))
            pend = self.fr.pend
        finally:
            self.fr.pend = saved
        tree, e2, more = hoist_raised(tree, e2, env)
        for cond, exc in reversed(pend + more):
            tree = t.ite(cond, mk('raise', exc), tree)
        return tree, e2

    def s_Pass(self, st, env):
        return FALL, env

    def s_Import(self, st, env):
        env = dict(env)
        for a in st.names:
            env[a.asname or a.name.split('.')[0]] = mk('modref', a.name)
        return FALL, env

    def s_ImportFrom(self, st, env):
        raise Unsupported('local import')

    def s_Global(self, st, env):
        raise Unsupported('global statement')

    def s_Nonlocal(self, st, env):
        raise Unsupported('nonlocal statement')

    def s_Delete(self, st, env):
        return FALL, env

    def s_Assert(self, st, env):
        if self.fr.asserts == 'raise':
            c = t.truth(self.ex(st.test, env))
            return t.ite(c, FALL, mk('raise', const('AssertionError'))), env
        if self.fr.asserts == 'domain':
            c = t.truth(self.ex(st.test, env))
            return t.ite(c, FALL, mk('SKIP')), env
        return FALL, env

    def s_Expr(self, st, env):
        v = st.value
        if isinstance(v, ast.Constant):
            return FALL, env
        if isinstance(v, ast.Yield):
            env = dict(env)
            x = self.ex(v.value, env) if v.value is not None else NONE
            env['__yield__'] = t.concat(env['__yield__'], t.lit(x))
            return FALL, env
        if isinstance(v, ast.YieldFrom):
            env = dict(env)
            x = self.ex(v.value, env)
            env['__yield__'] = t.concat(env['__yield__'], self.as_seq(x))
            return FALL, env
        if isinstance(v, ast.Call):
            if self.fr.spec and isinstance(v.func, ast.Name) and v.func.id == 'assume':
                for a in v.args:
                    self.assume(a, env)
                return FALL, env
            e2 = self.call_stmt(v, env)
            if e2 is not None:
                return FALL, e2
            name = dotted(v.func)
            if name in SKIP_CALLS or name in ('print', 'warnings.warn'):
                return FALL, env
            env = dict(env)
            self.ex(v, env)
            x = self.last_call
            # a call for its effect only
            if x is not None and x.op in ('call', 'vcall', 'apply') and not silent(x):
                env['__eff__'] = t.concat(env['__eff__'], t.lit(x))
            return FALL, env
        if isinstance(v, (ast.Name, ast.Attribute, ast.Compare, ast.BinOp, ast.UnaryOp,
                          ast.Subscript, ast.Tuple, ast.List, ast.JoinedStr, ast.IfExp,
                          ast.BoolOp, ast.Dict, ast.Set, ast.ListComp)):
            return FALL, env
        self.ex(v, env)
        return FALL, env

    last_call = None

    def assume(self, node, env):
        """Record a spec precondition; equalities of lengths become length rewrites."""
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(
                node.ops[0], ast.Eq):
            l, r = node.left, node.comparators[0]
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == 'len' \
                    and isinstance(l.args[0], ast.Name):
                x = self.ex(l.args[0], env)
                if x.op == 'var':
                    t.VARLEN[x] = self.ex(r, env)
                    return
            elif isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == 'len' \
                    and self.fr.stack == ('spec',):
                # the length of an item: of one known position, or (names of comprehensions) all
                x = t.strip(self.ex(l.args[0], env))
                if x.op == 'idx':
                    t.VARLEN[x] = self.ex(r, env)
                    return
            x, y = self.ex(l, env), self.ex(r, env)
            if t.kind(x) == 'bool' and t.kind(y) == 'bool':
                if x.op == 'not':
                    x, y = x.args[0], t.not_(y)
                self.fr.same.append((x, y))
                return
        if isinstance(node, ast.Call) and dotted(node.func) == 'all' and self.fr.stack == (
                'spec',) and isinstance(node.args[0].elt, ast.Compare) and isinstance(
                node.args[0].elt.left, ast.Call):
            # all(len(x[k]) == n(k) for k in ...): the lengths of the items of x
            g = node.args[0]
            k = g.generators[0].target.id
            v = t.fresh('nat')
            e2 = dict(env)
            e2[k] = v
            x = t.strip(self.ex(g.elt.left.args[0], e2))
            if not (x.op == 'idx' and x.args[1] is v):
                raise Unsupported('assumption about all items')
            t.ITEMLEN[x.args[0]] = t.lam([v], self.ex(g.elt.comparators[0], e2))
            return
        self.fr.assumed.append(t.truth(self.ex(node, env)))

    def mutable_target(self, node, env):
        """Root local variable of a mutation target, with an access path, or None."""
        path = []
        while True:
            if isinstance(node, ast.Name):
                return node.id, list(reversed(path))
            if isinstance(node, ast.Subscript) and not isinstance(node.slice, ast.Slice):
                path.append(self.ex(node.slice, env))
                node = node.value
                continue
            return None

    def local_container(self, x):
        s = t.strip(x)
        if s.op == 'fv':
            return s.args[0] in LOCALFV
        if x.op == 'as' and s.op in ('var', 'attr', 'idx', 'call', 'vcall'):
            return True     # list(x): a fresh copy
        if s.op == 'ite':
            return self.local_container(s.args[1]) and self.local_container(s.args[2])
        if s.op == 'idx':
            return self.local_container(s.args[0])
        return s.op in ('lit', 'map', 'fmap', 'concat', 'upd', 'scatter', 'dict', 'iterget',
                        'DC', 'sorted', 'rev')

    def store_path(self, cur, path, f):
        """Functional update of the nested container `cur` at `path` with f(old)."""
        if not path:
            return f(cur)
        i = path[0]
        old = t.idx(cur, i)
        return updf(cur, i, self.store_path(old, path[1:], f))

    MUT = ('append', 'extend', 'insert', 'add', 'update', 'pop', 'sort', 'reverse', 'remove',
           'clear', 'setdefault', 'discard', 'popitem', '__setitem__')

    def call_stmt(self, call, env):
        """x.append(...) and friends on local containers."""
        f = call.func
        if not (isinstance(f, ast.Attribute) and f.attr in self.MUT):
            return None
        tgt = self.mutable_target(f.value, env)
        recv = self.ex(f.value, env)
        args = [self.ex(a, env) for a in call.args]
        kws = {k.arg: self.ex(k.value, env) for k in call.keywords}
        env = dict(env)
        if tgt is not None and tgt[0] in env and tgt[0] in self.fr.aliased and \
                self.local_container(env[tgt[0]]):
            raise Unsupported('update of a container that has two names')
        if tgt is None or tgt[0] not in env or not self.local_container(env[tgt[0]]):
            if cls_of(recv) is not None and f.attr not in ('append', 'extend'):
                return None
            if f.attr == '__setitem__' and len(args) == 2:
                env['__eff__'] = t.concat(env['__eff__'], t.lit(
                    mk('setitem', recv, canon_index(recv, args[0]), args[1])))
                return env
            env['__eff__'] = t.concat(env['__eff__'], t.lit(mk('mut', recv, f.attr, *args)))
            return env
        name, path = tgt

        def g(old):
            a = f.attr
            tag = old.args[0] if old.op == 'as' else None
            if a == 'append' and len(args) == 1:
                r = t.concat(old, t.lit(args[0]))
            elif a == 'extend' and len(args) == 1:
                r = t.concat(old, self.as_seq(args[0]))
            elif a == 'add' and len(args) == 1:
                r = t.concat(old, t.lit(args[0]))
            elif a == 'insert' and len(args) == 2 and args[0] is ZERO:
                r = t.concat(t.lit(args[1]), old)
            elif a == 'sort' and not args and not kws:
                r = sortedf(t.strip(old))
            elif a == 'reverse' and not args:
                r = revf(old)
            elif a == 'clear' and not args:
                r = EMPTY
            elif a == 'update' and len(args) == 1 and not kws and args[0].op == 'dict' and \
                    old.op == 'dict':
                for kv in args[0].args:
                    old = t.dict_set(old, kv.args[0], kv.args[1])
                return old
            elif a == 'update' and not args and kws and old.op == 'dict':
                for k, v in kws.items():
                    old = t.dict_set(old, const(k), v)
                return old
            elif a == '__setitem__' and len(args) == 2:
                return updf(old, args[0], args[1])
            elif a == 'pop' and not args:
                n = t.length(old)
                v = t.fresh('nat')
                r = t.mapf(t.max0(t.sub(n, ONE)), t.lam([v], t.idx(old, v)))
            else:
                raise Unsupported('%s on a local container' % a)
            return t.as_(tag, r) if tag else r
        env[name] = self.store_path(env[name], path, g)
        return env

    def s_Return(self, st, env):
        v = self.ex(st.value, env) if st.value is not None else NONE
        return mk('ret', v, env['__eff__'], env['__yield__']), None

    def s_Raise(self, st, env):
        if st.exc is None:
            return mk('raise', const('reraise')), None
        e = st.exc
        if isinstance(e, ast.Call):
            e = e.func
        name = (dotted(e) or '?').split('.')[-1]
        if isinstance(e, ast.Name) and (e.id in env or PROG.resolve(
                self.fr.module, e.id) is not None and e.id not in PROG.classes):
            return exception_of(self.ex(st.exc, env)), None
        if name not in PROG.classes and not self.fr.spec and not (
                isinstance(getattr(builtins, name, None), type)):
            return exception_of(self.ex(st.exc, env)), None
        return mk('raise', const(name)), None

    def s_Break(self, st, env):
        k = self.snap(env)
        return mk('brk', k), None

    def s_Continue(self, st, env):
        k = self.snap(env)
        return mk('cnt', k), None

    def snap(self, env):
        k = SNAPS[0]
        SNAPS[0] += 1
        self.fr.snaps[k] = env
        return k

    def s_If(self, st, env):
        env = dict(env)
        c = t.truth(self.ex(st.test, env))
        if c is TRUE:
            return self.block(st.body, env)
        if c is FALSE:
            return self.block(st.orelse, env)
        t1, e1 = self.block(st.body, dict(env))
        t2, e2 = self.block(st.orelse, dict(env))
        return t.ite(c, t1, t2), merge(c, e1, e2)

    def s_FunctionDef(self, st, env):
        env = dict(env)
        env[st.name] = self.closure(st.args, st.body, env, st)
        return FALL, env

    def closure(self, args, body, env, node):
        if args.vararg or args.kwarg or args.kwonlyargs:
            return t.opaque('closure', )
        ps = [a.arg for a in args.posonlyargs + args.args]
        nd = len(args.defaults)
        free = ps[:len(ps) - nd] if nd else ps
        e = {k: v for k, v in env.items() if not k.startswith('__') and not k.startswith('@')}
        e['__eff__'] = EMPTY
        e['__yield__'] = EMPTY
        for p, d in zip(ps[len(ps) - nd:], args.defaults):
            e[p] = self.ex(d, env)
        vs = []
        for p in free:
            v = t.fresh('any')
            e[p] = v
            vs.append(v)
        if isinstance(body, list):
            if _has_yield(node):
                return t.opaque('generator closure')
            fr = Frame(self.fr.module, self.fr.cls, self.fr.spec, self.fr.stack)
            fr.owner = getattr(self.fr, 'owner', None)
            fr.multi = 1
            ev = Ev(fr)
            own = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and
                   isinstance(n.ctx, ast.Store)} | set(ps)
            for k in ev.carried_names(body) - own:
                if k.startswith('@') or k in env:
                    raise Unsupported('a nested function updates what it captures')
            if any(isinstance(n, ast.Nonlocal) for b in body for n in ast.walk(b)):
                raise Unsupported('nonlocal')
            tree, e2 = ev.block(body, e)
            tree = graft(tree, mk('ret', NONE, EMPTY, EMPTY))
            val = tree_value(tree)
        else:
            self.fr.multi += 1
            try:
                val = self.ex(body, e)
            finally:
                self.fr.multi -= 1
        if val is None:
            return t.opaque('closure')
        return t.lam(vs, val)

    def s_Assign(self, st, env):
        env = dict(env)
        v = self.ex(st.value, env)
        for tg in st.targets:
            self.assign(tg, v, env, st.value)
        return FALL, env

    def s_AnnAssign(self, st, env):
        if st.value is None:
            return FALL, env
        env = dict(env)
        self.assign(st.target, self.ex(st.value, env), env, st.value)
        return FALL, env

    def assign(self, tg, v, env, src=None):
        if isinstance(tg, ast.Name):
            if src is not None and isinstance(src, ast.Name) and self.local_container(v) and \
                    v.op != 'fv' and v.op == 'as' and v.args[0] in ('list', 'set', 'dict'):
                if id(src) not in self.fr.moves or src.id in self.fr.aliased:
                    self.fr.aliased.add(tg.id)
                    self.fr.aliased.add(src.id)
            env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in tg.elts):
                raise Unsupported('starred assignment')
            for i, x in enumerate(tg.elts):
                self.assign(x, t.idx(v, const(i)), env)
        elif isinstance(tg, ast.Attribute):
            o = self.ex(tg.value, env)
            if isinstance(tg.value, ast.Name) and tg.value.id == 'self':
                env['@' + tg.attr] = v
            else:
                env['__eff__'] = t.concat(env['__eff__'], t.lit(mk('setattr', o, tg.attr, v)))
        elif isinstance(tg, ast.Subscript):
            root = self.mutable_target(tg, env)
            if root is not None and root[0] in env and self.local_container(env[root[0]]):
                if root[0] in self.fr.aliased:
                    raise Unsupported('update of a container that has two names')
                name, path = root
                env[name] = self.store_path(env[name], path, lambda old: v)
            else:
                o = self.ex(tg.value, env)
                i = self.ex(tg.slice, env)
                env['__eff__'] = t.concat(env['__eff__'], t.lit(
                    mk('setitem', o, canon_index(o, i), v)))
        else:
            raise Unsupported('assignment target')

    def s_AugAssign(self, st, env):
        env = dict(env)
        tg = st.target
        load = ast.parse(ast.unparse(tg), mode='eval').body
        old = self.ex(load, env)
        rhs = self.ex(st.value, env)
        if isinstance(st.op, ast.Add) and old.op == 'as' and old.args[0] == 'list':
            v = t.as_('list', t.concat(old, self.as_seq(rhs)))
        else:
            v = self.binop(st.op, old, rhs)
        self.assign(tg, v, env)
        return FALL, env

    def s_Try(self, st, env):
        """The body's result, gated by whether evaluating it raises one of the handled classes."""
        if st.finalbody:
            raise Unsupported('finally')
        base = dict(env)
        tree, e2 = self.block(st.body, dict(env))
        if e2 is not None and (e2['__eff__'] is not env['__eff__'] or
                               e2['__yield__'] is not env['__yield__']):
            raise Unsupported('effects inside a try body')
        if e2 is not None:
            changed = sorted(k for k in e2 if e2[k] is not env.get(k))
            val = [e2[k] for k in changed]
        else:
            val = []
        for l in leaves(tree):
            if l.op in ('brk', 'cnt'):
                sn = self.fr.snaps[l.args[0]]
                val += [sn[k] for k in sorted(sn) if sn[k] is not env.get(k)]
        names = self.carried_names(st.body)
        for k in names:
            if k in base and not k.startswith('__'):
                base[k] = t.opaque('partially executed', base[k])
            elif k not in base:
                base[k] = UNDEF
        vals = [strip_snaps(drop_raises(tree))] + val
        calls = set()
        for x in vals:
            calls |= {y for y in t.find_ops(x, RISKY[:5]) if not y.bvs}
        inner = set()
        for x in calls:
            for y in x.args:
                if isinstance(y, T):
                    inner |= set(t.find_ops(y, RISKY[:5]))
        outer = sorted(calls - inner, key=lambda z: z.dig)
        summary = t.lit(*(outer or sorted(set(vals), key=lambda z: z.dig)))
        risky = set(t.find_ops(summary, RISKY))
        memo = None
        if len(risky) == 1 and next(iter(risky)).op == 'getattr' and \
                next(iter(risky)).args[2] is MEMO_UNSET:
            # nothing but the read of an attribute that may not have been set yet
            memo = t.is_(next(iter(risky)), MEMO_UNSET)
        if st.orelse:
            if e2 is None:
                raise Unsupported('else after a try body that never ends')
            t3, e2 = self.block(st.orelse, e2)
            tree = graft(tree, t3)
        for h in reversed(st.handlers):
            exc = exc_names(h.type)
            he = dict(base)
            ev = mk('excval', exc, summary)
            if h.name:
                he[h.name] = ev
            saved = getattr(self.fr, 'exc', None)
            self.fr.exc = ev
            th, eh = self.block(h.body, he)
            self.fr.exc = saved
            if has_leaf(tree, 'raise'):
                if any(catches(exc, l.args[0]) is None for l in leaves(tree) if l.op == 'raise'):
                    raise Unsupported('handler of an unknown exception')
                caught = where_raised(tree, exc)
                if caught is not FALSE:
                    tree = replace_raise(tree, exc, th)
                    e2 = merge(caught, eh, e2)
            if risky:
                c = mk('raises', exc, summary)
                if memo is not None:
                    c = memo if 'AttributeError' in exc or exc in (
                        'Exception', 'BaseException') else FALSE
                tree = t.ite(c, th, tree)
                e2 = merge(c, eh, e2)
        return tree, e2

    def s_With(self, st, env):
        raise Unsupported('with statement')

    # ---- loops
    def s_For(self, st, env):
        env = dict(env)
        it = self.ex(st.iter, env)
        s = self.as_seq(it)
        return self.for_seq(s, st.target, st.body, st.orelse, env)

    def for_seq(self, s, target, body, orelse, env):
        s = t.strip(s)
        if s.op == 'concat' and False:
            pass
        if s.op == 'lit' and len(s.args) <= 4:
            return self.unrolled(list(s.args), target, body, orelse, env)
        if s.op == 'fmap':
            # iterate the producer, guarding the body by the filter
            l = s.args[1]
            vs, b = t.open_fresh(l)
            if b.op == 'ite' and (b.args[1] is EMPTY or b.args[2] is EMPTY):
                n = s.args[0]
                full = b.args[2] if b.args[1] is EMPTY else b.args[1]
                cond = b.args[0] if b.args[2] is EMPTY else t.not_(b.args[0])
                if full.op == 'lit' and len(full.args) == 1:
                    return self.loop(n, vs[0], full.args[0], target, body, orelse, env, cond)
        n, f = t.seqview(s)
        v = t.fresh('nat')
        return self.loop(n, v, f(v), target, body, orelse, env)

    def unrolled(self, items, target, body, orelse, env):
        tree = FALL
        brk_tree = []
        for x in items:
            e = dict(env)
            self.assign(target, x, e)
            t2, e2 = self.block(body, e)
            if has_leaf(t2, 'brk'):
                # treat as a generic loop instead
                s = t.lit(*items)
                v = t.fresh('nat')
                n = const(len(items))
                return self.loop(n, v, mk('idx', s, v), target, body, orelse, env)
            if has_leaf(t2, 'cnt'):
                e2 = self.next_env(t2, e2)
                t2 = drop_cnt(t2)
            tree = graft(tree, t2)
            if e2 is None:
                return tree, None
            env = e2
        if orelse:
            t2, env = self.block(orelse, env)
            tree = graft(tree, t2)
        return tree, env

    def next_env(self, tree, env):
        keys = set(env or ())
        for leaf in leaves(tree):
            if leaf.op == 'cnt':
                keys |= set(self.fr.snaps[leaf.args[0]])

        @t.memo
        def val(tr, k):
            if tr.op == 'ite':
                return t.ite(tr.args[0], val(tr.args[1], k), val(tr.args[2], k))
            if tr is FALL:
                return env.get(k, DC)
            if tr.op == 'cnt':
                return self.fr.snaps[tr.args[0]].get(k, DC)
            return DC
        out = {k: val(tree, k) for k in keys}
        return out

    def brk_env(self, tree):
        keys = set()
        for leaf in leaves(tree):
            if leaf.op == 'brk':
                keys |= set(self.fr.snaps[leaf.args[0]])

        @t.memo
        def val(tr, k):
            if tr.op == 'ite':
                return t.ite(tr.args[0], val(tr.args[1], k), val(tr.args[2], k))
            if tr.op == 'brk':
                return self.fr.snaps[tr.args[0]].get(k, DC)
            return DC
        return {k: val(tree, k) for k in keys}

    def carried_names(self, body, target=None):
        names = set()
        for n in ([target] if target is not None else []) + list(body):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                        x.func.attr in self.MUT:
                    r = x.func.value
                    while isinstance(r, (ast.Subscript, ast.Attribute)):
                        r = r.value
                    if isinstance(r, ast.Name):
                        names.add(r.id)
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                    r = x.value
                    while isinstance(r, (ast.Subscript, ast.Attribute)):
                        r = r.value
                    if isinstance(r, ast.Name):
                        names.add(r.id)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and \
                        isinstance(x.value, ast.Name) and x.value.id == 'self':
                    names.add('@' + x.attr)
                elif isinstance(x, ast.FunctionDef):
                    names.add(x.name)
                if isinstance(x, ast.Call) and self.may_update_arguments(x.func):
                    names |= {a.id for a in x.args if isinstance(a, ast.Name)}
        return names

    def may_update_arguments(self, f):
        if isinstance(f, ast.Name):
            r = PROG.resolve(self.fr.module, f.id)
            fns = [PROG.funcs[r[1]]] if r and r[0] == 'func' and r[1] in PROG.funcs else []
        elif isinstance(f, ast.Attribute):
            fns = PROG.definers(f.attr)
        else:
            fns = []
        return any(mutated_params(fn) for fn in fns)

    def placeholders(self, names, env):
        ph = {}
        for k in sorted(names | {'__eff__', '__yield__'}):
            init = env.get(k, UNDEF)
            if init.op == 'undef':
                p = t.fresh('any')
            elif k in ('__eff__', '__yield__'):
                p = t.fresh(('seq', 'any'))
            else:
                kd = t.kind(init)
                if kd == 'nat':
                    kd = 'int'
                if t.is_seq(kd):
                    kd = ('seq', 'any' if not t.is_int(kd[1]) or True else 'int')
                p = t.fresh(kd)
                if self.local_container(init):
                    LOCALFV.add(p.args[0])
            ph[k] = (p, init)
        return ph

    def loop(self, n, v, item, target, body, orelse, env, guard=TRUE, while_cond=None):
        if n is ZERO:
            if orelse:
                return self.block(orelse, env)
            return FALL, env
        names = self.carried_names(body, target)
        if not isinstance(target, ast.AST):
            pass
        ph = self.placeholders(names, env)
        e = dict(env)
        for k, (p, init) in ph.items():
            if init.op == 'undef':
                e.pop(k, None)
                continue
            e[k] = t.as_(init.args[0], p) if init.op == 'as' else p
        if target is not None:
            self.assign(target, item, e)
        tree, e2 = self.block(body, e)
        if guard is not TRUE:
            # filtered iteration: the body runs only where guard holds
            keep = {k: (t.as_(i.args[0], p) if i.op == 'as' else p)
                    for k, (p, i) in ph.items() if i.op != 'undef'}
            base = dict(env)
            base.update(keep)
            if e2 is not None:
                e2 = merge(guard, e2, base)
            else:
                e2 = base
            tree = t.ite(guard, tree, FALL)
        nxt_env = self.next_env(tree, e2)
        exits = [x for x in leaves(tree) if x.op in ('brk', 'ret', 'raise')]
        nxt = {}
        for k, (p, init) in ph.items():
            x = nxt_env.get(k, DC)
            nxt[k] = x
        closed = close_loop(n, v, {k: (ph[k][0], ph[k][1], nxt[k]) for k in ph})

        def at(x, point):
            """term x of the loop body (over placeholders and v) at iteration `point`"""
            m = {}
            for k in ph:
                if ph[k][0].args[0] in x.fvs:
                    m[ph[k][0]] = closed[k](point)
            x = t.subst(x, m)
            if point is not v:
                x = t.subst(x, {v: point})
            return x
        out = dict(env)
        for k in ph:
            val = closed[k](n)
            if val.op == 'undef' and k not in env:
                continue
            out[k] = val
        if not exits:
            if orelse:
                return self.block(orelse, out)
            return FALL, out
        # first exit
        cond = exit_cond(tree)
        cond_v = at(cond, v)
        if v.args[0] in cond_v.fvs or True:
            anyc = t.anyf(n, t.lam([v], cond_v))
            k0 = t.firstidxf(n, t.lam([v], cond_v))
        if anyc is FALSE:
            if orelse:
                return self.block(orelse, out)
            return FALL, out
        only_exit = keep_exits(tree)
        benv = self.brk_env(tree)
        # values at the exit
        ex_tree = at(only_exit, k0) if has_leaf(only_exit, 'ret', 'raise') or True else only_exit
        ex_tree = simplify_exit(ex_tree, cond_v, v, k0)
        b_out = dict(env)
        for k in set(benv) | set(ph):
            if k in benv:
                x = benv[k]
                if x.op == 'DC':
                    continue
                b_out[k] = at(x, k0)
        t_else, e_else = (FALL, out)
        if orelse:
            t_else, e_else = self.block(orelse, out)
        # brk leaves fall through
        if has_leaf(ex_tree, 'brk'):
            ex_fall = brk_to_fall(ex_tree)
            eb = b_out
        else:
            ex_fall = ex_tree
            eb = None
        res = t.ite(anyc, ex_fall, t_else)
        return res, merge(anyc, eb, e_else)

    def s_While(self, st, env):
        env = dict(env)
        names = self.carried_names(st.body)
        ph = self.placeholders(names, env)
        e = dict(env)
        for k, (p, init) in ph.items():
            if init.op == 'undef':
                e.pop(k, None)
                continue
            e[k] = t.as_(init.args[0], p) if init.op == 'as' else p
        cond = t.truth(self.ex(st.test, e))
        if cond is FALSE:
            return self.block(st.orelse, env) if st.orelse else (FALL, env)
        tree, e2 = self.block(st.body, e)
        # counted loop:  cond is  i + c <= N-ish  with i' = i + 1
        cnt = self.counted(cond, ph, tree, e2)
        if cnt is not None:
            i, n, up = cnt
            v = t.fresh('nat')
            return self.loop(n, v, None, None, st.body, st.orelse, env)
        # general: an opaque-but-canonical loop node
        keys = [k for k in ph if ph[k][1].op != 'undef']
        nxt_env = self.next_env(tree, e2) if (e2 is not None or has_leaf(tree, 'cnt')) else {}
        phs = [ph[k][0] for k in keys]
        order = sorted(keys, key=lambda k: ('__' in k, k))
        phs = [ph[k][0] for k in order]
        benv = self.brk_env(tree)
        nxt = t.lit(*[nxt_env.get(k, DC) for k in order])
        only2 = exits_of(tree)
        # loop-invariant components are their initial values
        inv = {ph[k][0]: strip_as(ph[k][1]) for i, k in enumerate(order)
               if nxt.args[i] is ph[k][0]}
        if inv:
            cond, nxt, only2 = (t.subst(x, inv) for x in (cond, nxt, only2))
        def build(seed=None, also=frozenset()):
            """The loop restricted to the components its exits (and `seed`) depend on."""
            live = {i for i, k in enumerate(order) if ph[k][0] not in inv and (
                ph[k][0].args[0] in cond.fvs or ph[k][0].args[0] in only2.fvs or k == seed
                or ph[k][0].args[0] in also)}
            grown = True
            while grown:
                grown = False
                for i in list(live):
                    for j, k in enumerate(order):
                        if j not in live and ph[k][0] not in inv and \
                                ph[k][0].args[0] in nxt.args[i].fvs:
                            live.add(j)
                            grown = True
            keep = sorted(live, key=lambda i: (strip_as(ph[order[i]][1]).dig, order[i]))
            names = [order[i] for i in keep]
            ps = [ph[k][0] for k in names]
            return mk('wloop', t.lit(*[strip_as(ph[k][1]) for k in names]), t.lam(ps, cond),
                      t.lam(ps, strip_snaps(t.lit(*[nxt.args[i] for i in keep]))),
                      t.lam(ps, only2)), names
        w = build()[0]
        out = dict(env)
        for k in ph:
            if ph[k][1].op == 'undef':
                if k in nxt_env:
                    x = strip_snaps(t.strip(t.subst(nxt_env[k], inv)))
                    wk, names = build(None, x.fvs)
                    out[k] = mk('wlast', wk, t.lam([ph[n][0] for n in names], x))
            elif ph[k][0] in inv:
                out[k] = ph[k][1]
            else:
                wk, names = build(k)
                out[k] = mk('wget', wk, str(names.index(k)))
        exits = [x for x in leaves(tree) if x.op in ('brk', 'ret', 'raise')]
        done = mk('wexit', w)
        t_else, e_else = FALL, out
        if st.orelse:
            t_else, e_else = self.block(st.orelse, out)
        if not exits:
            return t_else, e_else
        if has_leaf(tree, 'brk'):
            return t.ite(done, mk('ret', mk('wret', w), EMPTY, EMPTY) if has_leaf(tree, 'ret')
                         else FALL, t_else), merge(done, out, e_else)
        return t.ite(done, mk('ret', mk('wret', w), EMPTY, EMPTY), t_else), e_else

    def counted(self, cond, ph, tree, e2):
        if e2 is None and not has_leaf(tree, 'cnt'):
            return None
        nxt = self.next_env(tree, e2)
        cands = []
        parts = [cond]
        for k, (p, init) in ph.items():
            if init.op == 'undef' or k.startswith('__'):
                continue
            d = t.sub(nxt.get(k, DC), p) if nxt.get(k, DC).op != 'DC' else None
            if d is None or not t.is_int_const(d) or t.cval(d) not in (1, -1):
                continue
            step = t.cval(d)
            if cond.op == 'le0':
                pd = t.to_poly(cond.args[0])
                c = pd.get((p,), 0)
                if c != step:
                    continue
                rest = t.from_poly({m: x for m, x in pd.items() if m != (p,)})
                if any(q.args[0] in rest.fvs for q, _ in ph.values()):
                    # bound varies
                    inv = True
                    for kk, (q, ini) in ph.items():
                        if q.args[0] in rest.fvs and nxt.get(kk) is not q:
                            inv = False
                    if not inv:
                        continue
                    rest = t.subst(rest, {q: ini for q, ini in ph.values()
                                          if q.args[0] in rest.fvs})
                # step*i + rest <= 0 holds while i = i0 + step*v : v <= -(rest) - step*i0
                n = t.max0(t.add(t.sub(t.neg(rest), t.mul(const(step), init)), ONE))
                return k, n, step
            if cond.op == 'not' and cond.args[0].op == 'eq0' and False:
                pass
        return None

    # ---- expressions
    def ex(self, node, env):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (type(node).__name__,
                                                            getattr(node, 'lineno', '?')))
        return m(node, env)

    def e_Constant(self, n, env):
        if n.value is Ellipsis or isinstance(n.value, (float, complex, bytes)):
            return const(n.value if isinstance(n.value, float) else repr(n.value))
        return const(n.value)

    def e_Name(self, n, env):
        if n.id in env:
            x = env[n.id]
            if x.op == 'undef':
                raise Unsupported('unbound %s' % n.id)
            return x
        return self.global_name(n.id)

    def global_name(self, name):
        if self.fr.spec and name in POLICY.helpers:
            return mk('spechelper', name)
        r = PROG.resolve(self.fr.module, name)
        if r is None and self.fr.spec and name in ('math', 'itertools', 'functools', 'os', 're',
                                                   'sys'):
            return mk('modref', name)
        return self.entry(r, self.fr.module, name)

    def entry(self, r, module, name):
        if r is None:
            return mk('builtin', name)
        if r[0] == 'func':
            return mk('funcref', r[1])
        if r[0] == 'class':
            return mk('clsref', r[1])
        if r[0] == 'mod':
            return mk('modref', r[1])
        if r[0] == 'ext':
            return mk('modattr', r[1], r[2])
        if r[0] == 'expr':
            e, mod = r[1], r[2]
            if isinstance(e, ast.Constant):
                return const(e.value)
            if isinstance(e, (ast.Tuple,)):
                fr = Frame(mod)
                fr.aliased = set()
                return Ev(fr).ex(e, {'__eff__': EMPTY, '__yield__': EMPTY})
            if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant):
                return const(ast.literal_eval(e))
            if isinstance(e, ast.Lambda):
                fr = Frame(mod)
                fr.aliased = set()
                return Ev(fr).ex(e, {'__eff__': EMPTY, '__yield__': EMPTY})
            return mk('global', mod + ':' + name)
        return mk('global', module + ':' + name)

    def e_Tuple(self, n, env):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return t.as_('tuple', self.star_seq(n.elts, env))
        return t.as_('tuple', t.lit(*[self.ex(x, env) for x in n.elts]))

    def star_seq(self, elts, env):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(self.as_seq(self.ex(x.value, env)))
            else:
                parts.append(t.lit(self.ex(x, env)))
        return t.concat(*parts)

    def e_List(self, n, env):
        return t.as_('list', self.star_seq(n.elts, env))

    def e_Set(self, n, env):
        return t.as_('set', self.star_seq(n.elts, env))

    def e_Dict(self, n, env):
        d = mk('dict')
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ex(v, env)
                if x.op != 'dict':
                    raise Unsupported('dict unpacking')
                for kv in x.args:
                    d = t.dict_set(d, kv.args[0], kv.args[1])
            else:
                d = t.dict_set(d, self.ex(k, env), self.ex(v, env))
        return d

    def e_Lambda(self, n, env):
        return self.closure(n.args, n.body, env, n)

    def e_IfExp(self, n, env):
        c = t.truth(self.ex(n.test, env))
        if c is TRUE:
            return self.ex(n.body, env)
        if c is FALSE:
            return self.ex(n.orelse, env)
        return t.ite(c, self.guarded(c, n.body, env), self.guarded(t.not_(c), n.orelse, env))

    def guarded(self, c, node, env):
        self.fr.guards.append(c)
        try:
            return self.ex(node, env)
        finally:
            self.fr.guards.pop()

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        vals = []
        ng = len(self.fr.guards)
        for x in n.values:
            v = self.ex(x, env)
            vals.append(v)
            c = t.truth(v)
            if (c is FALSE and isand) or (c is TRUE and not isand):
                break
            self.fr.guards.append(c if isand else t.not_(c))
        del self.fr.guards[ng:]
        if all(t.kind(v) == 'bool' for v in vals[:-1]) and t.kind(vals[-1]) in ('bool', 'any'):
            if t.kind(vals[-1]) == 'bool':
                return t.and_(*vals) if isand else t.or_(*vals)
        r = vals[-1]
        for v in reversed(vals[:-1]):
            c = t.truth(v)
            r = t.ite(c, r, v) if isand else t.ite(c, v, r)
        return r

    def e_UnaryOp(self, n, env):
        v = self.ex(n.operand, env)
        if isinstance(n.op, ast.Not):
            return t.not_(t.truth(v))
        if isinstance(n.op, ast.USub):
            return lift1(t.neg, v)
        if isinstance(n.op, ast.UAdd):
            return v
        return lift1(lambda a: t.sub(t.neg(a), ONE), v)

    def e_BinOp(self, n, env):
        a, b = self.ex(n.left, env), self.ex(n.right, env)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        if a.op == 'DC' or b.op == 'DC':
            return DC
        # keep literal/sequence structure visible through gates
        ka, kb = t.kind(a), t.kind(b)
        if a.op == 'ite' and mixed(a):
            return t.ite(a.args[0], self.binop(op, a.args[1], b), self.binop(op, a.args[2], b))
        if b.op == 'ite' and mixed(b):
            return t.ite(b.args[0], self.binop(op, a, b.args[1]), self.binop(op, a, b.args[2]))
        if isinstance(op, ast.Add):
            if t.is_seq(ka) or t.is_seq(kb):
                tag = next((x.args[0] for x in (a, b) if x.op == 'as'), None)
                if tag is None:
                    tag = 'tuple'
                return t.as_(tag, t.concat(self.as_seq(a), self.as_seq(b)))
            if ka == 'str' or kb == 'str':
                return strcat(a, b)
            return t.add(a, b)
        if isinstance(op, ast.Sub):
            if a.op == 'as' and a.args[0] == 'set':
                return mk('setdiff', a, b)
            return t.sub(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if t.is_seq(t.kind(x)) and not t.is_seq(t.kind(y)):
                    return t.as_(x.args[0] if x.op == 'as' else 'list', repseq(x, y))
                if t.kind(x) == 'str':
                    return mk('strrep', x, y)
            return t.mul(a, b)
        if isinstance(op, ast.FloorDiv):
            return t.fdiv(a, b)
        if isinstance(op, ast.Mod):
            if ka == 'str':
                return self.percent(a, b)
            return t.mod(a, b)
        if isinstance(op, ast.Pow):
            if t.is_int_const(b) and 0 <= t.cval(b) <= 4:
                r = ONE
                for _ in range(t.cval(b)):
                    r = t.mul(r, a)
                return r
        return mk('binop', type(op).__name__, a, b)

    def percent(self, f, args):
        if f.op != 'const':
            return mk('binop', 'Mod', f, args)
        s = t.cval(f)
        if args.op == 'as' and args.args[1].op == 'lit':
            items = list(args.args[1].args)
        else:
            items = [args]
        out = []
        i = 0
        buf = ''
        while i < len(s):
            c = s[i]
            if c == '%':
                i += 1
                if i >= len(s):
                    break
                if s[i] == '%':
                    buf += '%'
                elif s[i] in 'sdrix':
                    out.append(const(buf))
                    buf = ''
                    if not items:
                        return mk('binop', 'Mod', f, args)
                    out.append(fmtf(s[i], items.pop(0)))
                else:
                    return mk('binop', 'Mod', f, args)
            else:
                buf += c
            i += 1
        out.append(const(buf))
        if items:
            return mk('binop', 'Mod', f, args)
        return strcat(*out)

    def e_JoinedStr(self, n, env):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(const(v.value))
            else:
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(x.value for x in v.format_spec.values
                                   if isinstance(x, ast.Constant))
                if v.conversion == ord('r'):
                    spec = 'r'
                out.append(fmtf(spec, self.ex(v.value, env)))
        return strcat(*out)

    def e_Compare(self, n, env):
        left = self.ex(n.left, env)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ex(r, env)
            res.append(self.compare(op, left, right))
            left = right
        return t.and_(*res)

    def compare(self, op, a, b):
        if a.op == 'DC' or b.op == 'DC':
            return DC
        if isinstance(op, ast.Eq):
            return eqf(a, b)
        if isinstance(op, ast.NotEq):
            return t.not_(eqf(a, b))
        if isinstance(op, ast.Is):
            return t.is_(a, b)
        if isinstance(op, ast.IsNot):
            return t.not_(t.is_(a, b))
        if isinstance(op, ast.In):
            return self.in_(a, b)
        if isinstance(op, ast.NotIn):
            return t.not_(self.in_(a, b))
        if a.op == 'ite' and mixed(a):
            return t.ite(a.args[0], self.compare(op, a.args[1], b),
                         self.compare(op, a.args[2], b))
        if b.op == 'ite' and mixed(b):
            return t.ite(b.args[0], self.compare(op, a, b.args[1]),
                         self.compare(op, a, b.args[2]))
        seqs = t.is_seq(t.kind(a)) or t.is_seq(t.kind(b))
        strs = t.kind(a) == 'str' or t.kind(b) == 'str'
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b = b, a
            op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
        if any(x.op == 'as' and x.args[0] == 'set' for x in (a, b)):
            return t.truth(mk('binop', type(op).__name__ + ' of sets', a, b))
        if seqs or strs:
            if isinstance(op, ast.Lt):
                return lexlt(a, b)
            return t.not_(lexlt(b, a))
        return t.lt(a, b) if isinstance(op, ast.Lt) else t.le(a, b)

    def in_(self, x, s):
        if s.op == 'dict':
            return t.or_(*[eqf(x, kv.args[0]) for kv in s.args])
        if t.kind(s) == 'str' or x.op == 'const' and x.args[0] == 'str':
            return mk('in', x, s)
        return t.in_(x, s)

    def e_Starred(self, n, env):
        raise Unsupported('starred')

    def e_NamedExpr(self, n, env):
        v = self.ex(n.value, env)
        env[n.target.id] = v
        return v

    def e_Attribute(self, n, env):
        if isinstance(n.value, ast.Name) and n.value.id == 'self' and '@' + n.attr in env:
            return env['@' + n.attr]
        o = self.ex(n.value, env)
        own = getattr(self.fr, 'owner', None)
        if n.attr == '_strides' and own is not None and own.name == 'strides' and own.cls:
            return mk('getattr', o, n.attr, MEMO_UNSET)
        return self.getattr(o, n.attr)

    def getattr(self, o, name):
        if o.op == 'modref':
            m = o.args[0]
            if m in PROG.modules:
                return self.entry(PROG.resolve(m, name), m, name)
            if (m + '.' + name) in PROG.modules:
                return mk('modref', m + '.' + name)
            if m == 'sys' and name == 'version_info':
                import sys
                return t.as_('tuple', t.lit(*[const(x) for x in sys.version_info[:3]]))
            return mk('modattr', m, name)
        if o.op == 'clsref':
            c = o.args[0]
            f = PROG.lookup_method(c, name)
            if f is not None:
                if 'classmethod' in f.deco:
                    return mk('clsmeth', c, name)
                return mk('unbound', c, name)
            if name in ('__name__',):
                return const(c)
            for k in PROG.mro(c):
                if name in PROG.classes[k].attrs:
                    fr = Frame(PROG.classes[k].module)
                    fr.aliased = set()
                    return Ev(fr).ex(PROG.classes[k].attrs[name],
                                     {'__eff__': EMPTY, '__yield__': EMPTY})
            return mk('attr', o, name)
        c = cls_of(o)
        if o.op in ('super',):
            return mk('bound', o, name)
        # methods
        if c is not None:
            f = PROG.lookup_method(c, name)
            if f is not None:
                if 'property' in f.deco:
                    if name in POLICY.props:
                        return attrf(o, name)
                    return self.inline_property(f, o)
                return mk('bound', o, name)
            for k in PROG.mro(c):
                if name in PROG.classes[k].attrs:
                    fr = Frame(PROG.classes[k].module)
                    fr.aliased = set()
                    return Ev(fr).ex(PROG.classes[k].attrs[name],
                                     {'__eff__': EMPTY, '__yield__': EMPTY})
            return attrf(o, name)
        if name in METHOD_NAMES or name in POLICY.methods:
            return mk('bound', o, name)
        ds = PROG.definers(name)
        if ds:
            if all('property' in f.deco for f in ds):
                if name in POLICY.props:
                    return attrf(o, name)
                if len(ds) == 1:
                    return self.inline_property(ds[0], o)
                return attrf(o, name)
            return mk('bound', o, name)
        return attrf(o, name)

    def own_exception(self):
        """What sys.exc_info() gives inside a handler."""
        e = getattr(self.fr, 'exc', None)
        return None if e is None else t.as_('tuple', t.lit(typef(e), e, t.opaque('traceback')))

    def inline_property(self, f, o):
        if f.qual in self.fr.stack or len(self.fr.stack) > MAXDEPTH:
            return attrf(o, f.name)
        r = call_function(f, [o], {}, self.fr)
        return r

    def e_Subscript(self, n, env):
        o = self.ex(n.value, env)
        if isinstance(n.slice, ast.Slice):
            a = self.ex(n.slice.lower, env) if n.slice.lower is not None else NONE
            b = self.ex(n.slice.upper, env) if n.slice.upper is not None else NONE
            c = self.ex(n.slice.step, env) if n.slice.step is not None else NONE
            return sliced(o, a, b, c)
        i = self.ex(n.slice, env)
        return index(o, i)

    # ---- comprehension
    def comp(self, gens, env, elt):
        """-> sequence term"""
        if not gens:
            return t.lit(elt(env))
        g = gens[0]
        it = self.as_seq(self.ex(g.iter, env))
        return self.comp_over(it, g, gens, env, elt)

    def comp_over(self, it, g, gens, env, elt):
        it = t.strip(it)
        if it.op == 'concat':
            return t.concat(*[self.comp_over(x, g, gens, env, elt) for x in it.args])
        if it.op == 'ite':
            return t.ite(it.args[0], self.comp_over(it.args[1], g, gens, env, elt),
                         self.comp_over(it.args[2], g, gens, env, elt))
        if it.op == 'fmap':
            vs, b = t.open_fresh(it.args[1])
            return t.fmapf(it.args[0], t.lam(vs, self.comp_over(b, g, gens, env, elt)))

        def one(x):
            e = dict(env)
            self.assign(g.target, x, e)
            self.fr.multi += 1
            try:
                cond = t.and_(*[t.truth(self.ex(c, e)) for c in g.ifs]) if g.ifs else TRUE
                inner = self.comp(gens[1:], e, elt)
            finally:
                self.fr.multi -= 1
            return t.ite(cond, inner, EMPTY)
        if it.op == 'lit':
            return t.concat(*[one(x) for x in it.args])
        n, f = t.seqview(it)
        v = t.fresh('nat')
        return t.fmapf(n, t.lam([v], one(f(v))))

    def e_ListComp(self, n, env):
        return t.as_('list', self.comp(n.generators, env, lambda e: self.ex(n.elt, e)))

    def e_GeneratorExp(self, n, env):
        return t.as_('iter', self.comp(n.generators, env, lambda e: self.ex(n.elt, e)))

    def e_SetComp(self, n, env):
        return t.as_('set', self.comp(n.generators, env, lambda e: self.ex(n.elt, e)))

    def e_DictComp(self, n, env):
        s = self.comp(n.generators, env, lambda e: t.as_('tuple', t.lit(
            self.ex(n.key, e), self.ex(n.value, e))))
        return scatterf(mk('dict'), strip_pairs(s))

    def as_seq(self, x):
        return as_seq(x, self)

    # ---- calls
    def e_Call(self, n, env):
        self.last_call = None
        if self.fr.spec and isinstance(n.func, ast.Name) and n.func.id == 'ANY':
            return t.opaque('any')
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and n.func.id not in env:
            return mk('super', env.get('self', NONE), self.fr.cls or '?')
        # pure-expression uses of mutators
        f = self.ex(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(('*', self.ex(a.value, env)))
            else:
                args.append(self.ex(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw[None] = self.ex(k.value, env)
            else:
                kw[k.arg] = self.ex(k.value, env)
        if f.op == 'bound' and f.args[1] in self.MUT and isinstance(n.func, ast.Attribute):
            if f.args[1] == 'pop' and self.mutable_target(n.func.value, env) is not None:
                raise Unsupported('pop in an expression')
        # flatten known star arguments
        flat = []
        for a in args:
            if isinstance(a, tuple):
                s = t.strip(self.as_seq(a[1]))
                n_items = t.length(s)
                if s.op == 'lit':
                    flat.extend(s.args)
                elif t.is_int_const(n_items) and 0 <= t.cval(n_items) < 9:
                    flat.extend(t.idx(s, const(i)) for i in range(t.cval(n_items)))
                else:
                    flat.append(a)
            else:
                flat.append(a)
        self.fr.call_env, self.fr.call_nodes = env, n.args
        r = self.apply_kw(f, flat, kw, env)
        self.fr.call_env, self.fr.call_nodes = None, ()
        self.last_call = r
        return r

    def apply_kw(self, f, args, kw, env):
        """Keyword arguments given as a dictionary that is built piecewise."""
        if None not in kw:
            return self.apply(f, args, kw, env)
        kw = dict(kw)
        d = kw.pop(None)
        if d.op == 'ite':
            return t.ite(d.args[0], self.apply_kw(f, args, {**kw, None: d.args[1]}, env),
                         self.apply_kw(f, args, {**kw, None: d.args[2]}, env))
        if d.op != 'dict' or any(kv.args[0].op != 'const' for kv in d.args):
            raise Unsupported('** argument')
        for kv in d.args:
            kw[t.cval(kv.args[0])] = kv.args[1]
        return self.apply(f, args, kw, env)

    def apply(self, f, args, kw, env=None):
        if f.op == 'ite':
            return t.ite(f.args[0], self.apply(f.args[1], args, kw, env),
                         self.apply(f.args[2], args, kw, env))
        if f.op == 'DC':
            return DC
        if f.op == 'idx' and dispatch_table(f.args[0]):
            return self.dispatch(f.args[0].args, f.args[1], args, kw, env)
        if f.op == 'builtin':
            self.fr.multi += 1
            try:
                return self.builtin(f.args[0], args, kw)
            finally:
                self.fr.multi -= 1
        if f.op == 'modattr':
            self.fr.multi += 1
            try:
                return self.extcall(f.args[0], f.args[1], args, kw)
            finally:
                self.fr.multi -= 1
        if f.op == 'spechelper':
            node, mod = POLICY.helpers[f.args[0]]
            fn = Func(mod, None, node, [], spec=True)
            return call_function(fn, args, kw, self.fr, spec=True, module=self.fr.module)
        if f.op == 'funcref':
            return self.call_named(f.args[0], args, kw)
        if f.op == 'clsmeth':
            c, m = f.args
            fn = PROG.lookup_method(c, m)
            return self.call_cls(c, m, fn, args, kw)
        if f.op == 'unbound':
            c, m = f.args
            fn = PROG.lookup_method(c, m)
            if 'staticmethod' in fn.deco:
                return call_function(fn, args, kw, self.fr)
            return self.method(args[0], m, args[1:], kw, cls=c)
        if f.op == 'clsref':
            return self.construct(f.args[0], args, kw)
        if f.op == 'typeof':
            if any(isinstance(a, tuple) for a in args):
                s = self.star(args)
                return mk('newdyn', f, mk('star', s))
            return mk('newdyn', f, *args)
        if f.op == 'bound':
            return self.method(f.args[0], f.args[1], args, kw)
        if f.op == 'lam' and not kw and not any(isinstance(a, tuple) for a in args):
            return applyf(f, *args)
        if f.op == 'attr' and f.args[1] == 'indices' and len(args) == 1 and not kw and \
                cls_of(f.args[0]) is None:
            return slice_indices(f.args[0], args[0])
        if any(isinstance(a, tuple) for a in args):
            return mk('apply', f, mk('star', self.star(args)))
        return applyf(f, *args, *[mk('kw', k, v) for k, v in sorted(kw.items())])

    def dispatch(self, entries, key, args, kw, env):
        """A call of the function a table has for a key."""
        fr = self.fr
        cenv, cnodes = fr.call_env, fr.call_nodes
        conds = [t.eq(key, kv.args[0]) for kv in entries]
        if cenv is not None and not fr.multi:
            fr.pend.append((t.and_(*fr.guards, t.not_(t.or_(*conds))), const('KeyError')))
        out = None
        for c, kv in reversed(list(zip(conds, entries))):
            fr.guards.append(c)
            fr.call_env, fr.call_nodes = cenv, cnodes
            try:
                r = self.apply(kv.args[1], args, kw, env)
            finally:
                fr.guards.pop()
            out = r if out is None else t.ite(c, r, out)
        return out

    def star(self, args):
        return t.concat(*[self.as_seq(a[1]) if isinstance(a, tuple) else t.lit(a)
                          for a in args])

    def construct(self, cname, args, kw):
        cls = PROG.classes[cname]
        init = PROG.lookup_method(cname, '__init__')
        if any(isinstance(a, tuple) for a in args):
            return mk('new', cname, mk('star', self.star(args)))
        if init is None:
            return mk('new', cname, *args)
        bound = bind(init.node.args, [NONE] + args, kw, self.fr, init)
        if bound is None:
            return mk('new', cname, *args)
        ps = [a.arg for a in init.node.args.args][1:]
        return mk('new', cname, *[bound[p] for p in ps])

    def call_named(self, q, args, kw):
        sp = POLICY.specs.get(q)
        fn = PROG.funcs.get(q)
        if any(isinstance(a, tuple) for a in args):
            return rebuild_call(q, mk('star', self.star(args)))
        if sp is not None:
            if q in self.fr.stack and sp.mode == 'inline' and sp.opts.get('norec'):
                pass
            if sp.mode == 'inline' and not self.fr.multi >= 99:
                f2 = Func(sp.module, None, sp.node, [], spec=True)
                return call_function(f2, args, kw, self.fr, spec=True, module=sp.module)
            # atomic: positional order of the spec's signature
            b = bind(sp.node.args, args, kw, Frame(sp.module, spec=True), None)
            if b is None and fn is not None:
                b = bind(fn.node.args, args, kw, Frame(fn.module), None)
                if b is None:
                    return rebuild_call(q, *args)
                return rebuild_call(q, *[b[a.arg] for a in fn.node.args.args])
            if b is None:
                return rebuild_call(q, *args)
            return rebuild_call(q, *[b[a.arg] for a in sp.node.args.args])
        if fn is None:
            return rebuild_call(q, *args)
        if q in self.fr.stack or len(self.fr.stack) > MAXDEPTH:
            b = bind(fn.node.args, args, kw, Frame(fn.module), None)
            if b is None:
                return rebuild_call(q, *args)
            return rebuild_call(q, *[b[a.arg] for a in fn.node.args.args])
        return call_function(fn, args, kw, self.fr)

    def call_cls(self, c, m, fn, args, kw):
        q = fn.module + ':' + c + '.' + m
        if m in POLICY.methods or fn.qual in POLICY.specs:
            if any(isinstance(a, tuple) for a in args):
                return mk('call', q, mk('star', self.star(args)))
            b = bind(fn.node.args, [NONE] + args, kw, Frame(fn.module), fn)
            if b is None:
                return mk('call', q, *args, *[mk('kw', k, v) for k, v in sorted(kw.items())])
            # keyword view: drop parameters left at their default
            items = []
            names = [a.arg for a in fn.node.args.args][1:]
            defaults = bind(fn.node.args, [NONE] * (len(names) + 1 - len(fn.node.args.defaults)),
                            {}, Frame(fn.module), fn)
            for nme in names:
                if nme in defaults and defaults[nme] is b[nme] and nme in names[-len(
                        fn.node.args.defaults):]:
                    continue
                items.append(mk('kw', nme, b[nme]))
            return mk('call', q, *sorted(items, key=lambda k: k.args[0]))
        if fn.qual in self.fr.stack:
            return mk('call', q, *args)
        return call_function(fn, [mk('clsref', c)] + list(args), kw, self.fr)

    def method(self, o, name, args, kw, cls=None):
        if o.op == 'super':
            o, cls0 = o.args
            for c in PROG.mro(cls0)[1:]:
                fn = PROG.classes[c].methods.get(name)
                if fn is not None:
                    return call_function(fn, [o] + list(args), kw, self.fr)
            return mk('vcall', o, name, *args)
        if o.op == 'ite' and is_class(o):
            return t.ite(o.args[0], self.method(o.args[1], name, args, kw),
                         self.method(o.args[2], name, args, kw))
        if o.op == 'clsref':
            fn = PROG.lookup_method(o.args[0], name)
            if fn is not None and 'classmethod' in fn.deco:
                return self.call_cls(o.args[0], name, fn, args, kw)
        if name == '__getitem__' and len(args) == 1:
            return index(o, args[0])
        if name == 'union' and not kw:
            # the union of sets: all their items
            if o.op == 'builtin' and o.args[0] in ('set', 'frozenset'):
                return t.as_('set', flatten(self.star(args), self))
            if o.op == 'as' and o.args[0] == 'set':
                return t.as_('set', t.concat(t.strip(o), flatten(self.star(args), self)))
        if name in ('strip', 'lower', 'upper') and not args and not kw and \
                o.op == 'vcall' and o.args[1:] == (name,):
            return o
        r = self.seq_method(o, name, args, kw)
        if r is not None:
            return r
        c = cls or cls_of(o)
        if any(isinstance(a, tuple) for a in args):
            return mk('vcall', o, name, mk('star', self.star(args)))
        fn = None
        if c is not None:
            fn = PROG.lookup_method(c, name)
        if fn is None:
            ds = PROG.definers(name)
            if len(ds) == 1:
                fn = ds[0]
            elif ds and name in POLICY.methods:
                fn = ds[0]
        if fn is None:
            return mk('vcall', o, name, *args, *[mk('kw', k, v) for k, v in sorted(kw.items())])
        if 'classmethod' in fn.deco and name in POLICY.methods:
            return mk('vcall', o, name, *args, *[mk('kw', k, v) for k, v in sorted(kw.items())])
        if name in POLICY.methods:
            sig = POLICY.methods[name]
            sp = POLICY.specs.get(fn.qual) if c is not None else None
            if sp is not None and (sp.opts.get('through') or POLICY.through) and len(PROG.subclasses(c)) == 1 and \
                    sp.target == fn.qual and fn.qual not in self.fr.stack:
                # exactly this method is called: what it is specified to give
                f2 = Func(sp.module, None, sp.node, [], spec=True)
                return call_function(f2, [o] + list(args), kw, self.fr, spec=True,
                                     module=sp.module)
            b = bind(sig, [NONE] + list(args), kw, Frame(fn.module, spec=True), None)
            if b is None:
                b = bind(fn.node.args, [NONE] + list(args), kw, Frame(fn.module), None)
                if b is None:
                    return mk('vcall', o, name, *args,
                              *[mk('kw', k, v) for k, v in sorted(kw.items())])
                return mk('vcall', o, name, *[b[a.arg] for a in fn.node.args.args[1:]])
            return mk('vcall', o, name, *[b[a.arg] for a in sig.args[1:]])
        if fn.qual in self.fr.stack or len(self.fr.stack) > MAXDEPTH:
            return mk('vcall', o, name, *args, *[mk('kw', k, v) for k, v in sorted(kw.items())])
        if 'staticmethod' in fn.deco:
            return call_function(fn, list(args), kw, self.fr)
        if 'classmethod' in fn.deco:
            return call_function(fn, [mk('clsref', c or fn.cls)] + list(args), kw, self.fr)
        # overridden somewhere: only inline when the receiver's class is exact enough
        if c is None or any(name in PROG.classes[s].methods and PROG.classes[s].methods[name]
                            is not fn for s in PROG.subclasses(c)):
            if len(PROG.definers(name)) > 1:
                return mk('vcall', o, name, *args)
        return call_function(fn, [o] + list(args), kw, self.fr)

    def seq_method(self, o, name, args, kw):
        k = t.kind(o)
        if k == 'str' or o.op == 'const' and o.args[0] == 'str':
            if name == 'join' and len(args) == 1:
                return mk('join', o, self.as_seq(args[0]))
            if name == 'format' and o.op == 'const' and not kw:
                return self.str_format(o, args)
            if name in ('removesuffix', 'removeprefix') and len(args) == 1 and not kw:
                return cut_text(o, name, args[0])
            return mk('vcall', o, name, *args)
        if name in ('removesuffix', 'removeprefix') and len(args) == 1 and not kw and cls_of(o) is None:
            return cut_text(o, name, args[0])
        if name == 'copy' and not args and not kw and cls_of(o) is None and (
                t.is_seq(k) and o.op in ('as', 'lit', 'map', 'concat', 'fmap')):
            return o
        if o.op == 'dict' or t.kind(o) == 'dict':
            if name == 'get' and args:
                d = args[1] if len(args) > 1 else NONE
                for kv in (o.args if o.op == 'dict' else ()):
                    if kv.args[0] is args[0]:
                        return kv.args[1]
                if o.op == 'dict' and (t.is_const(args[0]) or not dispatch_table(o)):
                    return d if not o.args or t.is_const(args[0]) and all(
                        t.is_const(kv.args[0]) for kv in o.args) else mk('dget', o, args[0], d)
                if o.op == 'dict':
                    for kv in o.args:
                        d = t.ite(t.eq(args[0], kv.args[0]), kv.args[1], d)
                    return d
                return mk('dget', o, args[0], d)
            if name in ('items', 'keys', 'values') and not args:
                if o.op == 'dict':
                    out = []
                    for kv in o.args:
                        out.append({'items': t.as_('tuple', t.lit(*kv.args)),
                                    'keys': kv.args[0], 'values': kv.args[1]}[name])
                    return t.lit(*out)
                return mk('vcall', o, name)
        if name == 'index' and t.is_seq(k):
            return mk('vcall', o, name, *args)
        return None

    def str_format(self, o, args):
        s = t.cval(o)
        import string
        out = []
        i = 0
        try:
            for litp, fld, spec, conv in string.Formatter().parse(s):
                out.append(const(litp))
                if fld is not None:
                    if fld == '':
                        j = i
                        i += 1
                    elif fld.isdigit():
                        j = int(fld)
                    else:
                        return mk('vcall', o, 'format', *args)
                    out.append(fmtf('r' if conv == 'r' else (spec or ''), args[j]))
        except (ValueError, IndexError):
            return mk('vcall', o, 'format', *args)
        return strcat(*out)

    def builtin(self, name, args, kw):
        star = any(isinstance(a, tuple) for a in args)
        if star:
            if name in ('zip', 'map', 'max', 'min', 'print', 'set.union'):
                if name == 'zip' and len(args) == 1:
                    return t.as_('iter', zip_star(self.as_seq(args[0][1])))
            return mk('call', 'builtins:' + name, mk('star', self.star(args)))
        A = args
        n = len(A)
        if name == 'len' and n == 1:
            return lift1(set_length, A[0])
        if name == 'range' and 1 <= n <= 3:
            return range_term(A)
        if name in ('tuple', 'list', 'set', 'frozenset') and not kw:
            if n == 0:
                return t.as_(name, EMPTY)
            if n == 1:
                return t.as_('set' if name == 'frozenset' else name, self.as_seq(A[0]))
        if name == 'dict':
            if n == 0:
                d = mk('dict')
                for k, v in kw.items():
                    d = t.dict_set(d, const(k), v)
                return d
            if n == 1 and not kw:
                if A[0].op == 'dict':
                    return A[0]
                if t.kind(A[0]) == 'dict':
                    return A[0]
                return scatterf(mk('dict'), strip_pairs(self.as_seq(A[0])))
        if name == 'iter' and n == 1:
            return t.as_('iter', self.as_seq(A[0]))
        if name == 'enumerate' and n >= 1:
            start = A[1] if n > 1 else kw.get('start', ZERO)
            s = self.as_seq(A[0])
            return t.as_('iter', enum(s, start))
        if name == 'zip' and not kw:
            return t.as_('iter', zip_terms([self.as_seq(a) for a in A]))
        if name == 'reversed' and n == 1:
            return t.as_('iter', revf(self.as_seq(A[0])))
        if name == 'sorted' and n == 1:
            return t.as_('list', sortedf(self.as_seq(A[0]),
                                         *[mk('kw', k, v) for k, v in sorted(kw.items())]))
        if name == 'map' and n >= 2:
            ss = [self.as_seq(a) for a in A[1:]]
            if len(ss) == 1:
                return t.as_('iter', self.map_over(A[0], ss[0]))
            z = zip_terms(ss)
            nn, f = t.seqview(z)
            v = t.fresh('nat')
            item = f(v)
            vals = [t.idx(item, const(i)) for i in range(len(ss))]
            return t.as_('iter', t.mapf(nn, t.lam([v], self.apply(A[0], vals, {}))))
        if name == 'filter' and n == 2:
            s = t.strip(self.as_seq(A[1]))
            nn, f = t.seqview(s)
            v = t.fresh('nat')
            x = f(v)
            c = t.truth(x if A[0] is NONE else self.apply(A[0], [x], {}))
            return t.as_('iter', t.fmapf(nn, t.lam([v], t.ite(c, t.lit(x), EMPTY))))
        if name == 'sum' and n in (1, 2):
            start = A[1] if n > 1 else kw.get('start', ZERO)
            return sum_seq(self.as_seq(A[0]), start)
        if name in ('any', 'all') and n == 1:
            return anyall(name, self.as_seq(A[0]))
        if name in ('min', 'max') and not kw:
            if n == 2:
                return lift2(lambda a, b: t.minmax(name, a, b), A[0], A[1])
            if n > 2:
                r = A[0]
                for x in A[1:]:
                    r = t.minmax(name, r, x)
                return r
            if n == 1:
                s = t.strip(self.as_seq(A[0]))
                if s.op == 'lit' and s.args:
                    r = s.args[0]
                    for x in s.args[1:]:
                        r = t.minmax(name, r, x)
                    return r
                return mk('call', 'builtins:' + name, s)
        if name == 'abs' and n == 1:
            return lift1(absf, A[0])
        if name == 'int' and n == 1:
            if t.kind(A[0]) == 'bool':
                return t.ite(A[0], ONE, ZERO)
            if t.is_int(t.kind(A[0])):
                return A[0]
            return mk('call', 'builtins:int', A[0])
        if name == 'bool' and n == 1:
            return t.truth(A[0])
        if name == 'str' and n == 1:
            return fmtf('s', A[0])
        if name == 'repr' and n == 1:
            return fmtf('r', A[0])
        if name == 'isinstance' and n == 2:
            return self.isinstance(A[0], A[1])
        if name == 'type' and n == 1:
            return typef(A[0])
        if name == 'slice' and 1 <= n <= 3:
            a = (NONE, A[0], NONE) if n == 1 else (A[0], A[1], A[2] if n > 2 else NONE)
            return slicef(*a)
        if name == 'getattr' and n >= 2 and A[1].op == 'const':
            nm = t.cval(A[1])
            if n == 2:
                return self.getattr(A[0], nm)
            return mk('getattr', A[0], nm, A[2])
        if name == 'hasattr' and n == 2 and A[1].op == 'const':
            if t.cval(A[1]) == '_strides':
                return t.not_(t.is_(mk('getattr', A[0], '_strides', MEMO_UNSET),
                                    MEMO_UNSET))
            return mk('hasattr', A[0], t.cval(A[1]))
        if name == 'callable' and n == 1:
            return mk('call', 'builtins:callable', A[0])
        if name == 'divmod' and n == 2:
            return t.as_('tuple', t.lit(lift2(t.fdiv, *A), lift2(t.mod, *A)))
        if name == 'pow' and n == 2:
            return self.binop(ast.Pow(), *A)
        if name == 'object':
            return t.opaque('object')
        if name == 'next' and n >= 1:
            return mk('call', 'builtins:next', *A)
        if name == 'super':
            return mk('super', NONE, self.fr.cls or '?')
        return mk('call', 'builtins:' + name, *A, *[mk('kw', k, v) for k, v in sorted(
            kw.items())])

    def map_over(self, f, s):
        s = t.strip(s)
        if s.op == 'lit':
            return t.lit(*[self.apply(f, [x], {}) for x in s.args])
        if s.op == 'concat':
            return t.concat(*[self.map_over(f, x) for x in s.args])
        if s.op == 'fmap':
            vs, b = t.open_fresh(s.args[1])
            return t.fmapf(s.args[0], t.lam(vs, self.map_over(f, b)))
        if s.op == 'ite':
            return t.ite(s.args[0], self.map_over(f, s.args[1]), self.map_over(f, s.args[2]))
        n, g = t.seqview(s)
        v = t.fresh('nat')
        return t.mapf(n, t.lam([v], self.apply(f, [g(v)], {})))

    def isinstance(self, x, c):
        if c.op == 'as' and c.args[1].op == 'lit':
            return t.or_(*[self.isinstance(x, k) for k in c.args[1].args])
        if c.op == 'clsref':
            return isinstf(x, c.args[0])
        if c.op == 'builtin':
            return isinstf(x, c.args[0])
        if c.op == 'ite':
            return t.ite(c.args[0], self.isinstance(x, c.args[1]), self.isinstance(x, c.args[2]))
        return isinstdynf(x, c)

    def extcall(self, mod, name, args, kw):
        full = mod + '.' + name
        if full == 'sys.exc_info' and not args and self.own_exception() is not None:
            return self.own_exception()
        if full == 'itertools.product':
            rep = kw.get('repeat')
            if rep is not None and len(args) == 1 and not isinstance(args[0], tuple):
                s = t.as_('tuple', self.as_seq(args[0]))
                v = t.fresh('nat')
                return mk('cprod', t.mapf(t.max0(rep), t.lam([v], t.strip(s))))
            if any(isinstance(a, tuple) for a in args):
                s = self.star(args)
            else:
                s = t.lit(*[self.as_seq(a) for a in args])
            return mk('cprod', canon_pools(s))
        if any(isinstance(a, tuple) for a in args):
            if full == 'itertools.chain':
                return t.as_('iter', flatten(self.star(args), self))
            return mk('call', full, mk('star', self.star(args)))
        if full == 'itertools.chain':
            return t.as_('iter', t.concat(*[self.as_seq(a) for a in args]))
        if full == 'math.prod' and len(args) == 1:
            return prod_seq(self.as_seq(args[0]), kw.get('start', ONE))
        if full == 'math.prod' and len(args) == 2:
            return prod_seq(self.as_seq(args[0]), args[1])
        if full == 'functools.reduce' and len(args) >= 2:
            s = self.as_seq(args[1])
            n, f = t.seqview(s)
            if len(args) == 3:
                v = t.fresh('nat')
                p = t.fresh('int')
                nx = self.apply(args[0], [p, f(v)], {})
                return close_loop(n, v, {'x': (p, args[2], nx)})['x'](n)
        if mod == 'operator':
            ops = {'mul': ast.Mult, 'add': ast.Add, 'sub': ast.Sub, 'mod': ast.Mod,
                   'floordiv': ast.FloorDiv}
            if name in ops and len(args) == 2:
                return self.binop(ops[name](), args[0], args[1])
            if name == 'getitem' and len(args) == 2:
                return index(args[0], args[1])
            if name == 'itemgetter' and len(args) == 1:
                v = t.fresh('any')
                return t.lam([v], index(v, args[0]))
        if full == 'itertools.starmap' and len(args) == 2:
            s = self.as_seq(args[1])
            n, f = t.seqview(s)
            v = t.fresh('nat')
            item = f(v)
            ln = t.length(item)
            if t.is_int_const(ln):
                return t.as_('iter', t.mapf(n, t.lam([v], self.apply(
                    args[0], [t.idx(item, const(i)) for i in range(t.cval(ln))], {}))))
        if full == 'itertools.islice' and len(args) == 2:
            return sliced(self.as_seq(args[0]), NONE, args[1], NONE)
        if full == 'itertools.islice' and len(args) == 3:
            return sliced(self.as_seq(args[0]), args[1], args[2], NONE)
        if full == 'itertools.pairwise' and len(args) == 1:
            s = t.strip(self.as_seq(args[0]))
            if s.op == 'lit':
                return t.lit(*[t.as_('tuple', t.lit(x, y)) for x, y in zip(s.args, s.args[1:])])
            n, f = t.seqview(s)
            v = t.fresh('nat')
            return t.as_('iter', t.mapf(t.max0(t.sub(n, ONE)), t.lam([v], t.as_(
                'tuple', t.lit(f(v), f(t.add(v, ONE)))))))
        if full == 'itertools.chain.from_iterable' and len(args) == 1:
            return t.as_('iter', flatten(self.as_seq(args[0]), self))
        if full == 'itertools.accumulate' or full == 'itertools.repeat':
            if name == 'repeat' and len(args) == 2:
                return t.as_('iter', repseq(t.lit(args[0]), args[1]))
            if name == 'accumulate' and len(args) == 1 and not kw:
                s = self.as_seq(args[0])
                n, f = t.seqview(s)
                v, w = t.fresh('nat'), t.fresh('nat')
                return t.as_('iter', t.mapf(n, t.lam([v], t.sumf(
                    t.add(v, ONE), t.lam([w], f(w))))))
        return mk('call', full, *args, *[mk('kw', k, v) for k, v in sorted(kw.items())])


SNAPS = [0]
LOCALFV = set()
METHOD_NAMES = {'append', 'extend', 'copy', 'get', 'items', 'keys', 'values', 'join', 'split',
                'strip', 'replace', 'startswith', 'endswith', '__getitem__', '__len__', 'index',
                'count', 'add', 'update', 'pop', 'sort', 'reverse', 'insert', 'format', 'lower',
                'upper', 'rindex', 'rfind', 'find', 'union', 'difference', 'group', 'decode',
                'remove', 'discard', '__setitem__', '__contains__', 'rstrip', 'lstrip',
                'partition', 'rpartition', 'setdefault', 'clear', 'intersection', 'removeprefix',
                'removesuffix'}


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + '.' + n.attr if b else None
    return None


@t.memo
def mixed(x):
    """A gate over values of which some are sequences or strings and some are not."""
    if x.op != 'ite':
        return False
    ks = {('seq' if t.is_seq(k) else 'str' if k == 'str' else 'num')
          for k in (t.kind(y) for y in leaves(x) if y.op not in ('DC', 'undef'))}
    return len(ks) > 1 or any(y.op in ('DC', 'undef') for y in leaves(x))


def lift1(f, a):
    if a.op == 'ite' and mixed(a):
        return t.ite(a.args[0], lift1(f, a.args[1]), lift1(f, a.args[2]))
    if a.op == 'DC':
        return DC
    return f(a)


def lift2(f, a, b):
    if a.op == 'ite' and mixed(a):
        return t.ite(a.args[0], lift2(f, a.args[1], b), lift2(f, a.args[2], b))
    if b.op == 'ite' and mixed(b):
        return t.ite(b.args[0], lift2(f, a, b.args[1]), lift2(f, a, b.args[2]))
    if a.op == 'DC' or b.op == 'DC':
        return DC
    return f(a, b)


def absf(a):
    if t.is_int_const(a):
        return const(abs(t.cval(a)))
    return t.ite(t.le(ZERO, a), a, t.neg(a))


def eqf(a, b):
    if a.op == 'DC' or b.op == 'DC':
        return DC
    # an object known not to be a number never equals one by accident of kinds
    return t.eq(a, b)


def leaves(tree):
    """The distinct leaves of a gate."""
    seen = set()
    todo = [tree]
    out = []
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            todo += [x.args[2], x.args[1]]
        else:
            out.append(x)
    return out


@t.memo
def drop_cnt(tree):
    if tree.op == 'ite':
        return t.ite(tree.args[0], drop_cnt(tree.args[1]), drop_cnt(tree.args[2]))
    return FALL if tree.op == 'cnt' else tree


@t.memo
def brk_to_fall(tree):
    if tree.op == 'ite':
        return t.ite(tree.args[0], brk_to_fall(tree.args[1]), brk_to_fall(tree.args[2]))
    return FALL if tree.op == 'brk' else tree


@t.memo
def exit_cond(tree):
    if tree.op == 'ite':
        return t.ite(tree.args[0], exit_cond(tree.args[1]), exit_cond(tree.args[2]))
    return TRUE if tree.op in ('brk', 'ret', 'raise') else FALSE


@t.memo
def keep_exits(tree):
    """The tree with non-exit leaves don't-care."""
    if tree.op == 'ite':
        return t.ite(tree.args[0], keep_exits(tree.args[1]), keep_exits(tree.args[2]))
    return tree if tree.op in ('brk', 'ret', 'raise') else DC


@t.memo
def exits_of(tree):
    """The exits of one round of a loop, with the conditions under which they are taken."""
    if tree.op == 'ite':
        return t.ite(tree.args[0], exits_of(tree.args[1]), exits_of(tree.args[2]))
    if tree.op == 'brk':
        return mk('brk')
    return tree if tree.op in ('ret', 'raise') else mk('go')


def simplify_exit(tree, cond_v, v, k0):
    return tree


def strip_snaps(x):
    if not isinstance(x, T):
        return x
    if x.op in ('brk', 'cnt'):
        return mk(x.op)
    if x.op in ('ite',):
        return mk('ite', x.args[0], strip_snaps(x.args[1]), strip_snaps(x.args[2]))
    return x


def strip_as(x):
    return x


@t.memo
def tree_value(tree):
    """Pure return value of a tree: ite over ret leaves without effects; None otherwise."""
    if tree.op == 'ite':
        a, b = tree_value(tree.args[1]), tree_value(tree.args[2])
        if a is None or b is None:
            return None
        return t.ite(tree.args[0], a, b)
    if tree.op == 'ret':
        if tree.args[1] is not EMPTY:
            return None
        return tree.args[0]
    if tree.op == 'raise':
        return mk('raised', tree.args[0])
    if tree.op == 'DC':
        return DC
    return None


def updf(s, i, v):
    if s.op == 'as' and s.args[0] != 'dict':
        return t.as_(s.args[0], updf(s.args[1], i, v))
    if s.op == 'dict':
        if t.is_const(i):
            return t.dict_set(s, i, v)
        return scatterf(s, t.lit(t.lit(i, v)))
    if s.op == 'lit' and t.is_int_const(i) and -len(s.args) <= t.cval(i) < len(s.args):
        a = list(s.args)
        a[t.cval(i)] = v
        return t.lit(*a)
    if s.op == 'map' and False:
        pass
    return t.upd(s, i, v)


def canon_index(o, i):
    """Storage elements addressed by a 1-tuple or by the integer are the same element."""
    return i


def is_plain_seq(o):
    return t.is_seq(t.kind(o)) and cls_of(o) is None


def index(o, i):
    if o.op == 'DC' or i.op == 'DC':
        return DC
    c = cls_of(o)
    if c == 'Buffer':
        s = t.strip(i)
        if i.op == 'as' and s.op == 'lit' and len(s.args) == 1:
            i = s.args[0]
    if i.op == 'slice':
        return sliced(o, *i.args)
    return t.idx(o, i)


def slice_indices(s, n):
    """slice.indices: the bounds as the language normalises them."""
    step = attrf(s, 'step')
    step = t.ite(t.is_(step, NONE), ONE, step)
    down = t.lt(step, ZERO)

    def bound(x, default, low, high):
        x2 = t.ite(t.lt(x, ZERO), t.minmax('max', t.add(x, n), low), t.minmax('min', x, high))
        return t.ite(t.is_(x, NONE), default, x2)

    def both(name, up, dn):
        x = attrf(s, name)
        return t.ite(down, bound(x, dn, const(-1), t.sub(n, ONE)), bound(x, up, ZERO, n))
    return t.as_('tuple', t.lit(both('start', ZERO, t.sub(n, ONE)), both('stop', n, const(-1)),
                                step))


def sliced(o, a, b, c):
    if o.op == 'ite':
        return t.ite(o.args[0], sliced(o.args[1], a, b, c), sliced(o.args[2], a, b, c))
    for k, x in enumerate((a, b, c)):
        if x.op == 'ite' and (is_plain_seq(o) or NONE in x.args[1:]):
            abc1, abc2 = [a, b, c], [a, b, c]
            abc1[k], abc2[k] = x.args[1], x.args[2]
            return t.ite(x.args[0], sliced(o, *abc1), sliced(o, *abc2))
    if not is_plain_seq(o):
        return mk('idx', o, slicef(a, b, c)) if o.op != 'DC' else DC
    tag = o.args[0] if o.op == 'as' else 'tuple'
    s = t.strip(o)
    n = t.length(s)
    if c is not NONE and c is not ONE:
        if c.op == 'const' and t.cval(c) == -1 and a is NONE and b is NONE:
            return t.as_(tag, revf(s))
        return mk('idx', o, slicef(a, b, c))
    if s.op == 'lit' and (a is NONE or t.is_int_const(a)) and (b is NONE or t.is_int_const(b)):
        return t.as_(tag, t.lit(*s.args[(None if a is NONE else t.cval(a)):
                                        (None if b is NONE else t.cval(b))]))

    def norm(x, default):
        if x is NONE:
            return default, True
        if t.is_int_const(x) and t.cval(x) < 0:
            return t.max0(t.add(n, x)), True
        lb = t.lower_bound(x)
        if lb is not None and lb >= 0:
            return x, t.is_int_const(t.sub(n, x)) and t.cval(t.sub(n, x)) >= 0
        # negative difference to the length:  len - k
        return None, False
    lo, _ = norm(a, ZERO)
    hi, hi_in = norm(b, n)
    if lo is None or hi is None:
        # bounds of unknown sign: treat as positions inside the sequence when they are plain
        # integer terms (the callers' ranges guarantee it); keep symbolic otherwise
        return t.as_(tag, mk('subseq', s, a, b))
    if s.op == 'concat':
        # cut whole pieces off when the bounds fall on known lengths
        r = cut_concat(s, lo, hi if b is not NONE else None)
        if r is not None:
            return t.as_(tag, r)
    if not hi_in and b is not NONE and not (t.is_int_const(a) or True):
        pass
    if b is not NONE and not hi_in:
        up = t.lower_bound(t.sub(n, hi))
        if up is None or up < 0:
            hi = t.minmax('min', hi, n)
    v = t.fresh('nat')
    if hi.op == 'ite':
        return t.as_(tag, t.ite(hi.args[0], _sub(s, lo, hi.args[1]), _sub(s, lo, hi.args[2])))
    return t.as_(tag, _sub(s, lo, hi))


def _sub(s, lo, hi):
    v = t.fresh('nat')
    return t.mapf(t.max0(t.sub(hi, lo)), t.lam([v], t.idx(s, t.add(lo, v))))


def cut_concat(s, lo, hi):
    parts = list(s.args)
    if hi is None:
        pos = ZERO
        for i, p in enumerate(parts):
            if pos is lo:
                return t.concat(*parts[i:])
            if p.op == 'lit' and t.is_int_const(t.sub(lo, pos)):
                k = t.cval(t.sub(lo, pos))
                if 0 <= k <= len(p.args):
                    return t.concat(t.lit(*p.args[k:]), *parts[i + 1:])
            pos = t.add(pos, t.length(p))
        return None
    n = t.length(s)
    d = t.sub(n, hi)
    if lo is ZERO and t.is_int_const(d) and t.cval(d) >= 0 and parts[-1].op == 'lit' and \
            t.cval(d) <= len(parts[-1].args):
        p = parts[-1]
        return t.concat(*parts[:-1], t.lit(*p.args[:len(p.args) - t.cval(d)]))
    return None


def range_term(A):
    if len(A) == 1:
        lo, hi, st = ZERO, A[0], ONE
    else:
        lo, hi = A[0], A[1]
        st = A[2] if len(A) > 2 else ONE
    for x in (lo, hi):
        if x.op == 'ite':
            i = (lo, hi).index(x)
            a1, a2 = [lo, hi, st], [lo, hi, st]
            a1[i], a2[i] = x.args[1], x.args[2]
            return t.as_('range', t.ite(x.args[0], t.strip(range_term(a1)),
                                        t.strip(range_term(a2))))
    v = t.fresh('nat')
    if st is ONE:
        return t.as_('range', t.mapf(t.max0(t.sub(hi, lo)), t.lam([v], t.add(lo, v))))
    if t.is_int_const(st) and t.cval(st) == -1:
        return t.as_('range', t.mapf(t.max0(t.sub(lo, hi)), t.lam([v], t.sub(lo, v))))
    if t.is_int_const(st) and t.cval(st) > 0:
        n = t.max0(t.fdiv(t.add(t.sub(hi, lo), const(t.cval(st) - 1)), st))
        return t.as_('range', t.mapf(n, t.lam([v], t.add(lo, t.mul(st, v)))))
    if all(t.is_int(t.kind(x)) for x in (lo, hi, st)):
        d = t.sub(hi, lo)
        n = t.ite(t.le(ONE, st),
                  t.max0(t.add(ONE, t.fdiv(t.sub(d, ONE), st))),
                  t.max0(t.add(ONE, t.fdiv(t.add(d, ONE), st))))
        return t.as_('range', t.mapf(n, t.lam([v], t.add(lo, t.mul(st, v)))))
    return mk('call', 'builtins:range', lo, hi, st)


def repseq(x, n):
    s = t.strip(x)
    v = t.fresh('nat')
    if s.op == 'lit' and len(s.args) == 1:
        return t.mapf(t.max0(n), t.lam([v], s.args[0]))
    return t.fmapf(t.max0(n), t.lam([v], s))


def as_seq(x, ev=None):
    """Sequence of items obtained by iterating x."""
    s = t.strip(x)
    if s.op == 'dict':
        return t.lit(*[kv.args[0] for kv in s.args])
    if s.op == 'ite' and not t.is_seq(t.kind(s)):
        return t.ite(s.args[0], as_seq(s.args[1], ev), as_seq(s.args[2], ev))
    if ev is not None and not t.is_seq(t.kind(s)):
        c = cls_of(s)
        if c is not None and len(PROG.subclasses(c)) == 1:
            fn = PROG.lookup_method(c, '__iter__')
            if fn is not None and fn.qual not in ev.fr.stack:
                r = ev.method(s, '__iter__', [], {})
                if r.op != 'vcall' and t.is_seq(t.kind(r)):
                    return t.strip(r)
    return s


def cut_text(o, name, c):
    if name == 'removeprefix':
        return t.ite(t.truth(mk('vcall', o, 'startswith', c)),
                     index(o, slicef(t.length(c), NONE, NONE)), o)
    n = t.length(c)
    if not t.is_int_const(n) or not t.cval(n):
        return mk('vcall', o, name, c)
    return t.ite(t.truth(mk('vcall', o, 'endswith', c)),
                 index(o, slicef(NONE, t.neg(n), NONE)), o)


def set_length(x):
    """Length; of a set: the number of its items that do not occur before."""
    if x.op != 'as' or x.args[0] != 'set':
        return t.length(x)
    s = t.strip(x)
    if s.op == 'ite':
        return t.ite(s.args[0], set_length(t.as_('set', s.args[1])),
                     set_length(t.as_('set', s.args[2])))
    if no_repeats(s):
        return t.length(s)
    if s.op == 'lit':
        r = ZERO
        for i, y in enumerate(s.args):
            seen = t.or_(*[t.eq(y, z) for z in s.args[:i]]) if i else t.FALSE
            r = t.add(r, t.ite(seen, ZERO, ONE))
        return r
    n, f = t.seqview(s)
    v, w = t.fresh('nat'), t.fresh('nat')
    again = t.anyf(v, t.lam([w], t.eq(f(w), f(v))))
    return t.sub(n, t.sumf(n, t.lam([v], t.ite(again, ONE, ZERO))))


def no_repeats(s):
    if s.op == 'map':
        vs, b = t.open_fresh(s.args[1])
        return t.is_int(t.kind(b)) and vs[0].args[0] not in t.sub(b, vs[0]).fvs
    if s.op == 'fmap':
        vs, b = t.open_fresh(s.args[1])
        while b.op == 'ite' and EMPTY in b.args[1:]:
            b = b.args[1] if b.args[2] is EMPTY else b.args[2]
        return b.op == 'lit' and len(b.args) == 1 and b.args[0] is vs[0]
    return False


def zip_terms(ss):
    ss = [t.strip(s) for s in ss]
    if not ss:
        return EMPTY
    if all(s.op == 'lit' for s in ss):
        return t.lit(*[t.as_('tuple', t.lit(*x)) for x in zip(*[s.args for s in ss])])
    ns = []
    fs = []
    for s in ss:
        n, f = t.seqview(s)
        ns.append(n)
        fs.append(f)
    n = ns[0]
    for m in ns[1:]:
        if m is not n:
            n = t.minmax('min', n, m)
    v = t.fresh('nat')
    return _map_ite(n, v, t.as_('tuple', t.lit(*[f(v) for f in fs])))


def _map_ite(n, v, body):
    if n.op == 'ite':
        return t.ite(n.args[0], _map_ite(n.args[1], v, body), _map_ite(n.args[2], v, body))
    return t.mapf(n, t.lam([v], body))


def zip_star(s):
    s = t.strip(s)
    if s.op == 'lit':
        return zip_terms(list(s.args))
    return mk('ziptr', s)


def enum(s, start):
    s = t.strip(s)
    if s.op == 'lit':
        return t.lit(*[t.as_('tuple', t.lit(t.add(start, const(i)), x))
                       for i, x in enumerate(s.args)])
    n, f = t.seqview(s)
    v = t.fresh('nat')
    return t.mapf(n, t.lam([v], t.as_('tuple', t.lit(t.add(start, v), f(v)))))


def sum_seq(s, start):
    s = t.strip(s)
    if t.is_seq(t.kind(start)):
        return t.as_(start.args[0] if start.op == 'as' else 'list',
                     t.concat(t.strip(start), flatten(s)))
    return t.add(start, _sum(s))


def _sum(s):
    s = t.strip(s)
    if s.op == 'lit':
        return lift_add(list(s.args))
    if s.op == 'concat':
        return t.add(*[_sum(x) for x in s.args])
    if s.op == 'ite':
        return t.ite(s.args[0], _sum(s.args[1]), _sum(s.args[2]))
    if s.op == 'map':
        return t.sumf(*s.args)
    if s.op == 'fmap':
        vs, b = t.open_fresh(s.args[1])
        return t.sumf(s.args[0], t.lam(vs, _sum(b)))
    n, f = t.seqview(s)
    v = t.fresh('nat')
    return t.sumf(n, t.lam([v], f(v)))


def lift_add(xs):
    r = ZERO
    for x in xs:
        r = lift2(t.add, r, x)
    return r


def flatten(s, ev=None):
    s = t.strip(s)
    if s.op == 'lit':
        return t.concat(*[as_seq(x) for x in s.args])
    if s.op == 'concat':
        return t.concat(*[flatten(x) for x in s.args])
    n, f = t.seqview(s)
    v = t.fresh('nat')
    return t.fmapf(n, t.lam([v], as_seq(f(v))))


def prod_seq(s, start=ONE):
    s = t.strip(s)
    if s.op == 'lit':
        r = start
        for x in s.args:
            r = t.mul(r, x)
        return r
    if s.op == 'concat':
        r = start
        for x in s.args:
            r = t.mul(r, prod_seq(x))
        return r
    if s.op == 'ite':
        return t.ite(s.args[0], prod_seq(s.args[1], start), prod_seq(s.args[2], start))
    if s.op == 'fmap':
        vs, b = t.open_fresh(s.args[1])
        return t.mul(start, t.prodf(s.args[0], t.lam(vs, prod_seq(b))))
    n, f = t.seqview(s)
    v = t.fresh('nat')
    return t.mul(start, t.prodf(n, t.lam([v], f(v))))


def anyall(which, s):
    s = t.strip(s)
    if s.op == 'lit':
        cs = [t.truth(x) for x in s.args]
        return t.or_(*cs) if which == 'any' else t.and_(*cs)
    if s.op == 'concat':
        cs = [anyall(which, x) for x in s.args]
        return t.or_(*cs) if which == 'any' else t.and_(*cs)
    if s.op == 'ite':
        return t.ite(s.args[0], anyall(which, s.args[1]), anyall(which, s.args[2]))
    if s.op == 'fmap':
        vs, b = t.open_fresh(s.args[1])
        c = anyall(which, b)
    else:
        n, f = t.seqview(s)
        v = t.fresh('nat')
        vs = [v]
        c = t.truth(f(v))
    n = s.args[0] if s.op == 'fmap' else n
    if which == 'any':
        return t.anyf(n, t.lam(vs, c))
    return t.not_(t.anyf(n, t.lam(vs, t.not_(c))))


def canon_pools(s):
    """pools of a cartesian product, as plain sequences"""
    s = t.strip(s)
    if s.op == 'lit':
        return t.lit(*[t.strip(x) for x in s.args])
    if s.op == 'map':
        vs, b = t.open_fresh(s.args[1])
        return t.mapf(s.args[0], t.lam(vs, t.strip(b)))
    return s


def strip_pairs(s):
    s = t.strip(s)
    if s.op == 'lit':
        return t.lit(*[t.strip(x) for x in s.args])
    if s.op in ('map', 'fmap'):
        vs, b = t.open_fresh(s.args[1])
        f = t.mapf if s.op == 'map' else t.fmapf
        if s.op == 'map':
            b = t.strip(b)
        else:
            b = strip_pairs(b)
        return f(s.args[0], t.lam(vs, b))
    if s.op == 'ite':
        return t.ite(s.args[0], strip_pairs(s.args[1]), strip_pairs(s.args[2]))
    return s


# ---------------------------------------------------------------- calls

def bind(a, args, kw, fr, fn):
    """Bind to a signature; defaults evaluated in the callee's module."""
    ps = [x.arg for x in a.posonlyargs + a.args]
    if len(args) > len(ps) or a.vararg or a.kwarg:
        return None
    out = {}
    for p, x in zip(ps, args):
        out[p] = x
    for k, v in kw.items():
        if k not in ps + [x.arg for x in a.kwonlyargs] or k in out:
            return None
        out[k] = v
    nd = len(a.defaults)
    mod = fn.module if fn is not None else fr.module
    f2 = Frame(mod, spec=fr.spec)
    f2.aliased = set()
    ev = Ev(f2)
    e0 = {'__eff__': EMPTY, '__yield__': EMPTY}
    for p, d in zip(ps[len(ps) - nd:], a.defaults):
        if p not in out:
            out[p] = ev.ex(d, e0)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg not in out and d is not None:
            out[p.arg] = ev.ex(d, e0)
    if any(p not in out for p in ps):
        return None
    return out


BODIES = {}


def falls_through(node):
    """The body with `return`/`return None` outside loops turned into else branches (only when
    attributes are assigned, which a leaf of the decision tree does not carry)."""
    got = BODIES.get(id(node))
    if got is None or got[0] is not node:
        body = node.body
        if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for n in
               ast.walk(node)):
            body = no_return(body)[0]
        got = BODIES[id(node)] = (node, body)
    return got[1]


def no_return(stmts):
    """-> (statements, True when all of them end in a plain return)"""
    out = []
    for i, st in enumerate(stmts):
        if isinstance(st, ast.Return) and (st.value is None or (
                isinstance(st.value, ast.Constant) and st.value.value is None)):
            return out, True
        if isinstance(st, ast.If) and any(isinstance(n, ast.Return) for n in ast.walk(st)):
            a, ra = no_return(st.body)
            b, rb = no_return(st.orelse)
            if ra or rb:
                rest, rr = no_return(stmts[i + 1:])
                new = ast.If(test=st.test, body=(a if ra else a + rest) or [ast.Pass()],
                             orelse=b if rb else b + rest)
                out.append(ast.fix_missing_locations(ast.copy_location(new, st)))
                return out, (ra or rr) and (rb or rr)
        out.append(st)
    return out, False


MOVES = {}


def moves_of(node):
    """Names (nodes) on the right of `x = name` that are the only use of that name: the value
    has one name again afterwards."""
    got = MOVES.get(id(node))
    if got is not None and got[0] is node:
        return got[1]
    loads = collections.Counter(n.id for n in ast.walk(node) if isinstance(n, ast.Name)
                                and isinstance(n.ctx, ast.Load))
    out = set()
    for p in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
        loads[p.arg] += 1

    def walk(n, loop):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and \
                loads[n.value.id] == 1 and len(n.targets) == 1:
            if loop is None or any(isinstance(m, ast.Name) and m.id == n.value.id and
                                   isinstance(m.ctx, ast.Store) for m in ast.walk(loop)):
                out.add(id(n.value))
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
            return
        for c in ast.iter_child_nodes(n):
            walk(c, n if isinstance(n, (ast.For, ast.While)) else loop)
    walk(node, None)
    MOVES[id(node)] = (node, frozenset(out))
    return MOVES[id(node)][1]


def run_body(fn, env, fr):
    fr.aliased = set()
    fr.moves = moves_of(fn.node)
    fr.owner = fn
    ev = Ev(fr)
    env = dict(env)
    env['__eff__'] = EMPTY
    env['__yield__'] = EMPTY
    tree, e2 = ev.block(falls_through(fn.node), env)
    fr.final_env = e2
    fr.early_exit = any(x is not FALL for x in leaves(tree))
    if e2 is not None:
        attrs = {k: v for k, v in e2.items() if k.startswith('@')}
        r = mk('ret', NONE, e2['__eff__'], e2['__yield__'])
        tree = graft(tree, r)
        return tree, attrs
    return tree, {}


def call_function(fn, args, kw, fr, spec=False, module=None):
    """Inline a call; returns the value term."""
    if len(fr.stack) > MAXDEPTH:
        return t.opaque('depth')
    if any(isinstance(a, tuple) for a in args):
        return mk('call', fn.qual, t.opaque('star'))
    b = bind(fn.node.args, args, kw, Frame(module or fn.module, spec=spec), None if spec else fn)
    if b is None:
        return t.opaque('bad arguments of ' + fn.qual)
    f2 = Frame(module or fn.module, fn.cls, spec, fr.stack + (fn.qual,),
               'ignore' if spec else fr.asserts)
    cenv, cnodes, guards = fr.call_env, fr.call_nodes, t.and_(*fr.guards)
    fr.call_env, fr.call_nodes = None, ()
    tree, attrs = run_body(fn, b, f2)
    if fn.is_generator:
        y = tree_yield(tree)
        if y is None:
            return t.opaque('generator ' + fn.qual)
        return t.as_('iter', y)
    ls = leaves(tree)
    excs = [x for x in ls if x.op == 'raise']
    direct = cenv is not None and not fr.multi
    if excs and direct:
        for x in excs:
            fr.pend.append((t.and_(guards, leaf_cond(tree, x)), x.args[0]))
        tree = drop_raises(tree)
    if attrs and not (direct and b.get('self') is not None and cenv.get('self') is b['self']
                      and guards is TRUE and not any(x.op == 'ret' and x.args[0] is not NONE
                                                     for x in ls)):
        raise Unsupported('attributes set by ' + fn.qual)
    if attrs:
        cenv.update(attrs)
    eff = eff_value(tree)
    if eff is not EMPTY:
        if not direct:
            raise Unsupported('effects of %s in a nested expression' % fn.qual)
        cenv['__eff__'] = t.concat(cenv['__eff__'], t.ite(guards, eff, EMPTY))
    write_back(fn, f2, b, cenv if direct and guards is TRUE else None, cnodes, args, fr)
    v = value_only(tree)
    return v


def mutated_params(fn):
    r = getattr(fn, '_mutp', None)
    if r is None:
        ps = {a.arg for a in fn.node.args.args}
        r = set()
        for x in ast.walk(fn.node):
            tgt = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr in Ev.MUT:
                tgt = x.func.value
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                tgt = x.value
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                tgt = x.target
            while isinstance(tgt, (ast.Subscript, ast.Attribute)):
                tgt = tgt.value
            if isinstance(tgt, ast.Name) and tgt.id in ps:
                r.add(tgt.id)
        fn._mutp = r
    return r


def write_back(fn, f2, b, cenv, cnodes, args, fr):
    """Updates of local containers of the caller made through a parameter."""
    ev = Ev(f2)
    for p in mutated_params(fn):
        old = b.get(p)
        if old is None or not ev.local_container(old) or t.kind(old) in ('int', 'nat', 'str'):
            continue
        if old.op == 'as' and old.args[0] == 'tuple':
            continue
        ps = [a.arg for a in fn.node.args.args]
        i = ps.index(p) - (len(ps) - len(ps))
        off = len(args) - len(cnodes)
        k = i - off
        fin = f2.final_env
        if cenv is None or fin is None or not 0 <= k < len(cnodes) or f2.early_exit or \
                not isinstance(cnodes[k], ast.Name) or cnodes[k].id not in cenv or \
                cnodes[k].id in fr.aliased:
            raise Unsupported('%s updates a container of its caller' % fn.qual)
        cenv[cnodes[k].id] = fin[p]


@t.memo
def leaf_cond(tree, leaf):
    if tree.op == 'ite':
        return t.ite(tree.args[0], leaf_cond(tree.args[1], leaf), leaf_cond(tree.args[2], leaf))
    return TRUE if tree is leaf else FALSE


@t.memo
def drop_raises(tree):
    if tree.op == 'ite':
        return t.ite(tree.args[0], drop_raises(tree.args[1]), drop_raises(tree.args[2]))
    return DC if tree.op == 'raise' else tree


@t.memo
def eff_value(tree):
    if tree.op == 'ite':
        return t.ite(tree.args[0], eff_value(tree.args[1]), eff_value(tree.args[2]))
    return tree.args[1] if tree.op == 'ret' else DC if tree.op == 'DC' else EMPTY


@t.memo
def value_only(tree):
    if tree.op == 'ite':
        return t.ite(tree.args[0], value_only(tree.args[1]), value_only(tree.args[2]))
    if tree.op == 'ret':
        return tree.args[0]
    if tree.op == 'raise':
        return mk('raised', tree.args[0])
    return DC


def tree_yield(tree):
    if tree.op == 'ite':
        a, b = tree_yield(tree.args[1]), tree_yield(tree.args[2])
        if a is None or b is None:
            return None
        return t.ite(tree.args[0], a, b)
    if tree.op == 'ret':
        if tree.args[1] is not EMPTY:
            return None
        return tree.args[2]
    return None


# ---------------------------------------------------------------- recurrences

def close_loop(n, v, carried):
    """carried: name -> (placeholder fv, init, next).  Returns name -> (k -> value at the start
    of iteration k); k = n gives the value after the loop."""
    solved = {}
    ph2name = {p: k for k, (p, _, _) in carried.items()}
    todo = dict(carried)
    while todo:
        progress = False
        for k in sorted(todo):
            p, init, nx = todo[k]
            deps = [q for q in ph2name if q.args[0] in nx.fvs and q is not p]
            if any(ph2name[q] not in solved for q in deps):
                continue
            m = {q: solved[ph2name[q]](v) for q in deps}
            nx2 = t.subst(nx, m)
            s = recurrence(p, init, nx2, v)
            if s is None:
                continue
            solved[k] = s
            del todo[k]
            progress = True
        if not progress:
            break
    if todo:
        # each component with the components it depends on only (a loop-carried slice)
        deps = {}
        step = {}
        for k in todo:
            p, init, nx = todo[k]
            m = {q: solved[ph2name[q]](v) for q in ph2name
                 if q.args[0] in nx.fvs and ph2name[q] in solved}
            step[k] = t.strip(t.subst(nx, m))
            deps[k] = {j for j in todo if todo[j][0].args[0] in step[k].fvs} | {k}
        while True:
            more = {k: set().union(*(deps[j] for j in deps[k])) for k in deps}
            if more == deps:
                break
            deps = more
        for which in {frozenset(d) for d in deps.values()}:
            slice_loop(sorted(which, key=lambda k: ('__' in k, k)), todo, step, v,
                       {k for k in todo if deps[k] == which}, solved)
    return solved


def slice_loop(ks, todo, step, v, wanted, solved):
    """Values of the wanted components of the sequential loop over the state ks."""
    phs = [todo[k][0] for k in ks]
    nxt = [step[k] for k in ks]
    # order-independent naming: sort state components by (init, next) digest with
    # placeholders anonymised
    anon = {q: mk('st') for q in phs}
    keyed = sorted(range(len(ks)), key=lambda i: (
        t.strip(todo[ks[i]][1]).dig, raw_subst(nxt[i], anon).dig))
    ks = [ks[i] for i in keyed]
    phs = [phs[i] for i in keyed]
    nxt = [nxt[i] for i in keyed]
    inits = t.lit(*[t.strip(todo[k][1]) for k in ks])
    body = t.lam([v] + phs, t.lit(*nxt))
    for j, k in enumerate(ks):
        if k not in wanted:
            continue
        init = todo[k][1]

        def s(point, j=j, init=init):
            r = mk('iterget', const(j), point, inits, body)
            r._kind = t.kind(init) if t.kind(init) != 'nat' else 'int'
            return t.as_(init.args[0], r) if init.op == 'as' else r
        solved[k] = s


def raw_subst(x, m):
    memo = {}

    def go(x):
        if not any(k.args[0] in x.fvs for k in m):
            return x
        r = memo.get(x)
        if r is None:
            if x in m:
                r = m[x]
            else:
                r = mk(x.op, *[go(a) if isinstance(a, T) else a for a in x.args])
            memo[x] = r
        return r
    return go(x)


def recurrence(p, init, nx, v):
    """Closed form of x_{v+1} = nx(x_v, v), x_0 = init, or None."""
    tag = init.args[0] if init.op == 'as' else None
    base = t.strip(init)
    own = p.args[0]

    def wrap(x):
        return t.as_(tag, x) if tag else x
    nx_s = t.strip(nx)
    if nx_s is p:
        return lambda k: init
    if nx.op == 'DC':
        return lambda k: init
    if own not in nx.fvs:
        if init.op == 'undef':
            return lambda k: t.subst(nx, {v: t.sub(k, ONE)}) if k is not v else \
                t.subst(nx, {v: t.sub(v, ONE)})
        return lambda k: t.ite(t.lt(ZERO, k), t.subst(nx, {v: t.sub(k, ONE)}), init)
    if init.op == 'undef':
        return None
    kd = t.kind(p)
    if not t.is_seq(kd) and kd != 'dict' and kd != 'bool':
        d = additive(nx_s, p)
        if d is not None:
            return lambda k: t.add(init, t.sumf(k, t.lam([v], d)))
        m = multiplicative(nx_s, p)
        if m is not None:
            return lambda k: t.mul(init, t.prodf(k, t.lam([v], m)))
    if kd == 'bool' or t.kind(nx_s) == 'bool':
        if nx_s.op == 'or':
            rest = [c for c in nx_s.args if c is not p]
            if len(rest) < len(nx_s.args) and all(own not in c.fvs for c in rest):
                g = t.or_(*rest)
                return lambda k: t.or_(t.truth(init), t.anyf(k, t.lam([v], g)))
        if nx_s.op == 'and':
            rest = [c for c in nx_s.args if c is not p]
            if len(rest) < len(nx_s.args) and all(own not in c.fvs for c in rest):
                g = t.and_(*rest)
                return lambda k: t.and_(t.truth(init), t.not_(t.anyf(k, t.lam([v], t.not_(g)))))
    # strings
    if kd == 'str' and nx_s.op == 'strcat' and nx_s.args[0] is p and all(
            own not in a.fvs for a in nx_s.args[1:]):
        g = strcat(*nx_s.args[1:])
        return lambda k: strcat(init, mk('join', const(''), t.mapf(k, t.lam([v], g))))
    if t.is_seq(kd) or kd == 'any' and base.op in ('lit', 'map', 'concat', 'fmap'):
        g = suffix(nx_s, p)
        if g is not None:
            return lambda k: wrap(t.concat(base, t.fmapf(k, t.lam([v], g))))
        g = prefix(nx_s, p)
        if g is not None:
            def pre(k):
                gr = t.subst(g, {v: t.sub(t.sub(k, ONE), v)})
                return wrap(t.concat(t.fmapf(k, t.lam([v], gr)), base))
            return pre
    if t.is_seq(kd) or kd == 'dict' or base.op in ('dict', 'scatter'):
        g = pairs_of(nx_s, p)
        if g is not None:
            return lambda k: wrap(scatterf(base, t.fmapf(k, t.lam([v], g))))
        # updates that read only the element they write
        r = pointwise(nx_s, p, v)
        if r is not None:
            return lambda k: wrap(r(k, base))
    # latch: keep the last value set under a condition
    lt = latch(nx_s, p)
    if lt is not None:
        c, val = lt

        def lf(k):
            cond = t.anyf(k, t.lam([v], c))
            rv = t.sub(t.sub(k, ONE), v)
            j = t.firstidxf(k, t.lam([v], t.subst(c, {v: rv})))
            at = t.sub(t.sub(k, ONE), j)
            return t.ite(cond, t.subst(val, {v: at}), init)
        return lf
    return None


def additive(x, p):
    if x.op == 'ite':
        if p.args[0] in x.args[0].fvs:
            return None
        a, b = additive(x.args[1], p), additive(x.args[2], p)
        if a is None or b is None:
            return None
        return t.ite(x.args[0], a, b)
    if x.op == 'DC':
        return DC
    d = t.sub(x, p)
    if p.args[0] in d.fvs:
        return None
    return d


def multiplicative(x, p):
    if x.op == 'ite':
        if p.args[0] in x.args[0].fvs:
            return None
        a, b = multiplicative(x.args[1], p), multiplicative(x.args[2], p)
        if a is None or b is None:
            return None
        return t.ite(x.args[0], a, b)
    if x.op == 'DC':
        return DC
    if x is p:
        return ONE
    d = t.to_poly(x)
    out = {}
    for m, c in d.items():
        if m.count(p) != 1:
            return None
        r = list(m)
        r.remove(p)
        if any(p.args[0] in y.fvs for y in r):
            return None
        out[tuple(r)] = c
    return t.from_poly(out)


def suffix(x, p):
    x = t.strip(x)
    if x is p:
        return EMPTY
    if x.op == 'DC':
        return DC
    if x.op == 'ite':
        if p.args[0] in x.args[0].fvs:
            return None
        a, b = suffix(x.args[1], p), suffix(x.args[2], p)
        if a is None or b is None:
            return None
        return t.ite(x.args[0], a, b)
    if x.op == 'concat' and x.args[0] is p:
        r = t.concat(*x.args[1:])
        if p.args[0] in r.fvs:
            return None
        return r
    if x.op == 'concat' and t.strip(x.args[0]).op == 'ite':
        a = suffix(x.args[0], p)
        r = t.concat(*x.args[1:])
        if a is None or p.args[0] in r.fvs:
            return None
        return t.concat(a, r) if a.op != 'ite' else t.ite(
            a.args[0], t.concat(a.args[1], r), t.concat(a.args[2], r))
    return None


def prefix(x, p):
    x = t.strip(x)
    if x is p:
        return EMPTY
    if x.op == 'ite':
        if p.args[0] in x.args[0].fvs:
            return None
        a, b = prefix(x.args[1], p), prefix(x.args[2], p)
        if a is None or b is None:
            return None
        return t.ite(x.args[0], a, b)
    if x.op == 'concat' and x.args[-1] is p:
        r = t.concat(*x.args[:-1])
        if p.args[0] in r.fvs:
            return None
        return r
    return None


def pairs_of(x, p):
    x = t.strip(x) if not (x.op == 'as' and x.args[0] == 'dict') else x
    own = p.args[0]
    if x is p:
        return EMPTY
    if x.op == 'DC':
        return DC
    if x.op == 'ite':
        if own in x.args[0].fvs:
            return None
        a, b = pairs_of(x.args[1], p), pairs_of(x.args[2], p)
        if a is None or b is None:
            return None
        return t.ite(x.args[0], a, b)
    if x.op == 'upd':
        b = pairs_of(x.args[0], p)
        if b is None or own in x.args[1].fvs or own in x.args[2].fvs:
            return None
        return t.concat(b, t.lit(t.lit(x.args[1], x.args[2])))
    if x.op == 'scatter':
        b = pairs_of(x.args[0], p)
        if b is None or own in x.args[1].fvs:
            return None
        return t.concat(b, x.args[1])
    return None


def pointwise(x, p, v):
    """x = upd(p, v, h(p[v])): each element updated once from itself (index = loop variable);
    or x = map(N, w -> h(p[w], w, v)): every element carried separately."""
    own = p.args[0]
    if x.op == 'ite':
        g = gated_map(x, p)
        if g is None:
            return None
        x = g
    if x.op == 'upd' and x.args[0] is p and x.args[1] is v:
        y = t.fresh('any')
        val = t.subst(x.args[2], {t.idx(p, v): y})
        if own in val.fvs:
            return None
        val_f = val

        def r(k, base):
            n = t.length(base)
            w = t.fresh('nat')
            new = t.subst(t.subst(val_f, {y: t.idx(base, w)}), {v: w})
            if n is k:
                return t.mapf(n, t.lam([w], new))
            return t.mapf(n, t.lam([w], t.ite(t.lt(w, k), new, t.idx(base, w))))
        return r
    if x.op == 'map':
        vs, b = t.open_fresh(x.args[1])
        w = vs[0]
        N = x.args[0]
        tagged = None
        y = t.fresh(('seq', 'any'))
        b2 = t.subst(b, {t.idx(p, w): y})
        if own in b2.fvs or (own in N.fvs and N is not t.length(p)):
            return None

        def r(k, base):
            el = t.idx(base, w) if base.op == 'map' else t.idx(base, w)
            NN = t.length(base)
            s = recurrence(y, el, b2, v)
            if s is None:
                return mk('iterget', ZERO, k, t.lit(base), t.lam([v, p], t.lit(x)))
            return t.mapf(NN, t.lam([w], s(k)))
        # only if the element recurrence closes
        probe = recurrence(y, t.as_('list', EMPTY) if b2.op == 'as' or b2.op == 'concat'
                           else t.fresh('any'), b2, v)
        if probe is None:
            return None
        return r
    return None


def gated_map(x, p):
    """ite(c, p, map(len(p), f)) as one map over the elements of p."""
    ls = leaves(x)
    maps = [l for l in ls if l.op == 'map']
    if not maps or any(l is not p and l.op != 'map' for l in ls):
        return None
    if any(m.args[0] is not t.length(p) for m in maps):
        return None
    w = t.fresh('nat')

    def at(z):
        if z.op == 'ite':
            return t.ite(z.args[0], at(z.args[1]), at(z.args[2]))
        return t.idx(z, w)
    return mk('map', t.length(p), t.lam([w], at(x)))


def latch(x, p):
    if x.op != 'ite' or p.args[0] in x.args[0].fvs:
        return None
    if x.args[2] is p and p.args[0] not in x.args[1].fvs:
        return x.args[0], x.args[1]
    if x.args[1] is p and p.args[0] not in x.args[2].fvs:
        return t.not_(x.args[0]), x.args[2]
    return None


# ---------------------------------------------------------------- entry points

def load_repo(repo):
    PROG.__init__()
    for root, dirs, files in os.walk(os.path.join(repo, 'gcs')):
        dirs[:] = [d for d in dirs if d not in ('tests', '__pycache__')]
        for f in sorted(files):
            if f.endswith('.py') and not f.startswith('test_'):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
                pkg = rel.endswith('.__init__')
                if pkg:
                    rel = rel[:-9]
                PROG.load(rel, p, pkg)
    p = os.path.join(repo, 'gcs_basics.py')
    if os.path.exists(p):
        PROG.load('gcs_basics', p)
    learn_attr_classes(PROG)
    return PROG


KINDS = {'ints': t.INTS, 'dims': t.DIMS, 'int': 'int', 'nat': 'nat', 'any': 'any', 'str': 'str',
         'bool': 'bool', 'dict': 'dict', 'seq': ('seq', 'any'), 'slice': 'any',
         'intss': ('seq', t.INTS), 'dimss': ('seq', t.DIMS), 'func': 'func'}


def spec_params(node):
    """Parameter variables from the annotations of a spec function."""
    env = {}
    for a in node.args.args:
        an = a.annotation
        name = a.arg
        if isinstance(an, ast.Name) and an.id in PROG.classes:
            env[name] = t.var(name, 'any', an.id)
        elif isinstance(an, ast.Name) and an.id.startswith('Int') and an.id[3:] in PROG.classes:
            env[name] = t.var(name, 'storage', an.id[3:])      # its items are integers
        else:
            k = KINDS.get(an.id if isinstance(an, ast.Name) else '', 'any')
            env[name] = t.var(name, k)
    return env
