"""Spellings of the same program brought to one form before evaluation.

- `add = xs.append` ... `add(y)`        ->  `xs.append(y)`
- `for x in xs: x.append(y)`            ->  `for k, x in enumerate(xs): xs[k].append(y)`
  (also through zip and enumerate; xs a name the loop does not rebind)
"""
import ast
import copy

MUT = ('append', 'extend', 'insert', 'add', 'update', 'pop', 'sort', 'reverse', 'remove',
       'clear', 'setdefault', 'discard', 'popitem', '__setitem__')


def stores(node):
    return [n.id for n in ast.walk(node) if isinstance(n, ast.Name) and
            not isinstance(n.ctx, ast.Load)]


def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [
        y for y in (a.vararg, a.kwarg) if y]}


def bound_aliases(fn):
    """name -> the attribute node it stands for"""
    out = {}
    count = {}
    for k in stores(fn):
        count[k] = count.get(k, 0) + 1
    ps = params(fn)
    for st in ast.walk(fn):
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(
                st.targets[0], ast.Name) and isinstance(st.value, ast.Attribute) and \
                st.value.attr in MUT and isinstance(st.value.value, ast.Name):
            k, x = st.targets[0].id, st.value.value.id
            if count.get(k) == 1 and k not in ps and count.get(x, 0) + (x in ps) == 1:
                out[k] = st
    calls = {id(n.func) for n in ast.walk(fn) if isinstance(n, ast.Call)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in out and \
                id(n) not in calls:
            del out[n.id]
    return out


class Replace(ast.NodeTransformer):
    def __init__(self, m, drop=()):
        self.m, self.drop = m, drop

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.m:
            return ast.copy_location(copy.deepcopy(self.m[n.id]), n)
        return n

    def visit_Assign(self, n):
        if id(n) in self.drop:
            return ast.copy_location(ast.Pass(), n)
        return self.generic_visit(n)


def updated(body):
    """Names whose object is updated in place through the name itself."""
    out = set()
    for b in body:
        for x in ast.walk(b):
            r = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr in MUT:
                r = x.func.value
            elif isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
                r = x.value
            while isinstance(r, ast.Subscript):
                r = r.value
            if isinstance(r, ast.Name):
                out.add(r.id)
    return out


def sources(target, it):
    """(loop variable, name of the container it is an item of)"""
    def called(x, name):
        return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
            x.func.id == name and not x.keywords and not any(
                isinstance(a, ast.Starred) for a in x.args)
    if isinstance(target, ast.Name) and isinstance(it, ast.Name):
        return [(target.id, it.id)]
    if isinstance(target, ast.Tuple):
        if called(it, 'zip') and len(it.args) == len(target.elts):
            return [(a.id, b.id) for a, b in zip(target.elts, it.args)
                    if isinstance(a, ast.Name) and isinstance(b, ast.Name)]
        if called(it, 'enumerate') and len(it.args) == 1 and len(target.elts) == 2:
            return sources(target.elts[1], it.args[0])
    return []


class Items(ast.NodeTransformer):
    def __init__(self, ps):
        self.n = 0
        self.ps = ps

    def visit_For(self, st):
        st = self.generic_visit(st)
        up = updated(st.body)
        hit = [(a, x) for a, x in sources(st.target, st.iter) if a in up]
        if not hit or st.orelse:
            return st
        bound = {s for b in st.body for s in stores(b)}
        tg = stores(st.target)
        if any(a in bound or x in bound or x in tg or tg.count(a) != 1 for a, x in hit):
            return st
        self.n += 1
        k = '__item%d' % self.n
        m = {a: ast.Subscript(ast.Name(x, ast.Load()), ast.Name(k, ast.Load()), ast.Load())
             for a, x in hit}
        body = [Replace(m).visit(b) for b in st.body]
        new = ast.For(target=ast.Tuple([ast.Name(k, ast.Store()), st.target], ast.Store()),
                      iter=ast.Call(ast.Name('enumerate', ast.Load()), [st.iter], []),
                      body=body, orelse=[])
        return ast.fix_missing_locations(ast.copy_location(new, st))


def function(fn):
    """The function, or a rewritten copy of it."""
    al = bound_aliases(fn)
    loops = any(isinstance(n, ast.For) and any(a in updated(n.body)
                for a, _ in sources(n.target, n.iter)) for n in ast.walk(fn))
    if not al and not loops:
        return fn
    out = copy.deepcopy(fn)
    if al:
        al = bound_aliases(out)
        out = Replace({k: st.value for k, st in al.items()},
                      {id(st) for st in al.values()}).visit(out)
    if loops:
        out = Items(params(out)).visit(out)
    return ast.fix_missing_locations(out)
