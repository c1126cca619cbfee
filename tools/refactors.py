"""Behaviour-preserving rewrites of the repository's functions (calibration: never an alarm).

python3 tools/refactors.py REPO OUTDIR [pattern]"""
import ast, copy, multiprocessing as mp, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from tools.mutants import FILES, judge, replace

FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq,
        ast.NotEq: ast.NotEq}
NEG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
       ast.NotIn: ast.In}


def negate(e):
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        return ast.Compare(e.left, [NEG[type(e.ops[0])]()], e.comparators)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


def stmts(s):
    return ast.parse(s).body


def local_names(fn):
    a = fn.args
    ps = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
    nested = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            nested |= {x.arg for x in n.args.args}
            if isinstance(n, ast.FunctionDef):
                nested.add(n.name)
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in ps and \
                n.id not in nested and n.id not in out:
            out.append(n.id)
    return out


def bodies(fn):
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def pure(e):
    return not any(isinstance(n, (ast.Call, ast.Yield, ast.Lambda, ast.ListComp,
                                  ast.GeneratorExp, ast.NamedExpr)) for n in ast.walk(e))


def rewrites(fn):
    nodes = list(ast.walk(fn))

    def at(i, change, what):
        c = copy.deepcopy(fn)
        m = list(ast.walk(c))[i]
        if change(m, c) is False:
            return None
        return getattr(nodes[i], 'lineno', fn.lineno), what, ast.fix_missing_locations(c)

    def whole(change, what):
        c = copy.deepcopy(fn)
        if change(c) is False:
            return None
        return fn.lineno, what, ast.fix_missing_locations(c)

    start = 1 if ast.get_docstring(fn) else 0
    for s in ('pass', '_unused = None', 'None', 'if False:\n    pass', 'assert True', '0',
              '_ = 0\ndel _', 'for _ in ():\n    pass', '_tmp = 1 + 1', "'note'"):
        yield whole(lambda c, s=s: c.body.__setitem__(slice(start, start), stmts(s)),
                    'insert %r' % s)
    yield whole(lambda c: c.body.__setitem__(slice(len(c.body), len(c.body)), stmts('pass')),
                'append pass') if not ends(fn.body) else None
    if not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in nodes) and not ends(fn.body):
        yield whole(lambda c: c.body.append(ast.Return(ast.Constant(None))), 'return None at end')

    def rename(c):
        for k, nm in enumerate(local_names(fn)):
            for n in ast.walk(c):
                if isinstance(n, ast.Name) and n.id == nm:
                    n.id = 'local_%d' % k
    if local_names(fn):
        yield whole(rename, 'rename locals')

    def noop_everywhere(c):
        for _, _, b in list(bodies(c)):
            i = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
            b.insert(i, ast.Pass())
    yield whole(noop_everywhere, 'pass in every block')

    for i, n in enumerate(nodes):
        if isinstance(n, ast.If):
            def inv(m, c):
                m.test = negate(m.test)
                m.body, m.orelse = (m.orelse or [ast.Pass()]), m.body
            yield at(i, inv, 'invert if ' + ast.unparse(n.test)[:50])
            if ends(n.body) and n.orelse:
                def unelse(m, c):
                    for _, _, b in bodies(c):
                        if m in b:
                            k = b.index(m)
                            b[k + 1:k + 1] = m.orelse
                            m.orelse = []
                            return
                    return False
                if not (len(n.orelse) == 1 and False):
                    yield at(i, unelse, 'drop else after exit ' + ast.unparse(n.test)[:50])
            if ends(n.body) and not n.orelse:
                def toelse(m, c):
                    for _, _, b in bodies(c):
                        if m in b:
                            k = b.index(m)
                            rest = b[k + 1:]
                            if not rest:
                                return False
                            m.orelse = rest
                            del b[k + 1:]
                            return
                    return False
                yield at(i, toelse, 'else for the rest ' + ast.unparse(n.test)[:50])
            if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and \
                    not n.orelse:
                def nest(m, c):
                    vs = m.test.values
                    first, rest = vs[0], vs[1:]
                    inner = ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest),
                                   m.body, [])
                    m.test, m.body = first, [inner]
                yield at(i, nest, 'nest and ' + ast.unparse(n.test)[:50])

            def hoist(m, c):
                for _, _, b in bodies(c):
                    if m in b:
                        k = b.index(m)
                        b.insert(k, ast.Assign([ast.Name('cond_', ast.Store())], m.test))
                        m.test = ast.Name('cond_', ast.Load())
                        return
                return False
            is_elif = any(isinstance(p, ast.If) and p.orelse and p.orelse[0] is n and
                          len(p.orelse) == 1 for p in nodes)
            if not is_elif:
                yield at(i, hoist, 'hoist condition ' + ast.unparse(n.test)[:50])
        elif isinstance(n, ast.IfExp):
            def invx(m, c):
                m.test, m.body, m.orelse = negate(m.test), m.orelse, m.body
            yield at(i, invx, 'invert ifexp')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP:
            def flip(m, c):
                m.left, m.comparators = m.comparators[0], [m.left]
                m.ops = [FLIP[type(m.ops[0])]()]
            yield at(i, flip, 'flip ' + ast.unparse(n)[:60])

            def nn(m, c):
                replace(m, ast.UnaryOp(ast.Not(), negate(copy.deepcopy(m))))
            yield at(i, nn, 'not-neg ' + ast.unparse(n)[:60])
        elif isinstance(n, ast.BoolOp):
            def dm(m, c):
                op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
                replace(m, ast.UnaryOp(ast.Not(), ast.BoolOp(op, [negate(v) for v in m.values])))
            par_if = any(isinstance(p, (ast.If, ast.While, ast.Assert)) and p.test is n
                         for p in nodes)
            if par_if:
                yield at(i, dm, 'de morgan ' + ast.unparse(n)[:60])
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult,)):
            def comm(m, c):
                m.left, m.right = m.right, m.left
            yield at(i, comm, 'commute ' + ast.unparse(n)[:60])
        elif isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name):
                def aug(m, c):
                    replace(m, ast.Assign([m.target], ast.BinOp(
                        ast.Name(m.target.id, ast.Load()), m.op, m.value)))
                yield at(i, aug, 'expand ' + ast.unparse(n)[:60])
        elif isinstance(n, ast.Assign) and len(n.targets) == 1:
            if isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and \
                    len(n.targets[0].elts) == len(n.value.elts):
                tn = {x.id for t_ in n.targets[0].elts for x in ast.walk(t_)
                      if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                vn = {x.id for v in n.value.elts for x in ast.walk(v) if isinstance(x, ast.Name)}
                if not tn & vn:
                    def split(m, c):
                        for _, _, b in bodies(c):
                            if m in b:
                                k = b.index(m)
                                b[k:k + 1] = [ast.Assign([x], y) for x, y in
                                              zip(m.targets[0].elts, m.value.elts)]
                                return
                    yield at(i, split, 'split ' + ast.unparse(n)[:60])

            def viatmp(m, c):
                for _, _, b in bodies(c):
                    if m in b:
                        k = b.index(m)
                        b.insert(k, ast.Assign([ast.Name('tmp_', ast.Store())], m.value))
                        m.value = ast.Name('tmp_', ast.Load())
                        return
            yield at(i, viatmp, 'via temporary ' + ast.unparse(n)[:60])
        elif isinstance(n, ast.Return) and n.value is not None:
            def ret(m, c):
                for _, _, b in bodies(c):
                    if m in b:
                        k = b.index(m)
                        b.insert(k, ast.Assign([ast.Name('result_', ast.Store())], m.value))
                        m.value = ast.Name('result_', ast.Load())
                        return
            yield at(i, ret, 'result variable ' + ast.unparse(n)[:60])
            if isinstance(n.value, ast.IfExp):
                def retif(m, c):
                    x = m.value
                    replace(m, ast.If(x.test, [ast.Return(x.body)], [ast.Return(x.orelse)]))
                yield at(i, retif, 'return if/else')
        elif isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and \
                isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and \
                isinstance(n.target, ast.Name) and len(n.iter.args) <= 2 and not n.orelse:
            has_cont = any(isinstance(x, ast.Continue) for x in ast.walk(n))

            def towhile(m, c):
                for _, _, b in bodies(c):
                    if m in b:
                        k = b.index(m)
                        lo = ast.Constant(0) if len(m.iter.args) == 1 else m.iter.args[0]
                        hi = m.iter.args[-1]
                        v = m.target.id
                        b[k:k + 1] = [
                            ast.Assign([ast.Name('end_' + v, ast.Store())], hi),
                            ast.Assign([ast.Name(v, ast.Store())], lo),
                            ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()],
                                                  [ast.Name('end_' + v, ast.Load())]),
                                      m.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(),
                                                              ast.Constant(1))], [])]
                        return
            # the loop variable must not be used after the loop
            if not has_cont and sum(1 for x in nodes if isinstance(x, ast.Name)
                                    and x.id == n.target.id) == sum(
                    1 for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == n.target.id):
                yield at(i, towhile, 'while for ' + ast.unparse(n.iter)[:60])
            lens = n.iter.args[0] if len(n.iter.args) == 1 else None
            if isinstance(lens, ast.Call) and isinstance(lens.func, ast.Name) and \
                    lens.func.id == 'len':
                def enum(m, c):
                    s = m.iter.args[0].args[0]
                    m.target = ast.Tuple([m.target, ast.Name('item_', ast.Store())], ast.Store())
                    m.iter = ast.Call(ast.Name('enumerate', ast.Load()), [s], [])
                    for x in m.body:
                        for y in ast.walk(x):
                            if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Load) and \
                                    ast.unparse(y.value) == ast.unparse(s) and \
                                    isinstance(y.slice, ast.Name) and \
                                    y.slice.id == m.target.elts[0].id:
                                replace(y, ast.Name('item_', ast.Load()))
                if pure(lens.args[0]):
                    yield at(i, enum, 'enumerate ' + ast.unparse(n.iter)[:60])
        elif isinstance(n, ast.GeneratorExp) and any(
                isinstance(p, ast.Call) and isinstance(p.func, ast.Name)
                and p.func.id in ('tuple', 'list', 'sum', 'set', 'all', 'any') and p.args
                and p.args[0] is n for p in nodes):
            def tolist(m, c):
                replace(m, ast.ListComp(m.elt, m.generators))
            yield at(i, tolist, 'list for generator ' + ast.unparse(n)[:60])
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'tuple' \
                and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and \
                len(n.args[0].generators) == 1:
            def loop(m, c):
                st = None
                for _, _, b in bodies(c):
                    for s in b:
                        if not isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)):
                            continue
                        if any(x is m for x in ast.walk(s)) and not any(
                                isinstance(x, (ast.Lambda, ast.ListComp)) or (
                                    isinstance(x, ast.GeneratorExp) and x is not m.args[0])
                                for x in ast.walk(s)):
                            st = (b, b.index(s))
                if st is None:
                    return False
                b, k = st
                g = m.args[0]
                gen = g.generators[0]
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name('acc_', ast.Load()), 'append',
                                                        ast.Load()), [g.elt], []))]
                for cnd in reversed(gen.ifs):
                    body = [ast.If(cnd, body, [])]
                b[k:k] = [ast.Assign([ast.Name('acc_', ast.Store())], ast.List([], ast.Load())),
                          ast.For(gen.target, gen.iter, body, [])]
                m.args = [ast.Name('acc_', ast.Load())]
            yield at(i, loop, 'loop for tuple(...) ' + ast.unparse(n)[:60])
        elif isinstance(n, ast.ListComp) and len(n.generators) == 1:
            def tolist2(m, c):
                replace(m, ast.Call(ast.Name('list', ast.Load()),
                                    [ast.GeneratorExp(m.elt, m.generators)], []))
            yield at(i, tolist2, 'list(generator) ' + ast.unparse(n)[:60])
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and \
                isinstance(n.value, ast.Attribute) and pure(n.value):
            pass
        # extract a helper for an expression over local names
        if isinstance(n, (ast.BinOp, ast.Compare, ast.Call)) and not isinstance(n, ast.Starred):
            free = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name)
                           and isinstance(x.ctx, ast.Load)})
            loc = {x.id for x in nodes if isinstance(x, ast.Name)
                   and isinstance(x.ctx, ast.Store)} | {
                a.arg for x in nodes if isinstance(x, (ast.FunctionDef, ast.Lambda))
                for a in x.args.args} | {x.name for x in nodes
                                         if isinstance(x, ast.FunctionDef) and x is not fn}
            inner = {x.id for g in ast.walk(n) if isinstance(g, ast.comprehension)
                     for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            enclosing_comp = any(isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.Lambda))
                                 and any(x is n for x in ast.walk(p)) for p in nodes)
            if any(isinstance(x, (ast.Yield, ast.Lambda, ast.NamedExpr)) for x in ast.walk(n)):
                continue
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ('append', 'extend', 'update'):
                continue
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super':
                continue
            ps = [x for x in free if x in loc and x not in inner]
            if 'cls' in ps or len(ps) > 5:
                continue
            if enclosing_comp and isinstance(n, ast.Call):
                continue
            h = 'helper_%d' % i

            def extract(m, c, ps=ps, h=h):
                e = copy.deepcopy(m)
                hd = ast.FunctionDef(h, ast.arguments([], [ast.arg(p) for p in ps], None, [], [],
                                                      None, []), [ast.Return(e)], [])
                replace(m, ast.Call(ast.Name(h, ast.Load()), [ast.Name(p, ast.Load())
                                                              for p in ps], []))
                c.helper = hd
            r = at(i, extract, 'helper for ' + ast.unparse(n)[:60])
            yield r


def generate(repo, pat):
    for rel in FILES:
        src = open(os.path.join(repo, rel)).read()
        tree = ast.parse(src)
        fns = []
        for st in tree.body:
            if isinstance(st, ast.FunctionDef):
                fns.append((st.name, tree.body, st, None))
            elif isinstance(st, ast.ClassDef):
                for m in st.body:
                    if isinstance(m, ast.FunctionDef):
                        fns.append((st.name + '.' + m.name, st.body, m, st))
        for name, body, fn, cls in fns:
            q = rel + ':' + name
            if pat and pat not in q:
                continue
            i = body.index(fn)
            for r in rewrites(fn):
                if r is None:
                    continue
                line, what, c = r
                body[i] = c
                hd = getattr(c, 'helper', None)
                if hd is not None:
                    tree.body.append(hd)
                try:
                    text = ast.unparse(ast.fix_missing_locations(tree))
                    ast.parse(text)
                except Exception as e:
                    text = None
                body[i] = fn
                if hd is not None:
                    tree.body.pop()
                if text:
                    yield rel, q, line, what, text


if __name__ == '__main__':
    repo, out = sys.argv[1:3]
    pat = sys.argv[3] if len(sys.argv) > 3 else ''
    os.makedirs(out, exist_ok=True)
    items = [(n,) + x + (repo, out) for n, x in enumerate(generate(repo, pat))]
    print(len(items), 'rewrites')
    with mp.Pool(8, maxtasksperchild=8) as pool, open(out + '/results.txt', 'w') as fh:
        cnt = {}
        for r in pool.imap_unordered(judge, items, 4):
            v = {'CAUGHT': 'ALARM', 'UNKNOWN': 'UNKNOWN', 'MISSED': 'OK'}.get(r[4], r[4])
            cnt[v] = cnt.get(v, 0) + 1
            if v != 'OK':
                fh.write('%s %s:%d %s :: %s\n' % (v, r[1], r[2], r[3].replace('\n', ' '),
                                                  '; '.join(r[5])[:300]))
                fh.flush()
                os.makedirs(out + '/src', exist_ok=True)
                open('%s/src/%d.py' % (out, r[0]), 'w').write('# %s %s %d %s\n' % (
                    v, r[1], r[2], r[3].replace('\n', ' ')) + items[r[0]][5])
        print(cnt)
