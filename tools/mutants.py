"""Syntax-level mutants of the repository's functions (for calibrating the analyser only).

python3 tools/mutants.py REPO OUTDIR [function pattern]: writes OUTDIR/results.txt"""
import ast, copy, multiprocessing as mp, os, shutil, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
FILES = ['gcs/slice_tools.py', 'gcs/storage.py', 'gcs_basics.py', 'gcs/_version.py']
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult],
       ast.Mod: [ast.FloorDiv]}


def mutants_of(fn):
    """(description, mutated copy of fn)"""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def mk(change, what):
            c = copy.deepcopy(fn)
            m = list(ast.walk(c))[i]
            if change(m) is False:
                return None
            return (getattr(n, 'lineno', fn.lineno), what, ast.fix_missing_locations(c))
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for k in CMP.get(type(op), []):
                    yield mk(lambda m, j=j, k=k: m.ops.__setitem__(j, k()),
                             'cmp %s -> %s' % (ast.unparse(n), k.__name__))
        elif isinstance(n, ast.BinOp):
            for k in BIN.get(type(n.op), []):
                yield mk(lambda m, k=k: setattr(m, 'op', k()),
                         'bin %s -> %s' % (ast.unparse(n), k.__name__))
            if isinstance(n.op, (ast.Add, ast.Sub)):
                yield mk(lambda m: (m.__dict__.update(copy.deepcopy(m.left).__dict__),
                                    setattr(m, '__class__', type(m.left)))[0]
                         if False else replace(m, m.left), 'drop right of ' + ast.unparse(n))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield mk(lambda m: setattr(m, 'value', not m.value), 'const %r' % n.value)
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            yield mk(lambda m: setattr(m, 'value', m.value + 1), 'const %r + 1' % n.value)
            yield mk(lambda m: setattr(m, 'value', m.value - 1), 'const %r - 1' % n.value)
        elif isinstance(n, ast.BoolOp):
            yield mk(lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And)
                                       else ast.And()), 'boolop ' + ast.unparse(n))
            for j in range(len(n.values)):
                yield mk(lambda m, j=j: (m.values.pop(j) and None) if len(m.values) > 2 else
                         replace(m, m.values[1 - j]), 'drop %s of %s' % (
                             ast.unparse(n.values[j]), ast.unparse(n)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield mk(lambda m: replace(m, m.operand), 'drop op of ' + ast.unparse(n))
        elif isinstance(n, ast.If):
            yield mk(lambda m: setattr(m, 'test', ast.Constant(True)),
                     'if True: ' + ast.unparse(n.test))
            yield mk(lambda m: setattr(m, 'test', ast.Constant(False)),
                     'if False: ' + ast.unparse(n.test))
        elif isinstance(n, ast.IfExp):
            yield mk(lambda m: replace(m, m.body), 'ifexp body ' + ast.unparse(n))
            yield mk(lambda m: replace(m, m.orelse), 'ifexp orelse ' + ast.unparse(n))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                for j in range(len(n.args) - 1):
                    def sw(m, j=j):
                        m.args[j], m.args[j + 1] = m.args[j + 1], m.args[j]
                    yield mk(sw, 'swap args %d of %s' % (j, ast.unparse(n)))
            for j, k in enumerate(n.keywords):
                yield mk(lambda m, j=j: m.keywords.pop(j) and None, 'drop kw %s of %s' % (
                    k.arg, ast.unparse(n)))
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                yield mk(lambda m: replace(m, m.func.value), 'drop call ' + ast.unparse(n))
            if isinstance(n.func, ast.Name) and len(n.args) == 1 and n.func.id in (
                    'sorted', 'tuple', 'list', 'set', 'abs'):
                yield mk(lambda m: replace(m, m.args[0]), 'unwrap ' + ast.unparse(n))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break,
                            ast.Assert, ast.Raise)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            yield mk(lambda m: replace(m, ast.Pass()), 'delete ' + ast.unparse(n)[:80])
        elif isinstance(n, ast.Return) and n.value is not None:
            yield mk(lambda m: setattr(m, 'value', ast.Constant(None)), 'return None for '
                     + ast.unparse(n)[:60])


def replace(m, other):
    other = copy.deepcopy(other)
    m.__class__ = other.__class__
    m.__dict__.clear()
    m.__dict__.update(other.__dict__)


def generate(repo, pat):
    for rel in FILES:
        src = open(os.path.join(repo, rel)).read()
        tree = ast.parse(src)
        fns = []
        for st in tree.body:
            if isinstance(st, ast.FunctionDef):
                fns.append((st.name, tree.body, st))
            elif isinstance(st, ast.ClassDef):
                for m in st.body:
                    if isinstance(m, ast.FunctionDef):
                        fns.append((st.name + '.' + m.name, st.body, m))
        for name, body, fn in fns:
            q = rel + ':' + name
            if pat and pat not in q:
                continue
            i = body.index(fn)
            for r in mutants_of(fn):
                if r is None:
                    continue
                line, what, c = r
                body[i] = c
                try:
                    text = ast.unparse(ast.fix_missing_locations(tree))
                    ast.parse(text)
                except Exception:
                    body[i] = fn
                    continue
                body[i] = fn
                yield rel, q, line, what, text


def judge(item):
    n, rel, q, line, what, text, repo, out = item
    d = os.path.join(out, 'w%d' % os.getpid())
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, 'gcs'))
        for f in FILES + ['gcs/__init__.py']:
            shutil.copy(os.path.join(repo, f), os.path.join(d, f))
    with open(os.path.join(d, rel), 'w') as fh:
        fh.write(text)
    res = []

    def run():
        import check
        from sa import plan
        an = check.Analysis(d, 20.0, 4000)
        diff, unk = [], []
        for name in an.specs:
            o = an.obligation(name)
            if o.verdict == 'DIFF':
                diff.append(name)
            elif o.verdict != 'EQUAL':
                unk.append(name + '(' + o.why[:60] + ')')
        for rn in ('sharing', 'views', 'effects', 'interface', 'iteration', 'termination'):
            r = an.rule(rn)
            if rn == 'interface':
                r.violations = [v for v in r.violations if not v['key'].startswith('C2SR lacks')]
            diff += [rn + '!' + v['construct'] for v in r.violations]
            unk += [rn + '?' + v['construct'] for v in r.undecided]
        res.append((diff, unk))
    sys.setrecursionlimit(25000)
    threading.stack_size(256 << 20)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    shutil.copy(os.path.join(repo, rel), os.path.join(d, rel))
    if not res:
        return n, q, line, what, 'CRASH', []
    diff, unk = res[0]
    return n, q, line, what, 'CAUGHT' if diff else ('UNKNOWN' if unk else 'MISSED'), diff or unk


if __name__ == '__main__':
    repo, out = sys.argv[1:3]
    pat = sys.argv[3] if len(sys.argv) > 3 else ''
    os.makedirs(out, exist_ok=True)
    items = [(n,) + x + (repo, out) for n, x in enumerate(generate(repo, pat))]
    print(len(items), 'mutants')
    with mp.Pool(8, maxtasksperchild=8) as pool, open(out + '/results.txt', 'w') as fh:
        cnt = {}
        for r in pool.imap_unordered(judge, items, 4):
            cnt[r[4]] = cnt.get(r[4], 0) + 1
            fh.write('%s %s:%d %s :: %s\n' % (r[4], r[1], r[2], r[3].replace('\n', ' '),
                                              '; '.join(r[5])[:300]))
            fh.flush()
            if r[4] != 'CAUGHT':
                os.makedirs(out + '/src', exist_ok=True)
                open('%s/src/%d.py' % (out, r[0]), 'w').write('# %s %s %d %s\n' % (
                    items[r[0]][1], r[1], r[2], r[3].replace('\n', ' ')) + items[r[0]][5])
        print(cnt)
