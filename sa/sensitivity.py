"""How sensitive the obligations of a property are to changes of the code they are about.

For every function of /repo an obligation names, single edits of its syntax tree are made in memory
(a comparison, an operator, a constant, a statement, an argument changed) and the obligation is
decided again on the edited tree.  Nothing is executed and no file is written: the numbers say how
many of the edits the analysis reports as a difference (`told_apart`), how many it cannot decide
(`undecided`) and how many it finds to mean the same (`same`).  They describe the analysis only and
never decide a verdict.
"""
import ast
import copy
import random
import resource
import time

from . import oblig


def edits(fn):
    """(description, edited copy) for single changes of a function definition."""
    nodes = list(ast.walk(fn))
    for k, n in enumerate(nodes):
        for what, apply in variants(n):
            new = copy.deepcopy(fn)
            target = list(ast.walk(new))[k]
            try:
                apply(target)
                ast.fix_missing_locations(new)
            except Exception:
                continue
            yield 'line %d: %s' % (getattr(n, 'lineno', 0), what), new


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult,
       ast.Mod: ast.FloorDiv}


def variants(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
        def f(x):
            x.ops = [CMP[type(x.ops[0])]()]
        yield 'comparison %s changed' % ast.unparse(n), f
    if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
        def f(x):
            x.op = BIN[type(x.op)]()
        yield 'operator in %s changed' % ast.unparse(n), f
    if isinstance(n, ast.Constant) and type(n.value) is int:
        def f(x):
            x.value += 1
        yield 'constant %r plus one' % n.value, f
    if isinstance(n, ast.BoolOp):
        def f(x):
            x.op = ast.And() if isinstance(x.op, ast.Or) else ast.Or()
        yield 'and/or in %s exchanged' % ast.unparse(n), f
    if isinstance(n, (ast.If, ast.While)):
        def f(x):
            x.test = ast.UnaryOp(ast.Not(), x.test)
        if isinstance(n, ast.If):
            yield 'condition %s negated' % ast.unparse(n.test), f
    body = getattr(n, 'body', None)
    if isinstance(body, list):
        for i, st in enumerate(body):
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
                    isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                def f(x, i=i):
                    x.body[i] = ast.Pass()
                yield 'statement %s removed' % ast.unparse(st), f
    if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(
            isinstance(a, ast.Starred) for a in n.args):
        def f(x):
            x.args[0], x.args[1] = x.args[1], x.args[0]
        yield 'arguments of %s exchanged' % ast.unparse(n), f


def measure(an, repo, obligations, budget=420.0):
    t0 = time.time()
    counts = dict(edits=0, told_apart=0, undecided=0, same=0, not_analysable=0)
    per = {}
    todo = []
    for name in dict.fromkeys(obligations):
        o = an.done.get(name)
        sp = an.specs.get(name)
        if o is None or sp is None or o.func is None or o.verdict != 'EQUAL':
            continue
        for what, tree in edits(o.func.node):
            todo.append((name, sp, o.func, what, tree))
    random.Random(1).shuffle(todo)
    open_ = []
    for name, sp, fn, what, tree in todo:
        if time.time() - t0 > budget or \
                resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > 5e6:
            break
        counts['edits'] += 1
        old = fn.node
        fn.node = tree
        fn.__dict__.pop('_gen', None)
        try:
            v = oblig.run_spec(sp, 10.0, 2000).verdict
        except Exception:
            v = 'ERROR'
        finally:
            fn.node = old
            fn.__dict__.pop('_gen', None)
        k = {'EQUAL': 'same', 'DIFF': 'told_apart', 'UNKNOWN': 'undecided'}.get(v, 'not_analysable')
        counts[k] += 1
        d = per.setdefault(name, [0, 0])
        d[0] += 1
        d[1] += k == 'told_apart'
        if k in ('undecided', 'same') and len(open_) < 12:
            open_.append('%s %s: %s' % (name, what, k))
    counts['possible_edits'] = len(todo)
    counts['per_function'] = {k: '%d of %d edits told apart' % (b, a)
                              for k, (a, b) in sorted(per.items())}
    counts['examples_not_told_apart'] = open_
    return counts
