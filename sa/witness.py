"""Bounded search for integers that satisfy the linear facts of a region and tell two value-graph
integers apart.  Used to confirm a difference before it is reported: quotients and max(0, .) are
interpreted, every other atom stands for an arbitrary integer of its kind (the same access with
the same index has the same value)."""
import random

from . import terms as t

INTERPRETED = ('poly', 'fdiv', 'max0')


class Undefined(Exception):
    pass


def atoms(x, acc):
    if t.is_int_const(x):
        return
    if x.op in INTERPRETED:
        if x.op == 'poly':
            for m in t.to_poly(x):
                for y in m:
                    atoms(y, acc)
        else:
            for y in x.args:
                atoms(y, acc)
        return
    if x.op == 'const':
        return
    if x.dig not in acc:
        acc[x.dig] = x
        if x.op == 'idx' and t.is_int(t.kind(x.args[1])):
            atoms(x.args[1], acc)


def value(x, env):
    if x.op == 'const':
        if t.is_int_const(x):
            return t.cval(x)
        raise Undefined()
    if x.op == 'fdiv':
        b = value(x.args[1], env)
        if b == 0:
            raise Undefined()
        return value(x.args[0], env) // b
    if x.op == 'max0':
        return max(0, value(x.args[0], env))
    if x.op == 'poly':
        s = 0
        for m, c in t.to_poly(x).items():
            for y in m:
                c *= value(y, env)
            s += c
        return s
    return env[x.dig]


def monomials(rows):
    out = []
    for r in rows:
        out.append(([(m, c) for m, c in r.items() if m is not None and c], r.get(None, 0)))
    return out


def find(d, rows, neq, tries=60, steps=120):
    """An assignment with every row <= 0, every neq != 0 and d != 0, or None."""
    acc = {}
    atoms(d, acc)
    rows = monomials(rows)
    for ms, _ in rows:
        for m, _ in ms:
            for y in m:
                atoms(y, acc)
    for q in neq:
        atoms(q, acc)
    names = sorted(acc)
    if len(names) > 40:
        return None
    nat = {k for k in names if t.kind(acc[k]) == 'nat' or acc[k].op in t.NONNEG_OPS}
    fams = {}
    for k in names:
        x = acc[k]
        if x.op == 'idx' and t.is_int(t.kind(x.args[1])):
            fams.setdefault(x.args[0].dig, []).append(x)
    fams = [v for v in fams.values() if len(v) > 1]
    rng = random.Random(7)

    def rowval(row, env):
        s = row[1]
        for m, c in row[0]:
            for y in m:
                c *= value(y, env)
            s += c
        return s

    def rowatoms(row):
        a = {}
        for m, _ in row[0]:
            for y in m:
                atoms(y, a)
        return list(a)
    datoms = {}
    atoms(d, datoms)
    datoms = list(datoms) or names

    def bad(env):
        """(number of violated constraints, one of them as a list of atoms)"""
        worst, n = None, 0
        for r in rows:
            if rowval(r, env) > 0:
                n += 1
                if worst is None or rng.random() < 1.0 / n:
                    worst = rowatoms(r)
        for q in neq:
            if value(q, env) == 0:
                n += 1
                a = {}
                atoms(q, a)
                worst = worst or list(a)
        for fam in fams:
            for i, x in enumerate(fam):
                for y in fam[i + 1:]:
                    if env[x.dig] != env[y.dig] and value(x.args[1], env) == value(
                            y.args[1], env):
                        n += 1
                        worst = worst or [x.dig, y.dig]
        if value(d, env) == 0:
            n += 1
            worst = worst or datoms
        return n, worst

    def score(env):
        try:
            return bad(env)
        except Undefined:
            return 10 ** 6, names
    for k in range(tries):
        hi = 2 if k < tries // 3 else (5 if k < 2 * tries // 3 else 12)
        env = {x: rng.randint(0 if x in nat else -hi, hi) for x in names}
        n, w = score(env)
        for _ in range(steps):
            if n == 0:
                return {acc[x]: v for x, v in env.items()}
            x = rng.choice(w or names)
            best = None
            cur = env[x]
            for v in sorted({cur - 1, cur + 1, cur - 2, cur + 2, 0, 1, -1, -cur,
                             rng.randint(-hi, hi)}):
                if v == cur or (x in nat and v < 0):
                    continue
                env[x] = v
                n2, w2 = score(env)
                if best is None or n2 < best[0] or (n2 == best[0] and rng.random() < .4):
                    best = (n2, v, w2)
            env[x] = cur
            if best is not None and (best[0] <= n or rng.random() < .2):
                env[x] = best[1]
                n, w = best[0], best[2]
    return None
