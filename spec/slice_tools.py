"""Specification of gcs/slice_tools.py (parsed by the checker, never executed)."""
MODULE = 'gcs.slice_tools'


# Python's own normalisation of a slice against an axis, with negative-step slices kept in the
# negative index range so that the stop before the first element stays expressible.
@spec('reduced', mode='atomic', slice_rel='size')
def reduced(s: slice, size: nat):
    assume(isinstance(s, slice))
    assume(s.step != 0)
    step = 1 if s.step is None else s.step
    if step > 0:
        if s.start is None:
            start = 0
        else:
            start = min(max(s.start + size if s.start < 0 else s.start, 0), size)
        if s.stop is None:
            stop = size
        else:
            stop = min(max(s.stop + size if s.stop < 0 else s.stop, 0), size)
        if stop <= start:
            return slice(0, 0, 1)
        return slice(start, stop, min(step, size))
    if s.start is None:
        start = -1
    else:
        start = max(min(s.start if s.start < 0 else s.start - size, -1), -size - 1)
    if s.stop is None:
        stop = -size - 1
    else:
        stop = max(min(s.stop if s.stop < 0 else s.stop - size, -1), -size - 1)
    if stop >= start:
        return slice(0, 0, 1)
    return slice(start, stop, max(step, -size))


# number of elements of a reduced slice: ceiling division of the extent by the step
@spec('nitems', mode='inline')
def nitems(s: slice, size: nat, reduce: any = True):
    assume(s.step != 0)
    assume(reduced(s, size).step != 0)
    r = reduced(s, size) if reduce else s
    if r.start == r.stop:
        return 0
    if r.step > 0:
        return max(0, (r.stop - r.start + r.step - 1) // r.step)
    return max(0, (r.stop - r.start + r.step + 1) // r.step)


@spec('apply_slices')
def apply_slices(slices: seq, shape: dims, strides: ints):
    assume(len(slices) == len(shape))
    assume(len(strides) == len(shape))
    n = len(shape)
    for i in range(n):
        if not (isinstance(slices[i], int) or isinstance(slices[i], slice) or slices[i] is None):
            raise ValueError
    new_shape = tuple(shape[i] if slices[i] is None
                      else nitems(reduced(slices[i], shape[i]), shape[i], reduce=False)
                      for i in range(n) if not isinstance(slices[i], int))
    new_strides = tuple(strides[i] if slices[i] is None
                        else strides[i] * reduced(slices[i], shape[i]).step
                        for i in range(n) if not isinstance(slices[i], int))
    offset = sum(axis_offset(slices[i], shape[i], strides[i]) for i in range(n))
    return new_shape, new_strides, offset


def axis_offset(ind, size, stride):
    if isinstance(ind, int):
        return stride * (ind % size)
    if isinstance(ind, slice):
        return stride * (reduced(ind, size).start % size if size else 0)
    return 0


@spec('shape_strided')
def shape_strided(index: seq, shape: dims):
    assume(len(index) == len(shape))
    return tuple(shape[i] if index[i] is None else nitems(index[i], shape[i], reduce=False)
                 for i in range(len(shape)) if isinstance(index[i], slice) or index[i] is None)


def is_reduced(s, size):
    if s.step < 0:
        return -size - 1 <= s.stop < s.start < 0
    return s.step > 0 and (0 <= s.start < s.stop <= size or s.start == s.stop == 0)


@spec('index_strided')
def index_strided(index: seq, shape: dims, strides: ints, offset: int = 0):
    assume(len(index) == len(shape))
    assume(len(strides) == len(shape))
    n = len(shape)
    assume(all(is_reduced(index[i], shape[i]) for i in range(n) if isinstance(index[i], slice)))
    for i in range(n):
        if not (isinstance(index[i], int) or isinstance(index[i], slice) or index[i] is None):
            raise ValueError
    new_shape = tuple(shape[i] if index[i] is None else nitems(index[i], shape[i], reduce=False)
                      for i in range(n) if not isinstance(index[i], int))
    new_strides = tuple(strides[i] if index[i] is None else strides[i] * index[i].step
                        for i in range(n) if not isinstance(index[i], int))
    moved = sum(strides[i] * index[i] if isinstance(index[i], int) else
                (strides[i] * (index[i].start % shape[i] if shape[i] else 0)
                 if isinstance(index[i], slice) else 0) for i in range(n))
    return new_shape, new_strides, offset + moved


@spec('normalize_index', length='shape')
def normalize_index(index: any, shape: dims):
    n = len(shape)
    if isinstance(index, int):
        return (index % shape[0],) + (None,) * (n - 1)
    if isinstance(index, slice):
        return (reduced(index, shape[0]),) + (None,) * (n - 1)
    if index is None:
        return (None,) * n
    assume(len(index) <= n)
    for i in range(len(index)):
        if not (isinstance(index[i], int) or isinstance(index[i], slice) or index[i] is None):
            raise ValueError
    return tuple((index[i] % shape[i] if isinstance(index[i], int) else
                  reduced(index[i], shape[i]) if isinstance(index[i], slice) else None)
                 if i < len(index) else None for i in range(n))


@spec('extgcd')
def extgcd(a: int, b: int):
    if a == 0:
        return b, 0, 1
    g, x, y = extgcd(b % a, a)
    return g, y - (b // a) * x, x


@spec('dot')
def dot(a: ints, b: ints):
    assume(len(a) == len(b))
    return sum(a[i] * b[i] for i in range(len(a)))


@spec('axpy', length='x')
def axpy(a: int, x: ints, y: ints):
    assume(len(x) == len(y))
    return tuple(a * x[i] + y[i] for i in range(len(x)))


@spec('diophantine')
def diophantine(a: ints, c: int):
    data = init_diophantine(a)
    d, z0, zs = data[0], data[1], data[2]
    if c % d != 0:
        return None, ()
    return tuple(z * (c // d) for z in z0), zs


@spec('init_diophantine', mode='kept')
def init_diophantine(a: ints, shape: any = None):
    pass


@spec('solve_index')
def solve_index(pos: int, shape: dims, strides: ints, data: any = None):
    assume(len(strides) == len(shape))
    if data is None:
        data = init_diophantine(strides, shape)
    d, z0, zs, D, b, s = data
    assert not shape or s is not None       # what init_diophantine prepares for a given shape
    if not shape and pos:
        return None
    if pos % d != 0:
        return None
    k = pos // d
    n = len(zs)
    for dt in itertools.product(*(((0, 1),) * n)):
        index = axpy(k, z0, [0] * len(z0))
        for i in range(n):
            if s is not None:
                t = (b[i] * k + s[i]) // D[i] + dt[i]
            else:
                t = (b[i] * k) // D[i] + dt[i]
            index = axpy(t, zs[i], index)
        if all(0 <= index[i] < shape[i] for i in range(len(shape))):
            return index
    return None


@spec('_init_diophantine')
def init_recursion(a: ints):
    if len(a) <= 1:
        return []
    d, x0, y0 = extgcd(a[0], a[1])
    xs = -(a[1] // d)
    ys = a[0] // d
    rest = _init_diophantine((d,) + a[2:])
    zs = rest[-1][-1] if rest else ((),)
    z0 = rest[-1][-2] if rest else (1,)
    first = (xs,) + tuple(x0 * z for z in zs[0])
    second = (ys,) + tuple(y0 * z for z in zs[0])
    others = tuple((0,) + z for z in zs[1:])
    return rest + [(d, x0, y0, xs, ys, (x0 * z0[0], y0 * z0[0]) + z0[1:],
                    (first, second) + others)]


# the elimination that restricts the solutions of the stride equation to the bounds of the axes
@spec('init_diophantine', name='gcs.slice_tools:init_diophantine', extra=True, asserts=False)
def init_solver(a: ints, shape: any = None):
    if len(a) == 0:
        return 1, (), (), (), (), None
    if shape is not None and 0 in shape:
        return 1, (0,) * len(a), (), (), (), shape
    if len(a) == 1:
        return a[0], (1,), (), (), (), shape
    steps = _init_diophantine(a)
    d = steps[0][0]
    z0 = steps[-1][-2]
    zs = tuple(zip(*steps[-1][-1]))
    N = len(a)
    n = len(zs)
    m = 2 * N + 1 if shape is None else 2 * N + 2
    A = dict()
    for i in range(N):
        for j in range(n):
            A[i, j] = zs[j][i]
            A[N + i, j] = -zs[j][i]
        for j in range(2 * N - n):
            A[i, n + j] = int(i == j)
            A[N + i, n + j] = int(i == j - N)
        A[i, 2 * N] = -z0[i]
        A[N + i, 2 * N] = z0[i]
        if shape is not None:
            A[i, 2 * N + 1] = 0
            A[N + i, 2 * N + 1] = 1 - shape[i]
    for i in range(2 * N):
        pivot = A[i, i]
        assert pivot
        for k in range(2 * N):
            if k != i:
                factor = A[k, i]
                if factor != 0:
                    for j in range(m):
                        A[k, j] = factor * A[i, j] - pivot * A[k, j]
                assert A[k, i] == 0
    for i in range(n):
        g = A[i, i]
        for j in range(2 * N, m):
            g = extgcd(g, A[i, j])[0]
        if g != 1:
            A[i, i] = A[i, i] // g
            for j in range(2 * N, m):
                A[i, j] = A[i, j] // g
    return (d, z0, zs, tuple(A[i, i] for i in range(n)), tuple(A[i, 2 * N] for i in range(n)),
            None if shape is None else tuple(A[i, 2 * N + 1] for i in range(n)))
