"""Hand-written variants of the repository's functions, for calibrating the analyser only.

OK: means the same, must be found equal.  SOFT: means the same, must not be reported.
BAD: means something else, must be reported.   variants.py [pattern [all]]"""
import ast, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['gcs/slice_tools.py', 'gcs/storage.py', 'gcs_basics.py', 'gcs/_version.py',
         'gcs/__init__.py']
V=[]
def v(rel, fn, name, src, exp='OK', extra=''): V.append((rel,fn,name,src,exp,extra))
F='gcs/storage.py'
bs='''def get_flatcoo_position(findex, shape, findices):
    %s
    while %s:
        %s
        d = findices[pos] - findex
        if d == 0:
            return pos
        if d < 0:
            left = %s
        else:
            right = %s
    return None
'''
for name,a,exp in [
 ('half-open', ('left = 0\n    right = len(findices)','left < right','pos = (left + right) // 2','pos + 1','pos'),'OK'),
 ('open', ('left = -1\n    right = len(findices)','right - left > 1','pos = (left + right) // 2','pos','pos'),'OK'),
 ('ceil', ('left = 0\n    right = len(findices) - 1','left <= right','pos = (left + right + 1) // 2','pos + 1','pos - 1'),'OK'),
 ('diff', ('left = 0\n    right = len(findices) - 1','left <= right','pos = left + (right - left) // 2','pos + 1','pos - 1'),'OK'),
 ('not gt', ('left, right = 0, len(findices) - 1','not left > right','pos = right - (right - left) // 2','pos + 1','pos - 1'),'OK'),
 ('true', ('left, right = 0, len(findices) - 1','True','if left > right:\n            return None\n        pos = (right + left) // 2','pos + 1','pos - 1'),'OK'),
 ('bad half', ('left = 0\n    right = len(findices)','left < right','pos = (left + right) // 2','pos + 1','pos - 1'),'BAD'),
 ('bad half2', ('left = 0\n    right = len(findices)','left <= right','pos = (left + right) // 2','pos + 1','pos - 1'),'BAD'),
 ('bad lt', ('left = 0\n    right = len(findices) - 1','left < right','pos = (left + right) // 2','pos + 1','pos - 1'),'BAD'),
 ('bad inf', ('left = 0\n    right = len(findices) - 1','left <= right','pos = (left + right) // 2','pos','pos - 1'),'BAD'),
 ('bad ceil half', ('left = 0\n    right = len(findices)','left < right','pos = (left + right + 1) // 2','pos + 1','pos'),'BAD'),
 ('bad init', ('left = 1\n    right = len(findices) - 1','left <= right','pos = (left + right) // 2','pos + 1','pos - 1'),'BAD'),
 ('bad init2', ('left = 0\n    right = len(findices) - 2','left <= right','pos = (left + right) // 2','pos + 1','pos - 1'),'BAD'),
 ('bad init3', ('left = 0\n    right = len(shape) - 1','left <= right','pos = (left + right) // 2','pos + 1','pos - 1'),'BAD'),
]: v(F,'get_flatcoo_position',name,bs%a,exp)
v(F,'get_flatcoo_position','linear','''def get_flatcoo_position(findex, shape, findices):
    for i in range(len(findices)):
        if findices[i] == findex:
            return i
''')
v(F,'get_flatcoo_position','order','''def get_flatcoo_position(findex, shape, findices):
    lo, hi = 0, len(findices) - 1
    while lo <= hi:
        mid = (lo + hi) // 2
        here = findices[mid]
        if here < findex:
            lo = mid + 1
        elif here > findex:
            hi = mid - 1
        else:
            return mid
    return None
''')
v(F,'get_flatcoo_position','result var','''def get_flatcoo_position(findex, shape, findices):
    lo, hi = 0, len(findices) - 1
    found = None
    while found is None and lo <= hi:
        mid = (lo + hi) // 2
        here = findices[mid]
        if here < findex:
            lo = mid + 1
        elif here > findex:
            hi = mid - 1
        else:
            found = mid
    return found
''','SOFT')
v(F,'get_flatcoo_position','break','''def get_flatcoo_position(findex, shape, findices):
    lo, hi = 0, len(findices) - 1
    while lo <= hi:
        mid = (lo + hi) // 2
        d = findices[mid] - findex
        if d == 0:
            break
        elif d < 0:
            lo = mid + 1
        else:
            hi = mid - 1
    else:
        return None
    return mid
''','SOFT')
v(F,'get_csr_position','unpacked','''def get_csr_position(index, shape, crow_indices, col_indices):
    row, col = index
    start, stop = crow_indices[row], crow_indices[row + 1]
    while start < stop:
        i = (start + stop) // 2
        c = col_indices[i]
        if c == col:
            return i
        if c < col:
            start = i + 1
        else:
            stop = i
    return None
''')
v(F,'get_csr_position','size form','''def get_csr_position(index, shape, crow_indices, col_indices):
    row, col = index
    lo = crow_indices[row]
    n = crow_indices[row + 1] - lo
    while n > 0:
        half = n // 2
        i = lo + half
        c = col_indices[i]
        if c == col:
            return i
        if c < col:
            lo = i + 1
            n -= half + 1
        else:
            n = half
    return None
''','SOFT')
v(F,'get_csr_position','shared helper','''def _probe(data, pos, target):
    return data[pos] - target

def get_csr_position(index, shape, crow_indices, col_indices):
    row, col = index
    left = crow_indices[row]
    right = crow_indices[row+1] - 1
    while left <= right:
        i = (left + right) // 2
        d = _probe(col_indices, i, col)
        if d == 0:
            return i
        if d < 0:
            left = i + 1
        elif d > 0:
            right = i - 1
    # index is not in indices
    return
''')
v(F,'get_csr_position','one helper','''def _bisect(keys, key, left, right):
    while left <= right:
        i = (left + right) // 2
        d = keys[i] - key
        if d == 0:
            return i
        if d < 0:
            left = i + 1
        elif d > 0:
            right = i - 1
    return None

def get_csr_position(index, shape, crow_indices, col_indices):
    row, col = index
    return _bisect(col_indices, col, crow_indices[row], crow_indices[row + 1] - 1)
''')
v(F,'get_coo_position','compare helper','''def _compare(indices, pos, index, dims):
    for j in range(dims):
        d = indices[j, pos] - index[j]
        if d != 0:
            return d
    return 0

def get_coo_position(index, shape, indices):
    left = 0
    right = indices.shape[1] - 1
    dims = len(shape)
    while left <= right:
        pos = (left + right) // 2
        d = _compare(indices, pos, index, dims)
        if d == 0:
            return pos
        if d < 0:
            left = pos + 1
        else:
            right = pos - 1
    return None
''')
v(F,'get_coo_position','tuple compare','''def get_coo_position(index, shape, indices):
    left = 0
    right = indices.shape[1] - 1
    target = tuple(index[j] for j in range(len(shape)))
    while left <= right:
        pos = (left + right) // 2
        here = tuple(indices[j, pos] for j in range(len(shape)))
        if here == target:
            return pos
        if here < target:
            left = pos + 1
        else:
            right = pos - 1
    return None
''','SOFT')
v(F,'get_coo_position','bad tie','''def get_coo_position(index, shape, indices):
    left = 0
    right = indices.shape[1] - 1
    dims = len(shape)
    while left <= right:
        pos = (left + right) // 2
        for j in range(dims):
            d = indices[j, pos] - index[j]
            if d == 0:
                continue
            if d < 0:
                left = pos + 1
            else:
                right = pos
            break
        else:
            return pos
    return None
''','BAD')
ST='gcs/slice_tools.py'
v(ST,'reduced','split',"""def reduced(s, size):
    step = 1 if s.step is None else s.step
    if step > 0:
        start, stop, step = _forward(s.start, s.stop, step, size)
    else:
        start, stop, step = _backward(s.start, s.stop, step, size)
    if (stop - start) * step <= 0:
        return slice(0, 0, 1)
    return slice(start, stop, step)


def _forward(start, stop, step, size):
    if start is None or start < -size:
        start = 0
    elif start < 0:
        start = start + size
    elif start > size:
        start = size
    if stop is None or stop > size:
        stop = size
    elif stop < -size:
        stop = 0
    elif stop < 0:
        stop = stop + size
    return start, stop, min(step, size)


def _backward(start, stop, step, size):
    if start is None or start >= size:
        start = -1
    elif start < -size:
        start = -size - 1
    elif start >= 0:
        start -= size
    if stop is None or stop < -size:
        stop = -size - 1
    elif stop >= size:
        stop = -1
    elif stop >= 0:
        stop -= size
    if step < -size:
        step = -size
    return start, stop, step
""")
v(ST,'nitems','range',"""def nitems(s, size, reduce=True):
    if reduce:
        s = reduced(s, size)
    return len(range(s.start, s.stop, s.step))
""")
v(ST,'nitems','two-branch',"""def nitems(s, size, reduce=True):
    s = reduced(s, size) if reduce else s
    start, stop, step = s.start, s.stop, s.step
    if start == stop:
        return 0
    if step > 0:
        count = (stop - start + step - 1) // step
    else:
        count = (start - stop - step - 1) // (-step)
    return count if count > 0 else 0
""")
v(ST,'apply_slices','helper',"""def _offset_of(start, stride, size):
    if not size:
        return 0
    return stride * (start % size)


def apply_slices(slices, shape, strides):
    dims = []
    offset = 0
    for size, stride, s in zip(shape, strides, slices):
        if s is None:
            dims.append((size, stride))
        elif isinstance(s, int):
            offset += stride * (s % size)
        elif isinstance(s, slice):
            s = reduced(s, size)
            offset += _offset_of(s.start, stride, size)
            dims.append((nitems(s, size, reduce=False), stride * s.step))
        else:
            raise ValueError(f'slices items must be int or slice, got {type(s)}')
    return tuple(n for n, _ in dims), tuple(st for _, st in dims), offset
""")
v(ST,'shape_strided','comprehension',"""def shape_strided(index, shape):
    return tuple(size if ind is None else nitems(ind, size, reduce=False)
                 for ind, size in zip(index, shape)
                 if ind is None or isinstance(ind, slice))
""")
v(ST,'shape_strided','generator',"""def _kept(index, shape):
    for ind, size in zip(index, shape):
        if isinstance(ind, slice):
            yield nitems(ind, size, reduce=False)
        elif ind is None:
            yield size


def shape_strided(index, shape):
    return tuple(_kept(index, shape))
""")
v(ST,'index_strided','range loop',"""def index_strided(index, shape, strides, offset=0):
    new_shape, new_strides = (), ()
    for i in range(min(len(index), len(shape), len(strides))):
        ind = index[i]
        size = shape[i]
        stride = strides[i]
        if ind is None:
            new_shape += (size,)
            new_strides += (stride,)
        elif isinstance(ind, slice):
            if size:
                offset += stride * (ind.start % size)
            new_shape += (nitems(ind, size, reduce=False),)
            new_strides += (stride * ind.step,)
        elif isinstance(ind, int):
            offset = offset + ind * stride
        else:
            raise ValueError(f'bad index item at {i}')
    return new_shape, new_strides, offset
""")
v(ST,'normalize_index','helper',"""def _normalize_item(ind, size, i):
    if ind is None:
        return None
    if isinstance(ind, int):
        return ind % size
    if isinstance(ind, slice):
        return reduced(ind, size)
    raise ValueError(
        f'index items must be int or slice or None, got {type(ind)} at index {i}')


def normalize_index(index, shape):
    if index is None or isinstance(index, (int, slice)):
        index = (index,) if index is not None else ()
    items = tuple(_normalize_item(ind, shape[i], i) for i, ind in enumerate(index))
    return items + (None,) * (len(shape) - len(items))
""",'SOFT')
v(ST,'normalize_index','enumerate',"""def normalize_index(index, shape):
    rest = (None,) * (len(shape) - 1)
    if isinstance(index, int):
        return (index % shape[0],) + rest
    if isinstance(index, slice):
        return (reduced(index, shape[0]),) + rest
    if index is None:
        return (None,) * len(shape)
    result = [None for _ in shape]
    for i, ind in enumerate(index):
        if ind is None:
            continue
        if isinstance(ind, int):
            result[i] = ind % shape[i]
        elif isinstance(ind, slice):
            result[i] = reduced(ind, shape[i])
        else:
            raise ValueError(
                f'index items must be int or slice or None, got {type(ind)} at index {i}')
    return tuple(result)
""")
v(ST,'extgcd','renamed',"""def extgcd(a, b):
    if not a:
        return (b, 0, 1)
    quotient, remainder = divmod(b, a)
    gcd, x1, y1 = extgcd(remainder, a)
    return gcd, y1 - quotient * x1, x1
""")
v(ST,'extgcd','iterative',"""def extgcd(a, b):
    x0, x1, y0, y1 = 1, 0, 0, 1
    while b:
        q, a, b = a // b, b, a % b
        x0, x1 = x1, x0 - q * x1
        y0, y1 = y1, y0 - q * y1
    return a, x0, y0
""",'SOFT')
v(ST,'dot','loop',"""def dot(a, b):
    total = 0
    for x, y in zip(a, b):
        total += x * y
    return total
""")
v(ST,'axpy','index',"""def axpy(a, x, y):
    result = []
    for i in range(min(len(x), len(y))):
        result.append(a * x[i] + y[i])
    return tuple(result)
""")
v(ST,'diophantine','reorder',"""def diophantine(a, c):
    d, z0, zs, _, _, _ = init_diophantine(a)
    quotient, remainder = divmod(c, d)
    if remainder:
        return None, ()
    solution = tuple(quotient * z for z in z0)
    return solution, zs
""")
v(ST,'solve_index','all',"""def solve_index(pos, shape, strides, data=None):
    if data is None:
        data = init_diophantine(strides, shape=shape)
    d, z0, zs, D, b, s = data
    assert not shape or s is not None
    if not shape and pos:
        return None
    if pos % d != 0:
        return None
    k = pos // d
    for dt in itertools.product((0, 1), repeat=len(zs)):
        index = tuple(k * z for z in z0)
        for i in range(len(zs)):
            rhs = b[i] * k
            if s is not None:
                rhs += s[i]
            index = axpy(rhs // D[i] + dt[i], zs[i], index)
        if all(0 <= index[i] < shape[i] for i in range(len(shape))):
            return index
    return None
""")
v(ST,'solve_index','helpers',"""def _inside(index, shape):
    for i in range(len(shape)):
        if index[i] < 0 or index[i] >= shape[i]:
            return False
    return True


def _candidate(k, z0, zs, D, b, s, dt):
    index = axpy(k, z0, [0] * len(z0))
    for i in range(len(zs)):
        if s is not None:
            t = (b[i] * k + s[i]) // D[i] + dt[i]
        else:
            t = (b[i] * k) // D[i] + dt[i]
        index = axpy(t, zs[i], index)
    return index


def solve_index(pos, shape, strides, data=None):
    if data is None:
        data = init_diophantine(strides, shape=shape)
    d, z0, zs, D, b, s = data
    assert not shape or s is not None
    if not shape and pos:
        return
    if pos % d:
        return
    k = pos // d
    n = len(zs)
    for dt in itertools.product(*(((0, 1),)*n)):
        index = _candidate(k, z0, zs, D, b, s, dt)
        if _inside(index, shape):
            return index
    return
""")
v(ST,'init_diophantine','eliminate helper',"""def _eliminate(A, N, m):
    for i in range(2*N):
        aii = A[i, i]
        assert aii
        for k in range(2*N):
            if i == k:
                continue
            aki = A[k, i]
            if aki != 0:
                for j in range(m):
                    A[k, j] = A[i, j] * aki - A[k, j] * aii
            assert A[k, i] == 0


def _normalize_rows(A, n, N, m):
    for i in range(n):
        g = A[i, i]
        for j in range(2*N, m):
            g, _, _ = extgcd(g, A[i, j])
        if g != 1:
            A[i, i] = A[i, i] // g
            for j in range(2*N, m):
                A[i, j] = A[i, j] // g


def init_diophantine(a, shape=None):
    if len(a) == 0:
        return 1, (), (), (), (), None

    if shape is not None and 0 in shape:
        # an empty array has zero strides and no valid indices
        return 1, (0,) * len(a), (), (), (), shape

    if len(a) == 1:
        d = a[0]
        return d, (1,), (), (), (), shape

    data = _init_diophantine(a)

    d, z0, zs = data[0][0], data[-1][-2], data[-1][-1]
    zs = tuple(zip(*zs))  # transpose
    A = dict()
    N = len(a)
    n = len(zs)
    m = 2*N + 1 if shape is None else 2*N + 2

    for i in range(N):
        for j in range(n):
            A[i, j] = zs[j][i]
            A[N + i, j] = -zs[j][i]
        for j in range(2 * N - n):
            A[i, n + j] = int(i == j)
            A[i + N, n + j] = int(i == j - N)
        A[i, 2*N] = -z0[i]
        A[N + i, 2*N] = z0[i]
        if shape is not None:
            A[i, 2*N+1] = 0
            A[N + i, 2*N+1] = -shape[i] + 1

    _eliminate(A, N, m)
    _normalize_rows(A, n, N, m)

    D = tuple(A[i, i] for i in range(n))
    b = tuple(A[i, 2*N] for i in range(n))
    s = tuple(A[i, 2*N + 1] for i in range(n)) if shape is not None else None
    return d, z0, zs, D, b, s
""")
v(F,'compress_indices','while',"""def compress_indices(indices, size):
    nse = len(indices)
    compressed = [0] * (size + 1)
    k = 1
    last_index = 0
    i = 0
    while i < nse:
        index = indices[i]
        n = last_index
        while n < index:
            compressed[k] = i
            k = k + 1
            n += 1
        last_index = index
        i += 1
    while k < size + 1:
        compressed[k] = nse
        k += 1
    return compressed
""")
v(F,'compress_indices','counts',"""def compress_indices(indices, size):
    counts = [0] * size
    for i in range(len(indices)):
        counts[indices[i]] += 1
    compressed = [0]
    for n in range(size):
        compressed.append(compressed[n] + counts[n])
    return compressed
""",'SOFT')
v(F,'compress_indices','enumerate',"""def compress_indices(indices, size):
    nse = len(indices)
    compressed = [0] * (size + 1)
    row = 0
    for i, index in enumerate(indices):
        for row in range(row, index):
            compressed[row + 1] = i
        row = index
    for n in range(row + 1, size + 1):
        compressed[n] = nse
    return compressed
""",'SOFT')
v(F,'uncompress_indices','nested',"""def uncompress_indices(compressed):
    return [i for i in range(len(compressed) - 1)
            for _ in range(compressed[i], compressed[i + 1])]
""")
v(F,'uncompress_indices','append',"""def uncompress_indices(compressed):
    indices = []
    for i in range(len(compressed) - 1):
        for _ in range(compressed[i + 1] - compressed[i]):
            indices.append(i)
    return indices
""")
v(F,'uncompress_indices','iadd',"""def uncompress_indices(compressed):
    indices = []
    for row, (start, stop) in enumerate(zip(compressed, compressed[1:])):
        indices += [row] * (stop - start)
    return indices
""")
v(F,'make_strides','loop',"""def make_strides(shape):
    strides = []
    for i in range(len(shape)):
        strides.append(product(shape[i + 1:]))
    return tuple(strides)
""")
v(F,'make_strides','reverse',"""def make_strides(shape):
    strides = []
    acc = 1
    for size in reversed(shape):
        strides.insert(0, acc)
        acc *= size
    return tuple(strides)
""",'SOFT')
v(F,'product','loop',"""def product(seq):
    result = 1
    for item in seq:
        result *= item
    return result
""")
v(F,'get_shape','order',"""def get_shape(seq):
    if isinstance(seq, Storage):
        return seq.shape
    if not isinstance(seq, (tuple, list)):
        return ()
    if not seq:
        return (0,)
    return (len(seq),) + get_shape(seq[0])
""")
v(F,'get_shape','iter',"""def get_shape(seq):
    shape = ()
    while isinstance(seq, (tuple, list)):
        shape += (len(seq),)
        if not seq:
            return shape
        seq = seq[0]
    if isinstance(seq, Storage):
        return shape + seq.shape
    return shape
""",'SOFT')
v(F,'is_element_index','all',"""def is_element_index(index, shape):
    if index is None or isinstance(index, slice):
        return False
    if isinstance(index, int):
        return len(shape) == 1
    return len(index) == len(shape) and all(isinstance(ind, int) for ind in index)
""")
v(F,'is_element_index','not any',"""def is_element_index(index, shape):
    if isinstance(index, slice) or index is None:
        return False
    elif isinstance(index, int):
        return len(shape) == 1
    if len(index) != len(shape):
        return False
    return not any(not isinstance(ind, int) for ind in index)
""")
v(F,'get_position','sum',"""def get_position(index, shape, strides):
    return sum(index[i] * strides[i] for i in range(len(shape)))
""")
v(F,'get_position','loop',"""def get_position(index, shape, strides):
    pos = 0
    for i, _ in enumerate(shape):
        pos += index[i] * strides[i]
    return pos
""")
v(F,'promote_index','unify',"""def promote_index(rshapes, rdimensions, rstrides, roffset, rindex):
    if isinstance(rindex, int):
        assert len(rdimensions) == 1
        rindex = (rindex,)
    index = [None] * sum(len(r) for r in rdimensions)
    for k in range(len(rshapes)):
        pos = rindex[k] - roffset[k]
        for i, dim in enumerate(rdimensions[k]):
            index[dim] = (pos // rstrides[k][i]) % rshapes[k][i]
    return tuple(index)
""",'SOFT')
v(F,'promote_index','helper',"""def _unflatten(index, pos, rdimensions_k, rstrides_k, rshapes_k):
    for i in range(len(rdimensions_k)):
        index[rdimensions_k[i]] = (pos // rstrides_k[i]) % rshapes_k[i]


def promote_index(rshapes, rdimensions, rstrides, roffset, rindex):
    dimensionality = sum(map(len, rdimensions))
    index = [None] * dimensionality
    if isinstance(rindex, int):
        assert len(rdimensions) == 1
        _unflatten(index, rindex - roffset[0], rdimensions[0], rstrides[0], rshapes[0])
    else:
        for k in range(len(rshapes)):
            _unflatten(index, rindex[k] - roffset[k], rdimensions[k], rstrides[k], rshapes[k])
    return tuple(index)
""")
v(F,'reduce_index','loop',"""def reduce_index(rshapes, rdimensions, rstrides, roffset, index):
    rindex = []
    for k, rshape in enumerate(rshapes):
        rindex.append(roffset[k] + get_rposition(index, rstrides[k], rshape, rdimensions[k]))
    return tuple(rindex)
""")
v(F,'get_rposition','loop',"""def get_rposition(index, strides, shape, axis_map):
    pos = 0
    for i in range(len(shape)):
        pos += strides[i] * index[axis_map[i]]
    return pos
""")
v(F,'Storage.equal','helper',"""def _specified(self):
    return {index: value for index, value in self.elements() if value != self.unspecified}

def equal(self, other):
    if not isinstance(other, Storage):
        cls = type(self) if isinstance(self, Buffer) else Strided
        other = cls.fromobject(other, unspecified=self.unspecified)
    if self.shape != other.shape:
        return False
    return self._specified() == other._specified()
""")
v(F,'Storage.equal','loop helper',"""def equal(self, other):
    d1 = _specified_elements(self)
    if not isinstance(other, Storage):
        if isinstance(self, Buffer):
            other = type(self).fromobject(other, unspecified=self.unspecified)
        else:
            other = Strided.fromobject(other, unspecified=self.unspecified)
    d2 = _specified_elements(other)
    if d1 != d2:
        _report(d1, d2)
    return self.shape == other.shape and d1 == d2
""",'OK',"""
def _specified_elements(storage):
    result = {}
    for index, value in storage.elements():
        if value != storage.unspecified:
            result[index] = value
    return result


def _report(d1, d2):
    print()
    print(f'{d1=}')
    print(f'{d2=}')
""")
v(F,'Storage.slice_indices_and_data_position','split',"""def _sorted_slice_indices(self, shape, strides, offset):
    data = slice_tools.get_solve_index_data(self.strides, shape=self.shape)
    for slice_index in itertools.product(*[range(n) for n in shape]):
        spos = offset + get_position(slice_index, shape, strides)
        index = slice_tools.solve_index(spos, self.shape, self.strides, data=data)
        yield slice_index, self.get_data_position(index)

def _unsorted_slice_indices(self, shape, strides, offset):
    data = slice_tools.get_solve_index_data(strides, shape=shape)
    for index, data_pos in self.indices_and_data_position():
        pos = get_position(index, self.shape, self.strides) - offset
        slice_index = slice_tools.solve_index(pos, shape, strides, data=data)
        if slice_index is None:
            continue
        yield slice_index, data_pos

def slice_indices_and_data_position(self, shape, strides, offset, sort=False):
    if sort:
        yield from self._sorted_slice_indices(shape, strides, offset)
    else:
        yield from self._unsorted_slice_indices(shape, strides, offset)
""")
v(F,'Storage.__setitem__','elements',"""def __setitem__(self, index, value):
    index = slice_tools.normalize_index(index, self.shape)
    geometry = slice_tools.index_strided(index, self.shape, self.strides)
    for value_index, data_pos in self.slice_indices_and_data_position(*geometry):
        item = get_value(value, value_index)
        self.data[data_pos] = item
""")
v(F,'Storage.__getitem__','element helper',"""def _get_element(self, index):
    data_pos = self.get_data_position(index)
    return self.unspecified if data_pos is None else self.data[data_pos]

def __getitem__(self, index):
    index = slice_tools.normalize_index(index, self.shape)
    if is_element_index(index, self.shape):
        return self._get_element(index)
    shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
    return self.get_slice(shape, strides, offset)
""")
v(F,'Storage.copy','star',"""def copy(self, unspecified=DEFAULT):
    *args, data = self._get_object_data()
    return type(self)(*args, data.copy(unspecified=unspecified))
""",'SOFT')
v(F,'Storage.copy','class',"""def copy(self, unspecified=DEFAULT):
    obj_data = self._get_object_data()
    head, data = obj_data[:-1], obj_data[-1]
    return self.__class__(*head, data.copy(unspecified=unspecified))
""")
v(F,'Storage.__eq__','order',"""def __eq__(self, other):
    if self is other:
        return True
    if not isinstance(other, type(self)):
        return NotImplemented
    return self._get_object_data() == other._get_object_data()
""")
v(F,'Storage.strides','try',"""@property
def strides(self):
    try:
        return self._strides
    except AttributeError:
        self._strides = make_strides(self.shape)
        return self._strides
""",'SOFT')
v(F,'Storage.strides','hasattr',"""@property
def strides(self):
    if not hasattr(self, '_strides'):
        self._strides = make_strides(self.shape)
    return self._strides
""",'SOFT')
v(F,'Storage.strides','nocache',"""@property
def strides(self):
    return getattr(self, '_strides', None) or make_strides(self.shape)
""",'SOFT')
v(F,'Storage.elements','gen',"""def elements(self):
    data = self.data
    return ((index, data[pos]) for index, pos in self.indices_and_data_position())
""")
v(F,'Storage.__iter__','gen',"""def __iter__(self):
    return (self[i] for i in range(len(self)))
""")
v(F,'Buffer.fromobject','comprehension',"""@classmethod
def fromobject(cls, seq, shape=None, get_seq_index=None, unspecified=DEFAULT):
    defaults = shape is None and get_seq_index is None
    if isinstance(seq, Buffer) and unspecified is DEFAULT and defaults:
        return seq
    seq_unspecified = get_unspecified(seq)
    if unspecified is DEFAULT:
        unspecified = seq_unspecified
    if get_seq_index is None:
        get_seq_index = _same_index
    if shape is None:
        shape = get_shape(seq)
    values = [_replace(get_value(seq, get_seq_index(index)), seq_unspecified, unspecified)
              for index in itertools.product(*map(range, shape))]
    return cls(len(values), 0, values, unspecified=unspecified)
""",'OK',"""
def _same_index(index):
    return index


def _replace(value, old, new):
    return new if value == old else value
""")
v(F,'COO.fromobject','helpers',"""@classmethod
def fromobject(cls, seq, shape=None, get_seq_index=None, unspecified=DEFAULT):
    plain = unspecified is DEFAULT and shape is None and get_seq_index is None
    if plain and isinstance(seq, COO):
        return seq
    if plain and isinstance(seq, FlatCOO):
        return cls._from_flatcoo(seq)
    seq_unspecified = get_unspecified(seq)
    if unspecified is DEFAULT:
        unspecified = seq_unspecified
    if shape is None:
        shape = get_shape(seq)
    if get_seq_index is None:
        get_seq_index = lambda index: index
    indices = [[] for _ in shape]
    values = []
    for index in itertools.product(*map(range, shape)):
        value = get_value(seq, get_seq_index(index))
        if value == seq_unspecified:
            value = unspecified
        if value != unspecified:
            _append_index(indices, index)
            values.append(value)
    return cls(shape, Strided.fromobject(indices),
               Buffer(len(values), 0, values, unspecified=unspecified))

@classmethod
def _from_flatcoo(cls, seq):
    shape = seq.shape
    indices = [[] for d in shape]
    solve_index_data = slice_tools.get_solve_index_data(seq.strides, shape=shape)
    for findex in seq.findices:
        index = slice_tools.solve_index(findex, shape, seq.strides, data=solve_index_data)
        _append_index(indices, index)
    indices = Strided.fromobject(indices)
    return cls(shape, indices, seq.data.copy())
""",'SOFT',"""
def _append_index(indices, index):
    for i in range(len(indices)):
        indices[i].append(index[i])
""")
v(F,'COO.fromobject','inner',"""@classmethod
def fromobject(cls, seq, shape=None, get_seq_index=None, unspecified=DEFAULT):
    plain = unspecified is DEFAULT and shape is None and get_seq_index is None
    if plain and isinstance(seq, COO):
        return seq
    if plain and isinstance(seq, FlatCOO):
        return cls._from_flatcoo(seq)
    seq_unspecified = get_unspecified(seq)
    if unspecified is DEFAULT:
        unspecified = seq_unspecified
    if shape is None:
        shape = get_shape(seq)
    if get_seq_index is None:
        get_seq_index = lambda index: index
    indices = [[] for _ in shape]
    values = []
    for index in itertools.product(*map(range, shape)):
        value = get_value(seq, get_seq_index(index))
        if value == seq_unspecified:
            value = unspecified
        if value != unspecified:
            for i in range(len(shape)):
                indices[i].append(index[i])
            values.append(value)
    return cls(shape, Strided.fromobject(indices),
               Buffer(len(values), 0, values, unspecified=unspecified))

@classmethod
def _from_flatcoo(cls, seq):
    shape = seq.shape
    indices = [[] for d in shape]
    solve_index_data = slice_tools.get_solve_index_data(seq.strides, shape=shape)
    for findex in seq.findices:
        index = slice_tools.solve_index(findex, shape, seq.strides, data=solve_index_data)
        for i in range(len(shape)):
            indices[i].append(index[i])
    indices = Strided.fromobject(indices)
    return cls(shape, indices, seq.data.copy())
""")
v(F,'FlatCOO.fromobject','merged',"""@classmethod
def fromobject(cls, seq, shape=None, get_seq_index=None, unspecified=DEFAULT):
    if unspecified is DEFAULT and shape is None and get_seq_index is None:
        if isinstance(seq, FlatCOO):
            return seq
        if isinstance(seq, COO):
            positions = [get_position(index, seq.shape, seq.strides)
                         for index, _ in seq.indices_and_data_position()]
            return cls(seq.shape, Buffer(len(positions), 0, positions), seq.data.copy())
    seq_unspecified = get_unspecified(seq)
    if unspecified is DEFAULT:
        unspecified = seq_unspecified
    if shape is None:
        shape = get_shape(seq)
    if get_seq_index is None:

        def get_seq_index(index):
            return index

    strides = make_strides(shape)
    pairs = []
    for index in itertools.product(*map(range, shape)):
        value = get_value(seq, get_seq_index(index))
        if value == seq_unspecified:
            value = unspecified
        if value == unspecified:
            continue
        pairs.append((get_position(index, shape, strides), value))
    findices = [f for f, _ in pairs]
    values = [x for _, x in pairs]
    data = Buffer(len(values), 0, values, unspecified=unspecified)
    return cls(shape, Buffer(len(findices), 0, findices), data)
""")
v(F,'COO.get_slice','zip',"""def get_slice(self, shape, strides, offset):
    items = sorted(self.slice_indices_and_data_position(shape, strides, offset))
    values = [self.data[data_pos] for _, data_pos in items]
    ndim = len(shape)
    flat = []
    for i in range(ndim):
        for slice_index, _ in items:
            flat.append(slice_index[i])
    indices_shape = (ndim, len(items))
    indices = Strided(indices_shape, make_strides(indices_shape), Buffer(len(flat), 0, flat))
    return COO(shape, indices, Buffer(len(values), 0, values, unspecified=self.unspecified))
""",'SOFT')
v(F,'COO.get_slice','chain',"""def get_slice(self, shape, strides, offset):
    values = []
    indices = [[] for d in shape]
    items = self.slice_indices_and_data_position(shape, strides, offset)
    for slice_index, data_pos in sorted(items):
        for i, ind in enumerate(slice_index):
            indices[i].append(ind)
        values.append(self.data[data_pos])
    nse = len(values)
    indices_shape = (len(shape), nse)
    flat = []
    for row in indices:
        flat.extend(row)
    indices_buffer = Buffer(len(shape) * nse, 0, flat)
    indices = Strided(indices_shape, make_strides(indices_shape), indices_buffer)
    data = Buffer(nse, 0, values, unspecified=self.unspecified)
    return COO(shape, indices, data)
""",'SOFT')
v(F,'FlatCOO.get_slice','comp',"""def get_slice(self, shape, strides, offset):
    slice_strides = make_strides(shape)
    items = sorted(self.slice_indices_and_data_position(shape, strides, offset))
    findices = [get_position(slice_index, shape, slice_strides) for slice_index, _ in items]
    values = [self.data[pos] for _, pos in items]
    return FlatCOO(shape, Buffer(len(findices), 0, findices),
                   Buffer(len(values), 0, values, unspecified=self.unspecified))
""")
v(F,'CSR.get_slice','comp',"""def get_slice(self, shape, strides, offset):
    if len(shape) == 1:
        return self.as_COO().get_slice(shape, strides, offset)
    assert len(shape) == 2, repr((shape, strides, offset))
    items = sorted(self.slice_indices_and_data_position(shape, strides, offset))
    rows = [index[0] for index, _ in items]
    cols = [index[1] for index, _ in items]
    values = [self.data[pos] for _, pos in items]
    return CSR(shape, Buffer.fromobject(compress_indices(rows, shape[0])),
               Buffer.fromobject(cols),
               Buffer(len(values), 0, values, unspecified=self.unspecified))
""")
v(F,'CSR.indices_and_data_position','pairs',"""def indices_and_data_position(self):
    crow = self.crow_indices
    for row in range(self.shape[0]):
        start, stop = crow[row], crow[row + 1]
        for data_pos in range(start, stop):
            yield (row, self.col_indices[data_pos]), data_pos
""")
v(F,'COO.indices_and_data_position','listcomp',"""def indices_and_data_position(self):
    ndim = self.indices.shape[0]
    for data_pos in range(self.size):
        yield tuple([self.indices[j, data_pos] for j in range(ndim)]), data_pos
""")
v(F,'Buffer.copy','comp',"""def copy(self, unspecified=DEFAULT):
    if unspecified is DEFAULT:
        unspecified = self.unspecified
    values = self.data[self.offset:self.offset + self.size]
    if unspecified == self.unspecified:
        data = values.copy()
    else:
        data = [unspecified if value == self.unspecified else value for value in values]
    return Buffer(len(data), 0, data, unspecified=unspecified)
""")
v(F,'Strided.copy','direct',"""def copy(self, unspecified=DEFAULT):
    old = self.unspecified
    if unspecified is DEFAULT:
        unspecified = old
    values = [unspecified if value == old else value for _, value in self.elements()]
    data = Buffer(self.size, 0, values, unspecified=unspecified)
    return Strided(self.shape, make_strides(self.shape), data)
""",'SOFT')
v(F,'Strided.copy','item',"""def copy(self, unspecified=DEFAULT):
    if unspecified is DEFAULT:
        unspecified = self.unspecified
    values = [unspecified for _ in range(self.size)]
    buffer = Buffer(self.size, 0, values, unspecified=unspecified)
    result = Strided(self.shape, make_strides(self.shape), buffer)
    for index, value in self.elements():
        result[index] = unspecified if value == self.unspecified else value
    return result
""")
v(F,'Buffer.__getitem__','helper',"""def _bounds(self, index):
    start, stop = self.offset, self.offset + self.size
    if index.start is not None:
        start = self.offset + index.start
    if index.stop is not None:
        stop = self.offset + index.stop
    return start, stop

def __getitem__(self, index):
    index = self._get_complete_index(index)
    if index is None:
        return self
    if not isinstance(index, slice):
        return self.data[self.offset + index]
    start, stop = self._bounds(index)
    total = len(self.data)
    if not 0 <= start < total:
        raise IndexError(f'start {start}')
    if not 0 < stop <= total:
        raise IndexError(f'stop {stop}')
    s = slice_tools.reduced(slice(start, stop, index.step), total)
    if s.step != 1:
        raise IndexError(f'step {s.step}')
    return Buffer(s.stop - s.start, s.start, self.data, unspecified=self.unspecified)
""")
v(F,'make_reduction','comp',"""def make_reduction(shape, rdimensions):
    rshapes = tuple(tuple(shape[d] for d in rdims) for rdims in rdimensions)
    rshape = tuple(product(r) for r in rshapes)
    rstrides = tuple(make_strides(r) for r in rshapes)
    return rshape, rshapes, rstrides
""")
v(F,'DM.__getitem__','super',"""def _axis_map(self, index):
    axis_map = []
    n = 0
    for i in range(len(self.shape)):
        if isinstance(index[i], int):
            axis_map.append(None)
        else:
            axis_map.append(n)
            n += 1
    return axis_map

def __getitem__(self, index):
    index = slice_tools.normalize_index(index, self.shape)
    if is_element_index(index, self.shape):
        data_pos = self.get_data_position(index)
        return self.unspecified if data_pos is None else self.data[data_pos]
    gshape = slice_tools.shape_strided(index, self.shape)
    axis_map = self._axis_map(index)
    rshapes, roffset, rstrides, dindex, rdimensions = [], [], [], [], []
    for k in range(len(self.rdimensions)):
        dims = self.rdimensions[k]
        kshape, kstrides, koffset = slice_tools.index_strided(
            tuple(index[i] for i in dims), self.rshapes[k], self.rstrides[k])
        position = self.roffset[k] + koffset
        if kshape:
            rshapes.append(kshape)
            roffset.append(position)
            rstrides.append(kstrides)
            dindex.append(None)
        else:
            dindex.append(position)
        t = tuple(axis_map[i] for i in dims if not isinstance(index[i], int))
        if t:
            rdimensions.append(t)
    data = self.data[tuple(dindex)] if dindex else self.data
    return DM(gshape, tuple(rdimensions), tuple(rstrides), tuple(roffset), data)
""",'SOFT')
v(F,'DM.__getitem__','small',"""def __getitem__(self, index):
    index = slice_tools.normalize_index(index, self.shape)
    if is_element_index(index, self.shape):
        return super().__getitem__(index)
    ndim = len(self.shape)
    gshape = slice_tools.shape_strided(index, self.shape)
    removed = {i for i in range(ndim) if isinstance(index[i], int)}
    axis_map = [None if i in removed else i - len([j for j in range(i) if j in removed])
                for i in range(ndim)]
    rshapes, roffset, rstrides, dindex, rdimensions = (), (), (), (), ()
    for k, dims in enumerate(self.rdimensions):
        kslice = tuple(index[i] for i in dims)
        kshape, kstrides, koffset = slice_tools.index_strided(
            kslice, self.rshapes[k], self.rstrides[k], self.roffset[k])
        if kshape:
            rshapes += (kshape,)
            roffset += (koffset,)
            rstrides += (kstrides,)
            dindex += (None,)
        else:
            dindex += (koffset,)
        t = tuple(axis_map[i] for i in dims if i not in removed)
        if t:
            rdimensions += (t,)
    return DM(gshape, rdimensions, rstrides, roffset, self.data[dindex] if dindex else self.data)
""",'SOFT')
v(F,'DM.indices_and_data_position','direct',"""def indices_and_data_position(self):
    for index in itertools.product(*[range(n) for n in self.shape]):
        yield index, self.get_data_position(index)
""")
v(F,'FlatCOO.indices_and_data_position','enumerate',"""def indices_and_data_position(self):
    solve_index_data = slice_tools.get_solve_index_data(self.strides, shape=self.shape)
    for data_pos, findex in enumerate(self.findices):
        yield slice_tools.solve_index(findex, self.shape, self.strides,
                                      data=solve_index_data), data_pos
""",'SOFT')
v(F,'CSR.fromobject','inverted',"""@classmethod
def fromobject(cls, seq, shape=None, get_seq_index=None, unspecified=DEFAULT):
    if not isinstance(seq, COO) or shape is not None or get_seq_index is not None \\
            or unspecified is not DEFAULT:
        coo = COO.fromobject(seq, shape=shape, get_seq_index=get_seq_index,
                             unspecified=unspecified)
        return coo.as_CSR()
    rows, cols = seq.indices[0], seq.indices[1]
    crow_indices = Buffer.fromobject(compress_indices(rows, seq.shape[0]))
    return CSR(seq.shape, crow_indices, Buffer.fromobject(cols.copy()), seq.data.copy())
""")
v(F,'Buffer.__init__','order',"""def __init__(self, size: int, offset: int, data, unspecified=None):
    assert isinstance(size, int), size
    assert isinstance(offset, int), offset
    assert not isinstance(data, Storage)
    assert offset + size <= len(data), (offset, size, len(data))
    self.data = data
    self.offset = offset
    self.size = size
    self.shape = (self.size,)
    self._unspecified = unspecified
""")
v(F,'DM.__init__','order',"""def __init__(self, shape: tuple, rdimensions: tuple, rstrides: tuple, roffset: tuple,
             data: Storage):
    mapped = set(itertools.chain.from_iterable(rdimensions))
    assert mapped == set(range(len(shape))), mapped
    for item in (shape, rdimensions, rstrides, roffset):
        assert isinstance(item, tuple)
    assert isinstance(data, Storage)
    self.shape = shape
    self.rdimensions = rdimensions
    self.rshapes = make_reduction(shape, rdimensions)[1]
    self.rstrides = rstrides
    self.roffset = roffset
    self.data = data
    self.size = data.size
""",'SOFT')


def judge(item):
    rel, fn, name, src, exp, extra, repo = item
    d = tempfile.mkdtemp()
    os.mkdir(d + '/gcs')
    for f in FILES:
        shutil.copy(os.path.join(repo, f), d + '/' + f)
    text = open(d + '/' + rel).read()
    lines = text.split('\n')
    cls, _, m = fn.rpartition('.')
    body = ast.parse(text).body
    if cls:
        body = [x for x in body if isinstance(x, ast.ClassDef) and x.name == cls][0].body
    node = [x for x in body if isinstance(x, ast.FunctionDef) and x.name == m][0]
    a = min([node.lineno] + [x.lineno for x in node.decorator_list]) - 1
    ind = '    ' if cls else ''
    new = [(ind + l if l else l) for l in src.rstrip('\n').split('\n')]
    out = '\n'.join(lines[:a] + new + lines[node.end_lineno:] + extra.split('\n'))
    open(d + '/' + rel, 'w').write(out)
    ast.parse(out)
    r = subprocess.run([sys.executable, '-c', CODE % (VERIF, d)], capture_output=True, text=True)
    o = r.stdout.strip() or 'CRASH ' + r.stderr[-300:]
    ok = {'OK': o.startswith('EQUAL'), 'SOFT': not o.startswith('DIFF') and o[0] != 'C',
          'BAD': o.startswith('DIFF')}[exp]
    shutil.rmtree(d)
    return '%s %s %s/%s: %s' % ('ok  ' if ok else '!!!!', exp, fn, name, o[:400])


CODE = '''
import sys,threading
sys.path.insert(0,%r); sys.setrecursionlimit(25000); threading.stack_size(256<<20)
def run():
    import check
    an=check.Analysis(%r,20.0,4000)
    diff,unk=[],[]
    for n in an.specs:
        o=an.obligation(n)
        if o.verdict=="DIFF": diff.append(n+" "+str(o.why))
        elif o.verdict!="EQUAL": unk.append(n+" "+str(o.why))
    for rn in ("sharing","views","effects","interface","iteration","termination"):
        r=an.rule(rn)
        diff+=[rn+"!"+v["construct"] for v in r.violations if not v["key"].startswith("C2SR lacks")]
        unk+=[rn+"?"+v["construct"] for v in r.undecided]
    print("DIFF" if diff else "UNKNOWN" if unk else "EQUAL", (diff or unk)[:3])
t=threading.Thread(target=run); t.start(); t.join()
'''

if __name__ == '__main__':
    import multiprocessing as mp
    repo = os.environ.get('GCS_REPO', '/repo')
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    todo = [x + (repo,) for x in V if pat in x[1] + '/' + x[2]]
    bad = 0
    with mp.Pool(8) as pool:
        for line in pool.imap(judge, todo):
            bad += line.startswith('!')
            if line.startswith('!') or len(sys.argv) > 2:
                print(line, flush=True)
    print(len(todo), 'variants,', bad, 'not as expected')
