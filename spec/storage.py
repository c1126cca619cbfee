"""Specification of gcs/storage.py (parsed by the checker, never executed)."""
MODULE = 'gcs.storage'
PROPERTIES = ['strides', 'unspecified']


# ------------------------------------------------------------------ helpers of the layout

@spec('compress_indices', weak=True)
def compress_indices(indices: ints, size: nat):
    assume(all(0 <= indices[i] for i in range(len(indices))))
    assume(all(indices[i] < size for i in range(len(indices))))
    assume(all(indices[i] <= indices[i + 1] for i in range(len(indices) - 1)))
    n = len(indices)
    rows = [0] * (size + 1)
    k = 1
    last = 0
    for i in range(n):
        for r in range(last, indices[i]):
            rows[k] = i
            k += 1
        last = indices[i]
    for r in range(k, size + 1):
        rows[r] = n
    return rows


@spec('uncompress_indices')
def uncompress_indices(compressed: ints):
    return [i for i in range(len(compressed) - 1)
            for _ in range(compressed[i + 1] - compressed[i])]


@spec('product', mode='inline')
def product(seq: ints):
    return math.prod(seq)


@spec('make_strides', mode='inline')
def make_strides(shape: dims):
    return tuple(math.prod(shape[j] for j in range(i + 1, len(shape)))
                 for i in range(len(shape)))


@spec('get_shape')
def get_shape(seq: any):
    if isinstance(seq, Storage):
        return seq.shape
    if isinstance(seq, tuple) or isinstance(seq, list):
        if not seq:
            return (0,)
        return (len(seq),) + get_shape(seq[0])
    return ()


@spec('get_value')
def get_value(seq: any, index: any):
    if index == ():
        return seq
    if isinstance(seq, Storage):
        return seq[index]
    assert isinstance(seq, (tuple, list))
    value = seq
    for i in index:
        value = value[i]
    return value


@spec('is_element_index')
def is_element_index(index: any, shape: dims):
    if isinstance(index, slice) or index is None:
        return False
    if isinstance(index, int):
        return len(shape) == 1
    return len(index) == len(shape) and all(isinstance(x, int) for x in index)


@spec('get_unspecified')
def get_unspecified(seq: any, unspecified: any = DEFAULT):
    return seq.unspecified if isinstance(seq, Storage) else None


@spec('get_rposition', mode='inline')
def get_rposition(index: ints, strides: ints, shape: dims, axis_map: ints):
    assume(len(strides) == len(shape))
    assume(len(axis_map) == len(shape))
    return sum(index[axis_map[i]] * strides[i] for i in range(len(shape)))


@spec('reduce_index', length='rshapes')
def reduce_index(rshapes: dimss, rdimensions: dimss, rstrides: intss, roffset: ints,
                 index: ints):
    assume(len(rdimensions) == len(rshapes))
    assume(len(rstrides) == len(rshapes))
    assume(len(roffset) == len(rshapes))
    assume(all(len(rdimensions[k]) == len(rshapes[k]) for k in range(len(rshapes))))
    assume(all(len(rstrides[k]) == len(rshapes[k]) for k in range(len(rshapes))))
    return tuple(roffset[k] + sum(index[rdimensions[k][i]] * rstrides[k][i]
                                  for i in range(len(rshapes[k])))
                 for k in range(len(rshapes)))


@spec('promote_index')
def promote_index(rshapes: dimss, rdimensions: dimss, rstrides: intss, roffset: ints,
                  rindex: any):
    assume(len(rshapes) == len(rdimensions))
    assume(len(rstrides) == len(rshapes))
    assume(len(roffset) == len(rshapes))
    assume(all(len(rdimensions[k]) == len(rshapes[k]) for k in range(len(rshapes))))
    assume(all(len(rstrides[k]) == len(rshapes[k]) for k in range(len(rshapes))))
    axes = [None] * sum(len(d) for d in rdimensions)
    if isinstance(rindex, int):
        assert len(rdimensions) == 1
        for i in range(len(rdimensions[0])):
            axes[rdimensions[0][i]] = (rindex - roffset[0]) // rstrides[0][i] % rshapes[0][i]
        return tuple(axes)
    for k in range(len(rdimensions)):
        for i in range(len(rdimensions[k])):
            axes[rdimensions[k][i]] = (rindex[k] - roffset[k]) // rstrides[k][i] % rshapes[k][i]
    return tuple(axes)


@spec('get_index', mode='inline')
def get_index(pos: int, shape: dims, strides: ints, offset: int = 0):
    return slice_tools.solve_index(pos - offset, shape, strides)


@spec('get_position', mode='inline')
def get_position(index: ints, shape: dims, strides: ints):
    assume(len(index) == len(shape))
    assume(len(strides) == len(shape))
    return sum(index[i] * strides[i] for i in range(len(shape)))


@spec('get_slice_index')
def get_slice_index(index: ints, shape: dims, strides: ints, slice_shape: dims,
                    slice_strides: ints, slice_offset: int):
    assume(len(index) == len(shape))
    assume(len(strides) == len(shape))
    return slice_tools.solve_index(get_position(index, shape, strides) - slice_offset,
                                   slice_shape, slice_strides)


@spec('get_index_slice')
def get_index_slice(slice_index: ints, shape: dims, strides: ints, slice_shape: dims,
                    slice_strides: ints, slice_offset: int):
    assume(len(slice_index) == len(slice_shape))
    assume(len(slice_strides) == len(slice_shape))
    return slice_tools.solve_index(
        get_position(slice_index, slice_shape, slice_strides) + slice_offset, shape, strides)


# ------------------------------------------------------------------ searches

@spec('get_coo_position')
def get_coo_position(index: ints, shape: dims, indices: IntStrided):
    assume(len(index) == len(shape))
    lo = 0
    hi = indices.shape[1] - 1
    while lo <= hi:
        mid = (lo + hi) // 2
        for j in range(len(shape)):
            if indices[j, mid] < index[j]:
                lo = mid + 1
                break
            if indices[j, mid] > index[j]:
                hi = mid - 1
                break
        else:
            return mid
    return None


@spec('get_flatcoo_position')
def get_flatcoo_position(findex: int, shape: dims, findices: IntBuffer):
    lo = 0
    hi = len(findices) - 1
    while lo <= hi:
        mid = (lo + hi) // 2
        if findices[mid] == findex:
            return mid
        if findices[mid] < findex:
            lo = mid + 1
        else:
            hi = mid - 1
    return None


@spec('get_csr_position')
def get_csr_position(index: ints, shape: dims, crow_indices: IntBuffer, col_indices: IntBuffer):
    assume(len(index) == 2)
    row = index[0]
    lo = crow_indices[row]
    hi = crow_indices[row + 1] - 1
    while lo <= hi:
        mid = (lo + hi) // 2
        if col_indices[mid] == index[1]:
            return mid
        if col_indices[mid] < index[1]:
            lo = mid + 1
        else:
            hi = mid - 1
    return None


# ------------------------------------------------------------------ the common interface

@spec('Storage.__len__')
def storage_len(self: Storage):
    return self.shape[0]


@spec('Storage.__iter__')
def storage_iter(self: Storage):
    for i in range(self.shape[0]):
        yield self[i]


@spec('Storage.__eq__')
def storage_eq(self: Storage, other: any):
    if not isinstance(other, type(self)):
        return NotImplemented
    return self is other or self._get_object_data() == other._get_object_data()


@spec('Storage.__ne__')
def storage_ne(self: Storage, other: any):
    return not (self == other)


@spec('Storage.is_full')
def storage_is_full(self: Storage):
    return self.size == math.prod(self.shape)


@spec('Storage.__repr__')
def storage_repr(self: Storage):
    return type(self).__name__ + str(self._get_object_data())


@spec('Storage.copy', mode='method')
def storage_copy(self: Storage, unspecified: any = DEFAULT):
    parts = self._get_object_data()
    return type(self)(*parts[:-1], parts[-1].copy(unspecified=unspecified))


@spec('Storage.unspecified', mode='prop')
def storage_unspecified(self: Storage):
    return self.data.unspecified


# the default strides are remembered once computed; they depend on the shape alone
@spec('Storage.strides', mode='prop')
def storage_strides(self: Storage):
    known = getattr(self, '_strides', DEFAULT)
    if known is DEFAULT:
        known = make_strides(self.shape)
        self._strides = known
    return known


@spec('Storage.equal')
def storage_equal(self: Storage, other: any):
    mine = {index: value for index, value in self.elements() if value != self.unspecified}
    if not isinstance(other, Storage):
        if isinstance(self, Buffer):
            other = type(self).fromobject(other, unspecified=self.unspecified)
        else:
            other = Strided.fromobject(other, unspecified=self.unspecified)
    theirs = {index: value for index, value in other.elements() if value != other.unspecified}
    return self.shape == other.shape and mine == theirs


@spec('Storage.__setitem__')
def storage_setitem(self: Storage, index: any, value: any):
    index = slice_tools.normalize_index(index, self.shape)
    shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
    for where, pos in self.slice_indices_and_data_position(shape, strides, offset):
        self.data[pos] = get_value(value, where)


@spec('Storage.__getitem__')
def storage_getitem(self: Storage, index: any):
    index = slice_tools.normalize_index(index, self.shape)
    if is_element_index(index, self.shape):
        pos = self.get_data_position(index)
        return self.unspecified if pos is None else self.data[pos]
    shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
    return self.get_slice(shape, strides, offset)


@spec('Storage.slice_indices_and_data_position', mode='method')
def storage_slice_traversal(self: Storage, shape: dims, strides: ints, offset: int,
                            sort: any = False):
    assume(len(strides) == len(shape))
    if sort:
        data = slice_tools.init_diophantine(self.strides, self.shape)
        for where in itertools.product(*[range(n) for n in shape]):
            pos = get_position(where, shape, strides) + offset
            index = slice_tools.solve_index(pos, self.shape, self.strides, data)
            yield where, self.get_data_position(index)
    else:
        data = slice_tools.init_diophantine(strides, shape)
        for index, pos in self.indices_and_data_position():
            place = get_position(index, self.shape, self.strides)
            where = slice_tools.solve_index(place - offset, shape, strides, data)
            if where is not None:
                yield where, pos


@spec('Storage.elements', mode='method')
def storage_elements(self: Storage):
    for index, pos in self.indices_and_data_position():
        yield index, self.data[pos]


@spec('Storage.as_Buffer')
def as_buffer(self: Storage, unspecified: any = DEFAULT):
    return Buffer.fromobject(self, unspecified=unspecified)


@spec('Storage.as_Strided')
def as_strided(self: Storage, unspecified: any = DEFAULT):
    return Strided.fromobject(self, unspecified=unspecified)


@spec('Storage.as_COO')
def as_coo(self: Storage, unspecified: any = DEFAULT):
    return COO.fromobject(self, unspecified=unspecified)


@spec('Storage.as_FlatCOO')
def as_flatcoo(self: Storage, unspecified: any = DEFAULT):
    return FlatCOO.fromobject(self, unspecified=unspecified)


@spec('Storage.as_CSR')
def as_csr(self: Storage, unspecified: any = DEFAULT):
    return CSR.fromobject(self, unspecified=unspecified)


@spec('Storage.as_DM')
def as_dm(self: Storage, dimensions: any = None, partitioning: any = None,
          storage_class: func = None, unspecified: any = DEFAULT):
    return DM.fromobject(self, shape=self.shape, dimensions=dimensions,
                         partitioning=partitioning, storage_class=storage_class,
                         unspecified=unspecified)


# ------------------------------------------------------------------ buffers

def identity(index):
    return index


def source_value(seq, index, get_seq_index, placeholder):
    """Value of the source at a target index, its placeholder remapped."""
    value = get_value(seq, index if get_seq_index is None else get_seq_index(index))
    return placeholder if value == get_unspecified(seq) else value


@spec('Buffer.fromobject', mode='method')
def buffer_fromobject(cls, seq: any, shape: any = None, get_seq_index: func = None,
                      unspecified: any = DEFAULT):
    if isinstance(seq, Buffer) and unspecified is DEFAULT and shape is None and \
            get_seq_index is None:
        return seq
    placeholder = get_unspecified(seq) if unspecified is DEFAULT else unspecified
    full = get_shape(seq) if shape is None else shape
    values = [source_value(seq, index, get_seq_index, placeholder)
              for index in itertools.product(*[range(n) for n in full])]
    return cls(len(values), 0, values, unspecified=placeholder)


@spec('Buffer.__init__', mode='init')
def buffer_init(self: Buffer, size: nat, offset: int, data: any, unspecified: any = None):
    assert offset + size <= len(data)
    assert not isinstance(data, Storage)
    self.shape = (size,)
    self.size = size
    self.offset = offset
    self.data = data
    self._unspecified = unspecified


@spec('Buffer._get_object_data')
def buffer_data(self: Buffer):
    return self.size, self.offset, self.unspecified


@spec('Buffer.__repr__')
def buffer_repr(self: Buffer):
    data = str(self.data[self.offset:self.offset + self.size])
    before = self.offset
    after = len(self.data) - (self.offset + self.size)
    if len(data) > 100:
        data = data[:40] + '.....' + data[-40:]
    return (type(self).__name__ + '(' + str(self.size) + ', ' + str(self.offset) + ', '
            + '*' * (before // 10) + '.' * (before % 10) + data + '.' * (after % 10)
            + '*' * (after // 10) + ', unspecified=' + str(self.unspecified) + ')')


@spec('Buffer.unspecified', mode='prop')
def buffer_unspecified(self: Buffer):
    return self._unspecified


@spec('Buffer.copy', mode='method')
def buffer_copy(self: Buffer, unspecified: any = DEFAULT):
    placeholder = self.unspecified if unspecified is DEFAULT else unspecified
    if placeholder == self.unspecified:
        data = self.data[self.offset:self.offset + self.size].copy()
    else:
        data = [placeholder if self.data[pos] == self.unspecified else self.data[pos]
                for pos in range(self.offset, self.offset + self.size)]
    return Buffer(len(data), 0, data, unspecified=placeholder)


@spec('Buffer.__eq__')
def buffer_eq(self: Buffer, other: any):
    if not isinstance(other, type(self)):
        return NotImplemented
    return (self.size == other.size
            and self.data[self.offset:self.offset + self.size]
            == other.data[other.offset:other.offset + other.size]
            and self.unspecified == other.unspecified)


@spec('Buffer.__getitem__')
def buffer_getitem(self: Buffer, index: any):
    assert not isinstance(index, tuple) or len(index) == 1
    i = index[0] if isinstance(index, tuple) else index
    if i is None:
        return self
    if isinstance(i, slice):
        start = self.offset if i.start is None else self.offset + i.start
        stop = self.offset + self.size if i.stop is None else self.offset + i.stop
        if start < 0 or start >= len(self.data):
            raise IndexError
        if stop <= 0 or stop > len(self.data):
            raise IndexError
        window = slice_tools.reduced(slice(start, stop, i.step), len(self.data))
        if window.step != 1:
            raise IndexError
        return Buffer(window.stop - window.start, window.start, self.data,
                      unspecified=self.unspecified)
    return self.data[self.offset + i]


@spec('Buffer.__setitem__')
def buffer_setitem(self: Buffer, index: any, value: any):
    assert not isinstance(index, tuple) or len(index) == 1
    i = index[0] if isinstance(index, tuple) else index
    assert isinstance(i, int)
    self.data[self.offset + i] = value


@spec('Buffer.__iter__')
def buffer_iter(self: Buffer):
    for i in range(self.size):
        yield self.data[self.offset + i]


@spec('Buffer.indices_and_data_position', mode='method')
def buffer_traversal(self: Buffer):
    for i in range(self.size):
        yield (i,), self.offset + i


# ------------------------------------------------------------------ strided

@spec('Strided.fromobject', mode='method')
def strided_fromobject(cls, seq: any, shape: any = None, get_seq_index: func = None,
                       unspecified: any = DEFAULT):
    if isinstance(seq, Strided) and shape is None and get_seq_index is None and \
            unspecified is DEFAULT:
        return seq
    full = get_shape(seq) if shape is None else shape
    return cls(full, make_strides(full),
               Buffer.fromobject(seq, shape=full, get_seq_index=get_seq_index,
                                 unspecified=unspecified))


@spec('Strided.__init__', mode='init')
def strided_init(self: Strided, shape: dims, strides: ints, data: Buffer):
    assert len(shape) == len(strides)
    self.shape = shape
    self._strides = strides
    self.data = data
    self.size = math.prod(shape)


@spec('Strided._get_object_data')
def strided_data(self: Strided):
    return self.shape, self.strides, self.data


@spec('Strided.copy', mode='method')
def strided_copy(self: Strided, unspecified: any = DEFAULT):
    placeholder = self.unspecified if unspecified is DEFAULT else unspecified
    result = Strided(self.shape, make_strides(self.shape),
                     Buffer(self.size, 0, [placeholder] * self.size, unspecified=placeholder))
    for index, value in self.elements():
        result[index] = placeholder if value == self.unspecified else value
    return result


@spec('Strided.indices_and_data_position', mode='method')
def strided_traversal(self: Strided):
    for index in itertools.product(*[range(n) for n in self.shape]):
        yield index, get_position(index, self.shape, self.strides)


@spec('Strided.slice_indices_and_data_position', mode='method')
def strided_slice_traversal(self: Strided, shape: dims, strides: ints, offset: int,
                            sort: any = False):
    assume(len(strides) == len(shape))
    for where in itertools.product(*[range(n) for n in shape]):
        yield where, offset + get_position(where, shape, strides)


@spec('Strided.get_data_position', mode='method', through=True)
def strided_position(self: Strided, index: ints):
    assume(len(index) == len(self.shape))
    return get_position(index, self.shape, self.strides)


@spec('Strided.get_slice', mode='method')
def strided_slice(self: Strided, shape: dims, strides: ints, offset: int):
    return Strided(shape, strides, self.data[offset:] if self.data.size else self.data)


# ------------------------------------------------------------------ coordinate formats

@spec('COO.fromobject', mode='method')
def coo_fromobject(cls, seq: any, shape: any = None, get_seq_index: func = None,
                   unspecified: any = DEFAULT):
    plain = unspecified is DEFAULT and shape is None and get_seq_index is None
    if isinstance(seq, COO) and plain:
        return seq
    if isinstance(seq, FlatCOO) and plain:
        data = slice_tools.init_diophantine(seq.strides, seq.shape)
        rows = [[slice_tools.solve_index(f, seq.shape, seq.strides, data)[i]
                 for f in seq.findices] for i in range(len(seq.shape))]
        return cls(seq.shape, Strided.fromobject(rows), seq.data.copy())
    placeholder = get_unspecified(seq) if unspecified is DEFAULT else unspecified
    full = get_shape(seq) if shape is None else shape
    stored = [index for index in itertools.product(*[range(n) for n in full])
              if source_value(seq, index, get_seq_index, placeholder) != placeholder]
    values = [source_value(seq, index, get_seq_index, placeholder)
              for index in itertools.product(*[range(n) for n in full])
              if source_value(seq, index, get_seq_index, placeholder) != placeholder]
    rows = [[index[i] for index in itertools.product(*[range(n) for n in full])
             if source_value(seq, index, get_seq_index, placeholder) != placeholder]
            for i in range(len(full))]
    return cls(full, Strided.fromobject(rows),
               Buffer(len(values), 0, values, unspecified=placeholder))


@spec('COO.__init__', mode='init')
def coo_init(self: COO, shape: dims, indices: Strided, data: Buffer):
    assert isinstance(shape, tuple)
    assert indices.shape[1] == data.size
    self.shape = shape
    self.indices = indices
    self.data = data
    self.size = indices.shape[1]


@spec('COO._get_object_data')
def coo_data(self: COO):
    return self.shape, self.indices, self.data


@spec('COO.indices_and_data_position', mode='method')
def coo_traversal(self: COO):
    for pos in range(self.size):
        yield tuple(self.indices[j, pos] for j in range(self.indices.shape[0])), pos


@spec('COO.get_data_position', mode='method', through=True)
def coo_position(self: COO, index: ints):
    assume(len(index) == len(self.shape))
    return get_coo_position(index, self.shape, self.indices)


@spec('COO.get_slice', mode='method')
def coo_slice(self: COO, shape: dims, strides: ints, offset: int):
    assume(len(shape) >= 1)
    items = sorted(self.slice_indices_and_data_position(shape, strides, offset))
    rows = [[where[i] for where, pos in items] for i in range(len(shape))]
    size = (len(shape), len(rows[0]))
    indices = Strided(size, make_strides(size), Buffer(math.prod(size), 0, sum(rows, [])))
    values = [self.data[pos] for where, pos in items]
    return COO(shape, indices, Buffer(len(values), 0, values, unspecified=self.unspecified))


@spec('FlatCOO.fromobject', mode='method')
def flatcoo_fromobject(cls, seq: any, shape: any = None, get_seq_index: func = None,
                       unspecified: any = DEFAULT):
    plain = unspecified is DEFAULT and shape is None and get_seq_index is None
    if isinstance(seq, FlatCOO) and plain:
        return seq
    if isinstance(seq, COO) and plain:
        places = [get_position(index, seq.shape, seq.strides)
                  for index, pos in seq.indices_and_data_position()]
        return cls(seq.shape, Buffer(len(places), 0, places), seq.data.copy())
    placeholder = get_unspecified(seq) if unspecified is DEFAULT else unspecified
    full = get_shape(seq) if shape is None else shape
    values = [source_value(seq, index, get_seq_index, placeholder)
              for index in itertools.product(*[range(n) for n in full])
              if source_value(seq, index, get_seq_index, placeholder) != placeholder]
    places = [get_position(index, full, make_strides(full))
              for index in itertools.product(*[range(n) for n in full])
              if source_value(seq, index, get_seq_index, placeholder) != placeholder]
    return cls(full, Buffer(len(places), 0, places),
               Buffer(len(values), 0, values, unspecified=placeholder))


@spec('FlatCOO.__init__', mode='init')
def flatcoo_init(self: FlatCOO, shape: dims, findices: Buffer, data: Buffer):
    assert isinstance(shape, tuple)
    assert findices.size == data.size
    self.shape = shape
    self.findices = findices
    self.data = data
    self.size = findices.size


@spec('FlatCOO._get_object_data')
def flatcoo_data(self: FlatCOO):
    return self.shape, self.findices, self.data


@spec('FlatCOO.indices_and_data_position', mode='method')
def flatcoo_traversal(self: FlatCOO):
    data = slice_tools.init_diophantine(self.strides, self.shape)
    for pos in range(self.size):
        yield slice_tools.solve_index(self.findices[pos], self.shape, self.strides, data), pos


@spec('FlatCOO.get_data_position', mode='method', through=True)
def flatcoo_position(self: FlatCOO, index: ints):
    assume(len(index) == len(self.shape))
    return get_flatcoo_position(get_position(index, self.shape, self.strides), self.shape,
                                self.findices)


@spec('FlatCOO.get_slice', mode='method')
def flatcoo_slice(self: FlatCOO, shape: dims, strides: ints, offset: int):
    items = sorted(self.slice_indices_and_data_position(shape, strides, offset))
    places = [get_position(where, shape, make_strides(shape)) for where, pos in items]
    values = [self.data[pos] for where, pos in items]
    return FlatCOO(shape, Buffer(len(places), 0, places),
                   Buffer(len(values), 0, values, unspecified=self.unspecified))


# ------------------------------------------------------------------ compressed rows

@spec('CSR.fromobject', mode='method')
def csr_fromobject(cls, seq: any, shape: any = None, get_seq_index: func = None,
                   unspecified: any = DEFAULT):
    if isinstance(seq, COO) and shape is None and get_seq_index is None and \
            unspecified is DEFAULT:
        return CSR(seq.shape, Buffer.fromobject(compress_indices(seq.indices[0], seq.shape[0])),
                   Buffer.fromobject(seq.indices[1].copy()), seq.data.copy())
    return COO.fromobject(seq, shape=shape, get_seq_index=get_seq_index,
                          unspecified=unspecified).as_CSR()


@spec('CSR.__init__', mode='init')
def csr_init(self: CSR, shape: dims, crow_indices: Buffer, col_indices: Buffer, data: Buffer):
    assert len(shape) == 2
    assert crow_indices.size == shape[0] + 1
    assert col_indices.size == data.size
    self.shape = shape
    self.crow_indices = crow_indices
    self.col_indices = col_indices
    self.data = data
    self.size = data.size


@spec('CSR._get_object_data')
def csr_data(self: CSR):
    return self.shape, self.crow_indices, self.col_indices, self.data


@spec('CSR.indices_and_data_position', mode='method')
def csr_traversal(self: CSR):
    for row in range(self.shape[0]):
        for pos in range(self.crow_indices[row], self.crow_indices[row + 1]):
            yield (row, self.col_indices[pos]), pos


@spec('CSR.get_data_position', mode='method', through=True)
def csr_position(self: CSR, index: ints):
    assume(len(index) == len(self.shape))
    return get_csr_position(index, self.shape, self.crow_indices, self.col_indices)


@spec('CSR.get_slice', mode='method')
def csr_slice(self: CSR, shape: dims, strides: ints, offset: int):
    if len(shape) == 1:
        return self.as_COO().get_slice(shape, strides, offset)
    assert len(shape) == 2
    items = sorted(self.slice_indices_and_data_position(shape, strides, offset))
    values = [self.data[pos] for (row, col), pos in items]
    crow = Buffer.fromobject(compress_indices([row for (row, col), pos in items], shape[0]))
    cols = Buffer.fromobject([col for (row, col), pos in items])
    return CSR(shape, crow, cols,
               Buffer(len(values), 0, values, unspecified=self.unspecified))


@spec('C2SR.__init__', mode='init')
def c2sr_init(self: C2SR, shape: dims, channels: int, row_lengths: Buffer,
              row_pointers: Buffer, col_indices: Buffer, data: Buffer):
    assert len(shape) == 2
    assert row_lengths.size == row_pointers.size
    assert shape[0] == row_lengths.size
    self.shape = shape
    self.channels = channels
    self.row_lengths = row_lengths
    self.row_pointers = row_pointers
    self.col_indices = col_indices
    self.data = data
    self.size = data.size


@spec('C2SR._get_object_data')
def c2sr_data(self: C2SR):
    return (self.shape, self.channels, self.row_lengths, self.row_pointers, self.col_indices,
            self.data)


# ------------------------------------------------------------------ dimension mapping

@spec('make_reduction')
def make_reduction(shape: dims, rdimensions: dimss):
    rshapes = tuple(tuple(shape[i] for i in dims) for dims in rdimensions)
    return (tuple(math.prod(s) for s in rshapes), rshapes,
            tuple(make_strides(s) for s in rshapes))


@spec('DM.__init__', mode='init')
def dm_init(self: DM, shape: dims, rdimensions: dimss, rstrides: intss, roffset: ints,
            data: Storage):
    assert set.union(*map(set, rdimensions)) == set(range(len(shape)))
    assert isinstance(shape, tuple)
    assert isinstance(rdimensions, tuple)
    assert isinstance(rstrides, tuple)
    assert isinstance(roffset, tuple)
    assert isinstance(make_reduction(shape, rdimensions)[1], tuple)
    self.shape = shape
    self.rdimensions = rdimensions
    self.rshapes = make_reduction(shape, rdimensions)[1]
    self.rstrides = rstrides
    self.roffset = roffset
    self.data = data
    self.size = data.size


@spec('DM._get_object_data')
def dm_data(self: DM):
    return self.shape, self.rdimensions, self.rstrides, self.roffset, self.data


@spec('DM.indices_and_data_position', mode='method')
def dm_traversal(self: DM):
    for index in itertools.product(*[range(n) for n in self.shape]):
        yield index, reduce_index(self.rshapes, self.rdimensions, self.rstrides, self.roffset,
                                  index)


@spec('DM.get_data_position', mode='method', through=True)
def dm_position(self: DM, index: ints):
    assume(len(index) == len(self.shape))
    return reduce_index(self.rshapes, self.rdimensions, self.rstrides, self.roffset, index)


@spec('DM.__getitem__')
def dm_getitem(self: DM, index: any):
    index = slice_tools.normalize_index(index, self.shape)
    if is_element_index(index, self.shape):
        pos = self.get_data_position(index)
        return self.unspecified if pos is None else self.data[pos]
    index = slice_tools.normalize_index(index, self.shape)
    n = len(self.shape)
    gone = set(i for i in range(n) if isinstance(index[i], int))
    place = [None if i in gone else i - sum(1 for j in range(i) if j in gone) for i in range(n)]
    m = len(self.rdimensions)
    geom = [slice_tools.index_strided(tuple(index[i] for i in self.rdimensions[k]),
                                      self.rshapes[k], self.rstrides[k]) for k in range(m)]
    roffset = tuple(self.roffset[k] + geom[k][2] for k in range(m) if geom[k][0])
    rstrides = tuple(geom[k][1] for k in range(m) if geom[k][0])
    dindex = tuple(None if geom[k][0] else self.roffset[k] + geom[k][2] for k in range(m))
    kept = [tuple(place[i] for i in self.rdimensions[k] if i not in gone) for k in range(m)]
    rdimensions = tuple(d for d in kept if d)
    data = self.data[dindex] if dindex else self.data
    return DM(slice_tools.shape_strided(index, self.shape), rdimensions, rstrides, roffset, data)


@spec('DM.fromobject', mode='method')
def dm_fromobject(cls, seq: any, shape: any = None, dimensions: any = None,
                  partitioning: any = None, storage_class: func = None,
                  get_seq_index: func = None, unspecified: any = DEFAULT):
    full = get_shape(seq) if shape is None else shape
    n = len(full)
    assume(len(dimensions) == n)         # when given: every axis occurs once
    storage = Strided if storage_class is None else storage_class
    axes = tuple(range(n)) if dimensions is None else dimensions
    if partitioning is None:
        if storage is Buffer or n == 1:
            cuts = ()
        else:
            cuts = (n - 1,)
    elif isinstance(partitioning, int):
        cuts = (partitioning,)
    else:
        cuts = partitioning
    if cuts:
        if cuts != tuple(sorted(cuts)) or min(cuts) <= 0 or max(cuts) >= n:
            raise Refused
    m = len(cuts) + 1
    if m > n:
        raise Refused
    bounds = (0,) + cuts + (n,)
    groups = []
    for k in range(m):
        group = axes[bounds[k]:bounds[k + 1]]
        if group in groups:
            raise Refused
        groups.append(group)
    offsets = (0,) * m
    rshape, rshapes, rstrides = make_reduction(full, groups)

    def source(rindex):
        index = promote_index(rshapes, groups, rstrides, offsets, rindex)
        return index if get_seq_index is None else get_seq_index(index)
    data = storage.fromobject(seq, shape=rshape, get_seq_index=source, unspecified=unspecified)
    assert len(data.shape) == m
    return cls(full, tuple(groups), tuple(rstrides), offsets, data)


# ------------------------------------------------------------------ what constructors refuse
# Components of the right types: the sizes have to fit together.

@spec('Buffer.__init__', mode='refuses', extra=True, name='gcs.storage:Buffer.__init__ refuses')
def buffer_refuses(self: Buffer, size: nat, offset: int, data: any, unspecified: any = None):
    if offset + size > len(data) or isinstance(data, Storage):
        raise Refused


@spec('Strided.__init__', mode='refuses', extra=True, name='gcs.storage:Strided.__init__ refuses')
def strided_refuses(self: Strided, shape: dims, strides: ints, data: Buffer):
    if len(shape) != len(strides):
        raise Refused


@spec('COO.__init__', mode='refuses', extra=True, name='gcs.storage:COO.__init__ refuses')
def coo_refuses(self: COO, shape: dims, indices: Strided, data: Buffer):
    if not isinstance(shape, tuple) or indices.shape[1] != data.size:
        raise Refused


@spec('FlatCOO.__init__', mode='refuses', extra=True, name='gcs.storage:FlatCOO.__init__ refuses')
def flatcoo_refuses(self: FlatCOO, shape: dims, findices: Buffer, data: Buffer):
    if not isinstance(shape, tuple) or findices.size != data.size:
        raise Refused


@spec('CSR.__init__', mode='refuses', extra=True, name='gcs.storage:CSR.__init__ refuses')
def csr_refuses(self: CSR, shape: dims, crow_indices: Buffer, col_indices: Buffer, data: Buffer):
    if len(shape) != 2:
        raise Refused
    if crow_indices.size != shape[0] + 1 or col_indices.size != data.size:
        raise Refused


@spec('C2SR.__init__', mode='refuses', extra=True, name='gcs.storage:C2SR.__init__ refuses')
def c2sr_refuses(self: C2SR, shape: dims, channels: int, row_lengths: Buffer,
                 row_pointers: Buffer, col_indices: Buffer, data: Buffer):
    if len(shape) != 2:
        raise Refused
    if row_lengths.size != row_pointers.size or shape[0] != row_lengths.size:
        raise Refused


@spec('DM.__init__', mode='refuses', extra=True, name='gcs.storage:DM.__init__ refuses')
def dm_refuses(self: DM, shape: dims, rdimensions: dimss, rstrides: intss, roffset: ints,
               data: Storage):
    if set.union(*map(set, rdimensions)) != set(range(len(shape))):
        raise Refused
    if not (isinstance(shape, tuple) and isinstance(rdimensions, tuple) and
            isinstance(make_reduction(shape, rdimensions)[1], tuple) and
            isinstance(rstrides, tuple) and isinstance(roffset, tuple)):
        raise Refused


# Components of any type: the wrong ones are refused, whatever else holds.

@spec('Buffer.__init__', mode='refuses', extra=True, name='gcs.storage:Buffer.__init__ types')
def buffer_types(self: Buffer, size: any, offset: any, data: any, unspecified: any = None):
    if not isinstance(size, int) or not isinstance(offset, int):
        raise Refused
    assert False


@spec('Strided.__init__', mode='refuses', extra=True, name='gcs.storage:Strided.__init__ types')
def strided_types(self: Strided, shape: dims, strides: ints, data: any):
    if not isinstance(data, Buffer):
        raise Refused
    assert False


@spec('COO.__init__', mode='refuses', extra=True, name='gcs.storage:COO.__init__ types')
def coo_types(self: COO, shape: any, indices: any, data: any):
    if not isinstance(shape, tuple) or not isinstance(indices, Strided) or \
            not isinstance(data, Buffer):
        raise Refused
    assert False


@spec('FlatCOO.__init__', mode='refuses', extra=True, name='gcs.storage:FlatCOO.__init__ types')
def flatcoo_types(self: FlatCOO, shape: any, findices: any, data: any):
    if not isinstance(shape, tuple) or not isinstance(findices, Buffer) or \
            not isinstance(data, Buffer):
        raise Refused
    assert False


@spec('CSR.__init__', mode='refuses', extra=True, name='gcs.storage:CSR.__init__ types')
def csr_types(self: CSR, shape: dims, crow_indices: any, col_indices: any, data: any):
    if not isinstance(crow_indices, Buffer) or not isinstance(col_indices, Buffer) or \
            not isinstance(data, Buffer):
        raise Refused
    assert False


@spec('C2SR.__init__', mode='refuses', extra=True, name='gcs.storage:C2SR.__init__ types')
def c2sr_types(self: C2SR, shape: dims, channels: any, row_lengths: any, row_pointers: any,
               col_indices: any, data: any):
    if not isinstance(channels, int) or not isinstance(row_lengths, Buffer) or \
            not isinstance(row_pointers, Buffer) or not isinstance(col_indices, Buffer) or \
            not isinstance(data, Buffer):
        raise Refused
    assert False


@spec('DM.__init__', mode='refuses', extra=True, name='gcs.storage:DM.__init__ types')
def dm_types(self: DM, shape: dims, rdimensions: dimss, rstrides: any, roffset: any, data: any):
    if not isinstance(rstrides, tuple) or not isinstance(roffset, tuple) or \
            not isinstance(data, Storage):
        raise Refused
    assert False


# ------------------------------------------------------------------ the printed form

@spec('Storage.__str__')
def storage_str(self: Storage):
    if isinstance(self, Strided) and len(self.shape) == 1:
        line = ', '.join([str(self[i]) for i in range(self.shape[0])])
        if len(line) > 100:
            line = line[:40] + '.....' + line[-40:]
        return '[' + line + ']'
    if isinstance(self, Strided) and len(self.shape) == 2:
        return '[ ' + '\n  '.join([str(self[i]) for i in range(self.shape[0])]) + '\n]'
    return repr(self)
