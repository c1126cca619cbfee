"""Specification of gcs_basics.py (parsed by the checker, never executed)."""
MODULE = 'gcs_basics'


@spec('product', mode='inline')
def product(seq: ints):
    return math.prod(seq)


@spec('create_reduction_metadata')
def create_reduction_metadata(shape: dims, dimensions: ints, partitioning: ints):
    n = len(shape)
    m = len(partitioning) + 1
    assert m <= n
    bounds = (0,) + partitioning + (n,)
    groups = [dimensions[bounds[k]:bounds[k + 1]] for k in range(m)]
    shapes = [tuple(shape[i] for i in g) for g in groups]
    strides = [tuple(math.prod(s[j] for j in range(i + 1, len(s))) for i in range(len(s)))
               for s in shapes]
    return dict(
        dimensionality=n,
        shape=shape,
        reduction_dimensionality=m,
        reduction_shape=tuple(math.prod(s) for s in shapes),
        reduction_dimensions=tuple(groups),
        reduction_shapes=tuple(shapes),
        reduction_strides=tuple(strides))


# Of the mapping record only the components it documents are used; groups, lengths and strides
# of one reduced axis have one entry per grouped axis.
@spec('reduction')
def reduction(metadata: any, indices: ints):
    m = len(metadata['reduction_shape'])
    assume(len(metadata['reduction_shapes']) == m)
    assume(len(metadata['reduction_strides']) == m)
    assume(len(metadata['reduction_dimensions']) == m)
    assume(all(len(metadata['reduction_strides'][k]) == len(metadata['reduction_shapes'][k])
               for k in range(m)))
    assume(all(len(metadata['reduction_dimensions'][k]) == len(metadata['reduction_shapes'][k])
               for k in range(m)))
    return tuple(
        sum(metadata['reduction_strides'][k][i] * indices[metadata['reduction_dimensions'][k][i]]
            for i in range(len(metadata['reduction_shapes'][k])))
        for k in range(m))


@spec('promotion')
def promotion(metadata: any, reduction_indices: ints):
    m = metadata['reduction_dimensionality']
    assume(len(metadata['reduction_shapes']) == m)
    assume(len(metadata['reduction_shape']) == m)
    assume(len(metadata['reduction_strides']) == m)
    assume(len(metadata['reduction_dimensions']) == m)
    assume(all(len(metadata['reduction_strides'][k]) == len(metadata['reduction_shapes'][k])
               for k in range(m)))
    assume(all(len(metadata['reduction_dimensions'][k]) == len(metadata['reduction_shapes'][k])
               for k in range(m)))
    indices = [None] * metadata['dimensionality']
    for k in range(m):
        axes = metadata['reduction_dimensions'][k]
        for i in range(len(axes)):
            indices[axes[i]] = ((reduction_indices[k] // metadata['reduction_strides'][k][i])
                                % metadata['reduction_shapes'][k][i])
    return tuple(indices)


@spec('compress_indices', weak=True)
def compress_indices(indices: ints, size: nat):
    assume(all(0 <= indices[i] for i in range(len(indices))))
    assume(all(indices[i] < size for i in range(len(indices))))
    assume(all(indices[i] <= indices[i + 1] for i in range(len(indices) - 1)))
    nse = len(indices)
    compressed = [0] * (size + 1)
    k = 1
    last = 0
    for i in range(nse):
        index = indices[i]
        for n in range(last, index):
            compressed[k] = i
            k += 1
        last = index
    for n in range(k, size + 1):
        compressed[n] = nse
    return compressed
