"""Which obligations and rules decide which property."""

ST, SL, GB, GV = 'gcs.storage:', 'gcs.slice_tools:', 'gcs_basics:', 'gcs._version:'


def st(names):
    return [ST + n.replace('?', ' ') for n in names.split()]


def sl(names):
    return [SL + n for n in names.split()]


FORMATS = ('Buffer', 'Strided', 'COO', 'FlatCOO', 'CSR', 'DM')

GEOM = sl('reduced nitems index_strided normalize_index')
SOLVE = sl('solve_index axpy extgcd _init_diophantine init_diophantine')
POSITION = st('product make_strides get_position Storage.strides')
ELEMENT = st('is_element_index Storage.__getitem__ Buffer.__getitem__ Storage.unspecified '
             'Buffer.unspecified')
SEARCH = st('get_coo_position get_flatcoo_position get_csr_position COO.get_data_position '
            'FlatCOO.get_data_position CSR.get_data_position Strided.get_data_position')
DMLOOKUP = st('get_rposition reduce_index DM.get_data_position DM.__getitem__')
SOURCE = st('get_shape get_value get_unspecified')
TRAVERSE = st('Storage.elements Buffer.indices_and_data_position '
              'Strided.indices_and_data_position COO.indices_and_data_position '
              'FlatCOO.indices_and_data_position CSR.indices_and_data_position '
              'DM.indices_and_data_position')
SLICETRAVERSE = st('Storage.slice_indices_and_data_position '
                   'Strided.slice_indices_and_data_position')
GETSLICE = st('Strided.get_slice COO.get_slice FlatCOO.get_slice CSR.get_slice')
INIT = st('Buffer.__init__ Strided.__init__ COO.__init__ FlatCOO.__init__ CSR.__init__ '
          'DM.__init__')
FROM = st('Buffer.fromobject Strided.fromobject COO.fromobject FlatCOO.fromobject '
          'CSR.fromobject DM.fromobject')
AS = st('Storage.as_Buffer Storage.as_Strided Storage.as_COO Storage.as_FlatCOO Storage.as_CSR '
        'Storage.as_DM')
COPY = st('Storage.copy Buffer.copy Strided.copy')
COMPRESS = st('compress_indices')
REDUCE = st('make_reduction get_rposition reduce_index promote_index')
OBJDATA = st('Strided._get_object_data COO._get_object_data FlatCOO._get_object_data '
             'CSR._get_object_data C2SR._get_object_data DM._get_object_data')
SETITEM = st('Storage.__setitem__ Buffer.__setitem__')
LOOKUP = ELEMENT + SEARCH + DMLOOKUP + POSITION
SPARSE_INIT = st('COO.__init__ FlatCOO.__init__ CSR.__init__')

PLAN = {
    'S01': dict(obligations=sl('reduced'), rules=['exact']),
    'S02': dict(obligations=sl('nitems reduced'), rules=['exact']),
    'S03': dict(obligations=sl('normalize_index index_strided shape_strided apply_slices nitems '
                               'reduced'), rules=['exact']),
    'S04': dict(obligations=sl('normalize_index index_strided apply_slices')
                + st('Storage.__getitem__ Storage.__setitem__ DM.__getitem__')),
    'L01': dict(obligations=POSITION + SOLVE + st(
        'get_rposition get_index get_slice_index get_index_slice Strided.indices_and_data_position '
        'Strided.slice_indices_and_data_position Strided.get_data_position '
        'FlatCOO.get_data_position FlatCOO.indices_and_data_position Strided.fromobject '
        'FlatCOO.fromobject COO.fromobject FlatCOO.get_slice COO.get_slice Strided.copy '
        'Strided.__init__ Storage.slice_indices_and_data_position'), rules=['exact']),
    'L02': dict(obligations=REDUCE + POSITION + st(
        'DM.__init__ DM.get_data_position DM.indices_and_data_position DM.fromobject'), rules=['exact']),
    'R01': dict(obligations=[GB + n for n in (
        'product', 'create_reduction_metadata', 'reduction', 'promotion', 'compress_indices')],
        rules=['exact']),
    'L03': dict(obligations=st('compress_indices uncompress_indices CSR.fromobject '
                               'CSR.get_slice')),
    'L04': dict(obligations=LOOKUP + SPARSE_INIT + sl('normalize_index'), rules=['override']),
    'L05': dict(obligations=st('COO.fromobject FlatCOO.fromobject CSR.fromobject COO.get_slice '
                               'FlatCOO.get_slice CSR.get_slice compress_indices '
                               'Storage.as_COO Storage.as_CSR Storage.as_FlatCOO') + POSITION
                + SLICETRAVERSE + SPARSE_INIT + TRAVERSE + SOLVE + SOURCE),
    'C01': dict(obligations=FROM + AS + SOURCE + INIT + TRAVERSE + LOOKUP + REDUCE + COMPRESS
                + COPY + OBJDATA + SETITEM + SLICETRAVERSE + GEOM + SOLVE, rules=['override']),
    'C02': dict(obligations=FROM + AS + SOURCE + COPY + GETSLICE + INIT + ELEMENT + SETITEM
                + st('DM.__getitem__ Strided.slice_indices_and_data_position '
                     'Buffer.__iter__') + OBJDATA, rules=['override']),
    'C03': dict(obligations=GEOM + LOOKUP + SLICETRAVERSE + GETSLICE + TRAVERSE + SOLVE
                + COMPRESS + INIT + st('get_value Storage.as_COO COO.fromobject '
                                       'FlatCOO.fromobject Strided.fromobject '
                                       'Buffer.fromobject Buffer.__iter__')
                + sl('shape_strided'), rules=['override']),
    'C04': dict(obligations=GEOM + sl('shape_strided') + DMLOOKUP + REDUCE + ELEMENT
                + st('DM.__init__ DM.indices_and_data_position DM.fromobject Storage.__getitem__')
                + GETSLICE + SLICETRAVERSE + SEARCH + POSITION, rules=['override']),
    'K01': dict(obligations=st('DM.fromobject DM.__init__ Storage.as_DM Strided.fromobject '
                               'Buffer.fromobject COO.fromobject FlatCOO.fromobject '
                               'CSR.fromobject get_shape get_value') + REDUCE + POSITION),
    'W01': dict(obligations=SETITEM + GEOM + SLICETRAVERSE + SOLVE + POSITION + st('get_value')
                + TRAVERSE + LOOKUP + INIT, rules=['override', 'assignment']),
    'W02': dict(obligations=COPY + GETSLICE + FROM + AS + st('Storage._get_object_data')
                + OBJDATA, rules=['sharing', 'override']),
    'W03': dict(obligations=st('Strided.get_slice Buffer.__getitem__ DM.__getitem__ '
                               'Buffer.__init__ Strided.__init__ DM.__init__ '
                               'Storage.__setitem__ Buffer.__setitem__ Storage.__getitem__ '
                               'Storage.__getitem__ Strided.slice_indices_and_data_position '
                               'Strided.get_data_position') + FROM + AS,
                rules=['views', 'override']),
    'W04': dict(obligations=st('Storage.strides'), rules=['effects']),
    'E01': dict(obligations=OBJDATA + INIT + COPY + st(
        'Storage.__eq__ Storage.__ne__ Storage.__repr__ Buffer.__eq__ Buffer.__repr__ '
        'Buffer._get_object_data C2SR.__init__ Storage.strides Storage.unspecified '
        'Buffer.unspecified'), rules=['override']),
    'E02': dict(obligations=st('Storage.equal Buffer.__getitem__ Buffer.__iter__ Storage.elements')
                + TRAVERSE + FROM + SOURCE + POSITION + SOLVE + LOOKUP + INIT,
                rules=['override']),
    'I01': dict(obligations=AS + st('Storage.copy') + FROM + INIT, rules=['interface']),
    'I02': dict(obligations=st('Storage.__len__ Storage.__iter__ Buffer.__iter__') + TRAVERSE
                + INIT + GEOM + SOLVE + LOOKUP + GETSLICE + SLICETRAVERSE,
                rules=['iteration', 'override']),
    'B01': dict(obligations=st('Buffer.__init__ Buffer.__getitem__ Buffer.__setitem__ '
                               'Buffer.__iter__ Buffer.copy Buffer.__eq__ Buffer.__repr__ '
                               'Buffer.indices_and_data_position Storage.elements '
                               'Storage.__len__')
                + sl('reduced'), rules=['sharing', 'views']),
    'Z01': dict(obligations=st('Storage.is_full product C2SR.__init__ Storage.__len__') + INIT
                + st('COO.fromobject FlatCOO.fromobject CSR.fromobject Strided.fromobject '
                     'Buffer.fromobject'), rules=['sizes', 'override']),
    'T01': dict(obligations=SEARCH + sl('extgcd _init_diophantine init_diophantine solve_index')
                + st('product compress_indices uncompress_indices get_shape Storage.__iter__ '
                     'Buffer.__iter__') + [GB + 'product', GB + 'compress_indices'] + TRAVERSE,
                rules=['termination', 'iteration']),
    'D01': dict(obligations=sl('extgcd _init_diophantine diophantine init_diophantine dot axpy'),
                rules=['exact']),
    'D02': dict(obligations=sl('solve_index axpy extgcd _init_diophantine init_diophantine')
                + st('get_index get_slice_index get_index_slice get_position'),
                rules=['exact']),
    'N01': dict(obligations=st(' '.join('%s.__init__ %s.__init__?refuses %s.__init__?types' % (
        c, c, c) for c in FORMATS + ('C2SR',)))),
    'P01': dict(obligations=st('Storage.__str__ Storage.__repr__ Buffer.__repr__')
                + OBJDATA, rules=['override']),
    'V01': dict(obligations=[GV + n for n in (
        'plus_or_dot', 'render_pep440', 'render_pep440_pre', 'render_pep440_post',
        'render_pep440_old', 'render_git_describe', 'render_git_describe_long', 'render',
        'git_pieces_from_vcs')]),
    'V02': dict(obligations=[GV + n for n in (
        'versions_from_parentdir', 'git_versions_from_keywords', 'git_pieces_from_vcs',
        'get_config', 'get_versions', 'run_command', 'render', 'git_get_keywords',
        'get_keywords', 'register_vcs_handler')]),
}

NOT_APPLICABLE = {'D03', 'W05'}

# interface functions without a specification of their own, judged as entry points by the effect
# analysis
ENTRIES = st('Storage.slice_indices_and_data_position Storage.get_data_position Storage.get_slice '
             'Storage.__str__ Storage.as_C2SR Storage._get_object_data '
             'Storage.indices_and_data_position Buffer._get_complete_index') + sl('show')

EXPLANATION = (
    'Every function the property rests on is lowered from its current source to a gated value '
    'graph (joins as gated nodes, loops as maps, sums, searches and recurrences, integers as '
    'polynomials, helpers inlined through the resolved call graph) and compared gate region by '
    'gate region with the graph of its specification; discharged obligations are equal in every '
    'feasible region, a reported one differs in a region the linear constraint domain cannot '
    'refute. The named rules are effect, ownership, interface and termination analyses over the '
    'same resolved program. Undecided constructs are listed and do not count as discharged.')
ASSUMPTIONS = [
    'integers are unbounded; sequences behave as lists or tuples; user callables are pure',
    'the specification texts in /verif/spec state the property; arguments satisfy the assume() '
    'lines there (matching lengths, non-zero steps)',
    'exceptions of the interpreter itself (index errors of ill-formed arguments) are not compared',
]
