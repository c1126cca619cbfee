"""Behaviour-preserving changes that span functions, classes or modules, for calibrating the
analyser only: none may be reported.     restructure.py [name ...]"""
import os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['gcs/slice_tools.py', 'gcs/storage.py', 'gcs_basics.py', 'gcs/_version.py',
         'gcs/__init__.py']
ST, SL, GB, VE = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py', 'gcs/_version.py'
R = {}


def r(name, *edits):
    R[name] = edits


r('move product and make_strides',
  (ST, '''def product(seq):
    """Product of sequence items.
    """
    if sys.version_info[:2] >= (3, 8):
        return math.prod(seq)
    return seq[0] * product(seq[1:]) if seq else 1


def make_strides(shape):
    """Return C-contiguous strides from shape.
    """
    return tuple(product(shape[i + 1:]) for i in range(len(shape)))
''', '''product = slice_tools.product
make_strides = slice_tools.make_strides
'''),
  (SL, '''import itertools
''', '''import itertools
import math
import sys


def product(seq):
    """Product of sequence items.
    """
    if sys.version_info[:2] >= (3, 8):
        return math.prod(seq)
    return seq[0] * product(seq[1:]) if seq else 1


def make_strides(shape):
    """Return C-contiguous strides from shape.
    """
    return tuple(product(shape[i + 1:]) for i in range(len(shape)))
'''))
r('import from module',
  (ST, '''from . import slice_tools
''', '''from . import slice_tools
from .slice_tools import get_solve_index_data, index_strided, normalize_index, solve_index
'''),
  (ST, '''        index = slice_tools.normalize_index(index, self.shape)
        shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
        for value_index''', '''        index = normalize_index(index, self.shape)
        shape, strides, offset = index_strided(index, self.shape, self.strides)
        for value_index'''),
  (ST, '''            solve_index_data = slice_tools.get_solve_index_data(strides, shape=shape)
            for index, data_pos''', '''            solve_index_data = get_solve_index_data(strides, shape=shape)
            for index, data_pos'''))
r('sparse base class',
  (ST, '''class COO(Storage):
    """Represents''', '''class SparseStorage(Storage):
    """Base of the formats that list their elements.
    """

    def _buffer(self, values):
        return Buffer(len(values), 0, values, unspecified=self.unspecified)


class COO(SparseStorage):
    """Represents'''),
  (ST, '''class FlatCOO(Storage):''', '''class FlatCOO(SparseStorage):'''),
  (ST, '''class CSR(Storage):''', '''class CSR(SparseStorage):'''),
  (ST, '''        data = Buffer(len(values), 0, values, unspecified=self.unspecified)
        return COO(shape, indices, data)''', '''        return COO(shape, indices, self._buffer(values))'''),
  (ST, '''        data = Buffer(len(values), 0, values, unspecified=self.unspecified)
        findices = Buffer(len(findices), 0, findices)
        return FlatCOO(shape, findices, data)''', '''        data = self._buffer(values)
        findices = Buffer(len(findices), 0, findices)
        return FlatCOO(shape, findices, data)'''))
r('mixin copy',
  (ST, '''class Storage:
    """Base class''', '''class Copyable:

    def copy(self, unspecified=DEFAULT):
        """Copy of the storage.
        """
        obj_data = self._get_object_data()
        copy_data = obj_data[:-1] + (obj_data[-1].copy(unspecified=unspecified),)
        return type(self)(*copy_data)


class Storage(Copyable):
    """Base class'''),
  (ST, '''    def copy(self, unspecified=DEFAULT):
        """Copy of the storage.
        """
        obj_data = self._get_object_data()
        copy_data = obj_data[:-1] + (obj_data[-1].copy(unspecified=unspecified),)
        return type(self)(*copy_data)

    @property
    def unspecified''', '''    @property
    def unspecified'''))
r('size property',
  (ST, '''        self.shape = shape
        self._strides = strides
        self.data = data
        self.size = product(shape)
''', '''        self.shape = shape
        self._strides = strides
        self.data = data

    @property
    def size(self):
        return product(self.shape)
'''))
r('parameter renamed',
  (ST, '''def get_position(index, shape, strides):''', '''def get_position(idx, shape, strides):'''),
  (ST, '''    elif d == 1:
        return index[0] * strides[0]
    elif d == 2:
        return index[0] * strides[0] + index[1] * strides[1]
    return sum(index[i] * strides[i] for i in range(d))''', '''    elif d == 1:
        return idx[0] * strides[0]
    elif d == 2:
        return idx[0] * strides[0] + idx[1] * strides[1]
    return sum(idx[i] * strides[i] for i in range(d))'''))
r('parameter added',
  (SL, '''def nitems(s, size, reduce=True):''', '''def nitems(s, size, reduce=True, check=False):'''),
  (SL, '''    if reduce:
        s = reduced(s, size)
    if s.stop == s.start:''', '''    if reduce:
        s = reduced(s, size)
    if check:
        assert s.step
    if s.stop == s.start:'''))
r('render dispatch',
  (VE, '''    if style == "pep440":
        rendered = render_pep440(pieces)
    elif style == "pep440-pre":
        rendered = render_pep440_pre(pieces)
    elif style == "pep440-post":
        rendered = render_pep440_post(pieces)
    elif style == "pep440-old":
        rendered = render_pep440_old(pieces)
    elif style == "git-describe":
        rendered = render_git_describe(pieces)
    elif style == "git-describe-long":
        rendered = render_git_describe_long(pieces)
    else:
        raise ValueError("unknown style '%s'" % style)
''', '''    renderers = {
        "pep440": render_pep440,
        "pep440-pre": render_pep440_pre,
        "pep440-post": render_pep440_post,
        "pep440-old": render_pep440_old,
        "git-describe": render_git_describe,
        "git-describe-long": render_git_describe_long,
    }
    if style not in renderers:
        raise ValueError("unknown style '%s'" % style)
    rendered = renderers[style](pieces)
'''))
r('render fstrings',
  (VE, '''            rendered += "%d.g%s" % (pieces["distance"], pieces["short"])
            if pieces["dirty"]:
                rendered += ".dirty"
    else:
        # exception #1
        rendered = "0+untagged.%d.g%s" % (pieces["distance"],
                                          pieces["short"])
''', '''            rendered += f"{pieces['distance']:d}.g{pieces['short']}"
            if pieces["dirty"]:
                rendered += ".dirty"
    else:
        # exception #1
        rendered = f"0+untagged.{pieces['distance']:d}.g{pieces['short']}"
'''))
r('dirty suffix helper',
  (VE, '''def render_pep440(pieces):''', '''def _dirty(pieces, suffix):
    return suffix if pieces["dirty"] else ""


def render_pep440(pieces):'''),
  (VE, '''            rendered += "%d.g%s" % (pieces["distance"], pieces["short"])
            if pieces["dirty"]:
                rendered += ".dirty"
''', '''            rendered += "%d.g%s" % (pieces["distance"], pieces["short"])
            rendered += _dirty(pieces, ".dirty")
'''),
  (VE, '''        rendered = "0.post%d" % pieces["distance"]
        if pieces["dirty"]:
            rendered += ".dev0"
        rendered += "+g%s" % pieces["short"]
''', '''        rendered = "0.post%d" % pieces["distance"] + _dirty(pieces, ".dev0")
        rendered += "+g%s" % pieces["short"]
'''))
r('fallback record helper',
  (VE, '''def get_versions():
''', '''def unknown_version(error):
    return {"version": "0+unknown", "full-revisionid": None,
            "dirty": None, "error": error, "date": None}


def get_versions():
'''),
  (VE, '''        return {"version": "0+unknown", "full-revisionid": None,
                "dirty": None,
                "error": "unable to find root of source tree",
                "date": None}
''', '''        return unknown_version("unable to find root of source tree")
'''),
  (VE, '''    return {"version": "0+unknown", "full-revisionid": None,
            "dirty": None,
            "error": "unable to compute version", "date": None}''', '''    return unknown_version("unable to compute version")'''))
r('date helper',
  (VE, '''class NotThisMethod(Exception):''', '''def iso_date(text):
    """ISO-8601 form of the date git prints."""
    return text.strip().replace(" ", "T", 1).replace(" ", "", 1)


class NotThisMethod(Exception):'''),
  (VE, '''        date = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
    refnames''', '''        date = iso_date(date)
    refnames'''),
  (VE, '''    date = date.strip()
    pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
''', '''    pieces["date"] = iso_date(date)
'''))
r('git helper',
  (VE, '''    out, rc = run_command(GITS, ["rev-parse", "--git-dir"], cwd=root,
                          hide_stderr=True)
''', '''    def git(*args, **kw):
        return run_command(GITS, list(args), cwd=root, **kw)

    out, rc = git("rev-parse", "--git-dir", hide_stderr=True)
'''),
  (VE, '''    full_out, rc = run_command(GITS, ["rev-parse", "HEAD"], cwd=root)
''', '''    full_out, rc = git("rev-parse", "HEAD")
'''))
r('with open',
  (VE, '''        f = open(versionfile_abs, "r")
        for line in f.readlines():
            if line.strip().startswith("git_refnames ="):
                mo = re.search(r'=\\s*"(.*)"', line)
                if mo:
                    keywords["refnames"] = mo.group(1)
            if line.strip().startswith("git_full ="):
                mo = re.search(r'=\\s*"(.*)"', line)
                if mo:
                    keywords["full"] = mo.group(1)
            if line.strip().startswith("git_date ="):
                mo = re.search(r'=\\s*"(.*)"', line)
                if mo:
                    keywords["date"] = mo.group(1)
        f.close()
''', '''        with open(versionfile_abs, "r") as f:
            for line in f:
                for name, key in (("git_refnames", "refnames"), ("git_full", "full"),
                                  ("git_date", "date")):
                    if line.strip().startswith(name + " ="):
                        mo = re.search(r'=\\s*"(.*)"', line)
                        if mo:
                            keywords[key] = mo.group(1)
'''))
r('oserror', (VE, '''        except EnvironmentError:
            e = sys.exc_info()[1]
            if e.errno''', '''        except OSError as e:
            if e.errno'''))
r('rc truth', (VE, '''    if rc != 0:
        if verbose:
            print("Directory''', '''    if out is None or rc != 0:
        if verbose:
            print("Directory'''))
r('tags comprehension',
  (VE, '''    refs = set([r.strip() for r in refnames.strip("()").split(",")])
''', '''    refs = {r.strip() for r in refnames.strip("()").split(",")}
'''),
  (VE, '''    tags = set([r[len(TAG):] for r in refs if r.startswith(TAG)])
''', '''    tags = {r[len(TAG):] for r in refs if r.startswith(TAG)}
'''))
r('values helper in conversions',
  (ST, '''class Storage:
    """Base class''', '''def specified_elements(seq, shape, get_seq_index, unspecified):
    """Iterator of the specified elements of seq as index and value pairs.
    """
    seq_unspecified = get_unspecified(seq)
    for index in itertools.product(*map(range, shape)):
        value = get_value(seq, get_seq_index(index))
        if value == seq_unspecified:
            value = unspecified
        if value != unspecified:
            yield index, value


class Storage:
    """Base class'''),
  (ST, '''        for index in itertools.product(*map(range, shape)):
            value = get_value(seq, get_seq_index(index))
            if value == seq_unspecified:
                value = unspecified
            if value == unspecified:
                continue
            for i in range(len(shape)):''', '''        for index, value in specified_elements(seq, shape, get_seq_index, unspecified):
            for i in range(len(shape)):'''),
  (ST, '''        for index in itertools.product(*map(range, shape)):
            value = get_value(seq, get_seq_index(index))
            if value == seq_unspecified:
                value = unspecified
            if value == unspecified:
                continue
            findex =''', '''        for index, value in specified_elements(seq, shape, get_seq_index, unspecified):
            findex ='''))
r('is_same_format helper',
  (ST, '''class Storage:
    """Base class''', '''def _as_is(seq, cls, shape, get_seq_index, unspecified):
    return (isinstance(seq, cls) and shape is None and get_seq_index is None
            and unspecified is DEFAULT)


class Storage:
    """Base class'''),
  (ST, '''        if isinstance(seq, COO) and (unspecified is DEFAULT and shape is None
                                     and get_seq_index is None):
            return seq
''', '''        if _as_is(seq, COO, shape, get_seq_index, unspecified):
            return seq
'''),
  (ST, '''        if isinstance(seq, Strided) and (shape is None and get_seq_index is None
                                         and unspecified is DEFAULT):
            return seq
''', '''        if _as_is(seq, Strided, shape, get_seq_index, unspecified):
            return seq
'''))
r('identity index',
  (ST, '''def get_unspecified(seq''', '''def identity(index):
    return index


def get_unspecified(seq'''),
  (ST, '''        if get_seq_index is None:

            def get_seq_index(index):
                return index

        if shape is None:
            shape = get_shape(seq)
        values''', '''        if get_seq_index is None:
            get_seq_index = identity

        if shape is None:
            shape = get_shape(seq)
        values'''),
  (ST, '''        if get_seq_index is None:

            def get_seq_index(index):
                return index

        reduction_dim''', '''        get_seq_index = get_seq_index or identity
        reduction_dim'''))
r('iter delegates',
  (ST, '''        for i in range(self.shape[0]):
            yield self[i]
''', '''        return map(self.__getitem__, range(len(self)))
'''))
r('iter genexp',
  (ST, '''        for i in range(self.shape[0]):
            yield self[i]
''', '''        return (self[i] for i in range(len(self)))
'''))
r('match index',
  (SL, '''        if isinstance(ind, int):
            new_index[i] = ind % shape[i]
        elif isinstance(ind, slice):
            new_index[i] = reduced(ind, shape[i])
        elif ind is None:
            pass
        else:
            raise ValueError(
                f'index items must be int or slice or None, got {type(ind)} at index {i}')
    return tuple(new_index)''', '''        match ind:
            case int():
                new_index[i] = ind % shape[i]
            case slice():
                new_index[i] = reduced(ind, shape[i])
            case None:
                pass
            case _:
                raise ValueError(
                    f'index items must be int or slice or None, got {type(ind)} at index {i}')
    return tuple(new_index)'''))
r('walrus',
  (ST, '''            data_pos = self.get_data_position(index)
            if data_pos is None:
                return self.unspecified
            return self.data[data_pos]
        shape, strides, offset = slice_tools''', '''            if (data_pos := self.get_data_position(index)) is None:
                return self.unspecified
            return self.data[data_pos]
        shape, strides, offset = slice_tools'''))
r('element method',
  (ST, '''    def indices_and_data_position(self):
        raise NotImplementedError(f'{type(self).__name__}.indices_and_data_position')
''', '''    def get_element(self, index):
        """Value of an element, the placeholder if it is not stored.
        """
        data_pos = self.get_data_position(index)
        return self.unspecified if data_pos is None else self.data[data_pos]

    def indices_and_data_position(self):
        raise NotImplementedError(f'{type(self).__name__}.indices_and_data_position')
'''),
  (ST, '''        if is_element_index(index, self.shape):
            data_pos = self.get_data_position(index)
            if data_pos is None:
                return self.unspecified
            return self.data[data_pos]
        shape, strides, offset = slice_tools''', '''        if is_element_index(index, self.shape):
            return self.get_element(index)
        shape, strides, offset = slice_tools'''),
  (ST, '''        if is_element_index(index, self.shape):
            data_pos = self.get_data_position(index)
            if data_pos is None:
                return self.unspecified
            return self.data[data_pos]
        index = slice_tools''', '''        if is_element_index(index, self.shape):
            return self.get_element(index)
        index = slice_tools'''))
r('named tuple of solver data',
  (SL, '''def init_diophantine(a, shape=None):''', '''from collections import namedtuple

Solution = namedtuple('Solution', 'd z0 zs D b s')


def init_diophantine(a, shape=None):'''),
  (SL, '''    return d, z0, zs, D, b, s


def diophantine''', '''    return Solution(d, z0, zs, D, b, s)


def diophantine'''))
r('numeric tower', (SL, '''    sgn = s.step // abs(s.step)
    return max(0, ((s.stop - s.start) + s.step - sgn) // s.step)''', '''    return max(0, -(-(s.stop - s.start) // s.step))'''))
r('len range', (SL, '''    if s.stop == s.start:
        return 0
    sgn = s.step // abs(s.step)
    return max(0, ((s.stop - s.start) + s.step - sgn) // s.step)''', '''    return len(range(s.start, s.stop, s.step))'''))
r('no empty case', (SL, '''    if s.stop == s.start:
        return 0
    sgn = s.step''', '''    sgn = s.step'''))
r('compress tail', (GB, '''    for n in range(k, size + 1):
        compressed[n] = nse
''', '''    for n in range(last_index + 1, size + 1):
        compressed[n] = nse
'''))
r('compress shared',
  (ST, '''    nse = len(indices)
    compressed = [0] * (size + 1)

    k = 1
    last_index = 0
    for i in range(nse):
        index = indices[i]
        for n in range(last_index, index):
            compressed[k] = i
            k += 1
        last_index = index

    for n in range(k, size + 1):
        compressed[n] = nse

    return compressed
''', '''    compressed = [0]
    for i, index in enumerate(indices):
        while len(compressed) <= index:
            compressed.append(i)
    while len(compressed) <= size:
        compressed.append(len(indices))
    return compressed
'''))
r('buffer window method',
  (ST, '''    def _get_object_data(self):
        return self.size, self.offset, self.unspecified
''', '''    def _get_object_data(self):
        return self.size, self.offset, self.unspecified

    def _window(self):
        """Underlying values of the window.
        """
        return self.data[self.offset:self.offset+self.size]
'''),
  (ST, '''            data = self.data[self.offset:self.offset+self.size].copy()
''', '''            data = self._window().copy()
'''),
  (ST, '''                    and (self.data[self.offset:self.offset+self.size]
                         == other.data[other.offset: other.offset + other.size])
''', '''                    and self._window() == other._window()
'''),
  (ST, '''        data = str(self.data[self.offset:self.offset+self.size])
        n = self.offset''', '''        data = str(self._window())
        n = self.offset'''))
r('buffer end property',
  (ST, '''    def _get_object_data(self):
        return self.size, self.offset, self.unspecified
''', '''    def _get_object_data(self):
        return self.size, self.offset, self.unspecified

    @property
    def end(self):
        return self.offset + self.size
'''),
  (ST, '''    def __iter__(self):
        for pos in range(self.offset, self.offset + self.size):
            yield self.data[pos]
''', '''    def __iter__(self):
        for pos in range(self.offset, self.end):
            yield self.data[pos]
'''),
  (ST, '''            stop = self.offset + index.stop if index.stop is not None else self.offset + self.size
''', '''            stop = self.offset + index.stop if index.stop is not None else self.end
'''))
r('coo index lists helper',
  (ST, '''def get_coo_position(''', '''def _transpose(tuples, n):
    """Lists of the entries of index tuples, one per axis.
    """
    return [[index[i] for index in tuples] for i in range(n)]


def get_coo_position('''),
  (ST, '''        values = []
        indices = [[] for d in shape]
        for slice_index, data_pos in sorted(
                self.slice_indices_and_data_position(shape, strides, offset)):
            for i in range(len(shape)):
                indices[i].append(slice_index[i])
            values.append(self.data[data_pos])
        indices_shape''', '''        items = sorted(self.slice_indices_and_data_position(shape, strides, offset))
        indices = _transpose([slice_index for slice_index, _ in items], len(shape))
        values = [self.data[data_pos] for _, data_pos in items]
        indices_shape'''))
r('dm group class',
  (ST, '''            kslice = tuple(index[i] for i in self.rdimensions[k])
            kshape, kstrides, koffset = slice_tools.index_strided(
                kslice, self.rshapes[k], self.rstrides[k])
            if kshape:
                rshapes += (kshape,)
                roffset += (self.roffset[k] + koffset,)
                rstrides += (kstrides,)
                dindex += (None,)
            else:
                dindex += (self.roffset[k] + koffset,)
''', '''            kshape, kstrides, koffset = self._slice_group(k, index)
            if kshape:
                rshapes += (kshape,)
                roffset += (koffset,)
                rstrides += (kstrides,)
                dindex += (None,)
            else:
                dindex += (koffset,)
'''),
  (ST, '''    def get_data_position(self, index):
        return reduce_index(self''', '''    def _slice_group(self, k, index):
        """Shape, strides and offset of a group of axes after indexing.
        """
        kslice = tuple(index[i] for i in self.rdimensions[k])
        return slice_tools.index_strided(kslice, self.rshapes[k], self.rstrides[k],
                                         offset=self.roffset[k])

    def get_data_position(self, index):
        return reduce_index(self'''))
r('dm super getitem',
  (ST, '''        index = slice_tools.normalize_index(index, self.shape)
        gshape = slice_tools''', '''        gshape = slice_tools'''))
r('dm axis set',
  (ST, '''        axis_to_be_removed = set(i for i in range(len(self.shape)) if isinstance(index[i], int))
''', '''        axis_to_be_removed = {i for i, ind in enumerate(index) if isinstance(ind, int)}
'''))
r('dm axis count',
  (ST, '''        axis_map = []  # describes re-indexing of axis when some axes are fixed.
        for i in range(len(self.shape)):
            if i in axis_to_be_removed:
                axis_map.append(None)
            else:
                axis_map.append(i - sum(1 for j in range(i) if j in axis_to_be_removed))
''', '''        axis_map = []  # describes re-indexing of axis when some axes are fixed.
        kept = 0
        for i in range(len(self.shape)):
            if i in axis_to_be_removed:
                axis_map.append(None)
            else:
                axis_map.append(kept)
                kept += 1
'''))
r('dm partition helper',
  (ST, '''class DM(Storage):
    """Dimensions mapping''', '''def partition(dimensions, partitioning):
    """Split dimensions at the partition points.
    """
    positions = (0,) + partitioning + (len(dimensions),)
    return [dimensions[a:b] for a, b in zip(positions[:-1], positions[1:])]


class DM(Storage):
    """Dimensions mapping'''),
  (ST, '''        partition_positions = (0,) + partitioning + (dimensionality,)
        rdimensions = []
        for k in range(reduction_dimensionality):
            rdims = dimensions[partition_positions[k]:partition_positions[k+1]]
            assert rdims not in rdimensions
            rdimensions.append(rdims)
''', '''        rdimensions = []
        for rdims in partition(dimensions, partitioning):
            assert rdims not in rdimensions
            rdimensions.append(rdims)
'''))
r('dm def instead of lambda',
  (ST, '''        storage_get_seq_index = (lambda rindex, rshapes=rshapes,
                                 rdimensions=rdimensions,
                                 rstrides=rstrides,
                                 roffset=roffset,
                                 get_seq_index=get_seq_index: (
                                     get_seq_index(
                                         promote_index(rshapes, rdimensions,
                                                       rstrides, roffset, rindex))))

        options = dict(
            shape=rshape,
            get_seq_index=storage_get_seq_index,
            unspecified=unspecified
        )
        storage = storage_class.fromobject(seq, **options)
''', '''        def storage_get_seq_index(rindex):
            return get_seq_index(promote_index(rshapes, rdimensions, rstrides, roffset, rindex))

        storage = storage_class.fromobject(seq, shape=rshape, unspecified=unspecified,
                                           get_seq_index=storage_get_seq_index)
'''))
r('gather result in equal',
  (ST, '''        if d1 != d2:
            print()
            print(f'{d1=}')
            print(f'{d2=}')
        return self.shape == other.shape and d1 == d2''', '''        same = d1 == d2
        if not same:
            print()
            print(f'{d1=}')
            print(f'{d2=}')
        return same and self.shape == other.shape'''))
r('equal shape first',
  (ST, '''        for index, value in other.elements():
            if value != other.unspecified:
                d2[index] = value
        if d1''', '''        if self.shape != other.shape:
            return False
        d2 = {index: value for index, value in other.elements()
              if not value == other.unspecified}
        if d1'''))
r('setitem split',
  (ST, '''        index = slice_tools.normalize_index(index, self.shape)
        shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
        for value_index, data_pos in self.slice_indices_and_data_position(shape, strides, offset):
            self.data[data_pos] = get_value(value, value_index)
''', '''        index = slice_tools.normalize_index(index, self.shape)
        geometry = slice_tools.index_strided(index, self.shape, self.strides)
        self._assign(value, *geometry)

    def _assign(self, value, shape, strides, offset):
        positions = self.slice_indices_and_data_position(shape, strides, offset)
        for value_index, data_pos in positions:
            self.data[data_pos] = get_value(value, value_index)
'''))
r('abstract methods',
  (ST, '''import itertools
import math''', '''import abc
import itertools
import math'''),
  (ST, '''    def get_slice(self, shape, strides, offset):
        raise NotImplementedError(f'{type(self).__name__}.get_slice')
''', '''    def get_slice(self, shape, strides, offset):
        """Sliced array of the given geometry.
        """
        name = type(self).__name__
        raise NotImplementedError(f'{name}.get_slice')
'''))
r('private constants',
  (ST, '''DEFAULT = object()
''', '''class _Default:
    """Marks an argument that was not given."""


DEFAULT = _Default()
'''))
r('solve_index early test',
  (SL, '''        for i in range(len(shape)):
            if not (0 <= index[i] < shape[i]):
                break
        else:
            return index
    return
''', '''        if all(0 <= ind < size for ind, size in zip(index, shape)):
            return index
    return None
'''))
r('solve_index product repeat',
  (SL, '''itertools.product(*(((0, 1),)*n))''', '''itertools.product((0, 1), repeat=n)'''))
r('divmod',
  (SL, '''    if c % d:
        return None, ()
    k = c // d
    return tuple(z''', '''    k, rest = divmod(c, d)
    if rest:
        return None, ()
    return tuple(z'''))
r('divmod solve',
  (SL, '''    if pos % d:
        return  # no solution exists

    k = pos // d
''', '''    k, remainder = divmod(pos, d)
    if remainder != 0:
        return None  # no solution exists
'''))
r('swap in extgcd',
  (SL, '''    gcd, x1, y1 = extgcd(b % a, a)
    x = y1 - (b//a) * x1
    y = x1
    return gcd, x, y''', '''    q, r = divmod(b, a)
    gcd, y, x1 = extgcd(r, a)
    return gcd, x1 - q * y, y'''))
r('typing',
  (ST, '''import itertools
import math''', '''from __future__ import annotations

import itertools
import math'''),
  (ST, '''def make_strides(shape):
''', '''def make_strides(shape: tuple[int, ...]) -> tuple[int, ...]:
'''))
r('dunder all',
  (SL, '''import itertools
''', '''import itertools

__all__ = ['reduced', 'nitems', 'solve_index']
'''))
r('chained as methods',
  (ST, '''    def as_COO(self, unspecified=DEFAULT):
        return COO.fromobject(self, unspecified=unspecified)

    def as_FlatCOO(self, unspecified=DEFAULT):
        return FlatCOO.fromobject(self, unspecified=unspecified)
''', '''    def _convert(self, cls, **options):
        return cls.fromobject(self, **options)

    def as_COO(self, unspecified=DEFAULT):
        return self._convert(COO, unspecified=unspecified)

    def as_FlatCOO(self, unspecified=DEFAULT):
        return self._convert(FlatCOO, unspecified=unspecified)
'''))
r('assert helper',
  (ST, '''        assert isinstance(shape, tuple)
        assert isinstance(findices, Buffer)
        assert isinstance(data, Buffer)
        self.shape = shape
        self.findices''', '''        for value, kind in ((shape, tuple), (findices, Buffer), (data, Buffer)):
            assert isinstance(value, kind)
        self.shape = shape
        self.findices'''))
r('basics zip',
  (GB, '''    for k in range(len(metadata['reduction_shape'])):
        reduction_shape = metadata['reduction_shapes'][k]
        reduction_strides = metadata['reduction_strides'][k]
        reduction_dimensions = metadata['reduction_dimensions'][k]
        reduction_index = sum(reduction_strides[i] * indices[reduction_dimensions[i]] for i in range(len(reduction_shape)))
        reduction_indices.append(reduction_index)
    return tuple(reduction_indices)''', '''    for strides, dimensions in zip(metadata['reduction_strides'],
                                   metadata['reduction_dimensions']):
        reduction_indices.append(sum(s * indices[d] for s, d in zip(strides, dimensions)))
    return tuple(reduction_indices)'''))
r('basics mixed radix',
  (GB, '''        for i in range(len(reduction_dimensions)):
            indices[reduction_dimensions[i]] = (reduction_indices[k] // reduction_strides[i]) % reduction_shape[i]
''', '''        position = reduction_indices[k]
        for dim, stride, size in zip(reduction_dimensions, reduction_strides, reduction_shape):
            indices[dim] = (position // stride) % size
'''))
r('reduced min max',
  (SL, '''    if step > 0:
        if start is None or start < -size:
            start = 0
        elif start < 0:
            start += size
        elif start > size:
            start = size
        if stop is None or stop > size:
            stop = size
        elif stop < -size:
            stop = 0
        elif stop < 0:
            stop += size
        if step > size:
            step = size
    else:''', '''    if step > 0:
        start = 0 if start is None else start
        stop = size if stop is None else stop
        start, stop = (max(0, x + size) if x < 0 else min(x, size) for x in (start, stop))
        step = min(step, size)
    else:'''))
r('reduced indices',
  (SL, '''    if step > 0:
        if start is None or start < -size:
            start = 0
        elif start < 0:
            start += size
        elif start > size:
            start = size
        if stop is None or stop > size:
            stop = size
        elif stop < -size:
            stop = 0
        elif stop < 0:
            stop += size
        if step > size:
            step = size
    else:''', '''    if step > 0:
        start, stop, step = s.indices(size)
        if step > size:
            step = size
    else:'''))


def main():
    todo = sys.argv[1:] or list(R)
    for name in todo:
        d = tempfile.mkdtemp(prefix='/tmp/rs_')
        os.mkdir(d + '/gcs')
        for f in FILES:
            shutil.copy('/repo/' + f, d + '/' + f)
        try:
            for path, old, new in R[name]:
                text = open(d + '/' + path).read()
                if text.count(old) != 1:
                    print(name, 'DOES NOT APPLY', text.count(old), old[:60])
                    break
                open(d + '/' + path, 'w').write(text.replace(old, new))
                compile(open(d + '/' + path).read(), path, 'exec')
            else:
                out = subprocess.run(['bash', VERIF + '/tools/checkall.sh', d],
                                     capture_output=True, text=True).stdout.splitlines()
                bad = sorted({x.split(':')[0] for x in out if 'VIOLATION' in x
                              or 'Traceback' in x or 'ANALYSIS' in x})
                und = sorted({x.split('UNDECIDED ')[1].replace(d, '')[:150]
                              for x in out if 'UNDECIDED' in x})
                print('%-34s %s' % (name, 'ALARM ' + ' '.join(bad) if bad else
                                    'undecided' if und else 'ok'), flush=True)
                for u in und[:4]:
                    print('     ', u)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
