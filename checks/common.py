"""Grids, independent file encoders/decoders and helpers for the checks."""

import itertools
import os
import struct

import numpy as np

FIELDS = ['N', 'T', 'M', 'U', 'V']
ALL = ['X', 'Y'] + FIELDS


# shapes of maps as large as the ones in use, and thin ones
LARGE = ((40, 1), (1, 40), (17, 13), (31, 70), (130, 33))


def fillings(nx, ny):
    """(name, mask) of ways to fill large maps."""
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    yield 'all', np.ones((nx, ny), bool)
    yield 'none', np.zeros((nx, ny), bool)
    yield 'every other', (i + j) % 2 == 0
    yield 'columns', i % 3 == 1
    yield 'layers', j % 3 == 1
    yield 'middle', (abs(2 * i - nx + 1) <= nx // 2) & (abs(2 * j - ny + 1) <= ny // 2)
    yield 'corners', ((i == 0) | (i == nx - 1)) & ((j == 0) | (j == ny - 1))
    yield 'all but the last', i * ny + j < nx * ny - 1
    yield 'all but the first', i * ny + j > 0


def shuffles(nx, ny):
    """(name, order) of ways to store the bins of large maps."""
    k = np.arange(nx * ny)
    yield 'as is', k
    yield 'reversed', k[::-1]
    yield 'along x first', k.reshape(nx, ny).T.ravel()
    yield 'downwards', k.reshape(nx, ny)[:, ::-1].ravel()
    yield 'halves swapped', np.roll(k, (nx * ny) // 2)
    yield 'two by two', np.concatenate((k[1::2], k[::2]))
    yield 'by seven', np.argsort((k * 7919) % (nx * ny + 1), kind='stable')


class Grid(object):
    """A regular map in x-major order; values[l][i, j] for column i, layer j."""

    def __init__(self, nx, ny, corner=(0., 0.), spacing=(1., 1.), values=None):
        self.nx, self.ny = nx, ny
        self.corner = tuple(float(v) for v in corner)
        self.spacing = tuple(float(v) for v in spacing)
        self.values = {l: np.zeros((nx, ny)) for l in FIELDS}
        for l, v in (values or {}).items():
            self.values[l][:] = v

    @property
    def x(self):
        return self.corner[0] + self.spacing[0] * (np.arange(self.nx) + 0.5)

    @property
    def y(self):
        return self.corner[1] + self.spacing[1] * (np.arange(self.ny) + 0.5)

    def data(self):
        """Flat x-major dictionary as the readers return it."""
        xs, ys = np.meshgrid(self.x, self.y, indexing='ij')
        out = {'X': xs.ravel(), 'Y': ys.ravel()}
        for l in FIELDS:
            out[l] = self.values[l].ravel().copy()
        return out

    def info(self):
        return {'shape': (self.nx, self.ny), 'spacing': self.spacing,
                'origin': self.corner, 'num_bins': self.nx * self.ny}

    def copy(self):
        return Grid(self.nx, self.ny, self.corner, self.spacing, self.values)

    def flow(self, order=None):
        """FlowData in x-major order, or with rows permuted by `order`."""
        from droplets.flow import FlowData
        data = self.data()
        if order is not None:
            data = {l: v[order] for l, v in data.items()}
        return FlowData(*[(l, data[l]) for l in ALL], info=self.info())


def close(a, b, rtol=1e-6, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False))


# -- sparse flow format, written and read without the code under test --------

def gmx_bytes(grid, version=1, comments=None, fields=None, keep=None):
    """Encode a Grid; bins with mass are stored (or those in mask `keep`)."""
    if keep is None:
        keep = grid.values['M'] != 0.
    ix, iy = np.nonzero(keep)
    fields = fields or ['IX', 'IY'] + FIELDS
    head = ['FORMAT GMX_FLOW_%d' % version,
            'ORIGIN %.6f %.6f' % grid.corner,
            'SHAPE %d %d' % (grid.nx, grid.ny),
            'SPACING %.6f %.6f' % grid.spacing,
            'NUMDATA %d' % ix.size,
            'FIELDS ' + ' '.join(fields)]
    head += ['COMMENT ' + c for c in (comments or ['c'])]
    out = ('\n'.join(head) + '\n').encode('ascii') + b'\0'
    for l in fields:
        if l == 'IX':
            out += ix.astype('<u8').tobytes()
        elif l == 'IY':
            out += iy.astype('<u8').tobytes()
        else:
            out += grid.values[l][keep].astype('<f4').tobytes()
    return out


def write_gmx(path, grid, **kwargs):
    with open(path, 'wb') as fp:
        fp.write(gmx_bytes(grid, **kwargs))


def parse_gmx(raw):
    """Decode the sparse format: (Grid, mask of stored bins)."""
    if isinstance(raw, str):
        with open(raw, 'rb') as fp:
            raw = fp.read()
    end = raw.index(b'\0')
    info = {}
    for line in raw[:end].decode('ascii').splitlines():
        key, _, rest = line.partition(' ')
        info.setdefault(key.upper(), rest)
    if not info['FORMAT'].startswith('GMX_FLOW_'):
        raise ValueError('not the sparse format: %r' % info['FORMAT'])
    nx, ny = (int(v) for v in info['SHAPE'].split())
    grid = Grid(nx, ny, [float(v) for v in info['ORIGIN'].split()],
                [float(v) for v in info['SPACING'].split()])
    n = int(info['NUMDATA'])
    pos = end + 1
    cols = {}
    for l in info['FIELDS'].split():
        size, kind = (8, '<u8') if l in ('IX', 'IY') else (4, '<f4')
        buf = raw[pos:pos + n * size]
        if len(buf) != n * size:
            raise ValueError('file too short')
        cols[l] = np.frombuffer(buf, dtype=kind)
        pos += n * size
    if pos != len(raw):
        raise ValueError('%d trailing bytes' % (len(raw) - pos))
    keep = np.zeros((nx, ny), dtype=bool)
    ix, iy = cols['IX'].astype(int), cols['IY'].astype(int)
    if n and (ix.max() >= nx or iy.max() >= ny):
        raise ValueError('index outside of grid')
    if len(set(zip(ix.tolist(), iy.tolist()))) != n:
        raise ValueError('a bin is stored twice')
    keep[ix, iy] = True
    for l in FIELDS:
        grid.values[l][ix, iy] = cols[l]
    return grid, keep


# -- simple formats -----------------------------------------------------------

def simple_bytes(grid, shift=0.):
    data = grid.data()
    rows = np.array([data[l] for l in ALL], dtype='<f4').T
    return rows.tobytes()


def plain_bytes(grid, digits=6):
    data = grid.data()
    out = [' '.join(ALL)]
    for row in zip(*[data[l] for l in ALL]):
        out.append(' '.join('%.*f' % (digits, v) for v in row))
    return ('\n'.join(out) + '\n').encode('ascii')


def parse_simple(raw):
    """Rows of a simple binary file as a dictionary of columns."""
    if isinstance(raw, str):
        with open(raw, 'rb') as fp:
            raw = fp.read()
    rows = np.frombuffer(raw, dtype='<f4').reshape(-1, len(ALL))
    return {l: rows[:, k].astype(float) for k, l in enumerate(ALL)}


def parse_plain(raw):
    if isinstance(raw, str):
        with open(raw, 'rb') as fp:
            raw = fp.read()
    lines = raw.decode('ascii').split('\n')
    labels = lines[0].split()
    rows = [[float(v) for v in line.split()] for line in lines[1:] if line]
    return {l: np.array([r[k] for r in rows]) for k, l in enumerate(labels)}


# -- directories --------------------------------------------------------------

def snapshot(root):
    """{relative path: bytes, or None for a directory} of everything below."""
    out = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), root)] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fp:
                out[os.path.relpath(p, root)] = fp.read()
    return out


def permutations_of(n, limit=None):
    perms = itertools.permutations(range(n))
    return list(itertools.islice(perms, limit)) if limit else list(perms)


def set_partitions(seq):
    seq = list(seq)
    if not seq:
        yield []
        return
    first = seq[0]
    for rest in set_partitions(seq[1:]):
        yield [[first]] + rest
        for i in range(len(rest)):
            yield rest[:i] + [[first] + rest[i]] + rest[i + 1:]


class Quiet(object):
    """Swallow what the tools print (workers have no terminal anyway)."""

    def __enter__(self):
        import io
        import sys
        self._old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *exc):
        import sys
        self.out, self.err = sys.stdout.getvalue(), sys.stderr.getvalue()
        sys.stdout, sys.stderr = self._old
        return False
