"""Which bins belong to a droplet, and its outline, counted bin by bin."""

import numpy as np

from checks.common import ALL, Grid, fillings


def neighbour_masks(nx, ny, dx, dy, radius, periodic=False):
    """For bin k = i*ny + j the bit mask of other bins within the radius."""
    out = []
    box = nx * dx
    for i in range(nx):
        for j in range(ny):
            mask = 0
            for a in range(nx):
                for b in range(ny):
                    if (a, b) == (i, j):
                        continue
                    gap = abs(a - i) * dx
                    if periodic:
                        gap = min(gap, box - gap)
                    if gap ** 2 + ((b - j) * dy) ** 2 <= radius ** 2 * (1 + 1e-9):
                        mask |= 1 << (a * ny + b)
            out.append(mask)
    return out


def qualifying(bits, masks, need):
    """Bits of the filled bins with enough other filled bins around."""
    out = 0
    for k, mask in enumerate(masks):
        if bits >> k & 1 and bin(bits & mask).count('1') >= need:
            out |= 1 << k
    return out


def outline(qual, nx, ny, layers=None):
    """[(j, left i, right i)] from bottom to top."""
    out = []
    for j in range(ny) if layers is None else layers:
        row = [i for i in range(nx) if qual >> (i * ny + j) & 1]
        if row:
            out.append((j, row[0], row[-1]))
    return out


def ring_outline(qual, nx, ny, layers=None):
    """[(j, left i, right i)] of the longest periodic run of every layer."""
    out = []
    for j in range(ny) if layers is None else layers:
        row = [qual >> (i * ny + j) & 1 for i in range(nx)]
        if not any(row):
            continue
        if all(row):
            out.append((j, 0, nx - 1))
            continue
        best = None
        for i in range(nx):
            if row[i] and not row[i - 1]:
                n = 1
                while row[(i + n) % nx]:
                    n += 1
                if best is None or n > best[1]:
                    best = (i, n)
        out.append((j, best[0], (best[0] + best[1] - 1) % nx))
    return out


def bits_grid(bits, nx, ny, corner=(0., 0.), spacing=(1., 1.), low=0., high=1.,
              label='M'):
    """Grid whose `label` is high in the bins of the pattern and low elsewhere;
    the other fields tell every bin apart."""
    on = np.array([bits >> k & 1 for k in range(nx * ny)]).reshape(nx, ny)
    k = np.arange(nx * ny).reshape(nx, ny)
    vals = {'N': 1. + k, 'T': 300., 'U': 0.25 * k, 'V': -1., 'M': 3.}
    vals[label] = np.where(on, high, low)
    return Grid(nx, ny, corner, spacing, vals)


def orders(nx, ny):
    n = nx * ny
    idx = np.arange(n)
    return [idx, idx.reshape(nx, ny).T.ravel(), idx[::-1],
            np.concatenate([idx[1::2], idx[::2]])]


# the order of the fields in a record
LAYOUTS = [ALL, ALL[::-1], ['M', 'N', 'T', 'X', 'U', 'V', 'Y'],
           ['Y', 'X', 'V', 'U', 'M', 'T', 'N'], ['N', 'Y', 'M', 'X', 'T', 'U', 'V']]


def flow_of(grid, order, info='full', names=('X', 'Y'), layout=0):
    from droplets.flow import FlowData
    data = grid.data()
    rename = dict(zip(('X', 'Y'), names))
    meta = {}
    if info == 'full':
        meta = grid.info()
        meta['origin'] = (grid.x[0], grid.y[0])
    return FlowData(*[(rename.get(l, l), data[l][order])
                      for l in LAYOUTS[layout % len(LAYOUTS)]],
                    info=meta)


def lattice(flow, index, grid, names=('X', 'Y')):
    """Column and layer of a record index of the flow object."""
    x, y = flow.data[names[0]][index], flow.data[names[1]][index]
    return (int(round((x - grid.x[0]) / grid.spacing[0])),
            int(round((y - grid.y[0]) / grid.spacing[1])))


def blots(nx, ny):
    """(name, mask) of large maps with droplets, holes in them and specks around."""
    yield from fillings(nx, ny)
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    k = (i * ny + j) * 7919 % 8191
    for at in (0., 0.25, 0.5, 0.9):
        gap = abs(i - at * nx)
        gap = np.minimum(gap, nx - gap)
        cap = gap ** 2 + (0.5 * j) ** 2 <= (0.3 * nx) ** 2
        yield 'cap at %g' % at, cap
        yield 'cap with holes at %g' % at, cap & (k % 7 > 0)
        yield 'cap and specks at %g' % at, cap & (k % 11 > 0) | (k % 5 == 0)
        yield 'ring at %g' % at, cap & (gap > 0.15 * nx)


def near(mask, dx, dy, radius, periodic=False):
    """Number of other set bins within the radius of every bin."""
    nx, ny = mask.shape
    out = np.zeros(mask.shape, int)
    limit = radius ** 2 * (1 + 1e-9)
    for a in range(-nx + 1, nx):
        for b in range(-ny + 1, ny):
            if (a, b) == (0, 0) or (a * dx) ** 2 + (b * dy) ** 2 > limit:
                continue
            moved = np.zeros(mask.shape, int)
            if periodic:
                source = np.roll(mask, a, axis=0)
            else:
                source = np.zeros_like(mask)
                source[max(a, 0):nx + min(a, 0)] = mask[max(-a, 0):nx + min(-a, 0)]
            moved[:, max(b, 0):ny + min(b, 0)] = source[:, max(-b, 0):ny + min(-b, 0)]
            out += moved
    return out


def to_bits(mask):
    return sum(1 << k for k, v in enumerate(mask.ravel().tolist()) if v)


def mask_grid(mask, corner=(0., 0.), spacing=(1., 1.), low=0., high=1., label='M'):
    """Like bits_grid, from a mask."""
    grid = bits_grid(0, mask.shape[0], mask.shape[1], corner, spacing, low, high,
                     label)
    grid.values[label] = np.where(mask, float(high), float(low))
    return grid
