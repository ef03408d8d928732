"""P12: the droplet interface, searched from outside in."""

import itertools
import warnings

import numpy as np

from checks.common import LARGE, Quiet, shuffles
from checks.droplet import (blots, mask_grid, near, to_bits, bits_grid, flow_of, lattice, neighbour_masks, orders,
                            outline, qualifying)

PROPERTY = 'P12'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of every filled/empty pattern of small grids '
             'x search radius x required neighbours x height limits x bin order, '
             'and of every assignment of three levels with all cut-offs, against '
             'direct counting of neighbours')
NOTE = ('exhaustive for all grids of up to 12 (quick) or 16 (thorough) bins; '
        'of larger grids some patterns')
RULE = ('a case is one grid shape, geometry and block of patterns; each pattern '
        'is searched with the settings of the case and compared with the oracle')
ASSUMPTIONS = ['no bin distance is within rounding of the search radius, except '
               'for exactly representable distances and the default radius']
CHUNK = 2

GEOMETRY = [((0., 0.), (1., 1.)), ((-3.5, 2.25), (0.5, 1.)),
            ((100.125, -7.), (1., 0.25)), ((0.3, -1.7), (0.1, 0.3))]


LEVELS = [(1., 0.), (2., -1.), (0.75, 0.25), (-1., -3.), (0., -0.5)]


def radii(g, spacing):
    dx, dy = spacing
    small = min(spacing)
    if g == 3:
        return [None, 1.2 * small, 1.7 * small, 3.5 * small]
    return [None, small, 0.5 * small, 1.5 * small, 2. * small,
            1.25 * max(spacing), 100.]


def blocks(nx, ny, size):
    n = 1 << (nx * ny)
    for lo in range(0, n, size):
        yield lo, min(n, lo + size)


def cases(tier):
    quick = tier == 'quick'
    for nx in range(1, 10):
        for ny in range(1, 10):
            if nx * ny > 9:
                continue
            for g in range(len(GEOMETRY)):
                for lo, hi in blocks(nx, ny, 128):
                    yield {'kind': 'bits', 'shape': [nx, ny], 'geom': g,
                           'lo': lo, 'hi': hi, 'full': not quick}
    big = [(4, 3), (3, 4), (5, 2), (2, 5), (6, 2), (2, 6)]
    if not quick:
        big += [(4, 4), (5, 3), (3, 5), (7, 2)]
    for nx, ny in big:
        for lo, hi in blocks(nx, ny, 256):
            yield {'kind': 'bits', 'shape': [nx, ny], 'geom': 0 if quick else
                   (lo // 256) % 4, 'lo': lo, 'hi': hi, 'full': False}
    for shape in LARGE:
        for g in range(len(GEOMETRY)):
            yield {'kind': 'large', 'shape': list(shape), 'geom': g}
    top = 6 if quick else 8
    for nx, ny in ((1, 1), (1, 2), (2, 1), (3, 1), (1, 3), (2, 2), (3, 2),
                   (2, 3), (4, 2), (2, 4)):
        if nx * ny <= top:
            n = 3 ** (nx * ny)
            for lo in range(0, n, 81):
                yield {'kind': 'levels', 'shape': [nx, ny], 'lo': lo,
                       'hi': min(n, lo + 81)}


def check_one(ctx, what, grid, flow, label, want, names=('X', 'Y'), **kw):
    from droplets.interface import get_interface
    saved = flow.data.copy()
    with Quiet():
        got = [tuple(v) for v in get_interface(flow, label, **kw)]
    ctx.step()
    cells = [(lattice(flow, a, grid, names), lattice(flow, b, grid, names))
             for a, b in got]
    ref = [((l, j), (r, j)) for j, l, r in want]
    ok = ctx.check(cells == ref, lambda: '%s %s: interface %s, not %s' % (
        what, kw, cells, ref))
    ok &= ctx.check(np.array_equal(flow.data, saved),
                    '%s %s: the map changed' % (what, kw))
    if ok:
        ctx.trace()


def height_limits(grid):
    ys = grid.y
    d = grid.spacing[1]
    return [(None, None), (ys[0] + d / 2, None), (None, ys[-1] - d / 2),
            (ys[len(ys) // 2] - d / 4, ys[len(ys) // 2] + d / 4),
            (ys[-1] + d, None), (ys[0], ys[-1]), (ys[-1], ys[-1]),
            (ys[len(ys) // 2], None), (None, ys[len(ys) // 2])]


def layers_in(grid, lims):
    lo, hi = lims
    return [j for j, y in enumerate(grid.y)
            if (lo is None or y >= lo) and (hi is None or y <= hi)]


def run(ctx, case):
    warnings.simplefilter('ignore')
    nx, ny = case['shape']
    if case['kind'] == 'levels':
        return run_levels(ctx, case)
    if case['kind'] == 'large':
        return run_large(ctx, case)
    g = case['geom']
    corner, spacing = GEOMETRY[g]
    every = orders(nx, ny)
    sets = []
    for radius in radii(g, spacing):
        r = radius if radius is not None else smallest(nx, ny, spacing)
        masks = neighbour_masks(nx, ny, spacing[0], spacing[1], r) \
            if r is not None else None
        sets.append((radius, masks))
    for bits in range(case['lo'], case['hi']):
        label = 'M' if bits % 2 else 'N'
        high, low = LEVELS[bits // 2 % len(LEVELS)]
        grid = bits_grid(bits, nx, ny, corner, spacing, low, high, label)
        homogeneous = bits in (0, (1 << nx * ny) - 1)
        for k, (radius, masks) in enumerate(sets):
            if masks is None:
                continue
            if nx * ny > 9 and k != bits % len(sets):
                continue
            for need in (None, 0, 1, 2, 3, 5):
                if not case['full'] and need is not None and \
                        need != (0, 1, 2, 3, 5)[(bits // 3 + k) % 5]:
                    continue
                o = (bits + k + (need or 0)) % len(every)
                names = ('X', 'Y') if (bits + k) % 4 else ('x', 'height')
                flow = flow_of(grid, every[o], 'none', names, bits + 2 * k)
                qual = qualifying(bits, masks, 1 if need is None else need)
                kw = {}
                if radius is not None:
                    kw['cutoff_radius'] = radius
                if need is not None:
                    kw['cutoff_bins'] = need
                if names != ('X', 'Y'):
                    kw['coord_labels'] = names
                if (bits // 2) % 2:
                    kw['cutoff'] = 0.5 * (low + high)
                lims = height_limits(grid)[(bits // 5 + k) % 9]
                if lims != (None, None):
                    kw['ylims'] = lims
                want = [] if homogeneous and 'cutoff' not in kw else \
                    outline(qual, nx, ny, layers_in(grid, lims))
                if homogeneous and bits == 0 and 'cutoff' in kw:
                    want = []
                ctx.state(nx, ny, g, bits, k, need)
                check_one(ctx, 'pattern %s of %dx%d geometry %d %s order %d'
                          % (bin(bits), nx, ny, g, label, o), grid, flow, label,
                          want, names, **kw)
    ctx.sample(shape=[nx, ny], pattern=bin(case['hi'] - 1))


def run_large(ctx, case):
    nx, ny = case['shape']
    g = case['geom']
    corner, spacing = GEOMETRY[g]
    small = smallest(nx, ny, spacing)
    stored = list(shuffles(nx, ny))
    for m, (name, mask) in enumerate(blots(nx, ny)):
        if mask.all() or not mask.any():
            continue
        for k, radius in enumerate((None, 1.2 * small, 2.6 * small)):
            if nx * ny > 1000 and k != m % 3:
                continue
            near_by = near(mask, spacing[0], spacing[1], radius or small)
            for need in (0, 1, 3, 6):
                if nx * ny > 1000 and need != (0, 1, 3, 6)[(m + g) % 4]:
                    continue
                high, low = LEVELS[(m + k + need) % len(LEVELS)]
                grid = mask_grid(mask, corner, spacing, low, high)
                lims = height_limits(grid)[(m + need) % 9]
                want = outline(to_bits(mask & (near_by >= need)), nx, ny,
                               layers_in(grid, lims))
                order, indices = stored[(m + k + need) % len(stored)]
                flow = flow_of(grid, indices, 'none', layout=m + k)
                kw = {'cutoff_bins': need, 'ylims': lims}
                if radius is not None:
                    kw['cutoff_radius'] = radius
                if (m + need) % 2:
                    kw['cutoff'] = 0.5 * (low + high)
                ctx.state('large', nx, ny, g, name, radius, need)
                check_one(ctx, '%s on %dx%d geometry %d stored %s' % (
                    name, nx, ny, g, order), grid, flow, 'M', want, **kw)
    ctx.sample(shape=[nx, ny])


def smallest(nx, ny, spacing):
    ds = ([spacing[0]] if nx > 1 else []) + ([spacing[1]] if ny > 1 else [])
    return min(ds) if ds else None


def run_levels(ctx, case):
    """Three levels: a cut-off equal to a level includes that level."""
    nx, ny = case['shape']
    n = nx * ny
    every = orders(nx, ny)
    if n <= 3:
        every = [np.array(p) for p in itertools.permutations(range(n))]
    masks = neighbour_masks(nx, ny, 1., 1., 1.)
    for code in range(case['lo'], case['hi']):
        levels = [code // 3 ** k % 3 for k in range(n)]
        grid = bits_grid(0, nx, ny)
        grid.values['M'] = np.array(levels, dtype=float).reshape(nx, ny)
        # levels of any sign
        move = (0., -2., -5.)[code % 3]
        levels = [v + move for v in levels]
        grid.values['M'] += move
        for cutoff in (None, 0., 0.5, 1., 1.5, 2., 2.5):
            if cutoff is not None:
                cutoff += move
            if cutoff is None and min(levels) == max(levels):
                want, limit = [], None
            else:
                limit = cutoff if cutoff is not None else \
                    0.5 * (min(levels) + max(levels))
                bits = sum(1 << k for k, v in enumerate(levels) if v >= limit)
            for need in (0, 1, 2):
                if limit is not None:
                    want = outline(qualifying(bits, masks, need), nx, ny)
                for o, order in enumerate(every):
                    if n > 3 and o != (code + need) % 4:
                        continue
                    ctx.state(nx, ny, code, cutoff, need, o)
                    kw = {'cutoff_bins': need, 'cutoff_radius': 1.}
                    if cutoff is not None:
                        kw['cutoff'] = cutoff
                    flow = flow_of(grid, order, 'none', layout=code + o)
                    check_one(ctx, 'levels %s of %dx%d order %d' % (
                        levels, nx, ny, o), grid, flow, 'M', want, **kw)
