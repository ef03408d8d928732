"""P13: the periodic interface search."""

import itertools
import warnings

import numpy as np

from checks.common import Quiet, shuffles
from checks.droplet import (bits_grid, blots, flow_of, lattice, mask_grid, near,
                            neighbour_masks, orders, to_bits,
                            qualifying, ring_outline)

PROPERTY = 'P13'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of every filled/empty pattern of one to three '
             'periodic layers x all periodic shifts x box positions x search '
             'radius x required neighbours x bin order, against runs counted on '
             'the ring')
NOTE = ('exhaustive for rings of up to 8 (quick) or 12 (thorough) bins, two '
        'layers of up to 5 (6) and three of up to 4 (5)')
RULE = ('a case is one shape, geometry and block of patterns; every pattern is '
        'searched with all settings of the case')
ASSUMPTIONS = ['the search radius is less than half the box',
               'shape and spacing of the map are set']
CHUNK = 2

GEOMETRY = [((0., 0.), (1., 1.)), ((-3.5, 2.25), (0.5, 1.)),
            ((100.125, -7.), (1., 0.25)), ((-40.3, -1.7), (0.1, 0.3))]


LEVELS = [(1., 0.), (2., -1.), (0.75, 0.25), (-1., -3.), (0., -0.5)]


def cases(tier):
    quick = tier == 'quick'
    shapes = [(n, 1) for n in range(1, 9 if quick else 13)]
    shapes += [(n, 2) for n in range(1, 6 if quick else 7)]
    shapes += [(n, 3) for n in range(2, 5 if quick else 6)]
    for shape in ((40, 1), (17, 13), (31, 30), (90, 11)):
        for g in range(len(GEOMETRY)):
            yield {'kind': 'large', 'shape': list(shape), 'geom': g}
    for nx, ny in shapes:
        n = 1 << (nx * ny)
        for g in range(len(GEOMETRY)):
            if nx * ny > 12 and g not in (0, 3):
                continue
            for lo in range(0, n, 64):
                yield {'shape': [nx, ny], 'geom': g, 'lo': lo,
                       'hi': min(n, lo + 64), 'quick': quick}


def radii(g, spacing, nx):
    small = min(spacing)
    out = [small * (1.25 if g == 3 else 1.), 0.4 * small, 1.5 * small,
           2.2 * spacing[0], 1.2 * spacing[1]]
    return [r for r in out if r < 0.5 * nx * spacing[0] - 1e-9]


def shifted(bits, nx, ny, by):
    out = 0
    for i in range(nx):
        for j in range(ny):
            if bits >> (i * ny + j) & 1:
                out |= 1 << ((i + by) % nx * ny + j)
    return out


def run(ctx, case):
    warnings.simplefilter('ignore')
    nx, ny = case['shape']
    g = case['geom']
    if case.get('kind') == 'large':
        return run_large(ctx, case)
    corner, spacing = GEOMETRY[g]
    every = orders(nx, ny)
    sets = [(r, neighbour_masks(nx, ny, spacing[0], spacing[1], r, True))
            for r in radii(g, spacing, nx)]
    default = [spacing[0]] * (nx > 1) + [spacing[1]] * (ny > 1)
    if default and min(default) * (1 + 1e-5) < 0.5 * nx * spacing[0]:
        sets.append((None, neighbour_masks(nx, ny, spacing[0], spacing[1],
                                           min(default), True)))
    for bits in range(case['lo'], case['hi']):
        label = 'M' if bits % 2 else 'N'
        high, low = LEVELS[bits // 2 % len(LEVELS)]
        grid = bits_grid(bits, nx, ny, corner, spacing, low, high, label)
        homogeneous = bits in (0, (1 << nx * ny) - 1)
        for k, (radius, masks) in enumerate(sets):
            if case['quick'] and nx * ny > 7 and (bits + k) % 3:
                continue
            for need in (0, 1, 2, 3):
                if nx * ny > 6 and need not in (1, (0, 2, 3)[bits % 3]):
                    continue
                kw = {'search_longest_connected': True}
                if radius is not None:
                    kw['cutoff_radius'] = radius
                if need != 1 or bits % 2:
                    kw['cutoff_bins'] = need
                if homogeneous or bits % 4 < 2:
                    kw['cutoff'] = 0.5 * (low + high)
                lims = (None, None)
                if ny > 1 and (bits + need) % 3 == 0:
                    lims = [(grid.y[0] + spacing[1] / 2, None),
                            (None, grid.y[-1] - spacing[1] / 2),
                            (grid.y[1], grid.y[-1]), (grid.y[0], grid.y[0])][
                                (bits + bits // 8) % 4]
                    kw['ylims'] = lims
                layers = [j for j, y in enumerate(grid.y)
                          if (lims[0] is None or y >= lims[0])
                          and (lims[1] is None or y <= lims[1])]
                want = ring_outline(qualifying(bits, masks, need), nx, ny, layers)
                o = (bits + k + need) % len(every)
                names = ('X', 'Y') if (bits + k) % 5 else ('x', 'height')
                ctx.state(nx, ny, g, bits, k, need)
                what = 'pattern %s of %dx%d geometry %d order %d' % (
                    bin(bits), nx, ny, g, o)
                if names != ('X', 'Y'):
                    kw['coord_labels'] = names
                search(ctx, what, grid, flow_of(grid, every[o], names=names,
                                                   layout=bits + 2 * k),
                       label, want, names, **kw)
                if need != 1 or g not in (0, 3):
                    continue
                # shift the droplet around the box
                for by in range(1, nx):
                    moved = shifted(bits, nx, ny, by)
                    if moved == bits:
                        break
                    full = [j for j in layers if all(
                        bits >> (i * ny + j) & 1 for i in range(nx))]
                    # runs move with the map, unless equally long
                    want2 = ring_outline(qualifying(moved, masks, need), nx, ny,
                                         layers)
                    for (j, l, r), (j2, l2, r2) in zip(want, want2):
                        if j not in full and unique(bits, masks, need, nx, ny, j):
                            ctx.check((j2, l2, r2) == (j, (l + by) % nx,
                                                       (r + by) % nx)
                                      or l2 == 0 and r2 == nx - 1,
                                      'the oracle is not shift invariant')
                    grid2 = bits_grid(moved, nx, ny, corner, spacing, low, high,
                                      label)
                    kw2 = dict(kw, cutoff=0.5 * (low + high))
                    search(ctx, what + ' shifted by %d' % by, grid2,
                           flow_of(grid2, every[(o + by) % 4], names=names,
                                   layout=bits + by),
                           label, want2, names, **kw2)
    ctx.sample(shape=[nx, ny], pattern=bin(case['hi'] - 1))


def run_large(ctx, case):
    nx, ny = case['shape']
    g = case['geom']
    corner, spacing = GEOMETRY[g]
    small = min(spacing[:1] + (spacing[1:] if ny > 1 else ()))
    stored = list(shuffles(nx, ny))
    for m, (name, mask) in enumerate(blots(nx, ny)):
        for k, radius in enumerate((None, 1.2 * small, 2.6 * small)):
            if k != m % 3 and nx * ny > 500:
                continue
            near_by = near(mask, spacing[0], spacing[1], radius or small, True)
            for need in (0, 1, 3, 6):
                if nx * ny > 500 and need != (0, 1, 3, 6)[(m + g) % 4]:
                    continue
                high, low = LEVELS[(m + k + need) % len(LEVELS)]
                grid = mask_grid(mask, corner, spacing, low, high)
                kw = {'search_longest_connected': True, 'cutoff_bins': need,
                      'cutoff': 0.5 * (low + high)}
                if radius is not None:
                    kw['cutoff_radius'] = radius
                want = ring_outline(to_bits(mask & (near_by >= need)), nx, ny)
                order, indices = stored[(m + k + need) % len(stored)]
                ctx.state('large', nx, ny, g, name, radius, need)
                search(ctx, '%s on %dx%d geometry %d stored %s' % (
                    name, nx, ny, g, order), grid,
                    flow_of(grid, indices, layout=m + k), 'M', want,
                    ('X', 'Y'), **kw)
    ctx.sample(shape=[nx, ny])


def unique(bits, masks, need, nx, ny, j):
    row = [qualifying(bits, masks, need) >> (i * ny + j) & 1 for i in range(nx)]
    runs = []
    for i in range(nx):
        if row[i] and not row[i - 1]:
            n = 1
            while n < nx and row[(i + n) % nx]:
                n += 1
            runs.append(n)
    return len(runs) < 2 or sorted(runs)[-1] > sorted(runs)[-2]


def search(ctx, what, grid, flow, label, want, names, **kw):
    from droplets.interface import get_interface
    saved = flow.data.copy()
    with Quiet():
        got = [tuple(v) for v in get_interface(flow, label, **kw)]
    ctx.step()
    cells = [(lattice(flow, a, grid, names), lattice(flow, b, grid, names))
             for a, b in got]
    ref = [((l, j), (r, j)) for j, l, r in want]
    ok = ctx.check(cells == ref, lambda: '%s %s: interface %s, not %s' % (
        what, kw, cells, ref))
    ok &= ctx.check(np.array_equal(flow.data, saved),
                    '%s: the map changed' % what)
    if ok:
        ctx.trace()
