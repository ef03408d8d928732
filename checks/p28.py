"""P28: contact angles of a droplet map."""

import math
import warnings

import numpy as np

from checks.common import Quiet, close, shuffles
from checks.droplet import (bits_grid, blots, flow_of, mask_grid, near,
                            neighbour_masks, orders, outline, qualifying,
                            to_bits)

PROPERTY = 'P28'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of every filled/empty pattern of small grids '
             'x measuring height x floor x search settings x bin order, against '
             'angles computed from the outline counted bin by bin')
NOTE = ('exhaustive for all grids of up to 12 (quick) or 16 (thorough) bins with '
        'every measuring height and floor that can be told apart; selected '
        'droplets and patterns on larger grids')
RULE = ('a case is one grid shape, geometry and block of patterns, measured with '
        'the heights, floors and settings of the case')
ASSUMPTIONS = ['a given floor is nearer to one layer than to all others']
CHUNK = 2

GEOMETRY = [((0., 0.), (1., 1.)), ((-3.5, 2.25), (0.5, 1.)),
            ((100.125, -7.), (1., 0.25))]


def cases(tier):
    quick = tier == 'quick'
    small = [(nx, ny) for nx in range(1, 6) for ny in range(1, 6)
             if nx * ny <= 9]
    big = [(3, 4), (4, 3), (2, 5), (2, 6), (5, 2)]
    if not quick:
        big += [(4, 4), (3, 5), (5, 3), (2, 7)]
    for nx, ny in small + big:
        n = 1 << (nx * ny)
        for g in range(len(GEOMETRY)):
            if nx * ny > 9 and (quick or nx * ny > 12) and g:
                continue
            for lo in range(0, n, 128):
                yield {'shape': [nx, ny], 'geom': g, 'lo': lo,
                       'hi': min(n, lo + 128), 'quick': quick}


    for shape in ((40, 1), (1, 40), (17, 13), (31, 30)) + (
            () if quick else ((90, 30), (24, 70))):
        for g in range(len(GEOMETRY)):
            yield {'kind': 'large', 'shape': list(shape), 'geom': g}


def want_angles(rows, grid, height, floor_layer):
    """rows: [(j, l, r)] from the floor layer up."""
    if not rows or (floor_layer is not None and rows[0][0] != floor_layer):
        return None, None
    j0, l0, r0 = rows[0]
    out = (None, None)
    for j, l, r in rows[1:]:
        dy = (j - j0) * grid.spacing[1]
        if dy > height:
            break
        dx = grid.spacing[0]
        out = (math.degrees(math.atan2(dy, (l - l0) * dx)),
               math.degrees(math.atan2(dy, (r0 - r) * dx)))
    return out


def run(ctx, case):
    warnings.simplefilter('ignore')
    if case.get('kind') == 'large':
        return run_large(ctx, case)
    nx, ny = case['shape']
    corner, spacing = GEOMETRY[case['geom']]
    dy = spacing[1]
    every = orders(nx, ny)
    small = min([spacing[0]] * (nx > 1) + [spacing[1]] * (ny > 1) + [9.])
    sets = [(small, neighbour_masks(nx, ny, spacing[0], spacing[1], small), 1),
            (None, neighbour_masks(nx, ny, spacing[0], spacing[1], small), None),
            (1.5 * small, neighbour_masks(nx, ny, spacing[0], spacing[1],
                                          1.5 * small), 0),
            (1.5 * small, neighbour_masks(nx, ny, spacing[0], spacing[1],
                                          1.5 * small), 2)]
    heights = [0.5 * dy] + [k * dy for k in range(1, ny)] + [1.5 * dy, 50.]
    ys = corner[1] + dy * (np.arange(ny) + 0.5)
    floors = [None] + [float(y) for y in ys] + [
        float(ys[0] - 7.), float(ys[-1] + 3.3 * dy), float(ys[0] + 0.4 * dy)]
    for bits in range(case['lo'], case['hi']):
        label = 'M' if bits % 2 else 'N'
        grid = bits_grid(bits, nx, ny, corner, spacing, 0., 1., label)
        homogeneous = bits in (0, (1 << nx * ny) - 1)
        for k, (radius, masks, need) in enumerate(sets):
            if nx * ny == 1 and radius is None:
                continue
            if nx * ny > 6 and k != bits % 4:
                continue
            qual = qualifying(bits, masks, 1 if need is None else need)
            for h, height in enumerate(heights):
                for f, floor in enumerate(floors):
                    if case['quick'] and nx * ny > 6 and (bits + h + f) % 3:
                        continue
                    kw = {}
                    if radius is not None:
                        kw['cutoff_radius'] = radius
                    if need is not None:
                        kw['cutoff_bins'] = need
                    if floor is not None:
                        kw['floor'] = floor
                    if homogeneous or (bits + f) % 2:
                        kw['cutoff'] = 0.5
                    fl = None if floor is None else \
                        int(np.argmin(np.abs(ys - floor)))
                    rows = outline(qual, nx, ny, range(fl or 0, ny))
                    want = want_angles(rows, grid, height, fl)
                    o = (bits + h + f) % 4
                    names = ('X', 'Y') if (bits + f) % 4 else ('x', 'height')
                    flow = flow_of(grid, every[o], 'none', names, bits + 2 * k)
                    if names != ('X', 'Y'):
                        kw['coord_labels'] = names
                    ctx.state(nx, ny, case['geom'], bits, k, height, floor)
                    measure(ctx, flow, height, label, kw, want,
                            'pattern %s of %dx%d geometry %d' % (
                                bin(bits), nx, ny, case['geom']))
    ctx.sample(shape=[nx, ny], pattern=bin(case['hi'] - 1), heights=heights)


def measure(ctx, flow, height, label, kw, want, what):
    from droplets.interface import get_contact_angle
    saved = flow.data.copy()
    ctx.step()
    what = '%s height %g %s' % (what, height, kw)
    with Quiet():
        got = get_contact_angle(flow, height, label, **kw)
    got = tuple(got)
    if want == (None, None):
        ok = ctx.check(got == want, '%s: angles %s, not None' % (what, got))
    else:
        ok = ctx.check(None not in got and close(got, want, 1e-6, 1e-6),
                       '%s: angles %s, not %s' % (what, got, want))
    ok &= ctx.check(np.array_equal(flow.data, saved), '%s: the map changed' % what)
    if ok:
        ctx.trace()


def run_large(ctx, case):
    nx, ny = case['shape']
    corner, spacing = GEOMETRY[case['geom']]
    dy = spacing[1]
    stored = list(shuffles(nx, ny))
    ys = corner[1] + dy * (np.arange(ny) + 0.5)
    for m, (name, mask) in enumerate(blots(nx, ny)):
        radius = (0.6, 1.2, 2.3)[m % 3] * max(spacing)
        need = (0, 1, 4, 2)[(m + case['geom']) % 4]
        on = to_bits(mask & (near(mask, spacing[0], dy, radius) >= need))
        grid = mask_grid(mask, corner, spacing)
        order, indices = stored[m % len(stored)]
        flow = flow_of(grid, indices, 'none', layout=m)
        for h, height in enumerate((0.5 * dy, 1.5 * dy, (ny // 2) * dy,
                                    (0.7 * ny) * dy, 2. * ny * dy)):
            for f, fl in enumerate((None, 0, 1 % ny, ny // 3, ny - 1)):
                kw = {'cutoff': 0.5, 'cutoff_radius': radius, 'cutoff_bins': need}
                if fl is not None:
                    kw['floor'] = float(ys[fl] + (0., 0.2, -0.3)[(m + h) % 3] * dy)
                rows = outline(on, nx, ny, range(fl or 0, ny))
                ctx.state('large', nx, ny, case['geom'], name, height, fl)
                measure(ctx, flow, height, 'M', kw,
                        want_angles(rows, grid, height, fl),
                        '%s on %dx%d geometry %d stored %s' % (
                            name, nx, ny, case['geom'], order))
    ctx.sample(shape=[nx, ny])
