"""P17: cells extracted at the two contact lines of a droplet map."""

import itertools
import warnings

import numpy as np

from checks.common import ALL, FIELDS, Quiet, shuffles
from checks.droplet import (bits_grid, blots, flow_of, mask_grid, near,
                            neighbour_masks, orders, outline, qualifying,
                            to_bits)

PROPERTY = 'P17'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of every filled/empty pattern of small grids '
             'x extraction areas x synchronisation heights x search settings x '
             'bin order, the real extraction compared with a bin-by-bin '
             'definition of the region, and with the mirrored map')
NOTE = ('exhaustive for all grids of up to 12 (quick) or 16 (thorough) bins; '
        'of grids of up to 90x30 bins droplets, holes in them, specks and regular '
        'patterns')
RULE = ('a case is one grid shape and block of patterns; every pattern is '
        'extracted with every combination of area and height')
ASSUMPTIONS = ['no interface distance is within rounding of the size of the '
               'area, except for exactly representable sizes']
CHUNK = 2

GEOMETRY = [((0., 0.), (1., 1.)), ((-3.5, 2.25), (0.5, 1.)),
            ((100.125, -7.), (1., 0.25)), ((0.3, -1.7), (0.1, 0.3))]


def cases(tier):
    quick = tier == 'quick'
    small = [(nx, ny) for nx in range(1, 9) for ny in range(1, 9)
             if nx * ny <= (6 if quick else 10)]
    for nx, ny in small:
        n = 1 << (nx * ny)
        for g in range(4):
            for lo in range(0, n, 32):
                yield {'shape': [nx, ny], 'geom': g, 'lo': lo,
                       'hi': min(n, lo + 32), 'all': True}
    big = [(4, 2), (2, 4), (3, 3), (4, 3), (3, 4), (5, 2), (2, 5), (6, 2)]
    if not quick:
        big += [(4, 4), (5, 3), (3, 5), (7, 2)]
    for nx, ny in big:
        n = 1 << (nx * ny)
        for lo in range(0, n, 64):
            yield {'shape': [nx, ny], 'geom': (lo // 64) % 4, 'lo': lo,
                   'hi': min(n, lo + 64), 'all': False}
    yield {'kind': 'adjust'}
    for shape in ((40, 1), (1, 40), (17, 13), (31, 30)) + \
            (() if quick else ((90, 30), (24, 70))):
        for g in range(len(GEOMETRY)):
            yield {'kind': 'large', 'shape': list(shape), 'geom': g,
                   'quick': quick}


def region(lines, side, width, height, sync):
    """Cells (i, j) in units of bins; `lines` is the interface outline."""
    if not lines:
        return set()
    base = lines[0][0]
    used = [l for l in lines if l[0] - base <= height]
    edge = 1 if side == 'left' else 2
    held = [l for l in used if l[0] - base <= sync][-1]
    inner = held[edge] + (width if side == 'left' else -width)
    xs = [l[edge] for l in used] + [inner]
    return {(i, j) for j in range(base, used[-1][0] + 1)
            for i in range(200) if min(xs) <= i <= max(xs)}


def rows_of(cells):
    return sorted(tuple(float(r[l]) for l in ALL) for r in cells)


def run(ctx, case):
    warnings.simplefilter('ignore')
    if case.get('kind') == 'adjust':
        return run_adjust(ctx)
    if case.get('kind') == 'large':
        return run_large(ctx, case)
    from droplets.contact_line import adjust_cell_coordinates, \
        get_contact_line_cells
    nx, ny = case['shape']
    corner, spacing = GEOMETRY[case['geom']]
    dx, dy = spacing
    every = orders(nx, ny)
    exact = case['geom'] < 3
    # sizes in bins; the inexact geometry stays away from whole bins
    frac = 0. if exact else 0.25
    widths = [0.25, 1. + frac, 2.5]
    heights = [0.25, 1. + frac, 2.25, 9.5]
    syncs = [0.25, 1. + frac, 2.25]
    combos = list(itertools.product(widths, heights, syncs))
    if exact:
        combos += [(0., 0., 0.), (2., 0., 1.), (float(nx), float(ny), 0.),
                   (1., 2., 2.)]
    searches = [(1.1 * min(spacing), 1), (0.5 * min(spacing), 0),
                (1.6 * max(spacing), 2)]
    masks = [neighbour_masks(nx, ny, dx, dy, r) for r, _ in searches]
    for bits in range(case['lo'], case['hi']):
        if case['all']:
            todo = list(enumerate(combos))
        else:
            todo = [((bits + k) % len(combos), combos[(bits + k) % len(combos)])
                    for k in range(0, len(combos), 6)]
        grid = bits_grid(bits, nx, ny, corner, spacing,
                         *((0., 1.), (-1., 2.))[bits % 2])
        flows = {}
        for k, (w, h, s) in todo:
            which = (k + bits) % 3
            radius, need = searches[which]
            order = (k // 3 + bits) % len(every)
            if order not in flows:
                flows[order] = flow_of(grid, every[order],
                                       'full' if order % 2 else None,
                                       layout=bits + order)
            flow = flows[order]
            qual = qualifying(bits, masks[which], need)
            mode = (k + bits // 3) % 4
            kw = {'cutoff': 0.5, 'cutoff_radius': radius, 'cutoff_bins': need}
            layers = list(range(ny))
            if mode == 1 and ny > 1:
                kw['ylims'] = (grid.y[1] - 0.5 * dy, None)
                layers = layers[1:]
            elif mode == 2 and 0 < bits < (1 << (nx * ny)) - 1:
                # the default cut-off lies midway between the two levels
                kw.pop('cutoff')
            lines = outline(qual, nx, ny, layers)
            before = flow.data.copy()
            args = dict(kw)
            if (w, h) != (0., 0.) or bits % 2:
                args['extract_area'] = (w * dx, h * dy)
            if s or bits % 2:
                args['extract_height'] = s * dy
            with Quiet():
                got = get_contact_line_cells(flow, 'M', **args)
            ctx.step()
            what = lambda: 'pattern %s of %s, geometry %d, area %s x %s bins at ' \
                'height %s, %s' % (bin(bits), case['shape'], case['geom'], w, h,
                                   s, kw)
            ok = ctx.check(len(got) == 2, lambda: '%s: %d sides' % (
                what(), len(got)))
            if not ok:
                continue
            ok &= ctx.check(np.array_equal(before, flow.data),
                            lambda: '%s: the map changed' % what())
            data = grid.data()
            for side, cells in zip(('left', 'right'), got):
                want = region(lines, side, w, h, s)
                ref = sorted(tuple(float(data[l][i * ny + j]) for l in ALL)
                             for i, j in want if i < nx)
                ok &= ctx.check(rows_of(cells) == ref, lambda:
                                '%s: %s cells %s, not %s' % (
                                    what(), side, [(r[0], r[1]) for r in
                                                   rows_of(cells)],
                                    [r[:2] for r in ref]))
            if not ok:
                continue
            ctx.trace()
            ctx.state(nx, ny, case['geom'], bits, k, which, mode)
            # moved to the origin and back
            for side, cells in zip(('left', 'right'), got):
                check_adjusted(ctx, what, cells, side)
            # what is done to the cells never shows in the map
            for cells in got:
                cells['M'] += 7.
                cells['X'] -= 1.
            ctx.check(np.array_equal(before, flow.data), lambda:
                      '%s: the cells share memory with the map' % what())
            if k % 5 == 0:
                check_mirror(ctx, what, grid, args, (got, lines, w, h, s), bits)
    ctx.sample(shape=case['shape'], geometry=GEOMETRY[case['geom']],
               pattern=bits, area=[w, h], sync=s)


def run_large(ctx, case):
    from droplets.contact_line import get_contact_line_cells
    nx, ny = case['shape']
    g = case['geom']
    corner, spacing = GEOMETRY[g]
    dx, dy = spacing
    frac = 0. if g < 3 else 0.25
    stored = list(shuffles(nx, ny))
    areas = list(itertools.product((0.25, 3. + frac, 0.4 * nx + 0.1, nx + 0.5),
                                   (0.25, 2. + frac, 0.6 * ny + 0.15, ny + 0.5),
                                   (0.25, 1. + frac, 0.3 * ny + 0.15)))
    for m, (name, mask) in enumerate(blots(nx, ny)):
        for r, radius in enumerate((0.6 * min(spacing), 1.2 * min(spacing),
                                    1.6 * max(spacing))):
            if case['quick'] and (m + r) % 3:
                continue
            by = near(mask, dx, dy, radius)
            need = (0, 1, 3, 6)[(m + r + g) % 4]
            on = mask & (by >= need)
            lines = outline(to_bits(on), nx, ny)
            low, high = ((0., 1.), (-1., 2.))[m % 2]
            grid = mask_grid(mask, corner, spacing, low, high)
            data = grid.data()
            order, indices = stored[(m + r) % len(stored)]
            flow = flow_of(grid, indices, layout=m + r)
            for a in range((m + r + g) % 7, len(areas), 7):
                w, h, s = areas[a]
                kw = {'cutoff': 0.5 * (low + high), 'cutoff_radius': radius,
                      'cutoff_bins': need, 'extract_area': (w * dx, h * dy),
                      'extract_height': s * dy}
                with Quiet():
                    got = get_contact_line_cells(flow, 'M', **kw)
                ctx.step()
                ctx.state('large', nx, ny, g, name, radius, a)
                for side, cells in zip(('left', 'right'), got):
                    want = region(lines, side, w, h, s)
                    ref = sorted(tuple(float(data[l][i * ny + j]) for l in ALL)
                                 for i, j in want if i < nx)
                    found = rows_of(cells)
                    ctx.check(found == ref, lambda:
                              '%s on %dx%d geometry %d stored %s, area %s x %s '
                              'bins at height %s, %s: %d %s cells, not %d, first '
                              'extra %s, first missing %s' % (
                                  name, nx, ny, g, order, w, h, s, kw,
                                  len(found), side, len(ref),
                                  (sorted(set(found) - set(ref)) + [None])[0],
                                  (sorted(set(ref) - set(found)) + [None])[0]))
                ctx.trace()
    ctx.sample(shape=[nx, ny])


def check_adjusted(ctx, what, cells, side, names=('X', 'Y')):
    from droplets.contact_line import adjust_cell_coordinates
    saved = cells.copy()
    kw = {} if names == ('X', 'Y') else {'coord_labels': names}
    adj, moved = adjust_cell_coordinates(cells, side, **kw)
    ctx.step()
    xl, yl = names
    if cells.size == 0:
        ok = tuple(adj) == (0, 0) and moved.size == 0
    else:
        x0 = cells[xl].max() if side == 'left' else cells[xl].min()
        y0 = cells[yl].min()
        ok = (abs(adj[0] - x0) < 1e-6 and abs(adj[1] - y0) < 1e-6
              and np.allclose(moved[xl] + adj[0], saved[xl], atol=1e-5)
              and np.allclose(moved[yl] + adj[1], saved[yl], atol=1e-5)
              and all(np.array_equal(moved[l], saved[l])
                      for l in saved.dtype.names if l not in names))
    ctx.check(ok and np.array_equal(cells, saved), lambda:
              '%s: %s cells adjusted by %s to %s' % (
                  what(), side, adj, moved.tolist()))


def check_mirror(ctx, what, grid, args, found, bits):
    """Mirroring the map swaps the sides."""
    from droplets.contact_line import get_contact_line_cells
    other = grid.copy()
    for l in FIELDS:
        other.values[l] = grid.values[l][::-1].copy()
    nx, ny = grid.nx, grid.ny
    with Quiet():
        left, right = get_contact_line_cells(
            flow_of(other, orders(nx, ny)[bits % 4]), 'M', **args)
        a, b = get_contact_line_cells(
            flow_of(grid, orders(nx, ny)[0]), 'M', **args)
    ctx.step()
    key = lambda cells: sorted(tuple(float(r[l]) for l in FIELDS + ['Y'])
                               for r in cells)
    ctx.check(key(left) == key(b) and key(right) == key(a), lambda:
              '%s: the mirrored map has left %s right %s, the map left %s '
              'right %s' % (what(), key(left), key(right), key(a), key(b)))


def run_adjust(ctx):
    """Any set of cells on a small lattice, also with other labels."""
    cells = [(i, j) for i in range(3) for j in range(2)]
    for g, (corner, spacing) in enumerate(GEOMETRY):
        for names in (('X', 'Y'), ('a', 'b')):
            for size in range(len(cells) + 1):
                for sub in itertools.combinations(cells, size):
                    for rev in (False, True):
                        rows = [(corner[0] + spacing[0] * i,
                                 corner[1] + spacing[1] * j, 3. * i + j)
                                for i, j in (sub[::-1] if rev else sub)]
                        arr = np.array(rows, dtype=[
                            (names[0], 'f8'), (names[1], 'f8'), ('M', 'f4')])
                        for side in ('left', 'right'):
                            ctx.state('adjust', g, names, sub, rev, side)
                            check_adjusted(ctx, lambda: 'cells %s' % (rows,),
                                           arr, side, names)
                            ctx.trace()
