"""P07: every combination of averaging options."""

import itertools
import os
import warnings

import numpy as np

from checks.common import (FIELDS, Grid, Quiet, close, gmx_bytes, parse_gmx,
                           plain_bytes, simple_bytes, snapshot)
from checks.droplet import neighbour_masks, outline, qualifying
from checks.p08 import blocks_of
from checks.p09 import refine

PROPERTY = 'P07'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all combinations of averaging options '
             '(limits along x and y, recentring, bundles, combining, '
             'supersampling, edge search options) over series of maps, the '
             'files written by the real pipeline compared bin by bin with a '
             'pipeline of definitions on bin indices')
NOTE = ('exhaustive over the product of the option alphabets for series of two '
        'and three frames of maps of up to 6 x 3 bins and their formats; selected '
        'combinations for series of 11 maps of up to 540 bins')
RULE = ('a case is one series of maps with one recentring and limits along x; '
        'all other options are enumerated within it')
ASSUMPTIONS = ['limits leave a bin, and two columns to recentre', 'recentring '
               'values are not halfway between two columns', 'every frame has '
               'the edge or mass to recentre on', 'a combined block fits in '
               'the map', 'maps have two columns and layers at least']
CHUNK = 1

WEIGHTS = (('U', 'M'), ('V', 'M'), ('T', 'N'))
# limits from below are at zero on the first, from above on the second
GEOMETRY = (((-1.5, -1.5), (1., 1.)), (None, (0.5, 0.25)), ((7., 2.), (0.5, 0.25)))
# columns of the droplet of each layer, by frame; None: nothing in the layer
SERIES = (
    ((6, 3), [((1, 4), (2, 3), None), ((2, 5), (2, 4), (3, 3)),
              ((0, 2), (1, 1), None)]),
    ((6, 2), [((2, 3), (1, 4)), ((2, 3), (2, 3)), ((1, 4), (1, 2))]),
    ((5, 3), [((3, 4), (3, 4), (4, 4)), ((1, 2), (0, 2), (0, 1)),
              ((0, 4), (1, 3), (2, 2))]),
    ((4, 4), [(None, (1, 2), (1, 2), (1, 1)), ((1, 2), (0, 3), (1, 2), None),
              ((2, 3), (2, 3), None, (3, 3))]),
)
COMBINE = (None, (1, 1), (2, 1), (1, 2), (2, 2), (3, 1))
SUPER = (None, 1, 2, 3)
RECENTER = (None, 'com', 'left', 'right')
EDGE = ({}, {'cutoff': 0.5}, {'cutoff': 2., 'cutoff_bins': 0},
        {'cutoff_radius': 0.6, 'cutoff_bins': 2}, {'floor': 0},
        {'floor': 1, 'cutoff': 0.75}, {'cutoff_bins': 2}, {'cutoff_bins': 3},
        {'cutoff_bins': 2, 'floor': 0}, {'cutoff_bins': 4}, {'cutoff_bins': 6},
        {'cutoff_bins': 12})


def cases(tier):
    thorough = tier == 'thorough'
    for s in range(len(SERIES)):
        for g in range(len(GEOMETRY)):
            for r in RECENTER:
                if not thorough and ((s + g) % 2 or g == 2):
                    continue
                for x in range(XLIMS):
                    yield {'kind': 'product', 'series': s, 'geo': g,
                           'recenter': r, 'xlim': x, 'thorough': thorough}
            yield {'kind': 'edges', 'series': s, 'geo': g}
    for shape in ((4, 3), (5, 2), (6, 4)):
        for geo in ((0.5, 1., 1.), (-3.3, 0.1, 0.3), (7., 0.25, 2.)):
            for count in (1, 2, 3):
                for mixed in (0, 1):
                    yield {'kind': 'direct', 'shape': list(shape),
                           'geo': list(geo), 'count': count, 'mixed': mixed}
    for g in range(len(GEOMETRY)):
        for r in RECENTER:
            for shape in ((23, 12), (40, 5)):
                yield {'kind': 'large', 'series': -1, 'shape': list(shape), 'geo': g,
                       'recenter': r}


XLIMS = 5


def limits(grid, axis, which):
    """(limits, first, last + 1) along an axis."""
    cs, n = (grid.x, grid.nx) if axis == 0 else (grid.y, grid.ny)
    d = grid.spacing[axis]
    if which == 0:
        return (None, None), 0, n
    if which == 1:
        return (float(cs[1]), None), 1, n
    if which == 2:
        return (None, float(cs[n - 2] + 0.25 * d)), 0, n - 1
    if which == 3:
        return (float(cs[0] - 5 * d), float(cs[n - 1] + 5 * d)), 0, n
    # between bins at the low end, on a bin at the high end
    lo = 1 if n > 3 else 0
    return (float(cs[lo] - 0.25 * d), float(cs[n - 2])), lo, n - 1


def frame(series, geo, index):
    (nx, ny), frames = SERIES[series]
    corner, d = GEOMETRY[geo]
    if corner is None:
        corner = -(nx - 1.5) * d[0], -(ny - 1.5) * d[1]
    grid = Grid(nx, ny, corner, d)
    for j in range(ny):
        span = frames[index % len(frames)][j]
        for i in range(nx):
            k = i * ny + j
            wet = span is not None and span[0] <= i <= span[1]
            if wet:
                vals = (2. + 0.5 * (k % 3), 3. + k % 2, 300. + 4 * k + index,
                        0.5 * (k - 4) + index, 1. - 0.25 * k * (index + 1))
            elif k % 3:
                vals = (0.25, 1., 200. + k, 1. - index, 0.125 * k)
            else:
                vals = (0.,) * 5
            for l, v in zip(('M', 'N', 'T', 'U', 'V'), vals):
                grid.values[l][i, j] = v
    return grid


def wide(shape, geo, index):
    """A droplet on a larger map, wandering along x."""
    nx, ny = shape
    corner, d = GEOMETRY[geo]
    if corner is None:
        corner = -(nx - 1.5) * d[0], -(ny - 1.5) * d[1]
    grid = Grid(nx, ny, corner, d)
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    middle = nx // 2 + (index * 5) % 7 - 3
    wet = (abs(i - middle) <= nx // 3 - j // 2) & (j < ny - 2)
    k = i * ny + j
    for l, a, b in (('M', 2. + 0.5 * (k % 3), 0.25), ('N', 3. + k % 2, 1.),
                    ('T', 300. + k % 64 + index, 200. + k % 9),
                    ('U', 0.5 * (k % 11 - 4) + index, 1. - index),
                    ('V', 1. - 0.25 * (k % 8) * (index + 1), 0.125 * (k % 5))):
        grid.values[l][:] = np.where(wet, a, np.where(k % 3 > 0, b, 0.))
    return grid


def large_runs(grids, case):
    ref, r = grids[0], case['recenter']
    n = len(grids)
    for q, (combine, factor, (group, rolling), x, y) in enumerate(itertools.product(
            (None, (5, 2), (2, 7)), (None, 2), ((1, False), (4, False), (10, True),
                                                (11, False)), (0, 1, 4), (0, 2))):
        if (factor or group == 1) and q % 5:
            continue
        xlim, i0, i1 = limits(ref, 0, x)
        ylim, j0, j1 = limits(ref, 1, y)
        kw = {'group': group, 'rolling': rolling, 'xlim': xlim, 'ylim': ylim}
        if r:
            kw['recenter'] = r
        if combine:
            kw['combine'] = combine
        if factor:
            kw['supersample'] = factor
        yield kw, windows(n, group, rolling), (i0, i1, j0, j1), r, {}, combine, factor


def part(grid, i0, i1, j0, j1):
    out = Grid(i1 - i0, j1 - j0,
               (grid.corner[0] + i0 * grid.spacing[0],
                grid.corner[1] + j0 * grid.spacing[1]), grid.spacing)
    for l in FIELDS:
        out.values[l][:] = grid.values[l][i0:i1, j0:j1]
    return out


_EDGES = {}


def edge_columns(grid, opts):
    """Columns of the left and right edge in the spreading layer, or None."""
    key = (grid.nx, grid.ny, grid.spacing, grid.values['M'].tobytes(),
           tuple(sorted(opts.items())))
    if key not in _EDGES:
        if len(_EDGES) > 5000:
            _EDGES.clear()
        _EDGES[key] = find_edge_columns(grid, opts)
    return _EDGES[key]


def find_edge_columns(grid, opts):
    m = grid.values['M'].ravel()
    cut = opts.get('cutoff')
    if cut is None:
        if m.min() == m.max():
            return None
        cut = 0.5 * (m.min() + m.max())
    bits = sum(1 << k for k, v in enumerate(m) if v >= cut)
    masks = neighbour_masks(grid.nx, grid.ny, grid.spacing[0], grid.spacing[1],
                            opts.get('cutoff_radius', 1.))
    qual = qualifying(bits, masks, opts.get('cutoff_bins', 1))
    layers = None
    if opts.get('floor') is not None:
        layers = [opts['floor']]
        if layers[0] >= grid.ny:
            return None
    rows = outline(qual, grid.nx, grid.ny, layers)
    return rows[0][1:] if rows else None


def mean(grids):
    out = Grid(grids[0].nx, grids[0].ny, grids[0].corner, grids[0].spacing)
    for l in ('M', 'N'):
        out.values[l][:] = sum(g.values[l] for g in grids) / len(grids)
    for l, w in WEIGHTS:
        tot = sum(g.values[w] for g in grids)
        num = sum(g.values[l] * g.values[w] for g in grids)
        out.values[l][:] = np.where(tot > 0, num / np.where(tot > 0, tot, 1.), 0.)
    return out


def centred(grids, recenter, opts):
    """The intersection of the recentred maps, or None out of the domain."""
    shifts = []
    for g in grids:
        if g.nx < 2:
            return None
        if recenter == 'com':
            m = g.values['M']
            if not m.sum():
                return None
            at = float((m * np.arange(g.nx)[:, None]).sum() / m.sum())
            if abs(at % 1. - 0.5) < 1e-3:
                return None
            shifts.append(int(np.floor(at + 0.5)))
        else:
            edges = edge_columns(g, opts)
            if edges is None:
                return None
            shifts.append(edges[recenter == 'right'])
    lo = max(-k for k in shifts)
    hi = min(g.nx - 1 - k for g, k in zip(grids, shifts))
    if hi < lo:
        return None
    out = []
    for g, k in zip(grids, shifts):
        p = part(g, lo + k, hi + k + 1, 0, g.ny)
        p.corner = (g.corner[0] + lo * g.spacing[0], g.corner[1])
        out.append(p)
    return out


def expected(grids, cut, recenter, opts, combine, factor):
    grids = [part(g, *cut) for g in grids]
    if recenter:
        grids = centred(grids, recenter, opts)
        if grids is None:
            return None
    out = mean(grids)
    if combine is not None:
        if out.nx < combine[0] or out.ny < combine[1]:
            return None
        out = blocks_of(out, *combine)
    if factor is not None:
        _, _, vals = refine(out, factor, WEIGHTS)
        out = Grid(out.nx * factor, out.ny * factor, out.corner,
                   tuple(d / factor for d in out.spacing), vals)
    return out


def compare(ctx, what, raw, want):
    try:
        got, keep = parse_gmx(raw)
    except Exception as err:
        return ctx.fail('%s: output is unreadable: %r' % (what, err))
    if not ctx.check((got.nx, got.ny) == (want.nx, want.ny),
                     '%s: shape %s, not %s' % (what, (got.nx, got.ny),
                                               (want.nx, want.ny))):
        return False
    ok = ctx.check(close(got.spacing, want.spacing, 1e-5, 2e-6),
                   '%s: spacing %s, not %s' % (what, got.spacing, want.spacing))
    ok &= ctx.check(close(got.corner, want.corner, 1e-5, 2e-6),
                    '%s: corner of the grid at %s, not %s' % (
                        what, got.corner, want.corner))
    mass = want.values['M'] > 1e-9
    for l in FIELDS:
        ref = np.where(mass, want.values[l], 0.)
        ok &= ctx.check(close(got.values[l], ref, 1e-5, 1e-5), lambda:
                        '%s: %s is %s, not %s' % (
                            what, l, got.values[l].tolist(), ref.tolist()))
    return ok


ENCODE = {'gmx': gmx_bytes, 'simple': simple_bytes, 'plain': plain_bytes}


def windows(n, group, rolling):
    return [list(range(i, i + group))
            for i in range(0, n - group + 1, 1 if rolling else group)]


def one(ctx, root, count, grids, what, windows_, cut, recenter, opts, combine,
        factor, kw):
    """One run of the tool; False if it is not in the domain."""
    from strata.average import average
    want = [expected([grids[k] for k in w], cut, recenter, opts, combine, factor)
            for w in windows_]
    if any(w is None for w in want):
        return False
    out = '%s/out%d' % (root, count)
    ctx.step(len(want))
    with ctx.guard(what):
        with Quiet():
            average(root + '/in/m', out + '/a', **kw)
        found = snapshot(out) if os.path.isdir(out) else {}
        names = ['a%05d.dat' % (i + 1) for i in range(len(want))]
        if not ctx.check(sorted(found) == names, '%s: wrote %s, not %s' % (
                what, sorted(found), names)):
            return True
        if all([compare(ctx, '%s: %s' % (what, n), found[n], w)
                for n, w in zip(names, want)]):
            ctx.trace()
        if ctx.nontrivial % 97 == 0:
            # with and without progress output
            kw = dict(kw, quiet=not kw['quiet'])
            with Quiet():
                average(root + '/in/m', out + 'q/a', **kw)
            ctx.check(snapshot(out + 'q') == found,
                      '%s: quiet changes the result' % what)
    ctx.nontrivial += 1
    return True


def run_direct(ctx, case):
    """Maps in memory, with their bins in any order, to any common number."""
    from strata.average import recenter_maps
    nx, ny = case['shape']
    x0, dx, dy = case['geo']
    n = nx * ny
    count = case['count']
    base = [(i, j) for i in range(nx) for j in range(ny)]
    orders = [base, sorted(base, key=lambda b: (b[1], b[0])), base[::-1],
              base[1::2] + base[::2], base[n // 2:] + base[:n // 2]]
    for moves in itertools.product((-1, 0, 1), repeat=count):
        if max(moves) - min(moves) >= nx - 1:
            continue
        for shift in range(len(orders)):
            maps = []
            for m in range(count):
                bins = orders[(shift * (m + 1) + m * case['mixed'])
                              % len(orders)]
                maps.append({
                    'X': np.array([x0 + dx * i for i, _ in bins]),
                    'Y': np.array([dy * j for _, j in bins]),
                    'M': np.array([float(100 * m + i * ny + j + 1)
                                   for i, j in bins])})
            at = [x0 + dx * (v + 0.25) for v in moves]
            what = '%d maps of %d x %d bins recentred on %s, bins in order %d' \
                % (count, nx, ny, at, shift)
            ctx.state(case['shape'], case['geo'], moves, shift, case['mixed'])
            ctx.step()
            new, info = recenter_maps(maps, at)
            # in bins: map m holds columns -v to nx - 1 - v afterwards
            lo, hi = -min(moves), nx - 1 - max(moves)
            ok = ctx.check(len(new) == count, what + ': %d maps' % len(new))
            for m, (v, got) in enumerate(zip(moves, new)):
                want = {(c, j): 100 * m + (c + v) * ny + j + 1
                        for c in range(lo, hi + 1) for j in range(ny)}
                # round the position of each bin in the recentred frame
                have = {}
                for x, y, mass in zip(got['X'], got['Y'], got['M']):
                    have[(x - x0) / dx, y / dy] = mass
                pos = sorted({round(k[0]) for k in have})
                off = pos[0] - lo if pos else 0
                keys = {(round(a) - off, round(b)): mass
                        for (a, b), mass in have.items()}
                ok = ctx.check(
                    keys == want and len(got['X']) == len(want) and off == 0 and
                    all(abs(a - round(a)) < 1e-6 for a, _ in have),
                    what + ': map %d holds %s' % (m, sorted(have.items())[:8])
                ) and ok
            ok = ctx.check(
                tuple(info['shape']) == (hi - lo + 1, ny) and
                info['num_bins'] == (hi - lo + 1) * ny and
                abs(info['origin'][0] - (x0 + dx * lo)) < 1e-6 and
                abs(info['origin'][1]) < 1e-6 and
                abs(info['spacing'][0] - dx) < 1e-6 and
                abs(info['spacing'][1] - dy) < 1e-6,
                what + ': information is %s' % (info,)) and ok
            if ok:
                ctx.trace()
    ctx.sample(maps=count, shape=case['shape'])


def run(ctx, case):
    if case['kind'] == 'direct':
        return run_direct(ctx, case)
    warnings.simplefilter('ignore')
    s, g = case['series'], case['geo']
    if case['kind'] == 'large':
        grids = [wide(case['shape'], g, k) for k in range(11)]
    else:
        grids = [frame(s, g, k) for k in range(3)]
    thorough = case.get('thorough', False)
    root = ctx.tmpdir()
    formats = ('gmx', 'simple', 'plain')
    fmt = formats[(s + g) % 3] if case['kind'] == 'product' else 'gmx'
    os.makedirs(root + '/in')
    for k, grid in enumerate(grids):
        with open('%s/in/m%05d.dat' % (root, k + 1), 'wb') as fp:
            fp.write(ENCODE[fmt](grid))
    inputs = snapshot(root + '/in')
    count = skipped = 0
    if case['kind'] == 'large':
        runs = large_runs(grids, case)
    elif case['kind'] == 'edges':
        runs = edge_runs(grids)
    else:
        runs = product_runs(grids, case, thorough)
    for kw, wins, cut, recenter, opts, combine, factor in runs:
        count += 1
        kw['quiet'] = bool(count % 5)
        what = 'series %d (%s, grid %d) average(%s)' % (s, fmt, g, kw)
        ctx.state(s, g, sorted(kw.items()))
        if not one(ctx, root, count, grids, what, wins, cut, recenter, opts,
                   combine, factor, kw):
            skipped += 1
    ctx.check(snapshot(root + '/in') == inputs, 'averaging changed its input')
    ctx.sample(case=str(case), runs=count, outside_of_domain=skipped)


def product_runs(grids, case, thorough):
    ref = grids[0]
    xlim, i0, i1 = limits(ref, 0, case['xlim'])
    r = case['recenter']
    groups = ((1, False), (2, False), (2, True), (3, False))
    for y in range(5):
        ylim, j0, j1 = limits(ref, 1, y)
        for gi, (group, rolling) in enumerate(groups):
            for ci, combine in enumerate(COMBINE):
                for fi, factor in enumerate(SUPER):
                    if not thorough and (gi + ci + fi + y) % 3 and \
                            (gi in (0, 2)):
                        continue
                    kw = {'group': group}
                    if rolling:
                        kw['rolling'] = True
                    if r:
                        kw['recenter'] = r
                    if case['xlim']:
                        kw['xlim'] = xlim
                    if y:
                        kw['ylim'] = ylim
                    if combine:
                        kw['combine'] = combine
                    if factor:
                        kw['supersample'] = factor
                    yield (kw, windows(3, group, rolling), (i0, i1, j0, j1), r,
                           {}, combine, factor)


def edge_runs(grids):
    ref = grids[0]
    for opts, r in itertools.product(EDGE, ('left', 'right', 'com')):
        for group, rolling in ((1, False), (2, True), (3, False)):
            for x, y in itertools.product(range(5), (0, 1, 4)):
                xlim, i0, i1 = limits(ref, 0, x)
                ylim, j0, j1 = limits(ref, 1, y)
                kw = dict(opts, group=group, rolling=rolling, recenter=r,
                          xlim=xlim, ylim=ylim)
                if 'floor' in opts:
                    # the first layer above this height
                    kw['floor'] = float(ref.y[j0] + ref.spacing[1] *
                                        (opts['floor'] - 0.5))
                yield (kw, windows(3, group, rolling), (i0, i1, j0, j1), r,
                       opts, None, None)
