"""P08: combining bins in blocks."""

import itertools
import warnings

import numpy as np

from checks.common import LARGE, shuffles, ALL, FIELDS, Grid, close

PROPERTY = 'P08'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all grid shapes x block sizes x value '
             'schemes, and of every assignment of a bin alphabet to small grids, '
             'for both combining routines in several bin orders, against block '
             'sums and weighted means computed bin by bin')
NOTE = ('exhaustive over shapes up to 5 x 5 (quick) or 7 x 7 (thorough), blocks '
        'up to 4 x 4, and all assignments of 6 bin types to grids of up to 4 '
        '(quick) or 6 (thorough) bins')
RULE = ('a case is one shape (with every block, geometry, order, limit and '
        'two-step split) or one block of assignments on one small shape')
ASSUMPTIONS = ['mass and number densities are not negative',
               'the file routine gets its bins in the x-major order of the files']
CHUNK = 2

BINS = [(0., 0., 0., 0., 0.), (0., 0., 300., 4., -2.), (1., 2., 300., 1., -1.),
        (2., 1., 150., -1., 0.5), (4., 0., 75., 8., 0.25), (0., 3., 20., 3., 3.)]
ORDER = ('M', 'N', 'T', 'U', 'V')
WEIGHT = {'U': 'M', 'V': 'M', 'T': 'N'}
GEOMETRY = [((0., 0.), (1., 1.)), ((-3.5, 2.25), (0.25, 0.5)),
            ((100.125, -7.), (2., 0.125))]


def cases(tier):
    top = 5 if tier == 'quick' else 7
    for nx in range(1, top + 1):
        for ny in range(1, top + 1):
            for g in range(len(GEOMETRY)):
                for scheme in range(5):
                    yield {'kind': 'shape', 'shape': [nx, ny], 'geom': g,
                           'scheme': scheme}
    for shape in LARGE:
        for scheme in range(5):
            yield {'kind': 'large', 'shape': list(shape), 'scheme': scheme}
    small = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (4, 1), (1, 4)]
    for shape in small:
        for first in range(len(BINS)):
            yield {'kind': 'all', 'shape': list(shape), 'first': [first]}
    if tier == 'thorough':
        for shape in ((2, 3), (3, 2), (5, 1), (1, 5)):
            for first in itertools.product(range(len(BINS)), repeat=2):
                yield {'kind': 'all', 'shape': list(shape),
                       'first': list(first)}


def blocks_of(grid, nx, ny, weight=None):
    """The combined map by definition."""
    weight = WEIGHT if weight is None else weight
    sx, sy = grid.nx // nx, grid.ny // ny
    out = Grid(sx, sy, grid.corner,
               (grid.spacing[0] * nx, grid.spacing[1] * ny))
    out.scale = getattr(grid, 'scale', None) or {
        l: np.abs(grid.values[l]).max() for l in FIELDS}
    for a in range(sx):
        for b in range(sy):
            part = {l: grid.values[l][a * nx:(a + 1) * nx,
                                      b * ny:(b + 1) * ny].ravel().tolist()
                    for l in FIELDS}
            for l in FIELDS:
                out.values[l][a, b] = sum(part[l])
            for l, w in weight.items():
                tot = sum(part[w])
                num = sum(v * u for v, u in zip(part[l], part[w]))
                out.values[l][a, b] = num / tot if tot > 0 else 0.
    return out


def orders(n, nx, ny):
    idx = np.arange(n)
    out = [idx, idx.reshape(nx, ny).T.ravel(), idx[::-1],
           np.concatenate([idx[1::2], idx[::2]])]
    return out


def compare(ctx, what, got, want):
    """got: {label: flat array}; want: Grid; bins matched by position."""
    n = want.nx * want.ny
    if not ctx.check(all(np.size(got[l]) == n for l in ALL), lambda:
                     '%s: %s bins, not %d' % (
                         what, {l: np.size(got[l]) for l in ALL}, n)):
        return False
    if n == 0:
        return True
    ref = want.data()
    gi = np.lexsort((np.round(got['Y'], 6), np.round(got['X'], 6)))
    ok = True
    for l in ALL:
        # relative to the values of the field, whatever its unit
        atol = 1e-6 * (1. if l in ('X', 'Y') else want.scale[l])
        ok &= ctx.check(close(np.asarray(got[l])[gi], ref[l], 1e-6, atol), lambda:
                        '%s: %s = %s, not %s' % (
                            what, l, np.asarray(got[l])[gi].tolist(),
                            ref[l].tolist()))
    return ok


def centred(grid):
    """Information with the mid-point of the first bin as origin."""
    info = grid.info()
    info['origin'] = [c + 0.5 * d for c, d in zip(grid.corner, grid.spacing)]
    return info


def combine_file(ctx, what, grid, nx, ny):
    from strata.dataformats.simple.average import combine_bins
    data, info = grid.data(), centred(grid)
    saved = {l: v.copy() for l, v in data.items()}
    new, ninfo = combine_bins(data, info, nx, ny)
    ctx.step()
    want = blocks_of(grid, nx, ny)
    ok = compare(ctx, what, new, want)
    winfo = centred(want)
    for key in ('shape', 'spacing', 'origin'):
        ok &= ctx.check(close(ninfo[key], winfo[key]), lambda:
                        '%s: %s is %s, not %s' % (what, key, ninfo[key],
                                                  winfo[key]))
    ok &= ctx.check(ninfo['num_bins'] == want.nx * want.ny,
                    '%s: num_bins %s' % (what, ninfo['num_bins']))
    ok &= ctx.check(all(np.array_equal(saved[l], data[l]) for l in saved),
                    '%s: the input map changed' % what)
    # the tools write these arrays as they are: x-major order
    if want.nx * want.ny and ok:
        ref = want.data()
        ok &= ctx.check(all(close(new[l], ref[l], 1e-6, 1e-6 * (
            1. if l in ('X', 'Y') else want.scale[l])) for l in ALL),
                        '%s: bins are not in x-major order' % what)
    if ok:
        ctx.trace()
    return new, ninfo


WEIGHTS = [('U', 'M'), ('V', 'M'), ('T', 'N')]


def combine_flow(ctx, what, grid, nx, ny, order, xlim=(None, None),
                 ylim=(None, None), part=None):
    from droplets.resample import downsample_flow_data
    flow = grid.flow(order)
    saved = flow.data.copy()
    info = (flow.shape, flow.spacing, flow.origin, flow.num_bins)
    kw = {}
    if xlim != (None, None):
        kw['xlim'] = xlim
    if ylim != (None, None):
        kw['ylim'] = ylim
    new = downsample_flow_data(flow, (nx, ny), weights=WEIGHTS, **kw)
    ctx.step()
    want = blocks_of(part or grid, nx, ny)
    ok = compare(ctx, what, {l: new.data[l] for l in ALL}, want)
    winfo = centred(want)
    ok &= ctx.check(close(new.shape, winfo['shape']) and
                    close(new.spacing, winfo['spacing']) and
                    close(new.origin, winfo['origin']) and
                    new.num_bins == want.nx * want.ny, lambda:
                    '%s: information is %s %s %s %s, not %s' % (
                        what, new.shape, new.spacing, new.origin, new.num_bins,
                        winfo))
    ok &= ctx.check(np.array_equal(flow.data, saved) and info == (
        flow.shape, flow.spacing, flow.origin, flow.num_bins),
        '%s: the input map changed' % what)
    if ok:
        ctx.trace()
    return new


def totals(data, unit=None):
    data = {l: np.asarray(data[l]) / (unit or {}).get(l, 1.)
            for l in FIELDS}
    m, n = data['M'], data['N']
    return [float(m.sum()), float(n.sum()), float((m * data['U']).sum()),
            float((m * data['V']).sum()), float((n * data['T']).sum())]


# kilograms and metres per second, and numbers and temperatures which are large
UNITS = {3: {'M': 1.66e-27, 'N': 1e-12, 'T': 1e6, 'U': 1e-15, 'V': 1e-12},
         4: {'M': 1e9, 'N': 6e23, 'T': 1e-10, 'U': 1e7, 'V': 1e9}}


def scheme_values(nx, ny, scheme):
    if scheme in UNITS:
        values = scheme_values(nx, ny, 1)
        return {l: UNITS[scheme][l] * values[l] for l in values}
    k = np.arange(nx * ny).reshape(nx, ny)
    if scheme == 0:
        return {'M': 1. + k, 'N': 2. + k, 'T': 300. + 8 * k, 'U': k - 3.,
                'V': 0.5 * k}
    if scheme == 1:     # empty bins in a pattern
        on = (k * 5 + 1) % 3 > 0
        return {'M': on * 2. ** (k % 4), 'N': on * (1. + k % 3),
                'T': 100. + 4. * k, 'U': (-1.) ** k, 'V': 1. + k}
    return {'M': 1. + k % 2, 'N': 1., 'T': 273., 'U': 0.5, 'V': -2.}


def run(ctx, case):
    warnings.simplefilter('ignore')
    nx, ny = case['shape']
    if case['kind'] == 'all':
        return run_all(ctx, case)
    if case['kind'] == 'large':
        return run_large(ctx, case)
    corner, spacing = GEOMETRY[case['geom']]
    grid = Grid(nx, ny, corner, spacing, scheme_values(nx, ny, case['scheme']))
    unit = UNITS.get(case['scheme'])
    name = 'shape %dx%d geometry %d scheme %d' % (nx, ny, case['geom'],
                                                  case['scheme'])
    for bx, by in itertools.product(range(1, 5), repeat=2):
        what = '%s blocks %dx%d' % (name, bx, by)
        ctx.state(nx, ny, case['geom'], case['scheme'], bx, by)
        new, info = combine_file(ctx, what + ' (files)', grid, bx, by)
        even = nx % bx == 0 and ny % by == 0
        if even:
            ctx.check(close(totals(new, unit), totals(grid.data(), unit), 1e-6, 1e-5),
                      lambda: '%s: totals %s, not %s' % (
                          what, totals(new), totals(grid.data())))
        for order in orders(nx * ny, nx, ny):
            flow = combine_flow(ctx, what + ' order %s' % order.tolist(), grid,
                                bx, by, order)
        if even:
            ctx.check(close(totals(flow.data, unit), totals(grid.data(), unit), 1e-6, 1e-5),
                      lambda: '%s (flow): totals %s, not %s' % (
                          what, totals(flow.data), totals(grid.data())))
        # in two steps
        for cx, cy in itertools.product((1, 2, 3), repeat=2):
            if nx // (bx * cx) == 0 or ny // (by * cy) == 0:
                continue
            what2 = what + ' then %dx%d' % (cx, cy)
            want = blocks_of(grid, bx * cx, by * cy)
            from strata.dataformats.simple.average import combine_bins
            from droplets.resample import downsample_flow_data
            two, _ = combine_bins(new, info, cx, cy)
            compare(ctx, what2 + ' (files)', two, want)
            two = downsample_flow_data(flow, (cx, cy), weights=WEIGHTS)
            compare(ctx, what2 + ' (flow)', {l: two.data[l] for l in ALL}, want)
            ctx.step(2)
            ctx.trace(2)
        if case['geom'] == 1:
            other_weights(ctx, what, grid, bx, by)
    # limits: only the bins within are combined
    xs, ys = grid.x, grid.y
    for xlim in limits(xs):
        for ylim in limits(ys)[:3]:
            ix = [i for i, x in enumerate(xs)
                  if (xlim[0] is None or x >= xlim[0])
                  and (xlim[1] is None or x <= xlim[1])]
            iy = [j for j, y in enumerate(ys)
                  if (ylim[0] is None or y >= ylim[0])
                  and (ylim[1] is None or y <= ylim[1])]
            if not ix or not iy:
                continue
            part = Grid(len(ix), len(iy),
                        (corner[0] + ix[0] * spacing[0],
                         corner[1] + iy[0] * spacing[1]), spacing,
                        {l: grid.values[l][np.ix_(ix, iy)] for l in FIELDS})
            for bx, by in ((1, 1), (2, 1), (1, 2), (2, 2)):
                combine_flow(ctx, '%s blocks %dx%d xlim %s ylim %s' % (
                    name, bx, by, xlim, ylim), grid, bx, by,
                    orders(nx * ny, nx, ny)[1], xlim, ylim, part)
    ctx.sample(shape=[nx, ny], corner=corner, spacing=spacing)


def run_large(ctx, case):
    nx, ny = case['shape']
    for g, (corner, spacing) in enumerate(GEOMETRY):
        grid = Grid(nx, ny, corner, spacing, scheme_values(nx, ny, case['scheme']))
        for b, (bx, by) in enumerate(((1, 1), (2, 2), (3, 5), (7, 1), (1, 9), (10, 10),
                                      (11, 13), (17, 13), (31, 7), (33, 70))):
            if bx > nx or by > ny:
                continue
            what = '%dx%d geometry %d scheme %d blocks %dx%d' % (
                nx, ny, g, case['scheme'], bx, by)
            ctx.state(nx, ny, g, case['scheme'], bx, by)
            combine_file(ctx, what + ' (files)', grid, bx, by)
            for o, (name, order) in enumerate(shuffles(nx, ny)):
                if nx * ny > 1000 and o != (b + g) % 7:
                    continue
                combine_flow(ctx, '%s stored %s' % (what, name), grid, bx, by, order)
    ctx.sample(shape=[nx, ny])


def other_weights(ctx, what, grid, bx, by):
    """Everything not weighted is summed; coordinates may be named otherwise."""
    from droplets.flow import FlowData
    from droplets.resample import downsample_flow_data
    for weights in ([], [('U', 'N')], [('T', 'M'), ('V', 'N')]):
        for names in (('X', 'Y'), ('x', 'height')):
            flow = grid.flow(orders(grid.nx * grid.ny, grid.nx, grid.ny)[2])
            relabel = dict(zip(('X', 'Y'), names))
            flow = FlowData(*[(relabel.get(l, l), flow.data[l])
                              for l in flow.properties], info=grid.info())
            kw = {}
            if weights:
                kw['weights'] = weights
            if names != ('X', 'Y'):
                kw['coord_labels'] = names
            new = downsample_flow_data(flow, (bx, by), **kw)
            ctx.step()
            ctx.trace()
            compare(ctx, '%s weights %s coordinates %s' % (what, weights, names),
                    {l: new.data[relabel.get(l, l)] for l in ALL},
                    blocks_of(grid, bx, by, dict(weights)))


def limits(cs):
    """Open, on a bin and between bins."""
    d = 0.5 * (cs[1] - cs[0]) if len(cs) > 1 else 1.
    out = [(None, None), (cs[0] + d / 2, None), (None, cs[-1] - d / 2),
           (cs[0], cs[-1]), (cs[len(cs) // 2], None)]
    return out


def run_all(ctx, case):
    nx, ny = case['shape']
    n = nx * ny
    for tail in itertools.product(range(len(BINS)), repeat=n - len(case['first'])):
        flat = case['first'] + list(tail)
        grid = Grid(nx, ny, (-1., 0.5), (0.5, 2.))
        for k, b in enumerate(flat):
            for l, v in zip(ORDER, BINS[b]):
                grid.values[l][k // ny, k % ny] = v
        for bx in range(1, nx + 1):
            for by in range(1, ny + 1):
                if bx * by == 1 and n > 2:
                    continue
                ctx.state(nx, ny, flat, bx, by)
                what = 'bins %s as %dx%d blocks %dx%d' % (
                    [BINS[b] for b in flat], nx, ny, bx, by)
                combine_file(ctx, what + ' (files)', grid, bx, by)
                k = sum(flat) % 4
                combine_flow(ctx, what + ' (flow)', grid, bx, by,
                             orders(n, nx, ny)[k])
    ctx.sample(shape=[nx, ny], bins=[BINS[b] for b in flat])
