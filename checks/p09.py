"""P09: supersampling."""

import itertools
import warnings

import numpy as np

from checks.common import shuffles, ALL, FIELDS, Grid, close

PROPERTY = 'P09'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all grid shapes x factors x weightings x '
             'bin orders, and of every assignment of a bin alphabet to small '
             'grids in every bin order, against neighbourhood sums computed bin '
             'by bin')
NOTE = ('exhaustive over shapes up to 4 x 4 (quick) or 6 x 6 (thorough), factors '
        'up to 4, and all assignments of 4 bin types to grids of up to 4 (quick) '
        'or 6 (thorough) bins')
RULE = ('a case is one shape with one value scheme (every factor, geometry, '
        'weighting and order) or one block of assignments on a small shape')
ASSUMPTIONS = ['weights are not negative', 'values are floating point numbers']
CHUNK = 2

BINS = [(0., 0., 300., 4., -2.), (1., 2., 300., 1., -1.), (2., 1., 150., -1., 8.),
        (4., 0., 75., 8., 0.25)]
ORDER = ('M', 'N', 'T', 'U', 'V')
GEOMETRY = [((0., 0.), (1., 1.)), ((-3.5, 2.25), (0.25, 0.5)),
            ((100.125, -7.), (2., 0.125))]
WEIGHTS = [[], [('U', 'M'), ('V', 'M'), ('T', 'N')], [('U', 'N')],
           [('T', 'M'), ('V', 'N')]]


def cases(tier):
    top = 4 if tier == 'quick' else 6
    for nx in range(1, top + 1):
        for ny in range(1, top + 1):
            for scheme in range(4):
                yield {'kind': 'shape', 'shape': [nx, ny], 'scheme': scheme,
                       'factors': [1, 2, 3, 4] if nx * ny <= 16 else [2, 3]}
    for shape in ((40, 1), (1, 40), (17, 13), (9, 31)):
        for scheme in range(4):
            yield {'kind': 'large', 'shape': list(shape), 'scheme': scheme}
    for shape in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)):
        for first in range(len(BINS)):
            yield {'kind': 'all', 'shape': list(shape), 'first': [first],
                   'factors': [2, 3]}
    if tier == 'thorough':
        for shape in ((2, 3), (3, 2), (2, 2), (4, 1), (1, 4)):
            for first in itertools.product(range(len(BINS)), repeat=3):
                yield {'kind': 'all', 'shape': list(shape), 'deep': True,
                       'first': list(first), 'factors': [2, 3]}


def refine(grid, n, weights):
    """(x, y, {label: values}) of the refined map by definition, [i, j]."""
    nx, ny = grid.nx * n, grid.ny * n
    dx, dy = grid.spacing[0] / n, grid.spacing[1] / n
    xs = grid.x[0] + dx * np.arange(nx)
    ys = grid.y[0] + dy * np.arange(ny)
    weight = dict(weights)
    out = {l: np.zeros((nx, ny)) for l in FIELDS}
    # number of split bins of each coarse bin that a fine bin sees, by axis
    def seen(k, total):
        cells = [i // n for i in range(max(0, k - n + 1), min(total, k + n))]
        return sorted((c, cells.count(c)) for c in set(cells))
    for a in range(nx):
        for b in range(ny):
            cells = [(i, j, p * q) for i, p in seen(a, nx)
                     for j, q in seen(b, ny)]
            for l in FIELDS:
                w = weight.get(l)
                v = grid.values[l]
                if w is None:
                    tot = sum(k for _, _, k in cells)
                    num = sum(v[i, j] * k for i, j, k in cells)
                else:
                    ws = grid.values[w]
                    tot = sum(ws[i, j] * k for i, j, k in cells)
                    num = sum(v[i, j] * ws[i, j] * k for i, j, k in cells)
                out[l][a, b] = num / tot if tot > 0 else 0.
    return xs, ys, out


def scheme_values(nx, ny, scheme):
    k = np.arange(nx * ny).reshape(nx, ny)
    if scheme == 0:
        return {'M': 1. + k, 'N': 2. + k, 'T': 300. + 8 * k, 'U': k - 3.,
                'V': 0.5 * k}
    if scheme == 1:
        on = (k * 5 + 1) % 3 > 0
        return {'M': on * 2. ** (k % 4), 'N': on * (1. + k % 3),
                'T': 100. + 4. * k, 'U': (-1.) ** k, 'V': 1. + k}
    if scheme == 2:     # uniform
        return {'M': 2., 'N': 4., 'T': 273., 'U': 0.5, 'V': -2.}
    on = (k == (nx * ny) // 2)
    return {'M': 8. * on, 'N': 2. * on, 'T': 16., 'U': 4. - k, 'V': 1. * on}


def check_one(ctx, what, grid, factor, weights, order, info, uniform=False):
    from droplets.flow import FlowData
    from droplets.resample import supersample_flow_data
    data = {l: v[order] for l, v in grid.data().items()}
    flow = FlowData(*[(l, data[l]) for l in ALL], info=info)
    saved = flow.data.copy()
    meta = (flow.shape, flow.spacing, flow.origin, flow.num_bins)
    kw = {'weights': weights} if weights else {}
    new = supersample_flow_data(flow, factor, **kw)
    ctx.step()
    ok = ctx.check(np.array_equal(flow.data, saved) and meta == (
        flow.shape, flow.spacing, flow.origin, flow.num_bins),
        '%s: the input map changed' % what)
    ok &= ctx.check(new is not flow and not np.may_share_memory(
        new.data, flow.data), '%s: result shares its data with the input' % what)
    if factor in (None, 1):
        gi = np.lexsort((new.data['Y'], new.data['X']))
        ref = grid.data()
        ok &= ctx.check(new.data.size == grid.nx * grid.ny and all(
            close(new.data[l][gi], ref[l]) for l in ALL) and
            close(new.shape, (grid.nx, grid.ny)) and
            close(new.spacing, grid.spacing),
            '%s: not the same map' % what)
        if ok:
            ctx.trace()
        return
    xs, ys, want = refine(grid, factor, weights)
    ok &= ctx.check(new.data.size == xs.size * ys.size and
                    set(new.properties) == set(ALL),
                    '%s: %d bins with %s' % (what, new.data.size,
                                             new.properties))
    ok &= ctx.check(close(new.shape, (xs.size, ys.size)) and
                    new.num_bins == xs.size * ys.size and
                    close(new.spacing, [d / factor for d in grid.spacing]) and
                    close(new.origin, (xs[0], ys[0])), lambda:
                    '%s: information %s %s %s %s' % (
                        what, new.shape, new.spacing, new.origin, new.num_bins))
    if not ok:
        return
    rows = np.lexsort((np.round(new.data['Y'], 7), np.round(new.data['X'], 7)))
    gx, gy = np.meshgrid(xs, ys, indexing='ij')
    ok = ctx.check(close(new.data['X'][rows], gx.ravel()) and
                   close(new.data['Y'][rows], gy.ravel()),
                   '%s: bins are not on the finer grid' % what)
    for l in FIELDS:
        got = new.data[l][rows]
        ok &= ctx.check(close(got, want[l].ravel(), 1e-6, 1e-7), lambda:
                        '%s: %s = %s, not %s' % (what, l, got.tolist(),
                                                 want[l].ravel().tolist()))
        if uniform:
            ok &= ctx.check(close(got, np.full(got.size, grid.values[l][0, 0])),
                            '%s: uniform %s is not uniform' % (what, l))
    if ok:
        ctx.trace()


def orders(nx, ny, every):
    n = nx * ny
    idx = np.arange(n)
    if every:
        return [np.array(p) for p in itertools.permutations(range(n))]
    return [idx, idx.reshape(nx, ny).T.ravel(), idx[::-1],
            np.concatenate([idx[1::2], idx[::2]])]


def run(ctx, case):
    warnings.simplefilter('ignore')
    nx, ny = case['shape']
    if case['kind'] == 'all':
        n = nx * ny
        deep = case.get('deep', False)
        every = orders(nx, ny, n <= (4 if deep else 3))
        for tail in itertools.product(range(len(BINS)),
                                      repeat=n - len(case['first'])):
            flat = case['first'] + list(tail)
            grid = Grid(nx, ny, (-1., 0.5), (0.5, 2.))
            for k, b in enumerate(flat):
                for l, v in zip(ORDER, BINS[b]):
                    grid.values[l][k // ny, k % ny] = v
            for factor in case['factors']:
                ctx.state(nx, ny, flat, factor)
                for i, order in enumerate(every):
                    if not deep and n > 3 and i != sum(flat) % 4:
                        continue
                    check_one(ctx, 'bins %s as %dx%d factor %d order %s' % (
                        [BINS[b] for b in flat], nx, ny, factor,
                        list(order)), grid, factor, WEIGHTS[1], order,
                        grid.info())
        ctx.sample(shape=[nx, ny], bins=[BINS[b] for b in flat])
        return
    if case['kind'] == 'large':
        return run_large(ctx, case)
    for g, (corner, spacing) in enumerate(GEOMETRY):
        grid = Grid(nx, ny, corner, spacing,
                    scheme_values(nx, ny, case['scheme']))
        for factor in case['factors'] + [None]:
            for w, weights in enumerate(WEIGHTS):
                if nx * ny * (factor or 1) ** 2 > 64 and w > 1:
                    continue
                for o, order in enumerate(orders(nx, ny, False)):
                    if nx * ny * (factor or 1) ** 2 > 64 and o != (w + g) % 4:
                        continue
                    info = {'shape': (nx, ny), 'spacing': spacing}
                    if o % 2:
                        info = grid.info()
                        info['origin'] = (grid.x[0], grid.y[0])
                    ctx.state(nx, ny, case['scheme'], g, factor, w, o)
                    check_one(ctx, 'shape %dx%d scheme %d geometry %d factor %s '
                              'weights %s order %s' % (
                                  nx, ny, case['scheme'], g, factor, weights,
                                  order.tolist()), grid, factor, weights, order,
                              info, case['scheme'] == 2)
    ctx.sample(shape=[nx, ny], factors=case['factors'])


def run_large(ctx, case):
    nx, ny = case['shape']
    for g, (corner, spacing) in enumerate(GEOMETRY):
        grid = Grid(nx, ny, corner, spacing, scheme_values(nx, ny, case['scheme']))
        for f, factor in enumerate((None, 1, 2, 3, 5) if nx * ny > 40 else
                                   (2, 5, 8, 10, 12)):
            for o, (name, order) in enumerate(shuffles(nx, ny)):
                if o != (f + 2 * g) % 7:
                    continue
                info = grid.info()
                info['origin'] = (grid.x[0], grid.y[0])
                ctx.state('large', nx, ny, case['scheme'], g, factor, name)
                check_one(ctx, '%dx%d scheme %d geometry %d factor %s stored %s' % (
                    nx, ny, case['scheme'], g, factor, name), grid, factor,
                    WEIGHTS[(f + g) % 4], order, info, case['scheme'] == 2)
    ctx.sample(shape=[nx, ny])
