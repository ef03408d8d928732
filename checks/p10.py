"""P10: averaging flow maps that cover different areas."""

import itertools
import warnings

import numpy as np

from checks.common import ALL, FIELDS, Grid, close

PROPERTY = 'P10'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all placements, shapes and contents of two '
             'and three maps (plus empty maps) in every order, averaged by the '
             'real code and compared with a dictionary of lattice bins')
NOTE = ('exhaustive over relative offsets of up to 3 bins each way (and far '
        'ones), shapes up to 2 x 2 (quick) or 3 x 3 (thorough), four geometries '
        'including spacings that are not binary fractions; some scatterings of up to 13 '
        'larger maps')
RULE = ('a case is a pair or triple of shapes with one geometry; inside it every '
        'offset, content, weighting, order and insertion of an empty map is run')
ASSUMPTIONS = ['maps are regular, in y-major order, with shape and spacing set',
               'weights are not negative']
CHUNK = 2

GEOMETRY = [((0., 0.), (1., 1.)), ((-3.5, 2.25), (0.25, 0.5)),
            ((1000.5, -7.), (0.1, 0.3)), ((1. / 3., -0.7), (0.7, 0.025)),
            # positions and values which also fit in integers
            ((-0.5, -3.5), (1., 1.))]
TYPES = ['f8', 'i8', 'f4']
WEIGHTS = [[], [('U', 'M'), ('V', 'M'), ('T', 'N')], [('U', 'N')]]


def cases(tier):
    small = [(1, 1), (1, 2), (2, 1), (2, 2)]
    if tier == 'thorough':
        small += [(3, 1), (1, 3), (3, 2), (2, 3), (3, 3)]
    for g in range(len(GEOMETRY)):
        for a in small:
            yield {'shapes': [list(a)], 'geom': g}
            for b in small:
                yield {'shapes': [list(a), list(b)], 'geom': g}
    yield {'shapes': [], 'geom': 0}
    for g in range(len(GEOMETRY)):
        for count in (2, 9, 10, 13):
            yield {'shapes': None, 'geom': g, 'count': count}
    three = small[:4]
    for g in range(len(GEOMETRY)):
        for s in itertools.product(three, repeat=3):
            if tier == 'quick' and (g + len(set(s))) % 2:
                continue
            yield {'shapes': [list(v) for v in s], 'geom': g,
                   'reach': 1 if tier == 'quick' else 2}


def content(nx, ny, which, scheme):
    k = np.arange(nx * ny).reshape(nx, ny)
    if scheme == 0:
        return {'M': 1. + k + 8 * which, 'N': 2. + which, 'T': 100. * (which + 1)
                + k, 'U': k - which, 'V': 0.5 * k + which}
    if scheme == 1:      # holes: weightless bins with values
        on = (k + which) % 2 == 0
        return {'M': on * (1. + k), 'N': ~on * 2., 'T': 300. + k,
                'U': 4. - k, 'V': 1. + which}
    return {'M': 0., 'N': 0., 'T': 5., 'U': 3., 'V': 1. + k}


def make(shape, at, geom, which, scheme):
    (x0, y0), (dx, dy) = GEOMETRY[geom]
    grid = Grid(shape[0], shape[1], (x0 + at[0] * dx, y0 + at[1] * dy), (dx, dy),
                content(shape[0], shape[1], which, scheme))
    n = shape[0] * shape[1]
    flow = grid.flow(np.arange(n).reshape(shape).T.ravel())
    if geom == 4:
        # maps may hold their values as other types
        from droplets.flow import FlowData
        dtype = TYPES[(shape[0] + 2 * which + at[0] + at[1]) % 3]
        for l in FIELDS:
            grid.values[l] = np.floor(grid.values[l])
            flow.data[l] = np.floor(flow.data[l])
        flow = FlowData(*[(l, flow.data[l].astype(dtype)) for l in ALL],
                        info=flow._info)
    flow.origin = (grid.x[0], grid.y[0])
    return grid, flow


def expected(parts, count, weights):
    """parts: [(grid, at)]; average over `count` maps on the common lattice."""
    weight = dict(weights)
    lo = [min(at[d] for _, at in parts) for d in (0, 1)]
    hi = [max(at[d] + (g.nx, g.ny)[d] for g, at in parts) for d in (0, 1)]
    out = {}
    for i in range(lo[0], hi[0]):
        for j in range(lo[1], hi[1]):
            bins = []
            for g, at in parts:
                a, b = i - at[0], j - at[1]
                if 0 <= a < g.nx and 0 <= b < g.ny:
                    bins.append({l: g.values[l][a, b] for l in FIELDS})
            rec = {}
            for l in FIELDS:
                w = weight.get(l)
                if w is None:
                    rec[l] = sum(r[l] for r in bins) / count
                else:
                    tot = sum(r[w] for r in bins)
                    rec[l] = sum(r[l] * r[w] for r in bins) / tot if tot else 0.
            out[i, j] = rec
    return lo, hi, out


def check_average(ctx, what, parts, flows, weights, geom, **kw):
    from droplets.average import average_flow_data
    (x0, y0), (dx, dy) = GEOMETRY[geom]
    live = [f for f in flows]
    count = len(live)
    if kw.get('exclude_empty_sets'):
        count = len([f for f in live if f.data.size])
    saved = [(f.data.copy(), f.shape, f.origin, f.spacing, f.num_bins)
             for f in flows]
    if weights:
        kw['weights'] = weights
    got = average_flow_data(flows, **kw)
    ctx.step()
    ok = ctx.check(all(np.array_equal(f.data, s[0]) and
                       (f.shape, f.origin, f.spacing, f.num_bins) == s[1:]
                       for f, s in zip(flows, saved)),
                   '%s: averaging changed an input map' % what)
    ok &= ctx.check(not any(np.may_share_memory(got.data, f.data)
                            for f in flows), '%s: shares memory' % what)
    lo, hi, want = expected(parts, count, weights)
    nx, ny = hi[0] - lo[0], hi[1] - lo[1]
    ox, oy = x0 + (lo[0] + 0.5) * dx, y0 + (lo[1] + 0.5) * dy
    ok &= ctx.check(got.shape == (nx, ny) and got.num_bins == nx * ny and
                    close(got.spacing, (dx, dy)) and
                    close(got.origin, (ox, oy)), lambda:
                    '%s: shape %s spacing %s origin %s, want %dx%d at %s' % (
                        what, got.shape, got.spacing, got.origin, nx, ny,
                        (ox, oy)))
    if not ctx.check(got.data.size == nx * ny,
                     '%s: %d bins' % (what, got.data.size)) or not ok:
        return
    fi = (np.asarray(got.data['X']) - ox) / dx
    fj = (np.asarray(got.data['Y']) - oy) / dy
    ok &= ctx.check(np.allclose(fi, np.round(fi), atol=1e-4) and
                    np.allclose(fj, np.round(fj), atol=1e-4),
                    '%s: bins are off the lattice' % what)
    index = [(int(a) + lo[0], int(b) + lo[1])
             for a, b in zip(np.round(fi), np.round(fj))]
    if not ctx.check(set(index) == set(want), '%s: bins %s' % (what, index)):
        return
    for l in FIELDS:
        vals = np.array([want[k][l] for k in index])
        ok &= ctx.check(close(got.data[l], vals), lambda:
                        '%s: %s = %s, not %s' % (
                            what, l, got.data[l].tolist(), vals.tolist()))
    if ok:
        ctx.trace()


def empties(geom):
    from droplets.flow import FlowData
    cols = [(l, np.zeros(0)) for l in ALL]
    dx = GEOMETRY[geom][1]
    return [FlowData(*cols, info={'shape': (0, 0), 'spacing': dx}),
            FlowData(*cols, info={'spacing': dx, 'num_bins': 0})]


def run_refused(ctx):
    """Maps without a common spacing are not averaged."""
    from droplets.average import average_flow_data
    for shape in ((1, 1), (2, 2)):
        for bad in ((2., 1.), (1., 2.), (1.001, 1.), (1., 0.5), None):
            for pos in range(3):
                flows = [make(shape, (0, 0), 0, w, 0)[1] for w in range(3)]
                for f in flows if bad is None else [flows[pos]]:
                    f.spacing = bad
                ctx.state('refused', shape, bad, pos)
                ctx.step()
                try:
                    average_flow_data(flows)
                except Exception:
                    ctx.trace()
                else:
                    ctx.fail('maps of spacing %s averaged with spacing 1'
                             % (bad,))
    from droplets.average import average_data
    for shape in ((1, 1), (2, 2), (3, 1), (1, 3)):
        for count in (2, 3, 4):
            for at in ((0, 0), (1, 0), (0, 1), (-1, 2)):
                for pos in range(count):
                    ctx.state('positions', shape, count, at, pos)
                    ctx.step()
                    maps = [make(shape, at if w == pos else (0, 0), 0, w, 0)[1]
                            for w in range(count)]
                    try:
                        average_data([m.data for m in maps])
                    except Exception as err:
                        ctx.check(at != (0, 0), '%d maps of the same bins are '
                                  'not averaged: %r' % (count, err))
                    else:
                        ctx.check(at == (0, 0), '%d maps averaged bin by bin '
                                  'although number %d is moved by %s' % (
                                      count, pos, at))
                    ctx.trace()


def run_large(ctx, case):
    """Many maps of different sizes, scattered, next to or over each other."""
    geom, count = case['geom'], case['count']
    shapes = [(17, 13), (5, 20), (1, 1), (30, 2), (12, 12)]
    for spread in (0, 1, 3, 7, 11):
        for scheme in range(3):
            places = [(spread * ((5 * w) % 7 - 3), spread * ((3 * w) % 5 - 2))
                      for w in range(count)]
            made = [make(shapes[(w + spread) % 5], at, geom, w, (scheme + w) % 3
                         if scheme else 0) for w, at in enumerate(places)]
            parts = [(g, at) for (g, _), at in zip(made, places)]
            flows = [f for _, f in made]
            for w, weights in enumerate(WEIGHTS):
                for order in (list(range(count)), list(range(count))[::-1]):
                    ctx.state('large', geom, count, spread, scheme, w, order[0])
                    check_average(ctx, '%d large maps spread by %d geometry %d '
                                  'content %d weights %s from %d' % (
                                      count, spread, geom, scheme, weights, order[0]),
                                  parts, [flows[i] for i in order], weights, geom)
    ctx.sample(maps=count)


def run(ctx, case):
    warnings.simplefilter('ignore')
    shapes, geom = case['shapes'], case['geom']
    if shapes is None:
        return run_large(ctx, case)
    n = len(shapes)
    if n == 0:
        return run_refused(ctx)
    if n == 1:
        offsets = [((0, 0),)]
    elif n == 2:
        near = list(itertools.product(range(-3, 4), repeat=2))
        near += [(50, 0), (0, -40), (-33, 21)]
        offsets = [((0, 0), o) for o in near]
    else:
        reach = case['reach']
        near = list(itertools.product((-reach, 0, reach), repeat=2))
        offsets = [((0, 0), a, b) for a in near for b in near]
    for k, places in enumerate(offsets):
        for scheme in range(3):
            if n == 3 and scheme != k % 3:
                continue
            made = [make(s, at, geom, w, (scheme + w) % 3 if scheme else 0)
                    for w, (s, at) in enumerate(zip(shapes, places))]
            parts = [(g, at) for (g, _), at in zip(made, places)]
            flows = [f for _, f in made]
            for w, weights in enumerate(WEIGHTS):
                orders = list(itertools.permutations(range(n)))
                if n == 3:
                    orders = [orders[k % 6], orders[(k + 3) % 6]]
                for order in orders:
                    ctx.state(shapes, geom, places, scheme, w, order)
                    what = 'shapes %s at %s geometry %d content %d weights %s ' \
                        'order %s' % (shapes, places, geom, scheme, weights,
                                      order)
                    check_average(ctx, what, parts, [flows[i] for i in order],
                                  weights, geom)
            if n == 3 or (n == 2 and max(map(abs, places[1])) > 1):
                continue
            # an empty map at every place among the others
            for e, empty in enumerate(empties(geom)):
                for pos in range(n + 1):
                    fl = flows[:pos] + [empty] + flows[pos:]
                    for excl in (True, False):
                        check_average(
                            ctx, 'shapes %s at %s content %d with empty map %d '
                            'at %d excluded=%s' % (shapes, places, scheme, e,
                                                   pos, excl),
                            parts, fl, WEIGHTS[1], geom, exclude_empty_sets=excl)
    ctx.sample(shapes=shapes, offsets=offsets[-1], geometry=GEOMETRY[geom])
