"""P20: sampling per angle around a point."""

import itertools
import math
import warnings

import numpy as np

PROPERTY = 'P20'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all sets of up to three bins of a lattice around '
             'the origin x sector sizes x angle limits x radius limits x weights '
             'x storage order, sector membership decided by exact directions')
NOTE = ('all single bins of the 7 x 7 lattice and all pairs and triples of the '
        'directions around one origin, with every combination of settings for '
        'single bins and whole lattices; selected settings for whole maps of up '
        'to 31x40 (quick) or 90x60 bins')
RULE = ('a case is one origin with one sector size; every set of bins is sampled '
        'with the limits and weights of the case')
ASSUMPTIONS = ['bins lie on a sector border exactly or not within 1e-4 degrees',
               'no bin lies on the point itself', 'weights are not negative']
CHUNK = 1

ORIGINS = [(0., 0.), (2., -1.), (-3.5, 4.25), (100.5, -50.)]
SIZES = [1., 90., 45., 360., 30., 7., 100., 0.5, 22.5, 180., 15., 5.]
# lower and upper angle; None leaves the default
LIMITS = [(None, None), (45., None), (None, 135.), (90., 135.), (45., 100.),
          (0., 360.), (-10., 400.), (180., 270.), (30., 350.), (225., 315.)]
RADII = [(None, None), (None, 2.), (2., None), (1.25, 2.5), (1., 3.)]
SPACING = [(1., 1.), (0.5, 1.), (1., 0.25)]


def cases(tier):
    quick = tier == 'quick'
    for o in range(len(ORIGINS)):
        for s in range(len(SIZES)):
            yield {'kind': 'grid', 'origin': o, 'size': s, 'full': not quick}
    for s in range(len(SIZES)):
        yield {'kind': 'sets', 'size': s, 'full': not quick}
        for o in range(len(ORIGINS)):
            yield {'kind': 'large', 'origin': o, 'size': s, 'full': not quick}


def exact_angle(dx, dy):
    """Direction in degrees, exact on the axes and diagonals."""
    if dy == 0:
        return 0. if dx > 0 else 180.
    if dx == 0:
        return 90. if dy > 0 else 270.
    if abs(dx) == abs(dy):
        return {(1, 1): 45., (-1, 1): 135., (-1, -1): 225.,
                (1, -1): 315.}[(int(math.copysign(1, dx)),
                                int(math.copysign(1, dy)))]
    return math.degrees(math.atan2(dy, dx)) % 360.


def near_border(angle, size, amin):
    """Within rounding of a border without being on it exactly."""
    k = (angle - amin) / size
    gap = abs(k - round(k)) * size
    return 0 < gap < 1e-4


def expected(bins, size, lim, rad, weighted, starts):
    """{sector index: value} from bins (dx, dy, value, weight)."""
    amin = max(0., lim[0] if lim[0] is not None else 0.)
    amax = lim[1] if lim[1] is not None else 360.
    rmin = rad[0] if rad[0] is not None else 0.
    rmax = rad[1] if rad[1] is not None else float('inf')
    acc = {}
    for dx, dy, val, w in bins:
        r = math.hypot(dx, dy)
        if r == 0 or not rmin <= r <= rmax:
            continue
        a = exact_angle(dx, dy)
        if not amin <= a <= amax:
            continue
        k = int(math.floor((a - amin) / size + 1e-9))
        acc.setdefault(k, []).append((val, w if weighted else 1.))
    out = {}
    for k, pairs in acc.items():
        total = sum(w for _, w in pairs)
        out[k] = sum(v * w for v, w in pairs) / total if total > 0 else 0.
    return out


def rounding(bins, size, lim, rad):
    """A limit or border within rounding of a bin."""
    amin = max(0., lim[0] if lim[0] is not None else 0.)
    for dx, dy, _, _ in bins:
        r = math.hypot(dx, dy)
        if r == 0:
            return True
        if any(v is not None and 0 < abs(r - v) < 1e-6 for v in rad):
            return True
        if near_border(exact_angle(dx, dy), size, amin):
            return True
    return False


def check(ctx, bins, origin, size, lim, rad, weighted, order, kw_all, names):
    from droplets.flow import FlowData
    from droplets.sample import sample_per_angle_from
    if rounding(bins, size, lim, rad):
        return
    bins_in = [bins[i] for i in order]
    cols = list(np.array([(origin[0] + dx, origin[1] + dy, v, w)
                          for dx, dy, v, w in bins_in]).reshape(-1, 4).T)
    flow = FlowData(*zip(names, cols))
    saved = flow.data.copy()
    kw = {}
    for l, v in (('amin', lim[0]), ('amax', lim[1]), ('rmin', rad[0]),
                 ('rmax', rad[1])):
        if v is not None:
            kw[l] = v
    if size != 1. or kw_all:
        kw['size'] = size
    if weighted:
        kw['weight'] = names[3]
    if names[:2] != ('X', 'Y'):
        kw['coord_labels'] = names[:2]
    got = sample_per_angle_from(flow, origin, names[2], **kw)
    ctx.step()
    what = lambda: 'bins (dx, dy, value, weight) %s around %s, %s' % (
        bins_in, origin, kw)
    amin = max(0., lim[0] if lim[0] is not None else 0.)
    amax = min(lim[1] if lim[1] is not None else 360., 360.)
    starts = np.asarray(got['angle'], dtype=float)
    n = starts.size
    ok = ctx.check(n > 0 and np.allclose(starts, amin + size * np.arange(n),
                                         atol=1e-6), lambda:
                   '%s: sectors at %s' % (what(), starts.tolist()))
    if not ok:
        return
    # the sectors cover the range asked for and do not leave it
    last = starts[-1]
    ok &= ctx.check(
        last < 360. - 1e-6 and last < amax + size - 1e-6
        and (last + size > amax + 1e-6 or last + size >= 360. - 1e-6), lambda:
        '%s: the last sector of %d starts at %s' % (what(), n, last))
    want = expected(bins, size, lim, rad, weighted, starts)
    ref = np.zeros(n)
    for k, v in want.items():
        if not ctx.check(k < n, lambda: '%s: no sector %d' % (what(), k)):
            return
        ref[k] = v
    vals = np.asarray(got[names[2]], dtype=float)
    ok &= ctx.check(vals.shape == (n,) and np.allclose(vals, ref, atol=1e-9),
                    lambda: '%s: values %s, not %s' % (
                        what(), {k: v for k, v in enumerate(vals) if v or
                                 k in want}, want))
    ok &= ctx.check(np.array_equal(saved, flow.data), lambda:
                    '%s: the map changed' % what())
    if ok:
        ctx.trace()


def run(ctx, case):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    size = SIZES[case['size']]
    if case['kind'] == 'grid':
        run_grid(ctx, case, size)
    elif case['kind'] == 'large':
        run_large(ctx, case, size)
    else:
        run_sets(ctx, case, size)


def run_grid(ctx, case, size):
    """Every single bin of a lattice and the whole lattice, all settings."""
    origin = ORIGINS[case['origin']]
    k = 0
    for (sx, sy), half in itertools.product(SPACING, (0., 0.5)):
        cells = []
        for i, j in itertools.product(range(-3, 4), repeat=2):
            dx, dy = (i + half) * sx, (j + half) * sy
            if dx or dy:
                n = len(cells)
                cells.append((dx, dy, 1. + (n * 7) % 11, float(n % 4)))
        for lim, rad in itertools.product(LIMITS, RADII):
            for weighted in (False, True):
                k += 1
                names = (('X', 'Y', 'C', 'W'), ('a', 'b', 'c', 'd'))[k % 2]
                order = list(range(len(cells)))
                if k % 3 == 1:
                    order = order[::-1]
                elif k % 3 == 2:
                    order = order[1::2] + order[::2]
                ctx.state('grid', origin, size, sx, sy, half, lim, rad, weighted)
                good = [c for c in cells if not rounding([c], size, lim, rad)]
                order = [o for o in order if o < len(good)]
                check(ctx, good, origin, size, lim, rad, weighted, order,
                      k % 2, names)
            if not case['full'] and (rad != RADII[0] or half):
                continue
            for c in cells:
                ctx.state('bin', origin, size, c, lim, rad)
                check(ctx, [c], origin, size, lim, rad, k % 2 == 0, [0], True,
                      ('X', 'Y', 'C', 'W'))
    ctx.sample(origin=origin, size=size, limits=lim, radii=rad)


def run_large(ctx, case, size):
    """Whole maps of many bins, and far from the origin."""
    origin = ORIGINS[case['origin']]
    k = case['origin'] + case['size']
    for (nx, ny), (ax, ay) in itertools.product(
            ((40, 1), (1, 40), (17, 13), (31, 40)) + (
                ((90, 60),) if case['full'] else ()),
            ((0.5, 0.), (0.25, 0.75), (-1., 0.5), (0., 0.))):
        k += 1
        sx, sy = SPACING[k % 3]
        cells = []
        for i, j in itertools.product(range(nx), range(ny)):
            dx = (i - int(ax * nx)) * sx + 0.25 * (k % 2)
            dy = (j - int(ay * ny)) * sy
            n = len(cells)
            cells.append((dx, dy, 1. + (n * 7) % 11, float(n * 5 % 4)))
        for a, lim in enumerate(LIMITS):
            rad = RADII[(a + k) % len(RADII)]
            if rad != (None, None):
                rad = tuple(None if v is None else v * max(nx * sx, ny * sy) / 5
                            for v in rad)
            good = [c for c in cells if not rounding([c], size, lim, rad)]
            n = len(good)
            order = [list(range(n)), list(range(n))[::-1],
                     list(range(n))[n // 2:] + list(range(n))[:n // 2],
                     list(range(n))[1::2] + list(range(n))[::2]][(a + k) % 4]
            ctx.state('large', origin, size, nx, ny, ax, ay, lim)
            check(ctx, good, origin, size, lim, rad, (a + k) % 3 > 0, order,
                  k % 2, (('X', 'Y', 'C', 'W'), ('a', 'b', 'c', 'd'))[a % 2])
    ctx.sample(shape=[nx, ny], origin=origin, size=size)


def run_sets(ctx, case, size):
    """All pairs and triples of directions, all weights."""
    ring = [(1., 0.), (1., 1.), (0.5, 1.), (0., 1.), (-1., 1.), (-1., 0.),
            (-2., -1.), (-1., -1.), (0., -2.), (1., -1.), (2., -0.25)]
    k = 0
    for count in (0, 1, 2, 3):
        for dirs in itertools.combinations_with_replacement(ring, count):
            for ws in itertools.product((0., 1., 3.), repeat=count):
                k += 1
                if not case['full'] and count == 3 and k % 5:
                    continue
                bins = [(dx * (1 + b), dy * (1 + b), 2. + 3 * b, w)
                        for b, ((dx, dy), w) in enumerate(zip(dirs, ws))]
                lim = LIMITS[k % len(LIMITS)] if k % 2 else LIMITS[0]
                ctx.state('set', size, dirs, ws)
                check(ctx, bins, ORIGINS[k % 4], size, lim, RADII[0],
                      k % 3 != 0, list(range(count))[::(-1) ** k], False,
                      ('X', 'Y', 'C', 'W'))
