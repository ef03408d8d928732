"""P21: quantities sampled from series of map files."""

import itertools
import math
import os
import warnings

import numpy as np

from checks.common import (ALL, FIELDS, Grid, Quiet, close, gmx_bytes,
                           plain_bytes, simple_bytes, snapshot)
from checks.p19 import definition, poly

PROPERTY = 'P21'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all ordered lists of up to three quantities (with '
             'repetitions) through the real sampling of file series, with cut-off '
             'settings, limits, formats and options cycled, and of the complete '
             'product of settings for every single quantity, against bin-by-bin '
             'definitions; all linear profiles of an alphabet for slip lengths')
NOTE = ('all label lists up to length 3 over 9 quantities; full products of '
        'settings for single quantities; series of up to 3 frames, '
        'and selected settings for series of up to 12 (quick) or 120 frames')
RULE = ('a case is one first label with every continuation, one label with the '
        'product of settings, or one shape of slip length profiles')
ASSUMPTIONS = ['at least one bin passes limits and cut-off', 'no value is within '
               'rounding of the cut-off', 'at least 3 bins along each axis within '
               'the limits where dissipation is sampled', 'every column has '
               'non-constant velocity where a slip length is sampled']
CHUNK = 1

GEOMETRY = [((0., 0.), (1., 1.)), ((-3.5, 2.), (0.5, 1.)),
            ((-1., -0.75), (1., 0.25))]
NX, NY = 5, 4
LABELS = ['M', 'U', 'T', 'V', 'N', 'inertial_energy', 'visc_diss', 'flow_angle',
          'slip_length']
CUTOFF = [(None, None), ('M', None), ('M', 1.75), ('T', 304.), ('N', None),
          (None, 2.), ('U', None), ('U', 0.), ('M', 0.),
          ('M', 100.)]
# limits in bins from the low corner, along x and y
LIMITS = [(None, None), ((1., None), None), (None, (None, 3.)),
          ((0.5, 4.25), (1., 4.)), ((None, None), (0.25, None)),
          ((1., 4.), (None, None))]


def cases(tier):
    quick = tier == 'quick'
    for first in LABELS:
        for k in range(1 if quick else 6):
            yield {'kind': 'lists', 'first': first, 'offset': k}
    for label in LABELS:
        for g in range(len(GEOMETRY)):
            yield {'kind': 'single', 'label': label, 'geom': g,
                   'full': not quick}
    for size in ((5, 4, 12), (13, 9, 11)) + (() if quick else (
            (5, 4, 120), (31, 17, 12))):
        for label in LABELS:
            yield {'kind': 'long', 'label': label, 'shape': list(size)}
    for nx in (1, 2, 3):
        for ny in (2, 3, 4):
            yield {'kind': 'slip', 'shape': [nx, ny]}


def frame(index, geom, style, size=(NX, NY)):
    """Map with linear U and quadratic V; other fields tell bins apart."""
    corner, spacing = GEOMETRY[geom]
    nx, ny = size
    grid = Grid(nx, ny, corner, spacing)
    xs, ys = np.meshgrid(grid.x, grid.y, indexing='ij')
    k = np.arange(nx * ny).reshape(nx, ny)
    a = (2., -1., 0.5)[index % 3]
    grid.u = {(0, 0): 0.75 + index, (0, 1): a, (1, 0): 0.5 * (index % 5 - 1)}
    grid.v = {(2, 0): 0.25, (1, 1): -0.5, (0, 0): 0.125 * index, (0, 1): 1.}
    v = grid.values
    v['U'], v['V'] = poly(grid.u, xs, ys), poly(grid.v, xs, ys)
    low = 0. if style == 'simple' else 0.5
    v['M'][:] = np.where((k + index) % 4 == 0, low, 1. + (3 * k + index) % 5 * .5)
    v['N'][:] = 1. + (5 * k + 2 * index) % 7
    v['T'][:] = 300. + (2 * k + 3 * index) % 9
    grid.mu = None
    return grid


def chosen(grid, lims):
    """Mask of bins inside the limits."""
    mask = np.ones((grid.nx, grid.ny), dtype=bool)
    for axis, lim, pos in ((0, lims[0], grid.x), (1, lims[1], grid.y)):
        if lim is None:
            continue
        lo, hi = [None if v is None else
                  grid.corner[axis] + v * grid.spacing[axis] for v in lim]
        keep = np.array([(lo is None or p >= lo) and (hi is None or p <= hi)
                         for p in pos])
        mask &= keep[:, None] if axis == 0 else keep[None, :]
    return mask


def oracle(grid, label, lims, cutoff, total, mu, floor):
    """(value, spread or None), or None outside of the domain."""
    mask = chosen(grid, lims)
    v = grid.values
    if label == 'slip_length':
        # where the line through each column vanishes
        out = []
        for i in range(grid.nx):
            if mask[i].any():
                y = grid.y[mask[i]]
                u = v['U'][i][mask[i]]
                if len(u) < 2 or abs(u[1] - u[0]) < 1e-9:
                    return None
                slope = (u[1] - u[0]) / (y[1] - y[0])
                out.append(floor - (y[0] - u[0] / slope))
        return np.mean(out), np.std(out)
    xs, ys = np.meshgrid(grid.x, grid.y, indexing='ij')
    clabel, cvalue = cutoff
    sel = mask.copy()
    if clabel is not None:
        if cvalue is None:
            cvalue = 0.5 * (v[clabel][mask].min() + v[clabel][mask].max())
            if (np.abs(v[clabel][mask] - cvalue) < 1e-6).any() and \
                    clabel == 'U':
                return None
        sel &= v[clabel] >= cvalue
    if not sel.any():
        return None
    if label == 'flow_angle':
        if total:
            return None
        mx, my = (v['U'] * v['M'])[sel].sum(), (v['V'] * v['M'])[sel].sum()
        if abs(mx) + abs(my) < 1e-6 or (abs(my) < 1e-6 and mx < 0):
            return None
        return math.degrees(math.atan2(my, mx)), None
    if label == 'inertial_energy':
        vals = 0.5 * v['M'] * (v['U'] ** 2 + v['V'] ** 2)
    elif label == 'visc_diss':
        if mask.any(axis=1).sum() < 3 or mask.any(axis=0).sum() < 3:
            return None
        vals = definition(mu, *[poly(p, xs, ys, **d) for p in (grid.u, grid.v)
                                for d in ({'dx': 1}, {'dy': 1})])
    else:
        vals = v[label]
    vals = vals[sel]
    return (vals.sum(), None) if total else (vals.mean(), vals.std())


def encode(grid, style):
    return {'gmx': gmx_bytes, 'simple': simple_bytes,
            'plain': plain_bytes}[style](grid)


def write_series(root, n, geom, style, begin, ext, size=(NX, NY)):
    grids = []
    for i in range(n):
        grid = frame(i, geom, style, size)
        grids.append(grid)
        with open('%s/m%05d%s' % (root, begin + i, ext), 'wb') as fp:
            fp.write(encode(grid, style))
    # a frame after a gap does not belong to the series
    with open('%s/m%05d%s' % (root, begin + n + 1, ext), 'wb') as fp:
        fp.write(encode(frame(7, geom, style, size), style))
    return grids


def one(ctx, root, labels, grids, geom, style, begin, ext, cutoff, lims, v,
        total, tag):
    from strata.sample_average import sample_average_files
    mu, floor = ((8.77e-4, 0.), (2., -1.5))[v % 2]
    want = []
    for label in labels:
        col = [oracle(g, label, lims, cutoff, total, mu, floor) for g in grids]
        if None in col:
            return False
        want.append(col)
    corner, spacing = GEOMETRY[geom]
    kw = {}
    for name, axis in (('xlim', 0), ('ylim', 1)):
        if lims[axis] is not None:
            kw[name] = tuple(None if u is None else
                             corner[axis] + u * spacing[axis]
                             for u in lims[axis])
    if cutoff[0] is not None or v % 2:
        kw['cutoff_label'] = cutoff[0]
    if cutoff[1] is not None or v % 2:
        kw['cutoff'] = cutoff[1]
    if v % 2:
        kw.update(viscosity=mu, slip_floor=floor)
    if total or v % 3 == 0:
        kw['sum'] = total
    dt = (1., 2.5, 0.125)[v % 3]
    if dt != 1.:
        kw['dt'] = dt
    if begin != 1:
        kw['begin'] = begin
    if begin != 1 and v % 2:
        kw['end'] = begin + len(grids) - 1
    if ext != '.dat':
        kw['ext'] = ext
    if v % 4:
        kw['quiet'] = bool(v % 4 == 1)
    if v % 5:
        kw['verbose'] = bool(v % 5 == 1)
    out = None
    if v % 4 != 2:
        kw['output'] = out = '%s/out/%s.xvg' % (root, tag)
    ctx.state(tuple(labels), geom, style, cutoff, lims, total, len(grids), begin)
    what = lambda: 'labels %s of %d frames (%s), geometry %d: %s' % (
        labels, len(grids), style, geom, kw)
    passed = list(labels) if v % 3 else tuple(labels)
    with Quiet() as q:
        got = sample_average_files(root + '/m', passed, **kw)
    ctx.step(len(grids))
    times = [i * dt for i in range(len(grids))]
    vals = [[c[0] for c in col] for col in want]
    if not ctx.check(got is not None and len(got) == 2, lambda:
                     '%s: returned %r, printed %s' % (what(), got, q.out[-300:])):
        return True
    ok = ctx.check(
        close(got[0], times) and len(got[1]) == len(vals)
        and all(close(a, b, 2e-5, 1e-7) for a, b in zip(got[1], vals)), lambda:
        '%s: sampled %s at %s, not %s at %s' % (what(), got[1], got[0], vals,
                                                times))
    if 'verbose' in kw and ok:
        said = [line.split() for line in q.out.split('\n')]
        said = [w for w in said if len(w) in (2, 3) and w[0] in labels
                and all(number(c) is not None for c in w[1:])]
        ref = [[np.mean(x), np.std(x)] for x in vals] if kw['verbose'] else []
        ok = ctx.check(
            [w[0] for w in said] == (list(labels) if kw['verbose'] else [])
            and all(close([number(c) for c in w[1:]], r[:len(w) - 1], 2e-5,
                          2e-5 * (1e-7 + max(abs(u) for u in x)))
                    for w, r, x in zip(said, ref, vals)), lambda:
            '%s: printed %r, not the means and deviations %s' % (
                what(), q.out[-300:], ref))
    if out and ok:
        ref = []
        for i, t in enumerate(times):
            row = [t]
            for col in want:
                row.append(col[i][0])
                if col[i][1] is not None:
                    row.append(col[i][1])
            ref.append(row)
        rows = []
        if ctx.check(os.path.exists(out), lambda: '%s: no output' % what()):
            with open(out) as fp:
                rows = [[float(c) for c in line.split()] for line in fp
                        if line.strip() and not line.startswith('#')]
            os.unlink(out)
        ok = ctx.check(
            [len(r) for r in rows] == [len(r) for r in ref] and all(
                abs(a - b) <= 2e-5 * abs(b) + (1e-3 if not c else 1e-6)
                for r, s in zip(rows, ref)
                for c, (a, b) in enumerate(zip(r, s))), lambda:
            '%s: wrote %s, not %s' % (what(), rows, ref))
    if ok:
        ctx.trace()
    return True


def number(text):
    try:
        return float(text)
    except ValueError:
        return None


def run(ctx, case):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    {'lists': run_lists, 'long': run_long, 'single': run_single, 'slip': run_slip}[case['kind']](
        ctx, case)


def run_lists(ctx, case):
    """Every list of up to three labels which starts with the given one."""
    series = {}
    v = case['offset']
    lists = [[case['first']] + list(rest) for n in (0, 1, 2)
             for rest in itertools.product(LABELS, repeat=n)]
    lists += [LABELS, LABELS[::-1]]
    for labels in lists:
        v += 1
        geom = v % len(GEOMETRY)
        style = ('gmx', 'simple', 'plain')[v // 2 % 3]
        begin, ext = ((1, '.dat'), (1, '.map'), (4, '.dat'))[v // 3 % 3]
        n = (3, 1, 2)[v // 5 % 3]
        key = (geom, style, begin, ext, n)
        if key not in series:
            root = ctx.tmpdir()
            series[key] = (root, write_series(root, n, geom, style, begin, ext),
                           snapshot(root))
        root, grids, _ = series[key]
        total = v % 4 == 3 and 'flow_angle' not in labels
        done = False
        for shift in range(6):
            cutoff = CUTOFF[(v // 2 + shift) % (len(CUTOFF) - 1)]
            lims = LIMITS[(v // 3 + shift) % len(LIMITS)]
            if one(ctx, root, labels, grids, geom, style, begin, ext, cutoff,
                   lims, v, total, 's%d' % v):
                done = True
                break
        if not done:
            one(ctx, root, labels, grids, geom, style, begin, ext, (None, None),
                (None, None), v, total, 's%d' % v)
    for root, _, before in series.values():
        after = snapshot(root)
        ctx.check(all(after.get(k) == b for k, b in before.items()),
                  'an input file changed')
    ctx.sample(lists=len(lists), last=labels)


def run_single(ctx, case):
    """All settings of one quantity."""
    geom = case['geom']
    v = 0
    for style in ('gmx', 'simple') + (('plain',) if case['full'] else ()):
        root = ctx.tmpdir()
        grids = write_series(root, 2, geom, style, 1, '.dat')
        for cutoff, lims, total in itertools.product(CUTOFF, LIMITS,
                                                     (False, True)):
            v += 1
            one(ctx, root, [case['label']], grids, geom, style, 1, '.dat',
                cutoff, lims, v, total, 's%d' % v)
    ctx.sample(label=case['label'], geometry=GEOMETRY[geom], settings=v)


def run_long(ctx, case):
    """Series of many frames, and larger maps."""
    nx, ny, n = case['shape']
    v = LABELS.index(case['label'])
    for geom in range(len(GEOMETRY)):
        style = ('gmx', 'simple', 'plain')[(v + geom) % 3]
        begin = (1, 4, 95)[v % 3]
        root = ctx.tmpdir()
        grids = write_series(root, n, geom, style, begin, '.dat', (nx, ny))
        for k in range(12):
            v += 1
            cutoff = CUTOFF[v % (len(CUTOFF) - 1)]
            lims = LIMITS[v // 2 % len(LIMITS)]
            total = v % 4 == 3
            for labels in ([case['label']], [case['label'], LABELS[k % 6]]):
                if 'flow_angle' in labels:
                    total = False
                one(ctx, root, labels, grids, geom, style, begin, '.dat', cutoff,
                    lims, v, total, 's%d' % v)
    ctx.sample(label=case['label'], frames=n)


def run_slip(ctx, case):
    """Linear profiles in every column, directly on flow objects."""
    from strata.sample_average import sample_slip_length
    nx, ny = case['shape']
    slopes = (2., -0.5, 1.)
    zeros = (-1.5, 0.25, 4.)
    for corner, spacing in GEOMETRY:
        for sl in itertools.product(slopes, repeat=nx):
            for zs in itertools.product(zeros, repeat=nx):
                for floor in (0., 1., -2.75):
                    grid = Grid(nx, ny, corner, spacing)
                    grid.values['U'] = np.array(
                        [[a * (y - z) for y in grid.y]
                         for a, z in zip(sl, zs)])
                    grid.values['V'][:] = 3.
                    grid.values['M'][:] = 1. + np.arange(ny)
                    flow = grid.flow()
                    before = flow.data.copy()
                    kw = {'floor': floor} if floor else {}
                    got = sample_slip_length(flow, **kw)
                    ctx.step()
                    ctx.state('slip', corner, spacing, sl, zs, floor, ny)
                    ref = [floor - z for z in zs]
                    ok = ctx.check(
                        len(got) == 2 and close(got[0], np.mean(ref), 1e-6, 1e-6)
                        and close(got[1], np.std(ref), 1e-6, 1e-6), lambda:
                        'slopes %s zeros %s floor %s on %s: %s, not mean and '
                        'spread of %s' % (sl, zs, floor, (nx, ny, corner,
                                                          spacing), got, ref))
                    ok &= ctx.check(np.array_equal(before, flow.data),
                                    'the map changed')
                    if ok:
                        ctx.trace()
