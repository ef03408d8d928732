"""P18: contact line maps and samples from series of droplet maps."""

import itertools
import math
import os
import warnings

import numpy as np

from checks.common import (FIELDS, Grid, Quiet, close, gmx_bytes, parse_gmx,
                           simple_bytes, snapshot)

PROPERTY = 'P18'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all pairs of droplet frames of a small alphabet '
             '(with frames without a droplet) through the real extraction and '
             'sampling with options cycled, and of the complete product of '
             'options on selected series, against a bin-by-bin model of '
             'aligning, averaging and placing both sides')
NOTE = ('all pairs of frames of the alphabet and full option products on series '
        'of up to 5 frames, and selected series of up to 24 (quick) or 120 '
        'frames on maps of up to 120x35 bins')
RULE = ('a case is one first frame with every second frame, or one series with a '
        'block of the option product')
ASSUMPTIONS = ['every bundle has a frame with a droplet', 'bins without mass have no number, flow '
               'or temperature', 'a position on the border of two bins may be '
               'placed in either', 'some averaged bin of each side reaches the '
               'cut-off when sampled']
CHUNK = 1

GEOMETRY = [((0., 0.), (1., 1.)), ((-3.5, 2.), (0.5, 1.)),
            ((100.5, -7.), (1., 0.25)), ((-0.83, 0.2), (0.1, 0.3)),
            ((-7.375, 0.5), (0.5, 0.5))]
NX, NY = 13, 4
WEIGHT = {'U': 'M', 'V': 'M', 'T': 'N'}

AREAS = [(2., 1.), (0., 0.), (1.25, 9.), (2.5, 2.25), (0.25, 1.25), (4.25, 9.)]
SYNC = [0., 0.25, 1.25, 2.25]


def frames():
    """(base layer, l, r, left slope, right slope), or None without droplet."""
    out = [None]
    for l, r in itertools.product((2, 3), (9, 10)):
        for sl, sr in itertools.product((-1, 0, 1), repeat=2):
            out.append((0, l, r, sl, sr))
    out += [(1, 3, 10, 0, 1), (1, 2, 9, -1, -1), (0, 4, 8, -1, 0)]
    return out


def cases(tier):
    quick = tier == 'quick'
    alphabet = frames()
    for k in range(len(alphabet)):
        for g in range(len(GEOMETRY)):
            if quick and (k + g) % 2:
                continue
            yield {'kind': 'pairs', 'first': k, 'geom': g, 'full': not quick}
    for s in range(len(SERIES)):
        for g in (0, 1, 3) if quick else range(len(GEOMETRY)):
            for area in range(len(AREAS)):
                yield {'kind': 'options', 'series': s, 'geom': g, 'area': area,
                       'full': not quick}
    for nx, ny, n in LONG:
        if not quick or n < 25:
            for kind in range(3):
                for g in range(len(GEOMETRY)):
                    if not quick or (kind + g) % 2:
                        yield {'kind': 'long', 'shape': [nx, ny, n],
                               'series': kind, 'geom': g}


# columns, layers and frames of long series
LONG = ((13, 4, 24), (41, 17, 11), (13, 4, 120), (120, 35, 14))


def long_series(nx, ny, n, kind):
    """A droplet that grows, travels or jitters, not seen in some frames."""
    out = []
    for i in range(n):
        if kind == 0:
            l, r = nx // 2 - 1 - i * (nx // 3) // n, nx // 2 + 1 + i * (nx // 3) // n
        elif kind == 1:
            l = 1 + i * (nx // 2) // n
            r = l + nx // 3
        else:
            l, r = nx // 4 + (i * 7) % 3, nx - nx // 4 - (i * 5) % 3
        slope = ((0, 0), (-1, 1), (1, 0), (0, -1))[i // 3 % 4]
        if i and i % 11 == 5:
            out.append(None)
        else:
            out.append((0,) + (l, r) + (slope if ny < 9 else (0, 0)))
    return out


SERIES = [
    [1, 5, 12, 20, 36], [3, 0, 7, 33, 2], [0, 9, 9, 0, 30], [37, 38, 39, 4, 1],
]


def grid_of(frame, index, geom, style, size=(NX, NY)):
    corner, spacing = GEOMETRY[geom]
    nx, ny = size
    grid = Grid(nx, ny, corner, spacing)
    low = (0.25, 0.)[style % 2]
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    on = np.zeros((nx, ny), dtype=bool)
    if frame is not None:
        base, l, r, sl, sr = frame
        for y in range(base, ny - (style // 2) % 2):
            a, b = l + sl * (y - base), r + sr * (y - base)
            on[max(a, 0):min(b, nx - 1) + 1, y] = True
    k = (3 * i + 5 * j + 7 * index)
    v = grid.values
    v['M'][:] = np.where(on, 2. + 0.25 * (k % 5), low)
    # one value far above the others moves the midpoint cut-off nowhere near
    v['N'][:] = np.where(v['M'] > 0, 1. + (k + i) % 3, 0.)
    v['T'][:] = np.where(v['M'] > 0, 300. + 4. * (k % 7), 0.)
    v['U'][:] = np.where(v['M'] > 0, 0.5 * (k % 9) - 1.75, 0.)
    v['V'][:] = np.where(v['M'] > 0, 0.25 * ((k + j) % 11) - 1.125, 0.)
    return grid, on


def lines_of(on, first_layer=0):
    """Interface outline when every filled bin qualifies."""
    out = []
    for j in range(first_layer, on.shape[1]):
        row = np.nonzero(on[:, j])[0]
        if row.size:
            out.append((j, int(row[0]), int(row[-1])))
    return out


def sides_of(lines, area, sync, nx=NX):
    """For each side (columns lo..hi, layers lo..hi), or None."""
    if not lines:
        return None, None
    width, height = area
    base = lines[0][0]
    used = [l for l in lines if l[0] - base <= height]
    held = [l for l in used if l[0] - base <= sync][-1]
    out = []
    for edge, inner in ((1, held[1] + width), (2, held[2] - width)):
        xs = [l[edge] for l in used] + [inner]
        cols = [i for i in range(nx) if min(xs) <= i <= max(xs)]
        out.append((cols[0], cols[-1], base, used[-1][0]))
    return out


def side_average(grids, boxes, edge):
    """Averaged bins of one side {(column, layer): values}, origin at the inner
    edge of the lowest layer, and the mean edge column."""
    have = [(g, b) for g, b in zip(grids, boxes) if b is not None]
    if not have:
        return None, None
    rel, at = [], []
    for g, (lo, hi, j0, j1) in have:
        ref = hi if edge == 'left' else lo
        at.append(ref)
        rel.append((g, lo, hi, j0, j1, ref))
    cols = range(min(lo - ref for _, lo, _, _, _, ref in rel),
                 max(hi - ref for _, _, hi, _, _, ref in rel) + 1)
    layers = range(0, max(j1 - j0 for _, _, _, j0, j1, _ in rel) + 1)
    out = {}
    for c in cols:
        for j in layers:
            recs = []
            for g, lo, hi, j0, j1, ref in rel:
                if lo <= c + ref <= hi and j + j0 <= j1:
                    recs.append({l: float(g.values[l][c + ref, j + j0])
                                 for l in FIELDS})
                else:
                    recs.append({l: 0. for l in FIELDS})
            n = len(recs)
            rec = {l: sum(r[l] for r in recs) / n for l in ('M', 'N')}
            for l, w in WEIGHT.items():
                total = sum(r[w] for r in recs)
                rec[l] = sum(r[l] * r[w] for r in recs) / total if total else 0.
            out[(c, j)] = rec
    return out, sum(at) / len(at)


def bundles(n, size, rolling):
    if rolling:
        return [list(range(i, i + size)) for i in range(n - size + 1)]
    return [list(range(i, i + size)) for i in range(0, n - size + 1, size)]


def floors(v):
    """The bin(s) holding a position in units of bins; two at a border."""
    return sorted({math.floor(v - 1e-4), math.floor(v + 1e-4)})


def placements(left, right, atl, atr, geom, recenter, fuse):
    """Every admissible map {(column, layer): values}."""
    corner, spacing = GEOMETRY[geom]
    dx = spacing[0]
    pl, pr = [(corner[0] + dx * (a + 0.5)) / dx for a in (atl, atr)]
    if recenter:
        half = 0.5 * (pr - pl)
        pl, pr = -half, half
    out = []
    for cl, cr in itertools.product(floors(pl), floors(pr)):
        if fuse:
            cl = -1 - max(c for c, _ in left)
            cr = -min(c for c, _ in right)
        a = {(c + cl, j): v for (c, j), v in left.items()}
        b = {(c + cr, j): v for (c, j), v in right.items()}
        for key, rec in b.items():
            if key in a:
                rec = merged(a[key], rec)
            a[key] = rec
        out.append(a)
    return out


def merged(a, b):
    """A bin which is in both sides."""
    if not a['M'] or not b['M']:
        return a if a['M'] else b
    out = {l: 0.5 * (a[l] + b[l]) for l in ('M', 'N')}
    for l, w in WEIGHT.items():
        out[l] = (a[l] * a[w] + b[l] * b[w]) / (a[w] + b[w])
    return out


def run(ctx, case):
    warnings.simplefilter('ignore')
    alphabet = frames()
    geom = case['geom']
    if case['kind'] == 'pairs':
        k = case['first']
        for m in range(len(alphabet)):
            n = k * len(alphabet) + m
            todo = [n] if not case['full'] else [n, n + 1, n + 2, n + 3]
            for v in todo:
                opts = {'average': 2 if v % 4 else 1, 'rolling': v % 3 == 0,
                        'recenter': v % 5 in (1, 3), 'fuse': v % 7 == 2,
                        'area': AREAS[v % 6 if v % 2 else (v // 2) % 6],
                        'sync': SYNC[(v // 2) % 4]}
                one_series(ctx, [alphabet[k], alphabet[m]], geom, opts, v)
        ctx.sample(first=alphabet[k], geometry=GEOMETRY[geom])
        return
    if case['kind'] == 'long':
        nx, ny, n = case['shape']
        series = long_series(nx, ny, n, case['series'])
        for v, average in enumerate((1, 4, 10, n // 2, n)):
            v = 5 * case['series'] + 3 * v + geom
            one_series(ctx, series, geom, {
                'average': average, 'rolling': v % 2 == 0 and n < 30,
                'recenter': v % 3 == 1, 'fuse': v % 4 == 3,
                'area': ((2., 1.), (0.3 * nx + 0.2, 9.), (4.25, 0.5 * ny + 0.2))[
                    v % 3], 'sync': (0., 1.25, 0.3 * ny + 0.2)[v // 2 % 3]},
                v, (nx, ny))
        ctx.sample(long=series[:5], geometry=GEOMETRY[geom])
        return
    series = [alphabet[i] for i in SERIES[case['series']]]
    v = 0
    for average, rolling, recenter, fuse, sync in itertools.product(
            (1, 2, 3, 5), (False, True), (False, True), (False, True),
            SYNC[:4] if case['full'] else SYNC[::2]):
        v += 1
        one_series(ctx, series, geom, {
            'average': average, 'rolling': rolling, 'recenter': recenter,
            'fuse': fuse, 'area': AREAS[case['area']], 'sync': sync},
            v + case['series'])
    ctx.sample(series=series, geometry=GEOMETRY[geom])


def one_series(ctx, series, geom, opts, v, shape=(NX, NY)):
    from strata.contact_line_analysis import extract_contact_line_bins
    corner, (dx, dy) = GEOMETRY[geom]
    size, rolling = opts['average'], opts['rolling']
    if geom == 3:
        # bins of this size are not exact: stay away from whole bins
        opts = dict(opts, area=tuple(a + 0.125 for a in opts['area']),
                    sync=opts['sync'] + 0.125)
    floor = None
    first_layer = 0
    if v % 6 == 4:
        floor = corner[1] + 1. * dy
        first_layer = 1
    grids, boxes = [], []
    style = v % 4
    for i, frame in enumerate(series):
        grid, on = grid_of(frame, i, geom, style, shape)
        grids.append(grid)
        boxes.append(sides_of(lines_of(on, first_layer), opts['area'],
                              opts['sync'], shape[0]))
    groups = bundles(len(series), size, rolling)
    sides = []
    for group in groups:
        left, atl = side_average([grids[i] for i in group],
                                 [boxes[i][0] for i in group], 'left')
        right, atr = side_average([grids[i] for i in group],
                                  [boxes[i][1] for i in group], 'right')
        if left is None:
            return
        sides.append((left, right, atl, atr))
    wanted = [placements(*s, geom, opts['recenter'], opts['fuse'])
              for s in sides]

    root = ctx.tmpdir()
    begin = (1, 1, 3)[v % 3]
    ext = '.dat'
    kw = {'cutoff': 1.125, 'cutoff_radius': 1.1 * max(dx, dy),
          'cutoff_bins': v % 2,
          'extract_area': (opts['area'][0] * dx, opts['area'][1] * dy)}
    if v % 6 == 3:
        kw['cutoff_bins'] = 0
        kw.pop('cutoff_radius')
    if style == 1 and None not in series and v % 8 == 1:
        kw.pop('cutoff')            # midway between empty and the fullest bin
    if floor is not None:
        kw['floor'] = floor
    if opts['sync'] or v % 2:
        kw['extract_height'] = opts['sync'] * dy
    if begin != 1:
        kw['begin'] = begin
        if v % 2:
            kw['end'] = begin + len(series) - 1
    if v % 5 == 1:
        kw['ext'] = ext = '.map'
    if size != 1 or v % 2:
        kw['average'] = size
    for o in ('rolling', 'recenter'):
        if opts[o] or v % 2:
            kw[o] = opts[o]
    if v % 2:
        kw['quiet'] = bool(v % 4 == 1)
    for i, grid in enumerate(grids):
        with open('%s/f%05d%s' % (root, begin + i, ext), 'wb') as fp:
            fp.write(gmx_bytes(grid))
    # neither the frame before the first one nor one after a gap belongs to it
    with open('%s/f%05d%s' % (root, begin + len(grids) + 1, ext), 'wb') as fp:
        fp.write(gmx_bytes(grids[-1]))
    before = snapshot(root)
    what = 'series %s, geometry %d, style %d: %s%s' % (
        series, geom, style, kw, ' fuse' if opts['fuse'] else '')
    ctx.state(repr(series), geom, style, repr(sorted(kw.items())), opts['fuse'])

    if all(w is not None for w in wanted):
        more = {'fuse': True} if opts['fuse'] else {}
        with Quiet():
            extract_contact_line_bins(root + '/f', root + '/new/o', **kw, **more)
        ctx.step(len(series))
        check_maps(ctx, what, snapshot(root + '/new'), wanted, (dx, dy), begin,
                   ext)
    check_samples(ctx, what, root, kw, sides, v, size, rolling, groups)
    after = snapshot(root)
    ctx.check(all(after.get(k) == b for k, b in before.items()),
              '%s: an input changed' % what)


def check_maps(ctx, what, found, wanted, spacing, begin, ext):
    dx, dy = spacing
    # maps are numbered from the first frame on, in the order of the bundles
    names = ['o%05d%s' % (begin + i, ext) for i in range(len(wanted))]
    if not ctx.check(sorted(found) == names, lambda: '%s: wrote %s, not %s' % (
            what, sorted(found), names)):
        return
    for name, options in zip(names, wanted):
        grid, keep = parse_gmx(found[name])
        ok = close(grid.spacing, spacing, 0, 1e-6)
        i0, j0 = grid.corner[0] / dx, grid.corner[1] / dy
        ok &= abs(i0 - round(i0)) < 1e-3 and abs(j0 - round(j0)) < 1e-3
        i0, j0 = int(round(i0)), int(round(j0))
        got = {(i0 + int(a), j0 + int(b)):
               {l: float(grid.values[l][a, b]) for l in FIELDS}
               for a, b in zip(*np.nonzero(keep))}
        match = False
        for cells in options:
            ref = {k: v for k, v in cells.items() if v['M'] != 0.}
            box = (min(c for c, _ in cells), max(c for c, _ in cells),
                   min(j for _, j in cells), max(j for _, j in cells))
            match |= (
                set(ref) == set(got)
                and all(abs(got[k][l] - ref[k][l]) <= 2e-5 * max(1, abs(ref[k][l]))
                        for k in ref for l in FIELDS)
                and (i0, i0 + grid.nx - 1, j0, j0 + grid.ny - 1) == box)
        if not ctx.check(ok and match, lambda: (
                '%s: map %s on corner %s shape %s has bins %s, expected %s' % (
                    what, name, grid.corner, (grid.nx, grid.ny),
                    {k: v['M'] for k, v in sorted(got.items())},
                    [{k: v['M'] for k, v in sorted(o.items())}
                     for o in options]))):
            return
    ctx.trace()


LABELS = [['M'], ['U'], ['T', 'U'], ['V', 'M', 'N'], ['U', 'inertial_energy'],
          ['flow_angle', 'U'], ['inertial_energy', 'T', 'V']]


def sampled(side, label, cutoff, mirror, total):
    """Mean or sum of a quantity over bins of an averaged side."""
    recs = [dict(r) for r in side.values()]
    if mirror:
        for r in recs:
            r['U'] = -r['U']
    masses = [r['M'] for r in recs]
    if cutoff is None:
        cutoff = 0.5 * (min(masses) + max(masses))
    if any(abs(m - cutoff) < 1e-6 for m in masses):
        return None
    recs = [r for r in recs if r['M'] >= cutoff]
    if not recs:
        return None
    if label == 'flow_angle':
        mu = sum(r['M'] * r['U'] for r in recs)
        mv = sum(r['M'] * r['V'] for r in recs)
        if abs(mu) + abs(mv) < 1e-6 or (abs(mv) < 1e-6 and mu < 0):
            return None
        return math.degrees(math.atan2(mv, mu))
    if label == 'inertial_energy':
        vals = [0.5 * r['M'] * (r['U'] ** 2 + r['V'] ** 2) for r in recs]
    else:
        vals = [r[label] for r in recs]
    return sum(vals) if total else sum(vals) / len(vals)


def check_samples(ctx, what, root, kw, sides, v, size, rolling, groups):
    from strata.contact_line_analysis import sample_contact_line_edges
    labels = LABELS[v % len(LABELS)]
    total = v % 4 == 2 and 'flow_angle' not in labels
    cutoff = kw.get('cutoff')
    want = []
    for label in labels:
        row = []
        for left, right, _, _ in sides:
            a = sampled(left, label, cutoff, True, total)
            b = sampled(right, label, cutoff, False, total)
            if a is None or b is None:
                return
            row.append(a + b if total else 0.5 * (a + b))
        want.append(row)
    dt = (1., 2.5)[v % 2]
    times = [(size // 2 + (i if rolling else i * size)) * dt
             for i in range(len(groups))]
    more = {}
    if dt != 1. or v % 4 == 0:
        more['dt'] = dt
    if total or v % 2:
        more['sum'] = total
    save = None
    if v % 3:
        more['save'] = save = root + '/s/samples.xvg'
    with Quiet():
        got_t, got = sample_contact_line_edges(root + '/f', labels, **kw, **more)
    ctx.step(len(sides))
    vals = [[s[0] for s in row] for row in got]
    ok = ctx.check(
        close(got_t, times) and len(vals) == len(want)
        and all(close(a, b, 2e-5, 1e-5) for a, b in zip(vals, want)), lambda:
        '%s, labels %s %s: sampled %s at %s, not %s at %s' % (
            what, labels, more, vals, list(got_t), want, times))
    if save and ok:
        with open(save) as fp:
            rows = [[float(c) for c in line.split()] for line in fp
                    if line.strip() and not line.startswith(('#', '@'))]
        ref = [[t] + [col[i] for col in want] for i, t in enumerate(times)]
        ok = ctx.check(
            np.shape(rows) == np.shape(ref)
            and close(rows, ref, 2e-5, 1e-3 if len(ref) else 0), lambda:
            '%s, labels %s %s: wrote %s, not %s' % (
                what, labels, more, rows, ref))
    if ok:
        ctx.trace()
