"""P16: interfaces collected through time."""

import itertools
import os
import warnings

import numpy as np

from checks.common import Grid, Quiet, close, gmx_bytes, simple_bytes, snapshot

PROPERTY = 'P16'
LEVEL = 'model_checking'
TECHNIQUE = ('breadth-first search of the state graph of the real interface '
             'tracker coupled to a ground-truth droplet whose layers appear, '
             'vanish and move on a periodic ring; plus all short series through '
             'the file tool with every recentring mode')
NOTE = ('complete state graphs for boxes of 4 and 5 (quick) or 7 (thorough) bins, '
        'up to 3 (4) layers, edges moving up to one bin per frame, within one '
        'turn around the box; all series of two frames through the files, and '
        'series of up to 40 (quick) or 130 frames of up to 21 (40) layers of '
        'larger boxes in which the edges keep moving by fixed strides')
RULE = ('a case is one box with its alphabet of frames and its complete reachable '
        'state graph, or one block of file series')
ASSUMPTIONS = ['at most one edge of a layer crosses the boundary per frame, and '
               'layers that appear are as close to their neighbour',
               'interfaces have no gaps between their layers',
               'no layer is completely filled']
CHUNK = 1

# columns, layers and frames of long series
LONG = ((9, 3, 40), (40, 7, 15), (64, 21, 11), (13, 5, 130), (211, 40, 12))
# slopes of the left and the right edge, in layers per bin
SHAPES = ((0, 0), (2, -2), (-3, 3), (1, 0), (0, 2), (3, 4))

GEOMETRY = [((0., 0.), (1., 1.)), ((-7.25, 3.), (0.5, 1.)),
            ((100.5, -2.5), (1., 0.25)), ((-0.3, 0.2), (0.1, 0.3)),
            # far from zero, where 32 bit floats hold few decimals
            ((35.1, 20.7), (0.2, 0.3)), ((-1.7, 95.2), (0.4, 0.1))]


def cases(tier):
    quick = tier == 'quick'
    tilts = list(itertools.product((-1, 0, 1), repeat=2))
    pairs = [[(0, 0), t] for t in tilts[:4] + tilts[5:]]
    if quick:
        todo = [(4, 3, pairs[k][1:], w) for k, w in (
            (0, 2), (1, 1), (3, 1), (4, 1), (6, 1), (7, 2))]
        todo += [(5, 2, pairs[k], w) for k, w in (
            (0, 3), (1, 2), (2, 2), (3, 1), (4, 1), (5, 2), (6, 1), (7, 0))]
        todo += [(5, 3, [(0, 0)], 1), (4, 3, [(0, 0)], 2)]
    else:
        todo = [(n, ny, t, w) for n, ny in ((5, 3), (6, 3), (7, 2), (5, 4))
                for t in (pairs if ny < 4 else pairs[::3])
                for w in range(0, n - 1)]
    for k, (n, layers, tset, w) in enumerate(todo):
        yield {'kind': 'graph', 'n': n, 'layers': layers,
               'tilts': [list(t) for t in tset], 'width': w, 'geom': k % 4}
    for g in range(len(GEOMETRY)):
        for w in (1, 2):
            for l in range(5):
                yield {'kind': 'files', 'geom': g, 'l': l, 'w': w,
                       'quick': quick}
    yield {'kind': 'series'}
    for n, ny, length in LONG:
        if not quick or length <= 40:
            for shape in range(len(SHAPES)):
                for a in (-2, -1, 0, 1, 3):
                    yield {'kind': 'long', 'n': n, 'ny': ny, 'length': length,
                           'shape': shape, 'a': a, 'quick': quick}


def layers_of(frame, n):
    """{j: (l, r)} true edges of a frame, or None when not a valid droplet."""
    (lo, hi), (l, r), (tl, tr) = frame
    out = {}
    for j in range(lo, hi + 1):
        a, b = l + tl * (j - lo), r + tr * (j - lo)
        if not 0 <= b - a <= n - 2:
            return None
        out[j] = (a, b)
    return out


def allowed(old, new, n):
    """Each layer within one wrap of the layer it is remembered from."""
    for j, (l2, r2) in new.items():
        k = min(old, key=lambda i: abs(i - j))
        l, r = old[k]
        if abs(l2 // n - l // n) + abs(r2 // n - r // n) > 1:
            return False
        if abs(l2 - l) + abs(r2 - r) >= n:
            return False
    return True


def grid_of(edges, n, ny, geom):
    corner, spacing = GEOMETRY[geom]
    grid = Grid(n, ny, corner, spacing)
    grid.values['M'][:] = 0.125 + 0.0625 * (np.arange(n) % 3)[:, None]
    grid.values['T'][:] = 300.
    for j, (l, r) in edges.items():
        for k in range(l, r + 1):
            grid.values['M'][k % n, j] = 2. + 0.5 * ((k + j) % 3)
    return grid


def want_outline(edges, n, geom, grid, recenter=None):
    corner, spacing = GEOMETRY[geom]
    js = sorted(edges)
    pos = lambda k: corner[0] + spacing[0] * (k + 0.5)
    xs = [pos(edges[j][0]) for j in js] + [pos(edges[j][1]) for j in js[::-1]]
    ys = [spacing[1] * (j - js[0]) for j in js]
    ys = ys + ys[::-1]
    if recenter == 'zero':
        mid = 0.5 * (xs[0] + xs[-1])
    elif recenter == 'com':
        d = grid.data()
        mid = float((d['X'] * d['M']).sum() / d['M'].sum())
    else:
        mid = 0.
    return [x - mid for x in xs], ys


def run(ctx, case):
    warnings.simplefilter('ignore')
    if case['kind'] == 'graph':
        return run_graph(ctx, case)
    if case['kind'] == 'files':
        return run_files(ctx, case)
    if case['kind'] == 'long':
        return run_long(ctx, case)
    return run_series(ctx)


def settings(geom):
    """Search settings under which every bin of the droplet qualifies."""
    return {'cutoff': 1., 'cutoff_bins': 0, 'cutoff_radius': None}


def state_key(info, index):
    return (tuple(tuple(v) if v is not None else None for v in info),
            tuple(round(float(v), 6) for v in index))


def run_graph(ctx, case):
    from strata.interface.collect import get_interface_coordinates
    n, ny, geom = case['n'], case['layers'], case['geom']
    ranges = [(a, b) for a in range(ny) for b in range(a, ny)]
    order = np.arange(n * ny)
    order = np.concatenate([order[1::2], order[::2]])
    flows = {}

    def advance(edges, info, index, recenter=None):
        wrapped = tuple(sorted((j, l % n, (r - l)) for j, (l, r) in
                               edges.items()))
        if wrapped not in flows:
            grid = grid_of(edges, n, ny, geom)
            flows[wrapped] = (grid, grid.flow(order if len(flows) % 2 else None))
        grid, flow = flows[wrapped]
        before = flow.data.copy()
        # the tracker may work in place: give it its own copy
        mine = None if info is None else np.array(list(info) + [None],
                                                  dtype=object)[:-1]
        if mine is not None:
            mine = np.empty(len(info), dtype=object)
            for i, v in enumerate(info):
                mine[i] = v
        out, info, index = get_interface_coordinates(
            flow, 'M', mine, index, recenter, **settings(geom))
        ctx.step()
        ctx.check(np.array_equal(before, flow.data), 'the map changed')
        return grid, out, info, index

    def verify(edges, grid, out, how, recenter=None):
        xs, ys = want_outline(edges, n, geom, grid, recenter)
        return ctx.check(
            close(out['X'], xs, 1e-6, 1e-6) and close(out['Y'], ys, 1e-6, 1e-6),
            lambda: 'box of %d bins, geometry %d, %s: outline x %s y %s, true '
            'outline x %s y %s' % (n, geom, how() if callable(how) else how,
                                   out['X'].tolist(), out['Y'].tolist(), xs, ys))

    w = case['width']
    firsts = []
    for l in range(n):
        for rng in ranges:
            for t in case['tilts']:
                frame = (rng, (l, l + w), tuple(t))
                edges = layers_of(frame, n)
                # every layer starts in the same box
                if edges and all(a // n == 0 for a, _ in edges.values()):
                    firsts.append((frame, edges))
    seen, queue = {}, []
    for frame, edges in firsts:
        grid, out, info, index = advance(edges, None, None)
        if not verify(edges, grid, out, 'first frame %s' % (frame,)):
            return
        key = (frame, state_key(info, index))
        if key not in seen:
            seen[key] = None
            queue.append((frame, edges, info, index, key))
    head = 0
    while head < len(queue):
        frame, edges, info, index, key = queue[head]
        head += 1
        ctx.state(n, ny, geom, key)
        _, (l, r), _ = frame
        for a, b in itertools.product((-1, 0, 1), repeat=2):
            if abs((r + b) - (l + a) - w) > 1:
                continue
            for rng in ranges:
                for t in case['tilts']:
                    new = (rng, (l + a, r + b), tuple(t))
                    edges2 = layers_of(new, n)
                    if edges2 is None or not allowed(edges, edges2, n):
                        continue
                    grid, out, info2, index2 = advance(edges2, info, index)
                    def how():
                        path, k = [new], key
                        while k is not None:
                            path.append(k[0])
                            k = seen[k]
                        return 'history (layers, base edges, tilt) %s' \
                            % path[::-1]
                    if not verify(edges2, grid, out, how):
                        return
                    if abs(l + a) > n or abs(r + b) > 2 * n:
                        continue
                    k2 = (new, state_key(info2, index2))
                    if k2 not in seen:
                        seen[k2] = key
                        queue.append((new, edges2, info2, index2, k2))
    ctx.trace(len(queue))
    ctx.sample(bins=n, layers=ny, states=len(queue), last=queue[-1][0])


def read_outline(raw):
    rows = [[float(v) for v in line.split()]
            for line in raw.decode().split('\n')
            if line.strip() and not line.startswith('#')]
    return np.array(rows).reshape(-1, 2)


def check_files(ctx, what, root, series, n, ny, geom, recenter, kw, fmt='gmx',
                begin=1, ext='.dat'):
    from strata.interface.collect import collect_interfaces
    outdir = os.path.join(root, 'res')
    grids = []
    for i, edges in enumerate(series):
        grid = grid_of(edges, n, ny, geom)
        grids.append(grid)
        with open('%s/m%05d%s' % (root, begin + i, ext), 'wb') as fp:
            fp.write(gmx_bytes(grid) if fmt == 'gmx' else simple_bytes(grid))
    kw = dict(kw)
    if recenter is not None or len(series) % 2:
        kw['recenter'] = recenter
    with Quiet():
        collect_interfaces(root + '/m', outdir + '/i', **kw)
    ctx.step(len(series))
    found = snapshot(outdir)
    outext = kw.get('outext', '.xvg')
    names = ['i%05d%s' % (begin + i, outext) for i in range(len(series))]
    ok = ctx.check(sorted(found) == names, lambda: '%s: wrote %s, not %s' % (
        what, sorted(found), names))
    if ok:
        for i, edges in enumerate(series):
            got = read_outline(found[names[i]])
            xs, ys = want_outline(edges, n, geom, grids[i], recenter)
            ok &= ctx.check(
                got.shape == (len(xs), 2) and close(got[:, 0], xs, 0, 1.1e-3)
                and close(got[:, 1], ys, 0, 1.1e-3), lambda:
                '%s: outline %d is %s, not x %s y %s' % (
                    what, i, got.tolist(), xs, ys))
            head = [l for l in found[names[i]].decode().split('\n')
                    if l.startswith('#')]
            source = '%s/m%05d%s' % (root, begin + i, ext)
            ok &= ctx.check(any(source in l for l in head), lambda:
                            '%s: the header of outline %d does not name its '
                            'input %s: %s' % (what, i, source, head))
    for fn in names:
        if os.path.exists(os.path.join(outdir, fn)):
            os.unlink(os.path.join(outdir, fn))
    for i in range(len(series)):
        os.unlink('%s/m%05d%s' % (root, begin + i, ext))
    if ok:
        ctx.trace()


def run_files(ctx, case):
    """All series of two frames over ranges, tilts and moves."""
    n, ny, geom = 5, 3, case['geom']
    root = ctx.tmpdir()
    ranges = [(a, b) for a in range(ny) for b in range(a, ny)]
    l, w = case['l'], case['w']
    count = 0
    for rng, t in itertools.product(ranges, [(0, 0), (1, 0), (0, -1)]):
        first = layers_of((rng, (l, l + w), t), n)
        if first is None or any(a // n for a, _ in first.values()):
            continue
        for rng2 in ranges:
            for a, b in itertools.product((-1, 0, 1), repeat=2):
                second = layers_of((rng2, (l + a, l + w + b), (0, 0)), n)
                if second is None or not allowed(first, second, n):
                    continue
                count += 1
                if case['quick'] and count % 8:
                    continue
                recenter = (None, 'zero', 'com')[(count // 8) % 3]
                kw = [{'cutoff': 1., 'cutoff_bins': 0},
                      {'cutoff_bins': 0, 'quiet': True},
                      {'cutoff': 1., 'cutoff_radius': 2.5 * max(
                          GEOMETRY[geom][1]), 'cutoff_bins': 0}][count // 24 % 3]
                if 'cutoff_radius' in kw and 2 * kw['cutoff_radius'] >= \
                        n * GEOMETRY[geom][1][0]:
                    kw = {'cutoff': 0.5, 'cutoff_bins': 0}
                ctx.state('files', geom, rng, t, l, w, rng2, a, b, recenter)
                check_files(ctx, 'series %s then %s, geometry %d, recenter %s, '
                            '%s' % (first, second, geom, recenter, kw), root,
                            [first, second], n, ny, geom, recenter, kw)
    ctx.sample(series=[first, second], geometry=GEOMETRY[geom])


def slanted(l, r, lo, hi, shape, n):
    """Edges of layers lo..hi of a droplet standing on (l, r) at layer 0."""
    tl, tr = SHAPES[shape]
    out = {}
    for j in range(lo, hi + 1):
        a = l + (j // tl if tl > 0 else -(j // -tl) if tl else 0)
        b = r + (j // tr if tr > 0 else -(j // -tr) if tr else 0)
        if not 0 <= b - a <= n - 2:
            return None
        out[j] = (a, b)
    return out


def run_long(ctx, case):
    """Series of many frames of larger maps; layers come and go one by one."""
    n, ny, length, shape = [case[k] for k in ('n', 'ny', 'length', 'shape')]
    k = 0
    a = case['a']
    for b in (-2, -1, 0, 1, 3):
        for l, w in ((0, 1), (n // 3, n // 2), (n - 1, 2)):
            k += 1
            if (k + a + shape) % (15 if case['quick'] else 3):
                continue
            r, lo, hi = l + w, 0, 0
            series = []
            while len(series) < length:
                i = len(series)
                for dl, dr, dlo, dhi in (
                        (a, b, 0, 1 if i % 16 < 8 else -1),
                        (a, b, 1 if i % 6 < 3 else -1, 0), (a, b, 0, 0),
                        (a, 0, 0, 1), (0, b, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0),
                        (0, 0, 0, 0)):
                    if i == 0:
                        dl = dr = 0
                    if not 0 <= lo + dlo <= hi + dhi < ny:
                        continue
                    edges = slanted(l + dl, r + dr, lo + dlo, hi + dhi, shape, n)
                    if edges is None:
                        continue
                    if series:
                        if allowed(series[-1], edges, n):
                            break
                    elif all(e // n == 0 for e, _ in edges.values()):
                        break
                else:
                    break
                l, r, lo, hi = l + dl, r + dr, lo + dlo, hi + dhi
                series.append(edges)
            if len(series) < length:
                continue
            geom = (k + a + shape) // (15 if case['quick'] else 3) % len(GEOMETRY)
            recenter = (None, 'zero', 'com')[k % 3]
            fmt = ('gmx', 'simple')[(k // 2 + shape) % 2]
            kw = [{'cutoff': 1., 'cutoff_bins': 0},
                  {'cutoff_bins': 0, 'cutoff': 1., 'quiet': True}][k % 2]
            ctx.state('long', n, ny, length, shape, a, b, l, w)
            check_files(ctx, '%d frames of a droplet in a box of %d x %d bins, '
                        'slopes %s, edges moving by %d and %d, from (%d, %d) to '
                        '(%d, %d), geometry %d, recenter %s, %s' % (
                            length, n, ny, SHAPES[shape], a, b,
                            *series[0][min(series[0])],
                            *series[-1][min(series[-1])], geom, recenter, kw),
                        ctx.tmpdir(), series, n, ny, geom, recenter, kw, fmt)
            ctx.sample(long=series[-1], frames=length)


def run_series(ctx):
    """Longer series, with all options."""
    n, ny = 6, 3
    travel = [(k, k + 2) for k in (3, 4, 5, 6, 7, 8, 9, 10, 11, 12)]
    back = [(k, k + 2) for k in (1, 0, -1, -2, -3, -4, -5, -6)]
    for walk in (travel, back):
        for shape in range(4):
            series = []
            for i, (l, r) in enumerate(walk):
                rng = [(0, 2), (0, i % 3), (i % 3, 2), ((i // 3) % 3,) * 2][shape]
                edges = layers_of((rng, (l, r), (0, 0)), n)
                series.append(edges)
            for geom in range(len(GEOMETRY)):
                for recenter in (None, 'zero', 'com'):
                    for begin, ext, fmt in ((1, '.dat', 'gmx'), (7, '.map', 'gmx'),
                                            (1, '.dat', 'simple')):
                        root = ctx.tmpdir()
                        kw = {'cutoff_bins': 0}
                        if begin != 1:
                            kw.update(begin=begin, end=begin + 20, outext='.out')
                        if ext != '.dat':
                            kw['ext'] = ext
                        ctx.state('series', walk, shape, geom, recenter, fmt)
                        check_files(ctx, 'series %s geometry %d recenter %s %s'
                                    % (series, geom, recenter, kw), root, series,
                                    n, ny, geom, recenter, kw, fmt, begin, ext)
