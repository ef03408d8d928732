"""P15: spreading collected from series of maps."""

import itertools
import os
import re
import warnings

import numpy as np

from checks.common import Grid, Quiet, close, gmx_bytes, plain_bytes, snapshot

PROPERTY = 'P15'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all droplet histories (edge moves with periodic '
             'wrapping, frames without contact) up to a length, written as map '
             'files and collected by the real code, against the true unwrapped '
             'edges; all sequences of collections in one process')
NOTE = ('all histories of 3 frames (quick) or 4 frames (thorough) on small boxes '
        'with option settings cycled so that every setting meets every frame '
        'type, plus all settings on selected histories, all sequences of up to '
        'three collections, and series of up to 40 (quick) or 140 frames of boxes '
        'of up to 210 x 40 bins in which the edges keep moving by fixed strides')
RULE = ('a case is one first frame and one box with every continuation, or one '
        'sequence of collections')
ASSUMPTIONS = ['at most one edge crosses the boundary from one frame to the next',
               'the floor lies below the highest layer', 'the droplet never fills a whole layer']
CHUNK = 1

# columns, layers, frames of long series, and strides of the edges
LONG = ((6, 3, 12), (9, 3, 40), (40, 3, 25), (64, 17, 12), (11, 3, 140),
        (210, 40, 30))
STRIDES = (-3, -1, 0, 1, 2)

# corner, spacing
GEOMETRY = [((0., 0.), (0.5, 0.5)), ((-7.25, -1.), (0.5, 1.)),
            ((100.5, -2.5), (1., 0.25)), ((0.25, 3.), (0.5, 2.25))]
NY = 3


def states(n):
    return [(l, w) for l in range(n) for w in range(min(n - 1, 4))]


def moves(n, l, r, far):
    out = []
    for a, b in itertools.product(range(-far, far + 1), repeat=2):
        l2, r2 = l + a, r + b
        if not 0 <= r2 - l2 <= n - 2 or abs(a) + abs(b) >= n:
            continue
        if abs(l2 // n - l // n) + abs(r2 // n - r // n) <= 1:
            out.append((l2, r2))
    return out


def cases(tier):
    quick = tier == 'quick'
    for n, length, far in ((4, 3, 2), (6, 2, 3)) if quick else \
            ((4, 4, 2), (5, 3, 2), (7, 3, 3)):
        for g in range(len(GEOMETRY)):
            if not quick and length == 4 and g:
                continue
            for first in [None] + states(n):
                yield {'kind': 'hist', 'n': n, 'length': length, 'far': far,
                       'geom': g, 'first': first}
    for g in range(len(GEOMETRY)):
        yield {'kind': 'options', 'geom': g}
    for seq in itertools.product(range(4), repeat=2):
        yield {'kind': 'runs', 'seq': list(seq)}
    for seq in itertools.product(range(4), repeat=3):
        yield {'kind': 'runs', 'seq': list(seq)}
    for n, ny, length in LONG:
        if not quick or length <= 40:
            for a in STRIDES:
                yield {'kind': 'long', 'n': n, 'ny': ny, 'length': length,
                       'a': a, 'quick': quick}


def histories(n, length, far, first):
    """Frames: None (no contact) or true edges (l, r), unwrapped."""
    def extend(path, last):
        if len(path) == length:
            yield path
            return
        if last is None:
            nexts = [(l, l + w) for l, w in states(n)]
        else:
            nexts = moves(n, last[0], last[1], far)
        for s in nexts:
            yield from extend(path + [s], s)
        if len([p for p in path if p is None]) < 2:
            yield from extend(path + [None], last)
    start = None if first is None else (first[0], first[0] + first[1])
    yield from extend([start], start)


def frame_grid(n, geom, edges, floor_layer, style, ny=NY):
    """Map whose floor layer is wet between the edges."""
    corner, spacing = GEOMETRY[geom]
    grid = Grid(n, ny, corner, spacing)
    grid.values['M'][:] = 0.25
    grid.values['T'][:] = 300.
    grid.values['N'][:] = 1.
    if edges is None:
        # away from the floor layer, or nowhere
        if floor_layer is not None and style % 2:
            for j in range(ny):
                if j != floor_layer:
                    grid.values['M'][0:2, j] = 2.
        elif style % 3 == 0:
            grid.values['M'][:] = 0.
        return grid
    l, r = edges
    base = floor_layer if floor_layer is not None else style % 2
    for j in range(ny):
        if j < base and (floor_layer is None or style % 2):
            continue
        lo, hi = l, r
        if j != base and style % 3 == 1 and r - l <= n - 3:
            hi += 1
        if j < base:
            lo, hi = l - (r - l <= n - 3), r
        for k in range(lo, hi + 1):
            grid.values['M'][k % n, j] = 1.5 + 0.5 * ((k + j) % 2)
    return grid


SETTINGS = [
    {}, {'dt': 2.5}, {'dt': 0.25, 't0': 10.}, {'t0': -3.}, {'cutoff': 1.},
    {'quiet': True}, {'cutoff': 1.25, 'cutoff_radius': 1.2, 'dt': 20.},
    {'cutoff_bins': 0, 'quiet': True, 't0': 5.},
    {'cutoff_bins': 1, 'cutoff_radius': 1.}, {'dt': 54321.123, 't0': 0.375},
]


def expected(frames, n, geom, dt, t0):
    """[(time, radius, left, right)] and index of the impact."""
    corner, spacing = GEOMETRY[geom]
    rows, impact, base = [], None, None
    for i, e in enumerate(frames):
        if e is None:
            continue
        if impact is None:
            impact = i
            # absolute positions count from the box in which the left edge is
            base = (e[0] // n) * n
        left, right = [corner[0] + spacing[0] * (k - base + 0.5) for k in e]
        rows.append((t0 + dt * (i - impact), 0.5 * (right - left), left, right))
    return rows, impact


def parse_saved(text):
    lines = text.split('\n')
    rows = [tuple(float(v) for v in line.split()) for line in lines
            if line.strip() and not line.startswith('#')]
    first = [i for i, line in enumerate(lines)
             if line.strip() and not line.startswith('#')]
    head = lines[:first[0]] if first else lines
    body = lines[first[0]:] if first else []
    return head, rows, [b for b in body if b.startswith('#')]


def collect_one(ctx, what, root, frames, names, n, geom, save, settings):
    from strata.spreading.collect import collect
    kw = dict(settings)
    dy = GEOMETRY[geom][1][1]
    if dy > 1.:     # the layers above are neighbours
        kw['cutoff_radius'] = max(kw.get('cutoff_radius', 1.), 1.1 * dy)
    if save:
        kw['save'] = save
    rows, impact = expected(frames, n, geom, kw.get('dt', 1.), kw.get('t0', 0.))
    with Quiet():
        got = collect(root, **kw)
    ctx.step(len(frames))
    t, r = np.asarray(got['t'], float), np.asarray(got['r'], float)
    ok = ctx.check(close(t, [v[0] for v in rows], 1e-5, 1e-5), lambda:
                   '%s: times %s, not %s' % (what, t.tolist(),
                                             [v[0] for v in rows]))
    ok &= ctx.check(close(r, [v[1] for v in rows], 1e-5, 1e-4), lambda:
                    '%s: radii %s, not %s' % (what, r.tolist(),
                                              [v[1] for v in rows]))
    if save:
        if not ctx.check(os.path.exists(save), '%s: nothing saved' % what):
            return False
        with open(save) as fp:
            head, lines, late = parse_saved(fp.read())
        ok &= ctx.check(len(lines) == len(rows) and all(
            close(a, b, 1e-9, 1.1e-3) for a, b in zip(lines, rows)), lambda:
            '%s: saved %s, not %s' % (what, lines, rows))
        ok &= ctx.check(not late, '%s: header lines %s within the data'
                        % (what, late))
        told = [h for h in head if re.search(r"[Tt]ime:\s*(\S+)", h)
                and 'reation' not in h]
        if impact is not None:
            when = float(re.search(r"[Tt]ime:\s*(\S+)", told[0]).group(1)) \
                if told else None
            ok &= ctx.check(
                len(told) == 1 and
                abs(when - impact * kw.get('dt', 1.)) < 2e-3 and
                len([h for h in head if "'%s'" % names[impact] in h]) == 1,
                lambda: '%s: impact of frame %s at %g is not in the header %s'
                % (what, names[impact], impact * kw.get('dt', 1.), head))
        else:
            ok &= ctx.check(not told, '%s: header has an impact %s'
                            % (what, told))
    if ok:
        ctx.trace()
    return ok


def write_frames(root, frames, n, geom, floor_layer, style, begin=1,
                 fmt='gmx', ext='.dat', ny=NY):
    names = []
    for i, e in enumerate(frames):
        name = 'm%05d%s' % (begin + i, ext)
        grid = frame_grid(n, geom, e, floor_layer, style + i, ny)
        with open(os.path.join(root, name), 'wb') as fp:
            fp.write(gmx_bytes(grid) if fmt == 'gmx' else plain_bytes(grid))
        names.append(name)
    return names


def floor_for(geom, layer, style):
    """A floor height for which this is the first layer above it."""
    corner, spacing = GEOMETRY[geom]
    y = corner[1] + spacing[1] * (layer + 0.5)
    return y - spacing[1] * (0.25, 1., 0.5, 0.75)[style % 4]


def run(ctx, case):
    warnings.simplefilter('ignore')
    if case['kind'] == 'runs':
        return run_sequence(ctx, case['seq'])
    if case['kind'] == 'long':
        return run_long(ctx, case)
    if case['kind'] == 'options':
        return run_options(ctx, case['geom'])
    n, geom = case['n'], case['geom']
    root = ctx.tmpdir()
    for k, frames in enumerate(histories(n, case['length'], case['far'],
                                         case['first'])):
        floor_layer = (None, 0, 1)[k % 3]
        settings = dict(SETTINGS[k % len(SETTINGS)])
        if floor_layer is not None:
            settings['floor'] = floor_for(geom, floor_layer, k // 3)
        names = write_frames(root, frames, n, geom, floor_layer, k // 7)
        save = os.path.join(root, 'out%d.xvg' % k) if k % 2 else None
        ctx.state(n, geom, frames, floor_layer, k % len(SETTINGS))
        collect_one(ctx, 'box of %d bins, geometry %d, true edges %s, %s'
                    % (n, geom, frames, settings), os.path.join(root, 'm'),
                    frames, names, n, geom, save, settings)
        if save and os.path.exists(save):
            os.unlink(save)
    ctx.sample(bins=n, true_edges=frames, geometry=GEOMETRY[geom])


def walk(n, length, a, b, gap, first):
    """True edges of a droplet whose edges move on by fixed strides."""
    l, r = first
    out = []
    for i in range(length):
        if i and (gap and i % gap == 0) or i < gap // 2:
            out.append(None)
            continue
        for l2, r2 in ((l + a, r + b), (l + a, r), (l, r + b), (l, r)):
            if 0 <= r2 - l2 <= n - 2 and abs(l2 - l) + abs(r2 - r) < n and \
                    abs(l2 // n - l // n) + abs(r2 // n - r // n) <= 1:
                break
        else:
            raise AssertionError
        if out and any(out):
            l, r = l2, r2
        out.append((l, r))
        if r - l >= n - 3 or r == l:
            a, b = b, a
    return out


def run_long(ctx, case):
    """Series of many frames of larger maps."""
    n, ny, length, a = [case[k] for k in ('n', 'ny', 'length', 'a')]
    k = 0
    for b in STRIDES:
        for gap in (0, 7, 13):
            for first in ((0, 1), (n // 2, n // 2 + n // 3), (n - 1, n + 1)):
                k += 1
                if case['quick'] and k % 3:
                    continue
                frames = walk(n, length, a, b, gap, first)
                floor_layer = (None, 0, ny // 2)[k % 4 % 3]
                geom = k // 2 % len(GEOMETRY)
                settings = dict(SETTINGS[k % 6])
                if floor_layer is not None:
                    settings['floor'] = floor_for(geom, floor_layer, k // 3)
                root = ctx.tmpdir()
                names = write_frames(root, frames, n, geom, floor_layer, k,
                                     ny=ny)
                save = os.path.join(root, 'out.xvg')
                ctx.state('long', n, ny, length, a, b, gap, first)
                collect_one(
                    ctx, 'box of %d x %d bins, geometry %d, %d frames, edges '
                    'from %s on by %d and %d, no contact in every %dth, %s' % (
                        n, ny, geom, length, first, a, b, gap, settings),
                    os.path.join(root, 'm'), frames, names, n, geom, save,
                    settings)
    ctx.sample(long=frames[:5], frames=len(frames))


SERIES = [
    [None, (0, 1), (-1, 1), (-2, 1), (-3, 0)],     # left across the boundary
    [(3, 5), (3, 6), (4, 7), (5, 8), (6, 8), None, (7, 9)],
    [None, None, (2, 2), None, (2, 3)],
    [None, None],
]


def run_options(ctx, geom):
    """All settings, limits, formats and floors on each selected series."""
    n = 6
    for s, frames in enumerate(SERIES):
        for floor_layer in (None, 0, 1, 2):
            for fmt, ext in (('gmx', '.dat'), ('plain', '.map')):
                root = ctx.tmpdir()
                begin0 = 1 + 7 * (s % 2)
                style = s
                names = write_frames(root, frames, n, geom, floor_layer, style,
                                     begin0, fmt, ext)
                before = snapshot(root)
                for k, settings in enumerate(SETTINGS):
                    for b, e in ((0, None), (0, len(frames) - 2), (1, None),
                                 (2, 3), (0, 0)):
                        kw = dict(settings)
                        if floor_layer is not None:
                            kw['floor'] = floor_for(geom, floor_layer, k)
                        if ext != '.dat':
                            kw['ext'] = ext
                        if begin0 + b != 1:
                            kw['begin'] = begin0 + b
                        if e is not None:
                            kw['end'] = begin0 + e
                        part = frames[b:None if e is None else e + 1]
                        save = os.path.join(root, 'sub', 'out.xvg')
                        ctx.state(s, geom, floor_layer, fmt, k, b, e)
                        collect_one(
                            ctx, 'series %s, geometry %d, %s, %s' % (
                                frames, geom, fmt, kw), os.path.join(root, 'm'),
                            part, names[b:], n, geom, save, kw)
                        if os.path.exists(save):
                            os.unlink(save)
                after = {k: v for k, v in snapshot(root).items()
                         if not k.startswith('sub')}
                ctx.check(after == before, 'collecting changed other files')
    ctx.sample(series=SERIES, geometry=GEOMETRY[geom])


def run_sequence(ctx, seq):
    """Each run gives what it gives on its own, whatever ran before."""
    n, geom = 6, 0
    for same in (False, True):
        root = ctx.tmpdir()
        for s, frames in enumerate(SERIES):
            os.makedirs('%s/%d' % (root, s))
            write_frames('%s/%d' % (root, s), frames, n, geom, None, s)
        kept = []
        for i, s in enumerate(seq):
            save = '%s/out.xvg' % root if same else '%s/out%d.xvg' % (root, i)
            names = ['m%05d.dat' % (k + 1) for k in range(len(SERIES[s]))]
            ctx.state(seq[:i + 1], same)
            collect_one(ctx, 'collections %s in one process' % seq[:i + 1],
                        '%s/%d/m' % (root, s), SERIES[s], names, n, geom, save,
                        SETTINGS[s] if i % 2 else {})
            with open(save, 'rb') as fp:
                kept.append(fp.read())
        # earlier results are still there
        for i in range(len(seq)):
            fn = '%s/out%d.xvg' % (root, i)
            if same:
                fn = '%s/out.xvg' % root if i == len(seq) - 1 else \
                    '%s/#out.xvg.%d#' % (root, i + 1)
            ok = os.path.exists(fn)
            if ok:
                with open(fn, 'rb') as fp:
                    ok = fp.read() == kept[i]
            ctx.check(ok, 'collections %s: result %d is gone or changed'
                      % (seq, i))
    ctx.sample(sequence=[SERIES[s] for s in seq])
