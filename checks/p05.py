"""P05: conversions of file series between the formats."""

import itertools
import os
import warnings

import numpy as np

from checks.common import (LARGE, fillings, ALL, FIELDS, Grid, Quiet, close, gmx_bytes,
                           parse_gmx, parse_plain, parse_simple, plain_bytes,
                           simple_bytes, snapshot)

PROPERTY = 'P05'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of every chain of conversions over the '
             'three formats from every starting format, and of every set of '
             'frame numbers with every begin and end, each output decoded by '
             'independent decoders after every step')
NOTE = ('exhaustive for chains of up to 4 (quick) or 5 (thorough) conversions x '
        'map contents, all patterns of empty bins of maps of up to 6 (quick) or 9 (thorough) bins, '
        'and all sets of frame numbers out of 5 x begin x end')
RULE = ('a case is one starting format with all chains from it over one set of '
        'maps, or one set of frame numbers with all limits and formats; after '
        'each conversion all files on disk are compared')
ASSUMPTIONS = ['the sparse format stores bins with mass, so bins without mass '
               'are empty', 'values are within the six decimals of plain text',
               'maps have two columns and layers or more for the simple formats '
               'to carry their spacing',
               'a conversion from a simple to the sparse format may move all '
               'bins by half a bin (the formats give origins differently)']
CHUNK = 1

FTYPES = ('gmx', 'simple', 'simple_plain')
ENCODE = {'gmx': gmx_bytes, 'simple': simple_bytes, 'simple_plain': plain_bytes}
SHAPES = ((2, 2), (3, 2), (2, 4), (4, 3))
GEOMETRY = (((0., 0.), (1., 1.)), ((-2., 1.5), (0.5, 0.25)),
            ((10., -4.), (0.125, 2.)))


def cases(tier):
    thorough = tier == 'thorough'
    for first in FTYPES:
        for s in range(len(SHAPES)):
            for g in range(len(GEOMETRY)):
                yield {'kind': 'chain', 'first': first, 'shape': s, 'geo': g,
                       'depth': 5 if thorough else 4}
        for shape in ((2, 2), (3, 2)) + (((2, 4), (3, 3)) if thorough else ()):
            n = shape[0] * shape[1]
            for lo in range(0, 1 << n, 16):
                yield {'kind': 'patterns', 'first': first, 'shape': list(shape),
                       'lo': lo, 'hi': lo + 16}
    for bits in range(32):
        yield {'kind': 'frames', 'bits': bits}
    for first in FTYPES:
        for shape in LARGE[2:]:
            yield {'kind': 'large', 'first': first, 'shape': list(shape)}
        yield {'kind': 'long', 'first': first}
    yield {'kind': 'inplace'}
    yield {'kind': 'numbers'}


def content(nx, ny, geo, frame, keep=None):
    grid = Grid(nx, ny, *GEOMETRY[geo])
    for i in range(nx):
        for j in range(ny):
            k = i * ny + j
            filled = keep[k] if keep is not None else (k + frame) % 4 != 3
            if filled:
                # zeros among the values, signs and magnitudes
                for l, v in zip(FIELDS, (1. + k % 3, 25. * (k + 1),
                                         0.5 + 2. ** (k % 5) + frame,
                                         (k - 2.) * 0.5 + 16 * frame,
                                         4. - k * 0.25 - 0.5 * frame)):
                    grid.values[l][i, j] = v
    return grid


def decode(raw, ftype):
    """(x, y, {label: value array}, shape, spacing or None) in x-major order."""
    if ftype == 'gmx':
        grid, keep = parse_gmx(raw)
        data = grid.data()
        return data, (grid.nx, grid.ny), grid.spacing
    data = parse_simple(raw) if ftype == 'simple' else parse_plain(raw)
    if set(data) != set(ALL):
        raise ValueError('fields %s' % sorted(data))
    order = np.lexsort((data['Y'], data['X']))
    data = {l: np.asarray(v, float)[order] for l, v in data.items()}
    xs = np.unique(np.round(data['X'], 5))
    ys = np.unique(np.round(data['Y'], 5))
    space = [float(np.mean(np.diff(v))) if len(v) > 1 else None
             for v in (xs, ys)]
    return data, (len(xs), len(ys)), space


def is_format(raw, ftype):
    if ftype == 'gmx':
        return raw.startswith(b'FORMAT GMX_FLOW')
    if ftype == 'simple_plain':
        return raw.lstrip(b'# ').startswith(b'X Y')
    return len(raw) % 28 == 0 and not raw.startswith((b'FORMAT', b'X Y'))


def same_map(ctx, what, raw, ftype, ref, before):
    """Compare a file against the original map; `before` its earlier positions.

    Returns the positions (x, y of first bin) of the file, or None."""
    if not ctx.check(is_format(raw, ftype), '%s: not a file of format %s'
                     % (what, ftype)):
        return None
    try:
        data, shape, spacing = decode(raw, ftype)
    except Exception as err:
        ctx.fail('%s: can not be decoded: %r' % (what, err))
        return None
    if not ctx.check(shape == (ref.nx, ref.ny) and data['X'].size == ref.nx * ref.ny,
                     '%s: shape %s, was %s' % (what, shape, (ref.nx, ref.ny))):
        return None
    src = ref.data()
    ok = True
    for l in FIELDS:
        ok &= ctx.check(close(data[l], src[l], 1e-6, 2e-6), lambda:
                        '%s: %s is %s, was %s' % (what, l, data[l].tolist(),
                                                  src[l].tolist()))
    for a in (0, 1):
        ok &= ctx.check(spacing[a] is None or
                        close(spacing[a], ref.spacing[a], 1e-5, 1e-5),
                        '%s: spacing %s, was %s' % (what, spacing, ref.spacing))
    first = []
    for a, l in enumerate(('X', 'Y')):
        rel = data[l] - data[l][0]
        ok &= ctx.check(close(rel, src[l] - src[l][0], 1e-5, 1e-5), lambda:
                        '%s: bins are arranged at %s = %s' % (
                            what, l, data[l].tolist()))
        first.append(float(data[l][0]))
    if before is not None:
        pos, route = before
        for a in (0, 1):
            room = 1e-5 * max(1., abs(pos[a]))
            if route == 'simple->gmx':
                room += 0.5 * ref.spacing[a]
            ok &= ctx.check(abs(first[a] - pos[a]) <= room,
                            '%s: first bin is at %s, was at %s' % (
                                what, first, list(pos)))
    return first if ok else None


def route_of(a, b):
    return 'simple->gmx' if a != 'gmx' and b == 'gmx' else 'exact'


def run(ctx, case):
    warnings.simplefilter('ignore')
    {'chain': run_chain, 'large': run_large, 'long': run_long, 'patterns': run_patterns, 'frames': run_frames,
     'inplace': run_inplace, 'numbers': run_numbers}[case['kind']](ctx, case)


def name(base, k, ext='.dat'):
    return '%s%05d%s' % (base, k, ext)


def fill(folder, grids, ftype, ext='.dat'):
    os.makedirs(folder)
    for k, grid in grids.items():
        with open(name(folder + '/m', k, ext), 'wb') as fp:
            fp.write(ENCODE[ftype](grid))


def chains(ctx, root, grids, ftype, depth):
    """Depth-first over all chains of conversions."""
    from strata.convert import convert
    count = [0]

    def walk(folder, ftype, pos, left, path):
        ctx.state(path, sorted(grids))
        if not left:
            return
        inputs = snapshot(folder)
        for to in FTYPES:
            count[0] += 1
            out = '%s/d%d' % (root, count[0])
            way = path + (to,)
            what = 'frames %s converted %s' % (sorted(grids), ' -> '.join(way))
            kw = {'ftype': to, 'quiet': True, 'begin': min(grids)}
            if to == 'gmx' and count[0] % 2:
                kw.pop('ftype')          # the documented default
            ctx.step(len(grids))
            with Quiet():
                convert(folder + '/m', out + '/m', **kw)
            ok = ctx.check(snapshot(folder) == inputs,
                           '%s: changed the files it read' % what)
            found = snapshot(out) if os.path.isdir(out) else {}
            ok &= ctx.check(set(found) == {name('m', k) for k in grids},
                            lambda: '%s: wrote %s' % (what, sorted(found)))
            new = {}
            if ok:
                for k, grid in grids.items():
                    new[k] = same_map(
                        ctx, '%s, frame %d' % (what, k), found[name('m', k)],
                        to, grid, (pos[k], route_of(ftype, to)))
                    ok &= new[k] is not None
            if ok:
                ctx.trace()
                walk(out, to, new, left - 1, way)

    fill(root + '/m0', grids, ftype)
    start = {k: (g.x[0], g.y[0]) for k, g in grids.items()}
    walk(root + '/m0', ftype, start, depth, (ftype,))


def run_chain(ctx, case):
    nx, ny = SHAPES[case['shape']]
    for first in (1, 0, 7):
        if first != 1 and case['shape']:
            continue
        grids = {first + i: content(nx, ny, case['geo'], i) for i in range(2)}
        chains(ctx, ctx.tmpdir(), grids, case['first'], case['depth'])
    ctx.sample(first=case['first'], shape=[nx, ny])


def run_large(ctx, case):
    """One file series of large maps filled in different ways."""
    nx, ny = case['shape']
    grids = {1 + i: content(nx, ny, i % 3, i % 5, keep.ravel())
             for i, (_, keep) in enumerate(fillings(nx, ny))}
    chains(ctx, ctx.tmpdir(), grids, case['first'], 2)
    ctx.sample(shape=[nx, ny], frames=len(grids))


def run_long(ctx, case):
    """Many frames."""
    grids = {95 + i: content(3, 2, i % 3, i % 7) for i in range(110)}
    chains(ctx, ctx.tmpdir(), grids, case['first'], 1)
    ctx.sample(frames=len(grids))


def run_patterns(ctx, case):
    """One file series holding all patterns of empty bins of the block."""
    nx, ny = case['shape']
    n = nx * ny
    grids = {1 + b - case['lo']: content(nx, ny, 1, b % 5,
                                         [b >> k & 1 for k in range(n)])
             for b in range(case['lo'], case['hi'])}
    chains(ctx, ctx.tmpdir(), grids, case['first'], 2)
    ctx.sample(shape=[nx, ny], patterns=[case['lo'], case['hi']])


def run_frames(ctx, case):
    """Every set of frame numbers, begin, end and pair of formats."""
    from strata.convert import convert
    frames = [k for k in range(5) if case['bits'] >> k & 1]
    count = 0
    for ext in ('.dat', '.map'):
        for src, dst in itertools.product(FTYPES, FTYPES):
            if ext != '.dat' and src != dst:
                continue
            grids = {k: content(2, 2, k % 3, k) for k in frames}
            root = ctx.tmpdir()
            fill(root + '/in', grids, src, ext)
            # decoys that are never to be read
            for decoy in ('m1' + ext, 'm000001' + ext, 'n00001' + ext,
                          'm00001.xyz'):
                with open(root + '/in/' + decoy, 'wb') as fp:
                    fp.write(b'decoy')
            inputs = snapshot(root + '/in')
            for begin in (None, 0, 1, 2, 3):
                for end in (None, 0, 1, 2, 4, 9):
                    count += 1
                    kw = {'ftype': dst, 'quiet': True}
                    if begin is not None:
                        kw['begin'] = begin
                    if end is not None:
                        kw['end'] = end
                    if ext != '.dat':
                        kw['ext'] = ext
                    want, k = [], 1 if begin is None else begin
                    while k in grids and (end is None or k <= end):
                        want.append(k)
                        k += 1
                    out = '%s/out%d' % (root, count)
                    what = 'frames %s (%s) convert(%s)' % (frames, src, kw)
                    ctx.state(frames, src, dst, begin, end, ext)
                    ctx.step(len(want) + 1)
                    with Quiet():
                        convert(root + '/in/m', out + '/a', **kw)
                    found = snapshot(out) if os.path.isdir(out) else {}
                    names = {name('a', k, ext): k for k in want}
                    ok = ctx.check(set(found) == set(names), lambda:
                                   '%s: wrote %s, not %s' % (
                                       what, sorted(found), sorted(names)))
                    if not ok:
                        continue
                    for fn, k in names.items():
                        g = grids[k]
                        ok &= same_map(ctx, '%s: %s' % (what, fn), found[fn],
                                       dst, g, ((g.x[0], g.y[0]),
                                                route_of(src, dst))) is not None
                    if ok:
                        ctx.trace()
            ctx.check(snapshot(root + '/in') == inputs,
                      'frames %s (%s): converting changed the input'
                      % (frames, src))
    ctx.sample(frames=frames)


def run_inplace(ctx, case):
    """Converting into the folder of the input, under another and the same name."""
    from strata.convert import convert
    for src, dst in itertools.product(FTYPES, FTYPES):
        grids = {k: content(3, 2, 1, k) for k in (1, 2, 3)}
        root = ctx.tmpdir()
        fill(root + '/in', grids, src)
        before = snapshot(root + '/in')
        for same in (False, True):
            out = 'm' if same else 'b'
            ctx.state(src, dst, same)
            ctx.step(3)
            with Quiet():
                convert(root + '/in/m', root + '/in/' + out, ftype=dst, quiet=True)
            after = snapshot(root + '/in')
            what = '%s -> %s in the same folder as %s' % (src, dst, out)
            ok = True
            for k, g in grids.items():
                fn = name(out, k)
                ok &= ctx.check(fn in after, '%s: no %s' % (what, fn)) and \
                    same_map(ctx, '%s: %s' % (what, fn), after[fn], dst, g,
                             ((g.x[0], g.y[0]), route_of(src, dst))) is not None
                # the original is in place, or moved to its backup name
                old = name('m', k) if not same else '#%s.1#' % name('m', k)
                ok &= ctx.check(after.get(old) == before[name('m', k)],
                                '%s: original of frame %d is lost' % (what, k))
            if ok:
                ctx.trace()


def run_numbers(ctx, case):
    """Frame numbers of all widths keep their number."""
    from strata.convert import convert
    for src, dst in itertools.product(FTYPES, FTYPES):
        for first in (8, 9, 98, 998, 9998, 99998, 99999, 123456):
            grids = {first + i: content(2, 2, i, i) for i in range(3)}
            root = ctx.tmpdir()
            fill(root + '/in', grids, src)
            ctx.state(src, dst, first)
            ctx.step(3)
            for quiet in (True, False):
                with Quiet():
                    convert(root + '/in/m', root + '/out%d/m' % quiet, ftype=dst,
                            begin=first, quiet=quiet)
                found = snapshot(root + '/out%d' % quiet)
                if not ctx.check(set(found) == {name('m', k) for k in grids},
                                 'frames %s %s -> %s: wrote %s' % (
                                     sorted(grids), src, dst, sorted(found))):
                    continue
                if all([same_map(ctx, 'frame %d %s -> %s' % (k, src, dst),
                                 found[name('m', k)], dst, g,
                                 ((g.x[0], g.y[0]), route_of(src, dst)))
                        is not None for k, g in grids.items()]):
                    ctx.trace()
