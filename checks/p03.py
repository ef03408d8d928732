"""P03: round trip of the sparse flow format."""

import itertools

import numpy as np

from checks.common import (FIELDS, LARGE, Grid, close, fillings, gmx_bytes,
                           parse_gmx)

PROPERTY = 'P03'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of every occupancy pattern of small grids '
             'with several origins, spacings and value assignments, written and '
             'read by the real code and compared with an independent codec')
NOTE = ('all occupancy patterns of all grids up to the bin bound (quick 8, '
        'thorough 10), every header length around the buffer boundaries and '
        'every order of the fields; of larger grids some shapes and ways to fill them')
RULE = ('a case is one grid shape, geometry, value scheme and block of occupancy '
        'patterns (each written by the tool and read back, and written by an '
        'independent encoder and read), or one block of header lengths or field '
        'orders')
ASSUMPTIONS = [
    'a bin is filled when its mass is not zero; values fit in 32 bit floats; '
    'origin and spacing have at most six decimals (the format stores six)',
]
CHUNK = 4

GEOMETRY = [((0., 0.), (1., 1.)), ((-3.5, 2.25), (0.25, 0.5)),
            ((0.125, -1.), (2., 0.125)), ((1000.5, -4096.), (1., 0.5)),
            ((0.000123, -12.345678), (0.123457, 0.001953))]


# with more columns or layers than a small integer holds
BIG = [(300, 1), (1, 300), (130, 2), (2, 260), (40000, 1), (1, 40000),
       (70000, 1), (1, 70000)]
EDGES = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536]


def shapes(limit):
    for nx in range(1, limit + 1):
        for ny in range(1, limit + 1):
            if nx * ny <= limit:
                yield nx, ny


def cases(tier):
    limit = 8 if tier == 'quick' else 10
    for nx, ny in shapes(limit):
        for g in range(len(GEOMETRY)):
            for scheme in range(3):
                n = 1 << (nx * ny)
                for lo in range(0, n, 128):
                    yield {'kind': 'round', 'shape': [nx, ny], 'geom': g,
                           'scheme': scheme, 'lo': lo, 'hi': min(n, lo + 128)}
    for shape in BIG:
        yield {'kind': 'big', 'shape': list(shape)}
    for shape in LARGE:
        for g in range(len(GEOMETRY)):
            yield {'kind': 'large', 'shape': list(shape), 'geom': g}
    # header lengths around each multiple of a read buffer
    top = 2200 if tier == 'quick' else 9000
    for lo in range(150, top, 50):
        yield {'kind': 'header', 'lo': lo, 'hi': lo + 50}
    perms = 5040
    step = 8 if tier == 'quick' else 1
    for lo in range(0, perms, 24 * 24):
        yield {'kind': 'fields', 'lo': lo, 'hi': min(perms, lo + 24 * 24),
               'step': step}


def values(nx, ny, scheme):
    """Distinct dyadic values per bin and field."""
    k = np.arange(nx * ny).reshape(nx, ny)
    if scheme == 0:
        return {l: 1. + k + 16. * i for i, l in enumerate(FIELDS)}
    if scheme == 1:     # signs, tiny and huge values
        return {'M': np.where(k % 2, 2.**-20, 2.**30) * (1 + k),
                'N': -0.5 * k, 'T': 300. + k, 'U': (-1.)**k * (k + 0.25),
                'V': 2.**-30 * (k - 2)}
    # everything but the mass may vanish, the mass may be negative
    return {'M': np.where(k % 3, -1. - k, 1. + k), 'N': 0. * k,
            'T': np.where(k % 2, 0., 1.), 'U': 0. * k,
            'V': np.where(k % 4, 0., -7.)}


def compare(ctx, what, data, info, grid, keep):
    nx, ny = grid.nx, grid.ny
    ok = ctx.check(tuple(info['shape']) == (nx, ny),
                   '%s: shape %r' % (what, info['shape']))
    ok &= ctx.check(close(info['spacing'], grid.spacing),
                    '%s: spacing %r' % (what, info['spacing']))
    ok &= ctx.check(close(info['origin'], grid.corner),
                    '%s: origin %r' % (what, info['origin']))
    want = grid.data()
    for l in ('X', 'Y'):
        ok &= ctx.check(np.size(data[l]) == nx * ny and
                        close(np.ravel(data[l]), want[l]),
                        lambda: '%s: %s read as %r' % (what, l, data[l]))
    for l in FIELDS:
        ref = np.where(keep, grid.values[l], 0.).ravel()
        got = np.ravel(data[l])
        ok &= ctx.check(got.shape == ref.shape and
                        np.array_equal(got.astype('f4'), ref.astype('f4')),
                        lambda: '%s: %s read as %r, not %r'
                        % (what, l, got.tolist(), ref.tolist()))
    return ok


def run(ctx, case):
    from strata.dataformats.read import guess_read_module, read_data_file
    from strata.dataformats.write import write
    import strata.dataformats as formats
    path = ctx.tmpdir() + '/map.dat'
    if case['kind'] == 'big':
        return run_big(ctx, case, path, read_data_file, write)
    if case['kind'] == 'large':
        return run_large(ctx, case, path, read_data_file, write)
    if case['kind'] != 'round':
        return run_encoded(ctx, case, path, read_data_file)

    nx, ny = case['shape']
    corner, spacing = GEOMETRY[case['geom']]
    full = Grid(nx, ny, corner, spacing, values(nx, ny, case['scheme']))
    for bits in range(case['lo'], case['hi']):
        keep = np.array([bits >> k & 1 for k in range(nx * ny)],
                        dtype=bool).reshape(nx, ny)
        grid = full.copy()
        grid.values['M'] = np.where(keep, full.values['M'], 0.)
        what = 'shape=%dx%d geom=%d scheme=%d filled=%s' % (
            nx, ny, case['geom'], case['scheme'], bin(bits))
        ctx.state(nx, ny, case['geom'], case['scheme'], bits)

        data = grid.data()
        before = {l: v.copy() for l, v in data.items()}
        with open(path, 'wb'):
            pass
        import os
        os.unlink(path)
        write(path, data, grid.info(), ftype='gmx')
        ctx.step()
        ctx.check(all(np.array_equal(data[l], before[l]) for l in data),
                  '%s: writing changed the map that was written' % what)
        ctx.check(guess_read_module(path) is formats.gmx_flow_version_1.main,
                  '%s: not recognised' % what)
        out, info, _ = read_data_file(path)
        ctx.step()
        if compare(ctx, 'written and read back, ' + what, out, info, grid, keep):
            ctx.trace()
        with open(path, 'rb') as fp:
            raw = fp.read()
        try:
            mine, stored = parse_gmx(raw)
        except Exception as err:
            ctx.fail('%s: the file does not follow the format: %r' % (what, err))
        else:
            ctx.check(np.array_equal(stored, keep) and all(
                np.array_equal(np.where(keep, grid.values[l], 0).astype('f4'),
                               mine.values[l].astype('f4')) for l in FIELDS),
                '%s: file content is not the map' % what)
            ctx.trace()
        with open(path, 'wb') as fp:
            fp.write(gmx_bytes(grid, version=1 + bits % 2))
        out, info, _ = read_data_file(path)
        ctx.step()
        if compare(ctx, 'encoded, ' + what, out, info, grid, keep):
            ctx.trace()
    ctx.sample(shape=[nx, ny], corner=corner, spacing=spacing,
               filled=bin(case['hi'] - 1))


def run_big(ctx, case, path, read_data_file, write):
    import os
    nx, ny = case['shape']
    n = nx * ny
    spots = sorted({k for k in EDGES + [n - 1] if k < n})
    for size in (1, 2, len(spots)):
        for chosen in itertools.combinations(spots, size):
            keep = np.zeros(n, dtype=bool)
            keep[list(chosen)] = True
            keep = keep.reshape(nx, ny)
            grid = Grid(nx, ny, (-1.5, 0.25), (0.5, 0.25), values(nx, ny, 0))
            grid.values['M'] = np.where(keep, grid.values['M'], 0.)
            ctx.state('big', nx, ny, chosen)
            what = 'shape %dx%d with bins %s' % (nx, ny, chosen)
            if os.path.exists(path):
                os.unlink(path)
            write(path, grid.data(), grid.info(), ftype='gmx')
            for how in ('written', 'encoded'):
                if how == 'encoded':
                    with open(path, 'wb') as fp:
                        fp.write(gmx_bytes(grid))
                ctx.step()
                out, info, _ = read_data_file(path)
                good = tuple(info['shape']) == (nx, ny) and all(
                    np.array_equal(np.ravel(out[l]).astype('f4'), np.where(
                        keep, grid.values[l], 0.).ravel().astype('f4'))
                    for l in FIELDS)
                if ctx.check(good, lambda: '%s and read back (%s): bins %s' % (
                        what, how, np.nonzero(out['M'])[0].tolist()[:9])):
                    ctx.trace()


def run_large(ctx, case, path, read_data_file, write):
    import os
    nx, ny = case['shape']
    for scheme in range(3):
        full = Grid(nx, ny, *GEOMETRY[case['geom']],
                    values=values(nx, ny, scheme))
        for name, keep in fillings(nx, ny):
            grid = full.copy()
            grid.values['M'] = np.where(keep, full.values['M'], 0.)
            ctx.state('large', nx, ny, case['geom'], scheme, name)
            if os.path.exists(path):
                os.unlink(path)
            write(path, grid.data(), grid.info(), ftype='gmx')
            for how in ('written', 'encoded'):
                if how == 'encoded':
                    with open(path, 'wb') as fp:
                        fp.write(gmx_bytes(grid))
                ctx.step()
                out, info, _ = read_data_file(path)
                if compare(ctx, '%dx%d with %s bins, scheme %d, geometry %d (%s)' % (
                        nx, ny, name, scheme, case['geom'], how), out, info, grid,
                        keep):
                    ctx.trace()


def run_encoded(ctx, case, path, read_data_file):
    grid = Grid(2, 3, (-1.5, 0.25), (0.5, 0.25), values(2, 3, 0))
    if case['kind'] == 'header':
        base = len(gmx_bytes(grid, comments=[''], keep=np.zeros((2, 3), bool)))
        for size in range(case['lo'], case['hi']):
            for keep in (np.ones((2, 3), bool), np.zeros((2, 3), bool),
                         np.array([[1, 0, 0], [0, 0, 1]], bool)):
                pad = size - base
                if pad < 0:
                    continue
                # one long line, or many short ones
                one = ['c' * pad]
                many = [('c' * 40) for _ in range(pad // 49)]
                many.append('c' * (pad - 49 * (pad // 49)))
                for comments in (one, many):
                    with open(path, 'wb') as fp:
                        fp.write(gmx_bytes(grid, comments=comments, keep=keep))
                    ctx.state('header', size, len(comments), keep.tolist())
                    ctx.step()
                    out, info, _ = read_data_file(path)
                    if compare(ctx, 'header of %d bytes' % size, out, info,
                               grid, keep):
                        ctx.trace()
        return
    keep = np.array([[1, 0, 1], [0, 1, 1]], bool)
    perms = itertools.permutations(['IX', 'IY'] + FIELDS)
    for order in itertools.islice(perms, case['lo'], case['hi'], case['step']):
        with open(path, 'wb') as fp:
            fp.write(gmx_bytes(grid, fields=list(order), keep=keep))
        ctx.state('fields', order)
        ctx.step()
        out, info, _ = read_data_file(path)
        if compare(ctx, 'fields %s' % (order,), out, info, grid, keep):
            ctx.trace()
