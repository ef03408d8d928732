"""P04: simple binary and plain text maps, written, recognised and read."""

import itertools
import os
import struct

import numpy as np

from checks.common import (LARGE, shuffles, ALL, FIELDS, Grid, close, gmx_bytes, parse_plain,
                           parse_simple, plain_bytes, simple_bytes)

PROPERTY = 'P04'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of grid shapes, geometries and value '
             'assignments (all assignments from small pools, including floats '
             'whose bytes are text), written and read by the real code and '
             'compared with independent encoders and decoders')
NOTE = ('all grids up to the bin bound, all pool assignments to the fields of a '
        'bin and all byte patterns of the pools; of larger grids some shapes and '
        'orders of bins')
RULE = ('a case is one shape with all geometries and schemes, or one block of '
        'assignments of pool values to the fields of a small map')
ASSUMPTIONS = [
    'coordinates have at most five decimals and are '
    'exact in 32 bit floats; plain text values have at most six decimals',
    'the bytes of a binary map do not spell out the header line of another '
    'format (such a file is a file of that format)',
]
CHUNK = 4

GEOMETRY = [((0., 0.), (1., 1.)), ((-3.5, 2.25), (0.25, 0.5)),
            ((0.125, -1.), (2., 0.125)), ((1000.5, -4096.), (1., 0.5)),
            ((-0.5, -0.5), (1., 1.)),
            # narrow bins far from the origin
            ((0., 4096. - 0.015625), (0.5, 0.03125)),
            ((-4096. - 0.015625, -2048. - 0.015625), (0.03125, 0.03125))]

# 32 bit floats by their bytes: text, white space, control bytes, line feeds
BYTES = [b'\0\0\0\0', b'\0\0\x80?', b'abcd', b'1.0 ', b'\n1.5', b'    ',
         b'XXXX', b'Y2Y2', b'#X#Y', b'M U ', b'FORM', b'\xc3\xa9A\xbf',
         b'\x01\x01\x01A', b'\r\n\tB']
FLOATS = [struct.unpack('<f', b)[0] for b in BYTES]


def cases(tier):
    limit = 12 if tier == 'quick' else 30
    for nx in range(1, limit + 1):
        for ny in range(1, limit + 1):
            if nx * ny <= limit:
                yield {'kind': 'shape', 'shape': [nx, ny]}
    for shape in LARGE:
        yield {'kind': 'shape', 'shape': list(shape)}
        yield {'kind': 'shuffle', 'shape': list(shape)}
    # two of the fields take every pair of byte patterns, the rest one pattern
    rest = [4, 12] if tier == 'quick' else range(len(BYTES))
    for pair in itertools.combinations(range(5), 2):
        for r in rest:
            for nx, ny in ([(1, 1), (2, 2), (5, 4)] if tier == 'quick' else
                           [(1, 1), (1, 3), (2, 1), (2, 2), (5, 4), (7, 3)]):
                yield {'kind': 'bytes', 'pair': list(pair), 'rest': r,
                       'shape': [nx, ny]}
    for shape in ((1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (2, 3), (3, 2)):
        yield {'kind': 'order', 'shape': list(shape), 'full': tier != 'quick'}
    for lo in range(0, 5040, 360):
        yield {'kind': 'labels', 'lo': lo, 'hi': lo + 360,
               'step': 4 if tier == 'quick' else 1}


def schemes(nx, ny):
    k = np.arange(nx * ny).reshape(nx, ny)
    yield {l: 1. + k + 64. * i for i, l in enumerate(FIELDS)}
    yield {l: 0. * k for l in FIELDS}
    yield {l: (-1.)**(k + i) * (k + 0.015625 * i) for i, l in enumerate(FIELDS)}
    yield {'M': np.where(k % 2, 0., 2.**-6), 'N': -1. * k, 'T': 3000. + k,
           'U': 4096. * k, 'V': -0.5 * k}


def first(nums, step):
    return nums[0]


def compare(ctx, what, data, info, grid, exact=True):
    nx, ny = grid.nx, grid.ny
    ok = ctx.check(tuple(info['shape']) == (nx, ny),
                   '%s: shape %r' % (what, info['shape']))
    want = grid.data()
    spacing = [grid.spacing[0] if nx > 1 else 0., grid.spacing[1] if ny > 1 else 0.]
    ok &= ctx.check(close(info['origin'], [grid.x[0], grid.y[0]]),
                    '%s: origin %r' % (what, info['origin']))
    for d, s, n, xs in zip(info['spacing'], spacing, (nx, ny), (grid.x, grid.y)):
        # positions have the resolution of 32 bit floats, and the spacing of a
        # single row or column is not in the file
        atol = 2e-7 * np.abs(xs).max() / max(n - 1, 1)
        ok &= ctx.check((n > 1 and close(d, s, 1e-6, atol))
                        or (n == 1 and np.isfinite(d)),
                        '%s: spacing %r' % (what, info['spacing']))
    for l in ALL:
        got = np.ravel(data[l]).astype('f4')
        ref = want[l].astype('f4')
        good = got.shape == ref.shape and (
            got.tobytes() == ref.tobytes() or
            (l in 'XY' and close(got, ref)) or np.array_equal(got, ref))
        ok &= ctx.check(good, lambda: '%s: %s read as %r, not %r'
                        % (what, l, got.tolist()[:9], ref.tolist()[:9]))
    return ok


def put(path, raw):
    with open(path, 'wb') as fp:
        fp.write(raw)


def get(path):
    with open(path, 'rb') as fp:
        return fp.read()


def roundtrip(ctx, what, path, grid, read_data_file, write, plain=True):
    for ftype in ('simple', 'simple_plain') if plain else ('simple',):
        if os.path.exists(path):
            os.unlink(path)
        data = grid.data()
        keep = {l: v.copy() for l, v in data.items()}
        write(path, data, grid.info(), ftype=ftype)
        ctx.step()
        ctx.check(all(np.array_equal(data[l], keep[l], equal_nan=True)
                      for l in keep), '%s: writing changed the map' % what)
        raw = get(path)
        try:
            mine = (parse_simple if ftype == 'simple' else parse_plain)(raw)
            same = list(mine) == ALL and all(
                np.array_equal(mine[l].astype('f4'), keep[l].astype('f4'))
                for l in ALL)
            ctx.check(same, '%s: content of the %s file is not the map'
                      % (what, ftype))
        except Exception as err:
            ctx.fail('%s: not a %s file: %r' % (what, ftype, err))
        out, info, _ = read_data_file(path)
        ctx.step()
        if compare(ctx, '%s as %s' % (what, ftype), out, info, grid):
            ctx.trace()
    put(path, simple_bytes(grid))
    out, info, _ = read_data_file(path)
    ctx.step()
    if compare(ctx, '%s encoded binary' % what, out, info, grid):
        ctx.trace()
    if plain:
        put(path, plain_bytes(grid))
        out, info, _ = read_data_file(path)
        ctx.step()
        if compare(ctx, '%s encoded text' % what, out, info, grid):
            ctx.trace()


def run(ctx, case):
    from strata.dataformats.read import read_data_file
    from strata.dataformats.write import write
    path = ctx.tmpdir() + '/map.dat'

    if case['kind'] == 'shape':
        nx, ny = case['shape']
        for g, (corner, spacing) in enumerate(GEOMETRY):
            for s, values in enumerate(schemes(nx, ny)):
                grid = Grid(nx, ny, corner, spacing, values)
                ctx.state(nx, ny, g, s)
                roundtrip(ctx, 'shape=%dx%d geom=%d scheme=%d' % (nx, ny, g, s),
                          path, grid, read_data_file, write)
                # the same map in the sparse format is still told apart
                grid.values['M'] += 8192.
                put(path, gmx_bytes(grid))
                out, info, _ = read_data_file(path)
                ctx.step()
                for l in FIELDS:
                    ctx.check(np.array_equal(
                        np.ravel(out[l]).astype('f4'),
                        grid.values[l].ravel().astype('f4')),
                        'sparse map %dx%d geom=%d scheme=%d: %s'
                        % (nx, ny, g, s, l))
        ctx.sample(shape=[nx, ny], geometry=GEOMETRY[1])
        return

    if case['kind'] == 'order':
        return run_order(ctx, case, path)

    if case['kind'] == 'shuffle':
        return run_shuffle(ctx, case, path)

    if case['kind'] == 'bytes':
        nx, ny = case['shape']
        a, b = case['pair']
        for i, va in enumerate(FLOATS):
            for j, vb in enumerate(FLOATS):
                vals = {l: FLOATS[case['rest']] for l in FIELDS}
                vals[FIELDS[a]] = va
                vals[FIELDS[b]] = vb
                # coordinates without zero bytes, or with
                for corner in ((0.29999 - 0.5, 10.29999 - 0.5), (-0.5, -0.5)):
                    grid = Grid(nx, ny, corner, (1., 1.), vals)
                    ctx.state(nx, ny, a, b, i, j, case['rest'], corner)
                    roundtrip(ctx, 'shape=%dx%d fields %s=%r %s=%r rest=%r at %r'
                              % (nx, ny, FIELDS[a], BYTES[i], FIELDS[b],
                                 BYTES[j], BYTES[case['rest']], corner),
                              path, grid, read_data_file, write, plain=False)
        return

    grid = Grid(3, 2, (0.25, -1.5), (0.5, 0.25), list(schemes(3, 2))[0])
    data = grid.data()
    perms = itertools.permutations(ALL)
    for order in itertools.islice(perms, case['lo'], case['hi'], case['step']):
        for head in ('%s\n', '# %s\n', '#%s\n', '  %s\n'):
            rows = zip(*[data[l] for l in order])
            text = head % ' '.join(order)
            text += '\n'.join(' '.join('%g' % v for v in r) for r in rows)
            put(path, text.encode() + (b'\n' if case['lo'] % 720 else b''))
            ctx.state('labels', order, head)
            out, info, _ = read_data_file(path)
            ctx.step()
            if compare(ctx, 'text with header %r' % (head % ' '.join(order)),
                       out, info, grid):
                ctx.trace()


def run_order(ctx, case, path):
    """The bins of a map stored in every order."""
    from strata.dataformats.read import read_data_file
    nx, ny = case['shape']
    n = nx * ny
    perms = list(itertools.permutations(range(n)))
    for g, (corner, spacing) in enumerate(GEOMETRY):
        grid = Grid(nx, ny, corner, spacing, list(schemes(nx, ny))[0])
        data = grid.data()
        for p, perm in enumerate(perms):
            if n > 4 and not case['full'] and p % len(GEOMETRY) != g:
                continue
            ctx.state('order', nx, ny, g, perm)
            rows = [[data[l][k] for l in ALL] for k in perm]
            for plain in (False, True):
                if plain:
                    put(path, ('\n'.join([' '.join(ALL)] + [' '.join(
                        '%.6f' % v for v in r) for r in rows]) + '\n').encode())
                else:
                    put(path, np.array(rows, dtype='<f4').tobytes())
                with ctx.guard('reading bins in order %r' % (perm,)):
                    out, info, _ = read_data_file(path)
                    ctx.step()
                    if compare(ctx, '%dx%d bins in order %r, geometry %d' % (
                            nx, ny, perm, g), out, info, grid):
                        ctx.trace()
    ctx.nontrivial += 1


def run_shuffle(ctx, case, path):
    """Large maps with their bins stored in different orders."""
    from strata.dataformats.read import read_data_file
    nx, ny = case['shape']
    for g, (corner, spacing) in enumerate(GEOMETRY):
        grid = Grid(nx, ny, corner, spacing, list(schemes(nx, ny))[0])
        data = grid.data()
        for name, order in shuffles(nx, ny):
            rows = np.stack([data[l] for l in ALL], axis=1)[order]
            ctx.state('shuffle', nx, ny, g, name)
            for plain in (False, True):
                if plain:
                    put(path, ('\n'.join([' '.join(ALL)] + [' '.join(
                        '%.6f' % v for v in r) for r in rows]) + '\n').encode())
                else:
                    put(path, rows.astype('<f4').tobytes())
                what = '%dx%d bins stored %s, geometry %d' % (nx, ny, name, g)
                with ctx.guard(what):
                    out, info, _ = read_data_file(path)
                    ctx.step()
                    if compare(ctx, what, out, info, grid):
                        ctx.trace()
    ctx.nontrivial += 1
