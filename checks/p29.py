"""P29: map files which are cut short."""

import itertools
import os
import struct
import warnings

import numpy as np

from checks.common import (FIELDS, Grid, Quiet, close, gmx_bytes, simple_bytes,
                           snapshot)

PROPERTY = 'P29'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of every prefix of every file of small maps '
             '(all patterns of filled bins, several headers and field orders), '
             'each read by the real readers and passed through the tools')
NOTE = ('exhaustive for all lengths of all files with up to 4 (quick) or 6 '
        '(thorough) bins, of files written by the tool and by an independent '
        'encoder, of some larger maps, and of every bin index outside of its grid')
RULE = ('a case is one grid shape, encoder and block of occupancy patterns; '
        'every prefix of every file is read')
ASSUMPTIONS = ['a simple binary file which ends between two bins is itself a '
               'valid file']
CHUNK = 2


def cases(tier):
    thorough = tier == 'thorough'
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (4, 1)]
    if thorough:
        shapes += [(2, 3), (3, 2), (1, 5), (6, 1)]
    for nx, ny in shapes:
        for enc in range(4):
            n = 1 << (nx * ny)
            for lo in range(0, n, 8):
                yield {'kind': 'prefix', 'shape': [nx, ny], 'enc': enc,
                       'lo': lo, 'hi': min(n, lo + 8)}
        for style in range(3):
            yield {'kind': 'simple', 'shape': [nx, ny], 'style': style}
        yield {'kind': 'outside', 'shape': [nx, ny]}
    for shape in ((17, 13), (40, 2)) + (((31, 30),) if thorough else ()):
        for enc in range(4):
            for part in range(4):
                yield {'kind': 'large', 'shape': list(shape), 'enc': enc,
                       'part': part}
        yield {'kind': 'large', 'shape': list(shape), 'enc': 'simple', 'part': 0}
    for fmt in ('gmx', 'simple'):
        for frame in range(3):
            for tool in ('convert', 'average', 'interface', 'spreading',
                         'contact_line', 'sample'):
                yield {'kind': 'tools', 'fmt': fmt, 'frame': frame,
                       'tool': tool, 'every': 1 if thorough else 5}


def content(nx, ny, bits, style=0):
    grid = Grid(nx, ny, (-1., 2.), (0.5, 0.25))
    for i in range(nx):
        for j in range(ny):
            k = i * ny + j
            if bits >> k & 1:
                vals = ((1. + k, 300. + k, 2. ** k, 0.5 - k, 1. + k),
                        (2., 2., 2., 2., 2.),
                        # bytes which are digits, blanks and newlines
                        tuple(struct.unpack('<f', s)[0] for s in
                              (b'1 1 ', b'1\n1\n', b'0.5\n', b' 1.0', b'\t2\r\n'))
                        )[style]
                for l, v in zip(FIELDS, vals):
                    grid.values[l][i, j] = v
    return grid


def encode(ctx, grid, enc, path):
    if enc == 0:
        from strata.dataformats.write import write
        with Quiet():
            write(path, grid.data(), grid.info())
        with open(path, 'rb') as fp:
            raw = fp.read()
        os.unlink(path)
        return raw
    if enc == 1:
        return gmx_bytes(grid)
    if enc == 2:
        return gmx_bytes(grid, version=2, fields=[
            'V', 'M', 'IY', 'T', 'IX', 'U', 'N'], comments=['x' * 1100])
    return gmx_bytes(grid, fields=['IY', 'M', 'N', 'T', 'U', 'V', 'IX'],
                     comments=['', 'FIELDS X Y', '0 1 2 3'])


def refused(ctx, read, path, raw, what):
    with open(path, 'wb') as fp:
        fp.write(raw)
    ctx.step()
    try:
        with Quiet():
            data, info, _ = read(path)
    except Exception:
        ctx.trace()
        return True
    return ctx.fail('%s is read as a map: %s, %s bins, M %s' % (
        what, info, {l: np.size(v) for l, v in data.items()},
        np.asarray(data.get('M')).tolist()))


def run(ctx, case):
    warnings.simplefilter('ignore')
    {'prefix': run_prefix, 'simple': run_simple, 'outside': run_outside, 'large': run_large,
     'tools': run_tools}[case['kind']](ctx, case)


def run_prefix(ctx, case):
    from strata.dataformats.read import read_data_file as read
    nx, ny = case['shape']
    path = ctx.tmpdir() + '/m00001.dat'
    for bits in range(case['lo'], case['hi']):
        grid = content(nx, ny, bits)
        raw = encode(ctx, grid, case['enc'], path)
        # the whole file is a map
        with open(path, 'wb') as fp:
            fp.write(raw)
        data, info, _ = read(path)
        ctx.check(close(np.sum(data['M']), grid.values['M'].sum()),
                  'pattern %s of %s is not read back' % (bin(bits), (nx, ny)))
        os.unlink(path)
        head = raw.index(b'\0')
        for n in range(len(raw)):
            if 200 < n < head - 40 and case['enc'] in (0, 2) and \
                    bits != case['lo']:
                continue        # the same long comments
            ctx.state(nx, ny, case['enc'], bits, n)
            refused(ctx, read, path, raw[:n],
                    'file of pattern %s of %s (encoder %d, %d bytes) cut to %d'
                    % (bin(bits), (nx, ny), case['enc'], len(raw), n))
    ctx.sample(shape=[nx, ny], bytes=len(raw))


def run_simple(ctx, case):
    from strata.dataformats.read import read_data_file as read
    nx, ny = case['shape']
    path = ctx.tmpdir() + '/m00001.dat'
    for bits in (0, 1, (1 << nx * ny) - 1):
        raw = simple_bytes(content(nx, ny, bits, case['style']))
        for n in range(len(raw)):
            if n % 28 == 0 and n:
                continue
            ctx.state('simple', nx, ny, case['style'], bits, n)
            refused(ctx, read, path, raw[:n], 'simple file of pattern %s of %s '
                    '(style %d) cut to %d of %d bytes' % (
                        bin(bits), (nx, ny), case['style'], n, len(raw)))
    ctx.sample(shape=[nx, ny], bytes=len(raw))


def run_large(ctx, case):
    """Files of larger maps, cut anywhere."""
    from strata.dataformats.read import read_data_file as read
    nx, ny = case['shape']
    path = ctx.tmpdir() + '/m00001.dat'
    grid = Grid(nx, ny, (-1., 2.), (0.5, 0.25))
    k = np.arange(nx * ny).reshape(nx, ny)
    for n, l in enumerate(FIELDS):
        grid.values[l] = (k * (3 + n) % 17 + 1.) * (k % (case['part'] + 5) > 0)
    raw = simple_bytes(grid) if case['enc'] == 'simple' else \
        encode(ctx, grid, case['enc'], path)
    step = 1 if case['enc'] != 'simple' else 5
    for n in range(case['part'], len(raw), 4 * step):
        if case['enc'] == 'simple' and n % 28 == 0:
            continue
        ctx.state('large', nx, ny, case['enc'], n)
        refused(ctx, read, path, raw[:n], 'file of %s bins (encoder %s, %d bytes) '
                'cut to %d' % ((nx, ny), case['enc'], len(raw), n))
    ctx.sample(shape=[nx, ny], bytes=len(raw))


def run_outside(ctx, case):
    """Bins which are not on the grid are not moved onto it."""
    from strata.dataformats.read import read_data_file as read
    nx, ny = case['shape']
    path = ctx.tmpdir() + '/m00001.dat'
    grid = content(nx, ny, (1 << nx * ny) - 1)
    raw = gmx_bytes(grid)
    start = raw.index(b'\0') + 1
    n = nx * ny
    for axis, size in ((0, nx), (1, ny)):
        for k in range(n):
            for bad in (size, size + 1, 1 << 20, (1 << 62) + 5, (1 << 63) - 1):
                at = start + (axis * n + k) * 8
                new = raw[:at] + struct.pack('<Q', bad) + raw[at + 8:]
                ctx.state('outside', nx, ny, axis, k, bad)
                refused(ctx, read, path, new, 'file with %s index %d of bin %d '
                        'on a grid of %s' % ('XY'[axis], bad, k, (nx, ny)))


def run_tools(ctx, case):
    """A tool does not write a result for a frame which is cut short."""
    from checks import tools
    names = {'convert': 'convert-simple', 'average': 'average',
             'interface': 'interface-collect', 'spreading': 'spreading-collect',
             'contact_line': 'contact-line-collect', 'sample': 'sample'}
    tool, fmt, frame = names[case['tool']], case['fmt'], case['frame']
    base = ctx.tmpdir()
    inp = base + '/in'
    tools.make_inputs(inp, 3, 1, fmt)
    bad = '%s/m%05d.dat' % (inp, 1 + frame)
    with open(bad, 'rb') as fp:
        raw = fp.read()
    with Quiet():
        tools.run_tool(tool, inp, base + '/full/t')
    full = snapshot(base + '/full')
    files = tools.outputs_of(tool, 't', 3)
    if not ctx.check(sorted(full) == sorted(files), '%s wrote %s' % (
            tool, sorted(full))):
        return
    for n in range(case['every'] - 1, len(raw), case['every']):
        if fmt == 'simple' and n % 28 == 0:
            continue
        with open(bad, 'wb') as fp:
            fp.write(raw[:n])
        out = '%s/o%d' % (base, n)
        ctx.state(tool, fmt, frame, n)
        ctx.step()
        try:
            tools.run_tool(tool, inp, out + '/t')
        except Exception:
            pass
        found = snapshot(out) if os.path.isdir(out) else {}
        what = '%s with frame %d (%s) cut to %d bytes' % (tool, 1 + frame, fmt, n)
        if tool in tools.SERIES:
            ok = ctx.check(files[frame] not in found,
                           '%s: wrote a result for that frame' % what)
            for k in range(frame):
                ok &= ctx.check(files[k] in found and tools.normal(
                    found[files[k]]) == tools.normal(full[files[k]]),
                    '%s: result of frame %d is missing or differs' % (what, k + 1))
        else:
            def rows(raw):
                return [l for l in raw.decode().split('\n')
                        if l and l[0] not in '#@']
            got, want = rows(found.get('t', b'')), rows(full['t'])
            ok = ctx.check(got == want[:len(got)] and len(got) <= frame,
                           lambda: '%s: wrote %s, the whole series gives %s' % (
                               what, got, want))
        if ok:
            ctx.trace()
    ctx.sample(tool=tool, bytes=len(raw))
