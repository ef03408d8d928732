"""P36: results come from the maps, not from the form which they are stored in."""

import itertools
import os
import re
import warnings

import numpy as np

from checks.common import ALL, FIELDS, Grid, Quiet, gmx_bytes, parse_gmx, parse_plain, \
    parse_simple, plain_bytes, simple_bytes
from checks.p32 import picture

PROPERTY = 'P36'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all assignments of stored forms (format, order of '
             'bins, order of fields and columns, empty bins left out or written, ways '
             'to write numbers and headers) to the frames of a series, with every '
             'result of every tool on the real code compared with its result for the '
             'same maps in one form')
NOTE = ('16 forms, 3 grids and 39 settings of all tools which read maps: all series of '
        '3 frames in one form each, and all mixtures of 4 (thorough 6) forms over the '
        '3 frames (of one kind of format for averages of frames); every map of up to 6 bins in every order of its bins (thorough: 7), every order of '
        'header lines with comments at all places, and of fields and columns')
RULE = ('a case is one setting of a tool on one grid, or one shape of map; a state is '
        'one assignment of forms, or one map in one order')
ASSUMPTIONS = ['the values of the maps are exact in every form',
               'a conversion to the sparse format may place maps of the simple formats '
               'half a bin further (their origin is given differently, and the tests '
               'pin it)', 'averages are of frames of one kind of format']
CHUNK = 1


# -- forms ----------------------------------------------------------------------

def orders(grid):
    """{name: order of the bins} from the order along y first."""
    k = np.arange(grid.nx * grid.ny)
    return {
        'y first': k,
        'x first': k.reshape(grid.nx, grid.ny).T.ravel(),
        'reversed': k[::-1],
        'by seven': np.argsort((k * 7919) % (k.size + 1), kind='stable'),
        'two by two': np.concatenate((k[1::2], k[::2])),
    }


def sparse(grid, order='y first', every=False, fields=None, version=1, head=None):
    """Encode the sparse format in any order of bins, fields and header lines."""
    data = {l: grid.values[l].ravel() for l in FIELDS}
    ix, iy = [a.ravel() for a in np.meshgrid(
        np.arange(grid.nx), np.arange(grid.ny), indexing='ij')]
    keep = orders(grid)[order] if isinstance(order, str) else np.asarray(order)
    if not every:
        keep = keep[data['M'][keep] != 0.]
    fields = fields or ['IX', 'IY'] + FIELDS
    lines = {'ORIGIN': '%.6f %.6f' % grid.corner, 'SHAPE': '%d %d' % (
        grid.nx, grid.ny), 'SPACING': '%.6f %.6f' % grid.spacing,
        'NUMDATA': '%d' % keep.size, 'FIELDS': ' '.join(fields)}
    rows = ['FORMAT GMX_FLOW_%d' % version]
    for key in head or ('ORIGIN', 'SHAPE', 'SPACING', 'NUMDATA', 'FIELDS', 'COMMENT c'):
        rows.append('%s %s' % (key, lines[key.upper()]) if key.upper() in lines else key)
    out = ('\n'.join(rows) + '\n').encode('ascii') + b'\0'
    for l in fields:
        if l in ('IX', 'IY'):
            out += (ix if l == 'IX' else iy)[keep].astype('<u8').tobytes()
        else:
            out += data[l][keep].astype('<f4').tobytes()
    return out


def binary(grid, order='y first'):
    data = grid.data()
    keep = orders(grid)[order] if isinstance(order, str) else np.asarray(order)
    return np.array([data[l] for l in ALL], dtype='<f4').T[keep].tobytes()


def text(grid, order='y first', columns=ALL, form='%.6f', sep=' ', lead=''):
    data = grid.data()
    keep = orders(grid)[order] if isinstance(order, str) else np.asarray(order)
    rows = [lead + sep.join(columns)]
    for k in keep:
        rows.append(lead + sep.join(form % data[l][k] for l in columns))
    return ('\n'.join(rows) + '\n').encode('ascii')


FORMS = {
    'sparse': sparse,
    'sparse-all': lambda g: sparse(g, every=True),
    'sparse-2': lambda g: sparse(g, 'x first', version=2, head=(
        'COMMENT first', 'FIELDS', 'NUMDATA', 'COMMENT ' + 'x' * 990, 'SPACING',
        'COMMENT SHAPE 1 1', 'SHAPE', 'ORIGIN')),
    'sparse-fields': lambda g: sparse(g, 'reversed', fields=[
        'V', 'M', 'IY', 'T', 'IX', 'U', 'N']),
    'sparse-mixed': lambda g: sparse(g, 'by seven', every=True, fields=[
        'N', 'IX', 'T', 'M', 'U', 'V', 'IY']),
    'binary': binary,
    'binary-x': lambda g: binary(g, 'x first'),
    'binary-reversed': lambda g: binary(g, 'reversed'),
    'binary-mixed': lambda g: binary(g, 'by seven'),
    'text': text,
    'text-x': lambda g: text(g, 'x first'),
    'text-mixed': lambda g: text(g, 'two by two', form='%12.6f', lead='  '),
    'text-columns': lambda g: text(g, columns=['V', 'M', 'Y', 'T', 'X', 'U', 'N']),
    'text-powers': lambda g: text(g, 'reversed', form='%.9e', sep='\t'),
    'text-short': lambda g: text(g, form='%.12g', sep='   '),
    'text-long': lambda g: text(g, 'by seven', form='%+.12f', columns=ALL[::-1]),
}
MIXED = ('sparse', 'binary-x', 'text-columns', 'sparse-mixed')
MORE = MIXED + ('binary-mixed', 'text-mixed')
# Maps of one average have their origin in the same place of their bins
ALIKE = (('sparse', 'sparse-mixed', 'sparse-2', 'sparse-all'),
         ('binary-x', 'text-mixed', 'binary-mixed', 'text-columns'))
GRIDS = {'wide': (8, 4, (-1., 0.5), (0.5, 0.25)), 'far': (7, 5, (-96.5, -3.), (0.25, 0.5)),
         'fine': (10, 8, (3., 0.), (0.0625, 0.125))}


def droplet(frame, where):
    """Every bin and frame with its own values; some bins below a cut-off."""
    nx, ny, corner, spacing = GRIDS[where]
    grid = Grid(nx, ny, corner, spacing)
    spans = [((2, 5), (3, 5), (3, 4)), ((2, 5), (2, 5), (3, 4), (3, 3)),
             ((1, 5), (2, 5), (2, 5))][frame]
    if where == 'fine':
        spans = [(a, b + 2) for a, b in spans for _ in range(2)]
    for j, (a, b) in enumerate(spans):
        for i in range(a, b + 1):
            k = i * ny + j
            for l, v in zip(FIELDS, (1. + k % 3, 300. + 2. * k + frame,
                                     2. + 0.25 * (k % 5) + frame % 4,
                                     0.5 * (k - 9) + frame, 1. - 0.25 * k)):
                grid.values[l][i, j] = v
    return grid


# -- tools ------------------------------------------------------------------------

def average(inp, out, kw):
    from strata.average import average
    return average(inp + '/m', out, quiet=True, **kw)


def convert(inp, out, kw):
    from strata.convert import convert
    return convert(inp + '/m', out, quiet=True, **kw)


def collect(inp, out, kw):
    from strata.spreading.collect import collect
    return collect(inp + '/m', save=out, quiet=True, **kw)


def interface(inp, out, kw):
    from strata.interface.collect import collect_interfaces
    return collect_interfaces(inp + '/m', out, quiet=True, **kw)


def lines(inp, out, kw):
    from strata.contact_line_analysis import extract_contact_line_bins
    return extract_contact_line_bins(inp + '/m', out, quiet=True, **kw)


def line_sample(inp, out, kw):
    from strata.contact_line_analysis import sample_contact_line_edges
    return sample_contact_line_edges(inp + '/m', save=out, quiet=True, **kw)


def sample(inp, out, kw):
    from strata.sample_average import sample_average_files
    return sample_average_files(inp + '/m', output=out, quiet=True, verbose=False,
                                **kw)


def heights(inp, out, kw):
    from strata.view_flowmap import view_flowmap_2d
    return view_flowmap_2d(*[inp + '/m%05d.dat' % (i + 1) for i in range(3)], **kw)


def arrows(inp, out, kw):
    from strata.view_flowmap import view_flowfields
    return view_flowfields(*[inp + '/m%05d.dat' % (i + 1) for i in range(3)], **kw)


def per_angle(inp, out, kw):
    """Library functions on what the reader gives."""
    from droplets.flow import FlowData
    from droplets.sample import (sample_center_of_mass, sample_flow_angle,
                                 sample_inertial_energy, sample_per_angle_from,
                                 sample_viscous_dissipation)
    from strata.dataformats.read import read_data_file
    out = []
    for i in range(3):
        data, info, _ = read_data_file(inp + '/m%05d.dat' % (i + 1))
        flow = FlowData(*[(l, data[l]) for l in ALL], info=info)
        com = sample_center_of_mass(flow)
        out.append([list(com), plain(sample_inertial_energy(flow)),
                    plain(sample_viscous_dissipation(flow, 2.)),
                    plain(sample_flow_angle(flow, mean=True, weight='M')),
                    plain(sample_per_angle_from(flow.copy(), com, 'M'))])
    return out


def read(inp, out, kw):
    from strata.dataformats.read import read_from_files
    out = []
    for data, info, _ in read_from_files(*[inp + '/m%05d.dat' % (i + 1)
                                           for i in range(3)]):
        out.append([[plain(data[l]) for l in ALL], list(info['shape']),
                    list(info['spacing']), info['num_bins']])
    return out


SEARCH = {'cutoff': 1., 'cutoff_radius': 1.5, 'cutoff_bins': 1}
AREA = dict(SEARCH, extract_area=(2., 2.))
ANY = {'vlim': (None, None), 'clim': (None, None), 'show': True}
# Limits and floors as fractions of the grid, lengths in bins
SETTINGS = {
    'read': (read, {}),
    'library': (per_angle, {}),
    'convert-gmx': (convert, {'ftype': 'gmx'}),
    'convert-simple': (convert, {'ftype': 'simple'}),
    'convert-plain': (convert, {'ftype': 'simple_plain'}),
    'average': (average, {}),
    'average-2': (average, {'group': 2}),
    'average-3': (average, {'group': 3}),
    'average-rolling': (average, {'group': 2, 'rolling': True}),
    'average-limits': (average, {'xlim': (0.2, 0.8), 'ylim': (None, 0.7),
                                 'group': 3}),
    'average-com': (average, {'recenter': 'com', 'group': 3}),
    'average-left': (average, dict(SEARCH, recenter='left', group=3, floor=0.3)),
    'average-right': (average, dict(SEARCH, recenter='right')),
    'average-combine': (average, {'combine': (2, 2)}),
    'average-combine-3': (average, {'combine': (1, 2), 'group': 3,
                                    'ylim': (None, 0.75)}),
    'average-finer': (average, {'supersample': 2}),
    'average-finer-left': (average, dict(SEARCH, supersample=3, recenter='left',
                                         group=2)),
    'average-all': (average, {'supersample': 2, 'combine': (2, 2), 'group': 3,
                              'xlim': (0.1, 0.9)}),
    'collect': (collect, {'dt': 2.}),
    'collect-floor': (collect, dict(SEARCH, floor=0.3, t0=4.)),
    'collect-radius': (collect, {'cutoff_radius': 2., 'cutoff_bins': 0}),
    'interface': (interface, {'cutoff_radius': 2.}),
    'interface-zero': (interface, dict(SEARCH, recenter='zero')),
    'interface-com': (interface, dict(SEARCH, recenter='com', ylims=(0.3, None))),
    'lines': (lines, AREA),
    'lines-2': (lines, dict(AREA, average=2, rolling=True, recenter=True)),
    'lines-fuse': (lines, dict(AREA, fuse=True, recenter=True, floor=0.3)),
    'line-sample': (line_sample, dict(AREA, labels=['M', 'U', 'V', 'T', 'N'])),
    'line-sum': (line_sample, dict(AREA, labels=['T', 'visc_diss'], sum=True,
                                   average=3)),
    'line-angle': (line_sample, dict(AREA, labels=['flow_angle', 'inertial_energy'],
                                     average=2, rolling=True, dt=2.)),
    'sample': (sample, {'labels': list(FIELDS) + ['inertial_energy', 'visc_diss',
                                                  'flow_angle']}),
    'sample-cut': (sample, {'labels': ['T', 'visc_diss', 'flow_angle'],
                            'cutoff_label': 'M', 'xlim': (0.2, None)}),
    'sample-sum': (sample, {'labels': ['M', 'visc_diss', 'inertial_energy'],
                            'sum': True, 'ylim': (0., 0.8)}),
    'heights': (heights, dict(ANY, type='height', label='T', cutoff=1.5)),
    'heights-mass': (heights, dict(ANY, type='height', label='M')),
    'contours': (heights, dict(ANY, type='contour', label='visc_diss', filled=True)),
    'arrows': (arrows, {'colour': 'flow', 'cutoff': 1., 'xlim': (0.1, 0.9)}),
    'arrows-mass': (arrows, {'colour': 'M', 'labels': ('U', 'V')}),
    'streams': (arrows, {'streamlines': True, 'colour': 'M'}),
}


def options(name, where):
    """Options with limits and floors on the grid."""
    nx, ny, corner, spacing = GRIDS[where]
    kw = dict(SETTINGS[name][1])
    size = {'xlim': (corner[0], nx * spacing[0]), 'ylim': (corner[1], ny * spacing[1]),
            'ylims': (corner[1], ny * spacing[1]), 'floor': (corner[1],
                                                             ny * spacing[1])}
    for key, (start, length) in size.items():
        if key not in kw:
            continue
        at = lambda v: None if v is None else start + v * length
        kw[key] = tuple(at(v) for v in kw[key]) if key != 'floor' else at(kw[key])
    if 'combine' in kw and where == 'far':
        kw['combine'] = {(2, 2): (7, 5), (1, 2): (7, 1)}[kw['combine']]
        kw.pop('ylim', None)
    if name == 'average-all':
        if where == 'far':
            kw.pop('xlim')
            kw['combine'] = (2, 5)
        if where == 'fine':
            kw['xlim'] = (None, None)
    # Lengths which are given in bins
    far = max(spacing)
    if 'cutoff_radius' in kw:
        kw['cutoff_radius'] *= far
    if 'extract_area' in kw:
        kw['extract_area'] = tuple(n * d for n, d in zip(kw['extract_area'], spacing))
    return kw


def cases(tier):
    deep = tier != 'quick'
    for where in GRIDS:
        for name in SETTINGS:
            yield {'kind': 'tool', 'setting': name, 'grid': where, 'deep': deep}
    for shape in [(1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2), (5, 1),
                  (1, 5), (6, 1)] + ([(7, 1), (1, 7)] if deep else []):
        yield {'kind': 'orders', 'shape': list(shape)}
    for k in range(5):
        yield {'kind': 'headers', 'first': k}
    for k in range(7):
        yield {'kind': 'fields', 'first': k}


# -- results ------------------------------------------------------------------------

def plain(value):
    """A result as nested lists of numbers and words."""
    if value is None or isinstance(value, (str, bool)):
        return value
    if isinstance(value, dict):
        return sorted((str(k), plain(v)) for k, v in value.items())
    if isinstance(value, np.ndarray) and value.dtype.names:
        return [plain(value[l]) for l in value.dtype.names]
    if isinstance(value, np.ndarray):
        return np.asarray(value, dtype=float)
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if hasattr(value, '__iter__') and not hasattr(value, 'data'):
        return [plain(v) for v in value]
    try:
        return float(value)
    except (TypeError, ValueError):
        return type(value).__name__


def same(a, b, tol=1e-6):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol,
                                                  equal_nan=True)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1., abs(a))
    return a == b


def occupied(cols):
    """Sorted rows (X, Y, values) of the bins which hold anything."""
    rows = [[round(float(cols[l][k]), 6) if l in 'XY' else float(cols[l][k])
             for l in ALL] for k in range(len(cols['X']))]
    return sorted(r for r in rows if any(r[2:]))


def content(raw):
    """What a result file holds, whatever form it is in."""
    if raw.startswith(b'FORMAT'):
        return occupied(parse_gmx(raw)[0].data())
    if re.match(rb'\s*[XYNTMUV] ', raw):
        return occupied(parse_plain(raw))
    if raw[:1] in (b'#', b'@') or re.match(rb'\s*[-+0-9.]+[ \n]', raw):
        return [[float(v) for v in line.split()]
                for line in raw.decode('ascii').splitlines()
                if line.strip() and line[:1] not in '#@&']
    return occupied(parse_simple(raw))


def execute(ctx, name, where, inp):
    """(end, returned value, {file: content}, figures)."""
    import matplotlib.pyplot as plt
    kw = options(name, where)
    out = ctx.tmpdir()
    shown, returned, end = [], None, 'done'
    old, layout = plt.show, plt.tight_layout
    plt.show = lambda *a, **k: shown.append(picture())
    plt.tight_layout = lambda *a, **k: None
    try:
        with Quiet():
            try:
                returned = SETTINGS[name][0](inp, out + '/r', kw)
            except (Exception, SystemExit) as err:
                end = '%s: %.80s' % (type(err).__name__, err)
    finally:
        plt.show, plt.tight_layout = old, layout
        plt.close('all')
    files = {}
    for path in sorted(os.listdir(out)):
        with open(out + '/' + path, 'rb') as fp:
            files[path] = content(fp.read())
        os.unlink(out + '/' + path)
    if name.startswith('lines'):
        returned = None
    if name == 'convert-gmx':
        # the formats give origins differently, by half a bin
        for rows in files.values():
            x, y = (min(r[a] for r in rows) for a in (0, 1)) if rows else (0., 0.)
            for r in rows:
                r[:2] = [r[0] - x, r[1] - y]
    return end, plain(returned), files, shown


def difference(got, want):
    if got[0] != want[0]:
        return 'ended by %s, not %s' % (got[0], want[0])
    if sorted(got[2]) != sorted(want[2]):
        return 'wrote %s, not %s' % (sorted(got[2]), sorted(want[2]))
    for path in want[2]:
        a, b = got[2][path], want[2][path]
        if len(a) != len(b):
            return '%s has %d rows or bins, not %d' % (path, len(a), len(b))
        for k, (r, s) in enumerate(zip(a, b)):
            if not same(r, s, 1.5e-5):
                return '%s: row or bin %d is %s, not %s' % (path, k, r, s)
    if not same(got[1], want[1]):
        return 'returned %.300s, not %.300s' % (got[1], want[1])
    if len(got[3]) != len(want[3]):
        return 'shows %d figures, not %d' % (len(got[3]), len(want[3]))
    for k, (a, b) in enumerate(zip(got[3], want[3])):
        if len(a) != len(b) or not all(same(x, y, 1e-5) for x, y in zip(a, b)):
            return 'figure %d shows something else' % (k + 1)
    return None


def run(ctx, case):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import matplotlib
    matplotlib.use('Agg')
    {'tool': run_tool, 'orders': run_orders, 'headers': run_headers,
     'fields': run_fields}[case['kind']](ctx, case)


def run_tool(ctx, case):
    name, where = case['setting'], case['grid']
    raws = [{f: FORMS[f](droplet(i, where)) for f in FORMS} for i in range(3)]
    inp = ctx.tmpdir()

    def put(forms):
        for i, f in enumerate(forms):
            with open('%s/m%05d.dat' % (inp, i + 1), 'wb') as fp:
                fp.write(raws[i][f])

    put(('sparse',) * 3)
    want = execute(ctx, name, where, inp)
    ctx.step()
    if not ctx.check(want[0] == 'done', lambda: '%s of sparse maps ended by %s' % (
            name, want[0])):
        return
    if not ctx.check(want[1] is not None or any(want[2].values()) or want[3], lambda:
                     '%s gives nothing' % name):
        return
    todo = [(f,) * 3 for f in FORMS]
    for mixed in (ALIKE if SETTINGS[name][0] is average and 'group' in SETTINGS[name][1]
                  else (MORE,) if case['deep'] else (MIXED,)):
        if name == 'streams':
            mixed = MIXED if case['deep'] else mixed[:2]
        todo += [t for t in itertools.product(mixed, repeat=3) if t not in todo]
    for forms in todo:
        put(forms)
        ctx.state(name, where, forms)
        got = execute(ctx, name, where, inp)
        ctx.step()
        if ctx.check(difference(got, want) is None, lambda:
                     '%s of %s maps stored as %s: %s' % (
                         name, where, ', '.join(forms), difference(got, want))):
            ctx.trace()
    ctx.sample(setting=name, grid=where, forms=len(todo), files=len(want[2]),
               figures=len(want[3]))


def run_orders(ctx, case):
    """Every order of the bins of small maps, in every format."""
    from strata.dataformats.read import read_data_file
    nx, ny = case['shape']
    grid = Grid(nx, ny, (-1.5, 0.25), (0.5, 0.25))
    n = nx * ny
    for k, l in enumerate(FIELDS):
        grid.values[l][:] = (1. + (np.arange(n) * (k + 2)) % 5 - (
            2.5 if l in 'UV' else 0.)).reshape(nx, ny)
    want = grid.data()
    top = ctx.tmpdir()
    path = top + '/m.dat'
    for order in itertools.permutations(range(n)):
        for form, raw in (('sparse', sparse(grid, order)), ('binary', binary(
                grid, order)), ('text', text(grid, order))):
            with open(path, 'wb') as fp:
                fp.write(raw)
            ctx.state(form, nx, ny, order)
            what = lambda: 'a %s map of %d x %d bins stored in the order %s' % (
                form, nx, ny, order)
            with ctx.guard(what()):
                data, info, _ = read_data_file(path)
                ok = all(np.allclose(data[l], want[l], rtol=1e-6, atol=1e-6)
                         for l in ALL) and tuple(info['shape']) == (nx, ny)
                if ctx.check(ok, lambda: '%s is read as %s, %s' % (what(), data, info)):
                    ctx.trace()
    ctx.step(n)
    ctx.sample(shape=[nx, ny])


def numbered(nx, ny):
    grid = Grid(nx, ny, (-1.5, 0.25), (0.5, 0.125))
    for k, l in enumerate(FIELDS):
        grid.values[l][:] = (1. + (np.arange(nx * ny) * (k + 2)) % 5 - (
            2.5 if l in 'UV' else 0.)).reshape(nx, ny)
    return grid


def compare(ctx, what, path, raw, grid, whole):
    from strata.dataformats.read import read_data_file
    with open(path, 'wb') as fp:
        fp.write(raw)
    with ctx.guard(what()):
        data, info, _ = read_data_file(path)
        want = grid.data()
        ok = all(np.allclose(data[l], want[l], rtol=1e-6, atol=1e-6) for l in ALL) \
            and tuple(info['shape']) == (grid.nx, grid.ny) \
            and np.allclose(info['spacing'], grid.spacing, atol=1e-5) \
            and (not whole or np.allclose(info['origin'], grid.corner, atol=1e-6))
        if ctx.check(ok, lambda: '%s is read as %s, %s' % (what(), data, info)):
            ctx.trace()
    ctx.step()


def run_headers(ctx, case):
    """Every order of the header lines, with comments between any two of them."""
    keys = ('ORIGIN', 'SHAPE', 'SPACING', 'NUMDATA', 'FIELDS')
    path = ctx.tmpdir() + '/m.dat'
    grid = numbered(3, 2)
    for order in itertools.permutations(keys):
        if order[0] != keys[case['first']]:
            continue
        for bits in range(1 << 6):
            # one comment looks like another header line
            head = []
            for k in range(6):
                if bits >> k & 1:
                    head.append('COMMENT ' + ('SHAPE 1 1', 'of a map', 'FIELDS N')[k % 3])
                head += order[k:k + 1]
            ctx.state(order, bits)
            # keywords can be in lower case
            head = [k.lower() if bits % 3 == 1 else k for k in head]
            compare(ctx, lambda: 'a map with the header %s' % head, path,
                    sparse(grid, head=head), grid, True)
    ctx.sample(first=keys[case['first']])


def run_fields(ctx, case):
    """Every order of the stored fields, and of the columns of a text."""
    path = ctx.tmpdir() + '/m.dat'
    grid = numbered(2, 3)
    names = ['IX', 'IY'] + FIELDS
    for order in itertools.permutations(names):
        if order[0] != names[case['first']]:
            continue
        columns = [{'IX': 'X', 'IY': 'Y'}.get(l, l) for l in order]
        ctx.state(order)
        compare(ctx, lambda: 'a sparse map of fields %s' % (order,), path,
                sparse(grid, fields=list(order)), grid, True)
        compare(ctx, lambda: 'a text of columns %s' % columns, path,
                text(grid, columns=columns), grid, False)
    ctx.sample(first=names[case['first']])
