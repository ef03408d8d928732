"""P33: results follow a droplet which is measured, moved or mirrored otherwise."""

import itertools
import os
import warnings

import numpy as np

from checks.common import FIELDS, Grid, Quiet, gmx_bytes, parse_gmx, simple_bytes

PROPERTY = 'P33'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of all droplets of small maps (every interval of '
             'filled bins in every layer) as series of frames, run through the tools '
             'as they are and after every change of unit, position and direction, with '
             'the second results compared with the first ones after the same change')
NOTE = ('all frames with an interval of bins in both layers of maps of 5 columns (of 4 '
        'columns and 3 layers in the thorough tier) and all outlines of 3 layers of a '
        'small alphabet, 38 settings of the tools, and 16 changes: the units of mass, '
        'number, temperature, flow, length and time, moves along x and y and their '
        'combinations, and mirroring')
RULE = ('a case is one setting and one change over all frames; a state is one frame or '
        'bundle of frames under it')
ASSUMPTIONS = ['the changes are by powers of two and whole bins, so that they are exact',
               'text results are compared to the digits which they are given in']
CHUNK = 1

NX, NY = 5, 2
CORNER, SPACING = (-1., 0.5), (0.5, 0.25)


class Change(object):
    """A change of units (factors), position (in the new unit) and direction."""

    def __init__(self, name, M=1., N=1., T=1., F=1., L=1., t=1., x=0., y=0.,
                 mirror=False):
        self.name, self.x, self.y, self.mirror = name, x, y, mirror
        self.unit = {'M': M, 'N': N, 'T': T, 'F': F, 'L': L, 't': t, '1': 1.}

    def factor(self, dim):
        """Factor of a dimension such as 'M F F'."""
        out = 1.
        for part in dim.split():
            out *= 1. / self.unit[part[1:]] if part[0] == '/' else self.unit[part]
        return out

    def value(self, dim, v):
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, (list, tuple)):
            if dim == 'xlim':
                lims = [self.value('x', u) for u in v]
                return tuple(lims[::-1] if self.mirror else lims)
            return tuple(self.value(d, u) for d, u in zip(dim, v))
        if dim in ('x', 'c', 'U'):
            v = -v if self.mirror else v
            dim = {'U': 'F'}.get(dim, dim)
        if dim == 'x':
            return v * self.unit['L'] + self.x
        if dim == 'y':
            return v * self.unit['L'] + self.y
        return v * self.factor('L' if dim == 'c' else dim)

    def grid(self, grid, dim='x'):
        """Changed map; `dim` 'c' if its positions are relative."""
        lx, ly = grid.spacing
        x, y = grid.corner
        if self.mirror:
            x = -(x + grid.nx * lx)
        far = {'x': (self.x, self.y), 'l': (self.x, 0.), 'c': (0., 0.)}[dim]
        out = Grid(grid.nx, grid.ny, (x * self.unit['L'] + far[0],
                                      y * self.unit['L'] + far[1]),
                   (lx * self.unit['L'], ly * self.unit['L']))
        for l, d in zip(FIELDS, ('N', 'T', 'M', 'F', 'F')):
            v = grid.values[l] * self.unit[d]
            if self.mirror:
                v = v[::-1] * (-1. if l == 'U' else 1.)
            out.values[l][:] = v
        return out


CHANGES = [
    Change('light', M=2. ** -80), Change('heavy', M=2. ** 40),
    Change('few', N=2. ** -30), Change('many', N=2. ** 70),
    Change('cold', T=2. ** -20), Change('slow', F=2. ** -24),
    Change('fast', F=2. ** 20),
    Change('large', L=8.), Change('late', t=4.),
    Change('right', x=0.5 * 17), Change('left', x=-0.5 * 512),
    Change('up', y=0.25 * 40), Change('down', y=-0.25 * 6),
    Change('mirrored', mirror=True),
    Change('other way', mirror=True, F=2. ** 6, L=2., x=3. * 11),
    Change('all', M=2. ** 20, N=2. ** -10, T=2. ** 3, F=2. ** -5, L=4., t=2.,
           x=2. * 40, y=-1. * 9),
]
BY_NAME = {c.name: c for c in CHANGES}


# -- inputs -------------------------------------------------------------------

def intervals(n):
    return [(a, b) for a in range(n) for b in range(a, n)]


def frame(spans, nx, ny, k):
    grid = Grid(nx, ny, CORNER, SPACING)
    for j, span in enumerate(spans):
        for i in range(span[0], span[1] + 1):
            m = i * ny + j
            for l, v in zip(FIELDS, (1. + (m + k) % 3, 256. + 2. * m, 4. + (m * m + k) % 3,
                                     0.25 * ((m * 5 + k) % 11) - 1.125,
                                     0.5 * ((m + k) % 7) - 1.25)):
                grid.values[l][i, j] = v
    return grid


def droplets(part):
    """Frames of a case; `part` picks the upper layers of the larger maps."""
    if part is None:
        spans = itertools.product(intervals(NX), repeat=2)
        return [frame(s, NX, NY, k) for k, s in enumerate(spans)]
    top = intervals(4)[part]
    return [frame(s + (top,), 4, 3, k) for k, s in enumerate(
        itertools.product(intervals(4), repeat=2))]


def outlines(part):
    """Lists of coordinates: left side upwards, right side downwards."""
    out = []
    steps = (-0.5, 0., 0.25, 1.) if part is None else (-1., 0.5, 0.75)
    for a, b, c, d in itertools.product(steps, repeat=4):
        left = [(-3., 0.25), (-3. + a, 0.5), (-3. + a + b, 0.75)]
        right = [(2.5, 0.25), (2.5 - c, 0.5), (2.5 - c - d, 0.75)]
        out.append(left + right[::-1])
    return out


def mirrored(points):
    return [(-x, y) for x, y in points[::-1]]


CURVES = [[(0.5 * i, c * (1. + 0.5 * i) ** p) for i in range(7)]
          for c, p in ((1., 1.), (1.5, 0.5), (0.75, 2.))]


def make(folder, change, part, kind):
    """Input files after the change, and the number of them."""
    if kind == 'maps':
        frames = droplets(part)
        for k, grid in enumerate(frames):
            with open('%s/m%05d.dat' % (folder, k + 1), 'wb') as fp:
                grid = change.grid(grid)
                # the file holds as many digits of its corner as are needed
                fp.write(gmx_bytes(grid))
        return len(frames)
    if kind == 'outlines':
        frames = outlines(part)
        for k, points in enumerate(frames):
            if change.mirror:
                points = mirrored(points)
            scale = change.unit['L']
            rows = ['%.6f %.6f' % (x * scale + change.x, y * scale + change.y)
                    for x, y in points]
            with open('%s/i%05d.xvg' % (folder, k + 1), 'w') as fp:
                fp.write('# outline\n' + '\n'.join(rows) + '\n')
        return len(frames)
    for k, curve in enumerate(CURVES):
        rows = ['%.9f %.9f' % (t * change.unit['t'], r * change.unit['L'])
                for t, r in curve]
        with open('%s/s%d.xvg' % (folder, k), 'w') as fp:
            fp.write('# curve\n' + '\n'.join(rows) + '\n')
    return len(CURVES)


# -- settings: (call, input, options, output, changes it is not compared under) ---

def average(inp, out, kw):
    from strata.average import average
    return average(inp + '/m', out, quiet=True, **kw)


def convert(inp, out, kw):
    from strata.convert import convert
    return convert(inp + '/m', out, quiet=True, **kw)


def collect(inp, out, kw):
    from strata.spreading.collect import collect
    return collect(inp + '/m', save=out, quiet=True, **kw)


def interface(inp, out, kw):
    from strata.interface.collect import collect_interfaces
    return collect_interfaces(inp + '/m', out, quiet=True, **kw)


def area(inp, out, kw):
    from strata.interface.sample import sample_interfaces
    return sample_interfaces(inp + '/i', save_xvg=out, quiet=True, show=False, **kw)


def angle(inp, out, kw):
    from strata.interface.angle import interface_contact_angle
    return interface_contact_angle(inp + '/i', save_xvg=out, quiet=True, show=False,
                                   **kw)


def view(inp, out, kw):
    from strata.interface.view import view_interfaces
    return view_interfaces(inp + '/i', save_xvg=out, quiet=True, show=False, **kw)


def lines(inp, out, kw):
    from strata.contact_line_analysis import extract_contact_line_bins
    return extract_contact_line_bins(inp + '/m', out, quiet=True, **kw)


def line_sample(inp, out, kw):
    from strata.contact_line_analysis import sample_contact_line_edges
    return sample_contact_line_edges(inp + '/m', save=out, quiet=True, **kw)


def sample(inp, out, kw):
    from strata.sample_average import sample_average_files
    return sample_average_files(inp + '/m', output=out, quiet=True, verbose=False,
                                **kw)


def fit(inp, out, kw):
    from strata.spreading.fit import fit_spreading_data
    files = [inp + '/s%d.xvg' % k for k in range(len(CURVES))]
    return fit_spreading_data(files, save_xvg=out, show=False, **kw)


def spread_view(inp, out, kw):
    from strata.spreading.view import view_spreading
    files = [inp + '/s%d.xvg' % k for k in range(len(CURVES))]
    return view_spreading(files, save_xvg=out, show=False, **kw)


SEARCH = {'cutoff': (1., 'M'), 'cutoff_radius': (0.75, 'L'), 'cutoff_bins': (1, None)}
# every bin with mass is of the droplet
EVERY = dict(SEARCH, cutoff_bins=(0, None))
FLOOR = {'floor': (0.6875, 'y')}
AREA = {'extract_area': ((1., 0.25), ('L', 'L'))}
MIRROR = ('mirrored', 'other way')
SETTINGS = {
    'convert': (convert, 'maps', {}, 'maps', ()),
    'average': (average, 'maps', {}, 'maps', ()),
    'average-4': (average, 'maps', {'group': (4, None)}, 'maps', ()),
    'average-rolling': (average, 'maps', {'group': (3, None), 'rolling': (True, None),
                                          'end': (60, None)}, 'maps', ()),
    'average-combine': (average, 'maps', {'combine': ((5, 2), None),
                                          'group': (2, None)}, 'maps', ()),
    'average-finer': (average, 'maps', {'supersample': (2, None), 'end': (40, None)},
                      'maps', ()),
    'average-limits': (average, 'maps', {
        'xlim': ((-0.5, 1.), 'xlim'), 'ylim': ((0.75, None), ('y', 'y')),
        'group': (5, None)}, 'maps', ()),
    'average-com': (average, 'maps', {'recenter': ('com', None), 'group': (2, None)},
                    'maps-c', MIRROR),
    'average-left': (average, 'maps', dict(
        EVERY, recenter=('left', None), group=(3, None)),
        'maps-c', MIRROR),
    'average-right-floor': (average, 'maps', dict(
        EVERY, recenter=('right', None), **FLOOR), 'maps-c',
        MIRROR),
    'collect': (collect, 'maps', dict(SEARCH, dt=(2., 't')), 'edges', ()),
    'collect-floor': (collect, 'maps', dict(SEARCH, dt=(0.5, 't'), t0=(8., 't'),
                                            **FLOOR), 'edges', ()),
    'collect-half': (collect, 'maps', {'cutoff_radius': (1., 'L')}, 'edges', ()),
    'interface': (interface, 'maps', EVERY, 'outline-l', ()),
    'interface-zero': (interface, 'maps', dict(EVERY, recenter=('zero', None)),
                       'outline-c', ()),
    'interface-com': (interface, 'maps', dict(EVERY, recenter=('com', None)),
                      'outline-c', ()),
    'interface-upper': (interface, 'maps', dict(
        EVERY, ylims=((0.75, None), ('y', 'y'))), 'outline-l', ()),
    'area': (area, 'outlines', {'variable': ('area', None), 'delta_t': (2., 't')},
             ('t', 'L L'), ()),
    'length': (area, 'outlines', {'variable': ('length', None)}, ('1', 'L'), ()),
    'angle': (angle, 'outlines', {'height': (0.5, 'L'), 'delta_t': (4., 't')},
              'angles', ()),
    'angle-fit': (angle, 'outlines', {'height': (0.25, 'L'), 'fit': (True, None)},
                  'angles', ('up', 'down', 'all')),
    'view': (view, 'outlines', {'average': (1, None)}, 'outline', ()),
    'view-3': (view, 'outlines', {'average': (3, None)}, 'outline', ()),
    'lines': (lines, 'maps', dict(EVERY, end=(60, None), **AREA), 'lines', ()),
    'lines-2': (lines, 'maps', dict(EVERY, average=(2, None), recenter=(True, None),
                                    fuse=(True, None), end=(60, None), **AREA),
                'lines-c', MIRROR),
    'line-sample': (line_sample, 'maps', dict(
        EVERY, labels=(['M', 'U', 'V', 'T', 'N'], None), dt=(2., 't'),
        end=(60, None), **AREA), ('t', 'M', 'F', 'F', 'T', 'N'), ()),
    'line-sum': (line_sample, 'maps', dict(
        EVERY, labels=(['M', 'T'], None), sum=(True, None), average=(2, None),
        end=(60, None), **AREA), ('1', 'M', 'T'), MIRROR),
    'sample': (sample, 'maps', {'labels': (['M', 'U', 'T', 'inertial_energy'], None),
                                'dt': (2., 't')},
               ('t', 'M', 'M', 'U', 'F', 'T', 'T', 'M F F', 'M F F'), ()),
    'sample-cut': (sample, 'maps', {
        'labels': (['V', 'N'], None), 'cutoff_label': ('M', None),
        'cutoff': (5., 'M'), 'xlim': ((-1.125, 1.125), 'xlim')},
        ('1', 'F', 'F', 'N', 'N'), ()),
    'sample-sum': (sample, 'maps', {
        'labels': (['visc_diss', 'M'], None), 'sum': (True, None),
        'viscosity': (2., 'M')}, ('1', 'M F F /L /L', 'M'), ()),
    'sample-heat': (sample, 'maps', {
        'labels': (['T'], None), 'cutoff_label': ('T', None)}, ('1', 'T', 'T'), ()),
    'sample-angle': (sample, 'maps', {
        'labels': (['flow_angle', 'M'], None), 'cutoff_label': ('M', None)},
        'angle', MIRROR),
    'lines-half': (lines, 'maps', {
        'cutoff_radius': (0.75, 'L'), 'cutoff_bins': (0, None), 'end': (40, None),
        'extract_area': ((0.5, 0.25), ('L', 'L'))}, 'lines', ()),
    'line-rolling': (line_sample, 'maps', dict(
        EVERY, labels=(['U', 'inertial_energy'], None), average=(3, None),
        rolling=(True, None), end=(60, None), dt=(2., 't'), **AREA),
        ('t', 'F', 'M F F'), MIRROR),
    'fit': (fit, 'curves', {'lims': ((0.25, 2.75), ('t', 't'))}, 'fit', ()),
    'curves': (spread_view, 'curves', {}, 'curves', ()),
    'curves-scaled': (spread_view, 'curves', {'tau': (2., 't'), 'R': (0.5, 'L')},
                      'curves-scaled', ()),
}
CURVE_CHANGES = ('large', 'late', 'all')


def cases(tier):
    for part in [None] + (list(range(10)) if tier == 'thorough' else []):
        for name, (_, kind, _, _, omit) in SETTINGS.items():
            for change in CHANGES:
                if change.name in omit:
                    continue
                if kind == 'curves' and (change.name not in CURVE_CHANGES
                                         or part is not None):
                    continue
                if kind == 'outlines' and part not in (None, 0):
                    continue
                yield {'setting': name, 'change': change.name, 'part': part}


# -- one run --------------------------------------------------------------------

def rows_of(raw):
    """Columns of every row of numbers, the sets of a graph split."""
    out = []
    for line in raw.decode('utf-8').splitlines():
        if line[:1] == '&':
            out.append('&')
        elif line.strip() and line[:1] not in '#@':
            out.append([float(v) for v in line.split()])
    return out


def execute(ctx, name, change, part):
    """(end, {file: raw}) of the tool."""
    import matplotlib.pyplot as plt
    call, kind, options, _, _ = SETTINGS[name]
    top = ctx.tmpdir()
    inp, out = top + '/' + change.name, top + '/out-' + change.name
    os.makedirs(inp)
    os.makedirs(out)
    count = make(inp, change, part, kind)
    kw = {}
    for key, (v, dim) in options.items():
        if dim is not None:
            v = change.value(dim, v)
        if key == 'combine' and part is not None:
            v = (2, 3)          # divides the shape of these maps
        kw[key] = list(v) if isinstance(v, tuple) and key not in (
            'xlim', 'ylim', 'ylims', 'combine', 'extract_area', 'lims') else v
    end = None
    layout = plt.tight_layout
    plt.tight_layout = lambda *a, **k: None
    try:
        with Quiet():
            call(inp, out + '/r', kw)
    except (Exception, SystemExit) as err:
        end = '%s: %s' % (type(err).__name__, err)
    finally:
        plt.tight_layout = layout
        plt.close('all')
    files = {}
    for path in sorted(os.listdir(out)):
        with open(out + '/' + path, 'rb') as fp:
            files[path] = fp.read()
    return end, files, count


def digits_of(raw):
    """Size of the last digit of the numbers in a text."""
    best = 0
    for line in raw.decode('utf-8').splitlines():
        if line.strip() and line[:1] not in '#@&':
            for word in line.split():
                if 'e' not in word and '.' in word:
                    best = max(best, len(word) - word.index('.') - 1)
    return 10. ** -best


def cols_equal(ctx, what, change, dims, first, second, fixed, swap=None):
    """Rows of both runs; `fixed`: absolute size of the last digit."""
    a, b = rows_of(first), rows_of(second)
    if not ctx.check(len(a) == len(b), lambda: '%s: %d rows, not %d' % (
            what, len(b), len(a))):
        return False
    for k, (ra, rb) in enumerate(zip(a, b)):
        if ra == '&' or rb == '&':
            if not ctx.check(ra == rb, '%s: sets end differently' % what):
                return False
            continue
        if not ctx.check(len(ra) == len(rb) == len(dims), lambda:
                         '%s: row %s, before the change %s' % (what, rb, ra)):
            return False
        ctx.state(what, k)
        want = [change.value(d, v) for d, v in zip(dims, ra)]
        tols = []
        for d, v in zip(dims, want):
            scale = change.factor({'x': 'L', 'y': 'L', 'c': 'L', 'U': 'F'}.get(d, d))
            tols.append((1.01 * fixed * max(scale, 1.) if fixed else 0.)
                        + 2e-5 * abs(v) + (1e-6 * scale))
        if change.mirror and swap:
            want = [want[i] for i in swap]
        if not ctx.check(all(abs(w - v) <= t or (w != w and v != v)
                             for w, v, t in zip(want, rb, tols)), lambda:
                         '%s: row %d is %s, not %s' % (what, k, rb, want)):
            return False
    ctx.trace(len(a))
    return True


def outline_equal(ctx, what, change, first, second, dims):
    a, b = rows_of(first), rows_of(second)
    want = [(change.value(dims[0], x), change.value(dims[1], y)) for x, y in a]
    if change.mirror:
        want = want[::-1]
    tol = 2e-3 * change.unit['L']
    ctx.state(what)
    ok = ctx.check(np.shape(want) == np.shape(b) and np.allclose(
        want, b, rtol=1e-6, atol=tol), lambda: '%s: %s, not %s' % (what, b, want))
    if ok:
        ctx.trace()
    return ok


def occupied(grid):
    """{position: values} of the bins which hold anything."""
    out = {}
    for i, x in enumerate(grid.x):
        for j, y in enumerate(grid.y):
            v = tuple(float(grid.values[l][i, j]) for l in FIELDS)
            if any(v):
                out[round(float(x), 4), round(float(y), 4)] = v
    return out


def map_equal(ctx, what, change, first, second, dim, whole):
    """The second map is the first one changed; where the grid may be larger
    than its bins, only those are compared."""
    a, b = parse_gmx(first)[0], parse_gmx(second)[0]
    want = change.grid(a, dim)
    ctx.state(what)
    ok = True
    if whole:
        ok = ctx.check((want.nx, want.ny) == (b.nx, b.ny) and np.allclose(
            want.corner + want.spacing, b.corner + b.spacing, rtol=1e-6, atol=1e-5),
            lambda: '%s: map of %s bins at %s of size %s, not %s at %s of %s' % (
                what, (b.nx, b.ny), b.corner, b.spacing, (want.nx, want.ny),
                want.corner, want.spacing))
    p, q = occupied(want), occupied(b)
    if ok:
        ok = ctx.check(sorted(p) == sorted(q), lambda:
                       '%s: bins %s are filled, not %s' % (what, sorted(q), sorted(p)))
    if ok:
        units = [change.unit[d] for d in ('N', 'T', 'M', 'F', 'F')]
        for at in p:
            for l, v, w, u in zip(FIELDS, q[at], p[at], units):
                if abs(v - w) > 1e-5 * max(abs(w), u):
                    ok = ctx.fail('%s: %s in the bin at %s is %r, not %r' % (
                        what, l, at, v, w))
                    break
            if not ok:
                break
    if ok:
        ctx.trace()
    return ok


BASE = Change('as it is')


def run(ctx, case):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import matplotlib
    matplotlib.use('Agg')
    name, change = case['setting'], BY_NAME[case['change']]
    _, kind, _, output, _ = SETTINGS[name]
    end, first, count = execute(ctx, name, BASE, case['part'])
    end2, second, _ = execute(ctx, name, change, case['part'])
    ctx.step(2)
    what = '%s, %s' % (name, change.name)
    if not ctx.check(end is None and end2 is None, lambda:
                     '%s: the run ended by %s, and after the change by %s' % (
                         what, end, end2)):
        return
    if not ctx.check(sorted(first) == sorted(second) and first, lambda:
                     '%s: wrote %s, not %s' % (what, sorted(second), sorted(first))):
        return
    for path in first:
        one, two = first[path], second[path]
        where = '%s, %s' % (what, path)
        if output in ('maps', 'maps-c', 'lines', 'lines-c'):
            dim = {'maps': 'x', 'maps-c': 'x', 'lines': 'l', 'lines-c': 'c'}[output]
            ok = map_equal(ctx, where, change, one, two, dim, output == 'maps')
        elif output in ('outline', 'outline-l', 'outline-c'):
            dims = {'outline': ('x', 'y'), 'outline-l': ('x', 'L'),
                    'outline-c': ('c', 'L')}[output]
            ok = outline_equal(ctx, where, change, one, two, dims)
        elif output == 'edges':
            time = 't' if 'dt' in SETTINGS[name][2] else '1'
            ok = cols_equal(ctx, where, change, (time, 'L', 'x', 'x'), one, two, 1e-3,
                            (0, 1, 3, 2))
        elif output == 'angle':
            width = max(len(r) for r in rows_of(one))
            dims = ('1', '1', 'M', 'M') if width == 4 else ('1', '1', '1', 'M', 'M')
            ok = cols_equal(ctx, where, change, dims, one, two, 1e-3)
        elif output == 'angles':
            width = max(len(r) for r in rows_of(one))
            swap = (0, 1, 3, 2, 4)[:width] if width > 3 else None
            ok = cols_equal(ctx, where, change, ('t' if 'delta_t' in SETTINGS[name][2]
                                                 else '1',) + ('1',) * (width - 1),
                            one, two, 1e-3, swap)
        elif output in ('fit', 'curves'):
            ok = cols_equal(ctx, where, change, ('t', 'L'), one, two, 1e-5)
        elif output == 'curves-scaled':
            ok = cols_equal(ctx, where, change, ('1', '1'), one, two, 1e-5)
        else:
            ok = cols_equal(ctx, where, change, output, one, two,
                            1e-3 if kind == 'outlines' else None)
        if not ok:
            return
    ctx.sample(setting=name, change=change.name, frames=count, files=len(first))
