"""P32: what comes of a frame depends on that frame, not on its series."""

import itertools
import os
import warnings

import numpy as np

from checks.common import (FIELDS, Grid, Quiet, close, gmx_bytes, plain_bytes,
                           simple_bytes)
from checks.tools import LINE, droplet

PROPERTY = 'P32'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all series of up to three frames (four in the thorough '
             'tier) over an alphabet of frames which differ in grid, format, filling '
             'and content, through every tool which works frame by frame or bundle by '
             'bundle, with all beginnings and ends; every result is compared with that '
             'of a run on its own frames alone')
NOTE = ('32 ways of running the tools; all series up to length 3 over up to 6 kinds of '
        'frames, all bundles of two out of series of four frames of 3 kinds, plain and '
        'rolling; every begin and end of the series; thorough: length 4')
RULE = ('a case is one tool with one first frame and every continuation; a state is '
        'one series with its begin and end; a transition is one result')
ASSUMPTIONS = ['no droplet crosses the periodic boundary from one frame to the next',
               'all frames of interface collection have the same bin height',
               'maps averaged together have the same format']
CHUNK = 1

GEOM = ((-1., 0.5), (0.5, 0.25))


def other():
    """A droplet on another grid, with the same bin height."""
    grid = Grid(10, 6, (-2., 0.25), (0.25, 0.25))
    for j, (lo, hi) in enumerate([(3, 8), (2, 7), (2, 6), (3, 6)]):
        for i in range(lo, hi + 1):
            k = i * 6 + j
            for l, v in zip(FIELDS, (2. + k % 3, 310. + k, 3. + 0.25 * (k % 4),
                                     0.25 * (k - 9), 0.5 - 0.25 * k)):
                grid.values[l][i, j] = v
    return grid


def dense():
    """The first grid with mass, temperature and flow in every bin."""
    grid = Grid(8, 4, *GEOM)
    k = np.arange(32).reshape(8, 4)
    grid.values['N'][:] = 4. - k % 4
    grid.values['T'][:] = 280. - 2. * k
    grid.values['M'][:] = 1. + 2. * ((k // 4 > 1) & (k // 4 < 6)) + 0.125 * (k % 3)
    grid.values['U'][:] = 0.25 * (k % 7) - 0.5 + 0.5 * (k % 4)
    grid.values['V'][:] = 1.5 - 0.125 * (k % 5)
    return grid


def empty():
    return Grid(8, 4, *GEOM)


# name: (map, encoding)
FRAMES = {
    'drop': lambda: gmx_bytes(droplet(0)),
    'simple': lambda: simple_bytes(droplet(1)),
    'other': lambda: gmx_bytes(other()),
    'plain': lambda: plain_bytes(droplet(3)),
    'empty': lambda: gmx_bytes(empty()),
    'dense': lambda: gmx_bytes(dense()),
    'late': lambda: gmx_bytes(droplet(2)),
    'last': lambda: gmx_bytes(droplet(3)),
}
ALL_MAPS = ('drop', 'simple', 'other', 'plain', 'empty', 'dense')
FILLED = ('drop', 'simple', 'other', 'plain', 'dense')
FLOWING = ('dense', 'drop', 'late')
PAIRED = ('drop', 'late', 'dense')


def outline(left, right, dy):
    rows = ['# outline']
    n = len(left)
    rows += ['%.6f %.6f' % (x, i * dy) for i, x in enumerate(left)]
    rows += ['%.6f %.6f' % (x, (n - 1 - i) * dy)
             for i, x in enumerate(right[::-1])]
    return ('\n'.join(rows) + '\n').encode()


OUTLINES = {
    'four': lambda: outline([-2., -1.5, -1., -.5], [2.5, 2.25, 2., 1.75], 0.25),
    'wide': lambda: outline([-4., -3.75, -3., -.25], [1., 2.5, 2.25, 1.5], 0.25),
    'tall': lambda: outline([0., .25, .25, .5, 1., 1.75],
                            [3., 3.25, 3.5, 3.25, 3., 2.5], 0.5),
    'two': lambda: outline([-1., -.75], [1., .5], 0.125),
    'single': lambda: outline([-1.], [1.5], 0.25),
    'broken': lambda: b'# nothing\n1.0 what\n',
}
SHAPES = ('four', 'wide', 'tall', 'two', 'single')
READABLE = ('four', 'wide', 'two')


# -- tools --------------------------------------------------------------------

def convert(ftype):
    def run(inp, out, kw):
        from strata.convert import convert
        convert(inp + '/f', out, ftype=ftype, quiet=True, **kw)
    return run


def average(**opts):
    def run(inp, out, kw):
        from strata.average import average
        average(inp + '/f', out, quiet=True, **dict(opts, **kw))
    return run


def lines(**opts):
    def run(inp, out, kw):
        from strata.contact_line_analysis import extract_contact_line_bins
        extract_contact_line_bins(inp + '/f', out, quiet=True,
                                  **dict(LINE, **dict(opts, **kw)))
    return run


def line_samples(**opts):
    def run(inp, out, kw):
        from strata.contact_line_analysis import sample_contact_line_edges
        sample_contact_line_edges(inp + '/f', ['M', 'U', 'T'], save=out, dt=2.,
                                  quiet=True, **dict(LINE, **dict(opts, **kw)))
    return run


def samples(labels, **opts):
    def run(inp, out, kw):
        from strata.sample_average import sample_average_files
        sample_average_files(inp + '/f', list(labels), output=out, dt=2.,
                             quiet=True, **dict({'verbose': False}, **dict(opts, **kw)))
    return run


def interfaces(**opts):
    def run(inp, out, kw):
        from strata.interface.collect import collect_interfaces
        collect_interfaces(inp + '/f', out, quiet=True, **dict(opts, **kw))
    return run


def spreading(**opts):
    def run(inp, out, kw):
        from strata.spreading.collect import collect
        collect(inp + '/f', save=out, dt=2., quiet=True, **dict(opts, **kw))
    return run


def outlines(**opts):
    def run(inp, out, kw):
        from strata.interface.view import view_interfaces
        view_interfaces(inp + '/f', save_xvg=out, show=False, quiet=True,
                        **dict(opts, **kw))
    return run


def area(variable):
    def run(inp, out, kw):
        from strata.interface.sample import sample_interfaces
        sample_interfaces(inp + '/f', variable, save_xvg=out, delta_t=2.,
                          show=False, quiet=True, **kw)
    return run


def angles(**opts):
    def run(inp, out, kw):
        from strata.interface.angle import interface_contact_angle
        interface_contact_angle(inp + '/f', save_xvg=out, delta_t=2., show=False,
                                quiet=True, **dict(opts, **kw))
    return run


def height(**opts):
    def run(paths):
        from strata.view_flowmap import view_flowmap_2d
        view_flowmap_2d(*paths, **dict({'clim': (None, None), 'vlim': (None, None)},
                                       **opts))
    return run


def fields(**opts):
    def run(paths):
        from strata.view_flowmap import view_flowfields
        view_flowfields(*paths, **opts)
    return run


NARROW = {'cutoff_radius': 1., 'cutoff_bins': 1}
# tool: (kind, call, frames, bundle, rolling)
TOOLS = {
    'convert-gmx': ('files', convert('gmx'), ALL_MAPS),
    'convert-simple': ('files', convert('simple'), ALL_MAPS),
    'convert-plain': ('files', convert('simple_plain'), ALL_MAPS),
    'average': ('files', average(), ALL_MAPS),
    'average-com': ('files', average(recenter='com', combine=(2, 2)), FILLED),
    'average-left': ('files', average(recenter='left', cutoff_radius=0.5,
                                      ylim=(0.5, None)), FILLED),
    'average-right': ('files', average(recenter='right', supersample=2), FILLED),
    'average-cut': ('files', average(xlim=(-0.75, 2.5), ylim=(None, 1.5),
                                     supersample=2), ALL_MAPS),
    'lines': ('files', lines(), FILLED),
    'lines-fused': ('files', lines(fuse=True, recenter=True), FILLED),
    'lines-floor': ('files', lines(floor=0.75), FILLED),
    'outlines': ('files', outlines(), SHAPES + ('broken',)),
    'interfaces': ('files', interfaces(**NARROW), FILLED),
    'interfaces-zero': ('files', interfaces(recenter='zero', **NARROW), FILLED),
    'interfaces-com': ('files', interfaces(recenter='com', cutoff=1.5, **NARROW),
                       FILLED),
    'line-samples': ('rows', line_samples(), FILLED),
    'line-sums': ('rows', line_samples(sum=True, cutoff=1.), FILLED),
    'samples': ('rows', samples(['M', 'U', 'inertial_energy', 'flow_angle']),
                ALL_MAPS),
    'samples-cut': ('rows', samples(['T', 'M', 'N'], cutoff_label='M'), ALL_MAPS),
    'samples-loud': ('rows', samples(['visc_diss', 'V'], verbose=True, sum=True,
                                     xlim=(-0.75, 2.75)), ALL_MAPS),
    'samples-slip': ('rows', samples(['slip_length', 'M'], slip_floor=0.25,
                                     xlim=(1., 2.)), ('dense', 'full', 'steep')),
    'spreading': ('wet', spreading(), ALL_MAPS),
    'spreading-floor': ('wet', spreading(floor=0.75, cutoff=1.5, cutoff_radius=0.5),
                        ALL_MAPS),
    'area': ('rows', area('area'), SHAPES),
    'length': ('rows', area('length'), SHAPES),
    'angles': ('rows', angles(fit=True, height=0.5), SHAPES),
    'angles-fit': ('rows', angles(fit=True), SHAPES),
    'heights': ('drawn', height(type='height'), ('drop', 'other', 'plain', 'dense')),
    'heights-cut': ('drawn', height(type='height', label='flow', colorbar=True),
                    ('drop', 'other', 'simple', 'dense')),
    'arrows': ('drawn', fields(colour='M', colorbar=True),
               ('drop', 'other', 'plain', 'dense')),
    'arrows-radial': ('drawn', fields(colour='radial', cutoff=1.5,
                                      xlim=(-0.5, None)),
                      ('drop', 'other', 'simple', 'dense')),
    'contours': ('drawn', height(type='contour', levels=[1., 2., 3.]),
                 ('drop', 'other', 'plain', 'dense')),
}
# Bundles of two frames, plain and rolling
BUNDLES = {
    'average': (average(group=2), PAIRED),
    'average-com': (average(group=2, recenter='com', combine=(2, 1)), PAIRED),
    'average-left': (average(group=2, recenter='left'), PAIRED),
    'average-rolling': (average(group=2, rolling=True), PAIRED),
    'average-rolling-right': (average(group=2, rolling=True, recenter='right',
                                      xlim=(-0.75, 2.5)), PAIRED),
    'lines': (lines(average=2), PAIRED),
    'lines-rolling': (lines(average=2, rolling=True, fuse=True), PAIRED),
    'line-samples': (line_samples(average=2), PAIRED),
    'line-samples-rolling': (line_samples(average=2, rolling=True, recenter=True),
                             PAIRED),
    'outlines': (outlines(average=2), ('four', 'wide', 'tall')),
}


def steep(a, b):
    """Maps whose flow grows with height, differently in every column."""
    grid = dense()
    xs, ys = np.meshgrid(grid.x, grid.y, indexing='ij')
    grid.values['U'][:] = a * ys + b * xs + 0.125 * ys ** 2
    return grid


FRAMES['full'] = lambda: gmx_bytes(steep(2., 0.5))
FRAMES['steep'] = lambda: gmx_bytes(steep(-0.5, 1.))


def content(name):
    if name in FRAMES:
        return FRAMES[name]()
    return OUTLINES[name]()


def cases(tier):
    quick = tier == 'quick'
    for tool, (kind, _, names) in TOOLS.items():
        for first in names:
            longest = 3 if quick else 4
            if kind == 'drawn':
                longest -= 1
            for second in [None] if quick or kind == 'drawn' else names:
                yield {'kind': kind, 'tool': tool, 'first': first, 'second': second,
                       'length': longest}
    for tool, (_, names) in BUNDLES.items():
        for first in names:
            yield {'kind': 'bundles', 'tool': tool, 'first': first,
                   'length': 4 if quick else 5}


def run(ctx, case):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import matplotlib.pyplot as plt
    plt.tight_layout = lambda *a, **k: None
    {'drawn': run_drawn, 'bundles': run_bundles}.get(case['kind'], run_series)(
        ctx, case)
    plt.close('all')


# -- results ------------------------------------------------------------------

def rows(raw):
    return [[float(v) for v in line.split()] for line in
            raw.decode('ascii').splitlines()
            if line.strip() and not line.startswith(('#', '@'))]


def same_file(a, b):
    """Maps are the same to the byte; outlines in their numbers."""
    if a is None or b is None:
        return a is b
    if a[:1] == b'#':
        return rows(a) == rows(b) or equal_rows(rows(a), rows(b))
    return a == b


def equal_rows(a, b):
    return len(a) == len(b) and all(
        len(x) == len(y) and np.allclose(x, y, rtol=1e-5, atol=1.1e-3,
                                         equal_nan=True) for x, y in zip(a, b))


def suffix(tool):
    return '.xvg' if tool.startswith(('interfaces', 'outlines')) else '.dat'


def source(tool):
    """Extension of the input."""
    return '.xvg' if tool.startswith(('outlines', 'area', 'length', 'angles')) \
        else '.dat'


def place(folder, names, ext, begin=1):
    for i, name in enumerate(names):
        with open('%s/f%05d%s' % (folder, begin + i, ext), 'wb') as fp:
            fp.write(content(name))


def spill(call, inp, out, kw):
    """{name: content} of what a run has written to a fresh folder."""
    os.makedirs(out)
    with Quiet():
        call(inp, out + '/o', kw)
    found = {}
    for name in os.listdir(out):
        with open('%s/%s' % (out, name), 'rb') as fp:
            found[name] = fp.read()
        os.remove('%s/%s' % (out, name))
    os.rmdir(out)
    return found


def alone(call, names, tool, root, several=False):
    """Result of a run on these frames only."""
    inp = '%s/alone' % root
    os.makedirs(inp)
    place(inp, names, source(tool))
    found = spill(call, inp, root + '/out', {})
    for name in os.listdir(inp):
        os.remove('%s/%s' % (inp, name))
    os.rmdir(inp)
    return found


def run_series(ctx, case):
    tool, kind = case['tool'], case['kind']
    _, call, names = TOOLS[tool]
    root = ctx.tmpdir()
    ext = source(tool)
    single = {}
    for name in names:
        with ctx.guard('%s of %s alone' % (tool, name)):
            found = alone(call, [name], tool, root)
            if kind == 'files':
                single[name] = found.get('o00001' + suffix(tool))
            else:
                single[name] = rows(found['o'])
    if len(single) < len(names):
        return
    if kind == 'wet':
        ctx.check(any(single.values()) and not all(single.values()), lambda:
                  '%s: radii of the frames are %s' % (tool, single))
    elif kind == 'files':
        bad = [n for n in names if (single[n] is None) != (n == 'broken')]
        ctx.check(not bad, lambda: '%s writes nothing for %s' % (tool, bad))
    for length in range(2, case['length'] + 1):
        for rest in itertools.product(names, repeat=length - 1):
            if case['second'] not in (None, rest[0]):
                continue
            series = (case['first'],) + rest
            number = 1 if length < case['length'] else (1, 0, 7, 9998)[
                sum(names.index(n) for n in rest) % 4]
            inp = '%s/s' % root
            os.makedirs(inp)
            place(inp, series, ext, number)
            for b, e in spans(length):
                kw = {}
                if (b, e) != (0, None) or number != 1:
                    kw['begin'] = number + b
                if e is not None:
                    kw['end'] = number + e
                some = series[b:] if e is None else series[b:e + 1]
                ctx.state(tool, series, number, b, e)
                what = lambda: '%s of the series %s from number %d with %s' % (
                    tool, series, number, kw)
                with ctx.guard(what()):
                    found = spill(call, inp, root + '/out', dict(kw))
                    ctx.step(max(1, len(some)))
                    if kind == 'files':
                        ok = check_files(ctx, what, found, suffix(tool), single,
                                         some, number + b)
                    else:
                        ok = check_rows(ctx, what, rows(found.get('o', b'')),
                                        single, some, kind == 'wet')
                    if ok:
                        ctx.trace()
            for name in os.listdir(inp):
                os.remove('%s/%s' % (inp, name))
            os.rmdir(inp)
    ctx.sample(tool=tool, first=case['first'], frames=list(names))


def spans(length):
    """All (begin, end) of a series, as offsets."""
    yield 0, None
    for b in range(length):
        for e in range(b, length):
            if (b, e) != (0, length - 1):
                yield b, e
    yield length - 1, None


def check_files(ctx, what, found, ext, single, some, number):
    want = {}
    for i, name in enumerate(some):
        if single[name] is not None:
            want['o%05d%s' % (number + i, ext)] = (name, single[name])
    ok = ctx.check(set(found) == set(want), lambda: '%s: wrote %s, not %s' % (
        what(), sorted(found), sorted(want)))
    for path in set(found) & set(want):
        name, ref = want[path]
        if not same_file(found[path], ref):
            ok = ctx.check(False, lambda: '%s: the result %s of frame %r is not '
                           'that of the frame alone: %s' % (
                               what(), path, name, differing(found[path], ref)))
    return ok


def differing(a, b):
    if a[:1] == b'#':
        return '%s, not %s' % (rows(a), rows(b))
    at = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return 'from byte %d of %d (%d)' % (at, len(a), len(b))


def check_rows(ctx, what, got, single, some, wet):
    want = []
    first = None
    for i, name in enumerate(some):
        if wet and not single[name]:
            continue
        first = i if first is None else first
        start = first if wet else 0
        want.append([2. * (i - start)] + single[name][0][1:])
    return ctx.check(equal_rows(got, want), lambda: '%s: the rows are %s, and %s of '
                     'the frames alone' % (what(), got, want))


# -- bundles ------------------------------------------------------------------

def run_bundles(ctx, case):
    tool = case['tool']
    call, names = BUNDLES[tool]
    rolling = 'rolling' in tool
    table = tool.startswith('line-samples')
    root = ctx.tmpdir()
    ext = source(tool)
    pairs = {}
    for pair in itertools.product(names, repeat=2):
        with ctx.guard('%s of %s alone' % (tool, pair)):
            found = alone(call, pair, tool, root)
            pairs[pair] = rows(found['o'])[0] if table else found[
                'o00001' + suffix(tool)]
    if len(pairs) < len(names) ** 2:
        return
    for length in range(2, case['length'] + 1):
        for rest in itertools.product(names, repeat=length - 1):
            series = (case['first'],) + rest
            inp = '%s/s' % root
            os.makedirs(inp)
            place(inp, series, ext)
            for b, e in ((0, None), (1, None), (0, length - 2), (1, length - 1)):
                kw = {}
                if b:
                    kw['begin'] = 1 + b
                if e is not None:
                    kw['end'] = 1 + e
                some = series[b:] if e is None else series[b:e + 1]
                ctx.state(tool, series, b, e)
                step = 1 if rolling else 2
                starts = range(0, len(some) - 1, step)
                want = [pairs[some[i:i + 2]] for i in starts]
                what = lambda: '%s of the series %s with %s' % (tool, series, kw)
                with ctx.guard(what()):
                    found = spill(call, inp, root + '/out', dict(kw))
                    ctx.step(max(1, len(want)))
                    if table:
                        ref = [[2. * (1 + i)] + r[1:] for i, r in zip(starts, want)]
                        got = rows(found.get('o', b''))
                        ok = ctx.check(equal_rows(got, ref), lambda: '%s: the rows '
                                       'are %s, and %s of the bundles alone' % (
                                           what(), got, ref))
                    else:
                        number = 1 + b if rolling or tool == 'lines' else \
                            -(-(1 + b) // 2)
                        ref = {'o%05d%s' % (number + i, suffix(tool)): w
                               for i, w in enumerate(want)}
                        ok = ctx.check(set(found) == set(ref), lambda: '%s: wrote '
                                       '%s, not %s' % (what(), sorted(found),
                                                       sorted(ref)))
                        for path in set(found) & set(ref):
                            ok &= ctx.check(
                                same_file(found[path], ref[path]), lambda:
                                '%s: %s is not the result of its bundle alone: %s'
                                % (what(), path, differing(found[path], ref[path])))
                    if ok:
                        ctx.trace()
            for name in os.listdir(inp):
                os.remove('%s/%s' % (inp, name))
            os.rmdir(inp)
    ctx.sample(tool=tool, first=case['first'], frames=list(names))


# -- figures ------------------------------------------------------------------

def picture():
    """Everything that is drawn in the current figure, as arrays."""
    import matplotlib.pyplot as plt
    fig = plt.gcf()
    parts = []
    for ax in fig.axes:
        parts += [list(ax.get_xlim()), list(ax.get_ylim())]
        for line in ax.lines:
            parts += [line.get_xdata(), line.get_ydata()]
        for c in list(ax.collections) + list(ax.images):
            if hasattr(c, 'get_coordinates'):
                parts.append(np.ravel(c.get_coordinates()))
            if hasattr(c, 'U'):
                parts += [np.ma.filled(c.U, 1e30), np.ma.filled(c.V, 1e30)]
            if hasattr(c, 'get_offsets'):
                parts.append(np.ravel(np.ma.filled(c.get_offsets(), 1e30)))
            for path in (c.get_paths() if c.get_paths() is not None else ())[:40]:
                parts.append(np.ravel(path.vertices))
            if c.get_array() is not None:
                parts.append(np.ravel(np.ma.filled(
                    np.ma.asarray(c.get_array(), dtype=float), 1e30)))
                parts.append([v if v is not None else 1e30 for v in c.get_clim()])
    return [np.asarray(p, dtype=float) for p in parts]


def same_picture(a, b):
    return len(a) == len(b) and all(
        x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-9,
                                           equal_nan=True) for x, y in zip(a, b))


def draw(call, paths):
    import matplotlib.pyplot as plt
    shown = []
    old = plt.show
    plt.show = lambda *a, **k: shown.append(picture())
    try:
        with Quiet() as q:
            call(paths)
    finally:
        plt.show = old
        plt.close('all')
    return shown, q.out


def run_drawn(ctx, case):
    tool = case['tool']
    _, call, names = TOOLS[tool]
    root = ctx.tmpdir()
    single = {}
    for name in names:
        with open('%s/%s.dat' % (root, name), 'wb') as fp:
            fp.write(content(name))
        with ctx.guard('%s of %s alone' % (tool, name)):
            shown, said = draw(call, ['%s/%s.dat' % (root, name)])
            if ctx.check(len(shown) == 1 and len(shown[0]) > 2, lambda:
                         '%s of %s alone shows %d figures: %s' % (
                             tool, name, len(shown), said)):
                single[name] = shown[0]
    if len(single) < len(names):
        return
    for length in range(2, case['length'] + 1):
        for rest in itertools.product(names, repeat=length - 1):
            series = (case['first'],) + rest
            ctx.state(tool, series)
            what = lambda: '%s of %s' % (tool, series)
            with ctx.guard(what()):
                shown, said = draw(call, ['%s/%s.dat' % (root, n) for n in series])
                ctx.step(length)
                ok = ctx.check(len(shown) == length, lambda: '%s: %d figures: %s' % (
                    what(), len(shown), said))
                for i, (got, name) in enumerate(zip(shown, series)):
                    ok &= ctx.check(same_picture(got, single[name]), lambda:
                                    '%s: figure %d is not that of the map alone' % (
                                        what(), i))
                if ok:
                    ctx.trace()
    ctx.sample(tool=tool, first=case['first'], frames=list(names))
