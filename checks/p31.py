"""P31: figures show their own data with the options asked for."""

import itertools
import os
import struct
import warnings

import numpy as np

from checks.common import Quiet, close
from checks.tools import make_inputs

PROPERTY = 'P31'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of every drawing tool with every option value of an '
             'alphabet of all its figure options, alone and in pairs, and of all '
             'ordered pairs of tools with every option set on the first, the second '
             'or both, drawn by the real code one after another in one process; each '
             'figure is read back as it is shown or saved and compared with its data '
             'and options')
NOTE = ('twelve ways of drawing; all single options and pairs of options (of the '
        'first values of each in the quick tier), all ordered pairs of tools with '
        'options set on the first or on both (fewer settings in the quick tier); '
        'saved images are decoded for all settings of size, resolution and '
        'background, series numbers for all begins, ends and bundle sizes')
RULE = ('a case is one tool with a block of its option combinations, one ordered '
        'pair of tools with all settings, one tool with all settings of saved images, '
        'one bundle size with all series, or arrows of one set of labels; every figure '
        'is one state')
ASSUMPTIONS = ['colour bars are asked for where something is coloured', 'limits on '
               'logarithmic axes are positive']
CHUNK = 1


def curve(s):
    return [0.5 * i for i in range(6)], [
        (1. + 0.5 * s) * (1. + 0.5 * i) for i in range(6)]


def outline(i):
    left = [(-2. - 0.25 * i + 0.5 * j, 0.25 * j) for j in range(4)]
    right = [(2.5 + 0.5 * i - 0.25 * j, 0.25 * j) for j in range(4)]
    both = left + right[::-1]
    return [x for x, _ in both], [y for _, y in both]


def spreading(inp, kw):
    from strata.spreading.view import view_spreading
    view_spreading([inp + '/s0.xvg', inp + '/s1.xvg'], **kw)
    return [[curve(0), curve(1)]]


def spreading_scaled(inp, kw):
    from strata.spreading.view import view_spreading
    view_spreading([inp + '/s1.xvg', inp + '/s2.xvg'], tau=2., R=[0.5, 4.], **kw)
    return [[([t / 2. for t in curve(s)[0]], [r / R for r in curve(s)[1]])
             for s, R in ((1, 0.5), (2, 4.))]]


def fit(inp, kw):
    from strata.spreading.fit import fit_spreading_data
    files = [inp + '/s0.xvg', inp + '/s1.xvg']
    got = fit_spreading_data(files, **kw)
    lines, names = [], []
    for s, (a, k) in enumerate(got):
        t, r = curve(s)
        lines += [(t, r), (t, [a * v ** k for v in t])]
        names += ['s%d.xvg.1' % s, ('a', a, 'k', k)]
    return [(lines, names)]


def interfaces(average):
    def run(inp, kw):
        from strata.interface.view import view_interfaces
        view_interfaces(inp + '/i', average=average, quiet=True, **kw)
        out = []
        for b in range(4 // average):
            members = [outline(i) for i in range(b * average, (b + 1) * average)]
            out.append([tuple(np.mean([m[axis] for m in members], axis=0)
                              for axis in (0, 1))])
        return out
    return run


def sampled(variable):
    def run(inp, kw):
        from strata.interface.sample import sample_interfaces
        sample_interfaces(inp + '/i', variable, quiet=True, delta_t=2.5, **kw)
        values = []
        for i in range(4):
            xs, ys = outline(i)
            if variable == 'length':
                values.append(np.hypot(np.diff(xs), np.diff(ys)).sum())
            else:
                values.append(abs(sum(
                    xs[k] * ys[(k + 1) % 8] - xs[(k + 1) % 8] * ys[k]
                    for k in range(8))) / 2.)
        return [[([2.5 * i for i in range(4)], values)]]
    return run


def angles(inp, kw):
    from strata.interface.angle import interface_contact_angle
    times, got = interface_contact_angle(inp + '/i', fit=True, height=0.5,
                                         quiet=True, **kw)
    return [([([float(i) for i in range(4)], got['fit']),
              ([float(i) for i in range(4)], got['measured'])],
             ['fit', 'measured'])]


def heights(inp, kw):
    from strata.view_flowmap import view_flowmap_2d
    view_flowmap_2d(inp + '/m00001.dat', inp + '/m00002.dat', type='height',
                    clim=(None, None), **dict({'vlim': (None, None)}, **kw))
    return [None, None]


def contours(inp, kw):
    from strata.view_flowmap import view_flowmap_2d
    view_flowmap_2d(inp + '/m00002.dat', type='contour', filled=True,
                    **dict({'vlim': (None, None)}, **kw))
    return [None]


def arrows(inp, kw):
    from strata.view_flowmap import view_flowfields
    view_flowfields(inp + '/m00001.dat', inp + '/m00002.dat', colour='M', **kw)
    return [None, None]


def streams(inp, kw):
    from strata.view_flowmap import view_flowfields
    view_flowfields(inp + '/m00002.dat', colour='M', streamlines=True, **kw)
    return [None]


# tool: (call, legend drawn by default, axes hidden by default, is a map)
TOOLS = {
    'spreading': (spreading, False, False, False),
    'scaled': (spreading_scaled, False, False, False),
    'fit': (fit, False, False, False),
    'outlines': (interfaces(1), False, False, False),
    'mean-outlines': (interfaces(2), False, False, False),
    'area': (sampled('area'), False, False, False),
    'length': (sampled('length'), False, False, False),
    'angles': (angles, True, False, False),
    'height': (heights, False, True, True),
    'contour': (contours, False, True, True),
    'arrows': (arrows, False, False, True),
    'streams': (streams, False, False, True),
}
LINES = [t for t in TOOLS if not TOOLS[t][3]]
MAPS = [t for t in TOOLS if TOOLS[t][3]]
LEGEND = ('fit', 'angles')
# One of every kind of figure
FEW = ('spreading', 'angles', 'height', 'streams')
# These draw nothing unless it is to be seen or saved
LAZY = ('spreading', 'scaled', 'fit', 'angles')

COMMON = [
    ('title', ['A title', 'R (t) / $R_0$']), ('xlabel', ['x (nm)']),
    ('ylabel', ['y (nm)']),
    ('xlim', [(0.25, 1.75), (None, 1.5), (0.125, None), (0., 2.)]),
    ('ylim', [(0.5, 1.25), (None, 1.), (0.25, None), (0., 3.)]),
    ('show', [False, True]), ('clf', [False, True]),
    ('noaxis', [True, False]),
]
ONLY = {
    'lines': [('loglog', [True])],
    'legend': [('legend', [True, False])],
    'maps': [('dims', [(300., 200.)]), ('colorbar', [True]), ('colormap', ['gray', 'jet', 'viridis']),
             ('cbarlabel', ['K (b)']), ('cbarticks', [[2.5, 3.5]]),
             ('cbarticklabels', [['low', 'high']])],
    'vlim': [('vlim', [(1.5, 2.5), (None, 3.5), (2., None)])],
}


def options(tool):
    out = list(COMMON)
    if tool in LINES:
        out += ONLY['lines']
    if tool in LEGEND:
        out += ONLY['legend']
    if tool in MAPS:
        out += ONLY['maps']
    if tool in ('height', 'arrows'):
        out += ONLY['vlim']
    return out


def values(tool):
    return [(k, v) for k, alts in options(tool) for v in alts]


def combos(tool, deep=True):
    """No option, every value, and every pair of values of two options.

    Unless deep, pairs are made of the first value of every option.
    """
    one = values(tool)
    yield {}
    for k, v in one:
        yield complete({k: v})
    if not deep:
        one = [(k, alts[0]) for k, alts in options(tool)]
    for (k, v), (k2, v2) in itertools.combinations(one, 2):
        if k != k2:
            yield complete({k: v, k2: v2})


def complete(kw):
    """Options which say nothing on their own come with what they need."""
    kw = dict(kw)
    if any(k.startswith('cbar') for k in kw):
        kw.setdefault('colorbar', True)
    if 'cbarticklabels' in kw:
        kw.setdefault('cbarticks', [2.5, 3.5])
    if kw.get('loglog'):
        for k in ('xlim', 'ylim'):
            if k in kw and kw[k][0] == 0.:
                kw[k] = (0.375,) + kw[k][1:]
    return kw


def loaded(tool):
    """Every option at once."""
    kw = complete({k: alts[0] for k, alts in options(tool)
                   if k not in ('show', 'clf', 'noaxis', 'loglog')})
    return kw


NAMES = (('X', 'Y', 'U', 'V', 'C'), ('V', 'U', 'Y', 'X', 'N'), ('f0', 'f1', 'f2', 'f3', 'f4'))


def cases(tier):
    quick = tier == 'quick'
    for tool in TOOLS:
        n = sum(1 for _ in combos(tool, not quick))
        size = 40 if tool in LINES else 24
        for lo in range(0, n, size):
            yield {'kind': 'options', 'tool': tool, 'lo': lo, 'hi': lo + size,
                   'deep': not quick}
    for a in TOOLS:
        for b in TOOLS:
            yield {'kind': 'after', 'first': a, 'second': b, 'deep': not quick}
    for tool in TOOLS:
        yield {'kind': 'saved', 'tool': tool}
    for average in (1, 2, 3):
        yield {'kind': 'names', 'average': average}
    for names in range(len(NAMES)):
        yield {'kind': 'field', 'names': names}


def run(ctx, case):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import matplotlib.pyplot as plt
    plt.tight_layout = lambda *a, **k: None
    plt.close('all')
    {'options': run_options, 'after': run_after, 'saved': run_saved,
     'names': run_names, 'field': run_field}[
        case['kind']](ctx, case)
    plt.close('all')


def look():
    """What the current figure shows."""
    import matplotlib.pyplot as plt
    from matplotlib.collections import LineCollection, QuadMesh
    fig = plt.gcf()
    if not fig.axes:
        return None
    ax = fig.axes[0]
    seen = {
        'title': ax.get_title(), 'xlabel': ax.get_xlabel(),
        'ylabel': ax.get_ylabel(), 'xlim': ax.get_xlim(), 'ylim': ax.get_ylim(),
        'scale': (ax.get_xscale(), ax.get_yscale()),
        'axes': [a.axison for a in fig.axes],
        'lines': [(np.array(l.get_xdata(), dtype=float),
                   np.array(l.get_ydata(), dtype=float)) for l in ax.lines],
        'legend': None, 'cmaps': [], 'limits': [], 'bar': None,
        'size': tuple(fig.get_size_inches()),
    }
    if ax.get_legend() is not None:
        seen['legend'] = [t.get_text() for t in ax.get_legend().get_texts()]
    for c in list(ax.collections) + list(ax.images):
        if c.get_array() is not None:
            seen['cmaps'].append(c.get_cmap().name)
            seen['limits'].append((c.norm.vmin, c.norm.vmax))
    if len(fig.axes) > 1:
        bar = fig.axes[1]
        fig.canvas.draw_idle()
        seen['bar'] = {'label': bar.get_ylabel(), 'ticks': list(bar.get_yticks()),
                       'names': [t.get_text() for t in bar.get_yticklabels()]}
    return seen


class Watch(object):
    """Reads every figure as it is shown; saving is left alone."""

    def __enter__(self):
        import matplotlib.pyplot as plt
        self.shown = []
        self._old = plt.show
        plt.show = lambda *a, **k: self.shown.append(look())
        return self

    def __exit__(self, *exc):
        import matplotlib.pyplot as plt
        plt.show = self._old
        return False


def same_lines(got, want):
    return len(got) == len(want) and all(
        close(a[0], b[0], 1e-6, 1e-6) and close(a[1], b[1], 1e-4, 1e-5)
        for a, b in zip(got, want))


def legend_ok(got, names):
    if names is None:
        return True
    if got is None or len(got) != len(names):
        return False
    for text, name in zip(got, names):
        if isinstance(name, str):
            if not text.endswith(name):
                return False
        else:
            parts = [p.partition('=') for p in text.replace(',', ' ').split()]
            try:
                nums = {k: float(v) for k, _, v in parts}
            except ValueError:
                return False
            if set(nums) != {'a', 'k'} or abs(nums['a'] - name[1]) > 6e-4 \
                    or abs(nums['k'] - name[3]) > 6e-4:
                return False
    return True


def check_figure(ctx, what, tool, kw, seen, want, behind=()):
    """One figure against its data and options; `behind` lie lines kept."""
    _, legend, hidden, is_map = TOOLS[tool]
    ok = ctx.check(seen is not None, lambda: '%s: the figure is empty' % what())
    if not ok:
        return False
    fail = lambda name, got, ref: ctx.check(False, lambda: '%s: the %s is %s, not '
                                            '%s' % (what(), name, got, ref))
    for key in ('title', 'xlabel', 'ylabel'):
        if seen[key] != kw.get(key, ''):
            ok = fail(key, repr(seen[key]), repr(kw.get(key, '')))
    for key in ('xlim', 'ylim'):
        for side, v in enumerate(kw.get(key) or ()):
            if v is not None and abs(seen[key][side] - v) > 1e-6:
                ok = fail(key, seen[key], kw[key])
    size = (6.4, 4.8)
    if kw.get('dims'):
        size = tuple(v / (kw.get('dpi') or 150.) for v in kw['dims'])
    if not behind and not close(seen['size'], size):
        ok = fail('size in inches', seen['size'], size)
    scale = ('log', 'log') if kw.get('loglog') else ('linear', 'linear')
    if seen['scale'] != scale:
        ok = fail('scale', seen['scale'], scale)
    on = not kw.get('noaxis', hidden)
    if any(a != on for a in seen['axes']):
        ok = fail('state of the axes', seen['axes'], on)
    if is_map:
        if seen['lines']:
            ok = fail('number of curves in a map', len(seen['lines']), 0)
        cmap = kw.get('colormap', 'viridis')
        if not seen['cmaps'] or any(c != cmap for c in seen['cmaps']):
            ok = fail('colour map', seen['cmaps'], cmap)
        vlim = kw.get('vlim', (None, None))
        for got in seen['limits']:
            for g, v in zip(got, vlim):
                if v is not None and (g is None or abs(g - v) > 1e-6):
                    ok = fail('limit of the colours', got, vlim)
        if bool(kw.get('colorbar')) != (seen['bar'] is not None):
            ok = fail('colour bar', seen['bar'], kw.get('colorbar'))
        elif seen['bar'] is not None:
            bar = seen['bar']
            if bar['label'] != (kw.get('cbarlabel') or ''):
                ok = fail('label of the colour bar', bar, kw.get('cbarlabel'))
            if kw.get('cbarticks') and not close(bar['ticks'], kw['cbarticks']):
                ok = fail('ticks of the colour bar', bar, kw['cbarticks'])
            if kw.get('cbarticklabels') and bar['names'] != kw['cbarticklabels']:
                ok = fail('texts of the colour bar', bar, kw['cbarticklabels'])
    else:
        lines, names = want if isinstance(want, tuple) else (want, None)
        every = list(behind) + list(lines)
        if not same_lines(seen['lines'], every):
            ok = fail('set of curves drawn', seen['lines'], every)
        if len(seen['axes']) != 1:
            ok = fail('number of axes', len(seen['axes']), 1)
        if tool in LEGEND and not behind:
            asked = kw.get('legend', legend)
            if asked and not legend_ok(seen['legend'], names):
                ok = fail('legend', seen['legend'], names)
            if not asked and seen['legend'] is not None:
                ok = fail('legend', seen['legend'], None)
    return ok


def draw(ctx, what, tool, inp, kw, behind=()):
    """Draw and check; the lines which are left for the next figure."""
    import matplotlib.pyplot as plt
    call, _, _, is_map = TOOLS[tool]
    with Watch() as watch, Quiet() as q:
        want = call(inp, dict(kw))
    ctx.step()
    ok = True
    shown = len(want) if kw.get('show', True) else 0
    ok &= ctx.check(len(watch.shown) == shown, lambda:
                    '%s: shows %d figures, not %d; printed %s' % (
                        what(), len(watch.shown), shown, q.out[-200:]))
    kept = [] if is_map else list(behind)
    for i, (seen, ref) in enumerate(zip(watch.shown, want)):
        ok &= check_figure(ctx, lambda: '%s: figure %d' % (what(), i), tool, kw,
                           seen, ref, kept)
        if not kw.get('clf', True) and not is_map:
            kept += ref[0] if isinstance(ref, tuple) else ref
        elif kw.get('clf', True):
            kept = []
    idle = tool in LAZY and not shown and not kw.get('save_fig')
    if not shown and not kw.get('clf', True) and not is_map and not idle:
        for ref in want:
            kept += ref[0] if isinstance(ref, tuple) else ref
        last = look()
        ok &= ctx.check(last is not None and same_lines(last['lines'], kept),
                        lambda: '%s: left the curves %s, not %s' % (
                            what(), last and last['lines'], kept))
    if kw.get('clf', True) and not idle:
        left = plt.gcf().axes
        ok &= ctx.check(not left, lambda: '%s: leaves a figure with %d axes behind'
                        % (what(), len(left)))
        kept = []
    if ok:
        ctx.trace()
    return kept


def run_options(ctx, case):
    """All values and pairs of values of the options of one tool."""
    import matplotlib.pyplot as plt
    tool = case['tool']
    inp = ctx.tmpdir()
    make_inputs(inp, 4)
    some = list(combos(tool, case['deep']))[case['lo']:case['hi']]
    for n, kw in enumerate(some):
        ctx.state(tool, repr(sorted(kw.items())))
        if not kw.get('clf', True) or n % 8 == 0:
            plt.close('all')
        with ctx.guard('%s with %s' % (tool, kw)):
            draw(ctx, lambda: '%s with %s' % (tool, kw), tool, inp, kw)
        if not kw.get('clf', True):
            plt.close('all')
    ctx.sample(tool=tool, combinations=len(some))


def run_after(ctx, case):
    """Every tool after the first one, with either of them set in any way."""
    import matplotlib.pyplot as plt
    first = case['first']
    inp = ctx.tmpdir()
    make_inputs(inp, 4)
    second = case['second']
    heads = [{}, loaded(first)]
    if first in LINES and second in LINES:
        heads += [{'clf': False}, {'clf': False, 'show': False}]
    one = values(first)
    if not case['deep']:
        one = [(k, alts[0]) for k, alts in options(first)]
        if second not in FEW:
            one = []
    heads += [complete({k: v}) for k, v in one
              if k not in ('title', 'xlabel', 'ylabel', 'cbarlabel', 'clf') and
              (k, v) != ('show', True)]
    for h, kw in enumerate(heads):
        tails = [{}]
        if 0 < h < 2 or case['deep']:
            tails.append(loaded(second))
        for kw2 in tails:
            plt.close('all')
            ctx.state(first, repr(sorted(kw.items())), second,
                      repr(sorted(kw2.items())))
            what = lambda: '%s with %s after %s with %s' % (
                second, kw2, first, kw)
            with ctx.guard('%s with %s' % (first, kw)):
                kept = draw(ctx, lambda: '%s with %s' % (first, kw), first,
                            inp, kw)
            with ctx.guard(what()):
                draw(ctx, what, second, inp, kw2, kept)
    ctx.sample(first=first, second=second, settings=len(heads))


def png(path):
    """(width, height, alpha of the corner)."""
    import matplotlib.image
    with open(path, 'rb') as fp:
        raw = fp.read(26)
    if raw[:8] != b'\x89PNG\r\n\x1a\n':
        return None
    w, h = struct.unpack('>II', raw[16:24])
    pixels = matplotlib.image.imread(path)
    alpha = pixels[0, 0, 3] if pixels.shape[2] == 4 else 1.
    return w, h, float(alpha)


def run_saved(ctx, case):
    """All settings of size, resolution and background of saved figures."""
    import matplotlib.pyplot as plt
    tool = case['tool']
    inp = ctx.tmpdir()
    make_inputs(inp, 4)
    sizes = [None]
    if tool in MAPS:
        sizes += [(300., 200.), (120, 90)]
    v = 0
    for dims, dpi, clear, show in itertools.product(
            sizes, (None, 75, 50), (None, True, False), (False, True)):
        plt.close('all')
        v += 1
        if dims is None and dpi is None and v % 2:
            continue                    # large images
        kw = {'show': show}
        for k, val in (('dims', dims), ('dpi', dpi), ('transparent', clear)):
            if val is not None:
                kw[k] = val
        if v % 3 == 0:
            kw['title'] = 'T'
        root = ctx.tmpdir()
        many = tool.endswith('outlines')
        kw['save_fig'] = root + ('/f' if many else '/f.png')
        ctx.state(tool, 'saved', dims, dpi, clear, show)
        what = lambda: '%s with %s' % (tool, kw)
        with ctx.guard(what()):
            draw(ctx, what, tool, inp, kw)
            paths = [root + '/f.png']
            if many:
                paths = ['%s/f%05d.png' % (root, 1 + i)
                         for i in range(4 if tool == 'outlines' else 2)]
            found = sorted(root + '/' + f for f in os.listdir(root))
            if not ctx.check(found == paths, lambda: '%s: saved %s, not %s' % (
                    what(), found, paths)):
                continue
            res = dpi or 150
            size = tuple(int(s) for s in dims) if dims else (
                round(6.4 * res), round(4.8 * res))
            for p in paths:
                got = png(p)
                ctx.check(got is not None and abs(got[0] - size[0]) <= 1
                          and abs(got[1] - size[1]) <= 1
                          and (got[2] == 0.) == bool(clear), lambda:
                          '%s: %s is an image of (width, height, opacity) %s, not '
                          '%s and opacity %s' % (what(), p, got, size,
                                                 0. if clear else 1.))
    ctx.sample(tool=tool, settings=v)


def run_names(ctx, case):
    """Figures of a series are numbered like its bundles of files.

    A file which can not be read takes out the figure of its own bundle only.
    """
    from strata.interface.view import view_interfaces
    average = case['average']
    inp = ctx.tmpdir()
    make_inputs(inp, 6)
    worse = ctx.tmpdir()
    make_inputs(worse, 6)
    with open(worse + '/i00004.xvg', 'w') as fp:
        fp.write('# nothing to read\n1.0 what\n')
    for begin, end, show, ext, broken in itertools.product(
            (1, 2, 3, 4), (None, 4, 5, 9), (False, True), (None, '.png', '.pdf'),
            (False, True)):
        out = ctx.tmpdir()
        kw = {'begin': begin, 'average': average, 'show': show,
              'save_fig': out + '/f', 'dpi': 20}
        if end:
            kw['end'] = end
        if ext:
            kw['extfig'] = ext
        ctx.state('names', begin, end, average, show, ext, broken)
        what = lambda: 'figures of interfaces%s with %s' % (
            ' (4 unreadable)' if broken else '', kw)
        with ctx.guard(what()), Quiet(), Watch() as watch:
            view_interfaces((worse if broken else inp) + '/i', quiet=True, **kw)
            ctx.step()
            files = min(6, end or 6) - begin + 1
            number = -(-begin // average)
            want = ['f%05d%s' % (number + k, ext or '.png')
                    for k in range(max(0, files) // average)
                    if not broken or not begin + k * average <= 4
                    < begin + (k + 1) * average]
            ok = ctx.check(sorted(os.listdir(out)) == want, lambda:
                           '%s: saved %s, not %s' % (
                               what(), sorted(os.listdir(out)), want))
            ok &= ctx.check(len(watch.shown) == (len(want) if show else 0),
                            lambda: '%s: shows %d figures' % (
                                what(), len(watch.shown)))
            if ok:
                ctx.trace()
    ctx.sample(average=average)


def run_field(ctx, case):
    """Arrows of records, with any labels, in any order and with any limits."""
    import matplotlib
    import matplotlib.pyplot as plt
    from droplets.data_utils import get_lim_indices
    from droplets.flow import FlowData
    from droplets.flowfield import draw_flowfield
    matplotlib.rcdefaults()
    for labels in (NAMES[case['names']],):
        for nx, ny in ((1, 1), (1, 3), (3, 1), (3, 2), (5, 4)):
            x, y = [a.ravel() for a in np.meshgrid(np.arange(nx) * 0.5 - 1., np.arange(ny) + 2.)]
            values = [x, y, np.sin(3. * x + y), x - 0.25 * y, x + 10. * y]
            orders = list(itertools.permutations(range(5)))
            for stored in orders if (nx, ny) == (3, 2) else (orders[0], orders[-1]):
                flow = FlowData(*[(labels[k], values[k]) for k in stored])
                lims = ({}, {labels[0]: (-0.5, None)}, {labels[2]: (None, 0.5), labels[1]: (2., 4.)})
                for drawn, lim in itertools.product((2, 4, 5), lims):
                    if drawn == 2 and (nx == 1 or ny == 1):
                        continue
                    # without positions arrows stand at their numbers
                    pick = (2, 3) if drawn == 2 else tuple(range(drawn))
                    ctx.state(labels, nx, ny, stored, drawn, len(lim))
                    what = 'arrows of %s of a record of %s with limits %s' % (
                        [labels[k] for k in pick], flow.properties, lim)
                    keep = np.ones(x.size, dtype=bool)
                    for k, l in enumerate(labels):
                        lo, hi = lim.get(l, (None, None))
                        keep &= values[k] >= (-9e9 if lo is None else lo)
                        keep &= values[k] <= (9e9 if hi is None else hi)
                    if not keep.any():
                        continue
                    plt.close('all')
                    with ctx.guard(what):
                        before = flow.data.copy()
                        data = flow.data[get_lim_indices(flow.data, lim)]
                        kw = {}
                        if pick != (0, 1, 2, 3) or labels[0] != 'X':
                            kw['fields'] = tuple(labels[k] for k in pick)
                        got = draw_flowfield(data, **kw)
                        ctx.step()
                        want = [v[keep] for v in values]
                        axes = plt.gcf().axes
                        ok = ctx.check(isinstance(got, matplotlib.quiver.Quiver) and
                                       len(axes) == 1 and list(axes[0].collections) == [got],
                                       what + ' are not the figure')
                        ok = ok and ctx.check(
                            (drawn == 2 or np.array_equal(np.asarray(got.XY), np.array(want[:2]).T)) and
                            np.array_equal(got.U, want[2]) and np.array_equal(got.V, want[3]) and
                            (drawn != 5 or np.array_equal(np.asarray(got.get_array()), want[4])), lambda:
                            '%s: drawn at %s with %s, %s' % (what, got.XY, got.U, got.V))
                        ok = ok and ctx.check(np.array_equal(before, flow.data), what + ': the record changed')
                        if ok:
                            ctx.trace()
                            ctx.nontrivial += 1
    plt.close('all')
