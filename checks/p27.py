"""P27: derived fields, height maps, contours, arrows and stream lines."""

import itertools
import math
import os
import warnings

import numpy as np

from checks.common import ALL, Grid, Quiet, close, gmx_bytes
from checks.droplet import blots, to_bits

PROPERTY = 'P27'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all filled/empty patterns of small maps x storage '
             'orders x labels x cut-offs x limits through the drawing tools, '
             'reading back the meshes, arrows, stream lines and contour lines of '
             'the figures which are shown, and of all linear and quadratic fields '
             'x grid shapes x unequal spacings x bin orders for derived fields')
NOTE = ('every pattern of maps of up to 6 (quick) or 9 (thorough) bins; every bin '
        'order of maps of up to 6 bins for derived fields; some patterns of maps '
        'of up to 31x17 (quick) or 70x31 bins')
RULE = ('a case is one way of drawing, grid shape, geometry and block of patterns, '
        'or one shape and block of bin orders with its fields')
ASSUMPTIONS = ['at least one bin passes the limits of what is drawn',
               'at least two bins along each axis for derived fields and contours, '
               'three for dissipation', 'contours are drawn without cut-off; limits '
               'on contour values take out the lines beyond them',
               'figures are read through their artists (mesh, arrows, lines)']
CHUNK = 1

GEOMETRY = [((0., 0.), (1., 1.)), ((-0.75, -3.), (0.5, 2.)),
            ((0.5, -7.), (1., 0.25))]
VISCOSITY = 8.77e-4
DERIVED = ('flow', 'visc_diss', 'evaporation', 'grad_rho_x', 'grad_rho_y')
LABELS = ('M', 'N', 'T', 'U', 'V') + DERIVED


def liquid(nx, ny, bits, geom):
    """Map whose bins in `bits` have a mass of at least one."""
    grid = Grid(nx, ny, *GEOMETRY[geom])
    for k in range(nx * ny):
        i, j = divmod(k, ny)
        full = bits >> k & 1
        m = 1. + 0.25 * ((5 * k) % (nx * ny)) if full else 0.125 + 0.03125 * k
        u, v = 0.5 * (k % 3 - 1), 0.25 * (k % 4 - 1)
        if k % 5 == 4:
            u = v = 0.
        for l, w in zip(('M', 'N', 'T', 'U', 'V'),
                        (m, 3. + (7 * k) % 11, 300. + 2. * ((3 * k) % 10), u, v)):
            grid.values[l][i, j] = w
    return grid


def encode(grid, how):
    """The map in one of several formats and storage orders."""
    if how == 0:
        return gmx_bytes(grid, keep=np.ones((grid.nx, grid.ny), dtype=bool))
    data = grid.data()
    n = grid.nx * grid.ny
    rows = list(range(n))
    if how == 1:                                     # along x first
        rows.sort(key=lambda k: (k % grid.ny, k // grid.ny))
    elif how == 2:
        rows.reverse()
    out = [' '.join(ALL)]
    for k in rows:
        out.append(' '.join('%.8f' % data[l][k] for l in ALL))
    return ('\n'.join(out) + '\n').encode('ascii')


# -- definitions --------------------------------------------------------------

def grad(a, h, axis):
    """Central differences inside, one-sided at the ends."""
    a = np.moveaxis(a, axis, 0)
    out = np.empty_like(a)
    out[1:-1] = (a[2:] - a[:-2]) / (2. * h)
    out[0] = (a[1] - a[0]) / h
    out[-1] = (a[-1] - a[-2]) / h
    return np.moveaxis(out, 0, axis)


def grad2(a, h, axis):
    """As `grad`, with second order differences at the ends."""
    a = np.moveaxis(a, axis, 0)
    out = np.empty_like(a)
    out[1:-1] = (a[2:] - a[:-2]) / (2. * h)
    out[0] = (-3. * a[0] + 4. * a[1] - a[2]) / (2. * h)
    out[-1] = (3. * a[-1] - 4. * a[-2] + a[-3]) / (2. * h)
    return np.moveaxis(out, 0, axis)


def field(grid, label):
    """Values [i, j] of a label of the map, by definition."""
    v = grid.values
    if label in v:
        return v[label]
    dx, dy = grid.spacing
    if label == 'flow':
        return np.sqrt(v['U'] ** 2 + v['V'] ** 2)
    if label in ('visc_diss', 'visc'):
        mu, mv = v['M'] * v['U'], v['M'] * v['V']
        ux, uy = grad2(mu, dx, 0), grad2(mu, dy, 1)
        vx, vy = grad2(mv, dx, 0), grad2(mv, dy, 1)
        return VISCOSITY * (2. * (ux ** 2 + vy ** 2 - (ux + vy) ** 2 / 3.)
                            + (vx + uy) ** 2) / v['M'] ** 2
    if label == 'radial':
        xs, ys = np.meshgrid(grid.x, grid.y, indexing='ij')
        x0, y0 = (np.sum(c * v['M']) / np.sum(v['M']) for c in (xs, ys))
        a = np.arctan2(ys - y0, xs - x0)
        return v['U'] * np.sin(a) - v['V'] * np.cos(a)
    gx, gy = grad(v['M'], dx, 0), grad(v['M'], dy, 1)
    if label == 'grad_rho_x':
        return gx
    if label == 'grad_rho_y':
        return gy
    if label == 'evaporation':
        return v['U'] * gx + v['V'] * gy
    raise ValueError(label)


# -- figures ------------------------------------------------------------------

class Show(object):
    """Collects what is in the figure each time one is shown."""

    def __init__(self, read):
        self.read, self.seen = read, []

    def __enter__(self):
        import matplotlib.pyplot as plt
        plt.close('all')
        self._old = plt.show, plt.tight_layout

        def show(*a, **k):
            self.seen.append(self.read(plt.gcf()))
            plt.close('all')
        plt.show, plt.tight_layout = show, lambda *a, **k: None
        return self

    def __exit__(self, *exc):
        import matplotlib.pyplot as plt
        plt.show, plt.tight_layout = self._old
        plt.close('all')
        return False


def artists(fig, kind):
    for ax in fig.axes:
        for a in ax.get_children():
            if isinstance(a, kind):
                yield a


def read_mesh(fig):
    from matplotlib.collections import QuadMesh
    out = []
    for mesh in artists(fig, QuadMesh):
        xy = np.asarray(mesh.get_coordinates(), dtype=float)
        values = np.ma.filled(np.ma.masked_invalid(
            np.ma.asarray(mesh.get_array(), dtype=float)), np.nan)
        values = values.reshape(xy.shape[0] - 1, xy.shape[1] - 1)
        out.append((xy, values, mesh.get_clim()))
    return out


def read_arrows(fig):
    from matplotlib.quiver import Quiver
    out = []
    for q in artists(fig, Quiver):
        c = q.get_array()
        cols = [np.ma.filled(np.ma.asarray(a, dtype=float), np.nan).ravel()
                for a in (q.X, q.Y, q.U, q.V)]
        c = np.ones(len(cols[0])) if c is None else \
            np.ma.filled(np.ma.asarray(c, dtype=float), np.nan).ravel()
        out.append((sorted(zip(*(list(cols) + [c]))), q.get_clim()))
    return out


def read_contours(fig):
    from matplotlib.contour import QuadContourSet
    out = []
    for c in artists(fig, QuadContourSet):
        out.append((c.filled, [float(v) for v in c.levels],
                    [[np.asarray(s, dtype=float) for s in segs]
                     for segs in c.allsegs]))
    return out


# -- cases --------------------------------------------------------------------

def cases(tier):
    quick = tier == 'quick'
    small = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 4), (3, 2), (2, 3)]
    flat = [(2, 2), (3, 2), (2, 3)]
    if not quick:
        small += [(4, 2), (2, 4), (1, 6), (3, 3)]
        flat += [(4, 2), (2, 4), (3, 3)]
    for kind, shapes in (('height', small), ('arrows', small), ('contour', flat),
                         ('lines', flat)):
        for shape in shapes:
            n = 1 << (shape[0] * shape[1])
            for g in range(len(GEOMETRY)):
                if (shape == (3, 3) and g) or (
                        quick and shape[0] * shape[1] == 6
                        and g != 1 + shape[0] % 2):
                    continue
                if shape[0] * shape[1] == 8 and g == 0:
                    continue
                size = 16 if quick else 4
                for lo in range(0, n, size):
                    yield {'kind': kind, 'shape': list(shape), 'geom': g,
                           'lo': lo, 'hi': min(n, lo + size), 'full': not quick}
    for shape in ((12, 9), (31, 17)) + (() if quick else ((9, 40), (70, 31))):
        for k, (_, mask) in enumerate(blots(*shape)):
            for kind in ('height', 'arrows', 'contour'):
                if kind == 'contour' and shape != (12, 9) or \
                        quick and (k + len(kind)) % 3:
                    continue
                bits = to_bits(mask)
                yield {'kind': kind, 'shape': list(shape), 'geom': k % 3,
                       'lo': bits, 'hi': bits + 1, 'full': False}
    for shape in ((2, 2), (2, 3), (3, 2)):
        n = math.factorial(shape[0] * shape[1])
        for lo in range(0, n, 120):
            for g in range(len(GEOMETRY)):
                if quick and n > 100 and (lo // 120 + g) % 3:
                    continue
                yield {'kind': 'order', 'shape': list(shape), 'geom': g, 'lo': lo,
                       'hi': min(n, lo + 120)}
    for shape in ((3, 3), (3, 4), (4, 3), (5, 3)) + (
            () if quick else ((4, 4), (3, 7), (6, 5))):
        for g in range(len(GEOMETRY)):
            for part in range(4):
                yield {'kind': 'poly', 'shape': list(shape), 'geom': g,
                       'part': part}
    for shape in small:
        yield {'kind': 'field', 'shape': list(shape)}
    for g in range(len(GEOMETRY)):
        for shape in ((3, 3), (4, 3), (3, 5)):
            for lo in range(0, 48 if quick else 256, 4):
                yield {'kind': 'derived', 'shape': list(shape), 'geom': g,
                       'lo': lo, 'hi': lo + 4, 'full': not quick}


def run(ctx, case):
    warnings.simplefilter('ignore')
    {'height': run_height, 'arrows': run_arrows, 'contour': run_contour,
     'lines': run_lines, 'order': run_order, 'poly': run_poly,
     'derived': run_derived, 'field': run_field}[case['kind']](ctx, case)


def put_maps(folder, grids, how):
    out = []
    for n, grid in enumerate(grids):
        path = os.path.join(folder, 'm%d.dat' % n)
        with open(path, 'wb') as fp:
            fp.write(encode(grid, how))
        out.append(path)
    return out


def storage(nx, ny, bits):
    """Storage order and format of a map."""
    return bits % 4


def mesh_problem(shown, grid, values, keep, clim):
    """What is wrong with a drawn height map, or None."""
    if len(shown) != 1:
        return '%d meshes in the figure' % len(shown)
    xy, got, _ = shown[0]
    if got.shape not in ((grid.ny, grid.nx), (grid.nx, grid.ny)):
        return 'a mesh of shape %r' % (got.shape,)
    seen = set()
    dx, dy = grid.spacing
    for r in range(got.shape[0]):
        for c in range(got.shape[1]):
            box = xy[r:r + 2, c:c + 2].reshape(-1, 2)
            (x0, y0), (x1, y1) = box.min(axis=0), box.max(axis=0)
            i = int(np.argmin(np.abs(grid.x - 0.5 * (x0 + x1))))
            j = int(np.argmin(np.abs(grid.y - 0.5 * (y0 + y1))))
            if abs(grid.x[i] - 0.5 * (x0 + x1)) > 0.26 * dx or \
                    abs(grid.y[j] - 0.5 * (y0 + y1)) > 0.26 * dy or \
                    (grid.nx > 1 and abs(x1 - x0 - dx) > 0.3 * dx) or \
                    (grid.ny > 1 and abs(y1 - y0 - dy) > 0.3 * dy):
                return 'a cell at (%g..%g, %g..%g) which is no bin' % (x0, x1, y0,
                                                                      y1)
            seen.add((i, j))
            v, w = got[r, c], values[i, j]
            low, high = clim
            inside = keep[i, j] and not (low is not None and w < low - 1e-9) \
                and not (high is not None and w > high + 1e-9)
            if inside and not abs(v - w) <= 1e-5 * max(1., abs(w)):
                return 'bin (%d, %d) is drawn with %r, not %r' % (i, j, v, w)
            if not inside and not (np.isnan(v) or (not keep[i, j] and v == 0.)):
                return 'bin (%d, %d) does not pass but is drawn with %r' % (i, j, v)
    if len(seen) != grid.nx * grid.ny:
        return 'not every bin is drawn'
    return None


def near_limit(values, limits):
    return any(l is not None and np.any(
        (np.abs(values - l) < 1e-6 * max(1., abs(l)))) for l in limits)


def cut_settings(grid, bits, full):
    """(cut-off label, cut-off, bins which pass)."""
    every = np.ones((grid.nx, grid.ny), dtype=bool)
    out = [('M', None, every), ('M', 1., grid.values['M'] >= 1.),
           ('M', 1.125, grid.values['M'] >= 1.125),
           ('T', 304., grid.values['T'] >= 304.),
           (None, 1., every), ('None', 1., every)]
    speed = field(grid, 'flow')
    out.append(('flow', 0.3, speed >= 0.3))
    out.append(('U', 0., grid.values['U'] >= 0.))
    return out


def labels_of(nx, ny, bits, full):
    labels = [l for l in LABELS
              if not ((l in ('evaporation', 'grad_rho_x', 'grad_rho_y')
                       and min(nx, ny) < 2)
                      or (l == 'visc_diss' and min(nx, ny) < 3))]
    if full and nx * ny < 7:
        return [labels[(bits + k) % len(labels)] for k in (0, 2, 5)]
    return [labels[bits % len(labels)], labels[(bits // 3 + 1) % len(labels)]] \
        if nx * ny < 9 else [labels[bits % len(labels)]]


def run_height(ctx, case):
    from strata.view_flowmap import view_flowmap_2d
    nx, ny = case['shape']
    folder = ctx.tmpdir()
    top = (1 << (nx * ny)) - 1
    for bits in range(case['lo'], case['hi']):
        how = storage(nx, ny, bits)
        grids = [liquid(nx, ny, b, case['geom']) for b in (bits, top ^ bits)]
        paths = put_maps(folder, grids, how)
        cuts = [cut_settings(g, bits, case['full']) for g in grids]
        for label in labels_of(nx, ny, bits, case['full']):
            values = [field(g, label) for g in grids]
            spread = np.unique(np.concatenate([v.ravel() for v in values]))
            mid = 0.5 * (spread[len(spread) // 2] + spread[-1]) \
                if len(spread) > 1 else spread[0] - 1.
            low = 0.5 * (spread[0] + spread[len(spread) // 2]) \
                if len(spread) > 1 else spread[0] - 1.
            for s, (cl, co, _) in enumerate(cuts[0]):
                for clim in ((None, None), (low, None), (None, mid)):
                    if near_limit(spread, clim) or (
                            (not case['full'] or nx * ny > 6) and s % 3 != bits % 3 and (
                                clim != (None, None) or nx * ny > 4)):
                        continue
                    vlim = (None, None) if s % 2 else (low, mid)
                    keeps = [c[s][2] for c in cuts]
                    order = [n for n in (0, 1) if keeps[n].any()]
                    if not order:
                        continue
                    ctx.state('height', nx, ny, case['geom'], bits, label, cl, co,
                              clim)
                    with Show(read_mesh) as show, Quiet(), ctx.guard(
                            'drawing %s of pattern %d with cut-off %r %r' % (
                                label, bits, cl, co)):
                        view_flowmap_2d(
                            *[paths[n] for n in order], type='height', label=label,
                            cutoff_label=cl, cutoff=co, clim=clim, vlim=vlim,
                            show=True, dpi=20)
                        ctx.step()
                        if not ctx.check(len(show.seen) == len(order),
                                         '%d maps are drawn of %d' % (
                                             len(show.seen), len(order))):
                            continue
                        for n, shown in zip(order, show.seen):
                            bad = mesh_problem(shown, grids[n], values[n],
                                               keeps[n], clim)
                            ctx.check(bad is None, lambda: (
                                'height map of %s, cut-off %r %r, limits %r, '
                                'pattern %d (map %d): %s' % (
                                    label, cl, co, clim, bits, n, bad)))
                            if bad is None and vlim != (None, None):
                                ctx.check(close(shown[0][2], vlim, 1e-6, 1e-9),
                                          lambda: 'colours of %s between %r, not '
                                          '%r' % (label, shown[0][2], vlim))
                        ctx.trace()
        ctx.nontrivial += 1


def inside(grid, xlim, ylim):
    def within(cs, lims):
        low, high = lims
        return np.array([(low is None or c >= low) and (high is None or c <= high)
                         for c in cs])
    return within(grid.x, xlim)[:, None] & within(grid.y, ylim)[None, :]


def limits_of(grid):
    x, y = grid.x, grid.y
    mx, my = 0.5 * (x[0] + x[-1]), 0.5 * (y[0] + y[-1])
    return [((None, None), (None, None)), ((float(x[0]), None), (None, float(y[-1]))),
            ((None, mx), (None, None)), ((None, None), (my, None)),
            ((mx, None), (None, my)), ((float(x[-1]), float(x[-1])), (None, None)),
            ((0., None), (None, None)), ((None, 0.), (None, None)),
            ((None, None), (0., None)), ((None, None), (None, 0.))]


def run_arrows(ctx, case):
    from strata.view_flowmap import view_flowfields
    nx, ny = case['shape']
    folder = ctx.tmpdir()
    top = (1 << (nx * ny)) - 1
    colours = [None, 'None', 'M', 'T', 'U', 'flow', 'radial']
    if min(nx, ny) > 1:
        colours.append('evaporation')
    if min(nx, ny) > 2:
        colours.append('visc')
    for bits in range(case['lo'], case['hi']):
        grids = [liquid(nx, ny, b, case['geom']) for b in (bits, top ^ bits)]
        paths = put_maps(folder, grids, storage(nx, ny, bits))
        for s, (xlim, ylim) in enumerate(limits_of(grids[0])):
            for c, (cl, co) in enumerate((('M', None), ('M', 1.), ('T', 304.),
                                          (None, None))):
                if not case['full'] and nx * ny > 4 and (s + c + bits) % 4:
                    continue
                if nx * ny > 6 and (s + c + bits) % 4:
                    continue
                if case['full'] and nx * ny < 7:
                    chosen = [colours[(bits + s + c + k) % len(colours)]
                              for k in (0, 2, 5)]
                else:
                    chosen = [colours[(bits + 3 * s + c) % len(colours)]]
                for colour in chosen:
                    want, order = [], []
                    for n, g in enumerate(grids):
                        keep = inside(g, xlim, ylim)
                        if cl is not None and co is not None:
                            keep = keep & (g.values[cl] >= co)
                        keep = keep & ((g.values['U'] != 0.)
                                       | (g.values['V'] != 0.))
                        cs = np.ones((nx, ny)) if colour in (None, 'None') \
                            else field(g, colour)
                        if keep.any():
                            order.append(n)
                            want.append(sorted(
                                (g.x[i], g.y[j], g.values['U'][i, j],
                                 g.values['V'][i, j], cs[i, j])
                                for i, j in zip(*np.nonzero(keep))))
                    if not order:
                        continue
                    ctx.state('arrows', nx, ny, case['geom'], bits, s, c, colour)
                    with Show(read_arrows) as show, Quiet(), ctx.guard(
                            'drawing arrows of pattern %d' % bits):
                        view_flowfields(
                            *[paths[n] for n in order], cutoff_label=cl, cutoff=co,
                            colour=colour, xlim=xlim, ylim=ylim, vlim=(1., 3.),
                            show=True, dpi=20)
                        ctx.step()
                        if not ctx.check(
                                len(show.seen) == len(order), lambda: 'arrows of '
                                'pattern %d, limits %r %r: %d maps are drawn of '
                                '%d' % (bits, xlim, ylim, len(show.seen),
                                        len(order))):
                            continue
                        for shown, w in zip(show.seen, want):
                            ok = len(shown) == 1 and len(shown[0][0]) == len(w) \
                                and close(shown[0][0], w, 1e-5, 1e-6)
                            ctx.check(ok, lambda: 'arrows of pattern %d, cut-off '
                                      '%r %r, limits %r %r, colour %r: (x, y, u, v, '
                                      'colour) %r, not %r' % (
                                          bits, cl, co, xlim, ylim, colour,
                                          shown, w))
                            if ok:
                                ctx.check(close(shown[0][1], (1., 3.)), 'the colour '
                                          'limits of arrows')
                        ctx.trace()
        ctx.nontrivial += 1


def crossings(grid, values, level):
    """Where a level crosses the lines between neighbouring bins."""
    out = []
    for i in range(grid.nx):
        for j in range(grid.ny):
            for a, b in ((i + 1, j), (i, j + 1)):
                if a >= grid.nx or b >= grid.ny:
                    continue
                v, w = values[i, j], values[a, b]
                if (v > level) == (w > level):
                    continue
                t = (level - v) / (w - v)
                out.append((grid.x[i] + t * (grid.x[a] - grid.x[i]),
                            grid.y[j] + t * (grid.y[b] - grid.y[j]),
                            (grid.x[i], grid.x[a], grid.y[j], grid.y[b])))
    return out


def contour_problem(shown, grid, values, levels, filled, vlim):
    if len(shown) != 1:
        return '%d contour sets in the figure' % len(shown)
    is_filled, got, segs = shown[0]
    if is_filled != filled:
        return 'filled: %r, not %r' % (is_filled, filled)
    if levels is not None and not close(got, levels):
        return 'levels %r, not %r' % (got, levels)
    tol = 1e-5 * max(max(abs(grid.x)), max(abs(grid.y)), 1.)
    points = np.array([p for part in segs for s in part for p in s] or
                      np.zeros((0, 2))).reshape(-1, 2)
    for n, level in enumerate(got):
        if np.any(np.abs(values - level) < 1e-6 * max(1., abs(level))):
            continue
        if any(l is not None and (level - l) * s <= 0.
               for l, s in zip(vlim, (1., -1.))):
            if not filled and any(len(s) for s in segs[n]) and any(
                    l is not None and (level - l) * s < -1e-6
                    for l, s in zip(vlim, (1., -1.))):
                return 'level %g is drawn outside of the limits' % level
            continue
        want = crossings(grid, values, level)
        if not filled:
            own = np.array([p for s in segs[n] for p in s] or np.zeros((0, 2)))
            own = own.reshape(-1, 2)
        else:
            own = points
        for x, y, (x0, x1, y0, y1) in want:
            if vlim != (None, None):          # limits move lines along the edge
                near = np.any((own[:, 0] > x0 - tol) & (own[:, 0] < x1 + tol)
                              & (own[:, 1] > y0 - tol) & (own[:, 1] < y1 + tol))
            else:
                near = np.any(np.abs(own - (x, y)).max(axis=1) < tol) \
                    if len(own) else False
            if not near:
                return 'level %g does not cross (%g, %g)' % (level, x, y)
        if not filled and vlim == (None, None):
            for p in own:
                if not any(abs(p[0] - x) < tol and abs(p[1] - y) < tol
                           for x, y, _ in want):
                    return 'level %g at (%g, %g)' % (level, p[0], p[1])
    return None


def run_contour(ctx, case):
    from strata.view_flowmap import view_flowmap_2d
    nx, ny = case['shape']
    folder = ctx.tmpdir()
    top = (1 << (nx * ny)) - 1
    for bits in range(case['lo'], case['hi']):
        grids = [liquid(nx, ny, b, case['geom']) for b in (bits, top ^ bits)]
        paths = put_maps(folder, grids, storage(nx, ny, bits))
        for label in labels_of(nx, ny, bits, case['full']):
            values = [field(g, label) for g in grids]
            if any(np.ptp(v) < 1e-6 for v in values):
                continue
            spread = np.unique(np.concatenate([v.ravel() for v in values]))
            low, high = max(v.min() for v in values), min(v.max() for v in values)
            mid = [0.5 * (a + b) + 0.01 * (b - a)
                   for a, b in zip(spread, spread[1:])
                   if b - a > 1e-6 and low < 0.5 * (a + b) < high]
            settings = [(None, 10, (None, None)), (None, 4, (None, None)),
                        (None, 6, (low + 0.2 * (high - low), None)),
                        (None, 6, (None, high - 0.2 * (high - low)))]
            if low < -0.05 and high > 0.05:
                settings += [(None, 6, (0., None)), (None, 6, (None, 0.))]
            if mid:
                settings += [(mid[:1], 10, (None, None)),
                             (sorted(set([mid[0], mid[-1]])), 10, (None, None))]
            for s, (levels, num, vlim) in enumerate(settings):
                filled = bool((bits + s) % 2) and (levels is None
                                                   or len(levels) > 1)
                if not low < high and vlim != (None, None):
                    continue
                ctx.state('contour', nx, ny, case['geom'], bits, label, s)
                with Show(read_contours) as show, Quiet(), ctx.guard(
                        'contours of %s, pattern %d, levels %r' % (label, bits,
                                                                   levels)):
                    view_flowmap_2d(*paths, type='contour', label=label,
                                    contour_levels=levels, num_contours=num,
                                    filled=filled, vlim=vlim, show=True, dpi=20)
                    ctx.step()
                    if not ctx.check(len(show.seen) == 2, '%d maps are drawn of 2'
                                     % len(show.seen)):
                        continue
                    for n, shown in enumerate(show.seen):
                        bad = contour_problem(shown, grids[n], values[n], levels,
                                              filled, vlim)
                        ctx.check(bad is None, lambda: 'contours of %s, pattern '
                                  '%d (map %d), levels %r, limits %r: %s' % (
                                      label, bits, n, levels, vlim, bad))
                    ctx.trace()
        ctx.nontrivial += 1


def run_lines(ctx, case):
    """What is handed to the drawing of stream lines."""
    from types import SimpleNamespace
    from matplotlib.axes import Axes
    from matplotlib.collections import LineCollection
    from strata.view_flowmap import view_flowfields
    nx, ny = case['shape']
    folder = ctx.tmpdir()
    top = (1 << (nx * ny)) - 1
    seen = []
    really = False
    old = Axes.streamplot

    def streamplot(self, x, y, u, v, *args, **kwargs):
        seen.append((x, y, u, v, kwargs.get('color')))
        if really:                                    # slow
            return old(self, x, y, u, v, *args, **kwargs)
        drawn = LineCollection([])
        self.add_collection(drawn)
        return SimpleNamespace(lines=drawn, arrows=None)

    colours = [None, 'M', 'T', 'flow', 'radial', 'evaporation']
    for bits in range(case['lo'], case['hi']):
        grids = [liquid(nx, ny, b, case['geom']) for b in (bits, top ^ bits)]
        paths = put_maps(folder, grids, storage(nx, ny, bits))
        for s, (xlim, ylim) in enumerate(limits_of(grids[0])[:5]):
            for c, (cl, co) in enumerate((('M', None), ('M', 1.), ('T', 304.),
                                          ('U', 0.))):
                if not case['full'] and nx * ny > 4 and (s + c + bits) % 3:
                    continue
                colour = colours[(bits + s + c) % len(colours)]
                area = inside(grids[0], xlim, ylim)
                cols, rows = area.any(axis=1), area.any(axis=0)
                if cols.sum() < 2 or rows.sum() < 2:
                    continue
                order = [n for n, g in enumerate(grids) if co is None or
                         (area & (g.values[cl] >= co)).any()]
                if not order:
                    continue
                ctx.state('lines', nx, ny, case['geom'], bits, s, c)
                del seen[:]
                really = bits % 8 == 3 and s < 2
                Axes.streamplot = streamplot
                try:
                    with Show(lambda fig: None), Quiet() as quiet, ctx.guard(
                            'stream lines of pattern %d' % bits):
                        view_flowfields(
                            *[paths[n] for n in order], cutoff_label=cl, cutoff=co,
                            colour=colour, xlim=xlim, ylim=ylim, streamlines=True,
                            show=True, dpi=20)
                finally:
                    Axes.streamplot = old
                ctx.step()
                if not ctx.check(len(seen) == len(order), lambda: 'stream lines of '
                                 'pattern %d, limits %r %r: %d maps of %d are drawn '
                                 '(%s)' % (bits, xlim, ylim, len(seen), len(order),
                                           quiet.out[-200:])):
                    continue
                for n, (x, y, u, v, w) in zip(order, seen):
                    g = grids[n]
                    cut = np.zeros((nx, ny), dtype=bool) if co is None \
                        else g.values[cl] < co
                    cut = cut[cols][:, rows].T
                    ok = close(x, g.x[cols]) and close(y, g.y[rows])
                    for got, l in ((u, 'U'), (v, 'V')) + (
                            ((w, colour),) if colour else ()):
                        want = field(g, l)[cols][:, rows].T
                        mask = np.ma.getmaskarray(np.ma.asarray(got))
                        ok = ok and mask.shape == cut.shape and \
                            bool((mask == cut).all()) and \
                            close(np.ma.getdata(got)[~cut], want[~cut], 1e-5, 1e-6)
                    ctx.check(ok, lambda: 'stream lines of pattern %d, cut-off %r '
                              '%r, limits %r %r, colour %r are drawn from %r' % (
                                  bits, cl, co, xlim, ylim, colour,
                                  (x, y, u, v, w)))
                ctx.trace()
        ctx.nontrivial += 1


DENSITIES = [(1., 0., 0.), (0.5, 2., 0.), (4., 0., -0.5), (8., -1., 2.),
             (3., 0.25, 0.25)]
FLOWS = [((1., 0., 0.), (0., 0., 0.)), ((0., 0., 0.), (1., 0., 0.)),
         ((2., 0., 0.), (-3., 0., 0.)), ((0., 1., -2.), (1., 0.5, 0.25))]


def linear(grid, c):
    return c[0] + c[1] * grid.x[:, None] + c[2] * grid.y[None, :]


def run_order(ctx, case):
    """Evaporation of linear densities in every bin order."""
    from strata.view_flowmap import add_evaporation
    nx, ny = case['shape']
    grid = Grid(nx, ny, *GEOMETRY[case['geom']])
    perms = itertools.islice(itertools.permutations(range(nx * ny)), case['lo'],
                             case['hi'])
    for p, perm in enumerate(perms):
        for d, density in enumerate(DENSITIES):
            flow_of = [FLOWS[(p + d) % len(FLOWS)]] if nx * ny > 4 else FLOWS
            for us, vs in flow_of:
                grid.values['M'][:] = linear(grid, density)
                grid.values['U'][:] = linear(grid, us)
                grid.values['V'][:] = linear(grid, vs)
                want = linear(grid, us) * density[1] + linear(grid, vs) * density[2]
                flow = grid.flow(order=list(perm))
                ctx.state('order', nx, ny, case['geom'], perm, density, us, vs)
                with ctx.guard('evaporation of bins in order %r' % (perm,)):
                    add_evaporation(flow)
                    ctx.step()
                    bad = placed(grid, flow.data, {
                        'evaporation': want, 'M': grid.values['M'],
                        'U': grid.values['U'], 'V': grid.values['V']})
                    ctx.check(bad is None, lambda: 'evaporation of density %r in '
                              'flow %r, order %r: %s' % (density, (us, vs), perm,
                                                         bad))
                    ctx.trace()
    ctx.nontrivial += 1


def placed(grid, data, want):
    """What is wrong with the values of fields at their bins, or None."""
    if len(data['X']) != grid.nx * grid.ny:
        return '%d bins' % len(data['X'])
    seen = set()
    for k in range(grid.nx * grid.ny):
        i = int(round((data['X'][k] - grid.x[0]) / grid.spacing[0]))
        j = int(round((data['Y'][k] - grid.y[0]) / grid.spacing[1]))
        if not (0 <= i < grid.nx and 0 <= j < grid.ny):
            return 'a bin at (%r, %r)' % (data['X'][k], data['Y'][k])
        seen.add((i, j))
        for l, v in want.items():
            if np.isnan(v[i, j]):
                continue
            if not abs(float(data[l][k]) - v[i, j]) <= 1e-6 * max(1., abs(v[i, j])):
                return '%s is %r at bin (%d, %d), not %r' % (l, data[l][k], i, j,
                                                             v[i, j])
    return None if len(seen) == grid.nx * grid.ny else 'bins are missing'


def run_poly(ctx, case):
    """Evaporation of quadratic densities, exact away from the edges."""
    from strata.view_flowmap import add_evaporation
    nx, ny = case['shape']
    grid = Grid(nx, ny, *GEOMETRY[case['geom']])
    n = nx * ny
    xs, ys = grid.x[:, None] + 0. * grid.y, grid.y[None, :] + 0. * grid.x[:, None]
    orders = [list(range(n)), list(range(n))[::-1],
              sorted(range(n), key=lambda k: (k % ny, k // ny)),
              sorted(range(n), key=lambda k: (7 * k) % (n + 1))]
    mono = [(xs ** 2, 2. * xs, 0. * xs), (ys ** 2, 0. * xs, 2. * ys),
            (xs * ys, ys, xs), (xs, 0. * xs + 1., 0. * xs),
            (ys, 0. * xs, 0. * xs + 1.)]
    for a, b in itertools.product(range(5), repeat=2):
        for sign in (1., -0.5):
            m, mx, my = (p + sign * q for p, q in zip(mono[a], mono[b]))
            for us, vs in FLOWS:
                grid.values['M'][:] = m
                grid.values['U'][:] = linear(grid, us)
                grid.values['V'][:] = linear(grid, vs)
                want = grid.values['U'] * mx + grid.values['V'] * my
                if a < 3 or b < 3:
                    edge = np.ones((nx, ny), dtype=bool)
                    edge[1:-1, 1:-1] = False
                    want = np.where(edge, np.nan, want)
                flow = grid.flow(order=orders[case['part']])
                ctx.state('poly', nx, ny, case['geom'], case['part'], a, b, sign, us)
                with ctx.guard('evaporation'):
                    add_evaporation(flow)
                    ctx.step()
                    bad = placed(grid, flow.data, {'evaporation': want})
                    ctx.check(bad is None, lambda: 'evaporation of density %d%+g*%d '
                              'in flow %r, order %d: %s' % (
                                  a, sign, b, (us, vs), case['part'], bad))
                    ctx.trace()
    ctx.nontrivial += 1


def run_derived(ctx, case):
    """Drawn derived fields of maps with linear density and flow."""
    from strata.view_flowmap import view_flowfields, view_flowmap_2d
    nx, ny = case['shape']
    folder = ctx.tmpdir()
    coef = [-0.5, 0., 0.25, 1.]
    for q in range(case['lo'], case['hi']):
        ux, uy, vx, vy = (coef[q // 4 ** k % 4] for k in range(4))
        grid = Grid(nx, ny, *GEOMETRY[case['geom']])
        mx, my = [(0., 0.), (0.5, 0.), (0., 0.25), (0.5, -0.125)][(q + q // 4) % 4]
        grid.values['M'][:] = 8. + mx * (grid.x[:, None] - grid.x[0]) \
            + my * (grid.y[None, :] - grid.y[0])
        grid.values['U'][:] = 0.5 + ux * (grid.x[:, None] - grid.x[0]) \
            + uy * (grid.y[None, :] - grid.y[0])
        grid.values['V'][:] = -0.25 + vx * (grid.x[:, None] - grid.x[0]) \
            + vy * (grid.y[None, :] - grid.y[0])
        grid.values['T'][:] = 300.
        path = put_maps(folder, [grid], q % 4)[0]
        exact = {'grad_rho_x': mx + 0. * grid.values['M'],
                 'grad_rho_y': my + 0. * grid.values['M'],
                 'evaporation': mx * grid.values['U'] + my * grid.values['V'],
                 'flow': np.hypot(grid.values['U'], grid.values['V'])}
        if mx == my == 0.:
            exact['visc_diss'] = 0. * grid.values['M'] + VISCOSITY * (
                2. * (ux ** 2 + vy ** 2 - (ux + vy) ** 2 / 3.) + (vx + uy) ** 2)
        else:
            exact['visc_diss'] = field(grid, 'visc_diss')
        ctx.state('derived', nx, ny, case['geom'], q)
        for label, want in sorted(exact.items()):
            with Show(read_mesh) as show, Quiet(), ctx.guard('drawing ' + label):
                view_flowmap_2d(path, type='height', label=label, show=True, dpi=20,
                                clim=(None, None), vlim=(None, None))
                ctx.step()
                bad = mesh_problem(show.seen[0], grid, want,
                                   np.ones((nx, ny), dtype=bool), (None, None))
                ctx.check(bad is None, lambda: '%s of the linear flow %r in density '
                          '%r: %s' % (label, (ux, uy, vx, vy), (mx, my), bad))
        # bins cut by a field which is not the one drawn
        visc = field(grid, 'visc_diss')
        steps = np.unique(visc.round(9))
        cut = 0.5 * (steps[-1] + steps[-2]) if len(steps) > 1 and \
            steps[-1] - steps[-2] > 1e-6 else 0.5 * steps[-1]
        if abs(visc - cut).min() > 1e-7 and (visc >= cut).any():
            with Show(read_mesh) as show, Quiet(), ctx.guard('drawing cut T'):
                view_flowmap_2d(path, type='height', label='M', show=True, dpi=20,
                                cutoff_label='visc', cutoff=cut,
                                clim=(None, None), vlim=(None, None))
                ctx.step()
                bad = mesh_problem(show.seen[0], grid, grid.values['M'], visc >= cut,
                                   (None, None))
                ctx.check(bad is None, lambda: 'mass of the linear flow %r in '
                          'density %r with dissipation of at least %r: %s' % (
                              (ux, uy, vx, vy), (mx, my), cut, bad))
        every = [(c, field(grid, c)) for c in ('radial', 'visc', 'evaporation')]
        for colour, want in every:
            with Show(read_arrows) as show, Quiet(), ctx.guard('arrows, ' + colour):
                view_flowfields(path, colour=colour, show=True, dpi=20)
                ctx.step()
                keep = (grid.values['U'] != 0.) | (grid.values['V'] != 0.)
                rows = sorted((grid.x[i], grid.y[j], grid.values['U'][i, j],
                               grid.values['V'][i, j], want[i, j])
                              for i, j in zip(*np.nonzero(keep)))
                ok = len(show.seen) == 1 and len(show.seen[0][0][0]) == len(rows) \
                    and close(show.seen[0][0][0], rows, 1e-5, 1e-6)
                ctx.check(ok, lambda: 'arrows of the linear flow %r in density %r '
                          'coloured by %s: %r, not %r' % (
                              (ux, uy, vx, vy), (mx, my), colour, show.seen, rows))
        ctx.trace()
    ctx.nontrivial += 1


def run_field(ctx, case):
    """A map drawn as it is, with any fields as coordinates and arrows."""
    import matplotlib.pyplot as plt
    from droplets.flowfield import draw_flowfield
    nx, ny = case['shape']
    top = 1 << (nx * ny)
    for bits in sorted(set((0, 1, top // 3, top - 2, top - 1))):
        grid = liquid(nx, ny, bits, bits % len(GEOMETRY))
        flow = grid.flow()
        for labels in [None] + list(itertools.permutations('XYUV')) + [
                ('X', 'Y', 'U', 'V', c) for c in 'MT']:
            ctx.state('field', nx, ny, bits, labels)
            plt.close('all')
            with Quiet(), ctx.guard('drawing the fields %r' % (labels,)):
                if labels is None:
                    draw_flowfield(flow.data)
                else:
                    draw_flowfield(flow.data, fields=labels)
                ctx.step()
                shown = read_arrows(plt.gcf())
                names = list(labels or 'XYUV')
                cols = [grid.data()[l] for l in names]
                if len(cols) == 4:
                    cols.append(np.ones(nx * ny))
                want = sorted(zip(*cols))
                ctx.check(len(shown) == 1 and len(shown[0][0]) == len(want) and
                          close(shown[0][0], want, 1e-5, 1e-6), lambda: 'the '
                          'fields %r of pattern %d are drawn as %r, not %r' % (
                              labels, bits, shown, want))
                ctx.trace()
            plt.close('all')
    ctx.nontrivial += 1
