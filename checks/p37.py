"""P37: fields and axes may carry any names."""

import itertools
import warnings

import numpy as np

from checks.common import ALL, Grid, Quiet

PROPERTY = 'P37'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all exchanges and rotations of the names of fields over '
             'maps, operations and orders of fields, each run on the real code and '
             'compared with the same run under the usual names')
NOTE = ('all transpositions and rotations of the seven names, fresh names, and names '
        'which other fields use by default (thorough: all 5040 permutations on one '
        'map); fields stored in three orders; fillings of maps of up to 20 bins; '
        'maps with and without unused fields under the usual names; the maps of an '
        'average hold their fields in different orders')
RULE = ('a case is one operation on one shape of map; its states are the fillings, '
        'settings, names and orders of fields')
ASSUMPTIONS = ['operations which take the names of the fields that they use are told '
               'all of them', 'the axis named first is horizontal']
CHUNK = 1

FRESH = ('a', 'b', 'c', 'd', 'e', 'f', 'g')


def transpositions():
    for i, j in itertools.combinations(range(7), 2):
        new = list(ALL)
        new[i], new[j] = new[j], new[i]
        yield tuple(new)


def rotations():
    for k in range(1, 7):
        yield tuple(ALL[k:] + ALL[:k])


OTHER = [FRESH, tuple(reversed(ALL)), tuple('f%d' % k for k in range(7)),
         tuple('f%d' % k for k in reversed(range(7))),
         ('x', 'y', 'n', 't', 'm', 'u', 'v'), ('y', 'x', 'm', 'u', 't', 'v', 'n'),
         ('Y', 'a', 'b', 'c', 'd', 'e', 'f'), ('a', 'X', 'b', 'c', 'd', 'e', 'f'),
         ('left edge', 'height (nm)', 'n', 'T/K', 'm-3', 'u v', 'size'),
         ('X', 'Y', 'c', 'd', 'e', 'f', 'g'), ('a', 'b') + tuple(ALL[2:])]
NAMES = list(transpositions()) + list(rotations()) + OTHER
ORDERS = (tuple(range(7)), tuple(reversed(range(7))), (4, 1, 5, 0, 6, 3, 2))

GEOMETRY = (((0., 0.), (1., 1.)), ((-2.5, 0.75), (0.5, 0.25)), ((3., -1.), (0.25, 1.)))
SHAPES = ((2, 2), (2, 3), (3, 2), (4, 2), (3, 3), (5, 4))


def pattern(nx, ny, bits, geo, low=0.25, high=2.):
    """A map whose heavy bins are those in the pattern."""
    corner, spacing = GEOMETRY[geo]
    k = np.arange(nx * ny).reshape(nx, ny)
    heavy = (bits >> k) & 1 == 1
    grid = Grid(nx, ny, corner, spacing)
    grid.values['M'] = np.where(heavy, high + 0.125 * (k % 3), low * (k % 4 > 0))
    grid.values['N'] = 1. + (k * 5 + bits) % 4
    grid.values['T'] = 300. + (k * 7) % 11
    grid.values['U'] = (k * 3 + bits) % 5 - 1.75
    grid.values['V'] = (k * k + 2 * bits) % 7 - 2.5
    return grid


def wide(nx, ny, kind, geo):
    """A droplet on a larger map."""
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    at = (nx // 2, 1, nx - 2)[kind % 3]
    off = np.abs(i - at)
    if kind % 2:
        off = np.minimum(off, nx - off)
    mask = (off <= nx // 3 - j // 2) & (j < ny - 1)
    bits = sum(1 << int(k) for k in np.flatnonzero(mask.ravel()))
    corner, spacing = GEOMETRY[geo]
    k = i * ny + j
    grid = Grid(nx, ny, corner, spacing)
    grid.values['M'] = np.where(mask, 2. + 0.125 * (k % 3), 0.25 * (k % 4 > 0))
    grid.values['N'] = 1. + k % 4
    grid.values['T'] = 300. + (k * 7) % 11
    grid.values['U'] = (k * 3) % 5 - 1.75
    grid.values['V'] = (k * k) % 7 - 2.5
    return grid


def layered(grid, names, order, decoys=False):
    """Bins of a map along x first, as one of FlowData under the names."""
    from droplets.flow import FlowData
    data = grid.data()
    fields = [(names[k], data[ALL[k]]) for k in order]
    if decoys:
        nan = np.full(grid.nx * grid.ny, 77.) + np.arange(grid.nx * grid.ny) % 3
        fields += [(l, nan.copy()) for l in ALL if l not in names]
    flow = FlowData(*fields, info=grid.info())
    flow.sort(coord_labels=(names[0], names[1]))
    return flow


class Map(object):
    """A map with its names, for one run of an operation."""

    def __init__(self, grid, names, order, decoys):
        self.grid, self.names, self.order, self.decoys = grid, names, order, decoys
        self.to = dict(zip(ALL, names))

    def n(self, *labels):
        got = tuple(self.to[l] for l in labels)
        return got if len(got) > 1 else got[0]

    @property
    def xy(self):
        return self.n('X', 'Y')

    @property
    def weights(self):
        return [self.n('U', 'M'), self.n('V', 'M'), self.n('T', 'N')]

    def flow(self, grid=None, turn=0):
        order = self.order[turn:] + self.order[:turn]
        return layered(grid or self.grid, self.names, order, self.decoys)

    def back(self, value):
        """A result under the usual names."""
        if value is None or isinstance(value, (str, bool)):
            return value
        if hasattr(value, 'properties'):
            return [self.back(value.data), self.back(value.shape),
                    self.back(value.spacing), self.back(value.origin),
                    self.back(value.num_bins)]
        if isinstance(value, np.ndarray) and value.dtype.names:
            return [(l, np.array(value[self.to[l]], dtype=float)) for l in ALL
                    if self.to[l] in value.dtype.names]
        if isinstance(value, (list, tuple)):
            return [self.back(v) for v in value]
        return np.array(value, dtype=float)


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and bool(
            np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True))
    return type(a) == type(b) and a == b


# -- operations -----------------------------------------------------------------------
# each returns (setting, call) pairs; a call takes a Map

def moved(grid, k):
    """The map k columns and layers further, with other values."""
    out = grid.copy()
    out.corner = (grid.corner[0] + k * grid.spacing[0],
                  grid.corner[1] + (k % 2) * grid.spacing[1])
    out.values['U'] = grid.values['U'] + k
    out.values['M'] = grid.values['M'][::-1] + 0.5 * k
    return out


def averages(grid):
    from droplets.average import average_data, average_flow_data, \
        get_combined_grid, transfer_data
    for others in ((), (0,), (1,), (1, 2)):
        for weighted in (False, True):
            yield ('average', others, weighted), lambda m, o=others, w=weighted: \
                average_flow_data([m.flow()] + [m.flow(moved(grid, k), 2 * k + 1) for k in o],
                                  weights=m.weights if w else [], coord_labels=m.xy)
    for weighted in (False, True):
        yield ('records', weighted), lambda m, w=weighted: average_data(
            [m.flow().data, m.flow(moved(grid, 0), 3).data],
            weights=m.weights if w else [], coord_labels=m.xy)

    def project(m):
        flows = [m.flow(), m.flow(moved(grid, 1), 4)]
        common = get_combined_grid([f.data for f in flows], grid.spacing,
                                   coord_labels=m.xy)
        return [transfer_data(common, f.data, f.shape, grid.spacing,
                              coord_labels=m.xy) for f in flows]
    yield 'projected', project


def resampled(grid):
    from droplets.resample import downsample_flow_data, supersample_flow_data
    xs, ys = grid.x, grid.y
    for factor in (1, 2, 3):
        for weighted in (False, True):
            yield ('split', factor, weighted), lambda m, f=factor, w=weighted: \
                supersample_flow_data(m.flow(), f, coord_labels=m.xy,
                                      weights=m.weights if w else [])
    for num in ((1, 1), (2, 1), (1, 2), (2, 2)):
        for lims in ({}, {'xlim': (xs[1] - 0.1, None)}, {'ylim': (None, ys[-2] + 0.1)},
                     {'xlim': (xs[0], xs[-2]), 'ylim': (ys[0], ys[-1])}):
            yield ('combine', num, sorted(lims)), lambda m, n=num, l=lims: \
                downsample_flow_data(m.flow(), n, coord_labels=m.xy,
                                     weights=m.weights, **l)


def samples(grid):
    from droplets import sample as s
    middle = (float(grid.x.mean()) + 0.03, float(grid.y.mean()) - 0.02)
    for mass in ('M', 'N'):
        yield ('centre', mass), lambda m, l=mass: s.sample_center_of_mass(
            m.flow(), mass_label=m.n(l), coord_labels=m.xy)
        yield ('energy', mass), lambda m, l=mass: s.sample_inertial_energy(
            m.flow(), mass_label=m.n(l), flow_labels=m.n('U', 'V'))
    for mean, weight in ((False, None), (True, None), (True, 'M'), (True, 'N')):
        yield ('flow angle', mean, weight), lambda m, a=mean, w=weight: \
            s.sample_flow_angle(m.flow(), flow_labels=m.n('U', 'V'), mean=a,
                                weight=m.n(w) if w else None)
    if grid.nx > 2 and grid.ny > 2:
        for weight in (None, 'N'):
            yield ('dissipation', weight), lambda m, w=weight: \
                s.sample_viscous_dissipation(
                    m.flow(), 0.5, coord_labels=m.xy, flow_labels=m.n('U', 'V'),
                    weight_label=m.n(w) if w else None)
    for label, weight, size, lims in (
            ('T', None, 30., {}), ('U', 'M', 45., {'amin': 30., 'amax': 270.}),
            ('M', 'N', 90., {'rmax': 1.1}), ('V', 'T', 20., {'rmin': 0.6})):
        def angles(m, l=label, w=weight, s_=size, k=lims):
            got = s.sample_per_angle_from(
                m.flow(), middle, m.n(l), coord_labels=m.xy,
                weight=m.n(w) if w else None, size=s_, **k)
            return [got['angle'], got[m.n(l)]]
        yield ('per angle', label, weight), angles


def edges(grid):
    from droplets.contact_line import adjust_cell_coordinates, get_contact_line_cells
    from droplets.interface import get_contact_angle, get_interface
    from strata.interface.collect import get_interface_coordinates
    from strata.spreading.collect import get_spreading_edges
    d = grid.spacing
    top = float(grid.y[-1] - grid.y[0])
    floor = float(grid.y[0] + 0.4 * d[1])
    for kw in ({}, {'cutoff': 1.}, {'cutoff_bins': 2}, {'cutoff_radius': 1.5 * max(d)},
               {'cutoff_radius': 1.5 * max(d), 'cutoff_bins': 4}):
        def name(kind):
            return kind, sorted(kw.items())

        for label in ('M', 'N'):
            for longest in (False, True):
                yield name(('interface', label, longest)), \
                    lambda m, k=kw, c=label, s=longest: list(get_interface(
                        m.flow(), m.n(c), coord_labels=m.xy,
                        search_longest_connected=s, **k))
        yield name('layers'), lambda m, k=kw: list(get_interface(
            m.flow(), m.n('M'), coord_labels=m.xy,
            ylims=(float(grid.y[1]), None), **k))
        for low in (None, floor):
            yield name(('angle', low)), lambda m, k=kw, f=low: get_contact_angle(
                m.flow(), top, m.n('M'), coord_labels=m.xy, floor=f, **k)
            yield name(('spreading', low)), lambda m, k=kw, f=low: \
                get_spreading_edges(m.flow(), m.n('M'),
                                    **dict({'cutoff_radius': 1.}, coord_labels=m.xy,
                                           floor=f, **k))
        for area in ((0., 0.), (1.1 * d[0], 1.1 * d[1])):
            def cells(m, k=kw, a=area):
                left, right = get_contact_line_cells(
                    m.flow(), m.n('M'), extract_area=a, coord_labels=m.xy, **k)
                return [left, right,
                        adjust_cell_coordinates(left, 'left', coord_labels=m.xy),
                        adjust_cell_coordinates(right, 'right', coord_labels=m.xy)]
            yield name(('cells', area)), cells
        for recenter in (None, 'zero', 'com'):
            def outline(m, k=kw, r=recenter):
                got, info, index = get_interface_coordinates(
                    m.flow(), m.n('M'), None, None, recenter=r, coord_labels=m.xy, **k)
                return [got['X'], got['Y'], [list(i) for i in info], list(index)]
            yield name(('outline', recenter)), outline


def objects(grid):
    from droplets.data_utils import get_lim_indices
    for label in ALL:
        values = np.sort(grid.data()[label])
        lo, hi = float(values[len(values) // 3]), float(values[-2])
        for lims in ((None, None), (lo, None), (None, hi), (lo, hi)):
            yield ('limits', label, lims), lambda m, l=label, v=lims: \
                m.flow().lims(m.n(l), *v)
            yield ('indices', label, lims), lambda m, l=label, v=lims: \
                np.sort(get_lim_indices(m.flow().data, {m.n(l): v}))
        yield ('data', label), lambda m, l=label: m.flow().get_data(m.n(l))
    yield 'two limits', lambda m: np.sort(get_lim_indices(
        m.flow().data, {m.n('M'): (0.5, None), m.n('Y'): (None, float(grid.y[-2]))}))

    for first, second in itertools.permutations(ALL, 2):
        def ordered(m, a=first, b=second):
            flow = m.flow()
            flow.sort(coord_labels=m.n(a, b))
            # bins equal in both are in any order
            return [flow.data[m.n(a)], flow.data[m.n(b)]]
        yield ('sort', first, second), ordered
    yield 'copy', lambda m: m.flow().copy()


OPERATIONS = {'averages': averages, 'resampled': resampled, 'samples': samples,
              'edges': edges, 'objects': objects}


def cases(tier):
    deep = tier != 'quick'
    for op in OPERATIONS:
        for shape in SHAPES:
            bins = shape[0] * shape[1]
            total = 1 << min(bins, 20)
            for g in range(len(GEOMETRY)):
                step = max(1, total // (48 if deep else 8))
                if bins > 9:
                    yield {'kind': 'maps', 'op': op, 'shape': list(shape), 'geo': g,
                           'bits': [], 'deep': deep}
                else:
                    bits = [b % total for b in range(1 + g, total + g, step)]
                    for k in range(0, len(bits), 8):
                        yield {'kind': 'maps', 'op': op, 'shape': list(shape),
                               'geo': g, 'bits': bits[k:k + 8], 'deep': deep}
        if deep:
            for first in range(7):
                yield {'kind': 'all', 'op': op, 'first': first}


def attempt(call, m):
    """(result, None) or (None, kind of refusal)."""
    try:
        with Quiet():
            return m.back(call(m)), None
    except Exception as err:
        return None, err


def compare(ctx, what, call, grid, ways):
    usual = Map(grid, tuple(ALL), ORDERS[0], False)
    want, refused = attempt(call, usual)
    for names, order, decoys in ways:
        m = Map(grid, names, order, decoys)
        ctx.step()
        got, error = attempt(call, m)
        if refused is not None or error is not None:
            ok = ctx.check(type(refused) == type(error), lambda:
                           '%s with fields %s stored in order %s: %r, and %r with the '
                           'usual names' % (what(), names, order, error, refused))
        else:
            ctx.nontrivial += 1
            ok = ctx.check(same(want, got), lambda:
                           '%s with fields %s stored in order %s: %s, and %s with the '
                           'usual names' % (what(), names, order, got, want))
        if ok:
            ctx.trace()


def run(ctx, case):
    warnings.simplefilter('ignore')
    op = OPERATIONS[case['op']]
    if case['kind'] == 'all':
        grid = wide(5, 4, 0, 1)
        ways = []
        for k, rest in enumerate(itertools.permutations(
                [l for q, l in enumerate(ALL) if q != case['first']])):
            ways.append(((ALL[case['first']],) + rest, ORDERS[k % 3], False))
        settings = list(op(grid))
        for k, way in enumerate(ways):
            # every permutation, over the settings in turn
            setting, call = settings[k % len(settings)]
            ctx.state('all', case['op'], way[0])
            compare(ctx, lambda: '%r of %d by %d bins' % (setting, grid.nx, grid.ny),
                    call, grid, [way])
        return
    nx, ny = case['shape']
    grids = [pattern(nx, ny, b, case['geo']) for b in case['bits']] or \
        [wide(nx, ny, k, case['geo']) for k in range(6)]
    for k, grid in enumerate(grids):
        for s, (setting, call) in enumerate(op(grid)):
            ways = [(names, ORDERS[(q + s + k) % 3], (q + s) % 2 == 1)
                    for q, names in enumerate(NAMES)
                    if case['deep'] or names in OTHER or (q + s + k) % 3 == 0]
            ctx.state(case['op'], nx, ny, case['geo'], k, repr(setting))
            compare(ctx, lambda: '%r of map %d of %d by %d bins' % (
                setting, k, nx, ny), call, grid, ways)
