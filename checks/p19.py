"""P19: quantities sampled from flow maps against their definitions."""

import itertools
import math
import warnings

import numpy as np

from checks.common import ALL, LARGE, Grid, close, fillings, shuffles

PROPERTY = 'P19'
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all polynomial flow fields built from up to two '
             'monomials per component x grid shapes x unequal spacings x bin '
             'orders, and of all assignments of small values to tiny maps, with '
             'closed-form and bin-by-bin definitions as oracle, and of all '
             'mirrorings and rotations of the map')
NOTE = ('dissipation is a quadratic form in the field, so all pairs of monomials '
        'up to second order decide it for all quadratic fields; values of the '
        'other quantities are enumerated on maps of up to 6 bins; on larger maps '
        'selected pairs of fields and regular patterns')
RULE = ('a case is one grid shape and geometry with a block of fields, or one '
        'tiny map shape with all its value assignments')
ASSUMPTIONS = ['the flow is at most quadratic where dissipation is compared with '
               'its analytical value', 'at least 3 bins along each axis for '
               'dissipation']
CHUNK = 1

GEOMETRY = [((0., 0.), (1., 1.)), ((-3.5, 2.), (0.5, 1.)),
            ((0.5, -7.), (1., 0.25)), ((-0.83, 0.2), (0.1, 0.3)),
            ((-0.75, -0.5), (0.25, 0.5))]

# monomials x^a y^b
MONO = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)]


def fields():
    """Polynomials {monomial: coefficient} with up to two monomials."""
    out = [{}]
    for m in MONO:
        out.append({m: 1.})
    for a, b in itertools.combinations(MONO, 2):
        for s in (1., -2.):
            out.append({a: 1., b: s})
    return out


def cases(tier):
    quick = tier == 'quick'
    shapes = [(3, 3), (3, 4), (5, 3), (4, 6)]
    if not quick:
        shapes += [(4, 4), (7, 3), (3, 8), (6, 5)]
    n = len(fields())
    for shape in shapes:
        for g in range(len(GEOMETRY)):
            if quick and (shape[0] + g) % 2 and shape != (3, 4):
                continue
            for lo in range(0, n, 4):
                yield {'kind': 'diss', 'shape': list(shape), 'geom': g,
                       'lo': lo, 'hi': min(n, lo + 4), 'full': not quick}
    for shape in ((1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (3, 2), (2, 3)):
        if shape[0] * shape[1] > (4 if quick else 6):
            continue
        for g in range(len(GEOMETRY)):
            yield {'kind': 'values', 'shape': list(shape), 'geom': g,
                   'full': not quick}
    for g in range(len(GEOMETRY)):
        yield {'kind': 'labels', 'geom': g}
    for shape in ((12, 9), (40, 3), (3, 40), (31, 17)) + (
            () if quick else ((70, 31), (24, 90))):
        for g in range(len(GEOMETRY)):
            for lo in range(0, n, 12):
                yield {'kind': 'diss', 'shape': list(shape), 'geom': g,
                       'lo': lo, 'hi': min(n, lo + 12), 'full': not quick,
                       'every': 19 if shape[0] * shape[1] < 600 else 97}
    for shape in LARGE:
        for g in range(len(GEOMETRY)):
            yield {'kind': 'large', 'shape': list(shape), 'geom': g}


def run(ctx, case):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    {'diss': run_diss, 'values': run_values, 'labels': run_labels,
     'large': run_large}[
        case['kind']](ctx, case)


def poly(p, x, y, dx=0, dy=0):
    """Value of the polynomial or of one of its first derivatives."""
    out = np.zeros_like(x)
    for (a, b), c in p.items():
        if dx:
            if a:
                out = out + c * a * x ** (a - 1) * y ** b
        elif dy:
            if b:
                out = out + c * b * x ** a * y ** (b - 1)
        else:
            out = out + c * x ** a * y ** b
    return out


def definition(mu, ux, uy, vx, vy):
    """Dissipation from the rate of deformation: twice the viscosity times
    the squared norm of its part without volume change."""
    div = (ux + vy) / 3.
    e11, e22, e33, e12 = ux - div, vy - div, -div, 0.5 * (uy + vx)
    return 2. * mu * (e11 ** 2 + e22 ** 2 + e33 ** 2 + 2. * e12 ** 2)


def orders(n):
    idx = np.arange(n)
    return [idx, idx[::-1], np.concatenate([idx[1::2], idx[::2]]),
            np.concatenate([idx[n // 2:], idx[:n // 2]])]


def records(data, names=ALL):
    return sorted(tuple(float(r[l]) for l in names) for r in data)


def by_position(flow, values, grid):
    """Sampled values as an array [column, layer], by the bins' positions."""
    out = np.full((grid.nx, grid.ny), np.nan)
    i = np.rint((flow.data['X'] - grid.x[0]) / grid.spacing[0]).astype(int)
    j = np.rint((flow.data['Y'] - grid.y[0]) / grid.spacing[1]).astype(int)
    out[i, j] = np.asarray(values).ravel()
    return out


def turned(grid, how):
    """The map mirrored along x or y, or turned a quarter counter-clockwise."""
    v = grid.values
    if how == 'x':
        out = grid.copy()
        for l in v:
            out.values[l] = v[l][::-1].copy()
        out.values['U'] *= -1
    elif how == 'y':
        out = grid.copy()
        for l in v:
            out.values[l] = v[l][:, ::-1].copy()
        out.values['V'] *= -1
    else:
        out = Grid(grid.ny, grid.nx, grid.corner, grid.spacing[::-1])
        for l in v:
            out.values[l] = v[l].T[::-1].copy()
        out.values['U'], out.values['V'] = (-out.values['V'],
                                            out.values['U'].copy())
    return out


def turn_back(values, how):
    """Value at each original bin from the values on the turned map."""
    return {'x': values[::-1], 'y': values[:, ::-1], 'r': values[::-1].T}[how]


def dissipation(ctx, grid, order, mu, what, **kw):
    from droplets.sample import sample_viscous_dissipation
    flow = grid.flow(order)
    saved = records(flow.data)
    got = sample_viscous_dissipation(flow, mu, **kw)
    ctx.step()
    ctx.check(records(flow.data) == saved, lambda: '%s: the records changed' %
              what())
    if not ctx.check(np.asarray(got).shape == (grid.ny, grid.nx), lambda:
                     '%s: shape %s' % (what(), np.asarray(got).shape)):
        return None
    return by_position(flow, got, grid)


def run_diss(ctx, case):
    nx, ny = case['shape']
    corner, spacing = GEOMETRY[case['geom']]
    every = fields()
    grid = Grid(nx, ny, corner, spacing)
    xs, ys = np.meshgrid(grid.x, grid.y, indexing='ij')
    perms = orders(nx * ny)
    k = case['lo']
    for p, q in itertools.product(every[case['lo']:case['hi']], every):
        k += 1
        if k % case.get('every', 1):
            continue
        mu = (1., 8.44e-4, 0.5)[k % 3]
        grid.values['U'] = poly(p, xs, ys)
        grid.values['V'] = poly(q, xs, ys)
        grid.values['M'] = 1. + (np.arange(nx * ny) % 3).reshape(nx, ny)
        want = definition(mu, poly(p, xs, ys, dx=1), poly(p, xs, ys, dy=1),
                          poly(q, xs, ys, dx=1), poly(q, xs, ys, dy=1))
        scale = mu * max(1., np.abs(want).max() / mu)
        ok = True
        todo = [k % len(perms)] if not case['full'] else range(len(perms))
        for o in todo:
            what = lambda: 'dissipation of U %s V %s on %s, order %d' % (
                p, q, (nx, ny, corner, spacing), o)
            kw = {'weight_label': 'N'} if k % 4 == 2 else {}
            grid.values['N'][:] = 1.5
            got = dissipation(ctx, grid, perms[o], mu, what, **kw)
            if got is None:
                return
            ctx.state(nx, ny, case['geom'], repr(p), repr(q), o)
            ok &= ctx.check(close(got, want, 1e-6, 1e-7 * scale), lambda:
                            '%s: %s, not %s' % (what(), got.tolist(),
                                                want.tolist()))
        if ok:
            ctx.trace()
        if k % 5 == 0:
            for how in ('x', 'y', 'r'):
                other = turned(grid, how)
                got2 = dissipation(ctx, other, None, mu, what)
                if got2 is not None:
                    ctx.check(close(turn_back(got2, how), want, 1e-6,
                                    1e-7 * scale), lambda:
                              '%s turned (%s): %s, not %s' % (
                                  what(), how, got2.tolist(), want.tolist()))
        if k % 7 == 0 and all(a + b < 2 for a, b in list(p) + list(q)):
            # flow weighed by a linear weight: derivatives of the product
            w = 3. + 0.25 * (xs - corner[0])
            grid.values['N'] = w
            u, v = poly(p, xs, ys), poly(q, xs, ys)
            want = definition(
                mu, w * poly(p, xs, ys, dx=1) + 0.25 * u,
                w * poly(p, xs, ys, dy=1), w * poly(q, xs, ys, dx=1) + 0.25 * v,
                w * poly(q, xs, ys, dy=1)) / w ** 2
            got = dissipation(ctx, grid, perms[k % 4], mu, what,
                              weight_label='N')
            if got is not None:
                ctx.check(close(got, want, 1e-6, 1e-7 * scale), lambda:
                          '%s weighed: %s, not %s' % (
                              what(), got.tolist(), want.tolist()))
    ctx.sample(shape=case['shape'], geometry=GEOMETRY[case['geom']],
               U={'x%d y%d' % m: c for m, c in p.items()})


def angle_close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.isfinite(a).all():
        return False
    gap = np.abs((a - b + 180.) % 360. - 180.)
    return bool((gap < 1e-6).all() and (np.abs(a) <= 180.).all())


def run_values(ctx, case):
    """Energy, angles and centre of mass of all small assignments."""
    nx, ny = case['shape']
    n = nx * ny
    corner, spacing = GEOMETRY[case['geom']]
    grid = Grid(nx, ny, corner, spacing)
    perms = orders(n)
    k = 0
    # M is enumerated completely; U, V run through all small vectors
    flows = list(itertools.product((-1., 0., 2.), repeat=2))
    for masses in itertools.product((0., 1., 2.5), repeat=n):
        for shift in range(len(flows)):
            if n > 4 and shift % 3:
                continue
            k += 1
            m = np.array(masses).reshape(nx, ny)
            uv = [flows[(shift + (2 * b + 1) * (k % 4 + 1)) % 9] for b in range(n)]
            u = np.array([a for a, _ in uv]).reshape(nx, ny)
            v = np.array([b for _, b in uv]).reshape(nx, ny)
            grid.values.update(M=m, U=u, V=v, N=0. * m, T=0. * m)
            ctx.state('values', nx, ny, case['geom'], masses, shift)
            check_values(ctx, grid, perms[k % 4], lambda: 'M %s U %s V %s' % (
                m.tolist(), u.tolist(), v.tolist()))
    ctx.sample(shape=case['shape'], masses=masses)


def run_large(ctx, case):
    """The same on larger maps."""
    nx, ny = case['shape']
    corner, spacing = GEOMETRY[case['geom']]
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    stored = list(shuffles(nx, ny))
    for k, (name, mask) in enumerate(fillings(nx, ny)):
        for scale in (1., 1e-3, 1e6):
            grid = Grid(nx, ny, corner, spacing)
            grid.values['M'] = np.where(mask, scale * (1. + (3 * i + j) % 7), 0.)
            grid.values['U'] = (i * 5 + j) % 9 - 3.25
            grid.values['V'] = 0.5 * ((i + 7 * j) % 11) - 2.25
            order, indices = stored[k % len(stored)]
            ctx.state('large', nx, ny, case['geom'], name, scale)
            check_values(ctx, grid, indices, lambda:
                         '%s of %dx%d geometry %d stored %s, masses about %g' % (
                             name, nx, ny, case['geom'], order, scale))
    ctx.sample(shape=case['shape'])


def check_values(ctx, grid, order, what):
    from droplets.sample import (sample_center_of_mass, sample_flow_angle,
                                 sample_inertial_energy)
    n = grid.nx * grid.ny
    m, u, v = [grid.values[l] for l in 'MUV']
    xs, ys = np.meshgrid(grid.x, grid.y, indexing='ij')
    flow = grid.flow(order)
    before = flow.data.copy()
    flat = lambda a: a.ravel()[order]
    ok = ctx.check(close(sample_inertial_energy(flow),
                         flat(0.5 * m * (u * u + v * v))),
                   lambda: 'energy of %s' % what())
    want = np.degrees(np.arctan2(v, u))
    moving = flat((u != 0) | (v != 0))
    got = np.asarray(sample_flow_angle(flow))
    ok &= ctx.check(got.shape == (n,) and angle_close(
        got[moving], flat(want)[moving]), lambda:
        'angles of %s: %s' % (what(), got.tolist()))
    for weight, w in ((None, np.ones_like(m)), ('M', m)):
        a, b = float((u * w).sum()), float((v * w).sum())
        if abs(a) + abs(b) > 1e-9:
            got = sample_flow_angle(flow, mean=True, weight=weight)
            ok &= ctx.check(np.ndim(got) == 0 and angle_close(
                got, math.degrees(math.atan2(b, a))), lambda:
                'mean angle (weight %s) of %s: %s' % (
                    weight, what(), got))
    if m.sum() > 0:
        got = sample_center_of_mass(flow)
        ref = ((xs * m).sum() / m.sum(), (ys * m).sum() / m.sum())
        ok &= ctx.check(len(got) == 2 and close(got, ref, 1e-9, 1e-9),
                        lambda: 'centre of mass of %s: %s, not %s' % (
                            what(), got, ref))
    else:
        try:
            sample_center_of_mass(flow)
            ok &= ctx.check(False, lambda: 'centre of mass of nothing')
        except ZeroDivisionError:
            pass
    ctx.step(5)
    ok &= ctx.check(np.array_equal(before, flow.data), lambda:
                    'the map %s changed' % what())
    if ok:
        ctx.trace()


def run_labels(ctx, case):
    """Other field names give the same values."""
    from droplets.flow import FlowData
    from droplets import sample as s
    corner, spacing = GEOMETRY[case['geom']]
    grid = Grid(4, 3, corner, spacing)
    k = np.arange(12.).reshape(4, 3)
    names = {'X': 'a', 'Y': 'b', 'U': 'c', 'V': 'd', 'M': 'e', 'N': 'f', 'T': 'g'}
    for seed in range(12):
        for l, c in zip('UVMNT', (3, 5, 7, 2, 1)):
            grid.values[l] = 1. + ((c * k + seed) % 5)
        grid.values['U'] -= 3.
        data = grid.data()
        for o in orders(12):
            plain = grid.flow(o)
            other = FlowData(*[(names[l], data[l][o]) for l in ALL],
                             info=grid.info())
            # decoys under the usual names
            decoy = FlowData(*[(names[l], data[l][o]) for l in ALL],
                             *[(l, data['N'][o] * 0. + 9.) for l in ALL],
                             info=grid.info())
            for flow in (other, decoy):
                ctx.state('labels', case['geom'], seed, tuple(o.tolist()),
                          flow is decoy)
                ok = ctx.check(close(
                    s.sample_center_of_mass(plain), s.sample_center_of_mass(
                        flow, mass_label='e', coord_labels=('a', 'b'))),
                    'centre of mass with other labels')
                ok &= ctx.check(close(
                    s.sample_center_of_mass(plain, mass_label='N'),
                    s.sample_center_of_mass(flow, mass_label='f',
                                            coord_labels=('a', 'b'))),
                    'centre of number with other labels')
                ok &= ctx.check(close(
                    s.sample_inertial_energy(plain), s.sample_inertial_energy(
                        flow, mass_label='e', flow_labels=('c', 'd'))),
                    'energy with other labels')
                for mean in (False, True):
                    ok &= ctx.check(close(
                        s.sample_flow_angle(plain, mean=mean,
                                            weight='M' if mean else None),
                        s.sample_flow_angle(flow, flow_labels=('c', 'd'),
                                            mean=mean,
                                            weight='e' if mean else None)),
                        'flow angle with other labels')
                ok &= ctx.check(close(
                    s.sample_viscous_dissipation(plain.copy(), 2.),
                    s.sample_viscous_dissipation(
                        flow.copy(), 2., coord_labels=('a', 'b'),
                        flow_labels=('c', 'd'))),
                    'dissipation with other labels')
                ctx.step(6)
                if ok:
                    ctx.trace()
